// Seams of the deterministic simulator: every source of nondeterminism that the real
// slugs/CUDD code depends on goes through one of the functions declared here.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace dst {

enum Domain { D_NODE, D_ALLOC, D_READ, D_WRITE, D_OPEN, D_CLOSE, D_STDIN, D_STDOUT, D_CLOCK, D_TERM, D_SCHED, D_N };
enum Action { A_NONE, A_GC, A_REORDER, A_FLUSH, A_FAIL, A_FAILALL, A_SHORT, A_EINTR, A_EIO, A_ENOSPC, A_EOF, A_JUMP, A_FIRE, A_SWITCH, A_N };
extern const char *domainName[D_N];
extern const char *actionName[A_N];

struct Event { uint32_t dom, act; uint64_t idx; uint64_t arg; };
struct Rate  { uint32_t dom, act; uint32_t ppm; uint64_t argmax; };   // with probability ppm/1e6 at each index of dom

struct Schedule {
    uint64_t seed = 1;
    std::vector<Rate> rates;              // density mode (decided by the PRNG at each index)
    std::vector<Event> events;            // explicit events (replay / targeted faults)
    std::map<std::string,long> knobs;     // cacheslots, uniqueslots, layout, fill, lifo, memlimit, fuel, disk, randseed, clockstep
    long knob(const std::string &k,long d) const { auto it=knobs.find(k); return it==knobs.end()?d:it->second; }
};

enum EndKind { E_RETURN, E_EXIT, E_SIGNAL, E_EXCEPTION, E_FUEL, E_FLOOD, E_CORRUPT, E_LOST, E_TIMEOUT };
extern const char *endName[];

struct Result {
    EndKind end = E_LOST; int rc = -1; int sig = 0; std::string note;
    std::string out, err;                             // what reached the outside world
    std::map<std::string,std::string> files;          // simulated disk after the run
    std::vector<std::string> opened;                  // files opened for writing
    uint64_t counts[D_N] = {}; uint64_t fired[A_N] = {}; uint64_t steps = 0, gcs=0, reorders=0, swaps=0; uint64_t hash = 0;
    std::vector<Event> trace;                         // fired events (bounded)
    std::string user;                                 // transcript of a scripted client or client payload
    int clientVerdict=0;
    bool ok() const { return end==E_RETURN || end==E_EXIT; }
    std::string describe() const;
};

struct FileIn { std::string data; bool isDir=false; bool unwritable=false; };

struct Job {
    Schedule sched;
    std::vector<std::string> args;                    // argv[1..]
    std::map<std::string,FileIn> disk;                // initial simulated disk
    // Client on standard input: called whenever the program blocks on stdin and has consumed everything so far.
    // Gets all bytes that have reached stdout so far; returns false for end of input.
    std::function<bool(const std::string &seen, std::string &next)> client;
    std::function<std::string()> clientReport;        // runs inside the simulated process at the end
    std::function<int()> body;                        // what to run instead of slugs_main (CUDD properties)
};

void initProcess(int argc,char **argv);               // arenas, no-ASLR re-exec
Result execute(const Job &job);                       // runs one simulated process to its end
uint64_t coverageCount();                             // distinct basic blocks reached so far in this worker (shared bitmap)
Action decide(Domain d,uint64_t *arg);                // consult the schedule (harness code inside the simulated process)
void poisonUser(const std::string &s);                // set Result.user from inside
void failNow(EndKind k,const std::string &note);      // end the simulated process
bool inSim();
void diskFaults(bool on,long left=-1); uint64_t hardDiskFaults(); std::string *diskFile(const std::string&n); void putDiskFile(const std::string&n,const std::string&d);
// Threads: each body runs on its own stack; the schedule (domain D_SCHED, asked every `grain` basic blocks of real code)
// decides when another thread runs. Allocation faults are switched on and off per thread.
void runThreads(const std::vector<std::function<void()>> &bodies,long grain);
void threadMeet(long point);                          // waits until no other running thread is behind this point
struct HarnessScope { bool saved; HarnessScope(); ~HarnessScope(); };
struct SimScope { bool saved; SimScope(); ~SimScope(); };
extern "C" void dst_reorder_done();

inline uint64_t mix64(uint64_t z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);} 
struct Rng { uint64_t s; explicit Rng(uint64_t x=1):s(mix64(x)){}
    uint64_t next(){ s+=0x9e3779b97f4a7c15ULL; uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);} 
    uint64_t below(uint64_t n){ return n?next()%n:0; }
    bool chance(int pct){ return (int)below(100)<pct; }
    int range(int a,int b){ return a+(int)below((uint64_t)(b-a+1)); }
};
}
