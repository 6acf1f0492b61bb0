#pragma once
#include "seams.h"
#include "game.h"
#include <set>
namespace dst {
struct Case {                                     // one fully explicit simulated run (serialised as the replay file)
    std::string prop; uint64_t seed=0;
    std::vector<std::string> args; std::map<std::string,FileIn> disk; Schedule sched; std::map<std::string,std::string> par;
    std::string p(const std::string&k,const std::string&d="")const{ auto it=par.find(k); return it==par.end()?d:it->second; }
    long pl(const std::string&k,long d=0)const{ auto it=par.find(k); return it==par.end()?d:atol(it->second.c_str()); }
};
struct Verdict {
    bool bad=false; std::string klass,msg;        // klass: stable class of the violation; msg: details
    std::vector<Event> trace;                     // fired events of the faulted run
    uint64_t hash=0;                              // deterministic digest of everything observed
    uint64_t stateKey=0;                          // for "distinct" counting
    bool nontrivial=false;
    void fail(const std::string&k,const std::string&m){ if(!bad){ bad=true; klass=k; msg=m; } }
};
struct Stats {
    uint64_t runs=0,execs=0,steps=0,nodes=0,gcs=0,reorders=0,allocs=0; uint64_t fired[A_N]={}; std::map<std::string,uint64_t> c;
    std::set<uint64_t> interleavings,states;
    void take(const Result&r){ execs++; steps+=r.steps; nodes+=r.counts[D_NODE]; allocs+=r.counts[D_ALLOC]; gcs+=r.gcs; reorders+=r.reorders; for(int i=0;i<A_N;i++) fired[i]+=r.fired[i]; }
};
extern Stats st;                                  // of this worker
struct Property { const char *id,*title; Case (*gen)(Rng&,int tier); void (*check)(const Case&,Verdict&); int weightQuick; const char *rule; const char *real; const char *stub; };
extern std::vector<Property> &registry();
struct Reg { Reg(Property p){ registry().push_back(p);} };

// helpers shared by the properties
void memSchedule(Rng&r,Schedule&s,int maxReorderPpm=50000);
Result run(const Case&c,Verdict&v,bool keepTrace=true);     // execute with the case's schedule
Result runJob(const Job&j);
Job jobOf(const Case&c);
int resultLine(const std::string&err);                      // 1 realizable, 0 unrealizable, -1 none, -2 contradictory/multiple
void specOf(const Case&c,const std::string&file,Spec&s,Game&g);
bool parseExplicit(const std::string&txt,const Game&g,Machine&m,std::string&err,bool anyOrder=false);
bool parsePermissive(const std::string&txt,const Game&g,Machine&m,std::string&err);
bool parseJsonMachine(const std::string&txt,const Game&g,Machine&m,std::string&err);
std::string join(const std::vector<std::string>&v,const std::string&sep);
bool expectEnd(const Result&r,Verdict&v);                   // run must have ended by returning 0
std::string clip(const std::string&s,size_t n=600);
}
