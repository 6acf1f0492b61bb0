#include "seams.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <iostream>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/times.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/personality.h>
#include <ext/stdio_sync_filebuf.h>
#include <algorithm>
#include <ctime>
#include <memory>

extern int slugs_main(int,const char **) __attribute__((weak));

namespace dst {
const char *domainName[D_N]={"node","alloc","read","write","open","close","stdin","stdout","clock","term","sched"};
const char *actionName[A_N]={"none","gc","reorder","flush","fail","failall","short","eintr","eio","enospc","eof","jump","fire","switch"};
const char *endName[]={"return","exit","signal","uncaught-exception","hang(fuel)","output-flood","heap-corruption","lost","timeout"};

// ------------------------------------------------------------------ allocator
static const size_t ARENA=(size_t)24<<30, CHUNK=(size_t)32<<20;
static const int NCLS=256;
struct Hdr { uint64_t size; uint32_t magic; uint32_t off; };      // 16 bytes, directly before the user pointer
struct Blk { uint64_t cls; Blk *next; };                          // block start; 16 bytes
static const uint32_t M_LIVE=0xA110C8EDu, M_FREE=0xF7EEF7EEu;
static const uint64_t CANARY=0xC0FFEE5AFEBEEF11ULL;
struct Arena { char *base,*cur,*end,*open; Blk *head[NCLS]; Blk *tail[NCLS]; uint64_t live=0; };
static Arena A[2];           // 0 harness, 1 simulated process
static bool simOn=false; static bool arenasReady=false;
static uint64_t layoutSeed=0; static int fillByte=-1; static bool fifo=false; static uint64_t memLimit=0,failMin=0; static bool failAll=false,allocOff=false;

static void arenaInit(){
    static const uintptr_t bases[2]={0x200000000000ULL,0x300000000000ULL};
    for(int i=0;i<2;i++){
        void *p=mmap((void*)bases[i],ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
        if(i&&p!=MAP_FAILED) mprotect((char*)p+CHUNK,ARENA-CHUNK,PROT_NONE);   // simulated memory is opened piecewise, so that a wild access far behind it is a fault
        if(p==MAP_FAILED) { static const char m[]="dst: cannot map arena\n"; (void)!syscall(SYS_write,2,m,sizeof m-1); _exit(3); }
        A[i].base=A[i].cur=(char*)p; A[i].end=A[i].base+ARENA; A[i].open=A[i].base+(i?CHUNK:ARENA);
    }
    arenasReady=true;
}
static inline int classOf(size_t n,size_t &rounded){            // n>0
    if(n<=1024){ int c=(int)((n+15)/16); rounded=(size_t)c*16; return c; }   // 1..64
    int sh=63-__builtin_clzll(n-1); size_t q=(size_t)1<<(sh-2); size_t k=(n+q-1)/q; // k in 5..8
    rounded=k*q; return 64+(sh-10)*4+(int)(k-4);
}
static void *arenaAlloc(Arena &a,size_t n,size_t align,bool sim){
    if(n>((size_t)8<<30)) return nullptr;
    size_t want=n+sizeof(Blk)+sizeof(Hdr)+8+(align>16?align:0), rounded; if(want>((size_t)8<<30)) return nullptr;
    int c=classOf(want,rounded);
    Blk *b=a.head[c];
    if(b){ a.head[c]=b->next; if(!a.head[c]) a.tail[c]=nullptr; }
    else {
        if(sim && layoutSeed){ uint64_t h=mix64(layoutSeed^(uint64_t)(a.cur-a.base)); a.cur+=(h&3)==0?16*(1+((h>>8)&7)):0; }
        if(a.cur+rounded>a.end) return nullptr;
        if(a.cur+rounded>a.open){ size_t by=((size_t)(a.cur+rounded-a.open)+CHUNK-1)/CHUNK*CHUNK; if(a.open+by>a.end) by=(size_t)(a.end-a.open); if(mprotect(a.open,by,PROT_READ|PROT_WRITE)) return nullptr; a.open+=by; }
        b=(Blk*)a.cur; a.cur+=rounded;
    }
    b->cls=c; b->next=nullptr;
    char *u=(char*)b+sizeof(Blk)+sizeof(Hdr);
    if(align>16) u=(char*)(((uintptr_t)u+align-1)&~(align-1));
    Hdr *h=(Hdr*)u-1; h->size=n; h->magic=M_LIVE; h->off=(uint32_t)(u-(char*)b);
    memcpy(u+n,&CANARY,8);
    if(sim && fillByte>=0) memset(u,fillByte,n<65536?n:65536);
    a.live+=n;
    return u;
}
static void arenaFree(Arena &a,void *p,bool sim){
    Hdr *h=(Hdr*)p-1;
    if(h->magic!=M_LIVE){ if(sim) failNow(E_CORRUPT,h->magic==M_FREE?"double free":"free of a bad pointer"); return; }
    if(sim && memcmp((char*)p+h->size,&CANARY,8)) failNow(E_CORRUPT,"write past the end of a heap block");
    a.live-=h->size;
    if(sim && fillByte>=0) memset(p,fillByte^0xFF,h->size<65536?h->size:65536);
    h->magic=M_FREE; Blk *b=(Blk*)((char*)p-h->off); int c=(int)b->cls;
    if(sim && fifo){ b->next=nullptr; if(a.tail[c]) a.tail[c]->next=b; else a.head[c]=b; a.tail[c]=b; }
    else { b->next=a.head[c]; a.head[c]=b; if(!b->next) a.tail[c]=b; }
}

// ------------------------------------------------------------------ shared result area
struct Shared {
    int end,rc,sig; char note[256]; uint64_t counts[D_N]; uint64_t fired[A_N]; uint64_t steps,gcs,reorders; uint64_t hash;
    uint32_t ntrace; Event trace[16384]; uint64_t bloblen; int clientVerdict;
};
static const size_t SHSIZE=(size_t)512<<20;
static Shared *sh=nullptr; static uint8_t *covmap=nullptr; // 1<<16

// ------------------------------------------------------------------ simulated process state (child only)
static const Job *job=nullptr; static uint64_t fuel=0; static uint64_t stepCount=0;
struct VFile { std::string data; bool isDir=false,unwritable=false; };
static std::map<std::string,VFile> *disk=nullptr; static std::vector<std::string> *openedW=nullptr;
struct FdEnt { std::string name; bool wr=false; FILE *f=nullptr; };
static std::map<int,FdEnt> *fds=nullptr;
static std::string *outData=nullptr,*errData=nullptr,*userData=nullptr;
static int64_t diskLeft=-1; static std::map<uint64_t,Event> *expl[D_N]; static bool stdoutBroken=false,diskBroken=false,stdinDead=false;
static std::string *pendingIn=nullptr; static size_t pendingPos=0; static bool inEof=false;
static uint64_t simClockMs=1000; static uint64_t randState=1;
static FILE *(*real_fdopen)(int,const char*)=nullptr; static int (*real_fclose)(FILE*)=nullptr;
static bool finishing=false;

static bool diskOff=false;
bool inSim(){return simOn;}
HarnessScope::HarnessScope(){saved=simOn;simOn=false;} HarnessScope::~HarnessScope(){simOn=saved;}
SimScope::SimScope(){saved=simOn;simOn=true;} SimScope::~SimScope(){simOn=saved;}

static void record(Domain d,Action a,uint64_t idx,uint64_t arg){
    sh->fired[a]++; if(sh->ntrace<16384) sh->trace[sh->ntrace++]=Event{(uint32_t)d,(uint32_t)a,idx,arg};
    sh->hash=mix64(sh->hash^mix64(idx*64+d*8+a)^arg);
}
static uint64_t rateFired=0,rateCap=6000;             // schedule events at node creations decided by density; bounded so that a run stays within its step budget
Action decide(Domain d,uint64_t *arg){
    if(diskOff&&(d==D_READ||d==D_WRITE||d==D_OPEN||d==D_CLOSE)) return A_NONE;
    uint64_t idx=sh->counts[d]++;
    if(!job) return A_NONE;
    bool s=simOn; simOn=false; Action act=A_NONE; uint64_t ar=0;
    if(expl[d]){ auto it=expl[d]->find(idx); if(it!=expl[d]->end()){ act=(Action)it->second.act; ar=it->second.arg; } }
    if(act==A_NONE&&!(d==D_NODE&&rateFired>=rateCap)) for(const Rate &r:job->sched.rates) if(r.dom==d){
        uint64_t h=mix64(job->sched.seed^mix64(((uint64_t)d<<56)^((uint64_t)r.act<<48)^idx));
        if(h%1000000<r.ppm){ act=(Action)r.act; if(d==D_NODE) rateFired++; ar=r.argmax?(h>>24)%r.argmax:(h>>24); break; }
    }
    if(act!=A_NONE) record(d,act,idx,ar);
    simOn=s; if(arg)*arg=ar; return act;
}
static void put(char *&p,const std::string &s){ uint64_t n=s.size(); char *lim=(char*)sh+SHSIZE; if(p+8+n>lim) n=0; memcpy(p,&n,8); p+=8; memcpy(p,s.data(),n); p+=n; }
static void sweepFds(){ for(auto &e:*fds) if(e.second.wr){ off_t n=lseek(e.first,0,SEEK_END); std::string s((size_t)(n>0?n:0),0); if(n>0){ ssize_t r=pread(e.first,&s[0],n,0); (void)r; } (*disk)[e.second.name].data=s; } }
[[noreturn]] static void finish(EndKind k,int rc,int sig,const char *note){
    simOn=false;
    if(finishing) _exit(9);
    finishing=true;
    sh->end=k; sh->rc=rc; sh->sig=sig; sh->steps=stepCount; if(note){ strncpy(sh->note,note,255); sh->note[255]=0; }
    sweepFds();
    if(job->clientReport && (k==E_RETURN||k==E_EXIT||k==E_FUEL)) *userData+=job->clientReport();
    char *p=(char*)sh+sizeof(Shared); put(p,*outData); put(p,*errData); put(p,*userData);
    std::string nf=std::to_string(disk->size()); put(p,nf);
    for(auto &e:*disk){ put(p,e.first); put(p,e.second.data); }
    put(p,std::to_string(openedW->size())); for(auto &n:*openedW) put(p,n);
    sh->bloblen=p-((char*)sh+sizeof(Shared));
    _exit(0);
}
// for bodies that use files themselves: faults only while switched on; every time the disk starts unbroken
void diskFaults(bool on,long left){ diskOff=!on; diskBroken=false; diskLeft=on?left:-1; }
uint64_t hardDiskFaults(){ return sh->fired[A_EIO]+sh->fired[A_ENOSPC]+sh->fired[A_FAIL]; }
std::string *diskFile(const std::string&n){ auto it=disk->find(n); return it==disk->end()?nullptr:&it->second.data; }
void putDiskFile(const std::string&n,const std::string&d){ (*disk)[n].data=d; }
void allocFaultsOff(){ allocOff=true; failAll=false; memLimit=0; }
void allocFaultsOn(){ allocOff=false; }
void failNow(EndKind k,const std::string &note){ finish(k,-1,0,note.c_str()); }
void poisonUser(const std::string &s){ HarnessScope hs; *userData=s; }

// ------------------------------------------------------------------ threads of the simulated process
extern "C" void dst_cojump(void **save,void *to);
asm(R"(.text
.globl dst_cojump
.type dst_cojump,@function
dst_cojump: pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
 movq %rsp,(%rdi); movq %rsi,%rsp
 popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp; ret
)");
struct Co { void *sp=nullptr; bool done=false,on=false,alloc=true; int err=0; long at=-1; const std::function<void()> *f; };
static Co *cos[8]; static int ncos=0,cur=-1; static long coGrain=0,coLeft=0; static void *coMain=nullptr;
static void coSwitch(int next){                         // called with simOn of the running thread as it was
    Co *a=cos[cur],*b=cos[next]; a->on=simOn; a->alloc=allocOff; a->err=errno; cur=next; simOn=b->on; allocOff=b->alloc; errno=b->err; coLeft=coGrain; dst_cojump(&a->sp,b->sp);
}
static int coOther(uint64_t a){ int alive=0; for(int i=0;i<ncos;i++) alive+=i!=cur&&!cos[i]->done; if(!alive) return -1; a%=alive; for(int i=1;i<=ncos;i++){ int k=(cur+i)%ncos; if(k!=cur&&!cos[k]->done&&a--==0) return k; } return -1; }
void threadMeet(long point){ if(cur<0) return; HarnessScope hs; cos[cur]->at=point; for(;;){ int k=-1; for(int i=0;i<ncos;i++) if(i!=cur&&!cos[i]->done&&cos[i]->at<point){ k=i; break; } if(k<0) return; coSwitch(k); } }
static void coPreempt(){ coLeft=coGrain; uint64_t a=0; if(decide(D_SCHED,&a)!=A_SWITCH) return; int k=coOther(a); if(k>=0) coSwitch(k); }
static void coEntry(){ (*cos[cur]->f)(); simOn=false; cos[cur]->done=true; int k=coOther(0); if(k>=0) coSwitch(k); coGrain=0; void *x; dst_cojump(&x,coMain); abort(); }
void runThreads(const std::vector<std::function<void()>> &bodies,long grain){
    HarnessScope hs; ncos=(int)bodies.size(); bool al=allocOff;
    for(int i=0;i<ncos;i++){ cos[i]=new Co; cos[i]->f=&bodies[i]; cos[i]->alloc=true; size_t sz=(size_t)8<<20; char *st=(char*)mmap(nullptr,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); mprotect(st,4096,PROT_NONE); void **t=(void**)(st+sz-64); *--t=nullptr; *--t=(void*)coEntry; for(int k=0;k<6;k++) *--t=nullptr; cos[i]->sp=t; }
    cur=0; coGrain=grain; coLeft=grain; allocOff=true; dst_cojump(&coMain,cos[0]->sp); coGrain=0; cur=-1; allocOff=al;
}
static void onSignal(int s){
    if(s==SIGALRM||s==SIGXCPU) finish(E_TIMEOUT,-1,s,"wall/cpu backstop");
    finish(E_SIGNAL,-1,s,strsignal(s));
}
static void onTerminate(){
    std::string n="terminate"; { HarnessScope hs; std::type_info *t=abi::__cxa_current_exception_type(); if(t){ int st; char *d=abi::__cxa_demangle(t->name(),nullptr,nullptr,&st); n=std::string("uncaught ")+(d?d:t->name()); } }
    finish(E_EXCEPTION,134,SIGABRT,n.c_str());
}

// ------------------------------------------------------------------ cookies for C stdio
static ssize_t stdinRead(void*,char *buf,size_t n){
    HarnessScope hs; uint64_t arg=0; 
    if(stdinDead) return 0;
    Action a=decide(D_STDIN,&arg);
    if(a==A_EOF){ stdinDead=true; return 0; }
    if(a==A_EIO){ stdinDead=true; errno=EIO; return -1; }
    if(pendingPos>=pendingIn->size()){
        pendingIn->clear(); pendingPos=0;
        if(inEof || !job->client) return 0;
        std::string nx; if(!job->client(*outData,nx)){ inEof=true; return 0; }
        *pendingIn=nx; if(nx.empty()) return 0;
    }
    size_t k=std::min(n,pendingIn->size()-pendingPos); if(a==A_SHORT && k>1) k=1+arg%(k-1);
    memcpy(buf,pendingIn->data()+pendingPos,k); pendingPos+=k; return (ssize_t)k;
}
static ssize_t stdoutWrite(void*,const char *b,size_t n){
    HarnessScope hs; uint64_t arg=0; Action a=stdoutBroken?A_EIO:decide(D_STDOUT,&arg);
    if(a==A_EIO||a==A_ENOSPC){ size_t k=(a==A_ENOSPC && !stdoutBroken)?arg%(n+1):0; stdoutBroken=true; outData->append(b,k); errno=a==A_EIO?EIO:ENOSPC; return 0; }
    if(diskLeft>=0 && job->sched.knob("stdoutondisk",0)){ if((int64_t)n>diskLeft){ outData->append(b,diskLeft); diskLeft=0; stdoutBroken=true; sh->fired[A_ENOSPC]++; errno=ENOSPC; return 0; } diskLeft-=n; }
    outData->append(b,n); if(outData->size()>((size_t)32<<20)) failNow(E_FLOOD,"stdout flood"); return (ssize_t)n;
}
static ssize_t stderrWrite(void*,const char *b,size_t n){ HarnessScope hs; errData->append(b,n); if(errData->size()>((size_t)32<<20)) failNow(E_FLOOD,"stderr flood"); return (ssize_t)n; }

struct CFile { std::string name; bool rd,wr; size_t pos; };
static ssize_t cfRead(void *c,char *b,size_t n){
    HarnessScope hs; CFile *f=(CFile*)c; uint64_t arg; VFile &v=(*disk)[f->name];
    if(v.isDir){ errno=EISDIR; return -1; }
    Action a=decide(D_READ,&arg); if(a==A_EIO){ errno=EIO; return -1; }
    size_t left=f->pos<v.data.size()?v.data.size()-f->pos:0; size_t k=std::min(n,left); if(a==A_SHORT&&k>1) k=1+arg%k;
    memcpy(b,v.data.data()+f->pos,k); f->pos+=k; return (ssize_t)k;
}
static ssize_t cfWrite(void *c,const char *b,size_t n){
    HarnessScope hs; CFile *f=(CFile*)c; uint64_t arg=0; VFile &v=(*disk)[f->name];
    Action a=diskBroken?A_EIO:decide(D_WRITE,&arg);
    size_t k=n;
    if(a==A_EIO||a==A_ENOSPC){ diskBroken=true; k=(a==A_ENOSPC&&n)?arg%n:0; }
    if(diskLeft>=0){ if((int64_t)k>diskLeft){ k=diskLeft; sh->fired[A_ENOSPC]++; } diskLeft-=k; }
    if(v.data.size()<f->pos) v.data.resize(f->pos);
    v.data.replace(f->pos,k,b,k); f->pos+=k;
    if(k<n){ errno=a==A_EIO?EIO:ENOSPC; return 0; }
    return (ssize_t)n;
}
static int cfSeek(void *c,off64_t *o,int wh){ CFile *f=(CFile*)c; HarnessScope hs; VFile &v=(*disk)[f->name]; int64_t p=wh==SEEK_SET?*o:wh==SEEK_CUR?(int64_t)f->pos+*o:(int64_t)v.data.size()+*o; if(p<0) return -1; f->pos=p; *o=p; return 0; }
static int cfClose(void *c){ HarnessScope hs; CFile *f=(CFile*)c; uint64_t arg=0; int rc=0;
    if(f->wr){ Action a=decide(D_CLOSE,&arg); if(a==A_FAIL){ VFile &v=(*disk)[f->name]; size_t lose=std::min<size_t>(v.data.size(),1+arg%64); v.data.resize(v.data.size()-lose); errno=EIO; rc=-1; } }
    delete f; return rc; }

static bool vopen(const char *name,const char *mode,bool &rd,bool &wr){
    uint64_t arg; Action a=decide(D_OPEN,&arg);
    rd=strchr(mode,'r')||strchr(mode,'+'); wr=strchr(mode,'w')||strchr(mode,'a')||strchr(mode,'+');
    auto it=disk->find(name);
    if(a==A_FAIL){ errno=wr?EACCES:EMFILE; return false; }
    if(strchr(mode,'r') && it==disk->end()){ errno=ENOENT; return false; }
    if(it!=disk->end() && it->second.isDir && wr){ errno=EISDIR; return false; }
    if(it!=disk->end() && it->second.unwritable && wr){ errno=EACCES; return false; }
    if(strchr(mode,'w')) { (*disk)[name].data.clear(); }
    if(strchr(mode,'a')) (void)(*disk)[name];
    if(wr) openedW->push_back(name);
    return true;
}

static void wireStdio(){
    cookie_io_functions_t fi={stdinRead,nullptr,nullptr,nullptr}, fo={nullptr,stdoutWrite,nullptr,nullptr}, fe={nullptr,stderrWrite,nullptr,nullptr};
    stdin=fopencookie(nullptr,"r",fi); stdout=fopencookie(nullptr,"w",fo); stderr=fopencookie(nullptr,"w",fe);
    setvbuf(stdin,nullptr,_IOFBF,4096);
    setvbuf(stdout,nullptr,_IOFBF,(size_t)job->sched.knob("stdoutbuf",4096)); setvbuf(stderr,nullptr,_IONBF,0);
    std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdin)); std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdout));
    std::cerr.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stderr)); std::clog.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stderr));
}

[[noreturn]] static void runChild(const Job &j){
    job=&j; const Schedule &s=j.sched;
    disk=new std::map<std::string,VFile>; openedW=new std::vector<std::string>; fds=new std::map<int,FdEnt>;
    outData=new std::string; errData=new std::string; userData=new std::string; pendingIn=new std::string;
    for(auto &e:j.disk){ VFile v; v.data=e.second.data; v.isDir=e.second.isDir; v.unwritable=e.second.unwritable; (*disk)[e.first]=v; }
    for(int d=0;d<D_N;d++) expl[d]=nullptr;
    for(const Event &e:s.events){ if(!expl[e.dom]) expl[e.dom]=new std::map<uint64_t,Event>; (*expl[e.dom])[e.idx]=e; }
    fuel=(uint64_t)s.knob("fuel",400000000); layoutSeed=(uint64_t)s.knob("layout",0); fillByte=(int)s.knob("fill",0xAA); fifo=s.knob("fifo",0); memLimit=(uint64_t)s.knob("memlimit",0); failMin=(uint64_t)s.knob("failmin",0);
    diskLeft=s.knob("disk",-1); randState=mix64((uint64_t)s.knob("randseed",1)); simClockMs=1000;
    if(layoutSeed) A[1].cur+=16*(mix64(layoutSeed)%4096);
    int dn=open("/dev/null",O_RDWR); if(!getenv("DST_DEBUG")){ dup2(dn,0); dup2(dn,1); dup2(dn,2);} 
    struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); rl.rlim_cur=100; rl.rlim_max=110; setrlimit(RLIMIT_CPU,&rl); alarm(300);
    static char alt[1<<16]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onSignal; sa.sa_flags=SA_ONSTACK|SA_NODEFER;
    for(int sg:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGALRM,SIGXCPU}) sigaction(sg,&sa,nullptr);
    signal(SIGPIPE,SIG_IGN);
    std::set_terminate(onTerminate);
    wireStdio();
    std::vector<const char*> argv; argv.push_back("slugs"); for(auto &a:j.args) argv.push_back(a.c_str()); int argc=(int)argv.size(); argv.push_back(nullptr);
    stepCount=0; rateFired=0; rateCap=(uint64_t)s.knob("nodecap",6000);
    int rc;
    if(j.body){ SimScope s1; rc=j.body(); }
    else { simOn=true; rc=slugs_main(argc,argv.data()); simOn=false; }
    fflush(stdout);                                   // what process exit does; its failure is invisible to the exit status
    finish(E_RETURN,rc,0,nullptr);
}

Result execute(const Job &j){
    Result r; memset((void*)sh,0,sizeof(Shared)); sh->end=E_LOST;
    fflush(stdout); fflush(stderr);
    pid_t p=fork();
    if(p==0) runChild(j);
    int st=0; while(waitpid(p,&st,0)<0 && errno==EINTR){}
    r.end=(EndKind)sh->end; r.rc=sh->rc; r.sig=sh->sig; r.note=sh->note; memcpy(r.counts,sh->counts,sizeof r.counts); memcpy(r.fired,sh->fired,sizeof r.fired);
    r.steps=sh->steps; r.gcs=sh->gcs; r.reorders=sh->reorders; r.clientVerdict=sh->clientVerdict;
    if(!WIFEXITED(st)){ r.end=E_LOST; r.note="process lost"; if(WIFSIGNALED(st)) r.sig=WTERMSIG(st); }
    else if(WEXITSTATUS(st)!=0){ r.end=E_LOST; r.note="simulated process died twice"; }
    r.trace.assign(sh->trace,sh->trace+sh->ntrace);
    if(r.end!=E_LOST && sh->bloblen){
        const char *q=(char*)sh+sizeof(Shared); auto get=[&]{ uint64_t n; memcpy(&n,q,8); q+=8; std::string s(q,n); q+=n; return s; };
        r.out=get(); r.err=get(); r.user=get(); int nf=atoi(get().c_str()); for(int i=0;i<nf;i++){ std::string n=get(); r.files[n]=get(); }
        int no=atoi(get().c_str()); for(int i=0;i<no;i++) r.opened.push_back(get());
    }
    uint64_t h=sh->hash; auto fold=[&](const std::string &s){ for(unsigned char c:s) h=(h^c)*0x100000001b3ULL; h=mix64(h); };
    fold(r.out); fold(r.err); for(auto &f:r.files){ fold(f.first); fold(f.second);} h=mix64(h^((uint64_t)r.end<<32)^(uint32_t)r.rc^r.steps); r.hash=h;
    return r;
}
std::string Result::describe() const {
    std::string s=endName[end]; if(end==E_RETURN||end==E_EXIT) s+=" rc="+std::to_string(rc); if(sig) s+=" signal="+std::to_string(sig); if(!note.empty()) s+=" ("+note+")"; return s;
}
uint64_t coverageCount(){ uint64_t n=0; for(int i=0;i<65536;i++) n+=covmap[i]!=0; return n; }

void initProcess(int,char **argv){
    int cur=personality(0xffffffff);
    if(cur!=-1 && !(cur&ADDR_NO_RANDOMIZE) && !getenv("DST_NOASLR")){ setenv("DST_NOASLR","1",1); if(personality(cur|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }
    sh=(Shared*)mmap(nullptr,SHSIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    covmap=(uint8_t*)mmap(nullptr,65536,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if(sh==MAP_FAILED||covmap==MAP_FAILED){ perror("mmap"); _exit(3); }
    real_fdopen=(FILE*(*)(int,const char*))dlsym(RTLD_NEXT,"fdopen"); real_fclose=(int(*)(FILE*))dlsym(RTLD_NEXT,"fclose");
}
void privateShared(){ // after forking a worker: own result area
    sh=(Shared*)mmap(nullptr,SHSIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(sh==MAP_FAILED) _exit(3);
}
} // namespace dst
using namespace dst;

// ====================================================================== interposed symbols
extern "C" {
static inline bool injectAlloc(size_t n){
    if(allocOff) return false;
    if(failAll) return true;
    Action a=decide(D_ALLOC,nullptr);
    if(a==A_FAIL){ if(n>=failMin) return true; sh->fired[A_FAIL]--; }
    if(a==A_FAILALL){ failAll=true; return true; }
    if(memLimit && A[1].live+n>memLimit){ sh->fired[A_FAIL]++; return true; }
    return false;
}
void *malloc(size_t n){ if(!arenasReady) arenaInit(); if(simOn){ if(injectAlloc(n)){ errno=ENOMEM; return nullptr; } return arenaAlloc(A[1],n,16,true); } return arenaAlloc(A[0],n,16,false); }
void free(void *p){ if(!p) return; bool sim=(uintptr_t)p>=0x300000000000ULL && (uintptr_t)p<0x300000000000ULL+ARENA; if(!sim && !((uintptr_t)p>=0x200000000000ULL&&(uintptr_t)p<0x200000000000ULL+ARENA)){ if(simOn) failNow(E_CORRUPT,"free of a non-heap pointer"); return; } int e=errno; arenaFree(A[sim?1:0],p,sim); errno=e; }
void *calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)) return nullptr; void *p=malloc(n); if(p) memset(p,0,n); return p; }
void *realloc(void *p,size_t n){ if(!p) return malloc(n); if(n==0){ free(p); return nullptr; } Hdr *h=(Hdr*)p-1; size_t old=h->size; void *q=malloc(n); if(!q) return n<=old?p:nullptr; /* shrinking in place never fails */ memcpy(q,p,old<n?old:n); free(p); return q; }
void *memalign(size_t al,size_t n){ if(!arenasReady) arenaInit(); if(al<16) al=16; if(simOn){ if(injectAlloc(n)) return nullptr; return arenaAlloc(A[1],n,al,true);} return arenaAlloc(A[0],n,al,false); }
void *aligned_alloc(size_t al,size_t n){ return memalign(al,n); }
int posix_memalign(void **r,size_t al,size_t n){ void *p=memalign(al,n); if(!p) return ENOMEM; *r=p; return 0; }
void *valloc(size_t n){ return memalign(4096,n); }
size_t malloc_usable_size(void *p){ return p?((Hdr*)p-1)->size:0; }

void __sanitizer_cov_trace_pc(void){
    if(!simOn) return;
    ++stepCount;
    uintptr_t pc=(uintptr_t)__builtin_return_address(0); uint32_t h=(uint32_t)((pc*0x9E3779B1u)>>8)&0xFFFF; if(!covmap[h]) covmap[h]=1;
    if(stepCount>fuel) finish(E_FUEL,-1,0,"step budget exhausted");
    if(dst::coGrain&&--dst::coLeft<=0) dst::coPreempt();
}
uint64_t dst_steps(void){ return stepCount; } void dst_steps_set(uint64_t n){ stepCount=n; }   // work caused by a scheduled event does not count against the step budget
int dst_active(void){ return simOn; }
int dst_node_event(uint64_t *arg){ Action a=decide(D_NODE,arg); return a==A_GC?1:a==A_REORDER?2:a==A_FLUSH?3:0; }
void dst_node_stats(uint64_t g,uint64_t r){ sh->gcs+=g; sh->reorders+=r; }
long dst_knob(const char *n,long d){ HarnessScope hs; return job?job->sched.knob(n,d):d; }

// libstdc++ (std::ifstream/ofstream) opens through the dynamic symbol and then uses read/write on the descriptor
static FILE *streamOpen(const char *name,const char *mode,const char *sym){
    if(!simOn){ FILE *(*real)(const char*,const char*)=(FILE*(*)(const char*,const char*))dlsym(RTLD_NEXT,sym); return real(name,mode); }
    HarnessScope hs; bool rd,wr; if(!vopen(name,mode,rd,wr)) return nullptr;
    int fd=memfd_create("sim",MFD_CLOEXEC); if(fd<0){ failNow(E_LOST,"memfd_create failed"); }
    const std::string &d=(*disk)[name].data; size_t o=0; while(o<d.size()){ ssize_t k=syscall(SYS_write,fd,d.data()+o,d.size()-o); if(k<=0) break; o+=k; }
    if(!strchr(mode,'a')) lseek(fd,0,SEEK_SET);
    FILE *f=real_fdopen(fd,mode); FdEnt e; e.name=name; e.wr=wr; e.f=f; (*fds)[fd]=e; return f;
}
FILE *fopen(const char *name,const char *mode){ return streamOpen(name,mode,"fopen"); }
FILE *fopen64(const char *name,const char *mode){ return streamOpen(name,mode,"fopen64"); }
// slugs and dddmp themselves (linked with --wrap=fopen) use C stdio
FILE *__wrap_fopen(const char *name,const char *mode){
    if(!simOn) return fopen(name,mode);
    HarnessScope hs; bool rd,wr; if(!vopen(name,mode,rd,wr)) return nullptr;
    CFile *c=new CFile{name,rd,wr,0}; if(strchr(mode,'a')) c->pos=(*disk)[name].data.size();
    cookie_io_functions_t io={cfRead,cfWrite,cfSeek,cfClose}; FILE *f=fopencookie(c,mode,io); return f;
}
FILE *__wrap_fopen64(const char *name,const char *mode){ return __wrap_fopen(name,mode); }
int fclose(FILE *f){
    if(!simOn){ return real_fclose(f); }
    HarnessScope hs;
    for(auto it=fds->begin();it!=fds->end();++it) if(it->second.f==f){
        int fd=it->first; FdEnt e=it->second; int rc=0;
        if(e.wr){ uint64_t arg=0; fflush(f); Action a=decide(D_CLOSE,&arg); off_t n=lseek(fd,0,SEEK_END); std::string s((size_t)(n>0?n:0),0); if(n>0){ ssize_t r=pread(fd,&s[0],n,0); (void)r; }
            if(a==A_FAIL){ size_t lose=std::min<size_t>(s.size(),1+arg%64); s.resize(s.size()-lose); rc=EOF; }
            (*disk)[e.name].data=s; }
        fds->erase(it); real_fclose(f); if(rc) errno=EIO; return rc;
    }
    return real_fclose(f);
}
ssize_t read(int fd,void *b,size_t n){
    if(!simOn||!fds) return syscall(SYS_read,fd,b,n);
    HarnessScope hs; auto it=fds->find(fd); if(it==fds->end()) return syscall(SYS_read,fd,b,n);
    if((*disk)[it->second.name].isDir){ errno=EISDIR; return -1; }
    uint64_t arg; Action a=decide(D_READ,&arg);
    if(a==A_EINTR){ errno=EINTR; return -1; } if(a==A_EIO){ errno=EIO; return -1; }
    if(a==A_SHORT && n>1){ off_t p=lseek(fd,0,SEEK_CUR),e=lseek(fd,0,SEEK_END); lseek(fd,p,SEEK_SET); size_t left=e>p?(size_t)(e-p):0; size_t k=std::min(n,left); if(k>1) n=1+arg%k; }
    return syscall(SYS_read,fd,b,n);
}
static ssize_t doWrite(int fd,const char *b,size_t n){
    uint64_t arg=0; Action a=diskBroken?A_EIO:decide(D_WRITE,&arg);
    if(a==A_EINTR){ errno=EINTR; return -1; }
    if(a==A_EIO){ diskBroken=true; errno=EIO; return -1; }
    if(a==A_ENOSPC){ diskBroken=true; size_t k=n?arg%n:0; if(!k){ errno=ENOSPC; return -1; } n=k; }
    if(a==A_SHORT && n>1) n=1+arg%(n-1);
    if(diskLeft>=0){ if((int64_t)n>diskLeft){ sh->fired[A_ENOSPC]++; if(diskLeft==0){ errno=ENOSPC; return -1; } n=diskLeft; } diskLeft-=n; }
    return syscall(SYS_write,fd,b,n);
}
ssize_t write(int fd,const void *b,size_t n){
    if(!simOn||!fds) return syscall(SYS_write,fd,b,n);
    HarnessScope hs; if(!fds->count(fd)) return syscall(SYS_write,fd,b,n);
    return doWrite(fd,(const char*)b,n);
}
ssize_t writev(int fd,const struct iovec *v,int c){
    if(!simOn||!fds) return syscall(SYS_writev,fd,v,c);
    HarnessScope hs; if(!fds->count(fd)) return syscall(SYS_writev,fd,v,c);
    std::string s; for(int i=0;i<c;i++) s.append((const char*)v[i].iov_base,v[i].iov_len);
    return doWrite(fd,s.data(),s.size());
}
int rename(const char *a,const char *b){ if(!simOn) return (int)syscall(SYS_rename,a,b); HarnessScope hs; sweepFds(); auto it=disk->find(a); if(it==disk->end()){ errno=ENOENT; return -1; } (*disk)[b]=it->second; disk->erase(a); openedW->push_back(b); return 0; }
int remove(const char *a){ if(!simOn) return (int)syscall(SYS_unlink,a); HarnessScope hs; if(!disk->erase(a)){ errno=ENOENT; return -1; } return 0; }
int unlink(const char *a){ return remove(a); }

// time: a simulated clock that only moves when queried (clockstep) or when the schedule makes it jump
static uint64_t tick(){ HarnessScope hs; uint64_t arg=0; Action a=decide(D_CLOCK,&arg); simClockMs+=(uint64_t)job->sched.knob("clockstep",1); if(a==A_JUMP) simClockMs+=arg; return simClockMs; }
int getrusage(__rusage_who_t w,struct rusage *r) __THROW { if(!simOn) return (int)syscall(SYS_getrusage,w,r); memset(r,0,sizeof *r); uint64_t t=tick(); r->ru_utime.tv_sec=t/1000; r->ru_utime.tv_usec=(t%1000)*1000; return 0; }
clock_t times(struct tms *t) __THROW { if(!simOn) return (clock_t)syscall(SYS_times,t); uint64_t k=tick(); if(t){ memset(t,0,sizeof *t); t->tms_utime=k/10; } return k/10; }
clock_t clock(void) __THROW { if(!simOn){ struct rusage r; syscall(SYS_getrusage,RUSAGE_SELF,&r); return r.ru_utime.tv_sec*1000000L+r.ru_utime.tv_usec; } return (clock_t)tick()*1000; }
time_t time(time_t *t) __THROW { struct timespec ts; if(!simOn) syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); else ts.tv_sec=1700000000+tick()/1000; if(t)*t=ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval *tv,void*) __THROW { struct timespec ts; if(!simOn) syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); else { uint64_t k=tick(); ts.tv_sec=1700000000+k/1000; ts.tv_nsec=(k%1000)*1000000; } tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; }
int clock_gettime(clockid_t c,struct timespec *ts) __THROW { if(!simOn) return (int)syscall(SYS_clock_gettime,c,ts); uint64_t k=tick(); ts->tv_sec=1700000000+k/1000; ts->tv_nsec=(k%1000)*1000000; return 0; }
int rand(void) __THROW { if(!simOn) return 4; randState=mix64(randState); return (int)(randState&0x7fffffff); }
void srand(unsigned s) __THROW { if(simOn) randState=mix64(s^0x5bd1e995u^(uint64_t)job->sched.knob("randseed",1)); }
long random(void) __THROW { return rand(); }
void srandom(unsigned s) __THROW { srand(s); }

void __wrap_exit(int rc){ if(!simOn) _exit(rc); { HarnessScope hs; fflush(stdout); } finish(E_EXIT,rc,0,nullptr); }
} // extern C
