// C01 BDD operations, C02 ADD and ZDD operations, C03 reordering and garbage collection, C04 resource exhaustion
#include "cuddeng.h"
#include <fcntl.h>
namespace dst { extern void allocFaultsOff(),allocFaultsOn(); namespace ce {
#define OP(name,w,...) {#name,w,[](E&e)__VA_ARGS__}
typedef std::vector<int> V;
static const Cudd_ReorderingType METHODS[]={CUDD_REORDER_RANDOM,CUDD_REORDER_RANDOM_PIVOT,CUDD_REORDER_SIFT,CUDD_REORDER_SIFT_CONVERGE,CUDD_REORDER_SYMM_SIFT,CUDD_REORDER_SYMM_SIFT_CONV,CUDD_REORDER_WINDOW2,CUDD_REORDER_WINDOW3,CUDD_REORDER_WINDOW4,CUDD_REORDER_WINDOW2_CONV,CUDD_REORDER_WINDOW3_CONV,CUDD_REORDER_WINDOW4_CONV,CUDD_REORDER_GROUP_SIFT,CUDD_REORDER_GROUP_SIFT_CONV,CUDD_REORDER_ANNEALING,CUDD_REORDER_GENETIC,CUDD_REORDER_EXACT,CUDD_REORDER_LAZY_SIFT};
static const Cudd_ReorderingType ZMETHODS[]={CUDD_REORDER_RANDOM,CUDD_REORDER_RANDOM_PIVOT,CUDD_REORDER_SIFT,CUDD_REORDER_SIFT_CONVERGE,CUDD_REORDER_SYMM_SIFT,CUDD_REORDER_SYMM_SIFT_CONV};
static V inv(E&e){ V p; for(int i=0;i<e.n;i++) p.push_back(Cudd_ReadInvPerm(e.m,i)); return p; }
static void checkPerm(E&e,const char*when){ V p=inv(e); std::set<int> s(p.begin(),p.end()); if((int)s.size()!=e.n) e.bad("wrong-order",std::string("the variable order is no permutation ")+when); for(int i=0;i<e.n;i++) if(Cudd_ReadPerm(e.m,p[i])!=i) e.bad("wrong-order",std::string("level and index maps disagree ")+when);
    for(size_t k=0;k<e.groups.size();k++){ int lo=1<<30,hi=-1; for(int v:e.groupVars[k]){ lo=std::min(lo,Cudd_ReadPerm(e.m,v)); hi=std::max(hi,Cudd_ReadPerm(e.m,v)); } if(hi-lo+1!=(int)e.groupVars[k].size()) e.bad("group-broken",std::string("a group of variables is not contiguous in the order ")+when); if(e.groups[k].fixed) for(size_t i=0;i+1<e.groupVars[k].size();i++) if(Cudd_ReadPerm(e.m,e.groupVars[k][i])>Cudd_ReadPerm(e.m,e.groupVars[k][i+1])) e.bad("group-broken",std::string("the order inside a fixed group changed ")+when); } }
static const std::vector<Op>&mgr(){ static const std::vector<Op> v={
OP(Drop,10,{ for(int k=e.r.below(6);k>0&&e.pool.size()>8;k--){ size_t i=e.r.below(e.pool.size()); e.drop(i); } }),
OP(DelayedDrop,3,{ for(int k=e.r.below(4);k>0&&e.pool.size()>8;k--){ size_t i=e.r.below(e.pool.size()); if(e.pool[i].k!=BDD) continue; DdNode*q=e.pool[i].n; e.pool.erase(e.pool.begin()+i); SV(Cudd_DelayedDerefBdd(e.m,q)); } }),
OP(Collect,5,{ SV(cuddGarbageCollect(e.m,1)); }),
OP(FlushCache,2,{ SV(cuddCacheFlush(e.m)); }),
OP(CollectionOnOff,1,{ if(Cudd_GarbageCollectionEnabled(e.m)) SV(Cudd_DisableGarbageCollection(e.m)); else SV(Cudd_EnableGarbageCollection(e.m)); }),
OP(Reorder,5,{ if(e.faults) return; Cudd_ReorderingType k=METHODS[e.r.below(sizeof METHODS/sizeof*METHODS)]; if(e.r.chance(50)||(!e.groups.empty()&&(k==CUDD_REORDER_RANDOM||k==CUDD_REORDER_RANDOM_PIVOT))) k=METHODS[2+e.r.below(12)]; if((k==CUDD_REORDER_EXACT||k==CUDD_REORDER_GENETIC||k==CUDD_REORDER_ANNEALING)&&e.n>6) k=CUDD_REORDER_SIFT; long sv=e.done; (void)sv; int ok=S(Cudd_ReduceHeap(e.m,k,0)); e.cnt["explicit reorderings"]++; checkPerm(e,"after an explicit reordering"); if(!ok) e.null("reordering"); }),
OP(Shuffle,2,{ if(e.faults) return; if(!e.groups.empty()) return; V p; for(int i=0;i<e.n;i++) p.push_back(i); for(int i=e.n-1;i>0;i--) std::swap(p[i],p[e.r.below(i+1)]); int ok=S(Cudd_ShuffleHeap(e.m,p.data())); if(!ok){ e.null("the requested order"); return; } for(int i=0;i<e.n;i++) if(Cudd_ReadInvPerm(e.m,i)!=p[i]&&!e.faults) e.bad("wrong-order","the requested variable order was not established"); e.cnt["explicit reorderings"]++; }),
OP(ZddReorder,3,{ if(e.faults) return; if(!e.nz) return; int ok=S(Cudd_zddReduceHeap(e.m,ZMETHODS[e.r.below(sizeof ZMETHODS/sizeof*ZMETHODS)],0)); e.cnt["explicit reorderings"]++; if(!ok) e.null("ZDD reordering"); checkPerm(e,"after a ZDD reordering"); }),
OP(Autodyn,2,{ if(e.faultRun) return; if(e.r.chance(30)) SV(Cudd_AutodynDisable(e.m)); else SV(Cudd_AutodynEnable(e.m,METHODS[2+e.r.below(12)])); if(e.nz){ if(e.r.chance(50)) SV(Cudd_AutodynDisableZdd(e.m)); else SV(Cudd_AutodynEnableZdd(e.m,CUDD_REORDER_SIFT)); } }),
OP(Tune,1,{ SV(Cudd_SetSiftMaxVar(e.m,1+e.r.below(10))); SV(Cudd_SetMaxGrowth(e.m,1.0+e.r.below(10)/10.0)); SV(Cudd_SetLooseUpTo(e.m,e.r.below(4)*64)); SV(Cudd_SetMinHit(e.m,e.r.below(90))); if(e.r.chance(30)) SV(Cudd_SetMaxCacheHard(e.m,64<<e.r.below(6))); SV(Cudd_SetGroupcheck(e.m,e.r.below(2)?CUDD_GROUP_CHECK7:CUDD_NO_CHECK)); SV(Cudd_SetArcviolation(e.m,e.r.below(20))); SV(Cudd_SetSymmviolation(e.m,e.r.below(20))); }),
OP(NewVariable,1,{ if(e.faults) return; if(e.n>=7||e.mult||!e.groups.empty()||e.noCanon) return; int lv=e.r.below(e.n+1); DdNode*q=e.r.below(2)?S(Cudd_bddNewVarAtLevel(e.m,lv)):S(Cudd_bddNewVar(e.m)); if(!q){ e.null("a new variable"); return; } DdNode*a=S(Cudd_addIthVar(e.m,e.n)); if(!a){ e.null("a new ADD variable"); throw Stop(); } SV(Cudd_Ref(a)); size_t old=e.N(); e.n++; e.bvars.push_back(q); e.avars.push_back(a); for(auto&h:e.pool){ if(h.k==BDD){ h.f.resize(2*old); std::copy(h.f.begin(),h.f.begin()+old,h.f.begin()+old); } else if(h.k==ADD){ h.d.resize(2*old); std::copy(h.d.begin(),h.d.begin()+old,h.d.begin()+old); } } checkPerm(e,"after a new variable"); }),
OP(Verify,5,{ e.verifyPool("during the run"); e.checkManager("during the run"); if(!e.faultRun) e.audit("during the run"); }),
}; return v; }
static const char*trace=getenv("DST_OPTRACE"); static int tracefd(){ static int fd=-2; if(fd==-2) fd=::open(trace,O_WRONLY|O_CREAT|O_APPEND,0600); return fd; }
static int onTerm(const void*p){ HarnessScope hs; uint64_t a; return ((const E*)p)->faultPhase&&decide(D_TERM,&a)==A_FIRE; }
struct Cfg { std::string prop; uint64_t seed; int n,nzmode,ops,reorder; bool groups; std::string fault; long limit; uint64_t theme=0,opseed=0; std::string prefix,only; };
static bool core(const char*n){ static const std::set<std::string> s={"IthVar","Not","And","Or","Xor","Xnor","Nand","Nor","Ite","Leq","LeqUnless","Intersect","ExistAbstract","UnivAbstract","AndAbstract","XorExistAbstract","BooleanDiff","Compose","VectorCompose","Permute","SwapVariables","VarMap","Cofactor","Constrain","Restrict","LICompaction","Squeeze","Support","Eval","ComputeCube","PickOneMinterm","Count"}; return s.count(n)>0; }
static std::string report(E&e,const std::string&verdict,const std::string&msg){ std::string s=verdict+"\n"+msg+"\n"; s+="ops "+std::to_string(e.done)+"\nnulls "+std::to_string(e.nulls)+"\n"; for(auto&x:e.cnt) s+="cnt "+std::to_string(x.second)+" "+x.first+"\n"; return s; }
static std::string session(const Cfg&c){
    HarnessScope hs; allocFaultsOff(); E e(c.seed); e.n=c.n; e.prefix=c.prefix; bool flt=!c.fault.empty(); 
    SV(MMoutOfMemory=Cudd_OutOfMemSilent);
    e.m=S(Cudd_Init(c.n,0,16,64,0)); if(!e.m){ return report(e,flt?"OK":"unexpected-failure","no manager"); }
    e.err=S(fopen((c.prefix+"err.txt").c_str(),"w")); if(e.err){ SV(Cudd_SetStderr(e.m,e.err)); SV(Cudd_SetStdout(e.m,e.err)); }
    std::string verdict="OK",msg;
    try{
        e.op="setup"; e.faults=e.faultRun=flt;
        for(int i=0;i<c.n;i++){ DdNode*b=S(Cudd_bddIthVar(e.m,i)); if(!b){ e.null("a variable"); throw Stop(); } e.bvars.push_back(b); DdNode*a=S(Cudd_addIthVar(e.m,i)); if(!a){ e.null("an ADD variable"); throw Stop(); } SV(Cudd_Ref(a)); e.avars.push_back(a); }
        if(c.nzmode){ e.mult=c.nzmode; if(!S(Cudd_zddVarsFromBddVars(e.m,c.nzmode))){ e.null("the ZDD variables"); throw Stop(); } e.nz=c.n*c.nzmode; }
        if(c.groups){ int at=0; while(at<c.n){ int sz=1+e.r.below(std::min(3,c.n-at)); if(sz>1){ bool fx=e.r.chance(40); MtrNode*t=S(Cudd_MakeTreeNode(e.m,at,sz,fx?MTR_FIXED:MTR_DEFAULT)); if(t){ e.groups.push_back({at,sz,fx}); V gv; for(int i=0;i<sz;i++) gv.push_back(at+i); e.groupVars.push_back(gv); if(trace) dprintf(tracefd(),"group %d+%d fixed %d\n",at,sz,fx); } else e.null("a variable group"); } at+=sz; } }
        if(c.reorder) SV(Cudd_AutodynEnable(e.m,CUDD_REORDER_SIFT)); if(c.reorder&&c.nzmode) SV(Cudd_AutodynEnableZdd(e.m,CUDD_REORDER_SIFT));
        if(c.nzmode&&c.reorder&&e.r.chance(30)){ SV(Cudd_zddRealignEnable(e.m)); } else if(c.nzmode&&c.reorder&&!c.groups&&e.r.chance(30)) SV(Cudd_bddRealignEnable(e.m));
        { F one(e.N(),1),zero(e.N(),0); e.keep({BDD,e.m->one,one,{}}); SV(Cudd_Ref(e.m->one)); DdNode*z=Cudd_Not(e.m->one); e.keep({BDD,z,zero,{}}); SV(Cudd_Ref(z)); for(int i=0;i<e.n;i++){ SV(Cudd_Ref(e.bvars[i])); e.keep({BDD,e.bvars[i],e.varF(i),{}}); } }
        std::vector<const Op*> ops; auto addAll=[&](const std::vector<Op>&v,int mul){ for(auto&o:v) for(int k=0;k<o.w*mul;k++) ops.push_back(&o); };
        if(c.prop=="C02"||(c.prop!="C01"&&c.prop!="C04"&&(c.seed&3)==0)){ addAll(addOps(),1); if(c.nzmode) addAll(zddOps(),2); addAll(bddOps(),0); for(auto&o:bddOps()) if(o.w>=6) for(int k=0;k<o.w/4;k++) ops.push_back(&o); { D d(e.N(),2); DdNode*q=S(Cudd_addConst(e.m,2)); if(!q){ e.null("a constant"); throw Stop(); } SV(Cudd_Ref(q)); e.keep({ADD,q,{},d}); for(int i=0;i<e.n;i++){ D w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=x>>i&1; SV(Cudd_Ref(e.avars[i])); e.keep({ADD,e.avars[i],{},w}); } } if(c.nzmode){ F w(e.NZ()); w[0]=1; SV(Cudd_Ref(e.m->one)); e.keep({ZDD,e.m->one,w,{}}); } }
        else if(c.fault=="alloc"){ for(auto&o:bddOps()) if(core(o.name)) for(int k=0;k<o.w;k++) ops.push_back(&o); } else addAll(bddOps(),1);
        std::vector<const Op*> warm; if(c.theme){ Rng t(c.theme); warm=ops; std::map<std::string,const Op*> by; for(auto o:ops) by[o->name]=o; std::vector<const Op*> all; for(auto&x:by) all.push_back(x.second); ops.clear(); for(int k=1+t.below(4);k>0;k--){ const Op*o=all[t.below(all.size())]; for(int i=0;i<20;i++) ops.push_back(o); } }   // after a few steps with all kinds of operations only few kinds, the same in all threads
        if(!c.only.empty()){ warm.clear(); for(auto o:ops) if(core(o->name)||o->w>=8) warm.push_back(o); std::vector<const Op*> all=ops; ops.clear(); for(auto o:all) if((","+c.only+",").find(std::string(",")+o->name+",")!=std::string::npos) ops.push_back(o); if(ops.empty()) ops=warm; else for(size_t i=0,k=ops.size();i<warm.size();i+=1+warm.size()/(k*2)) ops.push_back(warm[i]); }   // debugging aid
        { size_t base=ops.size(); const std::vector<Op>&mo=mgr(); int tot=0; for(auto&o:mo) tot+=o.w; long mul=(long)base*(c.prop=="C03"?60:15)/100/tot; if(mul<1) mul=1; if(c.theme&&c.prop!="C03"){ std::vector<const Op*> one=ops; while(ops.size()<(size_t)tot*8) ops.insert(ops.end(),one.begin(),one.end()); } for(auto&o:mo) for(long k=0;k<o.w*mul;k++) ops.push_back(&o); }
        if(!flt) e.audit("at the start"); e.faultPhase=true; if(flt) allocFaultsOn();
        if(c.fault=="maxlive") SV(Cudd_SetMaxLive(e.m,(unsigned)c.limit)); if(c.fault=="maxmem"){ SV(Cudd_SetMaxMemory(e.m,S(Cudd_ReadMemoryInUse(e.m))+c.limit)); } if(c.fault=="time"){ SV(Cudd_ResetStartTime(e.m)); SV(Cudd_SetTimeLimit(e.m,c.limit)); } if(c.fault=="term") SV(Cudd_RegisterTerminationCallback(e.m,onTerm,&e));
        Rng orng(c.opseed);
        for(e.opno=0;e.opno<c.ops;e.opno++){
            if(flt&&e.opno==c.ops*2/3){ e.op="faults stop"; e.faultPhase=false; allocFaultsOff(); SV(Cudd_SetMaxLive(e.m,~0u)); SV(Cudd_SetMaxMemory(e.m,(size_t)1<<32)); SV(Cudd_UnsetTimeLimit(e.m)); SV(Cudd_UnregisterTerminationCallback(e.m)); SV(Cudd_ClearErrorCode(e.m)); e.faults=false; e.verifyPool("after the faults stopped"); e.checkManager("after the faults stopped"); }
            const std::vector<const Op*>&from=e.opno<8&&!warm.empty()?warm:ops; const Op*o=from[(c.opseed?orng:e.r).below(from.size())]; if(c.opseed) threadMeet(e.opno); e.op=o->name; if(trace) dprintf(tracefd(),"%ld %s\n",e.opno,o->name); long n0=e.nulls; bool none=Cudd_ReadErrorCode(e.m)==CUDD_NO_ERROR; (void)none;
            e.evict(); o->f(e); e.done++; if(trace&&!getenv("DST_NOAUDIT")){ e.audit("after it"); e.checkManager("after it"); } if(trace&&c.prop=="C03"){ dprintf(tracefd(),"  order"); for(int v:inv(e)) dprintf(tracefd()," %d",v); dprintf(tracefd()," reord %u method %d\n",e.m->reorderings,(int)e.m->autoMethod); } if(c.reorder) checkPerm(e,"during the run");
            if(e.nulls>n0){ Cudd_ErrorType ec=Cudd_ReadErrorCode(e.m); if(ec==CUDD_NO_ERROR) e.cnt["failures without an error code"]++; else e.cnt[std::string("failures with error code ")+std::to_string((int)ec)]++; if(ec==CUDD_INTERNAL_ERROR||ec==CUDD_INVALID_ARG) e.cnt["failures with a misleading error code"]++; SV(Cudd_ClearErrorCode(e.m)); if(c.fault=="time"&&e.r.chance(60)) { SV(Cudd_UpdateTimeLimit(e.m)); SV(Cudd_ResetStartTime(e.m)); SV(Cudd_SetTimeLimit(e.m,c.limit)); } if(e.r.chance(25)) e.verifyPool("after a failed operation"); }
            else if(!e.faults&&Cudd_ReadErrorCode(e.m)!=CUDD_NO_ERROR) e.bad("stray-error","error code "+std::to_string((int)Cudd_ReadErrorCode(e.m))+" although the operation succeeded");
        }
        e.op="end"; e.verifyPool("at the end"); e.checkManager("at the end"); if(!e.faultRun) e.audit("at the end");
    }catch(Bad&b){ verdict=b.klass; msg=b.msg; }catch(Stop&){ }
    if(verdict=="OK"){ e.op="end"; while(!e.pool.empty()) e.drop(0); for(auto a:e.avars) SV(Cudd_RecursiveDeref(e.m,a)); if(e.mult||1){ } int z=S(Cudd_CheckZeroRef(e.m)); if(z&&!flt){ verdict="reference-leak"; msg=std::to_string(z)+" nodes are still referenced after all handles were released"; } if(z&&flt) e.cnt["runs that leak references after a failure"]++; SV(Cudd_Quit(e.m)); }
    return report(e,verdict,msg);
}
static int body(const Cfg&c){ std::string s; { HarnessScope hs; s=session(c); } poisonUser(s); return 0; }
}
using namespace ce;
static Case gen(const char*prop,Rng&r,int tier){
    Case c; c.par["n"]=std::to_string(r.range(2,tier?7:6)); bool z=!strcmp(prop,"C02")||r.chance(25); int zm=0; if(z){ zm=r.chance(50)?1:2; c.par["n"]=std::to_string(r.range(2,zm==2?3:5)); } c.par["nz"]=std::to_string(zm); c.par["ops"]=std::to_string(r.range(20,tier?400:160)); c.par["seed"]=std::to_string(r.next()); c.par["reorder"]=std::to_string(r.chance(60)); bool c3=!strcmp(prop,"C03"); c.par["groups"]=std::to_string(zm!=2&&r.chance(c3?50:10)); if(c3) c.par["reorder"]=std::to_string(r.chance(85)); c.par["prop"]=prop;
    if(!c3&&r.chance(35)) c.par["theme"]=std::to_string(r.next()|1); if(const char*o=getenv("DST_ONLY")){ c.par["only"]=o; c.par.erase("theme"); }
    memSchedule(r,c.sched,20000); c.sched.knobs["fuel"]=100000000L; if(c.p("groups")=="1") c.sched.knobs["norandom"]=1; return c; }
static Case genC01(Rng&r,int t){ return gen("C01",r,t); } static Case genC02(Rng&r,int t){ return gen("C02",r,t); } static Case genC03(Rng&r,int t){ return gen("C03",r,t); }
static Case genC04(Rng&r,int t){ Case c=gen("C04",r,t); c.par["reorder"]="0"; c.par["nz"]="0"; c.par["groups"]="0"; if(c.par["n"]<"4") c.par["n"]="4"; int k=r.below(7); const char*f=""; long lim=0;
    switch(k){ case 0: f="alloc"; for(int i=0;i<4;i++) c.sched.events.push_back({D_ALLOC,A_FAIL,r.below(3000),0}); break;
        case 1: f="alloc"; c.sched.rates.push_back({D_ALLOC,A_FAIL,(uint32_t)(1+r.below(100000)),0}); break;
        case 2: f="alloc"; c.sched.events.push_back({D_ALLOC,A_FAILALL,r.below(4000),0}); break;
        case 3: f="maxlive"; lim=r.range(8,200); break;
        case 4: f="maxmem"; lim=r.below(2000000); break;
        case 5: f="time"; lim=r.range(1,40); c.sched.rates.push_back({D_CLOCK,A_JUMP,(uint32_t)r.below(200000),100}); c.sched.knobs["clockstep"]=r.below(3); break;
        default: f="term"; c.sched.rates.push_back({D_TERM,A_FIRE,(uint32_t)(1+r.below(r.chance(50)?1000:100000)),0}); }
    c.par["fault"]=f; c.par["limit"]=std::to_string(lim); return c; }
static void check(const Case&c,Verdict&v){
    Job j=jobOf(c); Cfg g; g.prop=c.p("prop"); g.seed=strtoull(c.p("seed").c_str(),0,10); g.n=c.pl("n"); g.nzmode=c.pl("nz"); g.ops=c.pl("ops"); g.reorder=c.pl("reorder"); g.groups=c.pl("groups"); g.fault=c.p("fault"); g.limit=c.pl("limit"); g.theme=strtoull(c.p("theme").c_str(),0,10); g.only=c.p("only");
    j.body=[g]{ return body(g); }; Result r=runJob(j); v.trace=r.trace; v.hash=r.hash;
    for(unsigned char ch:r.user) v.hash=(v.hash^ch)*0x100000001b3ULL;
    if(r.end==E_FUEL||r.end==E_TIMEOUT){ v.fail("hang","the run did not end: "+r.describe()+"\n"+r.user); return; }
    if(!r.ok()){ auto it=r.files.find("err.txt"); v.fail("crash","the process ended abnormally: "+r.describe()+"\n"+(it!=r.files.end()?clip(it->second):"")+clip(r.err)); return; }
    if(r.user.empty()){ v.fail("crash","the library ended the process: "+r.describe()+clip(r.err)); return; }
    auto L=splitLines(r.user); v.nontrivial=r.gcs+r.reorders>0||r.fired[A_FAIL]+r.fired[A_FAILALL]+r.fired[A_JUMP]+r.fired[A_FIRE]>0; v.stateKey=mix64(v.hash);
    for(auto&l:L){ if(l.compare(0,4,"cnt ")==0){ char*e; long k=strtol(l.c_str()+4,&e,10); st.c[e+1]+=k; } if(l.compare(0,4,"ops ")==0) st.c["library operations"]+=atol(l.c_str()+4); if(l.compare(0,6,"nulls ")==0) st.c["failed library operations"]+=atol(l.c_str()+6); }
    if(L[0]!="OK"){ auto it=r.files.find("err.txt"); std::string m; for(size_t i=1;i<L.size();i++) if(L[i].compare(0,4,"ops ")==0) break; else m+=L[i]+"\n"; v.fail(L[0],m+"variables "+c.p("n")+", ZDD multiplicity "+c.p("nz")+(g.fault.empty()?"":", fault "+g.fault)+"\n"+(it!=r.files.end()?clip(it->second):"")); }
}
// ---- C06 several threads, each with managers of its own
static int tbody(const std::vector<std::function<std::string()>>&ss,long grain){ std::string all; { HarnessScope hs; std::vector<std::string> rep(ss.size()); std::vector<std::function<void()>> f; for(size_t i=0;i<ss.size();i++) f.push_back([&rep,&ss,i]{ rep[i]=ss[i](); }); runThreads(f,grain);
        std::string verdict="OK",msg,cnt; for(size_t i=0;i<rep.size();i++){ auto L=splitLines(rep[i]); size_t k=1; std::string m; while(k<L.size()&&L[k].compare(0,4,"ops ")&&L[k].compare(0,4,"cnt ")) m+=L[k++]+"\n"; for(;k<L.size();k++) cnt+=L[k]+"\n"; if(verdict=="OK"&&(L.empty()||L[0]!="OK")){ verdict=L.empty()?"no-report":L[0]; msg="thread "+std::to_string(i)+": "+m; } } all=verdict+"\n"+msg+cnt; } poisonUser(all); return 0; }
static Case genC06(Rng&r,int tier){ Case c; int k=r.range(2,tier?4:3); c.par["threads"]=std::to_string(k); uint64_t theme=r.chance(75)?r.next()|1:0; int kind=r.below(10); bool deep=r.chance(30); uint64_t twin=r.chance(kind>=8?70:15)?r.next():0; c.par["grain"]=std::to_string(r.chance(30)?1+r.below(4):r.chance(50)?4+r.below(40):20+r.below(1500));
    for(int i=0;i<k;i++){ std::string t=std::to_string(i); std::string prop=kind<4?"C01":kind<6?"C02":kind<7?"C03":kind<8?(i?"C01":"C04"):"C05"; int zm=prop=="C02"?r.range(0,2):prop=="C03"&&r.chance(30)?1:0; int n=r.range(2,zm==2?3:deep?6:4); const char*f=""; long lim=0;
        if(prop=="C04"){ n=std::max(n,4); switch(r.below(4)){ case 0: f="alloc"; c.sched.rates.push_back({D_ALLOC,A_FAIL,(uint32_t)(1+r.below(100000)),0}); break; case 1: f="maxlive"; lim=r.range(8,200); break; case 2: f="maxmem"; lim=r.below(2000000); break; default: f="term"; c.sched.rates.push_back({D_TERM,A_FIRE,(uint32_t)(1+r.below(100000)),0}); } }
        c.par["prop"+t]=prop; c.par["n"+t]=std::to_string(n); c.par["nz"+t]=std::to_string(zm); c.par["ops"+t]=std::to_string(prop=="C05"?r.range(2,8):r.range(12,deep?60:36)); c.par["seed"+t]=std::to_string(twin?twin:r.next()); c.par["reorder"+t]=std::to_string(prop!="C04"&&r.chance(prop=="C03"?80:30)); c.par["groups"+t]=std::to_string(zm!=2&&prop=="C03"&&r.chance(30)); c.par["fault"+t]=f; c.par["limit"+t]=std::to_string(lim); }
    c.par["theme"]=std::to_string(theme); c.par["opseed"]=std::to_string(r.chance(60)?r.next()|1:0); if(r.chance(60)) memSchedule(r,c.sched,8000); c.sched.knobs["fuel"]=60000000L; c.sched.knobs["norandom"]=1; c.sched.knobs["nodecap"]=600; long g=atol(c.p("grain").c_str()); c.sched.rates.push_back({D_SCHED,A_SWITCH,(uint32_t)(g<4?(r.chance(40)?500000:r.chance(50)?200000:20000):g<40?(r.chance(50)?500000:50000):1000000),0}); return c; }
static void checkC06(const Case&c,Verdict&v){
    Job j=jobOf(c); std::vector<std::function<std::string()>> ss; int k=c.pl("threads");
    for(int i=0;i<k;i++){ std::string t=std::to_string(i); Cfg g; g.prop=c.p("prop"+t); g.seed=strtoull(c.p("seed"+t).c_str(),0,10); g.n=c.pl("n"+t); g.nzmode=c.pl("nz"+t); g.ops=c.pl("ops"+t); g.reorder=c.pl("reorder"+t); g.groups=c.pl("groups"+t); g.fault=c.p("fault"+t); g.limit=c.pl("limit"+t); g.theme=strtoull(c.p("theme").c_str(),0,10); g.opseed=strtoull(c.p("opseed").c_str(),0,10); g.prefix="t"+t;
        if(g.prop=="C05") ss.push_back([g]{ return dddmpSession(g.seed,g.n,g.ops,1+g.seed%2,g.reorder,g.prefix); }); else ss.push_back([g]{ return session(g); }); }
    long grain=std::max(1L,c.pl("grain",1)); j.body=[ss,grain]{ return tbody(ss,grain); }; Result r=runJob(j); v.trace=r.trace; v.hash=r.hash; for(unsigned char ch:r.user) v.hash=(v.hash^ch)*0x100000001b3ULL;
    if(r.end==E_FUEL||r.end==E_TIMEOUT){ v.fail("hang","the run did not end: "+r.describe()); return; }
    if(!r.ok()||r.user.empty()){ v.fail("crash","the process ended abnormally: "+r.describe()+"\n"+clip(r.err)); return; }
    auto L=splitLines(r.user); v.nontrivial=r.fired[A_SWITCH]>0; v.stateKey=mix64(v.hash); st.c["thread switches"]+=r.fired[A_SWITCH];
    for(auto&l:L){ if(l.compare(0,4,"cnt ")==0){ char*e; long n=strtol(l.c_str()+4,&e,10); st.c[e+1]+=n; } if(l.compare(0,4,"ops ")==0) st.c["library operations"]+=atol(l.c_str()+4); if(l.compare(0,6,"nulls ")==0) st.c["failed library operations"]+=atol(l.c_str()+6); }
    if(L[0]!="OK"){ std::string m; for(size_t i=1;i<L.size();i++) if(L[i].compare(0,4,"ops ")==0||L[i].compare(0,4,"cnt ")==0) break; else m+=L[i]+"\n"; v.fail(L[0],m+"threads "+c.p("threads")+"\n"); } }
static const char*RULE="Each run creates one decision diagram manager with small tables and applies a seeded sequence of its public operations to a pool of handles; each result is read node by node into a table over all assignments and compared with the table computed from the operands; equal functions must have equal handles. Meanwhile the schedule collects garbage, reorders, flushes the cache and resizes tables at chosen node creations.";
static const char*REAL="the decision diagram library (cudd, mtr, epd, st, util), compiled from /repo";
static const char*STUB="allocator, clock, random numbers, standard streams (simulated); the client program is the generated operation sequence";
static Reg c1({"C01","BDD operations",genC01,check,1,RULE,REAL,STUB});
static Reg c2({"C02","ADD and ZDD operations",genC02,check,1,RULE,REAL,STUB});
static Reg c3({"C03","reordering and garbage collection",genC03,check,1,RULE,REAL,STUB});
static Reg c6({"C06","threads with managers of their own",genC06,checkC06,1,"Each run starts two to four threads; each applies a seeded sequence of operations to a manager of its own, or stores and loads diagram files. The seeded scheduler preempts a thread at any basic block of library code and lets another one run. Every result is compared with the explicit model of its own thread, as in C01 to C05; faults (allocation failures, limits, termination requests) hit single threads.",REAL,"threads (own stacks, seeded preemption at basic blocks), allocator, clock, random numbers, files, standard streams (simulated); the client programs are the generated operation sequences"});
static Reg c4({"C04","resource exhaustion",genC04,check,1,RULE,REAL,STUB});
}
