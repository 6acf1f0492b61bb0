// C05 decision diagram files: store and load under disk faults, damaged files, other managers and other orders
#include "cuddeng.h"
extern "C" {
#include "dddmp.h"
}
#undef fail
namespace dst { namespace ce {
typedef std::vector<int> V;
struct DCfg { uint64_t seed; int n,ops,cycles,reorder; long disk; std::string prefix; };
static F mapped(const F&f,int n,const V&map,int n2){ F t((size_t)1<<n2); for(size_t y=0;y<t.size();y++){ size_t x=0; for(int v=0;v<n;v++) if(y>>map[v]&1) x|=(size_t)1<<v; t[y]=f[x]; } return t; }
static D mappedD(const D&f,int n,const V&map,int n2){ D t((size_t)1<<n2); for(size_t y=0;y<t.size();y++){ size_t x=0; for(int v=0;v<n;v++) if(y>>map[v]&1) x|=(size_t)1<<v; t[y]=f[x]; } return t; }
static V randPerm(Rng&r,int n){ V p; for(int i=0;i<n;i++) p.push_back(i); for(int i=n-1;i>0;i--) std::swap(p[i],p[r.below(i+1)]); return p; }
static V randOrder(E&e,const char*what){ V p=randPerm(e.r,e.n); int ok=S(Cudd_ShuffleHeap(e.m,p.data())); if(!ok) e.bad("unexpected-failure",what); return p; }
static void startManager(E&e,int n,int reorder){ e.n=n; e.m=S(Cudd_Init(n,0,16,64,0)); if(!e.m) throw Bad{"unexpected-failure","no manager"};
    for(int i=0;i<n;i++){ DdNode*b=S(Cudd_bddIthVar(e.m,i)); if(!b) e.bad("unexpected-failure","no variable"); e.bvars.push_back(b); DdNode*a=S(Cudd_addIthVar(e.m,i)); if(!a) e.bad("unexpected-failure","no ADD variable"); SV(Cudd_Ref(a)); e.avars.push_back(a); }
    if(reorder) SV(Cudd_AutodynEnable(e.m,CUDD_REORDER_SIFT)); e.audit("at the start"); }
static void endManager(E&e){ while(!e.pool.empty()) e.drop(0); for(auto a:e.avars) SV(Cudd_RecursiveDeref(e.m,a)); int z=S(Cudd_CheckZeroRef(e.m)); if(z) throw Bad{"reference-leak",std::to_string(z)+" nodes are still referenced after all handles were released"}; SV(Cudd_Quit(e.m)); }
static void addValue(E&e){ // a random arithmetic function with few, possibly fractional, values
    static const double C[]={0,1,2,-1,0.5,0.1,3.25,-7.75,1000000,123456.75,1234567.5,1e-7,1.0/3,65536,1e9,-0.001,99999.5}; D d(e.N()); double p[4]; for(auto&x:p) x=C[e.r.below(sizeof C/sizeof*C)]; int v1=e.r.below(e.n),v2=e.r.below(e.n),k=1+e.r.below(4); for(size_t x=0;x<d.size();x++) d[x]=p[((x>>v1&1)*2+(x>>v2&1))%k];
    if(e.r.chance(40)) for(size_t x=0;x<d.size();x++) d[x]=p[mix64(x*7+(uint64_t)(p[0]*16)+e.opno)%4];
    std::function<DdNode*(int,size_t)> build=[&](int v,size_t x)->DdNode*{ if(v==e.n){ DdNode*c=S(Cudd_addConst(e.m,d[x])); if(!c) e.bad("unexpected-failure","a constant"); SV(Cudd_Ref(c)); return c; } DdNode*h=build(v+1,x|(size_t)1<<v),*l=build(v+1,x); DdNode*q=S(Cudd_addIte(e.m,e.avars[v],h,l)); if(!q) e.bad("unexpected-failure","addIte"); SV(Cudd_Ref(q)); SV(Cudd_RecursiveDeref(e.m,h)); SV(Cudd_RecursiveDeref(e.m,l)); return q; };
    DdNode*q=build(0,0); D t=e.values(q); if(t!=d) e.bad("wrong-result","an ADD built from its values is "+E::show(t)+" instead of "+E::show(d)); e.keep({ADD,q,{},d}); }
static void denseBdd(E&e){ // a function without much structure: a diagram of many nodes
    F f(e.N()); unsigned den=5+e.r.below(91); for(auto&x:f) x=e.r.below(100)<den; int flat=e.r.below(3); for(int k=0;k<flat;k++){ int v=e.r.below(e.n); for(size_t x=0;x<f.size();x++) if(x>>v&1) f[x]=f[x^((size_t)1<<v)]; }
    std::function<DdNode*(int,size_t)> build=[&](int v,size_t x)->DdNode*{ if(v==e.n){ DdNode*q=f[x]?e.m->one:Cudd_Not(e.m->one); SV(Cudd_Ref(q)); return q; } DdNode*h=build(v+1,x|(size_t)1<<v),*l=build(v+1,x); DdNode*q=S(Cudd_bddIte(e.m,e.bvars[v],h,l)); if(!q) e.bad("unexpected-failure","if-then-else"); SV(Cudd_Ref(q)); SV(Cudd_RecursiveDeref(e.m,h)); SV(Cudd_RecursiveDeref(e.m,l)); return q; };
    DdNode*q=build(0,0); F t=e.table(q); if(t!=f) e.bad("wrong-result","a BDD built from its values is "+E::show(t)+" instead of "+E::show(f)); e.canon({BDD,q,f,{}}); e.keep({BDD,q,f,{}}); }
static std::string kindName(int k){ return k==BDD?"BDD":"ADD"; }
static std::string dsession(const DCfg&c){
    HarnessScope hs; allocFaultsOff(); diskFaults(false); E e(c.seed),e2(c.seed^77); std::string verdict="OK",msg; std::map<std::string,long> cnt; Rng&r=e.r; std::string ctx;
    SV(MMoutOfMemory=Cudd_OutOfMemSilent);
    try{
        e.op="setup"; startManager(e,c.n,c.reorder); e2.op="setup"; int n2=c.n+(int)r.below(3); startManager(e2,n2,c.reorder&&r.chance(50));
        { F one(e.N(),1),zero(e.N(),0); e.keep({BDD,e.m->one,one,{}}); SV(Cudd_Ref(e.m->one)); DdNode*z=Cudd_Not(e.m->one); e.keep({BDD,z,zero,{}}); SV(Cudd_Ref(z)); for(int i=0;i<e.n;i++){ SV(Cudd_Ref(e.bvars[i])); e.keep({BDD,e.bvars[i],e.varF(i),{}}); } }
        { F one(e2.N(),1); e2.keep({BDD,e2.m->one,one,{}}); SV(Cudd_Ref(e2.m->one)); for(int i=0;i<n2;i++){ SV(Cudd_Ref(e2.bvars[i])); e2.keep({BDD,e2.bvars[i],e2.varF(i),{}}); } }
        static const std::set<std::string> wanted={"And","Or","Xor","Ite","Not","ExistAbstract","Compose","Permute","Constrain"};
        std::vector<const Op*> ops; for(auto&o:bddOps()) if(wanted.count(o.name)) for(int k=0;k<o.w;k++) ops.push_back(&o);
        for(int cy=0;cy<c.cycles;cy++){
            for(int k=0;k<c.ops;k++){ e.opno++; const Op*o=ops[r.below(ops.size())]; e.op=o->name; e.evict(); o->f(e); }
            for(int k=r.below(3);k>0;k--){ e.evict(); e.op="building an ADD"; addValue(e); }
            for(int k=c.n>6?1+r.below(3):r.chance(15);k>0;k--){ e.evict(); e.op="building a dense diagram"; denseBdd(e); }
            if(r.chance(60)) randOrder(e,"a new order"); if(r.chance(60)) randOrder(e2,"a new order");
            int kind=e.has(ADD)&&r.chance(35)?ADD:BDD; int nr=r.chance(50)?1:1+r.below(4); std::vector<H> roots; for(int i=0;i<nr;i++) roots.push_back(kind==BDD&&c.n>6&&r.chance(50)&&e.pool.back().k==BDD?e.pool.back():e.pick((Kind)kind));
            bool text=kind==ADD||r.chance(55); int nd=e.n; 
            std::vector<std::string> names; { std::set<std::string> s; while((int)names.size()<n2){ std::string w; for(int k=r.range(1,6);k>0;k--) w+="abcXYZ_'019.#"[r.below(13)]; if(s.insert(w).second) names.push_back(w); } }
            V aux=randPerm(r,n2+3); std::vector<std::string> rn; for(int i=0;i<nr;i++) rn.push_back("r"+std::to_string((i*7+3)%10)+std::string(r.below(3),'q'));
            bool useN=r.chance(60),useA=r.chance(50),useR=r.chance(50); int vi=(int)DDDMP_VARDEFAULT; { V o={DDDMP_VARIDS,DDDMP_VARPERMIDS,DDDMP_VARDEFAULT}; if(useN) o.push_back(DDDMP_VARNAMES); if(useA) o.push_back(DDDMP_VARAUXIDS); vi=o[r.below(o.size())]; }
            std::vector<char*> nm(n2),rp(nr); std::vector<DdNode*> fs(nr); for(int i=0;i<n2;i++) nm[i]=(char*)names[i].c_str(); for(int i=0;i<nr;i++){ rp[i]=(char*)rn[i].c_str(); fs[i]=roots[i].n; }
            int mode=text?DDDMP_MODE_TEXT:DDDMP_MODE_BINARY; bool byName=r.chance(50); std::string fn=c.prefix+"d"+std::to_string(cy); const char*dd=r.chance(40)?"some-name":nullptr; V perm; for(int i=0;i<nd;i++) perm.push_back(Cudd_ReadPerm(e.m,i));
            ctx=kindName(kind)+" file, "+std::to_string(nr)+" roots, "+(text?"text":"binary")+", variable information "+std::to_string(vi)+(useN?", names":"")+(useA?", auxiliary ids":"")+(useR?", root names":"")+(byName?", by file name":", by stream");
            // ---- store
            e.op="storing"; e.opno++; threadMeet(4*cy); e.audit("before storing"); long used=(long)Cudd_ReadKeys(e.m)-(long)Cudd_ReadDead(e.m); (void)used; uint64_t h0=hardDiskFaults(); diskFaults(true,c.disk>=0&&r.chance(50)?(long)r.below(c.disk+1):-1); int rc=0; bool ok; FILE*fp=nullptr; bool skip=false;
            if(!byName){ fp=S(fopen(fn.c_str(),"w")); if(!fp) skip=true; }
            if(!skip){ char*fnp=byName?(char*)fn.c_str():nullptr;
                rc=kind==BDD?(nr==1&&!useR&&r.chance(50)?S(Dddmp_cuddBddStore(e.m,(char*)dd,fs[0],useN?nm.data():nullptr,useA?aux.data():nullptr,mode,(Dddmp_VarInfoType)vi,fnp,fp)):S(Dddmp_cuddBddArrayStore(e.m,(char*)dd,nr,fs.data(),useR?rp.data():nullptr,useN?nm.data():nullptr,useA?aux.data():nullptr,mode,(Dddmp_VarInfoType)vi,fnp,fp)))
                    :(nr==1&&!useR&&r.chance(50)?S(Dddmp_cuddAddStore(e.m,(char*)dd,fs[0],useN?nm.data():nullptr,useA?aux.data():nullptr,mode,(Dddmp_VarInfoType)vi,fnp,fp)):S(Dddmp_cuddAddArrayStore(e.m,(char*)dd,nr,fs.data(),useR?rp.data():nullptr,useN?nm.data():nullptr,useA?aux.data():nullptr,mode,(Dddmp_VarInfoType)vi,fnp,fp))); }
            ok=!skip&&rc==DDDMP_SUCCESS; if(fp&&S(fclose(fp))!=0) ok=false;
            bool hit=hardDiskFaults()>h0; diskFaults(false);
            for(int i=0;i<nd;i++) perm[i]=Cudd_ReadPerm(e.m,i);   // storing computes supports and may reorder before it writes anything
            if(!ok&&!hit) e.bad("unexpected-failure","storing failed although nothing went wrong; "+ctx);
            e.verifyPool("after storing"); e.checkManager("after storing"); e.audit("after storing");
            if(hit) cnt["stores hit by a disk fault"]++; cnt["stores"]++; if(!ok){ cnt["stores that reported failure"]++; if(r.chance(70)){ // whatever is left of the file must not be taken for a complete one
                    std::string*d=diskFile(fn); if(!d) continue; if(d->find(".end")!=std::string::npos) continue; } else continue; }
            bool torn=!ok; std::string full; { std::string*d=diskFile(fn); if(!d) e.bad("incomplete-file","storing reported success but there is no file; "+ctx); full=*d; }
            if(ok&&r.chance(30)&&full.size()>2){ size_t cut=r.below(full.size()-1); if(full.find(".end",0)!=std::string::npos&&cut<full.rfind(".end")+4){ torn=true; fn=c.prefix+"t"; putDiskFile(fn,full.substr(0,cut)); cnt["files cut short"]++; } }
            // ---- load
            for(int again=0;again<2;again++){
            threadMeet(4*cy+1+again); bool other=r.chance(60); E&t=other?e2:e; t.opno++; t.op="loading"; int nt=t.n; std::vector<V> mm; V map(nd); int how; { V o={DDDMP_VAR_MATCHIDS,DDDMP_VAR_MATCHPERMIDS,DDDMP_VAR_COMPOSEIDS}; if(useN) o.push_back(DDDMP_VAR_MATCHNAMES); if(useA) o.push_back(DDDMP_VAR_MATCHAUXIDS); how=o[r.below(o.size())]; }
            V place=randPerm(r,nt); std::vector<char*> mn(nt,nullptr); V maux(nt,-1),comp(std::max(nd,nt),0); static const char*other0[]={"zz-1","zz-2","zz-3","zz-4","zz-5","zz-6","zz-7","zz-8","zz-9"};
            for(int i=nd;i<nt;i++){ mn[place[i]]=r.chance(50)?(char*)other0[i%9]:nullptr; maux[place[i]]=100+i; }
            for(int i=0;i<nd;i++){ mn[place[i]]=nm[i]; maux[place[i]]=aux[i]; comp[i]=r.chance(20)?(int)r.below(nt):place[i]; }
            t.evict();
            for(int i=0;i<nd;i++) map[i]=how==DDDMP_VAR_MATCHIDS?i:how==DDDMP_VAR_MATCHPERMIDS?Cudd_ReadInvPerm(t.m,perm[i]):how==DDDMP_VAR_COMPOSEIDS?comp[i]:place[i];
            bool byRoot=useR&&nr>1&&r.chance(50); V ro=randPerm(r,nr); std::vector<char*> rm(nr); for(int i=0;i<nr;i++) rm[i]=rp[byRoot?ro[i]:i]; int lmode=r.chance(40)?DDDMP_MODE_DEFAULT:mode; bool lName=r.chance(50);
            std::string lc=ctx+"; loaded "+(other?"by another manager":"by the same manager")+", match mode "+std::to_string(how)+(byRoot?", roots by name":"")+(torn?", file cut short":"")+"\nfile:\n"+clip(fn==c.prefix+"t"||!ok?*diskFile(fn):full,900);
            t.audit("before loading"); t.verifyPool("before loading"); bool single=nr==1&&r.chance(50)&&!byRoot; DdNode**pr=nullptr; DdNode*one=nullptr; int got=0; uint64_t l0=hardDiskFaults(); if(again==0) diskFaults(true);
            FILE*lf=nullptr; bool lskip=false; if(!lName){ lf=S(fopen(fn.c_str(),"r")); if(!lf) lskip=true; }
            if(!lskip){ char*fnp=lName?(char*)fn.c_str():nullptr; Dddmp_RootMatchType rt=byRoot?DDDMP_ROOT_MATCHNAMES:DDDMP_ROOT_MATCHLIST;
                if(single){ one=kind==BDD?S(Dddmp_cuddBddLoad(t.m,(Dddmp_VarMatchType)how,mn.data(),maux.data(),comp.data(),lmode,fnp,lf)):S(Dddmp_cuddAddLoad(t.m,(Dddmp_VarMatchType)how,mn.data(),maux.data(),comp.data(),lmode,fnp,lf)); got=one?1:0; }
                else got=kind==BDD?S(Dddmp_cuddBddArrayLoad(t.m,rt,byRoot?rm.data():nullptr,(Dddmp_VarMatchType)how,mn.data(),maux.data(),comp.data(),lmode,fnp,lf,&pr)):S(Dddmp_cuddAddArrayLoad(t.m,rt,byRoot?rm.data():nullptr,(Dddmp_VarMatchType)how,mn.data(),maux.data(),comp.data(),lmode,fnp,lf,&pr)); }
            if(lf) SV(fclose(lf)); bool lhit=hardDiskFaults()>l0; diskFaults(false); cnt["loads"]++; if(lhit) cnt["loads hit by a disk fault"]++;
            if(got==0){ cnt["loads that failed"]++; if(!lhit&&!torn) t.bad("load-failed","a completely stored file cannot be loaded; "+lc); if(pr) t.bad("wrong-result","loading failed but returned diagrams; "+lc); }
            else { if(torn) t.bad("torn-file-accepted","a file that ends early was loaded; "+lc); if(got!=nr) t.bad("wrong-result",std::to_string(got)+" diagrams were loaded instead of "+std::to_string(nr)+"; "+lc);
                for(int i=0;i<nr;i++){ DdNode*q=single?one:pr[i]; const H&src=roots[byRoot?ro[i]:i]; if(!q) t.bad("wrong-result","a loaded diagram is NULL; "+lc);
                    if(kind==BDD){ F want=mapped(src.f,nd,map,nt),is=t.table(q); if(is!=want) t.bad("wrong-result","loaded diagram "+std::to_string(i)+" is "+E::show(is)+" instead of "+E::show(want)+"; "+lc); t.canon({BDD,q,want,{}}); t.keep({BDD,q,want,{}}); }
                    else { D want=mappedD(src.d,nd,map,nt),is=t.values(q); if(is!=want) t.bad("wrong-result","loaded diagram "+std::to_string(i)+" is "+E::show(is)+" instead of "+E::show(want)+"; "+lc); t.keep({ADD,q,{},want}); } }
                if(pr) SV(free(pr)); }
            t.verifyPool("after loading"); t.checkManager("after loading"); t.audit("after loading"); if(got&&!lhit) break; }
            if(r.chance(50)) for(int k=r.below(5);k>0&&e.pool.size()>8;k--) e.drop(r.below(e.pool.size()));
        }
        e.op=e2.op="end"; e.verifyPool("at the end"); e2.verifyPool("at the end"); endManager(e); endManager(e2);
    }catch(Bad&b){ verdict=b.klass; msg=b.msg; }catch(Stop&){ }
    std::string s=verdict+"\n"+msg+"\n"; for(auto&x:cnt) s+="cnt "+std::to_string(x.second)+" "+x.first+"\n"; return s; }
static int dbody(const DCfg&c){ std::string s; { HarnessScope hs; s=dsession(c); } poisonUser(s); return 0; }
std::string dddmpSession(uint64_t seed,int n,int ops,int cycles,int reorder,const std::string&prefix){ return dsession({seed,n,ops,cycles,reorder,-1,prefix}); }
}
using namespace ce;
static Case genD(Rng&r,int tier){ Case c; bool big=r.chance(12); c.par["n"]=std::to_string(big?r.range(7,tier?10:9):r.range(1,tier?6:5)); c.par["ops"]=std::to_string(r.range(2,tier?40:20)); c.par["cycles"]=std::to_string(big?r.range(1,3):r.range(1,tier?10:5)); c.par["seed"]=std::to_string(r.next()); c.par["reorder"]=std::to_string(r.chance(50)); c.par["disk"]="-1";
    memSchedule(r,c.sched,20000); c.sched.knobs["fuel"]=200000000L; auto ev=[&](uint32_t d,uint32_t a,uint64_t i,uint64_t arg){ c.sched.events.push_back({d,a,i,arg}); };
    switch(r.below(12)){ case 0: case 1: ev(D_WRITE,A_EIO,r.below(5),0); break; case 2: ev(D_WRITE,A_ENOSPC,r.below(5),r.next()); break; case 3: case 4: c.par["disk"]=std::to_string(r.below(big&&r.chance(50)?8000:r.chance(50)?300:1500)); break; case 5: ev(D_CLOSE,A_FAIL,r.below(4),r.next()); break; case 6: ev(D_OPEN,A_FAIL,r.below(6),0); break;
        case 7: c.sched.rates.push_back({D_READ,A_SHORT,(uint32_t)(r.chance(50)?1000000:300000),r.chance(50)?20ul:0ul}); ev(D_READ,A_EIO,r.below(40),0); break; case 8: ev(D_READ,A_EIO,r.below(4),0); break; case 9: c.sched.rates.push_back({D_READ,A_SHORT,700000,9}); break; default: break; }
    return c; }
static void checkD(const Case&c,Verdict&v){
    Job j=jobOf(c); DCfg g; g.seed=strtoull(c.p("seed").c_str(),0,10); g.n=c.pl("n"); g.ops=c.pl("ops"); g.cycles=c.pl("cycles"); g.reorder=c.pl("reorder"); g.disk=c.pl("disk",-1);
    j.body=[g]{ return dbody(g); }; Result r=runJob(j); v.trace=r.trace; v.hash=r.hash; for(unsigned char ch:r.user) v.hash=(v.hash^ch)*0x100000001b3ULL;
    if(r.end==E_FUEL||r.end==E_TIMEOUT){ v.fail("hang","the run did not end: "+r.describe()+"\n"+r.user); return; }
    if(!r.ok()||r.user.empty()){ v.fail("crash","the process ended abnormally: "+r.describe()+"\n"+clip(r.err)); return; }
    auto L=splitLines(r.user); v.nontrivial=r.gcs+r.reorders>0||r.fired[A_FAIL]+r.fired[A_EIO]+r.fired[A_ENOSPC]+r.fired[A_SHORT]>0; v.stateKey=mix64(v.hash);
    for(auto&l:L) if(l.compare(0,4,"cnt ")==0){ char*e; long k=strtol(l.c_str()+4,&e,10); st.c[e+1]+=k; }
    if(L[0]!="OK"){ std::string m; for(size_t i=1;i<L.size();i++) if(L[i].compare(0,4,"cnt ")==0) break; else m+=L[i]+"\n"; v.fail(L[0],m+"\n"+clip(r.err)); } }
static Reg c5({"C05","decision diagram files",genD,checkD,1,"Each run builds random decision diagrams in one manager, stores them to a simulated disk and loads them again, by the same or another manager with another variable order, with every way to match variables and roots; loaded diagrams are read node by node and compared with the stored functions. Writes, reads, opens and closes fail, the disk fills up and files are cut short at seeded points.","the decision diagram library with its file format part (cudd, mtr, epd, st, util, dddmp), compiled from /repo","allocator, clock, files and standard streams (simulated); the client program is the generated operation sequence"});
}
