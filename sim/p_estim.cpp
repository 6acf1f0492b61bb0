// S27 state estimators under incomplete information: the printed belief space abstraction against an explicit model
#include "modes.h"
namespace dst {
struct ESpec { std::vector<std::string> ob,un,co,es,ei,si,et,sy; std::vector<std::string> order; };
static bool readE(const std::string&txt,ESpec&m){ std::vector<std::string>*cur=0; for(auto l:splitLines(txt)){ l=trim(l); if(l.empty()||l[0]=='#') continue; if(l[0]=='['){ std::string h=l.substr(1,l.size()-2); cur=h=="OBSERVABLE_INPUT"?&m.ob:h=="UNOBSERVABLE_INPUT"?&m.un:h=="CONTROLLABLE_INPUT"?&m.co:h=="OUTPUT"?&m.es:h=="ENV_INIT"?&m.ei:h=="SYS_INIT"?&m.si:h=="ENV_TRANS"?&m.et:h=="SYS_TRANS"?&m.sy:0; if(!cur) return false; } else { if(!cur) return false; cur->push_back(l); if(cur==&m.ob||cur==&m.un||cur==&m.co||cur==&m.es) m.order.push_back(l); } } return true; }
static void group(Rng&r,std::vector<std::string>&v,const std::string&pre){ int k=r.range(1,2); long lo=r.below(3),hi=k==1?lo+1:lo+2+r.below(2); for(int i=0;i<k;i++) v.push_back(i?pre+"@"+std::to_string(i):pre+"@0."+std::to_string(lo)+"."+std::to_string(hi)); }
void estimatorWorkload(Rng&r,Case&c,int maxBits){
    ESpec m; do { m=ESpec(); int no=r.below(3),nu=r.below(3),nc=r.chance(35),ne=r.range(1,2); const char*a[]={"a","b"},*u[]={"u","w"};
        for(int i=0;i<no;i++) m.ob.push_back(a[i]); if(r.chance(12)) group(r,m.ob,"g");
        if(r.chance(20)) group(r,m.un,"h"); else for(int i=0;i<nu;i++) m.un.push_back(u[i]);
        if(nc) m.co.push_back("c");
        const char*px[]={"","min_","max_"}; for(int i=0;i<ne;i++){ std::string p=std::string(px[r.below(3)])+"xy"[i]; if(r.chance(30)) group(r,m.es,p); else m.es.push_back(p); }
    } while((int)(m.ob.size()+m.un.size()+m.co.size()+m.es.size())>maxBits);
    auto add=[](std::vector<std::string>&v,const std::vector<std::string>&w,bool next){ for(auto&x:w) v.push_back(next?x+"'":x); };
    std::vector<std::string> ini,iniS,env,sys,hid,est,obsN,unN; add(ini,m.ob,0); add(ini,m.un,0); add(ini,m.co,0); iniS=ini; add(iniS,m.es,0); env=iniS; add(env,m.ob,1); add(env,m.un,1); add(env,m.co,1); sys=env; add(sys,m.es,1); add(est,m.es,1); add(unN,m.un,1); add(obsN,m.ob,1); hid=unN; add(hid,obsN,0);
    auto f=[&](const std::vector<std::string>&v,int d){ return v.empty()?std::string("1"):randFormula(r,v,d); };
    for(int k=r.below(3);k>0;k--) m.ei.push_back(f(ini,r.below(2))); for(int k=r.below(3);k>0;k--) m.si.push_back(f(iniS,r.below(2)));
    if(r.chance(30)) for(auto&x:m.es) m.si.push_back("! "+x);
    for(int k=r.below(4);k>0;k--) m.et.push_back(r.chance(40)?f(env,2):r.chance(50)&&!hid.empty()?"| "+f(hid,0)+" "+f(env,1):"| "+f(env,1)+" "+f(env,1));
    if(!m.ob.empty()&&!m.un.empty()&&r.chance(40)) m.et.push_back("! ^ "+obsN[r.below(obsN.size())]+" "+unN[r.below(unN.size())]);           // a sensor
    if(!m.un.empty()&&r.chance(40)){ auto&x=m.un[r.below(m.un.size())]; m.et.push_back("| ! "+x+" "+x+"'"); }                                // a hidden fact that stays
    for(int k=r.below(4);k>0;k--){ std::string e=est[r.below(est.size())]; switch(r.below(4)){ case 0: m.sy.push_back(f(sys,2)); break; case 1: m.sy.push_back("| "+std::string(r.chance(50)?"! ":"")+e+" "+f(env,1)); break; case 2: if(!unN.empty()){ m.sy.push_back("| ! "+unN[r.below(unN.size())]+" "+e); break; } /*fallthrough*/ default: m.sy.push_back("| "+f(est,0)+" "+f(sys,1)); } }
    auto sec=[](const char*h,const std::vector<std::string>&v){ std::string s=std::string("[")+h+"]\n"; for(auto&x:v) s+=x+"\n"; return s; };
    std::vector<std::string> head={sec("OBSERVABLE_INPUT",m.ob),sec("UNOBSERVABLE_INPUT",m.un),sec("CONTROLLABLE_INPUT",m.co),sec("OUTPUT",m.es)}; if(r.chance(40)) for(int i=3;i>0;i--) std::swap(head[i],head[r.below(i+1)]);
    std::string t; for(auto&x:head) t+=x; t+=sec("ENV_INIT",m.ei)+sec("SYS_INIT",m.si)+sec("ENV_TRANS",m.et)+sec("SYS_TRANS",m.sy); c.disk["s.in"].data=t; c.args={"--computeIncompleteInformationEstimator","s.in"};
}
static Case genEst(Rng&r,int tier){ Case c; estimatorWorkload(r,c,tier?6:r.chance(20)?6:5); memSchedule(r,c.sched); return c; }
static TT ex(TT t,size_t mask){ for(int b=0;mask>>b;b++) if(mask>>b&1) for(size_t x=0;x<t.size();x++) if(!(x>>b&1)) t[x]=t[x|(size_t)1<<b]=t[x]|t[x|(size_t)1<<b]; return t; }
struct Group { std::string prefix; bool post,est; long lo,hi; std::vector<int> bits; };
static void checkEst(const Case&c,Verdict&v){
    ESpec m; if(!readE(c.disk.at("s.in").data,m)) return; std::vector<std::string> names; std::map<std::string,int> pre,all; size_t U=0,E=0,O=0,C=0; int b=0;
    int n=m.ob.size()+m.un.size()+m.co.size()+m.es.size(); if(n>8||!n) return; auto put=[&](const std::vector<std::string>&w,size_t&mask){ for(auto&x:w){ names.push_back(x); pre[x]=b; all[x]=b; all[x+"'"]=b+n; mask|=(size_t)1<<b; b++; } }; put(m.ob,O); put(m.un,U); put(m.co,C); put(m.es,E);
    size_t N=(size_t)1<<n,M=N<<n; std::string err; bool bad=false; auto ev=[&](const std::vector<std::string>&fs,const std::map<std::string,int>&bit,int nb){ TT o((size_t)1<<nb,1),t; for(auto&f:fs){ if(!evalFormula(f,bit,nb,t,err)){ bad=true; return o; } for(size_t i=0;i<o.size();i++) o[i]&=t[i]; } return o; };
    TT ei=ev(m.ei,pre,n),si=ev(m.si,pre,n),se=ev(m.et,all,2*n),ss=ev(m.sy,all,2*n); if(bad) return;
    auto reach=[&](const std::function<bool(size_t)>&step){ std::vector<uint8_t> R(N); std::vector<size_t> st; for(size_t s=0;s<N;s++) if(ei[s]&&si[s]){ R[s]=1; st.push_back(s); } while(!st.empty()){ size_t s=st.back(); st.pop_back(); for(size_t t=0;t<N;t++) if(!R[t]&&step(s|t<<n)){ R[t]=1; st.push_back(t); } } return R; };
    auto R=reach([&](size_t k){ return se[k]&&ss[k]; });
    TT viol(M); for(size_t k=0;k<M;k++) viol[k]=R[k&(N-1)]&&se[k]&&!ss[k]; TT S=ex(viol,U|U<<n); for(auto&x:S) x=!x; TT perm=S;
    for(size_t i=m.order.size();i-->0;) if(std::find(m.es.begin(),m.es.end(),m.order[i])!=m.es.end()){ const std::string&nm=m.order[i]; bool mn=nm.compare(0,4,"min_")==0,mx=nm.compare(0,4,"max_")==0; if(!mn&&!mx) continue; size_t bit=(size_t)1<<(pre[nm]+n); TT q=S; for(size_t k=0;k<M;k++) q[k]=S[k]&&(((k&bit)!=0)==mn); q=ex(q,E<<n); for(size_t k=0;k<M;k++) if(q[k]&&((k&bit)!=0)!=mn) S[k]=0; }
    auto R2=reach([&](size_t k){ return se[k]&&ss[k]&&S[k]; }); TT A(M); for(size_t k=0;k<M;k++) A[k]=R2[k&(N-1)]&&se[k]; A=ex(A,U|U<<n|E<<n|C<<n);
    auto R3=reach([&](size_t k){ return se[k]&&A[k]&&S[k]; }); TT anyA=ex(A,(N-1)<<n),anyS=ex(S,E<<n); bool de=false,ds=false; for(size_t k=0;k<M;k++) if(R3[k&(N-1)]){ if(!anyA[k]) de=true; else if(!anyS[k]) ds=true; }
    bool none=true; for(auto x:R) none=none&&!x;
    // encoded numbers: least and greatest difference over all transitions of the abstraction
    std::vector<Group> gs; for(auto&nm:m.order){ size_t at=nm.find('@'); if(at==std::string::npos||nm.find('.')==std::string::npos) continue; Group g; g.prefix=nm.substr(0,at); g.lo=g.hi=0; sscanf(nm.c_str()+at,"@0.%ld.%ld",&g.lo,&g.hi); g.est=E>>pre[nm]&1; for(int i=0;;i++){ std::string w=i?g.prefix+"@"+std::to_string(i):nm; if(!pre.count(w)) break; g.bits.push_back(pre[w]); } for(int p=0;p<2;p++){ g.post=p; gs.push_back(g); } }
    std::vector<std::string> want; TT T(M); for(size_t k=0;k<M;k++) T[k]=se[k]&&A[k]&&S[k]&&R3[k&(N-1)];
    for(auto&ref:gs) for(auto&sim:gs) if(sim.est&&sim.post&&!(ref.post&&ref.prefix==sim.prefix)){ long lo=INT32_MAX,hi=INT32_MIN; auto val=[&](const Group&g,size_t k){ long x=0; for(size_t i=0;i<g.bits.size();i++) x|=(long)(k>>(g.bits[i]+(g.post?n:0))&1)<<i; return x+g.lo; }; for(size_t k=0;k<M;k++) if(T[k]){ long a=val(ref,k),d=val(sim,k); if(a>ref.hi||d>sim.hi) continue; lo=std::min(lo,d-a); hi=std::max(hi,d-a); } want.push_back(sim.prefix+"'= "+ref.prefix+(ref.post?"'":"")+" + ["+std::to_string(lo)+","+std::to_string(hi)+"]"); }
    uint64_t h=1; for(auto x:S) h=(h^x)*0x100000001b3ULL; for(auto x:A) h=(h^x)*0x100000001b3ULL; v.stateKey=mix64(h^n); size_t a=std::count(S.begin(),S.end(),1),q=std::count(A.begin(),A.end(),1); v.nontrivial=a>0&&a<M&&q>0&&q<M; if(v.nontrivial) st.c["abstractions that restrict both sides"]++; if(U&&ex(viol,U|U<<n)!=viol) st.c["abstractions where hidden inputs matter"]++; if(S!=perm) st.c["abstractions narrowed by tightest bounds"]++; if(de) st.c["abstractions with environment dead ends"]++; if(ds) st.c["abstractions with system dead ends"]++; if(!want.empty()) st.c["abstractions with encoded numbers"]++;
    Result r=run(c,v); if(!expectEnd(r,v)) return; std::string tail="; specification\n"+c.disk.at("s.in").data;
    std::string f[2]; int cur=-1,seen=0; for(auto l:splitLines(r.out)){ l=trim(l); if(l.empty()||l[0]=='#') continue; if(l=="[SYS_TRANS]"){ cur=0; seen|=1; } else if(l=="[ENV_TRANS]"){ cur=1; seen|=2; } else if(cur<0||!f[cur].empty()){ v.fail("malformed-output","unexpected line "+l.substr(0,100)+tail); return; } else f[cur]=l; }
    if(seen!=3||f[0].empty()||f[1].empty()){ v.fail("malformed-output","the abstraction does not consist of one guarantee and one assumption: "+clip(r.out)+tail); return; }
    auto show=[&](size_t k){ std::string s; for(int i=0;i<2*n;i++) s+=(i?" ":"")+names[i%n]+(i<n?"":"'")+"="+((k>>i&1)?"1":"0"); return s; };
    for(int w=0;w<2;w++){ TT t; if(!evalFormula(f[w],all,2*n,t,err)){ v.fail("malformed-output",std::string("the printed ")+(w?"assumption":"guarantee")+" is not a formula over the propositions ("+err+"): "+f[w].substr(0,300)+tail); return; } const TT&x=w?A:S; for(size_t k=0;k<M;k++) if(t[k]!=x[k]){ v.fail(w?"wrong-assumption":"wrong-guarantee",std::string("the printed ")+(w?"assumption ":"guarantee ")+(t[k]?"allows ":"forbids ")+show(k)+", the model of the abstraction does not; "+f[w].substr(0,600)+tail); return; } }
    auto said=[&](const char*t){ return r.err.find(t)!=std::string::npos; };
    if(said("environment dead-ends")!=de) v.fail("wrong-warning",std::string("environment dead ends: ")+(de?"not ":"")+"reported"+tail); if(said("system dead-ends")!=ds) v.fail("wrong-warning",std::string("system dead ends: ")+(ds?"not ":"")+"reported"+tail); if(said("no initial state")!=none) v.fail("wrong-warning",std::string("empty model: ")+(none?"not ":"")+"reported"+tail);
    size_t at=r.err.find("difference Analysis"); std::vector<std::string> got; if(at!=std::string::npos) for(auto&l:splitLines(r.err.substr(at))) if(l.find("'= ")!=std::string::npos) got.push_back(trim(l)); std::sort(got.begin(),got.end()); std::sort(want.begin(),want.end());
    if(got!=want) v.fail("wrong-differences","reported differences\n"+join(got,"\n")+"\ninstead of\n"+join(want,"\n")+tail);
}
static Reg r27({"S27","estimators under incomplete information",genEst,checkEst,0,"one evaluation = one simulated run of the estimator computation with a seeded domain and memory-manager schedule; both printed formulas, the warnings and the number differences are compared with an explicit-state model; non-trivial = neither the assumption nor the guarantee is trivial",REAL,"the domain (hidden and observable inputs) and the reference computation are models"});
}
