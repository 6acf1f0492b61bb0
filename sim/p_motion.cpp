// S17 nondeterministic motion: a robot abstraction stored as a decision diagram file decides how controls move the robot
#include "modes.h"
#include <array>
namespace dst {
// text form (dddmp, mode A) of the function with the given table over k variables; ids are the positions; ord: variable order from the root
std::string dddmpText(const std::string&tt,int k,const std::vector<int>&ord,bool withPerm){
    std::vector<std::string> nodes; std::map<std::vector<long>,int> uniq; uint32_t used=0; nodes.push_back("1 T 1 0 0");
    std::vector<int> pos(k); for(int i=0;i<k;i++) pos[ord[i]]=i;
    std::vector<std::array<long,3>> raw; raw.push_back({-1,0,0});
    std::function<long(int,uint32_t)> mk=[&](int d,uint32_t as)->long{ if(d==k) return tt[as]=='1'?1:-1; int v=ord[d]; long e=mk(d+1,as),t=mk(d+1,as|(1u<<v)); if(t==e) return t; bool neg=t<0; if(neg){ t=-t; e=-e; }
        std::vector<long> key={v,t,e}; auto it=uniq.find(key); int id; if(it!=uniq.end()) id=it->second; else { used|=1u<<v; raw.push_back({(long)v,t,e}); id=raw.size(); uniq[key]=id; } return neg?-id:id; };
    long root=mk(0,0); std::vector<int> sup; for(int v=0;v<k;v++) if(used>>v&1) sup.push_back(v); std::map<int,int> sidx; for(int i=0,n=0;i<k;i++) if(used>>ord[i]&1) sidx[ord[i]]=n++;  // as the writer does: index among the support variables, from the root down
    // permids as the writer prints them: rank of each support variable in the order
    std::string s=".ver DDDMP-2.0\n.mode A\n.varinfo 0\n.nnodes "+std::to_string(raw.size())+"\n.nvars "+std::to_string(k)+"\n.nsuppvars "+std::to_string(sup.size())+"\n.ids"; for(int v:sup) s+=" "+std::to_string(v); s+="\n.permids"; for(int v:sup) s+=" "+std::to_string(withPerm?pos[v]:v);
    s+="\n.nroots 1\n.rootids "+std::to_string(root)+"\n.nodes\n1 T 1 0 0\n"; for(size_t i=1;i<raw.size();i++) s+=std::to_string(i+1)+" "+std::to_string(raw[i][0])+" "+std::to_string(sidx[raw[i][0]])+" "+std::to_string(raw[i][1])+" "+std::to_string(raw[i][2])+"\n"; s+=".end\n"; return s;
}
struct MSpec { std::vector<std::string> in,mo,ct,ot,ei,si,et,sy,el,sl; };
static std::string section(const char*h,const std::vector<std::string>&v){ std::string s=std::string("[")+h+"]\n"; for(auto&x:v) s+=x+"\n"; return s; }
static bool readM(const std::string&txt,MSpec&m,std::vector<std::string>&regions){
    std::vector<std::string>*cur=0; for(auto l:splitLines(txt)){ l=trim(l); if(l.empty()||l[0]=='#') continue; if(l[0]=='['){ std::string h=l.substr(1,l.size()-2); cur=h=="INPUT"?&m.in:h=="MOTION STATE OUTPUT"?&m.mo:h=="MOTION CONTROLLER OUTPUT"?&m.ct:h=="OTHER OUTPUT"?&m.ot:h=="ENV_INIT"?&m.ei:h=="SYS_INIT"?&m.si:h=="ENV_TRANS"?&m.et:h=="SYS_TRANS"?&m.sy:h=="ENV_LIVENESS"?&m.el:h=="SYS_LIVENESS"?&m.sl:h=="ABSTRACTION_REGION_BDDS"?&regions:0; if(!cur) return false; } else { if(!cur) return false; cur->push_back(l); } } return true; }
void motionWorkload(Rng&r,Case&c){
    MSpec m; int ni=r.below(3),nm=r.range(1,2),nc=r.range(1,2),no=r.chance(50)?0:1; const char*a[]={"a","b"},*p[]={"p","q"},*k[]={"k","l"};
    for(int i=0;i<ni;i++) m.in.push_back(a[i]); for(int i=0;i<nm;i++) m.mo.push_back(p[i]); for(int i=0;i<nc;i++) m.ct.push_back(k[i]); for(int i=0;i<no;i++) m.ot.push_back("x");
    std::vector<std::string> pre=m.in,preE,all,inN,reg,mAll=m.mo; auto add=[](std::vector<std::string>&v,const std::vector<std::string>&w,bool next){ for(auto&x:w) v.push_back(next?x+"'":x); };
    add(pre,m.mo,0); add(pre,m.ot,0); preE=pre; add(preE,m.in,1); add(inN,m.in,1); std::vector<std::string> region; std::string rtt;
    if(r.chance(40)){ region.push_back("R region.bdd"); for(int i=0;i<(1<<nm);i++) rtt+=r.chance(50)?'1':'0'; }
    all=preE; add(all,m.ct,1); add(all,m.mo,1); add(all,m.ot,1); if(!region.empty()){ all.push_back("R"); all.push_back("R'"); preE.push_back("R"); }
    if(ni&&r.chance(30)) m.ei.push_back(randFormula(r,m.in,1)); { std::vector<std::string> s2=pre; if(!region.empty()) s2.push_back("R"); if(r.chance(50)) m.si.push_back(randFormula(r,s2,1)); }
    if(ni) for(int i=r.below(3);i>0;i--) m.et.push_back("| "+randFormula(r,inN,0)+" "+randFormula(r,preE,1));
    for(int i=r.below(3);i>0;i--) m.sy.push_back(r.chance(40)?randFormula(r,all,2):"| "+randFormula(r,all,1)+" "+randFormula(r,all,1));
    if(ni) for(int i=r.below(2);i>0;i--) m.el.push_back(randFormula(r,preE,1));
    for(int i=r.range(0,2);i>0;i--) m.sl.push_back(r.chance(60)?randFormula(r,mAll,1):randFormula(r,all,1));
    std::string t=section("INPUT",m.in)+section("MOTION STATE OUTPUT",m.mo)+section("MOTION CONTROLLER OUTPUT",m.ct)+section("OTHER OUTPUT",m.ot)+(region.empty()?"":section("ABSTRACTION_REGION_BDDS",region))+section("ENV_INIT",m.ei)+section("SYS_INIT",m.si)+section("ENV_TRANS",m.et)+section("SYS_TRANS",m.sy)+section("ENV_LIVENESS",m.el)+section("SYS_LIVENESS",m.sl);
    c.disk["s.in"].data=t;
    // robot: mostly one or two successors per position and control
    std::string tt(1u<<(nm+nc+nm),'0'); int style=r.below(3);
    for(int q=0;q<(1<<nm);q++) for(int u=0;u<(1<<nc);u++){ int n=r.chance(15)?0:r.chance(style==0?90:50)?1:2; for(int i=0;i<n;i++){ int to=r.chance(25)?q:(int)r.below(1u<<nm); tt[q|(u<<nm)|(to<<(nm+nc))]='1'; } }
    // order of the variables in the file: each group most significant (last declared) first
    auto filed=[&](const std::string&f,std::vector<int> grp){ int n=0; for(int g:grp) n+=g; std::string o(f.size(),'0'); for(size_t i=0;i<f.size();i++){ size_t j=0; int b=0; for(int g:grp){ for(int x=0;x<g;x++) if(i>>(b+x)&1) j|=1u<<(b+g-1-x); b+=g; } o[j]=f[i]; } return o; };
    int n=nm+nc+nm; std::vector<int> ord(n); for(int i=0;i<n;i++) ord[i]=i; bool shuf=r.chance(40); if(shuf) for(int i=n-1;i>0;i--) std::swap(ord[i],ord[r.below(i+1)]);
    c.disk["robot.bdd"].data=dddmpText(filed(tt,{nm,nc,nm}),n,ord,shuf); c.par["robot"]=tt;
    if(!region.empty()){ std::vector<int> o2(nm); for(int i=0;i<nm;i++) o2[i]=i; c.disk["region.bdd"].data=dddmpText(filed(rtt,{nm}),nm,o2,false); c.par["region"]=rtt; }
    c.args={"--nonDeterministicMotion"}; if(r.chance(25)) c.args.push_back("--sysInitRoboticsSemantics"); c.args.push_back("s.in"); c.args.push_back("robot.bdd");
}
static Case genMotion(Rng&r,int tier){ Case c; motionWorkload(r,c); memSchedule(r,c.sched); return c; }
static std::string subst(const std::string&f,const std::string&R,const std::string&RN){ std::string o; for(auto&w:words(f)){ if(!o.empty()) o+=" "; o+=w=="R"?R:w=="R'"?RN:w; } return o; }
static void checkMotion(const Case&c,Verdict&v){
    MSpec m; std::vector<std::string> reg; if(!readM(c.disk.at("s.in").data,m,reg)) return;
    int ni=m.in.size(),nm=m.mo.size(),nc=m.ct.size(),no=m.ot.size(),n=ni+nm+no; std::string tt=c.p("robot"),rtt=c.p("region"); if((int)tt.size()!=1<<(nm+nc+nm)||(!rtt.empty()&&(int)rtt.size()!=1<<nm)) return;
    std::map<std::string,int> pre,all; int b=0; for(auto*g:{&m.in,&m.mo,&m.ot}) for(auto&x:*g){ pre[x]=b; all[x]=b; all[x+"'"]=b+n; b++; } for(int i=0;i<nc;i++) all[m.ct[i]+"'"]=2*n+i;
    std::string R="0",RN="0"; if(!reg.empty()){ for(int q=0;q<(1<<nm);q++) if(rtt[q]=='1'){ std::string t="1",tn="1"; for(int i=0;i<nm;i++){ std::string ng=q>>i&1?"":"! "; t="& "+ng+m.mo[i]+" "+t; tn="& "+ng+m.mo[i]+"' "+tn; } R="| "+t+" "+R; RN="| "+tn+" "+RN; } }
    int B=2*n+nc; size_t N=1u<<n,M=(size_t)1<<B; std::string err; bool bad=false;
    auto ev=[&](const std::vector<std::string>&fs,const std::map<std::string,int>&bit,int nb){ TT o(1u<<nb,1),t; for(auto&f:fs){ if(!evalFormula(subst(f,R,RN),bit,nb,t,err)){ bad=true; return o; } for(size_t i=0;i<o.size();i++) o[i]&=t[i]; } return o; };
    TT ei=ev(m.ei,pre,n),si=ev(m.si,pre,n),et=ev(m.et,all,B),sy=ev(m.sy,all,B); std::vector<TT> A,G; for(auto&f:m.el) A.push_back(ev({f},all,B)); for(auto&f:m.sl) G.push_back(ev({f},all,B)); if(bad) return; if(G.empty()) G.push_back(TT(M,1));
    auto rob=[&](int q,int u,int t){ return tt[q|(u<<nm)|(t<<(nm+nc))]=='1'; };
    { TT a(M,1); for(size_t k=0;k<M;k++){ int q=k>>ni&((1<<nm)-1),t=k>>(n+ni)&((1<<nm)-1),u=k>>(2*n); bool can=false; for(int x=0;x<(1<<nm);x++) can|=x!=q&&rob(q,u,x); a[k]=!can||t!=q; } A.push_back(a); }
    // winning positions
    auto solve=[&]{ std::vector<uint8_t> Z(N,1); for(;;){ std::vector<uint8_t> nz(N,1);
        for(auto&g:G){ std::vector<uint8_t> Y(N,0); for(;;){ std::vector<uint8_t> ny=Y;
            for(auto&a:A){ std::vector<uint8_t> X(N,1); for(;;){ std::vector<uint8_t> nx(N,0);
                for(size_t s=0;s<N;s++){ int q=s>>ni&((1<<nm)-1); bool allI=true;
                    for(size_t i=0;i<(1u<<ni)&&allI;i++){ if(!et[s|(i<<n)]) continue; bool ex=false;
                        for(size_t u=0;u<(1u<<nc)&&!ex;u++) for(size_t o=0;o<(1u<<no)&&!ex;o++){ bool some=false,ok=true; for(int t=0;t<(1<<nm)&&ok;t++) if(rob(q,u,t)){ some=true; size_t s2=i|((size_t)t<<ni)|(o<<(ni+nm)),k=s|(s2<<n)|(u<<(2*n)); ok=sy[k]&&((g[k]&&Z[s2])||Y[s2]||(X[s2]&&!a[k])); } ex=some&&ok; }
                        allI=ex; } nx[s]=allI; }
                if(nx==X) break; X=nx; } for(size_t s=0;s<N;s++) ny[s]|=X[s]; }
            if(ny==Y) break; Y=ny; } for(size_t s=0;s<N;s++) nz[s]&=Y[s]; }
        if(nz==Z) return Z; Z=nz; } };
    auto w=solve(); bool rb=has(c,"--sysInitRoboticsSemantics"),real=true;
    for(size_t i=0;i<(1u<<ni);i++) if(ei[i]){ bool ex=false,al=true; for(size_t o=0;o<(1u<<(nm+no));o++){ size_t s=i|(o<<ni); ex|=w[s]&&si[s]; al&=w[s]; } real&=rb?al:ex; }
    uint64_t h=1; for(auto x:w) h=mix64(h^x); for(char x:c.disk.at("s.in").data) h=h*131+x; v.stateKey=h;
    size_t nw=std::count(w.begin(),w.end(),1); v.nontrivial=nw>0&&nw<N; st.c[real?"realizable specifications":"unrealizable specifications"]++; if(v.nontrivial) st.c["games where some but not all positions are winning"]++; if(no) st.c["games with other outputs"]++; if(!reg.empty()) st.c["games with region diagrams"]++;
    Result r=run(c,v); if(!expectEnd(r,v)) return;
    if(resultLine(r.err)!=(int)real) v.fail("wrong-verdict","slugs said "+std::to_string(resultLine(r.err))+" (1 realizable, 0 unrealizable, -1 nothing), the reference game solver says "+std::to_string(real)+"; options "+join(c.args," ")+"\n"+c.disk.at("s.in").data+"robot table "+tt+" region "+rtt+"\nstderr: "+clip(r.err));
}
static Reg r17({"S17","nondeterministic motion",genMotion,checkMotion,0,"one evaluation = one simulated run with a seeded specification, a robot abstraction read from a decision diagram file and a memory-manager schedule; the verdict is compared with an explicit-state solver in which every listed motion outcome can occur; non-trivial = some but not all positions are winning",REAL,STUB});
}
