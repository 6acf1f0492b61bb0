// S01 verdicts, S02 explicit strategies
#include "modes.h"
namespace dst {
static Case genVerdict(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=tier?5:(r.chance(15)?5:4); Spec s=randomSpec(r,g);
    static const char*opts[]={"","","","--sysInitRoboticsSemantics","--sysInitRoboticsSemantics","--fixedPointRecycling","--fixedPointRecycling","--fixedPointRecycling --sysInitRoboticsSemantics","--fixedPointRecycling --sysInitRoboticsSemantics","--explicitStrategy","--explicitStrategy --sysInitRoboticsSemantics","--biasForAction --explicitStrategy","--symbolicStrategy","--counterStrategy","--counterStrategy --sysInitRoboticsSemantics","--extractExplicitPermissiveStrategy","--explicitStrategy --fixedPointRecycling --simpleRecovery"};
    c.args=words(opts[r.below(sizeof opts/sizeof*opts)]); if(has(c,"--fixedPointRecycling")) for(int k=0;k<12&&(s.envLive.empty()||s.sysLive.empty()||s.in.empty());k++) s=randomSpec(r,g); // nested fixed points only
    c.disk["s.in"].data=s.text(); bool out=std::find(c.args.begin(),c.args.end(),"--symbolicStrategy")!=c.args.end()||r.chance(30);
    std::string a0=join(c.args," "); c.args.push_back("s.in"); bool needs=a0.find("trategy")!=std::string::npos; if(needs&&out) c.args.push_back("o.out");
    memSchedule(r,c.sched); return c;
}
static void checkVerdict(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; v.stateKey=gameHash(g);
    Result r=run(c,v); if(!expectEnd(r,v)) return;
    bool rob=std::find(c.args.begin(),c.args.end(),"--sysInitRoboticsSemantics")!=c.args.end();
    auto w=winSys(g); bool exp=rob?realizableRobotics(g,w):realizablePlain(g,w); int got=resultLine(r.err);
    st.c[exp?"realizable specifications":"unrealizable specifications"]++; size_t nw=std::count(w.begin(),w.end(),1); v.nontrivial=nw>0&&nw<g.N; if(v.nontrivial) st.c["games where some but not all positions are winning"]++;
    if(got!=(int)exp) v.fail("wrong-verdict","slugs said "+std::to_string(got)+" (1 realizable, 0 unrealizable, -1 nothing), the reference game solver says "+std::to_string(exp)+"; options "+join(c.args," ")+"\n"+c.disk.at("s.in").data+"stderr: "+clip(r.err));
}
static Reg r01({"S01","verdict",genVerdict,checkVerdict,0,"one evaluation = one simulated slugs process (seeded specification, option set, allocation layout, and schedule of garbage collections, reorderings and cache losses at node creations) whose verdict is compared with an explicit-state solver; non-trivial = some but not all game positions are winning",REAL,STUB});

// ------------------------------------------------------------------ S02
static Case genExplicit(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=r.chance(20)?5:4; Spec s; 
    for(int k=0;k<12;k++){ s=randomSpec(r,g); Game gm; std::string e; if(!makeGame(s,gm,e)) continue; auto w=winSys(gm); if(realizablePlain(gm,w)&&(s.sysLive.size()>0||r.chance(20))) break; }
    c.disk["s.in"].data=s.text(); std::vector<std::string> o; o.push_back("--explicitStrategy"); if(r.chance(40)) o.push_back("--jsonOutput"); if(r.chance(25)) o.push_back("--sysInitRoboticsSemantics"); int k=r.below(5); if(k==0) o.push_back("--biasForAction"); if(k==1) o.push_back("--fixedPointRecycling");
    c.args=o; c.args.push_back("s.in"); if(r.chance(60)) c.args.push_back("o.out"); memSchedule(r,c.sched); return c;
}
// exact check of a controller given as graph over valuations
std::string checkController(const Game&g,const std::vector<uint32_t>&val,const std::vector<std::vector<int>>&succ,const std::vector<int>&init,bool ignoreEnvViolating,bool multi){
    int n=val.size(); std::vector<std::vector<Edge>> gr(n);
    std::vector<char> reach(n,0); std::vector<int> st; for(int i:init) if(!reach[i]){ reach[i]=1; st.push_back(i);} 
    while(!st.empty()){ int v=st.back(); st.pop_back(); uint32_t s=val[v]; std::vector<char> covered(1u<<g.ni,0);
        for(int t:succ[v]){ uint32_t u=val[t]; bool env=g.envOK(s,u&g.inMask()); if(!env){ if(ignoreEnvViolating) continue; return "transition "+std::to_string(v)+" -> "+std::to_string(t)+" answers an input that violates the environment safety assumption: "+valStr(g,s)+" -> "+valStr(g,u); }
            if(!g.sysOK(s,u)) return "transition "+std::to_string(v)+" -> "+std::to_string(t)+" violates the system safety guarantee: "+valStr(g,s)+" -> "+valStr(g,u);
            if(!multi&&covered[u&g.inMask()]) return "state "+std::to_string(v)+" has two successors for the same input"; covered[u&g.inMask()]=1;
            uint64_t lab=0; size_t k=s|((size_t)u<<g.n); for(size_t i=0;i<g.A.size();i++) if(g.A[i][k]) lab|=1ull<<i; for(size_t j=0;j<g.G.size();j++) if(g.G[j][k]) lab|=1ull<<(32+j); gr[v].push_back({t,lab});
            if(!reach[t]){ reach[t]=1; st.push_back(t);} }
        for(uint32_t i=0;i<(1u<<g.ni);i++) if(g.envOK(s,i)&&!covered[i]) return "state "+std::to_string(v)+" ("+valStr(g,s)+") has no successor for the allowed next input "+std::to_string(i); }
    for(size_t j=0;j<g.G.size();j++){ if(badLasso(gr,init,(1ull<<g.A.size())-1,1ull<<(32+j))) return "there is a run in which all liveness assumptions hold infinitely often but guarantee number "+std::to_string(j)+" only finitely often"; }
    return "";
}
static void checkExplicit(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; v.stateKey=gameHash(g);
    Result r=run(c,v); if(!expectEnd(r,v)) return;
    bool rob=has(c,"--sysInitRoboticsSemantics"),json=has(c,"--jsonOutput"); auto w=winSys(g); bool exp=rob?realizableRobotics(g,w):realizablePlain(g,w);
    bool file=c.args.back()=="o.out"; std::string txt=file?(r.files.count("o.out")?r.files["o.out"]:""):r.out;
    if(!exp){ st.c["unrealizable (no strategy expected)"]++; if(!txt.empty()||(file&&r.files.count("o.out"))) v.fail("strategy-for-unrealizable","a strategy was written although the specification is unrealizable\n"+c.disk.at("s.in").data+clip(txt)); return; }
    Machine m; std::string err; bool ok=json?parseJsonMachine(txt,g,m,err):parseExplicit(txt,g,m,err);
    if(!ok){ v.fail("malformed-strategy",err+"\noptions "+join(c.args," ")+"\n"+c.disk.at("s.in").data+"output:\n"+clip(txt)); return; }
    v.nontrivial=m.nodes.size()>1; if(v.nontrivial) st.c["strategies with more than one state"]++; st.c["strategy states checked"]+=m.nodes.size(); if(g.G.size()>1) st.c["strategies with several goals"]++;
    std::vector<uint32_t> val; std::vector<std::vector<int>> succ; std::vector<int> all; for(size_t i=0;i<m.nodes.size();i++){ val.push_back(m.nodes[i].val); succ.push_back(m.nodes[i].succ); all.push_back(i); }
    std::string e; std::set<uint32_t> init; for(auto&n:m.nodes) if(n.rank==0&&g.initEnv[n.val]&&g.initSys[n.val]) init.insert(n.val);
    if(rob){ for(uint32_t q=0;q<g.N;q++) if(g.initEnv[q]&&g.initSys[q]&&!init.count(q)) e="no strategy state for the initial position "+valStr(g,q); }
    else for(uint32_t i=0;i<(1u<<g.ni);i++) if(g.initEnv[i]){ bool f=false; for(uint32_t q:init) f|=(q&g.inMask())==i; if(!f) e="no initial strategy state for the initial input "+std::to_string(i); }
    for(auto&n:m.nodes) if(n.rank<0||n.rank>=(int)g.G.size()) e="rank out of range";
    if(e.empty()) e=checkController(g,val,succ,all,false);
    if(!e.empty()) v.fail("strategy-violates-spec",e+"\noptions "+join(c.args," ")+"\n"+c.disk.at("s.in").data+"output:\n"+clip(txt,1500));
}
static Reg r02({"S02","explicit strategy",genExplicit,checkExplicit,0,"one evaluation = one simulated synthesis run under a seeded memory-manager schedule whose printed controller is then run in closed loop against every environment behaviour (exact lasso search on the product); non-trivial = controller with more than one state",REAL,STUB});
}
