// S03 symbolic strategies, S04 counterstrategies, S11 simple recovery, S12 fast/slow, S14 permissive, S15 cooperative
#include "modes.h"
#include <sstream>
#include <array>
namespace dst {
static std::string outText(const Case&c,Result&r,bool&present){ bool file=c.args.back()=="o.out"; present=!file||r.files.count("o.out"); return file?(present?r.files["o.out"]:std::string()):r.out; }
static Spec pick(Rng&r,const GenOpt&g,bool real,bool robotics=false,int tries=14){ Spec s; for(int k=0;k<tries;k++){ s=randomSpec(r,g); Game gm; std::string e; if(!makeGame(s,gm,e)) continue; auto w=winSys(gm); bool x=robotics?realizableRobotics(gm,w):realizablePlain(gm,w); if(x==real) break; } return s; }
static std::string tell(const Case&c,const std::string&txt){ return "\noptions "+join(c.args," ")+"\n"+c.disk.at("s.in").data+"output:\n"+clip(txt,1500); }
static void graphOf(const Machine&m,std::vector<uint32_t>&val,std::vector<std::vector<int>>&succ,std::vector<int>&all){ for(size_t i=0;i<m.nodes.size();i++){ val.push_back(m.nodes[i].val); succ.push_back(m.nodes[i].succ); all.push_back(i); } }
static std::string checkInit(const Game&g,const Machine&m,bool rob,bool anyEnv=false){
    std::set<uint32_t> init; for(auto&n:m.nodes) if(n.rank==0&&(anyEnv||g.initEnv[n.val])&&g.initSys[n.val]) init.insert(n.val);
    if(rob){ for(uint32_t q=0;q<g.N;q++) if(g.initEnv[q]&&g.initSys[q]&&!init.count(q)) return "no strategy state for the initial position "+valStr(g,q); }
    else for(uint32_t i=0;i<(1u<<g.ni);i++) if(g.initEnv[i]){ bool f=false; for(uint32_t q:init) f|=(q&g.inMask())==i; if(!f) return "no initial strategy state for the initial input "+std::to_string(i); }
    return "";
}
static uint64_t labelOf(const Game&g,uint32_t s,uint32_t t){ uint64_t lab=0; size_t k=s|((size_t)t<<g.n); for(size_t i=0;i<g.A.size();i++) if(g.A[i][k]) lab|=1ull<<i; for(size_t j=0;j<g.G.size();j++) if(g.G[j][k]) lab|=1ull<<(32+j); return lab; }

// ------------------------------------------------------------------ S04
static Case genCounter(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=r.chance(20)?5:4; g.minOut=r.chance(6)?0:1; bool rob=r.chance(40); if(r.chance(50)){ g.maxG=4; g.trivialInit=r.chance(50); } Spec s=pick(r,g,false,rob,20);
    c.disk["s.in"].data=s.text(); c.args={"--counterStrategy"}; if(rob) c.args.push_back("--sysInitRoboticsSemantics"); c.args.push_back("s.in"); if(r.chance(60)) c.args.push_back("o.out"); memSchedule(r,c.sched); return c;
}
static void checkCounter(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return;
    bool rob=has(c,"--sysInitRoboticsSemantics"); auto w=winSys(g); bool real=rob?realizableRobotics(g,w):realizablePlain(g,w); bool present; std::string txt=outText(c,r,present);
    if(resultLine(r.err)!=(int)real){ v.fail("wrong-verdict","slugs said "+std::to_string(resultLine(r.err))+", the reference game solver says "+std::to_string(real)+tell(c,r.err)); return; }
    if(real){ st.c["realizable (no counterstrategy expected)"]++; if(!txt.empty()) v.fail("counterstrategy-for-realizable","a counterstrategy was written although the specification is realizable"+tell(c,txt)); return; }
    Machine m; std::string e; if(!parseExplicit(txt,g,m,e,true)){ v.fail("malformed-counterstrategy",e+tell(c,txt)); return; }
    v.nontrivial=m.nodes.size()>2; st.c["counterstrategy states checked"]+=m.nodes.size(); if(g.G.size()>1) st.c["counterstrategies with several guarantees"]++;
    std::set<uint32_t> init; for(auto&n:m.nodes) if(!n.noSucc&&g.initEnv[n.val]&&g.initSys[n.val]) init.insert(n.val);
    if(rob){ if(init.empty()) e="there is no initial position from which the environment wins in the output"; }
    else { bool ok=false; for(uint32_t i=0;i<(1u<<g.ni)&&!ok;i++) if(g.initEnv[i]){ bool all=true; for(uint32_t o=0;o<(1u<<g.no);o++){ uint32_t q=i|(o<<g.ni); if(g.initSys[q]&&!init.count(q)) all=false; } ok=all; } if(!ok) e="for no initial input are all initial system choices answered"; }
    int n=m.nodes.size(); std::vector<std::vector<Edge>> gr(n); std::vector<int> all;
    for(int i=0;i<n&&e.empty();i++){ MNode&nd=m.nodes[i]; if(nd.noSucc) { st.c["deadlock states"]++; continue; } all.push_back(i); std::string me="state "+std::to_string(i)+" ("+valStr(g,nd.val)+") ";
        if(nd.succ.empty()){ e=me+"has no successors and no deadlock"; break; }
        uint32_t in=m.nodes[nd.succ[0]].val&g.inMask(); std::set<uint32_t> got;
        for(int t:nd.succ) if((m.nodes[t].val&g.inMask())!=in) e=me+"does not commit to one next input";
        if(!g.envOK(nd.val,in)) e=me+"chooses an input that violates the environment safety assumption: "+std::to_string(in);
        bool anySafe=false; for(uint32_t o=0;o<(1u<<g.no);o++) anySafe|=g.sysOK(nd.val,in|(o<<g.ni));
        bool dead=false; for(int t:nd.succ) if(m.nodes[t].noSucc) dead=true;
        if(dead){ if(nd.succ.size()!=1) e=me+"mixes a deadlock with other successors"; else if(anySafe) e=me+"claims that input "+std::to_string(in)+" leaves no safe output, but there is one"; continue; }
        for(int t:nd.succ){ uint32_t u=m.nodes[t].val; if(!g.sysOK(nd.val,u)) e=me+"has a successor that the system may not choose"; if(!got.insert(u).second) e=me+"lists a successor valuation twice"; gr[i].push_back({t,labelOf(g,nd.val,u)}); }
        for(uint32_t o=0;o<(1u<<g.no);o++) if(g.sysOK(nd.val,in|(o<<g.ni))&&!got.count(in|(o<<g.ni))) e=me+"does not answer the system choice "+valStr(g,in|(o<<g.ni)); }
    if(e.empty()){ uint64_t allG=0; for(size_t j=0;j<g.G.size();j++) allG|=1ull<<(32+j); if(badLasso(gr,all,allG,0)) e="there is a run of the counterstrategy in which the system satisfies all liveness guarantees infinitely often"; for(size_t i=0;i<g.A.size()&&e.empty();i++) if(badLasso(gr,all,0,1ull<<i)) e="there is a run of the counterstrategy in which liveness assumption number "+std::to_string(i)+" holds only finitely often"; }
    if(!e.empty()) v.fail("counterstrategy-not-winning",e+tell(c,txt));
}
static Reg r04({"S04","counterstrategy",genCounter,checkCounter,0,"one evaluation = one simulated counterstrategy extraction under a seeded memory-manager schedule, whose printed graph is then played against every system behaviour (exact lasso search); non-trivial = more than two states",REAL,STUB});

// ------------------------------------------------------------------ S14
static Case genPerm(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(10)?5:4; bool rob=r.chance(25); Spec s=pick(r,g,true,rob); c.disk["s.in"].data=s.text(); c.args={"--extractExplicitPermissiveStrategy"}; if(rob) c.args.push_back("--sysInitRoboticsSemantics"); int k=r.below(5); if(k==0) c.args.push_back("--biasForAction"); if(k==1) c.args.push_back("--fixedPointRecycling"); c.args.push_back("s.in"); if(r.chance(60)) c.args.push_back("o.out"); memSchedule(r,c.sched); return c; }
static void checkPerm(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return;
    bool rob=has(c,"--sysInitRoboticsSemantics"); auto w=winSys(g); bool real=rob?realizableRobotics(g,w):realizablePlain(g,w); bool present; std::string txt=outText(c,r,present);
    if(!real){ st.c["unrealizable (no strategy expected)"]++; if(!txt.empty()) v.fail("strategy-for-unrealizable","a strategy was written although the specification is unrealizable"+tell(c,txt)); return; }
    Machine m; std::string e; if(!parsePermissive(txt,g,m,e)){ v.fail("malformed-strategy",e+tell(c,txt)); return; }
    v.nontrivial=m.nodes.size()>1; st.c["strategy states checked"]+=m.nodes.size();
    std::vector<uint32_t> val; std::vector<std::vector<int>> succ; std::vector<int> all; graphOf(m,val,succ,all); std::set<uint32_t> have; for(auto&n:m.nodes){ if(n.rank<0||n.rank>=(int)g.G.size()) e="rank out of range"; if(n.rank==0) have.insert(n.val); if(!w[n.val]) e="the position "+valStr(g,n.val)+" is part of the strategy but not winning"; std::set<int> ds; for(int t:n.succ) if(!ds.insert(t).second) e="a successor is listed twice"; }
    for(uint32_t q=0;q<g.N&&e.empty();q++) if(w[q]&&!have.count(q)) e="the winning position "+valStr(g,q)+" has no strategy state";
    if(e.empty()) e=checkController(g,val,succ,all,false,true);
    for(auto&n:m.nodes){ std::map<uint32_t,int> k; for(int t:n.succ) k[val[t]&g.inMask()]++; for(auto&x:k) if(x.second>1) st.c["situations with more than one permitted output"]++; }
    if(!e.empty()) v.fail("permissive-strategy-violates-spec",e+tell(c,txt));
}
static Reg r14({"S14","permissive strategy",genPerm,checkPerm,0,"one evaluation = one simulated extraction of a permissive strategy under a seeded memory-manager schedule; every resolution of its choices is played against every environment behaviour (exact lasso search); non-trivial = more than one state",REAL,STUB});

// ------------------------------------------------------------------ S12
static void fastSlowGame(const Spec&s,Game&g){
    uint32_t slow=0; for(int k=0;k<g.no;k++) if(std::find(s.fast.begin(),s.fast.end(),s.out[k])==s.fast.end()) slow|=1u<<(g.ni+k);
    std::vector<char> fwd(g.N,0),bwd(g.N,0); for(uint32_t a=0;a<g.N;a++) for(uint32_t b=0;b<g.N;b++) if(g.sysOK(a,b)){ fwd[a]=1; bwd[b]=1; }
    TT nt=g.sysT; for(uint32_t a=0;a<g.N;a++) for(uint32_t b=0;b<g.N;b++){ uint32_t q=(b&~slow)|(a&slow); if(!(fwd[q]&&bwd[q])) nt[a|((size_t)b<<g.n)]=0; } g.sysT=nt;
}
static Case genFS(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=r.chance(20)?5:4; g.minOut=r.chance(80)?2:1; bool rob=r.chance(25); Spec s; for(int k=0;k<14;k++){ s=randomSpec(r,g); makeFastSlow(r,s); Game gm; std::string e; if(!makeGame(s,gm,e)) continue; Game g0=gm; fastSlowGame(s,gm); auto w=winSys(gm); if((rob?realizableRobotics(gm,w):realizablePlain(gm,w))&&(gm.sysT!=g0.sysT||r.chance(15))) break; }
    c.disk["s.in"].data=s.text(); if(r.chance(75)){ c.args={"--IROSfastslow","--explicitStrategy"}; if(r.chance(30)) c.args.push_back("--jsonOutput"); } else c.args={"--IROSfastslow"}; if(rob) c.args.push_back("--sysInitRoboticsSemantics"); bool ex=c.args.size()>1&&has(c,"--explicitStrategy"); c.args.push_back("s.in"); if(ex&&r.chance(60)) c.args.push_back("o.out"); memSchedule(r,c.sched); return c;
}
static void checkFS(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; Game g0=g; fastSlowGame(s,g); v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return;
    bool rob=has(c,"--sysInitRoboticsSemantics"); auto w=winSys(g); bool real=rob?realizableRobotics(g,w):realizablePlain(g,w); bool present; std::string txt=outText(c,r,present);
    if(real!=(rob?realizableRobotics(g0,winSys(g0)):realizablePlain(g0,winSys(g0)))) st.c["specifications where the intermediate positions decide the verdict"]++;
    if(resultLine(r.err)!=(int)real){ v.fail("wrong-verdict","slugs said "+std::to_string(resultLine(r.err))+", the reference game solver says "+std::to_string(real)+tell(c,r.err)); return; }
    if(!has(c,"--explicitStrategy")){ v.nontrivial=g.sysT!=g0.sysT; return; }
    if(!real){ if(!txt.empty()) v.fail("strategy-for-unrealizable","a strategy was written although the specification is unrealizable"+tell(c,txt)); return; }
    Machine m; std::string e; if(!(has(c,"--jsonOutput")?parseJsonMachine(txt,g,m,e):parseExplicit(txt,g,m,e))){ v.fail("malformed-strategy",e+tell(c,txt)); return; }
    v.nontrivial=m.nodes.size()>1&&g.sysT!=g0.sysT; st.c["strategy states checked"]+=m.nodes.size();
    std::vector<uint32_t> val; std::vector<std::vector<int>> succ; std::vector<int> all; graphOf(m,val,succ,all); e=checkInit(g,m,rob); if(e.empty()) e=checkController(g,val,succ,all,false);
    if(!e.empty()) v.fail("strategy-violates-spec",e+tell(c,txt));
}
static Reg r12({"S12","fast and slow outputs",genFS,checkFS,0,"one evaluation = one simulated synthesis run with fast and slow outputs under a seeded memory-manager schedule; verdict and strategy are compared with the game in which every intermediate position (new inputs, new fast outputs, old slow outputs) must be safe; non-trivial = the intermediate positions restrict the game",REAL,STUB});

// ------------------------------------------------------------------ S11 recovery (explicit)
static Case genRec(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(20)?5:4; g.minIn=1; bool rob=r.chance(25); Spec s; for(int k=0;k<10;k++){ s=pick(r,g,true,rob); if(!s.envTrans.empty()) break; } c.disk["s.in"].data=s.text(); c.args={"--explicitStrategy","--simpleRecovery"}; if(rob) c.args.push_back("--sysInitRoboticsSemantics"); if(r.chance(30)) c.args.push_back("--jsonOutput"); int k=r.below(6); if(k==0) c.args.push_back("--biasForAction"); if(k==1) c.args.push_back("--fixedPointRecycling"); c.args.push_back("s.in"); if(r.chance(60)) c.args.push_back("o.out"); memSchedule(r,c.sched); return c; }
static void checkRec(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return;
    bool rob=has(c,"--sysInitRoboticsSemantics"); auto w=winSys(g); bool real=rob?realizableRobotics(g,w):realizablePlain(g,w); bool present; std::string txt=outText(c,r,present);
    if(!real){ if(!txt.empty()) v.fail("strategy-for-unrealizable","a strategy was written although the specification is unrealizable"+tell(c,txt)); return; }
    Machine m; std::string e; if(!(has(c,"--jsonOutput")?parseJsonMachine(txt,g,m,e):parseExplicit(txt,g,m,e))){ v.fail("malformed-strategy",e+tell(c,txt)); return; }
    std::vector<uint32_t> val; std::vector<std::vector<int>> succ; std::vector<int> all; graphOf(m,val,succ,all); std::set<uint32_t> have; for(auto&n:m.nodes) if(n.rank==0) have.insert(n.val);
    for(uint32_t q=0;q<g.N;q++) if(w[q]&&g.initSys[q]&&!have.count(q)) e="the winning position "+valStr(g,q)+" satisfies the system's initial conditions but has no strategy state";
    for(size_t i=0;i<m.nodes.size()&&e.empty();i++){ uint32_t q=val[i]; std::set<uint32_t> got; std::string me="state "+std::to_string(i)+" ("+valStr(g,q)+") "; if(!w[q]) e=me+"is not winning";
        for(int t:succ[i]){ uint32_t u=val[t]; if(!got.insert(u&g.inMask()).second) e=me+"answers an input twice"; if(!g.sysOK(q,u)) e=me+"breaks the system safety guarantee going to "+valStr(g,u); if(!g.envOK(q,u&g.inMask())) st.c["recovery transitions checked"]++,v.nontrivial=true; }
        for(uint32_t in=0;in<(1u<<g.ni);in++){ bool can=false; for(uint32_t o=0;o<(1u<<g.no);o++){ uint32_t u=in|(o<<g.ni); can|=g.sysOK(q,u)&&w[u]; } if(can!=(bool)got.count(in)) e=me+(can?"does not answer input ":"answers input ")+std::to_string(in)+(can?" although some safe output leads to a winning position":" although no safe output leads to a winning position"); if(!can) st.c["environment violations that cannot be answered"]++; } }
    if(e.empty()) e=checkInit(g,m,rob); if(e.empty()) e=checkController(g,val,succ,all,true);
    if(!e.empty()) v.fail("recovery-strategy-wrong",e+tell(c,txt));
}
static Reg r11({"S11","recovery",genRec,checkRec,0,"one evaluation = one simulated synthesis run with recovery transitions under a seeded memory-manager schedule; the printed controller is played against environments that may break their safety assumption at any step; non-trivial = the controller contains recovery transitions",REAL,STUB});

// ------------------------------------------------------------------ S25 cost-optimal strategies
static Case genCost(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(20)?4:3; g.maxG=2; bool rob=r.chance(25); Spec s=pick(r,g,r.chance(90),rob); c.disk["s.in"].data=s.text(); c.disk["cost.txt"].data=randomCostFile(r,s);
    c.args={"--twoDimensionalCost"}; if(r.chance(85)){ c.args.push_back("--explicitStrategy"); if(r.chance(25)) c.args.push_back("--jsonOutput"); } if(rob) c.args.push_back("--sysInitRoboticsSemantics"); bool ex=has(c,"--explicitStrategy"); c.args.push_back("s.in"); c.args.push_back("cost.txt"); if(ex&&r.chance(60)) c.args.push_back("o.out"); memSchedule(r,c.sched); return c; }
static void checkCost(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return;
    bool rob=has(c,"--sysInitRoboticsSemantics"); auto w=winSys(g); bool real=rob?realizableRobotics(g,w):realizablePlain(g,w); bool present; std::string txt=outText(c,r,present);
    std::string cost="\ncost file:\n"+c.disk.at("cost.txt").data;
    if(r.err.find("overlap")!=std::string::npos){ st.c["overlapping costs rejected"]++; return; }
    if(resultLine(r.err)!=(int)real){ v.fail("wrong-verdict","slugs said "+std::to_string(resultLine(r.err))+", the reference game solver says "+std::to_string(real)+tell(c,r.err)+cost); return; }
    if(!has(c,"--explicitStrategy")){ v.nontrivial=real; return; }
    if(!real){ if(!txt.empty()) v.fail("strategy-for-unrealizable","a strategy was written although the specification is unrealizable"+tell(c,txt)+cost); return; }
    Machine m; std::string e; if(!(has(c,"--jsonOutput")?parseJsonMachine(txt,g,m,e):parseExplicit(txt,g,m,e))){ v.fail("malformed-strategy",e+tell(c,txt)+cost); return; }
    v.nontrivial=m.nodes.size()>1; st.c["strategy states checked"]+=m.nodes.size();
    std::vector<uint32_t> val; std::vector<std::vector<int>> succ; std::vector<int> all; graphOf(m,val,succ,all); int n=val.size(); std::vector<std::vector<Edge>> gr(n);
    // with proper liveness assumptions the mode may lose initial positions, answers and progress: recorded findings, replayed on their witnesses
    bool waits=false; for(auto&a:g.A) for(auto x:a) waits|=!x;
    std::string ie=checkInit(g,m,rob),judge=c.p("judge"); if(!waits||judge=="initial") e=ie; else if(!ie.empty()) st.c["initial positions lost (recorded finding)"]++; if(!waits) st.c["strategies judged in full"]++;
    for(int q=0;q<n&&e.empty();q++){ std::set<uint32_t> got; std::string me="state "+std::to_string(q)+" ("+valStr(g,val[q])+") "; if(!w[val[q]]) e=me+"is not winning"; if(m.nodes[q].rank<0||m.nodes[q].rank>=(int)g.G.size()) e=me+"has no goal";
        for(int t:succ[q]){ uint32_t u=val[t]; if(!got.insert(u&g.inMask()).second) e=me+"answers an input twice"; if(!g.sysOK(val[q],u)) e=me+"breaks the system safety guarantee going to "+valStr(g,u); if(!g.envOK(val[q],u&g.inMask())) e=me+"answers an input that the assumptions forbid"; gr[q].push_back({t,labelOf(g,val[q],u)});
            int k=m.nodes[q].rank; bool first=true; while((first||k!=m.nodes[q].rank)&&g.G[k][val[q]|((size_t)u<<g.n)]){ k=(k+1)%g.G.size(); first=false; } if(m.nodes[t].rank!=k) e=me+"continues with the wrong goal"; }
        for(uint32_t in=0;in<(1u<<g.ni);in++) if(g.envOK(val[q],in)&&!got.count(in)){ if(!waits||judge=="answer") e=me+"does not answer the allowed input "+std::to_string(in); else st.c["allowed inputs without an answer (recorded finding)"]++; } }
    for(size_t j=0;j<g.G.size()&&e.empty()&&(!waits||judge=="progress");j++) if(badLasso(gr,all,(1ull<<g.A.size())-1,1ull<<(32+j))) e="there is a run in which all liveness assumptions hold infinitely often but guarantee number "+std::to_string(j)+" only finitely often";
    if(!e.empty()) v.fail("strategy-violates-spec",e+tell(c,txt)+cost);
}
static Reg r25({"S25","cost-optimal strategies",genCost,checkCost,0,"one evaluation = one simulated run with a cost file under a seeded memory-manager schedule; verdict compared with the reference solver, printed controller played against every environment behaviour; non-trivial = controller with more than one state",REAL,STUB});

// ------------------------------------------------------------------ S15 cooperative
// reference: greatest set of positions from which the system can win, never enters an environment dead end, and always leaves the environment a way
static std::vector<uint8_t> winCoop(const Game&g0,bool&same){
    Game g=g0; std::vector<char> live(g.N,0); uint32_t I=1u<<g.ni; for(uint32_t s=0;s<g.N;s++) for(uint32_t i=0;i<I;i++) if(g.envOK(s,i)) live[s]=1;
    size_t M=(size_t)g.N*g.N; TT ok(M),okEnv(M); for(uint32_t s=0;s<g.N;s++) for(uint32_t t=0;t<g.N;t++){ size_t k=s|((size_t)t<<g.n); ok[k]=g.sysT[k]&&live[t]; okEnv[k]=ok[k]&&g.envOK(s,t&g.inMask()); }
    std::vector<uint8_t> Z(g.N,1);
    for(;;){ std::vector<uint8_t> nz(g.N,1);
        for(auto&G:g.G){ std::vector<uint8_t> Y(g.N,0);
            for(;;){ std::vector<uint8_t> ny=Y; auto lt=[&](uint32_t s,uint32_t t){ size_t k=s|((size_t)t<<g.n); return (G[k]&&Z[t])||Y[t]; };
                for(auto&A:g.A){ std::vector<uint8_t> X(g.N,1);
                    for(;;){ std::vector<uint8_t> C(g.N,0); // some cooperation of the environment reaches a live transition while staying in X and not satisfying A
                        for(bool ch=true;ch;){ ch=false; for(uint32_t s=0;s<g.N;s++) if(!C[s]) for(uint32_t t=0;t<g.N&&!C[s];t++){ size_t k=s|((size_t)t<<g.n); if(okEnv[k]&&(lt(s,t)||(X[t]&&C[t]&&!A[k]))){ C[s]=1; ch=true; } } }
                        std::vector<uint8_t> nx(g.N,0); for(uint32_t s=0;s<g.N;s++){ bool all=true; for(uint32_t i=0;i<I&&all;i++) if(g.envOK(s,i)){ bool ex=false; for(uint32_t o=0;o<(1u<<g.no)&&!ex;o++){ uint32_t t=i|(o<<g.ni); size_t k=s|((size_t)t<<g.n); ex=okEnv[k]&&(lt(s,t)||(X[t]&&C[t]&&!A[k])); } all=ex; } nx[s]=all; }
                        if(nx==X) break; X=nx; }
                    for(uint32_t s=0;s<g.N;s++) ny[s]|=X[s]; }
                if(ny==Y) break; Y=ny; }
            for(uint32_t s=0;s<g.N;s++) nz[s]&=Y[s]; }
        for(auto&A:g.A){ std::vector<uint8_t> R(g.N,0); // positions of nz from which the environment can be led to satisfy A inside nz
            for(bool ch=true;ch;){ ch=false; for(uint32_t s=0;s<g.N;s++) if(!R[s]&&nz[s]) for(uint32_t t=0;t<g.N&&!R[s];t++){ size_t k=s|((size_t)t<<g.n); if(okEnv[k]&&((A[k]&&nz[t])||R[t])){ R[s]=1; ch=true; } } }
            nz=R; }
        if(nz==Z) break; Z=nz; }
    return Z;
}
static Case genCoop(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=4; g.minIn=r.chance(85); bool rob=r.chance(20); Spec s; for(int k=0;k<10;k++){ s=randomSpec(r,g); if(s.envLive.empty()&&r.chance(70)) continue; Game gm; std::string e; if(!makeGame(s,gm,e)) continue; bool x; auto w=winCoop(gm,x); if(rob?realizableRobotics(gm,w):realizablePlain(gm,w)) break; }
    c.disk["s.in"].data=s.text(); c.args={"--cooperativeGR1Strategy"}; if(r.chance(80)){ c.args.push_back("--explicitStrategy"); if(r.chance(25)) c.args.push_back("--jsonOutput"); } if(rob) c.args.push_back("--sysInitRoboticsSemantics"); bool ex=has(c,"--explicitStrategy"); c.args.push_back("s.in"); if(ex&&r.chance(60)) c.args.push_back("o.out"); memSchedule(r,c.sched); return c; }
static void checkCoop(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return; bool x;
    bool rob=has(c,"--sysInitRoboticsSemantics"); auto w=winCoop(g,x); bool real=rob?realizableRobotics(g,w):realizablePlain(g,w); bool present; std::string txt=outText(c,r,present);
    auto w0=winSys(g); bool plain=rob?realizableRobotics(g,w0):realizablePlain(g,w0); if(real!=plain) st.c["specifications where cooperation decides the verdict"]++;
    if(resultLine(r.err)!=(int)real){ v.fail("wrong-verdict","slugs said "+std::to_string(resultLine(r.err))+", the reference says "+std::to_string(real)+tell(c,r.err)); return; }
    if(!has(c,"--explicitStrategy")){ v.nontrivial=real; return; }
    if(!real){ if(!txt.empty()) v.fail("strategy-for-unrealizable","a strategy was written although the specification is unrealizable"+tell(c,txt)); return; }
    Machine m; std::string e; if(!(has(c,"--jsonOutput")?parseJsonMachine(txt,g,m,e):parseExplicit(txt,g,m,e))){ v.fail("malformed-strategy",e+tell(c,txt)); return; }
    v.nontrivial=m.nodes.size()>1; st.c["strategy states checked"]+=m.nodes.size();
    std::vector<uint32_t> val; std::vector<std::vector<int>> succ; std::vector<int> all; graphOf(m,val,succ,all); e=checkInit(g,m,rob); if(e.empty()) e=checkController(g,val,succ,all,false);
    int n=val.size(); std::vector<std::vector<Edge>> gr(n); for(int i=0;i<n&&e.empty();i++){ bool leg=false; for(uint32_t q=0;q<(1u<<g.ni);q++) leg|=g.envOK(val[i],q); for(int t:succ[i]) gr[i].push_back({t,labelOf(g,val[i],val[t])}); bool isInit=m.nodes[i].rank==0&&g.initEnv[val[i]]&&g.initSys[val[i]]; if(!leg&&!isInit) e="the system moves to "+valStr(g,val[i])+" where the environment has no allowed input left"; }
    for(int i=0;i<n&&e.empty();i++) if(!badLasso(gr,{i},(1ull<<g.A.size())-1,0)) e="from state "+std::to_string(i)+" on, the environment cannot satisfy all its liveness assumptions any more";
    if(!e.empty()) v.fail("cooperative-strategy-wrong",e+tell(c,txt));
}
static Reg r15({"S15","cooperative",genCoop,checkCoop,0,"one evaluation = one simulated cooperative synthesis run under a seeded memory-manager schedule; verdict compared with a reference fixpoint, printed controller played against every environment behaviour, and from each controller state an environment behaviour that satisfies all assumptions must exist; non-trivial = controller with more than one state",REAL,STUB});

// ------------------------------------------------------------------ S03 symbolic
struct BddText { std::map<std::string,int> var; int goals=-1; std::map<int,std::array<int,3>> node; int root=0; std::string err; int one=0; // node: var, then, else(signed)
    bool parse(const std::string&t){ bool in=false,end=false; int nn=-1; if(t.empty()||t.back()!='\n'){ err="file does not end with a newline"; return false; }
        for(auto&l:splitLines(t)){ 
            if(l.compare(0,2,"#\t")==0){ int id,pos=0; if(sscanf(l.c_str(),"#\t%d: %n",&id,&pos)<1||!pos){ err="bad variable line "+l; return false; } var[l.substr(pos)]=id; continue; }
            if(l.compare(0,12,"# Num goals:")==0){ goals=atoi(l.c_str()+12); continue; } if(!l.empty()&&l[0]=='#') continue;
            if(l.compare(0,7,".nnodes")==0) nn=atoi(l.c_str()+7); else if(l.compare(0,8,".rootids")==0) root=atoi(l.c_str()+8); else if(l==".nodes") in=true; else if(l==".end"){ in=false; end=true; }
            else if(in){ int id,a,b; char v[64],w[64]; if(sscanf(l.c_str(),"%d %63s %63s %d %d",&id,v,w,&a,&b)!=5){ if(sscanf(l.c_str(),"%d T 1 0 0",&id)!=1){ err="bad node line "+l; return false; } one=id; continue; } if(v[0]=='T'){ one=id; continue; } node[id]={atoi(w),a,b}; /* second number is the variable index in this mode */ if(atoi(v)!=atoi(w)) var2=true; id2[id]=atoi(v); } }
        if(!end||!root||goals<0){ err="incomplete file"; return false; } if(nn!=(int)node.size()+(one?1:0)){ err="number of nodes differs from the header"; return false; } return true; }
    bool var2=false; std::map<int,int> id2;
    int eval(const std::vector<char>&val){ int n=root; bool neg=false; for(int k=0;k<10000;k++){ if(n<0){ neg=!neg; n=-n; } if(n==one) return !neg; auto it=node.find(n); if(it==node.end()) return -1; int x=id2[n]; if(x<0||x>=(int)val.size()) return -1; n=val[x]?it->second[1]:it->second[2]; } return -1; } };
static Case genSym(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=r.chance(15)?4:3; bool rob=r.chance(20),fs=r.chance(20),rec=r.chance(25); Spec s; for(int k=0;k<6;k++){ s=pick(r,g,true,rob); if(fs) makeFastSlow(r,s); Game gm; std::string e; makeGame(s,gm,e); if(fs) fastSlowGame(s,gm); auto w=winSys(gm); if((rob?realizableRobotics(gm,w):realizablePlain(gm,w))&&(s.sysLive.size()>1||r.chance(40))) break; }
    c.disk["s.in"].data=s.text(); c.args={r.chance(50)?"--symbolicStrategy":"--simpleSymbolicStrategy"}; if(rob) c.args.push_back("--sysInitRoboticsSemantics"); if(rec) c.args.push_back("--simpleRecovery"); if(fs) c.args.push_back("--IROSfastslow"); else { int k=r.below(5); if(k==0) c.args.push_back("--biasForAction"); if(k==1) c.args.push_back("--fixedPointRecycling"); }
    c.args.push_back("s.in"); c.args.push_back("o.out"); memSchedule(r,c.sched); return c;
}
static void checkSym(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; if(has(c,"--IROSfastslow")) fastSlowGame(s,g); v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return;
    bool rob=has(c,"--sysInitRoboticsSemantics"),rec=has(c,"--simpleRecovery"),simple=has(c,"--simpleSymbolicStrategy"); auto w=winSys(g); bool real=rob?realizableRobotics(g,w):realizablePlain(g,w); bool present; std::string txt=outText(c,r,present);
    if(!real){ if(present) v.fail("strategy-for-unrealizable","a strategy was written although the specification is unrealizable"+tell(c,txt)); return; }
    BddText b; if(!present||!b.parse(txt)){ v.fail("malformed-strategy","cannot read the decision diagram: "+b.err+tell(c,txt)); return; }
    int nG=g.G.size(); std::string e; if(b.goals!=nG) e="number of goals in the header is "+std::to_string(b.goals); std::vector<int> pre(g.n),post(g.n),cb,cbp; int type=-1,maxv=0; for(auto&x:b.var) maxv=std::max(maxv,x.second);
    auto look=[&](const std::string&n){ auto it=b.var.find(n); if(it==b.var.end()){ e="variable "+n+" is not listed"; return 0; } return it->second; };
    for(int k=0;k<g.n;k++){ std::string p=simple&&k<g.ni?"in_":""; pre[k]=look(p+g.names[k]); post[k]=look(p+g.names[k]+"'"); }
    int bits=0; for(int i=1;i<=nG;i<<=1){ cb.push_back(look("_jx_b"+std::to_string(bits))); if(simple) cbp.push_back(look("_jx_b"+std::to_string(bits)+"'")); bits++; } if(!simple) type=look("strat_type");
    v.nontrivial=b.node.size()>4; st.c[simple?"strategies with encoded goal":"strategies with strat_type"]++;
    if(e.empty()){ // closed loop over all winning positions and goals
        std::vector<std::vector<Edge>> gr((size_t)g.N*nG); std::vector<int> all; std::vector<char> val(maxv+1,0);
        auto set=[&](uint32_t q,uint32_t t,int j,int j2,int ty){ for(int k=0;k<g.n;k++){ val[pre[k]]=q>>k&1; val[post[k]]=t>>k&1; } for(int k=0;k<bits;k++){ val[cb[k]]=j>>k&1; if(simple) val[cbp[k]]=j2>>k&1; } if(type>=0) val[type]=ty; };
        for(uint32_t q=0;q<g.N&&e.empty();q++) if(w[q]) for(int j=0;j<nG&&e.empty();j++){ int me=q*nG+j; all.push_back(me); std::string ctx="in position "+valStr(g,q)+" with goal "+std::to_string(j)+": ";
            for(uint32_t in=0;in<(1u<<g.ni)&&e.empty();in++){ bool any=false,can=false,legal=g.envOK(q,in);
                for(uint32_t o=0;o<(1u<<g.no)&&e.empty();o++){ uint32_t t=in|(o<<g.ni); can|=g.sysOK(q,t)&&w[t]; bool sat=g.G[j][q|((size_t)t<<g.n)]; int nj=sat?(j+1)%nG:j; bool take=false;
                    if(simple){ for(int j2=0;j2<(1<<bits);j2++){ set(q,t,j,j2,0); int x=b.eval(val); if(x<0){ e="broken node reference"; break; } if(x&&j2!=nj){ if(legal||rec) e=ctx+"moves on to goal "+std::to_string(j2)+" instead of "+std::to_string(nj)+" when going to "+valStr(g,t); } if(x) take=true; } }
                    else { set(q,t,j,0,0); int x0=b.eval(val); set(q,t,j,0,1); int x1=b.eval(val); if(x0<0||x1<0) e="broken node reference"; take=x0; if(x1&&!x0) e=ctx+"a goal transition to "+valStr(g,t)+" is not a strategy transition"; if((bool)x1!=(x0&&sat)) e=ctx+"the transition to "+valStr(g,t)+" is marked wrongly as (not) reaching the goal"; }
                    if(!take||(!legal&&!rec)) continue; any=true; if(!g.sysOK(q,t)) e=ctx+"breaks the system safety guarantee by going to "+valStr(g,t); else if(!w[t]) e=ctx+"moves to the losing position "+valStr(g,t);
                    if(legal) gr[me].push_back({(int)(t*nG+nj),labelOf(g,q,t)}); }
                if(legal&&!any&&e.empty()) e=ctx+"no move for the allowed input "+std::to_string(in); if(rec&&!legal&&any!=can&&e.empty()) e=ctx+(can?"no recovery move for input ":"recovery move for input ")+std::to_string(in); if(rec&&!legal&&any) st.c["recovery moves checked"]++; } }
        for(int j=0;j<nG&&e.empty();j++) if(badLasso(gr,all,(1ull<<g.A.size())-1,1ull<<(32+j))) e="there is a run in which all liveness assumptions hold infinitely often but guarantee number "+std::to_string(j)+" only finitely often";
        st.c["position/goal pairs checked"]+=all.size(); }
    if(!e.empty()) v.fail("symbolic-strategy-violates-spec",e+tell(c,txt));
}
static Reg r03({"S03","symbolic strategy",genSym,checkSym,0,"one evaluation = one simulated synthesis run under a seeded memory-manager schedule (reordering included) whose stored decision diagram is read back with an independent reader and executed in closed loop from every winning position and goal; non-trivial = diagram with more than four nodes",REAL,STUB});
}
