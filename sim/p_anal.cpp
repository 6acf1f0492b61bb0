// S18 interesting run, S19 abstract trace, S20 initial positions, S21 safety/liveness matrix, S22 assumptions, S23 weakened assumptions, S24 CNF form
#include "modes.h"
#include <sstream>
namespace dst {
static uint64_t lab(const Game&g,uint32_t s,uint32_t t){ uint64_t l=0; size_t k=s|((size_t)t<<g.n); for(size_t i=0;i<g.A.size();i++) if(g.A[i][k]) l|=1ull<<i; for(size_t j=0;j<g.G.size();j++) if(g.G[j][k]) l|=1ull<<(32+j); return l; }
static std::string ctx(const Case&c,const std::string&txt){ return "\noptions "+join(c.args," ")+"\n"+c.disk.at("s.in").data+"output:\n"+clip(txt,3000); }
typedef std::vector<uint8_t> Set;
static bool anyInit(const Game&g,const Set&w){ for(uint32_t q=0;q<g.N;q++) if(g.initEnv[q]&&g.initSys[q]&&w[q]) return true; return false; }
static std::vector<std::string> splitBar(const std::string&l,bool all=true){ std::vector<std::string> v; std::string c; for(char ch:l){ if(ch=='|'&&(all||v.size()<3)){ v.push_back(c); c.clear(); } else c+=ch; } v.push_back(c); return v; }

// Some specifications with a wide number on one side (four or five bits)
static bool wideNumbers(Rng&r,GenOpt&g){ if(!r.chance(12)) return false; bool in=r.chance(40); (in?g.minIn:g.minOut)=4; (in?g.maxIn:g.maxOut)=r.range(4,5); (in?g.maxOut:g.maxIn)=1; if(in) g.minOut=r.below(2); g.maxBits=5; return true; }
// Propositions whose names say that they encode a number ("p@0.MIN.MAX", "p@1", ...), as the structured specification compiler makes them
struct NumGroup { std::string name; std::vector<int> bit; long lo; };
static std::vector<NumGroup> groupsOf(const Game&g){ std::vector<NumGroup> v; for(int i=0;i<g.n;i++){ size_t a=g.names[i].find('@'); if(a==std::string::npos||a+1==g.names[i].size()) continue; std::string p=g.names[i].substr(0,a); if(g.names[i].compare(a,3,"@0.")==0) v.push_back({p,{i},atol(g.names[i].c_str()+a+3)}); else for(auto&x:v) if(x.name==p) x.bit.push_back(i); } return v; }
static bool setGroup(const std::vector<NumGroup>&G,const std::string&tok,const std::function<void(int,bool)>&put){ size_t e=tok.find('='); if(e==std::string::npos) return false; for(auto&x:G) if(x.name==tok.substr(0,e)){ char*q; long val=strtol(tok.c_str()+e+1,&q,10)-x.lo; if(*q||val<0||val>=(1l<<x.bit.size())) return false; for(size_t i=0;i<x.bit.size();i++) put(x.bit[i],val>>i&1); return true; } return false; }

// Groups that the structured specification compiler would not make (left over by the minimiser) are none of the analyses' business; S26 looks at them
static bool oddGroups(const Game&g){ std::map<std::string,int> n; for(auto&x:g.names){ size_t a=x.find('@'); if(a==std::string::npos||a+1==x.size()) continue; std::string p=x.substr(0,a); if(x.compare(a,3,"@0.")==0){ if(n.count(p)) return true; n[p]=1; } else { if(!n.count(p)||x.substr(a+1)!=std::to_string(n[p])) return true; n[p]++; } } return false; }
// ------------------------------------------------------------------ S18
static Case genRun(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(30)?5:4; bool wide=wideNumbers(r,g); Spec s; for(int k=0;k<10;k++){ s=randomSpec(r,g); Game gm; std::string e; if(!makeGame(s,gm,e)) continue; if(anyInit(gm,winSys(gm))) break; }
    if(wide||r.chance(25)) groupNames(r,s); c.disk["s.in"].data=s.text(); c.args={"--computeInterestingRunOfTheSystem","s.in"}; memSchedule(r,c.sched); c.sched.knobs["randseed"]=(long)(r.next()>>2)|1; return c; }
// rank[i][q]: steps within which the environment can force a transition satisfying assumption i (or the system to deadlock); 0 = cannot
static std::vector<std::vector<int>> envRanks(const Game&g){
    uint32_t I=1u<<g.ni,O=1u<<g.no; Set nd(g.N,1); auto staysND=[&](uint32_t s,uint32_t i){ for(uint32_t o=0;o<O;o++){ uint32_t t=i|(o<<g.ni); if(g.sysOK(s,t)&&!nd[t]) return false; } return true; };
    for(bool ch=true;ch;){ ch=false; Set n2=nd; for(uint32_t s=0;s<g.N;s++) if(nd[s]){ bool ok=false; for(uint32_t i=0;i<I&&!ok;i++) ok=g.envOK(s,i)&&staysND(s,i); if(!ok){ n2[s]=0; ch=true; } } nd=n2; }
    std::vector<std::vector<int>> R; for(auto&A:g.A){ std::vector<int> rk(g.N,0); for(int k=1;;k++){ std::vector<int> n2=rk; bool ch=false;
            for(uint32_t s=0;s<g.N;s++) if(!rk[s]) for(uint32_t i=0;i<I&&!n2[s];i++) if(g.envOK(s,i)){ bool ok=true; for(uint32_t o=0;o<O&&ok;o++){ uint32_t t=i|(o<<g.ni); if(!g.sysOK(s,t)) continue; ok=(A[s|((size_t)t<<g.n)]||rk[t])&&staysND(s,i); } if(ok){ n2[s]=k; ch=true; } }
            rk=n2; if(!ch) break; } R.push_back(rk); }
    return R;
}
static void checkRun(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N||oddGroups(g)) return; v.stateKey=mix64(gameHash(g)^(uint64_t)c.sched.knob("randseed",0)); Result r=run(c,v); if(!expectEnd(r,v)) return; auto w=winSys(g);
    if(!anyInit(g,w)){ if(r.out.find("There is no position that is winning")!=0) v.fail("run-without-start","no initial position is winning, but a run is printed"+ctx(c,r.out)); return; }
    std::vector<std::string> L=splitLines(r.out); std::string e; auto GR=groupsOf(g); struct Row{ int ei,sj; bool ep,sp; uint32_t q; std::string end; }; std::vector<Row> rows;
    if(L.size()<3||L[0].compare(0,27,"Env.L.A. | Sys.L.G. | Input")) e="no table is printed";
    for(size_t k=2;k<L.size()&&e.empty();k++){ if(trim(L[k]).empty()) continue; auto f=splitBar(L[k]); Row w0; w0.q=0; if(f.size()<3){ e="malformed line "+L[k]; break; }
        std::string a=trim(f[0]),b=trim(f[1]); char x=0,y=0; if(L[k].find("violation")!=std::string::npos){ e="a safety violation is reported"; break; }
        w0.ei=w0.sj=-1; if(sscanf(a.c_str(),"%d%c",&w0.ei,&x)<1||sscanf(b.c_str(),"%d%c",&w0.sj,&y)<1){ e="malformed line "+L[k]; break; } w0.ep=x=='+'; w0.sp=y=='+';
        if(trim(f[2]).find("Loses")!=std::string::npos){ w0.end=trim(f[2]); rows.push_back(w0); if(k+1<L.size()&&!trim(L[k+1]).empty()) e="the run continues after its end"; break; }
        if(f.size()!=4){ e="malformed line "+L[k]; break; } std::set<int> seen; for(int h=0;h<2;h++){ std::istringstream is(f[2+h]); std::string t; while(is>>t){ bool neg=t[0]=='!'; if(neg) t.erase(0,1); if(setGroup(GR,t,[&](int b,bool val){ if((b>=g.ni)!=(h==1)||!seen.insert(b).second) e="unexpected entry "+t; if(val) w0.q|=1u<<b; })){ st.c["encoded numbers read"]++; continue; } int id=-1; for(int i=h?g.ni:0;i<(h?g.n:g.ni);i++) if(g.names[i]==t) id=i; if(id<0||!seen.insert(id).second){ e="unexpected entry "+t; break; } if(!neg) w0.q|=1u<<id; } }
        if(e.empty()&&(int)seen.size()!=g.n) e="a line does not give all values: "+L[k]; rows.push_back(w0); }
    if(e.empty()&&rows.empty()) e="empty run";
    if(e.empty()){ Row&f=rows[0]; if(!f.end.empty()) e="the run has no start"; else if(!g.initEnv[f.q]||!g.initSys[f.q]||!w[f.q]) e="the run starts in "+valStr(g,f.q)+", which is not a winning initial position"; else if(f.ei||f.sj) e="the run does not start with the first goals"; }
    auto R=envRanks(g); std::map<std::pair<uint32_t,std::pair<int,int>>,int> id; std::vector<std::vector<Edge>> gr; auto node=[&](const Row&x){ auto k=std::make_pair(x.q,std::make_pair(x.ei,x.sj)); auto it=id.find(k); if(it!=id.end()) return it->second; int n=gr.size(); id[k]=n; gr.push_back({}); return n; };
    int nA=g.A.size(),nG=g.G.size(); bool ended=false;
    for(size_t k=0;k+1<rows.size()&&e.empty();k++){ Row&a=rows[k],&b=rows[k+1]; std::string me="step "+std::to_string(k)+" ("+valStr(g,a.q)+"): "; if(a.ei<0||a.ei>=nA||a.sj<0||a.sj>=nG){ e=me+"goal number out of range"; break; }
        if(!b.end.empty()){ ended=true; bool any=false; for(uint32_t i=0;i<(1u<<g.ni);i++) any|=g.envOK(a.q,i); if(any) e=me+"the run ends with "+b.end+" although the environment has an allowed input and the system is winning"; else if(b.end!="Env.Loses") e=me+"the end is reported as "+b.end; if(a.ep||a.sp) e=me+"a goal is reported as satisfied although there is no transition"; st.c["runs that end in a dead end of the environment"]++; break; }
        if(!g.envOK(a.q,b.q&g.inMask())) e=me+"the next input violates the assumptions"; else if(!g.sysOK(a.q,b.q)) e=me+"the next output violates the guarantees"; else if(!w[b.q]) e=me+"moves to a losing position";
        uint64_t l=lab(g,a.q,b.q); bool ae=l>>a.ei&1,as=l>>(32+a.sj)&1; if(ae!=a.ep||as!=a.sp) e=me+"goal marks are wrong"; if(b.ei!=(a.ei+ae)%nA||b.sj!=(a.sj+as)%nG) e=me+"goal numbers are wrong";
        int rk=R[a.ei][a.q]; if(e.empty()&&rk&&!ae&&!(R[a.ei][b.q]&&R[a.ei][b.q]<rk)) e=me+"the environment does not work towards its liveness assumption "+std::to_string(a.ei)+" although it can force it"; if(rk) st.c["steps with an enforceable assumption"]++;
        int x=node(a),y=node(b); gr[x].push_back({y,l}); st.c["steps checked"]++; }
    if(e.empty()&&!ended&&rows.size()!=101) e="the run has "+std::to_string(rows.size())+" positions instead of 101";
    if(e.empty()){ std::vector<int> all; for(size_t i=0;i<gr.size();i++) all.push_back(i); for(int j=0;j<nG&&e.empty();j++) if(badLasso(gr,all,(1ull<<nA)-1,1ull<<(32+j))) e="the steps of the run form a loop in which all liveness assumptions hold but guarantee "+std::to_string(j)+" does not"; }
    v.nontrivial=gr.size()>2; if(!e.empty()) v.fail("wrong-run",e+ctx(c,r.out));
}
static Reg r18({"S18","interesting run",genRun,checkRun,0,"one evaluation = one printed run of up to 100 steps under a seeded random source and memory-manager schedule, checked step by step and for losing loops; non-trivial = more than two distinct positions with goals",REAL,STUB});

// ------------------------------------------------------------------ S19
static Case genTrace(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(30)?5:4; g.maxA=1; g.maxG=1; g.minIn=r.chance(80); bool wide=wideNumbers(r,g); Spec s=randomSpec(r,g); if(r.chance(60)) for(int k=r.range(1,2);k>0;k--){ std::vector<std::string> pre=s.in; pre.insert(pre.end(),s.out.begin(),s.out.end()); (r.chance(60)||s.in.empty()?s.sysTrans:s.envTrans).push_back(randFormula(r,pre,1)); }
    if(wide||r.chance(20)) groupNames(r,s); c.disk["s.in"].data=s.text(); c.args={"--computeAbstractWinningTrace","s.in"}; memSchedule(r,c.sched); return c; }
struct Attr { int round=-1; std::vector<Set> R; };
static Attr attrEnv(const Game&g){ Attr a; Set W(g.N,0); uint32_t I=1u<<g.ni,O=1u<<g.no; a.R.push_back(W); for(int k=1;;k++){ Set n=W; for(uint32_t s=0;s<g.N;s++) for(uint32_t i=0;i<I&&!n[s];i++) if(g.envOK(s,i)){ bool ok=true; for(uint32_t o=0;o<O&&ok;o++){ uint32_t t=i|(o<<g.ni); ok=!g.sysOK(s,t)||W[t]; } n[s]=ok; }
        bool win=false; for(uint32_t i=0;i<I&&!win;i++) if(g.initEnv[i]){ bool all=true; for(uint32_t o=0;o<O&&all;o++){ uint32_t q=i|(o<<g.ni); all=!g.initSys[q]||n[q]; } win=all; }
        bool same=n==W; W=n; a.R.push_back(W); if(win){ a.round=k; return a; } if(same) return a; } }
static Attr attrSys(const Game&g){ Attr a; Set W(g.N,0); uint32_t I=1u<<g.ni,O=1u<<g.no; a.R.push_back(W); for(int k=1;;k++){ Set n=W; for(uint32_t s=0;s<g.N;s++) if(!n[s]){ bool all=true; for(uint32_t i=0;i<I&&all;i++) if(g.envOK(s,i)){ bool ex=false; for(uint32_t o=0;o<O&&!ex;o++){ uint32_t t=i|(o<<g.ni); ex=g.sysOK(s,t)&&W[t]; } all=ex; } n[s]=all; }
        bool same=n==W; W=n; a.R.push_back(W); if(realizablePlain(g,W)){ a.round=k; return a; } if(same) return a; } }
static std::string checkTable(const Game&g,const std::vector<std::string>&rows,bool env,const Attr&a){
    std::vector<std::vector<std::string>> col; std::vector<std::string> names; 
    for(auto&l:rows){ if(l.find("--")!=std::string::npos) continue; auto f=splitBar(l); std::vector<std::string> cells; for(auto&x:f) if(!trim(x).empty()) cells.push_back(trim(x)); if(cells.empty()) continue; if(cells[0]=="Atomic prop./Round"){ for(size_t k=1;k<cells.size();k++) if(cells[k]!=std::to_string(k-1)) return "rounds are not numbered from 0"; col.resize(cells.size()-1); continue; }
        if(cells.size()!=col.size()+1) return "malformed line "+l; names.push_back(cells[0]); for(size_t k=0;k<col.size();k++) col[k].push_back(cells[k+1]); }
    auto GR=groupsOf(g); bool fuzzy=false; if(GR.empty()){ if(names!=g.names) return "the table does not list all propositions"; } else {
        std::vector<std::string> want; std::vector<std::vector<int>> bits; std::vector<long> lo; auto grouped=[&](int i){ size_t a=g.names[i].find('@'); return a!=std::string::npos&&a+1!=g.names[i].size(); };
        for(int h=0;h<2;h++){ for(int i=h?g.ni:0;i<(h?g.n:g.ni);i++) if(!grouped(i)){ want.push_back(g.names[i]); bits.push_back({i}); lo.push_back(-1); } for(auto&x:GR) if((x.bit[0]>=g.ni)==(h==1)){ want.push_back(x.name); bits.push_back(x.bit); lo.push_back(x.lo); } }
        if(names!=want) return "the table does not list all propositions"; for(size_t k=0;k<col.size();k++){ std::vector<std::string> nc(g.n); for(size_t x=0;x<want.size();x++){ const std::string&ce=col[k][x]; if(lo[x]<0||ce=="X"||ce=="*"){ for(int b:bits[x]) nc[b]=ce; if(lo[x]>=0&&ce=="*"&&k+1<col.size()) fuzzy=true; } else { char*q; long val=strtol(ce.c_str(),&q,10)-lo[x]; if(*q||val<0||val>=(1l<<bits[x].size())) return "wrong number "+ce+" for "+want[x]; for(size_t i=0;i<bits[x].size();i++) nc[bits[x][i]]=val>>i&1?"1":"0"; } } col[k]=nc; } }
    int n=col.size(); if(n<2) return "the table has less than two rounds"; for(auto&cl:col) for(auto&x:cl) if(x!="0"&&x!="1"&&x!="*"&&x!="X") return "malformed cell "+x; if(!env) for(auto&x:col[n-1]) if(x!="X") return "the system's trace does not end outside of all positions"; if(n!=a.round+1) return "the trace has "+std::to_string(n-1)+" steps, but the shortest forced win takes "+std::to_string(a.round);
    auto in=[&](int k,uint32_t q,int to){ for(int i=0;i<to;i++){ const std::string&x=col[k][i]; if(x=="X") return false; if(x!="*"&&(x=="1")!=(q>>i&1)) return false; } return true; };
    uint32_t I=1u<<g.ni,O=1u<<g.no; Set V(g.N,0); bool freeIn=g.ni==0||col[n-1][0]=="X";
    for(int k=n-2;k>=0;k--){ Set nv(g.N,0); for(uint32_t s=0;s<g.N;s++) if(in(k,s,g.n)){
            if(env){ for(uint32_t i=0;i<I&&!nv[s];i++) if(g.envOK(s,i)&&(k<n-2||freeIn||in(n-1,i,g.ni))){ bool ok=true; for(uint32_t o=0;o<O&&ok;o++){ uint32_t t=i|(o<<g.ni); ok=!g.sysOK(s,t)||V[t]; } nv[s]=ok; } }
            else { bool all=true; for(uint32_t i=0;i<I&&all;i++) if(g.envOK(s,i)){ bool ex=false; for(uint32_t o=0;o<O&&!ex;o++){ uint32_t t=i|(o<<g.ni); ex=g.sysOK(s,t)&&V[t]; } all=ex; } nv[s]=all; } } V=nv; }
    int starts=0; for(uint32_t q=0;q<g.N;q++) if(in(0,q,g.n)){ starts++; if(!g.initEnv[q]||!g.initSys[q]) return "round 0 is not an initial position: "+valStr(g,q); if(!V[q]&&!fuzzy) return std::string("from round 0 the ")+(env?"environment":"system")+" cannot force the abstract positions of the following rounds"; }
    if(starts!=1) return "round 0 is not one position";
    if(env&&!fuzzy&&g.ni){ bool common=false; for(uint32_t i=0;i<I&&!common;i++){ common=true; for(uint32_t s=0;s<g.N&&common;s++) if(in(n-2,s,g.n)){ common=g.envOK(s,i); for(uint32_t o=0;o<O&&common;o++) common=!g.sysOK(s,i|(o<<g.ni)); } }
        if(common==freeIn) return common?"there is a last input that wins in all positions of the last round, but none is printed":"a last input is printed that does not win at once"; if(!freeIn) for(int i=0;i<g.n;i++) if(i<g.ni?(col[n-1][i]!="0"&&col[n-1][i]!="1"):col[n-1][i]!="*") return "the last input is not given completely"; }
    return "";
}
static void checkTrace(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N||oddGroups(g)) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return; std::vector<std::string> L=splitLines(r.out); std::string e;
    for(int env=1;env>=0&&e.empty();env--){ Attr a=env?attrEnv(g):attrSys(g); std::string head=env?"Abstract countertrace:":"Abstract trace:"; size_t p=0; while(p<L.size()&&L[p]!=head) p++; bool table=p<L.size(); std::string none=std::string("There is no strategy for the ")+(env?"environment":"system")+" environment to win in finite time from an initial position."; bool said=r.out.find(none)!=std::string::npos;
        bool start=a.round>0&&anyInit(g,a.R[a.round]); if(table!=(a.round>0&&start)) e=std::string(env?"environment: ":"system: ")+(table?"a trace is printed although no win in finite time can be forced from the initial positions":"no trace is printed although a win in "+std::to_string(a.round)+" steps can be forced from the initial positions"); else if(said!=(a.round>0&&!start)) e="the message about missing initial positions is wrong";
        if(e.empty()&&table){ std::vector<std::string> rows; for(size_t k=p+1;k<L.size()&&!trim(L[k]).empty();k++) rows.push_back(L[k]); e=checkTable(g,rows,env,a); if(!e.empty()) e=std::string(env?"environment: ":"system: ")+e; st.c[env?"abstract countertraces":"abstract traces"]++; if(a.round>1) st.c["traces of several steps"]++; v.nontrivial|=a.round>1; } }
    if(!e.empty()) v.fail("wrong-abstract-trace",e+ctx(c,r.out));
}
static Reg r19({"S19","abstract trace",genTrace,checkTrace,0,"one evaluation = one printed pair of abstract traces under a seeded memory-manager schedule, replayed backwards as a game on the printed cubes; non-trivial = a trace of several steps",REAL,STUB});

// ------------------------------------------------------------------ S20
static Case genPos(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(30)?5:4; bool wide=wideNumbers(r,g); Spec s=randomSpec(r,g); if(wide||r.chance(20)) groupNames(r,s); std::string t; int secNo=0; for(auto&l:splitLines(s.text())){ if(!l.empty()&&l[0]=='[') secNo++; bool init=secNo==3||secNo==4; if(init&&!l.empty()&&l[0]!='['&&r.chance(45)) t+="## Variable limits: x\n"; t+=l+"\n"; }
    c.disk["s.in"].data=t; c.args={"--analyzeInitialPositions"}; if(r.chance(50)) c.args.push_back("--restrictToReachableStates"); c.args.push_back("s.in"); memSchedule(r,c.sched); return c; }
static void checkPos(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N||oddGroups(g)) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return; auto w=winSys(g); Set lim(g.N,1); std::string e;
    { bool rd=false; int sec=0; std::map<std::string,int> bit; for(int i=0;i<g.n;i++) bit[g.names[i]]=i; for(auto&l0:splitLines(c.disk.at("s.in").data)){ std::string l=trim(l0); if(l.empty()) continue; if(l[0]=='['){ sec++; rd=false; continue; } if(l[0]=='#'){ if(l.compare(0,20,"## Variable limits: ")==0) rd=true; continue; } if(rd&&(sec==3||sec==4)){ TT t; std::string er; if(evalFormula(l,bit,g.n,t,er)) for(uint32_t q=0;q<g.N;q++) lim[q]&=t[q]; } rd=false; } }
    if(has(c,"--restrictToReachableStates")){ Set re(g.N,0); std::vector<uint32_t> q0; for(uint32_t q=0;q<g.N;q++) if(g.initEnv[q]&&g.initSys[q]){ re[q]=1; q0.push_back(q); } while(!q0.empty()){ uint32_t q=q0.back(); q0.pop_back(); for(uint32_t t=0;t<g.N;t++) if(!re[t]&&g.envOK(q,t&g.inMask())&&g.sysOK(q,t)){ re[t]=1; q0.push_back(t); } } for(uint32_t q=0;q<g.N;q++) lim[q]&=re[q]; }
    auto cnt=[&](std::function<bool(uint32_t)> f){ long n=0; for(uint32_t q=0;q<g.N;q++) if(lim[q]&&f(q)) n++; return std::to_string(n); }; auto A=[&](uint32_t q){ return (bool)g.initEnv[q]; }; auto G=[&](uint32_t q){ return (bool)g.initSys[q]; };
    long inputs=0,allowed=0,losing=0; for(uint32_t i=0;i<(1u<<g.ni);i++){ bool any=false,good=false; for(uint32_t o=0;o<(1u<<g.no);o++){ uint32_t q=i|(o<<g.ni); any|=lim[q]; good|=g.initSys[q]&&w[q]; } if(any){ inputs++; if(g.initEnv[i]){ allowed++; if(!good) losing++; } } }
    std::vector<std::string> exp={"Number of winning positions: "+cnt([&](uint32_t q){return w[q];})+" out of "+cnt([](uint32_t){return true;}),
        "Number of winning positions satisfying the initialization assumptions: "+cnt([&](uint32_t q){return w[q]&&A(q);})+" out of "+cnt(A),"Number of winning positions satisfying the initialization guarantees: "+cnt([&](uint32_t q){return w[q]&&G(q);})+" out of "+cnt(G),
        "Number of winning positions satisfying the initialization assumptions and guarantees: "+cnt([&](uint32_t q){return w[q]&&A(q)&&G(q);})+" out of "+cnt([&](uint32_t q){return A(q)&&G(q);}),
        "Number of initial input assignments that are allowed for the environment: "+std::to_string(allowed)+" out of "+std::to_string(inputs),"Number of initial input assignments that force the system to move to a losing position: "+std::to_string(losing)+" out of "+std::to_string(inputs)};
    std::vector<std::string> L=splitLines(r.out); for(size_t k=0;k<exp.size()&&e.empty();k++) if(k>=L.size()||L[k]!=exp[k]) e="expected: "+exp[k];
    struct Sec{ const char*h; std::function<bool(uint32_t)> f; }; auto dead=[&](uint32_t q){ for(uint32_t i=0;i<(1u<<g.ni);i++) if(g.envOK(q,i)) return false; return true; };
    std::vector<Sec> S={{"Some cubes of winning positions: ",[&](uint32_t q){return w[q];}},{"Some cubes of non-winning positions: ",[&](uint32_t q){return !w[q];}},{"Some cubes of winning positions satisfying the initialization assumptions: ",[&](uint32_t q){return w[q]&&A(q);}},{"Some cubes of non-winning positions satisfying the initialization assumptions: ",[&](uint32_t q){return !w[q]&&A(q);}},
        {"Some cubes of winning positions satisfying the initialization guarantees: ",[&](uint32_t q){return w[q]&&G(q);}},{"Some cubes of non-winning positions satisfying the initialization guarantees: ",[&](uint32_t q){return !w[q]&&G(q);}},{"Some cubes of winning positions satisfying the initialization assumptions & guarantees: ",[&](uint32_t q){return w[q]&&A(q)&&G(q);}},
        {"Some cubes of non-winning positions satisfying the initialization assumptions & guarantees: ",[&](uint32_t q){return !w[q]&&A(q)&&G(q);}},{"Some positions from which the environment player cannot prevent to violate some safety assumptions:",[&](uint32_t q){return w[q]&&dead(q);}}};
    auto GR=groupsOf(g); size_t p=6; for(auto&x:S){ if(!e.empty()) break; while(p<L.size()&&trim(L[p]).empty()) p++; if(p>=L.size()||L[p]!=x.h){ e=std::string("section missing: ")+x.h; break; } p++; bool allIn=true,none=true; for(uint32_t q=0;q<g.N;q++) if(lim[q]){ if(x.f(q)) none=false; else allIn=false; }
        std::vector<std::string> ls; while(p<L.size()&&!trim(L[p]).empty()) ls.push_back(L[p++]); std::string sec=std::string(" in section \"")+x.h+"\"";
        if(allIn){ if(ls!=std::vector<std::string>{"- TRUE"}) e="expected TRUE"+sec; continue; } if(none){ if(ls!=std::vector<std::string>{"--(none)"}) e="expected (none)"+sec; continue; }
        if(ls.empty()||ls.size()>7) e="wrong number of cubes"+sec; Set cov(g.N,0); for(auto&l:ls){ std::istringstream is(l); std::string t; is>>t; if(t!="-"){ e="malformed cube"+sec; break; } std::vector<int> cu(g.n,-1); while(is>>t){ if(setGroup(GR,t,[&](int b,bool val){ cu[b]=val; })){ st.c["encoded numbers read"]++; continue; } bool neg=t[0]=='!'; if(neg) t.erase(0,1); int id=-1; for(int i=0;i<g.n;i++) if(g.names[i]==t) id=i; if(id<0||t.find('@')<t.size()-1){ e="unknown proposition"+sec; break; } cu[id]=!neg; }
            bool some=false; for(uint32_t q=0;q<g.N;q++) if(lim[q]){ bool inC=true; for(int i=0;i<g.n;i++) if(cu[i]>=0&&cu[i]!=(int)(q>>i&1)) inC=false; if(inC){ cov[q]=1; some=true; if(!x.f(q)) e="cube \""+l+"\" contains the position "+valStr(g,q)+", which does not belong there,"+sec; } } if(!some&&e.empty()&&GR.empty()) e="cube \""+l+"\" contains no position"+sec; st.c["cubes checked"]++; }
        if(e.empty()&&(size_t)std::set<std::string>(ls.begin(),ls.end()).size()!=ls.size()) e="a cube is listed twice"+sec;
        if(e.empty()&&GR.empty()){ int best=99,k=1; for(int i=0;i<g.n;i++) k*=3; for(int x3=0;x3<k;x3++){ uint32_t m=0,val=0; int y=x3,lits=0; for(int i=0;i<g.n;i++,y/=3) if(y%3){ m|=1u<<i; lits++; if(y%3==1) val|=1u<<i; } bool ok=true,some=false; for(uint32_t q=0;q<g.N&&ok;q++) if((q&m)==val&&lim[q]){ some=true; ok=x.f(q); } if(ok&&some) best=std::min(best,lits); }
            std::istringstream is(ls[0]); std::string t; int lits=-1; while(is>>t) lits++; if(lits!=best) e="the first cube has "+std::to_string(lits)+" literals, but there is one with "+std::to_string(best)+sec; } v.nontrivial|=ls.size()>1; }
    if(!e.empty()) v.fail("wrong-position-analysis",e+ctx(c,r.out));
}
static Reg r20({"S20","initial positions",genPos,checkPos,0,"one evaluation = one analysis of initial positions under a seeded memory-manager and reordering schedule, all numbers and cubes compared with the explicit game; non-trivial = a section with several cubes",REAL,STUB});

// ------------------------------------------------------------------ S21
static Case genMat(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=4; Spec s=randomSpec(r,g); if(r.chance(40)){ std::vector<std::string> pre=s.in; pre.insert(pre.end(),s.out.begin(),s.out.end()); (r.chance(60)||s.in.empty()?s.sysTrans:s.envTrans).push_back(randFormula(r,pre,1)); } c.disk["s.in"].data=s.text(); c.args={"--analyzeSafetyLivenessInteraction","s.in"}; memSchedule(r,c.sched); return c; }
static void checkMat(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N||oddGroups(g)) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return; std::string e; bool cl[16],ro[16]; std::vector<std::string> rows; size_t M=(size_t)g.N*g.N; 
    for(auto&l:splitLines(r.out)) if(l.size()>30&&l[0]=='|'&&(l.find("| yes")!=std::string::npos||l.find("yes")!=std::string::npos||l.find(" no ")!=std::string::npos)&&l.find("Safety")==std::string::npos) rows.push_back(l);
    if(rows.size()!=16) e="the matrix does not have 16 rows";
    for(int i=0;i<16;i++){ Game h=g; if(!(i&8)) h.envT.assign(M,1); if(!(i&2)) h.sysT.assign(M,1); if(!(i&4)) h.A={TT(M,1)}; if(!(i&1)) h.G={TT(M,1)}; auto w=winSys(h); cl[i]=realizablePlain(h,w); ro[i]=realizableRobotics(h,w); if(!e.empty()) continue;
        auto f=splitBar(rows[i]); std::vector<std::string> x; for(auto&y:f) if(!trim(y).empty()) x.push_back(trim(y)); std::vector<std::string> want={i&8?"+":"-",i&4?"+":"-",i&2?"+":"-",i&1?"+":"-",cl[i]?"yes":"no",ro[i]?"yes":"no"}; if(x!=want) e="row "+std::to_string(i)+" should be "+join(want," "); }
    bool ns=r.out.find("With a non-strict implication,")!=std::string::npos; if(e.empty()&&ns!=(!cl[15]||!ro[15])) e="the section about non-strict implication is "+std::string(ns?"unexpected":"missing");
    if(e.empty()&&ns){ // once the safety guarantees have failed, the system can only win by the environment breaking its assumptions
        Game h; h.ni=g.ni; h.no=g.no+1; h.n=g.n+1; h.N=g.N*2; h.names=g.names; h.names.push_back("failed"); size_t K=(size_t)h.N*h.N; h.initEnv.resize(h.N); h.initSys.resize(h.N); h.envT.resize(K); h.sysT.resize(K); h.A.assign(g.A.size(),TT(K)); h.G.assign(g.G.size()+1,TT(K));
        for(uint32_t a=0;a<h.N;a++){ uint32_t qa=a&(g.N-1); h.initEnv[a]=g.initEnv[qa]; h.initSys[a]=g.initSys[qa]&&!(a>>g.n); for(uint32_t b=0;b<h.N;b++){ uint32_t qb=b&(g.N-1); size_t k=a|((size_t)b<<h.n),k0=qa|((size_t)qb<<g.n); h.envT[k]=g.envT[k0]; h.sysT[k]=(b>>g.n)==((!g.sysT[k0])||(a>>g.n)); for(size_t i=0;i<g.A.size();i++) h.A[i][k]=g.A[i][k0]; for(size_t j=0;j<g.G.size();j++) h.G[j][k]=g.G[j][k0]; h.G.back()[k]=!(b>>g.n); } }
        auto w=winSys(h); bool c2=realizablePlain(h,w),r2=realizableRobotics(h,w); bool e1=c2&&!cl[15],e2=r2&&!ro[15]; st.c["non-strict implication examined"]++; if(e1||e2) st.c["non-strict implication makes a difference"]++;
        std::string want=std::string("With a non-strict implication,\n")+(e1?"- the specification becomes realizable in the non-robotics semantics,\n":"- nothing changes in the non-robotics semantics,\n")+(e2?"- and the specification becomes realizable in the robotics semantics.\n":"- and nothing changes in the robotics semantics, either.\n");
        if(r.out.find(want)==std::string::npos) e="expected: "+want; }
    if(e.empty()){ Attr a=cl[10]?attrSys(g):attrEnv(g); std::string want=std::string("Note that with only the safety assumptions and guarantees, the ")+(cl[10]?"system":"environment")+(a.round>0?" can falsify the "+std::string(cl[10]?"environment":"system")+"'s specification within "+std::to_string(a.round)+" steps.\n":" can't falsify the "+std::string(cl[10]?"environment":"system")+"'s specification.\n"); if(a.round>1) st.c["falsification in several steps"]++;
        if(r.out.find(want)==std::string::npos) e="expected: "+want; else { bool note=r.out.find("However, there is no corresponding strategy")!=std::string::npos; bool wn=!cl[10]&&a.round>0&&!anyInit(g,a.R[a.round]); if(note!=wn) e=std::string("the note about initial positions is ")+(note?"unexpected":"missing"); } v.nontrivial=a.round>0||ns; }
    if(!e.empty()) v.fail("wrong-interaction-analysis",e+ctx(c,r.out));
}
static Reg r21({"S21","safety/liveness matrix",genMat,checkMat,0,"one evaluation = one interaction analysis under a seeded memory-manager schedule, every entry compared with explicit games; non-trivial = a falsification bound or the non-strict section is printed",REAL,STUB});

// ------------------------------------------------------------------ S22
static Case genAss(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=4; g.minIn=1; g.maxA=3; Spec s; for(int k=0;k<12;k++){ s=randomSpec(r,g); if(s.envTrans.size()+s.envLive.size()<1) continue; Game gm; std::string e; if(!makeGame(s,gm,e)) continue; if(realizablePlain(gm,winSys(gm))) break; }
    if(!s.envTrans.empty()&&r.chance(25)) s.envTrans.push_back(r.chance(50)?s.envTrans[0]:"| "+s.envTrans[0]+" "+s.in[0]);
    std::string t; int sec=0,k=0; for(auto&l:splitLines(s.text())){ if(!l.empty()&&l[0]=='[') sec++; if((sec==5||sec==7)&&!l.empty()&&l[0]!='['&&r.chance(40)) t+="## Name "+std::to_string(++k)+"\n"; t+=l+"\n"; }
    c.disk["s.in"].data=t; c.args={"--analyzeAssumptions","s.in"}; memSchedule(r,c.sched); return c; }
// rounds of the middle fixpoint per guarantee, in the last iteration of the outer one
static Set distances(const Game&g,std::vector<std::vector<Set>>&D){ Set Z(g.N,1); uint32_t I=1u<<g.ni,O=1u<<g.no;
    for(;;){ Set nz(g.N,1); D.clear(); for(auto&G:g.G){ D.push_back({}); Set Y(g.N,0);
            for(;;){ Set nY=Y; for(auto&A:g.A){ Set X(g.N,1); for(;;){ Set nX(g.N,0); for(uint32_t s=0;s<g.N;s++){ bool all=true; for(uint32_t i=0;i<I&&all;i++) if(g.envOK(s,i)){ bool ex=false; for(uint32_t o=0;o<O&&!ex;o++){ uint32_t t=i|(o<<g.ni); size_t k=s|((size_t)t<<g.n); ex=g.sysT[k]&&((G[k]&&Z[t])||Y[t]||(X[t]&&!A[k])); } all=ex; } nX[s]=all; } if(nX==X) break; X=nX; } for(uint32_t s=0;s<g.N;s++) nY[s]|=X[s]; } 
                D.back().push_back(nY); if(nY==Y) break; Y=nY; }
            for(uint32_t s=0;s<g.N;s++) nz[s]&=Y[s]; }
        if(nz==Z) return Z; Z=nz; } }
static void checkAss(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N||oddGroups(g)) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return; std::string e; std::vector<std::string> L=splitLines(r.out); std::vector<std::vector<Set>> D; Set w=distances(g,D);
    if(!realizablePlain(g,w)){ if(L.empty()||L[0].find("Starting with an unrealizable specification")!=0||L.size()>1) v.fail("wrong-assumption-analysis","an analysis is made for an unrealizable specification"+ctx(c,r.out)); return; }
    if(L.empty()||L[0].find("Starting with a realizable specification")!=0) e="the first line should say that the specification is realizable";
    std::vector<std::string> names; std::vector<std::string> nm[2]; { int sec=0; std::string cur; for(auto&l0:splitLines(c.disk.at("s.in").data)){ std::string l=trim(l0); if(l.empty()) continue; if(l[0]=='['){ sec++; continue; } if(l.compare(0,2,"##")==0){ cur=trim(l.substr(2)); continue; } if(l[0]=='#') continue; if(sec==5||sec==7){ auto&x=nm[sec==7]; x.push_back(cur.empty()?(sec==5?"Safety Assumption ":"Liveness Assumption ")+std::to_string(x.size()+1):cur); } cur=""; } }
    if(nm[1].empty()) nm[1].push_back("Automatically added TRUE liveness assumption");
    std::vector<std::string> got; for(size_t k=1;k<L.size();k++) if(!trim(L[k]).empty()){ std::string x=L[k]; for(size_t p;(p=x.find(" (but not in most general stategy)"))!=std::string::npos;) x.erase(p,34); got.push_back(x); }
    size_t at=0; for(int ty=0;ty<2&&e.empty();ty++) for(size_t i=0;i<nm[ty].size()&&e.empty();i++){ Spec s2=s; if(ty==0) s2.envTrans.erase(s2.envTrans.begin()+i); else if(!s2.envLive.empty()) s2.envLive.erase(s2.envLive.begin()+i); Game h; std::string er; makeGame(s2,h,er); std::vector<std::vector<Set>> E; Set x=distances(h,E); std::string want="\""+nm[ty][i]+"\" ";
        if(!realizablePlain(h,x)){ want+="is crucially needed."; st.c["crucially needed assumptions"]++; }
        else if(x!=w){ bool rob=false; for(uint32_t q=0;q<g.N;q++) if(g.initEnv[q]&&x[q]!=w[q]) rob=true; want+=rob?"makes more positions winning, which helps for satisfying the GR(1) robotics semantics.":"makes more positions winning, but without any effect of the GR(1) robotics semantics."; st.c["assumptions that make more positions winning"]++; }
        else if(ty==0&&h.envT==g.envT){ want+="is redundant and implied by the other safety assumptions."; st.c["redundant assumptions"]++; }
        else { std::string l; for(size_t j=0;j<g.G.size();j++){ bool need=false; for(size_t k=0;k<std::max(D[j].size(),E[j].size());k++) if(D[j][std::min(k,D[j].size()-1)]!=E[j][std::min(k,E[j].size()-1)]) need=true; if(need) l+=(l.empty()?"":", ")+std::to_string(j); } want+=l.empty()?"is superfluous.":"makes reaching the system goals "+l+" easier for the system."; st.c[l.empty()?"superfluous assumptions":"assumptions that shorten distances"]++; }
        if(at>=got.size()) e="expected: "+want; else if(got[at]!=want) e="expected: "+want+"\n     got: "+got[at]; at++; v.nontrivial=true; }
    if(e.empty()&&at!=got.size()) e="unexpected line "+got[at];
    if(!e.empty()) v.fail("wrong-assumption-analysis",e+ctx(c,r.out));
}
static Reg r22({"S22","assumption analysis",genAss,checkAss,0,"one evaluation = one assumption analysis under a seeded memory-manager schedule, each classification compared with the explicit games with and without the assumption; non-trivial = realizable specification",REAL,STUB});

// ------------------------------------------------------------------ S23
static Case genWeak(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(25)?4:3; g.minIn=1; Spec s; for(int k=0;k<25;k++){ s=randomSpec(r,g); if(s.envTrans.empty()||r.chance(40)){ std::vector<std::string> pe=s.in; pe.insert(pe.end(),s.out.begin(),s.out.end()); for(auto&x:s.in) pe.push_back(x+"'"); s.envTrans.push_back(randFormula(r,pe,2)); } Game gm; std::string e; if(!makeGame(s,gm,e)) continue; if(!realizablePlain(gm,winSys(gm))) continue; Game h=gm; h.envT.assign(h.envT.size(),1); if(r.chance(15)||!realizablePlain(h,winSys(h))) break; }
    c.disk["s.in"].data=s.text(); c.args={"--computeWeakenedSafetyAssumptions","s.in"}; memSchedule(r,c.sched); return c; }
static void checkWeak(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N||oddGroups(g)) return; v.stateKey=gameHash(g); if(!realizablePlain(g,winSys(g))){ st.c["unrealizable (nothing claimed)"]++; run(c,v); return; } Result r=run(c,v); if(!expectEnd(r,v)) return; std::string e; std::vector<std::string> L=splitLines(r.out); size_t M=(size_t)g.N*g.N;
    if(L.size()<2||L[0].find("# Simplified safety assumption CNF clauses")!=0||L.back()!="# End of list") e="list of clauses incomplete"; std::map<std::string,int> bit; for(int i=0;i<g.n;i++){ bit[g.names[i]]=i; bit[g.names[i]+"'"]=i+g.n; }
    std::vector<std::vector<std::pair<int,bool>>> cl; for(size_t k=1;k+1<L.size()&&e.empty();k++){ std::istringstream is(L[k]); std::string t; cl.push_back({}); while(is>>t){ bool neg=t[0]=='!'; if(neg) t.erase(0,1); if(!bit.count(t)){ e="unknown literal "+t; break; } cl.back().push_back({bit[t],!neg}); } }
    auto conj=[&](int skip,int skipLit){ TT t(M,1); for(size_t k=0;k<M;k++) for(int x=0;x<(int)cl.size()&&t[k];x++){ if(x==skip&&skipLit<0) continue; bool o=false; for(int y=0;y<(int)cl[x].size();y++){ if(x==skip&&y==skipLit) continue; if((bool)(k>>cl[x][y].first&1)==cl[x][y].second) o=true; } t[k]=o; } return t; };
    if(e.empty()){ Game h=g; h.envT=conj(-1,-1); for(uint32_t a=0;a<g.N;a++) for(uint32_t b=0;b<g.N;b++){ size_t k=a|((size_t)b<<g.n),k0=a|((size_t)(b&g.inMask())<<g.n); if(h.envT[k]!=h.envT[k0]) e="a clause talks about the next output"; if(g.envT[k]&&!h.envT[k]) e="the new assumptions are not implied by the old ones"; }
        if(e.empty()&&!realizablePlain(h,winSys(h))) e="the specification is unrealizable with the new assumptions"; if(e.empty()){ std::set<int> used; for(auto&x:cl) for(auto&y:x) used.insert(y.first); for(int b:used){ Game d=g; for(size_t k=0;k<M;k++) d.envT[k]=h.envT[k]|h.envT[k^(1ull<<b)]; if(e.empty()&&realizablePlain(d,winSys(d))) e="the proposition "+g.names[b%g.n]+(b>=g.n?"'":"")+" is not needed"; } } v.nontrivial=cl.size()>0; st.c["clauses checked"]+=cl.size(); if(cl.size()>1) st.c["results with several clauses"]++;
        for(int x=0;x<(int)cl.size()&&e.empty();x++){ for(int y=0;y<(int)cl[x].size()&&e.empty();y++) if(conj(x,y)==h.envT) e="a literal of clause "+std::to_string(x)+" can be removed without changing the assumptions"; } }
    if(!e.empty()) v.fail("wrong-weakened-assumptions",e+ctx(c,r.out));
}
static Reg r23({"S23","weakened assumptions",genWeak,checkWeak,0,"one evaluation = one computation of weakened assumptions under a seeded memory-manager schedule, checked for implication, realizability and minimality; non-trivial = at least one clause remains",REAL,STUB});

// ------------------------------------------------------------------ S24
static Case genCnf(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(30)?4:3; Spec s=randomSpec(r,g); c.disk["s.in"].data=s.text(); c.args={"--computeCNFFormOfTheSpecification","s.in"}; memSchedule(r,c.sched); return c; }
static void checkCnf(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N||oddGroups(g)) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return; std::string e; size_t M=(size_t)g.N*g.N; std::map<int,int> bit; TT sg(M,1),sa(M,1),in(M,1); std::vector<TT> lg,la; int vars=0;
    for(auto&l:splitLines(r.out)){ std::istringstream is(l); std::string h; is>>h; 
        if(h=="Input:"||h=="Output:"){ std::string n; int a=0,b=0; is>>n>>a>>b; int id=-1; for(int i=0;i<g.n;i++) if(g.names[i]==n) id=i; if(id<0||(id<g.ni)!=(h=="Input:")||!a||!b||bit.count(a)||bit.count(b)||a==b){ e="bad declaration "+l; break; } bit[a]=id; bit[b]=id+g.n; vars++; continue; }
        std::vector<std::vector<int>> cl(1); int x; bool bad=false; while(is>>x){ if(x==0) cl.push_back({}); else { if(!bit.count(abs(x))) bad=true; cl.back().push_back(x); } } if(bad||!cl.back().empty()){ e="bad line "+l; break; } cl.pop_back();
        auto lit=[&](size_t k,int y){ return (bool)(k>>bit[abs(y)]&1)==(y>0); };
        if(h=="SafetyGuarantee:"||h=="SafetyAssumption:"||h=="Init:"){ TT&t=h=="Init:"?in:h=="SafetyGuarantee:"?sg:sa; for(auto&q:cl) for(size_t k=0;k<M;k++){ bool o=false; for(int y:q) o|=lit(k,y); t[k]&=o; } st.c["clauses checked"]+=cl.size(); v.nontrivial|=cl.size()>0; }
        else if(h=="LivenessGuarantee:"||h=="LivenessAssumption:"){ TT t(M,0); for(auto&q:cl) for(size_t k=0;k<M;k++){ bool a=true; for(int y:q) a&=lit(k,y); t[k]|=a; } (h=="LivenessGuarantee:"?lg:la).push_back(t); st.c["liveness conditions checked"]++; }
        else { e="unexpected line "+l; break; } }
    if(e.empty()&&vars!=g.n) e="not all propositions are declared"; if(e.empty()&&sg!=g.sysT) e="the safety guarantees differ from those of the specification"; if(e.empty()&&sa!=g.envT) e="the safety assumptions differ from those of the specification";
    if(e.empty()) for(size_t k=0;k<M;k++) if((bool)in[k]!=(g.initEnv[k&(g.N-1)]&&g.initSys[k&(g.N-1)])){ e="the initial condition differs from the one of the specification"; break; }
    auto same=[&](const std::vector<TT>&a,const std::vector<TT>&b,const char*n){ if(a.size()!=b.size()){ e=std::string("wrong number of ")+n; return; } for(size_t i=0;i<a.size()&&e.empty();i++){ std::vector<std::vector<Edge>> gr(g.N); std::vector<int> all; for(uint32_t x=0;x<g.N;x++){ all.push_back(x); for(uint32_t y=0;y<g.N;y++){ size_t k=x|((size_t)y<<g.n); gr[x].push_back({(int)y,(uint64_t)a[i][k]|(uint64_t)b[i][k]<<1}); } } if(badLasso(gr,all,1,2)||badLasso(gr,all,2,1)) e=std::string(n)+" "+std::to_string(i)+" holds infinitely often on other runs than the one of the specification"; } };
    if(e.empty()) same(lg,g.G,"liveness guarantees"); if(e.empty()) same(la,g.A,"liveness assumptions");
    if(!e.empty()) v.fail("cnf-not-equivalent",e+ctx(c,r.out));
}
static Reg r24({"S24","CNF form",genCnf,checkCnf,0,"one evaluation = one conversion to CNF under a seeded memory-manager schedule, compared clause by clause with the truth tables of the specification; liveness by exact comparison of infinite runs; non-trivial = at least one clause",REAL,STUB});
}
