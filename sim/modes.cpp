#include "modes.h"
namespace dst {
const char *REAL="slugs main/option dispatch/parser/synthesis/extraction and all of CUDD+dddmp run real code; file system, standard streams, heap, clock and rand() are simulated";
const char *STUB="environment of the synthesised controller and the reference game solver are models";
std::vector<std::string> words(const std::string&s){ std::vector<std::string> v; std::string c; for(char ch:s+" "){ if(ch==' '){ if(!c.empty()) v.push_back(c); c.clear(); } else c+=ch; } return v; }
bool has(const Case&c,const char*o){ return std::find(c.args.begin(),c.args.end(),o)!=c.args.end(); }
void makeFastSlow(Rng&r,Spec&s){ s.fast.clear(); for(auto&o:s.out) if(r.chance(50)) s.fast.push_back(o); if(s.fast.empty()) s.fast.push_back(s.out[r.below(s.out.size())]);
    // the tool numbers variables in file order: fast outputs first
    std::vector<std::string> o=s.fast; for(auto&x:s.out) if(std::find(s.fast.begin(),s.fast.end(),x)==s.fast.end()) o.push_back(x); s.out=o; }
std::string randomCostFile(Rng&r,const Spec&s){
    std::string t; const char*f[]={"1 1 <","1 1 >","0 1 <","1 0 >","0.5 2 <","3 0.25 >"}; t=f[r.below(6)]; t+="\n";
    std::vector<std::string> all; for(auto&x:s.in){ all.push_back(x); all.push_back(x+"'"); } for(auto&x:s.out){ all.push_back(x); all.push_back(x+"'"); }
    int k=r.below(4); std::string sp=all[r.below(all.size())]; const char*costs[]={"1","2","0.5","3","1.5"}; int c0=r.below(5);
    if(r.chance(10)) t+="# comment\n";
    if(k==1) t+=std::string(costs[c0])+" "+randFormula(r,all,1)+"\n";
    if(k>=2){ t+=std::string(costs[c0])+" & "+sp+" "+randFormula(r,all,1)+"\n"; t+=std::string(costs[k==2?(c0+1)%5:c0])+" & ! "+sp+" "+randFormula(r,all,1)+"\n"; }
    return t;
}
static std::string bits(Rng&r,size_t n,const char*alpha){ std::string s; size_t k=strlen(alpha); for(size_t i=0;i<n;i++) s+=alpha[r.below(k)]; return s; }
static std::string ints(Rng&r,size_t n){ std::string s; for(size_t i=0;i<n;i++) s+=(r.chance(50)?"0\n":"1\n"); return s; }
void interactiveScript(Rng&r,Case&c,const Spec&s,int len,int garbage){
    std::string t; size_t ni=s.in.size(),n=ni+s.out.size();
    for(int i=0;i<len;i++){
        if(r.chance(garbage)){ switch(r.below(7)){ case 0: t+="\n"; break; case 1: t+=bits(r,1+r.below(12),"abcXYZ01 ")+"\n"; break; case 2: t+="SETPOS\n"+bits(r,1+r.below(6),"01x \n")+"\n"; break; case 3: t+="XSTRATEGYTRANSITION\n"+bits(r,r.below(3*n),"01.z")+"\n"; break; case 4: t+="MOVE\n"+std::string(r.chance(50)?"x":"99999999999999999999")+"\n"; break; case 5: { std::string z; for(int k=r.range(1,20);k>0;k--) z+=(char)r.below(256); t+=z+"\n"; break; } default: t+="CHECKTRANS\n1\n0\n7\n-3\nq\n"; } continue; }
        switch(r.below(13)){
        case 0: t+="STARTPOS\n"; break;
        case 1: t+="CHECKTRANS\n"+ints(r,2*n); break;
        case 2: t+="SETPOS\n"+ints(r,n); break;
        case 3: t+="MOVE\n"+std::to_string(r.below(std::max<size_t>(1,s.sysLive.size())))+"\n"+ints(r,ni); break;
        case 4: case 5: t+="XGETINIT\nXMAKETRANS\n"+bits(r,ni,"01")+"\n"; break;
        case 6: t+="XMAKETRANSRANDOM\n"+bits(r,ni,"01")+"\n"; break;
        case 7: t+="XPRINTINPUTS\nXPRINTOUTPUTS\n"; break;
        case 8: t+="XGETNOFLIVENESSPROPERTIES\n"; break;
        case 9: t+="XGETINIT\n"; break;
        case 10: t+="XCOMPLETEINIT\n"+bits(r,n,"01...")+"\n"; break;
        case 11: t+="XSTRATEGYTRANSITION\n"+bits(r,n,"01")+"\n"+bits(r,n,"01....")+"\n"+std::to_string(r.below(std::max<size_t>(1,s.envLive.size())))+"\n"+std::to_string(r.below(std::max<size_t>(1,s.sysLive.size())))+"\n"; break;
        default: t+="xmaketrans\n"+bits(r,ni,"01")+"\n"; } }
    if(r.chance(70)) t+=r.chance(50)?"QUIT\n":" exit \n";
    c.par["stdin"]=t;
}
Job clientJob(const Case&c){ Job j=jobOf(c); auto it=c.par.find("stdin"); if(it!=c.par.end()){ auto s=std::make_shared<std::pair<std::string,size_t>>(it->second,0); size_t chunk=(size_t)c.pl("chunk",64); j.client=[s,chunk](const std::string&,std::string&nx){ if(s->second>=s->first.size()) return false; nx=s->first.substr(s->second,chunk); s->second+=nx.size(); return true; }; } return j; }

static Spec pickSpec(Rng&r,const GenOpt&g,bool wantReal){ Spec s; for(int k=0;k<10;k++){ s=randomSpec(r,g); if(!wantReal) return s; Game gm; std::string e; if(makeGame(s,gm,e)){ auto w=winSys(gm); if(realizablePlain(gm,w)) return s; } } return s; }
void groupNames(Rng&r,Spec&s){ std::map<std::string,std::string> ren; for(int h=0;h<2;h++){ auto&v=h?s.out:s.in; if(v.size()<2||!r.chance(70)) continue; size_t k=2+(v.size()>2&&r.chance(40)); if(v.size()>3&&r.chance(60)) k=4; size_t a=r.below(v.size()-k+1); std::string p=h?"q":"p"; long lo=r.below(4),hi=lo+(1<<k)-1-(r.chance(50)?r.below(2):0); for(size_t i=0;i<k;i++){ std::string nn=i?p+"@"+std::to_string(i):p+"@0."+std::to_string(lo)+"."+std::to_string(hi); ren[v[a+i]]=nn; v[a+i]=nn; } }
    if(r.chance(8)){ auto&v=s.in.empty()||r.chance(60)?s.out:s.in; if(!v.empty()&&v[0].find('@')==std::string::npos){ ren[v[0]]="r@"; v[0]="r@"; } }   // a name of its own that only looks similar
    for(auto*l:{&s.initEnv,&s.initSys,&s.envTrans,&s.sysTrans,&s.envLive,&s.sysLive}) for(auto&f:*l){ std::string o; for(auto&t:words(f)){ bool pr=t.back()=='\''; auto it=ren.find(pr?t.substr(0,t.size()-1):t); if(!o.empty()) o+=" "; o+=it==ren.end()?t:it->second+(pr?"'":""); } f=o; } }
void addWorkload(Rng&r,Case&c,int which,const GenOpt&g0,bool wantReal){
    GenOpt g=g0; std::vector<int> ks; for(int b=0;b<8;b++) if(which>>b&1) ks.push_back(1<<b);
    int k=ks[r.below(ks.size())];
    if(k==W_MOTION){ motionWorkload(r,c); return; }
    if(k==W_ESTIM){ estimatorWorkload(r,c,5); return; }
    Spec s=pickSpec(r,g,wantReal); std::vector<std::string> o; bool out=false;
    std::string robotics=r.chance(25)?" --sysInitRoboticsSemantics":"";
    if(k==W_PLAIN){ static const char*v[]={"","--fixedPointRecycling","--biasForAction","--cooperativeGR1Strategy","--counterStrategy"}; std::string m=v[r.below(5)]; o=words(m+robotics); }
    else if(k==W_OUTFILE||k==W_FASTSLOW||k==W_COST){
        static const char*ex[]={"--explicitStrategy","--explicitStrategy --jsonOutput","--symbolicStrategy","--simpleSymbolicStrategy","--extractExplicitPermissiveStrategy","--counterStrategy"};
        int e=r.below(k==W_OUTFILE?6:5); std::string m=ex[e];
        if(e<4&&r.chance(25)) m+=" --simpleRecovery";
        if(k==W_OUTFILE&&e!=5){ int v=r.below(6); if(v==0&&e!=4) m+=" --cooperativeGR1Strategy"; else if(v==1) m+=" --biasForAction"; else if(v==2) m+=" --fixedPointRecycling"; }
        if(k==W_FASTSLOW){ m+=" --IROSfastslow"; makeFastSlow(r,s); }
        if(k==W_COST){ if(e==4) robotics=""; m+=" --twoDimensionalCost"; c.disk["cost.txt"].data=randomCostFile(r,s); if(e==4) m="--extractExplicitPermissiveStrategy --twoDimensionalCost"; }
        o=words(m+robotics); out=(e==2||e==3)||r.chance(65);
    }
    else if(k==W_INTERACTIVE){ static const char*v[]={"","--biasForAction","--fixedPointRecycling","--cooperativeGR1Strategy"}; o=words(std::string("--interactiveStrategy ")+v[r.below(4)]); interactiveScript(r,c,s,r.range(1,10),0); }
    else if(k==W_ANALYSIS){ static const char*v[]={"--analyzeAssumptions","--analyzeInitialPositions","--analyzeInitialPositions --restrictToReachableStates","--analyzeInterleaving","--analyzeSafetyLivenessInteraction","--computeAbstractWinningTrace","--computeCNFFormOfTheSpecification","--computeInterestingRunOfTheSystem","--computeWeakenedSafetyAssumptions"}; o=words(v[r.below(9)]); if(r.chance(35)) groupNames(r,s); }
    c.args=o; c.args.push_back("s.in"); if(k==W_COST) c.args.push_back("cost.txt"); if(out) c.args.push_back("o.out"); c.disk["s.in"].data=s.text();
}
}
