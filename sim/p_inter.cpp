// S05 interactive closed loop with an adaptive adversarial client, S06 hostile bytes on standard input, S13 analyzeInterleaving
#include "modes.h"
#include <sstream>
#include <memory>
namespace dst {
static uint64_t labels(const Game&g,uint32_t s,uint32_t t){ uint64_t lab=0; size_t k=s|((size_t)t<<g.n); for(size_t i=0;i<g.A.size();i++) if(g.A[i][k]) lab|=1ull<<i; for(size_t j=0;j<g.G.size();j++) if(g.G[j][k]) lab|=1ull<<(32+j); return lab; }
// ------------------------------------------------------------------ S05
struct Session {
    Game g; bool real; std::vector<uint8_t> w; Rng r; long left; int chunkPct; int style; std::string pending; size_t prev=0; bool started=false,ended=false;
    std::string viol,log; std::map<std::string,uint64_t> cnt;
    std::function<void(const std::string&)> expect;           // checks the response to the command under way
    bool posKnown=false; uint32_t pos=0; int goal=0;          // state of the session as far as XMAKETRANS/MOVE are concerned
    int sj=0,si=0; uint32_t sq=0; bool sKnown=false;          // walk of XSTRATEGYTRANSITION
    int mj=0; struct Flip { bool on=false,success=false; uint32_t q=0; int i=0,j=0; std::string f; } flip; bool everSet=false;
    std::map<std::pair<uint32_t,int>,int> id; std::vector<std::vector<Edge>> gr; std::map<std::pair<int,uint32_t>,int> tried;
    Session(uint64_t seed):r(seed){}
    int node(uint32_t q,int j){ auto k=std::make_pair(q,j); auto it=id.find(k); if(it!=id.end()) return it->second; int n=gr.size(); id[k]=n; gr.push_back({}); return n; }
    void edge(uint32_t q,int j,uint32_t t,int j2){ int a=node(q,j),b=node(t,j2); for(auto&e:gr[a]) if(e.to==b) return; gr[a].push_back({b,labels(g,q,t)}); cnt["distinct closed-loop edges observed"]++; }
    void bad(const std::string&m){ if(viol.empty()) viol=m; }
    std::string bits(uint32_t v,int a,int n){ std::string s; for(int i=a;i<a+n;i++) s+=(v>>i&1)?'1':'0'; return s; }
    uint32_t pickW(){ std::vector<uint32_t> c; for(uint32_t q=0;q<g.N;q++) if(w[q]) c.push_back(q); return c.empty()?g.N:c[r.below(c.size())]; }
    uint32_t pickInput(uint32_t q,int j){ std::vector<uint32_t> c,all; for(uint32_t i=0;i<(1u<<g.ni);i++){ if(g.envOK(q,i)){ all.push_back(i); if(!tried.count({node(q,j),i})) c.push_back(i); } } if(r.chance(12)||all.empty()) return r.below(1u<<g.ni); if(c.empty()) c=all; uint32_t i=c[r.below(c.size())]; tried[{node(q,j),i}]=1; return i; }
    std::string list(uint64_t lab,int sh,int n){ std::string s; for(int i=0;i<n;i++) if(lab>>(sh+i)&1){ if(!s.empty()) s+=", "; s+=std::to_string(i); } return s.empty()?"none":s; }
    static std::string after(const std::string&t,const std::string&k,size_t from=0){ size_t p=t.find(k,from); if(p==std::string::npos) return "<missing>"; p+=k.size(); return t.substr(p,t.find('\n',p)-p); }
    void safeMove(uint32_t q,uint32_t t,const std::string&who){ if(!g.sysOK(q,t)) bad(who+" breaks the system safety guarantee: "+valStr(g,q)+" -> "+valStr(g,t)); else if(!w[t]) bad(who+" moves to a losing position: "+valStr(g,q)+" -> "+valStr(g,t)); }
    bool stepChosen(const std::string&x,uint32_t q,int j){ return false; }
    // ---- commands
    std::string cmdInit(){ std::vector<uint32_t> c; for(uint32_t q=0;q<g.N;q++) if(g.initEnv[q]&&g.initSys[q]&&w[q]) c.push_back(q); if(c.empty()) return "XPRINTINPUTS\n";
        expect=[this](const std::string&x){ uint32_t v=0; if(!parsePos(x,v,goal)||goal!=0){ bad("unexpected answer to XGETINIT: "+x); return; } if(!g.initEnv[v]||!g.initSys[v]||!w[v]) bad("XGETINIT answers a position that is not initial or not winning: "+valStr(g,v)); pos=v; posKnown=true; cnt["initial positions requested"]++; }; return "XGETINIT\n"; }
    bool parsePos(const std::string&x,uint32_t&v,int&j){ std::string y=trim(x); if(y.size()<(size_t)g.n+2||y[g.n]!=',') return false; v=0; for(int i=0;i<g.n;i++){ if(y[i]=='1') v|=1u<<i; else if(y[i]!='0') return false; } char*e; j=strtol(y.c_str()+g.n+1,&e,10); return e!=y.c_str()+g.n+1&&!*e; }
    std::string cmdMake(bool rnd){ if(!real) return cmdCheck(); uint32_t q=pos; int j=goal; uint32_t in=posKnown?pickInput(q,j):r.below(1u<<g.ni);
        expect=[this,q,j,in,rnd](const std::string&x){ std::string who=rnd?"XMAKETRANSRANDOM":"XMAKETRANS"; bool legal=posKnown&&g.envOK(q,in); if(!legal){ if(trim(x)!="ERROR") bad(who+" accepts an input that the environment may not choose: "+x); cnt["illegal inputs rejected"]++; return; }
            if(!w[q]){ // position set by the client that cannot be won: a move is optional, a wrong one is not allowed
                uint32_t t; int j2; if(trim(x)=="ERROR"){ cnt["moves refused in losing positions"]++; return; } if(!parsePos(x,t,j2)) { bad("unexpected answer to "+who+": "+x); return; } if((t&g.inMask())!=in||!g.sysOK(q,t)) bad(who+" answers a move that does not exist: "+valStr(g,q)+" -> "+valStr(g,t)); pos=t; goal=j2; return; }
            uint32_t t; int j2; if(!parsePos(x,t,j2)||j2<0||j2>=(int)g.G.size()){ bad("unexpected answer to "+who+" for the allowed input "+std::to_string(in)+" in "+valStr(g,q)+": "+x); return; }
            if((t&g.inMask())!=in) bad(who+" does not take over the given input"); safeMove(q,t,who); edge(q,j,t,j2); pos=t; goal=j2; cnt["moves of the controller"]++; };
        return std::string(r.chance(10)?(rnd?" xmaketransrandom ":"XMakeTrans\t"):(rnd?"XMAKETRANSRANDOM":"XMAKETRANS"))+"\n"+bits(in,0,g.ni)+(r.chance(80)||g.ni==0?"\n":"\n\n"); }
    std::string ints(uint32_t v,int a,int n){ std::string s; for(int i=a;i<a+n;i++) s+=(v>>i&1)?(r.chance(2)?"2\n":r.chance(1)?"-1\n":"1\n"):"0\n"; return s; }
    std::string cmdStart(){ bool any=false; for(uint32_t q=0;q<g.N;q++) any|=g.initEnv[q]&&g.initSys[q]&&w[q]; if(!any) return cmdCheck();
        expect=[this](const std::string&x){ uint32_t v=0; for(int k=0;k<g.n;k++){ std::string y=after(x," - "+g.names[k]+": "); if(y=="1") v|=1u<<k; else if(y!="0"){ bad("STARTPOS does not say the value of "+g.names[k]+": "+x); return; } } if(!g.initEnv[v]||!g.initSys[v]||!w[v]) bad("STARTPOS answers a position that is not initial or not winning: "+valStr(g,v)); pos=v; posKnown=everSet=true; cnt["initial positions requested"]++; }; return "STARTPOS\n"; }
    std::string cmdCheck(){ uint32_t q=r.chance(60)?pickW():r.below(g.N); if(q>=g.N) q=0; uint32_t t=r.below(g.N);
        expect=[this,q,t](const std::string&x){ uint64_t lab=labels(g,q,t); std::string c="CHECKTRANS "+valStr(g,q)+" -> "+valStr(g,t)+" answers: "+x;
            if((x.find("The pre-position is winning.")!=std::string::npos)!=(bool)w[q]||(x.find("The pre-position is not winning.")!=std::string::npos)==(bool)w[q]) bad("wrong winning information; "+c);
            if((x.find("SATISFIES the SAFETY ASSUMPTIONS")!=std::string::npos)!=g.envOK(q,t&g.inMask())) bad("wrong assumption information; "+c); if((x.find("SATISFIES the SAFETY GUARANTEES")!=std::string::npos)!=g.sysOK(q,t)) bad("wrong guarantee information; "+c);
            if(after(x,"following liveness assumptions: ")!=list(lab,0,g.A.size())) bad("wrong list of liveness assumptions; "+c); if(after(x,"following liveness guarantees: ")!=list(lab,32,g.G.size())) bad("wrong list of liveness guarantees; "+c);
            std::string s=after(x,"in a strategy for the following goals: "); if(s=="<missing>") bad("no strategy information; "+c); else if(s!="none"&&w[q]&&g.envOK(q,t&g.inMask())){ if(real&&(!g.sysOK(q,t)||!w[t])) bad("a losing transition is reported as part of a strategy; "+c); if(!real&&g.sysOK(q,t)&&!w[t]) bad("a losing transition is reported as part of a strategy; "+c); }
            cnt["transitions checked with CHECKTRANS"]++; };
        return "CHECKTRANS\n"+ints(orderFile(q),0,g.n)+ints(orderFile(t),0,g.n); }
    uint32_t orderFile(uint32_t v){ return v; }
    std::string cmdSet(){ uint32_t q=r.chance(real?75:60)?pickW():r.below(g.N); if(q>=g.N) q=0; expect=[this,q](const std::string&x){ pos=q; posKnown=everSet=true; }; return "SETPOS\n"+ints(q,0,g.n); }
    std::string cmdMove(){ if(!everSet&&!posKnown&&r.chance(50)){ expect=[this](const std::string&x){ if(x.find("position is undefined")==std::string::npos) bad("MOVE does not say that there is no position yet: "+x); }; return "MOVE\n"; } if(!real||!posKnown||!w[pos]||!g.G.size()) return cmdCheck(); bool none=true; for(uint32_t i=0;i<(1u<<g.ni);i++) none&=!g.envOK(pos,i); uint32_t q=pos; if(r.chance(5)){ expect=[this](const std::string&x){ if(x.find("Number too large")==std::string::npos) bad("MOVE accepts a goal that does not exist: "+x); }; return "MOVE\n"+std::to_string(g.G.size()+r.below(3))+"\n"; }
        if(none){ expect=[this](const std::string&x){ if(x.find("No move possible")==std::string::npos) bad("MOVE goes on although there is no allowed input: "+x); }; return "MOVE\n0\n"; }
        int j=r.chance(80)&&mj<(int)g.G.size()?mj:r.below(g.G.size()); uint32_t in=pickInput(q,j);
        expect=[this,q,j,in](const std::string&x){ bool legal=g.envOK(q,in); if((x.find("illegal next input")==std::string::npos)!=legal) bad("MOVE "+std::string(legal?"rejects":"accepts")+" the input "+std::to_string(in)+" in "+valStr(g,q)+": "+x); if(x.find("internal error")!=std::string::npos) bad("MOVE has no answer for an allowed input in a winning position: "+x);
            if(x.find("Input not allowed here")!=std::string::npos){ if(legal) bad("MOVE rejects an allowed input: "+x); return; }
            uint32_t t=in; for(int k=g.ni;k<g.n;k++){ std::string v=after(x," - "+g.names[k]+"' = "); if(v=="1") t|=1u<<k; else if(v!="0"){ bad("MOVE does not say the value of "+g.names[k]+": "+x); return; } }
            safeMove(q,t,"MOVE"); uint64_t lab=labels(g,q,t); if(after(x,"following liveness assumptions: ")!=list(lab,0,g.A.size())||after(x,"following liveness guarantees: ")!=list(lab,32,g.G.size())) bad("MOVE reports wrong liveness goals for "+valStr(g,q)+" -> "+valStr(g,t)+": "+x);
            std::string s=" "+after(x,"in a strategy for the following goals: ")+","; if(s.find(" "+std::to_string(j)+",")==std::string::npos) bad("MOVE for goal "+std::to_string(j)+" is not part of that strategy: "+x);
            if(legal){ bool sat=lab>>(32+j)&1; mj=sat?(j+1)%g.G.size():j; edge(q,j,t,mj); } pos=t; cnt["MOVE commands answered"]++; };
        return "MOVE\n"+std::to_string(j)+"\n"+ints(in,0,g.ni); }
    // status and valuation line of the two completion commands
    std::string cmdComplete(){ std::string f; uint32_t v=r.below(g.N); int pct=r.below(4)*30; for(int i=0;i<g.n;i++) f+=r.chance(pct)?((v>>i&1)?'1':'0'):'.';
        expect=[this,f](const std::string&x){ std::vector<uint32_t> c0,c1,c2; auto fits=[&](uint32_t q){ for(int i=0;i<g.n;i++) if(f[i]!='.'&&(f[i]=='1')!=(q>>i&1)) return false; return true; };
            for(uint32_t q=0;q<g.N;q++) if(fits(q)&&g.initEnv[q]){ c0.push_back(q); bool a=real?g.initSys[q]:w[q]; if(a){ c1.push_back(q); if(real?w[q]:g.initSys[q]) c2.push_back(q); } }
            bool unforced=f.find_first_not_of('.')==std::string::npos; std::vector<std::string> L=splitLines(trim(x)); std::string st=L.empty()?"":L[0],c="XCOMPLETEINIT "+f+" answers: "+x; cnt["XCOMPLETEINIT commands answered"]++;
            std::string expSt=c0.empty()?"FAILASSUMPTIONS":c1.empty()?((real||unforced)?"FAILGUARANTEES":"FORCEDNONWINNING"):c2.empty()?(real?"FORCEDNONWINNING":"FAILGUARANTEES"):"";
            if(!expSt.empty()){ if(st!=expSt) bad("expected "+expSt+"; "+c); else if(st=="FAILGUARANTEES"){ if(L.size()<2) bad("the failing position is missing; "+c); else checkLine(L[1],f,c1.empty()?c0:c1,c0,c1.empty()?c0:c1,c1.empty()?c0:c1,c); } return; }
            checkLine(st,f,c2,c0,c1,c2,c); };
        return "XCOMPLETEINIT\n"+f+"\n"; }
    static char markOf(uint32_t i,const std::vector<uint32_t>&c){ bool z=false,o=false; for(uint32_t q:c) (q>>i&1?o:z)=true; return o&&z?'.':o?'1':'0'; }
    // line: valuation with marks; every literal must agree with some candidate of fin; marks a/A exactly where c0 forces, the next mark exactly where c1 forces (if different from c0), the last where c2 forces
    void checkLine(const std::string&line,const std::string&f,const std::vector<uint32_t>&fin,const std::vector<uint32_t>&c0,const std::vector<uint32_t>&c1,const std::vector<uint32_t>&c2,const std::string&c){
        if((int)line.size()!=g.n){ bad("malformed valuation; "+c); return; } uint32_t v=0; for(int i=0;i<g.n;i++){ char ch=line[i]; if(ch=='1'||(ch>='A'&&ch<='Z')) v|=1u<<i; else if(ch!='0'&&!(ch>='a'&&ch<='z')){ bad("malformed valuation; "+c); return; } }
        if(std::find(fin.begin(),fin.end(),v)==fin.end()) bad("the chosen valuation "+valStr(g,v)+" does not satisfy what it should; "+c);
        char m1=real?'g':'s',m2=real?'s':'g'; for(int i=0;i<g.n;i++){ char e0=markOf(i,c0),e1=markOf(i,c1),e2=markOf(i,c2); char l=tolower(line[i]); char want=e0!='.'?'a':e1!='.'?m1:e2!='.'?m2:0; if(want?l!=want:(l!='0'&&l!='1')) bad("wrong mark for "+g.names[i]+" (expected "+std::string(1,want?want:'0')+"); "+c); } }
    std::string cmdStrat(){ if(!sKnown||r.chance(12)){ sq=pickW(); if(sq>=g.N) return cmdCheck(); si=r.below(g.A.size()); sj=r.below(g.G.size()); sKnown=true; } uint32_t q=sq; int i0=si,j=sj;
        std::string f(g.n,'.'); Flip fl; if(flip.on){ fl=flip; flip.on=false; q=fl.q; i0=fl.i; j=fl.j; } bool forceOut=r.chance(25); if(real){ uint32_t in=pickInput(q,real?j:i0); for(int k=0;k<g.ni;k++) if(r.chance(92)) f[k]=(in>>k&1)?'1':'0'; } if(forceOut||(!real&&r.chance(80))){ uint32_t o=r.below(g.N); for(int k=g.ni;k<g.n;k++) if(r.chance(80)) f[k]=(o>>k&1)?'1':'0'; } if(!real&&r.chance(5)) f[0]=r.chance(50)?'0':'1'; if(fl.on) f=fl.f;
        expect=[this,q,i0,j,f,fl](const std::string&x){ std::vector<std::string> L=splitLines(trim(x)); std::string st=L.empty()?"":L[0],c="XSTRATEGYTRANSITION "+valStr(g,q)+" forced "+f+" goals "+std::to_string(i0)+"/"+std::to_string(j)+" answers: "+x; cnt["XSTRATEGYTRANSITION commands answered"]++; bool success=(int)st.size()==g.n&&st.find_first_not_of("01asgASG")==std::string::npos; if(fl.on){ cnt["marks of forced values checked by a second request"]++; if(success!=fl.success) bad(std::string(fl.success?"a value that was not marked as forced cannot be changed; ":"a value that was marked as forced can be changed; ")+c); }
            std::vector<uint32_t> c0,c1; bool onlyIn=true; for(int k=g.ni;k<g.n;k++) onlyIn&=f[k]=='.'; bool freeAll=f.find_first_not_of('.')==std::string::npos;
            for(uint32_t t=0;t<g.N;t++){ bool ok=true; for(int k=0;k<g.n;k++) if(f[k]!='.'&&(f[k]=='1')!=(t>>k&1)) ok=false; if(ok&&g.envOK(q,t&g.inMask())){ c0.push_back(t); if(g.sysOK(q,t)) c1.push_back(t); } }
            if(c0.empty()){ if(st!="FAILASSUMPTIONS") bad("expected FAILASSUMPTIONS; "+c); return; } if(st=="FAILASSUMPTIONS"){ bad("there is a transition; "+c); return; }
            if(real&&c1.empty()){ if(st!="FAILGUARANTEES") bad("expected FAILGUARANTEES; "+c); return; }
            if(st=="FAILGUARANTEES"){ if(real) bad("there is a safe transition; "+c); else cnt["system choices that lose at once"]++; if(L.size()<4) bad("incomplete answer; "+c); sKnown=false; return; }
            if(st=="FORCEDNONWINNING"){ bool must=real?onlyIn:freeAll; if(must) bad("the winner has a winning move; "+c); sKnown=false; return; }
            if(L.size()<3||(int)st.size()!=g.n){ bad("malformed answer; "+c); return; } uint32_t t=0; for(int k=0;k<g.n;k++){ char ch=st[k]; if(ch=='1'||(ch>='A'&&ch<='Z')) t|=1u<<k; else if(ch!='0'&&!(ch>='a'&&ch<='z')){ bad("malformed valuation; "+c); return; } char e0=markOf(k,c0); if((tolower(ch)=='a')!=(e0!='.')) bad("wrong mark for "+g.names[k]+"; "+c); if(real){ char e1=markOf(k,c1); if((ch=='g'||ch=='G')!=(e0=='.'&&e1!='.')) bad("wrong mark for "+g.names[k]+"; "+c); } }
            if(std::find(c1.begin(),c1.end(),t)==c1.end()) { bad("the chosen transition is not allowed or ignores the forced values; "+c); return; } if(!w[t]) bad("the winner moves to a position that it cannot win; "+c);
            uint64_t lab=labels(g,q,t); int ni=(i0+(lab>>i0&1))%g.A.size(),nj=(j+(lab>>(32+j)&1))%g.G.size(); if(atoi(L[1].c_str())!=ni||atoi(L[2].c_str())!=nj) bad("wrong goal counters (expected "+std::to_string(ni)+" "+std::to_string(nj)+"); "+c);
            if(real) edge(q,j,t,nj); else edge(q,i0,t,ni); sq=t; si=ni; sj=nj; if(r.chance(30)){ int k=r.below(g.n); if(f[k]=='.'){ flip.on=true; flip.success=st[k]=='0'||st[k]=='1'; flip.q=q; flip.i=i0; flip.j=j; flip.f=f; flip.f[k]=(t>>k&1)?'0':'1'; } } };
        return "XSTRATEGYTRANSITION\n"+bits(q,0,g.n)+"\n"+f+"\n"+std::to_string(i0)+"\n"+std::to_string(j)+"\n"; }
    std::string cmdPrint(){ int k=r.below(3); if(k==2){ expect=[this](const std::string&x){ if(trim(x)!=std::to_string(g.A.size())+"\n"+std::to_string(g.G.size())) bad("wrong number of liveness properties: "+x); }; return "XGETNOFLIVENESSPROPERTIES\n"; }
        std::string e; for(int i=k?g.ni:0;i<(k?g.n:g.ni);i++) e+=g.names[i]+"\n"; expect=[this,e](const std::string&x){ if(x.substr(0,1)!="\n"||trim(x)!=trim(e)) bad("wrong list of propositions: "+x); }; return k?"XPRINTOUTPUTS\n":"XPRINTINPUTS\n"; }
    std::string nextCommand(){ expect=nullptr; int x=r.below(100);
        if(style==0){ if(real&&!posKnown) return cmdInit(); if(x<70&&real) return cmdMake(false); if(x<74) return cmdInit(); }
        if(style==1){ if(real&&!posKnown) return cmdInit(); if(x<70&&real) return cmdMake(r.chance(80)); if(x<74) return cmdInit(); }
        if(style==2){ if(x<75||flip.on) return cmdStrat(); }
        if(style==3){ if(!posKnown&&r.chance(15)) return cmdMove(); if(!posKnown||x<10) return r.chance(15)?cmdStart():cmdSet(); if(x<75) return cmdMove(); }
        if(style==4&&x<25) return real&&r.chance(40)?cmdSet():cmdMake(false);
        switch(r.below(6)){ case 5: return r.chance(25)?cmdStart():cmdCheck(); case 0: case 1: return cmdCheck(); case 2: return cmdComplete(); case 3: return style==2||style==4?cmdStrat():cmdComplete(); default: return cmdPrint(); } }
    bool client(const std::string&seen,std::string&nx){
        if(!pending.empty()){ size_t k=1+r.below(4); nx=pending.substr(0,k); pending.erase(0,nx.size()); return true; }
        std::string resp=seen.substr(std::min(prev,seen.size())); prev=seen.size();
        if(!started){ started=true; if(resp!="> ") bad("the session does not start with a prompt: "+resp); }
        else { if(resp.size()<2||resp.compare(resp.size()-2,2,"> ")) bad("no prompt after the command "+log.substr(log.rfind("\x01")+1)+": "+resp); else { resp.resize(resp.size()-2); if(expect) expect(resp); } }
        if(!viol.empty()||left--<=0){ if(ended) return false; ended=true; nx="QUIT\n"; if(r.chance(30)) return false; return true; }
        std::string c=nextCommand(); log+="\x01"+c; if(r.chance(chunkPct)){ pending=c; return client(seen,nx); } nx=c; return true; }
    std::string report(){ // executed at the end of the simulated process
        if(viol.empty()){ std::vector<int> all; for(size_t i=0;i<gr.size();i++) all.push_back(i); 
            if(real){ for(size_t j=0;j<g.G.size();j++) if(badLasso(gr,all,(1ull<<g.A.size())-1,1ull<<(32+j))) bad("the moves of this session form a loop in which all liveness assumptions hold but guarantee number "+std::to_string(j)+" does not"); }
            else { uint64_t G=0; for(size_t j=0;j<g.G.size();j++) G|=1ull<<(32+j); if(badLasso(gr,all,G,0)) bad("the moves of this session form a loop in which all liveness guarantees hold although the environment should win"); for(size_t i=0;i<g.A.size();i++) if(badLasso(gr,all,0,1ull<<i)) bad("the moves of this session form a loop in which liveness assumption number "+std::to_string(i)+" does not hold although the environment should win"); } }
        std::string s; for(auto&x:cnt) s+="C "+std::to_string(x.second)+" "+x.first+"\n"; if(!viol.empty()) s+="V "+viol+"\n"; return s; }
};
static Case genInter(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=r.chance(20)?4:3; bool real=r.chance(70); Spec s; for(int k=0;k<14;k++){ s=randomSpec(r,g); Game gm; std::string e; if(!makeGame(s,gm,e)) continue; auto w=winSys(gm); if(realizablePlain(gm,w)==real&&(s.sysLive.size()>1||r.chance(40))) break; }
    c.disk["s.in"].data=s.text(); c.args={"--interactiveStrategy"}; int k=r.below(6); if(k==0) c.args.push_back("--biasForAction"); if(k==1) c.args.push_back("--fixedPointRecycling"); c.args.push_back("s.in"); c.par["len"]=std::to_string(r.chance(30)?r.range(5,30):r.range(40,tier?400:160)); c.par["cseed"]=std::to_string(r.next()); c.par["style"]=std::to_string(r.below(5)); c.par["chunks"]=std::to_string(r.chance(40)?r.below(60):0); memSchedule(r,c.sched,5000); return c;
}
static void checkInter(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; auto w=winSys(g); auto S=std::make_shared<Session>(strtoull(c.p("cseed","1").c_str(),0,10)); S->g=g; S->real=realizablePlain(g,w); if(!S->real) for(auto&x:w) x=!x; S->w=w; S->left=c.pl("len",20); S->chunkPct=c.pl("chunks"); S->style=c.pl("style");
    Job j=jobOf(c); j.client=[S](const std::string&seen,std::string&nx){ return S->client(seen,nx); }; j.clientReport=[S](){ return S->report(); };
    Result r=runJob(j); v.hash=mix64(r.hash^std::hash<std::string>()(r.user)); v.trace=r.trace; v.stateKey=mix64(gameHash(g)^c.pl("style")); if(!expectEnd(r,v)) return;
    if(resultLine(r.err)!=(int)S->real){ v.fail("wrong-verdict","slugs said "+std::to_string(resultLine(r.err))+", the reference says "+std::to_string(S->real)+"\n"+c.disk.at("s.in").data); return; }
    uint64_t edges=0; for(auto&l:splitLines(r.user)) if(l.size()>2&&l[0]=='C'){ char*e; uint64_t n=strtoull(l.c_str()+2,&e,10); st.c[trim(e)]+=n; if(trim(e)=="distinct closed-loop edges observed") edges=n; }
    v.nontrivial=edges>3||(c.pl("style")==4&&r.out.size()>200); size_t p=r.user.find("\nV "); std::string viol=r.user.compare(0,2,"V ")==0?r.user.substr(2):p==std::string::npos?"":r.user.substr(p+3);
    if(!viol.empty()) v.fail("session-wrong",viol+"\noptions "+join(c.args," ")+(S->real?" (realizable)":" (unrealizable)")+"\n"+c.disk.at("s.in").data+"end of the session:\n"+(r.out.size()>600?r.out.substr(r.out.size()-600):r.out));
}
static Reg r05({"S05","interactive sessions",genInter,checkInter,0,"one evaluation = one interactive session with a seeded adaptive client that plays the environment (or, if the specification is unrealizable, the system) against the tool, checks every answer as it arrives against the reference game and in the end checks all observed moves for losing loops; non-trivial = more than three distinct closed-loop moves observed or a long query session",REAL,STUB});

// ------------------------------------------------------------------ S06
static std::string garbage(Rng&r,const Spec&s){
    static const char*cmds[]={"STARTPOS","CHECKTRANS","SETPOS","MOVE","XGETINIT","XPRINTINPUTS","XPRINTOUTPUTS","XGETNOFLIVENESSPROPERTIES","XCOMPLETEINIT","XSTRATEGYTRANSITION","xmaketrans","Hello","> "}; std::string t; int n=r.range(1,12);
    for(int i=0;i<n;i++) switch(r.below(9)){ case 0: t+=std::string(cmds[r.below(13)])+(r.chance(70)?"\n":" "); break; case 1: for(int k=r.range(1,30);k>0;k--) t+=(char)r.below(256); break; case 2: t+=std::to_string((long)r.next())+"\n"; break; case 3: t+="99999999999999999999999999\n-5\n"; break; case 4: t+=std::string(r.below(300),"01. x\t\r"[r.below(7)]); break; case 5: t+=std::string(1,'\0')+"\n"; break; case 6: t+=std::string(r.chance(10)?70000:r.below(600),'A'+(char)r.below(26))+"\n"; break; case 7: t+="MOVE\n"+std::to_string(r.below(5))+(r.chance(50)?"\nq\n":"\n1 0 1 0\n"); break; default: t+="\n \n\r\n"; }
    return t;
}
static Case genGarb(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=3; Spec s; bool real=r.chance(75); for(int k=0;k<10;k++){ s=randomSpec(r,g); Game gm; std::string e; if(!makeGame(s,gm,e)) continue; if(realizablePlain(gm,winSys(gm))==real) break; } c.disk["s.in"].data=s.text(); c.args={"--interactiveStrategy","s.in"}; std::string t=garbage(r,s); std::string h; for(unsigned char ch:t){ char b[3]; snprintf(b,3,"%02x",ch); h+=b; } c.par["garbage"]=h; c.par["tail"]=std::to_string(r.chance(60)); c.par["cseed"]=std::to_string(r.next()); c.par["chunk"]=std::to_string(r.chance(50)?1+r.below(9):4096); if(r.chance(15)) c.sched.rates.push_back({D_STDIN,A_SHORT,200000,3}); if(r.chance(15)) c.sched.rates.push_back({D_STDIN,A_EINTR,100000,0}); c.sched.seed=r.next(); memSchedule(r,c.sched,1000); return c; }
static void checkGarb(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; std::string h=c.p("garbage"),t; for(size_t i=0;i+1<h.size();i+=2) t+=(char)strtol(h.substr(i,2).c_str(),0,16);
    bool real=realizablePlain(g,winSys(g)); Rng r(strtoull(c.p("cseed","1").c_str(),0,10)); bool tail=c.pl("tail"); std::string clean;
    { bool any=false; auto w=winSys(g); for(uint32_t q=0;q<g.N;q++) any|=g.initEnv[q]&&g.initSys[q]&&(w[q]!=0)==real; if(any){ clean="XGETINIT\n"; if(real) for(int k=0;k<6;k++){ clean+="XMAKETRANS\n"; for(int i=0;i<g.ni;i++) clean+=r.chance(50)?"1":"0"; clean+="\n"; } } clean+="CHECKTRANS\n"; for(int i=0;i<2*g.n;i++) clean+=r.chance(50)?"1\n":"0\n"; clean+="XPRINTINPUTS\nXCOMPLETEINIT\n"+std::string(g.n,'.')+"\n"; }
    auto go=[&](const std::string&in){ Case d=c; d.par["stdin"]=in; return runJob(clientJob(d)); };
    std::string sync="\n"; for(int i=0;i<2*g.n+8;i++) sync+="0\n";
    Result b=go(tail?t+sync+clean:t); v.hash=b.hash; v.trace=b.trace; v.stateKey=mix64(std::hash<std::string>()(t)^gameHash(g)); v.nontrivial=t.size()>4;
    std::string ctx="\nstandard input (hex) "+clip(h,400)+"\nstderr: "+clip(b.err,300)+"\n"+c.disk.at("s.in").data; 
    if(b.end!=E_RETURN&&b.end!=E_EXIT){ v.fail("session-crash","the session ended with "+b.describe()+ctx); return; }
    if(b.rc!=0){ if(b.err.find("rror")==std::string::npos) v.fail("no-error-message","non-zero exit status without an error message"+ctx); bool xm=false; std::string u; for(char ch:t) u+=toupper(ch); xm=u.find("XMAKETRANS")!=std::string::npos; if(!(xm&&!real)) v.fail("session-aborted","the session was aborted with an error: "+b.describe()+ctx); st.c["sessions ended by an error message"]++; return; }
    st.c[tail?"garbage followed by a regular session":"garbage and end of input"]++;
    if(tail){ Result a=go(clean); std::string x=a.out.size()>2?a.out.substr(2):""; std::string u; for(char ch:t+"\n") u+=toupper(ch); bool q=u.find("QUIT")!=std::string::npos||u.find("EXIT")!=std::string::npos; if(!q&&(b.out.size()<x.size()||b.out.compare(b.out.size()-x.size(),x.size(),x))) v.fail("session-poisoned","after unexpected input, regular commands are not answered as in a fresh session\nexpected: "+clip(x,500)+"\ngot: "+(b.out.size()>500?b.out.substr(b.out.size()-500):b.out)+ctx); }
}
static Reg r06({"S06","hostile session input",genGarb,checkGarb,0,"one evaluation = an interactive session fed with seeded arbitrary bytes, fragments of commands, wrong and oversized values in arbitrary chunks and cut off anywhere, or followed by a regular session that must be answered as in a fresh process; non-trivial = more than four bytes of such input",REAL,STUB});

// ------------------------------------------------------------------ S13
static std::vector<uint8_t> winBefore(const Game&g,uint32_t before){ // outputs in `before` are chosen before the input is known
    std::vector<uint8_t> Z(g.N,1); uint32_t I=1u<<g.ni,out=g.inMask()^((1u<<g.n)-1); uint32_t am=out&~before;
    auto subs=[&](uint32_t m){ std::vector<uint32_t> v; uint32_t x=0; for(;;){ v.push_back(x); x=(x-m)&m; if(!x) break; } return v; }; auto B=subs(before),A=subs(am);
    for(;;){ std::vector<uint8_t> nz(g.N,1);
        for(auto&G:g.G){ std::vector<uint8_t> Y(g.N,0); for(;;){ std::vector<uint8_t> ny=Y;
            for(auto&As:g.A){ std::vector<uint8_t> X(g.N,1); for(;;){ std::vector<uint8_t> nx(g.N,0);
                for(uint32_t s=0;s<g.N;s++) for(uint32_t b:B){ bool all=true; for(uint32_t i=0;i<I&&all;i++) if(g.envOK(s,i)){ bool ex=false; for(uint32_t a:A){ uint32_t t=i|a|b; size_t k=s|((size_t)t<<g.n); if(g.sysT[k]&&((G[k]&&Z[t])||Y[t]||(!As[k]&&X[t]))) ex=true; } all=ex; } if(all){ nx[s]=1; break; } }
                if(nx==X) break; X=nx; } for(uint32_t s=0;s<g.N;s++) ny[s]|=X[s]; }
            if(ny==Y) break; Y=ny; } for(uint32_t s=0;s<g.N;s++) nz[s]&=Y[s]; }
        if(nz==Z) break; Z=nz; }
    return Z;
}
static Case genIl(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(20)?5:4; g.minIn=1; Spec s; for(int k=0;k<10;k++){ s=randomSpec(r,g); Game gm; std::string e; if(!makeGame(s,gm,e)) continue; if(realizablePlain(gm,winSys(gm))&&s.sysTrans.size()+s.sysLive.size()>1) break; } c.disk["s.in"].data=s.text(); c.args={"--analyzeInterleaving","s.in"}; memSchedule(r,c.sched); return c; }
static void checkIl(const Case&c,Verdict&v){
    Spec s; Game g; specOf(c,"s.in",s,g); if(!g.N) return; v.stateKey=gameHash(g); Result r=run(c,v); if(!expectEnd(r,v)) return; std::string e;
    if(!realizablePlain(g,winSys(g))) e="Starting point is an unrealizable specification --> no analysis to be performed.\n";
    else { e="Starting point is a realizable specification.\n\n"; uint32_t b=0; std::string l; int n=0; for(int k=g.ni;k<g.n;k++){ auto w=winBefore(g,b|1u<<k); if(realizablePlain(g,w)){ b|=1u<<k; l+="- "+g.names[k]+"\n"; n++; } } v.nontrivial=n<g.no; st.c[n==0?"no output can be set early":n<g.no?"some outputs can be set early":"all outputs can be set early"]++;
        e+=n?"The specification stays realizable when the values of the following output signals have to be set before reading the input:\n"+l:"The specification becomes unrealizable when some output variable has to be set before the inputs are present.\n"; }
    if(r.out!=e) v.fail("wrong-interleaving","expected:\n"+e+"got:\n"+clip(r.out)+"\n"+c.disk.at("s.in").data);
}
static Reg r13({"S13","interleaving analysis",genIl,checkIl,0,"one evaluation = one simulated interleaving analysis under a seeded schedule, memory layout and fill pattern, compared with an explicit-state solver for the game in which the listed outputs are chosen before the input; non-trivial = not all outputs can be set early",REAL,STUB});
}
