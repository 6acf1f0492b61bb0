#include "game.h"
#include <sstream>
#include <algorithm>
namespace dst {
std::string trim(const std::string&s){ size_t a=s.find_first_not_of(" \t\r\n\v\f"),b=s.find_last_not_of(" \t\r\n\v\f"); return a==std::string::npos?"":s.substr(a,b-a+1); }
std::vector<std::string> splitLines(const std::string&s){ std::vector<std::string> v; std::string c; for(char ch:s){ if(ch=='\n'){ v.push_back(c); c.clear(); } else c+=ch; } if(!c.empty()) v.push_back(c); return v; }
std::string Spec::lines(const char *h,const std::vector<std::string>&v) const { std::string s="["+std::string(h)+"]\n"; for(auto&x:v) s+=x+"\n"; return s+"\n"; }
std::string Spec::text() const {
    std::string s=lines("INPUT",in);
    if(fast.empty()) s+=lines("OUTPUT",out);
    else { std::vector<std::string> slow; for(auto&o:out) if(std::find(fast.begin(),fast.end(),o)==fast.end()) slow.push_back(o); s+=lines("OUTPUT_F",fast)+lines("OUTPUT_S",slow); }
    return s+lines("ENV_INIT",initEnv)+lines("SYS_INIT",initSys)+lines("ENV_TRANS",envTrans)+lines("SYS_TRANS",sysTrans)+lines("ENV_LIVENESS",envLive)+lines("SYS_LIVENESS",sysLive);
}
bool parseSpecText(const std::string &txt,Spec &s,std::string &err){
    std::vector<std::string>*cur=nullptr; bool fastSec=false;
    for(auto l0:splitLines(txt)){ std::string l=trim(l0); if(l.empty()||l[0]=='#') continue;
        if(l[0]=='['){ fastSec=false; if(l=="[INPUT]")cur=&s.in; else if(l=="[OUTPUT]"||l=="[OUTPUT_S]")cur=&s.out; else if(l=="[OUTPUT_F]"){cur=&s.out;fastSec=true;} else if(l=="[ENV_INIT]")cur=&s.initEnv; else if(l=="[SYS_INIT]")cur=&s.initSys; else if(l=="[ENV_TRANS]")cur=&s.envTrans; else if(l=="[SYS_TRANS]")cur=&s.sysTrans; else if(l=="[ENV_LIVENESS]")cur=&s.envLive; else if(l=="[SYS_LIVENESS]")cur=&s.sysLive; else { err="section "+l; return false; } }
        else { if(!cur){ err="no section"; return false; } cur->push_back(l); if(fastSec) s.fast.push_back(l); } }
    return true;
}
struct FP { std::istringstream is; const std::map<std::string,int>&bit; int nb; std::string err;
    FP(const std::string&f,const std::map<std::string,int>&b,int n):is(f),bit(b),nb(n){}
    TT go(std::vector<TT>&mem){ std::string op; if(!(is>>op)){ err="premature end"; return TT(1u<<nb,0); }
        size_t S=(size_t)1<<nb;
        if(op=="|"||op=="&"||op=="^"){ TT a=go(mem),b=go(mem); for(size_t i=0;i<S;i++) a[i]=op=="|"?a[i]|b[i]:op=="&"?a[i]&b[i]:a[i]^b[i]; return a; }
        if(op=="!"){ TT a=go(mem); for(auto&x:a)x=!x; return a; }
        if(op=="1") return TT(S,1); if(op=="0") return TT(S,0);
        if(op=="$"){ int k; is>>k; std::vector<TT> m; for(int i=0;i<k;i++){ TT t=go(m); m.push_back(t);} if(m.empty()){err="empty buffer";return TT(S,0);} return m.back(); }
        if(op=="?"){ size_t k; is>>k; if(k>=mem.size()){err="bad recall";return TT(S,0);} return mem[k]; }
        auto it=bit.find(op); if(it==bit.end()){ err="unknown "+op; return TT(S,0); }
        TT t(S); for(size_t i=0;i<S;i++) t[i]=(i>>it->second)&1; return t; } };
bool evalFormula(const std::string &f,const std::map<std::string,int> &bit,int nb,TT &out,std::string &err){ FP p(f,bit,nb); std::vector<TT> m; out=p.go(m); std::string rest; if(p.err.empty() && (p.is>>rest)) p.err="stray "+rest; err=p.err; return err.empty(); }
bool makeGame(const Spec &s,Game &g,std::string &err){
    g=Game(); g.ni=s.in.size(); g.no=s.out.size(); g.n=g.ni+g.no; g.N=1u<<g.n; std::map<std::string,int> pre,all;
    for(auto&x:s.in) g.names.push_back(x); for(auto&x:s.out) g.names.push_back(x);
    for(int i=0;i<g.n;i++){ pre[g.names[i]]=i; all[g.names[i]]=i; all[g.names[i]+"'"]=i+g.n; }
    g.initEnv.assign(g.N,1); g.initSys.assign(g.N,1); size_t M=(size_t)g.N*g.N; g.envT.assign(M,1); g.sysT.assign(M,1); TT t;
    for(auto&f:s.initEnv){ if(!evalFormula(f,pre,g.n,t,err)) return false; for(uint32_t i=0;i<g.N;i++) g.initEnv[i]&=t[i]; }
    for(auto&f:s.initSys){ if(!evalFormula(f,pre,g.n,t,err)) return false; for(uint32_t i=0;i<g.N;i++) g.initSys[i]&=t[i]; }
    for(auto&f:s.envTrans){ if(!evalFormula(f,all,2*g.n,t,err)) return false; for(size_t i=0;i<M;i++) g.envT[i]&=t[i]; }
    for(auto&f:s.sysTrans){ if(!evalFormula(f,all,2*g.n,t,err)) return false; for(size_t i=0;i<M;i++) g.sysT[i]&=t[i]; }
    for(auto&f:s.envLive){ if(!evalFormula(f,all,2*g.n,t,err)) return false; g.A.push_back(t); }
    for(auto&f:s.sysLive){ if(!evalFormula(f,all,2*g.n,t,err)) return false; g.G.push_back(t); }
    if(g.A.empty()) g.A.push_back(TT(M,1)); if(g.G.empty()) g.G.push_back(TT(M,1));
    return true;
}
// System can enforce from s that the next transition is in T (or the environment breaks its own safety first).
static std::vector<uint8_t> cox(const Game&g,const TT&T){
    std::vector<uint8_t> r(g.N,0); uint32_t I=1u<<g.ni,O=1u<<g.no;
    for(uint32_t s=0;s<g.N;s++){ bool all=true; for(uint32_t i=0;i<I&&all;i++){ if(!g.envOK(s,i)) continue; bool ex=false; for(uint32_t o=0;o<O&&!ex;o++){ uint32_t t=i|(o<<g.ni); ex=T[s|(t<<g.n)]&&g.sysOK(s,t); } all=ex; } r[s]=all; }
    return r;
}
std::vector<uint8_t> winSys(const Game &g){
    std::vector<uint8_t> Z(g.N,1); size_t M=(size_t)g.N*g.N; TT T(M);
    for(;;){
        std::vector<uint8_t> newZ(g.N,1);
        for(auto&G:g.G){
            std::vector<uint8_t> Y(g.N,0);
            for(;;){
                std::vector<uint8_t> newY=Y;
                for(auto&A:g.A){
                    std::vector<uint8_t> X(g.N,1);
                    for(;;){
                        for(uint32_t t=0;t<g.N;t++) for(uint32_t s=0;s<g.N;s++){ size_t k=s|((size_t)t<<g.n); T[k]=(G[k]&&Z[t])||Y[t]||(!A[k]&&X[t]); }
                        auto X2=cox(g,T); if(X2==X) break; X=X2;
                    }
                    for(uint32_t s=0;s<g.N;s++) newY[s]|=X[s];
                }
                if(newY==Y) break; Y=newY;
            }
            for(uint32_t s=0;s<g.N;s++) newZ[s]&=Y[s];
        }
        if(newZ==Z) break; Z=newZ;
    }
    return Z;
}
bool realizablePlain(const Game &g,const std::vector<uint8_t>&w){
    for(uint32_t i=0;i<(1u<<g.ni);i++){ if(!g.initEnv[i]) continue; bool ok=false; for(uint32_t o=0;o<(1u<<g.no);o++){ uint32_t s=i|(o<<g.ni); if(g.initSys[s]&&w[s]) ok=true; } if(!ok) return false; }
    return true;
}
bool realizableRobotics(const Game &g,const std::vector<uint8_t>&w){ for(uint32_t s=0;s<g.N;s++) if(g.initEnv[s]&&g.initSys[s]&&!w[s]) return false; return true; }
std::string randFormula(Rng &r,const std::vector<std::string>&v,int d){
    if(v.empty()) return r.chance(50)?"1":"1";
    if(d<=0||r.chance(25)){ if(r.chance(3)) return r.chance(50)?"0":"1"; std::string x=v[r.below(v.size())]; return r.chance(45)?"! "+x:x; }
    switch(r.below(8)){ case 0:case 1: return "& "+randFormula(r,v,d-1)+" "+randFormula(r,v,d-1); case 2:case 3:case 4: return "| "+randFormula(r,v,d-1)+" "+randFormula(r,v,d-1); case 5: return "^ "+randFormula(r,v,d-1)+" "+randFormula(r,v,d-1);
      case 6: return "! "+randFormula(r,v,d-1);
      default: return "$ 3 "+randFormula(r,v,d-1)+" "+(r.chance(50)?"! ? 0":"| ? 0 "+randFormula(r,v,0))+" "+(r.chance(50)?"& ? 1 ":"^ ? 0 ")+randFormula(r,v,d-1); }
}
static std::string implies(const std::string&a,const std::string&b){ return "| ! "+a+" "+b; }
static std::string iff(const std::string&a,const std::string&b){ return "! ^ "+a+" "+b; }
Spec randomSpec(Rng &r,const GenOpt &o){
    Spec s; int ni,no; do { ni=r.range(o.minIn,o.maxIn); no=r.range(o.minOut,o.maxOut);} while(ni+no>o.maxBits||ni+no<1);
    const char *nm[]={"a","b","c","d","e","f"}; const char *on[]={"x","y","z","u","v","w"};
    for(int i=0;i<ni;i++) s.in.push_back(nm[i]); for(int i=0;i<no;i++) s.out.push_back(on[i]);
    std::vector<std::string> pre=s.in,inN,outN,preE,all; pre.insert(pre.end(),s.out.begin(),s.out.end());
    for(auto&x:s.in) inN.push_back(x+"'"); for(auto&x:s.out) outN.push_back(x+"'");
    preE=pre; preE.insert(preE.end(),inN.begin(),inN.end()); all=preE; all.insert(all.end(),outN.begin(),outN.end());
    if(!o.trivialInit){
        if(ni&&r.chance(40)) s.initEnv.push_back(randFormula(r,s.in,r.below(2)));
        if(r.chance(50)) s.initSys.push_back(randFormula(r,r.chance(60)?s.out:pre,r.below(3)));
        if(r.chance(30)) s.initSys.push_back(randFormula(r,s.out,0));
    }
    // environment safety
    if(ni) for(int k=r.below(3);k>0;k--) switch(r.below(4)){
        case 0: s.envTrans.push_back(implies(randFormula(r,pre,1),randFormula(r,inN,0))); break;
        case 1: s.envTrans.push_back(implies(randFormula(r,pre,1),iff(s.in[r.below(ni)],inN[r.below(ni)]))); break;
        case 2: s.envTrans.push_back("| "+randFormula(r,inN,0)+" "+randFormula(r,preE,1)); break;
        default: s.envTrans.push_back(randFormula(r,preE,2)); }
    // system safety
    for(int k=r.range(0,3);k>0;k--) if(no==0) s.sysTrans.push_back(randFormula(r,all,2)); else switch(r.below(7)){
        case 0: s.sysTrans.push_back(implies(randFormula(r,preE,1),randFormula(r,outN,0))); break;
        case 1: { int j=r.below(no); s.sysTrans.push_back(implies(randFormula(r,preE,1),iff(s.out[j],outN[j]))); break; }
        case 2: s.sysTrans.push_back(iff(outN[r.below(no)],randFormula(r,preE,1))); break;
        case 3: if(no>1){ int i=r.below(no),j=r.below(no); s.sysTrans.push_back("! & "+outN[i]+" "+(i==j?randFormula(r,preE,1):outN[j])); break; } /*fallthrough*/
        case 4: { int j=r.below(no); s.sysTrans.push_back("| "+iff(s.out[j],outN[j])+" "+randFormula(r,preE,1)); break; }
        case 5: if(no>1){ int i=r.below(no),j=r.below(no); if(i!=j){ s.sysTrans.push_back("| "+iff(s.out[i],outN[i])+" "+iff(s.out[j],outN[j])); break; } } /*fallthrough*/
        default: s.sysTrans.push_back("| "+randFormula(r,all,1)+" "+randFormula(r,outN,0)); }
    auto live=[&](bool sys){ switch(r.below(5)){ case 0: return randFormula(r,pre,0); case 1: return randFormula(r,sys||ni==0?s.out:s.in,0); case 2: return randFormula(r,pre,1); case 3: return o.postLive?randFormula(r,all,2):randFormula(r,pre,2); default: return o.postLive?randFormula(r,all,1):randFormula(r,pre,1);} };
    for(int k=r.below(o.maxA+1);k>0;k--) s.envLive.push_back(live(false));
    for(int k=r.below(o.maxG+1);k>0;k--) s.sysLive.push_back(live(true));
    return s;
}
uint64_t gameHash(const Game &g){ uint64_t h=mix64(g.ni*16+g.no); auto f=[&](const TT&t){ for(size_t i=0;i<t.size();i++) h=(h^t[i])*0x100000001b3ULL; h=mix64(h); }; f(g.initEnv); f(g.initSys); f(g.envT); f(g.sysT); for(auto&t:g.A) f(t); for(auto&t:g.G) f(t); return h; }
std::string valStr(const Game&g,uint32_t v){ std::string s; for(int i=0;i<g.n;i++){ if(i) s+=" "; s+=g.names[i]+"="+((v>>i&1)?"1":"0"); } return s; }

bool badLasso(const std::vector<std::vector<Edge>>&g,const std::vector<int>&init,uint64_t must,uint64_t avoid){
    int n=g.size(); std::vector<char> reach(n,0); std::vector<int> st; for(int i:init) if(!reach[i]){ reach[i]=1; st.push_back(i); }
    while(!st.empty()){ int v=st.back(); st.pop_back(); for(auto&e:g[v]) if(!reach[e.to]){ reach[e.to]=1; st.push_back(e.to);} }
    // SCCs (iterative Tarjan) of the subgraph of edges that avoid `avoid`
    std::vector<int> idx(n,-1),low(n,0),comp(n,-1),stk; std::vector<char> on(n,0); int c=0,nc=0;
    for(int r=0;r<n;r++) if(reach[r]&&idx[r]<0){
        std::vector<std::pair<int,size_t>> call; call.push_back({r,0}); idx[r]=low[r]=c++; stk.push_back(r); on[r]=1;
        while(!call.empty()){ int v=call.back().first; size_t &i=call.back().second; bool pushed=false;
            while(i<g[v].size()){ const Edge&e=g[v][i++]; if(e.lab&avoid) continue; int w=e.to; if(idx[w]<0){ idx[w]=low[w]=c++; stk.push_back(w); on[w]=1; call.push_back({w,0}); pushed=true; break; } else if(on[w]) low[v]=std::min(low[v],idx[w]); }
            if(pushed) continue;
            if(low[v]==idx[v]){ int w; do{ w=stk.back(); stk.pop_back(); on[w]=0; comp[w]=nc; }while(w!=v); nc++; }
            call.pop_back(); if(!call.empty()){ int u=call.back().first; low[u]=std::min(low[u],low[v]); } } }
    std::vector<uint64_t> seen(nc,0); std::vector<char> has(nc,0);
    for(int v=0;v<n;v++) if(reach[v]) for(auto&e:g[v]) if(!(e.lab&avoid)&&comp[v]==comp[e.to]){ has[comp[v]]=1; seen[comp[v]]|=e.lab; }
    for(int k=0;k<nc;k++) if(has[k]&&(seen[k]&must)==must) return true;
    return false;
}
}
