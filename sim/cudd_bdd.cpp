// BDD operations with their models
#include "cuddeng.h"
namespace dst { namespace ce {
#define OP(name,w,...) {#name,w,[](E&e)__VA_ARGS__}
typedef std::vector<int> V;
static F cubeF(E&e,const V&vs,const V&ph){ F t(e.N(),1); for(size_t x=0;x<e.N();x++) for(size_t i=0;i<vs.size();i++) if((int)(x>>vs[i]&1)!=ph[i]) t[x]=0; return t; }
static bool isCube(E&e,const F&f,V&vs,V&ph){ vs.clear(); ph.clear(); if(E::isZero(f)) return false; V s=e.supp(f); size_t w=0; while(!f[w]) w++; for(int v:s){ vs.push_back(v); ph.push_back(w>>v&1); } return cubeF(e,vs,ph)==f; }
// build the diagram of a table (referenced) with ite
static DdNode*build(E&e,const F&f){ std::function<DdNode*(int,size_t)> rec=[&](int v,size_t fix)->DdNode*{ bool c=true; for(size_t x=0;x<((size_t)1<<v)&&c;x++) c=f[fix|x]==f[fix]; if(c){ DdNode*q=f[fix]?e.m->one:Cudd_Not(e.m->one); SV(Cudd_Ref(q)); return q; }
        DdNode*a=rec(v-1,fix|((size_t)1<<(v-1))); if(!a) return nullptr; DdNode*b=rec(v-1,fix); if(!b){ e.unref(a); return nullptr; } DdNode*q=S(Cudd_bddIte(e.m,e.bvars[v-1],a,b)); if(q) SV(Cudd_Ref(q)); e.unref(a); e.unref(b); return q; };
    DdNode*q=rec(e.n,0); if(!q){ e.null("a diagram built by if-then-else"); return nullptr; } F t=e.table(q); if(t!=f) e.bad("wrong-result","a diagram built by if-then-else is "+E::show(t)+" instead of "+E::show(f)); e.canon({BDD,q,t,{}}); return q; }
static H pickCube(E&e,bool pos){ V vs,ph; for(int i=0;i<e.n;i++) if(e.r.chance(40)){ vs.push_back(i); ph.push_back(pos?1:e.r.below(2)); } H h{BDD,nullptr,cubeF(e,vs,ph),{}}; h.n=build(e,h.f); if(h.n) e.keep(h); return h; }
static F sub(E&e,const F&f){ F g=e.b().f; for(size_t i=0;i<g.size();i++) g[i]=g[i]&&f[i]; return g; }
static std::vector<std::pair<F,int>> allCubes(E&e,const std::function<bool(const F&)>&ok){ std::vector<std::pair<F,int>> out; std::function<void(int,V,V)> rec=[&](int v,V vs,V ph){ if(v==e.n){ F c=cubeF(e,vs,ph); if(ok(c)) out.push_back({c,(int)vs.size()}); return; } rec(v+1,vs,ph); vs.push_back(v); ph.push_back(0); rec(v+1,vs,ph); ph.back()=1; rec(v+1,vs,ph); }; rec(0,{},{}); return out; }
static bool prime(E&e,const F&c,const F&f){ V vs,ph; if(!isCube(e,c,vs,ph)||!E::leq(c,f)) return false; for(size_t i=0;i<vs.size();i++){ V a=vs,b=ph; a.erase(a.begin()+i); b.erase(b.begin()+i); if(E::leq(cubeF(e,a,b),f)) return false; } return true; }
static void decomp(E&e,int k,DdNode**arr,const F&f,bool conj){ if(k==0){ e.null("the decomposition"); return; } F t(e.N(),conj); bool big=false; for(int i=0;i<k;i++){ F g=e.table(arr[i]); e.canon({BDD,arr[i],g,{}}); for(size_t x=0;x<t.size();x++) t[x]=conj?(t[x]&&g[x]):(t[x]||g[x]); } (void)big; for(int i=0;i<k;i++) e.unref(arr[i]); SV(free(arr)); e.need(t==f,"the decomposition does not give back the function: "+E::show(t)+" instead of "+E::show(f)); }
static std::vector<DdNode*> numVars(E&e,std::vector<V>&ix,int k,int&N){ N=std::max(1,std::min(3,e.n/k)); V p; for(int i=0;i<e.n;i++) p.push_back(i); for(int i=e.n-1;i>0;i--) std::swap(p[i],p[e.r.below(i+1)]); std::vector<DdNode*> d; ix.assign(k,{}); for(int j=0;j<k;j++) for(int i=0;i<N;i++){ ix[j].push_back(p[j*N+i]); d.push_back(e.bvars[p[j*N+i]]); } return d; }
static int num(size_t x,const V&ix){ int v=0; for(int i:ix) v=v*2+(x>>i&1); return v; }
static int limitOf(E&e){ return e.r.chance(50)?1000000:(int)e.r.below(30); }
static void limited(E&e,DdNode*q,const F&w,int lim){ if(!q&&lim<1000000){ Cudd_ErrorType c=Cudd_ReadErrorCode(e.m); if(c==CUDD_NO_ERROR||c==CUDD_TOO_MANY_NODES){ SV(Cudd_ClearErrorCode(e.m)); e.cnt["limit reached"]++; return; } } e.bdd(q,w); }
static void sound(E&e,DdNode*q,const F&lo,const F&hi){ F t; if(!e.got(q,t)) return; e.need(E::leq(lo,t)&&E::leq(t,hi),"the result "+E::show(t)+" is not between "+E::show(lo)+" and "+E::show(hi)); }
static size_t dag(DdNode*f){ std::set<DdNode*> s; std::function<void(DdNode*)> rec=[&](DdNode*g){ g=Cudd_Regular(g); if(!s.insert(g).second||cuddIsConstant(g)) return; rec(cuddT(g)); rec(cuddE(g)); }; rec(f); return s.size(); }
static V supVec(E&e,int*a){ V s; for(int i=0;i<e.n;i++) if(a[i]) s.push_back(i); SV(free(a)); return s; }
static V sorted(int*a,int k){ V s(a,a+k); SV(free(a)); std::sort(s.begin(),s.end()); return s; }

// ---- exported texts, read by own readers
static std::string slurp(const char*fn){ std::string s; FILE*f=S(fopen(fn,"r")); if(!f) return s; char buf[4096]; size_t k; while((k=S(fread(buf,1,sizeof buf,f)))>0) s.append(buf,k); SV(fclose(f)); return s; }
struct Expr { E&e; const std::string&s; const std::function<bool(const std::string&,F&)>&look; size_t p=0; bool ok=true; bool dd;     // dd: * + and a quote after the operand; otherwise & | ! (or * + !)
    void ws(){ while(p<s.size()&&(s[p]==' '||s[p]=='\n'||s[p]=='\t')) p++; }
    F atom(){ ws(); F t(e.N()); bool neg=false; while(p<s.size()&&s[p]=='!'){ neg=!neg; p++; ws(); } if(p<s.size()&&s[p]=='('){ p++; t=sum(); ws(); if(p>=s.size()||s[p]!=')') ok=false; p++; } else { size_t q=p; while(p<s.size()&&(isalnum((unsigned char)s[p])||s[p]=='_')) p++; if(!look(s.substr(q,p-q),t)) ok=false; } if(dd&&p<s.size()&&s[p]=='\''){ neg=!neg; p++; } if(neg) for(auto&x:t) x=!x; return t; }
    F term(){ F t=atom(); for(ws();ok&&p<s.size()&&(s[p]=='&'||s[p]=='*');ws()){ p++; F u=atom(); for(size_t x=0;x<t.size();x++) t[x]=t[x]&&u[x]; } return t; }
    F sum(){ F t=term(); for(ws();ok&&p<s.size()&&(s[p]=='|'||s[p]=='+');ws()){ p++; F u=term(); for(size_t x=0;x<t.size();x++) t[x]=t[x]||u[x]; } return t; } };
static bool evalText(E&e,const std::string&s,bool dd,const std::function<bool(const std::string&,F&)>&look,F&out){ Expr x{e,s,look,0,true,dd}; out=x.sum(); x.ws(); return x.ok&&x.p==s.size(); }
static std::vector<std::string> words(const std::string&l){ std::vector<std::string> w; std::string c; for(char ch:l+" "){ if(ch==' '||ch=='\t'){ if(!c.empty()) w.push_back(c); c.clear(); } else c+=ch; } return w; }
static std::vector<std::string> rows(const std::string&t){ std::vector<std::string> r; std::string c; for(char ch:t){ if(ch=='\n'){ r.push_back(c); c.clear(); } else c+=ch; } if(!c.empty()) r.push_back(c); return r; }
static void exportOp(E&e){ if(e.faultRun) return; int kind=e.r.below(5),k=1+e.r.below(3); if(kind==0) k=1; std::vector<H> hs; std::vector<DdNode*> ns; for(int i=0;i<k;i++){ hs.push_back(e.b()); ns.push_back(hs.back().n); } bool nm=e.r.chance(50),om=e.r.chance(50); int off=e.r.below(900); int sz=S(Cudd_ReadSize(e.m)); std::vector<std::string> in,on; std::vector<const char*> ip,op; for(int i=0;i<sz;i++) in.push_back("sig"+std::to_string(off+i)); for(int i=0;i<k;i++) on.push_back("out"+std::to_string(off-i)); on[0]="first"; for(auto&x:in) ip.push_back(x.c_str()); for(auto&x:on) op.push_back(x.c_str()); const char*const*ins=nm?ip.data():nullptr; const char*const*ons=om?op.data():nullptr;
    std::string text; if(kind==0){ char*c=S(Cudd_FactoredFormString(e.m,ns[0],ins)); if(!c){ e.null(); return; } text=c; SV(free(c)); } else { std::string fns=e.prefix+"dump.txt"; const char*fn=fns.c_str(); FILE*fp=S(fopen(fn,"w")); if(!fp){ e.bad("unexpected-failure","no dump file"); } int q=kind==1?S(Cudd_DumpFactoredForm(e.m,k,ns.data(),ins,ons,fp)):kind==2?S(Cudd_DumpBlif(e.m,k,ns.data(),ins,ons,nullptr,fp,0)):kind==3?S(Cudd_DumpDot(e.m,k,ns.data(),ins,ons,fp)):S(Cudd_DumpDDcal(e.m,k,ns.data(),ins,ons,fp)); SV(fclose(fp)); text=slurp(fn); if(!q){ e.null("the export"); return; } }
    auto inName=[&](int i,const char*pre){ return nm?in[i]:pre+std::to_string(i); }; auto outName=[&](int i,const char*pre){ return om?on[i]:pre+std::to_string(i); };
    auto judge=[&](int i,bool ok,const F&t){ e.need(ok,"the exported text cannot be read: "+text.substr(0,400)); e.need(t==hs[i].f,"the exported text of function "+std::to_string(i)+" means "+E::show(t)+" instead of "+E::show(hs[i].f)+": "+text.substr(0,400)); };
    auto cst=[&](const std::string&s,F&t,bool v){ (void)s; t.assign(e.N(),v); return true; };
    if(kind<=1){ auto look=[&](const std::string&w,F&t){ if(w=="true"||w=="CONST1") return cst(w,t,true); if(w=="false"||w=="CONST0") return cst(w,t,false); for(int i=0;i<e.n;i++) if(inName(i,"x")==w){ t=e.varF(i); return true; } return false; }; F t;
        if(kind==0){ bool ok=evalText(e,text,false,look,t); judge(0,ok,t); return; }
        auto r=rows(text); e.need((int)r.size()==k,"not one line per function: "+text.substr(0,300)); for(int i=0;i<k;i++){ std::string pre=outName(i,"f")+" = "; e.need(r[i].compare(0,pre.size(),pre)==0,"the name of function "+std::to_string(i)+" is missing: "+r[i].substr(0,100)); bool ok=evalText(e,r[i].substr(pre.size()),false,look,t); judge(i,ok,t); } return; }
    if(kind==2){ std::map<std::string,std::pair<std::vector<std::string>,std::vector<std::string>>> tab; std::string cur; std::vector<std::string> outs,inl; bool end=false; for(auto&l:rows(text)){ auto w=words(l); if(w.empty()) continue; if(w[0]==".inputs"){ inl.assign(w.begin()+1,w.end()); } else if(w[0]==".outputs") outs.assign(w.begin()+1,w.end()); else if(w[0]==".model"){} else if(w[0]==".end") end=true; else if(w[0]==".names"){ e.need(w.size()>1&&!tab.count(w.back()),"a signal is defined twice"); cur=w.back(); tab[cur].first.assign(w.begin()+1,w.end()-1); } else { e.need(!cur.empty(),"a row without a table"); tab[cur].second.push_back(l); } }
        e.need(end&&(int)outs.size()==k,"the exported circuit is not complete"); for(auto&x:inl){ bool is=false; for(int i=0;i<sz;i++) if(inName(i,"")==x) is=true; e.need(is,"an input of the circuit is no variable"); } std::map<std::string,F> memo; bool ok=true; int depth=0; std::function<F(const std::string&)> val=[&](const std::string&s)->F{ auto it=memo.find(s); if(it!=memo.end()) return it->second; F t(e.N()); for(int i=0;i<e.n;i++) if(inName(i,"")==s&&std::find(inl.begin(),inl.end(),s)!=inl.end()) return e.varF(i); auto q=tab.find(s); if(q==tab.end()||depth>200){ ok=false; return t; } depth++; std::vector<F> ii; for(auto&x:q->second.first) ii.push_back(val(x)); depth--; for(auto&row:q->second.second){ auto w=words(row); if(w.size()!=(ii.empty()?1u:2u)||w.back()!="1"||(!ii.empty()&&w[0].size()!=ii.size())){ ok=false; continue; } for(size_t x=0;x<t.size();x++){ bool m=true; for(size_t i=0;i<ii.size();i++) if(w[0][i]!='-'&&(w[0][i]=='1')!=(ii[i][x]!=0)) m=false; if(m) t[x]=1; } } return memo[s]=t; };
        for(int i=0;i<k;i++){ e.need(outs[i]==outName(i,"f"),"wrong name of output "+std::to_string(i)); F t=val(outs[i]); judge(i,ok,t); } return; }
    if(kind==3){ std::map<std::string,int> var; std::map<std::string,std::pair<std::string,std::string>> ed; std::map<std::string,char> est; std::map<std::string,std::string> lab; std::string cur; bool rank=false; bool ok=true; int nin=0; for(auto&l:rows(text)){ if(l.compare(0,17,"{ rank = same; \" ")==0){ std::string w=l.substr(17); w=w.substr(0,w.find(" \"")); cur=w; rank=true; continue; } if(l.compare(0,14,"{ rank = same;")==0){ rank=false; continue; } if(l=="}"){ rank=false; continue; } if(!l.empty()&&l.back()=='}') continue; if(rank&&l[0]=='"'){ int v=-1; for(int i=0;i<e.n;i++) if(inName(i,"")==cur) v=i; if(v<0) ok=false; else var[l.substr(1,l.find('"',1)-1)]=v; nin++; continue; }
            size_t a=l.find("\" -> \""); if(l[0]=='"'&&a!=std::string::npos&&l.find("\" -> \"",a+3)==std::string::npos){ std::string from=l.substr(1,a-1),to=l.substr(a+6); bool dash=l.find("dashed")!=std::string::npos,dot=l.find("dotted")!=std::string::npos; if(to.find('"')==std::string::npos) continue; to=to.substr(0,to.find('"')); bool solid=l.find("solid")!=std::string::npos; bool root=solid||(!var.count(from)); if(root&&!dash){ if(ed.count(from)) ok=false; ed[from].first=to; est[from]=dot?'c':'r'; } else if(dash||dot){ ed[from].second=to; est[from]=dot?'c':'r'; } else { if(!ed[from].first.empty()) ok=false; ed[from].first=to; } continue; }
            size_t b=l.find("[label = \""); if(l[0]=='"'&&b!=std::string::npos) lab[l.substr(1,l.find('"',1)-1)]=l.substr(b+10,l.find('"',b+10)-b-10); }
        std::map<std::string,F> memo; int depth=0; std::function<F(const std::string&)> val=[&](const std::string&s)->F{ auto it=memo.find(s); if(it!=memo.end()) return it->second; F t(e.N()); if(lab.count(s)){ if(lab[s]!="1") ok=false; t.assign(e.N(),1); return t; } if(!var.count(s)||!ed.count(s)||depth>40){ ok=false; return t; } depth++; F a=val(ed[s].first),b=val(ed[s].second); depth--; for(size_t x=0;x<t.size();x++) t[x]=(x>>var[s]&1)?a[x]:b[x]!=(est[s]=='c'); return memo[s]=t; };
        for(int i=0;i<k;i++){ std::string nme=outName(i,"F"); if(!om) nme="F"+std::to_string(i); else nme="  "+on[i]+"  "; if(!ed.count(nme)){ judge(i,false,F(e.N())); } F t=val(ed[nme].first); if(est[nme]=='c') for(auto&x:t) x=!x; judge(i,ok,t); } return; }
    std::map<std::string,F> def; auto r=rows(text); bool ok=true; for(size_t i=1;i+1<r.size();i++){ size_t q=r[i].find(" = "); if(q==std::string::npos){ ok=false; break; } std::string lhs=r[i].substr(0,q),rhs=r[i].substr(q+3); F t; if(rhs=="1") t.assign(e.N(),1); else { auto look=[&](const std::string&w,F&o){ if(def.count(w)){ o=def[w]; return true; } for(int v=0;v<e.n;v++) if(inName(v,"v")==w){ o=e.varF(v); return true; } return false; }; if(!evalText(e,rhs,true,look,t)){ ok=false; break; } } def[lhs]=t; } for(int i=0;i<k;i++){ std::string o=outName(i,"f"); judge(i,ok&&def.count(o),def[o]); } }

const std::vector<Op>&bddOps(){ static const std::vector<Op> v={
OP(IthVar,6,{ int i=e.r.below(e.n); e.bdd(S(Cudd_bddIthVar(e.m,i)),e.varF(i)); }),
OP(Not,6,{ H f=e.b(); e.bdd(Cudd_Not(f.n),e.map2(f.f,f.f,[](int a,int){return !a;})); }),
OP(And,14,{ H f=e.b(),g=e.b(); e.bdd(S(Cudd_bddAnd(e.m,f.n,g.n)),e.map2(f.f,g.f,[](int a,int b){return a&&b;})); }),
OP(Or,12,{ H f=e.b(),g=e.b(); e.bdd(S(Cudd_bddOr(e.m,f.n,g.n)),e.map2(f.f,g.f,[](int a,int b){return a||b;})); }),
OP(Xor,12,{ H f=e.b(),g=e.b(); e.bdd(S(Cudd_bddXor(e.m,f.n,g.n)),e.map2(f.f,g.f,[](int a,int b){return a!=b;})); }),
OP(Xnor,4,{ H f=e.b(),g=e.b(); e.bdd(S(Cudd_bddXnor(e.m,f.n,g.n)),e.map2(f.f,g.f,[](int a,int b){return a==b;})); }),
OP(Nand,3,{ H f=e.b(),g=e.b(); e.bdd(S(Cudd_bddNand(e.m,f.n,g.n)),e.map2(f.f,g.f,[](int a,int b){return !(a&&b);})); }),
OP(Nor,3,{ H f=e.b(),g=e.b(); e.bdd(S(Cudd_bddNor(e.m,f.n,g.n)),e.map2(f.f,g.f,[](int a,int b){return !(a||b);})); }),
OP(Ite,14,{ H f=e.b(),g=e.b(),h=e.b(); F w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=f.f[x]?g.f[x]:h.f[x]; e.bdd(S(Cudd_bddIte(e.m,f.n,g.n,h.n)),w); }),
OP(AndLimit,3,{ H f=e.b(),g=e.b(); int l=limitOf(e); limited(e,S(Cudd_bddAndLimit(e.m,f.n,g.n,l)),e.map2(f.f,g.f,[](int a,int b){return a&&b;}),l); }),
OP(OrLimit,3,{ H f=e.b(),g=e.b(); int l=limitOf(e); limited(e,S(Cudd_bddOrLimit(e.m,f.n,g.n,l)),e.map2(f.f,g.f,[](int a,int b){return a||b;}),l); }),
OP(XnorLimit,3,{ H f=e.b(),g=e.b(); int l=limitOf(e); limited(e,S(Cudd_bddXnorLimit(e.m,f.n,g.n,l)),e.map2(f.f,g.f,[](int a,int b){return a==b;}),l); }),
OP(IteLimit,3,{ H f=e.b(),g=e.b(),h=e.b(); F w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=f.f[x]?g.f[x]:h.f[x]; int l=limitOf(e); limited(e,S(Cudd_bddIteLimit(e.m,f.n,g.n,h.n,l)),w,l); }),
OP(IteConstant,3,{ H f=e.b(),g=e.b(),h=e.b(); F w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=f.f[x]?g.f[x]:h.f[x]; DdNode*q=S(Cudd_bddIteConstant(e.m,f.n,g.n,h.n)); if(!q){ e.null(); return; } bool c=E::isZero(w)||E::isOne(w); if(q==DD_NON_CONSTANT) e.need(!c,"a constant if-then-else is called non-constant"); else e.need(e.table(q)==w,"wrong constant"); }),
OP(Leq,6,{ H f=e.b(),g=e.b(); e.need((S(Cudd_bddLeq(e.m,f.n,g.n))!=0)==E::leq(f.f,g.f),"containment test is wrong for "+E::show(f.f)+" and "+E::show(g.f)); }),
OP(LeqUnless,4,{ H f=e.b(),g=e.b(),d=e.b(); e.need((S(Cudd_bddLeqUnless(e.m,f.n,g.n,d.n))!=0)==E::leq(e.map2(f.f,d.f,[](int a,int b){return a&&!b;}),g.f),"containment test with don't cares is wrong for "+E::show(f.f)+" "+E::show(g.f)+" "+E::show(d.f)); }),
OP(EquivDC,4,{ H f=e.b(),g=e.b(),d=e.b(); e.need((S(Cudd_EquivDC(e.m,f.n,g.n,d.n))!=0)==E::leq(e.map2(f.f,g.f,[](int a,int b){return a!=b;}),d.f),"equivalence test with don't cares is wrong"); }),
OP(Intersect,4,{ H f=e.b(),g=e.b(); F w=e.map2(f.f,g.f,[](int a,int b){return a&&b;}),t; if(e.got(S(Cudd_bddIntersect(e.m,f.n,g.n)),t)) e.need(E::leq(t,w)&&E::isZero(t)==E::isZero(w),"not a witness of the intersection"); }),
OP(ExistAbstract,12,{ H f=e.b(); V vs=e.subset(40); DdNode*c=e.cube(vs); if(!c) return; e.bdd(S(Cudd_bddExistAbstract(e.m,f.n,c)),e.ex(f.f,vs,0)); e.unref(c); }),
OP(ExistAbstractLimit,3,{ H f=e.b(); V vs=e.subset(40); DdNode*c=e.cube(vs); if(!c) return; int l=limitOf(e); limited(e,S(Cudd_bddExistAbstractLimit(e.m,f.n,c,l)),e.ex(f.f,vs,0),l); e.unref(c); }),
OP(UnivAbstract,10,{ H f=e.b(); V vs=e.subset(40); DdNode*c=e.cube(vs); if(!c) return; e.bdd(S(Cudd_bddUnivAbstract(e.m,f.n,c)),e.ex(f.f,vs,1)); e.unref(c); }),
OP(AndAbstract,12,{ H f=e.b(),g=e.b(); V vs=e.subset(40); DdNode*c=e.cube(vs); if(!c) return; e.bdd(S(Cudd_bddAndAbstract(e.m,f.n,g.n,c)),e.ex(e.map2(f.f,g.f,[](int a,int b){return a&&b;}),vs,0)); e.unref(c); }),
OP(AndAbstractLimit,3,{ H f=e.b(),g=e.b(); V vs=e.subset(40); DdNode*c=e.cube(vs); if(!c) return; int l=limitOf(e); limited(e,S(Cudd_bddAndAbstractLimit(e.m,f.n,g.n,c,l)),e.ex(e.map2(f.f,g.f,[](int a,int b){return a&&b;}),vs,0),l); e.unref(c); }),
OP(XorExistAbstract,8,{ H f=e.b(),g=e.b(); V vs=e.subset(40); DdNode*c=e.cube(vs); if(!c) return; e.bdd(S(Cudd_bddXorExistAbstract(e.m,f.n,g.n,c)),e.ex(e.map2(f.f,g.f,[](int a,int b){return a!=b;}),vs,0)); e.unref(c); }),
OP(BooleanDiff,4,{ H f=e.b(); int i=e.r.below(e.n); e.bdd(S(Cudd_bddBooleanDiff(e.m,f.n,i)),e.ex(f.f,{i},2)); }),
OP(VarIsDependent,3,{ H f=e.b(); int i=e.r.below(e.n); bool w=true; for(size_t x=0;x<e.N();x++) if(f.f[x]&&f.f[x^((size_t)1<<i)]) w=false; e.need((S(Cudd_bddVarIsDependent(e.m,f.n,e.bvars[i]))!=0)==w,"wrong dependence of a variable"); }),
OP(Compose,7,{ H f=e.b(),g=e.b(); int v=e.r.below(e.n); F w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=f.f[(x&~((size_t)1<<v))|((size_t)g.f[x]<<v)]; e.bdd(S(Cudd_bddCompose(e.m,f.n,g.n,v)),w); }),
OP(VectorCompose,6,{ H f=e.b(); std::vector<H> hs; std::vector<DdNode*> vec; for(int i=0;i<e.n;i++){ if(e.r.chance(50)){ hs.push_back({BDD,e.bvars[i],e.varF(i),{}}); } else hs.push_back(e.b()); vec.push_back(hs.back().n); } F w(e.N()); for(size_t x=0;x<w.size();x++){ size_t y=0; for(int i=0;i<e.n;i++) y|=(size_t)hs[i].f[x]<<i; w[x]=f.f[y]; } e.bdd(S(Cudd_bddVectorCompose(e.m,f.n,vec.data())),w); }),
OP(Permute,6,{ H f=e.b(); V p; for(int i=0;i<e.n;i++) p.push_back(i); for(int i=e.n-1;i>0;i--) std::swap(p[i],p[e.r.below(i+1)]); F w(e.N()); for(size_t x=0;x<w.size();x++){ size_t y=0; for(int i=0;i<e.n;i++) y|=(x>>p[i]&1)<<i; w[x]=f.f[y]; } e.bdd(S(Cudd_bddPermute(e.m,f.n,p.data())),w); }),
OP(SwapVariables,6,{ H f=e.b(); std::vector<V> ix; int N; auto d=numVars(e,ix,2,N); if(e.n<2) return; V p; for(int i=0;i<e.n;i++) p.push_back(i); for(int i=0;i<N;i++) std::swap(p[ix[0][i]],p[ix[1][i]]); F w(e.N()); for(size_t x=0;x<w.size();x++){ size_t y=0; for(int i=0;i<e.n;i++) y|=(x>>p[i]&1)<<i; w[x]=f.f[y]; } e.bdd(S(Cudd_bddSwapVariables(e.m,f.n,d.data(),d.data()+N,N)),w); }),
OP(VarMap,5,{ std::vector<V> ix; int N; if(e.n<2) return; auto d=numVars(e,ix,2,N); V p; for(int i=0;i<e.n;i++) p.push_back(i); for(int i=0;i<N;i++) std::swap(p[ix[0][i]],p[ix[1][i]]); if(!S(Cudd_SetVarMap(e.m,d.data(),d.data()+N,N))){ e.null("the variable map"); return; } for(int k=0;k<3;k++){ H f=e.b(); F w(e.N()); for(size_t x=0;x<w.size();x++){ size_t y=0; for(int i=0;i<e.n;i++) y|=(x>>p[i]&1)<<i; w[x]=f.f[y]; } e.bdd(S(Cudd_bddVarMap(e.m,f.n)),w); } }),
OP(AdjPermuteX,3,{ H f=e.b(); std::vector<V> ix; int N; if(e.n<3) return; auto d=numVars(e,ix,3,N); std::vector<DdNode*> x; V p; for(int i=0;i<e.n;i++) p.push_back(i); for(int i=0;i<N;i++){ for(int j=0;j<3;j++) x.push_back(d[j*N+i]); std::swap(p[ix[0][i]],p[ix[1][i]]); } F w(e.N()); for(size_t q=0;q<w.size();q++){ size_t y=0; for(int i=0;i<e.n;i++) y|=(q>>p[i]&1)<<i; w[q]=f.f[y]; } e.bdd(S(Cudd_bddAdjPermuteX(e.m,f.n,x.data(),(int)x.size())),w); }),
OP(Cofactor,6,{ H f=e.b(); H c=pickCube(e,false); if(!c.n) return; V vs,ph; isCube(e,c.f,vs,ph); F w(e.N()); for(size_t x=0;x<w.size();x++){ size_t y=x; for(size_t i=0;i<vs.size();i++) y=(y&~((size_t)1<<vs[i]))|((size_t)ph[i]<<vs[i]); w[x]=f.f[y]; } e.bdd(S(Cudd_Cofactor(e.m,f.n,c.n)),w); }),
OP(CheckCube,3,{ H f=e.r.chance(50)?e.b():pickCube(e,false); if(!f.n) return; V a,b; e.need((S(Cudd_CheckCube(e.m,f.n))!=0)==isCube(e,f.f,a,b),"cube test is wrong for "+E::show(f.f)); }),
OP(Constrain,6,{ H f=e.b(),c=e.b(); if(E::isZero(c.f)) return; F t; if(e.got(S(Cudd_bddConstrain(e.m,f.n,c.n)),t)) for(size_t x=0;x<t.size();x++) if(c.f[x]) e.need(t[x]==f.f[x],"generalised cofactor differs from the function inside the care set"); }),
OP(Restrict,6,{ H f=e.b(),c=e.b(); if(E::isZero(c.f)) return; F t; if(e.got(S(Cudd_bddRestrict(e.m,f.n,c.n)),t)){ for(size_t x=0;x<t.size();x++) if(c.f[x]) e.need(t[x]==f.f[x],"restricted function differs from the function inside the care set"); for(int v:e.supp(t)) e.need(e.dep(f.f,v),"restricted function depends on a new variable"); } }),
OP(NPAnd,4,{ H f=e.b(),c=e.b(); if(E::isZero(c.f)) return; F t; if(e.got(S(Cudd_bddNPAnd(e.m,f.n,c.n)),t)){ for(size_t x=0;x<t.size();x++) if(c.f[x]) e.need(t[x]==f.f[x],"non-polluting conjunction differs from the function inside the care set"); } }),
OP(Minimize,6,{ H f=e.b(),c=e.b(); if(E::isZero(c.f)) return; F t; DdNode*q=S(Cudd_bddMinimize(e.m,f.n,c.n)); if(e.got(q,t)) for(size_t x=0;x<t.size();x++) if(c.f[x]) e.need(t[x]==f.f[x],"minimised function differs from the function inside the care set"); }),
OP(LICompaction,5,{ H f=e.b(),c=e.b(); if(E::isZero(c.f)) return; F t; if(e.got(S(Cudd_bddLICompaction(e.m,f.n,c.n)),t)) for(size_t x=0;x<t.size();x++) if(c.f[x]) e.need(t[x]==f.f[x],"compacted function differs from the function inside the care set"); }),
OP(Squeeze,5,{ H u=e.b(); H l{BDD,nullptr,sub(e,u.f),{}}; l.n=build(e,l.f); if(!l.n) return; e.keep(l); sound(e,S(Cudd_bddSqueeze(e.m,l.n,u.n)),l.f,u.f); }),
OP(Interpolate,4,{ H u=e.b(); H l{BDD,nullptr,sub(e,u.f),{}}; l.n=build(e,l.f); if(!l.n) return; e.keep(l); F t; if(e.got(S(Cudd_bddInterpolate(e.m,l.n,u.n)),t)){ e.need(E::leq(l.f,t)&&E::leq(t,u.f),"the interpolant is not between its bounds"); for(int v:e.supp(t)) e.need(e.dep(l.f,v)&&e.dep(u.f,v),"the interpolant depends on a variable that is not common to both"); } }),
OP(Isop,4,{ H u=e.b(); H l{BDD,nullptr,sub(e,u.f),{}}; l.n=build(e,l.f); if(!l.n) return; e.keep(l); sound(e,S(Cudd_bddIsop(e.m,l.n,u.n)),l.f,u.f); }),
OP(MakePrime,4,{ if(e.dyn()) return; H f=e.b(); if(E::isZero(f.f)) return; size_t k=e.r.below(e.N()),g=0; while(!f.f[k]&&g++<e.N()) k=(k+1)%e.N(); V vs,ph; for(int i=0;i<e.n;i++){ vs.push_back(i); ph.push_back(k>>i&1); } DdNode*c=build(e,cubeF(e,vs,ph)); if(!c) return; F t; DdNode*q=S(Cudd_bddMakePrime(e.m,c,f.n)); if(e.got(q,t)) e.need(prime(e,t,f.f)&&t[k],"not a prime implicant that contains the cube: "+E::show(t)+" of "+E::show(f.f)); e.unref(c); }),
OP(MaximallyExpand,3,{ if(e.n>5) return; H f=e.b(); H ub=pickCube(e,false); if(!ub.n) return; F fu=e.map2(f.f,ub.f,[](int a,int b){return a&&b;}); if(E::isZero(fu)) return; size_t k=e.r.below(e.N()); while(!fu[k]) k=(k+1)%e.N(); V vs,ph; for(int i=0;i<e.n;i++){ vs.push_back(i); ph.push_back(k>>i&1); } F lb=cubeF(e,vs,ph); DdNode*c=build(e,lb); if(!c) return; F w(e.N()); for(auto&p:allCubes(e,[&](const F&q){ return E::leq(lb,q)&&prime(e,q,fu); })) for(size_t x=0;x<w.size();x++) w[x]|=p.first[x]; e.bdd(S(Cudd_bddMaximallyExpand(e.m,c,ub.n,f.n)),w); e.unref(c); }),
OP(LargestPrimeUnate,3,{ if(e.n>6) return; F f(e.N()); V ph; for(int i=0;i<e.n;i++) ph.push_back(e.r.below(2)); int k=e.r.range(1,5); for(int j=0;j<k;j++){ V vs,p; for(int i=0;i<e.n;i++) if(e.r.chance(45)){ vs.push_back(i); p.push_back(ph[i]); } F c=cubeF(e,vs,p); for(size_t x=0;x<f.size();x++) f[x]|=c[x]; } V all; for(int i=0;i<e.n;i++) all.push_back(i); DdNode*a=build(e,f),*p=a?build(e,cubeF(e,all,ph)):nullptr; if(!p){ if(a) e.unref(a); return; } F t; size_t best=99; V vs,qh; for(auto&c:allCubes(e,[&](const F&q){ return E::leq(q,f); })) best=std::min(best,(size_t)c.second); if(e.got(S(Cudd_bddLargestPrimeUnate(e.m,a,p)),t)){ e.need(prime(e,t,f),"not a prime implicant of the unate function"); isCube(e,t,vs,qh); e.need(vs.size()==best,"not a largest prime implicant of the unate function"); } e.unref(a); e.unref(p); }),
OP(LargestCube,4,{ H f=e.b(); if(E::isZero(f.f)) return; int len=-1; F t; V vs,ph; if(e.got(S(Cudd_LargestCube(e.m,f.n,&len)),t)){ e.need(isCube(e,t,vs,ph)&&E::leq(t,f.f)&&(int)vs.size()==len,"not an implicant of the announced length "+std::to_string(len)); } }),
OP(ShortestPath,4,{ H f=e.b(); if(E::isZero(f.f)) return; V w,sup(e.n+1,0); for(int i=0;i<e.n;i++) w.push_back(e.r.below(5)); bool unit=e.r.chance(30); int best=1<<30; for(size_t x=0;x<e.N();x++) if(f.f[x]){ int c=0; for(int i=0;i<e.n;i++) if(x>>i&1) c+=unit?1:w[i]; best=std::min(best,c); } int len=-1; F t; V vs,ph; if(e.got(S(Cudd_ShortestPath(e.m,f.n,unit?nullptr:w.data(),sup.data(),&len)),t)){ if(len!=best){ e.need(false,"length "+std::to_string(len)+" of a shortest path instead of "+std::to_string(best)); } e.need(isCube(e,t,vs,ph)&&E::leq(t,f.f),"the shortest path is no implicant"); int c=0; for(size_t i=0;i<vs.size();i++) if(ph[i]) c+=unit?1:w[vs[i]]; e.need(c==best,"the cube of the shortest path has another length"); for(int i=0;i<e.n;i++) e.need((sup[i]!=0)==e.dep(f.f,i),"wrong support reported with a shortest path"); } int l2=S(Cudd_ShortestLength(e.m,f.n,unit?nullptr:w.data())); if(l2==CUDD_OUT_OF_MEM) e.null(); else e.need(l2==best,"shortest length is "+std::to_string(l2)+" instead of "+std::to_string(best)); }),
OP(Support,5,{ H f=e.b(); V s=e.supp(f.f); F w=cubeF(e,s,V(s.size(),1)); e.bdd(S(Cudd_Support(e.m,f.n)),w,"the support"); int k=S(Cudd_SupportSize(e.m,f.n)); if(k==CUDD_OUT_OF_MEM) e.null(); else e.need(k==(int)s.size(),"wrong support size"); int*a=S(Cudd_SupportIndex(e.m,f.n)); if(!a) e.null(); else e.need(supVec(e,a)==s,"wrong support array"); int*ix=nullptr; k=S(Cudd_SupportIndices(e.m,f.n,&ix)); if(k==CUDD_OUT_OF_MEM) e.null(); else { V got=ix?sorted(ix,k):V(); e.need(got==s,"wrong support indices"); } }),
OP(VectorSupport,4,{ std::vector<DdNode*> fs; std::set<int> u; int k=e.r.range(1,4); for(int i=0;i<k;i++){ H h=e.b(); fs.push_back(h.n); for(int v:e.supp(h.f)) u.insert(v); } V s(u.begin(),u.end()); e.bdd(S(Cudd_VectorSupport(e.m,fs.data(),k)),cubeF(e,s,V(s.size(),1))); int z=S(Cudd_VectorSupportSize(e.m,fs.data(),k)); if(z==CUDD_OUT_OF_MEM) e.null(); else e.need(z==(int)s.size(),"wrong support size of a vector"); int*a=S(Cudd_VectorSupportIndex(e.m,fs.data(),k)); if(!a) e.null(); else e.need(supVec(e,a)==s,"wrong support array of a vector"); }),
OP(ClassifySupport,3,{ H f=e.b(),g=e.b(); V c,a,b; for(int i=0;i<e.n;i++){ bool x=e.dep(f.f,i),y=e.dep(g.f,i); if(x&&y) c.push_back(i); else if(x) a.push_back(i); else if(y) b.push_back(i); } DdNode*q[3]={nullptr,nullptr,nullptr}; int ok=S(Cudd_ClassifySupport(e.m,f.n,g.n,&q[0],&q[1],&q[2])); if(!ok){ e.null(); return; } V*w[3]={&c,&a,&b}; for(int i=0;i<3;i++) SV(Cudd_Ref(q[i])); for(int i=0;i<3;i++){ F t=e.table(q[i]); e.need(t==cubeF(e,*w[i],V(w[i]->size(),1)),"wrong classification of the support"); e.unref(q[i]); } }),
OP(Count,5,{ H f=e.b(); int k=e.r.below(4); double c=S(Cudd_CountMinterm(e.m,f.n,e.n+k)); if(c==(double)CUDD_OUT_OF_MEM) e.null(); else e.need(c==(double)E::ones(f.f)*(1<<k),"number of minterms "+std::to_string(c)); long double l=S(Cudd_LdblCountMinterm(e.m,f.n,e.n+k)); if(l==(long double)CUDD_OUT_OF_MEM) e.null(); else e.need(l==(long double)E::ones(f.f)*(1<<k),"number of minterms (long double) "+std::to_string((double)l)); EpDouble*ep=S(EpdAlloc()); if(!ep) e.null(); else { int q=S(Cudd_EpdCountMinterm(e.m,f.n,e.n+k,ep)); double mv=0; int mx=0; S((EpdGetValueAndDecimalExponent(ep,&mv,&mx),0)); SV(EpdFree(ep)); if(q==CUDD_OUT_OF_MEM) e.null(); else e.need(std::fabs(mv*std::pow(10.0,mx)-(double)E::ones(f.f)*(1<<k))<=1e-6*(1+E::ones(f.f)*(1<<k)),"number of minterms (extended)"); } int dg=0; DdApaNumber an=S(Cudd_ApaCountMinterm(e.m,f.n,e.n+k,&dg)); if(!an) e.null(); else { double v=0; for(int i=0;i<dg;i++) v=v*4294967296.0+an[i]; SV(free(an)); e.need(v==(double)E::ones(f.f)*(1<<k),"number of minterms (arbitrary precision)"); } }),
OP(Sizes,4,{ H f=e.b(),g=e.b(); e.need((size_t)S(Cudd_DagSize(f.n))==dag(f.n),"wrong diagram size"); DdNode*arr[2]={f.n,g.n}; std::set<DdNode*> s; std::function<void(DdNode*)> rec=[&](DdNode*q){ q=Cudd_Regular(q); if(!s.insert(q).second||cuddIsConstant(q)) return; rec(cuddT(q)); rec(cuddE(q)); }; rec(f.n); rec(g.n); e.need((size_t)S(Cudd_SharingSize(arr,2))==s.size(),"wrong shared diagram size"); double c=S(Cudd_CountPathsToNonZero(f.n)); std::function<double(DdNode*)> pt=[&](DdNode*q)->double{ bool cm=Cudd_IsComplement(q); DdNode*qr=Cudd_Regular(q); if(cuddIsConstant(qr)) return cm?0:1; return pt(Cudd_NotCond(cuddT(qr),cm))+pt(Cudd_NotCond(cuddE(qr),cm)); }; if(c==(double)CUDD_OUT_OF_MEM) e.null(); else e.need(c==pt(f.n),"wrong number of paths"); double dn=S(Cudd_Density(e.m,f.n,e.n)); if(dn==(double)CUDD_OUT_OF_MEM) e.null(); else e.need(std::fabs(dn-E::ones(f.f)/(double)dag(f.n))<1e-9,"wrong density"); }),
OP(FindEssential,4,{ H f=e.b(); if(E::isZero(f.f)) return; V vs,ph; for(int i=0;i<e.n;i++) for(int p=0;p<2;p++){ bool ess=true; for(size_t x=0;x<e.N();x++) if(f.f[x]&&(int)(x>>i&1)!=p) ess=false; if(ess){ vs.push_back(i); ph.push_back(p); } int q=S(Cudd_bddIsVarEssential(e.m,f.n,i,p)); e.need((q!=0)==ess,"essential variable test is wrong"); } e.bdd(S(Cudd_FindEssential(e.m,f.n)),cubeF(e,vs,ph)); }),
OP(Cubes,4,{ H f=e.b(); int*cb; CUDD_VALUE_TYPE val; F u(e.N()); DdGen*g=S(Cudd_FirstCube(e.m,f.n,&cb,&val)); if(!g){ e.null(); return; } while(!Cudd_IsGenEmpty(g)){ e.need(val==1,"cube with value "+std::to_string(val)); for(size_t x=0;x<e.N();x++){ bool in=true; for(int i=0;i<e.n;i++) if(cb[i]!=2&&(int)(x>>i&1)!=cb[i]) in=false; if(in){ e.need(!u[x],"two enumerated cubes overlap"); u[x]=1; } } if(!S(Cudd_NextCube(g,&cb,&val))) break; } SV(Cudd_GenFree(g)); e.need(u==f.f,"the enumerated cubes cover "+E::show(u)+" instead of "+E::show(f.f)); }),
OP(Primes,4,{ if(e.dyn()) return; H u=e.b(); H l{BDD,nullptr,sub(e,u.f),{}}; l.n=build(e,l.f); if(!l.n) return; e.keep(l); int*cb; F c(e.N()); DdGen*g=S(Cudd_FirstPrime(e.m,l.n,u.n,&cb)); if(!g){ e.null(); return; } bool bad=false; while(!Cudd_IsGenEmpty(g)){ V vs,ph; for(int i=0;i<e.n;i++) if(cb[i]!=2){ vs.push_back(i); ph.push_back(cb[i]); } F q=cubeF(e,vs,ph); if(!prime(e,q,u.f)) bad=true; for(size_t x=0;x<c.size();x++) c[x]|=q[x]; if(!S(Cudd_NextPrime(g,&cb))) break; } SV(Cudd_GenFree(g)); if(e.faults&&Cudd_ReadErrorCode(e.m)!=CUDD_NO_ERROR){ e.nulls++; return; } e.need(!bad,"an enumerated cube is no prime implicant of the upper bound"); e.need(E::leq(l.f,c)&&E::leq(c,u.f),"the enumerated primes do not cover the lower bound"); }),
OP(PickOneCube,3,{ H f=e.b(); std::string s(e.n+2,'\0'); if(!S(Cudd_bddPickOneCube(e.m,f.n,&s[0]))){ if(!E::isZero(f.f)) e.null(); else SV(Cudd_ClearErrorCode(e.m)); return; } e.need(!E::isZero(f.f),"a cube of the zero function was picked"); V vs,ph; for(int i=0;i<e.n;i++) if(s[i]!=2){ vs.push_back(i); ph.push_back(s[i]); } e.need(E::leq(cubeF(e,vs,ph),f.f),"the picked cube is not contained in the function"); }),
OP(PickOneMinterm,3,{ H f=e.b(); if(E::isZero(f.f)) return; F t; if(e.got(S(Cudd_bddPickOneMinterm(e.m,f.n,e.bvars.data(),e.n)),t)) e.need(E::ones(t)==1&&E::leq(t,f.f),"not a minterm of the function"); }),
OP(PickArbitraryMinterms,3,{ H f=e.b(); int c=(int)E::ones(f.f); if(!c) return; int k=1+e.r.below(std::min(c,6)); DdNode**a=S(Cudd_bddPickArbitraryMinterms(e.m,f.n,e.bvars.data(),e.n,k)); if(!a){ e.null(); return; } std::set<F> seen; for(int i=0;i<k;i++) SV(Cudd_Ref(a[i])); for(int i=0;i<k;i++){ F t=e.table(a[i]); e.need(E::ones(t)==1&&E::leq(t,f.f)&&seen.insert(t).second,"not distinct minterms of the function"); } for(int i=0;i<k;i++) e.unref(a[i]); SV(free(a)); }),
OP(SubsetWithMaskVars,2,{ if(e.faultRun) return; H f=e.b(); if(E::isZero(f.f)) return; std::vector<DdNode*> mk; for(int i:e.subset(40)) mk.push_back(e.bvars[i]); F t; if(e.got(S(Cudd_SubsetWithMaskVars(e.m,f.n,e.bvars.data(),e.n,mk.data(),(int)mk.size())),t)) e.need(E::leq(t,f.f)&&!E::isZero(t),"not a non-empty subset"); }),
OP(Eval,5,{ H f=e.b(); V in; size_t x=e.r.below(e.N()); for(int i=0;i<e.n;i++) in.push_back(x>>i&1); DdNode*q=S(Cudd_Eval(e.m,f.n,in.data())); e.need(q==(f.f[x]?e.m->one:Cudd_Not(e.m->one)),"wrong value of the function"); }),
OP(ComputeCube,3,{ V vs,ph; std::vector<DdNode*> d; for(int i:e.subset(50)){ vs.push_back(i); ph.push_back(e.r.below(2)); d.push_back(e.bvars[i]); } e.bdd(S(Cudd_bddComputeCube(e.m,d.data(),ph.data(),(int)vs.size())),cubeF(e,vs,ph)); V arr(e.n+1,2); for(size_t i=0;i<vs.size();i++) arr[vs[i]]=ph[i]; DdNode*q=S(Cudd_CubeArrayToBdd(e.m,arr.data())); if(!e.bdd(q,cubeF(e,vs,ph),"the cube of an array")) return; V a2(e.n+1,7); int ok=S(Cudd_BddToCubeArray(e.m,q,a2.data())); e.need(ok!=0,"a cube was not recognised"); a2.resize(e.n); arr.resize(e.n); e.need(a2==arr,"wrong cube array"); }),
OP(UnderApprox,3,{ H f=e.b(); sound(e,S(Cudd_UnderApprox(e.m,f.n,e.n,e.r.below(20),e.r.below(2),1.0)),F(e.N(),0),f.f); }),
OP(OverApprox,3,{ H f=e.b(); sound(e,S(Cudd_OverApprox(e.m,f.n,e.n,e.r.below(20),e.r.below(2),1.0)),f.f,F(e.N(),1)); }),
OP(RemapUnderApprox,3,{ H f=e.b(); sound(e,S(Cudd_RemapUnderApprox(e.m,f.n,e.n,e.r.below(20),1.0)),F(e.N(),0),f.f); }),
OP(RemapOverApprox,3,{ H f=e.b(); sound(e,S(Cudd_RemapOverApprox(e.m,f.n,e.n,e.r.below(20),1.0)),f.f,F(e.N(),1)); }),
OP(BiasedUnderApprox,3,{ H f=e.b(),b=e.b(); sound(e,S(Cudd_BiasedUnderApprox(e.m,f.n,b.n,e.n,e.r.below(20),1.0,0.5)),F(e.N(),0),f.f); }),
OP(BiasedOverApprox,3,{ H f=e.b(),b=e.b(); sound(e,S(Cudd_BiasedOverApprox(e.m,f.n,b.n,e.n,e.r.below(20),1.0,0.5)),f.f,F(e.N(),1)); }),
OP(SubsetHeavyBranch,3,{ H f=e.b(); sound(e,S(Cudd_SubsetHeavyBranch(e.m,f.n,e.n,1+e.r.below(20))),F(e.N(),0),f.f); }),
OP(SupersetHeavyBranch,3,{ H f=e.b(); sound(e,S(Cudd_SupersetHeavyBranch(e.m,f.n,e.n,1+e.r.below(20))),f.f,F(e.N(),1)); }),
OP(SubsetShortPaths,3,{ H f=e.b(); sound(e,S(Cudd_SubsetShortPaths(e.m,f.n,e.n,1+e.r.below(20),e.r.below(2))),F(e.N(),0),f.f); }),
OP(SupersetShortPaths,3,{ H f=e.b(); sound(e,S(Cudd_SupersetShortPaths(e.m,f.n,e.n,1+e.r.below(20),e.r.below(2))),f.f,F(e.N(),1)); }),
OP(SubsetCompress,3,{ H f=e.b(); sound(e,S(Cudd_SubsetCompress(e.m,f.n,e.n,1+e.r.below(20))),F(e.N(),0),f.f); }),
OP(SupersetCompress,3,{ H f=e.b(); sound(e,S(Cudd_SupersetCompress(e.m,f.n,e.n,1+e.r.below(20))),f.f,F(e.N(),1)); }),
OP(ClippingAnd,4,{ H f=e.b(),g=e.b(); F w=e.map2(f.f,g.f,[](int a,int b){return a&&b;}); int dir=e.r.below(2); sound(e,S(Cudd_bddClippingAnd(e.m,f.n,g.n,e.r.below(e.n+1),dir)),dir?w:F(e.N(),0),dir?F(e.N(),1):w); }),
OP(ClippingAndAbstract,4,{ H f=e.b(),g=e.b(); V vs=e.subset(40); DdNode*c=e.cube(vs); if(!c) return; F w=e.ex(e.map2(f.f,g.f,[](int a,int b){return a&&b;}),vs,0); int dir=e.r.below(2); sound(e,S(Cudd_bddClippingAndAbstract(e.m,f.n,g.n,c,e.r.below(e.n+1),dir)),dir?w:F(e.N(),0),dir?F(e.N(),1):w); e.unref(c); }),
OP(ApproxDecomp,3,{ H f=e.b(); DdNode**a=nullptr; bool c=e.r.below(2); int k=c?S(Cudd_bddApproxConjDecomp(e.m,f.n,&a)):S(Cudd_bddApproxDisjDecomp(e.m,f.n,&a)); decomp(e,k,a,f.f,c); }),
OP(IterDecomp,3,{ H f=e.b(); DdNode**a=nullptr; bool c=e.r.below(2); int k=c?S(Cudd_bddIterConjDecomp(e.m,f.n,&a)):S(Cudd_bddIterDisjDecomp(e.m,f.n,&a)); decomp(e,k,a,f.f,c); }),
OP(GenDecomp,3,{ if(e.dyn()) return; H f=e.b(); DdNode**a=nullptr; bool c=e.r.below(2); int k=c?S(Cudd_bddGenConjDecomp(e.m,f.n,&a)):S(Cudd_bddGenDisjDecomp(e.m,f.n,&a)); decomp(e,k,a,f.f,c); }),
OP(VarDecomp,3,{ H f=e.b(); DdNode**a=nullptr; bool c=e.r.below(2); int k=c?S(Cudd_bddVarConjDecomp(e.m,f.n,&a)):S(Cudd_bddVarDisjDecomp(e.m,f.n,&a)); decomp(e,k,a,f.f,c); }),
OP(CharToVect,3,{ if(e.dyn()) return; H f=e.b(); if(E::isZero(f.f)) return; DdNode**a=S(Cudd_bddCharToVect(e.m,f.n)); if(!a){ e.null(); return; } int k=S(Cudd_ReadSize(e.m)); std::vector<F> t; for(int i=0;i<k;i++) t.push_back(e.table(a[i])); F img(e.N()); for(size_t x=0;x<e.N();x++){ size_t y=0; for(int i=0;i<e.n;i++) y|=(size_t)t[i][x]<<i; img[y]=1; } for(int i=0;i<k;i++) e.unref(a[i]); SV(free(a)); e.need(img==f.f,"the image of the vector is "+E::show(img)+" instead of "+E::show(f.f)); }),
OP(Transfer,4,{ H f=e.b(); DdManager*o=S(Cudd_Init(e.n,0,16,64,0)); if(!o){ if(!e.faults) e.bad("unexpected-failure","no second manager"); e.nulls++; return; } V p; for(int i=0;i<e.n;i++) p.push_back(i); for(int i=e.n-1;i>0;i--) std::swap(p[i],p[e.r.below(i+1)]); if(e.r.chance(60)) SV(Cudd_ShuffleHeap(o,p.data())); DdNode*q=S(Cudd_bddTransfer(e.m,o,f.n)); DdNode*b=nullptr; bool wrong=false; if(q){ SV(Cudd_Ref(q)); DdManager*sv=e.m; e.m=o; F t=e.table(q); e.m=sv; wrong=t!=f.f; if(!wrong) b=S(Cudd_bddTransfer(o,e.m,q)); if(b) SV(Cudd_Ref(b)); SV(Cudd_RecursiveDeref(o,q)); int z=S(Cudd_CheckZeroRef(o)); if(z&&!e.faults){ SV(Cudd_Quit(o)); e.bad("reference-leak","the second manager is left with "+std::to_string(z)+" referenced nodes after a transfer"); } } SV(Cudd_Quit(o)); e.need(!wrong,"the transferred function differs"); if(!b){ e.null(); return; } F t=e.table(b); e.unref(b); e.need(t==f.f&&(b==f.n),"a function transferred back and forth differs"); }),
OP(Xgty,3,{ if(e.n<2) return; std::vector<V> ix; int N; auto d=numVars(e,ix,2,N); F w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=num(x,ix[0])>num(x,ix[1]); e.bdd(S(Cudd_Xgty(e.m,N,nullptr,d.data(),d.data()+N)),w); }),
OP(Xeqy,3,{ if(e.n<2) return; std::vector<V> ix; int N; auto d=numVars(e,ix,2,N); F w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=num(x,ix[0])==num(x,ix[1]); e.bdd(S(Cudd_Xeqy(e.m,N,d.data(),d.data()+N)),w); }),
OP(Dxygtdxz,3,{ if(e.n<3) return; std::vector<V> ix; int N; auto d=numVars(e,ix,3,N); F w(e.N()); bool yz=e.r.below(2); for(size_t x=0;x<w.size();x++){ int a=num(x,ix[0]),b=num(x,ix[1]),c=num(x,ix[2]); w[x]=yz?(a^b)>(b^c):(a^b)>(a^c); } e.bdd(yz?S(Cudd_Dxygtdyz(e.m,N,d.data(),d.data()+N,d.data()+2*N)):S(Cudd_Dxygtdxz(e.m,N,d.data(),d.data()+N,d.data()+2*N)),w); }),
OP(Inequality,3,{ if(e.n<2) return; std::vector<V> ix; int N; auto d=numVars(e,ix,2,N); int c=e.r.range(-8,8); F w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=num(x,ix[0])-num(x,ix[1])>=c; e.bdd(S(Cudd_Inequality(e.m,N,c,d.data(),d.data()+N)),w); }),
OP(Disequality,3,{ if(e.n<2) return; std::vector<V> ix; int N; auto d=numVars(e,ix,2,N); int c=e.r.range(-8,8); F w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=num(x,ix[0])-num(x,ix[1])!=c; e.bdd(S(Cudd_Disequality(e.m,N,c,d.data(),d.data()+N)),w); }),
OP(Interval,3,{ std::vector<V> ix; int N; auto d=numVars(e,ix,1,N); unsigned lo=e.r.below(1<<N),hi=e.r.below(1<<N); if(lo>hi) std::swap(lo,hi); F w(e.N()); for(size_t x=0;x<w.size();x++){ unsigned a=num(x,ix[0]); w[x]=a>=lo&&a<=hi; } e.bdd(S(Cudd_bddInterval(e.m,N,d.data(),lo,hi)),w); }),
OP(CProjection,3,{ H f=e.b(); V vs=e.subset(40); DdNode*c=e.cube(vs); if(!c) return; F t; size_t mask=0; for(int v:vs) mask|=(size_t)1<<v; if(e.got(S(Cudd_CProjection(e.m,f.n,c)),t)){ e.need(E::leq(t,f.f)&&e.ex(t,vs,0)==e.ex(f.f,vs,0),"the projection is not a subrelation with the same domain"); std::map<size_t,int> k; for(size_t x=0;x<t.size();x++) if(t[x]) e.need(++k[x&~mask]==1,"the projection is not functional"); } e.unref(c); }),
OP(MinHammingDist,3,{ H f=e.b(); if(E::isZero(f.f)) return; V mt; size_t y=e.r.below(e.N()); for(int i=0;i<e.n;i++) mt.push_back(y>>i&1); int best=99; for(size_t x=0;x<e.N();x++) if(f.f[x]) best=std::min(best,__builtin_popcountll(x^y)); int d=S(Cudd_MinHammingDist(e.m,f.n,mt.data(),e.n+1)); if(d==CUDD_OUT_OF_MEM) e.null(); else e.need(d==best,"Hamming distance "+std::to_string(d)+" instead of "+std::to_string(best)); }),
OP(Monotone,3,{ H f=e.b(); int i=e.r.below(e.n); bool inc=true,dec=true; for(size_t x=0;x<e.N();x++) if(!(x>>i&1)){ bool lo=f.f[x],hi=f.f[x|((size_t)1<<i)]; if(lo&&!hi) inc=false; if(hi&&!lo) dec=false; } DdNode*a=S(Cudd_Increasing(e.m,f.n,i)),*b=S(Cudd_Decreasing(e.m,f.n,i)); if(!a||!b){ e.null(); return; } e.need((a==e.m->one)==inc&&(b==e.m->one)==dec,"monotonicity test is wrong"); }),
OP(Symmetric,3,{ H f=e.b(); if(e.n<2) return; int i=e.r.below(e.n),j=e.r.below(e.n); if(i==j) return; bool sy=true; for(size_t x=0;x<e.N();x++){ int a=x>>i&1,b=x>>j&1; size_t y=(x&~(((size_t)1<<i)|((size_t)1<<j)))|((size_t)b<<i)|((size_t)a<<j); if(f.f[x]!=f.f[y]) sy=false; } e.need((S(Cudd_VarsAreSymmetric(e.m,f.n,i,j))!=0)==sy,"symmetry test is wrong"); }),
OP(Correlation,3,{ H f=e.b(),g=e.b(); double c=0,cw=0; std::vector<double> p; for(int i=0;i<e.n;i++) p.push_back(e.r.below(5)/4.0); for(size_t x=0;x<e.N();x++) if(f.f[x]==g.f[x]){ c+=1; double w=1; for(int i=0;i<e.n;i++) w*=x>>i&1?p[i]:1-p[i]; cw+=w; } double q=S(Cudd_bddCorrelation(e.m,f.n,g.n)); if(q==(double)CUDD_OUT_OF_MEM) e.null(); else e.need(std::fabs(q-c/e.N())<1e-9,"wrong correlation"); q=S(Cudd_bddCorrelationWeights(e.m,f.n,g.n,p.data())); if(q==(double)CUDD_OUT_OF_MEM) e.null(); else e.need(std::fabs(q-cw)<1e-9,"wrong weighted correlation"); }),
OP(LiteralSetIntersection,3,{ H f=pickCube(e,false); if(!f.n) return; H g=pickCube(e,false); if(!g.n) return; V a,b,c,d,vs,ph; isCube(e,f.f,a,b); isCube(e,g.f,c,d); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<c.size();j++) if(a[i]==c[j]&&b[i]==d[j]){ vs.push_back(a[i]); ph.push_back(b[i]); } e.bdd(S(Cudd_bddLiteralSetIntersection(e.m,f.n,g.n)),cubeF(e,vs,ph)); }),
OP(CofMinterm,3,{ H f=e.b(); double*a=S(Cudd_CofMinterm(e.m,f.n)); if(!a){ e.null(); return; } int sz=S(Cudd_ReadSize(e.m)); std::vector<double> t(a,a+sz+1); SV(free(a)); e.need(t[sz]==E::ones(f.f)/(double)e.N(),"wrong fraction of minterms "+std::to_string(t[sz])); for(int i=0;i<e.n;i++){ double k=0; for(size_t x=0;x<e.N();x++) if(f.f[x]&&(x>>i&1)) k+=2; e.need(t[i]==k/e.N(),"wrong fraction of minterms of the cofactor of variable "+std::to_string(i)+": "+std::to_string(t[i])); } }),
OP(SolveEqn,3,{ if(e.dyn()||e.faultRun) return; H f=e.b(); V vs=e.subset(40); if(vs.empty()) return; DdNode*y=e.cube(vs); if(!y) return; std::vector<DdNode*> g(vs.size(),nullptr); int*ix=nullptr; DdNode*q=S(Cudd_SolveEqn(e.m,f.n,y,g.data(),&ix,(int)vs.size())); e.unref(y); if(!q){ SV(free(ix)); e.null(); return; } SV(Cudd_Ref(q)); F w=e.ex(f.f,vs,1); F t=e.table(q); V iv(ix,ix+vs.size()); std::vector<F> gt; for(auto z:g) gt.push_back(e.table(z));
    DdNode*vq=S(Cudd_VerifySol(e.m,f.n,g.data(),ix,(int)vs.size())); if(vq){ SV(Cudd_Ref(vq)); } F vt=vq?e.table(vq):F(); for(auto z:g) e.unref(z); if(vq) e.unref(vq); e.unref(q); std::sort(iv.begin(),iv.end()); e.need(iv==vs,"wrong indices of the unknowns"); e.need(t==w,"wrong consistency condition"); if(!vq){ e.null(); return; } e.need(E::leq(vt,w),"the solution does not solve the equation: "+E::show(vt)); }),
OP(ConstrainDecomp,3,{ if(e.faultRun) return; H f=e.b(); if(E::isZero(f.f)) return; DdNode**a=S(Cudd_bddConstrainDecomp(e.m,f.n)); if(!a){ e.null(); return; } int sz=S(Cudd_ReadSize(e.m)); F t(e.N(),1); for(int i=0;i<sz;i++) if(a[i]){ F g=e.table(a[i]); e.canon({BDD,a[i],g,{}}); for(size_t x=0;x<t.size();x++) t[x]=t[x]&&g[x]; } for(int i=0;i<sz;i++) if(a[i]) e.unref(a[i]); SV(free(a)); e.need(t==f.f,"the conjunction of the factors is "+E::show(t)+" instead of "+E::show(f.f)); }),
OP(PrioritySelect,3,{ if(e.n<3) return; std::vector<V> ix; int N; auto d=numVars(e,ix,3,N); H f=e.b(); V other; for(int i=0;i<e.n;i++) if(std::find(ix[0].begin(),ix[0].end(),i)==ix[0].end()&&std::find(ix[1].begin(),ix[1].end(),i)==ix[1].end()) other.push_back(i); F w=e.ex(f.f,other,0); DdNode*R=build(e,w); if(!R) return; DD_PRFP pf[3]={Cudd_Xgty,Cudd_Dxygtdxz,Cudd_Dxygtdyz}; int k=e.r.below(3); DdNode*q=S(Cudd_PrioritySelect(e.m,R,d.data(),d.data()+N,d.data()+2*N,nullptr,N,pf[k])); F t; bool ok=e.got(q,t); e.unref(R); if(!ok) return; F want=w; for(size_t x=0;x<e.N();x++) if(w[x]){ int a=num(x,ix[0]),b=num(x,ix[1]); for(int c=0;c<(1<<N);c++){ size_t y=x; for(int i=0;i<N;i++) y=(y&~((size_t)1<<ix[1][i]))|((size_t)(c>>(N-1-i)&1)<<ix[1][i]); if(w[y]&&(k==0?b>c:k==1?(a^b)>(a^c):(a^b)>(b^c))) want[x]=0; } } e.need(t==want,"wrong selection "+E::show(t)+" instead of "+E::show(want)); }),
OP(CountPath,2,{ H f=e.b(); std::function<double(DdNode*)> pt=[&](DdNode*q)->double{ q=Cudd_Regular(q); if(cuddIsConstant(q)) return 1; return pt(cuddT(q))+pt(cuddE(q)); }; double c=S(Cudd_CountPath(f.n)); if(c==(double)CUDD_OUT_OF_MEM) e.null(); else e.need(c==pt(f.n),"wrong number of all paths"); }),
OP(Nodes,2,{ H f=e.b(); std::set<DdNode*> s,t; std::function<void(DdNode*)> rec=[&](DdNode*q){ q=Cudd_Regular(q); if(!s.insert(q).second||cuddIsConstant(q)) return; rec(cuddT(q)); rec(cuddE(q)); }; rec(f.n); DdNode*nd; DdGen*g=S(Cudd_FirstNode(e.m,f.n,&nd)); if(!g){ e.null(); return; } bool twice=false; while(!Cudd_IsGenEmpty(g)){ if(!t.insert(nd).second) twice=true; for(DdNode*c:{cuddIsConstant(nd)?nullptr:cuddT(nd),cuddIsConstant(nd)?nullptr:Cudd_Regular(cuddE(nd))}) if(c&&!t.count(c)) twice=true; if(!S(Cudd_NextNode(g,&nd))) break; } SV(Cudd_GenFree(g)); e.need(!twice&&s==t,"the enumerated nodes are not the nodes of the diagram, children first"); }),
OP(Export,4,{ exportOp(e); }),
}; return v; }
}}
