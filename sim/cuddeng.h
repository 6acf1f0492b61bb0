// Engine for the CUDD properties: a seeded sequence of operations on one real DdManager inside a simulated process.
// Every handle has a model (an explicit table over all assignments); after each operation the result is compared
// with the model of the operation. All model code runs outside the simulated heap.
#pragma once
#include "props.h"
extern "C" {
#include "util.h"
#include "mtr.h"
#include "epd.h"
#include "cudd.h"
#include "mtr.h"
#include "cuddInt.h"
}
#undef fail
#include <cmath>
#include <functional>
#include <cstring>
#include <cstdio>
namespace dst { extern void allocFaultsOff(),allocFaultsOn(); namespace ce {
typedef std::vector<uint8_t> F;            // Boolean function / set family: one entry per assignment
typedef std::vector<double> D;             // arithmetic function
enum Kind { BDD, ADD, ZDD };
struct H { Kind k; DdNode*n; F f; D d; };
struct Bad { std::string klass,msg; };
struct Grp { int lo,size; bool fixed; };
struct Stop {};                             // the manager gave up legitimately (creation failed under faults)
template<class T> static inline T insim(const std::function<T()>&f){ SimScope s; return f(); }
#define S(x) ([&]{ ::dst::SimScope s_; return (x); }())
#define SV(x) do{ ::dst::SimScope s_; x; }while(0)
struct E {
    Rng r; int n=0,nz=0,mult=0; DdManager*m=nullptr; bool faults=false,faultRun=false; std::vector<H> pool; const char*op=""; long opno=0; std::string log; long nulls=0,done=0; bool noCanon=false;
    std::map<std::string,long> cnt; FILE*err=nullptr; std::vector<DdNode*> bvars,avars,zvars; std::vector<Grp> groups; std::vector<std::vector<int>> groupVars; bool faultPhase=false; std::string prefix;
    size_t N()const{ return (size_t)1<<n; } size_t NZ()const{ return (size_t)1<<nz; }
    explicit E(uint64_t seed):r(seed){}
    [[noreturn]] void bad(const std::string&k,const std::string&msg){ throw Bad{k,std::string("operation ")+std::to_string(opno)+" ("+op+"): "+msg}; }
    // ---- reading a diagram without any help from the library's operations
    F table(DdNode*f){ std::map<DdNode*,F> memo; DdNode*one=m->one; return tab(f,one,memo); }
    F tab(DdNode*f,DdNode*one,std::map<DdNode*,F>&memo){ DdNode*g=Cudd_Regular(f); bool c=g!=f; auto it=memo.find(g); if(it==memo.end()){ F t(N());
            if(cuddIsConstant(g)){ if(g!=one) bad("malformed-diagram","a terminal other than one in a BDD"); std::fill(t.begin(),t.end(),1); }
            else { int i=g->index; if(i>=n) bad("malformed-diagram","variable index out of range"); if(Cudd_IsComplement(cuddT(g))) bad("malformed-diagram","complemented then-edge"); if(cuddT(g)==cuddE(g)) bad("malformed-diagram","redundant node"); F a=tab(cuddT(g),one,memo),b=tab(cuddE(g),one,memo); for(size_t x=0;x<t.size();x++) t[x]=(x>>i&1)?a[x]:b[x]; }
            it=memo.emplace(g,t).first; }
        F t=it->second; if(c) for(auto&x:t) x=!x; return t; }
    D values(DdNode*f){ std::map<DdNode*,D> memo; return vals(f,memo); }
    D vals(DdNode*g,std::map<DdNode*,D>&memo){ if(Cudd_IsComplement(g)) bad("malformed-diagram","complemented edge in an ADD"); auto it=memo.find(g); if(it!=memo.end()) return it->second; D t(N());
        if(cuddIsConstant(g)) std::fill(t.begin(),t.end(),cuddV(g)); else { int i=g->index; if(i>=n) bad("malformed-diagram","variable index out of range"); if(cuddT(g)==cuddE(g)) bad("malformed-diagram","redundant node"); D a=vals(cuddT(g),memo),b=vals(cuddE(g),memo); for(size_t x=0;x<t.size();x++) t[x]=(x>>i&1)?a[x]:b[x]; }
        return memo[g]=t; }
    F family(DdNode*f){ F t(NZ()); DdNode*one=m->one,*zero=m->zero; for(size_t x=0;x<t.size();x++){ DdNode*g=f; bool ok=true; for(int l=0;l<nz;l++){ int v=m->invpermZ[l]; if(!cuddIsConstant(g)&&(int)g->index==v){ g=(x>>v&1)?cuddT(g):cuddE(g); } else if(x>>v&1){ ok=false; break; } } if(ok&&!cuddIsConstant(g)) bad("malformed-diagram","ZDD variables out of order"); if(ok&&g!=one&&g!=zero) bad("malformed-diagram","a terminal other than zero or one in a ZDD"); t[x]=ok&&g==one; } return t; }
    // ---- results
    bool null(const char*what="the result"){ if(!faults) bad("unexpected-failure",std::string(what)+" is NULL although nothing failed; error code "+std::to_string((int)Cudd_ReadErrorCode(m))); nulls++; return false; }
    void keep(H h){ pool.push_back(h); }
    void evict(){ while(pool.size()>=48) drop(r.below(pool.size())); }   // only between operations: an operation may hold copies of handles
    void drop(size_t i){ H h=pool[i]; pool.erase(pool.begin()+i); SV(if(h.k==ZDD) Cudd_RecursiveDerefZdd(m,h.n); else if(h.k==BDD&&(i&3)==1) Cudd_IterDerefBdd(m,h.n); else Cudd_RecursiveDeref(m,h.n)); }
    static std::string show(const F&f){ std::string s; for(auto x:f) s+=x?'1':'0'; return s.size()>80?s.substr(0,80)+"...":s; }
    static std::string show(const D&d){ std::string s; char b[32]; for(size_t i=0;i<d.size()&&i<20;i++){ snprintf(b,32,"%g ",d[i]); s+=b; } return s; }
    bool bdd(DdNode*q,const F&want,const char*what="the result"){ if(!q) return null(what); SV(Cudd_Ref(q)); F t=table(q); if(t!=want) bad("wrong-result",std::string(what)+" is "+show(t)+" instead of "+show(want)); canon({BDD,q,t,{}}); keep({BDD,q,t,{}}); return true; }
    bool add(DdNode*q,const D&want,const char*what="the result"){ if(!q) return null(what); SV(Cudd_Ref(q)); D t=values(q); bool ok=true; for(size_t i=0;i<t.size();i++) if(!(t[i]==want[i]||std::fabs(t[i]-want[i])<=1e-9*std::max(1.0,std::fabs(want[i])))) ok=false; if(!ok) bad("wrong-result",std::string(what)+" is "+show(t)+" instead of "+show(want)); canon({ADD,q,{},t}); double mx=0; bool in=true; for(double x:t){ mx=std::max(mx,std::fabs(x)); in=in&&x==std::floor(x); } if(mx>1e5||!in){ SV(Cudd_RecursiveDeref(m,q)); return true; } keep({ADD,q,{},t}); return true; }
    bool zdd(DdNode*q,const F&want,const char*what="the result"){ if(!q) return null(what); SV(Cudd_Ref(q)); F t=family(q); if(t!=want) bad("wrong-result",std::string(what)+" is "+show(t)+" instead of "+show(want)); canon({ZDD,q,t,{}}); keep({ZDD,q,t,{}}); return true; }
    // a result of which only a property is required: returned referenced and read
    bool got(DdNode*q,F&t,const char*what="the result"){ if(!q) return null(what); SV(Cudd_Ref(q)); t=table(q); canon({BDD,q,t,{}}); keep({BDD,q,t,{}}); return true; }
    void canon(const H&h){ if(noCanon) return; for(auto&o:pool) if(o.k==h.k){ bool eq=h.k==ADD?o.d==h.d:o.f==h.f; if(eq!=(o.n==h.n)){ if(h.k==ADD&&!eq) continue; bad("not-canonical","two handles for the same function differ"); } } }
    void verifyPool(const char*when){ for(size_t i=0;i<pool.size();i++){ H&h=pool[i]; bool ok=h.k==BDD?table(h.n)==h.f:h.k==ZDD?family(h.n)==h.f:values(h.n)==h.d; if(!ok) bad("handle-changed",std::string("handle ")+std::to_string(i)+" of kind "+(h.k==BDD?"BDD":h.k==ADD?"ADD":"ZDD")+" changed its meaning "+when+": "+(h.k==BDD?show(table(h.n))+" instead of "+show(h.f):h.k==ADD?show(values(h.n))+" instead of "+show(h.d):show(family(h.n))+" instead of "+show(h.f))); } for(size_t i=0;i<pool.size();i++) for(size_t j=0;j<i;j++) if(pool[i].k==pool[j].k&&!noCanon){ bool eq=pool[i].k==ADD?pool[i].d==pool[j].d:pool[i].f==pool[j].f; if(eq!=(pool[i].n==pool[j].n)) bad("not-canonical",std::string("two handles for the same function differ ")+when); } }
    void checkManager(const char*when){ bool fo=faults; if(fo) allocFaultsOff(); int a=S(Cudd_DebugCheck(m)),b=S(Cudd_CheckKeys(m)); if(fo) allocFaultsOn(); if((a||b)&&!(faults&&(a==CUDD_OUT_OF_MEM||b==CUDD_OUT_OF_MEM))) bad("manager-inconsistent",std::string("the library's own consistency checks report ")+std::to_string(a)+" and "+std::to_string(b)+" "+when); }
    std::map<DdNode*,long> constBase; bool constKnown=false;                     // references the manager itself holds on its constants
    // the references held by live nodes, by the manager itself and by the handles are all the references there are
    void audit(const char*when){ SV(cuddClearDeathRow(m)); std::map<DdNode*,long> w; auto in=[&](DdNode*q){ w[Cudd_Regular(q)]++; }; std::vector<DdNode*> all;
        for(int i=0;i<m->size;i++){ DdSubtable*t=&m->subtables[i]; for(unsigned j=0;j<t->slots;j++) for(DdNode*q=t->nodelist[j];q!=&m->sentinel;q=q->next){ all.push_back(q); if(q->ref){ in(cuddT(q)); in(cuddE(q)); } } }
        for(int i=0;i<m->sizeZ;i++){ DdSubtable*t=&m->subtableZ[i]; for(unsigned j=0;j<t->slots;j++) for(DdNode*q=t->nodelist[j];q;q=q->next){ all.push_back(q); if(q->ref){ in(cuddT(q)); in(cuddE(q)); } } }
        for(int i=0;i<m->size;i++) in(m->vars[i]); if(m->univ&&m->sizeZ) in(m->univ[0]); for(auto&h:pool) in(h.n); for(auto a:avars) in(a);
        std::vector<DdNode*> cs; for(unsigned j=0;j<m->constants.slots;j++) for(DdNode*q=m->constants.nodelist[j];q;q=q->next) cs.push_back(q);
        if(!constKnown){ constKnown=true; for(auto q:cs) constBase[q]=(long)q->ref-(w.count(q)?w[q]:0); }
        for(auto q:cs) if(q->ref!=DD_MAXREF){ long x=(w.count(q)?w[q]:0)+(constBase.count(q)&&(q==m->one||q==m->zero||q==m->plusinfinity||q==m->minusinfinity)?constBase[q]:0); if((long)q->ref!=x) bad((long)q->ref>x?"reference-leak":"reference-lost",std::string("the constant ")+std::to_string(cuddV(q))+" has "+std::to_string(q->ref)+" references instead of "+std::to_string(x)+" "+when); }
        for(DdNode*q:all){ auto it=w.find(q); long x=it==w.end()?0:it->second; if((long)q->ref!=x&&q->ref!=DD_MAXREF) bad((long)q->ref>x?"reference-leak":"reference-lost",std::string("a node of variable ")+std::to_string(q->index)+" has "+std::to_string(q->ref)+" references instead of "+std::to_string(x)+" "+when); } }
    bool dyn()const{ return m->autoDyn||m->autoDynZ; }   // automatic reordering is on
    // ---- operands
    const H&pick(Kind k){ for(int t=0;t<400;t++){ const H&h=pool[r.below(pool.size())]; if(h.k==k) return h; } for(auto&h:pool) if(h.k==k) return h; throw Stop(); }
    bool has(Kind k){ for(auto&h:pool) if(h.k==k) return true; return false; }
    H b(){ return pick(BDD); } H a(){ return pick(ADD); } H z(){ return pick(ZDD); }
    H a01(){ for(int t=0;t<60;t++){ H h=pick(ADD); bool ok=true; for(double x:h.d) ok=ok&&(x==0||x==1); if(ok) return h; } int v=r.below(n); H h{ADD,avars[v],{},D(N())}; for(size_t x=0;x<N();x++) h.d[x]=x>>v&1; return h; }
    F varF(int v){ F f(N()); for(size_t x=0;x<N();x++) f[x]=x>>v&1; return f; }
    std::vector<int> subset(int pct){ std::vector<int> s; for(int i=0;i<n;i++) if(r.chance(pct)) s.push_back(i); return s; }
    // cube diagrams are built with the library and compared like any result; returned referenced
    DdNode*cube(const std::vector<int>&vs){ int*ix=(int*)S(malloc(sizeof(int)*(vs.size()+1))); if(!ix) return nullptr; for(size_t i=0;i<vs.size();i++) ix[i]=vs[i]; DdNode*q=S(Cudd_IndicesToCube(m,ix,(int)vs.size())); SV(free(ix)); if(!q){ null("a cube"); return nullptr; } SV(Cudd_Ref(q)); F t=table(q),w(N(),1); for(size_t x=0;x<N();x++) for(int v:vs) if(!(x>>v&1)) w[x]=0; if(t!=w) bad("wrong-result","a cube of variables is "+show(t)+" instead of "+show(w)); return q; }
    void unref(DdNode*q){ SV(Cudd_RecursiveDeref(m,q)); }
    F ex(const F&f,const std::vector<int>&vs,int mode){ F t=f; for(int v:vs){ F u(N()); for(size_t x=0;x<N();x++){ uint8_t p=t[x|(1u<<v)],q=t[x&~((size_t)1<<v)]; u[x]=mode==0?p|q:mode==1?p&q:p^q; } t=u; } return t; }
    D exd(const D&f,const std::vector<int>&vs,const std::function<double(double,double)>&o){ D t=f; for(int v:vs){ D u(N()); for(size_t x=0;x<N();x++) u[x]=o(t[x|(1u<<v)],t[x&~((size_t)1<<v)]); t=u; } return t; }
    bool dep(const F&f,int v){ for(size_t x=0;x<N();x++) if(f[x]!=f[x^((size_t)1<<v)]) return true; return false; }
    std::vector<int> supp(const F&f){ std::vector<int> s; for(int v=0;v<n;v++) if(dep(f,v)) s.push_back(v); return s; }
    static bool leq(const F&f,const F&g){ for(size_t x=0;x<f.size();x++) if(f[x]&&!g[x]) return false; return true; }
    static bool isZero(const F&f){ for(auto x:f) if(x) return false; return true; } static bool isOne(const F&f){ for(auto x:f) if(!x) return false; return true; }
    static size_t ones(const F&f){ size_t k=0; for(auto x:f) k+=x; return k; }
    template<class O> F map2(const F&f,const F&g,O o){ F t(f.size()); for(size_t x=0;x<t.size();x++) t[x]=o(f[x],g[x])?1:0; return t; }
    template<class O> D mapd(const D&f,const D&g,O o){ D t(f.size()); for(size_t x=0;x<t.size();x++) t[x]=o(f[x],g[x]); return t; }
    void need(bool ok,const std::string&what){ if(!ok) bad("wrong-result",what); }
    int*ints(size_t k){ int*p=(int*)S(malloc(sizeof(int)*(k+1))); return p; }
};
std::string dddmpSession(uint64_t seed,int n,int ops,int cycles,int reorder,const std::string&prefix);
struct Op { const char*name; int w; void(*f)(E&); };
extern const std::vector<Op> &bddOps(); extern const std::vector<Op>&addOps(); extern const std::vector<Op>&zddOps(); extern const std::vector<Op>&mgrOps();
}}
