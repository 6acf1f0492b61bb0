// ADD and ZDD operations with their models
#include "cuddeng.h"
namespace dst { namespace ce {
#define OP(name,w,...) {#name,w,[](E&e)__VA_ARGS__}
typedef std::vector<int> V;
static D bin(E&e,const H&f,const H&g,const std::function<double(double,double)>&o){ D t(e.N()); for(size_t x=0;x<t.size();x++) t[x]=o(f.d[x],g.d[x]); return t; }
static DdNode*acube(E&e,const V&vs){ std::vector<DdNode*> d; V ph; for(int v:vs){ d.push_back(e.avars[v]); ph.push_back(1); } DdNode*q=S(Cudd_addComputeCube(e.m,d.data(),ph.data(),(int)vs.size())); if(!q){ e.null("an ADD cube"); return nullptr; } SV(Cudd_Ref(q)); D t=e.values(q); for(size_t x=0;x<e.N();x++){ double w=1; for(int v:vs) if(!(x>>v&1)) w=0; if(t[x]!=w) e.bad("wrong-result","an ADD cube has wrong values"); } return q; }
static D bv(E&e,int i){ D t(e.N()); for(size_t x=0;x<t.size();x++) t[x]=x>>i&1; return t; }
static size_t permuted(E&e,size_t x,const V&p){ size_t y=0; for(int i=0;i<e.n;i++) y|=(x>>p[i]&1)<<i; return y; }
static V randPerm(E&e){ V p; for(int i=0;i<e.n;i++) p.push_back(i); for(int i=e.n-1;i>0;i--) std::swap(p[i],p[e.r.below(i+1)]); return p; }
static void apply(E&e,DD_AOP o,bool z01,const std::function<double(double,double)>&md){ H f=z01?e.a01():e.a(),g=z01?e.a01():e.a(); e.add(S(Cudd_addApply(e.m,o,f.n,g.n)),bin(e,f,g,md)); }
#define AP(name,w,fn,z,expr) OP(name,w,{ apply(e,fn,z,[](double x,double y)->double{ (void)x;(void)y; return expr; }); })
const std::vector<Op>&addOps(){ static const std::vector<Op> v={
OP(AddConst,4,{ double c=e.r.range(-3,4); e.add(S(Cudd_addConst(e.m,c)),D(e.N(),c)); }),
OP(AddIthVar,6,{ int i=e.r.below(e.n); e.add(S(Cudd_addIthVar(e.m,i)),bv(e,i)); }),
AP(AddPlus,10,Cudd_addPlus,false,x+y), AP(AddTimes,10,Cudd_addTimes,false,x*y), OP(AddMinus,8,{ if(!e.m->autoDyn) apply(e,Cudd_addMinus,false,[](double x,double y)->double{ return x-y; }); }), AP(AddMin,6,Cudd_addMinimum,false,std::min(x,y)), AP(AddMax,6,Cudd_addMaximum,false,std::max(x,y)),
AP(AddThreshold,4,Cudd_addThreshold,false,x>=y?x:0), AP(AddSetNZ,4,Cudd_addSetNZ,false,y!=0?y:x), AP(AddOneZeroMax,4,Cudd_addOneZeroMaximum,false,x>y?1:0), AP(AddAgreement,4,Cudd_addAgreement,false,x==y?x:0),
AP(AddDiff,4,Cudd_addDiff,false,x==y?DD_PLUS_INF_VAL:std::min(x,y)),
AP(AddOr,5,Cudd_addOr,true,(x!=0||y!=0)?1:0), AP(AddNand,4,Cudd_addNand,true,(x!=0&&y!=0)?0:1), AP(AddNor,4,Cudd_addNor,true,(x!=0||y!=0)?0:1), AP(AddXor,4,Cudd_addXor,true,(x!=0)!=(y!=0)?1:0), AP(AddXnor,4,Cudd_addXnor,true,(x!=0)==(y!=0)?1:0),
OP(AddDivide,3,{ H f=e.a(),g=e.a(); for(double x:g.d) if(x==0) return; e.add(S(Cudd_addApply(e.m,Cudd_addDivide,f.n,g.n)),bin(e,f,g,[](double x,double y){return x==0?0:x/y;})); }),
OP(AddIte,8,{ H f=e.a01(),g=e.a(),h=e.a(); D w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=f.d[x]!=0?g.d[x]:h.d[x]; e.add(S(Cudd_addIte(e.m,f.n,g.n,h.n)),w); DdNode*q=S(Cudd_addIteConstant(e.m,f.n,g.n,h.n)); if(!q){ e.null(); return; } bool c=true; for(double x:w) c=c&&x==w[0]; if(q==DD_NON_CONSTANT) e.need(!c,"a constant if-then-else is called non-constant"); else { D t=e.values(q); e.need(t==w,"wrong constant if-then-else"); } }),
OP(AddLeq,4,{ H f=e.a(),g=e.a(); bool w=true; for(size_t x=0;x<e.N();x++) if(f.d[x]>g.d[x]) w=false; e.need((S(Cudd_addLeq(e.m,f.n,g.n))!=0)==w,"comparison is wrong"); }),
OP(AddCmpl,4,{ H f=e.a(); D w; for(double x:f.d) w.push_back(x==0); e.add(S(Cudd_addCmpl(e.m,f.n)),w); }),
OP(AddNegate,4,{ H f=e.a(); D w; for(double x:f.d) w.push_back(x==0?0:-x); e.add(S(Cudd_addNegate(e.m,f.n)),w); }),
OP(AddRoundOff,3,{ H f=e.a(); e.add(S(Cudd_addRoundOff(e.m,f.n,2)),f.d); }),
OP(AddFindMax,4,{ H f=e.a(); DdNode*q=S(Cudd_addFindMax(e.m,f.n)); if(!q) e.null(); else e.need(cuddIsConstant(q)&&cuddV(q)==*std::max_element(f.d.begin(),f.d.end()),"wrong maximum"); q=S(Cudd_addFindMin(e.m,f.n)); if(!q) e.null(); else e.need(cuddIsConstant(q)&&cuddV(q)==*std::min_element(f.d.begin(),f.d.end()),"wrong minimum"); }),
OP(AddIthBit,3,{ H f=e.a(); for(double x:f.d) if(x<0) return; int b=e.r.below(4); D w; for(double x:f.d) w.push_back(((long)x>>b)&1); e.add(S(Cudd_addIthBit(e.m,f.n,b)),w); F u; for(double x:w) u.push_back(x!=0); e.bdd(S(Cudd_addBddIthBit(e.m,f.n,b)),u); }),
OP(AddScalarInverse,3,{ H f=e.a(); D w; for(double x:f.d){ if(x==0) return; w.push_back(1/x); } DdNode*ep=S(Cudd_addConst(e.m,1e-3)); if(!ep){ e.null(); return; } SV(Cudd_Ref(ep)); e.add(S(Cudd_addScalarInverse(e.m,f.n,ep)),w); e.unref(ep); }),
OP(AddExistAbstract,6,{ H f=e.a(); V vs=e.subset(35); DdNode*c=acube(e,vs); if(!c) return; e.add(S(Cudd_addExistAbstract(e.m,f.n,c)),e.exd(f.d,vs,[](double a,double b){return a+b;})); e.unref(c); }),
OP(AddUnivAbstract,5,{ H f=e.a(); V vs=e.subset(30); DdNode*c=acube(e,vs); if(!c) return; D w=e.exd(f.d,vs,[](double a,double b){return a*b;}); for(double x:w) if(std::fabs(x)>1e12){ e.unref(c); return; } e.add(S(Cudd_addUnivAbstract(e.m,f.n,c)),w); e.unref(c); }),
OP(AddOrAbstract,5,{ H f=e.a01(); V vs=e.subset(40); DdNode*c=acube(e,vs); if(!c) return; e.add(S(Cudd_addOrAbstract(e.m,f.n,c)),e.exd(f.d,vs,[](double a,double b){return (a!=0||b!=0)?1.0:0.0;})); e.unref(c); }),
OP(AddCompose,5,{ H f=e.a(),g=e.a01(); int v=e.r.below(e.n); D w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=f.d[(x&~((size_t)1<<v))|((size_t)(g.d[x]!=0)<<v)]; e.add(S(Cudd_addCompose(e.m,f.n,g.n,v)),w); }),
OP(AddVectorCompose,5,{ H f=e.a(); std::vector<DdNode*> vec; std::vector<D> ds; for(int i=0;i<e.n;i++){ if(e.r.chance(50)){ vec.push_back(e.avars[i]); ds.push_back(bv(e,i)); } else { H h=e.a01(); vec.push_back(h.n); ds.push_back(h.d); } } D w(e.N()); for(size_t x=0;x<w.size();x++){ size_t y=0; for(int i=0;i<e.n;i++) y|=(size_t)(ds[i][x]!=0)<<i; w[x]=f.d[y]; } e.add(S(Cudd_addVectorCompose(e.m,f.n,vec.data())),w); }),
OP(AddPermute,5,{ H f=e.a(); V p=randPerm(e); D w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=f.d[permuted(e,x,p)]; e.add(S(Cudd_addPermute(e.m,f.n,p.data())),w); }),
OP(AddSwapVariables,4,{ if(e.n<2) return; H f=e.a(); V q=randPerm(e); int N=1+e.r.below(e.n/2); std::vector<DdNode*> d; V p; for(int i=0;i<e.n;i++) p.push_back(i); for(int i=0;i<N;i++) d.push_back(e.avars[q[i]]); for(int i=0;i<N;i++){ d.push_back(e.avars[q[N+i]]); std::swap(p[q[i]],p[q[N+i]]); } D w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=f.d[permuted(e,x,p)]; e.add(S(Cudd_addSwapVariables(e.m,f.n,d.data(),d.data()+N,N)),w); }),
OP(AddBddThreshold,4,{ H f=e.a(); double c=e.r.range(-3,4); F w,u; for(double x:f.d){ w.push_back(x>=c); u.push_back(x>c); } e.bdd(S(Cudd_addBddThreshold(e.m,f.n,c)),w); e.bdd(S(Cudd_addBddStrictThreshold(e.m,f.n,c)),u); }),
OP(AddBddInterval,4,{ H f=e.a(); double c=e.r.range(-3,4),d=c+e.r.below(4); F w; for(double x:f.d) w.push_back(x>=c&&x<=d); e.bdd(S(Cudd_addBddInterval(e.m,f.n,c,d)),w); }),
OP(BddToAdd,5,{ H f=e.b(); D w; for(auto x:f.f) w.push_back(x); e.add(S(Cudd_BddToAdd(e.m,f.n)),w); }),
OP(AddBddPattern,4,{ H f=e.a(); F w; for(double x:f.d) w.push_back(x!=0); e.bdd(S(Cudd_addBddPattern(e.m,f.n)),w); }),
OP(AddConstrain,4,{ H f=e.a(),c=e.a01(); bool any=false; for(double x:c.d) any=any||x!=0; if(!any) return; for(int k=0;k<2;k++){ DdNode*q=k?S(Cudd_addRestrict(e.m,f.n,c.n)):S(Cudd_addConstrain(e.m,f.n,c.n)); if(!q){ e.null(); continue; } SV(Cudd_Ref(q)); D t=e.values(q); bool ok=true; for(size_t x=0;x<t.size();x++) if(c.d[x]!=0&&t[x]!=f.d[x]) ok=false; e.unref(q); e.need(ok,"the restricted ADD differs inside the care set"); } }),
OP(AddTriangle,3,{ H f=e.a(),g=e.a(); V zs=e.subset(35); std::vector<DdNode*> z; for(int v:zs) z.push_back(e.avars[v]); D w=e.exd(bin(e,f,g,[](double a,double b){return a+b;}),zs,[](double a,double b){return std::min(a,b);}); e.add(S(Cudd_addTriangle(e.m,f.n,g.n,z.data(),(int)z.size())),w); }),
OP(AddWalsh,2,{ if(e.n<2) return; V q=randPerm(e); int N=1+e.r.below(e.n/2); std::vector<DdNode*> d,bd; for(int i=0;i<2*N;i++){ d.push_back(e.avars[q[i]]); bd.push_back(e.bvars[q[i]]); } D w(e.N()); for(size_t x=0;x<w.size();x++){ int p=0; for(int i=0;i<N;i++) p^=(x>>q[i]&1)&(x>>q[N+i]&1); w[x]=p?-1:1; } e.add(S(Cudd_addWalsh(e.m,d.data(),d.data()+N,N)),w); }),
OP(AddHamming,2,{ if(e.n<2) return; V q=randPerm(e); int N=1+e.r.below(e.n/2); std::vector<DdNode*> d,bd; for(int i=0;i<2*N;i++){ d.push_back(e.avars[q[i]]); bd.push_back(e.bvars[q[i]]); } D w(e.N()),u(e.N()); for(size_t x=0;x<w.size();x++){ int p=0; for(int i=0;i<N;i++) p+=(x>>q[i]&1)^(x>>q[N+i]&1); w[x]=p; u[x]=p==0; } e.add(S(Cudd_addHamming(e.m,bd.data(),bd.data()+N,N)),w); e.add(S(Cudd_addXeqy(e.m,N,d.data(),d.data()+N)),u,"equality"); }),
OP(AddResidue,2,{ int n=1+e.r.below(e.n),m=2+e.r.below(5),top=e.r.below(e.n-n+1); int o=e.r.below(2)?CUDD_RESIDUE_MSB:CUDD_RESIDUE_DEFAULT; D w(e.N()); for(size_t x=0;x<w.size();x++){ int v=0; for(int i=0;i<n;i++){ int b=x>>(top+i)&1; if(o==CUDD_RESIDUE_MSB) v=v*2+b; else v|=b<<i; } w[x]=v%m; } e.add(S(Cudd_addResidue(e.m,n,m,o,top)),w); }),
OP(AddCubes,3,{ H f=e.a(); int*cb; CUDD_VALUE_TYPE val; D u(e.N(),0); std::vector<char> seen(e.N(),0); DdGen*g=S(Cudd_FirstCube(e.m,f.n,&cb,&val)); if(!g){ e.null(); return; } while(!Cudd_IsGenEmpty(g)){ for(size_t x=0;x<e.N();x++){ bool in=true; for(int i=0;i<e.n;i++) if(cb[i]!=2&&(int)(x>>i&1)!=cb[i]) in=false; if(in){ e.need(!seen[x],"two enumerated cubes overlap"); seen[x]=1; u[x]=val; } } if(!S(Cudd_NextCube(g,&cb,&val))) break; } SV(Cudd_GenFree(g)); e.need(u==f.d,"the enumerated cubes do not give the ADD"); }),
OP(AddEval,3,{ H f=e.a(); V in; size_t x=e.r.below(e.N()); for(int i=0;i<e.n;i++) in.push_back(x>>i&1); DdNode*q=S(Cudd_Eval(e.m,f.n,in.data())); e.need(q&&cuddIsConstant(q)&&cuddV(q)==f.d[x],"wrong value of the ADD"); int lv=S(Cudd_CountLeaves(f.n)); std::set<double> s(f.d.begin(),f.d.end()); e.need(lv==(int)s.size(),"wrong number of leaves"); }),
OP(AddEvalConst,3,{ H f=e.a01(),g=e.a(); bool any=false,c=true; double v=0; for(size_t x=0;x<e.N();x++) if(f.d[x]==1){ if(!any) v=g.d[x]; else if(g.d[x]!=v) c=false; any=true; } DdNode*q=S(Cudd_addEvalConst(e.m,f.n,g.n)); if(!q){ e.null(); return; } if(!any) return; if(q==DD_NON_CONSTANT||!cuddIsConstant(q)) e.need(!c,"a constant is called non-constant"); else e.need(c&&cuddIsConstant(q)&&cuddV(q)==v,"wrong constant"); }),
OP(AddGeneralVectorCompose,3,{ H f=e.a(); std::vector<DdNode*> on,off; std::vector<D> ds; std::vector<DdNode*> own; for(int i=0;i<e.n;i++){ H h=e.r.chance(50)?H{ADD,e.avars[i],{},bv(e,i)}:e.a01(); DdNode*c=S(Cudd_addCmpl(e.m,h.n)); if(!c){ e.null(); for(auto q:own) e.unref(q); return; } SV(Cudd_Ref(c)); own.push_back(c); on.push_back(h.n); off.push_back(c); ds.push_back(h.d); } D w(e.N()); for(size_t x=0;x<w.size();x++){ size_t y=0; for(int i=0;i<e.n;i++) y|=(size_t)(ds[i][x]!=0)<<i; w[x]=f.d[y]; } DdNode*q=S(Cudd_addGeneralVectorCompose(e.m,f.n,on.data(),off.data())); bool ok=e.add(q,w); (void)ok; for(auto o:own) e.unref(o); }),
OP(AddLog,2,{ H f=e.a(); D w; for(double x:f.d){ if(x<=0) return; w.push_back(std::log(x)); } DdNode*q=e.r.chance(50)?S(Cudd_addMonadicApply(e.m,Cudd_addLog,f.n)):S(Cudd_addMonadicApply(e.m,Cudd_addLog,f.n)); e.add(q,w); }),
OP(AddMonadic,2,{ H f=e.a(); D w; for(double x:f.d) w.push_back(x==0?0:-x); e.add(S(Cudd_addMonadicApply(e.m,Cudd_addNegate,f.n)),w); }),
OP(AddMatrixMultiply,4,{ H f=e.a(),g=e.a(); V zs; std::vector<DdNode*> z; for(int v=0;v<2;v++) zs.push_back(v); for(int v:zs) z.push_back(e.avars[v]); D w=e.exd(bin(e,f,g,[](double a,double b){return a*b;}),zs,[](double a,double b){return a+b;}); for(double x:w) if(std::fabs(x)>1e12) return; e.add(e.r.chance(60)?S(Cudd_addMatrixMultiply(e.m,f.n,g.n,z.data(),(int)z.size())):S(Cudd_addTimesPlus(e.m,f.n,g.n,z.data(),(int)z.size())),w); }),
OP(AddOuterSum,3,{ H f=e.a(),g=e.a(),h=e.a(); D w(e.N()); for(size_t x=0;x<w.size();x++) w[x]=std::min(f.d[x],g.d[x]+h.d[x]); e.add(S(Cudd_addOuterSum(e.m,f.n,g.n,h.n)),w); }),
OP(EqualSupNorm,3,{ H f=e.a(),g=e.a(); double tol=1.5; bool w=true; for(size_t x=0;x<e.N();x++) if(std::fabs(f.d[x]-g.d[x])>tol) w=false; if(w) for(size_t x=0;x<e.N();x++) if(std::fabs(f.d[x]-g.d[x])==tol) return; e.need((S(Cudd_EqualSupNorm(e.m,f.n,g.n,tol,0))!=0)==w,"wrong comparison by supremum norm"); }),
OP(AddDump,2,{ if(e.faultRun) return; H f=e.a(); std::string fn=e.prefix+"dump.txt"; FILE*fp=S(fopen(fn.c_str(),"w")); if(!fp) e.bad("unexpected-failure","no dump file"); DdNode*a[1]={f.n}; int q=S(Cudd_DumpDot(e.m,1,a,nullptr,nullptr,fp)); SV(fclose(fp)); if(!q) e.null("the export"); }),
}; return v; }

// ---- ZDDs: a function is a family of subsets of the ZDD variables
static F uni(const F&a,const F&b,int k){ F t(a.size()); for(size_t x=0;x<t.size();x++) t[x]=k==0?a[x]||b[x]:k==1?a[x]&&b[x]:a[x]&&!b[x]; return t; }
static bool contra(E&e,size_t s){ for(int i=0;i+1<e.nz;i+=2) if((s>>i&3)==3) return true; return false; }
static bool isCover(E&e,const F&f){ for(size_t s=0;s<f.size();s++) if(f[s]&&contra(e,s)) return false; return true; }
static F prod(E&e,const F&a,const F&b,bool un){ F t(a.size()); for(size_t x=0;x<a.size();x++) if(a[x]) for(size_t y=0;y<b.size();y++) if(b[y]&&(un||!contra(e,x|y))) t[x|y]=1; return t; }
static F quot(const F&a,const F&b){ F t(a.size(),1); bool any=false; for(size_t c=0;c<b.size();c++) if(b[c]){ any=true; F q(a.size()); for(size_t s=0;s<a.size();s++) if(a[s]&&(s&c)==c) q[s&~c]=1; for(size_t x=0;x<t.size();x++) t[x]=t[x]&&q[x]; } if(!any) return F(a.size()); return t; }
static H cover(E&e){ for(int k=0;k<200;k++){ H h=e.z(); if(isCover(e,h.f)) return h; } throw Bad{"",""}; }
static F coverF(E&e,const F&z){ F t(e.N()); for(size_t s=0;s<z.size();s++) if(z[s]) for(size_t x=0;x<t.size();x++){ bool in=true; for(int i=0;i<e.n;i++){ if((s>>(2*i)&1)&&!(x>>i&1)) in=false; if((s>>(2*i+1)&1)&&(x>>i&1)) in=false; } if(in) t[x]=1; } return t; }
#define COV if(e.mult!=2) return; H f,g; try{ f=cover(e); g=cover(e); }catch(Bad&){ return; }
const std::vector<Op>&zddOps(){ static const std::vector<Op> v={
OP(ZddIthVar,8,{ if(e.m->autoDynZ||e.m->autoDyn) return; for(int i=0;i<e.nz;i++) if(Cudd_ReadPermZdd(e.m,i)!=i) return; int i=e.r.below(e.nz); F w(e.NZ()); for(size_t x=0;x<w.size();x++) w[x]=x>>i&1; e.zdd(S(Cudd_zddIthVar(e.m,i)),w); }),
OP(ZddSingle,8,{ int i=e.r.below(e.nz); DdNode*q=S(Cudd_zddChange(e.m,e.m->one,i)); F w(e.NZ()); w[(size_t)1<<i]=1; e.zdd(q,w); }),
OP(ZddBase,2,{ F w(e.NZ()); w[0]=1; e.zdd(e.m->one,w); e.zdd(e.m->zero,F(e.NZ())); }),
OP(ZddUnion,12,{ H f=e.z(),g=e.z(); e.zdd(S(Cudd_zddUnion(e.m,f.n,g.n)),uni(f.f,g.f,0)); }),
OP(ZddIntersect,8,{ H f=e.z(),g=e.z(); e.zdd(S(Cudd_zddIntersect(e.m,f.n,g.n)),uni(f.f,g.f,1)); }),
OP(ZddDiff,8,{ H f=e.z(),g=e.z(); F w=uni(f.f,g.f,2); e.zdd(S(Cudd_zddDiff(e.m,f.n,g.n)),w); DdNode*q=S(Cudd_zddDiffConst(e.m,f.n,g.n)); if(!q) e.null(); else e.need((q==e.m->zero)==E::isZero(w),"inclusion test is wrong"); }),
OP(ZddIte,8,{ H f=e.z(),g=e.z(),h=e.z(); F w(e.NZ()); for(size_t x=0;x<w.size();x++) w[x]=f.f[x]?g.f[x]:h.f[x]; e.zdd(S(Cudd_zddIte(e.m,f.n,g.n,h.n)),w); }),
OP(ZddChange,8,{ H f=e.z(); int i=e.r.below(e.nz); F w(e.NZ()); for(size_t x=0;x<w.size();x++) w[x]=f.f[x^((size_t)1<<i)]; e.zdd(S(Cudd_zddChange(e.m,f.n,i)),w); }),
OP(ZddSubset,8,{ H f=e.z(); int i=e.r.below(e.nz); F w(e.NZ()),u(e.NZ()); for(size_t x=0;x<w.size();x++) if(!(x>>i&1)){ w[x]=f.f[x|((size_t)1<<i)]; u[x]=f.f[x]; } e.zdd(S(Cudd_zddSubset1(e.m,f.n,i)),w); e.zdd(S(Cudd_zddSubset0(e.m,f.n,i)),u); }),
OP(ZddCoverToBdd,6,{ COV e.bdd(S(Cudd_MakeBddFromZddCover(e.m,f.n)),coverF(e,f.f)); }),
OP(ZddComplement,4,{ COV DdNode*q=S(Cudd_zddComplement(e.m,f.n)); if(!q){ e.null(); return; } SV(Cudd_Ref(q)); F t=e.family(q); e.keep({ZDD,q,t,{}}); F a=coverF(e,f.f),b=coverF(e,t); for(auto&x:a) x=!x; e.need(isCover(e,t)&&a==b,"the complement of a cover is wrong"); }),
OP(ZddIsop,5,{ if(e.mult!=2) return; H u=e.b(),l=e.b(); DdNode*q=S(Cudd_bddAnd(e.m,l.n,u.n)); if(!q){ e.null(); return; } SV(Cudd_Ref(q)); F lf=e.table(q); DdNode*zi=nullptr; DdNode*bq=S(Cudd_zddIsop(e.m,q,u.n,&zi)); if(!bq){ e.null(); e.unref(q); return; } SV(Cudd_Ref(bq)); SV(Cudd_Ref(zi)); F t=e.table(bq),z=e.family(zi); e.unref(q); e.keep({BDD,bq,t,{}}); e.keep({ZDD,zi,z,{}}); e.need(E::leq(lf,t)&&E::leq(t,u.f)&&isCover(e,z)&&coverF(e,z)==t,"the irredundant sum of products is wrong"); }),
OP(ZddPort,6,{ if(e.mult!=1||e.n!=e.nz||e.m->autoDyn||e.m->autoDynZ) return; for(int i=0;i<e.n;i++) if(Cudd_ReadPermZdd(e.m,i)!=Cudd_ReadPerm(e.m,i)) return; H f=e.b(); F w=f.f; DdNode*q=S(Cudd_zddPortFromBdd(e.m,f.n)); if(!e.zdd(q,w)) return; e.bdd(S(Cudd_zddPortToBdd(e.m,q)),w); }),
OP(ZddCount,4,{ H f=e.z(); e.need(S(Cudd_zddCount(e.m,f.n))==(int)E::ones(f.f),"wrong number of sets"); e.need(S(Cudd_zddCountDouble(e.m,f.n))==(double)E::ones(f.f),"wrong number of sets (double)"); }),
OP(ZddSupport,3,{ H f=e.z(); F w(e.N(),1); int per=e.mult; (void)per; std::set<int> s; for(int v=0;v<e.nz;v++) for(size_t x=0;x<e.NZ();x++) if(f.f[x]&&(x>>v&1)) s.insert(v); if(e.nz>e.n||!e.nz) return; DdNode*q=S(Cudd_zddSupport(e.m,f.n)); if(!q){ e.null(); return; } SV(Cudd_Ref(q)); F t=e.table(q); e.unref(q); (void)w; for(int v:e.supp(t)) e.need(v<e.nz,"support of a ZDD"); for(int v:s) e.need(e.dep(t,v),"a ZDD variable is missing in the support"); }),
OP(ZddPaths,4,{ H f=e.z(); int*p; F u(e.NZ()); DdGen*g=S(Cudd_zddFirstPath(e.m,f.n,&p)); if(!g){ e.null(); return; } while(!Cudd_IsGenEmpty(g)){ size_t s=0,dc=0; for(int i=0;i<e.nz;i++){ if(p[i]==1) s|=(size_t)1<<i; else if(p[i]==2) dc|=(size_t)1<<i; } e.need(!u[s],"a path is enumerated twice"); u[s]=1; if(!S(Cudd_zddNextPath(g,&p))) break; } SV(Cudd_GenFree(g)); e.need(u==f.f,"the enumerated sets are "+E::show(u)+" instead of "+E::show(f.f)); }),
OP(ZddDagSize,3,{ H f=e.z(); std::set<DdNode*> s; std::function<void(DdNode*)> rec=[&](DdNode*q){ if(cuddIsConstant(q)||!s.insert(q).second) return; rec(cuddT(q)); rec(cuddE(q)); }; rec(f.n); e.need(S(Cudd_zddDagSize(f.n))==(int)s.size(),"wrong ZDD size "+std::to_string(S(Cudd_zddDagSize(f.n)))+" instead of "+std::to_string(s.size())); }),
OP(ZddProduct,5,{ COV e.zdd(S(Cudd_zddProduct(e.m,f.n,g.n)),prod(e,f.f,g.f,false)); }),
OP(ZddUnateProduct,5,{ H f=e.z(),g=e.z(); e.zdd(S(Cudd_zddUnateProduct(e.m,f.n,g.n)),prod(e,f.f,g.f,true)); }),
OP(ZddWeakDiv,4,{ COV if(E::isZero(g.f)) return; if(e.r.chance(60)){ if(!e.zdd(S(Cudd_zddProduct(e.m,f.n,g.n)),prod(e,f.f,g.f,false))) return; f=e.pool.back(); if(e.r.chance(60)){ H h=cover(e); if(!e.zdd(S(Cudd_zddUnion(e.m,f.n,h.n)),uni(f.f,h.f,0))) return; f=e.pool.back(); } } e.zdd(e.r.chance(50)?S(Cudd_zddWeakDiv(e.m,f.n,g.n)):S(Cudd_zddWeakDivF(e.m,f.n,g.n)),quot(f.f,g.f)); }),
OP(ZddDivide,4,{ if(e.mult!=1) return; H f=e.z(),g=e.z(); if(E::isZero(g.f)) return; if(e.r.chance(60)){ if(!e.zdd(S(Cudd_zddUnateProduct(e.m,f.n,g.n)),prod(e,f.f,g.f,true))) return; f=e.pool.back(); if(e.r.chance(60)){ H h=e.z(); if(!e.zdd(S(Cudd_zddUnion(e.m,f.n,h.n)),uni(f.f,h.f,0))) return; f=e.pool.back(); } } e.zdd(e.r.chance(50)?S(Cudd_zddDivide(e.m,f.n,g.n)):S(Cudd_zddDivideF(e.m,f.n,g.n)),quot(f.f,g.f)); }),
}; return v; }
}}
