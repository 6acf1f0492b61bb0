#include "props.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <ctime>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
namespace dst {
void privateShared();
Stats st;
std::vector<Property> &registry(){ static std::vector<Property> v; return v; }
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
std::string join(const std::vector<std::string>&v,const std::string&sep){ std::string s; for(size_t i=0;i<v.size();i++){ if(i)s+=sep; s+=v[i]; } return s; }
std::string clip(const std::string&s,size_t n){ return s.size()<=n?s:s.substr(0,n)+"...("+std::to_string(s.size())+" bytes)"; }

// ---------------------------------------------------------------- replay files
static std::string ser(const Case&c){
    std::ostringstream o; o<<"slugs-dst-replay 1\nprop "<<c.prop<<"\nseed "<<c.seed<<"\nschedseed "<<c.sched.seed<<"\n";
    for(auto&a:c.args) o<<"arg "<<a<<"\n";
    for(auto&p:c.par){ o<<"par "<<p.first<<" "<<std::count(p.second.begin(),p.second.end(),'\n')<<"\n"<<p.second<<"\n"; }
    for(auto&k:c.sched.knobs) o<<"knob "<<k.first<<" "<<k.second<<"\n";
    for(auto&r:c.sched.rates) o<<"rate "<<domainName[r.dom]<<" "<<actionName[r.act]<<" "<<r.ppm<<" "<<r.argmax<<"\n";
    for(auto&e:c.sched.events) o<<"event "<<domainName[e.dom]<<" "<<e.idx<<" "<<actionName[e.act]<<" "<<e.arg<<"\n";
    for(auto&f:c.disk) o<<"file "<<f.first<<" "<<f.second.isDir<<" "<<f.second.unwritable<<" "<<f.second.data.size()<<"\n"<<f.second.data<<"\n";
    o<<"end\n"; return o.str();
}
static int idxOf(const char**t,int n,const std::string&s){ for(int i=0;i<n;i++) if(s==t[i]) return i; return 0; }
static bool deser(const std::string&txt,Case&c){
    std::istringstream is(txt); std::string l; if(!std::getline(is,l)||l!="slugs-dst-replay 1") return false;
    while(std::getline(is,l)){ std::istringstream ls(l); std::string k; ls>>k;
        if(k=="prop") ls>>c.prop; else if(k=="seed") ls>>c.seed; else if(k=="schedseed") ls>>c.sched.seed; else if(k=="arg"){ c.args.push_back(l.size()>4?l.substr(4):""); }
        else if(k=="par"){ std::string n; int nl; ls>>n>>nl; std::string v,x; for(int i=0;i<=nl;i++){ std::getline(is,x); if(i) v+="\n"; v+=x; } c.par[n]=v; }
        else if(k=="knob"){ std::string n; long v; ls>>n>>v; c.sched.knobs[n]=v; }
        else if(k=="rate"){ Rate r; std::string d,a; ls>>d>>a>>r.ppm>>r.argmax; r.dom=idxOf(domainName,D_N,d); r.act=idxOf(actionName,A_N,a); c.sched.rates.push_back(r); }
        else if(k=="event"){ Event e; std::string d,a; ls>>d>>e.idx>>a>>e.arg; e.dom=idxOf(domainName,D_N,d); e.act=idxOf(actionName,A_N,a); c.sched.events.push_back(e); }
        else if(k=="file"){ std::string n; FileIn f; size_t sz; ls>>n>>f.isDir>>f.unwritable>>sz; f.data.resize(sz); if(sz) is.read(&f.data[0],sz); is.get(); c.disk[n]=f; }
        else if(k=="#") {} else if(k=="end") return true; else return false; }
    return false;
}
// ---------------------------------------------------------------- helpers
Job jobOf(const Case&c){ Job j; j.sched=c.sched; j.args=c.args; j.disk=c.disk; return j; }
Result runJob(const Job&j){ Result r=execute(j); st.take(r); return r; }
Result run(const Case&c,Verdict&v,bool keep){ Result r=runJob(jobOf(c)); if(keep) v.trace=r.trace; v.hash=mix64(v.hash^r.hash); return r; }
int resultLine(const std::string&err){ int res=-1,n=0; for(auto&l:splitLines(err)) if(l.compare(0,7,"RESULT:")==0){ n++; if(l=="RESULT: Specification is realizable.") res=1; else if(l=="RESULT: Specification is unrealizable.") res=0; else res=-2; } return n>1?-2:res; }
bool expectEnd(const Result&r,Verdict&v){ if(r.end==E_RETURN&&r.rc==0) return true; v.fail("abnormal-end","run ended with "+r.describe()+"; stderr: "+clip(r.err,300)); return false; }
void specOf(const Case&c,const std::string&file,Spec&s,Game&g){ std::string err; auto it=c.disk.find(file); if(it==c.disk.end()||!parseSpecText(it->second.data,s,err)||!makeGame(s,g,err)){ s=Spec(); g=Game(); } }
void memSchedule(Rng&r,Schedule&s,int maxRe){
    s.seed=r.next();
    if(r.chance(2)){ s.knobs["cuddmem"]=0; s.knobs["nodecap"]=200; } else {
        s.knobs["cuddmem"]=(1+r.below(6))<<20; long cs[]={2,16,64,512,4096}; s.knobs["cacheslots"]=cs[r.below(5)]; long us[]={8,8,32,256}; s.knobs["uniqueslots"]=us[r.below(4)]; long dr[]={4,16,64,1024}; s.knobs["deathrow"]=dr[r.below(4)]; }
    s.knobs["layout"]=r.below(1u<<30); s.knobs["fill"]=r.below(256); s.knobs["fifo"]=r.below(2); s.knobs["randseed"]=r.below(1u<<30);
    int g[]={0,1000,20000,150000,600000}; int ro[]={0,0,500,5000,50000}; int fl[]={0,0,5000,50000};
    uint32_t a=g[r.below(5)],b=std::min(ro[r.below(5)],maxRe),c=fl[r.below(4)];
    if(a) s.rates.push_back({D_NODE,A_GC,a,0}); if(b) s.rates.push_back({D_NODE,A_REORDER,b,0}); if(c) s.rates.push_back({D_NODE,A_FLUSH,c,0});
}
static bool helperVar(const std::string&n){ return n.compare(0,9,"_l_a_c_v_")==0||n=="_is_infty_cost_Pre"; }   // bookkeeping bits of the cost-optimal strategies
static const char* skipws(const char*p){ while(*p==' '||*p=='\n'||*p=='\t'||*p=='\r') p++; return p; }
bool parseExplicit(const std::string&txt,const Game&g,Machine&m,std::string&err,bool anyOrder){
    std::map<int,MNode> byId;
    m=Machine(); std::vector<std::string> L=splitLines(txt); if(!txt.empty()&&txt.back()!='\n'){ err="file does not end with a newline"; return false; }
    size_t i=0; std::map<std::string,int> bit; for(int k=0;k<g.n;k++) bit[g.names[k]]=k;
    while(i<L.size()){
        if(trim(L[i]).empty()){ i++; continue; }
        int id; char rk[64]; int pos=0; const std::string&l=L[i];
        if(sscanf(l.c_str(),"State %d with rank %63s -> <%n",&id,rk,&pos)<2||!pos){ err="bad state line: "+l; return false; }
        MNode nd; nd.val=0; nd.rank2=-1; if(rk[0]=='('){ if(sscanf(rk,"(%d,%d)",&nd.rank,&nd.rank2)!=2){ err="bad rank: "+l; return false; } } else nd.rank=atoi(rk);
        if(anyOrder?byId.count(id)||id<0:id!=(int)m.nodes.size()){ err="state numbers are not consecutive: "+l; return false; }
        if(l.back()!='>'){ err="bad state line end: "+l; return false; }
        std::string body=l.substr(pos,l.size()-pos-1); std::istringstream bs(body); std::string tok; uint32_t seen=0; int cnt=0;
        while(std::getline(bs,tok,',')){ tok=trim(tok); size_t q=tok.rfind(':'); if(q==std::string::npos){ err="bad valuation: "+l; return false; } auto it=bit.find(tok.substr(0,q)); std::string vv=tok.substr(q+1); if(helperVar(tok.substr(0,q))&&!bit.count(tok.substr(0,q))&&(vv=="0"||vv=="1")) continue; if(it==bit.end()||(vv!="0"&&vv!="1")||(seen>>it->second&1)){ err="bad valuation: "+l; return false; } seen|=1u<<it->second; cnt++; if(vv=="1") nd.val|=1u<<it->second; }
        nd.rank2=nd.rank2; i++; if(i>=L.size()){ err="missing successor line"; return false; }
        std::string sl=L[i]; const char*p=skipws(sl.c_str());
        if(!strncmp(p,"With no successors.",19)){ nd.noSucc=true; }
        else { if(strncmp(p,"With successors :",17)){ err="bad successor line: "+sl; return false; } p+=17; p=skipws(p);
            while(*p){ char*e; long v=strtol(p,&e,10); if(e==p){ err="bad successor list: "+sl; return false; } nd.succ.push_back((int)v); p=skipws(e); if(*p==','){ p=skipws(p+1); if(!*p){ err="dangling comma: "+sl; return false; } } else if(*p){ err="bad successor list: "+sl; return false; } } }
        i++; if(anyOrder) byId[id]=nd; else m.nodes.push_back(nd);
        // number of variables given must be all of them (a deadlocked counterstrategy state lists only inputs)
        uint32_t full=(g.n>=32)?~0u:((1u<<g.n)-1), ins=(1u<<g.ni)-1; if(seen!=full && !(nd.noSucc && seen==ins)){ err="state does not list all variables: "+l; return false; }
    }
    for(auto&x:byId){ if(x.first!=(int)m.nodes.size()){ err="state numbers are not 0..n-1"; return false; } m.nodes.push_back(x.second); }
    for(auto&n:m.nodes) for(int s:n.succ) if(s<0||s>=(int)m.nodes.size()){ err="successor "+std::to_string(s)+" is not in the file"; return false; }
    return true;
}
bool parsePermissive(const std::string&txt,const Game&g,Machine&m,std::string&err){
    m=Machine(); std::vector<std::string> L=splitLines(txt); if(!txt.empty()&&txt.back()!='\n'){ err="file does not end with a newline"; return false; }
    std::map<std::string,int> bit; for(int k=0;k<g.n;k++) bit[g.names[k]]=k; size_t i=0;
    while(i<L.size()){ if(trim(L[i]).empty()){ i++; continue; }
        int id,pos=0; MNode nd; nd.val=0; nd.rank2=-1; if(sscanf(L[i].c_str(),"State %d with rank %d%n",&id,&nd.rank,&pos)<2||(size_t)pos!=L[i].size()||id!=(int)m.nodes.size()){ err="bad state line: "+L[i]; return false; }
        if(++i>=L.size()){ err="valuation line is missing"; return false; } std::istringstream bs(L[i]); std::string tok; uint32_t seen=0;
        while(std::getline(bs,tok,',')){ tok=trim(tok); size_t q=tok.rfind(':'); auto it=q==std::string::npos?bit.end():bit.find(tok.substr(0,q)); std::string vv=q==std::string::npos?"":tok.substr(q+1); if(it==bit.end()||(vv!="0"&&vv!="1")||(seen>>it->second&1)){ err="bad valuation: "+L[i]; return false; } seen|=1u<<it->second; if(vv=="1") nd.val|=1u<<it->second; }
        if(seen!=(1u<<g.n)-1){ err="state does not list all variables: "+L[i]; return false; }
        for(i++;i<L.size()&&!L[i].empty();i++){ char*e; long v=strtol(L[i].c_str(),&e,10); if(e==L[i].c_str()||*e){ err="bad successor line: "+L[i]; return false; } nd.succ.push_back((int)v); }
        m.nodes.push_back(nd); }
    for(auto&n:m.nodes) for(int s:n.succ) if(s<0||s>=(int)m.nodes.size()){ err="successor "+std::to_string(s)+" is not in the file"; return false; }
    return true;
}
// minimal JSON reader
struct J { char t='n'; double num=0; std::string s; std::vector<J> a; std::vector<std::pair<std::string,J>> o; const J*get(const std::string&k)const{ for(auto&x:o) if(x.first==k) return &x.second; return nullptr; } };
static bool jparse(const char*&p,J&j,std::string&err){
    p=skipws(p);
    if(*p=='{'){ j.t='o'; p=skipws(p+1); if(*p=='}'){p++;return true;} for(;;){ J k; if(!jparse(p,k,err)||k.t!='s'){ err="JSON key"; return false; } p=skipws(p); if(*p!=':'){ err="JSON ':'"; return false; } p++; J v; if(!jparse(p,v,err)) return false; j.o.push_back({k.s,v}); p=skipws(p); if(*p==','){ p++; continue; } if(*p=='}'){ p++; return true; } err="JSON ',' or '}' expected near: "+std::string(p).substr(0,20); return false; } }
    if(*p=='['){ j.t='a'; p=skipws(p+1); if(*p==']'){p++;return true;} for(;;){ J v; if(!jparse(p,v,err)) return false; j.a.push_back(v); p=skipws(p); if(*p==','){p++;continue;} if(*p==']'){p++;return true;} err="JSON ',' or ']' expected"; return false; } }
    if(*p=='"'){ j.t='s'; p++; while(*p&&*p!='"'){ if(*p=='\\'){ p++; if(!*p) break; } j.s+=*p++; } if(*p!='"'){ err="JSON string"; return false; } p++; return true; }
    char*e; j.num=strtod(p,&e); if(e==p){ err="JSON value"; return false; } j.t='d'; p=e; return true;
}
bool parseJsonMachine(const std::string&txt,const Game&g,Machine&m,std::string&err){
    m=Machine(); const char*p=txt.c_str(); J j; if(!jparse(p,j,err)) return false; p=skipws(p); if(*p){ err="stray text after JSON object"; return false; }
    const J*v=j.get("variables"),*ns=j.get("nodes"); if(j.t!='o'||!v||v->t!='a'||!ns||ns->t!='o'){ err="JSON: variables/nodes missing"; return false; }
    std::map<std::string,int> bit; for(int k=0;k<g.n;k++) bit[g.names[k]]=k; std::vector<int> order; for(auto&x:v->a){ auto it=bit.find(x.s); if(it==bit.end()&&helperVar(x.s)){ order.push_back(31); continue; } if(it==bit.end()){ err="JSON: unknown variable "+x.s; return false; } order.push_back(it->second); }
    if((int)(order.size()-std::count(order.begin(),order.end(),31))!=g.n){ err="JSON: wrong number of variables"; return false; }
    m.nodes.resize(ns->o.size()); std::vector<char> have(ns->o.size(),0);
    for(auto&kv:ns->o){ char*e; long id=strtol(kv.first.c_str(),&e,10); if(*e||id<0||id>=(long)m.nodes.size()||have[id]){ err="JSON: bad node id "+kv.first; return false; } have[id]=1; const J*r=kv.second.get("rank"),*sv=kv.second.get("state"),*tr=kv.second.get("trans"); if(!r||!sv||!tr||sv->a.size()!=order.size()){ err="JSON: node "+kv.first; return false; }
        MNode nd; nd.rank=(int)r->num; nd.val=0; for(size_t k=0;k<order.size();k++){ if(sv->a[k].num!=0&&sv->a[k].num!=1){ err="JSON: state value"; return false; } if(sv->a[k].num==1&&order[k]<31) nd.val|=1u<<order[k]; } for(auto&t:tr->a){ if(t.t!='d'||t.num<0||t.num>=m.nodes.size()){ err="JSON: successor not in the file"; return false; } nd.succ.push_back((int)t.num);} m.nodes[id]=nd; }
    return true;
}

// ---------------------------------------------------------------- running cases
static Verdict judge(const Property&p,const Case&c){ Verdict v; p.check(c,v); return v; }
static const Property*find(const std::string&id){ for(auto&p:registry()) if(id==p.id) return &p; return nullptr; }
static Case makeCase(const Property&p,uint64_t seed,uint64_t i,int tier){ uint64_t h=seed; for(const char*q=p.id;*q;q++) h=mix64(h^*q); h=mix64(h^(i*0x9E3779B97F4A7C15ULL+1)); Rng r(h); Case c=p.gen(r,tier); c.prop=p.id; c.seed=h; return c; }

static std::string jesc(const std::string&s){ std::string o; for(unsigned char ch:s){ if(ch=='"'||ch=='\\'){ o+='\\'; o+=ch; } else if(ch=='\n') o+="\\n"; else if(ch<32||ch>126){ char b[8]; snprintf(b,8,"\\u%04x",ch); o+=b; } else o+=ch; } return o; }

// ------- minimisation: smaller schedule first, then smaller specification, then fewer client steps
static bool still(const Property&p,const Case&c,const std::string&klass){ Verdict v=judge(p,c); return v.bad&&v.klass==klass; }
static Case minimise(const Property&p,Case c,const Verdict&v0,double budget){
    double t0=now(); auto left=[&]{ return now()-t0<budget; };
    std::string k=v0.klass;
    { Case d=c; d.sched.rates.clear(); if(still(p,d,k)) c=d; else { std::vector<Event> ev=d.sched.events; d.sched.events=v0.trace; if(v0.trace.size()<16384&&still(p,d,k)) c=d; } }
    // ddmin over events
    if(c.sched.rates.empty()){ size_t n=2; while(c.sched.events.size()>0&&left()){ size_t len=c.sched.events.size(); size_t chunk=std::max<size_t>(1,len/n); bool red=false; for(size_t a=0;a<len&&left();a+=chunk){ Case d=c; d.sched.events.erase(d.sched.events.begin()+a,d.sched.events.begin()+std::min(len,a+chunk)); if(still(p,d,k)){ c=d; red=true; break; } } if(!red){ if(chunk==1) break; n=std::min(len,n*2); } else n=std::max<size_t>(2,n-1); } }
    // knobs back to default
    std::vector<std::string> kn; for(auto&x:c.sched.knobs) kn.push_back(x.first); for(auto&x:kn){ if(!left()) break; if(x=="cuddmem") continue; Case d=c; d.sched.knobs.erase(x); if(still(p,d,k)) c=d; }
    // lines of the input files
    bool ch=true; while(ch&&left()){ ch=false; for(auto&f:c.disk){ std::string name=f.first; if(name.size()>4&&name.compare(name.size()-4,4,".bdd")==0) continue; std::vector<std::string> L=splitLines(f.second.data); for(size_t i=0;i<L.size()&&left();){ if(!L[i].empty()&&L[i][0]=='['){ i++; continue; } Case d=c; std::vector<std::string> M=L; M.erase(M.begin()+i); std::string t; for(auto&x:M) t+=x+"\n"; d.disk[name].data=t; if(still(p,d,k)){ c=d; L=M; ch=true; } else i++; } } }
    for(const char*par:{"steps","ops","len"}) if(c.par.count(par)){ long v=c.pl(par); while(v>1&&left()){ Case d=c; long nv=v/2; d.par[par]=std::to_string(nv); if(still(p,d,k)){ c=d; v=nv; } else { d.par[par]=std::to_string(v-1); if(still(p,d,k)){ c=d; v--; } else break; } } }
    return c;
}
static int replay(const std::string&file){
    std::ifstream f(file); std::stringstream b; b<<f.rdbuf(); Case c; if(!deser(b.str(),c)){ fprintf(stderr,"cannot read replay file %s\n",file.c_str()); return 2; }
    const Property*p=find(c.prop); if(!p){ fprintf(stderr,"unknown property %s\n",c.prop.c_str()); return 2; }
    Verdict v=judge(*p,c);
    if(v.bad){ printf("REPLAY property=%s class=%s digest=%016lx\n%s\n",c.prop.c_str(),v.klass.c_str(),v.hash,v.msg.c_str()); return 1; }
    printf("REPLAY property=%s no violation digest=%016lx\n",c.prop.c_str(),v.hash); return 0;
}
struct Opts { std::string prop; uint64_t seed=1; uint64_t runs=1000; int jobs=8; double budget=60; int tier=0; std::string out; uint64_t only=~0ull; double minBudget=20; int maxViol=3; };

static void worker(const Property&p,const Opts&o,int w,int fd,double deadline){
    privateShared(); st=Stats(); FILE*f=fdopen(fd,"w"); uint64_t det=0,detbad=0; int nviol=0; uint64_t nontriv=0; uint64_t digest=0; std::vector<std::string> samples; 
    for(uint64_t i=w;i<o.runs;i+=o.jobs){
        if(now()>deadline) break;
        Case c=makeCase(p,o.seed,i,o.tier); Verdict v=judge(p,c); st.runs++; digest^=mix64(i*31+v.hash); nontriv+=v.nontrivial;
        uint64_t ih=0; for(auto&e:v.trace) ih=mix64(ih^(e.idx*64+e.dom*8+e.act)); if(st.interleavings.size()<2000000) st.interleavings.insert(mix64(ih^v.stateKey)); if(v.nontrivial&&st.states.size()<2000000) st.states.insert(v.stateKey);
        if((i/o.jobs)%64==0){ Verdict v2=judge(p,c); det++; if(v2.hash!=v.hash||v2.bad!=v.bad) { detbad++; fprintf(f,"NONDET %lu\n",i); } }
        if(w==0&&samples.size()<3&&v.nontrivial){ samples.push_back("run "+std::to_string(i)+": args ["+join(c.args," ")+"]"+(c.disk.empty()?"":" spec <<"+clip(c.disk.begin()->second.data,400)+">>")+" fired events "+std::to_string(v.trace.size())); }
        if(v.bad){ nviol++; std::string s=ser(c); fprintf(f,"VIOL %lu %zu %s\n",i,s.size(),v.klass.c_str()); fwrite(s.data(),1,s.size(),f); if(nviol>=o.maxViol) { break; } }
    }
    fprintf(f,"STAT runs %lu\nSTAT execs %lu\nSTAT steps %lu\nSTAT nodes %lu\nSTAT allocs %lu\nSTAT gcs %lu\nSTAT reorders %lu\nSTAT det %lu\nSTAT detbad %lu\nSTAT nontrivial %lu\nXOR %lu\n",st.runs,st.execs,st.steps,st.nodes,st.allocs,st.gcs,st.reorders,det,detbad,nontriv,digest);
    for(int a=1;a<A_N;a++) if(st.fired[a]) fprintf(f,"FIRED %s %lu\n",actionName[a],st.fired[a]);
    for(auto&x:st.c) fprintf(f,"CNT %lu %s\n",x.second,x.first.c_str());
    for(auto&s:samples) fprintf(f,"SAMPLE %zu\n%s\n",s.size(),s.c_str());
    fprintf(f,"SETS %zu %zu\n",st.interleavings.size(),st.states.size()); for(auto x:st.interleavings) fwrite(&x,8,1,f); for(auto x:st.states) fwrite(&x,8,1,f);
    fprintf(f,"\nDONE\n"); fflush(f); _exit(0);
}
struct Viol { uint64_t i; std::string klass,text; };
static int campaign(const Opts&o){
    const Property*p=find(o.prop); if(!p){ fprintf(stderr,"unknown property %s\n",o.prop.c_str()); return 2; }
    double t0=now(),deadline=t0+o.budget; std::vector<int> fds; std::vector<pid_t> pids;
    for(int w=0;w<o.jobs;w++){ std::string fn="/tmp/dst-"+std::to_string(getpid())+"-"+std::to_string(w); int fd=open(fn.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600); unlink(fn.c_str()); fflush(stdout); pid_t q=fork(); if(q==0) worker(*p,o,w,fd,deadline); fds.push_back(fd); pids.push_back(q); }
    std::map<std::string,uint64_t> stat,fired,cnt; std::set<uint64_t> inter,states; std::vector<Viol> viol; std::vector<std::string> samples; uint64_t digest=0; bool lost=false; std::vector<uint64_t> nondet;
    for(int w=0;w<o.jobs;w++){ int s; waitpid(pids[w],&s,0); FILE*f=fdopen(fds[w],"r"); rewind(f); char line[4096]; bool done=false;
        while(fgets(line,sizeof line,f)){ char k[256]; unsigned long a,b; if(sscanf(line,"VIOL %lu %lu %255s",&a,&b,k)==3){ std::string t(b,0); if(fread(&t[0],1,b,f)!=b) break; viol.push_back({a,k,t}); }
            else if(sscanf(line,"STAT %255s %lu",k,&a)==2) stat[k]+=a; else if(sscanf(line,"FIRED %255s %lu",k,&a)==2) fired[k]+=a; else if(sscanf(line,"XOR %lu",&a)==1) digest^=a; else if(sscanf(line,"NONDET %lu",&a)==1) nondet.push_back(a);
            else if(!strncmp(line,"CNT ",4)){ char*e; a=strtoul(line+4,&e,10); std::string n=trim(e); cnt[n]+=a; }
            else if(sscanf(line,"SAMPLE %lu",&a)==1){ std::string t(a,0); if(fread(&t[0],1,a,f)!=a) break; samples.push_back(t); }
            else if(sscanf(line,"SETS %lu %lu",&a,&b)==2){ for(unsigned long i=0;i<a+b;i++){ uint64_t x; if(fread(&x,8,1,f)!=1) break; (i<a?inter:states).insert(x);} }
            else if(!strncmp(line,"DONE",4)) done=true; }
        fclose(f); if(!done){ lost=true; fprintf(stderr,"worker %d lost (status %d)\n",w,s); } }
    double wall=now()-t0; std::sort(viol.begin(),viol.end(),[](const Viol&a,const Viol&b){return a.i<b.i;});
    // gate: same run again here; minimise
    std::string vj; std::set<std::string> seen; int kept=0;
    for(auto&v:viol){ if(seen.count(v.klass)&&kept>0) continue; if(kept>=3) break; Case c; if(!deser(v.text,c)) { fprintf(stderr,"cannot re-read case %lu\n",v.i); continue; }
        Verdict r1=judge(*p,c),r2=judge(*p,c); if(!r1.bad||!r2.bad||r1.hash!=r2.hash||r1.klass!=r2.klass){ fprintf(stderr,"run %lu: violation %s did not reproduce identically (discarded)\n",v.i,v.klass.c_str()); cnt["violations discarded because they did not reproduce"]++; continue; }
        seen.insert(v.klass); kept++; Case m=minimise(*p,c,r1,o.minBudget); Verdict rm=judge(*p,m); if(!rm.bad){ m=c; rm=r1; }
        std::string fn=o.out+".viol"+std::to_string(kept); { std::ofstream of(fn); of<<ser(m); std::istringstream ms(rm.msg); std::string x; of<<"# run "<<v.i<<" class "<<rm.klass<<"\n"; while(std::getline(ms,x)) of<<"# "<<x<<"\n"; }
        if(!vj.empty()) vj+=","; vj+="{\"run\":"+std::to_string(v.i)+",\"seed\":"+std::to_string(c.seed)+",\"class\":\""+jesc(rm.klass)+"\",\"digest\":\""+std::to_string(rm.hash)+"\",\"msg\":\""+jesc(clip(rm.msg,3000))+"\",\"file\":\""+jesc(fn)+"\"}"; }
    std::ofstream of(o.out); of<<"{\"property\":\""<<p->id<<"\",\"seed\":"<<o.seed<<",\"wall\":"<<wall<<",\"digest\":\""<<digest<<"\",\"lost\":"<<(lost?"true":"false")<<",\"coverage_blocks\":"<<coverageCount()<<",\"interleavings\":"<<inter.size()<<",\"states\":"<<states.size()<<",\"nondet\":"<<nondet.size();
    auto dump=[&](const char*n,std::map<std::string,uint64_t>&m){ of<<",\""<<n<<"\":{"; bool f=true; for(auto&x:m){ if(!f) of<<","; f=false; of<<"\""<<jesc(x.first)<<"\":"<<x.second; } of<<"}"; };
    dump("stat",stat); dump("fired",fired); dump("counters",cnt); of<<",\"rule\":\""<<jesc(p->rule)<<"\",\"real\":\""<<jesc(p->real)<<"\",\"stub\":\""<<jesc(p->stub)<<"\",\"samples\":["; for(size_t i=0;i<samples.size();i++) of<<(i?",":"")<<"\""<<jesc(samples[i])<<"\""; of<<"],\"violations\":["<<vj<<"]}\n"; of.close();
    return kept?1:(lost?3:0);
}
}
using namespace dst;
int main(int argc,char**argv){
    initProcess(argc,argv); std::string cmd=argc>1?argv[1]:"";
    if(cmd=="list"){ for(auto&p:registry()) printf("%s %s\n",p.id,p.title); return 0; }
    if(cmd=="replay"&&argc>2) return replay(argv[2]);
    Opts o; for(int i=2;i+1<argc;i+=2){ std::string k=argv[i],v=argv[i+1]; if(k=="--prop")o.prop=v; else if(k=="--seed")o.seed=strtoull(v.c_str(),0,10); else if(k=="--runs")o.runs=strtoull(v.c_str(),0,10); else if(k=="--jobs")o.jobs=atoi(v.c_str()); else if(k=="--budget")o.budget=atof(v.c_str()); else if(k=="--tier")o.tier=atoi(v.c_str()); else if(k=="--out")o.out=v; else if(k=="--index")o.only=strtoull(v.c_str(),0,10); else if(k=="--min")o.minBudget=atof(v.c_str()); }
    if(cmd=="campaign") return campaign(o);
    if(cmd=="one"){ const Property*p=find(o.prop); if(!p) return 2; Case c=makeCase(*p,o.seed,o.only,o.tier); std::cout<<ser(c); Verdict v=judge(*p,c); printf("bad=%d class=%s digest=%016lx nontrivial=%d\n%s\n",v.bad,v.klass.c_str(),v.hash,v.nontrivial,v.msg.c_str()); return v.bad; }
    fprintf(stderr,"usage: slugsim list | campaign --prop P --seed N --runs N --jobs J --budget S --tier T --out F | one --prop P --seed N --index I | replay FILE\n"); return 2;
}
