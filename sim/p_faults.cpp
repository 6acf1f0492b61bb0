// S07 output faults, S08 input faults, S09 memory exhaustion, S10 schedule independence of the output
#include "modes.h"
namespace dst {
static Result base(const Case&c){ Job j=clientJob(c); std::vector<Rate> rs; for(auto&x:j.sched.rates) if(x.dom==D_NODE) rs.push_back(x); j.sched.rates=rs; std::vector<Event> es; for(auto&e:j.sched.events) if(e.dom==D_NODE) es.push_back(e); j.sched.events=es; j.sched.knobs.erase("disk"); j.sched.knobs.erase("memlimit"); for(auto&f:j.disk) { f.second.unwritable=false; if(f.first=="o.out") f.second.isDir=false; } return runJob(j); }
static std::string outputs(const Result&r,const Case&c){ std::string s="stdout:"+r.out+"\n"; for(auto&f:r.files) if(f.first=="o.out"||(!c.disk.count(f.first)&&f.first.compare(0,5,"/tmp/")!=0)) s+="file "+f.first+":"+f.second+"\n"; return s; }
static std::string diffAt(const std::string&a,const std::string&b){ size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++; size_t s=i>60?i-60:0; return "first difference at byte "+std::to_string(i)+": without faults \""+a.substr(s,160)+"\", with faults \""+b.substr(s,160)+"\""; }
// The text of a stored decision diagram, and the order in which cubes and literals of an analysis are listed, legitimately follow the variable order; what they mean is checked elsewhere (S03, S20)
static void dropOrderDependent(const Case&c,Result&a,Result&b){
    // which cubes an analysis lists depends on ties that CUDD breaks by node address: compare the counts and headings only
    if(has(c,"--analyzeInitialPositions")) for(Result*r:{&a,&b}){ std::string t; for(auto&l:splitLines(r->out)) if(l.compare(0,3," - ")) t+=l+"\n"; r->out=t; }
    if(!a.reorders&&!b.reorders) return;
    if(has(c,"--computeIncompleteInformationEstimator")) for(Result*r:{&a,&b}){ std::string t; for(auto&l:splitLines(r->out)) if(l.compare(0,2,"$ ")) t+=l+"\n"; r->out=t; }   // S27
    if(has(c,"--symbolicStrategy")||has(c,"--simpleSymbolicStrategy")){ a.files.erase("o.out"); b.files.erase("o.out"); }
}
static bool saysError(const Result&r){ return r.err.find("rror")!=std::string::npos||r.err.find("out of memory")!=std::string::npos; }

// ---------------------------------------------------------------- S07
static Case genOut(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=4; addWorkload(r,c,r.chance(80)?(W_OUTFILE|W_FASTSLOW|W_COST):(W_ANALYSIS|W_INTERACTIVE|W_OUTFILE|W_ESTIM),g,r.chance(85)); memSchedule(r,c.sched,2000);
    bool file=c.args.back()=="o.out"; c.sched.knobs["stdoutbuf"]=(long[]){16,64,512,4096}[r.below(4)];
    int k=r.below(file?10:5); if(!file) k+=100; c.par["fault"]=std::to_string(k);
    auto ev=[&](Domain d,Action a,uint64_t idx,uint64_t arg){ c.sched.events.push_back({(uint32_t)d,(uint32_t)a,idx,arg}); };
    switch(k){
    case 0: ev(D_CLOSE,A_FAIL,r.chance(80)?0:r.below(4),r.next()); break;
    case 1: ev(D_WRITE,A_EIO,r.chance(60)?0:r.below(30),0); break;
    case 2: ev(D_WRITE,A_ENOSPC,r.chance(60)?0:r.below(30),r.next()); break;
    case 3: c.sched.knobs["disk"]=r.below(r.chance(50)?400:4000); break;
    case 4: c.sched.knobs["disk"]=0; break;
    case 5: c.disk["o.out"].isDir=r.chance(50); c.disk["o.out"].unwritable=!c.disk["o.out"].isDir; break;
    case 6: c.sched.rates.push_back({D_WRITE,A_SHORT,(uint32_t)(r.chance(50)?500000:100000),0}); break;
    case 7: c.sched.rates.push_back({D_WRITE,A_EINTR,400000,0}); break;
    case 8: c.disk["o.out"].data=std::string(r.below(5000),'#'); if(r.chance(50)) c.sched.knobs["disk"]=r.below(2000); break;   // stale content of an earlier run
    case 9: ev(D_OPEN,A_FAIL,1+r.below(2),0); break;
    case 100: case 101: ev(D_STDOUT,A_EIO,r.chance(70)?0:r.below(10),0); break;
    case 102: case 103: ev(D_STDOUT,A_ENOSPC,r.chance(70)?0:r.below(10),r.next()); break;
    case 104: c.sched.knobs["stdoutondisk"]=1; c.sched.knobs["disk"]=r.below(300); break; }
    return c;
}
static void checkOut(const Case&c,Verdict&v){
    Result a=base(c); if(a.end==E_LOST){ v.fail("abnormal-end","reference run "+a.describe()); return; }
    if(a.end!=E_RETURN||a.rc!=0){ st.c["reference run itself ends with an error (skipped)"]++; v.hash=a.hash; return; }
    Result b=runJob(clientJob(c)); v.hash=mix64(a.hash^b.hash); v.trace=b.trace; v.stateKey=mix64(v.hash^c.pl("fault"));
    uint64_t hard=b.fired[A_EIO]+b.fired[A_ENOSPC]+b.fired[A_FAIL]; bool denied=c.disk.count("o.out")&&(c.disk.at("o.out").isDir||c.disk.at("o.out").unwritable);
    v.nontrivial=hard||denied||b.fired[A_SHORT]||b.fired[A_EINTR]; if(hard) st.c["runs in which a write, close or open of an output failed"]++; else if(v.nontrivial) st.c["runs with only retryable output faults"]++;
    std::string ctx="options "+join(c.args," ")+"\nstderr: "+clip(b.err,400);
    if(b.end!=E_RETURN&&b.end!=E_EXIT){ v.fail("crash-on-output-fault","run with output faults ended with "+b.describe()+"; "+ctx); return; }
    std::string oa=outputs(a,c),ob=outputs(b,c);
    if(b.rc==0){ if(oa!=ob) v.fail("silent-output-loss","exit status 0 although the output is not what was to be written; "+diffAt(oa,ob)+"; "+ctx); st.c["exit status 0 under output faults with complete output"]++; }
    else { if(!hard&&!denied) v.fail("spurious-failure","only short/interrupted writes were injected but the run failed; "+ctx); else if(!saysError(b)) v.fail("no-error-message","non-zero exit status without an error message; "+ctx); else st.c["failed runs that reported the error"]++; }
    int ra=resultLine(a.err),rb=resultLine(b.err); if(rb!=-1&&ra!=rb) v.fail("verdict-changed","output faults changed the verdict; "+ctx);
}
static Reg r07({"S07","output faults",genOut,checkOut,0,"one evaluation = a fault-free and a fault-injected simulated process on the same seeded workload; faults hit open/write/close of the output file, the standard output or the free space of the disk at a seeded position; non-trivial = at least one fault really fired",REAL,STUB});

// ---------------------------------------------------------------- S08
static Case genIn(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=4; addWorkload(r,c,W_PLAIN|W_OUTFILE|W_FASTSLOW|W_COST|W_ANALYSIS|W_INTERACTIVE|W_MOTION|W_ESTIM,g,r.chance(50)); memSchedule(r,c.sched,2000);
    if(r.chance(30)){ std::string pad; for(int i=r.range(100,1000);i>0;i--) pad+="# padding so that the specification needs several reads\n"; std::string&d=c.disk["s.in"].data; size_t p=d.find("[SYS_TRANS]"); if(p!=std::string::npos) d.insert(r.chance(50)?p:d.size(),pad); }
    int k=r.below(8); c.par["fault"]=std::to_string(k); auto ev=[&](Domain d,Action a,uint64_t idx,uint64_t arg){ c.sched.events.push_back({(uint32_t)d,(uint32_t)a,idx,arg}); };
    std::vector<std::string> fs; for(auto&x:c.disk) fs.push_back(x.first); std::string f=fs[r.below(fs.size())];
    switch(k){
    case 0: case 1: { c.sched.rates.push_back({D_READ,A_SHORT,(uint32_t)(r.chance(50)?1000000:300000),r.chance(50)?40ul:0ul}); ev(D_READ,A_EIO,r.below(r.chance(50)?4:40),0); break; }
    case 2: ev(D_READ,A_EIO,r.below(3),0); break;
    case 3: c.sched.rates.push_back({D_READ,A_SHORT,700000,r.chance(50)?7ul:0ul}); break;
    case 4: c.sched.rates.push_back({D_READ,A_EINTR,300000,0}); c.sched.rates.push_back({D_READ,A_SHORT,300000,100}); break;
    case 5: ev(D_OPEN,A_FAIL,r.below(3),0); break;
    case 6: c.disk[f].isDir=true; break;
    case 7: c.par["missing"]=f; break; }
    return c;
}
static void checkIn(const Case&c0,Verdict&v){
    Case c=c0; Case cb=c0; for(auto&f:cb.disk) f.second.isDir=false; Result a=base(cb); if(a.end==E_LOST){ v.fail("abnormal-end","reference run "+a.describe()); return; }
    if(a.end!=E_RETURN||a.rc!=0){ st.c["reference run itself ends with an error (skipped)"]++; v.hash=a.hash; return; }
    bool dead=false; if(!c.p("missing").empty()){ c.disk.erase(c.p("missing")); dead=true; } for(auto&f:c.disk) if(f.second.isDir) dead=true;
    Result b=runJob(clientJob(c)); v.hash=mix64(a.hash^b.hash); v.trace=b.trace; v.stateKey=mix64(v.hash^c.pl("fault"));
    bool hard=b.fired[A_EIO]||b.fired[A_FAIL]||dead; v.nontrivial=hard||b.fired[A_SHORT]||b.fired[A_EINTR]; if(hard) st.c["runs in which an input could not be read completely"]++; else if(v.nontrivial) st.c["runs with only short or interrupted reads"]++;
    std::string ctx="options "+join(c.args," ")+"\nstderr: "+clip(b.err,400);
    if(b.end!=E_RETURN&&b.end!=E_EXIT){ v.fail("crash-on-input-fault","run with input faults ended with "+b.describe()+"; "+ctx); return; }
    std::string oa=outputs(a,c),ob=outputs(b,c); int ra=resultLine(a.err),rb=resultLine(b.err);
    if(b.rc==0){ if(oa!=ob||ra!=rb) v.fail("result-from-partial-input","exit status 0 with a result that was not computed from the complete input; verdict with complete input "+std::to_string(ra)+", now "+std::to_string(rb)+"; "+(oa!=ob?diffAt(oa,ob):"")+"; "+ctx); else if(hard&&has(c,"--nonDeterministicMotion")&&!dead) st.c["read errors behind the end mark of a diagram"]++; else if(hard){ v.fail("unreported-input-fault","an input could not be read completely, but the run ended with exit status 0; "+ctx); } }
    else if(!hard) v.fail("spurious-failure","only short/interrupted reads were injected but the run failed; "+ctx); else if(!saysError(b)) v.fail("no-error-message","non-zero exit status without an error message; "+ctx); else { st.c["failed runs that reported the error"]++; if(rb!=-1&&rb!=ra) v.fail("verdict-from-partial-input","a verdict was printed that differs from that of the complete input; "+ctx); }
}
static Reg r08({"S08","input faults",genIn,checkIn,0,"one evaluation = a fault-free and a fault-injected simulated process on the same seeded workload; open/read of the input files fail, are short or are interrupted at a seeded position, or the path is missing or a directory; non-trivial = at least one fault really fired",REAL,STUB});

// ---------------------------------------------------------------- S09
static Case genMem(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=4; addWorkload(r,c,W_PLAIN|W_OUTFILE|W_FASTSLOW|W_COST|W_ANALYSIS|W_INTERACTIVE|W_MOTION|W_ESTIM,g,r.chance(60)); memSchedule(r,c.sched,5000); c.sched.knobs["cuddmem"]=(1+r.below(2))<<20; c.par["pos"]=std::to_string(r.below(1000000)); c.par["kind"]=std::to_string(r.below(4)); c.sched.knobs["failmin"]=4096; return c;
}
static void checkMem(const Case&c0,Verdict&v){
    Result a=base(c0); if(a.end==E_LOST){ v.fail("abnormal-end","reference run "+a.describe()); return; } v.hash=a.hash;
    if(a.end!=E_RETURN||a.rc!=0){ st.c["reference run itself ends with an error (skipped)"]++; return; }
    Case c=c0; uint64_t n=a.counts[D_ALLOC]; long kind=c.pl("kind"); uint64_t at=n?(uint64_t)c.pl("pos")*n/1000000:0;
    if(c.sched.events.empty()){ if(kind<=1) c.sched.events.push_back({D_ALLOC,A_FAILALL,at,0}); else if(kind==2) c.sched.events.push_back({D_ALLOC,A_FAIL,at,0}); else c.sched.rates.push_back({D_ALLOC,A_FAIL,(uint32_t)(20+c.pl("pos")%3000),0}); }
    Result b=runJob(clientJob(c)); v.hash=mix64(v.hash^b.hash); v.trace=b.trace; v.stateKey=v.hash; bool hit=b.fired[A_FAIL]||b.fired[A_FAILALL]; v.nontrivial=hit;
    if(hit) st.c["runs in which an allocation failed"]++;
    std::string ctx="options "+join(c.args," ")+"\nstderr: "+clip(b.err,400);
    int ra=resultLine(a.err),rb=resultLine(b.err);
    if(b.end==E_FUEL||b.end==E_TIMEOUT||b.end==E_FLOOD){ v.fail("hang-on-exhaustion","after a failed allocation the run did not come to an end: "+b.describe()+"; "+ctx); return; }
    if(b.end==E_CORRUPT){ v.fail("heap-corruption","after a failed allocation: "+b.describe()+"; "+ctx); return; }
    if(rb!=-1&&rb!=ra){ v.fail("wrong-verdict-on-exhaustion","a failed allocation changed the verdict from "+std::to_string(ra)+" to "+std::to_string(rb)+"; "+ctx); return; }
    if((b.end==E_RETURN||b.end==E_EXIT)&&b.rc==0){ st.c["allocation failures survived with exit status 0"]+=hit; dropOrderDependent(c,a,b); std::string oa=outputs(a,c),ob=outputs(b,c); if(oa!=ob||ra!=rb) v.fail("wrong-result-on-exhaustion","exit status 0 although a failed allocation changed the result; "+diffAt(oa,ob)+"; "+ctx); }
    else st.c[std::string("ended abnormally or with an error: ")+endName[b.end]]++;
}
static Reg r09({"S09","memory exhaustion",genMem,checkMem,0,"one evaluation = a reference run and a run in which one, all later, or a random share of the heap allocations fail; non-trivial = an allocation really failed",REAL,STUB});

// ---------------------------------------------------------------- S10
static Case genDet(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(20)?5:4; addWorkload(r,c,W_PLAIN|W_OUTFILE|W_FASTSLOW|W_COST|W_ANALYSIS|W_INTERACTIVE|W_MOTION|W_ESTIM,g,r.chance(70)); memSchedule(r,c.sched); c.par["kind"]=std::to_string(r.below(4)); return c; }
static void checkDet(const Case&c,Verdict&v){
    Job j=clientJob(c); j.sched.rates.clear(); j.sched.events.clear(); j.sched.knobs.clear(); j.sched.knobs["cuddmem"]=4<<20; j.sched.knobs["randseed"]=c.sched.knob("randseed",1);
    Result a=runJob(j), b=runJob(clientJob(c)); v.hash=mix64(a.hash^b.hash); v.trace=b.trace; v.nontrivial=b.gcs+b.reorders>0; 
    if(a.end==E_FUEL||(b.end==E_FUEL&&a.steps>60000000)){ st.c["runs that are too long for the step budget (skipped)"]++; return; }
    dropOrderDependent(c,a,b);
    std::string oa=outputs(a,c)+"\nrc="+std::to_string(a.rc)+" "+endName[a.end],ob=outputs(b,c)+"\nrc="+std::to_string(b.rc)+" "+endName[b.end]; v.stateKey=mix64(a.hash);
    if(b.reorders) st.c["runs with reordering"]++; if(b.gcs) st.c["runs with garbage collection"]++; if(oa.size()>60) st.c["runs with non-trivial output"]++;
    if(oa!=ob||resultLine(a.err)!=resultLine(b.err)){ size_t i=0; while(i<oa.size()&&i<ob.size()&&oa[i]==ob[i]) i++; size_t s=i>60?i-60:0; v.fail("schedule-dependent-output","the output depends on memory layout or on when garbage collection and reordering happen; options "+join(c.args," ")+"\nat byte "+std::to_string(i)+": \""+oa.substr(s,200)+"\" versus \""+ob.substr(s,200)+"\"\nstderr 1: "+clip(a.err,300)+"\nstderr 2: "+clip(b.err,300)); }
}
static Reg r10({"S10","schedule independence",genDet,checkDet,0,"one evaluation = two simulated processes on the same input: one undisturbed, one with a different heap layout, fill pattern, table sizes and a seeded schedule of garbage collections, reorderings and cache losses; non-trivial = at least one garbage collection or reordering really happened",REAL,STUB});

// ---------------------------------------------------------------- S16
static Case genSide(Rng&r,int tier){ Case c; GenOpt g; g.maxBits=r.chance(20)?5:4; addWorkload(r,c,W_PLAIN|W_OUTFILE|W_FASTSLOW|W_COST|W_ANALYSIS|W_INTERACTIVE|W_MOTION|W_ESTIM,g,r.chance(70)); memSchedule(r,c.sched,5000); int k=r.below(5); auto ev=[&](Domain d,Action a,uint64_t idx,uint64_t arg){ c.sched.events.push_back({(uint32_t)d,(uint32_t)a,idx,arg}); };
    if(k==1) ev(D_READ,A_EIO,r.below(4),0); else if(k==2) ev(D_WRITE,A_EIO,r.below(10),0); else if(k==3) ev(D_ALLOC,r.chance(50)?A_FAIL:A_FAILALL,r.below(r.chance(50)?3000:60000),0);
    c.disk["s.in.bak"].data="bystander"; c.disk["o.out.old"].data="bystander 2"; return c; }
static void checkSide(const Case&c,Verdict&v){
    Result r=runJob(clientJob(c)); v.hash=r.hash; v.trace=r.trace; v.stateKey=r.hash; if(r.end==E_LOST){ v.fail("abnormal-end",r.describe()); return; } if(r.end==E_FUEL){ st.c["runs that are too long for the step budget (skipped)"]++; return; }
    bool named=c.args.back()=="o.out"; v.nontrivial=r.files.size()>0; std::string ctx="; options "+join(c.args," ")+"; run ended with "+r.describe();
    for(auto&f:r.opened) if(f!="o.out"||!named){ if(f=="/tmp/slugs_cost_conflict.dot"&&r.err.find(f)!=std::string::npos) continue; v.fail("unrequested-file","the run wrote "+f+", which was not asked for"+ctx); return; }
    for(auto&f:c.disk) if(f.first!="o.out"||!named){ auto it=r.files.find(f.first); if(it==r.files.end()||it->second!=f.second.data){ v.fail("file-changed","the run changed or removed "+f.first+ctx); return; } }
    for(auto&f:r.files) if(!c.disk.count(f.first)&&!(f.first=="o.out"&&named)&&f.first!="/tmp/slugs_cost_conflict.dot"){ v.fail("unrequested-file","the run left "+f.first+" behind"+ctx); return; }
    st.c["runs whose file accesses were checked"]++; if(r.end!=E_RETURN||r.rc) st.c["runs that ended with an error"]++;
}
static Reg r16({"S16","no other files",genSide,checkSide,0,"one evaluation = one simulated process in any mode under a seeded memory-manager schedule and, in most runs, a read, write or allocation fault; every file opened for writing, created, removed or changed is compared with what the command line names; non-trivial = the disk had bystander files",REAL,STUB});

// ---------------------------------------------------------------- S26 damaged input files
static std::string damage(Rng&r,std::string d,int k){
    if(d.empty()) return d; size_t n=d.size(); auto pos=[&]{ return (size_t)r.below(n); };
    switch(k){
    case 0: d.resize(r.chance(40)?n-1-r.below(std::min<size_t>(n,24)):pos()); break;                                     // the writer died
    case 1: for(int i=r.range(1,3);i>0;i--) d[pos()]^=(char)(1<<r.below(8)); break;                                      // flipped bits
    case 2: { size_t a=pos(),l=std::min<size_t>(1+r.below(64),n-a); for(size_t i=0;i<l;i++) d[a+i]=0; break; }          // a lost block
    case 3: { size_t a=pos(),l=std::min<size_t>(1+r.below(64),n-a); d.insert(pos(),d.substr(a,l)); break; }             // a block written twice
    case 4: { size_t a=pos(); d.erase(a,1+r.below(r.chance(50)?3:64)); break; }                                          // a block dropped
    case 5: { auto L=splitLines(d); if(L.size()>1) std::swap(L[r.below(L.size())],L[r.below(L.size())]); d.clear(); for(auto&l:L) d+=l+"\n"; break; }  // lines out of order
    case 6: { std::vector<size_t> dg; for(size_t i=0;i<n;i++) if(isdigit((unsigned char)d[i])) dg.push_back(i); if(dg.empty()) break; size_t a=dg[r.below(dg.size())]; static const char*nu[]={"-1","0","9","99","2147483647","-2147483648","99999999999999999999","1e9","x",""}; d.replace(a,1,nu[r.below(10)]); break; }
    case 7: { size_t a=pos(),l=std::min<size_t>(1+r.below(40),n-a); for(size_t i=0;i<l;i++) d[a+i]=(char)r.below(256); break; }   // garbage
    case 9: { auto L=splitLines(d); if(L.empty()) break; L.erase(L.begin()+r.below(r.chance(50)?std::min<size_t>(L.size(),8):L.size())); d.clear(); for(auto&l:L) d+=l+"\n"; break; }   // a line lost
    case 10: { auto L=splitLines(d); std::vector<std::string> nm; for(auto&l:L) if(!l.empty()&&l[0]!='['&&l[0]!='#'&&l.find(' ')==std::string::npos) nm.push_back(l); if(nm.empty()) break; std::string a=nm[r.below(nm.size())]; static const char*to[]={"p@1","p@0.0.3","p@","@","q@2","p@x","p@0.","p@0.1","p@0.5.2","x'","1","!","p@0.-3.1"}; std::string b=r.chance(30)?nm[r.below(nm.size())]:to[r.below(13)]; if(a.find('@')!=std::string::npos&&r.chance(50)) b=a.substr(0,a.find('@')+1)+std::to_string(r.below(5)); std::string o; for(auto&l:L){ std::string x; for(auto&t:words(l)){ bool pr=t.size()>1&&t.back()=='\''; if(!x.empty()) x+=" "; x+=(pr?t.substr(0,t.size()-1):t)==a?b+(pr?"'":""):t; } o+=x+"\n"; } d=o; break; }   // a name replaced throughout
    default: { std::vector<std::string> w; std::string o; for(auto&l:splitLines(d)){ auto ww=words(l); if(ww.size()>1&&r.chance(10)){ size_t a=r.below(ww.size()); if(r.chance(50)) ww.erase(ww.begin()+a); else ww.insert(ww.begin()+a,ww[r.below(ww.size())]); } o+=join(ww," ")+"\n"; } d=o; } }   // a word lost or doubled
    return d;
}
static Case genDamage(Rng&r,int tier){
    Case c; GenOpt g; g.maxBits=4; addWorkload(r,c,r.chance(35)?W_MOTION:W_PLAIN|W_OUTFILE|W_FASTSLOW|W_COST|W_ANALYSIS|W_INTERACTIVE|W_ESTIM,g,r.chance(50)); memSchedule(r,c.sched,2000);
    std::vector<std::string> fs; for(auto&x:c.disk) fs.push_back(x.first); std::string f=fs[r.below(fs.size())]; int k=r.below(11); c.par["file"]=f; c.par["kind"]=std::to_string(k); c.par["before"]=c.disk[f].data; c.disk[f].data=damage(r,c.disk[f].data,k); return c;
}
static void checkDamage(const Case&c,Verdict&v){
    static const char*kn[]={"cut short","bits flipped","block lost","block doubled","block dropped","lines exchanged","number replaced","garbage","word lost or doubled","line lost","name replaced"};
    std::string f=c.p("file"),was=c.p("before"); if(!c.disk.count(f)) return; const std::string&now=c.disk.at(f).data; if(now==was){ return; } int k=c.pl("kind"); v.nontrivial=true; st.c[std::string("files damaged: ")+kn[k]]++;
    Result b=runJob(clientJob(c)); v.hash=b.hash; v.trace=b.trace; v.stateKey=b.hash; std::string ctx="options "+join(c.args," ")+"\n"+f+" was "+kn[k]+":\n"+clip(now,1500)+"\nstderr: "+clip(b.err,400);
    if(b.end==E_FUEL){ st.c["runs that are too long for the step budget (skipped)"]++; return; }
    if(b.end!=E_RETURN&&b.end!=E_EXIT){ v.fail("crash-on-damaged-input","ended with "+b.describe()+"; "+ctx); return; }
    if(b.rc){ st.c["damaged input rejected"]++; if(!saysError(b)) v.fail("no-error-message","non-zero exit status without an error message; "+ctx); if(resultLine(b.err)!=-1&&!has(c,"--interactiveStrategy")) v.fail("verdict-and-failure","a verdict was printed, but the run failed; "+ctx); return; }
    st.c["damaged input accepted"]++;
    bool plain=f=="s.in"; for(auto&o:c.args) if(!o.compare(0,2,"--")&&o!="--explicitStrategy"&&o!="--jsonOutput"&&o!="--symbolicStrategy"&&o!="--simpleSymbolicStrategy"&&o!="--extractExplicitPermissiveStrategy"&&o!="--simpleRecovery"&&o!="--biasForAction"&&o!="--fixedPointRecycling"&&o!="--sysInitRoboticsSemantics") plain=false;
    if(plain){ Spec s; Game g; std::string err; std::set<std::string> nm; size_t nn=0; if(!parseSpecText(now,s,err)){ if(getenv("DST_SHOW")) fprintf(stderr,"ACC %s\n%s\n---\n",err.c_str(),now.c_str()); st.c["accepted although the reference reader rejects it"]++; return; } for(auto*w:{&s.in,&s.out}) for(auto&x:*w){ nm.insert(x); nn++; }
        if(nm.size()!=nn||nn>5) return; if(!makeGame(s,g,err)){ if(getenv("DST_SHOW")) fprintf(stderr,"ACC %s\n%s\n---\n",err.c_str(),now.c_str()); st.c["accepted although the reference reader rejects it"]++; return; }
        auto w=winSys(g); bool real=has(c,"--sysInitRoboticsSemantics")?realizableRobotics(g,w):realizablePlain(g,w); st.c["verdicts for accepted files compared"]++; if(resultLine(b.err)!=(int)real) v.fail("wrong-verdict-for-damaged-input","slugs said "+std::to_string(resultLine(b.err))+", what the file says is "+std::to_string(real)+"; "+ctx); }
    if(f.size()>4&&f.substr(f.size()-4)==".bdd"&&now.size()<was.size()&&was.compare(0,now.size(),now)==0&&now.find(".end")==std::string::npos) v.fail("partial-diagram-accepted","a decision diagram file that ends before its end mark was accepted; "+ctx);
}
static Reg r26({"S26","damaged input files",genDamage,checkDamage,0,"one evaluation = one simulated process in any mode whose specification, cost file or decision diagram file was damaged before the run (torn, bits flipped, blocks lost, doubled or dropped, lines or words exchanged, numbers replaced, garbage); non-trivial = the file really differs",REAL,STUB});
}
