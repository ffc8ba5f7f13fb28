// O08, O09: training data on disk.
#include "opt.hpp"
using namespace pbt; using namespace Rodop; using std::vector; using std::string; using namespace opt;
// reference of a training data file: text and rows
struct RefFile { string text; Rows rows; bool unsure=false;
    explicit RefFile(const string& t=""):text(t){ writeFile("ref.tmp",t); rows=dataRows("ref.tmp"); }
    bool add(const vector<double>& r){ bool dup=false; for(auto& q: rows){ double m=0; for(size_t k=0;k<r.size();k++) m=std::max(m,fabs(q[k]-r[k])); if(fabs(m-1e-4)<1e-9) unsure=true; if(m<=1e-4) dup=true; } if(dup) return false; if(!text.empty()&&text.back()!='\n') text+="\n"; string l; for(size_t k=0;k<r.size();k++) l+=(k?",":"")+fmt("%.12f",r[k]); text+=l+"\n"; vector<double> q; for(double v: r) q.push_back(atof(fmt("%.12f",v).c_str())); rows.push_back(q); return true; } };
struct RefFiles { vector<string> name; vector<RefFile> f; vector<int> fn; bool unsure() const { for(auto& q: f) if(q.unsure) return true; return false; }
    explicit RefFiles(const Prob& p){ name.push_back(p.objName+".csv"); fn.push_back(-1); for(size_t j=0;j<p.con.size();j++) if(!p.con[j].udf){ name.push_back(p.con[j].name+".csv"); fn.push_back((int)j); } for(auto& n: name) f.emplace_back(readFile(n)); }
    int add(const Eval& e){ int a=0; for(size_t i=0;i<f.size();i++){ auto r=e.x; r.push_back(fn[i]<0?e.f:e.g[fn[i]]); a+=f[i].add(r); } return a; } };
static string tail(const string& s){ return s.size()>400?"..."+s.substr(s.size()-400):s; }
// ---------------------------------------------------------------- O08
static void checkRestart(Ctx& c,const Prob& p,int n){ Prob q=p; q.throwAt=q.killAt=q.nanAt=0; q.N=n; Rows init=dataRows(p.objName+".csv"); vector<Rows> cd; for(auto& k: p.con) cd.push_back(k.udf?Rows():dataRows(k.name+".csv")); Out o=run(q,nullptr,false); c.require(!o.threw,"the run cannot be resumed",o.what); auto ev=evaluations(c,q); c.eq((int)ev.size(),n,"iterations of the resumed run"); auto e=expectHistory(c,q,init,cd,ev); c.eq(o.hist.size(),e.rows.size(),"rows in the history of the resumed run"); for(int i=0;i<e.n0;i++) for(size_t j=0;j<e.rows[i].size();j++) c.require(o.hist[i][j]==e.rows[i][j],"the history of the resumed run does not begin with the stored samples",fmt("row %d column %d got %.17g expected %.17g",i,(int)j,o.hist[i][j],e.rows[i][j])); for(size_t i=e.n0;i<e.rows.size();i++) for(int j=0;j<=p.d;j++) c.require(o.hist[i][j]==e.rows[i][j],"evaluation of the resumed run"); }
static Prob crashCase(Ctx& c,int maxN){ GenOpt g; g.udf=c.src.chance(0.3); g.outside=c.src.chance(0.1); g.discrete=c.src.chance(0.15); g.maxN=maxN; g.maxInner=20; g.pCon=0.75; Prob p=generate(c,g); p.train=50; if(c.src.chance(0.1)) p.threads=2; return p; }
static void o08kill(Ctx& c){
    Prob p=crashCase(c,c.thorough?10:6); bool atCall=c.src.chance(0.5); int kw=0; if(atCall){ vector<int> fns{0}; for(size_t j=0;j<p.con.size();j++) if(!p.con[j].udf) fns.push_back((int)j+1); p.killFn=c.src.pick(fns); p.killAt=(int)c.src.range(1,p.N); } else kw=(int)c.src.range(1,6+p.N*(4+(int)p.con.size())); int more=(int)c.src.range(1,3);
    c.desc()<<"dies at "<<(atCall?fmt("call %d of function %d",p.killAt,p.killFn):fmt("write %d",kw))<<", then "<<more<<" more evaluations; "<<p.text(); c.saveDesc(); resetLog(); writeData(p); RefFiles ref(p);
    auto pr=runForked([&]{ killWrite=kw; run(p,nullptr,false); },60); bool died=pr.sig==SIGKILL&&!pr.timedout; c.require(!pr.timedout,"run does not end"); if(!died) c.require(pr.exited&&pr.code==0,"run failed",fmt("signal %d code %d",pr.sig,pr.code));
    // group the calls; the last iteration may be incomplete
    auto cs=calls(); vector<Eval> ev; int per=1; for(auto& k: p.con) per+=!k.udf; int full=0; for(size_t i=0;i<cs.size();i+=per){ if(i+per>cs.size()) break; Eval e; e.x=xs(cs[i].x,p.d); e.g.assign(p.con.size(),NAN); for(int q=0;q<per;q++) (cs[i+q].fn==0?e.f:e.g[cs[i+q].fn-1])=cs[i+q].v; ev.push_back(e); full++; }
    int sure= (int)cs.size()>full*per||!died||(atCall&&p.killFn==0) ? full : full-1; if(sure<0) sure=0; // atCall with killFn==0: the fatal call itself is not recorded, all recorded iterations are complete
    if(atCall&&p.killFn>0&&per>1) sure=std::min(sure,(int)(L->counts[0]-1)); if(atCall&&died&&p.killFn==0) sure=full;
    for(int i=0;i<sure;i++) ref.add(ev[i]); RefFiles later=ref; if(sure<full) later.add(ev[sure]); if(later.unsure()) c.discard();
    for(size_t i=0;i<ref.name.size();i++){ string got=readFile(ref.name[i]); c.require(got==ref.f[i].text||got==later.f[i].text,"training data after the crash",ref.name[i]+": got\n"+tail(got)+"expected\n"+tail(ref.f[i].text)); }
    checkRestart(c,p,more); c.label(atCall?(p.killFn?"killed in a constraint":"killed in the objective"):(died?"killed at a write":"write number not reached")); c.nontrivial(died&&sure>0); }
static Reg r1({"O08","crash",o08kill,900,14000,1,120,"runs killed at a random call of a function or at a random write to a file; training data files compared with the evaluations completed before, then the run is resumed in a fresh process; non-trivial: killed after at least one completed iteration",20});
static void o08fail(Ctx& c){
    Prob p=crashCase(c,6); vector<int> fns{0}; for(size_t j=0;j<p.con.size();j++) if(!p.con[j].udf) fns.push_back((int)j+1); p.killFn=c.src.pick(fns); bool nan=c.src.chance(0.5); int k=(int)c.src.range(1,p.N); (nan?p.nanAt:p.throwAt)=k; c.desc()<<"function "<<p.killFn<<(nan?" returns NaN":" throws")<<" at call "<<k<<"; "<<p.text(); c.saveDesc(); resetLog(); writeData(p); RefFiles ref(p); Out o=run(p,nullptr,false); c.require(o.threw,nan?"NaN was accepted":"failed evaluation was ignored");
    auto cs=calls(); int per=1; for(auto& q: p.con) per+=!q.udf; c.require((int)cs.size()>=(k-1)*per&&(int)L->counts[0]==k,"number of evaluations"); for(int i=0;i<k-1;i++){ Eval e; e.x=xs(cs[i*per].x,p.d); e.g.assign(p.con.size(),NAN); for(int q=0;q<per;q++) (cs[i*per+q].fn==0?e.f:e.g[cs[i*per+q].fn-1])=cs[i*per+q].v; ref.add(e); } if(ref.unsure()) c.discard();
    for(size_t i=0;i<ref.name.size();i++){ string got=readFile(ref.name[i]); c.require(got==ref.f[i].text,"training data after a failed evaluation",ref.name[i]+": got\n"+tail(got)+"expected\n"+tail(ref.f[i].text)); }
    c.eq((int)o.hist.size(),p.n+k-1,"rows of the history"); checkRestart(c,p,1); c.label(nan?"NaN":"exception"); c.label(p.killFn?"constraint":"objective"); c.nontrivial(k>1); }
static Reg r2({"O08","failed_evaluation",o08fail,500,6000,1,120,"runs in which the objective or a constraint throws or returns NaN at a random call: the run stops with an error, nothing of the failed iteration is stored, the run can be resumed; non-trivial: at least one completed iteration",15});
static void o08full(Ctx& c){
    Prob p=crashCase(c,6); vector<string> files{p.objName+".csv","optimizationHistory.csv","globalOptimalDesign.xml"}; for(auto& k: p.con) if(!k.udf) files.push_back(k.name+".csv"); static string target; target="/"+c.src.pick(files); long left=(long)c.src.range(0,c.src.chance(0.5)?120:1500); c.desc()<<target<<fmt(" takes %ld more bytes; ",left)<<p.text(); c.saveDesc(); resetLog(); writeData(p); RefFiles ref(p), before=ref;
    failures=0; failLeft=left; failPath=target.c_str(); Out o=run(p,nullptr,false); failPath=nullptr; bool failed=failures>0; c.eq(o.threw,failed,"run with a file that cannot be written"); auto cs=calls(); int per=1; for(auto& q: p.con) per+=!q.udf; size_t done=cs.size()/per; c.require(cs.size()%per==0,"number of evaluations"); if(!failed) c.eq((int)done,p.N,"number of evaluations");
    for(size_t i=0;i<done;i++){ Eval e; e.x=xs(cs[i*per].x,p.d); e.g.assign(p.con.size(),NAN); for(int q=0;q<per;q++) (cs[i*per+q].fn==0?e.f:e.g[cs[i*per+q].fn-1])=cs[i*per+q].v; if(i+1==done&&failed) before=ref; ref.add(e); } if(ref.unsure()) c.discard(); if(!failed) before=ref;
    for(size_t i=0;i<ref.name.size();i++){ string got=readFile(ref.name[i]); auto& a=before.f[i].text; auto& b=ref.f[i].text; c.require(got.size()>=a.size()&&got.size()<=b.size()&&b.compare(0,got.size(),got)==0,"training data after a failed write",ref.name[i]+": got\n"+tail(got)+"expected\n"+tail(b)); }
    c.label(target=="/"+files[0]?"objective data":target[1]=='o'&&target.size()>20?"history":target.find(".xml")!=string::npos?"optimum":"constraint data"); c.nontrivial(failed&&done>1); }
static Reg r2b({"O08","write_failure",o08full,500,6000,1,120,"runs in which one of the training data files, the history or the file of the optimum takes only 0..1500 more bytes: the run ends with an error exactly if a write failed, and every earlier sample is stored unchanged; non-trivial: the write failed after at least one completed iteration",15});
// ---------------------------------------------------------------- O09
static void o09run(Ctx& c){
    GenOpt g; g.udf=c.src.chance(0.3); g.outside=c.src.chance(0.2); g.discrete=c.src.chance(0.4); g.maxN=c.thorough?15:8; g.maxInner=20; g.pCon=0.75; Prob p=generate(c,g); p.train=50; if(c.src.chance(0.5)) p.newline=false; if(c.src.chance(0.2)) for(auto& v: p.f.a) v*=1e-3; describe(c,p); writeData(p); RefFiles ref(p); vector<size_t> n0; for(auto& f: ref.f) n0.push_back(f.rows.size()); Out o=run(p,nullptr,false); mustRun(c,o); auto ev=evaluations(c,p); int added=0, total=0; for(auto& e: ev){ added+=ref.add(e); total+=(int)ref.f.size(); } if(ref.unsure()) c.discard();
    for(size_t i=0;i<ref.name.size();i++){ string got=readFile(ref.name[i]); c.require(got==ref.f[i].text,"training data after the run",ref.name[i]+": got\n"+tail(got)+"expected\n"+tail(ref.f[i].text)); }
    c.labelIf(added<total,"near duplicate skipped"); c.labelIf(!p.newline,"file without trailing newline"); c.nontrivial(added>0); }
static Reg r3({"O09","run",o09run,700,8000,1,60,"runs with 0..3 constraints, files with and without trailing newline, discrete parameters (repeated designs); whole files compared with the reference text; non-trivial: a sample was added",15});
static void o09append(Ctx& c){
    GenOpt g; g.pCon=1; g.outside=c.src.chance(0.1); if(c.src.chance(0.15)){ g.dmax=12; c.label("many parameters"); } Prob p=generate(c,g); P=&p; quiet(); resetLog(); writeData(p); int nc=(int)p.con.size(), j=(int)c.src.range(-1,nc-1); string file=(j<0?p.objName:p.con[j].name)+".csv"; RefFile ref(readFile(file)); Bounds b(p.lo,p.hi); ObjectiveFunction f; ConstraintFunction g1; if(j<0){ makeObjective(f,p); f.setParameterBounds(b); f.initializeSurrogate(); } else { makeConstraint(g1,p,j); g1.setParameterBounds(b); g1.initializeSurrogate(); }
    describe(c,p); c.desc()<<" file "<<file<<" add"; int steps=(int)c.src.range(1,8), added=0, dups=0; Rows hist; for(int t=0;t<steps;t++){ vector<double> r(p.d+1); bool near=c.src.chance(0.6)&&!ref.rows.empty(); if(near){ r=ref.rows[c.src.below(ref.rows.size())]; int m=(int)c.src.range(0,p.d+1); double off[]={0,3e-5,0.99e-4,1.01e-4,2e-4,1e-3}; for(int q=0;q<m;q++) r[c.src.below(p.d+1)]+=off[c.src.below(6)]*(c.src.chance(0.5)?1:-1); } else { for(int k=0;k<p.d;k++) r[k]=c.src.real(p.lo[k],p.hi[k]); r[p.d]=c.src.chance(0.2)?c.src.pick(vector<double>{1e7,-1e-9,123456.789012345,0}):p.f(r.data()); }
        c.desc()<<" "<<pbt::str(r); Design d(p.d); d.setNumberOfConstraints(nc); d.designParameters=V(vector<double>(r.begin(),r.end()-1)); d.designParametersNormalized=V(normaliseX(vector<double>(r.begin(),r.end()-1),p.lo,p.hi)); d.trueValue=j<0?r[p.d]:c.src.real(-5,5); vector<double> g2; for(int q=0;q<nc;q++) g2.push_back(q==j?r[p.d]:c.src.real(-5,5)); d.constraintTrueValues=V(g2); bool a=ref.add(r); if(ref.unsure) c.discard(); (a?added:dups)++; if(j<0) f.addDesignToData(d,"primal"); else g1.addDesignToData(d);
        string got=readFile(file); c.require(got==ref.text,a?"file after a new sample":"file after a near duplicate",fmt("step %d: got\n",t)+tail(got)+"expected\n"+tail(ref.text)); if(j<0){ Rows td=R(f.getTrainingData()); c.require(td==ref.rows,"data held by the function differ from its file",fmt("step %d",t)); } else { Rows td=R(g1.getTrainingData()); c.require(td==ref.rows,"data held by the function differ from its file",fmt("step %d",t)); } }
    c.labelIf(dups>0,"near duplicate"); c.labelIf(j>=0,"constraint"); c.labelIf(!p.newline,"file without trailing newline"); c.nontrivial(added>0&&dups>0); }
static Reg r4({"O09","append",o09append,2500,40000,1,60,"1..8 samples added to an objective or constraint function: fresh ones and ones that differ from a stored row by 0, 0.3, 0.99, 1.01, 2 or 10 times 1e-4 in some components; file text and data held after every step; non-trivial: an added and a skipped sample",30});
