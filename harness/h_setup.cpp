// O12: inconsistent set-ups of the Optimizer class are rejected before anything is evaluated.
#include "opt.hpp"
#include "quiet.hpp"
#include <sys/stat.h>
using namespace pbt; using namespace Rodop; using namespace opt; using std::vector; using std::string;
static ObjectiveFunctionDefinition defn(const Prob& p,int j){ ObjectiveFunctionDefinition d; d.name=j<0?p.objName:p.con[j].name; d.nameHighFidelityTrainingData=d.name+".csv"; d.designVectorFilename="dv.csv"; d.outputFilename="out.txt"; d.modelHiFi=(j<0?p.universal:p.con[j].universal)?UNIVERSAL_KRIGING:ORDINARY_KRIGING; d.ifDefined=true; return d; }
static const char* faultName[]={"none","no objective","no box","no number of evaluations","empty interval","inverted interval","bounds of another dimension","objective of another dimension","constraint of another dimension","optimizer of another dimension","no definition of the objective","no definition of a constraint","model that is not available","missing data file","data with another number of columns","empty data file","data that are not numbers","bound that is not a number","infinite bound","constraint added after the box","constraint number out of range","constraint number used twice","constraint name used twice","empty study name","dimension zero","box given twice, second one inverted"};
enum { NONE_,NOOBJ,NOBOX,NOMAX,EMPTYI,INVERT,BDIM,ODIM,CDIM,PDIM,NODEF,NOCDEF,MODEL,NOFILE,COLS,EMPTYF,TEXT,NANB,INFB,LATE,IDRANGE,IDTWICE,NAMETWICE,NONAME,DIM0,TWICE,NFAULT };
static void attempt(const Prob& p,int fault,int where,int sign,double bad,int k0){
    quiet(); Optimizer o=fault==NONAME?Optimizer("",p.d):Optimizer("study",fault==DIM0?0:fault==PDIM?p.d+sign:p.d);
    auto boxOf=[&](int f){ auto lo=p.lo, hi=p.hi; if(f==EMPTYI) hi[k0]=lo[k0]; if(f==INVERT||f==TWICE) std::swap(lo[k0],hi[k0]); if(f==BDIM){ if(sign>0){ lo.push_back(0); hi.push_back(1); } else { lo.pop_back(); hi.pop_back(); } } if(f==NANB||f==INFB) (sign>0?hi:lo)[k0]=f==NANB?NAN:sign>0?HUGE_VAL:-HUGE_VAL; return Bounds(lo,hi); };
    if(fault!=NOOBJ){ ObjectiveFunction f; auto def=defn(p,-1); if(fault==MODEL&&where<0){ if(bad>0.9) def.ifMultiLevel=true; else def.modelHiFi=bad<0.3?GRADIENT_ENHANCED:bad<0.6?TANGENT_ENHANCED:bad<0.75?NONE:LINEAR_REGRESSION; } if(fault!=NODEF) f.setParametersByDefinition(def); f.setDimension(fault==ODIM?p.d+sign:p.d); f.setFunctionPtr(fnPtr(0)); f.setNumberOfTrainingIterationsForSurrogateModel(p.train); o.addObjectFunction(f); }
    auto addCon=[&](int j){ auto& k=p.con[j]; ConstraintFunction g; ConstraintDefinition cd; cd.setDefinition((fault==NAMETWICE&&j==where?p.con[(j+1)%p.con.size()].name:k.name)+" "+k.dir+" "+fmt("%.17g",k.thr)); cd.ID=j; if(j==where&&fault==IDRANGE) cd.ID=(int)p.con.size()+(int)(bad*3); if(j==where&&fault==IDTWICE) cd.ID=(j+1)%p.con.size(); g.setConstraintDefinition(cd); auto gd=defn(p,j); if(fault==NAMETWICE&&j==where) gd.name=p.con[(j+1)%p.con.size()].name; if(fault==MODEL&&j==where){ if(bad>0.9) gd.ifMultiLevel=true; else gd.modelHiFi=bad<0.3?GRADIENT_ENHANCED:bad<0.6?TANGENT_ENHANCED:bad<0.75?NONE:LINEAR_REGRESSION; } if(!(fault==NOCDEF&&j==where)) g.setParametersByDefinition(gd); g.setDimension(fault==CDIM&&j==where?p.d+sign:p.d); g.setNumberOfTrainingIterationsForSurrogateModel(p.train); g.setFunctionPtr(fnPtr(j+1)); o.addConstraint(g); };
    for(size_t j=0;j<p.con.size();j++) if(!(fault==LATE&&(int)j==where)) addCon(j);
    if(fault==TWICE) o.setBoxConstraints(Bounds(p.lo,p.hi)); if(fault!=NOBOX) o.setBoxConstraints(boxOf(fault)); if(fault==LATE) addCon(where);
    if(fault!=NOMAX) o.setMaximumNumberOfIterations(p.N); o.setMaximumNumberOfInnerIterations(p.inner); o.setAPIUseOn();
    for(int k=0;k<p.d;k++) if(p.inc[k]>0) o.setParameterToDiscrete(k,p.inc[k]); if(!p.names.empty()) o.setParameterNames(p.names);
    o.performEfficientGlobalOptimization(); }
static void o12(Ctx& c){
    GenOpt g; g.discrete=c.src.chance(0.15); g.maxN=2; g.maxInner=8; g.dmax=3; g.pCon=0.75; g.missing=false; Prob p=generate(c,g); p.train=std::min(p.train,30); int nc=(int)p.con.size(); int fault; do fault=(int)c.src.below(NFAULT); while(((fault==CDIM||fault==NOCDEF||fault==LATE||fault==IDRANGE)&&nc<1)||((fault==IDTWICE||fault==NAMETWICE)&&nc<2));
    int where=(int)c.src.below(nc+1)-1; if(where<0&&(fault==CDIM||fault==NOCDEF||fault==LATE||fault==IDRANGE||fault==IDTWICE||fault==NAMETWICE)) where=(int)c.src.below(nc); int sign=c.src.chance(0.5)?1:-1; if(p.d==1&&(fault==BDIM||fault==ODIM||fault==CDIM||fault==PDIM)&&fault!=ODIM&&fault!=CDIM) sign=1; double bad=c.src.unit(); int k0=(int)c.src.below(p.d);
    c.desc()<<"fault: "<<faultName[fault]<<" at "<<where<<" sign "<<sign<<" bad "<<bad<<" parameter "<<k0<<" "; describe(c,p); c.label(faultName[fault]);
    P=&p; writeData(p); string file=(where<0?p.objName:p.con[where].name)+".csv"; if(fault==NOFILE) unlink(file.c_str()); if(fault==EMPTYF) writeFile(file,bad<0.5?"":"\n"); if(fault==TEXT||fault==COLS){ string s=readFile(file); auto a=s.find(','); if(fault==TEXT) s=bad<0.5?s.substr(0,a+1)+"abc"+s.substr(a):"x"+s; else { string t; for(auto& l: vector<string>{s}){ std::istringstream is(l); string ln; while(std::getline(is,ln)) t+= sign>0? ln+",1.5\n" : ln.substr(0,ln.rfind(','))+"\n"; } s=t; } writeFile(file,s); }
    std::map<string,string> before; auto snap=[&]{ std::map<string,string> m; m[p.objName]=readFile(p.objName+".csv"); for(auto& k: p.con) m[k.name]=readFile(k.name+".csv"); m["h"]=readFile("optimizationHistory.csv"); m["x"]=readFile("globalOptimalDesign.xml"); return m; };
    bool stale=c.src.chance(0.3); if(stale){ writeFile("optimizationHistory.csv","earlier history\n"); writeFile("globalOptimalDesign.xml","earlier optimum\n"); }
    before=snap(); resetLog(); string what; auto pr=runForked([&]{ try { attempt(p,fault,where,sign,bad,k0); } catch(const std::exception& e){ writeFile("error.txt",e.what()); _exit(7); } _exit(0); },60); what=readFile("error.txt");
    c.require(pr.exited&&(pr.code==0||pr.code==7),"the process died",fmt("signal or code %d",pr.code));
    if(fault==NONE_){ c.require(pr.code==0,"a consistent set-up is rejected",what); c.eq((int)L->counts[0],p.N,"evaluations"); c.nontrivial(false); return; }
    c.require(pr.code==7,"inconsistent set-up accepted",faultName[fault]); c.eq(calls().size(),(size_t)0,"evaluation before the rejection",string(faultName[fault])+": "+what);
    auto after=snap(); for(auto& q: before) c.require(after[q.first]==q.second,"file changed before the rejection",q.first+" "+faultName[fault]+": "+what); c.nontrivial(true); }
static Reg r1({"O12","fault",o12,3000,40000,1,60,"problems of the O01 generator set up with one of 25 inconsistencies (missing objective, box, number of evaluations or definition; dimensions of optimizer, objective, constraint, bounds or data that differ; empty, inverted, infinite or undefined intervals; unavailable models; missing, empty or malformed data; constraint numbers and names used twice or out of range): exception, no evaluation, no file changed; 4% without fault must run; non-trivial: a fault was injected",40});
// a rejected call leaves the settings as they were: the run is that of the accepted calls alone
static void o12rej(Ctx& c){
    GenOpt g; g.discrete=c.src.chance(0.3); g.maxN=3; g.maxInner=12; g.dmax=3; g.pCon=0.5; Prob p=generate(c,g); p.train=std::min(p.train,40); if(p.names.empty()&&c.src.chance(0.5)) for(int k=0;k<p.d;k++) p.names.push_back("q"+std::to_string(k)); describe(c,p);
    struct Step { int kind, when; int k0; int i; double v; }; vector<Step> st; int ns=(int)c.src.range(1,4); for(int i=0;i<ns;i++) st.push_back({(int)c.src.below(9),(int)c.src.below(2),(int)c.src.below(p.d),(int)c.src.below(4),c.src.unit()});
    static const char* nm[]={"box of another dimension","index of a discrete parameter","increment","training interval 0","0 threads","parameter names","name of the design file","box without bounds","maximum that is undefined"};
    for(auto& s: st) c.desc()<<" rejected: "<<nm[s.kind]<<" "<<s.i<<" "<<s.v<<" at "<<s.when<<"; ";
    c.saveDesc();
    auto play=[&](bool rej){ P=&p; writeData(p); Optimizer o("study",p.d); auto bad=[&](int when){ if(rej) for(auto& s: st) if(s.when==when){ bool threw=false; try {
            if(s.kind==0){ auto lo=p.lo, hi=p.hi; for(int k=0;k<p.d;k++){ double w=hi[k]-lo[k]; hi[k]=lo[k]+w*0.4; lo[k]-=w*0.3; } if(p.d>1&&s.i%2){ lo.pop_back(); hi.pop_back(); } else { lo.push_back(-1); hi.push_back(1); } o.setBoxConstraints(Bounds(lo,hi)); }
            else if(s.kind==1) o.setParameterToDiscrete(p.d+s.i,0.1+s.v); else if(s.kind==2) o.setParameterToDiscrete(s.k0,s.i==0?0.0:s.i==1?-s.v-1e-3:s.i==2?NAN:-0.0); else if(s.kind==3) o.setHowOftenTrainModels(0); else if(s.kind==4) o.setNumberOfThreads(0);
            else if(s.kind==5){ vector<string> n; if(s.i==0&&p.d>1) n.assign(p.d,"same"); else if(s.i!=1) for(int k=0;k<p.d+1;k++) n.push_back("z"+std::to_string(k)); o.setParameterNames(n); }
            else if(s.kind==6) o.setFileNameDesignVector(s.i%2?"":"  "); else if(s.kind==7){ Bounds b; o.setBoxConstraints(b); } else { if(s.when==0) throw 1; o.setParameterNames({}); } } catch(...){ threw=true; } if(!threw) _exit(20+s.kind); } };
        quiet(); ObjectiveFunction f; makeObjective(f,p); o.addObjectFunction(f); for(size_t j=0;j<p.con.size();j++){ ConstraintFunction q; makeConstraint(q,p,(int)j); o.addConstraint(q); }
        bad(0); o.setBoxConstraints(Bounds(p.lo,p.hi)); o.setMaximumNumberOfIterations(p.N); o.setMaximumNumberOfInnerIterations(p.inner); o.setHowOftenTrainModels(p.howOften); o.setNumberOfThreads(1); o.setAPIUseOn(); for(int k=0;k<p.d;k++) if(p.inc[k]>0) o.setParameterToDiscrete(k,p.inc[k]); if(!p.names.empty()) o.setParameterNames(p.names); bad(1);
        o.performEfficientGlobalOptimization(); };
    auto one=[&](bool rej,vector<Call>& cs,string& h,string& x){ resetLog(); auto pr=runForked([&]{ try { play(rej); } catch(const std::exception& e){ writeFile("error.txt",e.what()); _exit(7); } _exit(0); },60); string what=readFile("error.txt"); if(pr.exited&&pr.code>=20) c.fail("an inconsistent call is accepted",nm[pr.code-20]); c.require(pr.exited,"the process died",fmt("signal %d",pr.code)); c.require(pr.code==0,rej?"run after rejected calls fails":"run fails",what); cs=calls(); h=readFile("optimizationHistory.csv"); x=readFile("globalOptimalDesign.xml"); };
    vector<Call> a,b; string ha,hb,xa,xb; one(false,a,ha,xa); one(true,b,hb,xb); c.eq(b.size(),a.size(),"number of evaluations after rejected calls"); for(size_t i=0;i<a.size();i++) c.require(a[i].fn==b[i].fn&&xs(a[i].x,p.d)==xs(b[i].x,p.d),"another design is evaluated after rejected calls",fmt("call %d: ",(int)i)+pbt::str(xs(b[i].x,p.d))+" expected "+pbt::str(xs(a[i].x,p.d)));
    c.require(ha==hb,"history after rejected calls"); c.require(xa==xb,"optimum after rejected calls"); c.nontrivial(true); }
static Reg r2({"O12","rejected",o12rej,300,8000,1,90,"runs with one to four rejected calls (boxes of another dimension or without bounds, discrete index, increment, training interval, threads, parameter names, file name) before or after the accepted settings against the same run without them: same designs, same history; always non-trivial",10});
