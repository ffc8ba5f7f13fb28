// O01..O10, A01, A02, T03: Bayesian optimization runs with instrumented functions.
#include "opt.hpp"
#include "quiet.hpp"
using namespace pbt; using namespace Rodop; using std::vector; using std::string;
namespace opt {
Log* L=nullptr; const Prob* P=nullptr; Optimizer* current=nullptr; bool noRefine=false; int barrier=0; std::function<void(int)> atObjective; static std::exception_ptr pending;
static void meet(){ static std::atomic<int> arrived{0}; if(barrier<2) return; int my=arrived++, goal=(my/barrier+1)*barrier; auto t0=std::chrono::steady_clock::now(); while(arrived.load()<goal&&std::chrono::steady_clock::now()-t0<std::chrono::microseconds(60)); }
void quiet(){ OptimizationLogger::getInstance().setLogLevel(CRITICAL); quietObjective(); quietModel(); }
void resetLog(){ if(!L) L=(Log*)mmap(nullptr,sizeof(Log),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); L->n=0; L->cand=0; for(auto& x: L->counts) x=0; }
static double call(int fn,const double* x){
    int k=++L->counts[fn];
    if(fn==0&&atObjective){ try { atObjective(k); } catch(...){ pending=std::current_exception(); throw std::runtime_error("check failed"); } }
    if(P->killAt&&P->killFn==fn&&k==P->killAt) raise(SIGKILL);
    if(P->throwAt&&P->killFn==fn&&k==P->throwAt){ int i=L->n++; L->c[i].fn=fn; for(int j=0;j<P->d;j++) L->c[i].x[j]=x[j]; L->c[i].v=NAN; throw std::runtime_error("evaluation failed"); }
    double v= fn==0 ? P->f(x) : P->con[fn-1].f(x);
    if(P->nanAt&&P->killFn==fn&&k==P->nanAt) v=NAN;
    int i=L->n++; if(i<4096){ L->c[i].fn=fn; for(int j=0;j<P->d;j++) L->c[i].x[j]=x[j]; L->c[i].v=v; }
    return v; }
static double obj(const double* x){ return call(0,x); }
template<int K> static double conf(const double* x){ return call(K,x); }
static double (*conPtr[])(const double*)={conf<1>,conf<2>,conf<3>,conf<4>,conf<5>,conf<6>,conf<7>,conf<8>};
double (*fnPtr(int fn))(const double*){ return fn==0?obj:conPtr[fn-1]; }
static double udf(int id,const double* x){ if(!P||id>=(int)P->con.size()) return 0; int i=L->cand++; if(i<200000) for(int j=0;j<P->d;j++) L->candx[i][j]=x[j]; if(noRefine&&current&&current->iterGradientEILoop) current->iterGradientEILoop=0; double v=P->con[id].f(x); meet(); return v; }
vector<Call> calls(){ vector<Call> r; for(int i=0;i<std::min<int>(L->n,4096);i++) r.push_back(L->c[i]); return r; }
Prob generate(Ctx& c,const GenOpt& g){
    Prob p; p.d=(int)c.src.range(1,g.dmax); p.n=(int)c.src.range(g.single||c.src.chance(0.08)?1:3,9); p.N=(int)c.src.range(1,g.maxN); p.inner=(int)c.src.range(2,g.maxInner); p.train=(int)c.src.range(1,300); if(c.src.chance(0.15)) p.howOften=(int)c.src.range(1,4); bool big=g.big&&c.src.chance(0.025); if(big){ p.d=(int)c.src.range(1,12); p.n=(int)c.src.range(10,40); p.N=(int)c.src.range(1,25); p.train=std::min(p.train,20); if(p.d>5) p.howOften=100000; else p.howOften=std::max(p.howOften,p.N/2+1); c.label("large problem"); }
    p.lo=genLo(c,p.d,p.hi); p.inc.assign(p.d,0); p.universal=c.src.chance(0.2);
    if(g.discrete) for(int k=0;k<p.d;k++) if(c.src.chance(0.6)){ static const double incs[]={0.1,0.3,1,0.25,0.05,0.7,0.2,2}; double inc; if(c.src.chance(0.75)){ inc=incs[c.src.below(8)]; double base[]={0,1,-1,0.1,-0.5,10}; p.lo[k]=base[c.src.below(6)]; p.hi[k]=std::strtod(fmt("%.6g",p.lo[k]+inc*(double)c.src.range(1,12)).c_str(),nullptr); if(c.src.chance(0.25)) p.hi[k]+=inc*c.src.real(0.05,0.95); } else { double m=c.src.real(1,30); inc=(p.hi[k]-p.lo[k])/m; } p.inc[k]=inc; }
    p.f=genFun(c,p.lo,p.hi); if(c.src.chance(0.15)) p.f.rnd=p.f.scale*c.src.pick(vector<double>{0.1,0.5});
    auto point=[&]{ vector<double> q(p.d); for(int k=0;k<p.d;k++) q[k]=c.src.real(p.lo[k],p.hi[k]); return q; };
    for(int i=0;i<p.n;i++){ vector<double> q; for(int t=0;t<20;t++){ q=point(); bool ok=true; for(auto& z: p.x){ double m=0; for(int k=0;k<p.d;k++) m=std::max(m,fabs(q[k]-z[k])/(p.hi[k]-p.lo[k])); if(m<0.03) ok=false; } if(ok) break; }
        if(g.outside&&c.src.chance(0.25)){ int k=(int)c.src.below(p.d); double w=p.hi[k]-p.lo[k]; q[k]= c.src.chance(0.5)?p.hi[k]+w*c.src.real(1e-3,0.4):p.lo[k]-w*c.src.real(1e-3,0.4); }
        else if(c.src.chance(0.1)){ int k=(int)c.src.below(p.d); q[k]=c.src.chance(0.5)?p.lo[k]:p.hi[k]; }
        p.x.push_back(q); p.y.push_back(p.f(q.data())); }
    int nc= g.constraints&&c.src.chance(g.pCon) ? (int)c.src.range(1,big?6:3) : 0;
    for(int j=0;j<nc;j++){ Con k; k.name=string(c.src.pick(vector<string>{"g","con","Stress","drag_","c2x"}))+std::to_string(j+1); k.f=genFun(c,p.lo,p.hi); if(c.src.chance(0.2)) k.f.rnd=k.f.scale*0.5; k.dir=c.src.chance(0.5)?'<':'>'; k.udf=g.udf&&j<4&&c.src.chance(0.5); k.universal=c.src.chance(0.2);
        vector<double> v; for(int i=0;i<31;i++){ auto q=point(); v.push_back(k.f(q.data())); } std::sort(v.begin(),v.end()); int qi=(int)c.src.below(31); k.thr=v[qi]; if(c.src.chance(0.1)) k.thr= k.dir=='<' ? v[0]-fabs(v[0])-k.f.scale : v[30]+fabs(v[30])+k.f.scale; // infeasible everywhere (or nearly)
        else if(c.src.chance(0.15)) k.thr=k.f(p.x[c.src.below(p.n)].data());                            // exactly at the threshold
        k.mode= g.missing ? (int)c.src.below(5) : 0;
        for(int i=0;i<p.n;i++){ auto r=p.x[i]; r.push_back(k.f(p.x[i].data())); k.data.push_back(r); }
        if(k.mode==1&&p.n>=5){ int m=(int)c.src.range(1,2); for(int i=0;i<m;i++) k.data.erase(k.data.begin()+c.src.below(k.data.size())); }
        if(k.mode==2){ auto pm=c.src.permutation((int)k.data.size()); Rows r; for(int i: pm) r.push_back(k.data[i]); k.data=r; }
        if(k.mode==4) for(int i=0;i<2;i++){ auto& r=k.data[c.src.below(k.data.size())]; int t=(int)c.src.below(p.d); double w=(p.hi[t]-p.lo[t])*c.src.logreal(1e-5,1e-3)*(c.src.chance(0.5)?1:-1); if(fabs(w)>1e-6){ r[t]+=w; r[p.d]=k.f(r.data()); } }   // a sample near a design is not a sample of the design
        if(k.mode==3) for(int i=0;i<2;i++){ auto q=point(); q.push_back(k.f(q.data())); k.data.insert(k.data.begin()+c.src.below(k.data.size()+1),q); }
        p.con.push_back(k); }
    if(c.src.chance(0.3)) for(int k=0;k<p.d;k++) p.names.push_back(c.src.pick(vector<string>{"alpha","x","p_","len"})+std::to_string(k+3));
    if(c.src.chance(0.15)) p.newline=false;
    if(g.discrete&&c.src.chance(0.5)) p.discreteOrder=c.src.permutation(p.d); if(g.anyOrder&&nc>1&&c.src.chance(0.2)) p.conOrder=c.src.permutation(nc);
    return p; }
static void writeRows(const string& f,const Rows& r,bool nl){ string s; for(size_t i=0;i<r.size();i++){ for(size_t j=0;j<r[i].size();j++) s+=(j?",":"")+fmt("%.17g",r[i][j]); if(nl||i+1<r.size()) s+="\n"; } writeFile(f,s); }
void writeData(const Prob& p){ writeRows(p.objName+".csv",p.rows(),p.newline); for(auto& k: p.con) if(!k.udf) writeRows(k.name+".csv",k.data,p.newline); }
static ObjectiveFunctionDefinition definition(const Prob& p,int j){ ObjectiveFunctionDefinition def; def.name=j<0?p.objName:p.con[j].name; def.nameHighFidelityTrainingData=def.name+".csv"; def.designVectorFilename="dv.csv"; def.outputFilename="out.txt"; def.modelHiFi=(j<0?p.universal:p.con[j].universal)?UNIVERSAL_KRIGING:ORDINARY_KRIGING; def.ifDefined=true; return def; }
void makeObjective(ObjectiveFunction& f,const Prob& p){ f.setParametersByDefinition(definition(p,-1)); f.setDimension(p.d); f.setFunctionPtr(obj); f.setNumberOfTrainingIterationsForSurrogateModel(p.train); f.ifWarmStart=p.warm; }
void makeConstraint(ConstraintFunction& g,const Prob& p,int j){ auto& k=p.con[j]; ConstraintDefinition cd; cd.setDefinition(k.name+" "+k.dir+" "+fmt("%.17g",k.thr)); cd.ID=j; g.setConstraintDefinition(cd); auto gd=definition(p,j); if(k.udf) gd.doesUseUDF=true; g.setParametersByDefinition(gd); g.setDimension(p.d); g.setNumberOfTrainingIterationsForSurrogateModel(p.train); g.ifWarmStart=p.warm; if(k.udf) g.setUseExplicitFunctionOn(); else g.setFunctionPtr(conPtr[j]); }
void build(Optimizer& o,const Prob& p){
    quiet(); ObjectiveFunction f; makeObjective(f,p); o.addObjectFunction(f);
    for(size_t t=0;t<p.con.size();t++){ int j=p.conOrder.size()!=p.con.size()?(int)t:p.conOrder[t]; ConstraintFunction g; makeConstraint(g,p,j); o.addConstraint(g); }
    o.setBoxConstraints(Bounds(p.lo,p.hi)); o.setMaximumNumberOfIterations(p.N); o.setMaximumNumberOfInnerIterations(p.inner); o.setHowOftenTrainModels(p.howOften); o.setNumberOfThreads(p.threads); o.setAPIUseOn();
    for(int t=0;t<p.d;t++){ int k=p.discreteOrder.empty()?t:p.discreteOrder[t]; if(p.inc[k]>0) o.setParameterToDiscrete(k,p.inc[k]); } if(!p.names.empty()) o.setParameterNames(p.names); }
Out run(const Prob& p,Optimizer* keep,bool write){ Out r; P=&p; resetLog(); if(p.stale){ std::ofstream("optimizationHistory.csv")<<"x1, Objective, Improvement, Feasibility\n1.000000, 2.000000, 0.000000, 1.000000\n"; std::ofstream("globalOptimalDesign.xml")<<"<GlobalOptimalDesign>\n<DesignID>1</DesignID>\n<ObjectiveFunction>-1e6</ObjectiveFunction>\n<Feasibility>YES</Feasibility>\n</GlobalOptimalDesign>\n"; } if(write) writeData(p); Optimizer own("study",p.d); Optimizer& o=keep?*keep:own; build(o,p); current=&o; pending=nullptr; try { o.performEfficientGlobalOptimization(); } catch(const Failure&){ throw; } catch(const std::exception& e){ r.threw=true; r.what=e.what(); } current=nullptr; if(pending){ auto q=pending; pending=nullptr; std::rethrow_exception(q); } try { r.hist=R(o.getHistory()); } catch(...){} return r; }
vector<Eval> evaluations(Ctx& c,const Prob& p){
    vector<Eval> r; auto cs=calls(); int per=1; for(auto& k: p.con) per+=!k.udf; c.require((int)cs.size()%per==0,"incomplete iteration",fmt("%d calls",(int)cs.size()));
    for(size_t i=0;i<cs.size();i+=per){ Eval e; e.x=xs(cs[i].x,p.d); e.f=NAN; e.g.assign(p.con.size(),NAN); vector<int> seen(p.con.size()+1,0); for(int q=0;q<per;q++){ auto& k=cs[i+q]; c.require(xs(k.x,p.d)==e.x,"functions of one iteration evaluated at different designs"); c.require(!seen[k.fn]++,"function evaluated twice in an iteration"); if(k.fn==0) e.f=k.v; else e.g[k.fn-1]=k.v; } for(size_t j=0;j<p.con.size();j++) if(p.con[j].udf) e.g[j]=p.con[j].f(e.x.data()); r.push_back(e); }
    return r; }
Rows dataRows(const string& f){ bool ok; Rows r=readCsv(f,false,nullptr,&ok); return r; }
}
double constraintFunction0(double* x){ return opt::udf(0,x); }
double constraintFunction1(double* x){ return opt::udf(1,x); }
double constraintFunction2(double* x){ return opt::udf(2,x); }
double constraintFunction3(double* x){ return opt::udf(3,x); }
using namespace opt;

void opt::mustRun(Ctx& c,const Out& o){ if(o.threw) c.fail("run failed",o.what); }
static double tolB(const Prob& p,int k){ return 1e-12*(p.hi[k]-p.lo[k])+4e-16*std::max(fabs(p.lo[k]),fabs(p.hi[k])); }
void opt::describe(Ctx& c,const Prob& p){ c.desc()<<p.text(); c.saveDesc(); c.label("dimension "+std::to_string(p.d)); c.label(std::to_string(p.con.size())+" constraints"); }

// ---------------------------------------------------------------- O01
static void o01(Ctx& c){
    GenOpt g; g.udf=true; g.big=true; g.discrete=c.src.chance(0.3); g.outside=c.src.chance(0.2); g.maxN=c.thorough?12:6; Prob p=generate(c,g); if(c.src.chance(0.2)) p.threads=2; describe(c,p); Out o=run(p); mustRun(c,o);
    int edge=0; for(auto& k: calls()) for(int i=0;i<p.d;i++){ double v=k.x[i]; c.require(std::isfinite(v)&&v>=p.lo[i]-tolB(p,i)&&v<=p.hi[i]+tolB(p,i),"evaluated design outside the box",fmt("function %d parameter %d = %.17g not in [%.17g,%.17g]",k.fn,i,v,p.lo[i],p.hi[i])); if(v-p.lo[i]<1e-9*(p.hi[i]-p.lo[i])||p.hi[i]-v<1e-9*(p.hi[i]-p.lo[i])) edge++; }
    int m=std::min<int>(L->cand,200000); for(int j=0;j<m;j++) for(int i=0;i<p.d;i++){ double v=L->candx[j][i]; c.require(v>=p.lo[i]-tolB(p,i)||g.outside,"candidate outside the box"); c.require(v<=p.hi[i]+tolB(p,i)||g.outside,"candidate outside the box"); }
    c.labelIf(edge>0,"design on a bound"); c.labelIf(m>0,"user defined constraint"); c.nontrivial(calls().size()>=2); }
static Reg r1({"O01","box",o01,1200,12000,1,120,"full optimization runs (dimension 1..4, random boxes, 0..3 constraints with surrogate or user defined, discrete parameters, initial samples outside the box, 1..6 iterations); every design given to a function; non-trivial: at least 2 calls",40});
// ---------------------------------------------------------------- O02
static double nearestGrid(const Prob& p,int k,double x,double& gap){ double best=0, bd=1e300, second=1e300; for(long i=0;;i++){ double v=p.lo[k]+i*p.inc[k]; if(v>p.hi[k]+1e-9*p.inc[k]) break; double dd=fabs(v-x); if(dd<bd){ second=bd; bd=dd; best=v; } else second=std::min(second,dd); } gap=second-bd; return best; }
static void o02(Ctx& c){
    GenOpt g; g.discrete=true; g.big=true; g.maxN=4; Prob p=generate(c,g); bool any=false; for(double i: p.inc) any|=i>0; if(!any) p.inc[0]=(p.hi[0]-p.lo[0])/3; describe(c,p); bool last=false;
    // the same run without discrete parameters: its first proposal is the continuous optimum of the first search
    Prob q=p; q.inc.assign(p.d,0); resetLog(); auto pr=runForked([&]{ opt::Out o=run(q); if(o.threw) _exit(9); },40); c.require(pr.exited&&pr.code==0,"run failed","continuous variant"); c.require(L->n>0,"no evaluation"); vector<double> cont=xs(L->c[0].x,p.d);
    resetLog(); pr=runForked([&]{ opt::Out o=run(p); if(o.threw) _exit(9); },40); c.require(pr.exited&&pr.code==0,"run failed","discrete variant");
    bool first=true; for(auto& k: calls()) { for(int i=0;i<p.d;i++) if(p.inc[i]>0){ double gap, v=nearestGrid(p,i,k.x[i],gap); c.near(k.x[i],v,1e-12,1e-12*p.inc[i]+1e-15,"value not on the grid",fmt("parameter %d lower %.17g upper %.17g increment %.17g:",i,p.lo[i],p.hi[i],p.inc[i])); c.require(k.x[i]<=p.hi[i]+tolB(p,i),"grid value above the upper bound"); if(v+p.inc[i]>p.hi[i]+1e-9*p.inc[i]&&p.hi[i]>p.lo[i]) last=true; } 
        if(first) for(int i=0;i<p.d;i++){ if(p.inc[i]>0){ double gap, v=nearestGrid(p,i,cont[i],gap); if(gap>1e-9*p.inc[i]) c.near(k.x[i],v,1e-12,1e-12*p.inc[i]+1e-15,"not the nearest grid value",fmt("parameter %d continuous optimum %.17g lower %.17g upper %.17g increment %.17g:",i,cont[i],p.lo[i],p.hi[i],p.inc[i])); } else c.eq(k.x[i],cont[i],"continuous parameter was changed"); }
        first=false; }
    c.labelIf(last,"last grid value"); c.nontrivial(any); }
static Reg r2({"O02","grid",o02,700,8000,1,120,"runs with discrete parameters (increments such as 0.1 or 0.3 whose multiples are inexact, bounds on and off the grid) compared with the same run on continuous parameters; non-trivial: a discrete parameter was declared",30});
// ---------------------------------------------------------------- O03
static void o03(Ctx& c){
    GenOpt g; g.big=true; g.udf=c.src.chance(0.2); g.maxN=c.thorough?20:8; g.maxInner=20; Prob p=generate(c,g); if(c.src.chance(0.2)) p.threads=(int)c.src.range(2,4); describe(c,p); Out o=run(p); mustRun(c,o);
    c.eq((int)L->counts[0],p.N,"objective evaluations"); for(size_t j=0;j<p.con.size();j++) if(!p.con[j].udf) c.eq((int)L->counts[j+1],p.N,"constraint evaluations"); auto e=evaluations(c,p); c.eq((int)e.size(),p.N,"iterations"); c.eq(o.hist.size(),p.x.size()+p.N,"rows of the history"); c.nontrivial(p.N>1); }
static Reg r3({"O03","budget",o03,800,9000,1,120,"runs with 1..8 iterations, 0..3 constraints; number and grouping of all function calls; non-trivial: more than one iteration",20});
// ---------------------------------------------------------------- history oracle (O04..O07)
Expected opt::expectHistory(Ctx& c,const Prob& p,const Rows& init,const vector<Rows>& conData,const vector<Eval>& ev){
    Expected e; e.n0=(int)init.size(); double ref=0; bool have=false;
    for(auto& r: init){ vector<double> h(r.begin(),r.begin()+p.d+1); bool ok=p.inBox(r); for(size_t j=0;j<p.con.size();j++){ double v; auto& k=p.con[j]; if(k.udf) v=k.f(r.data()); else { v=k.dir=='<'?1e15:-1e15; for(auto& q: conData[j]){ double m=0; for(int i=0;i<p.d;i++) m=std::max(m,fabs(q[i]-r[i])); if(m<=1e-8){ v=q[p.d]; break; } } } h.push_back(v); ok=ok&&k.ok(v); } h.push_back(0); h.push_back(ok); if(ok&&(!have||h[p.d]<ref)){ have=true; ref=h[p.d]; } e.rows.push_back(h); }
    e.anyInit=have;
    for(auto& v: ev){ vector<double> h=v.x; h.push_back(v.f); bool ok=true; for(size_t j=0;j<p.con.size();j++){ h.push_back(v.g[j]); ok=ok&&p.con[j].ok(v.g[j]); } double imp=0; if(ok){ if(!have){ have=true; ref=v.f; imp=-1; } else if(v.f<ref) imp=ref-v.f; } h.push_back(imp); h.push_back(ok); e.rows.push_back(h); }
    return e; }
static vector<Rows> conRows(const Prob& p){ vector<Rows> r; for(auto& k: p.con) r.push_back(k.udf?Rows():dataRows(k.name+".csv")); return r; }
static vector<Rows> genRows(const Prob& p){ vector<Rows> r; for(auto& k: p.con) r.push_back(k.data); return r; }
static Prob historyCase(Ctx& c,Out& o,vector<Eval>& ev,Expected& e,double pOutside){ GenOpt g; g.udf=c.src.chance(0.4); g.outside=c.src.chance(pOutside); g.discrete=c.src.chance(0.15); g.single=c.src.chance(0.05); g.maxN=c.thorough?12:6; g.maxInner=30; g.pCon=0.75; g.anyOrder=true; g.big=true; Prob p=generate(c,g); c.labelIf(!p.conOrder.empty(),"constraints added in another order"); if(c.src.chance(0.1)) p.threads=2; p.stale=c.src.chance(0.2); c.labelIf(p.stale,"files of an earlier run"); describe(c,p); o=run(p); mustRun(c,o); ev=evaluations(c,p); e=expectHistory(c,p,p.rows(),genRows(p),ev); c.eq(o.hist.size(),e.rows.size(),"rows of the history"); return p; }
static void o04(Ctx& c){
    Out o; vector<Eval> ev; Expected e; Prob p=historyCase(c,o,ev,e,0.2); size_t nc=p.con.size();
    for(size_t i=0;i<e.rows.size();i++) for(size_t j=0;j<p.d+1+nc;j++){ if((int)i<e.n0){ double a=o.hist[i][j], b=e.rows[i][j]; c.require(a==b,"initial sample in the history",fmt("row %d column %d got %.17g expected %.17g",(int)i,(int)j,a,b)); } else c.require(o.hist[i][j]==e.rows[i][j],"evaluated design in the history",fmt("row %d column %d got %.17g expected %.17g",(int)i,(int)j,o.hist[i][j],e.rows[i][j])); }
    vector<string> hd; bool ok; Rows f=readCsv("optimizationHistory.csv",true,&hd,&ok); c.require(ok,"history file"); vector<string> want=p.names; if(want.empty()) for(int k=0;k<p.d;k++) want.push_back("x"+std::to_string(k+1)); want.push_back("Objective"); for(auto& k: p.con) want.push_back(k.name); want.push_back("Improvement"); want.push_back("Feasibility"); for(auto& s: hd){ while(!s.empty()&&isspace(s[0])) s.erase(0,1); while(!s.empty()&&isspace(s.back())) s.pop_back(); } c.require(hd==want,"header of the history file",readFile("optimizationHistory.csv").substr(0,200));
    c.eq(f.size(),o.hist.size(),"rows of the history file"); for(size_t i=0;i<f.size();i++){ c.eq(f[i].size(),o.hist[i].size(),"columns of the history file"); for(size_t j=0;j<f[i].size();j++) c.near(f[i][j],o.hist[i][j],1e-15,5.001e-7,"value in the history file"); }
    c.labelIf(nc>0&&p.con[0].mode,"constraint data differ"); c.nontrivial(ev.size()>=1&&p.n>1); }
static Reg r4({"O04","history",o04,900,10000,1,120,"runs with 0..3 constraints whose data are complete, incomplete, permuted or larger; history in memory (exact) and on file (6 decimals) against the recorded calls; non-trivial: more than one initial sample",25});
static void o05(Ctx& c){
    Out o; vector<Eval> ev; Expected e; Prob p=historyCase(c,o,ev,e,0.6); bool yes=false,no=false;
    for(size_t i=0;i<e.rows.size();i++){ double got=o.hist[i].back(), want=e.rows[i].back(); c.require(got==want,(int)i<e.n0?"feasibility of an initial sample":"feasibility of an evaluated design",fmt("row %d got %g expected %g: ",(int)i,got,want)+pbt::str(e.rows[i])); (want?yes:no)=true; bool atThr=false; for(size_t j=0;j<p.con.size();j++) if(e.rows[i][p.d+1+j]==p.con[j].thr) atThr=true; c.labelIf(atThr,"value exactly at the threshold"); c.labelIf((int)i<e.n0&&!p.inBox(e.rows[i]),"initial sample outside the box"); }
    c.labelIf(yes,"feasible"); c.labelIf(no,"infeasible"); c.nontrivial(yes&&no); }
static Reg r5({"O05","feasibility",o05,1000,10000,1,120,"runs with initial samples inside and outside the box and 0..3 constraints with thresholds at random quantiles, at sample values, or unattainable; non-trivial: feasible and infeasible designs both occur",20});
static string xmlGet(const string& s,const string& tag){ auto a=s.find("<"+tag+">"), b=s.find("</"+tag+">"); if(a==string::npos||b==string::npos||b<a) return "?"; return s.substr(a+tag.size()+2,b-a-tag.size()-2); }
static vector<double> xmlItems(const string& s){ vector<double> r; size_t p=0; while((p=s.find("<item>",p))!=string::npos){ r.push_back(atof(s.c_str()+p+6)); p++; } return r; }
static void o06(Ctx& c){
    Out o; vector<Eval> ev; Expected e; Prob p=historyCase(c,o,ev,e,0.3); bool any=false; double best=1e400; for(auto& r: e.rows) any|=r.back()>0; for(auto& r: e.rows) if(!any||r.back()>0) best=std::min(best,r[p.d]);
    string s=readFile("globalOptimalDesign.xml"); string feas=xmlGet(s,"Feasibility"); c.eq(feas,string(any?"YES":"NO"),"feasibility of the optimum"); int id=atoi(xmlGet(s,"DesignID").c_str()); c.require(id>=0&&id<(int)e.rows.size(),"design number of the optimum",s); auto& r=e.rows[id];
    c.require(r[p.d]==best&&(!any||r.back()>0),"reported design is not the optimum",fmt("design %d objective %.17g, best %.17g",id,r[p.d],best)); c.near(atof(xmlGet(s,"ObjectiveFunction").c_str()),best,1e-15,5.001e-7,"objective value of the optimum");
    auto x=xmlItems(xmlGet(s,"DesignParameters")); c.eq((int)x.size(),p.d,"parameters of the optimum"); for(int k=0;k<p.d;k++) c.near(x[k],r[k],1e-15,5.001e-7,"parameter of the optimum"); if(!p.con.empty()){ auto g=xmlItems(xmlGet(s,"ConstraintValues")); c.eq(g.size(),p.con.size(),"constraint values of the optimum"); for(size_t j=0;j<g.size();j++) c.near(g[j],r[p.d+1+j],1e-15,5.001e-7,"constraint value of the optimum"); }
    c.label(any?(id<e.n0?"optimum is an initial sample":"optimum is a new design"):"nothing feasible"); c.nontrivial(e.rows.size()>2); }
static Reg r6({"O06","optimum",o06,900,10000,1,120,"runs as in O05; the reported optimum (XML file) against the minimum over the feasible rows of the reference history; ties accept any minimiser; non-trivial: more than 2 designs",20});
static void o07(Ctx& c){
    Out o; vector<Eval> ev; Expected e; Prob p=historyCase(c,o,ev,e,0.3); size_t col=p.d+1+p.con.size(); bool pos=false; for(size_t i=e.n0;i<e.rows.size();i++){ double got=o.hist[i][col], want=e.rows[i][col]; if(want==-1){ c.require(got>=0&&got<1e-9,"improvement of the first feasible design",fmt("%.17g",got)); c.label("first feasible design of a run without feasible samples"); } else { double sc=std::max(fabs(e.rows[i][p.d]),1e-300); c.near(got,want,1e-12,1e-15*sc,"improvement",fmt("row %d",(int)i)); } if(want>0) pos=true; if(!e.rows[i].back()&&p.con.size()) c.label("infeasible design"); }
    c.labelIf(pos,"improvement"); c.nontrivial(pos); }
static Reg r7({"O07","improvement",o07,1000,10000,1,120,"runs as in O05; improvement column against best feasible initial value minus objective value; non-trivial: at least one improvement",20});
