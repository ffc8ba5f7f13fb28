// O04..O07, O05: history, optimum and feasibility objects on tables far larger than those of the runs in h_opt.cpp.
#include "opt.hpp"
#include "quiet.hpp"
#include "Optimizers/INCLUDE/optimization_history.hpp"
#include "Optimizers/INCLUDE/globalOptimalDesign.hpp"
using namespace pbt; using namespace Rodop; using namespace opt; using std::vector; using std::string;
static double anyValue(Ctx& c,double scale,double off){ switch(c.src.below(6)){ case 0: return off+scale*(double)c.src.range(-3,3); case 1: return (c.src.chance(0.5)?1:-1)*c.src.logreal(1e-12,1e12); case 2: return c.src.chance(0.5)?0.0:-0.0; default: return off+scale*c.src.real(-1,1); } }
struct Table { int d,nc; Rows r; };      // parameters, objective, constraints, improvement, feasibility
static Table genTable(Ctx& c,int maxRows){ Table t; t.d=(int)c.src.range(1,c.src.chance(0.2)?12:4); t.nc=c.src.chance(0.4)?0:(int)c.src.range(1,6); int n=(int)c.src.range(1,c.src.chance(0.3)?maxRows:12); double scale=c.src.pick(vector<double>{1,1e-6,1e6,1e3}), off=c.src.chance(0.5)?0:c.src.real(-100,100)*scale; double pf=c.src.pick(vector<double>{0,0.05,0.5,0.95,1}); bool ties=c.src.chance(0.3);
    for(int i=0;i<n;i++){ vector<double> q; for(int k=0;k<t.d;k++) q.push_back(anyValue(c,scale,off)); q.push_back(ties?off+scale*(double)c.src.below(4):anyValue(c,scale,off)); for(int j=0;j<t.nc;j++) q.push_back(anyValue(c,1,0)); q.push_back(c.src.chance(0.5)?0:c.src.logreal(1e-9,1e9)); q.push_back(c.src.chance(pf)?1:0); t.r.push_back(q); } return t; }
static string tableText(const Table& t){ return fmt("%d parameters %d constraints ",t.d,t.nc)+str(t.r).substr(0,3000); }
static string tagOf(const string& s,const string& tag){ auto a=s.find("<"+tag+">"), b=s.find("</"+tag+">"); if(a==string::npos||b==string::npos||b<a) return "?"; return s.substr(a+tag.size()+2,b-a-tag.size()-2); }
static vector<double> itemsOf(const string& s){ vector<double> r; size_t p=0; while((p=s.find("<item>",p))!=string::npos){ r.push_back(atof(s.c_str()+p+6)); p++; } return r; }
// ---------------------------------------------------------------- O06
static void o06sel(Ctx& c){
    int rounds=(int)c.src.range(1,3); GlobalOptimalDesign g; Table t=genTable(c,300); quiet(); vector<double> lo(t.d),hi(t.d); for(int k=0;k<t.d;k++){ lo[k]=c.src.real(-10,10); hi[k]=lo[k]+c.src.logreal(1e-3,1e3); } g.setDimension(t.d); g.setNumberOfConstraints(t.nc); g.setBoxConstraints(Bounds(lo,hi)); g.xmlFileName=c.src.chance(0.5)?"globalOptimalDesign.xml":"other.xml";
    for(int q=0;q<rounds;q++){ if(q){ Table u=genTable(c,60); int keep=t.d+t.nc+3; for(auto& r: u.r){ vector<double> z; for(int j=0;j<keep-2;j++) z.push_back(r[j%r.size()]); z.push_back(r[r.size()-2]); z.push_back(r.back()); t.r.push_back(z); } } c.desc()<<tableText(t)<<" "; c.saveDesc();
        g.setGlobalOptimalDesignFromHistoryFile(M(t.r,t.d+t.nc+3)); bool any=false; double best=0; bool have=false; for(auto& r: t.r) any|=r.back()>0; for(auto& r: t.r) if(!any||r.back()>0) if(!have||r[t.d]<best){ have=true; best=r[t.d]; }
        int id=(int)-1; unlink(g.xmlFileName.c_str()); g.saveToXMLFile(); string s=readFile(g.xmlFileName); c.require(s==g.generateXmlString(),"file of the optimum"); id=atoi(tagOf(s,"DesignID").c_str()); c.require(id>=0&&id<(int)t.r.size(),"number of the optimum",s); auto& r=t.r[id];
        c.require(r[t.d]==best&&(!any||r.back()>0),"reported design is not the optimum",fmt("design %d objective %.17g, best %.17g",id,r[t.d],best)); c.eq(g.isDesignFeasible,any,"feasibility of the optimum"); c.eq(tagOf(s,"Feasibility"),string(any?"YES":"NO"),"feasibility in the file"); c.require(g.trueValue==best,"objective value"); c.near(atof(tagOf(s,"ObjectiveFunction").c_str()),best,1e-15,5.001e-7,"objective value in the file");
        auto x=S(g.designParameters); auto xi=itemsOf(tagOf(s,"DesignParameters")); c.eq((int)x.size(),t.d,"parameters"); c.eq((int)xi.size(),t.d,"parameters in the file"); auto xn=S(g.designParametersNormalized); for(int k=0;k<t.d;k++){ c.require(x[k]==r[k],"parameter of the optimum",fmt("%d",k)); c.near(xi[k],r[k],1e-15,5.001e-7,"parameter in the file"); double w=(r[k]-lo[k])/(hi[k]-lo[k])/t.d; c.near(xn[k],w,1e-9,1e-9*(1+fabs(r[k])/(hi[k]-lo[k])),"normalised parameter"); }
        auto gv=S(g.constraintTrueValues); c.eq((int)gv.size(),t.nc,"constraint values"); auto gi=itemsOf(tagOf(s,"ConstraintValues")); if(t.nc) c.eq((int)gi.size(),t.nc,"constraint values in the file"); for(int j=0;j<t.nc;j++){ c.require(gv[j]==r[t.d+1+j],"constraint value of the optimum"); c.near(gi[j],r[t.d+1+j],1e-15,5.001e-7,"constraint value in the file"); } c.require(g.improvementValue==r[r.size()-2],"improvement of the optimum"); c.label(any?"feasible designs":"nothing feasible"); }
    c.nontrivial(t.r.size()>2); }
static Reg r1({"O06","select",o06sel,60000,800000,60,20,"histories of 1..300 designs with 1..12 parameters and 0..6 constraints, values of all magnitudes, ties, no, few or all designs feasible, the same object used for a growing history: optimum (object and file) against a reference selection; non-trivial: more than 2 designs",600});
// ---------------------------------------------------------------- O04
static void o04tab(Ctx& c){
    quiet(); Table t=genTable(c,60); OptimizationHistory h; int W=t.d+t.nc+3; string file="optimizationHistory.csv"; h.setDimension(t.d); vector<string> hd; if(c.src.chance(0.5)){ for(int k=0;k<t.d;k++) hd.push_back(c.src.pick(vector<string>{"p","alpha ","x_"})+std::to_string(k)); h.setParameterNames(hd); } else for(int k=0;k<t.d;k++) hd.push_back("x"+std::to_string(k+1)); hd.push_back("Objective"); for(int j=0;j<t.nc;j++){ string n="con"+std::to_string(j*7%11); h.addConstraintName(n); hd.push_back(n); } hd.push_back("Improvement"); hd.push_back("Feasibility"); h.setObjectiveFunctionName("f"); c.desc()<<tableText(t); c.saveDesc();
    int n0=(int)c.src.range(1,t.r.size()); Rows want(t.r.begin(),t.r.begin()+n0); unlink(file.c_str()); h.setData(M(want,W)); if(n0==(int)t.r.size()) h.saveOptimizationHistoryFile();
    auto check=[&](){ Rows got=R(h.getData()); c.eq(got.size(),want.size(),"rows of the history"); for(size_t i=0;i<got.size();i++) for(int j=0;j<W;j++) c.require(got[i][j]==want[i][j],"value in the history",fmt("row %d column %d",(int)i,j)); auto ov=S(h.getObjectiveFunctionValues()), fv=S(h.getFeasibilityValues()); for(size_t i=0;i<want.size();i++){ c.require(ov[i]==want[i][t.d],"objective values"); c.require(fv[i]==want[i].back(),"feasibility values"); } };
    auto checkFile=[&](){ vector<string> fh; bool ok; Rows f=readCsv(file,true,&fh,&ok); c.require(ok,"history file"); for(auto& s: fh){ while(!s.empty()&&isspace(s[0])) s.erase(0,1); while(!s.empty()&&isspace(s.back())) s.pop_back(); } auto w=hd; for(auto& s: w) while(!s.empty()&&isspace(s.back())) s.pop_back(); c.require(fh==w,"header of the history file"); c.eq(f.size(),want.size(),"rows of the history file"); for(size_t i=0;i<f.size();i++) for(int j=0;j<W;j++) c.near(f[i][j],want[i][j],1e-15,5.001e-7,"value in the history file",fmt("row %d column %d",(int)i,j)); };
    check(); double ref=0; bool have=false; for(auto& r: want) if(r.back()>0&&(!have||r[t.d]<ref)){ have=true; ref=r[t.d]; } double got=h.calculateInitialImprovementValue(); c.require(have?got==ref:got==-std::numeric_limits<double>::max(),"best feasible initial value",fmt("got %.17g expected %.17g",got,ref));
    for(size_t i=n0;i<t.r.size();i++){ auto& r=t.r[i]; Design d(t.d); d.setNumberOfConstraints(t.nc); d.designParameters=V(vector<double>(r.begin(),r.begin()+t.d)); d.trueValue=r[t.d]; vec g(t.nc); for(int j=0;j<t.nc;j++) g(j)=r[t.d+1+j]; d.constraintTrueValues=g; d.improvementValue=r[W-2]; d.isDesignFeasible=r[W-1]>0; h.updateOptimizationHistory(d); want.push_back(r); if(i+1==t.r.size()||c.src.chance(0.05)){ check(); checkFile(); } }
    if(n0==(int)t.r.size()) checkFile();
    c.nontrivial(t.r.size()>2&&n0<(int)t.r.size()); }
static Reg r2({"O04","table",o04tab,12000,300000,40,20,"histories of 1..60 designs with 1..12 parameters and 0..6 constraints, values of all magnitudes, built from an initial table and single designs: table in memory (exact), file (6 decimals), header, best feasible initial value; non-trivial: a design was added",300});
// ---------------------------------------------------------------- O05
static void o05con(Ctx& c){
    quiet(); int nc=(int)c.src.range(1,8), d=(int)c.src.range(1,4); Optimizer o("study",d); struct K { char dir; double thr; }; vector<K> k(nc); vector<int> order=c.src.chance(0.3)?c.src.permutation(nc):vector<int>(); for(auto& q: k){ q.dir=c.src.chance(0.5)?'<':'>'; q.thr=anyValue(c,10,c.src.chance(0.3)?100:0); }
    for(int i=0;i<nc;i++){ int j=order.empty()?i:order[i]; ConstraintFunction g; ConstraintDefinition cd; if(c.src.chance(0.5)) cd.setDefinition("c"+std::to_string(j)+" "+k[j].dir+" "+fmt("%.17g",k[j].thr)); else { cd.constraintName="c"+std::to_string(j); cd.value=k[j].thr; cd.inequalityType=string(1,k[j].dir); } cd.ID=j; g.setConstraintDefinition(cd); c.eq(g.getID(),j,"number of the constraint"); c.require(g.getInequalityTargetValue()==k[j].thr,"threshold of the constraint"); c.eq(g.getInequalityType(),string(1,k[j].dir),"direction of the constraint"); o.addConstraint(g); }
    int yes=0,no=0; for(int t=0;t<10;t++){ vec v(nc); vector<double> s; bool ok=true; int viol=c.src.chance(0.6)?(int)c.src.below(nc+1):-1; for(int j=0;j<nc;j++){ double a=std::max(fabs(k[j].thr),1e-3)*c.src.logreal(1e-12,10), x; if(viol>=0){ double sg=(k[j].dir=='<'?-1:1)*(j==viol?-1:1); x=k[j].thr+sg*a; if(j==viol&&c.src.chance(0.3)) x=k[j].thr; } else x=c.src.chance(0.2)?k[j].thr:c.src.chance(0.3)?std::nextafter(k[j].thr,c.src.chance(0.5)?1e300:-1e300):anyValue(c,10,0); v(j)=x; s.push_back(x); ok=ok&&(k[j].dir=='<'?x<k[j].thr:x>k[j].thr); }
        bool got=o.checkConstraintFeasibility(v); c.require(got==ok,ok?"admissible values are rejected":"inadmissible values are accepted",pbt::str(s)); (ok?yes:no)++; }
    c.desc()<<nc<<" constraints:"; for(auto& q: k) c.desc()<<" "<<q.dir<<fmt("%.17g",q.thr); c.labelIf(yes>0,"feasible"); c.labelIf(no>0,"infeasible"); c.nontrivial(yes&&no); }
static Reg r3({"O05","values",o05con,100000,1500000,100,20,"1..8 constraints of both directions added in any order; values of which none or one violates its constraint, on the threshold and next to it: feasible exactly if all constraints hold; non-trivial: both outcomes occur",600});
