// Generated optimization problems, instrumented runs of the optimizer and their oracles.
#pragma once
#include "gp.hpp"
#include "fun.hpp"
#include "Optimizers/INCLUDE/optimization.hpp"
#include "Optimizers/INCLUDE/optimization_logger.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <csignal>
#include <atomic>
namespace opt {
using namespace pbt; using std::vector; using std::string;
inline Fun genFun(Ctx& c,const vector<double>& lo,const vector<double>& hi,bool pos=false){ Fun f; f.lo=lo; f.hi=hi; f.kind=(int)c.src.below(5); for(size_t k=0;k<lo.size();k++){ double s=pos?1:(c.src.chance(0.5)?1:-1); f.a.push_back(s*c.src.real(0.3,3)); f.b.push_back(c.src.real(0,1)); } f.scale=c.src.pick(vector<double>{1,10,1e3,0.1}); f.off=c.src.chance(0.5)?c.src.real(-20,20)*f.scale:0; return f; }
struct Con { Fun f; char dir='<'; double thr=0; int mode=0; bool udf=false, universal=false; string name; Rows data; bool ok(double v) const { return dir=='<'? v<thr : v>thr; } };
struct Prob {
    int d=1,n=3,N=2,inner=20,train=10,threads=1,howOften=100000; vector<double> lo,hi,inc; vector<string> names; Fun f; vector<Con> con; Rows x; vector<double> y; bool universal=false; bool newline=true, warm=false, stale=false; string objName="objective"; vector<int> discreteOrder, conOrder;  // orders in which the discrete parameters are declared and the constraints are added
    // faults
    int throwAt=0, killAt=0, nanAt=0, killFn=0; // call numbers (1..) of function killFn
    Rows rows() const { Rows r; for(size_t i=0;i<x.size();i++){ auto q=x[i]; q.push_back(y[i]); r.push_back(q); } return r; }
    bool inBox(const vector<double>& p) const { for(int k=0;k<d;k++) if(p[k]<lo[k]||p[k]>hi[k]) return false; return true; }
    string text() const { std::ostringstream o; o<<std::setprecision(12)<<"d="<<d<<" N="<<N<<" inner="<<inner<<" train="<<train<<" threads="<<threads<<" howOften="<<howOften<<" lo="<<pbt::str(lo)<<" hi="<<pbt::str(hi)<<" inc="<<pbt::str(inc)<<" universal="<<universal<<" f: kind "<<f.kind<<" a="<<pbt::str(f.a)<<" b="<<pbt::str(f.b)<<" scale "<<f.scale<<" off "<<f.off<<" rnd "<<f.rnd<<" data="<<str(rows()); for(auto& k: con) o<<" con "<<k.name<<" kind "<<k.f.kind<<" a="<<pbt::str(k.f.a)<<" b="<<pbt::str(k.f.b)<<" scale "<<k.f.scale<<" off "<<k.f.off<<" rnd "<<k.f.rnd<<" "<<k.dir<<k.thr<<" mode "<<k.mode<<" udf "<<k.udf<<" universal "<<k.universal; if(!conOrder.empty()){ o<<" added in the order"; for(int j: conOrder) o<<" "<<j; } return o.str(); }
};
struct Call { int fn; double x[16]; double v; };            // fn 0: objective, 1..: constraint
struct Log { std::atomic<int> n; std::atomic<int> counts[16]; Call c[4096]; std::atomic<int> cand; double candx[200000][16]; };
extern Log* L; extern const Prob* P;
void quiet();
double (*fnPtr(int fn))(const double*);        // instrumented function: 0 objective, 1.. constraints

void resetLog();
inline vector<double> xs(const double* p,int d){ return vector<double>(p,p+d); }
struct GenOpt { bool discrete=false, constraints=true, udf=false, outside=false, missing=true, single=false, anyOrder=false, big=false; int maxN=5, maxInner=50; int dmax=4; double pCon=0.6; };
Prob generate(Ctx& c,const GenOpt& g);
void writeData(const Prob& p);
void makeObjective(Rodop::ObjectiveFunction& f,const Prob& p); void makeConstraint(Rodop::ConstraintFunction& g,const Prob& p,int j);
void build(Rodop::Optimizer& o,const Prob& p);
void describe(Ctx& c,const Prob& p);
struct Out { bool threw=false; string what; Rows hist; };
Out run(const Prob& p, Rodop::Optimizer* keep=nullptr, bool write=true);     // in this process
vector<Call> calls();
struct Eval { vector<double> x; double f; vector<double> g; };
vector<Eval> evaluations(Ctx& c,const Prob& p);             // groups the logged calls, checks that they come in complete iterations
Rows dataRows(const string& file);
struct Expected { Rows rows; int n0=0; bool anyInit=false; };
Expected expectHistory(Ctx& c,const Prob& p,const Rows& init,const vector<Rows>& conData,const vector<Eval>& ev);
void mustRun(Ctx& c,const Out& o);
extern Rodop::Optimizer* current; extern bool noRefine; extern int barrier; // optimizer being run; switch off the gradient ascent; threads that meet in every candidate
extern const char* failPath; extern long failLeft; extern int failures; // interpose.cpp
extern std::function<void(int)> atObjective; // called before the k-th evaluation of the objective
extern int killWrite; // kills the process at its n-th write to a file (0: never)
}
