// S01..S09: surrogate models against the reference implementation in gp.hpp.
#include "gp.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "SurrogateModels/INCLUDE/linear_regression.hpp"
#include "SurrogateModels/INCLUDE/surrogate_model_tester.hpp"
#include "SurrogateModels/INCLUDE/model_logger.hpp"
#include "CorrelationFunctions/INCLUDE/exponential_correlation_function.hpp"
#include "CorrelationFunctions/INCLUDE/gaussian_correlation_function.hpp"
#include <unistd.h>
#include <set>
using namespace pbt; using namespace Rodop; using std::vector; using std::string;
static void quiet(){ ModelLogger::getInstance().setLogLevel(CRITICAL); }
static string fn(Ctx& c,const char* n="data"){ static int k=0; return c.dir+"/"+n+std::to_string(k++)+".csv"; }
struct Unlink { vector<string> f; ~Unlink(){ for(auto& x: f) unlink(x.c_str()); } };
static void setup(KrigingModel& m,const DataSet& s,const string& file,bool lin=false,bool init=true){ quiet(); m.setName("model"); m.setDimension(s.d); m.setNameOfInputFile(file); if(lin) m.setLinearRegressionOn(); m.setBoxConstraints(Bounds(s.lo,s.hi)); m.readData(); m.normalizeData(); if(init) m.initializeSurrogateModel(); }
static void genHyper(Ctx& c,int d,vector<double>& th,vector<double>& ga){ th.resize(d); ga.resize(d); for(int k=0;k<d;k++){ th[k]=c.src.chance(0.1)?0.0:c.src.logreal(0.5,20); ga[k]=c.src.chance(0.15)?(c.src.chance(0.5)?2.0:1.0):c.src.real(1,2); } }
static vec hyperVec(const vector<double>& th,const vector<double>& ga){ auto h=th; h.insert(h.end(),ga.begin(),ga.end()); return V(h); }
static vector<double> testPoint(Ctx& c,const DataSet& s,int kind){ auto p=s.point(c); if(kind==1) p=s.x[c.src.below(s.x.size())]; if(kind==2) for(int k=0;k<s.d;k++){ double w=s.hi[k]-s.lo[k]; p[k]=c.src.real(s.lo[k]-w,s.hi[k]+w); } if(kind==3){ p=s.x[c.src.below(s.x.size())]; for(int k=0;k<s.d;k++) p[k]+=(s.hi[k]-s.lo[k])*c.src.real(-1,1)*1e-3; } return p; }
// designs at which a model is evaluated before it is changed, and again afterwards
static vector<vector<double>> revisit(Ctx& c,const DataSet& s,int n){ vector<vector<double>> r; for(int t=0;t<n;t++) r.push_back(normaliseX(testPoint(c,s,(int)c.src.below(4)),s.lo,s.hi)); return r; }
static void visit(const SurrogateModel& m,const vector<vector<double>>& pts){ double a,b; for(auto& x: pts){ m.interpolate(V(x)); m.interpolateWithVariance(V(x),&a,&b); } }
static void compare(Ctx& c,const GP& g,const SurrogateModel& m,const DataSet& s,int points,const char* what,std::function<ld(const vector<double>&)> trend=nullptr,const vector<vector<double>>& first={}){
    points+=(int)first.size(); for(int t=0;t<points;t++){ bool old=t<(int)first.size(); int kind=old?0:(int)c.src.below(4); auto x=old?first[first.size()-1-t]:normaliseX(testPoint(c,s,kind),s.lo,s.hi); ld f,v,tf,tv; g.predict(x,f,v,tf,tv); if(trend){ ld tr=trend(x); f+=tr; tf+=1e-9L*(fabsl(tr)+1e-3L); } double ft=m.interpolate(V(x)), f2=0,v2=0; m.interpolateWithVariance(V(x),&f2,&v2);
        c.near(ft,(double)f,0,(double)tf,string("estimate ")+what,"estimate at "+pbt::str(x)); c.near(f2,(double)f,0,(double)tf,string("estimate with variance ")+what,"estimate at "+pbt::str(x)); c.near(v2,(double)v,0,(double)tv,string("variance ")+what,"variance at "+pbt::str(x)); c.require(std::isfinite(v2)&&v2>=0,string("negative variance ")+what,fmt("%.17g",v2)); } }
static GP reference(const DataSet& s,const vector<double>& th,const vector<double>& ga,double eps=1e-12){ GP g; g.build(s.norm(),s.y,th,ga,eps); return g; }

// residuals of a trend that are mostly rounding errors
static bool tinyResiduals(const GP& g,const DataSet& s){ ld ymax=0; for(double y: s.y) ymax=std::max(ymax,fabsl((ld)y)); return !(g.s2>1e-12L*ymax*ymax); }

// ---------------------------------------------------------------- S01
static void s01(Ctx& c){
    DataSet s=genData(c,4,2,22,0.02,0.03); string f=fn(c); Unlink u{{f}}; s.write(f); c.desc()<<s.text(); KrigingModel m; setup(m,s,f);
    vector<double> th(s.d,1.0), ga(s.d,1.8); double eps=1e-12; bool avg=false;
    vector<vector<double>> pts; if(c.src.chance(0.3)){ c.label("evaluated before the change of parameters"); pts=revisit(c,s,2); if(c.src.chance(0.5)){ genHyper(c,s.d,th,ga); m.setHyperParameters(hyperVec(th,ga)); m.updateAuxilliaryFields(); th.assign(s.d,1.0); ga.assign(s.d,1.8); visit(m,pts); m.setHyperParameters(hyperVec(th,ga)); m.updateAuxilliaryFields(); } visit(m,pts); }
    if(c.src.chance(0.8)){ genHyper(c,s.d,th,ga); m.setHyperParameters(hyperVec(th,ga)); if(c.src.chance(0.3)){ eps=c.src.logreal(1e-12,1e-2); m.setEpsilon(eps); } if(c.src.chance(0.15)){ avg=true; m.ifUseAverageBeta0=true; c.label("average beta0"); } m.updateAuxilliaryFields(); } else c.label("default hyper-parameters");
    c.desc()<<" theta="<<pbt::str(th)<<" gamma="<<pbt::str(ga)<<" eps="<<eps; GP g; g.build(s.norm(),s.y,th,ga,eps,avg); if(!g.ok||g.cond>1e10) c.discard(); c.nontrivial(s.n>=3);
    mat Rm=m.getCorrelationMatrix(); for(int i=0;i<s.n;i++)for(int j=0;j<s.n;j++) c.near(Rm(i,j),(double)g.R[i][j],1e-11,1e-13,"correlation matrix");
    compare(c,g,m,s,12,"GP",nullptr,pts);
    mat X(4u,(unsigned)s.d); vector<vector<double>> q; for(int i=0;i<4;i++){ q.push_back(normaliseX(s.point(c),s.lo,s.hi)); for(int k=0;k<s.d;k++) X(i,k)=q[i][k]; } vec r=m.interpolateVector(X); for(int i=0;i<4;i++) c.eq(r(i),m.interpolate(V(q[i])),"interpolateVector");
}
static Reg r1({"S01","prediction",s01,100000,1500000,25,60,"Kriging models of random data (dimension 1..4, 2..22 samples, random boxes, scales), hyper-parameters, nugget; estimate and variance at 12 points (inside, outside, at and near samples) against a long double Gaussian process; cases with condition number > 1e10 are discarded; non-trivial: at least 3 samples",250});

// ---------------------------------------------------------------- S02
static void s02(Ctx& c){
    double md=c.src.pick(vector<double>{0.02,1e-3,1e-5}); DataSet s=genData(c,3,2,20,md,0.03); if(c.src.chance(0.3)&&s.n>2){ // a close pair
        int i=(int)c.src.below(s.n-1)+1; auto p=s.x[0]; double e=c.src.logreal(1e-6,1e-2); for(int k=0;k<s.d;k++) p[k]=std::min(s.hi[k],p[k]+e*(s.hi[k]-s.lo[k])); s.x[i]=p; s.y[i]=s.f(p); c.label("close pair"); }
    string f=fn(c); Unlink u{{f}}; s.write(f); c.desc()<<s.text(); KrigingModel m; setup(m,s,f); vector<double> th,ga; genHyper(c,s.d,th,ga); if(c.src.chance(0.3)){ for(auto&x:ga)x=2; for(auto&x:th)x=c.src.logreal(0.1,5); c.label("smooth"); } if(c.src.chance(0.15)){ for(auto&y:s.y)y=s.y[0]; s.write(f); m=KrigingModel(); setup(m,s,f); c.label("constant data"); }
    m.setHyperParameters(hyperVec(th,ga)); c.desc()<<" theta="<<pbt::str(th)<<" gamma="<<pbt::str(ga); GP g=reference(s,th,ga); if(!g.ok||g.cond>1e13) c.discard(); m.updateAuxilliaryFields(); c.nontrivial(s.n>=3); c.labelIf(g.cond>1e9,"ill-conditioned");
    auto X=s.norm(); double ymax=0; for(double y: s.y) ymax=std::max(ymax,fabs(y));
    for(int i=0;i<s.n;i++){ double ft,v; m.interpolateWithVariance(V(X[i]),&ft,&v); ld fr,vr,tf,tv; g.predict(X[i],fr,vr,tf,tv); c.near(ft,s.y[i],0,(double)(1.1e-12L*fabsl(g.w[i])+tf)+1e-12*ymax,"sample not interpolated",fmt("sample %d",i)); c.require(std::isfinite(v)&&v>=0,"negative variance",fmt("%.17g at sample %d",v,i)); c.require(v<=(double)(g.s2*4e-9L+tv),"variance at a sample",fmt("%.17g sigma^2=%.17g",v,(double)g.s2)); }
    for(int t=0;t<12;t++){ auto x=normaliseX(testPoint(c,s,(int)c.src.below(4)),s.lo,s.hi); double ft,v; m.interpolateWithVariance(V(x),&ft,&v); c.require(std::isfinite(ft),"estimate not finite"); c.require(std::isfinite(v)&&v>=0,"negative variance",fmt("%.17g at %s",v,pbt::str(x).c_str())); ld fr,vr,tf,tv; g.predict(x,fr,vr,tf,tv); c.near(v,(double)vr,1e-6,(double)tv,"variance"); c.near(ft,(double)fr,1e-9,(double)tf,"estimate"); }
    // far away
    bool zero=false; for(double t: th) if(t==0) zero=true; if(!zero){ vector<double> x(s.d,1e4); double ft,v; m.interpolateWithVariance(V(x),&ft,&v); ld fr,vr,tf,tv; g.predict(x,fr,vr,tf,tv); c.near(ft,(double)g.beta,0,(double)tf,"far estimate"); c.near(v,(double)(g.s2*(1+1/g.oneR1)),1e-6,(double)tv,"far variance"); c.label("far"); } }
static Reg r2({"S02","interpolation",s02,100000,1500000,25,60,"Kriging models including ill-conditioned ones (condition up to 1e13, close pairs, constant outputs, gamma = 2): data reproduced, variance finite, not negative, zero at samples and bounded, far-field limits; non-trivial: at least 3 samples",250});

// ---------------------------------------------------------------- S03
static void s03lik(Ctx& c){
    DataSet s=genData(c,4,3,20,0.02,0.03); string f=fn(c); Unlink u{{f}}; s.write(f); c.desc()<<s.text(); KrigingModel m; setup(m,s,f); bool used=false;
    for(int t=0;t<6;t++){ vector<double> th,ga; genHyper(c,s.d,th,ga); GP g=reference(s,th,ga); if(!g.ok||g.cond>1e9) continue; used=true; double got=m.calculateLikelihoodFunction(hyperVec(th,ga)); ld want=g.likelihood(); if(!(g.s2>1e-12L*s.scale*s.scale)) continue; double tol=1e-9+s.n*(double)(1e-15L*s.n*g.cond*g.wn*g.wn/ s.n/ g.s2 + 1e-15L*g.cond*s.n); c.near(got,(double)want,1e-9,tol,"likelihood","theta "+pbt::str(th)+" gamma "+pbt::str(ga)); compare(c,g,m,s,2,"after likelihood"); }
    c.nontrivial(used); if(!used) c.discard(); }
static Reg r3({"S03","likelihood",s03lik,60000,600000,25,60,"concentrated log likelihood of random data sets and hyper-parameters against the long double reference; non-trivial: at least one well-conditioned evaluation",150});
static void s03train(Ctx& c){
    DataSet s=genData(c,2,4,14); if(s.d==2&&!c.thorough&&s.n>10){ s.n=10; s.x.resize(10); s.y.resize(10); } string f=fn(c); Unlink u{{f}}; s.write(f); int threads=(int)c.src.range(1,4); int iters=(int)c.src.range(400,4000)*s.d; bool lin=c.src.chance(0.2); c.desc()<<s.text()<<" threads="<<threads<<" iterations="<<iters<<" linear="<<lin; c.labelIf(lin,"universal"); c.label(fmt("threads%d",threads));
    KrigingModel m; setup(m,s,f,lin); m.setNumberOfTrainingIterations(iters); m.setNumberOfThreads(threads); m.train(); c.require(m.ifModelTrainingIsDone,"training flag"); auto h=S(m.getHyperParameters()); c.eq(h.size(),(size_t)(2*s.d),"number of hyper-parameters"); vector<double> th(h.begin(),h.begin()+s.d), ga(h.begin()+s.d,h.end());
    for(int k=0;k<s.d;k++){ c.require(th[k]>=0&&th[k]<=20,"length parameter out of [0,20]",fmt("%.17g",th[k])); c.require(ga[k]>=1&&ga[k]<=2,"exponent out of [1,2]",fmt("%.17g",ga[k])); }
    DataSet r=s; vec w; if(lin){ w=m.getRegressionWeights(); auto X=s.norm(); for(int i=0;i<s.n;i++){ double t=w(0); for(int k=0;k<s.d;k++) t+=w(k+1)*X[i][k]; r.y[i]-=t; } }
    GP g=reference(r,th,ga); c.require(g.ok,"trained correlation matrix is not positive definite"); c.nontrivial(); if(g.cond<1e9&&!(lin&&tinyResiduals(g,s))) compare(c,g,m,s,6,"after training",lin?std::function<ld(const vector<double>&)>([&](const vector<double>& x){ ld t=w(0); for(int k=0;k<s.d;k++) t+=(ld)w(k+1)*x[k]; return t; }):nullptr);
    if(!(g.s2>1e-14L*s.scale*s.scale)){ c.label("degenerate data"); return; }
    ld best=g.likelihood(); int better=0,total=0; for(int t=0;t<60;t++){ vector<double> a(s.d),b(s.d); for(int k=0;k<s.d;k++){ a[k]=c.src.real(0,20); b[k]=c.src.real(1,2); } GP q=reference(r,a,b); if(!q.ok||q.cond>1e12) continue; total++; if(q.likelihood()>best+1e-6L+1e-9L*fabsl(best)) better++; }
    c.require(better<=6,"training is worse than random search",fmt("%d of %d random hyper-parameters have a higher likelihood than %.10g",better,total,(double)best)); }
static Reg r4({"S03","training",s03train,500,8000,4,120,"training on random data (1..2 parameters, 4..14 samples, 1..4 threads, 400..8000 iterations, ordinary and universal): admissible result, model uses it, likelihood not exceeded by more than 6 of 60 random hyper-parameters; always non-trivial",6});

// the parameters kept after a training with 8 threads are the best ones of 8 independent searches, so that they lie below the median of single searches with probability 1/256
static void t03train(Ctx& c){
    DataSet s=genData(c,2,5,12); string f=fn(c); Unlink u{{f}}; s.write(f); const int T=8, singles=60, reps=20; int it=(int)c.src.range(1,6); bool lin=c.src.chance(0.2); c.desc()<<s.text()<<" iterations per thread "<<it<<" linear "<<lin; c.saveDesc();
    auto one=[&](int threads){ KrigingModel m; setup(m,s,f,lin); m.setNumberOfTrainingIterations(it*threads); m.setNumberOfThreads(threads); m.train(); c.require(m.ifModelTrainingIsDone,"training flag"); vec hp=m.getHyperParameters(); auto h=S(hp); c.eq(h.size(),(size_t)(2*s.d),"number of hyper-parameters"); for(int k=0;k<s.d;k++){ c.require(h[k]>=0&&h[k]<=20,"length parameter out of [0,20]",fmt("%.17g",h[k])); c.require(h[s.d+k]>=1&&h[s.d+k]<=2,"exponent out of [1,2]",fmt("%.17g",h[s.d+k])); } return m.calculateLikelihoodFunction(hp); };
    vector<double> a; for(int i=0;i<singles;i++) a.push_back(one(1)); std::sort(a.begin(),a.end()); double med=a[singles/2], tol=1e-7*(1+fabs(med)); bool wide=a[singles/2]-a[singles/4]>10*tol&&std::isfinite(a[0]); c.labelIf(!wide,"all searches find the same parameters"); c.labelIf(lin,"universal"); if(!wide) return; c.nontrivial();
    int below=0; for(int i=0;i<reps;i++) if(!(one(T)>=med-tol)) below++; c.label(fmt("%d of 20 below the median",below)); c.require(below<=5,"training with several threads did not keep the best parameters that a thread found",fmt("%d of %d trainings with %d threads are below the median likelihood %.12g of trainings with one thread",below,reps,T,med)); }
static Reg r4b({"T03","training",t03train,40,600,1,120,"trainings of random data with a small number of iterations, so that a single search does not converge: likelihood of 20 trainings with 8 threads against the distribution of 60 trainings with one; non-trivial: results of single trainings differ",0,10});
// training with validation samples: the error that is minimised, against the reference, and its minimiser against random parameters
static void s03validation(Ctx& c){
    DataSet s=genData(c,2,5,16,0.02,0.02); double ratio=c.src.pick(vector<double>{0.2,0.3,0.5,0.6}); int k=(int)(ratio*s.n); bool none=c.src.chance(0.01); if(none){ ratio=c.src.real(0,0.99)/s.n; k=0; } else if(k<1||s.n-k<2) c.discard(); bool lin=c.src.chance(0.25); string f=fn(c); Unlink u{{f}}; s.write(f); int threads=(int)c.src.range(1,3), iters=(int)c.src.range(400,2000)*s.d; if(s.n>20) iters=400*s.d; bool train=c.src.chance(0.05); c.desc()<<s.text()<<" ratio="<<ratio<<" linear="<<lin<<" train="<<train<<" iterations="<<iters<<" threads="<<threads; c.labelIf(lin,"universal");
    quiet(); KrigingModel m; m.setName("model"); m.setDimension(s.d); m.setNameOfInputFile(f); if(lin) m.setLinearRegressionOn(); m.setBoxConstraints(Bounds(s.lo,s.hi)); m.setRatioValidationSamples(ratio); m.readData(); m.normalizeData(); auto d=m.getData(); mat A=d.getInputMatrix(), B=d.getInputMatrixValidation(); vec ya=d.getOutputVector(), yb=d.getOutputVectorValidation(); m.initializeSurrogateModel(); c.eq((int)B.getNRows(),k,"number of validation samples");
    auto admissible=[&](vector<double>& th,vector<double>& ga){ auto h=S(m.getHyperParameters()); c.eq(h.size(),(size_t)(2*s.d),"number of hyper-parameters"); th.assign(h.begin(),h.begin()+s.d); ga.assign(h.begin()+s.d,h.end()); for(int j=0;j<s.d;j++){ c.require(th[j]>=0&&th[j]<=20,"length parameter out of [0,20]",fmt("%.17g",th[j])); c.require(ga[j]>=1&&ga[j]<=2,"exponent out of [1,2]",fmt("%.17g",ga[j])); } c.eq((int)m.getNumberOfSamples(),s.n,"full data after training"); };
    auto used=[&](const vector<double>& th,const vector<double>& ga,const char* when){ auto N=s.norm(); vec v; if(lin) v=m.getRegressionWeights(); auto line=[&](const vector<double>& x){ ld t=0; if(lin){ t=v(0); for(int j=0;j<s.d;j++) t+=(ld)v(j+1)*x[j]; } return t; }; DataSet r=s; if(lin) for(int i=0;i<s.n;i++) r.y[i]-=(double)line(N[i]); GP g=reference(r,th,ga); if(g.ok&&g.cond<1e9&&!(lin&&tinyResiduals(g,s))) compare(c,g,m,s,4,when,lin?std::function<ld(const vector<double>&)>(line):nullptr); };
    if(none){ c.label("ratio too small for a validation sample"); c.nontrivial(); vector<double> th,ga; m.setNumberOfTrainingIterations(400*s.d); m.setNumberOfThreads(threads); m.train(); admissible(th,ga); used(th,ga,"after training without validation samples"); return; }
    Rows X=R(A), Q=R(B); vector<double> y=S(ya), q=S(yb); vec w; ld wmax=0; auto trend=[&](const vector<double>& x){ ld t=0; if(lin){ t=w(0); for(int j=0;j<s.d;j++) t+=(ld)w(j+1)*x[j]; } return t; }; if(lin){ w=m.getRegressionWeights(); for(size_t i=0;i<y.size();i++){ wmax=std::max(wmax,fabsl(trend(X[i]))); y[i]-=(double)trend(X[i]); } }
    auto error=[&](const vector<double>& th,const vector<double>& ga,ld& tol,bool& ok){ GP g; g.build(X,y,th,ga,1e-12); ok=g.ok&&g.cond<1e9; ld e=0; tol=0; if(!g.ok) return e; for(int i=0;i<k;i++){ ld ef,ev,tf,tv; g.predict(Q[i],ef,ev,tf,tv); e+=fabsl(ef+trend(Q[i])-(ld)q[i]); tol+=tf+1e-13L*wmax; } tol/=k; return e/k; };
    for(int t=0;t<6;t++){ vector<double> th,ga; genHyper(c,s.d,th,ga); ld tol; bool ok; ld want=error(th,ga,tol,ok); if(!ok) continue; c.nontrivial(); double got=m.calculateValidationErrorForGivenHyperparameters(hyperVec(th,ga)); c.near(got,(double)want,1e-9,(double)tol,"validation error","theta "+pbt::str(th)+" gamma "+pbt::str(ga)); }
    if(!train) return; c.label("trained"); m.setNumberOfTrainingIterations(iters); m.setNumberOfThreads(threads); m.train(); vector<double> th,ga; admissible(th,ga);
    ld tol; bool ok; ld best=error(th,ga,tol,ok); if(!ok) return; int better=0,total=0; for(int t=0;t<60;t++){ vector<double> a(s.d),b(s.d); for(int j=0;j<s.d;j++){ a[j]=c.src.real(0,20); b[j]=c.src.real(1,2); } ld tq; bool okq; ld e=error(a,b,tq,okq); if(!okq) continue; total++; if(e+tq+tol<best*(1-1e-6L)) better++; }
    c.require(better<=6,"validation training is worse than random search",fmt("%d of %d random hyper-parameters have a smaller validation error than %.10g",better,total,(double)best));
    // the model that is used afterwards: trend as it was, residuals of all data
    used(th,ga,"after validation training"); if(c.src.chance(0.3)){ c.label("trained twice"); m.setNumberOfTrainingIterations(400*s.d); m.train(); admissible(th,ga); used(th,ga,"after a second training"); } }
static Reg r4d({"S03","validation",s03validation,20000,250000,10,120,"validation error of random hyper-parameters (ordinary and universal) against the reference; 5% with a training: admissible, not worse than more than 6 of 60 random parameters, full data used afterwards, also after a second training; 1% with a ratio too small for a validation sample; non-trivial: at least one well-conditioned evaluation",60});

// ---------------------------------------------------------------- S04
static void s04(Ctx& c){
    DataSet s=genData(c,3,2,10,0.02,0.03); string f=fn(c), f2=fn(c,"fresh"); Unlink u{{f,f2}}; { string t; for(auto&r:s.rows()){ for(size_t j=0;j<r.size();j++) t+=(j?",":"")+fmt("%.12f",r[j]); t+="\n"; } writeFile(f,t); } s.x.clear(); s.y.clear(); for(auto&r:readCsv(f,false)){ s.y.push_back(r.back()); r.pop_back(); s.x.push_back(r); }
    bool lin=c.src.chance(0.25); KrigingModel m; setup(m,s,f,lin); vector<double> th,ga; genHyper(c,s.d,th,ga); m.setHyperParameters(hyperVec(th,ga)); m.updateAuxilliaryFields(); auto pts=revisit(c,s,3); visit(m,pts); c.desc()<<s.text()<<" theta="<<pbt::str(th)<<" gamma="<<pbt::str(ga)<<" linear="<<lin; int adds=(int)c.src.range(1,8), accepted=0;
    Rows rows=s.rows(); for(int a=0;a<adds;a++){ vector<double> p; int kind=(int)c.src.below(4); if(kind<2){ p=s.point(c); p.push_back(s.f(p)); } else { p=rows[c.src.below(rows.size())]; double e=c.src.pick(vector<double>{0.0,5e-5,3e-4,-9e-5}); p[c.src.below(p.size())]+=e; } bool dup=false,border=false; for(auto&r:rows){ bool in=true; for(size_t j=0;j<r.size();j++){ double dd=fabs(r[j]-p[j]); if(dd>1e-4) in=false; if(fabs(dd-1e-4)<1e-9) border=true; } if(in) dup=true; } if(border) continue; c.desc()<<" add "<<pbt::str(p)<<(dup?" (duplicate)":"");
        m.addNewSampleToData(V(p)); if(a+1<adds&&c.src.chance(0.5)) visit(m,pts); if(!dup){ for(auto&v:p) v=strtod(fmt("%.12f",v).c_str(),nullptr); rows.push_back(p); accepted++; } else c.label("duplicate");
        Rows disk=readCsv(f,false); c.require(disk==rows,"training file",fmt("%zu rows expected %zu",disk.size(),rows.size())); c.eq((size_t)m.getNumberOfSamples(),rows.size(),"number of samples"); c.require(R(m.getRawData())==rows,"raw data"); }
    c.nontrivial(accepted>0); DataSet t=s; t.x.clear(); t.y.clear(); for(auto r: rows){ t.y.push_back(r.back()); r.pop_back(); t.x.push_back(r); } t.n=(int)rows.size(); GP g=reference(t,th,ga); if(!g.ok||g.cond>1e12) c.discard();
    writeFile(f2,readFile(f)); KrigingModel n; setup(n,t,f2,lin); n.setHyperParameters(hyperVec(th,ga)); n.updateAuxilliaryFields(); c.require(S(m.getHyperParameters())==S(n.getHyperParameters()),"hyper-parameters changed");
    double scale=1e-300; for(double y: t.y) scale=std::max(scale,fabs(y)); for(int q=0;q<11;q++){ auto x=q<3?pts[2-q]:normaliseX(testPoint(c,t,(int)c.src.below(4)),s.lo,s.hi); double a,b,va,vb; m.interpolateWithVariance(V(x),&a,&va); n.interpolateWithVariance(V(x),&b,&vb); c.near(a,b,1e-9,1e-9*scale,"estimate differs from a rebuilt model"); c.near(va,vb,1e-7,1e-9*(double)g.s2,"variance differs from a rebuilt model"); }
    c.require(c.throws([&]{m.addNewSampleToData(V(vector<double>(s.d,0.0)));}),"sample of wrong size accepted"); }
static Reg r5({"S04","incremental",s04,50000,600000,10,60,"1..8 samples (new, duplicates, offsets around the 1e-4 tolerance) added to a model, compared with a model rebuilt from the file and with a row model of the file; non-trivial: at least one accepted sample",120});

// ---------------------------------------------------------------- S05
static void s05(Ctx& c){
    DataSet s=genData(c,3,3,14,0.02,0.03); string f=fn(c), hf=fn(c,"hyper"); Unlink u{{f,hf}}; s.write(f); vector<double> th,ga; genHyper(c,s.d,th,ga); for(auto&t:th) t*=c.src.pick(vector<double>{1.0,1e-7,0.123456789}); bool lin=c.src.chance(0.2); c.desc()<<s.text()<<" theta="<<pbt::str(th)<<" gamma="<<pbt::str(ga)<<" linear="<<lin; KrigingModel m; setup(m,s,f,lin); m.setHyperParameters(hyperVec(th,ga)); m.updateAuxilliaryFields(); m.setNameOfHyperParametersFile(hf); m.saveHyperParameters(); GP g=reference(s,th,ga); if(!g.ok||g.cond>1e12) c.discard(); c.nontrivial();
    KrigingModel n; double ratio=c.src.chance(0.15)?c.src.real(0,0.5):0; int k=(int)(ratio*s.n); if(s.n-k<2) ratio=0; if(ratio==0) setup(n,s,f,lin); else { n.setName("model"); n.setDimension(s.d); n.setNameOfInputFile(f); if(lin) n.setLinearRegressionOn(); n.setBoxConstraints(Bounds(s.lo,s.hi)); n.setRatioValidationSamples(ratio); n.readData(); n.normalizeData(); n.initializeSurrogateModel(); c.label("validation samples"); } n.setNameOfHyperParametersFile(hf); if(ratio==0&&c.src.chance(0.5)){ n.loadHyperParameters(); n.updateAuxilliaryFields(); } else { n.setReadWarmStartFileFlag(true); n.train(); c.label("warm start"); }
    c.require(S(n.getHyperParameters())==S(m.getHyperParameters()),"hyper-parameters not restored",n.getHyperParameters().toString()); for(int q=0;q<8;q++){ auto x=normaliseX(testPoint(c,s,(int)c.src.below(4)),s.lo,s.hi); double a,b,va,vb; m.interpolateWithVariance(V(x),&a,&va); n.interpolateWithVariance(V(x),&b,&vb); c.eq(b,a,"estimate after restore"); c.eq(vb,va,"variance after restore"); }
    // a file for another dimension must not be used half
    if(c.src.chance(0.3)){ auto h=S(hyperVec(th,ga)); h.push_back(1.5); V(h).saveToCSV(hf); KrigingModel q; setup(q,s,f,lin); q.setNameOfHyperParametersFile(hf); auto before=S(q.getHyperParameters()); try{ q.loadHyperParameters(); }catch(...){} c.require(S(q.getHyperParameters())==before,"unusable hyper-parameter file changed the model"); KrigingModel e; setup(e,s,f,lin); e.setNameOfHyperParametersFile(hf+"none"); c.require(c.throws([&]{e.loadHyperParameters();}),"missing hyper-parameter file accepted"); }
    // linear model
    if(lin){ LinearModel l; l.setDimension(s.d); l.setBoxConstraints(Bounds(s.lo,s.hi)); l.setNameOfInputFile(f); l.readData(); l.normalizeData(); l.initializeSurrogateModel(); l.setNameOfHyperParametersFile(hf); l.saveHyperParameters(); LinearModel k; k.setDimension(s.d); k.setNameOfHyperParametersFile(hf); k.loadHyperParameters(); c.require(S(k.getWeights())==S(l.getWeights()),"regression weights not restored"); } }
static Reg r6({"S05","save_load",s05,40000,500000,20,60,"hyper-parameters saved by one model and loaded or warm-started by another: equal parameters, estimates, variances; always non-trivial",120});
static void s05train(Ctx& c){
    DataSet s=genData(c,1,4,9); string f=fn(c), hf=fn(c,"hyper"); Unlink u{{f,hf}}; s.write(f); c.desc()<<s.text(); KrigingModel m; setup(m,s,f); m.setNameOfHyperParametersFile(hf); m.setNumberOfTrainingIterations((int)c.src.range(400,1200)); m.setWriteWarmStartFileFlag(true); m.setNumberOfThreads((int)c.src.range(1,3)); m.train(); c.require(fileExists(hf),"warm start file not written"); auto h=S(m.getHyperParameters()); KrigingModel n; setup(n,s,f); n.setNameOfHyperParametersFile(hf); n.setReadWarmStartFileFlag(true); n.setNumberOfTrainingIterations(300); n.train(); auto h2=S(n.getHyperParameters()); c.nontrivial(); GP a=reference(s,{h[0]},{h[1]}), b=reference(s,{h2[0]},{h2[1]}); c.require(a.ok&&b.ok,"correlation matrix"); if(a.cond<1e10&&a.s2>1e-14L*s.scale*s.scale) c.require(b.likelihood()>=a.likelihood()-1e-6L*fabsl(a.likelihood())-1e-6L,"warm start ended worse than the stored state",fmt("%.12g < %.12g",(double)b.likelihood(),(double)a.likelihood())); if(b.cond<1e9) compare(c,b,n,s,4,"after warm start"); }
static Reg r7({"S05","warm_start",s05train,200,3000,4,60,"training writes the warm start file, a second model continues from it and is not worse; always non-trivial",4});

// ---------------------------------------------------------------- S06
static vector<ld> ridge(const DataSet& s,double lambda,ld& cond){ int p=s.d+1; auto X=s.norm(); LM A(p,vector<ld>(p,0)); vector<ld> b(p,0); for(int i=0;i<s.n;i++){ vector<ld> q(p,1); for(int k=0;k<s.d;k++) q[k+1]=X[i][k]; for(int a=0;a<p;a++){ b[a]+=q[a]*s.y[i]; for(int e=0;e<p;e++) A[a][e]+=q[a]*q[e]; } } for(int a=0;a<p;a++) A[a][a]+=lambda; Chol C(A); ld m=0; for(auto&r:A){ ld t=0; for(ld v:r) t+=fabsl(v); m=std::max(m,t); } cond=C.ok?m*C.invNorm():1e30L; return C.ok?C.solve(b):vector<ld>(p,0); }
static void s06(Ctx& c){
    DataSet s=genData(c,5,1,25,0.02,0.03); bool affine=c.src.chance(0.5); if(affine){ s.fun=0; for(int i=0;i<s.n;i++) s.y[i]=s.f(s.x[i]); } string f=fn(c); Unlink u{{f}}; s.write(f); c.desc()<<s.text(); quiet(); LinearModel m; m.setName("lin"); m.setDimension(s.d); m.setBoxConstraints(Bounds(s.lo,s.hi)); m.setNameOfInputFile(f); m.readData(); m.normalizeData(); m.initializeSurrogateModel(); double lam=1e-8; if(c.src.chance(0.3)){ lam=c.src.logreal(1e-8,10); m.setRegularizationParameter(lam); m.train(); c.label("other regularisation"); }
    ld cond; auto w=ridge(s,lam,cond); if(cond>1e11L) c.discard(); c.nontrivial(s.n>s.d+1); auto g=S(m.getWeights()); c.eq(g.size(),(size_t)(s.d+1),"number of weights"); ld wn=0,ym=0; for(ld v:w) wn+=fabsl(v); for(double y:s.y) ym=std::max(ym,fabsl((ld)y)); double tol=(double)(1e-15L*s.n*cond*(wn+ym)*4)+1e-12*(double)ym; for(int k=0;k<=s.d;k++) c.near(g[k],(double)w[k],0,tol,"regression weight",fmt("weight %d",k));
    double e2=0; auto X=s.norm(); for(int i=0;i<s.n;i++){ double t=g[0]; for(int k=0;k<s.d;k++) t+=g[k+1]*X[i][k]; c.near(m.interpolate(V(X[i])),t,1e-12,1e-12*((double)wn+fabs(t)),"linear estimate"); e2+=(t-s.y[i])*(t-s.y[i]); } c.near(m.calculateInSampleError(),e2/s.n,1e-6,1e-18*(double)(ym*ym),"in-sample error of the linear model");
    if(affine&&lam==1e-8&&s.n>s.d+1&&cond<1e7L){ c.label("affine data"); for(int t=0;t<4;t++){ auto p=s.point(c); c.near(m.interpolate(V(normaliseX(p,s.lo,s.hi))),s.f(p),0,(double)(1e-8L*cond*(wn+ym)),"affine function not reproduced"); } } }
static Reg r8({"S06","ridge",s06,100000,1500000,50,30,"linear models of random data (dimension 1..5, 1..25 samples, regularisation 1e-8..10) against independently solved normal equations, affine data reproduced; non-trivial: more samples than weights",300});
static void s06uk(Ctx& c){
    DataSet s=genData(c,3,3,18,0.02,0.03); string f=fn(c); Unlink u{{f}}; s.write(f); c.desc()<<s.text(); KrigingModel m; setup(m,s,f,true); vector<double> th(s.d,1.0),ga(s.d,1.8); if(c.src.chance(0.7)){ genHyper(c,s.d,th,ga); m.setHyperParameters(hyperVec(th,ga)); m.updateAuxilliaryFields(); } ld cond; auto w=ridge(s,1e-8,cond); if(cond>1e9L) c.discard(); auto g=S(m.getRegressionWeights()); ld wn=0; for(ld v:w) wn+=fabsl(v); for(int k=0;k<=s.d;k++) c.near(g[k],(double)w[k],0,(double)(1e-14L*s.n*cond*(wn+1e-3L)),"trend weight"); DataSet r=s; auto X=s.norm(); for(int i=0;i<s.n;i++){ ld t=g[0]; for(int k=0;k<s.d;k++) t+=(ld)g[k+1]*X[i][k]; r.y[i]=(double)(s.y[i]-t); } GP q=reference(r,th,ga); if(!q.ok||q.cond>1e9) c.discard(); c.nontrivial(s.n>s.d+1); c.desc()<<" theta="<<pbt::str(th)<<" gamma="<<pbt::str(ga);
    double ymax=0; for(double y:s.y) ymax=std::max(ymax,fabs(y)); for(int t=0;t<10;t++){ auto x=normaliseX(testPoint(c,s,(int)c.src.below(4)),s.lo,s.hi); ld fr,v,tf,tv; q.predict(x,fr,v,tf,tv); ld tr=g[0]; for(int k=0;k<s.d;k++) tr+=(ld)g[k+1]*x[k]; ld extra=1e-14L*q.cond*ymax*s.n; double a,b; m.interpolateWithVariance(V(x),&a,&b); c.near(a,(double)(fr+tr),1e-10,(double)(tf+extra),"universal Kriging estimate"); c.near(m.interpolate(V(x)),(double)(fr+tr),1e-10,(double)(tf+extra),"universal Kriging estimate"); if(q.s2>1e-18L*ymax*ymax) c.near(b,(double)v,1e-7,(double)tv+1e-12*ymax*ymax*1e-3*0+(double)(q.s2*1e-6L)+ (double)(1e-13L*q.cond*ymax*sqrtl(q.s2)),"universal Kriging variance"); }
    for(int i=0;i<s.n;i++) c.near(m.interpolate(V(X[i])),s.y[i],1e-9,(double)(1e-12L*q.wn)+1e-14*(double)q.cond*ymax*s.n+1e-10*ymax,"universal Kriging does not interpolate"); }
static Reg r9({"S06","universal",s06uk,60000,800000,25,60,"universal Kriging against ridge trend plus Gaussian process of the residuals; non-trivial: more samples than weights",150});

// ---------------------------------------------------------------- S07
static void s07(Ctx& c){
    DataSet s=genData(c,3,3,12,0.02,0.03); DataSet t=s; t.x.clear(); t.y.clear(); t.n=(int)c.src.range(1,10); bool values=c.src.chance(0.8); for(int i=0;i<t.n;i++){ auto p=testPoint(c,s,c.src.chance(0.5)?0:(int)c.src.below(4)); if(c.src.chance(0.08)) for(int k=0;k<s.d;k++) p[k]+=(s.hi[k]-s.lo[k])*c.src.real(-20,20); t.x.push_back(p); t.y.push_back(s.f(p)+c.src.real(-1,1)*s.scale); }
    string f=fn(c), tf=fn(c,"test"), of=fn(c,"result"); Unlink u{{f,tf,of}}; s.write(f); if(values) t.write(tf); else { string q; for(auto&r:t.x){ for(size_t j=0;j<r.size();j++) q+=(j?",":"")+fmt("%.17g",r[j]); q+="\n"; } writeFile(tf,q); } c.desc()<<s.text()<<" test "<<str(t.rows())<<" values="<<values; c.labelIf(!values,"no values");
    bool var=c.src.chance(0.4), lin=c.src.chance(0.3), pureLin=c.src.chance(0.2); quiet(); KrigingModel km; LinearModel lm; SurrogateModel* m=&km; if(pureLin){ m=&lm; var=false; lm.setName("model"); lm.setDimension(s.d); lm.setBoxConstraints(Bounds(s.lo,s.hi)); lm.setNameOfInputFile(f); lm.readData(); lm.normalizeData(); lm.initializeSurrogateModel(); } else { bool val=c.src.chance(0.15); if(val){ km.setRatioValidationSamples(c.src.real(0,0.4)); c.label("validation samples"); } setup(km,s,f,lin); }
    unsigned nTrain=m->getData().getNumberOfSamples(); ((SurrogateModel*)m)->setNameOfInputFileTest(tf); m->setNameOfOutputFileTest(of); 
    // the dimension of the linear model's data is taken from its file
    m->readDataTest(); m->normalizeDataTest(); m->tryOnTestData(var?"with_variances":"function_values"); c.nontrivial(t.n>1);
    mat res=m->testResults; unsigned cols=s.d+1+(values?2:0)+(var?1:0); c.require(res.getNRows()==(unsigned)t.n&&res.getNCols()==cols,"shape of the test results"); double sum=0; vector<double> ests,errs; for(int i=0;i<t.n;i++){ for(int k=0;k<s.d;k++) c.eq(res(i,k),t.x[i][k],"test parameters"); vec xn=V(normaliseX(t.x[i],s.lo,s.hi)); double est=m->interpolate(xn); c.near(res(i,s.d),est,1e-9,1e-9*s.scale*(1+fabs(s.off/s.scale)),"test estimate"); double e=res(i,s.d); if(values){ c.eq(res(i,s.d+1),t.y[i],"true value"); c.near(res(i,s.d+2),(e-t.y[i])*(e-t.y[i]),1e-12,0,"squared error"); sum+=(e-t.y[i])*(e-t.y[i]); } if(var){ double a,b; m->interpolateWithVariance(xn,&a,&b); c.near(res(i,cols-1),b,1e-6,1e-9*fabs(b)+1e-10*s.scale*s.scale,"test variance"); } }
    if(values){ c.near(m->generalizationError,sum/t.n,1e-12,0,"generalisation error"); c.near(m->calculateOutSampleError(),sum/t.n,1e-12,0,"out-of-sample error"); if(var) m->tryOnTestData("with_variances"); }
    double in=0; auto X=s.norm(); mat tx=m->getData().getInputMatrix(); for(unsigned q=0;q<tx.getNRows();q++){ int i=-1; auto row=S(tx.getRow(q)); if(nTrain==(unsigned)s.n) i=(int)q; else { double bestd=1e300, second=1e300; for(int z=0;z<s.n;z++){ double dd=0; for(int k=0;k<s.d;k++) dd+=fabs(row[k]-X[z][k]); if(dd<bestd){ second=bestd; bestd=dd; i=z; } else second=std::min(second,dd); } if(second<1e-9) c.discard(); } double e=m->interpolate(V(X[i]))-s.y[i]; in+=e*e; } c.near(m->calculateInSampleError(),in/nTrain,1e-3,1e-15*s.scale*s.scale*(1+s.off*s.off/s.scale/s.scale),"in-sample error");
    int saves=(int)c.src.range(1,2); for(int q=0;q<saves;q++){ var?m->saveTestResultsWithVariance():m->saveTestResults(); } c.labelIf(saves==2,"saved twice"); vector<string> hdr; bool ok; Rows file=readCsv(of,true,&hdr,&ok); vector<string> want; for(int k=0;k<s.d;k++) want.push_back(fmt("x%d",k+1)); want.push_back("Estimated value"); if(values){ want.push_back("True value"); want.push_back("Squared Error"); } if(var) want.push_back("Variance"); c.require(ok&&hdr==want,"header of the test results"); c.eq(file.size(),(size_t)t.n,"rows of the test results"); for(int i=0;i<t.n;i++){ c.eq(file[i].size(),(size_t)cols,"columns of the test results"); for(unsigned j=0;j<cols;j++) c.near(file[i][j],res(i,j),1e-15,5.1e-7,"value in the test result file"); }
    c.require(c.throws([&]{m->tryOnTestData("nonsense");}),"invalid mode accepted");
    // a second test file without function values
    if(values&&c.src.chance(0.3)){ string q; for(auto&r:t.x){ for(size_t j=0;j<r.size();j++) q+=(j?",":"")+fmt("%.17g",r[j]); q+="\n"; } writeFile(tf,q); m->readDataTest(); m->normalizeDataTest(); m->tryOnTestData(); c.eq(m->testResults.getNCols(),(unsigned)s.d+1,"columns without function values"); c.require(c.throws([&]{m->calculateOutSampleError();}),"out-of-sample error without values accepted"); c.label("second file"); } }
static Reg r10({"S07","model_test",s07,30000,400000,20,60,"test files with and without function values evaluated by ordinary, universal and linear models; results, errors, files and headers recomputed; non-trivial: more than one test sample",120});
static void s07val(Ctx& c){
    DataSet s=genData(c,2,4,16,0.02,0.05); string f=fn(c); Unlink u{{f}}; s.write(f); double ratio=c.src.pick(vector<double>{0.1,0.25,0.3,0.5,0.7}); int k=(int)(ratio*s.n); if(k>=s.n) c.discard(); bool lin=c.src.chance(0.2); c.desc()<<s.text()<<" ratio="<<ratio<<" linear="<<lin; quiet(); KrigingModel m; m.setName("model"); m.setDimension(s.d); m.setNameOfInputFile(f); if(lin) m.setLinearRegressionOn(); m.setBoxConstraints(Bounds(s.lo,s.hi)); m.setRatioValidationSamples(ratio); m.readData(); int rereads=(int)c.src.below(3); for(int q=0;q<rereads;q++) m.readData(); c.labelIf(rereads>0,"read again"); m.normalizeData(); auto d=m.getData(); c.nontrivial(k>0);
    c.eq((int)d.getNumberOfSamplesValidation(),k,"number of validation samples"); c.eq((int)d.getNumberOfSamples(),s.n-k,"number of training samples"); auto X=s.norm(); Rows all; mat A=d.getInputMatrix(); vec ya=d.getOutputVector(); for(unsigned i=0;i<A.getNRows();i++){ auto r=S(A.getRow(i)); r.push_back(ya(i)); all.push_back(r); } Rows val; if(k>0){ mat B=d.getInputMatrixValidation(); vec yb=d.getOutputVectorValidation(); c.require(B.getNRows()==(unsigned)k&&yb.getSize()==(unsigned)k,"validation set size"); for(int i=0;i<k;i++){ auto r=S(B.getRow(i)); r.push_back(yb(i)); all.push_back(r); val.push_back(r); } } c.eq(all.size(),(size_t)s.n,"samples in total"); vector<bool> used(s.n,false); for(auto&r:all){ int hit=-1; for(int i=0;i<s.n;i++){ if(used[i]||r.back()!=s.y[i]) continue; bool e=true; for(int q=0;q<s.d;q++) if(fabs(r[q]-X[i][q])>1e-9) e=false; if(e){ hit=i; break; } } c.require(hit>=0,"a sample is used twice or changed by the validation split"); used[hit]=true; }
    m.initializeSurrogateModel(); if(k>0){ double e=0; for(auto r: val){ double y=r.back(); r.pop_back(); e+=fabs(m.interpolate(V(r))-y); } c.near(m.calculateValidationError(),e/k,1e-9,1e-10*s.scale,"validation error"); }
    { double e=0,big=0; for(size_t i=0;i<A.getNRows();i++){ double y=ya(i); big=std::max(big,fabs(y)); double q=m.interpolate(A.getRow(i))-y; e+=q*q; } if(A.getNRows()>0) c.near(m.calculateInSampleError(),e/A.getNRows(),1e-3,1e-20*(big*big+s.scale*s.scale),"in-sample error with validation samples"); }
    if(k>0&&c.src.chance(0.15)){ c.label("trained"); m.setNumberOfTrainingIterations(400); m.train(); c.eq((int)m.getNumberOfSamples(),s.n,"full data after training"); auto h=S(m.getHyperParameters()); vector<double> th(h.begin(),h.begin()+s.d),ga(h.begin()+s.d,h.end()); if(!lin){ GP g=reference(s,th,ga); if(g.ok&&g.cond<1e9) compare(c,g,m,s,4,"after validation training"); } } }
static Reg r11({"S07","validation_split",s07val,20000,250000,10,60,"validation ratios 0.1..0.7, data read up to three times: training and validation samples together are exactly the data, error is the mean over the validation samples, the full data are used after training; non-trivial: at least one validation sample",80});
static void s07tester(Ctx& c){
    DataSet s=genData(c,2,4,10); DataSet t=s; t.x.clear(); t.y.clear(); t.n=(int)c.src.range(1,8); for(int i=0;i<t.n;i++){ auto p=s.point(c); t.x.push_back(p); t.y.push_back(s.f(p)); } s.write("train.csv"); t.write("test.csv"); int type=(int)c.src.below(3); bool var=type&&c.src.chance(0.5); bool ratio=type&&c.src.chance(0.3); c.desc()<<s.text()<<" test "<<str(t.rows())<<" type="<<type<<" variance="<<var; quiet(); c.nontrivial(); c.label(fmt("type%d",type));
    SurrogateModelTester q; q.setName("study"); q.setDimension(s.d); c.require(c.throws([&]{q.bindSurrogateModels();}),"no model type accepted"); c.require(c.throws([&]{SurrogateModelTester z; z.setBoxConstraints(Bounds());}),"no box accepted"); q.setSurrogateModel(type==0?LINEAR_REGRESSION:type==1?ORDINARY_KRIGING:UNIVERSAL_KRIGING); q.bindSurrogateModels(); q.setBoxConstraints(Bounds(s.lo,s.hi)); q.setFileNameTrainingData("train.csv"); q.setFileNameTestData("test.csv"); q.setNumberOfTrainingIterations(600); q.ifVariancesShouldBeComputedInTest=var; if(ratio){ q.setRatioValidationSamples(0.3); c.label("validation"); } c.require(c.throws([&]{q.setFileNameTestData("test.txt");})&&c.throws([&]{q.setFileNameTestData("");}),"invalid file name accepted"); c.require(c.throws([&]{q.setRatioValidationSamples(-0.5);})&&c.throws([&]{q.setRatioValidationSamples(1.5);}),"invalid ratio accepted");
    { int fd=dup(1); fflush(stdout); std::cout.flush(); FILE* n=fopen("/dev/null","w"); dup2(fileno(n),1); q.performSurrogateModelTest(); std::cout.flush(); fflush(stdout); dup2(fd,1); close(fd); fclose(n); }
    vector<string> hdr; bool ok; Rows file=readCsv("surrogateTestResults.csv",true,&hdr,&ok); c.require(ok&&file.size()==(size_t)t.n,"test result file"); c.eq(hdr.size(),(size_t)(s.d+3+(var?1:0)),"header"); ld cond; auto w=ridge(s,1e-8,cond); for(int i=0;i<t.n;i++){ c.eq(file[i].size(),hdr.size(),"columns"); for(int k=0;k<s.d;k++) c.near(file[i][k],t.x[i][k],1e-15,5.1e-7,"parameter in the test result"); c.near(file[i][s.d+1],t.y[i],1e-15,5.1e-7,"true value in the test result"); double e=file[i][s.d]-file[i][s.d+1]; c.near(file[i][s.d+2],e*e,1e-9,1.1e-6*(1+2*fabs(e)),"squared error in the test result"); if(var) c.require(file[i].back()>=0,"negative variance in the test result"); if(type==0&&cond<1e9L){ auto x=normaliseX(t.x[i],s.lo,s.hi); ld f=w[0]; for(int k=0;k<s.d;k++) f+=w[k+1]*x[k]; c.near(file[i][s.d],(double)f,1e-6,1e-6*s.scale*(1+fabs(s.off/s.scale))+6e-7,"estimate of the linear model"); } } }
static Reg r12({"S07","tester",s07tester,400,6000,1,60,"whole surrogate tests with linear, ordinary and universal models, optional validation samples and variances; result file checked; always non-trivial",6});

// ---------------------------------------------------------------- S08
static void s08(Ctx& c){
    DataSet s=genData(c,4,3,14,0.02,0.03); vector<double> th,ga; genHyper(c,s.d,th,ga); GP g=reference(s,th,ga); if(!g.ok||g.cond>1e8) c.discard(); bool lin=c.src.chance(0.3); string f=fn(c), f2=fn(c); Unlink u{{f,f2}}; s.write(f); KrigingModel m; setup(m,s,f,lin); m.setHyperParameters(hyperVec(th,ga)); m.updateAuxilliaryFields();
    DataSet t=s; vector<double> th2=th,ga2=ga; double oa=1,ob=0; auto sp=vector<int>(s.n); for(int i=0;i<s.n;i++)sp[i]=i; auto pp=vector<int>(s.d); for(int k=0;k<s.d;k++)pp[k]=k; vector<double> pa(s.d,1),pb(s.d,0); int kinds=0;
    if(c.src.chance(0.5)){ for(int k=0;k<s.d;k++){ pa[k]=c.src.logreal(1e-2,1e2); pb[k]=c.src.real(-50,50); } kinds++; c.label("parameter units"); } if(c.src.chance(0.5)){ oa=(c.src.chance(0.5)?-1:1)*c.src.logreal(1e-2,1e2); ob=c.src.real(-5,5)*fabs(oa)*s.scale; kinds++; c.label("output units"); } if(c.src.chance(0.5)){ sp=c.src.permutation(s.n); kinds++; c.label("sample order"); } if(c.src.chance(0.5)){ pp=c.src.permutation(s.d); kinds++; c.label("parameter order"); } c.nontrivial(kinds>0);
    auto map=[&](const vector<double>& x){ vector<double> r(s.d); for(int k=0;k<s.d;k++) r[k]=pa[pp[k]]*x[pp[k]]+pb[pp[k]]; return r; }; for(int i=0;i<s.n;i++){ t.x[i]=map(s.x[sp[i]]); t.y[i]=oa*s.y[sp[i]]+ob; } t.lo=map(s.lo); t.hi=map(s.hi); for(int k=0;k<s.d;k++){ th2[k]=th[pp[k]]; ga2[k]=ga[pp[k]]; } t.write(f2); c.desc()<<s.text()<<" transformed "<<t.text(); KrigingModel n; setup(n,t,f2,lin); n.setHyperParameters(hyperVec(th2,ga2)); n.updateAuxilliaryFields();
    ld rc; ridge(s,1e-8,rc); if(lin&&rc>1e5L) c.discard(); double ym=0; for(double y:t.y) ym=std::max(ym,fabs(y)); ym+=fabs(ob); for(int q=0;q<8;q++){ auto x=testPoint(c,s,(int)c.src.below(4)); double a,b,va,vb; m.interpolateWithVariance(V(normaliseX(x,s.lo,s.hi)),&a,&va); n.interpolateWithVariance(V(normaliseX(map(x),t.lo,t.hi)),&b,&vb); ld fr,v,tf,tv; g.predict(normaliseX(x,s.lo,s.hi),fr,v,tf,tv); double tol=(double)(fabs(oa)*tf*4)+1e-9*ym+ (double)(1e-13L*g.cond)*ym+(lin?(2e-6+(double)(1e-7L*rc))*ym:0); c.near(b,oa*a+ob,1e-8,tol,"estimate depends on units or order"); if(!lin) c.near(vb,oa*oa*va,1e-6,(double)(oa*oa*tv*4)+oa*oa*(double)g.s2*1e-8*(1+ (double)g.cond*1e-6)+1e-14*ym*ym*(double)g.cond*1e-2,"variance depends on units or order"); } }
static Reg r13({"S08","metamorphic",s08,100000,1500000,25,60,"pairs of models related by random changes of parameter units, output units, sample order and parameter order; non-trivial: at least one change",150});

// ---------------------------------------------------------------- S09
static void s09(Ctx& c){
    int d=(int)c.src.range(1,5), n=(int)c.src.range(1,12); bool gauss=c.src.chance(0.4); vector<double> th,ga; genHyper(c,d,th,ga); if(gauss) ga.assign(d,2.0); Rows X(n,vector<double>(d)); double sc=c.src.pick(vector<double>{1.0/d,1.0,5.0}); for(auto&r:X)for(auto&x:r)x=c.src.real(0,sc); if(n>1&&c.src.chance(0.2)) X[1]=X[0]; c.desc()<<"gauss="<<gauss<<" theta="<<pbt::str(th)<<" gamma="<<pbt::str(ga)<<" X="<<::str(X); c.nontrivial(n>1); ExponentialCorrelationFunction e; GaussianCorrelationFunction g; CorrelationFunctionBase* f=gauss?(CorrelationFunctionBase*)&g:&e; if(c.src.chance(0.5)) f->setDimension(d); f->setInputSampleMatrix(M(X,d)); f->setHyperParameters(gauss?V(th):hyperVec(th,ga)); double eps=1e-12; if(c.src.chance(0.4)){ eps=c.src.chance(0.2)?0.0:c.src.logreal(1e-14,0.5); f->setEpsilon(eps); } f->computeCorrelationMatrix(); mat Rm=f->getCorrelationMatrix(); c.require(Rm.getNRows()==(unsigned)n&&Rm.getNCols()==(unsigned)n,"shape");
    for(int i=0;i<n;i++){ c.near(Rm(i,i),1+eps,1e-15,0,"diagonal"); for(int j=0;j<n;j++){ ld w=expCorr(X[i],X[j],th,ga); if(i!=j) c.near(Rm(i,j),(double)w,1e-12,1e-300,"matrix entry"); double v=f->computeCorrelation(V(X[i]),V(X[j])); c.near(v,(double)w,1e-12,1e-300,"correlation"); c.require(v>=0&&v<=1,"correlation outside [0,1]"); c.near(v,f->computeCorrelation(V(X[j]),V(X[i])),1e-15,0,"asymmetric correlation"); if(i==j) c.eq(v,1.0,"correlation at zero distance"); } }
    for(int t=0;t<3;t++){ vector<double> v(n); for(auto&x:v)x=c.src.real(-1,1); double q=V(v).dot(Rm.matVecProductNaive(V(v))); c.require(q>=-1e-12*n*n,"correlation matrix is not positive semi-definite",fmt("%.17g",q)); }
    vector<double> x(d); for(auto&v:x)v=c.src.real(0,sc); vec r=f->computeCorrelationVector(V(x)); c.eq(r.getSize(),(unsigned)n,"vector size"); for(int i=0;i<n;i++) c.near(r(i),(double)expCorr(x,X[i],th,ga),1e-12,1e-300,"vector entry");
    // monotone in distance along a ray
    vector<double> dir(d); for(auto&v:dir)v=c.src.real(-1,1); double last=2; for(double s: {0.0,0.05,0.2,0.7,1.5}){ vector<double> y(d); for(int k=0;k<d;k++) y[k]=x[k]+s*dir[k]; double v=f->computeCorrelation(V(x),V(y)); c.require(v<=last,"correlation grows with distance"); last=v; }
    // derivative with respect to the second point
    vector<double> y=X[0]; bool kink=false; for(int k=0;k<d;k++) if(fabs(x[k]-y[k])<0.02*sc) kink=true; if(!kink){ ld h=1e-6L; auto at=[&](ld s,ld q,const vector<double>& d2){ ld sum=0; for(int k=0;k<d;k++) sum+=(ld)th[k]*powl(fabsl((ld)x[k]-((ld)y[k]+s*dir[k]+q*d2[k])),ga[k]); return expl(-sum); }; vector<double> z(d,0.0); ld dq=(at(h,0,z)-at(-h,0,z))/(2*h); double dv=f->computeCorrelationDot(V(x),V(y),V(dir)); c.near(dv,(double)dq,1e-6,1e-8,"directional derivative"); c.label("derivative"); if(gauss){ vector<double> d2(d); for(auto&v:d2)v=c.src.real(-1,1); ld hh=1e-4L; ld q2=(at(hh,hh,d2)-at(hh,-hh,d2)-at(-hh,hh,d2)+at(-hh,-hh,d2))/(4*hh*hh); double v2=g.computeCorrelationDotDot(V(x),V(y),V(dir),V(d2)); c.near(v2,(double)q2,1e-4,1e-5,"second directional derivative"); } }
    if(c.src.chance(0.2)){ c.require(c.throws([&]{f->setHyperParameters(V(vector<double>(2*d+1,1.0)));})&&c.throws([&]{f->setEpsilon(-1e-3);})&&c.throws([&]{f->setEpsilon(1.0);})&&c.throws([&]{f->setInputSampleMatrix(mat());})&&c.throws([&]{f->setDimension(0);}),"invalid settings accepted"); if(!gauss){ auto h=S(e.getHyperParameters()); c.require(h==S(hyperVec(th,ga)),"hyper-parameters"); ExponentialCorrelationFunction q; c.require(c.throws([&]{q.computeCorrelationMatrix();})&&c.throws([&]{q.computeCorrelationVector(V(x));})&&c.throws([&]{q.initialize();}),"use before initialisation accepted"); c.require(e.checkIfParametersAreSetProperly(),"valid parameters refused"); } } }
static Reg r14({"S09","kernels",s09,500000,8000000,100,30,"exponential and Gaussian correlations of random points (also equal points) and parameters: closed form, range, symmetry, monotonicity, matrices, vectors, nugget, quadratic forms, difference quotients; non-trivial: more than one point",800});
// one correlation function object used for a whole history of sample sets, parameters and nuggets; the kernels of the algebra classes
template<class F> static void s09hist(Ctx& c, bool gauss){
    F f; int d=0; Rows X; vector<double> th,ga; double eps=1e-12; bool haveX=false, haveH=false, fresh=false; Rows want; int steps=(int)c.src.range(4,20), checked=0; vector<double> oldx; bool ordered=c.src.chance(0.7);
    for(int s=0;s<steps;s++) switch(ordered&&s==0?0:ordered&&s==1?1+c.src.below(2):c.src.below(6)){
    case 0: { int nd=d&&c.src.chance(0.6)?d:(int)c.src.range(1,5); int n=(int)c.src.range(1,9); X.assign(n,vector<double>(nd)); for(auto&r:X)for(auto&x:r)x=c.src.real(-1,1); f.setInputSampleMatrix(M(X,nd)); c.desc()<<"samples("<<n<<","<<nd<<") "; if(nd!=d) haveH=false; d=nd; haveX=true; fresh=false; c.require(f.isInputSampleMatrixSet(),"sample matrix not set"); } break;
    case 1: if(d){ genHyper(c,d,th,ga); if(gauss) ga.assign(d,2.0); f.setHyperParameters(gauss?V(th):hyperVec(th,ga)); c.desc()<<"hyper "<<pbt::str(th)<<pbt::str(ga)<<" "; haveH=true; } break;
    case 2: if(d){ f.initialize(); th.assign(d,1.0); ga.assign(d,gauss?2.0:1.8); haveH=true; c.desc()<<"initialize "; } else c.require(c.throws([&]{f.initialize();}),"initialisation without dimension accepted"); break;
    case 3: { double e=c.src.chance(0.2)?0.0:c.src.logreal(1e-14,0.9); f.setEpsilon(e); eps=e; c.desc()<<"eps "<<e<<" "; } break;
    case 4: if(haveX&&haveH){ f.computeCorrelationMatrix(); want.assign(X.size(),vector<double>(X.size())); for(size_t i=0;i<X.size();i++)for(size_t j=0;j<X.size();j++) want[i][j]=(double)expCorr(X[i],X[j],th,ga)+(i==j?eps:0); fresh=true; c.desc()<<"matrix "; } else if(!haveX) c.require(c.throws([&]{f.computeCorrelationMatrix();}),"matrix without samples"); break;
    default: if(haveX&&haveH){ vector<double> x(d); for(auto&v:x)v=c.src.real(-1,1); if((int)oldx.size()==d&&c.src.chance(0.5)) x=oldx; oldx=x; vec r=f.computeCorrelationVector(V(x)); c.eq(r.getSize(),(unsigned)X.size(),"vector size"); for(size_t i=0;i<X.size();i++) c.near(r((unsigned)i),(double)expCorr(x,X[i],th,ga),1e-12,1e-300,"vector entry"); auto h=S(f.getHyperParameters()); c.require(h==(gauss?th:S(hyperVec(th,ga))),"hyper-parameters"); checked++; } }
        if(fresh){ mat m=f.getCorrelationMatrix(); c.require(m.getNRows()==X.size()&&m.getNCols()==X.size(),"matrix shape"); for(size_t i=0;i<X.size();i++)for(size_t j=0;j<X.size();j++) c.near(m((unsigned)i,(unsigned)j),want[i][j],1e-12,1e-300,"matrix entry after a history"); checked++; }
    c.nontrivial(checked>1);
    if(haveX&&haveH){ unsigned n=(unsigned)X.size(); mat A=M(X,d); auto same=[&](const mat& m,const vector<double>& g,const char* w){ c.require(m.getNRows()==n&&m.getNCols()==n,w); for(unsigned i=0;i<n;i++)for(unsigned j=0;j<n;j++) c.near(m(i,j),(double)expCorr(X[i],X[j],th,g),1e-12,1e-300,w); };
        vector<double> two(d,2.0); same(A.computeCorrelationMatrixExponential(V(th),V(ga)),ga,"exponential matrix"); same(A.computeCorrelationMatrixExponentialNaive(V(th),V(ga)),ga,"exponential matrix (naive)"); same(A.computeCorrelationMatrixGaussian(V(th)),two,"gaussian matrix"); same(A.computeCorrelationMatrixGaussianNaive(V(th)),two,"gaussian matrix (naive)");
        vec t=V(th),g=V(ga),a=V(X[0]),b=V(X[n-1]); double we=(double)expCorr(X[0],X[n-1],th,ga), wg=(double)expCorr(X[0],X[n-1],th,two); c.near(vec::computeGaussianCorrelation(a,b,t,d),wg,1e-12,1e-300,"gaussian"); c.near(vec::computeGaussianCorrelationNaive(a.getPointer(),b.getPointer(),t.getPointer(),d),wg,1e-12,1e-300,"gaussian (naive)"); c.near(vec::computeExponentialCorrelationNaive(a.getPointer(),b.getPointer(),t.getPointer(),g.getPointer(),d),we,1e-12,1e-300,"exponential (naive)");
        if(c.src.chance(0.2)){ vec l(d+1,1.0); c.require(c.throws([&]{A.computeCorrelationMatrixExponential(l,l);})&&c.throws([&]{A.computeCorrelationMatrixExponential(V(th),l);})&&c.throws([&]{A.computeCorrelationMatrixGaussian(l);})&&c.throws([&]{f.setHyperParameters(vec(3*d,1.0));})&&c.throws([&]{f.setHyperParameters(vec());}),"wrong number of parameters accepted"); } } }
static void s09check(Ctx& c){ int d=(int)c.src.range(1,5); vector<double> th(d),ga(d); for(auto&x:th)x=c.src.chance(0.1)?0.0:c.src.logreal(1e-3,50); for(auto&x:ga)x=c.src.chance(0.2)?c.src.pick(vector<double>{0.0,2.0}):c.src.real(0,2); int k=(int)c.src.below(5); bool ok=k<2; int p=(int)c.src.below(d); if(k==2) th[p]=-c.src.logreal(1e-12,5); if(k==3) ga[p]=-c.src.logreal(1e-12,2); if(k==4) ga[p]=2+c.src.logreal(1e-12,3); ExponentialCorrelationFunction e; e.setDimension(d); c.desc()<<" check "<<pbt::str(th)<<pbt::str(ga)<<" "; c.require(!e.checkIfParametersAreSetProperly(),"parameters that were never set accepted"); e.setTheta(V(th)); c.require(!e.checkIfParametersAreSetProperly(),"missing exponents accepted"); e.setGamma(V(ga)); c.eq(e.checkIfParametersAreSetProperly(),ok,"check of the parameters"); c.require(c.throws([&]{e.setTheta(vec(d+1,1.0));})&&c.throws([&]{e.setGamma(vec(d+1,1.0));})&&c.throws([&]{e.setTheta(vec());}),"wrong number of parameters accepted"); }
static void s09h(Ctx& c){ if(c.src.chance(0.1)) s09check(c); if(c.src.chance(0.5)) s09hist<ExponentialCorrelationFunction>(c,false); else s09hist<GaussianCorrelationFunction>(c,true); }
static Reg r14b({"S09","history",s09h,100000,1500000,50,30,"histories of 2..20 changes of samples, parameters, nugget and dimension on one correlation function object, its matrix and vectors against the closed form after each step, all kernel variants of the algebra classes, parameter checks; non-trivial: two comparisons or more",300});

// ---------------------------------------------------------------- S10
#include "Design/INCLUDE/design.hpp"
#include <cstring>
static vector<double> nums(Ctx& c,int n){ vector<double> r(n); for(auto& v: r) v=c.src.number(); return r; }
static vector<double> cat(vector<double> a,const vector<double>& b){ a.insert(a.end(),b.begin(),b.end()); return a; }
static void s10rows(Ctx& c){
    int d=(int)c.src.range(1,5), nc=(int)c.src.range(0,4); auto x=nums(c,d); Design D=c.src.chance(0.5)?Design(V(x)):Design(d); D.setNumberOfConstraints(nc); D.designParameters=V(x); D.ID=(int)c.src.range(0,6); auto g=nums(c,d), gl=nums(c,d), t=nums(c,d); D.gradient=V(g); D.gradientLowFidelity=V(gl); D.tangentDirection=V(t); D.trueValue=c.src.number(); D.trueValueLowFidelity=c.src.number(); D.tangentValue=c.src.number(); D.tangentValueLowFidelity=c.src.number();
    auto cv=nums(c,nc), cl=nums(c,nc), ct=nums(c,nc), ctl=nums(c,nc); D.constraintTrueValues=V(cv); D.constraintTrueValuesLowFidelity=V(cl); D.constraintTangent=V(ct); D.constraintTangentLowFidelity=V(ctl); Rows cg,cgl,dd,ddl; for(int j=0;j<nc;j++){ cg.push_back(nums(c,d)); cgl.push_back(nums(c,d)); dd.push_back(nums(c,d)); ddl.push_back(nums(c,d)); for(int k=0;k<d;k++){ D.constraintGradientsMatrix(j,k)=cg[j][k]; D.constraintGradientsMatrixLowFi(j,k)=cgl[j][k]; D.constraintDifferentiationDirectionsMatrix(j,k)=dd[j][k]; D.constraintDifferentiationDirectionsMatrixLowFi(j,k)=ddl[j][k]; } }
    if(c.src.chance(0.1)){ Design q(d); for(int r=0;r<3;r++){ q.generateRandomDifferentiationDirection(); auto u=S(q.tangentDirection); c.eq((int)u.size(),d,"size of a differentiation direction"); double n=0; for(double v: u) n+=v*v; c.near(n,1,1e-12,0,"length of a differentiation direction"); } q.designParameters=V(x); string f=fn(c,"dv"); Unlink u{{f}}; bool csv=c.src.chance(0.5); csv?q.saveDesignVectorAsCSVFile(f):q.saveDesignVector(f); string t=readFile(f); for(auto& ch: t) if(ch==(csv?',':'\n')) ch=' '; else if(ch==' ') ch='?'; std::istringstream is(t); vector<double> got; string w; while(is>>w){ char* e; got.push_back(strtod(w.c_str(),&e)); c.require(*e==0,"number in a design file",w); } c.eq((int)got.size(),d,"numbers in a design file"); for(int k=0;k<d;k++) if(std::isfinite(x[k])) c.near(got[k],x[k],6e-10,1e-320,"number in a design file",fmt("%d",k)); c.label("design file"); }
    c.desc()<<"d="<<d<<" constraints="<<nc<<" x="<<pbt::str(x)<<" ID="<<D.ID; auto is=[&](const vec& got,vector<double> want,const char* what){ auto s=S(got); bool same=s.size()==want.size(); for(size_t i=0;same&&i<s.size();i++) same=memcmp(&s[i],&want[i],8)==0||s[i]==want[i]||(std::isnan(s[i])&&std::isnan(want[i])); c.require(same,string("row ")+what,"got "+pbt::str(s)+" expected "+pbt::str(want)); };
    auto y=vector<double>{D.trueValue}, yl=vector<double>{D.trueValueLowFidelity}; is(D.constructSampleObjectiveFunction(),cat(x,y),"objective"); is(D.constructSampleObjectiveFunctionLowFi(),cat(x,yl),"objective low fidelity"); is(D.constructSampleObjectiveFunctionWithGradient(),cat(cat(x,y),g),"objective gradient"); is(D.constructSampleObjectiveFunctionWithGradientLowFi(),cat(cat(x,yl),gl),"objective gradient low fidelity"); is(D.constructSampleObjectiveFunctionWithZeroGradient(),cat(cat(x,y),vector<double>(d,0)),"objective zero gradient");
    is(D.constructSampleObjectiveFunctionWithTangent(),cat(cat(x,{D.trueValue,D.tangentValue}),t),"objective tangent"); is(D.constructSampleObjectiveFunctionWithTangentLowFi(),cat(cat(x,{D.trueValueLowFidelity,D.tangentValueLowFidelity}),t),"objective tangent low fidelity");
    for(int j=0;j<nc;j++){ is(D.constructSampleConstraint(j),cat(x,{cv[j]}),"constraint"); is(D.constructSampleConstraintLowFi(j),cat(x,{cl[j]}),"constraint low fidelity"); is(D.constructSampleConstraintWithGradient(j),cat(cat(x,{cv[j]}),cg[j]),"constraint gradient"); is(D.constructSampleConstraintWithGradientLowFi(j),cat(cat(x,{cl[j]}),cgl[j]),"constraint gradient low fidelity"); is(D.constructSampleConstraintWithTangent(j),cat(cat(x,{cv[j],ct[j]}),dd[j]),"constraint tangent"); is(D.constructSampleConstraintWithTangentLowFi(j),cat(cat(x,{cl[j],ctl[j]}),ddl[j]),"constraint tangent low fidelity"); }
    for(int j: {nc,nc+1,1000}){ c.require(c.throws([&]{ D.constructSampleConstraint(j); }),"row of a constraint that does not exist"); c.require(c.throws([&]{ D.constructSampleConstraintLowFi(j); }),"row of a constraint that does not exist (low fidelity)"); c.require(c.throws([&]{ D.constructSampleConstraintWithGradient(j); }),"gradient row of a constraint that does not exist"); c.require(c.throws([&]{ D.constructSampleConstraintWithGradientLowFi(j); }),"gradient row of a constraint that does not exist (low fidelity)"); c.require(c.throws([&]{ D.constructSampleConstraintWithTangent(j); }),"tangent row of a constraint that does not exist"); c.require(c.throws([&]{ D.constructSampleConstraintWithTangentLowFi(j); }),"tangent row of a constraint that does not exist (low fidelity)"); }
    vector<double> all=cat(cat(cat(x,y),g),cv); (void)all; bool nan=std::isnan(D.trueValue); for(double v: g) nan|=std::isnan(v); for(double v: cv) nan|=std::isnan(v); c.eq(D.checkIfHasNan(),nan,"NaN in a design"); int w=(int)c.src.below(3); if(w==0) D.trueValue=NAN; else if(w==1) D.gradient((int)c.src.below(d))=NAN; else if(nc) D.constraintTrueValues((int)c.src.below(nc))=NAN; else D.trueValue=NAN; c.require(D.checkIfHasNan(),"NaN in a design was not found",fmt("kind %d",w));
    c.nontrivial(nc>=1&&d>=2); }
static Reg r10a({"S10","rows",s10rows,60000,800000,50,20,"designs with random dimension, constraints, high and low fidelity values, gradients, tangents; every row constructor and missing-value test against the fields; non-trivial: at least 2 parameters and a constraint",250});
static void s10data(Ctx& c){
    int d=(int)c.src.range(1,4), n=(int)c.src.range(1,12), kind=(int)c.src.below(3); vector<double> lo,hi; lo=genLo(c,d,hi); if(kind==2) for(int k=1;k<d;k++) hi[k]=lo[k]+(hi[0]-lo[0]); int cols= kind==0?d+1:kind==1?2*d+1:2*d+2; Rows r; for(int i=0;i<n;i++){ vector<double> q; for(int k=0;k<d;k++) q.push_back(c.src.real(lo[k],hi[k])); while((int)q.size()<cols) q.push_back(c.src.real(-100,100)*c.src.pick(vector<double>{1,1e-3,1e4})); r.push_back(q); }
    auto write=[&](const string& f,const Rows& rows){ string s; for(auto& q: rows){ for(size_t j=0;j<q.size();j++) s+=(j?",":"")+fmt("%.17g",q[j]); s+="\n"; } writeFile(f,s); };
    string f=fn(c), bad=fn(c); Unlink u{{f,bad}}; write(f,r); quiet(); c.desc()<<"kind "<<kind<<" d="<<d<<" lo="<<pbt::str(lo)<<" hi="<<pbt::str(hi)<<" data "<<str(r); auto prepare=[&](SurrogateModelData& s,bool dim){ if(kind==1) s.setGradientsOn(); if(kind==2) s.setDirectionalDerivativesOn(); if(dim) s.setDimension(d); s.setBoxConstraints(Bounds(lo,hi)); };
    SurrogateModelData s; prepare(s,c.src.chance(0.5)); double ratio=n>=3&&c.src.chance(0.4)?c.src.real(0,0.6):0; if(ratio>0) s.setValidationRatio(ratio); s.readData(f); c.eq((int)s.getDimension(),d,"dimension"); int nv=(int)s.getNumberOfSamplesValidation(), nt=(int)s.getNumberOfSamples(); c.eq(nv+nt,n,"number of samples"); bool normalized=false;
    auto compare=[&](const char* when){ vector<int> used; for(int i=0;i<(int)s.getNumberOfSamples();i++){ auto xr=S(s.getRowXRaw(i)); int row=-1; for(int t=0;t<n&&row<0;t++) if(std::equal(xr.begin(),xr.end(),r[t].begin())&&s.getOutputVector()(i)==r[t][d]) row=t; c.require(row>=0,string("sample is not a row of the file ")+when); if(!used.empty()) c.require(row>used.back()||n!=(int)s.getNumberOfSamples(),string("order of the samples ")+when); used.push_back(row); auto& q=r[row]; auto X=S(s.getRowX(i)); for(int k=0;k<d;k++){ double w=hi[k]-lo[k]; c.near(X[k],normalized?(q[k]-lo[k])/w/d:q[k],1e-13,normalized?1e-13*(fabs(lo[k])+fabs(hi[k]))/w:0,string("parameter ")+when); }
            if(kind==1){ auto G=S(s.getRowGradient(i)), gm=S(s.getGradientMatrix().getRow(i)); c.eq((int)G.size(),d,"size of a gradient"); for(int k=0;k<d;k++){ c.near(G[k],normalized?q[d+1+k]*(hi[k]-lo[k])*d:q[d+1+k],1e-13,1e-300,string("gradient ")+when); c.eq(G[k],gm[k],"gradient matrix"); } if(normalized){ auto gr=S(s.getRowGradientRaw(i)); for(int k=0;k<d;k++) c.eq(gr[k],q[d+1+k],string("raw gradient ")+when); } }
            if(kind==2){ auto D=S(s.getRowDifferentiationDirection(i)); c.eq((int)D.size(),d,"size of a direction"); for(int k=0;k<d;k++) c.eq(D[k],q[d+2+k],string("direction ")+when); c.near(s.getDirectionalDerivativesVector()(i),normalized?q[d+1]*(hi[0]-lo[0])*d:q[d+1],1e-13,1e-300,string("directional derivative ")+when); } } };
    compare("after reading"); s.normalize(); normalized=true; compare("after normalisation"); if(nv>0){ s.revertBackToFullData(); c.eq((int)s.getNumberOfSamples(),n,"samples after the validation"); compare("after the validation"); c.label("validation samples"); }
    if(c.src.chance(0.5)){ s.readData(f); normalized=false; if(ratio==0) compare("after reading again"); s.normalize(); normalized=true; compare("after normalising again"); }
    // a file of another kind
    Rows b=r; int delta=c.src.chance(0.5)?1:-1; for(auto& q: b){ if(delta>0) q.push_back(c.src.real(-1,1)); else q.pop_back(); } write(bad,b); SurrogateModelData o; prepare(o,true); c.require(c.throws([&]{ o.readData(bad); }),"file with a wrong number of columns");
    c.label(kind==0?"values":kind==1?"gradients":"tangents"); c.nontrivial(kind>0&&n>=2); }
static Reg r10b({"S10","data",s10data,30000,400000,20,30,"data files with values, gradients or directional derivatives (dimension 1..4, 1..12 rows), with and without validation samples, read, normalised, reverted and read again; every getter against the rows; files with a column more or less must be rejected; non-trivial: derivatives and at least 2 rows",250});
