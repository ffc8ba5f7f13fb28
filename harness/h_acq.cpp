// A01, A02: acquisition function.
#include "opt.hpp"
using namespace pbt; using namespace Rodop; using std::vector; using std::string; using namespace opt;
static void ownModel(KrigingModel& m,const Prob& p,const string& file,bool lin){ m.setName("own"); m.setDimension(p.d); m.setNameOfInputFile(file); if(lin) m.setLinearRegressionOn(); m.setBoxConstraints(Bounds(p.lo,p.hi)); m.readData(); m.normalizeData(); m.initializeSurrogateModel(); }
static bool spread(const Prob& p){ for(size_t i=0;i<p.x.size();i++) for(size_t j=0;j<i;j++){ double m=0; for(int k=0;k<p.d;k++) m=std::max(m,fabs(p.x[i][k]-p.x[j][k])/(p.hi[k]-p.lo[k])); if(m<0.01) return false; } return true; }
static vector<double> query(Ctx& c,const Prob& p,int& kind){ vector<double> q(p.d); kind=(int)c.src.below(4); if(kind<2){ for(auto& v: q) v=c.src.real(0,1)/p.d; return q; }
    q=normaliseX(p.x[c.src.below(p.x.size())],p.lo,p.hi); if(kind==3){ double w=c.src.logreal(1e-10,1e-2); for(auto& v: q) v+=w*c.src.real(-1,1)/p.d; } return q; }
static DesignForBayesianOptimization dbo(const vector<double>& q,int nc){ return DesignForBayesianOptimization(V(q),nc); }
// ---------------------------------------------------------------- A01
static void a01(Ctx& c){
    GenOpt g; if(c.src.chance(0.06)) g.dmax=10; g.constraints=false; g.outside=c.src.chance(0.1); Prob p=generate(c,g); if(!spread(p)) c.discard(); P=&p; quiet(); writeData(p); c.desc()<<p.text(); c.saveDesc();
    ObjectiveFunction f; makeObjective(f,p); f.setParameterBounds(Bounds(p.lo,p.hi)); f.initializeSurrogate(); KrigingModel own; ownModel(own,p,p.objName+".csv",p.universal);
    int good=0; for(int t=0;t<12;t++){ int kind; auto q=query(c,p,kind); double m0,v0; own.interpolateWithVariance(V(q),&m0,&v0); double s0=std::sqrt(v0); double sf=c.src.chance(0.4)?1.0:c.src.pick(vector<double>{1.5,2,3,c.src.real(1,3)}); double y; int yk=(int)c.src.below(6);
        switch(yk){ case 0: y=*std::min_element(p.y.begin(),p.y.end()); break; case 1: y=1e15; break; case 2: y=m0+c.src.real(-45,45)*s0*sf; break; case 3: y=m0+c.src.real(-4,4)*s0*sf; break; case 4: y=m0; break; default: y=c.src.pick(p.y)+c.src.real(-2,2)*p.f.scale; }
        f.setFeasibleMinimum(y); f.setSigmaFactor(sf); auto d=dbo(q,0); d.objectiveFunctionValue=c.src.chance(0.5)?c.src.real(-100,100):0; d.valueAcquisitionFunction=-7; f.calculateExpectedImprovement(d);
        string at="x="+pbt::str(q)+fmt(" y=%.17g factor=%.17g model mean %.17g sigma %.17g: ",y,sf,m0,s0);
        c.near(d.objectiveFunctionValue,m0,1e-12,1e-300,"estimate of the design",at); c.near(d.sigma,s0,1e-12,1e-300,"sigma of the design",at);
        double ei=d.valueAcquisitionFunction; c.require(std::isfinite(ei)&&ei>=-1e-300,"expected improvement is negative or not finite",at+fmt("%.17g",ei));
        ld D=(ld)y-(ld)d.objectiveFunctionValue, s=(ld)sf*(ld)d.sigma; if(s<=0.999999e-13L){ c.eq(ei,0.0,"expected improvement without uncertainty"); c.label("no uncertainty"); }
        else if(s>1.000001e-13L){ ld Z=D/s, Ph=0.5L*erfcl(-Z/sqrtl(2.0L)), ph=expl(-0.5L*Z*Z)/sqrtl(2*acosl(-1.0L)); ld ref=D*Ph+s*ph, tol=4e-16L*(10+2*Z*Z)*(fabsl(D)*Ph+s*ph)+1e-300L+2.3e-16L*fabsl((ld)y)*Ph; c.require(fabsl(ref-(ld)ei)<=tol,"expected improvement",at+fmt("got %.17g expected %.17Lg tolerance %.3Lg Z=%.6Lg",ei,ref,tol,Z)); c.labelIf(Z<-5,"Z<-5"); c.labelIf(Z>5,"Z>5"); c.labelIf(fabsl(Z)<=5,"|Z|<=5"); good++; }
        auto e=dbo(q,0); e.objectiveFunctionValue=c.src.chance(0.5)?c.src.real(-100,100):0; e.sigma=c.src.real(0,3); f.calculateProbabilityOfImprovement(e); double pi=e.valueAcquisitionFunction; c.near(e.objectiveFunctionValue,m0,1e-12,1e-300,"estimate of the design",at); c.near(e.sigma,s0,1e-12,1e-300,"sigma of the design",at); c.require(pi>=0&&pi<=1,"improvement probability outside [0,1]",at+fmt("%.17g",pi));
        if(s0>0){ ld Z=((ld)y-m0)/s0; ld ref=0.5L*erfcl(-Z/sqrtl(2.0L)); c.near(pi,(double)ref,1e-12,1e-12,"improvement probability",at); } else c.eq(pi,y>m0?1.0:0.0,"improvement probability without uncertainty"); }
    c.label("dimension "+std::to_string(p.d)); c.nontrivial(good>=4); }
static Reg r1({"A01","formulas",a01,3000,60000,1,30,"objective functions with ordinary or universal Kriging models on random data; 12 (query point, best value, exploration factor) triples each: query points random, on and next to samples; best values from the data, 1e15, and up to 45 standard deviations from the estimate; reference formulas in extended precision; non-trivial: at least 4 triples with uncertainty",60});
// normal distribution of an estimate, for any value, mean and standard deviation
static void a01dist(Ctx& c){ int d=(int)c.src.range(1,6), nc=(int)c.src.below(4); DesignForBayesianOptimization b= nc?DesignForBayesianOptimization(d,nc):DesignForBayesianOptimization(d); if(c.src.chance(0.3)){ vector<double> q(d); for(auto&v:q)v=c.src.real(-1,1); b= nc?DesignForBayesianOptimization(V(q),nc):DesignForBayesianOptimization(V(q)); c.require(S(b.dv)==q,"design vector of the constructor"); }
    c.eq(b.dim,(unsigned)d,"dimension"); c.eq(b.sigma,0.0,"initial sigma"); c.eq(b.valueAcquisitionFunction,0.0,"initial acquisition value"); double sc=c.src.logreal(1e-6,1e6), m=sc*c.src.real(-3,3), s=c.src.chance(0.1)?0.0:sc*c.src.logreal(1e-8,10), last=-1; b.objectiveFunctionValue=m; b.sigma=s; vector<double> zs(6); for(auto&z:zs)z=c.src.chance(0.15)?0.0:c.src.chance(0.2)?c.src.real(-40,40):c.src.real(-5,5); std::sort(zs.begin(),zs.end()); c.desc()<<fmt("mean %.17g sigma %.17g z ",m,s)<<pbt::str(zs);
    for(double z:zs){ double x=m+(s>0?s:sc)*z; ld Z=s>0?((ld)x-m)/s:0; double less=b.calculateProbalityThatTheEstimateIsLessThanAValue(x), more=b.calculateProbalityThatTheEstimateIsGreaterThanAValue(x); double want= s>0?(double)(0.5L*erfcl(-Z/sqrtl(2.0L))):x>m?1.0:0.0; c.near(less,want,1e-12,1e-13,"probability of a smaller value"); c.near(more,1-want,1e-12,1e-13,"probability of a larger value"); c.require(less>=0&&less<=1&&more>=0&&more<=1,"probability outside [0,1]"); c.require(less>=last-1e-15,"distribution is not monotone"); last=less; c.near(b.cdf(x,m,s),less,0,0,"cdf"); if(s>0){ c.near(b.pdf(x,m,s),(double)(expl(-0.5L*Z*Z)/(s*sqrtl(2*acosl(-1.0L)))),1e-11*(1+(double)(Z*Z)),1e-300,"density"); } }
    if(nc){ vector<double> pr(nc); for(auto&v:pr)v=c.src.chance(0.2)?0.0:c.src.real(0,1); b.constraintFeasibilityProbabilities=V(pr); double v=c.src.logreal(1e-9,1e9), w=v; for(double q:pr) w*=q; b.valueAcquisitionFunction=v; b.updateAcqusitionFunctionAccordingToConstraints(); c.near(b.valueAcquisitionFunction,w,1e-14,0,"product of the probabilities"); b.reset(); c.require(b.valueAcquisitionFunction==0&&b.sigma==0&&b.objectiveFunctionValue==0,"reset"); for(double q:S(b.constraintFeasibilityProbabilities)) c.eq(q,0.0,"reset of the probabilities"); }
    c.nontrivial(s>0); }
static Reg r1b({"A01","distribution",a01dist,100000,1500000,100,20,"normal distribution and density of estimates (scale 1e-6..1e6, sigma 0 or 1e-8..10 scales, arguments up to 40 sigma): closed form, range, monotonicity, products of probabilities, reset; non-trivial: positive sigma",200});
// ---------------------------------------------------------------- A02
static void a02(Ctx& c){
    GenOpt g; if(c.src.chance(0.06)) g.dmax=10; g.udf=true; g.pCon=1; g.outside=c.src.chance(0.1); Prob p=generate(c,g); if(!spread(p)) c.discard(); P=&p; quiet(); resetLog(); writeData(p); describe(c,p); int nc=(int)p.con.size(); Optimizer o("study",p.d); build(o,p); o.initializeSurrogates(); vector<KrigingModel> own(nc); for(int j=0;j<nc;j++) if(!p.con[j].udf) ownModel(own[j],p,p.con[j].name+".csv",p.con[j].universal);
    int mid=0; for(int t=0;t<12;t++){ int kind; auto q=query(c,p,kind); auto d=dbo(q,nc); double v=c.src.pick(vector<double>{1,0,1e15,c.src.logreal(1e-12,1e6)}); d.valueAcquisitionFunction=v; o.addPenaltyToAcqusitionFunctionForConstraints(d); string at="x="+pbt::str(q)+" "; ld prod=v; c.eq((int)d.constraintFeasibilityProbabilities.getSize(),nc,"number of probabilities");
        for(int j=0;j<nc;j++){ auto& k=p.con[j]; double m,s,ref; double pr=d.constraintFeasibilityProbabilities(j); if(k.udf){ vector<double> x(p.d); for(int i=0;i<p.d;i++) x[i]=q[i]*p.d*(p.hi[i]-p.lo[i])+p.lo[i]; m=k.f(x.data()); double sc=k.f.scale*5+fabs(m); c.near(d.constraintValues(j),m,0,k.f.rnd>0?k.f.rnd*1.001:1e-11*sc,"value of an exact constraint",at); m=d.constraintValues(j); ref=k.ok(m); s=0; c.label("exact constraint"); }
            else { double var; own[j].interpolateWithVariance(V(q),&m,&var); s=std::sqrt(var); c.near(d.constraintValues(j),m,1e-12,1e-300,"constraint estimate",at); c.near(d.constraintSigmas(j),s,1e-12,1e-300,"constraint sigma",at); if(s<1.1e-12){ ref=k.ok(m); if(s>=0.9e-12) ref=pr; } else { ld Z=((ld)k.thr-m)/s; if(k.dir=='>') Z=-Z; ref=(double)(0.5L*erfcl(-Z/sqrtl(2.0L))); if(ref>1e-3&&ref<0.999) mid++; } }
            c.near(pr,ref,1e-12,1e-13,"feasibility probability",at+fmt("constraint %d: mean %.17g sigma %.6g %c %.17g: ",j,m,s,k.dir,k.thr)); c.require(pr>=0&&pr<=1,"probability outside [0,1]"); prod*=pr;
            double th=k.thr, a=o.calculateProbabilityLessThanAValue(th,m,s), b=o.calculateProbabilityGreaterThanAValue(th,m,s); if(!(s<1e-12&&m==th)) c.near(a+b,1.0,0,1e-15,"the two sides of a threshold",fmt("value %.17g mean %.17g sigma %.17g",th,m,s)); c.near(k.dir=='<'?a:b,pr,s>0?1e-9:0,1e-12,"feasibility probability differs"); }
        c.near(d.valueAcquisitionFunction,(double)prod,1e-14,0,"weighted acquisition value",at); }
    // the normal distribution itself
    for(int t=0;t<6;t++){ double mu=c.src.number(), s=c.src.chance(0.15)?0:c.src.logreal(1e-11,1e6), z=c.src.chance(0.8)?c.src.real(-9,9):0, val=mu+z*s; if(!std::isfinite(mu)||fabs(mu)>1e12) continue; double a=o.calculateProbabilityLessThanAValue(val,mu,s), b=o.calculateProbabilityGreaterThanAValue(val,mu,s); if(s==0){ c.eq(a,val>mu?1.0:0.0,"exact value below a threshold",fmt("value %.17g mean %.17g",val,mu)); c.eq(b,val<mu?1.0:0.0,"exact value above a threshold"); } else if(s>1e-3*fabs(mu)*1e-6){ ld Z=((ld)val-mu)/s; c.near(a,(double)(0.5L*erfcl(-Z/sqrtl(2.0L))),1e-12,1e-14,"normal probability",fmt("value %.17g mean %.17g sigma %.17g",val,mu,s)); c.near(b,(double)(0.5L*erfcl(Z/sqrtl(2.0L))),1e-12,1e-14,"normal probability"); } }
    c.nontrivial(mid>0); }
static Reg r2({"A02","feasibility",a02,2500,50000,1,30,"optimizers with 1..3 constraints (surrogate or exact, both directions, thresholds at quantiles, at sample values or unattainable) and 12 designs each, at random, on or next to samples; non-trivial: a probability strictly between 0.001 and 0.999",60});
// ---------------------------------------------------------------- O10, T03
struct Proposal { Prob p; int k=1; DesignForBayesianOptimization D; vector<double> xn; double y=1e15; vector<double> best, last; int firstCand=0; bool udf=false; };
static double live(Optimizer& o,const Prob& p,const vector<double>& q,DesignForBayesianOptimization* out=nullptr){ unsigned s=o.iterGradientEILoop; o.iterGradientEILoop=0; auto d=o.maximizeAcqusitionFunctionGradientBased(dbo(q,(int)p.con.size())); o.iterGradientEILoop=s; if(out) *out=d; return d.valueAcquisitionFunction; }
static Prob proposalProblem(Ctx& c,bool udf,int threads,int innerLo,int innerHi){ GenOpt g; if(c.src.chance(0.06)) g.dmax=9; g.maxN=3; g.discrete=c.src.chance(0.15); g.outside=c.src.chance(0.1); g.pCon=0.5; g.missing=false; Prob p=generate(c,g); if(p.con.size()>2) p.con.pop_back(); p.inner=(int)c.src.range(innerLo,innerHi); p.train=50; p.threads=threads; p.howOften=100000; if(udf){ Con k; k.name="free"; k.udf=true; k.dir='<'; k.thr=1e20; k.f=genFun(c,p.lo,p.hi); p.con.push_back(k); } return p; }
static void bestOf(const Prob& p,const Rows& h,Proposal& r){ bool any=false; for(auto& q: h) any|=q.back()>0; double b=1e400; for(auto& q: h) if((!any||q.back()>0)&&q[p.d]<b){ b=q[p.d]; r.best=vector<double>(q.begin(),q.begin()+p.d); } if(any) r.y=b; r.best=normaliseX(r.best,p.lo,p.hi); }
// runs up to the k-th evaluation of the objective and leaves the optimizer in the state of that proposal
static Proposal propose(Ctx& c,Optimizer*& o,int innerLo,int innerHi){
    Proposal r; Prob p=proposalProblem(c,false,1,innerLo,innerHi); r.k=(int)c.src.range(1,3); p.N=r.k; p.throwAt=r.k; p.killFn=0; r.p=p; static Prob keep; keep=p; describe(c,p); c.desc()<<" proposal "<<r.k; c.saveDesc();
    o=new Optimizer("study",p.d); Out out=run(keep,o); c.require(out.threw&&(int)L->counts[0]==r.k,"run failed",out.what); r.D=o->getDesignWithMaxExpectedImprovement(); Call last=calls().back(); r.xn=normaliseX(xs(last.x,p.d),p.lo,p.hi); bestOf(p,out.hist,r); return r; }
static void checkProposal(Ctx& c,Optimizer& o,Proposal& r);
// a whole run in which every proposal is checked against all candidates of its search
static int checkedRun(Ctx& c,int threads,int innerLo,int innerHi,int N){
    static Prob p; p=proposalProblem(c,true,threads,innerLo,innerHi); p.N=N; describe(c,p); static Optimizer* o; o=new Optimizer("study",p.d); int start=(int)p.x.size(), positive=0; noRefine=true; barrier=threads; 
    atObjective=[&](int k){ barrier=0; Proposal r; r.p=p; r.k=k; r.udf=true; auto cs=calls(); if(!cs.empty()) r.last=xs(cs.back().x,p.d); r.D=o->getDesignWithMaxExpectedImprovement(); r.firstCand=start; bestOf(p,R(o->getHistory()),r); r.xn=S(r.D.dv); checkProposal(c,*o,r); if(r.D.valueAcquisitionFunction>1e-12*p.f.scale) positive++; L->cand=0; start=0; barrier=threads; };
    Out out=run(p,o); atObjective=nullptr; noRefine=false; barrier=0; mustRun(c,out); auto cs=calls(); return positive; }
static void checkProposal(Ctx& c,Optimizer& o,Proposal& r){
    const Prob& p=r.p; bool disc=false; for(double i: p.inc) disc|=i>0; vector<double> dv=S(r.D.dv); double acq=r.D.valueAcquisitionFunction; c.require(std::isfinite(acq)&&acq>=-1e-300,"acquisition value is not finite",fmt("%.17g",acq));
    for(int k=0;k<p.d;k++) c.require(dv[k]>=-1e-15&&dv[k]<=1.0/p.d+1e-15,"proposal outside the box"); int cand0=L->cand;
    DesignForBayesianOptimization now; double a=live(o,p,dv,&now); c.near(acq,a,1e-12,1e-300,"reported acquisition value of the proposal",pbt::str(dv));
    // the value is the expected improvement over the best feasible design, weighted by the constraints
    { ld prod=1; for(unsigned j=0;j<p.con.size();j++) prod*=now.constraintFeasibilityProbabilities(j); auto ei=[&](ld sf){ ld D=(ld)r.y-(ld)now.objectiveFunctionValue, s=sf*(ld)now.sigma; if(s<=1e-13L) return 0.0L; ld Z=D/s; return D*0.5L*erfcl(-Z/sqrtl(2.0L))+s*expl(-0.5L*Z*Z)/sqrtl(2*acosl(-1.0L)); }; ld lo=ei(1)*prod, hi=r.k==1?lo:ei(100)*prod, tol=1e-6L*hi+1e-300L+1e-15L*fabsl((ld)r.y)*prod; c.require((ld)a>=lo-tol&&(ld)a<=hi+tol,"acquisition value is not the weighted expected improvement over the best feasible value",fmt("%.17g not in [%.12Lg,%.12Lg], best %.17g mean %.17g sigma %.17g",a,lo,hi,r.y,now.objectiveFunctionValue,now.sigma)); }
    double ax=live(o,p,r.xn); if(!disc) c.require(ax>=acq*(1-1e-3)-1e-300,"the refined proposal is worse than the candidate it started from",fmt("%.17g < %.17g",ax,acq));
    if(r.udf){ double bestA=-1; int have=0; for(int i=r.firstCand;i<cand0;i++){ if(!r.last.empty()){ bool same=true; for(int k=0;k<p.d;k++) same=same&&fabs(L->candx[i][k]-r.last[k])<=1e-12*(p.hi[k]-p.lo[k]); if(same) continue; } have++; vector<double> q(p.d); for(int k=0;k<p.d;k++) q[k]=(L->candx[i][k]-p.lo[k])/(p.hi[k]-p.lo[k])/p.d; bestA=std::max(bestA,live(o,p,q)); } c.require(have>=1,"no candidate was tried"); c.require(acq>=bestA*(1-1e-3)-1e-300,"a better candidate was lost in the search",fmt("returned %.17g, best of %d candidates %.17g",acq,have,bestA)); c.labelIf(bestA>0,"positive acquisition"); }
    if(p.inner>=250){ // random designs in the region around the best design
        int better=0, trials=200; for(int t=0;t<trials;t++){ vector<double> q(p.d); for(int k=0;k<p.d;k++) q[k]=c.src.real(std::min(1.0/p.d,std::max(0.0,r.best[k]-0.8/p.d)),std::min(1.0/p.d,std::max(0.0,r.best[k]+0.8/p.d))); if(live(o,p,q)>acq*(1+1e-9)) better++; } c.require(better<trials*3/10,"random designs are better than the proposal",fmt("%d of %d",better,trials)); } }
static void o10(Ctx& c){ Optimizer* o; Proposal r=propose(c,o,250,500); checkProposal(c,*o,r); c.labelIf(r.y<1e15,"feasible design known"); c.label("proposal "+std::to_string(r.k)); c.nontrivial(r.D.valueAcquisitionFunction>1e-12*r.p.f.scale); }
static Reg r3({"O10","proposal",o10,500,8000,1,60,"runs stopped at the 1st..3rd proposal; the acquisition function of that moment is evaluated at the proposal and at 200 random designs of the search region; non-trivial: the proposal has a positive acquisition value",15});
static void o10run(Ctx& c){ int N=(int)c.src.range(2,c.thorough?15:8); int pos=checkedRun(c,1,5,120,N); c.nontrivial(pos>=2); }
static Reg r3b({"O10","run",o10run,500,8000,1,60,"runs of 2..8 iterations; at every proposal the acquisition function of that moment is evaluated at the proposal and at all candidates of its search (recorded through a user-defined constraint that always holds); non-trivial: at least 2 proposals with a positive acquisition value",15});
static void o10ref(Ctx& c){ Optimizer* o; Proposal r=propose(c,o,5,30); int up=0; double w=0.8/r.p.d, top=1.0/r.p.d; for(int t=0;t<8;t++){ vector<double> q(r.p.d); for(int k=0;k<r.p.d;k++){ double a=std::min(top,std::max(0.0,r.best[k]-w)), b=std::min(top,std::max(0.0,r.best[k]+w)); q[k]=c.src.chance(0.1)?(c.src.chance(0.5)?a:b):c.src.real(a,b); } double a0=live(*o,r.p,q); o->iterGradientEILoop=(unsigned)c.src.range(1,100); auto d=o->maximizeAcqusitionFunctionGradientBased(dbo(q,(int)r.p.con.size())); double a1=d.valueAcquisitionFunction; auto z=S(d.dv); c.require(a1>=a0,"refinement decreased the acquisition value",fmt("%.17g to %.17g",a0,a1)); c.near(a1,live(*o,r.p,z),1e-12,1e-300,"reported value of the refined design"); for(int k=0;k<r.p.d;k++){ double a=std::min(top,std::max(0.0,r.best[k]-w)), b=std::min(top,std::max(0.0,r.best[k]+w)); c.require(z[k]>=a-1e-14&&z[k]<=b+1e-14,"refined design left the search region",fmt("component %d: %.17g not in [%.17g,%.17g]",k,z[k],a,b)); } if(a1>a0) up++; }
    c.labelIf(up>0,"refinement improved a design"); c.nontrivial(up>0); }
// the moves of the proposal search stay inside the box they are given
static void o10moves(Ctx& c){ int d=(int)c.src.range(1,8); DesignForBayesianOptimization b(d,0); vector<double> lo(d),hi(d); for(int k=0;k<d;k++){ lo[k]=c.src.real(0,0.9)/d; hi[k]=lo[k]+c.src.logreal(1e-6,1)*(1.0/d-lo[k]); } auto inside=[&](const char* w){ for(int k=0;k<d;k++) c.require(b.dv(k)>=lo[k]&&b.dv(k)<=hi[k],w,fmt("%.17g not in [%.17g,%.17g]",b.dv(k),lo[k],hi[k])); }; c.desc()<<"lo="<<pbt::str(lo)<<" hi="<<pbt::str(hi); c.nontrivial(true);
    b.generateRandomDesignVector(V(lo),V(hi)); inside("random design outside its box"); b.generateRandomDesignVector(); for(int k=0;k<d;k++) c.require(b.dv(k)>=0&&b.dv(k)<=1.0/d,"random design outside the unit box");
    vector<double> x(d); for(int k=0;k<d;k++){ x[k]=lo[k]+c.src.unit()*(hi[k]-lo[k]); if(c.src.chance(0.2)) x[k]=c.src.chance(0.5)?lo[k]:hi[k]; } double f=c.src.chance(0.3)?0.01:c.src.logreal(1e-5,1); c.desc()<<fmt(" factor %.17g x=",f)<<pbt::str(x); for(int t=0;t<3;t++){ b.generateRandomDesignVectorAroundASample(V(x),V(lo),V(hi),f); inside("design around a sample outside its box"); for(int k=0;k<d;k++) c.require(fabs(b.dv(k)-x[k])<=f/d*(1+1e-12)+1e-15,"design is not around the sample"); }
    vector<double> g(d); for(auto&v:g)v=c.src.chance(0.1)?0.0:c.src.real(-1,1)*c.src.logreal(1e-3,1e3); double st=c.src.logreal(1e-9,10); b.dv=V(x); b.gradientUpdateDesignVector(V(g),V(lo),V(hi),st); inside("gradient step leaves the box"); for(int k=0;k<d;k++) c.near(b.dv(k),std::min(hi[k],std::max(lo[k],x[k]+st*g[k])),1e-15,1e-18,"gradient step");
    if(c.src.chance(0.1)) c.require(c.throws([&]{b.generateRandomDesignVectorAroundASample(vec(d+1,0.0),V(lo),V(hi));}),"sample of another dimension accepted"); }
static Reg r3c({"O10","moves",o10moves,100000,1500000,100,20,"random designs, designs around a sample and gradient steps in random boxes (1..8 parameters, sample on or inside the boundary, step 1e-9..10): inside the box, near the sample, projected step; always non-trivial",200});
static Reg r4({"O10","refinement",o10ref,500,8000,1,60,"runs stopped at the 1st..3rd proposal; gradient ascent from 8 random designs of the search region; non-trivial: at least one design was improved",15});
static void t03(Ctx& c){ int th=(int)c.src.range(2,8); int pos=checkedRun(c,th,4,40,(int)c.src.range(5,25)); c.label(std::to_string(th)+" threads"); c.nontrivial(pos>0); }
static Reg r5({"T03","search",t03,300,6000,1,60,"runs of 5..25 iterations with 2..8 threads and 4..40 inner iterations; at every proposal the returned design against all candidates tried by any thread (recorded through a user-defined constraint in which the threads meet, so that they finish candidates at the same moment); non-trivial: a proposal with positive acquisition value",0,10});
// ---------------------------------------------------------------- O11
// the hyper-parameters are given in files (warm start); new files are written before every evaluation, so that each training is recognised by the hyper-parameters that the models use
static void o11(Ctx& c){
    GenOpt g; g.maxN=c.thorough?14:7; g.maxInner=20; g.discrete=c.src.chance(0.1); g.outside=c.src.chance(0.1); g.udf=c.src.chance(0.2); static Prob p; p=generate(c,g); p.warm=true; static const int often[]={1,2,3,4,5,100000}; p.howOften=often[c.src.below(6)]; describe(c,p); quiet();
    struct Model { string name; bool lin,udf; }; vector<Model> ms{{p.objName,p.universal,false}}; for(auto& k: p.con) ms.push_back({k.name,k.universal,k.udf});
    vector<vector<vector<double>>> H; // hyper-parameters of every iteration and model
    auto writeHyper=[&]{ H.emplace_back(); for(auto& m: ms){ vector<double> h; for(int k=0;k<p.d;k++) h.push_back(c.src.logreal(0.5,20)); for(int k=0;k<p.d;k++) h.push_back(c.src.real(1,1.9)); string s; for(double v: h) s+=fmt("%.17g\n",v); if(!m.udf) writeFile(m.name+"_hyperparameters.csv",s); H.back().push_back(h); } };
    static Optimizer* o; o=new Optimizer("study",p.d); int retrained=0, later=0; double diff=0;
    auto check=[&](int k){ int last=((k-1)/p.howOften)*p.howOften; // iteration (from 0) of the last training
        if(last>0) retrained++; if(last<k-1) later++; vector<KrigingModel> own(ms.size());
        for(size_t m=0;m<ms.size();m++) if(!ms[m].udf){ auto r=dataRows(ms[m].name+".csv"); string s; for(auto& q: r){ for(size_t j=0;j<q.size();j++) s+=(j?",":"")+fmt("%.17g",q[j]); s+="\n"; } writeFile("own.csv",s); ownModel(own[m],p,"own.csv",ms[m].lin); vec h(2*p.d); for(int i=0;i<2*p.d;i++) h(i)=H[last][m][i]; own[m].setHyperParameters(h); own[m].updateAuxilliaryFields(); }
        for(int t=0;t<3;t++){ vector<double> q(p.d); for(auto& v: q) v=c.src.real(0,1)/p.d; DesignForBayesianOptimization d; live(*o,p,q,&d); for(size_t m=0;m<ms.size();m++) if(!ms[m].udf){ double f,v; own[m].interpolateWithVariance(V(q),&f,&v); double s=std::sqrt(v), gf=m==0?d.objectiveFunctionValue:d.constraintValues(m-1), gs=m==0?d.sigma:d.constraintSigmas(m-1); string at=fmt("iteration %d, training expected in iteration %d, model %s, x=",k,last+1,ms[m].name.c_str())+pbt::str(q)+": "; double sc=0; for(auto& r: dataRows(ms[m].name+".csv")) sc=std::max(sc,fabs(r.back())); c.near(gf,f,1e-9,1e-9*sc,"estimate of the surrogate model",at); c.near(gs,s,1e-6,1e-7*sc,"sigma of the surrogate model",at); (void)diff; } } };
    writeHyper(); atObjective=[&](int k){ check(k); writeHyper(); }; Out out=run(p,o); atObjective=nullptr; mustRun(c,out);
    c.label(p.howOften>p.N?"trained once":fmt("trained every %d iterations",p.howOften)); c.labelIf(retrained>0,"retrained"); c.labelIf(later>0,"new data since the training"); c.nontrivial(p.N>1); }
static Reg r6({"O11","schedule",o11,600,9000,1,60,"runs of 1..7 iterations with training intervals 1..5 or longer than the run; at every proposal the estimates and standard deviations of all surrogate models against new models built from the training data of that moment and the hyper-parameters of the last scheduled training (recognised through hyper-parameter files that change before every evaluation); non-trivial: more than one iteration",20});
