// E01, E02: the internal evolutionary optimizer and its population against a list model.
#include "common.hpp"
#include "InternalOptimizers/INCLUDE/ea_optimizer.hpp"
#include "InternalOptimizers/INCLUDE/ea_population.hpp"
#include <unistd.h>
#include <set>
#include <map>
using namespace pbt; using namespace Rodop; using std::vector; using std::string;

// the static generators of the code under test have the same state in every process: vary it
static void burn(Ctx& c){
    int n=(int)c.src.below(200); EAPopulation p; p.setDimension(1);
    for(int i=0;i<2;i++){ EAIndividual x(1); x.setId(i+1); x.setReproductionProbabilityValue(0.5); p.addIndividual(x); }
    for(int i=0;i<n;i++) p.pickUpARandomIndividualForReproduction();
}
static double genJ(Ctx& c, int kind){
    switch(kind){
    case 0: return c.src.number(100);
    case 1: return -fabs(c.src.real(0.1,50));
    case 2: return c.src.pick(vector<double>{0,1,-1,2});                    // many ties
    case 3: return c.src.pick(vector<double>{1e300,-1e300,std::numeric_limits<double>::max(),5.0,-7.0,0.0});
    case 4: return 1e6+c.src.real(0,1e-6);                                  // nearly equal
    default: return 3.5;                                                    // constant
    }
}
struct Member { unsigned id; double J; vector<double> genes; };

// fitness, probabilities and extreme members of a population
static void checkPopulation(Ctx& c, const EAPopulation& p, const vector<Member>& m){
    c.eq((size_t)p.getSize(),m.size(),"population size");
    std::set<unsigned> ids; for(size_t i=0;i<m.size();i++){ unsigned id=p.getIdOftheIndividual((unsigned)i); ids.insert(id); }
    c.eq(ids.size(),m.size(),"identities are not unique");
    for(auto& x: m){ c.require(ids.count(x.id)==1,"member lost"); EAIndividual q=p.getIndividual(x.id); c.eq(q.getObjectiveFunctionValue(),x.J,"objective value of a member"); c.require(S(q.getGenes())==x.genes,"genes of a member"); }
    if(m.empty()) return;
    double lo=m[0].J, hi=m[0].J; for(auto& x: m){ lo=std::min(lo,x.J); hi=std::max(hi,x.J); }
    EAIndividual b=p.getTheBestIndividual(), w=p.getTheWorstIndividual();
    c.eq(b.getObjectiveFunctionValue(),lo,"best member"); c.eq(w.getObjectiveFunctionValue(),hi,"worst member");
    c.require(ids.count(b.getId())&&ids.count(w.getId()),"best or worst member is no member");
    c.require(!p.hasRepeatedIDs(),"repeated ids reported");
}
static void checkProperties(Ctx& c, const EAPopulation& p, const vector<Member>& m){
    double lo=m[0].J, hi=m[0].J; for(auto& x: m){ lo=std::min(lo,x.J); hi=std::max(hi,x.J); }
    size_t n=m.size(); vector<double> fit(n), rep(n), death(n); double sum=0, sr=0, sd=0;
    for(size_t i=0;i<n;i++){ EAIndividual q=p.getIndividual(m[i].id); fit[i]=q.getFitnessValue(); rep[i]=q.getReproductionProbability(); death[i]=q.getDeathProbability(); sum+=fit[i]; sr+=rep[i]; sd+=death[i]; }
    for(size_t i=0;i<n;i++){
        c.require(fit[i]>0&&fit[i]<=1+1e-12,"fitness out of (0,1]",fmt("%.17g",fit[i]));
        if(m[i].J==lo) c.near(fit[i],1,1e-9,0,"fitness of the best member");
        for(size_t j=0;j<n;j++) if(m[i].J<m[j].J) c.require(fit[i]>=fit[j]-1e-9,"a better member has a smaller fitness",fmt("J %.17g %.17g fitness %.17g %.17g",m[i].J,m[j].J,fit[i],fit[j]));
        if(hi>lo&&m[i].J==hi) c.near(fit[i],0.01,1e-6,0,"fitness of the worst member");
        if(hi>lo){ long double t=((long double)hi-m[i].J)/((long double)hi-lo); double want=(double)(0.01L+0.99L*t*t); double rel=std::max(fabs(lo),fabs(hi))/(double)((long double)hi-lo); c.near(fit[i],want,1e-9,1e-15*rel+1e-12,"quadratic fitness"); }
        c.near(rep[i],fit[i]/sum,1e-9,0,"reproduction probability"); }
    c.near(sr,1,1e-9,0,"sum of reproduction probabilities"); c.near(sd,1,1e-9,0,"sum of death probabilities"); c.near(p.calculateSumOfDeathProbabilities(),1,1e-9,0,"sum of death probabilities");
    vector<double> s=fit; std::sort(s.begin(),s.end()); double ix=0.9*(n-1); size_t l=(size_t)floor(ix); double q= l+1<n ? s[l]*(1-(ix-l))+s[l+1]*(ix-l) : s[l];
    unsigned bestId=p.getTheBestIndividual().getId(); double total=0; bool border=false; for(size_t i=0;i<n;i++){ if(fabs(fit[i]-q)<1e-12&&fit[i]!=q) border=true; if(fit[i]<=q&&m[i].id!=bestId) total+=1/fit[i]; }
    if(!border) for(size_t i=0;i<n;i++) c.near(death[i],fit[i]>q||m[i].id==bestId?0:1/fit[i]/total,1e-9,1e-12,"death probability");
    // among the members with the best value at least one survives a selection
    int nbest=0, mortal=0; for(size_t i=0;i<n;i++) if(m[i].J==lo){ nbest++; if(death[i]>0) mortal++; }
    c.require(mortal<nbest,"all best members can be removed by selection");
}

// ---------------------------------------------------------------- E02
static void e02pop(Ctx& c){
    burn(c); int d=(int)c.src.range(1,4); EAPopulation p; p.setDimension(d); vector<Member> m; unsigned next=1; int kind=(int)c.src.below(6); int ops=(int)c.src.range(1,c.san?25:60); int added=0,removed=0;
    auto make=[&]{ Member x; x.id=next++; x.J=genJ(c,kind); for(int k=0;k<d;k++) x.genes.push_back(c.src.number()); return x; };
    auto ind=[&](const Member& x){ EAIndividual q(d); q.setId(x.id); q.initializeGenes(V(x.genes)); q.setObjectiveFunctionValue(x.J); return q; };
    for(int o=0;o<ops;o++){
        int op=(int)c.src.below(12); c.desc()<<" "<<op;
        if(op<=3||m.empty()){ Member x=make(); p.addIndividual(ind(x)); m.push_back(x); added++; c.desc()<<"(J="<<x.J<<")"; }
        else if(op==4){ vector<EAIndividual> g; int n=(int)c.src.range(0,6); for(int i=0;i<n;i++){ Member x=make(); g.push_back(ind(x)); m.push_back(x); added++; c.desc()<<"(J="<<x.J<<")"; } p.addAGroupOfIndividuals(g); }
        else if(op==5){ unsigned order=(unsigned)c.src.below(m.size()); unsigned id=p.getIndividualIdInPopulationByOrder(order); c.eq(p.getIdOftheIndividual(order),id,"id by order"); c.eq(p.getIndividualOrderInPopulationById(id),(int)order,"order by id"); p.removeIndividual(order); size_t before=m.size(); m.erase(std::remove_if(m.begin(),m.end(),[&](const Member& x){return x.id==id;}),m.end()); c.eq(m.size()+1,before,"unknown id in population"); removed++; }
        else if(op==6){ size_t k=c.src.below(m.size()); unsigned id=m[k].id; p.removeIndividualById(id); m.erase(m.begin()+k); removed++; c.eq(p.getIndividualOrderInPopulationById(id),-1,"removed id still found"); }
        else if(op==7&&m.size()>=2){ p.updatePopulationProperties(); checkProperties(c,p,m); c.label("properties"); c.nontrivial(); }
        else if(op==8&&m.size()>=2){ p.updatePopulationProperties(); EAIndividual q=p.pickUpAnIndividualThatWillDie(); auto it=std::find_if(m.begin(),m.end(),[&](const Member& x){return x.id==q.getId();}); c.require(it!=m.end(),"selected victim is no member"); double lo=1e400; int n=0; for(auto& x: m){ if(x.J<lo){ lo=x.J; n=0; } if(x.J==lo) n++; } c.require(it->J>lo||n>1,"the best member was selected for removal"); p.removeIndividualById(q.getId()); m.erase(it); removed++; c.label("selection death"); }
        else if(op==9&&m.size()>=2){ p.updatePopulationProperties(); auto pr=p.generateRandomParents(); c.require(pr.first.getId()!=pr.second.getId(),"parents are the same individual"); for(auto* q: {&pr.first,&pr.second}){ auto it=std::find_if(m.begin(),m.end(),[&](const Member& x){return x.id==q->getId();}); c.require(it!=m.end()&&it->genes==S(q->getGenes())&&it->J==q->getObjectiveFunctionValue(),"parent is no member"); } c.label("parents"); }
        else if(op==10&&m.size()>=2){ p.updatePopulationProperties(); string f=c.dir+"/population.csv"; p.writeToCSV(f); EAPopulation q; q.setDimension(d); int junk=(int)c.src.below(3); for(int i=0;i<junk;i++){ Member x=make(); x.J=genJ(c,(int)c.src.below(6)); q.addIndividual(ind(x)); } q.readFromCSV(f); checkPopulation(c,q,m); for(auto& x: m){ EAIndividual a=p.getIndividual(x.id), b=q.getIndividual(x.id); c.near(b.getFitnessValue(),a.getFitnessValue(),1e-8,0,"fitness after reading"); c.near(b.getReproductionProbability(),a.getReproductionProbability(),1e-8,0,"reproduction probability after reading"); c.near(b.getDeathProbability(),a.getDeathProbability(),1e-8,0,"death probability after reading"); } q.updatePopulationProperties(); checkProperties(c,q,m); if(c.src.chance(0.5)) p=q; unlink(f.c_str()); c.label("file"); }
        else if(op==11&&c.src.chance(0.15)){ p.reset(); m.clear(); kind=(int)c.src.below(6); c.label("reset"); }
        checkPopulation(c,p,m);
    }
    if(c.src.chance(0.2)){ EAIndividual bad(d+1); c.require(c.throws([&]{p.addIndividual(bad);}),"individual of wrong dimension accepted"); c.require(c.throws([&]{p.removeIndividual((unsigned)m.size());}),"removal of a missing member accepted"); c.require(c.throws([&]{p.removeIndividualById(next+5);}),"removal of an unknown id accepted"); EAIndividual x(d); c.require(c.throws([&]{x.initializeGenes(V(vector<double>(d+1)));}),"genes of wrong size accepted"); c.require(c.throws([&]{x.setDeathProbabilityValue(1.1);})&&c.throws([&]{x.setDeathProbabilityValue(-0.1);})&&c.throws([&]{x.setReproductionProbabilityValue(0);})&&c.throws([&]{x.setReproductionProbabilityValue(1.5);}),"invalid probability accepted"); x.initializeRandom(); for(double g: S(x.getGenes())) c.require(g>=0&&g<1,"random gene out of [0,1)"); c.require(c.throws([&]{p.readFromCSV(c.dir+"/none.csv");}),"missing population file accepted"); EAPopulation e; e.setDimension(d); c.require(c.throws([&]{e.updatePopulationProperties();}),"empty population accepted"); checkPopulation(c,p,m); c.label("errors"); }
}
static Reg r1({"E02","population",e02pop,12000,300000,1,30,"sequences of 1..60 insertions, removals, selections, property updates, resets and file round trips on a population (objective values with ties, negative, huge, nearly equal, constant) against a list of members; non-trivial: properties computed at least once",150});
static void e02sel(Ctx& c){
    burn(c); int n=(int)c.src.range(2,12), kind=(int)c.src.below(6); EAPopulation p; p.setDimension(1); vector<Member> m; for(int i=0;i<n;i++){ Member x; x.id=(unsigned)(i+1)*7; x.J=genJ(c,kind); x.genes={(double)i}; EAIndividual q(1); q.setId(x.id); q.initializeGenes(V(x.genes)); q.setObjectiveFunctionValue(x.J); p.addIndividual(q); m.push_back(x); c.desc()<<x.J<<" "; } p.updatePopulationProperties(); checkProperties(c,p,m); c.nontrivial();
    const int N=3000; std::map<unsigned,int> rep,death; for(int t=0;t<N;t++){ rep[p.pickUpARandomIndividualForReproduction().getId()]++; death[p.pickUpAnIndividualThatWillDie().getId()]++; }
    for(auto& x: m){ EAIndividual q=p.getIndividual(x.id); auto chk=[&](int k,double pr,const char* what){ double sd=sqrt(N*pr*(1-pr)); c.require(fabs(k-N*pr)<=7*sd+8,what,fmt("selected %d of %d times with probability %.6g",k,N,pr)); if(pr==0) c.eq(k,0,what); }; chk(rep[x.id],q.getReproductionProbability(),"frequency of reproduction"); chk(death[x.id],q.getDeathProbability(),"frequency of death"); } }
static Reg r2({"E02","selection",e02sel,1500,30000,1,30,"3000 selections for reproduction and for death from random populations of 2..12 members: frequencies within 7 standard deviations of the stated probabilities, probability zero never selected; always non-trivial",20});

// ---------------------------------------------------------------- E01
struct Obj { int way=0; int kind, d; vector<double> lo,hi,a; double scale=1;
    double operator()(const vector<double>& x) const { double s=0; for(int k=0;k<d;k++){ double t=(x[k]-lo[k])/(hi[k]-lo[k]); switch(kind){
        case 0: s+=(t-a[k])*(t-a[k]); break; case 1: s+=t; break; case 2: s-=t; break; case 3: s+=sin(12*t+a[k]); break; case 4: s+=floor(4*t); break; case 5: s+= t<a[k] ? 1e3 : t; break; case 6: return 0.0; case 7: return -4.5; case 8: s+=exp(30*t); break; case 9: if(t<0.5) return std::numeric_limits<double>::max(); s+=t; break; default: s-=fabs(t-a[k])*1e-9; } } return scale*s-(kind==10?5:0); } };
static Obj* gObj=nullptr; static vector<vector<double>> gX; static vector<double> gJ;
static double objFn(double* x){ vector<double> v(x,x+gObj->d); double j=(*gObj)(v); gX.push_back(v); gJ.push_back(j); return j; }
struct SubEA : EAOptimizer { double calculateObjectiveFunctionInternal(const vec& x) override { auto v=S(x); double j=(*gObj)(v); gX.push_back(v); gJ.push_back(j); return j; } };
struct Setting { int init,nw,deaths,gens,maxe; double mut; };
static Setting genSetting(Ctx& c){ Setting s; s.init=(int)c.src.range(2,30); s.nw=(int)c.src.range(1,30); s.deaths=c.src.chance(0.5)?(int)c.src.range(0,s.nw):s.nw; s.gens=(int)c.src.range(1,8); s.maxe=(int)c.src.range(1,300); s.mut=c.src.pick(vector<double>{0.1,0.01,0.5,0.9}); return s; }
static void apply(EAOptimizer& o,const Obj& f,const Setting& s,bool ptr){ o.setDimension(f.d); bool same=true; for(int k=0;k<f.d;k++) if(f.lo[k]!=f.lo[0]||f.hi[k]!=f.hi[0]) same=false; if(f.way==1&&same) o.setBounds(f.lo[0],f.hi[0]); else if(f.way==2) o.setBounds(f.lo,f.hi); else o.setBounds(V(f.lo),V(f.hi)); if(ptr) o.setObjectiveFunction(objFn); o.setInitialPopulationSize(s.init); o.setNumberOfNewIndividualsInAGeneration(s.nw); o.setNumberOfDeathsInAGeneration(s.deaths); o.setNumberOfGenerations(s.gens); o.setMaximumNumberOfGeneratedIndividuals(s.maxe); o.setMutationProbability(s.mut); }
static Obj genObj(Ctx& c){ Obj f; f.way=(int)c.src.below(3); bool equal=f.way==1&&c.src.chance(0.7); f.d=(int)c.src.range(1,4); f.kind=(int)c.src.below(11); f.scale=c.src.pick(vector<double>{1,1e-3,1e6}); for(int k=0;k<f.d;k++){ int q=(int)c.src.below(4); double l= q==0?0:q==1?-(double)c.src.range(0,20):c.src.real(-1000,1000); double w= q<2?(double)c.src.range(1,10):c.src.logreal(1e-3,1e3); f.lo.push_back(l); f.hi.push_back(l+w); f.a.push_back(c.src.real(0,1)); if(equal&&k){ f.lo[k]=f.lo[0]; f.hi[k]=f.hi[0]; } } return f; }
static void describe(Ctx& c,const Obj& f,const Setting& s){ c.desc()<<"objective "<<f.kind<<" scale "<<f.scale<<" lo="<<str(f.lo)<<" hi="<<str(f.hi)<<" initial="<<s.init<<" new="<<s.nw<<" deaths="<<s.deaths<<" generations="<<s.gens<<" max="<<s.maxe<<" mutation="<<s.mut; }
static void inBounds(Ctx& c,const Obj& f){ for(auto& x: gX) for(int k=0;k<f.d;k++) c.require(x[k]>=f.lo[k]&&x[k]<=f.hi[k],"evaluation outside the bounds",fmt("parameter %d value %.17g",k,x[k])); }
static void bestOk(Ctx& c,EAOptimizer& o,double known=INFINITY){ double lo=known; for(double j: gJ) lo=std::min(lo,j); c.eq(o.getBestObjectiveFunctionValue(),lo,"best value"); auto b=S(o.getBestDesignVector()); c.eq((*gObj)(b),lo,"value of the best design"); EAIndividual q=o.getSolution(); c.eq(q.getObjectiveFunctionValue(),lo,"solution value"); c.require(S(q.getGenes())==b,"solution design"); if(known==INFINITY||lo<known) c.require(std::find(gX.begin(),gX.end(),b)!=gX.end(),"best design was never evaluated"); }
static void e01(Ctx& c){
    burn(c); Obj f=genObj(c); gObj=&f; gX.clear(); gJ.clear(); Setting s=genSetting(c); describe(c,f,s); bool ptr=c.src.chance(0.5); c.labelIf(ptr,"function pointer"); c.label(fmt("objective%d",f.kind)); SubEA o; apply(o,f,s,ptr);
    int mode=(int)c.src.below(3); string file=c.dir+"/warm.csv", hist=c.dir+"/history.csv";
    if(mode==0){ c.label("stepwise"); o.initializePopulation(); c.eq(gX.size(),(size_t)s.init,"evaluations of the initial population"); bestOk(c,o); double last=o.getBestObjectiveFunctionValue(); for(int g=0;g<s.gens;g++){ o.generateANewGeneration(); c.eq(gX.size(),(size_t)(s.init+(g+1)*s.nw),"evaluations in a generation"); c.eq((int)o.getPopulationSize(),s.init+(g+1)*(s.nw-s.deaths),"population size"); double b=o.getBestObjectiveFunctionValue(); c.require(b<=last,"best value got worse"); last=b; bestOk(c,o); c.nontrivial(); } inBounds(c,f); return; }
    int runs=(int)c.src.range(1,2); for(int r=0;r<runs;r++){ gX.clear(); gJ.clear(); o.optimize(); int g=1; while(g<s.gens&&s.init+g*s.nw<s.maxe) g++; c.eq(gX.size(),(size_t)(s.init+g*s.nw),"number of evaluations",fmt("%d generations expected",g)); c.eq((int)o.getPopulationSize(),s.init+g*(s.nw-s.deaths),"population size"); inBounds(c,f); bestOk(c,o); }
    c.nontrivial(); c.labelIf(runs>1,"optimized twice");
    o.writeHistoryPopulationToCSV(hist); if(runs==1){ Rows h=readCsv(hist,true); c.eq(h.size(),gX.size(),"rows of the history"); std::set<double> ids; for(size_t i=0;i<h.size();i++){ c.eq((int)h[i].size(),5+f.d,"columns of the history"); ids.insert(h[i][0]); c.near(h[i][1],gJ[i],1e-8,0,"value in the history"); for(int k=0;k<f.d;k++) c.near(h[i][5+k],gX[i][k],1e-8,0,"parameter in the history"); } c.eq(ids.size(),h.size(),"ids in the history are not unique"); }
    if(mode==2){ c.label("warm restart"); o.setFilenameWarmStart(file); o.writeWarmRestartFile(); double known=o.getBestObjectiveFunctionValue(); int n=(int)o.getPopulationSize(); int steps=(int)c.src.range(1,2); for(int t=0;t<steps;t++){ gX.clear(); gJ.clear(); Setting s2=genSetting(c); s2.deaths=std::min(s2.deaths,s2.nw); SubEA w; apply(w,f,s2,ptr); w.setFilenameWarmStart(file); w.setWarmStartOn(); if(c.src.chance(0.15)){ w.setWarmStartOff(); w.optimize(); int h=1; while(h<s2.gens&&s2.init+h*s2.nw<s2.maxe) h++; c.eq(gX.size(),(size_t)(s2.init+h*s2.nw),"evaluations without a warm restart"); c.eq((int)w.getPopulationSize(),s2.init+h*(s2.nw-s2.deaths),"population size without a warm restart"); bestOk(c,w); inBounds(c,f); c.label("restart switched off"); gX.clear(); gJ.clear(); w.setWarmStartOn(); } w.optimize(); int g=1; while(g<s2.gens&&g*s2.nw<s2.maxe) g++; c.eq(gX.size(),(size_t)(g*s2.nw),"evaluations after a warm restart"); n+=g*(s2.nw-s2.deaths); c.eq((int)w.getPopulationSize(),n,"population size after a warm restart"); inBounds(c,f); c.require(w.getBestObjectiveFunctionValue()<=known,"warm restart lost the best point"); bestOk(c,w,known); known=w.getBestObjectiveFunctionValue(); auto b=S(w.getBestDesignVector()); for(int k=0;k<f.d;k++) c.require(b[k]>=f.lo[k]&&b[k]<=f.hi[k],"best design outside the bounds after a warm restart"); w.writeWarmRestartFile(); Rows rows=readCsv(file,true); std::set<double> ids; for(auto& q: rows) ids.insert(q[0]); c.eq(rows.size(),(size_t)n,"rows of the restart file"); c.eq(ids.size(),rows.size(),"ids are not unique after a warm restart"); } }
}
static Reg r3({"E01","optimize",e01,10000,250000,1,60,"evolutionary optimizations (1..4 parameters; smooth, linear, multi-modal, step, penalised, constant, zero, huge objectives; random population sizes, deaths, generations, budgets, mutation), run as a whole, twice, generation by generation, and with warm restarts; every evaluation recorded; non-trivial: at least one generation",150});
static void e01ops(Ctx& c){
    burn(c); Obj f=genObj(c); gObj=&f; gX.clear(); gJ.clear(); Setting s=genSetting(c); describe(c,f,s); SubEA o;
    if(c.src.chance(0.3)){ c.label("settings"); c.nontrivial(); Setting t=s; int k=(int)c.src.below(8); c.require(c.throws([&]{o.setMutationProbability(0);})&&c.throws([&]{o.setMutationProbability(1);})&&c.throws([&]{o.setMaximumNumberOfGeneratedIndividuals(0);}),"invalid setting accepted"); c.require(c.throws([&]{o.setBounds(0,1);}),"bounds without dimension accepted"); c.require(c.throws([&]{o.setObjectiveFunction(nullptr);}),"null objective accepted");
        if(k==0){ o.setDimension(f.d); o.setObjectiveFunction(objFn); o.setInitialPopulationSize(s.init); o.setNumberOfNewIndividualsInAGeneration(s.nw); o.setNumberOfGenerations(s.gens); o.setMaximumNumberOfGeneratedIndividuals(10); o.setMutationProbability(0.1); c.require(c.throws([&]{o.optimize();}),"optimization without bounds"); c.require(c.throws([&]{o.initializePopulation();})&&c.throws([&]{o.generateRandomIndividual();}),"population without bounds"); }
        else { if(k==1) t.init=0; if(k==2) t.nw=0; if(k==3) t.gens=0; if(k==4) t.deaths=t.init+t.nw+(int)c.src.below(3); apply(o,f,t,true); if(k==5) o.setWarmStartOn(); if(k<=5) c.require(c.throws([&]{o.optimize();}),"invalid setting accepted by optimize",fmt("kind %d",k)); if(k==6){ o.setFilenameWarmStart(c.dir+"/none.csv"); o.setWarmStartOn(); c.require(c.throws([&]{o.optimize();}),"missing restart file accepted"); } if(k==7) c.require(c.throws([&]{o.setBounds(V(vector<double>(f.d+1,0)),V(vector<double>(f.d+1,1)));})&&c.throws([&]{o.setBounds(V(f.hi),V(f.lo));})&&c.throws([&]{o.setBounds(vector<double>(f.d,0.0),vector<double>(f.d+1,1.0));}),"invalid bounds accepted"); { SubEA w; Obj h=f; h.way=1+(int)c.src.below(2); int q=(int)c.src.below(f.d); if(h.way==1) for(int i=0;i<f.d;i++){ h.lo[i]=f.hi[0]; h.hi[i]=f.lo[0]; } else std::swap(h.lo[q],h.hi[q]); c.require(c.throws([&]{ apply(w,h,s,true); w.optimize(); }),"inverted bounds accepted"); } c.eq(gX.size(),(size_t)0,"objective called with invalid settings"); } return; }
    s.mut=c.src.pick(vector<double>{0.05,0.3,0.8}); apply(o,f,s,true);
    auto mk=[&](unsigned id){ EAIndividual q(f.d); vector<double> g(f.d); for(int k=0;k<f.d;k++) g[k]=c.src.real(f.lo[k],f.hi[k]); q.initializeGenes(V(g)); q.setId(id); return q; }; EAIndividual a=mk(1),b=mk(2); if(c.src.chance(0.2)) b.setGenes(a.getGenes()); c.nontrivial();
    c.require(c.throws([&]{o.crossOver({a,a});}),"parents with the same id accepted");
    // mutation: frequency, range, other genes unchanged
    const int N=1500; auto ga=S(a.getGenes()), gb=S(b.getGenes()); int mutated=0; for(int t=0;t<N;t++){ vec g=a.getGenes(); o.applyMutation(g); for(int k=0;k<f.d;k++){ c.require(g(k)>=f.lo[k]&&g(k)<=f.hi[k],"mutated gene outside the bounds"); if(g(k)!=ga[k]) mutated++; } } double sd=sqrt(N*f.d*s.mut*(1-s.mut)); c.require(fabs(mutated-N*f.d*s.mut)<=7*sd+5,"frequency of mutations",fmt("%d of %d with probability %g",mutated,N*f.d,s.mut));
    // cross over without mutation: around the middle of the parents, spread a sixth of their distance
    o.setMutationProbability(1e-9); vector<double> m1(f.d,0),m2(f.d,0); for(int t=0;t<N;t++){ auto x=S(o.crossOver({a,b})); c.eq((int)x.size(),f.d,"genes of a child"); for(int k=0;k<f.d;k++){ c.require(x[k]>=f.lo[k]&&x[k]<=f.hi[k],"child outside the bounds"); double mid=(ga[k]+gb[k])/2; m1[k]+=x[k]-mid; m2[k]+=(x[k]-mid)*(x[k]-mid); } } for(int k=0;k<f.d;k++){ double w=fabs(ga[k]-gb[k])/6, mid=(ga[k]+gb[k])/2; if(w==0||mid-4.5*w<f.lo[k]||mid+4.5*w>f.hi[k]) continue; c.require(fabs(m1[k]/N)<=7*w/sqrt(N),"children are not centred between their parents"); c.near(sqrt(m2[k]/N),w,0.2,0,"spread of children"); c.label("crossover statistics"); }
    c.require(S(a.getGenes())==ga&&S(b.getGenes())==gb,"crossing changed the parents"); EAIndividual r=o.generateRandomIndividual(); inBounds(c,f); c.eq(gX.size(),(size_t)1,"evaluations of a random individual"); c.require(S(r.getGenes())==gX[0]&&r.getObjectiveFunctionValue()==gJ[0],"random individual"); EAIndividual q=o.generateIndividualByReproduction({a,b}); EAIndividual q2=o.generateIndividualByReproduction({a,b}); c.require(q.getId()!=q2.getId()&&q.getId()!=r.getId()&&q2.getId()!=r.getId(),"ids are not unique"); }
static Reg r4({"E01","operators",e01ops,4000,80000,1,60,"mutation frequency and range, crossing statistics, ids, and rejection of invalid settings; always non-trivial",40});
