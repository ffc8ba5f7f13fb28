// T01, T02 and the design-of-experiments part of O01, O03, O09: the library interface.
#include "opt.hpp"
#include "API/INCLUDE/rodeoapi.h"
#include "API/INCLUDE/rodeo.h"
#include <filesystem>
#include <regex>
#include <unistd.h>
using namespace pbt; using namespace Rodop; using std::vector; using std::string; using namespace opt;
namespace fs=std::filesystem;
static string number(Ctx& c,double v){ static const char* f[]={"%.17g","%.17e","%+.17g","%.17G","%.6f","%g"}; return fmt(f[c.src.below(6)],v); }
static string ws(Ctx& c,int lo){ static const char* w[]={" ","  ","\t"," \n ","\r\n","   \t "}; string s; int n=(int)c.src.range(lo,lo+1); for(int i=0;i<n;i++) s+=w[c.src.below(6)]; return s; }
struct Study { Prob p; int n=0, N=0; bool doe=false, lhs=false, fileSet=false; string work; Rows samples; bool expThrow=false, shared=false, stale=false; int ptr(int fn) const { return shared&&fn==2?1:fn; } };   // shared: both constraints use the same function
static Prob apiProblem(Ctx& c,bool doe){ GenOpt g; bool wide=c.src.chance(0.04); g.dmax=wide?7:c.src.chance(0.6)?1:3; g.missing=false; g.maxN=2; Prob p=generate(c,g); if(p.con.size()>2&&!wide) p.con.resize(2); p.names.clear(); p.universal=false; for(auto& k: p.con) k.universal=false; return p; }
// one randomly ordered definition of the problem; calls that must fail are mixed in
static string expression(Ctx& c); struct Parsed; static bool surelyInvalid(const string& s);
static void rejectExpression(Ctx& c,RobustDesignOptimizerAPI& o,int nc){ string e; for(int t=0;t<30;t++){ e=expression(c); if(surelyInvalid(e)) break; e="g < 1 x"; } c.desc()<<"rejected '"<<e<<"' "; c.label("rejected expression"); c.require(c.throws([&]{ o.addConstraint(fnPtr((int)c.src.range(1,4)),e,"rejected.csv"); }),"invalid expression accepted",e); (void)nc; }
static void define(Ctx& c,RobustDesignOptimizerAPI& o,Study& s,int junk,unsigned omit=0){
    Prob& p=s.p; int d=p.d, nc=(int)p.con.size(); vector<double> lo=p.lo,hi=p.hi,other(d,-7),other2(d,9);
    auto fails=[&](const char* what,std::function<void()> f){ c.require(c.throws(f),string("accepted: ")+what); c.label("rejected call"); };
    if(junk){ double l=0,u=1; if(c.src.chance(0.5)) fails("box without dimension",[&]{ o.setBoxConstraints(&l,&u); }); if(c.src.chance(0.5)) fails("objective without dimension",[&]{ o.setObjectiveFunction(fnPtr(0),"f","f.csv"); }); if(c.src.chance(0.5)) fails("constraint without dimension",[&]{ o.addConstraint(fnPtr(1),"g < 1","g.csv"); }); }
    if(!(omit&1)){ if(c.src.chance(0.15)){ o.setDimension(d+1+(int)c.src.below(2)); c.label("dimension set twice"); } o.setDimension(d); }
    vector<std::function<void()>> todo; bool dim=!(omit&1);
    if(dim&&!(omit&2)) todo.push_back([&]{ o.setObjectiveFunction(fnPtr(0),p.objName,"early.csv"); o.setNameOfTrainingDataFile(p.objName+".csv"); c.label("file name set later"); });
    if(dim&&!(omit&2)&&!c.src.chance(0.3)) todo.back()=[&]{ o.setObjectiveFunction(fnPtr(0),p.objName,p.objName+".csv"); };
    if(dim&&!(omit&4)) todo.push_back([&]{ if(c.src.chance(0.2)){ o.setBoxConstraints(other.data(),other2.data()); c.label("box set twice"); } o.setBoxConstraints(lo.data(),hi.data()); });
    if(dim&&nc) todo.push_back([&]{ for(int j=0;j<nc;j++){ if(junk==2&&c.src.chance(0.6)) rejectExpression(c,o,nc); auto& k=p.con[j]; string num=number(c,k.thr); k.thr=std::strtod(num.c_str(),nullptr); o.addConstraint(fnPtr(s.ptr(j+1)),ws(c,0)+k.name+ws(c,1)+string(1,k.dir)+ws(c,1)+num+ws(c,0),k.name+".csv"); } if(junk==2&&c.src.chance(0.4)) rejectExpression(c,o,nc); });
    if(!(omit&8)) todo.push_back([&]{ if(c.src.chance(0.2)) o.setMaxNumberOfFunctionEvaluations(77); o.setMaxNumberOfFunctionEvaluations(s.N); });
    if(!(omit&16)) todo.push_back([&]{ o.setCurrentWorkingDirectory(c.src.chance(0.5)?"work":s.work); });
    if(s.doe){ todo.push_back([&]{ if(c.src.chance(0.2)) o.setDoEOn(50); o.setDoEOn((omit&32)?0:s.n); }); todo.push_back([&]{ if(s.lhs) o.setDoEStrategy(c.src.pick(vector<string>{"lhs","LHS","Lhs"})); else if(c.src.chance(0.7)) o.setDoEStrategy(c.src.pick(vector<string>{"random","Random","RANDOM"})); }); }
    if(c.src.chance(0.5)) todo.push_back([&]{ o.setName("My study"); });
    if(junk==1) for(int t=(int)c.src.range(1,4);t>0;t--) todo.push_back([&]{ double l[16]={0},u[16]; for(double& q: u) q=1; switch(c.src.below(11)){
        case 0: fails("empty name",[&]{ o.setName(""); }); break; case 1: fails("missing directory",[&]{ o.setCurrentWorkingDirectory("nowhere"); }); break; case 2: fails("empty directory",[&]{ o.setCurrentWorkingDirectory(""); }); break;
        case 3: fails("unknown strategy",[&]{ o.setDoEStrategy(c.src.pick(vector<string>{"","sobol","rand","lhs ","latin"})); }); break;
        case 4: if(dim){ static vector<double> bl,bu; bl=p.lo; bu=p.hi; int k=(int)c.src.below(d); switch(c.src.below(4)){ case 0: std::swap(bl[k],bu[k]); break; case 1: bu[k]=bl[k]; break; case 2: bl[k]=NAN; break; default: bu[k]=NAN; } bool had=!(omit&4); fails("invalid box",[&]{ o.setBoxConstraints(bl.data(),bu.data()); }); if(had) o.setBoxConstraints(lo.data(),hi.data()); } break;
        case 5: if(dim) fails("null objective",[&]{ o.setObjectiveFunction(nullptr,"f","f.csv"); }); break; case 6: if(dim) fails("objective without name",[&]{ o.setObjectiveFunction(fnPtr(0),"","f.csv"); }); break; case 7: if(dim) fails("objective without file",[&]{ o.setObjectiveFunction(fnPtr(0),"f",""); }); break;
        case 8: if(dim) fails("null constraint",[&]{ o.addConstraint(nullptr,"g < 1","g.csv"); }); break; case 9: if(dim) fails("constraint without file",[&]{ o.addConstraint(fnPtr(1),"g < 1",""); }); break;
        default: if(dim){ string e=c.src.pick(vector<string>{"","g","g <","< 1","g = 1","g <= 1","g < one","g < 1 x","g < 1x","g < > 1","g < 1 < 2","g > 1e999","g < 0x10"}); fails(("constraint '"+e+"'").c_str(),[&]{ o.addConstraint(fnPtr(1),e,"g.csv"); }); } } (void)l; (void)u; });
    auto pm=c.src.permutation((int)todo.size()); for(int i: pm) todo[i]();
}
static Study study(Ctx& c){ Study s; s.doe=c.src.chance(0.75); s.p=apiProblem(c,s.doe); s.n=s.doe?(int)c.src.range(3,8):s.p.n; s.N=(int)c.src.range(1,c.src.chance(0.2)?4:2); s.lhs=s.doe&&c.src.chance(0.5); s.work=fs::current_path().string()+"/work"; fs::create_directory("work"); if(s.p.con.size()==2&&c.src.chance(0.35)){ s.shared=true; Prob& p=s.p; auto& k=p.con[1]; k.f=p.con[0].f; vector<double> q(p.d); for(int i=0;i<p.d;i++) q[i]=p.lo[i]+c.src.unit()*(p.hi[i]-p.lo[i]); k.thr=k.f(q.data()); k.data=p.con[0].data; c.label("constraints on the same function"); } s.stale=c.src.chance(0.3); return s; }
static void start(Ctx& c,Study& s,bool withData){ P=&s.p; quiet(); resetLog(); s.p.N=s.N; fs::current_path("work"); if(s.stale){ c.label("files of an earlier study"); for(int j=-2;j<(int)s.p.con.size();j++){ std::ofstream f(j==-2?string("globalOptimalDesign.xml"):(j<0?s.p.objName:s.p.con[j].name)+".csv"); for(int i=0;i<4;i++){ for(int k=0;k<s.p.d;k++) f<<(k?",":"")<<s.p.lo[k]+(s.p.hi[k]-s.p.lo[k])*(i+1)/6.0; f<<","<<-1e3*i<<"\n"; } } std::ofstream("optimizationHistory.csv")<<"x,y\n1,2\n"; } if(withData) writeData(s.p); fs::current_path(".."); }
// runs the study; leaves the process in the working directory of the study
static Rows runStudy(Ctx& c,Study& s,int junk){
    static Study keep; keep=s; c.desc()<<(s.doe?(s.lhs?"LHS ":"random DoE "):"no DoE ")<<"n="<<s.n<<" "<<s.p.text(); c.saveDesc(); start(c,keep,!s.doe); RobustDesignOptimizerAPI* o=new RobustDesignOptimizerAPI; define(c,*o,keep,junk); s=keep; P=&keep.p; string what; bool threw=false; try { o->run(); } catch(const std::exception& e){ threw=true; what=e.what(); } fs::current_path(s.work); if(threw) c.fail("run failed",what);
    for(auto& e: fs::directory_iterator("..")){ string x=e.path().extension().string(); c.require(x!=".csv"&&x!=".xml","file outside the working directory",e.path().filename().string()); }
    vector<Call> cs=calls(); Rows all; for(auto& k: cs) if(k.fn==0) all.push_back(xs(k.x,s.p.d)); c.label(s.doe?(s.lhs?"LHS":"random DoE"):"existing data"); c.label("dimension "+std::to_string(s.p.d)); c.label(std::to_string(s.p.con.size())+" constraints"); return all; }
static void checkCounts(Ctx& c,const Study& s){ int n=s.doe?s.n:0; for(size_t j=0;j<=s.p.con.size();j++) c.eq((int)L->counts[j],s.shared&&j==1?2*(n+s.N):s.shared&&j==2?0:n+s.N,j?"evaluations of a constraint":"evaluations of the objective"); for(size_t j=s.p.con.size()+1;j<5;j++) c.eq((int)L->counts[j],0,"foreign function evaluated");
    // all functions see the same designs in the same order
    vector<Rows> per(s.p.con.size()+1); for(auto& k: calls()) per[k.fn].push_back(xs(k.x,s.p.d)); for(size_t j=1;j<per.size();j++){ if(s.shared){ if(j==2) break; Rows w=per[0]; w.insert(w.end(),per[0].begin(),per[0].end()); std::sort(w.begin(),w.end()); std::sort(per[1].begin(),per[1].end()); c.require(per[1]==w,"functions evaluated at different designs"); } else c.require(per[j]==per[0],"functions evaluated at different designs"); } }
static void checkBox(Ctx& c,const Study& s,const Rows& all){ for(size_t i=0;i<all.size();i++) for(int k=0;k<s.p.d;k++){ double w=s.p.hi[k]-s.p.lo[k], t=1e-12*w+4e-16*std::max(fabs(s.p.lo[k]),fabs(s.p.hi[k])); c.require(all[i][k]>=s.p.lo[k]-t&&all[i][k]<=s.p.hi[k]+t,"design outside the box",fmt("%.17g not in [%.17g,%.17g]",all[i][k],s.p.lo[k],s.p.hi[k])); }
    if(s.lhs) for(int k=0;k<s.p.d;k++){ vector<int> seen(s.n,0); double w=(s.p.hi[k]-s.p.lo[k])/s.n; for(int i=0;i<s.n;i++){ double t=(all[i][k]-s.p.lo[k])/w; int q=(int)floor(t); if(fabs(t-std::round(t))<1e-6) return; c.require(q>=0&&q<s.n&&!seen[q]++,"Latin hypercube has two samples in one slice"); } } }
static Rows valuesOf(const Study& s,int fn){ Rows r; if(s.shared&&fn){ for(auto& k: calls()) if(k.fn==0){ auto q=xs(k.x,s.p.d); q.push_back(s.p.con[fn-1].f(q.data())); r.push_back(q); } return r; } for(auto& k: calls()) if(k.fn==fn){ auto q=xs(k.x,s.p.d); q.push_back(k.v); r.push_back(q); } return r; }
static bool nearRow(const vector<double>& a,const vector<double>& b,double t){ for(size_t k=0;k<a.size();k++) if(!(fabs(a[k]-b[k])<=t+1e-15*fabs(b[k]))) return false; return a.size()==b.size(); }
static void checkFiles(Ctx& c,const Study& s){ for(size_t j=0;j<=s.p.con.size();j++){ string f=(j?s.p.con[j-1].name:s.p.objName)+".csv"; Rows got=dataRows(f), want; if(!s.doe) want= j?s.p.con[j-1].data:s.p.rows(); auto ev=valuesOf(s,(int)j); int n=s.doe?s.n:0; for(size_t i=0;i<ev.size();i++){ bool dup=false, unsure=false; if((int)i>=n) for(auto& q: want){ double m=0; for(size_t k=0;k<q.size();k++) m=std::max(m,fabs(q[k]-ev[i][k])); if(fabs(m-1e-4)<1e-9) unsure=true; if(m<=1e-4) dup=true; } if(unsure) return; if(!dup) want.push_back(ev[i]); }
    c.eq(got.size(),want.size(),"rows in "+f); for(size_t i=0;i<want.size();i++) c.require(nearRow(got[i],want[i],5.1e-13),"stored sample differs from the evaluated one",f+fmt(" row %d: ",(int)i)+pbt::str(got[i])+" expected "+pbt::str(want[i])); } }
static void checkHistory(Ctx& c,const Study& s){ const Prob& p=s.p; bool ok; vector<string> hd; Rows h=readCsv("optimizationHistory.csv",true,&hd,&ok); c.require(ok,"history file"); Rows init=s.doe?Rows():p.rows(); vector<Rows> v; for(size_t j=0;j<=p.con.size();j++) v.push_back(valuesOf(s,(int)j)); if(s.doe) for(int i=0;i<s.n;i++) init.push_back(v[0][i]); size_t n=init.size(); c.eq(h.size(),n+s.N,"rows of the history"); int off=s.doe?0:-(int)n; bool any=false; double best=1e400; bool unsure=false;
    for(size_t i=0;i<h.size();i++){ vector<double> w= i<n?init[i]:v[0][i+off]; bool f=true; for(int k=0;k<p.d;k++) if(i<n&&!(w[k]>=p.lo[k]&&w[k]<=p.hi[k])) f=false; for(size_t j=0;j<p.con.size();j++){ double g=i<n&&!s.doe?p.con[j].f(w.data()):v[j+1][i+off].back(); if(fabs(g-p.con[j].thr)<1e-9*(1+fabs(g))) unsure=true; w.push_back(g); f=f&&p.con[j].ok(g); } c.eq(h[i].size(),w.size()+2,"columns of the history"); for(size_t k=0;k<w.size();k++) c.near(h[i][k],w[k],1e-15,5.001e-7,"value in the history"); if(!unsure) c.eq(h[i].back(),f?1.0:0.0,"feasibility in the history"); if(f&&(!any||w[p.d]<best)){ any=true; best=w[p.d]; } }
    if(!unsure){ string x=readFile("globalOptimalDesign.xml"); c.require((x.find("YES")!=string::npos)==any,"feasibility of the optimum",x); if(any){ auto a=x.find("<ObjectiveFunction>"); c.require(a!=string::npos,"optimum",x); c.near(atof(x.c_str()+a+19),best,1e-15,5.001e-7,"objective value of the optimum"); } } }
static void t01(Ctx& c){ Study s=study(c); Rows all=runStudy(c,s,c.src.chance(0.5)); checkCounts(c,s); checkBox(c,s,all); checkFiles(c,s); checkHistory(c,s); c.nontrivial(all.size()>=2); }
static Reg r1({"T01","study",t01,160,3000,1,120,"studies through the library interface: dimension 1..3, 0..2 constraints, designs of experiments (random or LHS) or existing data, settings in random order, repeated settings, rejected calls in between, another working directory, two constraints on the same function, files of an earlier study in the working directory; calls, files, history and optimum against the definition; non-trivial: at least 2 evaluations",3});
static void t01missing(Ctx& c){
    Study s=study(c); unsigned omit=0; int pick=(int)c.src.below(7); bool noData=false; if(pick==5&&!s.doe) pick=(int)c.src.below(5); if(pick==6){ if(s.doe) pick=2; else noData=true; } if(!noData) omit=1u<<pick; if(c.src.chance(0.2)) omit|=1u<<c.src.below(5); bool twice=!s.p.con.empty()&&c.src.chance(0.25); if(twice){ omit=0; noData=false; } bool junk=c.src.chance(0.5); c.desc()<<"omitted "<<omit<<(noData?" data file":"")<<" "<<s.p.text(); c.saveDesc(); s.stale=false; static Study keep; keep=s; start(c,keep,!s.doe&&!noData); if(noData&&!s.p.con.empty()&&c.src.chance(0.5)){ fs::current_path("work"); writeData(keep.p); fs::remove(c.src.chance(0.5)?keep.p.objName+".csv":keep.p.con[0].name+".csv"); fs::current_path(".."); }
    RobustDesignOptimizerAPI* o=new RobustDesignOptimizerAPI; define(c,*o,keep,junk,omit); bool threw=false; if(twice){ try { o->addConstraint(fnPtr((int)c.src.range(1,4)),ws(c,0)+keep.p.con[c.src.below(keep.p.con.size())].name+c.src.pick(vector<string>{" < "," > "})+number(c,c.src.number()),"twice.csv"); } catch(const std::exception&){ threw=true; } }
    if(!threw) try { o->run(); } catch(const std::exception&){ threw=true; } c.require(threw,twice?"run with a constraint name used twice":"run with a missing setting"); for(int j=0;j<5;j++) c.eq((int)L->counts[j],0,"evaluated although a setting is missing"); fs::current_path(keep.work); if(keep.doe) c.require(!fs::exists(keep.p.objName+".csv"),"data file written although a setting is missing"); c.label(twice?"constraint name used twice":noData?"data file missing":"omitted "+std::to_string(omit)); c.nontrivial(); }
static Reg r2({"T01","missing",t01missing,3000,40000,1,60,"the same definitions with one or two required settings left out (dimension, objective, box, number of evaluations, directory, number of samples, data file) or a constraint name used twice: an error before any evaluation; always non-trivial",60});
static Study doeStudy(Ctx& c){ Study s=study(c); s.doe=true; s.n=(int)c.src.range(2,8); s.lhs=c.src.chance(0.5); s.N=1; return s; }
static void o01doe(Ctx& c){ Study s=doeStudy(c); Rows all=runStudy(c,s,false); checkBox(c,s,all); c.nontrivial(); }
static Reg r3({"O01","doe",o01doe,60,1500,1,120,"random and Latin hypercube designs of experiments through the library interface followed by one iteration: designs in the box, one Latin hypercube sample per slice; always non-trivial",2});
static void o03doe(Ctx& c){ Study s=doeStudy(c); runStudy(c,s,false); checkCounts(c,s); checkFiles(c,s); c.nontrivial(!s.p.con.empty()); }
static Reg r4({"O03","doe",o03doe,60,1500,1,120,"designs of experiments through the library interface followed by one iteration: number of calls per function and stored samples; non-trivial: there is a constraint",2});
// ---------------------------------------------------------------- T02
struct Parsed { bool ok=false, sure=true; string name; char dir='<'; double v=0; };
static bool numeric(const string& s,double& v){ static const std::regex re("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?"); if(!std::regex_match(s,re)) return false; v=std::strtod(s.c_str(),nullptr); return std::isfinite(v); }
// parts separated by white space; forms without it may also be rejected
static Parsed reference(const string& s,bool needSpace){
    Parsed r; vector<string> t; string cur; for(char ch: s){ if(isspace((unsigned char)ch)){ if(!cur.empty()) t.push_back(cur); cur.clear(); } else cur+=ch; } if(!cur.empty()) t.push_back(cur);
    if(t.size()==3&&(t[1]=="<"||t[1]==">")&&t[0].find_first_of("<>")==string::npos&&numeric(t[2],r.v)){ r.ok=true; r.name=t[0]; r.dir=t[1][0]; return r; }
    // glued or with spaces inside: valid if there is exactly one operator between a name and a number
    size_t p=s.find_first_of("<>"); if(p!=string::npos&&s.find_first_of("<>",p+1)==string::npos){ auto strip=[](string q){ while(!q.empty()&&isspace((unsigned char)q[0])) q.erase(0,1); while(!q.empty()&&isspace((unsigned char)q.back())) q.pop_back(); return q; }; string a=strip(s.substr(0,p)), b=strip(s.substr(p+1)); bool inner=false; for(char ch: a) if(isspace((unsigned char)ch)) inner=true; if(!a.empty()&&!inner&&numeric(b,r.v)){ r.ok=true; r.sure=!needSpace; r.name=a; r.dir=s[p]; return r; } if(!needSpace&&inner){ string n; for(char ch: a) if(!isspace((unsigned char)ch)) n+=ch; if(numeric(b,r.v)){ r.ok=true; r.sure=false; r.name=n; r.dir=s[p]; } } }
    return r; }
static string expression(Ctx& c){
    string name; static const string chars="abcXYZ019_-.+*/()[]:=,;%"; int n=(int)c.src.range(1,8); for(int i=0;i<n;i++) name+=chars[c.src.below(i?chars.size():6)]; double v=c.src.number(1e6); string num; switch(c.src.below(8)){ case 0: num=std::to_string((long)c.src.range(-1000,1000)); break; case 1: num=fmt(".%d",(int)c.src.range(0,999)); break; case 2: num=fmt("%d.",(int)c.src.range(-99,99)); break; case 3: num=fmt("%dE%d",(int)c.src.range(-9,9),(int)c.src.range(-40,40)); break; default: num=number(c,v); }
    string s=ws(c,0)+name+ws(c,1)+(c.src.chance(0.5)?"<":">")+ws(c,1)+num+ws(c,0);
    int m= c.src.chance(0.6) ? (int)c.src.range(1,3) : 0; static const string junk="<>=!~ax1.eE+-0,;#\t \n\"\\"; for(int i=0;i<m;i++){ size_t p=s.empty()?0:c.src.below(s.size()+1); switch(c.src.below(6)){ case 0: s.insert(p,1,junk[c.src.below(junk.size())]); break; case 1: if(p<s.size()) s.erase(p,1); break; case 2: if(p<s.size()) s[p]=junk[c.src.below(junk.size())]; break; case 3: s.insert(p,c.src.pick(vector<string>{"<=","nan","inf","1e999","0x1F"," 5"," < 3","1,5","e","1e","--1"})); break; case 4: s=s.substr(0,p); break; default: s=s.substr(p); } }
    return s; }
static void t02api(Ctx& c){
    string s=expression(c); c.desc()<<"'"<<s<<"'"; Parsed r=reference(s,true); ParsedConstraintExpression g; bool threw=c.throws([&]{ g=parseExpression(s); }); c.label(r.ok?(r.sure?"valid":"valid without white space"):"invalid"); c.nontrivial();
    if(!r.ok){ if(!threw&&g.name.find_first_of("<>")!=string::npos) return; c.require(threw,"invalid expression accepted",fmt("%s %s %.17g",g.name.c_str(),g.inequality.c_str(),g.value)); }
    else { if(threw){ c.require(!r.sure,"valid expression rejected"); return; } c.eq(g.name,r.name,"name"); c.eq(g.inequality,string(1,r.dir),"direction"); c.require(g.value==r.v,"threshold",fmt("got %.17g expected %.17g",g.value,r.v)); }
    // through the interface: the number of constraints tells whether one was added
    RobustDesignOptimizer o; o.setDimension(1); bool t2=c.throws([&]{ o.addConstraint(fnPtr(1),s,"c.csv"); }); c.require(t2==threw,"addConstraint and parseExpression differ"); c.eq(o.numberOfConstraints,threw?0u:1u,"number of constraints after the call"); }
static Reg r5({"T02","expression",t02api,40000,400000,100,20,"expressions from a grammar (names, both directions, decimal and exponent notation, any white space), 60% with 1..3 random edits, against a reference parser; expressions without white space around the operator may also be rejected; always non-trivial",300});
static bool surelyInvalid(const string& s){ return std::count_if(s.begin(),s.end(),[](char ch){ return ch==60||ch==62; })<2&&!reference(s,true).ok&&!reference(s,false).ok; }
static void t02run(Ctx& c){ Study s=study(c); for(int t=0;t<20&&s.p.con.empty();t++) s=study(c); if(s.p.con.empty()) c.discard(); Rows all=runStudy(c,s,2); checkCounts(c,s); checkFiles(c,s); checkHistory(c,s); c.require(!fs::exists("rejected.csv"),"a rejected constraint has a data file"); c.nontrivial(all.size()>=2); }
static Reg r6b({"T02","run",t02run,48,1000,1,120,"runs through the library interface with constraints given by expressions in any notation, and rejected expressions in between on the same object: functions evaluated, data files, history and feasibility are those of the accepted expressions; non-trivial: at least 2 designs",10});
static void t02def(Ctx& c){
    string s=expression(c); if(c.src.chance(0.4)){ string q; for(char ch: s) if(!isspace((unsigned char)ch)) q+=ch; s=q; } c.desc()<<"'"<<s<<"'"; Parsed r=reference(s,false); ConstraintDefinition d; d.constraintName="before"; d.inequalityType="?"; d.value=-123; bool threw=false, other=false; try { d.setDefinition(s); } catch(const std::invalid_argument&){ threw=true; } catch(const std::exception&){ threw=other=true; } c.label(r.ok?"valid":"invalid"); c.nontrivial();
    if(!r.ok) c.require(threw,"invalid definition accepted",d.toString()); else if(!threw||r.sure){ c.require(!threw,"valid definition rejected"); c.eq(d.constraintName,r.name,"name"); c.eq(d.inequalityType,string(1,r.dir),"direction"); c.require(d.value==r.v,"threshold",fmt("got %.17g expected %.17g",d.value,r.v)); 
        // and it is enforced like this
        ConstraintFunction f; f.setConstraintDefinition(d); double e=fabs(r.v)*1e-12+1e-300; c.eq(f.getInequalityType(),string(1,r.dir),"direction of the constraint"); c.require(f.getInequalityTargetValue()==r.v,"threshold of the constraint"); c.eq(f.checkFeasibility(r.v),false,"value on the threshold"); c.eq(f.checkFeasibility(r.v+e),r.dir=='>',"value above the threshold"); c.eq(f.checkFeasibility(r.v-e),r.dir=='<',"value below the threshold"); }
    if(threw){ c.require(!other,"not reported as an invalid argument"); c.require(d.constraintName=="before"&&d.inequalityType=="?"&&d.value==-123,"rejected definition changed the constraint",d.toString()); } }
static Reg r6({"T02","definition",t02def,40000,400000,100,20,"the same expressions, also without white space, for constraint definitions; enforced direction and threshold at and next to the threshold; always non-trivial",300});
