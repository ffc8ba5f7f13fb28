// D01..D05: the command line program with generated configuration files and external programs.
#include "opt.hpp"
#include "quiet.hpp"
#include "Driver/INCLUDE/driver_xml.hpp"
#include "Driver/INCLUDE/xml_functions.hpp"
#include "Driver/INCLUDE/configkey.hpp"
#include "Driver/INCLUDE/string_functions.hpp"
#include <filesystem>
#include <unistd.h>
#include <sys/stat.h>
#include <cstring>
#include <climits>
#include <set>
double projectFunction0(double*); double projectFunction1(double*);
using namespace pbt; using namespace Rodop; using std::vector; using std::string; using namespace opt;
namespace fs=std::filesystem;
namespace {
double user0(const double* x){ return projectFunction0(const_cast<double*>(x)); }
double user1(const double* x){ return projectFunction1(const_cast<double*>(x)); }
struct Fn { string name, exe, design, out, data, model, train; int format=0; };   // one function of the study as configured; empty: left out
struct Run { string exe; int run=0; bool python=false, ok=false; int fault=0; vector<double> x, v; };
struct Cfg {
    Prob p; vector<Fn> fn; string threads, inner, study; bool tight=false; bool sameSeed=true;
    struct El { string key, val; }; typedef vector<El> Block;
    Block general; vector<Block> params; vector<Block> fun;     // fun[0]: objective
    vector<int> shares;                                         // index of the function whose program writes the output of function j (itself if it has one, -1: user defined)
};
string caseMix(Ctx& c,string s){ if(!c.src.chance(0.5)) return s; for(auto& ch: s) if(c.src.chance(0.5)) ch=toupper(ch); return s; }
string num(Ctx& c,double& v){ static const char* f[]={"%.17g","%.17e","%+.17g","%.17G","%.6f","%g","%.0f."}; string s=fmt(f[c.src.below(7)],v); v=std::strtod(s.c_str(),nullptr); return s; }
string fileName(Ctx& c,const string& stem,const string& ext){ static const string mid="abcXYZ019_-.+,=@%~"; string s=stem; int n=(int)c.src.range(0,4); for(int i=0;i<n;i++) s+=mid[c.src.below(c.src.chance(0.3)?mid.size():10)]; return s+ext; }
// names of one to four characters
string shortName(Ctx& c,int j){ string s(1,(char)('p'+j)); return s+c.src.pick(vector<string>{"","y","py","1",".py","_p"}); }
// only names that end with .py are Python scripts
string extension(Ctx& c){ return c.src.chance(0.25)?".py":c.src.chance(0.3)?c.src.pick(vector<string>{".sh",".py.sh","py",".pyc",".python",".py_",".PY"}):""; }
Cfg generateCfg(Ctx& c,bool external){
    Cfg k; GenOpt g; bool wide=c.src.chance(0.05); g.dmax=wide?11:3; g.maxN=3; g.discrete=true; g.udf=true; g.maxInner=30; Prob& p=k.p; p=generate(c,g); c.labelIf(wide,"many parameters"); p.howOften=100000; p.newline=true; if(p.con.size()>2&&!wide) p.con.resize(2); p.names.clear(); p.train=(int)c.src.range(1,60);
    for(int i=0;i<p.d;i++){ double lo=p.lo[i], hi=p.hi[i], inc=p.inc[i]; Cfg::Block b; string name=c.src.pick(vector<string>{"x","alpha","LENGTH_","p.","t-"})+std::to_string(i+1); bool disc=inc>0; b.push_back({"name",name}); b.push_back({"type",caseMix(c,disc?c.src.pick(vector<string>{"discrete","int"}):c.src.pick(vector<string>{"continuous","real"}))}); string a=num(c,lo), e=num(c,hi), q=disc?num(c,inc):string(); if(!(lo<hi)||(disc&&!(inc>0&&inc<=hi-lo))){ lo=p.lo[i]; hi=p.hi[i]; inc=p.inc[i]; a=fmt("%.17g",lo); e=fmt("%.17g",hi); q=fmt("%.17g",inc); if(disc&&!(inc<=hi-lo)){ hi=lo+inc; e=fmt("%.17g",hi); } } b.push_back({"lower_bound",a}); b.push_back({"upper_bound",e}); if(disc||c.src.chance(0.2)) b.push_back({"increment",disc?q:string("0")}); p.lo[i]=lo; p.hi[i]=hi; p.inc[i]=disc?inc:0; p.names.push_back(name); k.params.push_back(b); }
    // the functions keep their own scaling (lo, hi of Fun)
    int nf=1+(int)p.con.size(); k.shares.assign(nf,0); bool sharedDesign=c.src.chance(0.4); string dv=fileName(c,"dv",".dat"); if(external&&c.src.chance(0.2)) fs::create_directory("sub");
    string dir= external&&fs::exists("sub") ? "sub/" : "";
    for(int j=0;j<nf;j++){ Fn f; f.name= j?p.con[j-1].name:c.src.pick(vector<string>{"objective","Cost","f_1"}); if(!j) p.objName=f.name; f.exe=c.src.chance(0.12)?shortName(c,j):fileName(c,(j?"con"+std::to_string(j):string("obj"))+"prog",extension(c)); if(c.src.chance(0.3)) f.exe=(c.src.chance(0.5)?"./":fs::current_path().string()+"/")+dir+f.exe; f.design=sharedDesign?dv:(c.src.chance(0.3)?dir:string())+fileName(c,"dv"+std::to_string(j),".txt"); f.out=(c.src.chance(0.3)?dir:string())+fileName(c,"out"+std::to_string(j),".dat"); f.data=(c.src.chance(0.3)?dir:string())+fileName(c,"data"+std::to_string(j),".csv"); f.format=(int)c.src.below(7);
        bool uni= j?p.con[j-1].universal:p.universal; f.model= uni?caseMix(c,"universal_kriging"):c.src.pick(vector<string>{"","",caseMix(c,"default"),caseMix(c,"kriging"),caseMix(c,"ordinary_kriging")}); f.train=std::to_string(p.train); if(c.src.chance(0.1)) f.train="+"+f.train; k.shares[j]=j; k.fn.push_back(f); }
    for(int j=1;j<nf;j++){ Con& q=p.con[j-1]; if(q.udf&&(j>2||p.d<2||!c.src.chance(0.7))) q.udf=false; if(q.udf){ q.f.user= j==1?user0:user1; double x[16]; vector<double> v; for(int i=0;i<21;i++){ for(int t=0;t<p.d;t++) x[t]=c.src.real(p.lo[t],p.hi[t]); v.push_back(q.f(x)); } std::sort(v.begin(),v.end()); q.thr=v[c.src.below(21)]; k.shares[j]=-1; k.fn[j].model=k.fn[j].train=k.fn[j].exe=k.fn[j].design=k.fn[j].out=k.fn[j].data=""; q.universal=false; }
        else if(c.src.chance(0.2)){ int s=0; for(int t=1;t<j;t++) if(k.shares[t]==t&&c.src.chance(0.5)) s=t; k.shares[j]=s; k.fn[j].exe=""; } }
    p.inner=(int)c.src.range(2,30); k.inner=std::to_string(p.inner); k.threads="1"; if(c.src.chance(0.5)) k.threads=""; if(c.src.chance(0.2)){ p.threads=(int)c.src.range(2,4); k.threads=std::to_string(p.threads); k.sameSeed=false; }
    k.study=c.src.pick(vector<string>{"","Study1","my study"});
    auto opt=[&](Cfg::Block& b,const string& key,const string& v){ if(!v.empty()) b.push_back({key,v}); };
    opt(k.general,"name",k.study); k.general.push_back({"type",caseMix(c,"optimization")}); k.general.push_back({"dimension",std::to_string(p.d)}); k.general.push_back({"number_of_function_evaluations",std::to_string(p.N)}); opt(k.general,"max_number_of_inner_iterations",k.inner); opt(k.general,"number_of_threads",k.threads); if(c.src.chance(0.2)) k.general.push_back({"display",caseMix(c,"on")});
    for(int j=0;j<nf;j++){ Cfg::Block b; Fn& f=k.fn[j]; b.push_back({"name",f.name}); if(j){ Con& q=p.con[j-1]; b.push_back({"constraint_type",caseMix(c,q.dir=='<'?"lt":"gt")}); b.push_back({"constraint_value",num(c,q.thr)}); if(q.udf) b.push_back({"user_defined_function",caseMix(c,c.src.pick(vector<string>{"yes","on","true","y","enabled"}))}); else if(c.src.chance(0.2)) b.push_back({"user_defined_function",caseMix(c,c.src.pick(vector<string>{"no","off","false"}))}); }
        opt(b,"executable_filename",f.exe); opt(b,"design_vector_filename",f.design); opt(b,"output_filename",f.out); opt(b,"training_data_filename",f.data); opt(b,"surrogate_model_type",f.model); opt(b,"number_of_training_iterations",f.train); k.fun.push_back(b); }
    return k; }
string ws(Ctx& c,bool lines){ static const char* w[]={""," ","\n","\t","  \n\t","\r\n"," \n\n "}; return w[c.src.below(lines?7:2)]; }
string block(Ctx& c,const string& tag,const string& content){ return "<"+tag+">"+ws(c,true)+content+ws(c,true)+"</"+tag+">"+ws(c,true); }
string block(Ctx& c,const string& tag,const Cfg::Block& b){ string s; for(int i: c.src.permutation((int)b.size())) s+="<"+b[i].key+">"+ws(c,true)+b[i].val+ws(c,true)+"</"+b[i].key+">"+ws(c,true); return block(c,tag,s); }
string xml(Ctx& c,const Cfg& k){ vector<string> s; s.push_back(block(c,"general_settings",k.general)); string ps; for(auto& b: k.params) ps+=block(c,"parameter",b); if(c.src.chance(0.1)) ps+="<parameter>"+ws(c,true); s.push_back(block(c,"optimization_parameters",ps)); for(size_t j=0;j<k.fun.size();j++) s.push_back(block(c,j?"constraint_function":"objective_function",k.fun[j]));
    // sections in any order, constraints keep their order
    auto pm=c.src.permutation((int)s.size()); vector<int> cons; for(int i: pm) if(i>2) cons.push_back(i); std::sort(cons.begin(),cons.end()); size_t q=0; string t; for(int i: pm) t+=s[i>2?cons[q++]:i]; return c.src.chance(0.8)?"<optimization_study>\n"+t+"</optimization_study>\n":t; }
string csv(const Rows& r){ string s; for(auto& q: r){ for(size_t i=0;i<q.size();i++) s+=(i?",":"")+fmt("%.17g",q[i]); s+="\n"; } return s; }
// writes the programs, the data and the configuration file into the current directory
struct Fault { int fn=-1, run=0, mode=0, arg=0; };
void install(Ctx& c,const Cfg& k,const string& text,const Fault& ft=Fault()){
    string here=fs::current_path().string(); fs::create_directory("bin"); fs::create_symlink(selfDir+"/evalprog","bin/python"); 
    for(size_t j=0;j<k.fn.size();j++){ auto& f=k.fn[j]; if(!f.data.empty()) writeFile(f.data,csv(j?k.p.con[j-1].data:k.p.rows())); if(f.exe.empty()) continue; if(f.exe.size()>3&&f.exe.substr(f.exe.size()-3)==".py") writeFile(f.exe,"# script\n"); else fs::create_symlink(selfDir+"/evalprog",f.exe);
        std::ostringstream s; s<<"log "<<here<<"/evallog design "<<f.design<<" dim "<<k.p.d<<" count "<<here<<"/count"<<j<<"\n"; for(size_t i=0;i<k.fn.size();i++) if(k.shares[i]==(int)j){ const Fun& u= i?k.p.con[i-1].f:k.p.f; std::ostringstream o; o<<"out "<<k.fn[i].out<<" "<<k.fn[i].format<<" "<<u.kind; for(double v: {u.scale,u.off,u.rnd}) o<<fmt(" %.17g",v); for(auto* w: {&u.a,&u.b,&u.lo,&u.hi}) for(double v: *w) o<<fmt(" %.17g",v); o<<"\n"; s<<o.str(); } if(ft.fn==(int)j) s<<"fault "<<ft.run<<" "<<ft.mode<<" "<<ft.arg<<"\n"; writeFile(f.exe+".spec",s.str()); }
    writeFile("study.xml",text); }
ProcResult start(Ctx& c,uint64_t seed,double timeout=60,const string& file="study.xml"){ return runProgram({selfDir+"/rodeo",file},fs::current_path().string(),timeout,{{"PBT_RNG_SEED",std::to_string(seed)},{"PBT_SAME_CLOCK","1"},{"PATH",fs::current_path().string()+"/bin:/usr/bin:/bin"},{"OPENBLAS_NUM_THREADS","1"}}); }
vector<Run> evalLog(Ctx& c){ vector<Run> r; std::istringstream f(readFile("evallog")); string l; while(std::getline(f,l)){ vector<string> t; string cur; for(char ch: l){ if(ch=='|'){ t.push_back(cur); cur.clear(); } else cur+=ch; } t.push_back(cur); c.require(t.size()==7,"evaluation log",l); Run e; e.exe=t[0]; e.run=atoi(t[1].c_str()); e.python=t[2]=="python"; e.ok=t[3]=="ok"; e.fault=atoi(t[4].c_str()); auto nums=[&](const string& s){ vector<double> v; std::istringstream i(s); string q; i>>q; while(i>>q) v.push_back(strtod(q.c_str(),nullptr)); return v; }; e.x=nums(t[5]); e.v=nums(t[6]); r.push_back(e); } return r; }
string command(const Fn& f){ if(f.exe.size()>=3&&f.exe.substr(f.exe.size()-3)==".py") return f.exe; return f.exe.find('/')!=string::npos?f.exe:"./"+f.exe; }
void about(Ctx& c,const Cfg& k,const string& text){ c.desc()<<k.p.text()<<"\n"<<text; c.saveDesc(); c.label("dimension "+std::to_string(k.p.d)); c.label(std::to_string(k.p.con.size())+" constraints"); for(auto& f: k.fn) if(f.exe.find(".py")!=string::npos) c.label("python"); for(size_t j=1;j<k.fn.size();j++){ c.labelIf(k.shares[j]<0,"user defined function"); c.labelIf(k.shares[j]>=0&&k.shares[j]!=(int)j,"constraint without program"); } for(double i: k.p.inc) c.labelIf(i>0,"discrete parameter"); }
void same(Ctx& c,const string& what,const string& a,const string& b){ bool oa,ob; string x=readFile(a,&oa), y=readFile(b,&ob); c.require(oa,what+": no file",a); c.require(ob,"reference run: no file",b); if(x!=y) c.fail(what+" differs from the run with the configured settings",x+"\n--- expected\n"+y); }
// ---------------------------------------------------------------- D01
void d01(Ctx& c){
    Cfg k=generateCfg(c,true); string text=xml(c,k); about(c,k,text); uint64_t seed=1+c.src.below(1000000); install(c,k,text); ProcResult r=start(c,seed); c.require(!r.timedout,"no end"); c.require(r.exited&&r.code==0,"valid configuration rejected or crashed",fmt("exit code %d signal %d: ",r.code,r.sig)+r.out);
    const Prob& p=k.p; auto log=evalLog(c); vector<int> progs; for(size_t j=0;j<k.fn.size();j++) if(k.shares[j]==(int)j) progs.push_back((int)j); c.eq(log.size(),progs.size()*p.N,"number of program runs");
    for(size_t i=0;i<log.size();i++){ const Fn& f=k.fn[progs[i%progs.size()]]; c.eq(log[i].exe,command(f),"program that was run"); c.eq(log[i].python,f.exe.size()>3&&f.exe.substr(f.exe.size()-3)==".py","started by python"); c.require(log[i].ok,"design file not written where configured"); c.eq((int)log[i].x.size(),p.d,"values in the design file"); for(int t=0;t<p.d;t++){ c.require(log[i].x[t]>=p.lo[t]-1e-12*(p.hi[t]-p.lo[t])&&log[i].x[t]<=p.hi[t]+1e-12*(p.hi[t]-p.lo[t]),"design outside the configured bounds"); if(p.inc[t]>0){ double m=(log[i].x[t]-p.lo[t])/p.inc[t]; c.near(m,std::round(m),0,1e-6,"design not on the configured grid"); } } }
    vector<string> hd; bool ok; Rows h=readCsv("optimizationHistory.csv",true,&hd,&ok); c.require(ok,"history file"); vector<string> want=p.names; want.push_back("Objective"); for(auto& q: p.con) want.push_back(q.name); (void)want; size_t n0=p.x.size(); c.require(hd.size()==want.size()+2||h.empty(),"columns of the history"); for(int t=0;t<p.d;t++){ string a=hd[t]; a.erase(std::remove(a.begin(),a.end(),' '),a.end()); c.eq(a,p.names[t],"parameter name in the history"); } (void)n0;
    // reference: the same settings given to the optimizer directly, with the same random numbers
    if(k.sameSeed){ fs::create_directory("ref"); fs::current_path("ref"); ::seedRandomSources(seed); Out o=run(p); fs::current_path(".."); c.require(!o.threw,"reference run failed",o.what); same(c,"history","optimizationHistory.csv","ref/optimizationHistory.csv"); same(c,"optimum","globalOptimalDesign.xml","ref/globalOptimalDesign.xml"); for(size_t j=0;j<k.fn.size();j++) if(!k.fn[j].data.empty()) same(c,"training data",k.fn[j].data,"ref/"+(j?p.con[j-1].name:p.objName)+".csv"); c.label("compared with a reference run"); }
    c.nontrivial(p.d>1||!p.con.empty()); }
static Reg r1({"D01","study",d01,1500,30000,1,90,"random problems (dimension 1..3, continuous and discrete parameters, 0..2 constraints: external, user defined, without own program) written as configuration files (elements in any order, any white space, letter case, number format, optional items left out) and run with the rodeo program; commands, files and names against the configuration, and all result files against a run of the optimizer with these settings and the same random numbers; non-trivial: dimension > 1 or a constraint",3});
// ---------------------------------------------------------------- D02
typedef Cfg::Block Block;
Cfg::El* find(Block& b,const string& key){ for(auto& e: b) if(e.key==key) return &e; return nullptr; }
void drop(Block& b,const string& key){ for(size_t i=0;i<b.size();i++) if(b[i].key==key) b.erase(b.begin()+i--); }
string notNumber(Ctx& c,const string& v){ switch(c.src.below(7)){ case 0: return c.src.pick(vector<string>{"abc","one","-","+",".","e5","--1","nan","NaN","inf","-inf","1e999","<","NULL"}); case 1: return v+c.src.pick(vector<string>{"x",",5",";"," 2 x","..","e","-","%","/2"}); case 2: return c.src.pick(vector<string>{"x","$","#","~"})+v; case 3: return ""; case 4: return "   "; case 5: return v+"\n\tm"; default: return "["+v+"]"; } }
string word(Ctx& c,const vector<string>& w){ return c.src.pick(w); }
// a valid word with one edit that makes it none of the valid words, in any case of letters
static string misspelt(Ctx& c,const vector<string>& valid){ auto low=[](string q){ for(char& ch: q) ch=(char)tolower((unsigned char)ch); return q; };
    for(int t=0;t<40;t++){ string w=c.src.pick(valid); static const char letters[]="abcdefghijklmnopqrstuvwxyz_0123456789-."; char ch=letters[c.src.below(sizeof letters-1)]; size_t i=c.src.below(w.size());
        switch(c.src.below(7)){ case 0: w.erase(i,1); break; case 1: w.insert(i,1,ch); break; case 2: w+=ch; break; case 3: w[i]=ch; break; case 4: w+=c.src.pick(valid); break; case 5: { size_t k=c.src.below(w.size()); std::swap(w[i],w[k]); break; } default: for(int n=(int)c.src.range(1,4);n>0;n--) w+=letters[c.src.below(26)]; }
        if(w.empty()) continue; bool ok=true; for(auto& v: valid) if(low(v)==low(w)) ok=false; if(ok) return w; }
    return "misspelt"; }
// injects one fault; returns its description, empty if it does not apply
string inject(Ctx& c,Cfg& k,string& post,int& used){
    Prob& p=k.p; int np=(int)k.params.size(), nc=(int)p.con.size(); Block& par=k.params[c.src.below(np)]; int j=(int)c.src.below(nc+1); Block& fun=k.fun[j]; bool disc=find(par,"type")&&(tolower(find(par,"type")->val[0])=='d'||tolower(find(par,"type")->val[0])=='i'); bool udf=j&&p.con[j-1].udf;
    int fault=(int)c.src.below(26); int group= fault==6||fault==7?1:fault==10?2:fault==19||fault==23?4:0; if(group&&(used&group)) return ""; used|=group;   // two of these may cancel
    switch(fault){
        case 0: case 1: { string key=word(c,{"type","dimension","number_of_function_evaluations"}); drop(k.general,key); return "general "+key+" missing"; }
        case 2: case 3: { string key=disc?word(c,{"name","type","lower_bound","upper_bound","increment"}):word(c,{"name","type","lower_bound","upper_bound"}); if(c.src.chance(0.2)){ if(auto e=find(par,key)){ e->val=""; return "parameter "+key+" empty"; } } drop(par,key); return "parameter "+key+" missing"; }
        case 4: case 5: { vector<string> keys= j==0?vector<string>{"name","executable_filename","design_vector_filename","output_filename","training_data_filename"}: udf?vector<string>{"name","constraint_type","constraint_value"}:vector<string>{"name","constraint_type","constraint_value","design_vector_filename","output_filename","training_data_filename"}; string key=word(c,keys); if(c.src.chance(0.2)){ if(auto e=find(fun,key)){ e->val=" "; return "function "+key+" empty"; } } drop(fun,key); return fmt("function %d ",j)+key+" missing"; }
        case 6: if(np>1&&c.src.chance(0.5)){ k.params.erase(k.params.begin()+c.src.below(np)); return "parameter missing"; } else { Block b=par; find(b,"name")?(void)(find(b,"name")->val="extra"):(void)0; k.params.insert(k.params.begin()+c.src.below(np+1),b); return "parameter too many"; }
        case 7: if(auto e=find(k.general,"dimension")){ int v=p.d+(int)c.src.range(1,2)*(c.src.chance(0.5)?1:-1); e->val=c.src.chance(0.3)?word(c,{"0","-1","-2"}):std::to_string(v); return "wrong dimension"; } return "";
        case 8: case 9: { string key=word(c,disc?vector<string>{"lower_bound","upper_bound","increment"}:vector<string>{"lower_bound","upper_bound"}); if(auto e=find(par,key)){ e->val=notNumber(c,e->val); return key+" not a number: "+e->val; } return ""; }
        case 10: { auto a=find(par,"lower_bound"),b=find(par,"upper_bound"); if(!a||!b) return ""; if(!(atof(a->val.c_str())<atof(b->val.c_str()))) return ""; std::swap(a->val,b->val); return "inverted bounds"; }
        case 11: if(auto e=find(par,"type")){ e->val=c.src.chance(0.5)?misspelt(c,{"real","continuous","int","discrete"}):word(c,{"float","cont","discret","integer","string","continuousx","1","bool"}); return "unknown parameter type"; } return "";
        case 12: if(j){ if(auto e=find(fun,"constraint_type")){ e->val=c.src.chance(0.5)?misspelt(c,{"lt","gt","LT","GT"}):word(c,{"eq","le","ge","TT","l","ltt","less","&lt;","=","greater"}); return "unknown constraint type "+e->val; } } return "";
        case 13: if(!udf){ drop(fun,"surrogate_model_type"); fun.push_back({"surrogate_model_type",c.src.chance(0.5)?misspelt(c,{"kriging","ordinary_kriging","universal_kriging","default"}):word(c,{"krig","linear","svm","kriging2","ordinary-kriging","universal","none"})}); return "unknown surrogate type"; } return "";
        case 14: if(j){ if(auto e=find(fun,"constraint_value")){ e->val=notNumber(c,e->val); return "constraint value not a number: "+e->val; } } return "";
        case 15: { string key=word(c,{"dimension","number_of_function_evaluations"}); if(auto e=find(k.general,key)){ e->val=c.src.chance(0.3)?word(c,{"0","-1","-5"}):notNumber(c,e->val); return key+" invalid: "+e->val; } return ""; }
        case 16: { string key=word(c,{"max_number_of_inner_iterations","number_of_threads"}); drop(k.general,key); string v=word(c,{"-1","0","-4","two","2.5","1x","1e3"}); k.general.push_back({key,v}); return key+" invalid: "+v; }
        case 17: if(!udf){ drop(fun,"number_of_training_iterations"); string v=word(c,{"-1","0","-100","many","2.5","10x","1e3"}); fun.push_back({"number_of_training_iterations",v}); return "training iterations invalid: "+v; } return "";
        case 18: { Block& b=c.src.chance(0.33)?k.general:c.src.chance(0.5)?par:fun; if(b.empty()) return ""; auto e=b[c.src.below(b.size())]; if(e.key=="increment"&&!disc) return ""; if(e.key=="lower_bounds") return ""; b.push_back({e.key,c.src.chance(0.5)?e.val:e.val+"1"}); return e.key+" given twice"; }
        case 19: post=word(c,{"general_settings","optimization_parameters","objective_function"}); return "section "+post+" missing";
        case 20: { post="/"+word(c,{"general_settings","optimization_parameters","objective_function","parameter","lower_bound","upper_bound","dimension","type","name","training_data_filename"}); if(nc&&c.src.chance(0.4)) post="/"+word(c,{"constraint_function","constraint_value","constraint_type"}); return "end tag "+post+" missing"; }
        case 21: if(!udf){ fs::remove(k.fn[j].data); return fmt("data file of function %d missing",j); } return "";
        case 22: if(disc){ if(auto e=find(par,"increment")){ double w=atof(find(par,"upper_bound")?find(par,"upper_bound")->val.c_str():"1")-atof(find(par,"lower_bound")?find(par,"lower_bound")->val.c_str():"0"); e->val=c.src.chance(0.5)?word(c,{"0","-1","-0.1","0.0"}):fmt("%.17g",fabs(w)*c.src.real(1.01,5)); return "invalid increment "+e->val; } } return "";
        case 24: if(!udf){ drop(fun,"surrogate_model_type"); string m=caseMix(c,word(c,{"gradient_enhanced","tangent_enhanced"})); fun.push_back({"surrogate_model_type",m}); if(c.src.chance(0.7)){ fun.push_back({"executable_filename_gradient","gradprog"}); fun.push_back({"output_filename_gradient","gradient.dat"}); } return "surrogate type not available"; } return "";
        case 25: if(j&&!udf){ fun.push_back({"multi_fidelity",word(c,{"yes","on","true","Y"})}); return "multi fidelity not available"; } return "";
        default: post="twice:"+word(c,{"general_settings","optimization_parameters","objective_function"}); return "section "+post; } }
void d02(Ctx& c){
    Cfg k=generateCfg(c,true); install(c,k,""); string what, text; int kind=(int)c.src.below(40), n=c.src.chance(0.2)?2:1; string cfgName="study.xml"; vector<string> posts;
    if(kind==0){ cfgName=word(c,{"study.txt","study","study.xml.bak","xml","stud.xm"}); what="name of the configuration file"; }
    else if(kind==1){ cfgName="nothing.xml"; what="no configuration file"; }
    else for(int t=0,tries=0,used=0;t<n&&tries<20;tries++){ string post; string w=inject(c,k,post,used); if(w.empty()) continue; t++; what+=(what.empty()?"":" + ")+w; if(!post.empty()) posts.push_back(post); }
    if(what.empty()) c.discard(); text=xml(c,k);
    for(auto& post: posts){ if(post.compare(0,6,"twice:")==0){ string tag=post.substr(6); size_t a=text.find("<"+tag+">"), b=text.find("</"+tag+">"); if(a==string::npos||b==string::npos) c.discard(); string blk=text.substr(a,b+tag.size()+3-a); text.insert(c.src.chance(0.5)?a:b+tag.size()+3,blk); }
        else if(post[0]=='/'){ string tag="<"+post+">"; vector<size_t> at; for(size_t q=text.find(tag);q!=string::npos;q=text.find(tag,q+1)) at.push_back(q); if(at.empty()) c.discard(); text.erase(at[c.src.below(at.size())],tag.size()); }
        else { size_t a=text.find("<"+post+">"), b=text.find("</"+post+">"); if(a==string::npos||b==string::npos) c.discard(); text.erase(a,b+post.size()+3-a); } }
    about(c,k,text); c.desc()<<"\nfault: "<<what; c.saveDesc(); if(kind!=1) writeFile(cfgName,text); vector<string> before; for(auto& f: k.fn) before.push_back(f.data.empty()?"":readFile(f.data));
    bool noArg=kind==0&&c.src.chance(0.2); ProcResult r= noArg ? runProgram({selfDir+"/rodeo"},fs::current_path().string(),60,{{"OPENBLAS_NUM_THREADS","1"}}) : start(c,1,60,cfgName);
    c.require(!r.timedout,"no end"); c.require(!fs::exists("evallog"),"evaluated although the configuration is invalid",what); c.require(r.exited,"crash",fmt("signal %d: ",r.sig)+what+"\n"+r.out); c.require(r.code!=0,"invalid configuration accepted",what); c.require(r.out.find_first_not_of(" \n")!=string::npos,"no error message"); for(size_t j=0;j<k.fn.size();j++) if(!k.fn[j].data.empty()) c.eq(readFile(k.fn[j].data),before[j],"training data changed");
    { string l=what.substr(0,what.find_first_of(":+")); for(auto q: {"invalid increment"}) if(l.compare(0,strlen(q),q)==0) l=q; for(auto q: {" not a number"," type lt"}) if(l.find(q)!=string::npos) l=l.substr(0,l.find(q)+strlen(q)); while(!l.empty()&&l.back()==' ') l.pop_back(); if(l.compare(0,23,"unknown constraint type")==0) l=l.substr(0,23); c.label(l); } c.nontrivial(); }
static Reg r2({"D02","fault",d02,6000,100000,1,60,"valid configurations of the D01 generator with one (20%: two) injected faults: missing or empty required items, wrong number of parameters or dimension, values that are not numbers, inverted bounds, unknown types, invalid increments and counts, repeated items and sections, missing sections and end tags, missing data and configuration files: error exit, no program run, data files unchanged; always non-trivial",30});
// ---------------------------------------------------------------- D04
void d04(Ctx& c){
    Cfg k=generateCfg(c,true); string text=xml(c,k); about(c,k,text); install(c,k,text); uint64_t seed=1+c.src.below(1000000); ProcResult r=start(c,seed); c.require(!r.timedout,"no end"); c.require(r.exited&&r.code==0,"run failed",fmt("exit code %d signal %d: ",r.code,r.sig)+r.out);
    const Prob& p=k.p; auto log=evalLog(c); vector<int> progs; for(size_t j=0;j<k.fn.size();j++) if(k.shares[j]==(int)j) progs.push_back((int)j); c.eq(log.size(),progs.size()*p.N,"number of program runs"); Rows h=readCsv("optimizationHistory.csv",true); c.eq(h.size(),p.x.size()+p.N,"rows of the history");
    vector<Rows> stored; for(size_t j=0;j<k.fn.size();j++) stored.push_back(k.fn[j].data.empty()?Rows():dataRows(k.fn[j].data));
    for(int it=0;it<p.N;it++){ const vector<double>& x=log[it*progs.size()].x; vector<double> val(k.fn.size()); for(size_t q=0;q<progs.size();q++){ auto& e=log[it*progs.size()+q]; c.require(e.ok,"design file missing or unreadable"); c.require(e.x==x,"programs of one evaluation got different designs",pbt::str(e.x)+" "+pbt::str(x)); size_t m=0; for(size_t j=0;j<k.fn.size();j++) if(k.shares[j]==progs[q]) val[j]=e.v[m++]; c.eq(m,e.v.size(),"values in the log"); }
        const auto& row=h[p.x.size()+it]; for(int t=0;t<p.d;t++) c.near(row[t],x[t],1e-15,5.001e-7,"design in the history"); for(size_t j=0;j<k.fn.size();j++) if(k.shares[j]>=0) c.near(row[p.d+j],val[j],1e-15,5.001e-7,"value in the history"); else c.near(row[p.d+j],p.con[j-1].f(x.data()),1e-15,5.001e-7,"value of the user defined function");
        for(size_t j=0;j<k.fn.size();j++) if(k.shares[j]>=0){ bool found=false; for(auto& q: stored[j]){ double m=0; for(int t=0;t<p.d;t++) m=std::max(m,fabs(q[t]-x[t])); m=std::max(m,fabs(q[p.d]-val[j])); if(m<=5.1e-13+1e-15*(fabs(val[j])+fabs(x[0]))||m<=1.0001e-4) { found=true; } } c.require(found,"evaluated sample not in the training data",k.fn[j].data); } }
    c.nontrivial(); }
static Reg r3({"D04","study",d04,800,16000,1,90,"the studies of D01: every program run exactly once per iteration, all with the same design, designs and first output values as in the history and in the training data; always non-trivial",2});
// one function evaluated directly: exact equality
struct Direct { ObjectiveFunction f; vector<ConstraintFunction> g; int d=1; vector<Fn> fn; vector<int> shares; vector<double> val; };
double magnitude(Ctx& c){ switch(c.src.below(8)){ case 0: return 0; case 1: return c.src.real(-1,1); case 2: return (double)c.src.range(-100,100); case 3: return c.src.pick(vector<double>{1e-300,-2.2250738585072014e-308,1.7976931348623157e308,-1e300,5e-324,0.1,1.0/3,123456789.123456789,-0.0,1e22,4503599627370497.5}); case 4: return c.src.logreal(1e-300,1e300)*(c.src.chance(0.5)?1:-1); case 5: return std::nextafter(c.src.pick(vector<double>{1,10,1e5,0.5}),c.src.chance(0.5)?1e9:-1e9); default: return c.src.number(1e6); } }
void makeDirect(Ctx& c,Direct& D,vector<double>& x,const Fault& ft){
    quiet(); D.d=(int)c.src.range(1,6); for(int k=0;k<D.d;k++) x.push_back(magnitude(c)); int nf=(int)c.src.range(1,3); Cfg k; k.p.d=D.d; k.p.lo.assign(D.d,0); k.p.hi.assign(D.d,1); bool sd=c.src.chance(0.4); if(c.src.chance(0.3)) fs::create_directory("sub"); string dir=fs::exists("sub")?"sub/":"";
    for(int j=0;j<nf;j++){ Fn f; f.name="f"+std::to_string(j); f.exe=c.src.chance(0.12)?shortName(c,j):fileName(c,"prog"+std::to_string(j),extension(c)); if(c.src.chance(0.4)) f.exe=(c.src.chance(0.5)?"./":fs::current_path().string()+"/")+dir+f.exe; f.design=sd?"dv":(c.src.chance(0.3)?dir:string())+fileName(c,"dv"+std::to_string(j),".txt"); f.out=(c.src.chance(0.3)?dir:string())+fileName(c,"out"+std::to_string(j),".dat"); f.format=(int)c.src.below(7); int sh=j; if(j&&ft.fn<0&&c.src.chance(0.25)){ sh=(int)c.src.below(j); sh=D.shares[sh]; f.exe=""; } D.shares.push_back(sh); D.fn.push_back(f); double v=magnitude(c); D.val.push_back(v); Fun u; u.kind=0; u.off=v; u.a.assign(D.d,0); u.b.assign(D.d,0); u.lo=k.p.lo; u.hi=k.p.hi; if(j){ Con q; q.f=u; k.p.con.push_back(q); } else k.p.f=u; }
    k.fn=D.fn; k.shares=D.shares; install(c,k,"",ft); setenv("PATH",(fs::current_path().string()+"/bin:/usr/bin:/bin").c_str(),1); c.desc()<<"d="<<D.d<<" x="<<pbt::str(x)<<" values="<<pbt::str(D.val); for(auto& f: D.fn) c.desc()<<" ["<<f.exe<<" "<<f.design<<" "<<f.out<<" "<<f.format<<"]";
    for(int j=0;j<nf;j++){ ObjectiveFunctionDefinition def; def.name=D.fn[j].name; def.executableName=D.fn[j].exe; def.designVectorFilename=D.fn[j].design; def.outputFilename=D.fn[j].out; def.nameHighFidelityTrainingData="data.csv"; def.modelHiFi=ORDINARY_KRIGING; if(!j){ D.f.setDimension(D.d); D.f.setParametersByDefinition(def); } else { ConstraintFunction g; g.setDimension(D.d); ConstraintDefinition cd; cd.constraintName=def.name; cd.inequalityType="<"; cd.value=0; cd.ID=j-1; g.setParametersByDefinition(def); g.setConstraintDefinition(cd); D.g.push_back(g); } } }
Design design(const Direct& D,const vector<double>& x){ Design q(D.d); q.setNumberOfConstraints((unsigned)D.g.size()); q.designParameters=V(x); return q; }
void d04direct(Ctx& c){
    Direct D; vector<double> x; makeDirect(c,D,x,Fault()); c.saveDesc(); Design q=design(D,x); int times=(int)c.src.range(1,3); for(int t=0;t<times;t++){ if(t) for(auto& v: x) if(c.src.chance(0.5)) v=magnitude(c); q.designParameters=V(x); size_t before=evalLog(c).size(); D.f.evaluateDesign(q); for(auto& g: D.g) g.evaluateDesign(q); c.require(S(q.designParameters)==x,"design changed by the evaluation"); auto log=evalLog(c); int progs=0; for(size_t j=0;j<D.fn.size();j++) progs+=D.shares[j]==(int)j; c.eq(log.size(),before+progs,"number of program runs"); size_t i=before; for(size_t j=0;j<D.fn.size();j++) if(D.shares[j]==(int)j){ auto& e=log[i++]; c.eq(e.exe,command(D.fn[j]),"program"); c.eq(e.python,D.fn[j].exe.size()>3&&D.fn[j].exe.substr(D.fn[j].exe.size()-3)==".py","started by python"); c.require(e.ok,"design file unreadable"); c.require(e.x==x,"design file differs from the design",pbt::str(e.x)); }
        c.require(q.trueValue==D.val[0],"recorded value",fmt("got %.17g expected %.17g",q.trueValue,D.val[0])); for(size_t j=1;j<D.fn.size();j++) c.require(q.constraintTrueValues((unsigned)j-1)==D.val[j],"recorded constraint value",fmt("got %.17g expected %.17g",q.constraintTrueValues((unsigned)j-1),D.val[j])); }
    c.label(std::to_string(D.fn.size())+" functions"); c.nontrivial(); }
static Reg r4({"D04","evaluate",d04direct,4000,80000,1,30,"one to three functions evaluated one to three times with designs and outputs of all magnitudes (1e-300..1e300, denormal, -0, neighbours of round numbers), file and program names (relative, absolute, scripts), seven output layouts, functions without own program: exact equality; always non-trivial",60});
void d04full(Ctx& c){
    Direct D; vector<double> x; makeDirect(c,D,x,Fault()); c.saveDesc(); Design q=design(D,x); D.f.evaluateDesign(q); for(auto& g: D.g) g.evaluateDesign(q); int j=(int)c.src.below(D.fn.size()); while(D.shares[j]!=j) j=D.shares[j]; static string target; target="/"+D.fn[j].design; if(target.compare(0,2,"//")==0) target=target.substr(1); long size=(long)readFile(D.fn[j].design).size(), left=(long)c.src.range(0,size-1); c.desc()<<" design file of "<<D.fn[j].name<<fmt(" takes %ld of %ld bytes",left,size); size_t before=evalLog(c).size();
    opt::failures=0; opt::failLeft=left; opt::failPath=target.c_str(); bool threw=false; try { if(j) D.g[j-1].evaluateDesign(q); else D.f.evaluateDesign(q); } catch(const std::exception&){ threw=true; } opt::failPath=nullptr; if(!opt::failures) return; c.require(threw,"evaluation with an incomplete design file"); c.eq(evalLog(c).size(),before,"program runs with an incomplete design file"); c.nontrivial(); }
static Reg r4b({"D04","design_file_full",d04full,600,10000,1,30,"the same functions, evaluated a second time with a design file that takes only a part of the design: error, program not run; non-trivial: the write failed",20});
// ---------------------------------------------------------------- D05
Fault genFault(Ctx& c,int runs){ Fault f; f.run=(int)c.src.range(1,runs); f.mode=(int)c.src.range(1,10); f.arg= f.mode<=2?(int)c.src.pick(vector<int>{1,2,3,42,127,126,255,128,64}): f.mode<=4?c.src.pick(vector<int>{SIGSEGV,SIGKILL,SIGABRT,SIGFPE,SIGTERM,SIGPIPE,SIGXCPU}):(int)c.src.below(72); return f; }
const char* modeName(int m){ static const char* n[]={"","exit code, nothing written","exit code after the output","signal, nothing written","signal after the output","no output file","empty output","blank output","text","incomplete number","nan or infinite","cannot be started"}; return n[m]; }
// modes 11..: the program cannot be started
void breakProgram(Ctx& c,const string& exe,int how){ fs::remove(exe); switch(how){ case 0: break; case 1: fs::create_directory(exe); break; case 2: writeFile(exe,"not a program\n"); chmod(exe.c_str(),0644); break; default: writeFile(exe,"\x7f""ELF garbage"); chmod(exe.c_str(),0755); } }
void d05(Ctx& c){
    Cfg k=generateCfg(c,true); const Prob& p=k.p; vector<int> progs; for(size_t j=0;j<k.fn.size();j++) if(k.shares[j]==(int)j) progs.push_back((int)j); Fault ft=genFault(c,p.N); int qi=(int)c.src.below(progs.size()); ft.fn=progs[qi]; string text=xml(c,k); about(c,k,text); if(c.src.chance(0.12)) ft.mode=11; c.desc()<<"\nfunction "<<ft.fn<<" fails at run "<<ft.run<<": "<<modeName(ft.mode)<<" "<<ft.arg; c.saveDesc(); bool script=k.fn[ft.fn].exe.size()>3&&k.fn[ft.fn].exe.substr(k.fn[ft.fn].exe.size()-3)==".py"; install(c,k,text,ft); if(ft.mode==11){ ft.run=1; breakProgram(c,script?"bin/python":k.fn[ft.fn].exe,(int)c.src.below(4)); if(script){ for(int j: progs) if(k.fn[j].exe.size()>3&&k.fn[j].exe.substr(k.fn[j].exe.size()-3)==".py"){ ft.fn=j; qi=(int)(std::find(progs.begin(),progs.end(),j)-progs.begin()); break; } } }
    // an output of an earlier study lies about
    if(c.src.chance(0.6)) for(auto& f: k.fn) if(!f.out.empty()) writeFile(f.out,"-123456.75\n");
    uint64_t seed=1+c.src.below(1000000); ProcResult r=start(c,seed); c.require(!r.timedout,"no end"); auto log=evalLog(c); int done=ft.run-1, per=(int)progs.size(); c.require(r.exited,"the program crashed instead of reporting an error",fmt("signal %d ",r.sig)+r.out); c.require(r.code!=0,"run succeeded although an evaluation failed",modeName(ft.mode)); c.require(r.out.find("rror")!=string::npos,"no error message",r.out); c.eq((int)log.size(),done*per+qi+(ft.mode==11?0:1),"programs run");
    Rows h=readCsv("optimizationHistory.csv",true); c.require(h.size()==p.x.size()+done,"rows of the history",fmt("%d initial, %d completed, %d rows",(int)p.x.size(),done,(int)h.size())); for(auto& q: h) for(double v: q) c.require(std::isfinite(v),"history has an invalid number");
    for(size_t j=0;j<k.fn.size();j++) if(k.shares[j]>=0){ Rows want=j?p.con[j-1].data:p.rows(); bool unsure=false; for(int it=0;it<done;it++){ auto& e=log[it*per+(std::find(progs.begin(),progs.end(),k.shares[j])-progs.begin())]; int m=0; for(size_t t=0;t<j;t++) m+=k.shares[t]==k.shares[j]; vector<double> q=e.x; q.push_back(e.v[m]); bool dup=false; for(auto& w: want){ double g=0; for(size_t t=0;t<q.size();t++) g=std::max(g,fabs(w[t]-q[t])); if(fabs(g-1e-4)<1e-9) unsure=true; if(g<=1e-4) dup=true; } if(!dup) want.push_back(q); } if(unsure) continue; Rows got=dataRows(k.fn[j].data); c.eq(got.size(),want.size(),"samples in the training data","function "+std::to_string(j)); for(size_t i=0;i<want.size();i++) for(size_t t=0;t<want[i].size();t++) c.near(got[i][t],want[i][t],1e-15,5.1e-13,"sample in the training data"); }
    c.label(modeName(ft.mode)); c.label(ft.fn?"constraint fails":"objective fails"); c.nontrivial(); }
static Reg r5({"D05","study",d05,1800,40000,1,90,"the studies of D01; the program of one function fails at one run: exit codes, signals, no, empty, blank, non-numeric, incomplete or non-finite output, cannot be started; outputs of earlier runs lie about: error exit, no further program run, history and training data hold the completed iterations only; always non-trivial",3});
void d05direct(Ctx& c){
    Direct D; vector<double> x; Fault ft=genFault(c,2); ft.fn=0; int which=(int)c.src.below(3); ft.fn=which; makeDirect(c,D,x,ft); if(which>=(int)D.fn.size()) c.discard(); c.desc()<<" function "<<which<<" fails at run "<<ft.run<<": "<<modeName(ft.mode)<<" "<<ft.arg; c.saveDesc(); if(c.src.chance(0.5)) for(auto& f: D.fn) writeFile(f.out,"-123456.75\n"); Design q=design(D,x); q.trueValue=777; for(int t=1;t<=ft.run;t++) for(size_t j=0;j<D.fn.size();j++){ bool bad=t==ft.run&&(int)j==which; auto go=[&]{ if(j) D.g[j-1].evaluateDesign(q); else D.f.evaluateDesign(q); }; if(bad){ c.require(c.throws(go),"failed evaluation returned a value",modeName(ft.mode)); break; } go(); }
    c.label(modeName(ft.mode)); c.nontrivial(); }
static Reg r6({"D05","evaluate",d05direct,5000,100000,1,30,"single evaluations of an objective or a constraint whose program fails in the same ways (first or second evaluation, earlier outputs lying about): an error is raised; always non-trivial",60});
// ---------------------------------------------------------------- D03
const vector<string> tags={"general_settings","optimization_parameters","objective_function","constraint_function","parameter","name","type","dimension","lower_bound","upper_bound","increment","number_of_function_evaluations","constraint_type","constraint_value","training_data_filename","output_filename","display","number_of_threads","lower_bounds","item","user_defined_function","multi_fidelity"};
string token(Ctx& c){ switch(c.src.below(9)){ case 0: return "<"+c.src.pick(tags)+">"; case 1: return "</"+c.src.pick(tags)+">"; case 2: { string t=c.src.pick(tags); return "<"+t+">"+c.src.pick(vector<string>{"","1","-1","1e400","99999999999","0","x","4294967296","2147483647","-2147483648","nan","1e-400","0x10"})+"</"+t+">"; } case 3: return c.src.pick(vector<string>{"<",">","/","<>","</>","<<",">>","<!--","-->","<a b=\"c\"/>","&lt;","&amp;","<?xml version=\"1.0\"?>","</","\xff","\xc3\xa4"}); case 4: return string(1,(char)c.src.below(256)); case 5: return string((size_t)c.src.range(1,5),(char)c.src.below(256)); case 6: return c.src.pick(vector<string>{"-","+",".","e","0","9","1e9","e+400","\n","\r\n","\t"," "}); case 7: return string(1,'\0'); default: return string((size_t)c.src.range(1,3000),c.src.pick(vector<char>{'<','1',' ','a','\n'})); } }
string mutate(Ctx& c,string t,int n){ for(int i=0;i<n;i++){ size_t len=t.size(), a=len?c.src.below(len+1):0, m=std::min(len-a,(size_t)(c.src.chance(0.7)?c.src.range(1,30):c.src.range(1,(int)std::max<size_t>(1,len)))); switch(c.src.below(8)){ case 0: case 1: t.insert(a,token(c)); break; case 2: t.erase(a,m); break; case 3: { string q=t.substr(a,m); t.insert(c.src.below(len+1),q); break; } case 4: if(a<len) t[a]=(char)c.src.below(256); break; case 5: t=t.substr(0,a); break; case 6: { string q=t.substr(a,m); t.erase(a,m); t.insert(c.src.below(t.size()+1),q); break; } default: { vector<size_t> at; for(size_t q=0;q<t.size();q++) if(t[q]=='<') at.push_back(q); if(at.empty()) break; size_t b=at[c.src.below(at.size())], e=t.find('>',b); if(e==string::npos) e=t.size()-1; if(c.src.chance(0.5)) t.erase(b,e+1-b); else t.replace(b,e+1-b,token(c)); } } } return t; }
void d03config(Ctx& c){
    quiet(); quietDriver(); Cfg k=generateCfg(c,false); int n=(int)c.src.below(5); string t; bool tokens=c.src.chance(0.1); if(tokens){ int m=(int)c.src.range(0,40); for(int i=0;i<m;i++) t+=token(c); } else t=mutate(c,xml(c,k),n); c.desc()<<n<<" changes\n"<<t; c.saveDesc(); string f=c.dir+"/mutated.xml"; writeFile(f,t); bool ok=true; string what;
    { Driver d; d.setConfigFileName(f); try { d.readConfigurationFile(); } catch(const std::exception& e){ ok=false; what=e.what(); } }
    fs::remove(f); c.label(ok?"accepted":"rejected"); c.require(ok||!what.empty(),"error without message"); if(n==0&&!tokens) c.require(ok,"valid configuration rejected",what); c.nontrivial(n>0); }
static Reg r7({"D03","config",d03config,150000,4000000,200,20,"configuration files of the D01 generator after 0..4 changes (bytes, tokens, tags and pieces inserted, deleted, replaced, moved, repeated, truncated) and sequences of random tokens, read by the driver: values or an error; non-trivial: at least one change",3000});
// reference of the value functions; document: a sequence of elements with keys that contain each other
struct Elem { string key, val; int form=0; };   // form 0: whole; 1: no end tag; 2: no start tag
void d03values(Ctx& c){
    static const vector<string> keys={"a","ab","b","a_b","name","Name","item","bb","x1"}; int n=(int)c.src.range(0,7); vector<Elem> es; string t=ws(c,true); for(int i=0;i<n;i++){ Elem e; e.key=c.src.pick(keys); e.form= c.src.chance(0.1)?(int)c.src.range(1,2):0; double v=magnitude(c); e.val=ws(c,true)+(c.src.chance(0.5)?num(c,v):c.src.chance(0.5)?std::to_string(c.src.range(-2147483648LL,2147483647LL)):c.src.chance(0.5)?notNumber(c,"12"):c.src.pick(vector<string>{"some text","on","a<c","x>y","","file name.csv","2147483648","-99999999999"}))+ws(c,true); if(e.val.find("</")!=string::npos) e.val="7"; es.push_back(e); t+=(e.form==2?"":"<"+e.key+">")+e.val+(e.form==1?"":"</"+e.key+">")+ws(c,true); }
    string key= n&&c.src.chance(0.7)?es[c.src.below(n)].key:c.src.pick(keys); c.desc()<<"key "<<key<<" text "<<t; string S0="<"+key+">", E0="</"+key+">"; size_t a=t.find(S0), b= a==string::npos?a:t.find(E0,a); int starts=0; for(size_t q=t.find(S0);q!=string::npos;q=t.find(S0,q+1)) starts++; bool missing=a==string::npos, bad=!missing&&(b==string::npos||t.find(S0,b)!=string::npos); bool nested=!missing&&!bad&&starts>1; string val= missing||bad?"":t.substr(a+S0.size(),b-a-S0.size()); auto trim=[](const string& s){ size_t i=0,j=s.size(); while(i<j&&isspace((unsigned char)s[i])) i++; while(j>i&&isspace((unsigned char)s[j-1])) j--; return s.substr(i,j-i); }; string tv=trim(val);
    // string
    { string got; bool th=c.throws([&]{ got=getStringValueFromXML(t,key); }); if(nested){} else if(bad) c.require(th,"text value of an ambiguous or open element",got); else { string want; for(char ch: val) if(!isspace((unsigned char)ch)) want+=ch; c.require(!th,"no text value"); c.eq(got,missing?string():want,"text value"); } }
    auto digits=[](const string& s){ size_t i= s.size()&&(s[0]=='+'||s[0]=='-')?1:0; if(i==s.size()) return false; for(;i<s.size();i++) if(!isdigit((unsigned char)s[i])) return false; return true; };
    // a decimal number as a whole: sign, digits with optional point, optional exponent
    auto decimal=[](const string& s){ size_t i=0; auto dig=[&]{ size_t q=i; while(i<s.size()&&isdigit((unsigned char)s[i])) i++; return i-q; }; if(i<s.size()&&(s[i]=='+'||s[i]=='-')) i++; size_t m=dig(); if(i<s.size()&&s[i]=='.'){ i++; m+=dig(); } if(!m) return false; if(i<s.size()&&(s[i]=='e'||s[i]=='E')){ i++; if(i<s.size()&&(s[i]=='+'||s[i]=='-')) i++; if(!dig()) return false; } return i==s.size(); };
    { double got=0; bool th=c.throws([&]{ got=getDoubleValueFromXML(t,key); }); if(bad) c.require(th,"number of an ambiguous or open element"); else if(missing){ c.require(!th&&got==10E-14,"missing number"); } else if(decimal(tv)){ double w=strtod(tv.c_str(),nullptr); if(std::isfinite(w)&&(w==0||fabs(w)>=2.3e-308)){ c.require(!th,"number rejected",tv); c.require(got==w,"number",fmt("%s read as %.17g",tv.c_str(),got)); c.label("number read"); } } else c.require(th,"text read as a number",fmt("'%s' read as %.17g",tv.c_str(),got)); }
    { int got=0; bool th=c.throws([&]{ got=getIntegerValueFromXML(t,key); }); if(bad) c.require(th,"integer of an ambiguous or open element"); else if(missing) c.require(!th&&got==-10000000,"missing integer"); else if(digits(tv)){ errno=0; long long w=strtoll(tv.c_str(),nullptr,10); if(!errno&&w>=INT_MIN&&w<=INT_MAX){ c.require(!th,"integer rejected",tv); c.eq(got,(int)w,"integer"); c.label("integer read"); } else c.require(th,"integer out of range accepted",tv); } else c.require(th,"text read as an integer",tv); }
    // text functions
    { string got; bool th=c.throws([&]{ got=extractContentBetweenKeys(t,key); }); if(missing||bad||nested) c.require(th,"content of a missing, open or repeated element"); else { c.require(!th,"no content"); c.eq(got,val,"content"); } }
    { vector<string> want; bool open=false; for(size_t q=t.find(S0);q!=string::npos;){ size_t e=t.find(E0,q+S0.size()); if(e==string::npos){ open=t.find_first_not_of(" \t\r\n",q+S0.size())!=string::npos; break; } want.push_back(t.substr(q+S0.size(),e-q-S0.size())); q=t.find(S0,e+E0.size()); } vector<string> got; bool th=c.throws([&]{ got=extractContents(t,key); }); c.require(th==open,"end tag of a repeated element"); if(!open) c.require(got==want,"contents of a repeated element",fmt("%d, expected %d",(int)got.size(),(int)want.size())); c.labelIf(want.size()>1,"repeated element"); }
    c.labelIf(bad,"ambiguous or open"); c.labelIf(missing,"missing"); c.nontrivial(n>1&&!missing); }
static Reg r8({"D03","values",d03values,500000,10000000,500,10,"documents of 0..7 elements with keys that contain each other, complete, without start or without end tag; numbers of all magnitudes and formats, integers in and out of range, text; number, integer, text and content functions against a reference; non-trivial: more than one element and the wanted one present",2500});
// lists, words, written elements
void d03lists(Ctx& c){
    quietDriver(); int n=(int)c.src.range(0,6); vector<double> v; string t=ws(c,true)+"<v>"+ws(c,true); vector<string> sv; for(int i=0;i<n;i++){ double x=magnitude(c); if(x!=0&&fabs(x)<2.3e-308) x=1; string s=num(c,x); if(x!=0&&fabs(x)<2.3e-308) { x=1; s="1"; } v.push_back(x); sv.push_back(s); t+="<item>"+ws(c,true)+s+ws(c,true)+"</item>"+ws(c,true); } t+="</v>"+ws(c,true); if(c.src.chance(0.5)) t="<u><item>4</item></u>"+t; if(c.src.chance(0.5)) t+="<w><item>5</item></w>"; c.desc()<<t; auto got=getDoubleVectorValuesFromXML(t,"v"); c.require(got==v,"list of numbers",pbt::str(got)+" expected "+pbt::str(v)); c.require(getStringVectorValuesFromXML(t,"v")==sv,"list of texts"); c.require(getDoubleVectorValuesFromXML(t,"q").empty()&&getStringVectorValuesFromXML(t,"q").empty(),"missing list");
    // words
    string w=c.src.pick(vector<string>{"yes","y","on","true","enable","enabled","no","n","off","false","disable","disabled","","ye","yess","o","1","0","tru","nope","offf"," on","on "}); static const std::set<string> on={"yes","y","on","true","enable","enabled"}, off={"no","n","off","false","disable","disabled"}; string m=caseMix(c,w); c.eq(checkIfOn(m),on.count(w)>0,"checkIfOn",m); c.eq(checkIfOff(m),off.count(w)>0,"checkIfOff",m); string o=c.src.chance(0.5)?caseMix(c,w):c.src.pick(vector<string>{"yes","kriging","on","x"}); string lo=o; for(auto& ch: lo) ch=tolower(ch); c.eq(isEqual(m,o),!w.empty()&&w==lo,"isEqual",m+" "+o); c.eq(toLower(m),w,"toLower"); string sp; for(char ch: w){ sp+=ws(c,true); sp+=ch; } string ns; for(char ch: w) if(ch!=' ') ns+=ch; c.eq(removeSpacesFromString(sp+ws(c,true)),ns,"removeSpacesFromString");
    // written elements are read back
    int iv=(int)c.src.range(-2147483648LL,2147483647LL); unsigned uv=(unsigned)c.src.below(2147483648u); double dv=c.src.number(1e6); string word="w"+std::to_string(c.src.below(1000)); c.eq(getIntegerValueFromXML(generateXml(string("key"),iv),"key"),iv,"written integer"); c.eq(getIntegerValueFromXML(generateXml(string("key"),uv),"key"),(int)uv,"written unsigned"); c.near(getDoubleValueFromXML(generateXml(string("key"),dv),"key"),dv,1e-15,5.0001e-7,"written number"); c.eq(getStringValueFromXML(generateXml(string("key"),word),"key"),word,"written text");
    if(n){ vector<double> z; for(int i=0;i<n;i++) z.push_back(c.src.number(1e6)); auto back=getDoubleVectorValuesFromXML(generateXmlVector(string("v"),V(z)),"v"); c.eq(back.size(),z.size(),"written list"); for(int i=0;i<n;i++) c.near(back[i],z[i],1e-15,5.0001e-7,"written list"); } else c.require(c.throws([&]{ generateXmlVector(string("v"),vec()); }),"empty list written");
    c.nontrivial(n>1); }
static Reg r9({"D03","lists",d03lists,200000,4000000,500,10,"lists of 0..6 items in any white space between other lists, words for on and off in mixed case, elements written and read back; non-trivial: more than one item",1500});
// CSV readers
void d03csv(Ctx& c){
    int rows=(int)c.src.range(0,6), cols=(int)c.src.range(1,5); bool header=c.src.chance(0.3), column=c.src.chance(0.3); if(column){ cols=1; header=false; } string t; if(header) t+="a,b c,\"d\"\n"; string eol=c.src.chance(0.2)?"\r\n":"\n"; for(int i=0;i<rows;i++){ for(int j=0;j<cols;j++){ double v=magnitude(c); t+=(j?",":"")+string(c.src.chance(0.1)?" ":"")+num(c,v)+(c.src.chance(0.05)?" ":""); } if(i+1<rows||c.src.chance(0.8)) t+=eol; } int n= c.src.chance(0.35)?0:(int)c.src.range(1,3); for(int i=0;i<n;i++) switch(c.src.below(6)){ case 0: t=mutate(c,t,1); break; case 1: t.insert(c.src.below(t.size()+1),c.src.pick(vector<string>{",",",,","\n","\n\n","x","1","1;2"," ","-","e","e5",".","inf","NaN","1e999","0x1","\"","#","1e-320","\r","\t"})); break; default: t.insert(c.src.below(t.size()+1),1,c.src.pick(vector<char>{',','\n','1','-','.',' ','e','x'})); }
    c.desc()<<(header?"header ":"")<<(column?"vector ":"")<<"text "<<t; c.saveDesc(); string f=c.dir+"/table.csv"; writeFile(f,t);
    // reference: lines; 0 well formed, 1 either way, 2 must be rejected
    Rows want; int verdict=0; { size_t p=0; bool first=true; while(p<t.size()){ size_t e=t.find('\n',p); string l=t.substr(p,e==string::npos?string::npos:e-p); p= e==string::npos?t.size():e+1; if(first&&header){ first=false; continue; } first=false; vector<double> r; size_t q=0; if(l.find_first_not_of(" \t\r\v\f")==string::npos){ verdict=std::max(verdict,1); if(column) verdict=2; want.push_back({}); continue; } for(;;){ size_t k=column?string::npos:l.find(',',q); string s=l.substr(q,k==string::npos?string::npos:k-q); size_t a=s.find_first_not_of(" \t\r\v\f"), b=s.find_last_not_of(" \t\r\v\f"); string v= a==string::npos?"":s.substr(a,b+1-a); char* end; double d=strtod(v.c_str(),&end); if(v.size()!=strlen(v.c_str())) verdict=std::max(verdict,1); if(v.empty()){ if(k==string::npos&&q==l.size()&&q>0) verdict=std::max(verdict,1); else verdict=2; } else if(*end||end==v.c_str()) verdict=2; else if(!std::isfinite(d)||(d!=0&&fabs(d)<2.3e-308)||v.find_first_of("xXnN\v\f")!=string::npos||s.find_first_of("\v\f")!=string::npos||(d==0&&v.find_first_of("123456789")!=string::npos)) verdict=std::max(verdict,1); if(!(v.empty()&&verdict==1)) r.push_back(d); if(k==string::npos) break; q=k+1; } want.push_back(r); } }
    if(!column) { if(want.empty()) verdict=2; for(auto& r: want) if(r.size()!=want[0].size()) verdict=std::max(verdict,r.empty()||want[0].empty()||verdict==1?1:2); }
    bool th=false; Rows got; try { if(column){ vec v; v.readFromCSV(f); for(double d: S(v)) got.push_back({d}); } else { mat m; m.readFromCSV(f,header); got=R(m); } } catch(const std::exception&){ th=true; } fs::remove(f);
    if(verdict==2) c.require(th,"invalid table accepted",::str(got)); if(verdict==0){ c.require(!th,"valid table rejected"); c.require(got==want,"table",::str(got)+" expected "+::str(want)); }
    c.label(verdict==0?"well formed":verdict==1?"values or error":"invalid"); c.label(th?"rejected":"read"); c.labelIf(column,"vector"); c.nontrivial(rows>1); }
static Reg r10({"D03","csv",d03csv,400000,8000000,300,10,"tables of 0..6 rows and 1..5 columns with numbers of all magnitudes and formats, with and without header and line ends, after 0..3 changes (separators, line ends, characters, tokens, pieces), read as matrix or vector: well-formed tables exactly, tables with a cell that is no number or lines of different length rejected, others without crash; non-trivial: more than one row",2500});
// typed keywords over one document: each keyword gets its own value, whatever else the document holds
static void d03keys(Ctx& c){
    static const vector<string> names{"a","aa","a_b","b","ab","item_list","name","name_x"}; struct K { string name,type,text; bool present; double d; int i; string s; vector<string> sv; vector<double> dv; }; vector<K> ks; auto perm=c.src.permutation((int)names.size()); int n=(int)c.src.range(1,6), set=0;
    auto word=[&]{ string w; int m=(int)c.src.range(1,6); for(int q=0;q<m;q++) w+=c.src.pick(vector<string>{"x","Y","7","_",".","/","-"}); return w; }; auto sp=[&]{ string w; int m=(int)c.src.below(3); for(int q=0;q<m;q++) w+=c.src.pick(vector<string>{" ","\t","\n"}); return w; };
    auto make=[&](const string& nm,const string& ty){ K k; k.name=nm; k.type=ty; k.present=true; k.d=0; k.i=0; string v; if(k.type=="string"){ k.s=word(); v=sp()+k.s+sp(); } else if(k.type=="int"){ k.i=(int)(c.src.chance(0.2)?c.src.range(-2147483647LL,2147483647LL):c.src.range(-100,100)); if(k.i==-10000000) k.i=1; v=sp()+std::to_string(k.i)+sp(); } else if(k.type=="double"){ k.d=(c.src.chance(0.5)?1:-1)*c.src.logreal(1e-9,1e9); v=sp()+fmt("%.17g",k.d)+sp(); } else { int m=(int)c.src.range(1,5); for(int q=0;q<m;q++){ if(k.type=="stringVector"){ k.sv.push_back(word()); v+=sp()+"<item>"+sp()+k.sv.back()+sp()+"</item>"+sp(); } else { k.dv.push_back(c.src.chance(0.2)?0.0:c.src.real(-1,1)*c.src.logreal(1e-9,1e9)); v+=sp()+"<item>"+sp()+fmt("%.17g",k.dv.back())+sp()+"</item>"+sp(); } } } k.text="<"+k.name+">"+v+"</"+k.name+">"; return k; };
    for(int q=0;q<n;q++){ K k=make(names[perm[q]],c.src.pick(vector<string>{"string","int","double","stringVector","doubleVector"})); if(k.type!="double"&&c.src.chance(0.3)) k.present=false; ks.push_back(k); }
    vector<Keyword> kw(n); for(int q=0;q<n;q++){ kw[q].setName(ks[q].name); kw[q].setType(ks[q].type); c.eq(kw[q].getName(),ks[q].name,"name"); }
    if(c.src.chance(0.3)){ string doc="\n"; for(int q=0;q<n;q++) if(c.src.chance(0.5)){ doc+=make(ks[q].name,ks[q].type).text+"\n"; } c.desc()<<"first "<<doc; for(auto& k: kw) k.getValueFromXMLString(doc); c.label("read before"); }
    string doc=sp()+"\n"; auto order=c.src.permutation(n); for(int q: order) if(ks[q].present) doc+=sp()+ks[q].text+sp(); c.desc()<<doc;
    for(int q=0;q<n;q++){ auto& k=ks[q]; auto& w=kw[q]; w.getValueFromXMLString(doc); bool un=c.throws([&]{w.returnErrorIfNotSet();}); c.require(un==!k.present,k.present?"keyword of the document is not set":"keyword without value in the document is set",k.name); set+=k.present; if(!k.present) continue;
        if(k.type=="string") c.eq(w.getStringValue(),k.s,"string"); else c.require(c.throws([&]{w.getStringValue();}),"type"); if(k.type=="int") c.eq(w.getIntValue(),k.i,"integer"); else c.require(c.throws([&]{w.getIntValue();}),"type"); if(k.type=="double") c.eq(w.getDoubleValue(),k.d,"real number"); else c.require(c.throws([&]{w.getDoubleValue();}),"type");
        if(k.type=="stringVector"){ c.require(w.getStringValueVector()==k.sv,"strings"); for(size_t i=0;i<k.sv.size();i++) c.eq(w.getStringValueVectorAt((unsigned)i),k.sv[i],"string of the list"); c.require(c.throws([&]{w.getStringValueVectorAt((unsigned)k.sv.size());}),"index beyond the list"); } else c.require(c.throws([&]{w.getStringValueVector();}),"type");
        if(k.type=="doubleVector"){ c.require(w.getDoubleValueVector()==k.dv,"numbers"); for(size_t i=0;i<k.dv.size();i++) c.eq(w.getDoubleValueVectorAt((unsigned)i),k.dv[i],"number of the list"); c.require(c.throws([&]{w.getDoubleValueVectorAt((unsigned)k.dv.size());}),"index beyond the list"); } else c.require(c.throws([&]{w.getDoubleValueVector();}),"type"); }
    if(c.src.chance(0.1)){ Keyword e; c.require(c.throws([&]{e.setName("");})&&c.throws([&]{e.setType("real");})&&c.throws([&]{e.getValueFromXMLString("<a>1</a>");}),"invalid keyword accepted"); e.setName("a"); c.require(c.throws([&]{e.getValueFromXMLString("<a>1</a>");}),"keyword without type accepted"); }
    c.nontrivial(set>1); }
static Reg r11({"D03","keywords",d03keys,200000,4000000,500,10,"documents with 1..6 elements of the five types, names that contain each other, any order and white space, some absent, keyword objects used before; non-trivial: two keywords set or more",1000});
}
