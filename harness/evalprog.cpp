// External program used in the generated studies: reads the design file, writes output files, fails on demand and
// logs every run. Started as "<exe>" or, through a "python" found first in PATH, as "python <script>".
// Behaviour is read from "<name>.spec":
//   log FILE / design FILE / dim D / count FILE
//   out FILE FORMAT kind scale off rnd a.. b.. lo.. hi..        (FORMAT: index of the text layout)
//   fault RUN MODE ARG
#include "fun.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
using std::string; using std::vector;
struct Out { string file; int format; opt::Fun f; };
static string text(int format,double v){ char b[200]; switch(format){ case 0: snprintf(b,200,"%.17g\n",v); break; case 1: snprintf(b,200,"%.17g",v); break; case 2: snprintf(b,200,"\n\n  \t%.17e\n",v); break; case 3: snprintf(b,200,"%+.17g 12.5 -3\n",v); break; case 4: snprintf(b,200,"%.17g\n0.25\n1e9\nend\n",v); break; case 5: snprintf(b,200,"\t%.17E\r\n",v); break; default: snprintf(b,200,"   %.17g   some text\n",v); } return b; }
static void die(int sig){ signal(sig,SIG_DFL); raise(sig); _exit(99); }
int main(int argc,char** argv){
    string name=argv[0]; size_t p=name.rfind('/'); string base=p==string::npos?name:name.substr(p+1); bool script=base=="python"||base=="python3"; if(script){ if(argc<2) return 90; name=argv[1]; }
    std::ifstream spec(name+".spec"); if(!spec) return 91; string key,logf,design,countf; int d=0, frun=0, mode=0, arg=0; vector<Out> outs; size_t dim=0;
    while(spec>>key){ if(key=="log") spec>>logf; else if(key=="design") spec>>design; else if(key=="dim"){ spec>>d; dim=d; } else if(key=="count") spec>>countf; else if(key=="fault") spec>>frun>>mode>>arg; else if(key=="out"){ Out o; spec>>o.file>>o.format>>o.f.kind; auto num=[&]{ string t; spec>>t; return strtod(t.c_str(),nullptr); }; o.f.scale=num(); o.f.off=num(); o.f.rnd=num(); for(auto* v: {&o.f.a,&o.f.b,&o.f.lo,&o.f.hi}) for(size_t k=0;k<dim;k++) v->push_back(num()); outs.push_back(o); } }
    int run=0; { std::ifstream c(countf); c>>run; } run++; { std::ofstream c(countf); c<<run; }
    vector<double> x; string raw; { std::ifstream f(design); string t; bool bad=!f; while(f>>t){ char* e; double v=strtod(t.c_str(),&e); if(*e) bad=true; x.push_back(v); } if(bad||x.size()<dim) raw="bad"; }
    bool fault=frun==run; std::ostringstream line; line<<name<<"|"<<run<<"|"<<(script?"python":"direct")<<"|"<<(raw.empty()?"ok":raw)<<"|"<<(fault?mode:0)<<"|"; char b[64]; line<<x.size(); for(double v: x){ snprintf(b,64," %.17g",v); line<<b; } line<<"|"; line<<outs.size();
    while(x.size()<dim) x.push_back(0);
    vector<double> vals; for(auto& o: outs){ double v=o.f(x.data()); vals.push_back(v); snprintf(b,64," %.17g",v); line<<b; } line<<"\n";
    { int fd=open(logf.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); string s=line.str(); if(fd<0||::write(fd,s.data(),s.size())!=(ssize_t)s.size()) return 92; close(fd); }
    // modes: 1 exit code before writing, 2 after writing, 3 signal before, 4 signal after, 5 no file, 6 empty file, 7 blank file, 8 text, 9 incomplete number, 10 nan/inf
    if(fault&&mode==1) return arg; if(fault&&mode==3) die(arg);
    bool first=true; for(size_t i=0;i<outs.size();i++){ string t=text(outs[i].format,vals[i]); if(fault&&i==0&&mode>=5){ if(mode==5){ continue; } const char* blank[]={" ","\n","\t \r\n \n"}; const char* words[]={"error","none\n","# result\n1.5\n","value: 1.5","--","x1.5\n","e5","*****\n"}; const char* part[]={"-","+","1e","2.5E","1.5e+","-.","."," \n-\n","3.0e-\n"}; const char* nf[]={"nan","inf","-inf","NaN\n","1e999","-1e4000\n"}; t= mode==6?"":mode==7?blank[arg%3]:mode==8?words[arg%8]:mode==9?part[arg%9]:nf[arg%6]; } std::ofstream f(outs[i].file); f<<t; if(!f) return 93; (void)first; }
    if(fault&&mode==2) return arg; if(fault&&mode==4) die(arg); return 0; }
