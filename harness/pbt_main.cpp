#include "pbt.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <cstring>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <set>
#include <filesystem>
#include <atomic>
namespace fs = std::filesystem;
using namespace std;

namespace pbt {
char* descLog=nullptr;
uint64_t* choiceLog=nullptr; uint64_t choiceLogCap=0;
string selfDir;
vector<Facet>& facets(){ static vector<Facet> f; return f; }
uint64_t hashString(const string &s){ uint64_t h = 1469598103934665603ULL; for(unsigned char c: s){ h ^= c; h *= 1099511628211ULL; } return h; }
string readFile(const string& p, bool* ok){ ifstream f(p, ios::binary); if(ok) *ok = (bool)f; ostringstream o; o << f.rdbuf(); return o.str(); }
void writeFile(const string& p, const string& s){ ofstream f(p, ios::binary|ios::trunc); f << s; }
bool fileExists(const string& p){ struct stat st; return stat(p.c_str(),&st)==0; }
string fmt(const char* f, ...){ va_list a; va_start(a,f); char buf[4096]; vsnprintf(buf,sizeof buf,f,a); va_end(a); return buf; }
string str(const vector<double>& v){ ostringstream o; o << setprecision(12) << "["; for(size_t i=0;i<v.size();i++) o << (i?", ":"") << v[i]; o << "]"; return o.str(); }
static double nowMono(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + 1e-9*t.tv_nsec; }

static int waitTimeout(pid_t pid, double timeout, bool& timedout){
    double t0 = nowMono(); int st = 0; timedout = false; useconds_t us = 200;
    while(true){
        pid_t r = waitpid(pid,&st,WNOHANG);
        if(r == pid) return st;
        if(nowMono()-t0 > timeout){ timedout = true; kill(-pid,SIGKILL); kill(pid,SIGKILL); waitpid(pid,&st,0); return st; }
        usleep(us); if(us < 5000) us *= 2;
    }
}
static void fill(ProcResult& r, int st){ r.status = st; r.exited = WIFEXITED(st); if(r.exited) r.code = WEXITSTATUS(st); if(WIFSIGNALED(st)) r.sig = WTERMSIG(st); }
ProcResult runProgram(const vector<string>& argv, const string& dir, double timeout, const map<string,string>& env){
    ProcResult r;
    string out = dir + "/.proc_output";
    pid_t pid = fork();
    if(pid == 0){
        setpgid(0,0);
        int fd = open(out.c_str(),O_CREAT|O_WRONLY|O_TRUNC,0644); dup2(fd,1); dup2(fd,2); if(fd>2) close(fd);
        int nul = open("/dev/null",O_RDONLY); dup2(nul,0);
        if(chdir(dir.c_str())) _exit(126);
        for(auto& e: env) setenv(e.first.c_str(),e.second.c_str(),1);
        vector<char*> a; for(auto& s: argv) a.push_back(const_cast<char*>(s.c_str())); a.push_back(nullptr);
        execv(a[0],a.data()); _exit(127);
    }
    setpgid(pid,pid);
    int st = waitTimeout(pid,timeout,r.timedout); kill(-pid,SIGKILL);
    fill(r,st); r.out = readFile(out); unlink(out.c_str());
    return r;
}
ProcResult runForked(const function<void()>& f, double timeout){
    ProcResult r; fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0){ setpgid(0,0); int c = 0; try { f(); } catch(...){ c = 3; } _exit(c); }
    setpgid(pid,pid);
    int st = waitTimeout(pid,timeout,r.timedout); kill(-pid,SIGKILL); fill(r,st); return r;
}
}
using namespace pbt;

// ------------------------------------------------------------------------------------------------
struct Opts { string prop, tier="quick", evidence, replayDir="replays", known, replay, facet; uint64_t seed=1; bool crashOnly=false, san=false; double budget=0; int jobs=8; string scratch; double scale=1; string list; string only; bool verbose=false; };
static Opts O;

enum Outcome { OK=0, FAIL=1, DISCARD=2, CRASH=3, HANG=4 };
struct CaseResult {
    int facet=0; int index=0; Outcome out=OK; bool nontriv=false; uint64_t hash=0; string key,msg,desc; vector<uint64_t> choices; map<string,uint64_t> labels; int batchStart=-1;
};
// serialisation over the pipe
static void putU(string& s, uint64_t v){ s.append((char*)&v,8); }
static void putS(string& s, const string& t){ putU(s,t.size()); s += t; }
struct Rd { const string& s; size_t p=0; bool bad=false; uint64_t u(){ if(p+8>s.size()){bad=true;return 0;} uint64_t v; memcpy(&v,&s[p],8); p+=8; return v; } string st(){ uint64_t n=u(); if(bad||p+n>s.size()){bad=true;return "";} string t=s.substr(p,n); p+=n; return t; } };

static string scratchBase;
static uint64_t caseSeed(const Facet& f, int index){ return mix(mix(O.seed, hashString(f.prop+"/"+f.name)), (uint64_t)index+1); }

// executes one case in the current process; result serialised
static CaseResult execCase(int fi, int index, const vector<uint64_t>* given, uint64_t rng, const string& dir, bool wantDesc){
    Facet& f = facets()[fi];
    CaseResult r; r.facet = fi; r.index = index;
    seedRandomSources(rng);
    if(choiceLog) choiceLog[0]=0;
    if(descLog) descLog[0]=0;
    Src s = given ? Src(*given) : Src(rng);
    Ctx c(s); c.dir = dir; c.thorough = (O.tier=="thorough"); c.san = O.san;
    try { f.fn(c); r.out = OK; }
    catch(const Failure& e){ r.out = FAIL; r.key = e.key; r.msg = e.msg; }
    catch(const Discard&){ r.out = DISCARD; }
    catch(const exception& e){ r.out = FAIL; r.key = "exception"; r.msg = string("unexpected exception: ") + e.what(); }
    catch(...){ r.out = FAIL; r.key = "exception"; r.msg = "unexpected exception of unknown type"; }
    r.nontriv = c.nontriv && r.out != DISCARD; r.labels = c.labels; r.choices = c.src.rec;
    uint64_t h = hashString(f.name); for(auto v: c.src.rec) h = mix(h,v); r.hash = h;
    if(wantDesc || r.out == FAIL) { r.desc = c.d.str(); if(r.desc.size() > 3000) r.desc = r.desc.substr(0,3000) + "..."; }
    return r;
}
static string ser(const CaseResult& r, bool withChoices){
    string s; putU(s,r.facet); putU(s,r.index); putU(s,r.out); putU(s,r.nontriv); putU(s,r.hash); putS(s,r.key); putS(s,r.msg); putS(s,r.desc);
    if(withChoices || r.out==FAIL){ putU(s,r.choices.size()); for(auto v: r.choices) putU(s,v); } else putU(s,0);
    putU(s,r.labels.size()); for(auto& l: r.labels){ putS(s,l.first); putU(s,l.second); }
    return s;
}
static bool deser(const string& s, CaseResult& r){ Rd d{s}; r.facet=d.u(); r.index=d.u(); r.out=(Outcome)d.u(); r.nontriv=d.u(); r.hash=d.u(); r.key=d.st(); r.msg=d.st(); r.desc=d.st(); uint64_t n=d.u(); for(uint64_t i=0;i<n&&!d.bad;i++) r.choices.push_back(d.u()); n=d.u(); for(uint64_t i=0;i<n&&!d.bad;i++){ string k=d.st(); r.labels[k]=d.u(); } return !d.bad; }
static bool writeAll(int fd, const string& s){ size_t p=0; while(p<s.size()){ ssize_t n=write(fd,s.data()+p,s.size()-p); if(n<=0){ if(n<0&&errno==EINTR)continue; return false;} p+=n; } return true; }

static void rmTree(const string& p){ if(p.compare(0,scratchBase.size(),scratchBase)!=0 || p.size()<=scratchBase.size()) return; error_code ec; fs::remove_all(p,ec); }
static string tailOf(const string& s, size_t n){
    // the interesting part of a sanitizer report is its head
    size_t q = s.find("ERROR: "); if(q==string::npos) q = s.find("runtime error"); if(q!=string::npos){ size_t b = q>200?q-200:0; return s.substr(b,n); }
    return s.size()>n ? s.substr(s.size()-n) : s; }

// Runs cases [from,to) (or one case from a choice list) in a child process.
static vector<CaseResult> runChild(int fi, int from, int to, const vector<uint64_t>* given, uint64_t givenRng, const string& tag, bool withChoices, bool wantDesc){
    Facet& f = facets()[fi];
    static uint64_t* shm=nullptr; static pid_t shmOwner=0; const uint64_t cap=1<<18; if(!shm||shmOwner!=getpid()){ shm=(uint64_t*)mmap(nullptr,(cap+1)*8+4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); shmOwner=getpid(); } shm[0]=0; ((char*)(shm+cap+1))[0]=0;
    int p[2]; if(pipe(p)) { perror("pipe"); exit(2); }
    string dir = scratchBase + "/" + tag; rmTree(dir); mkdir(dir.c_str(),0755);
    fflush(nullptr);
    pid_t pid = fork();
    if(pid < 0){ perror("fork"); exit(2); }
    if(pid == 0){
        setpgid(0,0); prctl(PR_SET_PDEATHSIG,SIGKILL);
        close(p[0]); fcntl(p[1],F_SETFD,FD_CLOEXEC);
        int nul = open("/dev/null",O_RDWR); dup2(nul,0); if(!getenv("PBT_STDOUT")) dup2(nul,1);
        int er = open((dir+".err").c_str(),O_CREAT|O_WRONLY|O_TRUNC,0644); dup2(er,2); close(er); close(nul);
        struct rlimit rl{0,0}; setrlimit(RLIMIT_CORE,&rl);
        if(!O.san){ struct rlimit as{3ULL<<30,3ULL<<30}; setrlimit(RLIMIT_AS,&as); }
        choiceLog=shm; choiceLogCap=cap; descLog=(char*)(shm+cap+1);
        if(chdir(dir.c_str())) _exit(90);
        for(int i=from;i<to;i++){
            string st; putU(st,0); putU(st,(uint64_t)i); writeAll(p[1],st);
            CaseResult r = execCase(fi,i,given,given?givenRng:caseSeed(f,i),dir,wantDesc);
            string b = ser(r,withChoices), h; putU(h,b.size()); writeAll(p[1],h+b);
        }
        fflush(nullptr);
        _exit(0);
    }
    setpgid(pid,pid); close(p[1]);
    vector<CaseResult> res; string buf; int cur=-1; size_t pos=0; double limit = f.timeout*(O.san?6:1), last=nowMono(); bool hang=false;
    while(true){
        struct pollfd pf{p[0],POLLIN,0}; int pr = poll(&pf,1,100);
        if(pr>0){ char tmp[65536]; ssize_t n=read(p[0],tmp,sizeof tmp); if(n<=0){ if(n<0&&errno==EINTR) continue; break; } buf.append(tmp,n);
            while(buf.size()-pos>=8){ uint64_t len; memcpy(&len,&buf[pos],8);
                if(len==0){ if(buf.size()-pos<16) break; uint64_t ix; memcpy(&ix,&buf[pos+8],8); cur=(int)ix; last=nowMono(); pos+=16; continue; }
                if(buf.size()-pos<8+len) break; CaseResult r; string b=buf.substr(pos+8,len); pos+=8+len; if(deser(b,r)){ r.batchStart=from; res.push_back(r); cur=-1; last=nowMono(); } }
            if(pos>1<<20){ buf.erase(0,pos); pos=0; } }
        else if(nowMono()-last>limit){ hang=true; kill(-pid,SIGKILL); kill(pid,SIGKILL); break; }
    }
    close(p[0]);
    int st=0; bool to2=false; if(hang) waitpid(pid,&st,0); else st=waitTimeout(pid,10,to2);
    kill(-pid,SIGKILL);
    bool bad = hang || to2 || !(WIFEXITED(st)&&WEXITSTATUS(st)==0);
    if(bad){
        CaseResult r; r.facet=fi; r.index = cur>=0?cur:(res.empty()?from:res.back().index); r.batchStart=from; r.out = hang?HANG:CRASH;
        r.key = hang?"hang":"crash"; ostringstream m;
        if(hang) m << "no result within " << limit << " s"; else if(WIFSIGNALED(st)) m << "process died from signal " << WTERMSIG(st); else m << "process exited with status " << WEXITSTATUS(st) << " without finishing the case";
        string e = readFile(dir+".err"); if(!e.empty()) m << "; stderr: " << tailOf(e,1500);
        r.msg = m.str(); if(cur>=0){ uint64_t n=min<uint64_t>(shm[0],cap); r.choices.assign(shm+1,shm+1+n); } r.desc=((char*)(shm+cap+1))[0]?string((char*)(shm+cap+1)):string("(case ended before it could describe itself)"); res.push_back(r);
    }
    unlink((dir+".err").c_str()); rmTree(dir);
    return res;
}

struct Known { string prop,facet,key,text; };
static vector<Known> knowns;
static void loadKnown(const string& p){ ifstream f(p); string l; while(getline(f,l)){ if(l.compare(0,6,"KNOWN ")!=0) continue; Known k; istringstream i(l.substr(6)); string w; while(i>>w){ if(w.compare(0,9,"property=")==0) k.prop=w.substr(9); else if(w.compare(0,6,"facet=")==0) k.facet=w.substr(6); else if(w.compare(0,4,"key=")==0) k.key=w.substr(4); else { string rest; getline(i,rest); k.text=w+rest; break; } } knowns.push_back(k); } }
static const Known* isKnown(const Facet& f, const CaseResult& r){ for(auto& k: knowns) if(k.prop==f.prop && k.facet==f.name && k.key==r.key) return &k; return nullptr; }

static string jesc(const string& s){ string o; for(unsigned char c: s){ switch(c){ case '"': o+="\\\""; break; case '\\': o+="\\\\"; break; case '\n': o+="\\n"; break; case '\t': o+="\\t"; break; case '\r': o+="\\r"; break; default: if(c<0x20||c>=0x7f){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } } return o; }

// same failure? outcomes FAIL need equal key
static bool sameFailure(const CaseResult& a, const CaseResult& b){ if(a.out==OK||a.out==DISCARD||b.out==OK||b.out==DISCARD) return false; return a.key==b.key; }
static bool isBad(const CaseResult& r){ if(O.crashOnly) return r.out==CRASH || (r.out==HANG); return r.out==FAIL||r.out==CRASH||r.out==HANG; }

static CaseResult runOne(int fi, const vector<uint64_t>& ch, uint64_t rng, const string& tag){ auto v = runChild(fi,0,1,&ch,rng,tag,true,true); return v.empty()?CaseResult():v.back(); }
static CaseResult runRetry(int fi, const vector<uint64_t>& ch, uint64_t rng, const string& tag){ CaseResult r; for(int k=0;k<max(1,facets()[fi].repro);k++){ r=runOne(fi,ch,rng,tag); if(isBad(r)) break; } return r; }

static CaseResult shrink(int fi, CaseResult best, uint64_t rng, double budget){
    double t0 = nowMono(); int tried=0;
    auto attempt = [&](const vector<uint64_t>& c)->bool{ if(nowMono()-t0>budget) return false; tried++; CaseResult r = runOne(fi,c,rng,"shrink"); if(isBad(r)&&sameFailure(r,best)){ // adopt what was really consumed
            vector<uint64_t> used = r.choices.empty()?c:r.choices; if(r.out!=FAIL) used=c; r.choices=used; best=r; return true; } return false; };
    auto less = [](const vector<uint64_t>&a,const vector<uint64_t>&b){ return a.size()!=b.size()?a.size()<b.size():a<b; };
    bool progress=true;
    while(progress && nowMono()-t0<budget){
        progress=false;
        for(size_t len: {64,16,8,4,2,1}) for(size_t i=0;i+len<=best.choices.size();){ if(nowMono()-t0>budget) break; auto c=best.choices; c.erase(c.begin()+i,c.begin()+i+len); if(less(c,best.choices)&&attempt(c)){ progress=true; } else i+=len; }
        for(size_t len: {16,4,1}) for(size_t i=0;i+len<=best.choices.size();i+=len){ if(nowMono()-t0>budget) break; auto c=best.choices; bool ch=false; for(size_t j=i;j<i+len;j++) if(c[j]){c[j]=0;ch=true;} if(ch&&attempt(c)) progress=true; }
        for(size_t i=0;i<best.choices.size();i++){ if(nowMono()-t0>budget) break; uint64_t lo=0, hi=best.choices[i]; int it=0; while(lo+1<hi && it++<12 && i<best.choices.size()){ uint64_t mid=lo+(hi-lo)/2; auto c=best.choices; c[i]=mid; if(attempt(c)){ progress=true; if(i>=best.choices.size()) break; hi=best.choices[i]; } else lo=mid; if(nowMono()-t0>budget) break; } }
    }
    return best;
}

static string replayText(const Facet& f, const CaseResult& r, uint64_t rng, bool batch){
    ostringstream o; o << "# replay: python3 /verif/check.py " << (O.crashOnly?"M01":f.prop) << " --replay <this file>\n";
    o << "property=" << O.prop << "\nfacet=" << f.prop << "/" << f.name << "\nrng=" << rng << "\ntier=" << O.tier << "\nseed=" << O.seed << "\n";
    if(batch) o << "batch=" << r.batchStart << " " << r.index+1 << "\n";
    else { o << "choices="; for(auto v: r.choices) o << v << " "; o << "\n"; }
    o << "key=" << r.key << "\nmessage=" << r.msg << "\ncase:\n" << r.desc << "\n"; return o.str(); }

static int replayMode(){
    ifstream f(O.replay); if(!f){ cerr << "cannot open replay file\n"; return 2; } string l, facet; uint64_t rng=0; vector<uint64_t> ch; int b0=-1,b1=-1;
    while(getline(f,l)){ if(l.compare(0,6,"facet=")==0) facet=l.substr(6); else if(l.compare(0,4,"rng=")==0) rng=stoull(l.substr(4)); else if(l.compare(0,5,"tier=")==0) O.tier=l.substr(5); else if(l.compare(0,5,"seed=")==0) O.seed=stoull(l.substr(5)); else if(l.compare(0,6,"batch=")==0){ istringstream i(l.substr(6)); i>>b0>>b1; } else if(l.compare(0,8,"choices=")==0){ istringstream i(l.substr(8)); uint64_t v; while(i>>v) ch.push_back(v); } else if(l=="case:") break; }
    for(size_t i=0;i<facets().size();i++){ if(facets()[i].prop+"/"+facets()[i].name!=facet) continue;
        CaseResult r; if(b0>=0){ auto v=runChild(i,b0,b1,nullptr,0,"replay",false,true); r=v.back(); } else r=runRetry(i,ch,rng,"replay");
        cout << "outcome=" << r.out << " key=" << r.key << "\n" << r.msg << "\n" << r.desc << "\n"; if(isBad(r)){ cout << "VIOLATION property=" << O.prop << " replay=" << O.replay << endl; return 1; } return 0; }
    cerr << "unknown facet " << facet << "\n"; return 2; }

int main(int argc, char** argv){
    { char b[4096]; ssize_t n=readlink("/proc/self/exe",b,sizeof b-1); b[n>0?n:0]=0; selfDir=string(b); selfDir=selfDir.substr(0,selfDir.rfind('/')); }
    for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&](){ return string(i+1<argc?argv[++i]:""); };
        if(a=="--prop") O.prop=nx(); else if(a=="--tier") O.tier=nx(); else if(a=="--seed") O.seed=stoull(nx()); else if(a=="--evidence") O.evidence=nx(); else if(a=="--replay-dir") O.replayDir=nx(); else if(a=="--known") O.known=nx(); else if(a=="--replay") O.replay=nx(); else if(a=="--crash-only") O.crashOnly=true; else if(a=="--san") O.san=true; else if(a=="--budget") O.budget=stod(nx()); else if(a=="--jobs") O.jobs=stoi(nx()); else if(a=="--facet") O.facet=nx(); else if(a=="--scale") O.scale=stod(nx()); else if(a=="--only") O.only=nx(); else if(a=="--verbose") O.verbose=true;
        else if(a=="--list"){ for(auto& f: facets()) cout << f.prop << " " << f.name << " " << f.quick << " " << f.thorough << "\n"; return 0; }
        else { cerr << "unknown option " << a << "\n"; return 2; } }
    signal(SIGPIPE,SIG_IGN);
    { string t="/tmp/rodeo_pbt_XXXXXX"; vector<char> b(t.begin(),t.end()); b.push_back(0); if(!mkdtemp(b.data())){ perror("mkdtemp"); return 2; } scratchBase=b.data(); chmod(scratchBase.c_str(),0755); }
    struct Cleanup { pid_t me=getpid(); ~Cleanup(){ if(getpid()==me && scratchBase.compare(0,15,"/tmp/rodeo_pbt_")==0){ error_code ec; fs::remove_all(scratchBase,ec); } } } cleanup;
    if(!O.known.empty()) loadKnown(O.known);
    if(!O.replay.empty()) return replayMode();
    double t0=nowMono(); double deadline = O.budget>0?O.budget:(O.tier=="thorough"?3000:500);
    // work list: chunks of cases of all facets, interleaved
    struct Chunk { int fi, from, to; }; vector<Chunk> chunks; vector<vector<Chunk>> per; vector<int> sel;
    for(size_t i=0;i<facets().size();i++){ auto& f=facets()[i]; if(!O.crashOnly && f.prop!=O.prop) continue; if(!O.facet.empty()&&f.name!=O.facet) continue; if(O.crashOnly&&!O.only.empty()&&f.prop!=O.only) continue;
        int n = O.crashOnly ? (O.tier=="thorough"?f.sanCases*12:f.sanCases) : (O.tier=="thorough"?f.thorough:f.quick); n=(int)ceil(n*O.scale); if(n<=0) continue; sel.push_back(i);
        per.emplace_back(); for(int k=0;k<n;k+=f.batch) per.back().push_back({(int)i,k,min(n,k+f.batch)}); }
    if(sel.empty()){ cerr << "no facet for property " << O.prop << "\n"; return 2; }
    { size_t mx=0; for(auto& v: per) mx=max(mx,v.size()); vector<pair<double,Chunk>> all; for(auto& v: per) for(size_t k=0;k<v.size();k++) all.push_back({(k+0.5)/v.size(),v[k]}); stable_sort(all.begin(),all.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto& a: all) chunks.push_back(a.second); }
    // shared state
    struct Shared { atomic<int> next; atomic<int> skipped; atomic<int> failures; }; Shared* sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sh->next=0; sh->skipped=0; sh->failures=0;
    vector<int> fds; vector<pid_t> pids; int jobs=max(1,min(O.jobs,(int)chunks.size()));
    for(int w=0;w<jobs;w++){ int p[2]; if(pipe(p)) return 2; fflush(nullptr); pid_t pid=fork(); if(pid==0){ close(p[0]); for(int fd: fds) close(fd); fcntl(p[1],F_SETFD,FD_CLOEXEC); prctl(PR_SET_PDEATHSIG,SIGKILL);
            map<int,int> described;
            while(true){ int c=sh->next++; if(c>=(int)chunks.size()) break; if(nowMono()-t0>deadline){ sh->skipped++; continue; } if(sh->failures>12){ sh->skipped++; continue; }
                auto& k=chunks[c]; int from=k.from; bool desc = described[k.fi]<2;
                while(from<k.to){ double ts=nowMono(); auto rs=runChild(k.fi,from,k.to,nullptr,0,fmt("w%d",w),false,desc); if(O.verbose){ fprintf(stderr,"%s %d-%d %.3fs\n",facets()[k.fi].name.c_str(),from,k.to,nowMono()-ts); } int lastIx=from-1; for(auto& r: rs){ string b=ser(r,false),h; putU(h,b.size()); string bs; putU(bs,(uint64_t)r.batchStart); writeAll(p[1],h+bs+b); if(isBad(r)&&!isKnown(facets()[k.fi],r)) sh->failures++; lastIx=max(lastIx,r.index); if(r.nontriv) described[k.fi]++; } from=lastIx+1; if(rs.empty()) break; } }
            close(p[1]); _exit(0); }
        close(p[1]); fds.push_back(p[0]); pids.push_back(pid); }
    struct Stat { uint64_t n=0, nt=0, disc=0, known=0; set<uint64_t> distinct; map<string,uint64_t> labels; vector<string> samples; vector<CaseResult> fails; double dummy=0; };
    map<int,Stat> stats; vector<string> bufs(fds.size()); size_t open=fds.size(); vector<bool> closed(fds.size(),false);
    while(open){ vector<struct pollfd> pf; vector<int> ix; for(size_t i=0;i<fds.size();i++) if(!closed[i]){ pf.push_back({fds[i],POLLIN,0}); ix.push_back(i); } poll(pf.data(),pf.size(),1000);
        for(size_t q=0;q<pf.size();q++){ if(!(pf[q].revents&(POLLIN|POLLHUP))) continue; int i=ix[q]; char tmp[65536]; ssize_t n=read(fds[i],tmp,sizeof tmp); if(n<=0){ closed[i]=true; open--; continue; } string& buf=bufs[i]; buf.append(tmp,n); size_t pos=0;
            while(buf.size()-pos>=16){ uint64_t len,bs; memcpy(&len,&buf[pos],8); memcpy(&bs,&buf[pos+8],8); if(buf.size()-pos<16+len) break; CaseResult r; deser(buf.substr(pos+16,len),r); r.batchStart=(int)bs; pos+=16+len;
                Stat& s=stats[r.facet]; s.n++; if(r.out==DISCARD) s.disc++; if(r.nontriv){ if(s.distinct.insert(r.hash).second) s.nt++; if(s.samples.size()<3&&!r.desc.empty()) s.samples.push_back(r.desc.substr(0,700)); } for(auto& l: r.labels) s.labels[l.first]+=l.second;
                if(isBad(r)){ if(isKnown(facets()[r.facet],r)) s.known++; s.fails.push_back(r); } }
            buf.erase(0,pos); } }
    for(pid_t p: pids){ int st; waitpid(p,&st,0); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ cerr << "a worker died\n"; return 2; } }
    // failures
    set<string> knownSeen; bool violation=false; string unrep; vector<string> viol;
    for(int fi: sel){ Stat& s=stats[fi]; Facet& f=facets()[fi]; sort(s.fails.begin(),s.fails.end(),[](auto&a,auto&b){return a.index<b.index;});
        set<string> keysDone; int tries=0;
        for(auto& r: s.fails){ if(const Known* k=isKnown(f,r)){ if(!O.crashOnly) knownSeen.insert(k->text); continue; } if(keysDone.count(r.key)||tries>=3||(violation&&nowMono()-t0>deadline+120)) continue; tries++;
            uint64_t rng=caseSeed(f,r.index); bool batch=false;
            // reproduce alone
            CaseResult q; for(int k=0;k<max(1,f.repro);k++){ auto v=runChild(fi,r.index,r.index+1,nullptr,0,"repro",true,true); q=v.back(); if(isBad(q)) break; }
            if(!isBad(q)&&f.repro==1){ auto v2=runChild(fi,r.batchStart,r.index+1,nullptr,0,"repro",true,true); q=v2.back(); q.batchStart=r.batchStart; batch=true; if(!isBad(q)){ unrep += f.name+"#"+to_string(r.index)+":"+r.key+" "; cerr << "unreproduced failure in " << f.name << " case " << r.index << " key " << r.key << ": " << r.msg << endl; continue; } }
            if(!isBad(q)){ unrep += f.name+"#"+to_string(r.index)+":"+r.key+" "; cerr << "unreproduced failure in " << f.name << " case " << r.index << " key " << r.key << ": " << r.msg << endl; continue; }
            bool hang=q.key.compare(0,4,"hang")==0; if(!batch&&f.repro==1&&!hang&&!getenv("PBT_NOSHRINK")) q=shrink(fi,q,rng,min(20.0,max(5.0,deadline+100-(nowMono()-t0))));
            int again=0; if(f.repro>1||hang) again=3; for(int i=0;i<3&&f.repro==1&&!hang;i++){ CaseResult z; if(batch) z=runChild(fi,q.batchStart,r.index+1,nullptr,0,"repro",true,true).back(); else z=runOne(fi,q.choices,rng,"repro"); if(isBad(z)) again++; }
            if(again<3){ unrep += f.name+"#"+to_string(r.index)+":"+r.key+" "; cerr << "failure reproduced only " << again << "/3 times in " << f.name << " case " << r.index << ": " << r.msg << endl; if(again==0) continue; }
            keysDone.insert(r.key);
            error_code ec; fs::create_directories(O.replayDir,ec); string path=O.replayDir+"/"+O.prop+"-"+f.name+"-"+to_string(O.seed)+"-"+to_string(r.index)+".replay"; writeFile(path,replayText(f,q,rng,batch));
            cerr << "[" << f.prop << "/" << f.name << "] key=" << q.key << ": " << q.msg << "\n" << q.desc << endl;
            viol.push_back(path); violation=true; cout << "VIOLATION property=" << O.prop << " replay=" << path << endl; } }
    for(auto& t: knownSeen) cout << "KNOWN-FINDING: property=" << O.prop << " " << t << endl;
    uint64_t tot=0,nt=0,disc=0; ostringstream ev; ostringstream per2; bool first=true; vector<string> samples; string rules;
    for(int fi: sel){ Stat& s=stats[fi]; Facet& f=facets()[fi]; tot+=s.n; nt+=s.nt; disc+=s.disc; for(auto& x: s.samples) if(samples.size()<12) samples.push_back(f.name+": "+x); if(!O.crashOnly||rules.empty()) rules += (O.crashOnly?string("cases of all other checks' generators, run with address and undefined-behaviour sanitizers; non-trivial as defined there"):(f.name+": "+f.rule+". "));
        per2 << (first?"":",") << "\n    \"" << f.prop << "/" << f.name << "\": {\"cases\": " << s.n << ", \"distinct_nontrivial\": " << s.nt << ", \"discarded\": " << s.disc << ", \"known\": " << s.known << ", \"labels\": {"; bool l1=true; for(auto& l: s.labels){ per2 << (l1?"":", ") << "\"" << jesc(l.first) << "\": " << l.second; l1=false; } per2 << "}}"; first=false; }
    double wall=nowMono()-t0;
    ev << "{\n \"property\": \"" << O.prop << "\",\n \"tier\": \"" << O.tier << "\",\n \"seed\": " << O.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << tot << ",\n  \"distinct_nontrivial\": " << nt << ",\n  \"discarded\": " << disc << ",\n  \"skipped_chunks\": " << sh->skipped.load() << ",\n  \"unreproduced\": \"" << jesc(unrep) << "\",\n  \"rule\": \"" << jesc(rules) << "\",\n  \"samples\": ["; for(size_t i=0;i<samples.size();i++) ev << (i?",":"") << "\n   \"" << jesc(samples[i]) << "\""; ev << "\n  ],\n  \"facets\": {" << per2.str() << "\n  }\n },\n \"assumptions\": [\"compilers, C++ library and OpenBLAS of the sandbox are correct\", \"random sources of the code under test are replaced by generators seeded per case\"],\n \"violations\": " << viol.size() << ",\n \"wall_s\": " << wall << "\n}\n";
    if(!O.evidence.empty()) writeFile(O.evidence,ev.str());
    cout << O.prop << ": " << tot << " cases, " << nt << " distinct non-trivial, " << disc << " discarded, " << wall << " s" << (violation?"":" - held") << endl;
    if(sh->skipped.load()>0 && !violation) cout << "note: " << sh->skipped.load() << " chunks skipped (time limit)" << endl;
    return violation?1:0;
}
