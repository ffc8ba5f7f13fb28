// Small property-based testing framework: choice-sequence generators with internal shrinking,
// process isolation per case (or per batch of cases), deterministic replay.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <limits>
#include <iomanip>

namespace pbt {

inline uint64_t splitmix(uint64_t &s){
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b){ uint64_t s = a ^ (b * 0xD6E8FEB86659FD93ULL + 0x632BE59BD9B4E019ULL); splitmix(s); return splitmix(s); }
uint64_t hashString(const std::string &s);

struct Discard {};
struct Failure { std::string key, msg; };

// Source of choices: either fresh random choices (recorded) or a given list (then zeros).
extern char* descLog; // shared description of the running case (3000 bytes)
extern uint64_t* choiceLog; extern uint64_t choiceLogCap;  // shared with the parent process: choices of the running case survive a crash
class Src {
public:
    std::vector<uint64_t> rec;
    std::vector<uint64_t> given;
    bool replay = false;
    uint64_t state = 0;
    explicit Src(uint64_t seed): state(seed) {}
    explicit Src(const std::vector<uint64_t>& g): given(g), replay(true) {}

    // value in [0,n)
    uint64_t below(uint64_t n){
        if(n <= 1){ return 0; }
        uint64_t v;
        if(replay){ v = rec.size() < given.size() ? given[rec.size()] : 0; if(v >= n) v = n-1; }
        else { v = splitmix(state) % n; }
        rec.push_back(v);
        if(choiceLog && rec.size() <= choiceLogCap){ choiceLog[rec.size()] = v; choiceLog[0] = rec.size(); }
        return v;
    }
    int64_t range(int64_t lo, int64_t hi){ return lo + (int64_t)below((uint64_t)(hi-lo)+1); }
    bool chance(double p){ // false is the simple value
        uint64_t v = below(1000); return v >= (uint64_t)std::llround(1000*(1-p)) ; }
    double unit(){ return (double)below(1ULL<<40) / (double)(1ULL<<40); } // [0,1)
    double real(double lo, double hi){ return lo + (hi-lo)*unit(); }
    double normal(){ double s=0; for(int i=0;i<12;i++) s+=unit(); return s-6; }
    template<class T> const T& pick(const std::vector<T>& v){ return v[below(v.size())]; }
    double logreal(double lo, double hi){ return std::exp(real(std::log(lo), std::log(hi))); }
    // a small "interesting" number: shrinks to 0, then small integers
    double number(double scale = 10){
        switch(below(6)){
        case 0: return 0.0;
        case 1: return (double)range(0,5);
        case 2: return -(double)range(0,5);
        case 3: return real(-scale,scale);
        case 4: return real(-1,1);
        default: { double m = real(-1,1); int e = (int)range(-8,8); return m*std::pow(10.0,e); }
        }
    }
    std::vector<int> permutation(int n){ std::vector<int> p(n); for(int i=0;i<n;i++)p[i]=i; for(int i=n-1;i>0;i--){ int j=i-(int)below(i+1); std::swap(p[i],p[j]); } return p; }
};

class Ctx {
public:
    Src src;
    std::string dir;          // private scratch directory (fork mode: also the cwd)
    bool thorough = false;
    bool san = false;         // sanitizer flavour: smaller cases
    bool nontriv = false;
    std::map<std::string,uint64_t> labels;
    std::ostringstream d;
    explicit Ctx(const Src& s): src(s) { d << std::setprecision(12); }
    std::ostringstream& desc(){ return d; }
    void saveDesc(){ if(descLog){ std::string t=d.str().substr(0,2990); std::copy(t.begin(),t.end(),descLog); descLog[t.size()]=0; } } // kept if the process dies
    void nontrivial(bool b = true){ if(b) nontriv = true; }
    void label(const std::string& l, uint64_t n = 1){ labels[l] += n; }
    void labelIf(bool b, const std::string& l){ if(b) labels[l]++; }
    [[noreturn]] void fail(const std::string& key, const std::string& msg){ throw Failure{key,msg}; }
    void require(bool ok, const std::string& key, const std::string& msg = ""){ if(!ok) fail(key,msg); }
    template<class F> auto requireF(bool ok, const std::string& key, F f) -> decltype(f(std::declval<std::ostream&>()),void()) {
        if(!ok){ std::ostringstream o; o << std::setprecision(17); f(o); fail(key,o.str()); } }
    // |a-b| <= atol + rtol*max(|a|,|b|); both NaN is a mismatch
    static bool close(double a, double b, double rtol, double atol){
        if(a == b) return true;
        if(!std::isfinite(a) || !std::isfinite(b)) return false;
        return std::fabs(a-b) <= atol + rtol*std::max(std::fabs(a),std::fabs(b)); }
    void near(double got, double want, double rtol, double atol, const std::string& key, const std::string& what = ""){
        if(!close(got,want,rtol,atol)){ std::ostringstream o; o << std::setprecision(17) << what << " got " << got << " expected " << want << " (rtol " << rtol << ", atol " << atol << ")"; fail(key,o.str()); } }
    template<class A, class B> void eq(const A& got, const B& want, const std::string& key, const std::string& what = ""){
        if(!(got == want)){ std::ostringstream o; o << std::setprecision(17) << what << " got " << got << " expected " << want; fail(key,o.str()); } }
    [[noreturn]] void discard(){ throw Discard{}; }
    // expects that f throws something derived from std::exception (or anything)
    template<class F> bool throws(F f){ try { f(); } catch(const Failure&){ throw; } catch(const Discard&){ throw; } catch(...){ return true; } return false; }
};

struct Facet {
    std::string prop, name;
    std::function<void(Ctx&)> fn;
    int quick, thorough;      // number of cases
    int batch;                // cases per process (1: own process and own working directory)
    double timeout;           // seconds per case
    std::string rule;         // how cases are made and what counts as non-trivial
    int sanCases;             // cases for the sanitizer property (0: none)
    int repro = 1;            // > 1: the outcome depends on thread scheduling, a failure is looked for again this many times
};
std::vector<Facet>& facets();
struct Reg { Reg(Facet f){ facets().push_back(std::move(f)); } };

// seeds every random source the code under test uses (see interpose.cpp)
void seedRandomSources(uint64_t seed);

// helpers
std::string readFile(const std::string& p, bool* ok = nullptr);
void writeFile(const std::string& p, const std::string& s);
bool fileExists(const std::string& p);
std::string fmt(const char* f, ...) __attribute__((format(printf,1,2)));
std::string str(const std::vector<double>& v);

struct ProcResult { int status = 0; bool timedout = false; bool exited = false; int code = -1; int sig = 0; std::string out; };
// runs a program (no shell) in dir with a time limit; output (stdout+stderr) captured
ProcResult runProgram(const std::vector<std::string>& argv, const std::string& dir, double timeout, const std::map<std::string,std::string>& env = {});
// runs f in a forked child (same directory); returns its wait status. f's exceptions end the child with code 3.
ProcResult runForked(const std::function<void()>& f, double timeout);
extern std::string selfDir;   // directory of the harness executable (holds 'rodeo', 'evalprog')
}
#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
