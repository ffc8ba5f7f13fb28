// Makes every random source used by the code under test a function of the case seed:
// std::random_device, rand()/srand(), and the clock that seeds static generators.
#include <cstdint>
#include <random>
#include <chrono>
#include <atomic>
#include <cstdlib>

static std::atomic<uint64_t> g_state{0x1234567ULL};
static std::atomic<uint64_t> g_rand{0x7654321ULL};
static inline uint64_t sm(uint64_t z){
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
namespace pbt { void seedRandomSources(uint64_t seed); }
void pbt::seedRandomSources(uint64_t seed){ g_state = sm(seed + 0x9E3779B97F4A7C15ULL); g_rand = sm(seed + 77); }

namespace {
struct Init { Init(){ if(const char* e = std::getenv("PBT_RNG_SEED")) pbt::seedRandomSources(std::strtoull(e,nullptr,10)); } };
Init init __attribute__((init_priority(101)));
}
std::random_device::result_type std::random_device::_M_getval(){
    if(!g_state) g_state = 1;
    return (unsigned)(sm(g_state.fetch_add(0x9E3779B97F4A7C15ULL)) >> 16);
}
extern "C" int rand(void) noexcept { return (int)((sm(g_rand.fetch_add(0x9E3779B97F4A7C15ULL)) >> 20) & 0x7fffffff); }
extern "C" void srand(unsigned) noexcept {}
#ifdef PBT_SEED_CLOCK
// for the command line program: the clock seeds static generators, make it a function of the seed
std::chrono::_V2::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept {
    static uint64_t base = [](){ if(std::getenv("PBT_SAME_CLOCK")) return (uint64_t)0; const char* e = std::getenv("PBT_RNG_SEED"); return e ? (sm(std::strtoull(e,nullptr,10)+5) & 0xffffff) : (uint64_t)0; }();
    return time_point(duration(1700000000000000000LL + (long long)base * 1000003LL));
}
#else
std::chrono::_V2::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept {
    return time_point(duration(1700000000000000000LL));
}
#endif
#ifndef PBT_SEED_CLOCK
// crash points: the process dies at its n-th write to a file
#include <unistd.h>
#include <cstdio>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <csignal>
#include <cerrno>
#include <cstring>
// and full disks: the file whose path ends with failPath takes failLeft more bytes
namespace opt { int killWrite=0, failures=0; const char* failPath=nullptr; long failLeft=0; }
static bool limited(int fd){ if(!opt::failPath||fd<=2) return false; char l[64], p[4096]; snprintf(l,sizeof l,"/proc/self/fd/%d",fd); ssize_t n=readlink(l,p,sizeof p-1); if(n<0) return false; p[n]=0; size_t k=strlen(opt::failPath); return (size_t)n>=k&&!strcmp(p+n-k,opt::failPath); }
static ssize_t take(int fd,const void* b,size_t n){ if((long)n>opt::failLeft){ if(opt::failLeft<=0){ opt::failures++; errno=ENOSPC; return -1; } n=(size_t)opt::failLeft; } ssize_t r=syscall(SYS_write,fd,b,n); if(r>0) opt::failLeft-=r; return r; }
static void crashPoint(int fd){ if(opt::killWrite>0&&fd>2&&--opt::killWrite==0) kill(getpid(),SIGKILL); }
extern "C" ssize_t write(int fd,const void* b,size_t n){ crashPoint(fd); if(limited(fd)) return take(fd,b,n); return syscall(SYS_write,fd,b,n); }
extern "C" ssize_t writev(int fd,const struct iovec* v,int n){ crashPoint(fd); if(limited(fd)){ for(int i=0;i<n;i++) if(v[i].iov_len) return take(fd,v[i].iov_base,v[i].iov_len); return 0; } return syscall(SYS_writev,fd,v,n); }
#endif
