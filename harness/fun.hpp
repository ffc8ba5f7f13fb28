// Generated functions; shared with the external program (evalprog.cpp).
#pragma once
#include <vector>
#include <cmath>
#include <cstddef>
namespace opt {
using std::vector;
struct Fun { int kind=0; double scale=1, off=0, rnd=0; vector<double> a,b,lo,hi;   // value rounded to multiples of rnd if > 0
    double (*user)(const double*)=nullptr;   // a user defined function of the project
    double operator()(const double* p) const { if(user) return user(p); double s=0; size_t d=lo.size(); for(size_t k=0;k<d;k++){ double t=(p[k]-lo[k])/(hi[k]-lo[k]); switch(kind){ case 0: s+=a[k]*t; break; case 1: s+=a[k]*(t-b[k])*(t-b[k]); break; case 2: s+=a[k]*sin(6*t+b[k]); break; case 3: s+=a[k]*fabs(t-b[k]); break; default: s+=a[k]*exp(b[k]*t); } } s=off+scale*s; return rnd>0?std::round(s/rnd)*rnd:s; } };
}
