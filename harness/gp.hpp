// Independent reference implementation (long double) of the surrogate models.
#pragma once
#include "common.hpp"
typedef long double ld;
typedef std::vector<std::vector<ld>> LM;
inline ld expCorr(const std::vector<double>& a, const std::vector<double>& b, const std::vector<double>& th, const std::vector<double>& ga){
    ld s=0; for(size_t k=0;k<a.size();k++){ ld d=fabsl((ld)a[k]-(ld)b[k]); s+=(ld)th[k]*(d==0?(ld)(ga[k]==0?1:0):powl(d,ga[k])); } return expl(-s); }
struct Chol { // factorisation with solve, log determinant and norm of the inverse
    LM L; bool ok=true; int n=0;
    explicit Chol(const LM& A){ n=(int)A.size(); L=LM(n,std::vector<ld>(n,0)); for(int i=0;i<n&&ok;i++) for(int j=0;j<=i;j++){ ld s=A[i][j]; for(int k=0;k<j;k++) s-=L[i][k]*L[j][k]; if(i==j){ if(!(s>0)){ ok=false; break; } L[i][i]=sqrtl(s); } else L[i][j]=s/L[j][j]; } }
    Chol(){}
    std::vector<ld> solve(std::vector<ld> b) const { for(int i=0;i<n;i++){ for(int k=0;k<i;k++) b[i]-=L[i][k]*b[k]; b[i]/=L[i][i]; } for(int i=n-1;i>=0;i--){ for(int k=i+1;k<n;k++) b[i]-=L[k][i]*b[k]; b[i]/=L[i][i]; } return b; }
    ld logdet() const { ld s=0; for(int i=0;i<n;i++) s+=2*logl(L[i][i]); return s; }
    ld invNorm() const { ld best=0; for(int j=0;j<n;j++){ std::vector<ld> e(n,0); e[j]=1; e=solve(e); ld s=0; for(ld x: e) s+=fabsl(x); best=std::max(best,s); } return best; }
};
// ordinary Kriging on normalised inputs
struct GP {
    Rows X; std::vector<double> y, th, ga; double eps=1e-12; LM R; Chol C; std::vector<ld> w, Ri1; ld beta=0, s2=0, oneR1=0, cond=0, wn=0; bool ok=false; ld rowMax=0;
    void build(const Rows& X_, const std::vector<double>& y_, const std::vector<double>& th_, const std::vector<double>& ga_, double eps_=1e-12, bool avgBeta=false){
        X=X_; y=y_; th=th_; ga=ga_; eps=eps_; size_t n=X.size(); R=LM(n,std::vector<ld>(n)); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) R[i][j]= i==j ? 1.0L+(ld)eps : expCorr(X[i],X[j],th,ga);
        C=Chol(R); ok=C.ok; if(!ok) return; for(auto& r: R){ ld s=0; for(ld v: r) s+=fabsl(v); rowMax=std::max(rowMax,s); } cond=rowMax*C.invNorm();
        std::vector<ld> one(n,1), yl(y.begin(),y.end()); Ri1=C.solve(one); auto Riy=C.solve(yl); ld a=0,b=0; for(size_t i=0;i<n;i++){ a+=Ri1[i]; b+=Riy[i]; } oneR1=a; beta=b/a; if(avgBeta){ beta=0; for(ld v: yl) beta+=v; beta/=n; }
        for(auto& v: yl) v-=beta; w=C.solve(yl); s2=0; for(size_t i=0;i<n;i++) s2+=yl[i]*w[i]; s2/=n; wn=0; for(ld v: w) wn+=v*v; wn=sqrtl(wn); }
    std::vector<ld> rvec(const std::vector<double>& x) const { std::vector<ld> r; for(auto& q: X) r.push_back(expCorr(x,q,th,ga)); return r; }
    // prediction with bounds of the rounding errors a double implementation may make
    void predict(const std::vector<double>& x, ld& f, ld& v, ld& tolf, ld& tolv) const {
        auto r=rvec(x); size_t n=X.size(); auto z=C.solve(r); ld rw=0,rz=0,r1=0,zn=0,rn=0,n1=0; for(size_t i=0;i<n;i++){ rw+=r[i]*w[i]; rz+=r[i]*z[i]; r1+=r[i]*Ri1[i]; zn+=z[i]*z[i]; rn+=r[i]*r[i]; n1+=Ri1[i]*Ri1[i]; }
        f=beta+rw; ld t1=(r1-1)*(r1-1)/oneR1, t2=1-rz; v=s2*(t2+t1);
        const ld u=4.5e-16L; zn=sqrtl(zn); rn=sqrtl(rn); n1=sqrtl(n1); ld ymax=0; for(double q: y) ymax=std::max(ymax,fabsl((ld)q));
        ld yd=0; for(double q: y) yd=std::max(yd,fabsl((ld)q-beta)); ld dbeta=u*n*cond*(1+0)*ymax; tolf=1e-12L*(ymax+fabsl(beta))+4*n*u*cond*wn*std::max((ld)1,rn)+2*dbeta*(1+rn*n1); tolf*=2;
        ld rel=4*n*u*cond; ld ds2=s2*(rel)*4+ 2*dbeta*wn/std::max<ld>(1,sqrtl((ld)n)) ; tolv=s2*(3e-9L+4*n*u*cond*(zn*std::max((ld)1,rn)+ (fabsl(r1-1)/oneR1)*n1*rn*2+t1))+ds2*(t2>0?t2+t1:1+t1); tolv*=2; tolv+=n*cond*ymax*ymax*1e-31L*(1+t1+zn*rn); }
    ld likelihood() const { size_t n=X.size(); return s2>0 ? -(ld)n/2*logl(s2)-0.5L*C.logdet() : -INFINITY; }
};
inline std::vector<double> normaliseX(const std::vector<double>& x, const std::vector<double>& lo, const std::vector<double>& hi){ std::vector<double> r(x.size()); for(size_t k=0;k<x.size();k++) r[k]=(double)(((ld)x[k]-lo[k])/((ld)hi[k]-lo[k])/(ld)x.size()); return r; }
// generated training data
struct DataSet { int d=1,n=3; std::vector<double> lo,hi; Rows x; std::vector<double> y; int fun=0; double off=0,scale=1; std::vector<double> a,b;
    double f(const std::vector<double>& p) const { double s=0; for(int k=0;k<d;k++){ double t=(p[k]-lo[k])/(hi[k]-lo[k]); switch(fun){ case 0: s+=a[k]*t; break; case 1: s+=a[k]*(t-b[k])*(t-b[k]); break; case 2: s+=a[k]*sin(6*t+b[k]); break; case 3: s+=a[k]*fabs(t-b[k]); break; default: s+=a[k]*exp(b[k]*t); } } if(fun==2&&d>1) s*=1+0.3*(p[0]-lo[0])/(hi[0]-lo[0]); return off+scale*s; }
    std::vector<double> point(pbt::Ctx& c) const { std::vector<double> p(d); for(int k=0;k<d;k++) p[k]=c.src.real(lo[k],hi[k]); return p; }
    Rows norm() const { Rows r; for(auto& p: x) r.push_back(normaliseX(p,lo,hi)); return r; }
    Rows rows() const { Rows r; for(size_t i=0;i<x.size();i++){ auto q=x[i]; q.push_back(y[i]); r.push_back(q); } return r; }
    void write(const std::string& file) const { std::string s; for(auto& r: rows()){ for(size_t j=0;j<r.size();j++) s+=(j?",":"")+pbt::fmt("%.17g",r[j]); s+="\n"; } pbt::writeFile(file,s); }
    std::string text() const { std::ostringstream o; o<<std::setprecision(12)<<"d="<<d<<" lo="<<pbt::str(lo)<<" hi="<<pbt::str(hi)<<" data="<<str(rows()); return o.str(); }
};
inline std::vector<double> genLo(pbt::Ctx& c,int d,std::vector<double>& hi,bool wild=true){ std::vector<double> lo(d); hi.resize(d); for(int k=0;k<d;k++){ int q=(int)c.src.below(4); if(q==0||!wild){ lo[k]=-(double)c.src.range(0,5); hi[k]=lo[k]+(double)c.src.range(1,10); } else if(q==1){ lo[k]=c.src.real(-10,10); hi[k]=lo[k]+c.src.real(0.5,20); } else if(q==2){ lo[k]=c.src.real(-1000,1000); hi[k]=lo[k]+c.src.logreal(0.01,10); } else { lo[k]=-c.src.logreal(1,1e4); hi[k]=c.src.logreal(1,1e4); } } return lo; }
inline DataSet genData(pbt::Ctx& c,int dmax,int nmin,int nmax,double minDist=0.02,double large=0){ // with probability "large": up to 8 parameters and 80 samples
    if(large>0&&c.src.chance(large)){ dmax=8; nmin=nmax; nmax=80; c.label("large data set"); }
    DataSet s; s.d=(int)c.src.range(1,dmax); s.n=(int)c.src.range(nmin,nmax); s.lo=genLo(c,s.d,s.hi); s.fun=(int)c.src.below(5); for(int k=0;k<s.d;k++){ s.a.push_back(c.src.real(-2,2)+(c.src.chance(0.5)?1:-1)); s.b.push_back(c.src.real(0,1)); }
    s.scale=c.src.pick(std::vector<double>{1,1e-2,1e3,10}); s.off=c.src.chance(0.5)?c.src.real(-50,50)*s.scale:0;
    for(int i=0;i<s.n;i++){ std::vector<double> p; for(int t=0;t<20;t++){ p=s.point(c); bool ok=true; for(auto& q: s.x){ double m=0; for(int k=0;k<s.d;k++) m=std::max(m,fabs(p[k]-q[k])/(s.hi[k]-s.lo[k])); if(m<minDist) ok=false; } if(ok) break; } s.x.push_back(p); s.y.push_back(s.f(p)); }
    return s; }
