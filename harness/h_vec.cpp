// L01: vector operations against std::vector reference models.
#include "common.hpp"
using namespace pbt; using namespace Rodop; using std::vector; using std::string;

static vector<double> genV(Ctx& c, int n, double scale = 10){ vector<double> v(n); for(auto& x: v) x = c.src.number(scale); return v; }
static int genN(Ctx& c, int max = 12){ return c.src.chance(0.05) ? (int)c.src.range(0,70) : (int)c.src.range(0,max); }

static void ops(Ctx& c){
    int n = genN(c); auto a = genV(c,n), b = genV(c,n); double s = c.src.number(), t = c.src.number();
    if(n>1 && c.src.chance(0.3)) a[c.src.below(n)] = a[c.src.below(n)];        // ties
    int op = (int)c.src.below(27); if(op<13&&c.src.chance(0.15)){ double z=std::pow(10.0,(double)c.src.range(-15,15)); for(auto& x: a) x*=z; for(auto& x: b) x*=z; c.label("other magnitude"); }
    vec va = V(a), vb = V(b); c.label(fmt("op%02d",op));
    c.desc() << "op " << op << " a=" << str(a) << " b=" << str(b) << " s=" << s << " t=" << t;
    c.nontrivial(n > 0);
    auto same = [&](const vec& got, const vector<double>& want, const char* what, double tol = 1e-13){
        c.eq((size_t)got.getSize(), want.size(), "size", what);
        for(size_t i=0;i<want.size();i++) c.near(got(i),want[i],tol,0,what,what); };
    double sum=0, abssum=0, prod=1, dot=0, absdot=0, l2=0, li=0, l1=0; for(int i=0;i<n;i++){ sum+=a[i]; abssum+=fabs(a[i]); prod*=a[i]; dot+=a[i]*b[i]; absdot+=fabs(a[i]*b[i]); l2+=a[i]*a[i]; li=std::max(li,fabs(a[i])); l1+=fabs(a[i]); } l2=sqrt(l2);
    vector<double> w(n);
    switch(op){
    case 0: for(int i=0;i<n;i++) w[i]=a[i]+b[i]; same(va+vb,w,"operator+"); break;
    case 1: for(int i=0;i<n;i++) w[i]=a[i]-b[i]; same(va-vb,w,"operator-"); break;
    case 2: for(int i=0;i<n;i++) w[i]=a[i]*s; same(va*s,w,"scale"); for(int i=0;i<n;i++) w[i]=a[i]+s; same(va+s,w,"add scalar"); for(int i=0;i<n;i++) w[i]=a[i]-s; same(va-s,w,"subtract scalar"); break;
    case 3: c.near(va.sum(),sum,1e-13,1e-13*abssum,"sum"); if(std::isfinite(prod)&&(prod==0||fabs(prod)>1e-290)) c.near(va.product(),prod,1e-12,0,"product"); break;
    case 4: { for(int i=0;i<n;i++) w[i]=s*a[i]+t; vec r=vec::scaleAndAdd(va,s,t); for(int i=0;i<n;i++) c.near(r(i),w[i],1e-13,1e-13*(fabs(s*a[i])+fabs(t)),"scaleAndAdd scalar"); c.eq(r.getSize(),(unsigned)n,"size"); } break;
    case 5: { for(int m=0;m<2;m++){ vec r = m? vec::scaleAndAdd(va,s,vb) : vec::scaleAndAddNoLib(va,s,vb); c.eq(r.getSize(),(unsigned)n,"size"); for(int i=0;i<n;i++) c.near(r(i),s*a[i]+b[i],1e-13,1e-13*(fabs(s*a[i])+fabs(b[i])),"scaleAndAdd"); } } break;
    case 6: c.near(va.dot(vb),dot,1e-13,1e-13*absdot,"dot"); c.near(va.dotNoLib(vb),dot,1e-13,1e-13*absdot,"dotNoLib"); c.near(vec::dotProduct(va,vb),dot,1e-13,1e-13*absdot,"dotProduct"); break;
    case 7: c.near(va.norm(L2),l2,1e-13,0,"norm2"); c.near(va.norm(),l2,1e-13,0,"norm default"); c.near(va.norm(L1),l1,1e-13,0,"norm1"); c.near(va.norm(LINF),li,0,0,"norminf"); break;
    case 8: for(NormType ty: {L2,L1,LINF}){ double nn = ty==L2?l2:ty==L1?l1:li; if(nn==0){ c.require(c.throws([&]{ va.unitVector(ty); }),"unit of zero accepted"); } else { for(int i=0;i<n;i++) w[i]=a[i]/nn; same(va.unitVector(ty),w,"unitVector"); } } break;
    case 9: if(n==0){ c.require(c.throws([&]{va.findMin();})&&c.throws([&]{va.findMax();})&&c.throws([&]{va.findMinIndex();})&&c.throws([&]{va.findMaxIndex();})&&c.throws([&]{va.mean();})&&c.throws([&]{va.standardDeviation();})&&c.throws([&]{va.quantile(0.5);}),"empty accepted"); }
        else { double mn=*std::min_element(a.begin(),a.end()), mx=*std::max_element(a.begin(),a.end()); c.eq(va.findMin(),mn,"min"); c.eq(va.findMax(),mx,"max"); int i0=va.findMinIndex(), i1=va.findMaxIndex(); c.require(i0>=0&&i0<n&&a[i0]==mn,"minIndex"); c.require(i1>=0&&i1<n&&a[i1]==mx,"maxIndex"); } break;
    case 10: if(n>0){ double m=sum/n, v=0; for(double x: a) v+=(x-m)*(x-m); c.near(va.mean(),m,1e-13,1e-13*abssum/n,"mean"); c.near(va.standardDeviation(),sqrt(v/n),1e-10,1e-12*abssum,"standardDeviation"); } break;
    case 11: if(n>0){ double p=c.src.chance(0.3)?(double)c.src.range(0,1):c.src.unit(); auto q=a; std::sort(q.begin(),q.end()); double ix=p*(n-1); int lo=(int)floor(ix), hi=(int)ceil(ix); double want=q[lo]+(ix-lo)*(q[hi]-q[lo]); c.near(va.quantile(p),want,1e-12,1e-12*li,"quantile"); c.require(c.throws([&]{va.quantile(-0.01-c.src.unit());})&&c.throws([&]{va.quantile(1.01+c.src.unit());}),"quantile argument"); } break;
    case 12: { bool asc=c.src.chance(0.5); auto q=a; if(asc) std::sort(q.begin(),q.end()); else std::sort(q.rbegin(),q.rend()); vec x=va; bool was = asc?std::is_sorted(a.begin(),a.end()):std::is_sorted(a.rbegin(),a.rend()); c.eq(x.is_sorted(asc),was,"is_sorted"); x.sort(asc); same(x,q,"sort",0); c.require(x.is_sorted(asc),"is_sorted after sort"); } break;
    case 13: { int k=(int)c.src.range(0,n); same(va.head(k),vector<double>(a.begin(),a.begin()+k),"head",0); same(va.tail(k),vector<double>(a.end()-k,a.end()),"tail",0); c.require(c.throws([&]{va.head(n+1+c.src.below(3));})&&c.throws([&]{va.tail(n+1+c.src.below(3));}),"head/tail range"); } break;
    case 14: { auto o=genV(c,genN(c)); int pos=(int)c.src.range(-1,n); auto q=a; q.insert(pos==-1?q.end():q.begin()+pos,o.begin(),o.end()); vec x=va; x.appendVector(V(o),pos); same(x,q,"appendVector",0); vec y=va; c.require(c.throws([&]{y.appendVector(V(o),n+1);})&&c.throws([&]{y.appendVector(V(o),-2-(int)c.src.below(3));}),"appendVector range"); same(y,a,"changed by a rejected operation",0); } break;
    case 15: { auto o=genV(c,genN(c)); vec x=va; if(n>0){ int pos=(int)c.src.range(0,n-1); auto q=a; for(size_t i=0;i<o.size()&&pos+i<q.size();i++) q[pos+i]=o[i]; x.copyVector(V(o),pos); same(x,q,"copyVector",0); } vec y=va; c.require(c.throws([&]{y.copyVector(V(o),n);})&&c.throws([&]{y.copyVector(V(o),-1);}),"copyVector range"); } break;
    case 16: { vec x=va; auto q=a; int k=(int)c.src.below(4); for(int i=0;i<k;i++){ double z=c.src.number(); x.push_back(z); q.push_back(z);} same(x,q,"push_back",0); } break;
    case 17: { int m=genN(c); vec x=va; auto q=a; bool def=c.src.chance(0.5); q.resize(m,def?0.0:s); if(def) x.resize(m); else x.resize(m,s); same(x,q,"resize",0); x.reset(); c.require(x.getSize()==0&&x.isEmpty(),"reset"); } break;
    case 18: { double tol=c.src.pick(vector<double>{1e-9,0.5,2}); bool eqv=true, z=true, hz=false; auto b2=a; if(n>0&&c.src.chance(0.8)) b2[c.src.below(n)]+=c.src.pick(vector<double>{0.25*tol,-0.25*tol,0.9*tol,-1.1*tol,3*tol,-3*tol}); for(int i=0;i<n;i++){ if(fabs(a[i]-b2[i])>tol) eqv=false; if(fabs(a[i])>tol) z=false; if(fabs(a[i])<=tol) hz=true; } c.eq(va.is_equal(V(b2),tol),eqv,"is_equal"); c.eq(va.is_zero(tol),z,"is_zero"); c.eq(va.has_zeros(tol),hz,"has_zeros"); vector<double> lg=a; lg.push_back(0); c.require(!va.is_equal(V(lg),1e9),"is_equal of different sizes"); } break;
    case 19: { auto lo=a, hi=a; bool in=true; for(int i=0;i<n;i++){ int k=(int)c.src.below(8); lo[i]=a[i]-(k==1?0:c.src.real(0,2)); hi[i]=a[i]+(k==2?0:c.src.real(0,2)); if(k==3){ lo[i]=a[i]+0.5; hi[i]=a[i]+1; in=false; } if(k==4){ hi[i]=a[i]-0.5; lo[i]=a[i]-1; in=false; } } c.eq(va.is_between(V(lo),V(hi)),in,"is_between"); vector<double> x=a; bool nan=false; if(n>0&&c.src.chance(0.5)){ x[c.src.below(n)]=NAN; nan=true; } c.eq(V(x).has_nan(),nan,"has_nan"); } break;
    case 20: { bool lt=true, gt=true; auto b2=b; int mode=(int)c.src.below(4); for(int i=0;i<n;i++){ if(mode==1) b2[i]=a[i]+c.src.real(0.1,1); if(mode==2) b2[i]=a[i]-c.src.real(0.1,1); if(mode==3) b2[i]=a[i]+(c.src.chance(0.1)?0:1); lt = lt&&a[i]<b2[i]; gt=gt&&a[i]>b2[i]; } c.eq(va<V(b2),lt,"operator<"); c.eq(va>V(b2),gt,"operator>"); } break;
    case 21: { auto q=a; std::sort(q.begin(),q.end()); q.erase(std::unique(q.begin(),q.end()),q.end()); int m=q.size(); double x=c.src.chance(0.5)&&m>0?q[c.src.below(m)]:c.src.number(); int want=-1; if(m>0){ if(x>q[m-1]) want=m-1; else for(int i=0;i+1<m;i++) if(x>=q[i]&&x<q[i+1]) want=i; } /* the result for the last element itself is not specified */ if(m==0||x!=q[m-1]) c.eq(V(q).findInterval(x),want,"findInterval"); if(n>=2){ auto u=a; std::sort(u.rbegin(),u.rend()); if(u.front()!=u.back()) c.require(c.throws([&]{ V(u).findInterval(x); }),"findInterval unsorted"); } } break;
    case 22: { vec x=va; x.fill(s); same(x,vector<double>(n,s),"fill",0); x.fillWithIntegersAscendingOrder(); for(int i=0;i<n;i++) w[i]=i+1; same(x,w,"ascending integers",0); same(vec((unsigned)n,t),vector<double>(n,t),"constructor",0); same(vec((unsigned)n),vector<double>(n,0.0),"constructor",0); } break;
    case 23: { vec x; x=va; same(x,a,"assignment",0); vec y(va); same(y,a,"copy",0); y.swap(vb); same(y,b,"swap",0); same(vb,a,"swap",0); c.require(va.toStdVector()==a,"toStdVector"); vec z=vb; z.fromStdVector(b); same(z,b,"fromStdVector",0); x=x; same(x,a,"self assignment",0); for(int i=0;i<n;i++){ double old=va(i); vec q=va; q.set(i,s); c.eq(q.get(i),s,"set"); c.eq(va(i),old,"copy shares data"); } c.require(c.throws([&]{va.get(n);})&&c.throws([&]{va.set(n,1);})&&c.throws([&]{va(n)=1;}),"index range"); vb=vb; return; }
    case 24: { vector<double> lo(n), hi(n); for(int i=0;i<n;i++){ lo[i]=c.src.number(); hi[i]=lo[i]+c.src.logreal(1e-6,1e6); } for(int i=0;i<n;i++) w[i]=(a[i]-lo[i])/(hi[i]-lo[i])/n; vec r=va.normalizeVector(V(lo),V(hi)); c.eq(r.getSize(),(unsigned)n,"size"); for(int i=0;i<n;i++) c.near(r(i),w[i],1e-9,1e-12*(fabs(a[i])+fabs(lo[i]))/(hi[i]-lo[i]),"normalizeVector"); vector<double> dx(n); for(int i=0;i<n;i++) dx[i]=hi[i]-lo[i]; vec rf=va.normalizeVectorFast(V(lo),V(dx)); for(int i=0;i<n;i++) c.near(rf(i),w[i],1e-9,1e-12*(fabs(a[i])+fabs(lo[i]))/dx[i],"normalizeVectorFast");
        vec back=r.denormalizeVector(V(lo),V(hi)), backf=r.denormalizeVectorFast(V(lo),V(dx)); for(int i=0;i<n;i++){ double tol=1e-11*(fabs(a[i])+fabs(lo[i])+fabs(hi[i])); c.near(back(i),a[i],1e-11,tol,"denormalizeVector"); c.near(backf(i),a[i],1e-11,tol,"denormalizeVectorFast"); }
        if(n>0){ double l=c.src.number(), h=l+c.src.logreal(1e-3,1e3); vec u=va.normalizeVector(l,h); for(int i=0;i<n;i++) c.near(u(i),(a[i]-l)/(h-l)/n,1e-9,1e-12*(fabs(a[i])+fabs(l))/(h-l),"normalizeVector scalar"); } } break;
    case 25: { auto o=genV(c,n+1+(int)c.src.below(3)); vec vo=V(o); c.require(c.throws([&]{va+vo;})&&c.throws([&]{va-vo;})&&c.throws([&]{va<vo;})&&c.throws([&]{va>vo;})&&c.throws([&]{va.dot(vo);})&&c.throws([&]{va.dotNoLib(vo);})&&c.throws([&]{vec::dotProduct(va,vo);})&&c.throws([&]{vec::scaleAndAdd(va,s,vo);})&&c.throws([&]{vec::scaleAndAddNoLib(va,s,vo);})&&c.throws([&]{va.is_between(vo,va);})&&c.throws([&]{va.is_between(va,vo);})&&c.throws([&]{vec x=va; x.fillRandom(vo,vo);})&&c.throws([&]{vec::generateRandomVectorBetween(va,vo);}),"size mismatch accepted"); } break;
    case 26: { /* the same object on both sides */ for(int i=0;i<n;i++) w[i]=a[i]+a[i]; same(va+va,w,"operator+ with itself"); same(va-va,vector<double>(n,0.0),"operator- with itself",0); c.near(va.dot(va),l2*l2,1e-12,0,"dot with itself"); c.near(vec::dotProduct(va,va),l2*l2,1e-12,0,"dotProduct with itself"); vec r=vec::scaleAndAdd(va,s,va); for(int i=0;i<n;i++) c.near(r(i),s*a[i]+a[i],1e-13,1e-13*(fabs(s*a[i])+fabs(a[i])),"scaleAndAdd with itself"); c.require(va.is_equal(va,0),"is_equal with itself"); if(n>0) c.require(!(va<va)&&!(va>va)&&va.is_between(va,va),"comparison with itself"); int pos=(int)c.src.range(-1,n); auto q=a; q.insert(pos==-1?q.end():q.begin()+pos,a.begin(),a.end()); vec x=va; x.appendVector(x,pos); same(x,q,"appendVector with itself",0); x=va; x.swap(x); same(x,a,"swap with itself",0); if(n>0){ x.copyVector(x,0); same(x,a,"copyVector with itself",0); } } break;
    }
    same(va,a,"operand changed",0); same(vb,b,"operand changed",0);
}
static Reg r1({"L01","operations",ops,600000,6000000,200,20,"one vector operation on generated operands (size 0..70, ties, zeros, magnitudes 1e-23..1e23, the same object twice) against its definition, operands must stay unchanged; non-trivial: non-empty vector",2000});

// stateful: random sequences of mutating operations on a pool of vectors and their models
static void seq(Ctx& c){
    const int K=3; vector<vec> v(K); vector<vector<double>> m(K); int steps=(int)c.src.range(1,25); c.nontrivial(steps>3);
    for(int st=0;st<steps;st++){ int i=(int)c.src.below(K), j=(int)c.src.below(K); int op=(int)c.src.below(12); int n=m[i].size(); c.desc() << op << "(" << i << "," << j << ") ";
        switch(op){
        case 0: { double x=c.src.number(); v[i].push_back(x); m[i].push_back(x); } break;
        case 1: { int k=(int)c.src.range(0,9); double x=c.src.number(); v[i].resize(k,x); m[i].resize(k,x); } break;
        case 2: v[i]=v[j]; m[i]=m[j]; break;
        case 3: v[i].swap(v[j]); std::swap(m[i],m[j]); break;
        case 4: if(n>0){ int p=(int)c.src.below(n); double x=c.src.number(); v[i](p)=x; m[i][p]=x; } break;
        case 5: { int p=(int)c.src.range(-1,n); auto o=m[j]; m[i].insert(p==-1?m[i].end():m[i].begin()+p,o.begin(),o.end()); v[i].appendVector(v[j],p); if(m[i].size()>200){ m[i].resize(5); v[i].resize(5); } } break;
        case 6: if(n>0){ int p=(int)c.src.below(n); auto o=m[j]; for(size_t k=0;k<o.size()&&p+k<m[i].size();k++) m[i][p+k]=o[k]; if(i!=j) v[i].copyVector(v[j],p); else { vec t=v[j]; v[i].copyVector(t,p); } } break;
        case 7: { bool asc=c.src.chance(0.5); v[i].sort(asc); if(asc) std::sort(m[i].begin(),m[i].end()); else std::sort(m[i].rbegin(),m[i].rend()); } break;
        case 8: { int k=(int)c.src.range(0,n); vec t=v[i].head(k); v[i]=t; m[i].resize(k); } break;
        case 9: { int k=(int)c.src.range(0,n); vec t=v[i].tail(k); v[i]=t; m[i].erase(m[i].begin(),m[i].end()-k); } break;
        case 10: v[i].reset(); m[i].clear(); break;
        case 11: { vec t=v[i]; v[j]=t*2.0+1.0; m[j]=m[i]; for(auto& x: m[j]) x=x*2.0+1.0; } break;
        }
        for(int k=0;k<K;k++){ c.eq((size_t)v[k].getSize(),m[k].size(),"size"); c.require(v[k].isEmpty()==m[k].empty(),"isEmpty"); for(size_t q=0;q<m[k].size();q++) c.require(v[k](q)==m[k][q],"content",fmt("vector %d element %zu after step %d",k,q,st)); }
    }
}
static Reg r2({"L01","sequences",seq,200000,2000000,100,20,"sequences of 1..25 mutating operations on three vectors mirrored in std::vector; non-trivial: more than 3 steps",400});

static void randomFill(Ctx& c){
    int n=(int)c.src.range(1,20); vector<double> lo(n),hi(n); for(int i=0;i<n;i++){ lo[i]=c.src.number(); hi[i]=lo[i]+(c.src.chance(0.1)?0:c.src.logreal(1e-6,1e6)); }
    c.nontrivial(); c.desc() << "n=" << n << " lo=" << str(lo) << " hi=" << str(hi);
    vec x((unsigned)n); vec L=V(lo),U=V(hi);
    for(int k=0;k<4;k++){ vec y=x; double a=-1e300,b=1e300; if(k==0){ y.fillRandom(); a=0;b=1; } if(k==1){ a=lo[0]; b=hi[0]; y.fillRandom(a,b); } if(k==2) y.fillRandom(L,U); if(k==3) y=vec::generateRandomVectorBetween(L,U);
        c.eq(y.getSize(),(unsigned)n,"size"); for(int i=0;i<n;i++){ double l=k<2?a:lo[i], u=k<2?b:hi[i]; c.require(y(i)>=l&&y(i)<=u,"out of bounds",fmt("mode %d element %d = %.17g not in [%.17g,%.17g]",k,i,y(i),l,u)); } }
    if(c.src.chance(0.2)){ c.require(c.throws([&]{ vec y=x; y.fillRandom(1.0,0.5); }),"inverted bounds accepted"); auto h2=hi; h2[c.src.below(n)]=-1e9; auto l2=lo; for(auto& q: l2) q=0; c.require(c.throws([&]{ vec y=x; y.fillRandom(V(l2),V(h2)); }),"inverted bounds accepted"); }
    // spread: 400 draws must hit each quarter of the range of every coordinate
    if(c.src.chance(0.1)){ vector<int> cnt(4,0); double l=0,u=0; int mode=(int)c.src.below(3); for(int k=0;k<400;k++){ vec y(1u); if(mode==0){ y.fillRandom(); l=0;u=1; } else if(mode==1){ l=-3;u=5; y.fillRandom(l,u);} else { l=2;u=4; y.fillRandom(vec{2.0},vec{4.0}); } int q=(int)((y(0)-l)/(u-l)*4); cnt[std::min(3,std::max(0,q))]++; } for(int q=0;q<4;q++) c.require(cnt[q]>=50&&cnt[q]<=150,"not uniform",fmt("mode %d quarter %d has %d of 400",mode,q,cnt[q])); c.label("spread"); }
}
static Reg r3({"L01","random_fill",randomFill,100000,1000000,100,20,"random fills stay between the bounds and cover them; always non-trivial",200});
