// L02 matrix structure, L03 factorisations, L04 CSV round trips, L05 sampling and normalisation.
#include "common.hpp"
#include "LinearAlgebra/INCLUDE/linear_solver.hpp"
#include "Bounds/INCLUDE/bounds.hpp"
#include <unistd.h>
#include <set>
namespace opt { extern const char* failPath; extern long failLeft; extern int failures; }
using namespace pbt; using namespace Rodop; using std::vector; using std::string;

static Rows genM(Ctx& c, int r, int k, double scale=10){ Rows m(r,vector<double>(k)); for(auto& x: m) for(auto& y: x) y=c.src.number(scale); return m; }
static void sameM(Ctx& c, const mat& got, const Rows& want, unsigned cols, const char* what, double tol=0){
    if(want.empty()&&got.getNRows()==0) return;
    c.eq((size_t)got.getNRows(),want.size(),string("rows ")+what); c.eq(got.getNCols(),cols,string("cols ")+what);
    for(size_t i=0;i<want.size();i++) for(size_t j=0;j<cols;j++) c.near(got(i,j),want[i][j],tol,0,what,fmt("%s (%zu,%zu)",what,i,j)); }
static vector<double> genRow(Ctx& c,int n){ vector<double> v(n); for(auto& x:v) x=c.src.number(); return v; }

static void ops(Ctx& c){
    int n=(int)c.src.range(1,8), k=(int)c.src.range(1,8); if(c.src.chance(0.05)) n=(int)c.src.range(1,40);
    int op=(int)c.src.below(21); double big=op!=13&&op!=15&&c.src.chance(0.12)?std::pow(10.0,(double)c.src.range(-20,20)):1; Rows a=genM(c,n,k); if(big!=1){ for(auto& r: a) for(auto& x: r) x*=big; c.label("other magnitude"); } mat A=M(a,k); c.label(fmt("op%02d",op)); c.nontrivial(n*k>1);
    c.desc()<<"op "<<op<<" A="<<::str(a);
    switch(op){
    case 0: { Rows b=genM(c,n,k); mat B=M(b,k); Rows s=a,d=a; for(int i=0;i<n;i++)for(int j=0;j<k;j++){s[i][j]+=b[i][j];d[i][j]-=b[i][j];} sameM(c,A+B,s,k,"operator+"); sameM(c,A-B,d,k,"operator-"); double f=c.src.number(); Rows q=a; for(auto&r:q)for(auto&x:r)x*=f; sameM(c,A*f,q,k,"scalar product",1e-15); Rows o=genM(c,n+1,k); c.require(c.throws([&]{A+M(o,k);})&&c.throws([&]{A-M(o,k);}),"shape mismatch accepted"); } break;
    case 1: { int q=(int)c.src.range(1,8); Rows b=genM(c,k,q); mat B=M(b,q); for(int v=0;v<4;v++){ mat P= v==0?A*B: v==1?A.matMatProduct(B): v==2?A.matMatProductNaive(B):A.matMatProductOpenBlas(B); c.require(P.getNRows()==(unsigned)n&&P.getNCols()==(unsigned)q,"product shape"); for(int i=0;i<n;i++)for(int j=0;j<q;j++){ double s=0,t=0; for(int l=0;l<k;l++){s+=a[i][l]*b[l][j];t+=fabs(a[i][l]*b[l][j]);} c.near(P(i,j),s,1e-13,1e-13*t,"product",fmt("variant %d",v)); } } c.require(c.throws([&]{A*M(genM(c,k+1,2),2);}),"shape mismatch accepted"); } break;
    case 2: { auto v=genRow(c,k); for(int m=0;m<3;m++){ vec P= m==0?A.matVecProduct(V(v)): m==1?A.matVecProductNaive(V(v)):A.matVecProductOpenBlas(V(v)); c.eq(P.getSize(),(unsigned)n,"size"); for(int i=0;i<n;i++){ double s=0,t=0; for(int l=0;l<k;l++){s+=a[i][l]*v[l];t+=fabs(a[i][l]*v[l]);} c.near(P(i),s,1e-13,1e-13*t,"matrix vector product",fmt("variant %d",m)); } } c.require(c.throws([&]{A.matVecProduct(V(genRow(c,k+1)));}),"shape mismatch accepted"); } break;
    case 3: { Rows t(k,vector<double>(n)); for(int i=0;i<n;i++)for(int j=0;j<k;j++)t[j][i]=a[i][j]; sameM(c,A.transpose(),t,n,"transpose"); sameM(c,A.transposeNaive(),t,n,"transpose"); } break;
    case 4: { int r0=(int)c.src.below(n), r1=(int)c.src.range(r0,n-1), c0=(int)c.src.below(k), c1=(int)c.src.range(c0,k-1); Rows s; for(int i=r0;i<=r1;i++) s.push_back(vector<double>(a[i].begin()+c0,a[i].begin()+c1+1)); sameM(c,A.submat(r0,r1,c0,c1),s,c1-c0+1,"submat"); c.require(c.throws([&]{A.submat(0,n,0,0);})&&c.throws([&]{A.submat(0,0,0,k);})&&c.throws([&]{A.submat(n,n,0,0);})&&(r1==0||c.throws([&]{A.submat(r1,r1-1,0,0);}))&&(c1==0||c.throws([&]{A.submat(0,0,c1,c1-1);})),"submat range"); } break;
    case 5: { auto v=genRow(c,k); int p=(int)c.src.range(-1,n); Rows w=a; w.insert(p<0?w.end():w.begin()+p,v); mat B=A; B.addRow(V(v),p); sameM(c,B,w,k,"addRow"); mat D=A; c.require(c.throws([&]{D.addRow(V(v),n+1);})&&c.throws([&]{D.addRow(V(genRow(c,k+1)));})&&c.throws([&]{D.addRow(V(v),-2-(int)c.src.below(3));}),"addRow range"); sameM(c,D,a,k,"changed by rejected addRow"); mat E; E.addRow(V(v)); sameM(c,E,Rows{v},k,"addRow to empty"); } break;
    case 6: { auto v=genRow(c,n); int p=(int)c.src.range(-1,k); Rows w=a; for(int i=0;i<n;i++) w[i].insert(p<0?w[i].end():w[i].begin()+p,v[i]); mat B=A; B.addColumn(V(v),p); sameM(c,B,w,k+1,"addColumn"); mat D=A; c.require(c.throws([&]{D.addColumn(V(v),k+1);})&&c.throws([&]{D.addColumn(V(genRow(c,n+1)));})&&c.throws([&]{D.addColumn(V(v),-2-(int)c.src.below(3));}),"addColumn range"); sameM(c,D,a,k,"changed by rejected addColumn"); mat E; E.addColumn(V(v)); Rows w2; for(double x: v) w2.push_back({x}); sameM(c,E,w2,1,"addColumn to empty"); } break;
    case 7: { int p=(int)c.src.range(-1,n-1); Rows w=a; w.erase(w.begin()+(p<0?n-1:p)); mat B=A; B.deleteRow(p); sameM(c,B,w,k,"deleteRow"); mat D=A; c.require(c.throws([&]{D.deleteRow(n);})&&c.throws([&]{D.deleteRow(-2-(int)c.src.below(3));}),"deleteRow range"); mat E; c.require(c.throws([&]{E.deleteRow(-1);})&&c.throws([&]{E.deleteRow(0);}),"deleteRow of an empty matrix"); } break;
    case 8: { vector<int> ix; int m=(int)c.src.below(n+2); for(int i=0;i<m;i++) ix.push_back((int)c.src.below(n)); std::set<int> s(ix.begin(),ix.end()); Rows w; for(int i=0;i<n;i++) if(!s.count(i)) w.push_back(a[i]); mat B=A; B.deleteRows(ix); sameM(c,B,w,k,"deleteRows"); c.require(B.getNRows()==w.size(),"deleteRows count"); mat D=A; auto bad=ix; bad.push_back(n); auto bad2=ix; bad2.push_back(-1); c.require(c.throws([&]{D.deleteRows(bad);})&&c.throws([&]{D.deleteRows(bad2);}),"deleteRows range"); sameM(c,D,a,k,"changed by rejected deleteRows"); } break;
    case 9: { int i=(int)c.src.below(n), j=(int)c.src.below(k); auto col=vector<double>(n); for(int q=0;q<n;q++)col[q]=a[q][j]; c.require(S(A.getRow(i))==a[i],"getRow"); c.require(S(A.getCol(j))==col,"getCol"); c.require(S(A.getRow(-1))==a[n-1],"getRow(-1)"); for(int q=0;q<n;q++)col[q]=a[q][k-1]; c.require(S(A.getCol(-1))==col,"getCol(-1)"); c.require(c.throws([&]{A.getRow(n);})&&c.throws([&]{A.getRow(-2);})&&c.throws([&]{A.getCol(k);})&&c.throws([&]{A.getCol(-2);}),"getRow/getCol range"); auto v=genRow(c,k), u=genRow(c,n); mat B=A; B.setRow(V(v),i); Rows w=a; w[i]=v; sameM(c,B,w,k,"setRow"); B.setCol(V(u),j); for(int q=0;q<n;q++) w[q][j]=u[q]; sameM(c,B,w,k,"setCol"); c.require(c.throws([&]{B.setRow(V(v),n);})&&c.throws([&]{B.setCol(V(u),k);})&&c.throws([&]{B.setRow(V(genRow(c,k+1)),0);})&&c.throws([&]{B.setCol(V(genRow(c,n+1)),0);}),"setRow/setCol range"); } break;
    case 10: { int r=(int)c.src.range(1,10), q=(int)c.src.range(1,10); Rows w(r,vector<double>(q,0)); for(int i=0;i<std::min(r,n);i++)for(int j=0;j<std::min(q,k);j++)w[i][j]=a[i][j]; mat B=A; B.resize(r,q); sameM(c,B,w,q,"resize"); double f=c.src.number(); B.fill(f); sameM(c,B,Rows(r,vector<double>(q,f)),q,"fill"); B.reset(); c.require(B.getNRows()==0&&B.getNCols()==0&&B.isEmpty(),"reset"); } break;
    case 11: { Rows b=genM(c,(int)c.src.range(0,5),k); mat B=b.empty()?mat():M(b,k); Rows w=a; w.insert(w.end(),b.begin(),b.end()); sameM(c,A.concatenateRowWise(B),w,k,"concatenateRowWise"); sameM(c,mat().concatenateRowWise(A),a,k,"concatenateRowWise empty"); c.require(c.throws([&]{A.concatenateRowWise(M(genM(c,2,k+1),k+1));}),"shape mismatch accepted"); } break;
    case 12: { int q=(int)c.src.range(1,5); Rows b=genM(c,n,q); Rows w=a; for(int i=0;i<n;i++) w[i].insert(w[i].end(),b[i].begin(),b[i].end()); sameM(c,A.concatenateColumnWise(M(b,q)),w,k+q,"concatenateColumnWise"); sameM(c,A.concatenateColumnWise(mat()),a,k,"concatenateColumnWise empty"); sameM(c,mat().concatenateColumnWise(A),a,k,"concatenateColumnWise to empty"); c.require(c.throws([&]{A.concatenateColumnWise(M(genM(c,n+1,2),2));}),"shape mismatch accepted"); } break;
    case 13: { double tol=c.src.pick(vector<double>{1e-8,1e-3,0.5}); auto v=a[c.src.below(n)]; int kind=(int)c.src.below(4); if(kind) v[c.src.below(k)]+= kind==1?0.4*tol:kind==2?-0.9*tol:3*tol; int want=-1; for(int i=n-1;i>=0;i--){ bool m=true; for(int j=0;j<k;j++) if(fabs(a[i][j]-v[j])>tol) m=false; if(m) want=i; } c.eq(A.findRowIndex(V(v),tol),want,"findRowIndex"); c.eq(A.isRowInMatrix(V(v),tol),want>=0,"isRowInMatrix"); c.require(c.throws([&]{A.findRowIndex(V(genRow(c,k+1)));}),"findRowIndex size"); } break;
    case 14: { mat B=A; double e=c.src.number(); B.addEpsilonToDiagonal(e); Rows w=a; for(int i=0;i<std::min(n,k);i++) w[i][i]+=e; sameM(c,B,w,k,"addEpsilonToDiagonal"); Rows q=genM(c,n,n); mat Q=M(q,n); auto d=S(Q.diag()); for(int i=0;i<n;i++) c.eq(d[i],q[i][i],"diag"); if(n!=k) c.require(c.throws([&]{A.diag();}),"diag of non-square"); } break;
    case 15: { Rows q=genM(c,n,n); for(int i=0;i<n;i++)for(int j=0;j<i;j++)q[i][j]=q[j][i]; double tol=1e-6; bool sym=true; if(n>1&&c.src.chance(0.5)){ int i=(int)c.src.below(n),j=(int)c.src.below(n); if(i!=j){ double dd=c.src.pick(vector<double>{0.4e-6,3e-6,-5e-6}); q[i][j]+=dd; if(fabs(q[i][j]-q[j][i])>tol) sym=false; } } c.eq(M(q,n).isSymmetric(tol),sym,"isSymmetric"); if(n!=k) c.require(!A.isSymmetric(1e9),"isSymmetric of non-square"); Rows b=a; bool eqv=true; if(c.src.chance(0.6)){ double& x=b[c.src.below(n)][c.src.below(k)]; double o=x; x+=c.src.pick(vector<double>{0.3e-3,2e-3,-2e-3}); eqv=fabs(x-o)<=1e-3; } c.eq(A.isEqual(M(b,k),1e-3),eqv,"isEqual"); int n2=(int)c.src.range(1,8), k2=(int)c.src.range(1,8); if(n2!=n||k2!=k){ mat u((unsigned)n,(unsigned)k),w((unsigned)n2,(unsigned)k2); u.fill(1); w.fill(1); c.require(!u.isEqual(w,10),"isEqual of different sizes",fmt("%dx%d and %dx%d",n,k,n2,k2)); } } break;
    case 16: { mat B=A; B.shuffleRows(); auto w=R(B); auto s1=w,s2=a; std::sort(s1.begin(),s1.end()); std::sort(s2.begin(),s2.end()); c.require(s1==s2,"shuffleRows is not a permutation of the rows"); } break;
    case 17: { vector<double> lo(k),hi(k); for(int j=0;j<k;j++){ lo[j]=c.src.number(); hi[j]=lo[j]+c.src.logreal(1e-4,1e4); } mat N=A.normalizeMatrix(V(lo),V(hi)); for(int i=0;i<n;i++)for(int j=0;j<k;j++) c.near(N(i,j),(a[i][j]-lo[j])/(hi[j]-lo[j])/k,1e-9,1e-12*(fabs(a[i][j])+fabs(lo[j]))/(hi[j]-lo[j]),"normalizeMatrix"); double l=c.src.number(),h=l+c.src.logreal(1e-3,1e3); mat N2=A.normalizeMatrix(l,h); for(int i=0;i<n;i++)for(int j=0;j<k;j++) c.near(N2(i,j),(a[i][j]-l)/(h-l)/k,1e-9,1e-12*(fabs(a[i][j])+fabs(l))/(h-l),"normalizeMatrix scalar"); auto bad=hi; bad[c.src.below(k)]=-1e30; c.require(c.throws([&]{A.normalizeMatrix(V(lo),V(bad));})&&c.throws([&]{A.normalizeMatrix(h,l);})&&c.throws([&]{A.normalizeMatrix(V(genRow(c,k+1)),V(genRow(c,k+1)));}),"normalizeMatrix arguments"); } break;
    case 18: { mat B(A), D; D=A; mat E(std::move(B)); sameM(c,E,a,k,"move"); mat F; F=std::move(D); sameM(c,F,a,k,"move assignment"); F(0,0)=F(0,0)+1; sameM(c,E,a,k,"copy shares data"); sameM(c,mat((unsigned)n,(unsigned)k,2.5),Rows(n,vector<double>(k,2.5)),k,"constructor"); sameM(c,mat((unsigned)n,(unsigned)k),Rows(n,vector<double>(k,0)),k,"constructor"); c.require(c.throws([&]{A(n,0);})&&c.throws([&]{A(0,k);}),"index range"); c.eq(A.getSize(),(unsigned)(n*k),"getSize"); } break;
    case 19: { mat Q(n,n); Q.eye(); for(int i=0;i<n;i++)for(int j=0;j<n;j++) c.eq(Q(i,j),i==j?1.0:0.0,"eye"); if(c.src.chance(0.5)){ mat P=M(genM(c,n,n),n); P.eye(); for(int i=0;i<n;i++)for(int j=0;j<n;j++) c.eq(P(i,j),i==j?1.0:0.0,"eye of a used matrix"); } if(n!=k) c.require(c.throws([&]{mat X=A; X.eye();}),"eye of non-square"); } break;
    case 20: { /* the same object on both sides */ Rows w=a; w.insert(w.end(),a.begin(),a.end()); sameM(c,A.concatenateRowWise(A),w,k,"concatenateRowWise with itself"); w=a; for(auto& r: w){ auto t=r; r.insert(r.end(),t.begin(),t.end()); } sameM(c,A.concatenateColumnWise(A),w,2*k,"concatenateColumnWise with itself"); w=a; for(auto& r: w) for(auto& x: r) x+=x; sameM(c,A+A,w,k,"operator+ with itself"); sameM(c,A-A,Rows(n,vector<double>(k,0)),k,"operator- with itself"); c.require(A.isEqual(A,0),"isEqual with itself"); mat B=A; B=*&B; sameM(c,B,a,k,"self assignment"); Rows q=genM(c,n,n); mat Q=M(q,n); for(int v=0;v<4;v++){ mat P= v==0?Q*Q: v==1?Q.matMatProduct(Q): v==2?Q.matMatProductNaive(Q):Q.matMatProductOpenBlas(Q); for(int i=0;i<n;i++)for(int j=0;j<n;j++){ double s=0,t=0; for(int l=0;l<n;l++){ s+=q[i][l]*q[l][j]; t+=fabs(q[i][l]*q[l][j]); } c.near(P(i,j),s,1e-13,1e-13*t,"square",fmt("variant %d",v)); } } sameM(c,Q,q,n,"operand of the square"); } break;
    }
    sameM(c,A,a,k,"operand changed");
}
static Reg r1({"L02","operations",ops,400000,4000000,200,20,"one matrix operation on generated operands (1..8 rows and columns, sometimes 40, magnitudes 1e-28..1e28, the same object twice) against its definition, out-of-range arguments must be rejected, operands unchanged; non-trivial: more than one element",2000});

static void seq(Ctx& c){
    mat A; Rows m; unsigned k=(unsigned)c.src.range(1,5); int steps=(int)c.src.range(1,25); c.nontrivial(steps>3); bool started=false;
    for(int st=0;st<steps;st++){ int op=(int)c.src.below(10); c.desc()<<op<<" "; size_t n=m.size();
        switch(op){
        case 0: case 1: { auto v=genRow(c,k); int p=n?(int)c.src.range(-1,n):-1; A.addRow(V(v),p); m.insert(p<0?m.end():m.begin()+p,v); started=true; } break;
        case 2: if(n){ int p=(int)c.src.range(-1,n-1); A.deleteRow(p); m.erase(m.begin()+(p<0?n-1:p)); } break;
        case 3: if(n){ auto v=genRow(c,n); int p=(int)c.src.range(-1,k); A.addColumn(V(v),p); for(size_t i=0;i<n;i++) m[i].insert(p<0?m[i].end():m[i].begin()+p,v[i]); k++; } break;
        case 4: if(n){ int i=(int)c.src.below(n),j=(int)c.src.below(k); double x=c.src.number(); A(i,j)=x; m[i][j]=x; } break;
        case 5: if(n){ A=A.transpose(); Rows t(k,vector<double>(n)); for(size_t i=0;i<n;i++)for(size_t j=0;j<k;j++)t[j][i]=m[i][j]; m=t; k=n; } break;
        case 6: if(n){ mat B=A; A=B.concatenateRowWise(A); auto t=m; m.insert(m.end(),t.begin(),t.end()); if(m.size()>60){ A=A.submat(0,4,0,k-1); m.resize(5); } } break;
        case 7: if(n){ vector<int> ix; for(int q=0;q<3;q++) ix.push_back((int)c.src.below(n)); A.deleteRows(ix); std::set<int> s(ix.begin(),ix.end()); Rows w; for(size_t i=0;i<n;i++) if(!s.count(i)) w.push_back(m[i]); m=w; } break;
        case 8: if(n){ unsigned r=(unsigned)c.src.range(1,8), q=(unsigned)c.src.range(1,6); A.resize(r,q); Rows w(r,vector<double>(q,0)); for(unsigned i=0;i<std::min<size_t>(r,n);i++)for(unsigned j=0;j<std::min(q,k);j++)w[i][j]=m[i][j]; m=w; k=q; } break;
        case 9: { mat B(A); mat D; D=B; A=std::move(D); } break;
        }
        c.eq((size_t)A.getNRows(),m.size(),"rows"); if(m.size()){ sameM(c,A,m,k,"content"); }
    }
    (void)started;
}
static Reg r2({"L02","sequences",seq,100000,1000000,100,20,"sequences of 1..25 structural matrix operations mirrored in nested std::vector; non-trivial: more than 3 steps",400});

// ---------------------------------------------------------------- L03
static Rows spd(Ctx& c,int n,double& minEig){ // Q-ish: B*B^T + shift*I
    Rows b(n,vector<double>(n)); for(auto&r:b)for(auto&x:r)x=c.src.real(-1,1); double sh=c.src.logreal(1e-3,10); double sc=c.src.logreal(1e-4,1e4); Rows a(n,vector<double>(n,0)); for(int i=0;i<n;i++)for(int j=0;j<n;j++){ double s=0; for(int k=0;k<n;k++) s+=b[i][k]*b[j][k]; a[i][j]=sc*(s+(i==j?sh:0)); } minEig=sc*sh; return a; }
static double fnorm(const Rows& a){ double s=0; for(auto&r:a)for(double x:r)s+=x*x; return sqrt(s); }
static void chol(Ctx& c){
    int n=c.src.chance(0.05)?(int)c.src.range(10,50):(int)c.src.range(1,9); double me; Rows a=spd(c,n,me); mat A=M(a,n); double na=fnorm(a); c.nontrivial(n>1); c.desc()<<"n="<<n<<" A="<<::str(a);
    vector<double> b(n); for(auto&x:b)x=c.src.real(-5,5); double nb=V(b).norm();
    for(int v=0;v<3;v++){ int ret=0; mat L= v==0?A.cholesky(ret): v==1?A.choleskyNaive(ret):A.choleskyOpenBlas(ret); c.eq(ret,1,"cholesky rejected an SPD matrix",fmt("variant %d",v)); for(int i=0;i<n;i++){ c.require(L(i,i)>0,"cholesky diagonal"); for(int j=0;j<n;j++){ if(j>i) c.eq(L(i,j),0.0,"cholesky upper part"); double s=0; for(int k=0;k<=std::min(i,j);k++) s+=L(i,k)*L(j,k); c.near(s,a[i][j],0,1e-13*na*n,"L*L^T",fmt("variant %d",v)); } }
        for(int q=0;q<3;q++){ vec x= q==0?L.solveCholesky(V(b)):q==1?L.solveCholeskyNaive(V(b)):L.solveCholeskyOpenBlas(V(b)); vec r=A.matVecProductNaive(x); for(int i=0;i<n;i++) c.near(r(i),b[i],0,1e-12*n*(na*x.norm()+nb),"cholesky solve",fmt("variant %d",q)); } }
    CholeskySystem s; if(c.src.chance(0.5)) s.setDimension(n); if(c.src.chance(0.3)){ // a used object: result must not depend on earlier matrices
        double m2; int m=c.src.chance(0.5)?n:(int)c.src.range(1,9); s.setMatrix(M(spd(c,m,m2),m)); s.factorize(); c.label("reused"); }
    s.setMatrix(A); c.require(!s.isFactorizationDone(),"factorised too early"); s.factorize(); c.require(s.isFactorizationDone(),"system factorisation"); vec x=s.solveLinearSystem(V(b)); vec r=A.matVecProductNaive(x); for(int i=0;i<n;i++) c.near(r(i),b[i],0,1e-12*n*(na*x.norm()+nb),"system solve"); c.require(s.checkDimension(n)&&!s.checkDimension(n+1),"checkDimension"); { int ret=0; mat L=A.cholesky(ret); sameM(c,s.getFactorizedMatrix(),R(L),n,"stored factor"); }
    // determinant by own elimination
    Rows e=a; double ld=0; for(int k=0;k<n;k++){ ld+=log(e[k][k]); for(int i=k+1;i<n;i++){ double f=e[i][k]/e[k][k]; for(int j=k;j<n;j++) e[i][j]-=f*e[k][j]; } } c.near(s.calculateLogDeterminant(),ld,1e-9,1e-8*n,"log determinant"); if(fabs(ld)<600) c.near(s.calculateDeterminant(),exp(ld),1e-7*n,0,"determinant"); c.eq(s.getDimension(),(unsigned)n,"dimension"); sameM(c,s.getMatrix(),a,n,"stored matrix");
    // not positive definite: flip one eigen direction / zero matrix / negative diagonal
    Rows z=a; int kind=(int)c.src.below(3), p=(int)c.src.below(n); if(kind==0){ z[p][p]=-fabs(z[p][p]); } else if(kind==1&&n>1){ int q=(p+1)%n; double t=2*sqrt(a[p][p]*a[q][q])+1e-3*na; z[p][q]=z[q][p]=t; } else { for(int i=0;i<n;i++) z[i][p]=z[p][i]=0; c.label("zero row"); }
    mat Z=M(z,n); for(int v=0;v<3;v++){ int ret=0; if(v==0)Z.cholesky(ret); else if(v==1)Z.choleskyNaive(ret); else Z.choleskyOpenBlas(ret); c.eq(ret,-1,"cholesky accepted a matrix that is not positive definite",fmt("variant %d",v)); }
    s.setMatrix(Z); s.factorize(); c.require(!s.isFactorizationDone(),"system accepted a matrix that is not positive definite");
    if(n>1) c.require(c.throws([&]{int ret; mat X(n,n+1); X.cholesky(ret);}),"non-square accepted");
}
static Reg r3({"L03","cholesky",chol,80000,800000,50,20,"random symmetric positive definite matrices (1..50, condition up to 1e6, scale 1e-4..1e4), right-hand sides, and indefinite/singular variants; L*L^T = A, residuals, determinant, rejection; non-trivial: dimension > 1",200});
static void lu(Ctx& c){
    int n=c.src.chance(0.05)?(int)c.src.range(10,40):(int)c.src.range(1,9); Rows a(n,vector<double>(n)); double sc=c.src.logreal(1e-2,1e3); for(auto&r:a)for(auto&x:r)x=sc*c.src.real(-1,1); double dd=c.src.pick(vector<double>{0.0,0.5,2.0}); for(int i=0;i<n;i++) a[i][i]+= (c.src.chance(0.5)?1:-1)*dd*sc; if(c.src.chance(0.25)){ c.label("with zeros"); for(int i=0;i<n;i++)for(int j=0;j<n;j++) if(i!=j&&c.src.chance(0.5)) a[i][j]=0; if(c.src.chance(0.3)) a[0][0]=0; } if(c.src.chance(0.5)){ auto p=c.src.permutation(n); Rows q(n); for(int i=0;i<n;i++) q[i]=a[p[i]]; a=q; }
    // condition guard by own elimination with full pivoting
    Rows e=a; double mn=1e300,mx=0; { vector<int> rp(n),cp(n); for(int k=0;k<n;k++){ int pi=k,pj=k; for(int i=k;i<n;i++)for(int j=k;j<n;j++) if(fabs(e[i][j])>fabs(e[pi][pj])){pi=i;pj=j;} std::swap(e[k],e[pi]); for(auto&r:e) std::swap(r[k],r[pj]); double pv=fabs(e[k][k]); mn=std::min(mn,pv); mx=std::max(mx,pv); if(pv==0) break; for(int i=k+1;i<n;i++){ double f=e[i][k]/e[k][k]; for(int j=k;j<n;j++) e[i][j]-=f*e[k][j]; } } }
    mat A=M(a,n); double na=fnorm(a); c.desc()<<"n="<<n<<" A="<<::str(a); if(mn<1e-5*mx||mn<1e-6) c.discard(); c.nontrivial(n>1);
    vector<double> b(n); for(auto&x:b)x=c.src.real(-5,5); double nb=V(b).norm();
    auto check=[&](const vec& x,const char* w){ c.eq(x.getSize(),(unsigned)n,"size"); vec r=A.matVecProductNaive(x); for(int i=0;i<n;i++) c.near(r(i),b[i],0,1e-10*n*(na*x.norm()+nb),w); };
    { vector<int> p(n); int ret=0; mat F=A.lu(p.data(),ret); c.eq(ret,1,"lu rejected a regular matrix"); check(F.solveLU(p.data(),V(b)),"lu solve"); }
    { vector<int> p(n); int ret=0; mat F=A.luOpenBlas(p.data(),ret); c.eq(ret,1,"lu rejected a regular matrix"); check(F.solveLUOpenBlas(p.data(),V(b)),"lu solve openblas"); }
    { vector<int> p(n); int ret=0; mat F=A.luNaive(p.data(),ret); c.eq(ret,1,"naive lu rejected a regular matrix"); check(F.solveLUNaive(p.data(),V(b)),"lu solve naive"); for(int i=0;i<n;i++)for(int j=0;j<n;j++){ double s=0; for(int k=0;k<=std::min(i,j);k++) s+=(k==i?1.0:F(i,k))*F(k,j); c.near(s,a[p[i]][j],0,1e-12*na*n,"P*A = L*U"); } }
    check(A.solve(V(b)),"direct solve"); if(c.src.chance(0.1)) c.require(c.throws([&]{ A.solve(V(genRow(c,n+1))); })&&c.throws([&]{ M(genM(c,n,n+1),n+1).solve(V(b)); }),"direct solve: size mismatch accepted");
    LUSystem s; if(c.src.chance(0.5)) s=LUSystem(n); if(c.src.chance(0.3)){ int m=c.src.chance(0.5)?n:(int)c.src.range(1,9); s.setMatrix(M(genM(c,m,m),m)); try{ s.factorize(); }catch(...){} c.label("reused"); } s.setMatrix(A); s.factorize(); c.require(s.isFactorizationDone(),"system factorisation"); check(s.solveLinearSystem(V(b)),"system solve"); { auto b2=genRow(c,n); s.solveLinearSystem(V(b2)); check(s.solveLinearSystem(V(b)),"second system solve"); } c.eq(s.getDimension(),n,"system dimension"); c.require(s.checkDimension(n)&&!s.checkDimension(n+1),"checkDimension"); sameM(c,s.getMatrix(),a,n,"stored matrix"); { vector<int> p(n); int ret=0; mat F=A.lu(p.data(),ret); sameM(c,s.getFactorizedMatrix(),R(F),n,"stored factors"); } c.require(c.throws([&]{s.solveLinearSystem(V(genRow(c,n+1)));}),"size mismatch accepted"); c.require(c.throws([&]{LUSystem z(0u);})&&c.throws([&]{s.setDimension(0);}),"LU system of dimension 0 accepted"); check(s.solveLinearSystem(V(b)),"system solve after a rejected dimension");
    for(int v=0;v<2;v++){ mat I= v==0?A.invert():A.invertNaive(); mat P=A.matMatProductNaive(I); double ni=fnorm(R(I)); for(int i=0;i<n;i++)for(int j=0;j<n;j++) c.near(P(i,j),i==j?1.0:0.0,0,1e-11*n*na*ni,"A*A^-1",fmt("variant %d",v)); }
    // singular: duplicate a row exactly or zero row/column
    Rows z=a; int kind=(int)c.src.below(2), p=(int)c.src.below(n); if(kind==0||n==1) z[p].assign(n,0); else for(int i=0;i<n;i++) z[i][p]=0; mat Z=M(z,n);
    c.require(c.throws([&]{ Z.solve(V(b)); }),"direct solve of a singular system accepted");
    for(int v=0;v<2;v++) c.require(c.throws([&]{ v==0?Z.invert():Z.invertNaive(); }),"inverse of a singular matrix accepted",fmt("variant %d",v));
    for(int v=0;v<3;v++){ vector<int> pp(n); int ret=0; if(v==0)Z.lu(pp.data(),ret); else if(v==1)Z.luOpenBlas(pp.data(),ret); else { // the naive variant reports through its return value
            ret=0; double* q=mat::lu_decomposition(Z.getPointer(),n,pp.data(),&ret); delete[] q; } c.eq(ret,-1,"lu accepted a singular matrix",fmt("variant %d",v)); }
    s.setMatrix(Z); s.factorize(); c.require(!s.isFactorizationDone(),"LU system accepted a singular matrix");
}
static Reg r4({"L03","lu",lu,80000,800000,50,20,"random square matrices (row-permuted, diagonally shifted; pivot ratio > 1e-5 under full pivoting), solves, inverses, P*A=L*U and exactly singular variants; non-trivial: dimension > 1",200});
static void randomGen(Ctx& c){
    int n=(int)c.src.range(1,12); c.nontrivial(n>1); c.desc()<<"n="<<n; mat A(n,n); A.generateRandomSymmetric(); c.require(A.isSymmetric(1e-12),"generateRandomSymmetric"); mat B(n,n); B.generateRandomPositiveDefinite(); c.require(B.isSymmetric(1e-12),"positive definite symmetric"); for(int t=0;t<5;t++){ auto v=genRow(c,n); double q=V(v).dot(B.matVecProductNaive(V(v))); c.require(q>=-1e-9*(1+V(v).dot(V(v)))*n,"positive semi-definite"); } mat C(n,n); C.generateRandomCorrelationMatrix(); for(int i=0;i<n;i++){ c.eq(C(i,i),1.0,"correlation diagonal"); for(int j=0;j<n;j++) c.require(C(i,j)>0&&C(i,j)<=1&&C(i,j)==C(j,i),"correlation entries"); }
    if(c.src.chance(0.3)) c.require(c.throws([&]{mat X(n,n+1);X.generateRandomSymmetric();})&&c.throws([&]{mat X(n,n+1);X.generateRandomPositiveDefinite();})&&c.throws([&]{mat X(n,n+1);X.generateRandomCorrelationMatrix();})&&c.throws([&]{mat X;X.generateRandomSymmetric();}),"non-square accepted"); }
static Reg r5({"L03","generated_matrices",randomGen,20000,200000,50,20,"generated symmetric, positive definite and correlation matrices have their defining property; non-trivial: dimension > 1",100});

// ---------------------------------------------------------------- L04
static string nm(Ctx& c){ return c.dir+fmt("/f%llu.csv",(unsigned long long)c.src.rec.size()); }
static double fileNumber(Ctx& c){ switch(c.src.below(5)){ case 0: return (double)c.src.range(-3,3); case 1: return c.src.real(-1,1); case 2: return c.src.real(-1e6,1e6); case 3: return (c.src.chance(0.5)?-1:1)*c.src.logreal(1e-12,1e12); default: return c.src.number(); } }
static void csvMat(Ctx& c){
    int n=(int)c.src.range(1,12),k=(int)c.src.range(1,8); Rows a(n,vector<double>(k)); for(auto&r:a)for(auto&x:r)x=fileNumber(c); int prec=(int)c.src.range(0,17); bool dflt=c.src.chance(0.2); if(dflt)prec=6; vector<string> hdr; bool h=c.src.chance(0.5); if(h) for(int j=0;j<k;j++) hdr.push_back(fmt("h%d_%c",j,(char)('a'+c.src.below(26))));
    mat A=M(a,k); string f=nm(c); c.nontrivial(n*k>1); c.desc()<<"precision "<<prec<<" header "<<h<<" A="<<::str(a); c.labelIf(h,"header");
    if(dflt&&!h) A.saveAsCSV(f); else A.saveAsCSV(f,prec,hdr); mat B; if(c.src.chance(0.5)) B=M(genM(c,3,2),2); B.readFromCSV(f,h);
    c.require(B.getNRows()==(unsigned)n&&B.getNCols()==(unsigned)k,"shape"); double half=0.5*pow(10.0,-prec)*1.0000001; for(int i=0;i<n;i++)for(int j=0;j<k;j++) c.require(fabs(B(i,j)-a[i][j])<=half+4e-16*fabs(a[i][j]),"value changed beyond the written precision",fmt("(%d,%d) %.17g -> %.17g",i,j,a[i][j],B(i,j)));
    vector<string> got; bool ok; Rows own=readCsv(f,h,&got,&ok); c.require(ok&&own.size()==(size_t)n,"file does not hold one line per row"); if(h) c.require(got==hdr,"header"); for(int i=0;i<n;i++){ c.eq(own[i].size(),(size_t)k,"cells"); for(int j=0;j<k;j++) c.eq(own[i][j],B(i,j),"cell"); }
    if(h){ auto bad=hdr; bad.push_back("x"); c.require(c.throws([&]{A.saveAsCSV(f+"x",prec,bad);}),"wrong header accepted"); }
    mat C; c.require(c.throws([&]{C.readFromCSV(f+".missing",h);}),"missing file accepted");
    c.require(c.throws([&]{A.saveAsCSV(c.dir+"/no/such/dir/f.csv");}),"unwritable file accepted");
    // append a row
    auto v=genRow(c,k); if(!h){ V(v).appendToCSV(f,prec); mat D; D.readFromCSV(f,false); c.require(D.getNRows()==(unsigned)n+1,"append"); for(int i=0;i<n;i++)for(int j=0;j<k;j++) c.eq(D(i,j),B(i,j),"append changed earlier rows"); for(int j=0;j<k;j++) c.require(fabs(D(n,j)-v[j])<=half+4e-16*fabs(v[j]),"appended value"); c.require(c.throws([&]{V(genRow(c,k+1)).appendToCSV(f,prec);}),"append of wrong size accepted"); mat E; E.readFromCSV(f,false); c.require(E.getNRows()==(unsigned)n+1,"rejected append changed the file"); }
    unlink(f.c_str()); }
static Reg r6({"L04","matrix_roundtrip",csvMat,60000,600000,50,20,"matrices (magnitudes 1e-12..1e12, precision 0..17, optional header) written, read back by the library and by an independent reader, rows appended; non-trivial: more than one element",300});
static void csvVec(Ctx& c){
    int n=(int)c.src.range(1,12); vector<double> a(n); for(auto&x:a)x=fileNumber(c); string f=nm(c); c.nontrivial(n>1); c.desc()<<str(a); V(a).saveToCSV(f); vec b; if(c.src.chance(0.5)) b=vec(20u,1.0); b.readFromCSV(f); c.eq(b.getSize(),(unsigned)n,"size"); for(int i=0;i<n;i++) c.eq(b(i),a[i],"vector value"); c.require(c.throws([&]{vec x; x.readFromCSV(f+".missing");})&&c.throws([&]{V(a).saveToCSV(c.dir+"/no/such/f.csv");}),"missing file accepted");
    string g=f+"x"; int rows=(int)c.src.range(1,5), prec=(int)c.src.range(6,15); Rows w; for(int i=0;i<rows;i++){ vector<double> v(n); for(auto&x:v)x=fileNumber(c); w.push_back(v); V(v).appendToCSV(g,prec); } bool ok; Rows own=readCsv(g,false,nullptr,&ok); c.require(ok&&own.size()==(size_t)rows,"rows appended"); for(int i=0;i<rows;i++){ c.eq(own[i].size(),(size_t)n,"cells"); for(int j=0;j<n;j++) c.require(fabs(own[i][j]-w[i][j])<=0.5000001*pow(10.0,-prec)+4e-16*fabs(w[i][j]),"appended value"); }
    unlink(f.c_str()); unlink(g.c_str()); }
static Reg r7({"L04","vector_roundtrip",csvVec,40000,400000,50,20,"vectors written and read, rows appended to new and existing files; non-trivial: more than one element",200});
static void csvBad(Ctx& c){
    int n=(int)c.src.range(1,5),k=(int)c.src.range(1,5); vector<vector<string>> cells(n,vector<string>(k)); for(auto&r:cells)for(auto&x:r)x=fmt("%.6f",fileNumber(c)); string f=nm(c); int kind=(int)c.src.below(6); int i=(int)c.src.below(n),j=(int)c.src.below(k); bool bad=true; string junk=c.src.pick(vector<string>{"abc","-","+","e5",".","x1","1.2.3","1e","12abc","0x","--1"});
    bool empty=false; switch(kind){ case 0: cells[i][j]=junk; break; case 1: if(n>1){ cells[i].push_back("1.0"); } else bad=false; break; case 2: if(k>1&&n>1) cells[i].pop_back(); else bad=false; break; case 3: empty=true; break; case 4: cells[i][j]=""; if(k==1||j==k-1) bad=false; break; case 5: bad=false; break; }
    string s; if(!empty) for(auto&r:cells){ for(size_t q=0;q<r.size();q++) s+=(q?",":"")+r[q]; s+="\n"; } writeFile(f,s); c.nontrivial(bad); c.desc()<<"kind "<<kind<<" bad "<<bad<<" content:\n"<<s; c.label(fmt("kind%d",kind));
    if(kind==4&&!bad) return; // trailing empty cell: not specified
    Rows a0=genM(c,2,3); mat A=M(a0,3); bool threw=c.throws([&]{A.readFromCSV(f,false);}); c.eq(threw,bad,"malformed matrix file"); if(threw){ sameM(c,A,a0,3,"matrix changed by a failed read"); }
    // the same for a vector file (one number per line)
    vector<string> ls; for(int q=0;q<n;q++) ls.push_back(fmt("%.6f",fileNumber(c))); bool vbad=c.src.chance(0.5); if(vbad) ls[c.src.below(n)]=junk; string t; for(auto&x:ls) t+=x+"\n"; writeFile(f,t); c.desc()<<"\nvector file:\n"<<t; vec w; c.eq(c.throws([&]{w.readFromCSV(f);}),vbad,"malformed vector file"); if(!vbad){ c.eq(w.getSize(),(unsigned)n,"vector size"); for(int q=0;q<n;q++) c.eq(w(q),strtod(ls[q].c_str(),nullptr),"vector value"); }
    unlink(f.c_str()); }
static Reg r8({"L04","malformed_files",csvBad,60000,600000,50,20,"CSV files with a non-numeric field, ragged rows, an empty field or no content, and well-formed ones; reading must raise an error exactly for the malformed ones and leave the matrix unchanged; non-trivial: malformed",300});

static void csvFull(Ctx& c){
    int n=(int)c.src.range(1,6),k=(int)c.src.range(1,5),prec=(int)c.src.range(0,14); Rows a=genM(c,n,k); mat A=M(a,k); vector<string> hd; if(c.src.chance(0.3)) for(int j=0;j<k;j++) hd.push_back("h"+std::to_string(j)); string f=nm(c), g=f+"g"; auto v=genRow(c,k); int kind=(int)c.src.below(3); string before;
    auto act=[&](const string& file){ if(kind==0) A.saveAsCSV(file,prec,hd); else if(kind==1) V(v).saveToCSV(file); else V(v).appendToCSV(file,prec); };
    if(kind==2&&c.src.chance(0.8)){ A.saveAsCSV(g,prec); before=readFile(g); if(c.src.chance(0.3)) before.pop_back(); writeFile(g,before); writeFile(f,before); } act(g); string full=readFile(g); long need=(long)full.size()-(long)before.size(), left=c.src.chance(0.2)?need:(long)c.src.range(0,need+5); c.desc()<<(kind==0?"matrix ":kind==1?"vector ":"row appended ")<<pbt::str(v)<<::str(a)<<fmt(" needs %ld bytes, %ld available",need,left);
    opt::failures=0; opt::failLeft=left; opt::failPath=f.c_str(); bool threw=c.throws([&]{ act(f); }); opt::failPath=nullptr; string got=readFile(f); bool failed=opt::failures>0||left<need; c.eq(threw,failed,"failed write of a file"); c.require(got.compare(0,before.size(),before)==0,"rows stored before a failed write are lost"); if(!failed) c.require(got==full,"content of the file"); c.labelIf(failed,"disk full"); c.label(kind==0?"matrix":kind==1?"vector":"append"); c.nontrivial(failed); unlink(f.c_str()); unlink(g.c_str()); }
static Reg r8b({"L04","write_failure",csvFull,30000,300000,50,20,"matrices and vectors written, rows appended to a file that takes only some of the bytes: an error exactly if the file is incomplete, earlier rows intact; non-trivial: the file is full",200});

// ---------------------------------------------------------------- L05
// widths of boxes: ordinary ones, and down to 1e-14 (but large compared with the spacing of doubles) and up to 1e9
static double width(Ctx& c,double lo){ if(c.src.chance(0.7)) return c.src.logreal(1e-3,1e4); return std::max(c.src.logreal(1e-14,1e9),1e-6*fabs(lo)); }
static void lhs(Ctx& c){
    int n=c.src.chance(0.1)?(int)c.src.range(30,150):(int)c.src.range(1,30), k=(int)c.src.range(1,8); vector<double> lo(k),hi(k); for(int j=0;j<k;j++){ lo[j]=c.src.number(100); hi[j]=lo[j]+width(c,lo[j]); } bool stdv=c.src.chance(0.5); mat A(n,k); if(stdv) A.fillRandomLHS(lo,hi); else A.fillRandomLHS(V(lo),V(hi)); c.nontrivial(n>1); c.desc()<<"n="<<n<<" lo="<<str(lo)<<" hi="<<str(hi);
    c.require(A.getNRows()==(unsigned)n&&A.getNCols()==(unsigned)k,"shape");
    for(int j=0;j<k;j++){ vector<double> col; for(int i=0;i<n;i++) col.push_back(A(i,j)); double eps=1e-9*(hi[j]-lo[j])+1e-14*(fabs(lo[j])+fabs(hi[j])); for(double x: col) c.require(x>=lo[j]-1e-15*fabs(lo[j])&&x<=hi[j]+1e-15*fabs(hi[j]),"LHS sample outside the box",fmt("%.17g not in [%.17g,%.17g]",x,lo[j],hi[j])); std::sort(col.begin(),col.end()); double w=(hi[j]-lo[j])/n; for(int i=0;i<n;i++) c.require(col[i]>=lo[j]+i*w-eps&&col[i]<=lo[j]+(i+1)*w+eps,"slice without exactly one sample",fmt("dimension %d slice %d: %.17g not in [%.17g,%.17g]",j,i,col[i],lo[j]+i*w,lo[j]+(i+1)*w)); }
    // columns must be paired randomly: not all columns in the same order
    if(n>=8&&k>=2){ auto rank=[&](int j){ vector<int> ix(n); for(int i=0;i<n;i++)ix[i]=i; std::sort(ix.begin(),ix.end(),[&](int a,int b){return A(a,j)<A(b,j);}); return ix; }; c.require(rank(0)!=rank(1),"columns are not shuffled independently"); bool sorted=true; for(int i=0;i+1<n;i++) if(A(i,0)>A(i+1,0)) sorted=false; c.require(!sorted,"rows are not shuffled"); }
    if(c.src.chance(0.2)){ auto bad=hi; bad[c.src.below(k)]=-1e9; c.require(c.throws([&]{mat B(n,k); B.fillRandomLHS(lo,bad);})&&c.throws([&]{mat B(n,k); B.fillRandomLHS(V(lo),V(bad));})&&c.throws([&]{mat B(n,k+1); B.fillRandomLHS(lo,hi);}),"wrong bounds accepted"); } }
static Reg r9({"L05","latin_hypercube",lhs,60000,600000,50,20,"Latin hypercubes (1..150 samples, 1..8 dimensions, random boxes): one sample per slice and dimension, independent column orders; non-trivial: more than one sample",300});
static void uni(Ctx& c){
    int n=(int)c.src.range(1,30),k=(int)c.src.range(1,6); vector<double> lo(k),hi(k); for(int j=0;j<k;j++){ lo[j]=c.src.number(100); hi[j]=lo[j]+width(c,lo[j]); } int mode=(int)c.src.below(4); bool spread=c.src.chance(0.15); if(spread) n=400; mat A(n,k); double a=lo[0],b=hi[0]; if(mode==0){ A.fillRandom(); lo.assign(k,0); hi.assign(k,1); } else if(mode==1){ A.fillRandom(a,b); lo.assign(k,a); hi.assign(k,b); } else if(mode==2) A.fillRandom(V(lo),V(hi)); else A.fillRandom(lo,hi); c.nontrivial(n>1); c.desc()<<"mode "<<mode<<" n="<<n<<" lo="<<str(lo)<<" hi="<<str(hi); c.labelIf(spread,"spread");
    for(int j=0;j<k;j++){ vector<int> q(4,0); for(int i=0;i<n;i++){ double x=A(i,j); double t=4e-16*(fabs(lo[j])+fabs(hi[j])); c.require(x>=lo[j]-t&&x<=hi[j]+t,"outside the box"); q[std::min(3,std::max(0,(int)(4*(x-lo[j])/(hi[j]-lo[j]))))]++; } if(spread) for(int s=0;s<4;s++) c.require(q[s]>=50&&q[s]<=150,"not uniform",fmt("quarter %d has %d of 400",s,q[s])); if(spread&&k>1&&j>0){ bool same=true; for(int i=0;i<n;i++) if(fabs((A(i,j)-lo[j])/(hi[j]-lo[j])-(A(i,0)-lo[0])/(hi[0]-lo[0]))>1e-6) same=false; c.require(!same,"columns are identical"); } } }
static Reg r10({"L05","uniform_samples",uni,40000,400000,50,20,"uniform random matrices lie in their box; a sixth of the cases also checks the spread of 400 samples; non-trivial: more than one sample",200});
static void bounds(Ctx& c){
    int k=(int)c.src.range(1,8); vector<double> lo(k),hi(k); for(int j=0;j<k;j++){ lo[j]=c.src.number(100); hi[j]=lo[j]+c.src.logreal(1e-6,1e6); } c.nontrivial(); c.desc()<<"lo="<<str(lo)<<" hi="<<str(hi); int way=(int)c.src.below(5); Bounds b; if(way==0) b=Bounds(V(lo),V(hi)); else if(way==1) b=Bounds(lo,hi); else if(way==2) b.setBounds(V(lo),V(hi)); else if(way==3) b.setBounds(lo,hi); else { b=Bounds((unsigned)k); b.setBounds(lo[0],hi[0]); lo.assign(k,lo[0]); hi.assign(k,hi[0]); }
    c.require(b.areBoundsSet()&&b.checkBounds()&&b.checkIfBoundsAreValid()&&b.getDimension()==(unsigned)k,"bounds state"); c.require(S(b.getLowerBounds())==lo&&S(b.getUpperBounds())==hi,"bounds values"); for(int t=0;t<3;t++){ auto x=S(b.generateVectorWithinBounds()), y=b.generateStdVectorWithinBounds(); c.require(x.size()==(size_t)k&&y.size()==(size_t)k,"size"); c.require(b.isPointWithinBounds(V(x))&&b.isPointWithinBounds(V(y)),"generated point is not inside"); for(int j=0;j<k;j++) c.require(x[j]>=lo[j]&&x[j]<=hi[j]&&y[j]>=lo[j]&&y[j]<=hi[j],"generated point outside"); int j=(int)c.src.below(k); auto z=x; z[j]=c.src.chance(0.5)?lo[j]-1e-6*(hi[j]-lo[j])-1e-9*fabs(lo[j]):hi[j]+1e-6*(hi[j]-lo[j])+1e-9*fabs(hi[j]); c.require(!b.isPointWithinBounds(V(z)),"outside point accepted"); auto w=x; w[j]=c.src.chance(0.5)?lo[j]:hi[j]; c.require(b.isPointWithinBounds(V(w)),"boundary point rejected"); }
    auto bad=hi; int j=(int)c.src.below(k); bad[j]=c.src.chance(0.5)?lo[j]:lo[j]-1; auto shrt=hi; shrt.pop_back(); auto lng=hi; lng.push_back(1e9);
    c.require(c.throws([&]{Bounds(V(lo),V(bad));})&&c.throws([&]{Bounds(lo,bad);})&&c.throws([&]{Bounds x; x.setBounds(V(lo),V(bad));})&&c.throws([&]{Bounds x; x.setBounds(lo,bad);})&&c.throws([&]{Bounds x((unsigned)k); x.setBounds(hi[0],lo[0]);}),"inverted bounds accepted");
    c.require(c.throws([&]{Bounds(V(lo),V(shrt));})&&c.throws([&]{Bounds(lo,shrt);})&&c.throws([&]{Bounds x; x.setBounds(V(lo),V(shrt));})&&c.throws([&]{Bounds x; x.setBounds(lo,shrt);})&&c.throws([&]{Bounds(V(lo),V(lng));})&&c.throws([&]{Bounds(lo,lng);})&&c.throws([&]{Bounds x; x.setBounds(lo,lng);})&&c.throws([&]{Bounds x; x.setBounds(1,2);}),"bounds of different sizes accepted");
    c.require(c.throws([&]{b.isPointWithinBounds(V(genRow(c,k+1)));}),"wrong size accepted"); b.reset(); c.require(!b.areBoundsSet()&&b.getDimension()==0,"reset"); c.require(c.throws([&]{b.generateVectorWithinBounds();})&&c.throws([&]{b.generateStdVectorWithinBounds();}),"sampling without bounds accepted"); }
static Reg r11({"L05","bounds",bounds,60000,600000,50,20,"boxes set in every way, membership at and next to the boundary, generated points, rejected inputs; always non-trivial",300});
static void norml(Ctx& c){
    int n=(int)c.src.range(1,6),k=(int)c.src.range(1,8); vector<double> lo(k),hi(k); for(int j=0;j<k;j++){ lo[j]=c.src.number(100); hi[j]=lo[j]+width(c,lo[j]); } Rows a(n,vector<double>(k)); for(auto&r:a)for(int j=0;j<k;j++){ int q=(int)c.src.below(4); r[j]=q==0?lo[j]:q==1?hi[j]:c.src.real(lo[j],hi[j]); } c.nontrivial(); c.desc()<<"A="<<::str(a)<<" lo="<<str(lo)<<" hi="<<str(hi); vec L=V(lo),U=V(hi); mat N=M(a,k).normalizeMatrix(L,U); for(int i=0;i<n;i++){ vec r=N.getRow(i); vec q=V(a[i]).normalizeVector(L,U); vec back=r.denormalizeVector(L,U); for(int j=0;j<k;j++){ c.near(r(j),q(j),1e-12,1e-13*(1+fabs(lo[j])/(hi[j]-lo[j])),"matrix and vector normalisation differ"); c.require(r(j)>=-1e-12&&r(j)<=1.0/k*(1+1e-12)+1e-12,"box is not mapped onto the search region"); if(a[i][j]==lo[j]) c.near(r(j),0,0,1e-15,"lower bound"); if(a[i][j]==hi[j]) c.near(r(j),1.0/k,1e-14,0,"upper bound"); c.near(back(j),a[i][j],1e-12,1e-12*(fabs(lo[j])+fabs(hi[j])),"normalisation is not invertible"); } } }
static Reg r12({"L05","normalisation",norml,60000,600000,100,20,"points in and on the boundary of random boxes normalised and restored; always non-trivial",300});
