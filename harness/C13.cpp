#include "h.hpp"
#include <cstring>
#include "HEAAN/matrix/matrix.h"
#include "util/util.h"
#include "impl/message.h"
using M=std::vector<std::vector<double>>;
template<int N,int S> M den(const SparseDiagonal<N,S>&A){ M m(N,std::vector<double>(N,0)); for(int s=0;s<S;s++) for(int i=0;i<N;i++) m[i][((i+A.off[s])%N+N)%N]+=A.vec[s][i]; return m; }
static M mm(const M&a,const M&b){ int N=a.size(); M c(N,std::vector<double>(N,0)); for(int i=0;i<N;i++) for(int k=0;k<N;k++) if(a[i][k]!=0) for(int j=0;j<N;j++) c[i][j]+=a[i][k]*b[k][j]; return c; }
static M ms(M a,const M&b,double k){ for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a.size();j++) a[i][j]+=k*b[i][j]; return a; }
static bool same(const M&a,const M&b){ return ms(a,b,-1)==M(a.size(),std::vector<double>(a.size(),0)); }
template<int N,int S> void rnd(Rng&r,SparseDiagonal<N,S>&A,const int*off=nullptr){ 
  std::vector<int> o; for(int i=0;i<N;i++) o.push_back(i); for(int i=0;i<N;i++) std::swap(o[i],o[r.below(N)]);
  int mode=r.below(3);
  for(int s=0;s<S;s++){ A.off[s]=off?off[s]:o[s%N]; A.zero[s]=r.below(4)==0||mode==2&&r.coin(); for(int i=0;i<N;i++) A.vec[s][i]=A.zero[s]?0:(mode==1?(r.below(4)?0:r.in(-3,3)):r.in(-9,9)); } }
template<int N,int S> bool flags(const SparseDiagonal<N,S>&A){ for(int s=0;s<S;s++){ if(A.zero[s]) for(int i=0;i<N;i++) if(A.vec[s][i]!=0) return false; if(A.off[s]<0||A.off[s]>=N) return false; } return true; }
template<int N,int S> std::string str(const SparseDiagonal<N,S>&A){ std::string t="{"; for(int s=0;s<S;s++){ t+="off "+std::to_string(A.off[s])+(A.zero[s]?" zero":"")+" ["; for(int i=0;i<N;i++) t+=std::to_string((int)A.vec[s][i])+" "; t+="] "; } return t+"}"; }
template<int N,int S> void one(Case&c){ Rng&r=c.r; static SparseDiagonal<N,S> A,B,C; rnd(r,A); rnd(r,B,A.off); c.in<<"N="<<N<<" S="<<S<<" A="<<str(A)<<" B="<<str(B);
  M a=den(A),b=den(B);
  for(int i=0;i<N;i++) for(int j=0;j<N;j++) CHECK(c,A.get_element(i,j)==a[i][j],"get_element");
  C=A; CHECK(c,den(C)==a&&memcmp(C.off,A.off,sizeof A.off)==0&&memcmp(C.zero,A.zero,sizeof A.zero)==0,"assignment");
  C+=B; CHECK(c,den(C)==ms(a,b,1)&&flags(C),"sum (or its zero flags)"); CHECK(c,den(B)==b,"operand changed");
  C=A; C-=B; CHECK(c,den(C)==ms(a,b,-1)&&flags(C),"difference (or its zero flags)");
  C=A; C+=C; CHECK(c,den(C)==ms(a,a,1)&&flags(C),"A+=A"); C=A; C-=C; CHECK(c,same(den(C),ms(a,a,-1))&&flags(C),"A-=A");
  C=A; double k=r.in(-4,4); C*=k; CHECK(c,same(den(C),ms(ms(a,a,-1),a,k))&&flags(C),"scaling by "+std::to_string(k));
  C=A; C.negate(); CHECK(c,same(den(C),ms(a,a,-2))&&flags(C),"negation");
  C=A; C.transpose(); M t=a; for(int i=0;i<N;i++) for(int j=0;j<N;j++) t[i][j]=a[j][i]; CHECK(c,den(C)==t&&flags(C),"transpose "+str(C));
  C=A; int s=r.below(S),i=r.below(N); double v=r.in(-50,50); int j=(i+A.off[s])%N; M w=a; w[i][j]=v; C.set_element(i,j,v); CHECK(c,den(C)==w&&(v==0||flags(C)),"set_element");
  C.setzero(); CHECK(c,den(C)==ms(a,a,-1)&&flags(C),"setzero"); for(int q=0;q<S;q++) CHECK(c,C.zero[q],"setzero flags");
}
template<int N,int S1,int S2> void prod(Case&c){ Rng&r=c.r; static SparseDiagonal<N,S1> A,Ai; static SparseDiagonal<N,S2> B,Bi; static SparseDiagonal<N,S1*S2> C,Ci; rnd(r,A);rnd(r,Ai,A.off);rnd(r,B);rnd(r,Bi,B.off); rnd(r,C); rnd(r,Ci);
  if(r.coin()){ for(int s=0;s<S1;s++) A.off[s]=Ai.off[s]=r.below(N); for(int s=0;s<S2;s++) B.off[s]=Bi.off[s]=r.below(N); } // repeated offsets
  c.in<<"N="<<N<<" Ar="<<str(A)<<" Ai="<<str(Ai)<<" Br="<<str(B)<<" Bi="<<str(Bi); M a=den(A),ai=den(Ai),b=den(B),bi=den(Bi);
  MatMul(A,B,C); CHECK(c,same(den(C),mm(a,b))&&flags(C),"real product "+str(C));
  rnd(r,C); MatMul(A,Ai,B,Bi,C,Ci); CHECK(c,same(den(C),ms(mm(a,b),mm(ai,bi),-1))&&flags(C),"complex product, real part "+str(C)); CHECK(c,same(den(Ci),ms(mm(a,bi),mm(ai,b),1))&&flags(Ci),"complex product, imaginary part "+str(Ci));
  for(int s=0;s<S1*S2;s++) CHECK(c,C.off[s]==Ci.off[s],"offsets of the parts differ");
  CHECK(c,den(A)==a&&den(B)==b&&den(Ai)==ai&&den(Bi)==bi,"operand changed"); }
template<int N> void dense(Case&c){ Rng&r=c.r; double A[N][N],B[N][N],C[N][N],D[N][N],E[N][N],F[N][N]; M a(N,std::vector<double>(N)),b=a,d=a,e=a,x=a,y=a; for(int i=0;i<N;i++)for(int j=0;j<N;j++){ A[i][j]=a[i][j]=r.in(-9,9);B[i][j]=b[i][j]=r.in(-9,9);C[i][j]=d[i][j]=r.in(-9,9);D[i][j]=e[i][j]=r.in(-9,9); } matrix_product<N>(A,B,C,D,E,F); for(int i=0;i<N;i++)for(int j=0;j<N;j++){x[i][j]=E[i][j];y[i][j]=F[i][j];} CHECK(c,same(x,ms(mm(a,d),mm(b,e),-1))&&same(y,ms(mm(a,e),mm(b,d),1)),"dense complex product"); }
template<int LN,int S> void mv(Case&c){ constexpr int N=1<<(LN-1); Rng&r=c.r; static SparseDiagonal<N,S> A,Ai; rnd(r,A); rnd(r,Ai,A.off); if(r.below(3)==0) for(int s=0;s<S;s++) A.off[s]=Ai.off[s]=r.below(N); c.in<<"Ar="<<str(A)<<" Ai="<<str(Ai); Message<LN> z,o; for(int i=0;i<N;i++){ z.r[i]=r.in(-9,9); z.i[i]=r.in(-9,9); o.r[i]=5; } M a=den(A),ai=den(Ai);
  auto chk=[&](const double*x,const double*y,const char*w){ for(int i=0;i<N;i++){ double p=0,q=0; for(int j=0;j<N;j++){ p+=a[i][j]*z.r[j]-ai[i][j]*z.i[j]; q+=a[i][j]*z.i[j]+ai[i][j]*z.r[j]; } CHECK(c,p==x[i]&&q==y[i],w); } };
  matrix_vector_product<LN,S>(z,A,Ai,o); chk(o.r,o.i,"product of a message with a sparse-diagonal matrix");
  if constexpr(S==3){ double x[N],y[N]; matrix_vector_product<LN>(z.r,z.i,A,Ai,x,y); chk(x,y,"matrix_vector_product"); }
  Message<LN> D[S]; M p(N,std::vector<double>(N,0)),q=p; if constexpr(S<=N){ for(int k=0;k<S;k++) for(int i=0;i<N;i++){ D[k].r[i]=p[i][(i+k)%N]=r.in(-9,9); D[k].i[i]=q[i][(i+k)%N]=r.in(-9,9);} a=p; ai=q; matrix_vector_product<LN,S>(z,D,o); chk(o.r,o.i,"product of a message with diagonals 0..K-1"); } }
template<int N,int S1,int S2> void rc(Case&c){ Rng&r=c.r; static SparseDiagonal<N,S1> A; static SparseDiagonal<N,S2> B; rnd(r,A); rnd(r,B); for(int s=S2;s<S1;s++){ A.zero[s]=true; for(int i=0;i<N;i++) A.vec[s][i]=0; } c.in<<str(A); RemoveClutter(A,B); CHECK(c,den(B)==den(A)&&flags(B),"RemoveClutter"); }
#define O(N,S) TEST("one" #N "_" #S,one<N,S>(c);)
O(1,1) O(2,1) O(2,2) O(4,3) O(5,2) O(7,7) O(8,3) O(8,8) O(16,3) O(13,5) O(32,9)
#define P(N,A,B) TEST("prod" #N "_" #A "_" #B,prod<N,A,B>(c);)
P(1,1,1) P(2,2,2) P(4,3,3) P(5,2,3) P(8,3,3) P(8,1,8) P(7,4,2) P(16,3,9) P(32,3,3) P(13,5,1)
TEST("dense1",dense<1>(c);) TEST("dense5",dense<5>(c);) TEST("dense8",dense<8>(c);)
#define V(L,S) TEST("mv" #L "_" #S,mv<L,S>(c);)
V(2,1) V(3,3) V(4,3) V(5,3) V(5,9) V(4,8) V(2,2)
TEST("rc8",(rc<8,5,3>(c));) TEST("rc4",(rc<4,4,1>(c));) TEST("rc7",(rc<7,7,6>(c));)
int main(int n,char**v){ return hmain(n,v); }
