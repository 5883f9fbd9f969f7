#include "ownrand.hpp"
#include "slot.hpp"
#include "HEAAN/linear_transform.h"
template<int H,int S> using SD=SparseDiagonal<H,S>;
// a complex sparse-diagonal matrix; diagonals flagged zero are zero
template<int H,int S> void rnd(Rng&r,SD<H,S>&A,SD<H,S>&B){ std::vector<int> o; for(int i=0;i<H;i++) o.push_back(i); for(int i=0;i<H;i++) std::swap(o[i],o[r.below(H)]); bool rep=r.below(4)==0;
  for(int s=0;s<S;s++){ A.off[s]=B.off[s]=rep?(int)r.below(H):(s<H?o[s]:(int)r.below(H)); A.zero[s]=r.below(4)==0; B.zero[s]=r.below(4)==0; for(int i=0;i<H;i++){ A.vec[s][i]=A.zero[s]?0:(r.below(4)?r.d()*2-1:r.in(-2,2)); B.vec[s][i]=B.zero[s]?0:(r.below(4)?r.d()*2-1:r.in(-2,2)); } } }
template<int H,int S> VC app(const SD<H,S>&A,const SD<H,S>&B,const VC&z){ VC o(H); for(int s=0;s<S;s++) for(int i=0;i<H;i++) o[i]+=CL(A.vec[s][i],B.vec[s][i])*z[((i+A.off[s])%H+H)%H]; return o; }
template<int H,int S> std::string str(const SD<H,S>&A){ std::string t="{"; for(int s=0;s<S;s++){ t+="off "+std::to_string(A.off[s])+(A.zero[s]?" zero":"")+" ["; for(int i=0;i<H;i++) t+=::S(A.vec[s][i])+" "; t+="] "; } return t+"}"; }
static VC rz(Rng&r,int H){ VC z(H); for(auto&x:z) x=CL(r.d()*2-1,r.d()*2-1); if(r.below(4)==0){ for(auto&x:z) x=0; z[r.below(H)]=1; } return z; }
static LD mag(const VC&z){ LD m=0; for(auto&x:z) m=std::max(m,std::abs(x)); return m; }
template<int LQ,int LN,int D,int S_> void lt(Case&c){
  constexpr int N=1<<LN,H=N/2; Rng&r=c.r; static SD<H,S_> A,B; rnd(r,A,B); std::vector<int> s=picks(r,N); Pol K=gets(s.data(),N); VC z=rz(r,H); LD De=ldexpl(1,D);
  c.in<<"LOGQ="<<LQ<<" LOGN="<<LN<<" LOGDELTA="<<D<<" Ar="<<str(A)<<" Ai="<<str(B)<<" z="<<ZS(z)<<" s="<<VS(s);
  auto ct=mkp<R_Q_square<LQ,N>>(),o=mkp<R_Q_square<LQ,N>>(),cp=mkp<R_Q_square<LQ,N>>(); encp(r,encz<LQ,N>(z,De),K,*ct); *cp=*ct;
  std::vector<std::unique_ptr<R_Q_square<2*LQ,N>>> ks(S_); const R_Q_square<2*LQ,N>* kp[S_];
  for(int i=0;i<S_;i++){ kp[i]=nullptr; if((A.zero[i]&&B.zero[i])||A.off[i]==0) continue; std::vector<int> sr(N); rot<N>(s.data(),sr.data(),A.off[i]); ks[i]=mkp<R_Q_square<2*LQ,N>>(); keyp<LQ,N>(r,gets(sr.data(),N),K,*ks[i]); kp[i]=ks[i].get(); }
  VC w=app(A,B,z); LD tol=ldexpl(1,-D)*N*N*60*S_*(1+mag(z));
  putp(o->data[0],pickp<LQ>(r,N)); 
  linear_transform<LQ,LN,D,S_>(A,B,*ct,kp,*o); VC g=decz(*o,K,De*De); CHECK(c,dist(g,w)<tol,"linear_transform with given keys: "+ZS(g)+" expected "+ZS(w));
  CHECK(c,get(ct->data[0])==get(cp->data[0])&&get(ct->data[1])==get(cp->data[1]),"argument changed");
  setrand(r.u(),r.below(6)); linear_transform<LQ,LN,D,S_>(A,B,*ct,s.data(),*o); g=decz(*o,K,De*De); CHECK(c,dist(g,w)<tol,"linear_transform: "+ZS(g)+" expected "+ZS(w));
  CHECK(c,get(ct->data[0])==get(cp->data[0])&&get(ct->data[1])==get(cp->data[1]),"argument changed"); }
template<int LQ,int LN,int D,int S_,int F> void ser(Case&c){
  constexpr int N=1<<LN,H=N/2; Rng&r=c.r; static SD<H,S_> A[F],B[F]; for(int f=0;f<F;f++) rnd(r,A[f],B[f]); std::vector<int> s=picks(r,N); Pol K=gets(s.data(),N); VC z=rz(r,H); LD De=ldexpl(1,D);
  c.in<<"LOGQ="<<LQ<<" LOGN="<<LN<<" LOGDELTA="<<D; for(int f=0;f<F;f++) c.in<<" Ar["<<f<<"]="<<str(A[f])<<" Ai="<<str(B[f]); c.in<<" z="<<ZS(z)<<" s="<<VS(s);
  auto ct=mkp<R_Q_square<LQ,N>>(),o=mkp<R_Q_square<LQ,N>>(); encp(r,encz<LQ,N>(z,De),K,*ct); VC w=z; LD m=1+mag(z); for(int f=0;f<F;f++){ w=app(A[f],B[f],w); m=std::max(m,mag(w)); } LD sc=powl(3*S_,F);
  LD tol=ldexpl(1,-D)*N*N*60*S_*m*sc; setrand(r.u(),0);
#define G_(g) if constexpr(F%g==0){ grouped_serial_linear_transform<LQ,LN,D,S_,F,g>(A,B,*ct,s.data(),*o); VC q=decz(*o,K,powl(De,F/g+1)); CHECK(c,dist(q,w)<tol,"grouping by " #g ": "+ZS(q)+" expected "+ZS(w)+" tolerance "+::S((double)tol)); }
  G_(1) G_(2) G_(3) G_(4)
  if constexpr(F%4==0) (void)0; }
#define L1(Q,N,D,S) TEST("lt" #Q "_" #N "_" #S,lt<Q,N,D,S>(c);)
L1(150,3,40,3) L1(150,4,40,3) L1(128,5,40,2) L1(130,3,40,4) L1(110,2,36,2)
#define L2(Q,N,D,S,F) TEST("ser" #N "_" #S "_" #F,(ser<Q,N,D,S,F>(c));)
// (grouped functions of a factor count that is not a multiple are not instantiated)
L2(200,3,40,2,2) L2(230,3,40,2,3) L2(260,4,40,2,4) L2(230,3,40,3,3) L2(300,3,40,2,4)
int main(int n,char**v){ return hmain(n,v); }
