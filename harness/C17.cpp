#include "ownrand.hpp"
#include "slot.hpp"
#include "HEAAN/bootstrap.h"
static LD doc(LD t,int K){ LD s=t/K-1.0L/(4*K); LD y=cosl(3*LPI*s); for(int i=0;i<4;i++) y=2*y*y-1; return (y+y*y*y/6)/(2*LPI); }
template<int D,int R,int N,int K> void ev(Case&c){ constexpr int LQ=12*D+R; Rng&r=c.r; std::vector<int> s=picks(r,N); Pol S_=gets(s.data(),N),S2=nmul(S_,S_); VC z(N/2),w(N/2); int md=r.below(3); for(auto&x:z) x=md==0?(LD)(r.d()*2-1)*(K-1): md==1?(LD)r.in(-(K-1),K-1)+(LD)(r.d()-.5)/8:(LD)(r.d()-.5); 
  c.in<<"LOGQ="<<LQ<<" LOGDELTA="<<D<<" N="<<N<<" K="<<K<<" s="<<VS(s)<<" t="<<ZS(z); LD De=ldexpl(1,D); for(int i=0;i<N/2;i++) w[i]=doc(z[i].real(),K);
  auto ct=mkp<R_Q_square<LQ,N>>(); encp(r,encz<LQ,N>(z,De),S_,*ct); auto p=mkp<R_Q_square<LQ-12*D,N>>(); LD tol=ldexpl(1,-D)*N*N*4e6L+1e-9L;
  setrand(r.u(),0); EvalMod<LQ,N,D,K>(*ct,s.data(),*p); VC o=decz<LQ-12*D,N>(*p,S_,De); CHECK(c,dist(o,w)<tol,"EvalMod: "+ZS(o)+" expected "+ZS(w)+" tolerance "+S((double)tol));
#define KEY(i) auto k##i=mkp<R_Q_square<2*(LQ-i*D),N>>(); keyp<LQ-i*D,N>(r,S2,S_,*k##i);
  KEY(1) KEY(2) KEY(3) KEY(4) KEY(5) KEY(6) KEY(7) KEY(8) KEY(9) KEY(10) KEY(11)
  EvalMod<LQ,N,D,K>(*ct,*k1,*k2,*k3,*k4,*k5,*k6,*k7,*k8,*k9,*k10,*k11,*p); o=decz<LQ-12*D,N>(*p,S_,De); CHECK(c,dist(o,w)<tol,"EvalMod with given keys: "+ZS(o)+" expected "+ZS(w)+" tolerance "+S((double)tol)); }
TEST("K24",(ev<50,60,8,24>(c));) TEST("K16",(ev<45,58,4,16>(c));) TEST("K12",(ev<52,70,8,12>(c));)
int main(int n,char**v){ return hmain(n,v); }
