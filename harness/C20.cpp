#include "ownrand.hpp"
#include "slot.hpp"
#include "HEAAN/bootstrap.h"
static int br(int i,int d){ int k=0; for(int j=0;j<d;j++) if(i>>j&1) k|=1<<(d-1-j); return k; }
template<int LN,int D,int G> void t(Case&c){ constexpr int N=1<<LN,H=N/2,F=(LN-1)/G,LQ=(F+1)*D+50; Rng&r=c.r; std::vector<int> s=picks(r,N); Pol K=gets(s.data(),N); LD De=ldexpl(1,D); 
  VL m(N); for(auto&x:m) x=(r.d()*2-1); if(r.below(3)==0){ for(auto&x:m) x=0; m[r.below(N)]=1; } VC z=emb(m); c.in<<"LOGN="<<LN<<" G="<<G<<" LOGDELTA="<<D<<" LOGQ="<<LQ<<" s="<<VS(s)<<" m="; for(auto x:m) c.in<<S((double)x)<<" ";
  auto ct=mkp<R_Q_square<LQ,N>>(),o=mkp<R_Q_square<LQ,N>>(); std::unique_ptr<R_Q_square<LQ,N>[]> q(new R_Q_square<LQ,N>[2]); encp(r,encz<LQ,N>(z,De),K,*ct); setrand(r.u(),0); LD tol=ldexpl(1,-D)*powl(N,3)*400;
  for(int rep=0;rep<(r.below(3)?1:2);rep++){ CoeffToSlot<LQ,LN,D,G>(*ct,s.data(),q.get());
   for(int h=0;h<2;h++){ VC w(H); for(int i=0;i<H;i++) w[i]=m[h*H+br(i,LN-1)]; VC g=decz(q[h],K,powl(De,F+1)); CHECK(c,dist(g,w)<tol,"CoeffToSlot output "+std::to_string(h)+": "+ZS(g)+" expected "+ZS(w)); } }
  // inverse: x0,x1 in the slots -> coefficients
  VC x0(H),x1(H); VL n(N); for(int i=0;i<H;i++){ x0[i]=r.d()*2-1; x1[i]=r.d()*2-1; n[br(i,LN-1)]=x0[i].real(); n[H+br(i,LN-1)]=x1[i].real(); } encp(r,encz<LQ,N>(x0,De),K,q[0]); encp(r,encz<LQ,N>(x1,De),K,q[1]);
  SlotToCoeff<LQ,LN,D,G>(q[0],q[1],s.data(),*o); VC g=decz(*o,K,powl(De,F+1)),w=emb(n); CHECK(c,dist(g,w)<tol*N,"SlotToCoeff: "+ZS(g)+" expected "+ZS(w)+" tolerance "+S((double)tol*N)); }
#define T1(L,D,G) TEST("cs" #L "_" #G,(t<L,D,G>(c));)
T1(2,40,1) T1(3,40,1) T1(3,40,2) T1(4,40,1) T1(4,40,3) T1(5,40,1) T1(5,40,2) T1(5,40,4)
int main(int n,char**v){ return hmain(n,v); }
