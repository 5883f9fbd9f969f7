#include "slot.hpp"
#include "HEAAN/poly.h"
// Delta * sum u[n] * prod_{k in bits(n)} T_{2^k}(t)
static LD basis(const std::vector<double>&u,LD t){ LD T[8]; T[0]=t; for(int k=1;k<8;k++) T[k]=2*T[k-1]*T[k-1]-1; LD s=0; for(size_t n=0;n<u.size();n++){ LD p=u[n]; for(int k=0;k<8;k++) if(n>>k&1) p*=T[k]; s+=p; } return s; }
template<int K,int D,int R,int N> void ev(Case&c){
  constexpr int DEG=1<<K, LQ=(K+0)*D+R; Rng&r=c.r; std::vector<double> u(DEG); int mode=r.below(6);
  for(int n=0;n<DEG;n++) u[n]= mode==0?r.d()*2-1: mode==1?-r.d(): mode==2?r.d(): mode==3?(r.below(4)?0:(r.coin()?1.0:-1.0)): mode==4?((int)r.below(DEG)==n? (r.coin()?-1.0:1.0):0): (r.d()*2-1)*3;
  if(mode==4){ for(auto&x:u) x=0; u[r.below(DEG)]=r.coin()?-1:1; }
  std::vector<int> s=picks(r,N); Pol S_=gets(s.data(),N), S2=nmul(S_,S_); VC z(N/2); for(auto&x:z) x=r.below(5)==0?(LD)r.in(-1,1):(LD)(r.d()*2-1); if(r.coin()) for(auto&x:z) x=z[0];
  c.in<<"degree "<<DEG-1<<" LOGQ="<<LQ<<" LOGDELTA="<<D<<" N="<<N<<" s="<<VS(s)<<" u=["; for(auto x:u) c.in<<S(x)<<" "; c.in<<"] t="<<ZS(z);
  LD De=ldexpl(1,D); auto ct=mkp<R_Q_square<LQ,N>>(); encp(r,encz<LQ,N>(z,De),S_,*ct); auto cpy=mkp<R_Q_square<LQ,N>>(); *cpy=*ct;
  auto p=mkp<R_Q_square<LQ-K*D,N>>();
#define KEY(i) auto k##i=mkp<R_Q_square<2*(LQ-(i-1)*D),N>>(); keyp<LQ-(i-1)*D,N>(r,S2,S_,*k##i);
  KEY(1) KEY(2)
  { Quiet q;
  if constexpr(K==2) eval_poly_deg3<LQ,N,D>(u.data(),*ct,*k1,*k2,*p);
  else { KEY(3) if constexpr(K==3) eval_poly_deg7<LQ,N,D>(u.data(),*ct,*k1,*k2,*k3,*p);
  else { KEY(4) if constexpr(K==4) eval_poly_deg15<LQ,N,D>(u.data(),*ct,*k1,*k2,*k3,*k4,*p);
  else { KEY(5) if constexpr(K==5) eval_poly_deg31<LQ,N,D>(u.data(),*ct,*k1,*k2,*k3,*k4,*k5,*p);
  else { KEY(6) if constexpr(K==6) eval_poly_deg63<LQ,N,D>(u.data(),*ct,*k1,*k2,*k3,*k4,*k5,*k6,*p);
  else { KEY(7) eval_poly_deg127<LQ,N,D>(u.data(),*ct,*k1,*k2,*k3,*k4,*k5,*k6,*k7,*p); }}}}}
  }
  VC o=decz<LQ-K*D,N>(*p,S_,De), w(N/2); LD mag=1; for(auto x:u) mag+=fabs(x); for(int i=0;i<N/2;i++) w[i]=basis(u,z[i].real());
  LD tol=ldexpl(1,-D)*N*N*40*mag*(K>4?(1<<(2*K-6)):4);
  CHECK(c,dist(o,w)<tol,"result "+ZS(o)+" expected "+ZS(w)+" tolerance "+S((double)tol));
  CHECK(c,get(cpy->data[0])==get(ct->data[0])&&get(cpy->data[1])==get(ct->data[1]),"argument changed");
}
#define T1(K,D,R,N) TEST("deg" #K "_" #D "_" #N,ev<K,D,R,N>(c);)
T1(2,40,60,8) T1(3,40,60,8) T1(4,40,60,8) T1(5,40,60,8) T1(6,36,60,8) T1(7,36,60,8) T1(2,50,70,16) T1(3,30,44,4) T1(4,32,48,4) T1(5,45,64,4) T1(2,31,43,2)
TEST("convert", Rng&r=c.r; int k=r.in(2,8); int N=1<<k; std::vector<double> cc(N),u(N,777); int mode=r.below(3); for(auto&x:cc) x= mode==0?(double)r.in(-1000,1000): mode==1?(r.below(5)?0:1.0):(double)r.in(-5,5); std::vector<double> c0=cc; c.in<<"N="<<N<<" c=["; for(auto x:cc) c.in<<x<<" "; c.in<<"]";
  convert_frc_tou(cc.data(),u.data(),N); CHECK(c,c0==cc,"coefficients changed");
  // sum u_n prod T_{2^k} expanded in Chebyshev polynomials: T_a T_b = (T_{a+b}+T_{|a-b|})/2
  std::vector<double> e(N,0.0); for(int n=0;n<N;n++){ if(u[n]==0) continue; std::vector<double> p(N,0.0); p[0]=u[n]; for(int k=0;(1<<k)<N;k++) if(n>>k&1){ std::vector<double> q(N,0.0); int a=1<<k; for(int j=0;j<N;j++) if(p[j]!=0){ CHECK(c,a+j<N||j==0,"degree"); q[a+j]+=p[j]/2; q[std::abs(a-j)]+=p[j]/2; } p=q; } for(int j=0;j<N;j++) e[j]+=p[j]; }
  for(int j=0;j<N;j++) CHECK(c,e[j]==cc[j],"Chebyshev coefficient "+std::to_string(j)+" of the converted polynomial is "+S(e[j]));)
int main(int n,char**v){ return hmain(n,v); }
