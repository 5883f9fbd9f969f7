#include "h.hpp"
#include "util/util.h"
#include "impl/message.h"
#include "HEAAN/linear_transform.h"
#include "impl/simple_plaintext.h"
template<int L> void t(Case&c){ constexpr int N=1<<L,H=N/2; Rng&r=c.r; Message<L> a,b,o,x; for(int i=0;i<H;i++) CHECK(c,a.r[i]==0&&a.i[i]==0,"a new message is not zero");
  int big=r.coin()?9:30000; for(int i=0;i<H;i++){ a.r[i]=r.in(-big,big);a.i[i]=r.in(-big,big);b.r[i]=r.in(-big,big);b.i[i]=r.in(-big,big);o.r[i]=3; } c.in<<"LOGN="<<L; for(int i=0;i<H;i++) c.in<<" ("<<a.r[i]<<","<<a.i[i]<<";"<<b.r[i]<<","<<b.i[i]<<")";
  Message<L> a0(a),b0(b); for(int i=0;i<H;i++) CHECK(c,a0.r[i]==a.r[i]&&a0.i[i]==a.i[i],"copy");
  add(a,b,o); for(int i=0;i<H;i++) CHECK(c,o.r[i]==a0.r[i]+b0.r[i]&&o.i[i]==a0.i[i]+b0.i[i],"message sum");
  sub(a,b,o); for(int i=0;i<H;i++) CHECK(c,o.r[i]==a0.r[i]-b0.r[i]&&o.i[i]==a0.i[i]-b0.i[i],"message difference");
  mul(a,b,o); for(int i=0;i<H;i++) CHECK(c,o.r[i]==a0.r[i]*b0.r[i]-a0.i[i]*b0.i[i]&&o.i[i]==a0.r[i]*b0.i[i]+a0.i[i]*b0.r[i],"message product");
  mul(a,a,o); for(int i=0;i<H;i++) CHECK(c,o.r[i]==a0.r[i]*a0.r[i]-a0.i[i]*a0.i[i]&&o.i[i]==2*a0.r[i]*a0.i[i],"message square");
  long double q=0,m=0; for(int i=0;i<H;i++){ long double u=(long double)a0.r[i]*a0.r[i]+(long double)a0.i[i]*a0.i[i]; q+=u; if(u>m) m=u; }
  CHECK(c,square_sum(a)==(double)q,"square_sum"); CHECK(c,fabsl(norm(a)-sqrtl(q))<=1e-12L*(1+sqrtl(q)),"norm"); CHECK(c,fabsl(sup_norm(a)-sqrtl(m))<=1e-12L*(1+sqrtl(m)),"sup_norm");
  Message<L+1> g; aggregate(a,b,g); for(int i=0;i<H;i++) CHECK(c,g.r[i]==a.r[i]&&g.i[i]==a.i[i]&&g.r[i+H]==b.r[i]&&g.i[i+H]==b.i[i],"aggregate");
  for(int i=0;i<H;i++) CHECK(c,a.r[i]==a0.r[i]&&b.i[i]==b0.i[i]&&a.i[i]==a0.i[i]&&b.r[i]==b0.r[i],"operand changed");
  x=a; add(x,b,x); for(int i=0;i<H;i++) CHECK(c,x.r[i]==a0.r[i]+b0.r[i]&&x.i[i]==a0.i[i]+b0.i[i],"sum in place");
  SimplePlaintext<L> p,s,w,v; for(int i=0;i<N;i++) CHECK(c,p[i]==0,"a new plaintext is not zero"); for(int i=0;i<N;i++){ p[i]=r.in(-99,99); s[i]=r.below(3)?0:r.in(-99,99); } c.in<<" p,s:"; for(int i=0;i<N;i++) c.in<<p[i]<<","<<s[i]<<" ";
  add(p,s,w); for(int i=0;i<N;i++) CHECK(c,w[i]==p[i]+s[i],"sum"); sub(p,s,w); for(int i=0;i<N;i++) CHECK(c,w[i]==p[i]-s[i],"difference");
  conv(p,s,w); { double e[N]={0}; for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(i+j<N) e[i+j]+=p[i]*s[j]; else e[i+j-N]-=p[i]*s[j]; for(int i=0;i<N;i++) CHECK(c,w[i]==e[i],"negacyclic product, coefficient "+std::to_string(i)); }
  double qq=0; for(int i=0;i<N;i++) qq+=p[i]*p[i]; CHECK(c,square_sum(p)==qq,"square sum"); CHECK(c,fabs(norm(p)-sqrt(qq))<1e-10*(1+qq),"norm");
  int k=r.below(3)?r.in(0,6):r.in(0,N+3); long e5=1; for(int i=0;i<k;i++) e5=e5*5%(2*N); c.in<<" rotation "<<k;
  auto au=[&](long e,SimplePlaintext<L>&o){ for(int i=0;i<N;i++){ long j=i*e%(2*N); if(j<N) o[j]=p[i]; else o[j-N]=-p[i]; } };
  rotate_once(p,w); au(5,v); for(int i=0;i<N;i++) CHECK(c,w[i]==v[i],"rotate_once"); rotate(p,w,k); au(e5,v); for(int i=0;i<N;i++) CHECK(c,w[i]==v[i],"rotate");
}
#define T1(L) TEST("plain" #L,t<L>(c);)
T1(1) T1(2) T1(3) T1(4) T1(6)
int main(int n,char**v){ return hmain(n,v); }
