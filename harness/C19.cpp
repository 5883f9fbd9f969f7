#include "gomp.hpp"
#include "rq.hpp"
#include "HEAAN/linear_transform.h"
// results for every number of threads and schedule equal the exact product; the thread sanitizer reports any race
template<int L,int N> void t(Case&c){ Rng&r=c.r; BI q=pw2(L); auto A=mkp<R_Q<L,N>>(),B=mkp<R_Q<L,N>>(),C=mkp<R_Q<L,N>>(); Pol a=pickp<L>(r,N),b=pickp<L>(r,N); putp(*A,a); putp(*B,b); std::vector<int> s=picks(r,N); Pol S_=gets(s.data(),N); g_threads=r.in(1,8); g_sched=r.below(256);
  c.in<<"LOGQ="<<L<<" N="<<N<<" threads="<<g_threads<<" schedule="<<g_sched<<" a="<<PS(a)<<" b="<<PS(b)<<" s="<<VS(s);
  conv<L,N>(*A,*B,*C); CHECK(c,get(*C)==pmod(nmul(a,b),q),"polynomial product with "+std::to_string(g_threads)+" threads");
  conv<L,N>(s.data(),*A,*C); CHECK(c,get(*C)==pmod(nmul(S_,a),q),"product with a key with "+std::to_string(g_threads)+" threads");
  std::vector<int> o(N),s2=picks(r,N); conv<N>(s.data(),s2.data(),o.data()); CHECK(c,gets(o.data(),N)==nmul(S_,gets(s2.data(),N)),"product of small polynomials");
  g_threads=r.in(2,8); auto ct=mkp<R_Q_square<L,N>>(); putp(ct->data[0],a); putp(ct->data[1],b); *ct*=*B; CHECK(c,get(ct->data[0])==pmod(nmul(a,b),q)&&get(ct->data[1])==pmod(nmul(b,b),q),"product of a ciphertext and a plaintext"); }
#define T1(L,N) TEST("par" #L "_" #N,(t<L,N>(c));)
T1(30,4) T1(64,8) T1(100,16) T1(200,8) T1(65,2) T1(500,8)
int main(int n,char**v){ return hmain(n,v); }
