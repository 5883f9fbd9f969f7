#include "ownrand.hpp"
#include "rq.hpp"
#include "HEAAN/linear_transform.h"
static Pol autom(const Pol&p,long e){ int N=p.size(); Pol o(N,0); for(int i=0;i<N;i++){ long j=(long)((__int128)i*e%(2*N)); if(j<0) j+=2*N; if(j<N) o[j]+=p[i]; else o[j-N]-=p[i]; } return o; }
template<int L,int N> void t(Case&c){
  Rng&r=c.r; BI q=pw2(L),q2=pw2(2*L); int k=r.below(3)?r.in(0,N+2):r.in(0,4*N+5); long e5=1; for(int i=0;i<k;i++) e5=e5*5%(2*N);
  Pol a=pickp<L>(r,N); std::vector<int> s=picks(r,N),o(N,77); if(r.below(3)==0) for(auto&x:s) x=r.in(-50,50); Pol S_=gets(s.data(),N);
  c.in<<"LOGQ="<<L<<" N="<<N<<" r="<<k<<" s="<<VS(s)<<" a="<<PS(a);
  rot<N>(s.data(),o.data()); CHECK(c,gets(o.data(),N)==autom(S_,5),"rotation of a key by 1");
  rot<N>(s.data(),o.data(),k); CHECK(c,gets(o.data(),N)==autom(S_,e5),"rotation of a key");
  std::vector<int> oc(N,77); conj<N>(s.data(),oc.data()); CHECK(c,gets(oc.data(),N)==autom(S_,2*N-1),"conjugation of a key");
  auto A=mkp<R_Q<L,N>>(),B=mkp<R_Q<L,N>>(); putp(*A,a);
  rot<L,N>(*A,*B,k); CHECK(c,get(*B)==pmod(autom(a,e5),q),"rotation of a polynomial"); CHECK(c,get(*A)==a,"rotation changed its operand");
  rot<L,N>(*A,*B); CHECK(c,get(*B)==pmod(autom(a,5),q),"rotation of a polynomial by 1");
  conj<L,N>(*A,*B); CHECK(c,get(*B)==pmod(autom(a,2*N-1),q),"conjugation of a polynomial");
  // ciphertexts
  for(auto&x:s) x=r.in(-1,1); S_=gets(s.data(),N); c.in<<" s="<<VS(s); setrand(r.u(),0);
  for(int cj=0;cj<2;cj++){
    long E=cj?2*N-1:e5; std::vector<int> sr(N); if(cj) conj<N>(s.data(),sr.data()); else rot<N>(s.data(),sr.data(),k);
    auto key=mkp<R_Q_square<2*L,N>>(); HEAAN<L,N>::swkgen(sr.data(),s.data(),*key);
    auto x=mkp<R_Q_square<L,N>>(),y=mkp<R_Q_square<L,N>>(); Pol x0=pickp<L>(r,N),x1=pickp<L>(r,N); putp(x->data[0],x0); putp(x->data[1],x1);
    if(cj) conj<L,N>(*x,*key,*y); else rot_ct<L,N>(*x,k,*key,*y);
    Pol d=pcen(psub(decp(*y,S_),autom(decp(*x,S_),E)),q); BI h=1; for(auto&v:S_) h+=abs(v);
    for(int i=0;i<N;i++) CHECK(c,abs(d[i])<=8*N+h,(cj?"conjugated":"rotated")+std::string(" ciphertext decrypts with error ")+S(d[i]));
    CHECK(c,get(x->data[0])==x0&&get(x->data[1])==x1,"ciphertext operand changed");
  }
}
#define T1(L,N) TEST("rot" #L "_" #N,t<L,N>(c);)
T1(40,2) T1(40,4) T1(64,8) T1(65,16) T1(100,4) T1(30,32) T1(60,64)
template<int N> void keys(Case&c){ Rng&r=c.r; int k=r.below(3)?r.in(0,N+2):r.in(0,4*N+5); long e5=1; for(int i=0;i<k;i++) e5=e5*5%(2*N); std::vector<int> s(N),o(N,77); for(auto&x:s) x=r.in(-9,9); Pol S_=gets(s.data(),N); c.in<<"N="<<N<<" r="<<k<<VS(s); rot<N>(s.data(),o.data(),k); CHECK(c,gets(o.data(),N)==autom(S_,e5),"rotation of a key"); rot<N>(s.data(),o.data()); CHECK(c,gets(o.data(),N)==autom(S_,5),"rotation by 1"); }
TEST("keys4096",keys<4096>(c);) TEST("keys131072",keys<131072>(c);)
int main(int n,char**v){ return hmain(n,v); }
