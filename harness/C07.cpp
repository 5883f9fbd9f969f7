#include "ownrand.hpp"
#include "rq.hpp"
template<int L,int N> void t(Case&c){
  Rng&r=c.r; BI q=pw2(L); Pol m=pickp<L>(r,N); std::vector<int> s=picks(r,N); int mode=r.below(6); uint64_t rs=r.u();
  c.in<<"LOGQ="<<L<<" N="<<N<<" m="<<PS(m)<<" s="<<VS(s)<<" rand mode "<<mode<<" seed "<<rs;
  auto P=mkp<R_Q<L,N>>(),D=mkp<R_Q<L,N>>(); auto ct=mkp<R_Q_square<L,N>>(); putp(*P,m); auto s0=s;
  setrand(rs,mode); HEAAN<L,N>::enc(*P,s.data(),*ct);
  CHECK(c,get(*P)==m&&s==s0,"enc changed its operands");
  CHECK(c,canonical((*ct)[0])&&canonical((*ct)[1]),"ciphertext component not canonical");
  HEAAN<L,N>::dec(*ct,s.data(),*D); CHECK(c,s==s0,"dec changed the key"); CHECK(c,canonical(*D),"decryption not canonical");
  Pol e=pcen(psub(get(*D),m),q); for(int i=0;i<N;i++) CHECK(c,abs(e[i])<=8,"noise "+S(e[i])+" in coefficient "+std::to_string(i));
  CHECK(c,get(*D)==decp(*ct,gets(s.data(),N)),"decryption is not ct0 + s*ct1");
  // decryption of arbitrary ciphertexts
  putp((*ct)[0],pickp<L>(r,N)); putp((*ct)[1],pickp<L>(r,N)); HEAAN<L,N>::dec(*ct,s.data(),*D); CHECK(c,get(*D)==decp(*ct,gets(s.data(),N)),"decryption is not ct0 + s*ct1");
}
#define T1(L,N) TEST("enc" #L "_" #N,t<L,N>(c);)
T1(6,4) T1(20,4) T1(63,8) T1(64,8) T1(65,8) T1(100,16) T1(128,2) T1(129,4) T1(200,8) T1(320,4) T1(600,4) T1(60,64)
int main(int n,char**v){ return hmain(n,v); }
