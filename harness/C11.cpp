#include "ownrand.hpp"
#include "rq.hpp"
template<int N> void t(Case&c){
  Rng&r=c.r; int h=r.below(4)==0?N:r.below(4)==0?N-1:r.in(0,N); if(h<0) h=0; uint64_t rs=r.u(); int mode=r.coin()?0:6; c.in<<"N="<<N<<" h="<<h<<" seed "<<rs<<" mode "<<mode;
  std::vector<int> s(N+4,1234567); for(int i=2;i<N+2;i++) s[i]=r.in(-5,5); setrand(rs,mode);
  HEAAN<64,N>::keygen(h,s.data()+2);
  CHECK(c,s[0]==1234567&&s[1]==1234567&&s[N+2]==1234567&&s[N+3]==1234567,"wrote outside the key");
  int w=0; for(int i=2;i<N+2;i++){ CHECK(c,s[i]>=-1&&s[i]<=1,"coefficient "+std::to_string(s[i])); w+=s[i]!=0; }
  CHECK(c,w==h,"weight "+std::to_string(w)+" instead of "+std::to_string(h));
}
#define T1(N) TEST("key" #N,t<N>(c);)
T1(1) T1(2) T1(3) T1(4) T1(8) T1(16) T1(64) T1(512)
int main(int n,char**v){ return hmain(n,v); }
