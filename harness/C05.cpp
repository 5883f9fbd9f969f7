#include "zq.hpp"
#include <algorithm>
#include "HEAAN/arith/conv/ntt.h"
typedef unsigned __int128 U;
static uint64_t pm(uint64_t a,uint64_t n,uint64_t q){ uint64_t r=1%q; a%=q; while(n){ if(n&1) r=(U)r*a%q; a=(U)a*a%q; n>>=1; } return r; }
static bool prime(uint64_t n){ if(n<2) return false; for(uint64_t p:{2,3,5,7,11,13,17,19,23,29,31,37}){ if(n%p==0) return n==p; } uint64_t d=n-1; int s=0; while(!(d&1)){d>>=1;s++;} for(uint64_t a:{2,3,5,7,11,13,17,19,23,29,31,37}){ uint64_t x=pm(a,d,n); if(x==1||x==n-1) continue; bool c=false; for(int i=1;i<s;i++){ x=(U)x*x%n; if(x==n-1){c=true;break;} } if(!c) return false; } return true; }
static const uint64_t big[]={0xffffffffffc0001ULL,0xfffffffff840001ULL,0x1000000000b00001ULL,0xfffffffff240001ULL,0x1000000000f00001ULL,0x100000000f3c0001ULL,0xfffffffeff80001ULL};
template<int N> std::unique_ptr<NTT<N>> mkp_ntt(uint64_t q){ return std::unique_ptr<NTT<N>>(new NTT<N>(q)); }
template<int N> void t(Case&c){
  Rng&r=c.r; uint64_t q;
  if(r.below(3)==0) q=big[r.below(7)];
  else { int b=r.in(4,34); q=((1ULL<<b)+r.below(1ULL<<b))/(2*N)*(2*N)+1; if(q<2*N) q=2*N+1; while(!prime(q)) q+=2*N; }
  if(r.below(4)==0){ q=2*N+1; while(!prime(q)) q+=2*N; }
  c.in<<"N="<<N<<" q="<<q;
  auto T=mkp_ntt<N>(q);
  std::vector<uint64_t> a(N),b,one(N,0);
  one[1%N]=1; if(N==1) return;
  T->ntt(one.data()); // images of x: the evaluation points
  for(int i=0;i<N;i++){ CHECK(c,one[i]<q && pm(one[i],N,q)==q-1,"evaluation point "+std::to_string(i)+" is not a root of x^N+1"); }
  { auto s=one; std::sort(s.begin(),s.end()); for(int i=1;i<N;i++) CHECK(c,s[i]!=s[i-1],"two evaluation points coincide"); }
  int mode=r.below(5); for(auto&x:a) x= mode==0?q-1: mode==1?r.below(2)*(q-1): r.below(q);
  if(mode==2){ for(auto&x:a) x=0; a[r.below(N)]=r.coin()?1:q-1; }
  b=a; T->ntt(b.data());
  for(int i=0;i<N;i++){ uint64_t v=0; for(int k=N-1;k>=0;k--) v=((U)v*one[i]+a[k])%q; CHECK(c,b[i]==v,"value "+std::to_string(i)+": got "+S(BI(b[i]))+" expected "+S(BI(v))); }
  T->intt(b.data()); for(int i=0;i<N;i++) CHECK(c,b[i]==a[i],"inverse(forward): entry "+std::to_string(i));
  auto d=a; T->intt(d.data()); for(auto x:d) CHECK(c,x<q,"inverse not canonical"); T->ntt(d.data()); CHECK(c,d==a,"forward(inverse)");
}
#define T1(N) TEST("ntt" #N,t<N>(c);)
T1(2) T1(4) T1(8) T1(16) T1(32) T1(64) T1(128) T1(512)
int main(int n,char**v){ return hmain(n,v); }
