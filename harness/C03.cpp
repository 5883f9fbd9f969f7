#include "h.hpp"
#include "HEAAN/arith/Z_Q.h"
#include "HEAAN/arith/conv/mod.h"
typedef unsigned __int128 u128;
static uint64_t w(Rng&r){ switch(r.below(6)){ case 0: return UINT64_MAX-r.below(3); case 1: return r.below(4); case 2: return 1ULL<<r.below(64); case 3: return (1ULL<<63)+r.below(3)-1; default: return r.u()>>r.below(64);} }
static uint64_t modulus(Rng&r){ uint64_t q=w(r); return q<2?2:q; }
static uint64_t pm(uint64_t a,uint64_t n,uint64_t q){ u128 x=1%q,b=a%q; while(n){ if(n&1) x=x*b%q; b=b*b%q; n>>=1;} return (uint64_t)x; }
static bool prime(uint64_t n){ if(n<4) return n>=2; if(n%2==0) return false; uint64_t d=n-1; int s=0; while(d%2==0){d/=2;s++;} for(uint64_t a:{2,3,5,7,11,13,17,19,23,29,31,37}){ if(a%n==0) continue; uint64_t x=pm(a,d,n); if(x==1||x==n-1) continue; bool ok=false; for(int i=1;i<s;i++){ x=(u128)x*x%n; if(x==n-1){ok=true;break;} } if(!ok) return false;} return true; }
TEST("words", uint64_t a=w(c.r); uint64_t b=w(c.r); uint64_t q=modulus(c.r); uint64_t n=w(c.r); if(c.r.below(4)==0) a=q; if(c.r.below(4)==0) b=q; c.in<<"a="<<a<<" b="<<b<<" q="<<q<<" n="<<n;
 CHECK(c,mod(a,b,q)==(uint64_t)((((u128)b<<64)+a)%q),"mod");
 uint64_t lo; uint64_t hi; mul_(a,b,lo,hi); u128 p=(u128)a*b; CHECK(c,lo==(uint64_t)p&&hi==(uint64_t)(p>>64),"mul_"); mul(a,b,lo,hi); CHECK(c,lo==(uint64_t)p&&hi==(uint64_t)(p>>64),"mul");
 CHECK(c,add_mod(a,b,q)==(uint64_t)(((u128)a+b)%q),"add_mod"); CHECK(c,sub_mod(a,b,q)==(uint64_t)(((u128)(a%q)+q-b%q)%q),"sub_mod"); CHECK(c,mul_mod(a,b,q)==(uint64_t)(p%q),"mul_mod"); CHECK(c,pow_mod(a,n,q)==pm(a,n,q),"pow_mod"); CHECK(c,pow_mod(a,c.r.below(6)*0,q)==1,"pow_mod 0"); uint64_t k=c.r.below(9); CHECK(c,pow_mod(a,k,q)==pm(a,k,q),"pow_mod small"); )
TEST("inv", uint64_t q=modulus(c.r)|1; while(!prime(q)) q= q<5?5:(q-2); if(c.r.below(20)==0) q=2; uint64_t a=w(c.r); if(a%q==0) a=a<UINT64_MAX?a+1:a-1; if(a%q==0) a=1; c.in<<"a="<<a<<" q="<<q; CHECK(c,(u128)inv_mod(a,q)*(a%q)%q==1,"inv_mod"); CHECK(c,inv_mod(a,q)<q,"inv_mod range");)
int main(int n,char**v){ return hmain(n,v); }
