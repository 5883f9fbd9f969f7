#include "zq.hpp"
#include "HEAAN/arith/conv/crt.h"
typedef unsigned __int128 U;
static uint64_t pm(uint64_t a,uint64_t n,uint64_t q){ uint64_t r=1%q; a%=q; while(n){ if(n&1) r=(U)r*a%q; a=(U)a*a%q; n>>=1; } return r; }
static bool prime(uint64_t n){ if(n<2) return false; for(uint64_t p:{2,3,5,7,11,13,17,19,23,29,31,37}){ if(n%p==0) return n==p; } uint64_t d=n-1; int s=0; while(!(d&1)){d>>=1;s++;} for(uint64_t a:{2,3,5,7,11,13,17,19,23,29,31,37}){ uint64_t x=pm(a,d,n); if(x==1||x==n-1) continue; bool c=false; for(int i=1;i<s;i++){ x=(U)x*x%n; if(x==n-1){c=true;break;} } if(!c) return false; } return true; }
template<int L,int LOGQ> void t(Case&c){
  Rng&r=c.r; uint64_t q[L]; int mode=r.below(4);
  for(int i=0;i<L;i++){ again: uint64_t x; if(mode==0) x=3+r.below(60); else if(mode==1) x=(1ULL<<61)+r.below(1ULL<<61); else if(mode==2) x=(1ULL<<r.in(5,61))+r.below(1000); else x=(1ULL<<62)-1-r.below(4000); x|=1; while(!prime(x)) x+=2; if(x>=(1ULL<<62)) goto again; for(int j=0;j<i;j++) if(q[j]==x) goto again; q[i]=x; }
  BI Q=1; for(int i=0;i<L;i++){ Q*=q[i]; c.in<<" q"<<i<<"="<<q[i]; }
  CRT<L,LOGQ> crt{q}; BI M=pw2(LOGQ);
  for(int it=0;it<3;it++){
    BI a=pick<LOGQ>(r); if(r.below(3)==0) a=emod((r.coin()?1:-1)*BI(q[r.below(L)])*BI(r.below(5)),M); if(r.below(8)==0) a=emod(-BI(r.below(4)),M);
    BI ca=2*a>=M?a-M:a;
    Z_Q<LOGQ> A; put<LOGQ>(A,a); uint64_t res[L+2]; res[L]=res[L+1]=0x1234;
    crt.icrt(A,res); c.in<<" a="<<a;
    for(int i=0;i<L;i++) CHECK(c,BI(res[i])==emod(ca,q[i]),"decompose: residue "+std::to_string(i)+" is "+S(BI(res[i]))+" expected "+S(emod(ca,q[i])));
    CHECK(c,val(A)==a&&res[L]==0x1234,"decompose changed its operand");
    if(2*abs(ca)<Q){ Z_Q<LOGQ> R; crt.crt(res,R); CHECK(c,val(R)==a,"reconstruct(decompose(a)) = "+S(val(R))); }
    uint64_t x[L]; BI v; int m2=r.below(5); v= m2==0?BI((Q-1)/2): m2==1?BI((Q+1)/2): m2==2?BI(Q-1-r.below(3)): m2==3?BI(r.below(3)): BI(0); if(m2==4){ for(int i=0;i<L+1;i++){ v<<=64; v+=r.u(); } } v=emod(v,Q);
    for(int i=0;i<L;i++) x[i]=(uint64_t)(v%q[i]);
    BI cv=2*v>Q?v-Q:v; Z_Q<LOGQ> R; crt.crt(x,R); c.in<<" v="<<v;
    CHECK(c,val(R)==emod(cv,M),"reconstruct = "+S(val(R))+" expected "+S(emod(cv,M)));
  }
}
#define T1(L,Q) TEST("crt" #L "_" #Q,t<L,Q>(c);)
T1(1,62) T1(1,30) T1(1,64) T1(2,63) T1(2,64) T1(2,65) T1(2,128) T1(3,10) T1(3,100) T1(4,192) T1(4,190) T1(5,64) T1(5,256) T1(6,300) T1(2,1) T1(9,256) T1(7,420) T1(5,129) T1(3,128) T1(1,200)
int main(int n,char**v){ return hmain(n,v); }
