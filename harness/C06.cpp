#include "rq.hpp"
template<int L,int N> void big(Case&c){
  Rng&r=c.r; BI q=pw2(L); Pol a=pickp<L>(r,N), b=pickp<L>(r,N); c.in<<"LOGQ="<<L<<" N="<<N<<" a="<<PS(a)<<" b="<<PS(b);
  auto A=mkp<R_Q<L,N>>(),B=mkp<R_Q<L,N>>(),C=mkp<R_Q<L,N>>(); putp(*A,a); putp(*B,b);
  Pol ca=pcen(a,q), cb=pcen(b,q);
  conv<L,N>(*A,*B,*C); Pol e=pmod(nmul(ca,cb),q);
  CHECK(c,get(*C)==e,"product "+PS(get(*C))+" expected "+PS(e)); CHECK(c,get(*A)==a&&get(*B)==b,"operand changed");
  conv<L,N>(*A,*A,*C); CHECK(c,get(*C)==pmod(nmul(ca,ca),q),"square");
  std::vector<int> s=picks(r,N); c.in<<" s="<<VS(s);
  conv<L,N>(s.data(),*A,*C); CHECK(c,get(*C)==pmod(nmul(gets(s.data(),N),a),q),"product with ternary secret");
  CHECK(c,get(*A)==a,"operand changed");
}
template<int N> void small(Case&c){ Rng&r=c.r; std::vector<int> s(N),t(N),u(N); int m=r.coin()?1:30000/ (int)std::sqrt((double)N)/2; for(int i=0;i<N;i++){ s[i]=r.in(-m,m); t[i]=r.in(-m,m);} c.in<<VS(s)<<VS(t); conv<N>(s.data(),t.data(),u.data()); Pol e=nmul(gets(s.data(),N),gets(t.data(),N)); CHECK(c,gets(u.data(),N)==e,"integer product"); }
#define T1(L,N) TEST("conv" #L "_" #N,big<L,N>(c);)
#define T2(N) TEST("int" #N,small<N>(c);)
T1(21,4) T1(22,4) T1(51,8) T1(52,8) T1(64,4) T1(63,8) T1(65,16) T1(100,8) T1(128,4) T1(200,8) T1(40,2) T1(300,4) T1(62,32) T1(30,128) T1(1000,4) T1(2,4) T1(1,4)
T2(2) T2(4) T2(8) T2(64)
int main(int n,char**v){ return hmain(n,v); }
