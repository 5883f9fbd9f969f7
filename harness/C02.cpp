#include "zq.hpp"
template<int F,int T> void rsz(Case&c){ BI a=pick<F>(c.r); c.in<<"resize "<<F<<"->"<<T<<" a="<<a; Z_Q<F> A; Z_Q<T> B; put<F>(A,a); put<T>(B,pickraw<T>(c.r)); resize(A,B); BI s=cen(A); CHECK(c,val(A)==a,"operand changed"); CHECK(c,val(B)==emod(s,pw2(T)),"resize: got "+S(val(B))+" expected "+S(emod(s,pw2(T)))); }
template<int F,int T> void shr(Case&c){ BI a=pick<F>(c.r); if(c.r.below(3)==0) { a=emod((a>>(F-T))*pw2(F-T)+(F>T?pw2(F-T-1):BI(0))-(int)c.r.below(2),pw2(F)); } c.in<<"shift_right "<<F<<"->"<<T<<" a="<<a; Z_Q<F> A; Z_Q<T> B; put<F>(A,a); put<T>(B,pickraw<T>(c.r)); shift_right(A,B); BI e= F==T?a: emod((a+pw2(F-T-1))>>(F-T),pw2(T)); CHECK(c,val(A)==a,"operand changed"); CHECK(c,val(B)==e,"shift_right: got "+S(val(B))+" expected "+S(e)); }
template<int F,int T> void shl(Case&c){ BI a=pick<F>(c.r); c.in<<"shift_left "<<F<<"->"<<T<<" a="<<a; Z_Q<F> A; Z_Q<T> B; put<F>(A,a); put<T>(B,pickraw<T>(c.r)); shift_left(A,B); CHECK(c,val(A)==a,"operand changed"); CHECK(c,val(B)==(a<<(T-F)),"shift_left: got "+S(val(B))); }
#define R(F,T) TEST("resize" #F "_" #T,rsz<F,T>(c);)
#define SR(F,T) TEST("shr" #F "_" #T,shr<F,T>(c);)
#define SL(F,T) TEST("shl" #F "_" #T,shl<F,T>(c);)
R(64,64) R(63,64) R(64,63) R(65,64) R(64,65) R(10,200) R(200,10) R(128,192) R(192,128) R(129,191) R(191,129) R(640,1280) R(1280,640) R(1200,35) R(35,1200) R(1,70) R(70,1) R(130,130)
SR(64,64) SR(128,64) SR(100,36) SR(200,72) SR(70,64) SR(130,66) SR(130,60) SR(192,65) SR(193,129) SR(256,1) SR(65,1) SR(64,63) SR(1200,1150) SR(640,320) SR(191,128) SR(128,127) SR(300,299) SR(190,64) SR(257,192) SR(300,120)
SL(64,64) SL(64,128) SL(36,100) SL(72,200) SL(64,70) SL(66,130) SL(60,130) SL(65,192) SL(129,193) SL(1,256) SL(1,65) SL(63,64) SL(1150,1200) SL(320,640) SL(128,191) SL(64,65) SL(120,300) SL(128,256)
int main(int n,char**v){ return hmain(n,v); }
