#include "zq.hpp"
template<int L> void ops(Case&c){
  Rng&r=c.r; BI q=pw2(L); BI a=pick<L>(r), b=pick<L>(r); uint64_t w=r.below(3)?r.u():r.below(3)*UINT64_MAX/2; if(r.below(5)==0) w=UINT64_MAX;
  c.in<<"LOGQ="<<L<<" a="<<a<<" b="<<b<<" word="<<w;
  struct G{ uint64_t pre; Z_Q<L> A,B; uint64_t post; } g; g.pre=r.u(); g.post=r.u(); uint64_t p0=g.pre,p1=g.post;
  auto fresh=[&]{ put<L>(g.A,a); put<L>(g.B,b); };
  auto ck=[&](const char*n,const BI&e){ CHECK(c,val(g.A)==emod(e,q),std::string(n)+": got "+S(val(g.A))+" expected "+S(emod(e,q))); CHECK(c,val(g.B)==b,std::string(n)+" changed its operand"); CHECK(c,g.pre==p0&&g.post==p1,std::string(n)+" wrote outside"); };
  auto cks=[&](const char*n,const BI&e){ CHECK(c,val(g.A)==emod(e,q),std::string(n)+": got "+S(val(g.A))+" expected "+S(emod(e,q))); };
  fresh(); g.A+=g.B; ck("operator+=",a+b);
  fresh(); g.A+=g.A; cks("operator+= (same object)",a+a);
  fresh(); g.A-=g.B; ck("operator-=",a-b);
  fresh(); g.A-=g.A; cks("operator-= (same object)",0);
  fresh(); g.A.negate(); ck("negate",-a);
  fresh(); g.A*=w; ck("operator*=(word)",a*w);
  fresh(); g.A*=g.B; ck("operator*=",a*b);
  fresh(); g.A*=g.A; cks("operator*= (same object)",a*a);
  fresh(); g.A=g.B; ck("operator=",b);
  { fresh(); Z_Q<L> C(g.A); CHECK(c,val(C)==a,"copy constructor"); }
  fresh(); g.A.setzero(); ck("setzero",0);
  fresh(); CHECK(c,g.A.is_bigger_than_halfQ()==(2*a>=q),"is_bigger_than_halfQ");
  fresh(); CHECK(c,g.A.get_length()==(L+63)/64,"get_length");
  BI ra=pickraw<L>(r), rb=pickraw<L>(r); put<L>(g.A,ra); put<L>(g.B,rb); c.in<<" raw="<<ra<<","<<rb;
  g.A.remove_clutter(); CHECK(c,val(g.A)==emod(ra,q),"remove_clutter");
  put<L>(g.A,ra); b=rb; g.A+=g.B; ck("operator+= (unreduced)",ra+rb); put<L>(g.A,ra); put<L>(g.B,rb); g.A.negate(); ck("negate (unreduced)",-ra);
  put<L>(g.A,ra); g.A-=g.B; ck("operator-= (unreduced)",ra-rb); put<L>(g.A,ra); g.A*=w; ck("*=(word) (unreduced)",ra*w); put<L>(g.A,ra); g.A*=g.B; ck("*= (unreduced)",ra*rb);
}
#define T1(L) TEST("ops" #L,ops<L>(c);)
T1(1) T1(2) T1(31) T1(63) T1(64) T1(65) T1(100) T1(127) T1(128) T1(129) T1(190) T1(192) T1(193) T1(300) T1(320) T1(1200) T1(1279) T1(1280)
TEST("mul", uint64_t a=c.r.below(4)?c.r.u():UINT64_MAX; uint64_t b=c.r.below(4)?c.r.u():UINT64_MAX; if(c.r.below(4)==0) a&=0xffffffff00000000ULL|c.r.below(2); c.in<<a<<" "<<b; uint64_t lo; uint64_t hi; mul(a,b,lo,hi); unsigned __int128 p=(unsigned __int128)a*b; CHECK(c,lo==(uint64_t)p&&hi==(uint64_t)(p>>64),"mul");)
int main(int n,char**v){ return hmain(n,v); }
