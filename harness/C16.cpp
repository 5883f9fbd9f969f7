#include "slot.hpp"
#include "HEAAN/endecode.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include "impl/simple_plaintext.h"
template<int L,int LN> void t(Case&c){ constexpr int N=1<<LN,H=N/2; Rng&r=c.r;
  // encoding
  int ld_=r.in(0,std::min(L-2,60)); uint64_t De=r.coin()?(1ull<<ld_):1+r.below(1ull<<ld_); VL m(N); LD lim=ldexpl(1,std::min(L-1,62))/De*0.49L; if(lim>1&&r.coin()) lim=1; int md=r.below(3); for(auto&x:m) x=md==0?(r.d()*2-1)*lim: md==1?(r.below(3)?0:(r.coin()?lim:-lim)):(LD)(std::floor((r.d()*2-1)*(double)(lim*De)))/De; VC z=emb(m); double zr[H],zi[H]; Message<LN> ms; for(int i=0;i<H;i++){ ms.r[i]=zr[i]=z[i].real(); ms.i[i]=zi[i]=z[i].imag(); z[i]=CL(zr[i],zi[i]); } m=iemb(z);
  c.in<<"LOGQ="<<L<<" LOGN="<<LN<<" Delta="<<De<<" z="<<ZS(z); auto p=mkp<R_Q<L,N>>(); putp(*p,pickp<L>(r,N));
  encode<L,LN>(zr,zi,De,*p); LD tol=1e-11L*N*(1+lim*De); for(int i=0;i<N;i++){ CHECK(c,val(p->coeff[i])<pw2(L),"not canonical"); LD g=ld(cen(p->coeff[i])); CHECK(c,fabsl(g-m[i]*De)<=0.5L+tol,"coefficient "+std::to_string(i)+" is "+::S(cen(p->coeff[i]))+", Delta*m is "+::S((double)(m[i]*De))); }
  auto p2=mkp<R_Q<L,N>>(); encode<L,LN>(ms,De,*p2); CHECK(c,get(*p)==get(*p2),"encode of a message differs");
  // decoding of arbitrary values
  Pol a=pickp<L>(r,N); putp(*p,a); Pol ce=pcen(a,pw2(L)); c.in<<" pt="<<PS(a); int lg=r.in(0,63); De=r.coin()?(1ull<<lg):1+r.below(UINT64_MAX-1); c.in<<" Delta="<<De<<" LOGDELTA="<<lg;
  LD mx=0; for(auto&x:ce) mx=std::max(mx,fabsl(ld(x)));
  VC e=emb(polyld(ce,De)); LD tl=1e-12L*N*N*mx/De; double xr[H],xi[H]; auto q=[&]{ VC v(H); for(int i=0;i<H;i++) v[i]=CL(xr[i],xi[i]); return v; };
  decode<L,LN>(*p,De,xr,xi); CHECK(c,dist(q(),e)<=tl,"decode: "+ZS(q())+" expected "+ZS(e)); decode<L,LN>(*p,De,ms); for(int i=0;i<H;i++) CHECK(c,ms.r[i]==xr[i]&&ms.i[i]==xi[i],"decode into a message differs");
  int lg2=r.coin()?lg:r.in(0,300); e=emb(polyld(ce,ldexpl(1,lg2))); tl=1e-12L*N*N*ldexpl(mx,-lg2); decode_log<L,LN>(*p,lg2,xr,xi); CHECK(c,dist(q(),e)<=tl,"decode_log by "+std::to_string(lg2)+": "+ZS(q())+" expected "+ZS(e)); decode_log<L,LN>(*p,lg2,ms); for(int i=0;i<H;i++) CHECK(c,ms.r[i]==xr[i]&&ms.i[i]==xi[i],"decode_log into a message differs");
  for(int i=0;i<N;i++){ double d=(double)p->coeff[i]; CHECK(c,fabsl(d-ld(ce[i]))<=1e-15L*8*fabsl(ld(ce[i])),"conversion of "+::S(ce[i])+" to double gives "+::S(d)); }
  CHECK(c,get(*p)==a,"operand changed"); }
// plain-number plaintexts
template<int LN> void sp(Case&c){ constexpr int N=1<<LN,H=N/2; Rng&r=c.r; Message<LN> z,o; VC Z(H); for(int i=0;i<H;i++){ z.r[i]=r.d()*20-10; z.i[i]=r.d()*20-10; Z[i]=CL(z.r[i],z.i[i]); } uint64_t De=1ull<<r.in(0,50); c.in<<"LOGN="<<LN<<" Delta="<<De<<" "<<ZS(Z); VL m=iemb(Z); SimplePlaintext<LN> p; encode_raw(z,De,p); for(int i=0;i<N;i++) CHECK(c,fabsl(p[i]-m[i]*De)<1e-12L*N*20*De,"encode_raw"); encode(z,De,p); for(int i=0;i<N;i++) CHECK(c,fabsl(p[i]-m[i]*De)<0.5L+1e-12L*N*20*De&&p[i]==std::round(p[i]),"encode of a plain-number plaintext"); VL w(N); for(int i=0;i<N;i++) w[i]=(LD)p[i]/De; decode(p,De,o); VC q(H); for(int i=0;i<H;i++) q[i]=CL(o.r[i],o.i[i]); CHECK(c,dist(q,emb(w))<1e-11L*N*20,"decode of a plain-number plaintext"); }
#define T1(L,N) TEST("code" #L "_" #N,(t<L,N>(c));)
T1(10,3) T1(33,3) T1(63,3) T1(64,3) T1(65,3) T1(100,4) T1(128,3) T1(129,3) T1(200,5) T1(256,2) T1(500,3)
TEST("sp2",sp<2>(c);) TEST("sp5",sp<5>(c);)
int main(int n,char**v){ return hmain(n,v); }
