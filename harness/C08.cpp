#include "ownrand.hpp"
#include "rq.hpp"
// |cen(dev*2^L - lift*e)| <= 2^L * (1+h)/2 in every coefficient, for the signed or the unsigned representatives of the switched component
template<int L> bool okdev(const Pol&dev,const Pol&comp,const Pol&e,const Pol&s,std::string&why){
  int N=dev.size(); BI q=pw2(L),q2=pw2(2*L); BI h=0; for(auto&x:s) h+=abs(x);
  for(int lift=0;lift<2;lift++){ Pol u=lift?pcen(comp,q):pmod(comp,q); Pol ue=nmul(u,e); bool ok=true; 
    for(int i=0;i<N;i++){ BI x=emod(dev[i]*q-ue[i],q2); if(2*x>=q2) x-=q2; if(2*abs(x)>q*(1+h)){ ok=false; why="coefficient "+std::to_string(i)+": deviation*2^LOGQ - noise*component = "+S(x)+" exceeds 2^LOGQ*(1+h)/2"; } }
    if(ok) return true; }
  return false; }
template<int L,int N> void t(Case&c){
  Rng&r=c.r; BI q=pw2(L),q2=pw2(2*L); std::vector<int> s=picks(r,N), sf=picks(r,N); if(r.below(3)==0) for(auto&x:sf) x=r.in(-N,N);
  int mode=r.below(6); uint64_t rs=r.u(); c.in<<"LOGQ="<<L<<" N="<<N<<" s_to="<<VS(s)<<" s_fr="<<VS(sf)<<" rand mode "<<mode<<" seed "<<rs;
  Pol S_=gets(s.data(),N), F=gets(sf.data(),N);
  auto swk=mkp<R_Q_square<2*L,N>>(); setrand(rs,mode); HEAAN<L,N>::swkgen(sf.data(),s.data(),*swk);
  Pol e=pcen(psub(decp(*swk,S_),pscale(F,q)),q2); for(int i=0;i<N;i++) CHECK(c,abs(e[i])<=8,"switching key: noise "+S(e[i])+" in coefficient "+std::to_string(i));
  // arbitrary (adversarial) switching key noise
  if(r.coin()){ for(auto&x:e) x=r.in(-8,8); Pol a=pickp<2*L>(r,N); putp(swk->data[1],a); putp(swk->data[0],psub(padd(pscale(F,q),e),nmul(S_,a))); }
  auto ct=mkp<R_Q_square<L,N>>(); Pol a0=pickp<L>(r,N),a1=pickp<L>(r,N); putp(ct->data[0],a0); putp(ct->data[1],a1); c.in<<" ct="<<PS(a0)<<PS(a1);
  Pol before=decp(*ct,F); HEAAN<L,N>::ks(*swk,*ct); std::string why;
  Pol dev=psub(decp(*ct,S_),before); CHECK(c,okdev<L>(dev,a1,e,S_,why),"key switching: "+why);
  CHECK(c,canonical((*ct)[0])&&canonical((*ct)[1]),"key switching: not canonical");
  // multiplication
  Pol s2=nmul(S_,S_); auto evk=mkp<R_Q_square<2*L,N>>();
  std::vector<int> sq(N); conv<N>(s.data(),s.data(),sq.data()); CHECK(c,gets(sq.data(),N)==s2,"square of the key");
  HEAAN<L,N>::swkgen(sq.data(),s.data(),*evk); e=pcen(psub(decp(*evk,S_),pscale(s2,q)),q2); for(int i=0;i<N;i++) CHECK(c,abs(e[i])<=8,"evaluation key: noise "+S(e[i]));
  auto x=mkp<R_Q_square<L,N>>(),y=mkp<R_Q_square<L,N>>(),z=mkp<R_Q_square<L,N>>();
  Pol x0=pickp<L>(r,N),x1=pickp<L>(r,N),y0=pickp<L>(r,N),y1=pickp<L>(r,N); putp(x->data[0],x0);putp(x->data[1],x1);putp(y->data[0],y0);putp(y->data[1],y1); c.in<<" x="<<PS(x0)<<PS(x1)<<" y="<<PS(y0)<<PS(y1);
  Mul<L,N>(*x,*y,*evk,*z); CHECK(c,get(x->data[0])==x0&&get(x->data[1])==x1&&get(y->data[0])==y0&&get(y->data[1])==y1,"Mul changed an operand");
  CHECK(c,canonical((*z)[0])&&canonical((*z)[1]),"Mul: not canonical");
  dev=psub(decp(*z,S_),nmul(decp(*x,S_),decp(*y,S_))); CHECK(c,okdev<L>(dev,nmul(x1,y1),e,S_,why),"Mul: "+why);
  Mul<L,N>(*x,*x,*evk,*z); dev=psub(decp(*z,S_),nmul(decp(*x,S_),decp(*x,S_))); CHECK(c,okdev<L>(dev,nmul(x1,x1),e,S_,why),"Mul (square): "+why);
  // product with a plaintext
  auto p=mkp<R_Q<L,N>>(); Pol pp=pickp<L>(r,N); putp(*p,pp); *x*=*p; CHECK(c,decp(*x,S_)==pmod(nmul(padd(x0,nmul(S_,x1)),pp),q),"product with a plaintext"); 
}
#define T1(L,N) TEST("ks" #L "_" #N,t<L,N>(c);)
T1(10,4) T1(30,4) T1(32,4) T1(33,4) T1(63,4) T1(64,4) T1(65,8) T1(100,4) T1(128,4) T1(200,4) T1(60,16)
int main(int n,char**v){ return hmain(n,v); }
