#include "rq.hpp"
#include "HEAAN/bootstrap.h"
template<int A,int B,int N> void t(Case&c){
  Rng&r=c.r; std::vector<int> s=picks(r,N); Pol S_=gets(s.data(),N); BI h=0; for(auto&x:S_) h+=abs(x);
  auto x=mkp<R_Q_square<A,N>>(); auto y=mkp<R_Q_square<B,N>>(); Pol x0=pickp<A>(r,N),x1=pickp<A>(r,N); putp(x->data[0],x0); putp(x->data[1],x1); c.in<<A<<"->"<<B<<" N="<<N<<" s="<<VS(s)<<" ct="<<PS(x0)<<PS(x1);
  RS<A,B,N>(*x,*y); CHECK(c,canonical((*y)[0])&&canonical((*y)[1]),"rescaled: not canonical"); CHECK(c,get(x->data[0])==x0&&get(x->data[1])==x1,"operand changed");
  Pol d=psub(pscale(decp(*y,S_),pw2(A-B)),decp(*x,S_)); d=pcen(d,pw2(A));
  for(int i=0;i<N;i++) CHECK(c,2*abs(d[i])<=pw2(A-B)*(1+h),"rescaling error "+S(d[i])+" / 2^"+std::to_string(A-B)+" in coefficient "+std::to_string(i));
  auto u=mkp<R_Q_square<B,N>>(); auto v=mkp<R_Q_square<A,N>>(); Pol u0=pickp<B>(r,N),u1=pickp<B>(r,N); putp(u->data[0],u0); putp(u->data[1],u1); c.in<<" raise "<<PS(u0)<<PS(u1);
  mod_raise<B,A,N>(*u,*v); for(int k=0;k<2;k++) CHECK(c,get(v->data[k])==pmod(pcen(k?u1:u0,pw2(B)),pw2(A)),"modulus raising changes the centred value");
  CHECK(c,get(u->data[0])==u0&&get(u->data[1])==u1,"operand changed");
  CHECK(c,pmod(decp(*v,S_),pw2(B))==decp(*u,S_),"modulus raising changes the decryption");
}
#define T1(A,B,N) TEST("rs" #A "_" #B,t<A,B,N>(c);)
T1(64,63,4) T1(65,64,4) T1(128,64,4) T1(129,64,8) T1(200,100,4) T1(100,36,4) T1(192,127,4) T1(60,20,8) T1(300,299,4) T1(500,60,4) T1(320,192,4) T1(70,69,16) T1(64,64,4) T1(90,90,4) T1(191,128,4)
int main(int n,char**v){ return hmain(n,v); }
