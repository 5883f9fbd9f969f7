#pragma once
#include "zq.hpp"
#include "HEAAN/core.h"
using Pol=std::vector<BI>;
inline Pol nmul(const Pol&a,const Pol&b){ int N=a.size(); Pol c(N,0); for(int i=0;i<N;i++){ if(a[i]==0) continue; for(int j=0;j<N;j++){ if(i+j<N) c[i+j]+=a[i]*b[j]; else c[i+j-N]-=a[i]*b[j]; } } return c; }
inline Pol padd(Pol a,const Pol&b){ for(size_t i=0;i<a.size();i++) a[i]+=b[i]; return a; }
inline Pol psub(Pol a,const Pol&b){ for(size_t i=0;i<a.size();i++) a[i]-=b[i]; return a; }
inline Pol pscale(Pol a,const BI&k){ for(auto&x:a) x*=k; return a; }
inline Pol pmod(Pol a,const BI&q){ for(auto&x:a) x=emod(x,q); return a; }
inline Pol pcen(Pol a,const BI&q){ for(auto&x:a){ x=emod(x,q); if(2*x>=q) x-=q; } return a; }
template<int L,int N> Pol get(const R_Q<L,N>&A){ Pol p(N); for(int i=0;i<N;i++) p[i]=val(A.coeff[i]); return p; }
template<int L,int N> void putp(R_Q<L,N>&A,const Pol&p){ for(int i=0;i<N;i++) put<L>(A.coeff[i],emod(p[i],pw2(L))); }
inline Pol gets(const int*s,int N){ Pol p(N); for(int i=0;i<N;i++) p[i]=s[i]; return p; }
template<int L> Pol pickp(Rng&r,int N){ Pol p(N); int mode=r.below(6); BI q=pw2(L); BI same=pick<L>(r); for(int i=0;i<N;i++){ p[i]= mode==0?same: mode==1?q/2: mode==2?(r.coin()?BI(q/2):BI(q/2-1)): mode==3?(r.below(4)?BI(0):pick<L>(r)): pick<L>(r); } return p; }
inline std::vector<int> picks(Rng&r,int N){ std::vector<int> s(N); int mode=r.below(5); for(int i=0;i<N;i++) s[i]= mode==0?1: mode==1?-1: mode==2?(r.below(4)?0:(r.coin()?1:-1)): r.in(-1,1); return s; }
inline std::string PS(const Pol&p){ std::string s="["; for(auto&x:p) s+=S(x)+" "; return s+"]"; }
inline std::string VS(const std::vector<int>&p){ std::string s="["; for(auto&x:p) s+=std::to_string(x)+" "; return s+"]"; }
template<int L,int N> bool canonical(const R_Q<L,N>&A){ for(int i=0;i<N;i++) if(val(A.coeff[i])>=pw2(L)) return false; return true; }
template<int L,int N> Pol decp(const R_Q_square<L,N>&ct,const Pol&s){ return pmod(padd(get(ct.data[0]),nmul(s,get(ct.data[1]))),pw2(L)); }
template<class T> std::unique_ptr<T> mkp(){ return std::unique_ptr<T>(new T); }
// exact oracle encryption: e0 given
template<int L,int N> void encp(Rng&r,const Pol&m,const Pol&s,R_Q_square<L,N>&ct,int noise=8){ Pol a=pickp<L>(r,N); Pol e(N); for(auto&x:e) x=r.in(-noise,noise); putp(ct.data[1],a); putp(ct.data[0],psub(padd(m,e),nmul(s,a))); }
