#pragma once
#include "rq.hpp"
using LD=long double; using CL=std::complex<long double>; using VL=std::vector<LD>; using VC=std::vector<CL>;
static const LD LPI=3.14159265358979323846264338327950288L;
inline CL root(int N,long e){ LD a=LPI/N*(LD)(((e%(2L*N))+2L*N)%(2L*N)); return CL(cosl(a),sinl(a)); }
// slots of a real polynomial: values at zeta^(5^i)
inline VC emb(const VL&m){ int N=m.size(); VC z(N/2); long f=1; for(int i=0;i<N/2;i++,f=f*5%(2*N)){ CL s=0; for(int k=0;k<N;k++) s+=m[k]*root(N,f*k); z[i]=s; } return z; }
inline VL iemb(const VC&z){ int N=2*z.size(); VL m(N); for(int k=0;k<N;k++){ CL s=0; long f=1; for(int i=0;i<N/2;i++,f=f*5%(2*N)) s+=std::conj(root(N,f*k))*z[i]; m[k]=2*s.real()/N; } return m; }
inline LD ld(const BI&b){ return b.convert_to<long double>(); }
inline BI nearest(LD x){ LD r=floorl(x+0.5L); bool neg=r<0; if(neg) r=-r; int e; LD f=frexpl(r,&e); BI b=(uint64_t)ldexpl(f,64); if(e>=64) b<<=(e-64); else b>>=(64-e); return neg?BI(-b):b; }
inline VL polyld(const Pol&p,LD scale){ VL m(p.size()); for(size_t i=0;i<p.size();i++) m[i]=ld(p[i])/scale; return m; }
template<int L,int N> Pol encz(const VC&z,LD scale){ VL m=iemb(z); Pol p(N); for(int i=0;i<N;i++) p[i]=nearest(m[i]*scale); return p; }
template<int L,int N> VC decz(const R_Q_square<L,N>&ct,const Pol&s,LD scale){ return emb(polyld(pcen(decp(ct,s),pw2(L)),scale)); }
// exact key switching key with noise of at most 8
template<int L,int N> void keyp(Rng&r,const Pol&from,const Pol&to,R_Q_square<2*L,N>&k){ Pol e(N); for(auto&x:e) x=r.in(-8,8); Pol a(N); for(auto&x:a) x=pick<2*L>(r); putp(k.data[1],a); putp(k.data[0],psub(padd(pscale(from,pw2(L)),e),nmul(to,a))); }
inline LD dist(const VC&a,const VC&b){ LD d=0; for(size_t i=0;i<a.size();i++) d=std::max(d,std::abs(a[i]-b[i])); return d; }
inline std::string ZS(const VC&z){ std::string s="["; for(auto&x:z) s+="("+S((double)x.real())+","+S((double)x.imag())+") "; return s+"]"; }
struct Quiet { int fd; Quiet(){ fflush(stdout); fd=dup(1); FILE*f=fopen("/dev/null","w"); dup2(fileno(f),1); fclose(f);} ~Quiet(){ fflush(stdout); dup2(fd,1); close(fd);} };
