#include "slot.hpp"
#include "HEAAN/matrix/DFT.h"
template<int LN> void t(Case&c){ constexpr int N=1<<LN,H=N/2; Rng&r=c.r; int mode=r.below(4); std::vector<double> m(N),zr(H),zi(H),o(N); VL M(N); VC Z(H); double mag=mode==0?1:mode==1?ldexp(1,r.in(-20,40)):1000;
  for(int i=0;i<N;i++) M[i]=m[i]=mode==3?0:(r.d()*2-1)*mag; if(mode==3) M[0]=m[0]=0, M[r.below(N)]=1; if(mode==3) for(int i=0;i<N;i++) m[i]=M[i];
  for(int i=0;i<H;i++){ zr[i]=(r.d()*2-1)*mag; zi[i]=(r.d()*2-1)*mag; Z[i]=CL(zr[i],zi[i]); } if(mode==3){ for(int i=0;i<H;i++) zr[i]=zi[i]=0,Z[i]=0; int k=r.below(H); if(r.coin()) zr[k]=1,Z[k]=1; else zi[k]=1,Z[k]=CL(0,1); }
  c.in<<"LOGN="<<LN<<" m=["; for(auto x:m) c.in<<S(x)<<" "; c.in<<"] z="<<ZS(Z);
  LD tol=1e-11L*N*mag; VC e=emb(M); std::vector<double> a(H),b(H); auto q=[&]{ VC v(H); for(int i=0;i<H;i++) v[i]=CL(a[i],b[i]); return v; }; auto vl=[&]{ LD d=0; VL w=iemb(Z); for(int i=0;i<N;i++) d=std::max(d,fabsl(w[i]-o[i])); return d; };
  for(int rep=0;rep<2;rep++){ fft<LN>(m.data(),a.data(),b.data()); CHECK(c,dist(q(),e)<tol,"fft: "+ZS(q())+" expected "+ZS(e)); }
  for(int rep=0;rep<2;rep++){ ifft<LN>(zr.data(),zi.data(),o.data()); CHECK(c,vl()<tol,"ifft"); }
  dft<N>(m.data(),a.data(),b.data()); CHECK(c,dist(q(),e)<tol,"dft"); idft<N>(zr.data(),zi.data(),o.data()); CHECK(c,vl()<tol,"idft");
  // bit-reversed orders
  std::vector<double> mr(N); for(int i=0;i<H;i++){ int k=0; for(int j=0;j<LN-1;j++) if(i>>j&1) k|=1<<(LN-2-j); mr[k]=m[i]; mr[k+H]=m[i+H]; } fftNR<LN>(mr.data(),a.data(),b.data()); CHECK(c,dist(q(),e)<tol,"fftNR");
  ifftNR<LN>(zr.data(),zi.data(),mr.data()); for(int i=0;i<H;i++){ int k=0; for(int j=0;j<LN-1;j++) if(i>>j&1) k|=1<<(LN-2-j); o[i]=mr[k]; o[i+H]=mr[k+H]; } CHECK(c,vl()<tol,"ifftNR");
  // product of the factors = embedding matrix in bit-reversed column order
  if(LN<=6){ static SparseDiagonal<H,3> A[LN-1],B[LN-1]; splitU0NR<LN>(A,B); VC v=Z; for(int n=LN-2;n>=0;n--){ VC w(H); for(int i=0;i<H;i++) for(int j=0;j<H;j++){ double x=A[n].get_element(i,j),y=B[n].get_element(i,j); w[i]+=CL(x,y)*v[j]; } v=w; }
    VC w(H); long f=1; for(int i=0;i<H;i++,f=f*5%(2*N)) for(int j=0;j<H;j++){ int k=0; for(int x=0;x<LN-1;x++) if(j>>x&1) k|=1<<(LN-2-x); w[i]+=root(N,f*k)*Z[j]; } CHECK(c,dist(v,w)<tol,"product of the factors of splitU0NR");
    for(int n=0;n<LN-1;n++) for(int s=0;s<3;s++){ CHECK(c,A[n].off[s]==B[n].off[s]&&A[n].off[s]>=0&&A[n].off[s]<H,"offsets"); } }
}
#define T1(L) TEST("fft" #L,t<L>(c);)
T1(2) T1(3) T1(4) T1(5) T1(6) T1(7) T1(8) T1(9)
int main(int n,char**v){ return hmain(n,v); }
