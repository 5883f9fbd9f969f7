#include "zq.hpp"
template<int L> void t(Case&c){ Rng&r=c.r; Z_Q<L> a,b; BI v=pick<L>(r); if(r.below(4)==0){ v=1; int k=r.in(0,L*3/10); for(int i=0;i<k;i++) v*=10; if(r.coin()) v-=1; v=emod(v,pw2(L)); } put<L>(a,v); c.in<<"LOGQ="<<L<<" x="<<v; std::string dec=v.str();
  // digits and a terminator, no byte beyond
  std::vector<char> buf(dec.size()+1,'#'); a.to_str(buf.data()); CHECK(c,buf[dec.size()]==0&&std::string(buf.data())==dec,"text is "+std::string(buf.data(),dec.size()));
  put<L>(b,pick<L>(r)); b.fr_str(buf.data()); CHECK(c,val(b)==v,"parsed value is "+val(b).str()); CHECK(c,val(a)==v,"printing changed the number");
  { fflush(stdout); int p[2]; if(pipe(p)) _exit(3); int fd=dup(1); dup2(p[1],1); a.print_unsigned(); fflush(stdout); dup2(fd,1); close(fd); close(p[1]); std::string got; char x[1024]; ssize_t n; while((n=read(p[0],x,1024))>0) got.append(x,n); close(p[0]); CHECK(c,got==dec+"\n","printed text "+got); }
}
#define T1(L) TEST("str" #L,t<L>(c);)
T1(1) T1(4) T1(30) T1(32) T1(33) T1(60) T1(63) T1(64) T1(65) T1(96) T1(100) T1(127) T1(128) T1(129) T1(200) T1(512) T1(1000) T1(1300)
int main(int n,char**v){ return hmain(n,v); }
