#include "h.hpp"
#include "util/util.h"
TEST("rev", int d=c.r.in(1,32); uint32_t x=(uint32_t)c.r.u(); if(d<32&&c.r.below(4)) x&=(1u<<d)-1; c.in<<"x="<<x<<" d="<<d; uint32_t e=0; for(int i=0;i<d;i++) if(x>>i&1) e|=1u<<(d-1-i); CHECK(c,bitReverse(x,d)==e,"bitReverse"); if(d==32||x<(1u<<d)) CHECK(c,bitReverse(bitReverse(x,d),d)==x,"involution"); uint32_t f=0; for(int i=0;i<32;i++) if(x>>i&1) f|=1u<<(31-i); CHECK(c,bitReverse32(x)==f,"bitReverse32");)
TEST("log", int k=c.r.in(0,30); long N=c.r.below(3)?(1L<<k)+c.r.in(-2,2):(long)c.r.below(1u<<30)+1; if(N<1) N=1; if(N>(1L<<30)) N=1L<<30; c.in<<"N="<<N; int e=0; while((1L<<e)<N) e++; CHECK(c,log((int)N)==e,"log: got "+S((long long)log((int)N)));)
int main(int n,char**v){ return hmain(n,v); }
