#pragma once
#include "h.hpp"
#include "HEAAN/arith/Z_Q.h"
template<int L> BI val(const Z_Q<L>&a){ BI r=0; for(int i=(L+63)/64-1;i>=0;i--){ r<<=64; r+=a.data[i]; } return r; }
template<int L> BI cen(const Z_Q<L>&a){ BI v=val(a); BI q=pw2(L); if(2*v>=q) v-=q; return v; }
template<int L> void put(Z_Q<L>&a,BI v){ v=emod(v,pw2(64*((L+63)/64))); for(int i=0;i<(L+63)/64;i++){ a.data[i]=(uint64_t)(v&BI(UINT64_MAX)); v>>=64; } }
// interesting canonical values
template<int L> BI pick(Rng&r){
  BI q=pw2(L); BI v;
  switch(r.below(9)){
    case 0: v=0; break; case 1: v=q-1; break; case 2: v=q/2; break; case 3: v=q/2-1; break;
    case 4: v=(int)r.below(5); break;
    case 5: { v=0; for(int i=0;i<(L+63)/64;i++){ v<<=64; v+= r.below(3)==0?UINT64_MAX: r.below(2)?0:r.u(); } break; }
    case 6: v=pw2((int)r.below(L+1)); if(r.coin()) v-=1; break;
    case 7: v=q-pw2((int)r.below(L)); if(r.coin()) v-=1; break;
    default: v=0; for(int i=0;i<(L+63)/64;i++){ v<<=64; v+=r.u(); } }
  return emod(v,q); }
template<int L> BI pickraw(Rng&r){ int n=(L+63)/64; BI v=0; for(int i=0;i<n;i++){ v<<=64; v+= r.below(4)==0?UINT64_MAX: r.below(4)==0?0:r.u(); } return v; }
