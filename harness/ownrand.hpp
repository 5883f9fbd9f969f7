#pragma once
// every outcome of rand() is possible: the driver chooses it
#include <random>
static int g_randmode=0; static std::mt19937_64 g_randgen(1); static long g_randcount=0;
extern "C" int rand(void) noexcept { g_randcount++; switch(g_randmode){ case 1: return 2147483647; case 2: return 0; case 3: return (int)(g_randcount&1?2147483647:(g_randgen()&0x7fffffff)); case 4: return (int)(8+9*(g_randgen()%200000)); case 5: return (int)(((g_randgen()%64)*9*2+17)); default: return (int)(g_randgen()&0x7fffffff);} }
inline void setrand(uint64_t seed,int mode){ g_randgen.seed(seed); g_randmode=mode; g_randcount=0; }
