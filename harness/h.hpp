// Contract-evaluation driver support: inputs are generated from a seed, the real code of /repo is executed and the
// postcondition of the contract is evaluated with an independent big-number library.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <random>
#include <chrono>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <cmath>
#include <complex>
#include <memory>
using BI=boost::multiprecision::cpp_int;
struct Rng { std::mt19937_64 g; explicit Rng(uint64_t s):g(s){} uint64_t u(){return g();} uint64_t below(uint64_t n){return n?g()%n:0;} int in(int a,int b){return a+(int)below((uint64_t)(b-a+1));} double d(){return (double)(g()>>11)/9007199254740992.0;} bool coin(){return g()&1;} };
inline BI pw2(int k){ BI r=1; return r<<k; }
inline BI emod(const BI&a,const BI&q){ BI r=a%q; if(r<0) r+=q; return r; }
// pseudo-random generator handed to the code under test: rand() is redirected here when the driver asks for it
struct Case { Rng r; uint64_t seed; std::ostringstream in; explicit Case(uint64_t s):r(s),seed(s){} };
[[noreturn]] inline void failed(Case&c,const std::string&what){ printf("FAIL case=%llu %s\n  input: %s\n",(unsigned long long)c.seed,what.c_str(),c.in.str().c_str()); fflush(stdout); _exit(1); }
#define CHECK(c,cond,what) do{ if(!(cond)) failed(c,what); }while(0)
struct Test { const char*name; std::function<void(Case&)> f; };
inline std::vector<Test>& tests(){ static std::vector<Test> t; return t; }
struct Reg { Reg(const char*n,std::function<void(Case&)> f){ tests().push_back({n,f}); } };
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#define TEST(name,...) static Reg CAT(reg_,__COUNTER__)(name,[](Case&c){ __VA_ARGS__ });
// usage: drv SEED SECONDS           run all tests round robin
//        drv --case TEST CASESEED   replay one case
inline int hmain(int argc,char**argv){
  if(argc>=4 && std::string(argv[1])=="--case"){
    for(auto&t:tests()) if(t.name==std::string(argv[2])){ Case c(strtoull(argv[3],0,10)); t.f(c); printf("OK\n"); return 0; }
    return 2; }
  uint64_t seed=argc>1?strtoull(argv[1],0,10):1; double secs=argc>2?atof(argv[2]):5; long minr=argc>3?atol(argv[3]):2;
  auto t0=std::chrono::steady_clock::now(); long n=0,rounds=0; 
  std::mt19937_64 g(seed);
  FILE*cur=argc>4?fopen(argv[4],"w"):nullptr;
  for(;;){
    for(auto&t:tests()){ uint64_t cs=g()>>1; 
      if(cur){ rewind(cur); fprintf(cur,"%s %llu                    \n",t.name,(unsigned long long)cs); fflush(cur);} 
      Case c(cs); alarm(120);
      t.f(c); n++; }
    rounds++;
    double el=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    if(el>secs && rounds>=minr) break; }
  printf("OK evaluations=%ld tests=%zu rounds=%ld\n",n,tests().size(),rounds); return 0; }
inline std::string S(const BI&b){ return b.str(); }
inline std::string S(double d){ char b[64]; snprintf(b,64,"%.17g",d); return b; }
inline std::string S(long long d){ return std::to_string(d); }
