// stand-in for the OpenMP runtime built on std::thread, so that the thread sanitizer sees every synchronisation;
// the schedule (number of threads, chunking order, delays) is chosen by the driver
#pragma once
#include <thread>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <atomic>
#include <functional>
static int g_threads=4; static unsigned g_sched=0;
namespace og { struct Team { int n; std::mutex m; std::condition_variable cv; int cnt=0; unsigned gen=0; long next=0,end=0,incr=1,chunk=1; bool init=false; int done=0; };
static thread_local int id=0; static thread_local Team*tm=nullptr;
static std::mutex crit,atom;
inline void wait(Team*t){ std::unique_lock<std::mutex> l(t->m); unsigned g=t->gen; if(++t->cnt==t->n){ t->cnt=0; t->gen++; t->cv.notify_all(); } else t->cv.wait(l,[&]{return t->gen!=g;}); }
inline void par(void(*fn)(void*),void*data,unsigned nt,Team&t){ if(tm){ Team*o=tm; int oi=id; t.n=1; tm=&t; id=0; fn(data); tm=o; id=oi; return; }
  t.n=nt?nt:g_threads; std::vector<std::thread> th; unsigned sc=g_sched;
  for(int i=0;i<t.n;i++) th.emplace_back([&,i]{ id=i; tm=&t; if((sc>>(i%8))&1) std::this_thread::sleep_for(std::chrono::microseconds(30*(1+i))); fn(data); tm=nullptr; });
  for(auto&x:th) x.join(); }
inline bool nxt(long*a,long*b){ Team*t=tm; std::lock_guard<std::mutex> l(t->m); if(t->incr>0? t->next>=t->end : t->next<=t->end) return false; *a=t->next; long e=t->next+t->chunk*t->incr; if(t->incr>0? e>t->end : e<t->end) e=t->end; *b=e; t->next=e; return true; }
inline void pl(void(*fn)(void*),void*d,unsigned nt,long s,long e,long in,long ch){ Team t; t.next=s;t.end=e;t.incr=in;t.chunk=ch>0?ch:1;t.init=true; par(fn,d,nt,t); } 
inline bool ls(long s,long e,long in,long ch,long*a,long*b){ { std::lock_guard<std::mutex> l(tm->m); if(!tm->init){ tm->next=s;tm->end=e;tm->incr=in;tm->chunk=ch>0?ch:1;tm->init=true; } } return nxt(a,b); }
inline void le(bool w){ bool last; { std::lock_guard<std::mutex> l(tm->m); last=++tm->done==tm->n; if(last){ tm->done=0; tm->init=false; } } if(w) wait(tm); } }
extern "C" {
int omp_get_num_threads(){ return og::tm?og::tm->n:1; } int omp_get_thread_num(){ return og::tm?og::id:0; } int omp_get_max_threads(){ return g_threads; } int omp_get_num_procs(){ return g_threads; } int omp_in_parallel(){ return og::tm!=nullptr; } void omp_set_num_threads(int n){ g_threads=n; } int omp_get_level(){ return og::tm?1:0; }
void GOMP_parallel(void(*fn)(void*),void*d,unsigned nt,unsigned){ og::Team t; og::par(fn,d,nt,t); }
void GOMP_barrier(){ if(og::tm) og::wait(og::tm); }
void GOMP_critical_start(){ og::crit.lock(); } void GOMP_critical_end(){ og::crit.unlock(); } void GOMP_critical_name_start(void**){ og::crit.lock(); } void GOMP_critical_name_end(void**){ og::crit.unlock(); }
void GOMP_atomic_start(){ og::atom.lock(); } void GOMP_atomic_end(){ og::atom.unlock(); }
bool GOMP_single_start(){ return og::id==0; }
#define PL(n) void GOMP_parallel_loop_##n(void(*f)(void*),void*d,unsigned nt,long s,long e,long i,long c,unsigned){ og::pl(f,d,nt,s,e,i,c);} bool GOMP_loop_##n##_next(long*a,long*b){ return og::nxt(a,b);} bool GOMP_loop_##n##_start(long s,long e,long i,long c,long*a,long*b){ return og::ls(s,e,i,c,a,b);}
PL(dynamic) PL(guided) PL(static) PL(nonmonotonic_dynamic) PL(nonmonotonic_guided)
#define PR(n) void GOMP_parallel_loop_##n(void(*f)(void*),void*d,unsigned nt,long s,long e,long i,unsigned){ og::pl(f,d,nt,s,e,i,1);} bool GOMP_loop_##n##_next(long*a,long*b){ return og::nxt(a,b);} bool GOMP_loop_##n##_start(long s,long e,long i,long*a,long*b){ return og::ls(s,e,i,1,a,b);}
PR(runtime) PR(maybe_nonmonotonic_runtime) PR(nonmonotonic_runtime)
void GOMP_loop_end(){ og::le(true); } void GOMP_loop_end_nowait(){ og::le(false); }
}
