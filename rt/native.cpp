// Native implementation of the harness API: real threads, for the TSan and ASan+UBSan builds.
#include "rt.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include <map>
#include <string>
#include <unordered_set>
#include <exception>
using namespace vt;
#if defined(__has_feature)
# if __has_feature(thread_sanitizer)
#  define VT_TSAN 1
# endif
#endif
extern "C" { void __attribute__((weak)) AnnotateIgnoreReadsBegin(const char*,int); void __attribute__((weak)) AnnotateIgnoreReadsEnd(const char*,int);
void __attribute__((weak)) AnnotateIgnoreWritesBegin(const char*,int); void __attribute__((weak)) AnnotateIgnoreWritesEnd(const char*,int);
void __attribute__((weak)) AnnotateIgnoreSyncBegin(const char*,int); void __attribute__((weak)) AnnotateIgnoreSyncEnd(const char*,int); }
#ifdef VT_TSAN
#define NOSAN __attribute__((no_sanitize("thread")))
#else
#define NOSAN
#endif
static int g_ntid; static thread_local int tl_tid=-1; static thread_local u64 tl_rng; static u64 g_seed; static const char* g_scn="-"; static int g_tier; static int g_step; static volatile char g_spin;
static std::map<std::string,u64>* g_counts; static std::unordered_set<u64>* g_out; static u64 g_execs; static thread_local int tl_q; static volatile int g_live;
static u64 mix(u64 x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
NOSAN static void ign(int d){
#ifdef VT_TSAN
  if(d>0){ AnnotateIgnoreReadsBegin("",0); AnnotateIgnoreWritesBegin("",0); AnnotateIgnoreSyncBegin("",0);} else { AnnotateIgnoreSyncEnd("",0); AnnotateIgnoreWritesEnd("",0); AnnotateIgnoreReadsEnd("",0);} 
#endif
}
NOSAN static void lk(){ while(__sync_lock_test_and_set(&g_spin,1)) sched_yield(); } NOSAN static void ul(){ __sync_lock_release(&g_spin); }
static u64 nowc(clockid_t c){ timespec t; clock_gettime(c,&t); return t.tv_sec*1000000000ull+t.tv_nsec; }
extern "C" {
NOSAN void vt_quiet(int d){ if(d>0){ if(tl_q++==0){ ign(1); lk(); } } else if(--tl_q==0){ ul(); ign(-1);} }
// only the accesses of the harness are ignored, not the synchronization: what the library is made to do inside counts
NOSAN void vt_norace(int d){
#ifdef VT_TSAN
  if(d>0){ AnnotateIgnoreReadsBegin("",0); AnnotateIgnoreWritesBegin("",0);} else { AnnotateIgnoreWritesEnd("",0); AnnotateIgnoreReadsEnd("",0);}
#endif
}
NOSAN int vt_tid(){ if(tl_tid<0){ ign(1); tl_tid=__sync_fetch_and_add(&g_ntid,1); tl_rng=mix(g_seed*31+tl_tid)|1; ign(-1);} return tl_tid; }
NOSAN uint32_t vt_rnd(uint32_t n){ vt_tid(); u64&s=tl_rng; s^=s<<13; s^=s>>7; s^=s<<17; return n?(uint32_t)(((s*0x2545F4914F6CDD1Dull)>>33)%n):0; }
NOSAN void vt_fail(const char*key,const char*fmt,...){ char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); static volatile int once; if(__sync_lock_test_and_set(&once,1)) for(;;) pause(); printf("VIOL key=%s scn=%s seed=%llu\nMSG %s\nEND\n",key,g_scn,(unsigned long long)g_seed,b); fflush(stdout); _exit(10); }
void vt_tracef(const char*,...){} void vt_point(){ if(vt_rnd(8)==0) sched_yield(); } void vt_yield(){ sched_yield(); }
static void us(u64 ns){ timespec t={(time_t)(ns/1000000000ull),(long)(ns%1000000000ull)}; nanosleep(&t,0); }
void vt_settle(){ us(1000000+vt_rnd(3000000)); } void vt_sleep(u64 ns){ us(ns); }
u64 vt_now(){ return nowc(CLOCK_MONOTONIC);} u64 vt_last_jump(){ return 0; } u64 vt_real(){ return nowc(CLOCK_REALTIME);} void vt_step_clock(i64){} int vt_exact(){return 0;} int vt_virtual(){return 0;} int vt_blocked(int){return 0;}
struct SP { void(*f)(void*); void*a; }; static void* tramp(void*p){ SP s=*(SP*)p; free(p); vt_tid(); s.f(s.a); return 0; }
int vt_raw_spawn(void(*f)(void*),void*a,u64*h){ SP*s=(SP*)malloc(sizeof(SP)); s->f=f; s->a=a; pthread_t t; if(pthread_create(&t,0,tramp,s)) { printf("cannot create a thread\n"); _exit(20);} if(h) *h=(u64)t; else pthread_detach(t); return 0; }
void vt_raw_join(u64 h){ pthread_join((pthread_t)h,0);} void vt_raw_detach(u64 h){ pthread_detach((pthread_t)h);} 
NOSAN void vt_count(const char*n,u64 k){ vt_quiet(1); (*g_counts)[n]+=k; vt_quiet(-1);} NOSAN void vt_outcome(u64 h){ vt_quiet(1); g_out->insert(mix(h)); vt_quiet(-1);} 
void vt_on_idle(void(*)(void*),void*){} void vt_fail_create(int){} void vt_fail_new(int){} void vt_fail_init(int){} void vt_fail_mine(int){} i64 vt_live_sync(){return 0;} int vt_fail_pending(){return 0;} i64 vt_live_blocks(){return 0;} NOSAN u64 vt_step(){ ign(1); int r=__sync_add_and_fetch(&g_step,1); ign(-1); return r; } int vt_tier(){return g_tier;} void vt_spurious(int){} void vt_signals(int){} int vt_mutex_owner(void*){return -1;} void vt_no_jump(int){} u64 vt_last_stacksize(){return 0;} int vt_last_detached(){return 0;}
}
static Scn* g_scns=0; vt::Reg::Reg(Scn*s){ s->next=g_scns; g_scns=s; }
static void* root(void*p){ vt_tid(); ((Scn*)p)->fn(); return 0; }
int main(int argc,char**argv){ setvbuf(stdout,0,_IOLBF,0); u64 seed=1,count=100; const char*only=0,*skip=0; bool list=false; double maxs=1e9; g_counts=new std::map<std::string,u64>; g_out=new std::unordered_set<u64>;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--list") list=true; else if(a=="--seed") seed=strtoull(argv[++i],0,10); else if(a=="--count") count=strtoull(argv[++i],0,10); else if(a=="--scn") only=argv[++i]; else if(a=="--skip") skip=argv[++i]; else if(a=="--tier") g_tier=atoi(argv[++i]); else if(a=="--max-s") maxs=atof(argv[++i]); else ++i; }
  if(list){ for(Scn*s=g_scns;s;s=s->next) if(s->flags&F_NATIVE) printf("%s %u\n",s->name,s->flags); return 0; }
  auto sel=[&](Scn*s){ return (s->flags&F_NATIVE)&&!(s->flags&F_KNOWN)&&!(only&&strcmp(only,s->name))&&!(skip&&(std::string(",")+skip+",").find(std::string(",")+s->name+",")!=std::string::npos); };
  u64 t0=vt_now(); int todo=0; for(Scn*s=g_scns;s;s=s->next) todo+=sel(s);
  for(Scn*s=g_scns;s;s=s->next){ double cap=todo?((maxs-(vt_now()-t0)/1e9)/todo):0; u64 t1=vt_now(); if(!sel(s)) continue; if(skip&&(std::string(",")+skip+",").find(std::string(",")+s->name+",")!=std::string::npos) continue;
    todo--; u64 c=count; if(s->flags&F_SLOW) c=c/4+1; g_scn=s->name; printf("SCN %s\n",s->name); u64 d=0;
    for(u64 i=0;i<c;i++){ g_seed=seed*1000003ull+i; g_ntid=0; pthread_t t; if(pthread_create(&t,0,root,s)) _exit(20); pthread_join(t,0); d++; g_execs++; if((vt_now()-t1)/1e9>cap){ printf("TIMECAP %s %llu\n",s->name,(unsigned long long)i); break; } }
    printf("DID %s %llu\n",s->name,(unsigned long long)d); }
  printf("STAT executions %llu\n",(unsigned long long)g_execs); for(auto&kv:*g_counts) printf("COUNT %s %llu\n",kv.first.c_str(),(unsigned long long)kv.second); printf("DONE\n"); delete g_counts; delete g_out; return 0; }
