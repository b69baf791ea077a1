// Controlled scheduler + virtual clock + happens-before and heap monitor.
//
// The executable defines the pthread, clock, sleep, allocation and __tsan_* entry points.  Code under
// test is compiled with -fsanitize=thread but linked with this file instead of libtsan, so every memory
// access and every synchronisation call of the real library reaches the monitor below.  Virtual threads
// are real OS threads of which exactly one runs at a time; at each monitored operation the scheduler may
// hand the token to another thread, chosen from a seeded generator: executions are replayable.
#define _GNU_SOURCE 1
#include "rt.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <execinfo.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <string>
#include <map>
#include <algorithm>
#include <new>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <atomic>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t);
void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }

namespace vt {
typedef uint32_t u32; typedef uint8_t u8;

// ---- allocator for the runtime's own structures ---------------------------------------------
template<class T> struct RA { typedef T value_type; RA(){} template<class U> RA(const RA<U>&){}
  T* allocate(size_t n){ return (T*)__libc_malloc(n*sizeof(T)); } void deallocate(T*p,size_t){ __libc_free(p);} 
  template<class U> bool operator==(const RA<U>&)const{return true;} template<class U> bool operator!=(const RA<U>&)const{return false;} };
template<class T> using Vec = std::vector<T,RA<T>>;
template<class K,class V> using HMap = std::unordered_map<K,V,std::hash<K>,std::equal_to<K>,RA<std::pair<const K,V>>>;
template<class K> using HSet = std::unordered_set<K,std::hash<K>,std::equal_to<K>,RA<K>>;
typedef std::basic_string<char,std::char_traits<char>,RA<char>> Str;

enum { MAXT = 64, MAXKEY = 256 };
struct VC { u32 c[MAXT]; };
static inline void vc_join(VC&a,const VC&b,int n){ for(int i=0;i<n;i++) if(b.c[i]>a.c[i]) a.c[i]=b.c[i]; }

enum St { RUN, BLK, IDLEW, DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_GUARD, W_MAIN, W_ONCE };
static const char* whyname[] = {"-","mutex","cond","join","sleep","guard","end","once"};
struct Worker;
struct VT {
  int id; St st; Why why; void* obj; bool timed; u64 deadline; bool realclk; bool fired; bool signaled;
  VC vc; int quiet; int norace; void*(*fn)(void*); void(*fn1)(void*); void* arg; void* ret; bool detached; bool joined; VT* joiner;
  Worker* w; i64 prio; u64 run_since; u32 op; void* tss[MAXKEY]; u64 handle; u64 stall_until; size_t stacksize;
};
struct Worker { std::atomic<int>* dummy; volatile int go; VT* job; pthread_t os; char* stk; size_t stksz; };

static u64 g_gen = 0;              // execution number
static bool g_active = false;      // inside an execution
static VT* T[MAXT]; static int nT = 0; static VT* cur = 0; static VT mainT; static Worker mainW;
static Vec<Worker*>* freeW;
static u64 g_step, g_sync, g_switch, g_acc, g_points;
static u64 g_mono, g_roff;         // virtual clocks
static u64 s_sched, s_work;        // rng states
static u64 g_hash; static unsigned g_flags; static const char* g_scn = "-"; static u64 g_seed;
static int g_tier = 0;
static bool g_exact; static int g_jump; static int g_spur; static u32 g_psync, g_pacc; static bool g_pct; static u64 g_chg[8]; static int g_nchg; static i64 g_low;
static int g_spurleft; static bool g_spuron; static bool g_nojump; static u64 g_lastjump; static int g_sig; static u64 tot_sig;
static int g_failcreate, g_failnew; static size_t g_laststack; static int g_lastdet;
static void (*g_idle)(void*); static void* g_idlearg; static bool g_in_idle;
static u64 g_firstlive; static bool g_failing = false;
static u64 tot_sync, tot_acc, tot_switch, tot_exec, tot_threads, tot_jumps, tot_spur, tot_idle, tot_races_checked;
typedef std::map<Str,u64,std::less<Str>,RA<std::pair<const Str,u64>>> CMap;
static CMap* g_counts; static HSet<u64>* g_outcomes; static HSet<u64>* g_scheds;

static inline u64 rng(u64& s){ s ^= s<<13; s ^= s>>7; s ^= s<<17; return s*0x2545F4914F6CDD1Dull; }
static inline u32 rnd_s(u32 n){ return n? (u32)((rng(s_sched)>>33)%n):0; }
static u64 mix(u64 x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }

// ---- event trace ------------------------------------------------------------------------------
struct Ev { u64 step; int tid; const char* op; void* obj; u64 t; char txt[88]; };
enum { NEV = 512 }; static Ev ev[NEV]; static u64 nev;
static void trace(const char* op, void* obj){ Ev&e=ev[nev++%NEV]; e.step=g_step; e.tid=cur?cur->id:-1; e.op=op; e.obj=obj; e.t=g_mono; e.txt[0]=0; }

static void dump_stacks(){
  void* bt[40]; int n=backtrace(bt,40); fprintf(stdout,"STACK");
  for(int i=0;i<n;i++) fprintf(stdout," %p",bt[i]); fprintf(stdout,"\n");
}
static void dump_threads(){
  for(int i=0;i<nT;i++){ VT*t=T[i]; fprintf(stdout,"THREAD %d %s%s%s obj=%p%s\n",t->id,
     t->st==RUN?"running":t->st==BLK?"blocked:":t->st==IDLEW?"settling":"finished", t->st==BLK?whyname[t->why]:"", t==cur?" (current)":"", t->obj, t->timed?" timed":""); }
}
static void die(const char* key,const char* msg){
  if(g_failing) { for(;;) syscall(SYS_exit_group,12); }
  g_failing=true; g_active=false;
  fprintf(stdout,"VIOL key=%s scn=%s seed=%llu\nMSG %s\n",key,g_scn,(unsigned long long)g_seed,msg);
  dump_stacks(); dump_threads();
  u64 from = nev>200?nev-200:0;
  for(u64 i=from;i<nev;i++){ Ev&e=ev[i%NEV]; fprintf(stdout,"EV %llu t%d %s %p @%.6f %s\n",(unsigned long long)e.step,e.tid,e.op,e.obj,(e.t-1000*1e9)/1e9,e.txt); }
  fprintf(stdout,"END\n"); fflush(stdout); syscall(SYS_exit_group,10);
  for(;;);
}

// ---- futex handoff ----------------------------------------------------------------------------
static void fwait(Worker*w){ while(__atomic_load_n(&w->go,__ATOMIC_ACQUIRE)==0) syscall(SYS_futex,&w->go,FUTEX_WAIT_PRIVATE,0,0,0,0); __atomic_store_n(&w->go,0,__ATOMIC_RELAXED); }
static void fwake(Worker*w){ __atomic_store_n(&w->go,1,__ATOMIC_RELEASE); syscall(SYS_futex,&w->go,FUTEX_WAKE_PRIVATE,1,0,0,0); }

// ---- scheduler --------------------------------------------------------------------------------
static u64 eff_deadline(VT*t){ if(t->deadline==~0ull) return ~0ull; if(!t->realclk) return t->deadline; return t->deadline>g_roff? t->deadline-g_roff:0; }
static void run_idle_cb(){ if(g_idle && !g_in_idle){ g_in_idle=true; cur->quiet++; g_idle(g_idlearg); cur->quiet--; g_in_idle=false; } tot_idle++; }
static void fire(VT*t){ t->st=RUN; t->fired=true; t->timed=false; }
static void fire_due(){ for(int i=0;i<nT;i++){ VT*t=T[i]; if(t->st==BLK&&t->timed&&eff_deadline(t)<=g_mono) fire(t);} }
static bool advance_time(){ u64 m=~0ull; for(int i=0;i<nT;i++){ VT*t=T[i]; if(t->st==BLK&&t->timed){ u64 d=eff_deadline(t); if(d<m) m=d; } }
  if(m==~0ull) return false; if(m>g_mono) g_mono=m; fire_due(); return true; }

static VT* pick(bool voluntary){
  for(;;){
    VT* c[MAXT]; int n=0;
    for(int i=0;i<nT;i++) if(T[i]->st==RUN) c[n++]=T[i];
    if(n==0){
      // settling threads first: everyone else is blocked
      bool s=false; for(int i=0;i<nT;i++) if(T[i]->st==IDLEW) s=true;
      if(s){ run_idle_cb(); for(int i=0;i<nT;i++) if(T[i]->st==IDLEW) T[i]->st=RUN; continue; }
      bool allDone=true; for(int i=0;i<nT;i++) if(T[i]->st!=DONE) allDone=false;
      if(allDone) return &mainT;
      run_idle_cb();
      if(advance_time()){ trace("time",0); continue; }
      die("deadlock","every thread is blocked and no timer is pending");
    }
    if(n==1) return c[0];
    if(g_pct){ VT*b=c[0]; for(int i=1;i<n;i++) if(c[i]->prio>b->prio) b=c[i]; return b; }
    if(voluntary){ // prefer someone else
      VT* d[MAXT]; int k=0; for(int i=0;i<n;i++) if(c[i]!=cur) d[k++]=c[i]; if(k) return d[rnd_s(k)]; }
    return c[rnd_s(n)];
  }
}
static void switch_to(VT* n){
  if(n==cur) return;
  VT* me=cur; g_switch++; g_hash=mix(g_hash^((u64)n->id*1315423911u+g_sync));
  n->run_since=g_points; cur=n; 
  fwake(n->w);
  if(me->st!=DONE || me==&mainT) fwait(me->w);
}
static void resched(bool voluntary){ switch_to(pick(voluntary)); }

static const u64 MAXSYNC = 400000, MAXPTS = 30000000;
// a possible preemption point
static void point(bool acc){
  if(!g_active||cur==&mainT) return;
  g_points++;
  if(!acc){ g_sync++; g_step++; g_hash=mix(g_hash^(u64)cur->id);
    if(g_sync>MAXSYNC) die("noprogress","execution exceeded the step bound without finishing (livelock)");
    if(g_spuron && g_spur && g_spurleft>0 && rnd_s(g_spur)==0){ // spurious wakeup of some condition waiter
      VT*c[MAXT]; int n=0; for(int i=0;i<nT;i++) if(T[i]->st==BLK&&T[i]->why==W_COND) c[n++]=T[i];
      if(n){ VT*t=c[rnd_s(n)]; t->st=RUN; t->timed=false; t->fired=false; t->signaled=true; g_spurleft--; tot_spur++; trace("spurious",t->obj);} }
    if(g_jump && !g_nojump && rnd_s(g_jump)==0){ if(advance_time()) { tot_jumps++; g_lastjump=g_mono; trace("timejump",0);} }
  } else if(g_points>MAXPTS) die("noprogress","execution exceeded the access bound without finishing (livelock)");
  bool sw=false, vol=false;
  if(g_pct){
    for(int i=0;i<g_nchg;i++) if(g_chg[i]==g_points){ cur->prio = g_low--; sw=true; }
    if(g_points-cur->run_since>60000){ cur->prio=g_low--; cur->run_since=g_points; sw=true; }
    if(!acc) sw=true;
  } else if(acc){ if(g_pacc && rnd_s(g_pacc)==0){ sw=true; vol=true; } else if(g_points-cur->run_since>20000){ cur->run_since=g_points; sw=true; vol=true; } }
  else { if(rnd_s(100)<g_psync){ sw=true; vol=true; } }
  if(sw) resched(vol);
}
static void block(Why w, void* obj, bool timed, u64 deadline, bool realclk){
  VT* me=cur; me->st=BLK; me->why=w; me->obj=obj; me->timed=timed; me->deadline=deadline; me->realclk=realclk; me->fired=false; me->signaled=false;
  if(timed && eff_deadline(me)<=g_mono) fire(me);
  resched(false);
  me->why=W_NONE; me->obj=0; me->timed=false;
}
static void yield_(){ if(!g_active||cur==&mainT) return; g_points++; g_sync++; g_step++; if(g_sync>MAXSYNC) die("noprogress","execution exceeded the step bound without finishing (livelock)");
  g_mono+=1000; fire_due();
  if(g_pct){ cur->prio=g_low--; } resched(true); }

// ---- shadow memory: happens-before and heap state ---------------------------------------------
struct Slot { u32 clk; u8 tid, mask, fl, pad; u32 pc; };
enum { SL_W=1, SL_A=2 };
struct Cell { Slot s[4]; };
struct Page { u64 gen; Cell c[512]; u8 freed[512/8]; u8 norace[512/8]; };
static HMap<u64,Page*>* g_pages;
static u64 tlbk[64]; static Page* tlbv[64];
static Page* page(u64 pg,bool create){
  unsigned h=(pg^(pg>>6))&63; if(tlbk[h]==pg&&tlbv[h]&&tlbv[h]->gen==g_gen) return tlbv[h];
  auto it=g_pages->find(pg); Page*p;
  if(it==g_pages->end()){ if(!create) return 0; p=(Page*)mmap(0,sizeof(Page),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); p->gen=g_gen; (*g_pages)[pg]=p; }
  else { p=it->second; if(p->gen!=g_gen){ if(!create) return 0; memset(p,0,sizeof(Page)); p->gen=g_gen; } }
  tlbk[h]=pg; tlbv[h]=p; return p;
}
static void shadow_clear(u64 a,u64 n){ // forget everything about [a,a+n)
  if(!g_pages) return; u64 e=a+n; a&=~7ull; 
  while(a<e){ Page*p=page(a>>12,false); u64 next=((a>>12)+1)<<12; u64 lim=next<e?next:e;
    if(p) for(u64 x=a;x<lim;x+=8){ unsigned i=(x&4095)>>3; memset(&p->c[i],0,sizeof(Cell)); p->freed[i>>3]&=~(1<<(i&7)); p->norace[i>>3]&=~(1<<(i&7)); }
    a=next; } }
static void shadow_mark(u64 a,u64 n,bool freed,bool norace){ u64 e=a+n; a&=~7ull; for(;a<e;a+=8){ Page*p=page(a>>12,true); unsigned i=(a&4095)>>3; if(freed) p->freed[i>>3]|=1<<(i&7); if(norace) p->norace[i>>3]|=1<<(i&7);} }

static void race_report(u64 addr,bool w,u64 pc,Slot&s){
  char b[400]; snprintf(b,sizeof b,"data race on %p: %s by thread %d at pc=0x%llx, unordered with %s%s by thread %d at pc=0x%x",(void*)addr,w?"write":"read",cur->id,(unsigned long long)pc,s.fl&SL_A?"atomic ":"",s.fl&SL_W?"write":"read",s.tid,s.pc);
  die("race",b);
}
static inline void check_cell(u64 a,u8 mask,u8 fl,u64 pc){
  Page*p=page(a>>12,true); unsigned i=(a&4095)>>3;
  if(__builtin_expect(p->freed[i>>3]&(1<<(i&7)),0)){ char b[200]; snprintf(b,sizeof b,"%s of freed or out-of-bounds heap memory %p by thread %d at pc=0x%llx",fl&SL_W?"write":"read",(void*)a,cur->id,(unsigned long long)pc); die("badaccess",b); }
  if(p->norace[i>>3]&(1<<(i&7))) return;
  if(cur->norace) return;
  Cell&c=p->c[i]; int slot=-1, empty=-1, old=-1; u8 tid=cur->id; 
  for(int k=0;k<4;k++){ Slot&s=c.s[k]; if(!s.mask){ if(empty<0) empty=k; continue; }
    if(s.tid==tid){ if((s.mask&~mask)==0 && ((s.fl&SL_W)<=(fl&SL_W)) && (s.fl&SL_A)>=(fl&SL_A)) slot=k; continue; }
    if(s.clk<=cur->vc.c[s.tid]) { old=k; if((s.mask&mask) ) continue; else continue; }
    if(!(s.mask&mask)) continue;
    if(!((s.fl|fl)&SL_W)) continue;
    if((s.fl&SL_A)&&(fl&SL_A)) continue;
    race_report(a,fl&SL_W,pc,s);
  }
  if(slot<0) slot=empty; if(slot<0) slot=old; if(slot<0) slot=(g_acc)&3;
  Slot&s=c.s[slot]; s.clk=cur->vc.c[tid]; s.tid=tid; s.mask=mask; s.fl=fl; s.pc=(u32)pc;
}
static inline void access(u64 a,u64 n,u8 fl,u64 pc){
  if(!g_active||cur->quiet||cur==&mainT) return;
  g_acc++;
  point(true);
  u64 e=a+n; while(a<e){ u64 cell=a&~7ull; u64 lim=cell+8<e?cell+8:e; u8 mask=(u8)(((1u<<(lim-cell))-1)&~((1u<<(a-cell))-1)); check_cell(cell,mask,fl,pc); a=cell+8; }
}

// ---- models of the pthread objects ------------------------------------------------------------
struct Mtx { u64 gen; int owner; u32 cnt; int type; VC vc; u64 born; u64 ini; };
struct Cnd { u64 gen; int clk; bool dead; u64 ini; };
static i64 g_livesync; static int g_failinit, g_failtid=-1;   // explicitly initialised mutexes and conditions of this execution; fault injection into initialisation
struct Onc { u64 gen; int st; VC vc; };
struct Sync { u64 gen; VC vc; };
static HMap<u64,Mtx*>* mtxs; static HMap<u64,Cnd*>* cnds; static HMap<u64,Onc*>* onces; static HMap<u64,Sync*>* syncs;
static Vec<Sync*>* syncpool; static Vec<Mtx*>* mtxpool;
static Mtx* mtx(void*m,bool create=true){ auto it=mtxs->find((u64)m); if(it!=mtxs->end()){ Mtx*x=it->second; if(x->gen!=g_gen){ x->gen=g_gen; x->owner=-1; x->cnt=0; memset(&x->vc,0,sizeof(VC)); } return x; }
  if(!create) return 0; Mtx*x; if(mtxpool->size()){ x=mtxpool->back(); mtxpool->pop_back(); } else x=(Mtx*)__libc_malloc(sizeof(Mtx)); memset(x,0,sizeof*x); x->gen=g_gen; x->owner=-1; (*mtxs)[(u64)m]=x; return x; }
static Cnd* cnd(void*c){ auto it=cnds->find((u64)c); if(it!=cnds->end()) return it->second; Cnd*x=(Cnd*)__libc_calloc(1,sizeof(Cnd)); (*cnds)[(u64)c]=x; return x; }
static VC& syncvc(u64 a){ Sync*&s=(*syncs)[a]; if(!s){ if(syncpool->size()){ s=syncpool->back(); syncpool->pop_back(); } else s=(Sync*)__libc_malloc(sizeof(Sync)); s->gen=0; } if(s->gen!=g_gen){ memset(&s->vc,0,sizeof(VC)); s->gen=g_gen; } return s->vc; }
static inline void acq(const VC&v){ vc_join(cur->vc,v,nT); }
static inline void rel(VC&v){ v=cur->vc; cur->vc.c[cur->id]++; }
static inline void relj(VC&v){ vc_join(v,cur->vc,nT); cur->vc.c[cur->id]++; }

template<class F> static F real(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
static void misuse(const char*what,void*o){ char b[200]; snprintf(b,sizeof b,"%s (object %p, thread %d)",what,o,cur->id); die("pthread-misuse",b); }

static int m_lock(void*p,bool timed,u64 dl,bool realclk,bool trace_=true){
  Mtx*m=mtx(p); 
  if(m->owner==cur->id){ if(m->type==PTHREAD_MUTEX_RECURSIVE){ m->cnt++; return 0; } if(m->type==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if(!timed){ trace("selflock",p); } }
  while(m->owner!=-1){ block(W_MUTEX,p,timed,dl,realclk); if(cur->fired && m->owner!=-1) return ETIMEDOUT; m=mtx(p); }
  m->owner=cur->id; m->cnt=1; acq(m->vc); if(trace_) trace("lock",p); return 0;
}
static void m_wake(void*p){ for(int i=0;i<nT;i++) if(T[i]->st==BLK&&T[i]->why==W_MUTEX&&T[i]->obj==p){ T[i]->st=RUN; T[i]->timed=false; } }
static int m_unlock(void*p){ Mtx*m=mtx(p); if(m->owner!=cur->id){ if(m->type==PTHREAD_MUTEX_ERRORCHECK||m->type==PTHREAD_MUTEX_RECURSIVE) return EPERM; misuse("unlock of a mutex the thread does not own",p); }
  if(--m->cnt) return 0; m->owner=-1; rel(m->vc); trace("unlock",p); m_wake(p); return 0; }
static u64 ts2ns(const struct timespec*t){ if(t->tv_sec<0) return 0; if((u64)t->tv_sec>9000000000ull) return ~0ull>>1; return (u64)t->tv_sec*1000000000ull+t->tv_nsec; }
static bool badts(const struct timespec*t){ return t->tv_nsec<0||t->tv_nsec>=1000000000; }

static int c_wait(void*c,void*m,bool timed,u64 dl,bool realclk){
  Mtx*x=mtx(m); if(x->owner!=cur->id) misuse("condition wait with a mutex the thread does not own",m);
  if(timed){ u64 d=realclk?(dl>g_roff?dl-g_roff:0):dl; if(d<=g_mono){ m_unlock(m); point(false); m_lock(m,false,0,false); return ETIMEDOUT; } }
  u32 cnt=x->cnt; x->cnt=1; 
  trace(timed?"condtimedwait":"condwait",c);
  VT*me=cur; me->fired=false; me->signaled=false;
  // enter the wait and release atomically
  x->cnt=1; { Mtx*q=x; q->owner=-1; q->cnt=0; rel(q->vc); m_wake(m); }
  me->st=BLK; me->why=W_COND; me->obj=c; me->timed=timed; me->deadline=dl; me->realclk=realclk;
  resched(false);
  bool to=me->fired&&!me->signaled; me->why=W_NONE; me->obj=0; me->timed=false; me->fired=false;
  m_lock(m,false,0,false,false); mtx(m)->cnt=cnt; trace(to?"condtimeout":"condwoken",c);
  return to?ETIMEDOUT:0;
}
static void c_signal(void*c,bool all){
  for(;;){ VT*w[MAXT]; int n=0; for(int i=0;i<nT;i++) if(T[i]->st==BLK&&T[i]->why==W_COND&&T[i]->obj==c) w[n++]=T[i];
    if(!n) break; VT*t=w[all?0:rnd_s(n)]; t->st=RUN; t->signaled=true; t->timed=false; if(!all) break; }
}

// ---- virtual threads --------------------------------------------------------------------------
struct Key { bool used; void(*d)(void*); u64 gen; }; static Key keys[MAXKEY];
static void vt_end(VT*t){
  for(int it=0;it<4;it++){ bool any=false; for(int k=1;k<MAXKEY;k++) if(t->tss[k]&&keys[k].used&&keys[k].d){ void*v=t->tss[k]; t->tss[k]=0; any=true; keys[k].d(v); } if(!any) break; }
  point(false);
  t->st=DONE; trace("exit",0);
  for(int i=0;i<nT;i++) if(T[i]->st==BLK&&T[i]->why==W_JOIN&&T[i]->obj==t){ T[i]->st=RUN; T[i]->timed=false; }
}
static void* worker_main(void*a){ Worker*w=(Worker*)a; 
  stack_t ss; ss.ss_sp=__libc_malloc(65536); ss.ss_size=65536; ss.ss_flags=0; sigaltstack(&ss,0);
  for(;;){ fwait(w); VT*t=w->job; shadow_clear((u64)w->stk,w->stksz);
    t->ret=t->fn?t->fn(t->arg):(t->fn1(t->arg),(void*)0);
    if(t->quiet||t->norace) die("harness","unbalanced quiet section at thread end");
    vt_end(t); freeW->push_back(w); 
    VT*n=pick(false); cur=n; n->run_since=g_points; g_switch++; fwake(n->w); }
  return 0; }
static Worker* new_worker(){
  if(freeW->size()){ Worker*w=freeW->back(); freeW->pop_back(); return w; }
  static auto rc=real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create");
  Worker*w=(Worker*)__libc_calloc(1,sizeof(Worker)); w->stksz=512<<10; char*s=(char*)mmap(0,w->stksz+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_STACK,-1,0); mprotect(s,4096,PROT_NONE); w->stk=s+4096; 
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,w->stk,w->stksz); 
  if(rc(&w->os,&at,worker_main,w)){ fprintf(stderr,"rt: cannot create worker\n"); _exit(20);} pthread_attr_destroy(&at); return w; }
static VT* spawn(void*(*fn)(void*),void(*fn1)(void*),void*a,bool det){
  if(nT>=MAXT){ die("harness","too many threads in one execution"); }
  VT*t=(VT*)__libc_calloc(1,sizeof(VT)); t->id=nT; t->fn=fn; t->fn1=fn1; t->arg=a; t->detached=det; t->st=RUN; t->prio=1000+rnd_s(1000000); 
  if(cur!=&mainT){ t->vc=cur->vc; cur->vc.c[cur->id]++; } t->vc.c[t->id]=1; t->handle=0x7f5500000000ull+((u64)t->id<<12); T[nT++]=t; t->w=new_worker(); t->w->job=t; tot_threads++; return t; }
static VT* byhandle(u64 h){ u64 i=(h-0x7f5500000000ull)>>12; if(h<0x7f5500000000ull||i>=(u64)nT||(h&0xfff)) return 0; return T[i]; }

// ---- heap -------------------------------------------------------------------------------------
struct Hdr { u64 magic; u64 size; u64 gen; u64 flags; }; // 32 bytes
static const u64 MAGIC=0xa110c8edb10c5a1eull, FREED=0xdeadb10cdeadb10cull;
struct Qd { void*p; }; static Vec<Hdr*>* quarantine; static i64 g_live; static Hdr* g_livetab_head;
static HSet<u64>* g_liveset;
static void* vnew(size_t n,size_t al,bool nothrow,u64 pc){
  bool act=g_active&&cur!=&mainT&&!g_in_idle; bool track=act&&!cur->quiet;
  if(track&&g_failnew>0&&(g_failtid<0||g_failtid==cur->id)&&--g_failnew==0){ trace("alloc-fault",0); if(nothrow) return 0; throw std::bad_alloc(); }
  size_t off=al>32?al:32; char*b=(char*)__libc_memalign(al<16?16:al,off+n+32); if(!b){ if(nothrow) return 0; throw std::bad_alloc(); }
  char*u=b+off; Hdr*h=(Hdr*)(u-32); h->magic=MAGIC; h->size=n; h->gen=track?g_gen:0; h->flags=off;
  if(g_pages&&g_gen){ shadow_clear((u64)b,off+n+32); if(track){ shadow_mark((u64)u-32,32,true,false); shadow_mark(((u64)u+n+7)&~7ull,16,true,false); if(g_active){ g_live++; g_liveset->insert((u64)u);} memset(u,0xCD,n);} }
  return u; }
static void vdel(void*q,u64 pc){ if(!q) return; char*u=(char*)q; Hdr*h=(Hdr*)(u-32);
  if(h->magic==FREED){ char b[100]; snprintf(b,sizeof b,"double delete of %p at pc=0x%llx",q,(unsigned long long)pc); die("badfree",b); }
  if(h->magic!=MAGIC){ char b[100]; snprintf(b,sizeof b,"delete of a bad pointer %p at pc=0x%llx",q,(unsigned long long)pc); die("badfree",b); }
  bool act=g_active&&cur!=&mainT;
  if(h->gen&&h->gen==g_gen){ g_live--; g_liveset->erase((u64)u); }
  if(act&&!cur->quiet&&!g_in_idle&&h->gen==g_gen){ // a delete is a write to the whole block
     u64 n=h->size; if(n>4096) n=4096; u64 a=(u64)u,e=a+n; for(;a<e;a+=8){ Page*p=page(a>>12,false); if(!p) continue; unsigned i=(a&4095)>>3; bool any=false; for(int k=0;k<4;k++) any|=p->c[i].s[k].mask!=0; if(any) check_cell(a,0xff,SL_W,pc); }
     shadow_mark((u64)u,h->size,true,false); h->magic=FREED; memset(u,0xDD,h->size); quarantine->push_back(h); return; }
  h->magic=FREED; size_t off=h->flags; __libc_free(u-off); }
static void flush_quarantine(){ for(size_t i=0;i<quarantine->size();i++){ Hdr*h=(*quarantine)[i]; char*u=(char*)h+32; __libc_free(u-h->flags);} quarantine->clear(); }
} // namespace vt
using namespace vt;
#define PC ((u64)__builtin_return_address(0))

void* operator new(size_t n){ return vnew(n,16,false,PC); }
void* operator new[](size_t n){ return vnew(n,16,false,PC); }
void* operator new(size_t n,const std::nothrow_t&)noexcept{ return vnew(n,16,true,PC); }
void* operator new[](size_t n,const std::nothrow_t&)noexcept{ return vnew(n,16,true,PC); }
void* operator new(size_t n,std::align_val_t a){ return vnew(n,(size_t)a,false,PC); }
void operator delete(void*p)noexcept{ vdel(p,PC); }
void operator delete[](void*p)noexcept{ vdel(p,PC); }
void operator delete(void*p,size_t)noexcept{ vdel(p,PC); }
void operator delete[](void*p,size_t)noexcept{ vdel(p,PC); }
void operator delete(void*p,std::align_val_t)noexcept{ vdel(p,PC); }
void operator delete(void*p,size_t,std::align_val_t)noexcept{ vdel(p,PC); }

extern "C" {
void* malloc(size_t n){ void*p=__libc_malloc(n); if(g_active&&p) shadow_clear((u64)p,n); return p; }
void* calloc(size_t a,size_t b){ void*p=__libc_calloc(a,b); if(g_active&&p) shadow_clear((u64)p,a*b); return p; }
void* realloc(void*q,size_t n){ void*p=__libc_realloc(q,n); if(g_active&&p) shadow_clear((u64)p,n); return p; }
void free(void*p){ __libc_free(p); }

static void init_once(){ static bool d=false; if(d) return; d=true;
  freeW=new(__libc_malloc(sizeof*freeW)) Vec<Worker*>(); g_pages=new(__libc_malloc(sizeof*g_pages)) HMap<u64,Page*>(); mtxs=new(__libc_malloc(sizeof*mtxs)) HMap<u64,Mtx*>(); cnds=new(__libc_malloc(sizeof*cnds)) HMap<u64,Cnd*>(); onces=new(__libc_malloc(sizeof*onces)) HMap<u64,Onc*>(); syncs=new(__libc_malloc(sizeof*syncs)) HMap<u64,Sync*>(); syncpool=new(__libc_malloc(sizeof*syncpool)) Vec<Sync*>(); mtxpool=new(__libc_malloc(sizeof*mtxpool)) Vec<Mtx*>(); quarantine=new(__libc_malloc(sizeof*quarantine)) Vec<Hdr*>(); g_liveset=new(__libc_malloc(sizeof*g_liveset)) HSet<u64>(); g_counts=new(__libc_malloc(sizeof*g_counts)) CMap(); g_outcomes=new(__libc_malloc(sizeof*g_outcomes)) HSet<u64>(); g_scheds=new(__libc_malloc(sizeof*g_scheds)) HSet<u64>();
  mainT.id=0; mainT.st=RUN; mainT.w=&mainW; mainT.handle=0x7f5400000000ull; cur=&mainT; g_mono=1000*SEC; g_roff=1700000000ull*SEC; s_sched=s_work=88172645463325252ull; }

// --- mutex
// live objects are all zero in memory here, and a destroyed one is marked, so that using it again is seen wherever it lives, also when its stack memory has been used for something else since
static const u64 DEAD1=0xdeadc0ffee5ca1e5ull,DEAD2=0x5ca1ab1e0ddba115ull;
static void markdead(void*m){ u64 d[2]={DEAD1,DEAD2}; memcpy(m,d,16); }
static void ckdead(const char*what,void*m){ u64 d[2]; memcpy(d,m,16); if((d[0]|d[1])&&!g_failing) misuse(what,m); }
static bool tracking(){ return g_active&&cur!=&mainT&&cur->quiet==0&&!g_in_idle; }
static bool failnow(int&n){ return n>0&&tracking()&&(g_failtid<0||g_failtid==cur->id)&&--n==0; }
int pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a){ init_once(); if(failnow(g_failinit)){ trace("init-fault",m); return EAGAIN; } if(g_active&&cur->quiet==0) access((u64)m,8,SL_W,PC); Mtx*x=mtx(m,false); if(x&&x->owner!=-1&&x->gen==g_gen) misuse("init of a locked mutex",m); x=mtx(m); x->owner=-1; x->cnt=0; memset(&x->vc,0,sizeof(VC)); x->type=0; if(a){ int t=0; pthread_mutexattr_gettype(a,&t); x->type=t; } if(tracking()){ if(x->ini!=g_gen){ x->ini=g_gen; g_livesync++; } } else x->ini=0; memset(m,0,sizeof*m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*m){ init_once(); Mtx*x=mtx(m,false); if(!x) return 0; if(g_active&&cur!=&mainT){ point(false); x=mtx(m,false); if(!x) return 0; if(x->owner!=-1) misuse("destroy of a locked mutex",m); for(int i=0;i<nT;i++) if(T[i]->st==BLK&&T[i]->why==W_MUTEX&&T[i]->obj==(void*)m) misuse("destroy of a mutex another thread is waiting for",m); trace("mdestroy",m); if(!cur->quiet) access((u64)m,8,SL_W,PC); x=mtx(m,false); if(!x) return 0; if(!cur->quiet) ckdead("a mutex is destroyed twice",m); markdead(m); }
  if(x->ini==g_gen&&g_gen) g_livesync--; mtxs->erase((u64)m); mtxpool->push_back(x); return 0; }
static void objuse(void*m,u64 pc){ // using a lock reads its object: catches use after destruction of the memory
  if(!g_active||cur->quiet||cur==&mainT) return; access((u64)m,8,SL_A,pc); ckdead("use of a destroyed mutex or condition",m); }
int pthread_mutex_lock(pthread_mutex_t*m){ init_once(); if(cur==&mainT) { mtx(m)->owner=0; return 0; } if(!g_failing) objuse(m,PC); point(false); return m_lock(m,false,0,false); }
int pthread_mutex_trylock(pthread_mutex_t*m){ init_once(); if(cur==&mainT){ mtx(m)->owner=0; return 0; } objuse(m,PC); point(false); Mtx*x=mtx(m); if(x->owner==cur->id&&x->type==PTHREAD_MUTEX_RECURSIVE){ x->cnt++; return 0; } if(x->owner!=-1){ trace("trylock-busy",m); return EBUSY; } return m_lock(m,false,0,false); }
int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*t){ init_once(); if(badts(t)) return EINVAL; objuse(m,PC); point(false); return m_lock(m,true,ts2ns(t),true); }
int pthread_mutex_clocklock(pthread_mutex_t*m,clockid_t c,const struct timespec*t){ init_once(); if(badts(t)) return EINVAL; objuse(m,PC); point(false); return m_lock(m,true,ts2ns(t),c==CLOCK_REALTIME); }
int pthread_mutex_unlock(pthread_mutex_t*m){ init_once(); if(cur==&mainT){ mtx(m)->owner=-1; return 0; } if(g_failing) return 0; objuse(m,PC); int r=m_unlock(m); point(false); return r; }
// --- cond
int pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*a){ init_once(); if(failnow(g_failinit)){ trace("init-fault",c); return EAGAIN; } if(g_active&&cur->quiet==0) access((u64)c,8,SL_W,PC); Cnd*x=cnd(c); x->clk=CLOCK_REALTIME; x->dead=false; if(a){ clockid_t k; pthread_condattr_getclock(a,&k); x->clk=k; } if(tracking()){ if(x->ini!=g_gen){ x->ini=g_gen; g_livesync++; } } else x->ini=0; memset(c,0,sizeof*c); return 0; }
int pthread_cond_destroy(pthread_cond_t*c){ init_once(); if(g_active&&cur!=&mainT){ point(false); for(int i=0;i<nT;i++) if(T[i]->st==BLK&&T[i]->why==W_COND&&T[i]->obj==(void*)c) misuse("destroy of a condition with waiters",c); trace("cdestroy",c); if(!cur->quiet) access((u64)c,8,SL_W,PC); if(!cur->quiet) ckdead("a condition is destroyed twice",c); markdead(c); } auto it=cnds->find((u64)c); if(it!=cnds->end()){ if(it->second->ini==g_gen&&g_gen) g_livesync--; __libc_free(it->second); cnds->erase(it);} return 0; }
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ init_once(); objuse(c,PC); point(false); return c_wait(c,m,false,0,false); }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*t){ init_once(); if(badts(t)) return EINVAL; objuse(c,PC); point(false); return c_wait(c,m,true,ts2ns(t),cnd(c)->clk==CLOCK_REALTIME); }
int pthread_cond_clockwait(pthread_cond_t*c,pthread_mutex_t*m,clockid_t k,const struct timespec*t){ init_once(); if(badts(t)) return EINVAL; objuse(c,PC); point(false); return c_wait(c,m,true,ts2ns(t),k==CLOCK_REALTIME); }
int pthread_cond_signal(pthread_cond_t*c){ init_once(); if(!g_active||cur==&mainT) return 0; objuse(c,PC); point(false); trace("signal",c); c_signal(c,false); point(false); return 0; }
int pthread_cond_broadcast(pthread_cond_t*c){ init_once(); if(!g_active||cur==&mainT) return 0; objuse(c,PC); point(false); trace("broadcast",c); c_signal(c,true); point(false); return 0; }
// --- threads
int pthread_create(pthread_t*th,const pthread_attr_t*a,void*(*fn)(void*),void*arg) throw() { init_once();
  if(!g_active||cur==&mainT){ fprintf(stderr,"rt: thread creation outside an execution\n"); _exit(20); }
  point(false); if(g_failcreate>0&&(g_failtid<0||g_failtid==cur->id)&&--g_failcreate==0){ trace("create-fault",0); return EAGAIN; }
  int ds=0; size_t ssz=0; if(a){ pthread_attr_getdetachstate(a,&ds); pthread_attr_getstacksize(a,&ssz); } g_laststack=ssz; g_lastdet=ds==PTHREAD_CREATE_DETACHED;
  if(!cur->quiet) access((u64)th,8,SL_W,PC);
  VT*t=spawn(fn,0,arg,g_lastdet); *th=(pthread_t)t->handle; trace("create",(void*)(u64)t->id); point(false); return 0; }
static int join_(u64 h,void**r,bool timed,u64 dl){ VT*t=byhandle(h); if(!t) misuse("join of an invalid thread handle",(void*)h); if(t==cur) return EDEADLK; if(t->detached) misuse("join of a detached thread",(void*)(u64)t->id); if(t->joined||t->joiner) misuse("thread joined twice",(void*)(u64)t->id);
  t->joiner=cur; while(t->st!=DONE){ block(W_JOIN,t,timed,dl,true); if(cur->fired&&t->st!=DONE){ t->joiner=0; return ETIMEDOUT; } } t->joined=true; acq(t->vc); if(r) *r=t->ret; trace("joined",(void*)(u64)t->id); return 0; }
int pthread_join(pthread_t h,void**r){ point(false); int e=join_((u64)h,r,false,0); point(false); return e; }
int pthread_timedjoin_np(pthread_t h,void**r,const struct timespec*t){ point(false); return join_((u64)h,r,true,ts2ns(t)); }
int pthread_tryjoin_np(pthread_t h,void**r){ point(false); VT*t=byhandle((u64)h); if(!t) misuse("join of an invalid thread handle",(void*)(u64)h); if(t->st!=DONE) return EBUSY; return join_((u64)h,r,false,0); }
int pthread_detach(pthread_t h) throw() { point(false); VT*t=byhandle((u64)h); if(!t) misuse("detach of an invalid thread handle",(void*)(u64)h); if(t->detached) misuse("detach of a detached thread",(void*)(u64)t->id); if(t->joined) misuse("detach of a joined thread",(void*)(u64)t->id); t->detached=true; return 0; }
pthread_t pthread_self() throw() { init_once(); return (pthread_t)cur->handle; }
int pthread_once(pthread_once_t*o,void(*f)()){ init_once(); point(false); Onc*&x=(*onces)[(u64)o]; if(!x) x=(Onc*)__libc_calloc(1,sizeof(Onc)); Onc*y=x; if(y->gen!=g_gen){ y->gen=g_gen; memset(&y->vc,0,sizeof(VC)); }
  while(y->st==1) block(W_ONCE,o,false,0,false); if(y->st==2){ acq(y->vc); return 0; } y->st=1; f(); y->st=2; rel(y->vc); for(int i=0;i<nT;i++) if(T[i]->st==BLK&&T[i]->why==W_ONCE&&T[i]->obj==(void*)o) T[i]->st=RUN; return 0; }
int pthread_key_create(pthread_key_t*k,void(*d)(void*)) throw() { init_once(); for(int i=1;i<MAXKEY;i++) if(!keys[i].used){ keys[i].used=true; keys[i].d=d; *k=i; return 0; } return EAGAIN; }
int pthread_key_delete(pthread_key_t k) throw() { keys[k].used=false; for(int i=0;i<nT;i++) T[i]->tss[k]=0; mainT.tss[k]=0; return 0; }
void* pthread_getspecific(pthread_key_t k) throw() { init_once(); return cur->tss[k]; }
int pthread_setspecific(pthread_key_t k,const void*v) throw() { init_once(); cur->tss[k]=(void*)v; return 0; }
int sched_yield() throw() { yield_(); return 0; }
// --- time
static void sleep_until_(u64 dl,bool rc){ if(!g_active||cur==&mainT) return; point(false); trace("sleep",0); block(W_SLEEP,0,true,dl,rc); }
static inline void tick(){ if(g_active) g_mono+=100; }
int clock_gettime(clockid_t c,struct timespec*t) throw() { init_once(); u64 n; switch(c){ case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_BOOTTIME: case CLOCK_MONOTONIC_COARSE: tick(); n=g_mono; break; case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: tick(); n=g_mono+g_roff; break; default: return syscall(SYS_clock_gettime,c,t); } t->tv_sec=n/1000000000ull; t->tv_nsec=n%1000000000ull; point(true); return 0; }
int gettimeofday(struct timeval*tv,void*) throw() { init_once(); tick(); u64 n=g_mono+g_roff; tv->tv_sec=n/1000000000ull; tv->tv_usec=(n%1000000000ull)/1000; return 0; }
time_t time(time_t*p) throw() { init_once(); time_t r=(g_mono+g_roff)/1000000000ull; if(p) *p=r; return r; }
// a signal handler may have run: EINTR and what is left
static bool by_signal(u64 n,struct timespec*b){ if(!g_sig||n<2||!g_active||cur==&mainT||rnd_s(100)>=(u32)g_sig) return false; u64 k=rnd_s(3)==0?1:n/(1+rnd_s(4))/2+1; tot_sig++; sleep_until_(g_mono+k,false); if(b){ u64 l=n>k?n-k:0; b->tv_sec=l/1000000000ull; b->tv_nsec=l%1000000000ull; } return true; }
int nanosleep(const struct timespec*a,struct timespec*b){ if(badts(a)||a->tv_sec<0){ errno=EINVAL; return -1; } u64 n=ts2ns(a); if(by_signal(n,b)){ errno=EINTR; return -1; } sleep_until_(g_mono+(n>(~0ull>>2)?(~0ull>>2):n),false); return 0; }
int clock_nanosleep(clockid_t c,int fl,const struct timespec*a,struct timespec*b){ if(badts(a)) return EINVAL; u64 n=ts2ns(a); bool r=c==CLOCK_REALTIME; if(!(fl&TIMER_ABSTIME)&&by_signal(n,b)) return EINTR; if(fl&TIMER_ABSTIME) sleep_until_(n,r); else sleep_until_(g_mono+n,false); return 0; }
int usleep(useconds_t u){ sleep_until_(g_mono+(u64)u*1000,false); return 0; }
unsigned sleep(unsigned s){ sleep_until_(g_mono+(u64)s*SEC,false); return 0; }
// --- function-local statics
int __cxa_guard_acquire(long long*g){ init_once(); char*b=(char*)g; if(g_active&&cur!=&mainT) point(false); while(b[1]){ block(W_GUARD,g,false,0,false); } if(b[0]){ if(g_active) acq(syncvc((u64)g)); return 0; } b[1]=1; return 1; }
static void gwake(void*g){ for(int i=0;i<nT;i++) if(T[i]->st==BLK&&T[i]->why==W_GUARD&&T[i]->obj==g) T[i]->st=RUN; }
void __cxa_guard_release(long long*g){ char*b=(char*)g; b[1]=0; b[0]=1; if(g_active&&cur!=&mainT) relj(syncvc((u64)g)); gwake(g); }
void __cxa_guard_abort(long long*g){ char*b=(char*)g; b[1]=0; gwake(g); }
void* __cxa_allocate_exception(size_t n) throw() { static auto r=real<void*(*)(size_t)>("__cxa_allocate_exception"); void*p=r(n); if(g_active) shadow_mark((u64)p,n,false,true); return p; }
// --- instrumentation
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void*a){ access((u64)a,n,0,PC);} void __tsan_write##n(void*a){ access((u64)a,n,SL_W,PC);} \
 void __tsan_unaligned_read##n(void*a){ access((u64)a,n,0,PC);} void __tsan_unaligned_write##n(void*a){ access((u64)a,n,SL_W,PC);} \
 void __tsan_volatile_read##n(void*a){ access((u64)a,n,SL_A,PC);} void __tsan_volatile_write##n(void*a){ access((u64)a,n,SL_A|SL_W,PC);} 
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*a,size_t n){ access((u64)a,n,0,PC);} void __tsan_write_range(void*a,size_t n){ access((u64)a,n,SL_W,PC);}
void __tsan_vptr_update(void**a,void*v){ if(*a!=v) access((u64)a,8,SL_W,PC); } void __tsan_vptr_read(void**a){ access((u64)a,8,0,PC); }
}
static inline bool aon(){ return g_active&&cur!=&mainT&&!g_in_idle; }
static VC fence_rel[MAXT]; // unused clocks for fences
static void a_acq(u64 a,int mo){ if(mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST) acq(syncvc(a)); }
static inline void a_pt(u64 a,int n,u64 pc,bool w){ if(cur->quiet) return; g_acc++; point(false); u64 cell=a&~7ull; u8 mask=(u8)(((1u<<(a-cell+n))-1)&~((1u<<(a-cell))-1)); if(n==8) mask=0xff; check_cell(cell,mask,SL_A|(w?SL_W:0),pc); }
template<class X> static X a_load(volatile X*a,int mo,u64 pc){ if(!aon()) return __atomic_load_n(a,__ATOMIC_SEQ_CST); a_pt((u64)a,sizeof(X),pc,false); X v=*a; a_acq((u64)a,mo); return v; }
template<class X> static void a_store(volatile X*a,X v,int mo,u64 pc){ if(!aon()){ __atomic_store_n(a,v,__ATOMIC_SEQ_CST); return; } a_pt((u64)a,sizeof(X),pc,true); *a=v; VC&c=syncvc((u64)a); if(mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST) rel(c); else memset(&c,0,sizeof c); trace("astore",(void*)a); }
template<class X,class F> static X a_rmw(volatile X*a,int mo,u64 pc,F f){ X o; if(!aon()){ o=*a; *a=f(o); return o; } a_pt((u64)a,sizeof(X),pc,true); o=*a; *a=f(o); VC&c=syncvc((u64)a); a_acq((u64)a,mo); if(mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST) relj(c); return o; }
template<class X> static int a_cas(volatile X*a,X*e,X v,int mo,int fmo,u64 pc,bool weak){ if(!aon()){ if(*a==*e){ *a=v; return 1;} *e=*a; return 0; } a_pt((u64)a,sizeof(X),pc,true);
  if(weak&&!cur->quiet&&rnd_s(16)==0){ *e=*a; a_acq((u64)a,fmo); return 0; }
  if(*a==*e){ *a=v; VC&c=syncvc((u64)a); a_acq((u64)a,mo); if(mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST) relj(c); trace("acas",(void*)a); return 1; } *e=*a; a_acq((u64)a,fmo); return 0; }
extern "C" {
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
#define AT(N,X) X __tsan_atomic##N##_load(const volatile X*a,int mo){ return a_load((volatile X*)a,mo,PC);} \
 void __tsan_atomic##N##_store(volatile X*a,X v,int mo){ a_store(a,v,mo,PC);} \
 X __tsan_atomic##N##_exchange(volatile X*a,X v,int mo){ return a_rmw(a,mo,PC,[v](X){return v;});} \
 X __tsan_atomic##N##_fetch_add(volatile X*a,X v,int mo){ return a_rmw(a,mo,PC,[v](X o){return (X)(o+v);});} \
 X __tsan_atomic##N##_fetch_sub(volatile X*a,X v,int mo){ return a_rmw(a,mo,PC,[v](X o){return (X)(o-v);});} \
 X __tsan_atomic##N##_fetch_and(volatile X*a,X v,int mo){ return a_rmw(a,mo,PC,[v](X o){return (X)(o&v);});} \
 X __tsan_atomic##N##_fetch_or(volatile X*a,X v,int mo){ return a_rmw(a,mo,PC,[v](X o){return (X)(o|v);});} \
 X __tsan_atomic##N##_fetch_xor(volatile X*a,X v,int mo){ return a_rmw(a,mo,PC,[v](X o){return (X)(o^v);});} \
 X __tsan_atomic##N##_fetch_nand(volatile X*a,X v,int mo){ return a_rmw(a,mo,PC,[v](X o){return (X)~(o&v);});} \
 int __tsan_atomic##N##_compare_exchange_strong(volatile X*a,X*e,X v,int mo,int f){ return a_cas(a,e,v,mo,f,PC,false);} \
 int __tsan_atomic##N##_compare_exchange_weak(volatile X*a,X*e,X v,int mo,int f){ return a_cas(a,e,v,mo,f,PC,true);} \
 X __tsan_atomic##N##_compare_exchange_val(volatile X*a,X e,X v,int mo,int f){ a_cas(a,&e,v,mo,f,PC,false); return e;}
AT(8,a8) AT(16,a16) AT(32,a32) AT(64,a64)
// fences: modelled conservatively (a global clock), which can only hide a race, never invent one
static VC g_fence; static u64 g_fencegen;
void __tsan_atomic_thread_fence(int mo){ if(!aon()) return; point(false); if(g_fencegen!=g_gen){ memset(&g_fence,0,sizeof g_fence); g_fencegen=g_gen; } acq(g_fence); relj(g_fence); }
void __tsan_atomic_signal_fence(int){}

// --- harness API
void vt_fail(const char*key,const char*fmt,...){ char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); die(key,b); for(;;); }
void vt_tracef(const char*fmt,...){ trace("note",0); Ev&e=ev[(nev-1)%NEV]; va_list ap; va_start(ap,fmt); vsnprintf(e.txt,sizeof e.txt,fmt,ap); va_end(ap); }
uint32_t vt_rnd(uint32_t n){ return n?(u32)((rng(s_work)>>33)%n):0; }
void vt_point(){ point(false); } void vt_yield(){ yield_(); }
void vt_settle(){ if(!g_active) return; point(false); cur->st=IDLEW; resched(false); }
void vt_sleep(u64 ns){ sleep_until_(g_mono+ns,false); }
u64 vt_now(){ return g_mono; } u64 vt_last_jump(){ return g_lastjump; } u64 vt_real(){ return g_mono+g_roff; }
void vt_step_clock(i64 d){ trace("stepclock",0); g_roff+=d; fire_due(); point(false); }
int vt_exact(){ return g_exact; } int vt_virtual(){ return 1; } int vt_tid(){ return cur->id; }
int vt_blocked(int t){ return t<nT&&T[t]->st==BLK; }
int vt_raw_spawn(void(*f)(void*),void*a,u64*h){ point(false); VT*t=spawn(0,f,a,false); if(h) *h=t->handle; int id=t->id; point(false); return id; }
void vt_raw_join(u64 h){ point(false); join_(h,0,false,0); } void vt_raw_detach(u64 h){ pthread_detach((pthread_t)h); }
void vt_quiet(int d){ cur->quiet+=d; } void vt_norace(int d){ cur->norace+=d; }
void vt_count(const char*n,u64 k){ (*g_counts)[Str(n)]+=k; } void vt_outcome(u64 h){ g_outcomes->insert(mix(h^mix((u64)(size_t)g_scn))); }
void vt_on_idle(void(*cb)(void*),void*a){ g_idle=cb; g_idlearg=a; }
void vt_fail_create(int n){ g_failcreate=n; } void vt_fail_new(int n){ g_failnew=n; } int vt_fail_pending(){ return g_failcreate>0||g_failnew>0||g_failinit>0; }
void vt_fail_init(int n){ g_failinit=n; } void vt_fail_mine(int on){ g_failtid=on?cur->id:-1; } i64 vt_live_sync(){ return g_livesync; }
i64 vt_live_blocks(){ return g_live; } u64 vt_step(){ return ++g_step; } int vt_tier(){ return g_tier; }
void vt_spurious(int on){ g_spuron=on; } void vt_signals(int pct){ g_sig=pct; } void vt_no_jump(int on){ g_nojump=on; }
int vt_mutex_owner(void*m){ Mtx*x=mtx(m,false); return x?x->owner:-1; }
u64 vt_last_stacksize(){ return g_laststack; } int vt_last_detached(){ return g_lastdet; }
}
// ---- driver -----------------------------------------------------------------------------------
static Scn* g_scns=0; vt::Reg::Reg(Scn*s){ s->next=g_scns; g_scns=s; }
struct Root { void(*fn)(); };
static void root_main(void*p){ ((Root*)p)->fn(); }
static HMap<u64,u64>* g_len; // average length of earlier executions, for priority change points
static void run_exec(Scn*s,u64 seed,unsigned warm){
  init_once(); g_gen++; g_scn=s->name; g_seed=seed; g_flags=s->flags; u64 h=0; for(const char*c=s->name;*c;c++) h=h*131+*c;
  s_sched=mix(seed*2654435761u+h)|1; s_work=mix(seed*40503u+h*7+1)|1; for(int i=0;i<4;i++){ rng(s_sched); rng(s_work);} 
  g_step=g_sync=g_switch=g_acc=g_points=0; g_hash=0; nev=0; g_mono=1000*SEC; g_lastjump=0; g_roff=1700000000ull*SEC+123456789; g_idle=0; g_in_idle=false; g_failcreate=g_failnew=g_failinit=0; g_failtid=-1; g_livesync=0; g_live=0; g_liveset->clear(); g_spuron=true; g_nojump=false; g_sig=0; g_low=900;
  if(!g_len) g_len=new(__libc_malloc(sizeof*g_len)) HMap<u64,u64>(); u64 len=(*g_len)[(u64)s]; (void)len;
  static const u32 ps[]={5,15,30,50,80}; static const u32 pa[]={0,0,300,80,25,8}; static const u64 lens[]={300,1000,3000,10000,40000};
  g_pct=rnd_s(3)==0; g_psync=ps[rnd_s(5)]; g_pacc=pa[rnd_s(6)]; g_nchg=0; if(g_pct){ g_nchg=rnd_s(6); u64 L=lens[rnd_s(5)]; for(int i=0;i<g_nchg;i++) g_chg[i]=1+rnd_s((u32)L); }
  g_exact=(s->flags&F_EXACT)||rnd_s(10)<6; g_jump=g_exact?0:(rnd_s(2)?40:150); g_spur=(s->flags&F_NOSPUR)?0:(rnd_s(3)==0?(rnd_s(2)?15:60):0); g_spurleft=6;
  for(auto it=syncs->begin();it!=syncs->end();++it) syncpool->push_back(it->second); syncs->clear();
  nT=0; mainT.vc.c[0]=1; cur=&mainT; mainT.st=RUN; g_firstlive=0;
  // slot 0 is the execution's root thread
  Root r={s->fn}; g_active=true; VT*t=spawn(0,root_main,&r,true); 
  mainT.st=BLK; cur=t; fwake(t->w); fwait(&mainW); 
  g_active=false; cur=&mainT; mainT.st=RUN;
  tot_exec++; tot_sync+=g_sync; tot_acc+=g_acc; tot_switch+=g_switch; if(g_switch>nT) g_scheds->insert(g_hash^h);
  if(!(s->flags&F_NOLEAK)&&warm>=2&&g_live>0){ char b[300]; int n=snprintf(b,sizeof b,"%lld operator-new block(s) allocated in this execution were never freed; sizes:",(long long)g_live); int k=0; for(u64 p:*g_liveset){ if(k++>6) break; n+=snprintf(b+n,sizeof b-n," %llu",(unsigned long long)((Hdr*)(p-32))->size);} die("leak",b); }
  flush_quarantine();
  for(int i=0;i<nT;i++) __libc_free(T[i]); nT=0;
  if((tot_exec&63)==0||g_pages->size()>4000){ // bound the runtime's memory
    if(g_pages->size()>4000){ for(auto&kv:*g_pages) munmap(kv.second,sizeof(Page)); g_pages->clear(); memset(tlbk,0,sizeof tlbk); memset(tlbv,0,sizeof tlbv);} }
}
static void on_sig(int n){ signal(n,SIG_DFL); char b[120]; snprintf(b,sizeof b,"signal %d (%s) in thread %d",n,strsignal(n),cur?cur->id:-1); if(cur) cur->quiet++; die(n==SIGABRT?"abort":"crash",b); }
static void on_term(){ if(cur) cur->quiet++; bool a=g_active; const char*tn="no active exception"; Str what; if(std::type_info*t=abi::__cxa_current_exception_type()) { tn=t->name(); }
  (void)a; char b[300]; snprintf(b,sizeof b,"std::terminate called in thread %d (%s)",cur?cur->id:-1,tn); die("terminate",b); }
// an execution that burns processor time without ever reaching the step bounds
static void on_prof(int){ static u64 last=~0ull; static int same=0; u64 e=tot_exec; if(!g_active||e!=last){ last=e; same=0; return; } if(++same>=15){ if(cur) cur->quiet++; die("noprogress","execution does not end (30 s of processor time in one execution)"); } }
int main(int argc,char**argv){
  init_once(); u64 seed=1,count=100; const char*only=0; bool list=false; u64 single=0; bool dosingle=false; const char*skip=0,*hashes=0; double maxs=1e9;
  for(int i=1;i<argc;i++){ Str a=argv[i]; if(a=="--list") list=true; else if(a=="--seed") seed=strtoull(argv[++i],0,10); else if(a=="--count") count=strtoull(argv[++i],0,10); else if(a=="--scn") only=argv[++i]; else if(a=="--exec"){ single=strtoull(argv[++i],0,10); dosingle=true; } else if(a=="--skip") skip=argv[++i]; else if(a=="--tier") g_tier=atoi(argv[++i]); else if(a=="--hashes") hashes=argv[++i]; else if(a=="--max-s") maxs=atof(argv[++i]); else if(a=="--cpu"){ cpu_set_t av; sched_getaffinity(0,sizeof av,&av); int n=CPU_COUNT(&av); int k=atoi(argv[++i])%(n?n:1); for(int c=0;c<CPU_SETSIZE;c++) if(CPU_ISSET(c,&av)&&k--==0){ cpu_set_t one; CPU_ZERO(&one); CPU_SET(c,&one); sched_setaffinity(0,sizeof one,&one); break; } } }
  setvbuf(stdout,(char*)__libc_malloc(1<<16),_IOFBF,1<<16);
  if(list){ for(Scn*s=g_scns;s;s=s->next) printf("%s %u\n",s->name,s->flags); fflush(stdout); _exit(0); }
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_sig; sa.sa_flags=SA_ONSTACK; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGABRT,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGILL,&sa,0); { struct sigaction sp; memset(&sp,0,sizeof sp); sp.sa_handler=on_prof; sp.sa_flags=SA_ONSTACK|SA_RESTART; sigaction(SIGPROF,&sp,0); struct itimerval it={{2,0},{2,0}}; setitimer(ITIMER_PROF,&it,0); } std::set_terminate(on_term);
  struct timespec t0; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t0);
  for(Scn*s=g_scns;s;s=s->next){ if(only&&strcmp(only,s->name)) continue; if(!only&&(s->flags&F_KNOWN)) continue;
    if(skip){ Str k=Str(",")+skip+","; if(k.find(Str(",")+s->name+",")!=Str::npos) continue; }
    u64 c=count; if(s->flags&F_SLOW) c=c/4+1; if(s->flags&F_HOT) c*=3; if(s->flags&F_ONCE) c=c/20+2; u64 before=tot_exec;
    printf("SCN %s\n",s->name); fflush(stdout);
    if(dosingle){ for(u64 w=0;w<3;w++) run_exec(s,single+ (w==2?0:1000000007ull*(w+1)),0); run_exec(s,single,3); }
    else for(u64 i=0;i<c;i++){ run_exec(s,seed*1000003ull+i,(unsigned)i);
       if((i&15)==15){ struct timespec t1; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t1); if((t1.tv_sec-t0.tv_sec)+(t1.tv_nsec-t0.tv_nsec)/1e9>maxs){ printf("TIMECAP %s %llu\n",s->name,(unsigned long long)i); break; } } }
    printf("DID %s %llu\n",s->name,(unsigned long long)(tot_exec-before)); fflush(stdout); }
  printf("STAT executions %llu\nSTAT sync_ops %llu\nSTAT memory_accesses_checked %llu\nSTAT context_switches %llu\nSTAT threads %llu\nSTAT time_jumps %llu\nSTAT spurious_wakeups %llu\nSTAT idle_checks %llu\nSTAT distinct_schedules %llu\nSTAT distinct_outcomes %llu\n",(unsigned long long)tot_exec,(unsigned long long)tot_sync,(unsigned long long)tot_acc,(unsigned long long)tot_switch,(unsigned long long)tot_threads,(unsigned long long)tot_jumps,(unsigned long long)tot_spur,(unsigned long long)tot_idle,(unsigned long long)g_scheds->size(),(unsigned long long)g_outcomes->size());
  for(auto&kv:*g_counts) printf("COUNT %s %llu\n",kv.first.c_str(),(unsigned long long)kv.second);
  if(hashes){ FILE*f=fopen(hashes,"wb"); if(f){ for(u64 x:*g_scheds) fwrite(&x,8,1,f); fclose(f);} }
  printf("DONE\n"); fflush(stdout); syscall(SYS_exit_group,0);
}
