// C14: thread-specific values are private and cleaned up exactly once.
#include "h.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#include <new>
using namespace boost;

// A value: who owns it, what became of it. Bookkeeping is the harness's; `pay` is seen by the race monitor.
struct Val { int owner, slot, level; int cleaned, released; Pay pay; Val(int s, int l) : owner(vt_tid()), slot(s), level(l), cleaned(0), released(0) { pay.bump(); } };
struct World; static World* W;
enum { NP = 4 };
struct World { std::vector<Val*> all; void* mem[NP]; bool in_cleanup[64][NP]; World() { memset(in_cleanup, 0, sizeof in_cleanup); } };
template<int I> static void cleanup(Val* v);
typedef thread_specific_ptr<Val> TP;
static TP* P[NP];
static Val* mk(int slot, int level) { Val* v = new Val(slot, level); Quiet q; W->all.push_back(v); vt_count("values_set", 1); return v; }
// a cleanup may set other pointers, but not one whose own cleanup is running
static void in_clean(int slot, Val* v) {
  { Quiet q; VT_CHECK(v->slot == slot, "wrong-cleanup", "a value of pointer %d was given to the cleanup of pointer %d", v->slot, slot); VT_CHECK(v->owner == vt_tid(), "wrong-thread", "a value of thread %d was cleaned up by thread %d", v->owner, vt_tid()); VT_CHECK(!v->released, "released", "a released value was cleaned up"); VT_CHECK(!v->cleaned, "twice", "a value was cleaned up twice"); v->cleaned++; vt_count("cleanups", 1); }
  VT_CHECK(v->pay.ok(), "torn", "value damaged"); v->pay.bump();
  if (v->level > 0) { bool busy; int o = vt_rnd(NP); { Quiet q; W->in_cleanup[vt_tid() & 63][slot] = true; busy = W->in_cleanup[vt_tid() & 63][o] || !P[o]; } if (!busy) { Val* n = mk(o, v->level - 1); P[o]->reset(n); VT_CHECK(P[o]->get() == n, "get", "value set in a cleanup is not seen"); vt_count("set_in_cleanup", 1); } { Quiet q; W->in_cleanup[vt_tid() & 63][slot] = false; } } }
template<int I> static void cleanup(Val* v) { in_clean(I, v); }
static TP* make_ptr(int i, void* at) { void (*c)(Val*) = i == 0 ? &cleanup<0> : i == 1 ? &cleanup<1> : i == 2 ? &cleanup<2> : &cleanup<3>; return at ? new (at) TP(c) : new TP(c); }
static void work(int n, int level) {
  Val* cur[NP] = { 0, 0, 0, 0 };
  for (int i = 0; i < NP; ++i) VT_CHECK(P[i]->get() == 0, "initial", "the initial value is not null");
  for (int k = 0; k < n; ++k) { int i = vt_rnd(NP); switch (vt_rnd(8)) {
      case 0: case 1: case 2: { Val* v = mk(i, level ? vt_rnd(level + 1) : 0); Val* old = cur[i]; bool nested = old && old->level > 0; P[i]->reset(v); cur[i] = v; if (nested) for (int j = 0; j < NP; ++j) if (j != i) cur[j] = P[j]->get(); if (old) { Quiet q; VT_CHECK(old->cleaned == 1, "replaced", "a replaced value was cleaned up %d times", old->cleaned); } break; }
      case 3: { Val* old = cur[i]; bool nested = old && old->level > 0; P[i]->reset(); cur[i] = 0; if (nested) for (int j = 0; j < NP; ++j) if (j != i) cur[j] = P[j]->get(); if (old) { Quiet q; VT_CHECK(old->cleaned == 1, "replaced", "a reset value was cleaned up %d times", old->cleaned); } break; }
      case 4: { if (cur[i]) { Quiet q; cur[i]->released = 1; } Val* v = P[i]->release(); VT_CHECK(v == cur[i], "release", "release returned another value"); cur[i] = 0; break; }
      case 5: P[i]->reset(cur[i]); if (cur[i]) { Quiet q; VT_CHECK(cur[i]->cleaned == 0, "same", "setting the same value again cleaned it up"); } break;
      default: VT_CHECK(P[i]->get() == cur[i], "get", "get returns %p, not what this thread set last (%p)", (void*)P[i]->get(), (void*)cur[i]); if (cur[i]) { VT_CHECK(&**P[i] == cur[i] && (*P[i])->owner == vt_tid(), "get", "wrong object"); (*P[i])->pay.bump(); } break; }
    for (int j = 0; j < NP; ++j) VT_CHECK(P[j]->get() == cur[j], "get", "pointer %d holds %p instead of %p", j, (void*)P[j]->get(), (void*)cur[j]);
    if (cur[i]) VT_CHECK(!cur[i]->cleaned, "alive", "a current value was cleaned up"); vt_point(); } }
static void finish(bool main_destroyed) {
  for (size_t i = 0; i < W->all.size(); ++i) { Quiet q; Val* v = W->all[i]; VT_CHECK(v->cleaned + v->released == 1, v->cleaned + v->released ? "twice" : "leaked", "a value of thread %d was cleaned up %d times and released %d times", v->owner, v->cleaned, v->released); }
  { NoRace n; for (size_t i = 0; i < W->all.size(); ++i) delete W->all[i]; } delete W; W = 0; }
SCENARIO(ops, F_NATIVE | F_HOT) {
  W = new World; int level = chance(50) ? 0 : 1 + vt_rnd(2); for (int i = 0; i < NP; ++i) P[i] = make_ptr(i, 0);
  int n = 1 + vt_rnd(3); bool self = chance(60); { Par p; std::vector<thread*> t; for (int i = 0; i < n; ++i) { int k = 2 + vt_rnd(8); if (chance(70)) t.push_back(new thread([=] { work(k, level); })); else p.go([=] { work(k, level); }); }
    if (self) work(2 + vt_rnd(5), 0); for (size_t i = 0; i < t.size(); ++i) { t[i]->join(); delete t[i]; } p.join(); { Quiet q; std::vector<thread*>().swap(t); } }
  { Quiet q; for (size_t i = 0; i < W->all.size(); ++i) { Val* v = W->all[i]; VT_CHECK(v->owner == vt_tid() || v->cleaned + v->released == 1, "exit", "a value of ended thread %d was cleaned up %d times", v->owner, v->cleaned); } }
  for (int i = 0; i < NP; ++i) { Val* v = P[i]->get(); TP* x = P[i]; P[i] = 0; delete x; if (v) { Quiet q; VT_CHECK(v->cleaned == 1, "destroy", "destroying the pointer cleaned up this thread's value %d times", v->cleaned); } } vt_outcome(W->all.size()); finish(true); }
// The address of a destroyed pointer is used again: nothing of the old one shows.
SCENARIO(address_reuse, F_NATIVE) {
  W = new World; void* mem = ::operator new(sizeof(TP) * NP); for (int i = 0; i < NP; ++i) P[i] = make_ptr(i, (char*)mem + i * sizeof(TP)); int rounds = 2 + vt_rnd(3);
  // one long-living thread that always leaves null behind, with this thread replacing the pointers
  int* turn = new int(0); pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, 0);
  thread t([=] { int done = 0; while (done < rounds) { pthread_mutex_lock(m); if (*turn == 2 * done + 1) { for (int i = 0; i < NP; ++i) VT_CHECK(P[i]->get() == 0, "reuse", "a new pointer at a used address shows an old value"); work(1 + vt_rnd(3), 0); for (int i = 0; i < NP; ++i) { if (chance(70)) P[i]->reset(); else { Val* v = P[i]->get(); if (v) { Quiet q; v->released = 1; } P[i]->release(); } } done++; (*turn)++; } pthread_mutex_unlock(m); vt_sleep(1000); } });
  for (int r = 0; r < rounds; ++r) { pthread_mutex_lock(m); for (int i = 0; i < NP; ++i) if (chance(60)) { Val* v = mk(i, 0); P[i]->reset(v); } for (int i = 0; i < NP; ++i) { Val* v = P[i]->get(); P[i]->~TP(); if (v) { Quiet q; VT_CHECK(v->cleaned == 1, "destroy", "destroying the pointer cleaned up %d times", v->cleaned); } } unsigned rot = vt_rnd(NP); for (int i = 0; i < NP; ++i) { P[i] = make_ptr(i, (char*)mem + ((i + rot) % NP) * sizeof(TP)); VT_CHECK(P[i]->get() == 0, "reuse", "a new pointer at a used address shows an old value"); } (*turn)++; pthread_mutex_unlock(m); for (;;) { vt_sleep(1000); NoRace n; if (*(volatile int*)turn == 2 * r + 2) break; } pthread_mutex_lock(m); pthread_mutex_unlock(m); }
  t.join(); for (int i = 0; i < NP; ++i) { TP* x = P[i]; P[i] = 0; x->~TP(); } ::operator delete(mem); pthread_mutex_destroy(m); delete m; delete turn; finish(true); }
// default cleanup deletes; a null cleanup function does nothing; values of incomplete lifetimes; interrupted, detached and nested threads
struct Obj { int* n; int tid; Obj(int* c) : n(c), tid(vt_tid()) { } ~Obj() { Quiet q; VT_CHECK(tid == vt_tid(), "wrong-thread", "deleted by another thread"); ++*n; vt_count("cleanups", 1); } };
SCENARIO(kinds, F_NATIVE) {
  int* n = new int(0); int* made = new int(0); thread_specific_ptr<Obj>* a = new thread_specific_ptr<Obj>; thread_specific_ptr<int>* b = new thread_specific_ptr<int>(0); int* keep = new int(5);
  auto mk1 = [=] { { Quiet q; ++*made; vt_count("values_set", 1); } return new Obj(n); };
  int how = vt_rnd(4); int* done = new int(0);
  auto body = [=] { VT_CHECK(!a->get() && !b->get(), "initial", "not null"); a->reset(mk1()); b->reset(keep); VT_CHECK(b->get() == keep && **b == 5, "get", "wrong"); if (chance(40)) a->reset(mk1()); if (chance(40)) { Obj* o = a->release(); VT_CHECK(!a->get(), "release", "not null after release"); delete o; if (chance(50)) a->reset(mk1()); }
    if (how == 1) { thread u([=] { VT_CHECK(!a->get(), "initial", "a child thread sees its parent's value"); a->reset(mk1()); }); u.join(); VT_CHECK(b->get() == keep, "get", "a child thread changed its parent's value"); }
    if (how == 2) { this_thread::at_thread_exit([=] { Obj* o = a->get(); (void)o; a->reset(mk1()); }); } { Quiet q; *done = 1; } if (how == 3) { this_thread::sleep_for(chrono::hours(10)); } };
  thread t(body); if (how == 3) { for (;;) { Quiet q; if (*done) break; vt_quiet(-1); vt_sleep(1000); vt_quiet(1); } t.interrupt(); } if (chance(30) && how < 2) { t.detach(); for (int k = 0; k < 3000; ++k) { { Quiet q; if (*done && *n == *made) break; } vt_sleep(100000); } vt_sleep(10 * MS); } else t.join();
  { Quiet q; VT_CHECK(*n == *made, "leaked", "%d values set, %d deleted at thread exit", *made, *n); } NoRace nr; delete a; delete b; VT_CHECK(*keep == 5, "nullfn", "damaged"); delete keep; delete n; delete made; delete done; }
// pointers of another type and with another kind of cleanup come to live at the same address; a thread that used the old one uses the new one
struct Obj2 { int* n; u64 mark; Obj2(int* c) : n(c), mark(0x1234) {} };
static int* g_custom; static void custom(Obj2* o) { { Quiet q; VT_CHECK(o->mark == 0x1234, "wrong-cleanup", "a cleanup got a value that is not of its pointer"); ++*o->n; ++*g_custom; } delete o; }
SCENARIO(kind_reuse, F_NATIVE) {
  struct alignas(16) Mem { char b[sizeof(thread_specific_ptr<Obj>) + 64]; }; Mem* mem = new Mem; int* n = new int(0); int made = 0; g_custom = new int(0); int rounds = 2 + vt_rnd(3); int expect_custom = 0; std::vector<std::pair<int, int> > plan; 
  auto body = [&] { for (int r = 0; r < rounds; ++r) { int kind = vt_rnd(3); int sets = vt_rnd(4); int leave = vt_rnd(3); 
      // a non-null value left behind would be cleaned up with the pointer; here the pointer always dies in this thread or with null left
      if (kind == 0) { typedef thread_specific_ptr<Obj> T; T* p = new (mem) T; VT_CHECK(!p->get(), "reuse", "old value seen"); for (int k = 0; k < sets; ++k) { { Quiet q; ++made; vt_count("values_set", 1); } p->reset(new Obj(n)); } if (leave == 0) p->reset(); else if (leave == 1) { Obj* o = p->release(); if (o) delete o; } p->~T(); }
      else if (kind == 1) { typedef thread_specific_ptr<Obj2> T; T* p = new (mem) T(&custom); VT_CHECK(!p->get(), "reuse", "old value seen"); for (int k = 0; k < sets; ++k) { { Quiet q; ++made; ++expect_custom; vt_count("values_set", 1); } p->reset(new Obj2(n)); } if (leave == 0) p->reset(); else if (leave == 1) { Obj2* o = p->release(); if (o) custom(o); } p->~T(); }
      else { typedef thread_specific_ptr<int> T; T* p = new (mem) T((void (*)(int*))0); int x = 3; VT_CHECK(!p->get(), "reuse", "old value seen"); if (sets) p->reset(&x); if (sets > 1) p->reset(); if (sets > 2) VT_CHECK(!p->get(), "get", "not null"); p->~T(); VT_CHECK(x == 3, "nullfn", "damaged"); }
      { Quiet q; VT_CHECK(*n == made && *g_custom == expect_custom, "destroy", "%d values set, %d cleaned up, %d of them by the custom function instead of %d", made, *n, *g_custom, expect_custom); } } };
  // ... and the same with two threads taking turns: the other one leaves only null values in its nodes
  if (chance(50)) { thread t(body); t.join(); } else { 
    typedef thread_specific_ptr<Obj> A; typedef thread_specific_ptr<Obj2> B; typedef thread_specific_ptr<int> C; volatile int turn = 0; bool first = chance(50), third = chance(30); int mode = vt_rnd(3);
    auto add = [&](bool c) { Quiet q; ++made; if (c) ++expect_custom; vt_count("values_set", 1); };
    auto use = [&](int kind, bool last) { if (kind == 0) { A* p = (A*)(void*)mem; VT_CHECK(!p->get(), "reuse", "old value seen"); add(false); p->reset(new Obj(n)); if (!last || mode == 0) p->reset(); else if (mode == 1) { Obj* o = p->release(); delete o; } }
      else if (kind == 1) { B* p = (B*)(void*)mem; VT_CHECK(!p->get(), "reuse", "old value seen"); add(true); p->reset(new Obj2(n)); if (!last || mode == 0) p->reset(); else if (mode == 1) { Obj2* o = p->release(); custom(o); } }
      else { C* p = (C*)(void*)mem; VT_CHECK(!p->get(), "reuse", "old value seen"); static int x; p->reset(&x); if (chance(50)) p->reset(); else p->release(); } };
    auto make = [&](int kind) { if (kind == 0) new (mem) A; else if (kind == 1) new (mem) B(&custom); else new (mem) C((void (*)(int*))0); }; auto kill = [&](int kind) { if (kind == 0) ((A*)(void*)mem)->~A(); else if (kind == 1) ((B*)(void*)mem)->~B(); else ((C*)(void*)mem)->~C(); };
    int k1 = third ? 2 : first, k2 = third ? (int)first : !first; make(k1);
    pthread_mutex_t mx; pthread_mutex_init(&mx, 0); auto wait = [&](int v) { for (;;) { pthread_mutex_lock(&mx); bool ok = turn >= v; pthread_mutex_unlock(&mx); if (ok) return; vt_sleep(1000); } }; auto pass = [&] { pthread_mutex_lock(&mx); turn = turn + 1; pthread_mutex_unlock(&mx); };
    thread t([&] { use(k1, false); pass(); wait(2); use(k2, true); }); wait(1); kill(k1); make(k2); pass(); t.join(); pthread_mutex_destroy(&mx);
    { Quiet q; VT_CHECK(*n == made && *g_custom == expect_custom, "leaked", "%d values set, %d cleaned up, %d of them by the custom function instead of %d", made, *n, *g_custom, expect_custom); } kill(k2); }
  delete mem; delete n; delete g_custom; }
// setting a value fails for lack of memory: nothing changes
SCENARIO(no_memory, F_FAULT) {
  W = new World; for (int i = 0; i < NP; ++i) P[i] = make_ptr(i, 0);
  auto body = [] { bool had = chance(50); Val* old = 0; if (had) { old = mk(0, 0); P[0]->reset(old); } Val* v = mk(1, 0); bool threw = false; vt_fail_new(1 + vt_rnd(3)); try { P[1]->reset(v); } catch (std::bad_alloc&) { threw = true; } vt_fail_new(0);
    if (threw) { vt_count("allocation_failures", 1); VT_CHECK(P[1]->get() == 0, "nomem", "a failed set left a value"); { Quiet q; VT_CHECK(!v->cleaned, "nomem", "a failed set cleaned up the value"); } if (chance(50)) P[1]->reset(v); else { Quiet q; v->released = 1; } } else VT_CHECK(P[1]->get() == v, "get", "value not set"); VT_CHECK(P[0]->get() == old, "get", "another pointer changed"); };
  if (chance(50)) { thread t(body); t.join(); } else { Par p; p.go(body); p.join(); } for (int i = 0; i < NP; ++i) { TP* x = P[i]; P[i] = 0; delete x; } finish(true); }
