// C15: exit-time actions run exactly once, in the exiting thread, at its end.
#include "h.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/condition_variable.hpp>
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
#define SIG(R) R()
#else
#define SIG(R) R
#endif
using namespace boost;
// The end of a thread as its observer sees it.
struct End { int tid; bool fn_done, tss_done; int tss_n, late_reg, late_run; bool late; End() : tid(-1), fn_done(false), tss_done(false), tss_n(0), late_reg(0), late_run(0), late(false) {} };
struct Late { End* e; void operator()() const { Quiet q; VT_CHECK(vt_tid() == e->tid && e->fn_done, "wrong-thread", "an exit function registered by a cleanup ran in thread %d, not %d", vt_tid(), e->tid); e->late_run++; vt_count("registered_by_cleanup", 1); } };
struct Tss { End* e; bool replaced; Tss(End* x) : e(x), replaced(false) {} ~Tss() { vt_point(); if (e->late && e->late_reg < 3 && chance(30)) { { Quiet q; e->late_reg++; } this_thread::at_thread_exit(Late{ e }); } Quiet q; VT_CHECK(e->tid == vt_tid(), "wrong-thread", "thread-specific value cleaned up by another thread"); if (!replaced) e->tss_done = true; e->tss_n++; } };
static thread_specific_ptr<Tss>* tp;
static void begin(End* e) { { Quiet q; e->tid = vt_tid(); } tp->reset(new Tss(e)); }
static void ended(End* e, const char* what) { Quiet q; VT_CHECK(e->fn_done, "early", "%s before the thread function had ended", what); VT_CHECK(e->tss_done, "early", "%s before the thread-specific values were cleaned up", what); }
// runs a body in a library thread (handle kept, joined at the end, or detached) or in a plain thread
enum How { KEPT, DETACHED, RAW, N_HOW };
inline How some_how() { How h = (How)vt_rnd(N_HOW); return h == DETACHED && !vt_virtual() ? KEPT : h; }
struct Runner { thread* t; Par p; How how; template<class F> Runner(How h, F f) : t(0), how(h) { if (h == RAW) p.go(f); else if (h == DETACHED) { thread(f).detach(); } else t = new thread(f); } void finish() { if (t) { t->join(); delete t; t = 0; } if (how == RAW) p.join(); } };

// functions registered for the exit
struct Fn { int* live; int* runs; End* e; int depth; bool tss; Fn(int* l, int* r, End* x, int d, bool t) : live(l), runs(r), e(x), depth(d), tss(t) { Quiet q; ++*live; } Fn(Fn const& o) : live(o.live), runs(o.runs), e(o.e), depth(o.depth), tss(o.tss) { Quiet q; ++*live; } ~Fn() { Quiet q; --*live; }
  void operator()() { { Quiet q; VT_CHECK(vt_tid() == e->tid, "wrong-thread", "an exit function of thread %d ran in thread %d", e->tid, vt_tid()); VT_CHECK(e->fn_done, "early", "an exit function ran before the thread function had ended"); VT_CHECK(!e->tss_done, "order", "an exit function ran after the thread-specific cleanup"); ++*runs; vt_count("exit_functions_run", 1); }
    VT_CHECK(tp->get() && tp->get()->e == e, "order", "an exit function does not see the thread's values"); if (depth > 0 && chance(50)) { this_thread::at_thread_exit(Fn(live, runs + 1, e, (depth - 1) % 3, false)); vt_count("registered_while_exiting", 1); } if (tss) { if (tp->get()) tp->get()->replaced = true; tp->reset(new Tss(e)); } } };
SCENARIO(callbacks, F_NATIVE | F_HOT) {
  tp = new thread_specific_ptr<Tss>; int nt = 1 + vt_rnd(3); struct S { End e; int live; int runs[8]; int n; S() : live(0), n(0) { memset(runs, 0, sizeof runs); } }; S* s = new S[nt]; std::vector<Runner*> r; bool det = false;
  for (int i = 0; i < nt; ++i) { S* x = &s[i]; How h = some_how(); det = det || h == DETACHED; bool intr = chance(20) && h != RAW; x->n = vt_rnd(4); x->e.late = true; r.push_back(new Runner(h, [=] { begin(&x->e); for (int k = 0; k < x->n; ++k) { if (chance(50)) this_thread::at_thread_exit(Fn(&x->live, x->runs, &x->e, 3, chance(20))); else { Fn f(&x->live, x->runs, &x->e, 3, false); this_thread::at_thread_exit(f); } vt_point(); } struct Mark { End* e; ~Mark() { Quiet q; e->fn_done = true; } } m = { &x->e }; if (intr) throw thread_interrupted(); })); }
  for (int i = 0; i < nt; ++i) { r[i]->finish(); delete r[i]; } { Quiet q; std::vector<Runner*>().swap(r); }
  if (det) { for (int k = 0; k < 5000; ++k) { bool all = true; { Quiet q; for (int i = 0; i < nt; ++i) all = all && s[i].e.fn_done && s[i].runs[0] == s[i].n && s[i].live == 0 && s[i].e.tss_done && s[i].e.late_run == s[i].e.late_reg; } if (all) break; vt_sleep(50000); } vt_settle(); vt_settle(); }
  { Quiet q; for (int i = 0; i < nt; ++i) { VT_CHECK(s[i].runs[0] == s[i].n, "count", "%d exit functions registered, %d runs", s[i].n, s[i].runs[0]); VT_CHECK(s[i].e.late_reg == s[i].e.late_run, "count", "%d exit functions registered by cleanups, %d runs", s[i].e.late_reg, s[i].e.late_run); VT_CHECK(s[i].live == 0, "copies", "%d copies of exit functions survive", s[i].live); } } NoRace nr; delete tp; delete[] s; }

// notify_all_at_thread_exit: the mutex is released and the waiters woken at the exit, whoever holds the thread's handle
SCENARIO(notify, F_NATIVE | F_HOT) {
  tp = new thread_specific_ptr<Tss>; struct S { mutex m; condition_variable cv; bool ready; End e; Pay p; S() : ready(false) {} }; S* s = new S; int nw = 1 + vt_rnd(3); How how = some_how(); bool two = chance(20); S* s2 = two ? new S : 0; bool tss = chance(80);
  Par w; auto waiter = [=](S* x) { bool timed = chance(30); unique_lock<mutex> lk(x->m); while (!x->ready) { if (timed) x->cv.wait_for(lk, chrono::milliseconds(20)); else x->cv.wait(lk); } VT_CHECK(x->p.ok() && x->p.a >= 1, "visibility", "the thread's work is not visible"); { Quiet q; VT_CHECK(s->e.fn_done, "early", "the mutex handed to notify_all_at_thread_exit was free before the thread function had ended"); if (tss) VT_CHECK(s->e.tss_done, "early", "the mutex handed over was free before the thread-specific cleanup"); } x->p.bump(); vt_count("woken_at_exit", 1); };
  for (int i = 0; i < nw; ++i) w.go([=] { waiter(s); }); if (two) w.go([=] { waiter(s2); }); if (chance(50)) vt_sleep(1000);
  Runner r(how, [=] { { Quiet q; s->e.tid = vt_tid(); } if (tss) begin(&s->e); { unique_lock<mutex> lk(s->m); s->p.bump(); s->ready = true; notify_all_at_thread_exit(s->cv, boost::move(lk)); VT_CHECK(!lk.owns_lock(), "lock", "the lock was not handed over"); } if (two) { unique_lock<mutex> lk(s2->m); s2->p.bump(); s2->ready = true; notify_all_at_thread_exit(s2->cv, boost::move(lk)); } if (chance(50)) vt_sleep(1000); Quiet q; s->e.fn_done = true; });
  w.join(); VT_CHECK(s->m.try_lock(), "unlocked", "the mutex is still locked"); s->m.unlock(); r.finish(); vt_settle(); vt_settle(); NoRace nr; delete s; delete s2; delete tp; }

// results set at thread exit
template<class F> static void observe(F& f, End* e, int how) { switch (how) { case 0: f.wait(); break; case 1: while (f.wait_for(chrono::milliseconds(10)) != future_status::ready) {} break; case 2: while (!f.is_ready()) vt_sleep(20000); break; default: return; } ended(e, "the result was ready"); }
SCENARIO(results, F_NATIVE | F_HOT) {
  tp = new thread_specific_ptr<Tss>; End* e = new End; int kind = vt_rnd(6); How how = some_how(); int nobs = 1 + vt_rnd(2); 
  struct S { promise<int> p; promise<void> pv; promise<int&> pr; promise<std::string> ps; boost::packaged_task<SIG(int)>* pt; int target; S() : pt(0), target(7) {} }; S* s = new S; bool early = chance(30);
  shared_future<int> f; shared_future<void> fv; shared_future<int&> fr; shared_future<std::string> fs; if (kind == 4 || kind == 5) { s->pt = new boost::packaged_task<SIG(int)>([kind]() -> int { if (kind == 5) throw 5; return 4; }); f = s->pt->get_future().share(); } else { f = s->p.get_future().share(); fv = s->pv.get_future().share(); fr = s->pr.get_future().share(); fs = s->ps.get_future().share(); }
  Par w; for (int i = 0; i < nobs; ++i) { int o = vt_rnd(4); w.go([=]() mutable { try { switch (kind) { case 0: observe(f, e, o); VT_CHECK(f.get() == 3, "value", "wrong value"); break; case 1: observe(fv, e, o); fv.get(); break; case 2: observe(fr, e, o); VT_CHECK(&fr.get() == &s->target, "value", "wrong reference"); break; case 3: observe(f, e, o); f.get(); vt_fail("value", "no exception"); break; case 4: observe(f, e, o); VT_CHECK(f.get() == 4, "value", "wrong value"); break; case 5: observe(f, e, o); f.get(); vt_fail("value", "no exception"); break; } } catch (int x) { VT_CHECK(kind == 5 && x == 5, "value", "wrong exception"); } catch (std::runtime_error& x) { VT_CHECK(kind == 3 && !strcmp(x.what(), "later"), "value", "wrong exception %s", x.what()); } ended(e, "the result was delivered"); vt_count("results_at_exit", 1); }); }
  Runner r(how, [=] { begin(e); switch (kind) { case 0: s->p.set_value_at_thread_exit(3); if (chance(30)) { bool th = false; try { if (chance(50)) s->p.set_value_at_thread_exit(9); else s->p.set_value(9); } catch (promise_already_satisfied&) { th = true; } VT_CHECK(th, "second", "a second setting was accepted after set_value_at_thread_exit"); vt_count("second_refused", 1); } break;
      case 1: s->pv.set_value_at_thread_exit(); if (chance(30)) { bool th = false; try { if (chance(50)) s->pv.set_value_at_thread_exit(); else s->pv.set_value(); } catch (promise_already_satisfied&) { th = true; } VT_CHECK(th, "second", "a second setting was accepted after set_value_at_thread_exit"); } break;
      case 2: s->pr.set_value_at_thread_exit(s->target); break; case 3: s->p.set_exception_at_thread_exit(boost::copy_exception(std::runtime_error("later"))); if (chance(30)) { bool th = false; try { if (chance(50)) s->p.set_exception_at_thread_exit(boost::copy_exception(std::runtime_error("other"))); else s->p.set_value(9); } catch (promise_already_satisfied&) { th = true; } VT_CHECK(th, "second", "a second setting was accepted after set_exception_at_thread_exit"); } break;
      case 4: case 5: s->pt->make_ready_at_thread_exit(); if (chance(30)) { bool th = false; try { if (chance(50)) s->pt->make_ready_at_thread_exit(); else (*s->pt)(); } catch (task_already_started&) { th = true; } VT_CHECK(th, "second", "a task ran twice"); } break; }
    if (early) { if (kind < 4) { NoRace n; promise<int> x; x = boost::move(s->p); promise<void> y; y = boost::move(s->pv); promise<int&> z; z = boost::move(s->pr); } } VT_CHECK(kind == 1 ? !fv.is_ready() : kind == 2 ? !fr.is_ready() : !f.is_ready(), "early", "the result is ready before the end of the thread"); vt_point(); Quiet q; e->fn_done = true; });
  w.join(); r.finish(); vt_settle(); vt_settle(); NoRace nr; f = shared_future<int>(); fv = shared_future<void>(); fr = shared_future<int&>(); fs = shared_future<std::string>(); delete s->pt; delete s; delete e; delete tp; }

#ifdef BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
// what becomes ready at the exit has continuations that defer more to the exit
SCENARIO(chained, F_NATIVE) {
  enum { N = 6 }; tp = new thread_specific_ptr<Tss>; struct S { End e; promise<int> p[N]; shared_future<int> f[N]; int conts, fns, want_fns, next; S() : conts(0), fns(0), want_fns(0), next(0) {} }; S* s = new S; How how = KEPT; if (chance(50)) how = RAW; int first = 1 + vt_rnd(3); s->next = first;
  typedef BOOST_THREAD_FUTURE<int> FI; std::vector<FI> r; for (int i = 0; i < N; ++i) { s->f[i] = s->p[i].get_future().share(); r.push_back(s->f[i].then(boost::launch::sync, [=](shared_future<int> f) { VT_CHECK(f.is_ready() && f.get() == i, "value", "a continuation at exit got a wrong value"); bool more; { Quiet q; VT_CHECK(vt_tid() == s->e.tid && s->e.fn_done, "wrong-thread", "a continuation of a result set at exit ran before it"); ++s->conts; more = s->next < N; }
      while (s->next < N) { int k; { Quiet q; k = s->next++; } s->p[k].set_value_at_thread_exit(k); vt_count("set_while_exiting", 1); if (chance(50)) break; }
      if (chance(30)) { { Quiet q; ++s->want_fns; } this_thread::at_thread_exit([=] { vt_point(); Quiet q; VT_CHECK(vt_tid() == s->e.tid, "wrong-thread", "an exit function ran in another thread"); ++s->fns; vt_count("registered_while_exiting", 1); }); } (void)more; return i + 100; })); }
  Runner x(how, [=] { begin(&s->e); for (int i = 0; i < first; ++i) s->p[i].set_value_at_thread_exit(i); vt_point(); for (int i = 0; i < N; ++i) VT_CHECK(!s->f[i].is_ready(), "early", "ready before the end of the thread"); Quiet q; s->e.fn_done = true; });
  for (int i = 0; i < N; ++i) { VT_CHECK(r[i].get() == i + 100, "value", "wrong result of a continuation"); vt_count("results_at_exit", 1); } x.finish(); { Quiet q; VT_CHECK(s->conts == N, "count", "%d continuations ran", s->conts); VT_CHECK(s->fns == s->want_fns, "count", "%d exit functions registered by continuations, %d runs", s->want_fns, s->fns); } vt_settle(); NoRace nr; { std::vector<FI> z; r.swap(z); } delete s; delete tp; }
#endif
