// C13: interruption is delivered once, at an enabled interruption point, and not lost.
#include "t.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/condition.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/thread_guard.hpp>
#ifdef V2M
#include <boost/thread/v2/shared_mutex.hpp>
#else
#include <boost/thread/shared_mutex.hpp>
#endif
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
using namespace boost;
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
typedef int PTSIG();
#else
typedef int PTSIG;
#endif
static const chrono::hours FAR(100000);

// Everything a target thread can wait on. Nothing of it is ever signalled unless the scenario says so.
struct World {
  mutex m; condition_variable cv; condition_variable_any cva; recursive_mutex rm; promise<int> p; shared_future<int> f; boost::barrier b; latch l; sync_queue<int> q; sync_bounded_queue<int> bq; mutex hold; boost::shared_mutex sm; thread* other;
  bool stop; promise<int> pa[2]; 
  World() : b(2), l(1), bq(1), other(0), stop(false) { f = p.get_future().share(); bq.push_back(1); }
};
static void settle_value(World& w) { w.p.set_value(1); }
// the kinds of waiting that would last for ever
enum { K_POINT, K_CV, K_CVP, K_CV_UNTIL, K_CV_FOR, K_CVA, K_CVA_FOR, K_SLEEP_FOR, K_SLEEP_UNTIL, K_JOIN, K_JOIN_FOR, K_FUT, K_FUTGET, K_FUT_FOR, K_LATCH, K_BARRIER, K_PULL, K_BPUSH, K_SLEEP, K_TIMED_JOIN, K_CVA_REC, K_SLEEP_REAL, K_CVA_UNTIL, K_CVA_REAL, K_CV_REAL, K_CVA_SH, K_N };
static const char* kn[] = { "interruption_point", "condition wait", "condition wait with predicate", "condition wait_until", "condition wait_for", "any-condition wait", "any-condition wait_for", "sleep_for", "sleep_until", "join", "try_join_for", "future wait", "future get", "future wait_for", "latch wait", "barrier wait", "queue pull", "bounded queue push", "sleep", "timed_join", "any-condition wait with a recursive mutex", "sleep_until the system clock", "any-condition wait_until", "any-condition wait_until the system clock", "condition wait_until the system clock", "any-condition wait_for with a shared lock" };
static void op(World& w, int k, bool once = false) {
  do { switch (k) {   // loops: a spurious return is no delivery
    case K_POINT: this_thread::interruption_point(); vt_sleep(1000); break;
    case K_CV: { unique_lock<mutex> lk(w.m); w.cv.wait(lk); break; }
    case K_CVP: { unique_lock<mutex> lk(w.m); w.cv.wait(lk, [&] { return w.stop; }); vt_fail("lost", "predicate wait ended for no reason"); break; }
    case K_CV_UNTIL: { unique_lock<mutex> lk(w.m); w.cv.wait_until(lk, chrono::steady_clock::now() + FAR); break; }
    case K_CV_FOR: { unique_lock<mutex> lk(w.m); w.cv.wait_for(lk, FAR); break; }
    case K_CVA: { unique_lock<mutex> lk(w.m); w.cva.wait(lk); break; }
    case K_CVA_FOR: { unique_lock<mutex> lk(w.m); w.cva.wait_for(lk, FAR); break; }
    case K_CVA_UNTIL: { unique_lock<mutex> lk(w.m); w.cva.wait_until(lk, chrono::steady_clock::now() + FAR); break; }
    case K_CVA_REAL: { unique_lock<mutex> lk(w.m); w.cva.wait_until(lk, chrono::system_clock::now() + FAR); break; }
    case K_CV_REAL: { unique_lock<mutex> lk(w.m); w.cv.wait_until(lk, chrono::system_clock::now() + FAR); break; }
    case K_CVA_SH: { shared_lock<boost::shared_mutex> lk(w.sm); w.cva.wait_for(lk, FAR); break; }
    case K_CVA_REC: { unique_lock<recursive_mutex> lk(w.rm); w.cva.wait(lk); break; }
    case K_SLEEP_FOR: this_thread::sleep_for(FAR); break;
    case K_SLEEP_UNTIL: this_thread::sleep_until(chrono::steady_clock::now() + FAR); break;
    case K_SLEEP_REAL: this_thread::sleep_until(chrono::system_clock::now() + FAR); break;
    case K_JOIN: w.other->join(); vt_fail("lost", "join of a running thread returned"); break;
    case K_JOIN_FOR: w.other->try_join_for(FAR); break;
    case K_FUT: w.f.wait(); vt_fail("lost", "wait on an unset future returned"); break;
    case K_FUTGET: w.f.get(); vt_fail("lost", "get on an unset future returned"); break;
    case K_FUT_FOR: w.f.wait_for(FAR); break;
    case K_LATCH: w.l.wait(); vt_fail("lost", "wait on a closed latch returned"); break;
    case K_BARRIER: w.b.wait(); vt_fail("lost", "wait on an incomplete barrier returned"); break;
    case K_PULL: w.q.pull(); vt_fail("lost", "pull from an empty queue returned"); break;
    case K_BPUSH: w.bq.push_back(2); vt_fail("lost", "push to a full queue returned"); break;
#ifdef BOOST_THREAD_USES_DATETIME
    case K_SLEEP: this_thread::sleep(posix_time::hours(1000)); break;
    case K_TIMED_JOIN: w.other->timed_join(posix_time::hours(1000)); break;
#else
    case K_SLEEP: this_thread::sleep_for(FAR); break;
    case K_TIMED_JOIN: w.other->try_join_for(FAR); break;
#endif
  } } while (!once);
}
// Every kind of interruption point is ended by an interruption arriving at any moment; the thing waited on stays usable.
SCENARIO(delivered, F_NATIVE | F_HOT) {
  vt_no_jump(1); World* w = new World; bool done_other = false; int k = vt_rnd(K_N); int n = 1 + vt_rnd(3); if (k == K_BARRIER) n = 1; if (k == K_JOIN || k == K_JOIN_FOR || k == K_TIMED_JOIN) { w->hold.lock(); w->other = new thread([=] { this_thread::disable_interruption d; w->hold.lock(); w->hold.unlock(); }); }
  int* got = new int(0); bool nested = chance(30);
  thread t([=] { 
    for (int i = 0; i < n; ++i) { bool th = false; 
      try { if (nested) { this_thread::disable_interruption d; { this_thread::restore_interruption r(d); op(*w, k); } } else op(*w, k); } catch (thread_interrupted&) { th = true; }
      { Quiet q; vt_count("interruptions_delivered", 1); ++*got; VT_CHECK(th, "lost", "%s ended without an interruption", kn[k]); }
      VT_CHECK(this_thread::interruption_enabled(), "enabled", "delivery changed the enabled state"); } });
  for (int i = 0; i < n; ++i) { switch (vt_rnd(4)) { case 0: break; case 1: vt_point(); break; case 2: vt_sleep(vt_rnd(5) * 1000); break; case 3: vt_settle(); break; }
    t.interrupt(); if (i + 1 < n || chance(50)) for (int j = 0; j < 100000; ++j) { { Quiet q; if (*got > i) break; } vt_sleep(500); } { Quiet q; VT_CHECK(*got <= i + 1, "twice", "one request, %d interruptions", *got); } }
  t.join(); { Quiet q; VT_CHECK(*got == n, "twice", "%d interruptions for %d requests", *got, n); } VT_CHECK(!t.interruption_requested(), "flag", "a request survives its delivery");
  // still usable
  switch (k) { case K_CV: case K_CVP: case K_CV_UNTIL: case K_CV_FOR: case K_CVA: case K_CVA_FOR: case K_CVA_UNTIL: case K_CVA_REAL: case K_CV_REAL: { bool any = k == K_CVA || k == K_CVA_FOR || k == K_CVA_UNTIL || k == K_CVA_REAL; bool* go = new bool(false); thread u([=] { unique_lock<mutex> lk(w->m); while (!*go) { if (any) w->cva.wait(lk); else w->cv.wait(lk); } }); vt_point(); { lock_guard<mutex> g(w->m); *go = true; } if (any) w->cva.notify_one(); else w->cv.notify_one(); u.join(); delete go; break; }
    case K_CVA_SH: { VT_CHECK(w->sm.try_lock(), "unusable", "the shared mutex stays locked"); w->sm.unlock(); break; }
    case K_CVA_REC: { VT_CHECK(w->rm.try_lock(), "unusable", "the recursive mutex stays locked"); w->rm.unlock(); break; }
    case K_JOIN: case K_JOIN_FOR: case K_TIMED_JOIN: w->hold.unlock(); VT_CHECK(w->other->joinable(), "unusable", "thread lost"); w->other->join(); delete w->other; done_other = true; break;
    case K_FUT: case K_FUTGET: case K_FUT_FOR: { thread u([=] { VT_CHECK(w->f.get() == 1, "unusable", "wrong value"); }); vt_point(); settle_value(*w); u.join(); break; }
    case K_LATCH: { thread u([=] { w->l.wait(); }); vt_point(); w->l.count_down(); u.join(); break; }
    case K_PULL: { thread u([=] { VT_CHECK(w->q.pull() == 5, "unusable", "wrong element"); }); vt_point(); w->q.push(5); u.join(); VT_CHECK(w->q.empty(), "unusable", "not empty"); break; }
    case K_BPUSH: { VT_CHECK(w->bq.full(), "unusable", "not full"); thread u([=] { w->bq.push_back(3); }); vt_point(); int x = w->bq.pull_front(); VT_CHECK(x == 1, "unusable", "got %d", x); u.join(); x = w->bq.pull_front(); VT_CHECK(x == 3, "unusable", "got %d", x); VT_CHECK(w->bq.empty(), "unusable", "not empty"); break; }
    default: break; }
  vt_outcome(k * 4 + n); delete w; delete got; }

// With nobody notifying, no timeout and no spurious wake-up, the very wait the interruption ends reports it (and every wait returns owning its lock).
SCENARIO(single_wait, F_NOSPUR | F_HOT) {
  vt_no_jump(1); World* w = new World; int k = 1 + vt_rnd(K_N - 1); if (k == K_JOIN || k == K_JOIN_FOR || k == K_TIMED_JOIN) { w->hold.lock(); w->other = new thread([=] { this_thread::disable_interruption d; w->hold.lock(); w->hold.unlock(); }); }
  int* in = new int(0); thread t([=] { this_thread::disable_interruption d; { Quiet q; ++*in; } bool th = false; try { this_thread::restore_interruption r(d); op(*w, k, true); } catch (thread_interrupted&) { th = true; } { Quiet q; vt_count("interruptions_delivered", 1); } VT_CHECK(th, "lost", "%s was interrupted and returned normally", kn[k]); });
  switch (vt_rnd(3)) { case 0: break; case 1: vt_point(); break; case 2: vt_settle(); break; } t.interrupt(); t.join();
  VT_CHECK(w->m.try_lock(), "unusable", "mutex left locked"); w->m.unlock(); if (w->other) { w->hold.unlock(); w->other->join(); delete w->other; } vt_outcome(k); delete w; delete in; }

// While disabled nothing is delivered and nothing is lost.
static void brief(World& w, int k) { chrono::milliseconds d(1 + vt_rnd(20)); switch (k) {
    case 0: this_thread::interruption_point(); break; case 1: { unique_lock<mutex> lk(w.m); w.cv.wait_for(lk, d); break; } case 2: { unique_lock<mutex> lk(w.m); w.cv.wait_until(lk, chrono::system_clock::now() + d); break; }
    case 3: { unique_lock<mutex> lk(w.m); w.cva.wait_for(lk, d); break; } case 4: this_thread::sleep_for(d); break; case 5: this_thread::sleep_until(chrono::steady_clock::now() + d); break; case 6: { thread u([] { vt_sleep(5000); }); try { u.join(); } catch (...) { u.detach(); throw; } break; }
    case 7: { thread u([] { vt_sleep(5000); }); try { if (!u.try_join_for(d)) u.join(); } catch (...) { u.detach(); throw; } break; } case 8: w.f.wait_for(d); break; case 9: w.l.wait_for(d); break; case 10: { unique_lock<mutex> lk(w.m); w.cv.wait_for(lk, d, [] { return false; }); break; } 
    case 11: this_thread::no_interruption_point::sleep_for(d); break; default: { unique_lock<mutex> lk(w.m); w.cva.wait_until(lk, chrono::steady_clock::now() + d); break; } } }
SCENARIO(disabled, F_NATIVE) {
  World* w = new World; int* st = new int(0); int k = vt_rnd(13), depth = 1 + vt_rnd(3); int restores = vt_rnd(2);
  thread t([=] { { Quiet q; *st = 1; }
    struct Nest { static void go(World& w, int k, int depth, int restores, int* st) { VT_CHECK(this_thread::interruption_enabled() == (k < 0), "enabled", "wrong"); } };
    try { VT_CHECK(this_thread::interruption_enabled(), "enabled", "a new thread has interruption disabled");
      this_thread::disable_interruption d1; VT_CHECK(!this_thread::interruption_enabled(), "enabled", "not disabled");
      if (depth > 1) { this_thread::disable_interruption d2; VT_CHECK(!this_thread::interruption_enabled(), "enabled", "not disabled"); if (depth > 2) { this_thread::restore_interruption r(d2); VT_CHECK(!this_thread::interruption_enabled(), "enabled", "restoring an inner disable enabled interruption"); brief(*w, k); } VT_CHECK(!this_thread::interruption_enabled(), "enabled", "not disabled"); brief(*w, k); }
      VT_CHECK(!this_thread::interruption_enabled(), "enabled", "leaving a nested disable enabled interruption"); brief(*w, k);
      for (int i = 0; i < 10000; ++i) { { Quiet q; if (*st == 2) break; } vt_sleep(1000); }
      VT_CHECK(this_thread::interruption_requested(), "lost", "a request made while interruption is disabled is not seen"); brief(*w, vt_rnd(13)); VT_CHECK(this_thread::interruption_requested(), "lost", "a request was used up while interruption is disabled");
      if (restores) { bool th = false; try { this_thread::restore_interruption r(d1); VT_CHECK(this_thread::interruption_enabled(), "enabled", "not restored"); this_thread::interruption_point(); } catch (thread_interrupted&) { th = true; } VT_CHECK(th, "lost", "the request was lost while interruption was disabled"); VT_CHECK(!this_thread::interruption_enabled(), "enabled", "not disabled again after a restore"); brief(*w, k); vt_count("delivered_after_enable", 1); }
    } catch (thread_interrupted&) { vt_fail("disabled", "an interruption was delivered while disabled (%d)", k); }
    VT_CHECK(this_thread::interruption_enabled(), "enabled", "not enabled at the end");
    if (!restores) { bool th = false; try { this_thread::interruption_point(); } catch (thread_interrupted&) { th = true; } VT_CHECK(th, "lost", "the request was lost while interruption was disabled"); vt_count("delivered_after_enable", 1); }
    try { this_thread::interruption_point(); } catch (thread_interrupted&) { vt_fail("twice", "one request was delivered twice"); } });
  for (;;) { Quiet q; if (*st) break; vt_quiet(-1); vt_sleep(500); vt_quiet(1); } vt_sleep(vt_rnd(30) * 500); t.interrupt(); { Quiet q; *st = 2; } t.join(); delete w; delete st; }

// Request flag as a set/clear flag: every history of one thread and its interruptors is linearizable.
struct IOp { int kind; int res; };   // 0 interrupt, 1 point not delivered, 2 delivered, 3 requested() -> res, 4 maybe-checked op, not delivered
struct IModel { bool f; IModel() : f(false) {} bool apply(const IOp& o) { switch (o.kind) { case 0: f = true; return true; case 1: return !f; case 2: if (!f) return false; f = false; return true; case 3: return (o.res != 0) == f; } return true; } std::string hash() const { return f ? "1" : "0"; } };
SCENARIO(history, F_HOT) {
  World* w = new World; Hist<IOp>* h = new Hist<IOp>; int n = 3 + vt_rnd(5); volatile bool* end = new bool(false);
  thread t([=] { for (int i = 0; i < n; ++i) { int k = vt_rnd(15); bool dis = chance(20); bool en = !dis; IOp o = { 1, 0 }; if (k == 13) { o.kind = 3; size_t x = h->call(o); o.res = this_thread::interruption_requested(); h->ret(x, o); continue; }
      if (k == 14) { this_thread::no_interruption_point::sleep_for(chrono::milliseconds(1)); continue; }
      size_t x = h->call(o); bool th = false; try { if (dis) { this_thread::disable_interruption d; brief(*w, k); } else brief(*w, k); } catch (thread_interrupted&) { th = true; vt_count("interruptions_delivered", 1); }
      if (th) { VT_CHECK(en, "disabled", "an interruption was delivered while disabled"); o.kind = 2; } else o.kind = (!en || k == 6 || k == 7 || k == 11) ? 4 : 1; h->ret(x, o); } });
  Par p; for (int j = 0; j < 2; ++j) { int m = 1 + vt_rnd(3); bool see = chance(40); thread* tp = &t; p.go([=] { for (int i = 0; i < m; ++i) { vt_sleep(vt_rnd(5) * 3 * MS); IOp o = { 0, 0 }; size_t x = h->call(o); tp->interrupt(); h->ret(x, o); vt_count("interrupts", 1); if (see) { o.kind = 3; x = h->call(o); o.res = tp->interruption_requested(); h->ret(x, o); } } }); }
  p.join(); t.join(); { IOp o = { 3, 0 }; (void)o; }
  { Quiet q; Lin<IModel, IOp> l; l.h = h->h; if (!l.check(IModel())) { std::string s; for (size_t i = 0; i < h->h.size(); ++i) { char b[100]; snprintf(b, sizeof b, " t%d:%s%d[%llu,%llu]", h->h[i].tid, h->h[i].op.kind == 0 ? "interrupt" : h->h[i].op.kind == 1 ? "point-passed" : h->h[i].op.kind == 2 ? "DELIVERED" : h->h[i].op.kind == 3 ? "requested=" : "other", h->h[i].op.res, (unsigned long long)h->h[i].call, (unsigned long long)h->h[i].ret); s += b; } vt_fail("history", "requests and deliveries do not fit:%s", s.c_str()); } }
  delete w; delete h; delete end; }

// Interruption racing with the event waited for: one or the other, and nobody is left behind.
SCENARIO(race_event, F_NATIVE | F_HOT) {
  vt_no_jump(1); World* w = new World; int k = vt_rnd(6); int* res = new int(0); if (k == 3) w->bq.pull_front();
  thread t([=] { try { switch (k) { case 0: { unique_lock<mutex> lk(w->m); w->cv.wait(lk, [&] { return w->stop; }); break; } case 1: VT_CHECK(w->f.get() == 1, "value", "wrong"); break; case 2: VT_CHECK(w->q.pull() == 4, "value", "wrong"); break; case 3: w->bq.push_back(7); w->bq.push_back(8); break; case 4: w->l.wait(); break; case 5: { unique_lock<mutex> lk(w->m); while (!w->stop) w->cva.wait(lk); break; } } *res = 1; } catch (thread_interrupted&) { *res = 2; 
      if (k == 0 || k == 5) { w->m.lock(); w->m.unlock(); } } });
  Par p; p.go([=] { if (chance(50)) vt_sleep(vt_rnd(4) * 1000); switch (k) { case 0: { lock_guard<mutex> g(w->m); w->stop = true; w->cv.notify_one(); break; } case 1: w->p.set_value(1); break; case 2: w->q.push(4); break; case 3: { int x = 0; w->bq.wait_pull_front(x); break; } case 4: w->l.count_down(); break; case 5: { lock_guard<mutex> g(w->m); w->stop = true; w->cva.notify_one(); break; } } });
  if (chance(70)) { if (chance(50)) vt_sleep(vt_rnd(4) * 1000); t.interrupt(); }
  if (k == 3) { t.join(); w->bq.close(); } p.join(); t.join(); VT_CHECK(*res, "lost", "no result"); 
  if (k == 2) { if (*res == 2) VT_CHECK(w->q.size() == 1 && w->q.pull() == 4, "unusable", "an interrupted pull lost the element"); else VT_CHECK(w->q.empty(), "unusable", "not empty"); }
  vt_outcome(k * 4 + *res); delete w; delete res; }

// Not interruption points: a pending request must not get in the way.
SCENARIO(not_points, F_NATIVE) {
  World* w = new World; int* st = new int(0); bool* fin = new bool(false);
  thread t([=] { for (;;) { Quiet q; if (*st) break; vt_quiet(-1); vt_sleep(500); vt_quiet(1); }
    try { VT_CHECK(this_thread::interruption_requested(), "lost", "request not seen"); for (int i = 0; i < 3; ++i) switch (vt_rnd(12)) {
        case 0: { lock_guard<mutex> g(w->m); break; } case 1: { lock_guard<recursive_mutex> g(w->rm); break; } case 2: { unique_lock<mutex> g(w->m); w->cv.notify_all(); w->cva.notify_one(); break; } case 3: w->q.push(1); VT_CHECK(w->q.pull() == 1, "value", "wrong"); break;
        case 4: { promise<int> p; BOOST_THREAD_FUTURE<int> f(p.get_future()); p.set_value(3); break; } case 5: { boost::packaged_task<PTSIG> pt([] { return 1; }); BOOST_THREAD_FUTURE<int> f(pt.get_future()); pt(); VT_CHECK(f.get() == 1, "value", "wrong"); break; }
        case 6: this_thread::yield(); break; case 7: { thread u([] {}); u.detach(); break; } case 8: { thread_specific_ptr<int> p; p.reset(new int(1)); break; } case 9: { boost::lock(w->m, w->rm); w->m.unlock(); w->rm.unlock(); break; }
        case 10: this_thread::no_interruption_point::sleep_for(chrono::microseconds(100)); this_thread::no_interruption_point::sleep_until(chrono::steady_clock::now() + chrono::microseconds(100)); break; case 11: VT_CHECK(w->l.try_wait() == false, "value", "open"); w->l.count_down(); w->l.reset(1); break; }
      VT_CHECK(this_thread::interruption_requested(), "lost", "the request was used up by something that is no interruption point"); } catch (thread_interrupted&) { vt_fail("notpoint", "delivered where there is no interruption point"); }
    { Quiet q; *fin = true; } });
  t.interrupt(); if (chance(50)) t.interrupt(); { Quiet q; *st = 1; } t.join(); { Quiet q; VT_CHECK(*fin, "notpoint", "not finished"); } vt_sleep(20 * MS); NoRace nr; delete w; delete st; delete fin; }

// Locks of a shared mutex are no interruption points, contended or not.
// Several threads wait on the same object: the one interrupted is the one that gets it, and the others stay there until they are told.
SCENARIO(one_of_many, F_NATIVE | F_HOT) {
  vt_no_jump(1); struct S { mutex m; condition_variable cv; condition_variable_any cva; bool go; int in, intr, out; promise<int> p; shared_future<int> f; latch l; barrier b; sync_queue<int> q; S() : go(false), in(0), intr(0), out(0), l(1), b(5) { f = p.get_future().share(); } }; S* s = new S; int k = vt_rnd(6), n = 2 + vt_rnd(3); thread* t[4];
  for (int i = 0; i < n; ++i) { t[i] = new thread([=] { bool th = false; try { switch (k) { case 0: { unique_lock<mutex> lk(s->m); s->in++; while (!s->go) s->cv.wait(lk); break; } case 1: { unique_lock<mutex> lk(s->m); s->in++; while (!s->go) s->cva.wait(lk); break; } case 2: { unique_lock<mutex> lk(s->m); s->in++; s->cv.wait_for(lk, chrono::hours(1000), [=] { return s->go; }); break; } case 3: s->f.wait(); break; case 4: s->l.wait(); break; default: s->q.pull(); } } catch (thread_interrupted&) { th = true; } Quiet q; if (th) s->intr++; else s->out++; }); if (chance(50)) vt_settle(); }
  int who[4], m = 0; { Quiet q; for (int i = 0; i < n; ++i) if (chance(50) && m < n - 1) who[m++] = i; } for (int i = m; i-- > 0;) { t[who[i]]->interrupt(); if (chance(50)) { t[who[i]]->join(); Quiet q; VT_CHECK(s->intr >= 1, "lost", "an interrupted waiter ended without its interruption"); } }
  for (int i = 0; i < m; ++i) if (t[who[i]]->joinable()) t[who[i]]->join(); { Quiet q; VT_CHECK(s->intr == m && s->out == 0, "lost", "%d of %d waiters were interrupted: %d left by interruption, %d otherwise", m, n, s->intr, s->out); }
  switch (k) { case 0: case 1: case 2: { { lock_guard<mutex> g(s->m); s->go = true; } s->cv.notify_all(); s->cva.notify_all(); break; } case 3: s->p.set_value(1); break; case 4: s->l.count_down(); break; default: for (int i = 0; i < n - m; ++i) s->q.push(1); }
  for (int i = 0; i < n; ++i) { if (t[i]->joinable()) t[i]->join(); delete t[i]; } { Quiet q; VT_CHECK(s->intr == m && s->out == n - m, "twice", "interruptions went to others: %d of %d", s->intr, m); vt_count("interruptions_delivered", m); } delete s; }
SCENARIO(shared_mutex_locks, F_HOT) {
  vt_no_jump(1); boost::shared_mutex* sm = new boost::shared_mutex; int hold = vt_rnd(2), want = vt_rnd(4); bool* fin = new bool(false); if (hold) sm->lock(); else sm->lock_shared();
  thread t([=] { try { switch (want) { case 0: sm->lock(); sm->unlock(); break; case 1: sm->lock_shared(); sm->unlock_shared(); break; case 2: if (sm->try_lock_for(FAR)) sm->unlock(); break; case 3: if (sm->try_lock_shared_until(chrono::steady_clock::now() + FAR)) sm->unlock_shared(); break; } } catch (thread_interrupted&) { vt_count("lock_interrupted", 1); } { Quiet q; *fin = true; } });
  vt_sleep(vt_rnd(3) * 1000); t.interrupt(); if (chance(50)) vt_settle(); if (hold) sm->unlock(); else sm->unlock_shared(); t.join(); VT_CHECK(sm->try_lock(), "unusable", "after an interrupt during %s, the shared mutex is no longer free", want == 0 ? "lock" : want == 1 ? "lock_shared" : want == 2 ? "try_lock_for" : "try_lock_shared_until"); sm->unlock(); VT_CHECK(sm->try_lock_shared(), "unusable", "the shared mutex cannot be shared"); sm->unlock_shared(); delete sm; delete fin; }
SCENARIO(upgrade_locks, F_HOT) {
  vt_no_jump(1); boost::upgrade_mutex* sm = new boost::upgrade_mutex; int want = vt_rnd(5); int hold = vt_rnd(3); if (want >= 3) hold = 0; 
  if (hold == 0) sm->lock_shared(); else if (hold == 1) sm->lock(); else sm->lock_upgrade();
  thread t([=] { bool up = false; try { switch (want) { case 0: sm->lock(); sm->unlock(); break; case 1: sm->lock_upgrade(); sm->unlock_upgrade(); break; case 2: sm->lock_shared(); sm->unlock_shared(); break; case 3: sm->lock_upgrade(); up = true; sm->unlock_upgrade_and_lock(); up = false; sm->unlock(); break; case 4: sm->lock_upgrade(); up = true; if (sm->try_unlock_upgrade_and_lock_for(FAR)) { up = false; sm->unlock(); } else sm->unlock_upgrade(); up = false; break; } } catch (thread_interrupted&) { vt_count("lock_interrupted", 1); if (up) sm->unlock_upgrade(); } });
  vt_sleep(vt_rnd(3) * 1000); t.interrupt(); if (chance(50)) vt_settle(); if (hold == 0) sm->unlock_shared(); else if (hold == 1) sm->unlock(); else sm->unlock_upgrade(); t.join(); VT_CHECK(sm->try_lock(), "unusable", "after an interrupt during operation %d, the upgrade mutex is no longer free", want); sm->unlock(); delete sm; }

// Interrupted at the end, after the end, and nothing at all.
SCENARIO(exit_race, F_NATIVE) {
  int how = vt_rnd(4); Pay* p = new Pay; int* cb = new int(0); thread_specific_ptr<Pay>* ts = new thread_specific_ptr<Pay>(+[](Pay*) { }); int* ended = new int(0);
  thread t([=] { this_thread::at_thread_exit([=] { ++*cb; try { this_thread::interruption_point(); } catch (thread_interrupted&) { } }); ts->reset(p); if (how == 0) { for (int i = 0; i < 5; ++i) { this_thread::interruption_point(); vt_sleep(1000); } } else if (how == 1) vt_sleep(vt_rnd(3) * 1000); else if (how == 2) { this_thread::disable_interruption d; vt_sleep(2000); } p->bump(); *ended = 1; });
  Par q; if (chance(40)) { thread* tp = &t; q.go([=] { tp->interrupt(); }); } vt_sleep(vt_rnd(6) * 1000); t.interrupt(); if (chance(50)) t.interrupt(); q.join(); t.join(); VT_CHECK(*cb == 1, "exit", "%d runs of the exit function of an interrupted thread", *cb); VT_CHECK(*ended || how == 0, "exit", "a thread without interruption points ended early"); t.interrupt(); VT_CHECK(!t.interruption_requested(), "exit", "requested on no thread"); thread none; none.interrupt(); VT_CHECK(!none.interruption_requested(), "exit", "requested");
  thread u([] { try { this_thread::interruption_point(); } catch (thread_interrupted&) { vt_fail("stray", "an interruption reached another thread"); } }); u.join(); delete p; delete cb; delete ts; delete ended; vt_count("interrupts", 1); }
// A thread not created by the library is never interrupted; requests only reach the thread they are made to.
SCENARIO(externals, F_NATIVE) {
  Par p; World* w = new World; bool data = chance(50);
  p.go([=] { if (data) { this_thread::at_thread_exit([] {}); } try { VT_CHECK(!this_thread::interruption_enabled(), "external", "interruption is enabled in a thread not started by the library"); { this_thread::disable_interruption d; { this_thread::restore_interruption r(d); VT_CHECK(!this_thread::interruption_enabled(), "external", "enabled"); } } VT_CHECK(!this_thread::interruption_enabled() && !this_thread::interruption_requested(), "external", "enabled"); brief(*w, vt_rnd(13)); this_thread::interruption_point(); } catch (thread_interrupted&) { vt_fail("stray", "delivered to a thread nobody interrupted"); } });
  int* got = new int[2](); thread a([=] { try { for (int i = 0; i < 20; ++i) { this_thread::interruption_point(); vt_sleep(500); } } catch (thread_interrupted&) { got[0]++; } }), b([=] { try { for (int i = 0; i < 20; ++i) { brief(*w, 4); this_thread::interruption_point(); } } catch (thread_interrupted&) { got[1]++; } });
  vt_sleep(vt_rnd(4) * 1000); a.interrupt(); a.join(); b.join(); VT_CHECK(got[1] == 0, "stray", "interrupting one thread interrupted another"); p.join(); delete[] got; delete w; }
// the interrupted thread's function ends quietly and self-interruption
SCENARIO(self, F_NATIVE | F_ONCE) {
  int* st = new int(0); bool caught = chance(50); thread* t = new thread; mutex* m = new mutex; m->lock();
  *t = thread([=] { m->lock(); m->unlock(); t->interrupt(); *st = 1; VT_CHECK(this_thread::interruption_requested() && t->interruption_requested(), "flag", "own request not seen"); try { this_thread::interruption_point(); *st = 2; } catch (thread_interrupted&) { *st = 3; if (!caught) throw; } }); m->unlock(); t->join(); VT_CHECK(*st == 3, "lost", "self-interruption was not delivered"); delete st; delete t; delete m; }
