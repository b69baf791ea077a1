// C07: condition variables.  No notification is lost, the lock is back however the wait ends.
#include "t.hpp"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/thread.hpp>
using namespace boost;

// Every wait and notification, in the order of the lock they are made under.
struct Notes {
  struct Wt { int tid; u64 reg; u64 ret; bool must; };      // must: still has to come back when notified
  struct Nt { int tid; bool all; u64 acq, call, ret; };
  std::vector<Wt> w; std::vector<Nt> n; int blocked_now;
  Notes() : blocked_now(0) {} ~Notes() { Quiet q; std::vector<Wt>().swap(w); std::vector<Nt>().swap(n); }
  size_t reg() { Quiet q; Wt x = { vt_tid(), vt_step(), 0, true }; w.push_back(x); vt_count("waits", 1); return w.size() - 1; }
  void ret(size_t i) { Quiet q; w[i].ret = vt_step(); }
  size_t ncall(bool all, u64 acq) { Quiet q; Nt x = { vt_tid(), all, acq, vt_step(), 0 }; n.push_back(x); vt_count("notifications", 1); return n.size() - 1; }
  void nret(size_t i) { Quiet q; n[i].ret = vt_step(); }
  bool aug(size_t e, std::vector<int>& m, std::vector<char>& seen) { // match event e with a waiter that has returned
    for (size_t j = 0; j < w.size(); ++j) if (!seen[j] && w[j].ret && w[j].reg < n[e].ret && w[j].ret > n[e].call) { seen[j] = 1; if (m[j] < 0 || aug(m[j], m, seen)) { m[j] = (int)e; return true; } }
    return false; }
  static void idle(void* p) { ((Notes*)p)->check(); }
  void check() {
    for (size_t i = 0; i < w.size(); ++i) if (!w[i].ret) {
      std::vector<int> m(w.size(), -1);
      for (size_t e = 0; e < n.size(); ++e) if (n[e].ret && w[i].reg < n[e].acq) {
        if (n[e].all) vt_fail("lost-notification", "thread %d still waits although notify_all was called after it had released the lock", w[i].tid);
        std::vector<char> seen(w.size(), 0);
        if (!aug(e, m, seen)) vt_fail("lost-notification", "thread %d still waits although notify_one was called after it had released the lock and no other waiter returned for it", w[i].tid); }
    } }
};
// A lockable of the user's, watching its own use.
struct UserLock { mutex m; int owner; int id; UserLock() : owner(-1) {} void lock() { m.lock(); Quiet q; owner = vt_tid(); } void unlock() { { Quiet q; VT_CHECK(owner == vt_tid(), "lock-state", "a wait unlocked a lock its thread does not own"); owner = -1; } m.unlock(); } bool owns_lock() const { return owner == vt_tid(); } };
template<class L> struct Holder { template<class M> static L* mk(M& m) { return new L(m); } };
struct UlHolder { };

template<class CV, class M, class L> struct Env { CV cv; M m; Notes nt; Pay p; int tokens; bool stop; bool excl; int inside; Env() : tokens(0), stop(false), excl(true), inside(0) {} };
template<class L, class M> L* mklock(M& m) { if constexpr (std::is_same<L, M>::value) { m.lock(); return &m; } else return new L(m); }
template<class L, class M> void rmlock(L* l) { if constexpr (std::is_same<L, M>::value) l->unlock(); else delete l; }
template<class L> bool owns(L& l) { if constexpr (std::is_same<L, mutex>::value) return true; else return l.owns_lock(); }
struct PredError {};

template<class E, class L> int one_wait(E& e, L& l, unsigned kind, bool timed) { // returns 0 ok 1 timeout 2 interrupted 3 predicate threw
  int r = 0; size_t i = e.nt.reg(); { Quiet q; e.inside = -1; }
  try {
    if (!timed) { if (kind == 0) e.cv.wait(l); else if (kind == 1) { int n = 0; size_t* pi = &i; e.cv.wait(l, [&, pi] { if (n++ == 0) return false; { Quiet q; e.nt.w[*pi].ret = vt_step(); } return true; }); } 
      else { int n = 0; e.cv.wait(l, [&]() -> bool { if (n++ == 0) return false; throw PredError(); }); } }
    else { chrono::nanoseconds d((1 + vt_rnd(4)) * 700000); bool ok = true; switch (vt_rnd(5)) { case 0: ok = e.cv.wait_for(l, d) == cv_status::no_timeout; break; case 1: ok = e.cv.wait_until(l, chrono::steady_clock::now() + d) == cv_status::no_timeout; break; case 2: ok = e.cv.wait_until(l, chrono::system_clock::now() + d) == cv_status::no_timeout; break;
        case 3: ok = e.cv.timed_wait(l, posix_time::microseconds(d.count() / 1000)); break; default: ok = e.cv.timed_wait(l, get_system_time() + posix_time::microseconds(d.count() / 1000)); } r = ok ? 0 : 1; }
  } catch (PredError&) { r = 3; } catch (thread_interrupted&) { r = 2; }
  e.nt.ret(i);
  VT_CHECK(owns(l), "lock-state", "the lock is not owned after the wait (ending %d)", r); vt_count(r == 0 ? "ended_by_notification" : r == 1 ? "ended_by_timeout" : r == 2 ? "ended_by_interruption" : "ended_by_exception", 1);
  return r;
}

template<class CV, class M, class L> void notes(bool shared) {
  typedef Env<CV, M, L> E; E* pe = new E; E& e = *pe; vt_on_idle(&Notes::idle, &e.nt); if (chance(50)) vt_spurious(0);
  int nw = 1 + vt_rnd(4), nn = 1 + vt_rnd(2); bool intr = chance(25); std::vector<thread*> th;
  auto waiter = [&, shared](int waits) { for (int k = 0; k < waits; ++k) { L* l = mklock<L, M>(e.m); bool st; { Quiet q; st = e.stop; } if (st) { rmlock<L, M>(l); return; } if (!shared) e.p.bump();
      one_wait(e, *l, vt_rnd(3), chance(20)); if (!shared) e.p.bump(); rmlock<L, M>(l); } };
  for (int i = 0; i < nw; ++i) { int k = 1 + vt_rnd(2); thread* t = new thread([&waiter, k] { waiter(k); }); Quiet q; th.push_back(t); }
  if (chance(60)) vt_settle();
  { Par p; for (int i = 0; i < nn; ++i) { int ops = 1 + vt_rnd(4); p.go([&, ops] { for (int k = 0; k < ops; ++k) { bool all = chance(30), inside = chance(50); L* l = mklock<L, M>(e.m); u64 acq; { Quiet q; acq = vt_step(); } if (!shared) e.p.bump(); 
        size_t n; if (!inside) rmlock<L, M>(l); n = e.nt.ncall(all, shared ? 0 : acq); if (all) e.cv.notify_all(); else e.cv.notify_one(); e.nt.nret(n); if (inside) rmlock<L, M>(l); if (chance(40)) vt_settle(); } }); }
    if (intr) { if (chance(50)) vt_settle(); th[vt_rnd(th.size())]->interrupt(); }
    p.join(); }
  vt_settle(); { Quiet q; e.nt.check(); }
  // let the rest go
  for (;;) { bool busy = false; { L* l = mklock<L, M>(e.m); { Quiet q; e.stop = true; } u64 acq; { Quiet q; acq = vt_step(); } size_t n = e.nt.ncall(true, shared ? 0 : acq); e.cv.notify_all(); e.nt.nret(n); rmlock<L, M>(l); } vt_settle(); 
    { Quiet q; for (size_t i = 0; i < e.nt.w.size(); ++i) if (!e.nt.w[i].ret) busy = true; } if (!busy || !shared) break; }
  for (size_t i = 0; i < th.size(); ++i) { th[i]->join(); delete th[i]; } { Quiet q; std::vector<thread*>().swap(th); }
  vt_on_idle(0, 0); VT_CHECK(e.p.ok(), "exclusion", "torn"); vt_outcome(e.nt.w.size() * 64 + e.nt.n.size()); delete pe;
}
SCENARIO(cv, F_HOT) { notes<condition_variable, mutex, unique_lock<mutex> >(false); }
SCENARIO(any_mutex, F_HOT) { notes<condition_variable_any, mutex, unique_lock<mutex> >(false); }
SCENARIO(any_bare, 0) { notes<condition_variable_any, mutex, mutex>(false); }
SCENARIO(any_timed, 0) { notes<condition_variable_any, timed_mutex, unique_lock<timed_mutex> >(false); }
SCENARIO(any_recursive, 0) { notes<condition_variable_any, recursive_mutex, unique_lock<recursive_mutex> >(false); }
SCENARIO(any_shared_x, 0) { notes<condition_variable_any, shared_mutex, unique_lock<shared_mutex> >(false); }
SCENARIO(any_shared_s, 0) { notes<condition_variable_any, shared_mutex, shared_lock<shared_mutex> >(true); }
SCENARIO(any_shared_u, 0) { notes<condition_variable_any, shared_mutex, upgrade_lock<shared_mutex> >(false); }
SCENARIO(any_user, 0) { notes<condition_variable_any, UserLock, UserLock>(false); }

// A buffer: everything produced is consumed, through predicate waits only.
template<class CV, class M> void buffer() {
  struct B { CV nonempty, nonfull; M m; int n, cap, produced, consumed; Pay p; }; B* pb = new B; B& b = *pb; b.n = b.produced = b.consumed = 0; b.cap = 1 + vt_rnd(2);
  int np = 1 + vt_rnd(2), nc = 1 + vt_rnd(2), per = 2 + vt_rnd(3); int total = np * per * nc;
  bool timed = chance(30), all = chance(30);
  Par p; for (int i = 0; i < np; ++i) p.go([&] { for (int k = 0; k < per * nc; ++k) { unique_lock<M> l(b.m); if (timed) while (!b.nonfull.wait_for(l, chrono::milliseconds(1), [&] { return b.n < b.cap; })) { } else b.nonfull.wait(l, [&] { return b.n < b.cap; }); VT_CHECK(b.n < b.cap, "predicate", "wait returned with the predicate false"); b.n++; b.produced++; b.p.bump(); if (all) b.nonempty.notify_all(); else { if (chance(50)) l.unlock(); b.nonempty.notify_one(); } } });
  for (int i = 0; i < nc; ++i) p.go([&] { for (int k = 0; k < per * np; ++k) { unique_lock<M> l(b.m); if (timed) while (!b.nonempty.timed_wait(l, posix_time::milliseconds(1), [&] { return b.n > 0; })) { } else b.nonempty.wait(l, [&] { return b.n > 0; }); VT_CHECK(b.n > 0, "predicate", "wait returned with the predicate false"); b.n--; b.consumed++; b.p.bump(); if (all) b.nonfull.notify_all(); else { if (chance(50)) l.unlock(); b.nonfull.notify_one(); } } });
  p.join(); VT_CHECK(b.consumed == total && b.produced == total && b.n == 0 && b.p.ok(), "buffer", "%d produced, %d consumed of %d", b.produced, b.consumed, total); delete pb;
}
SCENARIO(buffer_cv, F_NATIVE) { buffer<condition_variable, mutex>(); }
SCENARIO(buffer_any, F_NATIVE) { buffer<condition_variable_any, timed_mutex>(); }
SCENARIO(buffer_any_rec, F_NATIVE) { buffer<condition_variable_any, recursive_mutex>(); }

// While a thread waits, its lock is free for others; when it has returned it is not.
template<class CV, class M> void release_relock() {
  struct B { CV cv; M m; bool go; }; B* pb = new B; B& b = *pb; b.go = false; bool returned = false, released = false; vt_spurious(0);
  Par p; p.go([&] { unique_lock<M> l(b.m); while (!b.go) b.cv.wait(l); { Quiet q; returned = true; } VT_CHECK(l.owns_lock(), "lock-state", "lock object not owning after wait"); vt_sleep(1000000); vt_point(); { Quiet q; released = true; } l.unlock(); });
  vt_settle(); { bool r = b.m.try_lock(); VT_CHECK(r, "release", "a thread blocked in wait keeps its lock"); b.go = true; b.cv.notify_one(); vt_settle(); { Quiet q; VT_CHECK(!returned, "relock", "wait returned while another thread owns the lock"); } b.m.unlock(); }
  vt_settle(); { bool ret; { Quiet q; ret = returned && !released; } if (ret) { bool r = b.m.try_lock(); bool rel; { Quiet q; rel = released; } VT_CHECK(!r || rel, "relock", "the lock is free although the waiter has returned owning it"); if (r) b.m.unlock(); } }
  p.join(); delete pb;
}
SCENARIO(relock_cv, 0) { release_relock<condition_variable, mutex>(); }
SCENARIO(relock_any, 0) { release_relock<condition_variable_any, mutex>(); }
SCENARIO(relock_any_sh, 0) { release_relock<condition_variable_any, shared_mutex>(); }

// The documented precondition of the destructor: all waiters notified, not all returned.
template<class CV> void destroy_after_notify() {
  mutex m; CV* cv = new CV; bool go = false; int n = 1 + vt_rnd(2); Par p; 
  for (int i = 0; i < n; ++i) p.go([&] { unique_lock<mutex> l(m); CV* c = cv; if (!go) c->wait(l); });
  vt_spurious(0); vt_settle(); { unique_lock<mutex> l(m); go = true; cv->notify_all(); } delete cv; p.join();
}
SCENARIO(destroy_after_notify_cv, F_KNOWN) { destroy_after_notify<condition_variable>(); }
SCENARIO(destroy_after_notify_any, F_KNOWN) { destroy_after_notify<condition_variable_any>(); }
