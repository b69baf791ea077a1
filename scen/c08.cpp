// C08: timed condition waits, for every time type, both condition variables, with and without predicate.
#include "t.hpp"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/condition_variable.hpp>
using namespace boost;
template<class CV, class L, class T> bool plain(CV& c, L& l, T const& t) { if constexpr (is_dur<T>::value) return c.wait_for(l, t) == cv_status::no_timeout; else if constexpr (is_tp<T>::value) return c.wait_until(l, t) == cv_status::no_timeout; else return c.timed_wait(l, t); }
template<class CV, class L, class T, class P> bool withp(CV& c, L& l, T const& t, P p) { if constexpr (is_dur<T>::value) return c.wait_for(l, t, p); else if constexpr (is_tp<T>::value) return c.wait_until(l, t, p); else return c.timed_wait(l, t, p); }

template<class CV, class M> void waits(const char* what, bool pred) {
  struct B { CV cv; M m; bool flag; }; B* pb = new B; B& b = *pb; b.flag = false; RealTrack::reset(); bool nospur = chance(70); if (nospur) vt_spurious(0);
  bool notify = chance(70), steps = chance(25), noise = chance(20); static const i64 nv[] = { 0, 300000, 1500000, 6000000, 50000000, 130000000, 700000000ll, 2000000000ll };
  u64 at = 0, done = 0, called = 0; int noised = 0; bool early = chance(10); 
  Par p;
  unique_lock<M> l(b.m); if (early) b.flag = true;
  if (notify) { i64 d = nv[vt_rnd(8)]; p.go([&, d] { vt_sleep(d); { unique_lock<M> k(b.m); b.flag = true; { Quiet q; at = vt_now(); } if (chance(50)) { { Quiet q; called = vt_now(); } b.cv.notify_one(); k.unlock(); } else { k.unlock(); { Quiet q; called = vt_now(); } b.cv.notify_all(); } } Quiet q; done = vt_now(); }); }
  if (noise) p.go([&] { for (int i = 0; i < 3; ++i) { vt_sleep(400000); { Quiet q; noised++; } b.cv.notify_all(); } });
  if (steps) stepper(p, 1 + vt_rnd(3));
  if (chance(30)) { l.unlock(); vt_settle(); l.lock(); }
  Want w; bool before = b.flag; unsigned mask = notify && !before ? M_ALL : M_ALL & ~(M_SPECIAL | M_FAR); i64 maxv = notify ? 4000000000000ll : 4000000000ll; u64 start = vt_now(); bool r; int calls = 0; bool lastp = false; vt_count("timed_waits", 1);
  if (pred) r = timed_form(w, mask, [&](auto t) { return withp(b.cv, l, t, [&] { ++calls; VT_CHECK(l.owns_lock(), "lock-state", "predicate called without the lock"); lastp = b.flag; return b.flag; }); }, maxv);
  else r = timed_form(w, mask, [&](auto t) { return plain(b.cv, l, t); }, maxv);
  u64 now = vt_now(); bool exact = vt_exact(); bool st = RealTrack::I().steps != w.steps0; VT_CHECK(l.owns_lock(), "lock-state", "%s: %s: lock not owned after the wait", what, w.form);
  bool flag = b.flag; u64 a, dn, cl; int nz; { Quiet q; a = at; dn = done; cl = called; nz = noised; }
  if (pred) {
    VT_CHECK(r == flag, "predicate", "%s: %s returned %d but the predicate is %d", what, w.form, (int)r, (int)flag);
    if (before) VT_CHECK(r && (!exact || now <= start + 100000), "predicate", "%s: %s waited although the predicate was true", what, w.form);
    if (!r) { vt_count("reported_timeout", 1); VT_CHECK(w.reached(), "early", "%s: %s gave up %lld ns before its deadline", what, w.form, (long long)w.left()); }
    else vt_count("reported_true", 1);
    if (exact && !before) { if (r && !w.past) VT_CHECK(a && (!cl || now <= cl + 1000000), "late", "%s: %s returned %lld ns after the notification", what, w.form, (long long)(now - cl));
      if (!w.never && !w.past) VT_CHECK(w.late() <= w.tol(), "late", "%s: %s returned %lld ns after its deadline", what, w.form, (long long)w.late());
      if (w.past && !st) VT_CHECK(now <= start + 100000, "late", "%s: %s waited although its deadline was past", what, w.form); }
  } else {
    if (!r) { vt_count("reported_timeout", 1); VT_CHECK(w.reached(), "early", "%s: %s reported timeout %lld ns before its deadline", what, w.form, (long long)w.left()); } else vt_count("reported_true", 1);
    if (r && nospur && !noise && !cl && w.clk == STEADY && !w.past && !w.never && !(steps)) VT_CHECK(!w.reached(), "truth", "%s: %s reported no timeout although nothing notified and the deadline has passed", what, w.form);
    if (r && nospur && !nz && !a && exact && !w.past && (w.never || (w.left() > 1000000 && (w.clk == STEADY || w.clk == REAL))) && !st) { VT_CHECK(now > start + 1000, "nothing", "%s: %s did not wait: it returned at once, %lld ns before its deadline, although nothing notified it", what, w.form, (long long)w.left()); }
    if (exact && !st && w.clk != FASTC) { if (w.past) VT_CHECK(now <= start + 100000, "late", "%s: %s waited although its deadline was past", what, w.form); else if (!w.never) VT_CHECK(w.late() <= 1000000, "late", "%s: %s returned %lld ns after its deadline", what, w.form, (long long)w.late()); }
    if (exact && cl && !before) VT_CHECK(now <= cl + 1000000, "late", "%s: %s returned %lld ns after the notification", what, w.form, (long long)(now - cl));
  }
  l.unlock(); p.join(); { bool f = b.m.try_lock(); VT_CHECK(f, "lock-state", "the mutex is not free at the end"); b.m.unlock(); } delete pb;
}
// an infinite wait needs a notification to end
template<class CV, class M> void go(const char* what, bool pred) { waits<CV, M>(what, pred); }
SCENARIO(cv_plain, F_NOSPUR) { go<condition_variable, mutex>("condition_variable", false); }
SCENARIO(cv_pred, 0) { go<condition_variable, mutex>("condition_variable, predicate", true); }
SCENARIO(any_plain, 0) { go<condition_variable_any, mutex>("condition_variable_any", false); }
SCENARIO(any_pred, 0) { go<condition_variable_any, mutex>("condition_variable_any, predicate", true); }
SCENARIO(any_pred_rec, 0) { go<condition_variable_any, recursive_timed_mutex>("condition_variable_any with recursive_timed_mutex, predicate", true); }
SCENARIO(any_plain_shared, 0) { go<condition_variable_any, shared_mutex>("condition_variable_any with shared_mutex", false); }
