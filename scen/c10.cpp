// C10: lock objects against a model, over a mutex that records, refuses and throws.
#include "rm.hpp"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/lock_factories.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/reverse_lock.hpp>
#include <boost/thread/shared_lock_guard.hpp>
#include <boost/thread/with_lock_guard.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/lock_algorithms.hpp>
using namespace boost;
typedef unique_lock<RM> UL; typedef shared_lock<RM> SL; typedef upgrade_lock<RM> GL;
static const int N = 3, K = 3;
struct MO { int m; bool own; MO() : m(-1), own(false) {} };
template<class L> struct Kind; template<> struct Kind<UL> { static const int k = 0; static const char* n() { return "unique_lock"; } }; template<> struct Kind<SL> { static const int k = 1; static const char* n() { return "shared_lock"; } }; template<> struct Kind<GL> { static const int k = 2; static const char* n() { return "upgrade_lock"; } };

struct World {
  RM* m; UL* ul[N]; SL* sl[N]; GL* gl[N]; MO mo[3][N]; int raw[3][K]; const char* op;
  World() : op("start") { m = new RM[K]; for (int i = 0; i < N; ++i) { ul[i] = new UL; sl[i] = new SL; gl[i] = new GL; } memset(raw, 0, sizeof raw); }
  UL*& slot(UL*, int i) { return ul[i]; } SL*& slot(SL*, int i) { return sl[i]; } GL*& slot(GL*, int i) { return gl[i]; }
  int idx(RM* p) { return p ? int(p - m) : -1; }
  void check() {
    for (int i = 0; i < K; ++i) { m[i].arm = m[i].arm_un = false;
      int n[3]; for (int k = 0; k < 3; ++k) { n[k] = raw[k][i]; for (int j = 0; j < N; ++j) if (mo[k][j].own && mo[k][j].m == i) n[k]++; }
      VT_CHECK(m[i].x == n[0] && m[i].s == n[1] && m[i].u == n[2], "holds", "after %s mutex %d is held exclusive/shared/upgrade %d/%d/%d times; its lock objects account for %d/%d/%d", op, i, m[i].x, m[i].s, m[i].u, n[0], n[1], n[2]); }
    for (int j = 0; j < N; ++j) { one(ul[j], mo[0][j], j); one(sl[j], mo[1][j], j); one(gl[j], mo[2][j], j); }
  }
  template<class L> void one(L* l, MO& o, int j) {
    VT_CHECK(l->owns_lock() == o.own, "owns", "after %s %s %d owns_lock() is %d, expected %d", op, Kind<L>::n(), j, (int)l->owns_lock(), (int)o.own);
    VT_CHECK(bool(*l) == o.own && !*l == !o.own, "owns", "after %s the conversion to bool of %s %d disagrees with owns_lock", op, Kind<L>::n(), j);
    VT_CHECK(idx(l->mutex()) == o.m, "mutex", "after %s %s %d refers to mutex %d, expected %d", op, Kind<L>::n(), j, idx(l->mutex()), o.m); }
  ~World() { for (int j = 0; j < N; ++j) { delete ul[j]; mo[0][j] = MO(); delete sl[j]; mo[1][j] = MO(); delete gl[j]; mo[2][j] = MO(); }
    for (int i = 0; i < K; ++i) VT_CHECK(m[i].x == raw[0][i] && m[i].s == raw[1][i] && m[i].u == raw[2][i], "holds", "after destruction of all lock objects mutex %d is held %d/%d/%d times", i, m[i].x, m[i].s, m[i].u); delete[] m; }
};
static void raw_lock(RM& m, int k) { if (k == 0) m.lock(); else if (k == 1) m.lock_shared(); else m.lock_upgrade(); }
static void raw_unlock(RM& m, int k) { if (k == 0) m.unlock(); else if (k == 1) m.unlock_shared(); else m.unlock_upgrade(); }
enum Exp { OK_, NOMUTEX, DEADLK, NOTOWN };
// Runs f, which may throw; returns 0 fine, 1 RmError, 2 lock_error; checks it was the expected one.
template<class F> int run(World& w, Exp e, RM* a, F f) {
  if (a) { a->threw = false; a->arm = chance(12); a->arm_un = chance(12); }
  unsigned calls = 0; for (int i = 0; i < K; ++i) calls += w.m[i].calls;
  int r = 0; try { f(); } catch (RmError&) { r = 1; } catch (lock_error& x) { r = 2;
    int want = e == NOMUTEX ? system::errc::operation_not_permitted : e == DEADLK ? system::errc::resource_deadlock_would_occur : system::errc::operation_not_permitted;
    VT_CHECK(e != OK_, "error", "%s raised a lock error though it was legal", w.op);
    VT_CHECK(x.native_error() == want, "error", "%s raised lock error %d, expected %d", w.op, x.native_error(), want); }
  if (a) a->arm = a->arm_un = false;
  if (e != OK_) { VT_CHECK(r == 2, "error", "%s on a lock that %s raised no lock error", w.op, e == NOMUTEX ? "has no mutex" : e == DEADLK ? "already owns" : "does not own"); vt_count("misuse_refused", 1);
    unsigned c2 = 0; for (int i = 0; i < K; ++i) c2 += w.m[i].calls; VT_CHECK(c2 == calls, "error", "%s used the mutex although it was refused", w.op); }
  else { VT_CHECK((r == 1) == (a && a->threw), "error", "%s swallowed or invented an exception", w.op); if (r == 1) vt_count("mutex_threw", 1); }
  return r;
}
template<class L> void put(World& w, int i, L* n, MO o) { MO& d = w.mo[Kind<L>::k][i]; L*& s = w.slot((L*)0, i); delete s; s = n; d = o; }

// members common to the three lock types
template<class L> void common(World& w) {
  const int k = Kind<L>::k; int i = vt_rnd(N), j = (i + 1 + vt_rnd(N - 1)) % N; L*& l = w.slot((L*)0, i); L*& l2 = w.slot((L*)0, j); MO& o = w.mo[k][i]; MO& o2 = w.mo[k][j];
  int mi = vt_rnd(K); RM& m = w.m[mi]; m.deny = chance(40); RM* cur = o.m >= 0 ? &w.m[o.m] : 0; if (cur) cur->deny = chance(40); MO n; n.m = mi; L* p = 0;
  Exp le = o.m < 0 ? NOMUTEX : o.own ? DEADLK : OK_; bool rv = false; int r;
  switch (vt_rnd(20)) {
    case 0: w.op = "construct with mutex"; if (run(w, OK_, &m, [&] { p = new L(m); }) == 0) { n.own = true; put(w, i, p, n); } break;
    case 1: w.op = "construct adopting"; raw_lock(m, k); p = new L(m, adopt_lock); n.own = true; put(w, i, p, n); break;
    case 2: w.op = "construct deferring"; { unsigned c = m.calls; p = new L(m, defer_lock); VT_CHECK(m.calls == c, "defer", "deferring used the mutex"); } put(w, i, p, n); break;
    case 3: w.op = "construct trying"; if (run(w, OK_, &m, [&] { p = new L(m, try_to_lock); }) == 0) { n.own = !m.deny; put(w, i, p, n); } break;
    case 4: w.op = "construct with duration"; if (run(w, OK_, &m, [&] { p = new L(m, chrono::milliseconds(5)); }) == 0) { VT_CHECK(m.ns == 5000000, "arg", "wrong duration passed on"); n.own = !m.deny; put(w, i, p, n); } break;
    case 5: w.op = "construct with time point"; if (run(w, OK_, &m, [&] { p = new L(m, chrono::steady_clock::time_point(chrono::seconds(7))); }) == 0) { VT_CHECK(m.ns == 7000000000ll, "arg", "wrong time point passed on"); n.own = !m.deny; put(w, i, p, n); } break;
#ifdef BOOST_THREAD_USES_DATETIME
    case 6: if constexpr (k != 2) { w.op = "construct with absolute time"; if (run(w, OK_, &m, [&] { p = new L(m, get_system_time()); }) == 0) { n.own = !m.deny; put(w, i, p, n); } } break;
#endif
    case 7: w.op = "move construct"; p = new L(boost::move(*l2)); n = o2; o2 = MO(); put(w, i, p, n); break;
    case 8: w.op = "move assign"; *l = boost::move(*l2); o = o2; o2 = MO(); break;
    case 9: w.op = "swap"; if (chance(50)) l->swap(*l2); else { using boost::swap; swap(*l, *l2); } std::swap(o, o2); break;
    case 10: w.op = "lock"; if (run(w, le, cur, [&] { l->lock(); }) == 0) o.own = true; break;
    case 11: w.op = "try_lock"; if (run(w, le, cur, [&] { rv = l->try_lock(); }) == 0) { o.own = !cur->deny; VT_CHECK(rv == o.own, "result", "try_lock returned %d", (int)rv); } break;
    case 12: w.op = "try_lock_for"; if (run(w, le, cur, [&] { rv = l->try_lock_for(chrono::microseconds(9)); }) == 0) { VT_CHECK(cur->ns == 9000, "arg", "wrong duration passed on"); o.own = !cur->deny; VT_CHECK(rv == o.own, "result", "try_lock_for returned %d", (int)rv); } break;
    case 13: w.op = "try_lock_until"; if (run(w, le, cur, [&] { rv = l->try_lock_until(chrono::steady_clock::time_point(chrono::nanoseconds(13))); }) == 0) { VT_CHECK(cur->ns == 13, "arg", "wrong time point passed on"); o.own = !cur->deny; VT_CHECK(rv == o.own, "result", "try_lock_until returned %d", (int)rv); } break;
#ifdef BOOST_THREAD_USES_DATETIME
    case 14: if constexpr (k != 2) { w.op = "timed_lock"; r = run(w, le, cur, [&] { if (chance(50)) rv = l->timed_lock(get_system_time()); else rv = l->timed_lock(posix_time::milliseconds(3)); }); if (r == 0) { o.own = !cur->deny; VT_CHECK(rv == o.own, "result", "timed_lock returned %d", (int)rv); } } break;
#endif
    case 15: case 16: w.op = "unlock"; if (run(w, o.m < 0 ? NOMUTEX : o.own ? OK_ : NOTOWN, cur, [&] { l->unlock(); }) == 0) o.own = false; break;
    case 17: { w.op = "release"; RM* g = l->release(); VT_CHECK(g == cur, "result", "release returned another mutex"); if (o.own) { w.raw[k][o.m]++; } o = MO(); w.check(); if (cur && w.raw[k][g - w.m]) { raw_unlock(*g, k); w.raw[k][g - w.m]--; } break; }
    case 18: w.op = "destroy"; put(w, i, new L, MO()); break;
    case 19: w.op = "self move assign"; { L& self = *l; *l = boost::move(self); } break;
  }
}
// conversions between lock types; D from S; try forms leave the source alone when refused
template<class D, class S> bool conv_plain(World& w, const char* what) {
  int i = vt_rnd(N), j = vt_rnd(N); S*& s = w.slot((S*)0, j); MO& so = w.mo[Kind<S>::k][j]; w.op = what; D* p = 0; RM* cur = so.m >= 0 ? &w.m[so.m] : 0;
  if (run(w, OK_, cur && so.own ? cur : 0, [&] { p = new D(boost::move(*s)); }) == 0) { MO n = so; so = MO(); put(w, i, p, n); vt_count("conversions", 1); } return true; }
template<class D, class S> bool conv_assign(World& w, const char* what) {
#ifndef BOOST_THREAD_PROVIDES_EXPLICIT_LOCK_CONVERSION
  int i = vt_rnd(N), j = vt_rnd(N); S*& s = w.slot((S*)0, j); D*& d = w.slot((D*)0, i); MO& so = w.mo[Kind<S>::k][j]; w.op = what; RM* cur = so.m >= 0 ? &w.m[so.m] : 0; if (cur) { cur->arm_un = false; }
  unsigned r; { if (cur) { cur->threw = false; cur->arm = so.own && chance(15); } try { *d = boost::move(*s); r = 0; } catch (RmError&) { r = 1; } }
  if (r == 0) { VT_CHECK(!cur || !cur->threw, "error", "%s swallowed an exception", what); w.mo[Kind<D>::k][i] = so; so = MO(); vt_count("conversions", 1); }
#endif
  return true; }
template<class D, class S> bool conv_try(World& w, const char* what) {
  int i = vt_rnd(N), j = vt_rnd(N); S*& s = w.slot((S*)0, j); MO& so = w.mo[Kind<S>::k][j]; w.op = what; D* p = 0; RM* cur = so.m >= 0 ? &w.m[so.m] : 0; if (cur) cur->deny = chance(50);
  unsigned f = vt_rnd(3); int r = run(w, OK_, cur && so.own ? cur : 0, [&] { if (f == 0) p = new D(boost::move(*s), try_to_lock); else if (f == 1) p = new D(boost::move(*s), chrono::milliseconds(6)); else p = new D(boost::move(*s), chrono::steady_clock::time_point(chrono::milliseconds(8))); });
  if (r == 0) { MO n; if (so.own && cur->deny) { vt_count("conversions_refused", 1); } else { n = so; so = MO(); vt_count("conversions", 1); } if (n.own && f) VT_CHECK(cur->ns == (f == 1 ? 6000000 : 8000000), "arg", "wrong time passed on"); put(w, i, p, n); }
  return true; }
SCENARIO(model, F_NATIVE) {
  World w; int n = 10 + vt_rnd(30); u64 oc = 0;
  for (int q = 0; q < n; ++q) { unsigned c = vt_rnd(22); oc = oc * 31 + c;
    switch (c) { default: if (c < 5) common<UL>(w); else if (c < 10) common<SL>(w); else common<GL>(w); break;
      case 14: conv_plain<UL, GL>(w, "unique_lock from upgrade_lock"); break; case 15: conv_plain<SL, UL>(w, "shared_lock from unique_lock"); break; case 16: conv_plain<SL, GL>(w, "shared_lock from upgrade_lock"); break; case 17: conv_plain<GL, UL>(w, "upgrade_lock from unique_lock"); break;
      case 18: conv_try<UL, GL>(w, "unique_lock from upgrade_lock, trying"); break; case 19: conv_try<UL, SL>(w, "unique_lock from shared_lock, trying"); break; case 20: conv_try<GL, SL>(w, "upgrade_lock from shared_lock, trying"); break;
      case 21: switch (vt_rnd(4)) { case 0: conv_assign<UL, GL>(w, "unique_lock = upgrade_lock"); break; case 1: conv_assign<SL, UL>(w, "shared_lock = unique_lock"); break; case 2: conv_assign<SL, GL>(w, "shared_lock = upgrade_lock"); break; default: conv_assign<GL, UL>(w, "upgrade_lock = unique_lock"); } }
    w.check(); vt_count("operations_checked", 1); }
  vt_outcome(oc);
}
#define HOLDS(M, X, S, U, WHAT) VT_CHECK((M).x == (X) && (M).s == (S) && (M).u == (U), "holds", "%s: mutex held %d/%d/%d times, expected %d/%d/%d", WHAT, (M).x, (M).s, (M).u, X, S, U)
struct FnError {};
SCENARIO(guards, F_NATIVE) {
  RM m; bool thr = chance(40); bool armed = chance(15);
  auto work = [&](int X, int S, int U, const char* w) { HOLDS(m, X, S, U, w); if (thr) throw FnError(); };
  unsigned f = vt_rnd(14); bool got = false, rmthrew = false;
  try { if (f < 9) m.arm = armed && f != 1 && f != 5 && f != 6; 
    switch (f) {
      case 0: { lock_guard<RM> g(m); work(1, 0, 0, "lock_guard"); break; }
      case 1: { m.lock(); lock_guard<RM> g(m, adopt_lock); HOLDS(m, 1, 0, 0, "adopting lock_guard"); work(1, 0, 0, "lock_guard"); break; }
      case 2: { shared_lock_guard<RM> g(m); work(0, 1, 0, "shared_lock_guard"); break; }
      case 3: { strict_lock<RM> g(m); RM o; VT_CHECK(g.owns_lock() && g.owns_lock(&m) && !g.owns_lock(&o) && g.mutex() == &m, "owns", "strict_lock reports wrongly"); work(1, 0, 0, "strict_lock"); break; }
      case 4: { auto&& g = make_lock_guard(m); (void)g; work(1, 0, 0, "make_lock_guard"); break; }
      case 5: { m.lock(); auto&& g = make_lock_guard(m, adopt_lock); (void)g; work(1, 0, 0, "make_lock_guard adopting"); break; }
      case 6: { m.lock_shared(); shared_lock_guard<RM> g(m, adopt_lock); work(0, 1, 0, "adopting shared_lock_guard"); break; }
      case 7: { auto&& g = make_strict_lock(m); VT_CHECK(g.owns_lock(&m), "owns", "make_strict_lock"); work(1, 0, 0, "make_strict_lock"); break; }
      case 8: { int a = 3; struct L { static int fn(int x, int& y) { y += x; return x * 2; } }; int r = with_lock_guard(m, [&](int x) { a += x; work(1, 0, 0, "with_lock_guard"); return x + 1; }, 4); VT_CHECK(r == 5 && a == 7, "result", "with_lock_guard returned %d", r); HOLDS(m, 0, 0, 0, "after with_lock_guard"); r = with_lock_guard(m, &L::fn, 5, boost::ref(a)); VT_CHECK(r == 10 && a == 12, "result", "with_lock_guard returned %d", r); break; }
      case 9: { int k = vt_rnd(4); m.deny = chance(50); if (k == 1) m.lock(); UL l = k == 0 ? make_unique_lock(m) : k == 1 ? make_unique_lock(m, adopt_lock) : k == 2 ? make_unique_lock(m, defer_lock) : make_unique_lock(m, try_to_lock); bool own = k < 2 || (k == 3 && !m.deny); VT_CHECK(l.owns_lock() == own && l.mutex() == &m, "owns", "make_unique_lock form %d", k); work(own, 0, 0, "make_unique_lock"); break; }
      case 10: { RM n, o; { auto t = make_unique_locks(m, n, o); HOLDS(m, 1, 0, 0, "make_unique_locks"); HOLDS(n, 1, 0, 0, "make_unique_locks"); HOLDS(o, 1, 0, 0, "make_unique_locks"); VT_CHECK(std::get<0>(t).mutex() == &m && std::get<1>(t).mutex() == &n && std::get<2>(t).mutex() == &o && std::get<0>(t).owns_lock() && std::get<1>(t).owns_lock() && std::get<2>(t).owns_lock(), "owns", "make_unique_locks mixed up its locks"); if (thr) throw FnError(); } HOLDS(n, 0, 0, 0, "make_unique_locks released"); HOLDS(o, 0, 0, 0, "make_unique_locks released"); break; }
      case 11: { bool own = chance(60); UL l(m, defer_lock); if (own) l.lock(); int e = m.x; { reverse_lock<UL> r(l); HOLDS(m, 0, 0, 0, "reverse_lock"); VT_CHECK(!l.owns_lock() && l.mutex() == 0, "owns", "reverse_lock left the lock with its mutex"); if (thr) throw FnError(); } HOLDS(m, 1, 0, 0, "after reverse_lock"); VT_CHECK(l.owns_lock() && l.mutex() == &m, "owns", "reverse_lock did not give the mutex back"); (void)e; break; }
      case 12: { UL l; { reverse_lock<UL> r(l); HOLDS(m, 0, 0, 0, "reverse_lock of nothing"); } VT_CHECK(!l.owns_lock() && !l.mutex(), "owns", "reverse_lock of nothing gave a mutex"); break; }
      default: { bool own = chance(50); UL l(m, defer_lock); if (own) l.lock(); { nested_strict_lock<UL> g(l); VT_CHECK(g.owns_lock() && g.owns_lock(&m) && g.mutex() == &m && !l.owns_lock(), "owns", "nested_strict_lock reports wrongly"); HOLDS(m, 1, 0, 0, "nested_strict_lock"); if (thr) throw FnError(); } VT_CHECK(l.owns_lock() && l.mutex() == &m, "owns", "nested_strict_lock did not give ownership back"); HOLDS(m, 1, 0, 0, "after nested_strict_lock"); break; }
    } got = true;
  } catch (FnError&) { VT_CHECK(thr, "error", "unexpected exception"); got = true; vt_count("guarded_function_threw", 1); } catch (RmError&) { rmthrew = true; vt_count("mutex_threw", 1); }
  VT_CHECK(got || rmthrew, "error", "impossible"); VT_CHECK(!(rmthrew && !m.threw), "error", "invented exception");
  HOLDS(m, 0, 0, 0, "after the guard"); vt_count("operations_checked", 1); vt_outcome(f * 8 + thr * 4 + rmthrew);
}
SCENARIO(upgrade_to_unique, F_NATIVE) {
  RM a, b; {
    GL ga(a), gb(b); bool thr = chance(20); 
    try { if (thr) { a.arm = true; } upgrade_to_unique_lock<RM> e(ga); VT_CHECK(!thr, "error", "upgrade_to_unique_lock swallowed an exception"); HOLDS(a, 1, 0, 0, "upgrade_to_unique_lock"); VT_CHECK(e.owns_lock() && bool(e) && e.mutex() == &a && !ga.owns_lock(), "owns", "upgrade_to_unique_lock reports wrongly");
      switch (vt_rnd(5)) { case 0: break;
        case 1: { upgrade_to_unique_lock<RM> e2(boost::move(e)); VT_CHECK(e2.owns_lock() && !e.owns_lock(), "owns", "move of upgrade_to_unique_lock"); HOLDS(a, 1, 0, 0, "moved upgrade_to_unique_lock"); break; }
        case 2: { upgrade_to_unique_lock<RM> e2(gb); HOLDS(b, 1, 0, 0, "second upgrade"); e2.swap(e); VT_CHECK(e2.mutex() == &a && e.mutex() == &b, "mutex", "swap of upgrade_to_unique_lock"); break; }
        case 3: { upgrade_to_unique_lock<RM> e2(gb); e2 = boost::move(e); HOLDS(b, 0, 0, 1, "assigned-over upgrade_to_unique_lock restores its source"); VT_CHECK(gb.owns_lock() && e2.mutex() == &a, "owns", "move assignment of upgrade_to_unique_lock"); HOLDS(a, 1, 0, 0, "moved upgrade_to_unique_lock"); break; }
        default: { b.lock_upgrade(); b.unlock_upgrade(); break; } }
    } catch (RmError&) { VT_CHECK(thr, "error", "invented exception"); vt_count("mutex_threw", 1); }
    HOLDS(a, 0, 0, 1, "after upgrade_to_unique_lock"); HOLDS(b, 0, 0, 1, "after upgrade_to_unique_lock"); VT_CHECK(ga.owns_lock() && ga.mutex() == &a && gb.owns_lock() && gb.mutex() == &b, "owns", "upgrade_to_unique_lock did not restore its source");
  } HOLDS(a, 0, 0, 0, "end"); HOLDS(b, 0, 0, 0, "end"); vt_count("operations_checked", 1);
}
SCENARIO(try_wrapper, F_NATIVE) {
  typedef boost::detail::try_lock_wrapper<RM> T; RM m; {
    m.deny = chance(40); T a(m); VT_CHECK(a.owns_lock() == !m.deny && bool(a) == !m.deny && a.mutex() == &m, "owns", "scoped_try_lock reports wrongly"); HOLDS(m, !m.deny, 0, 0, "scoped_try_lock"); bool own = !m.deny;
    T d(m, defer_lock); VT_CHECK(!d.owns_lock(), "owns", "deferred scoped_try_lock"); 
    m.deny = chance(40); int r = 0; bool rv = false; try { rv = a.try_lock(); } catch (lock_error& e) { r = 1; VT_CHECK(own && e.native_error() == system::errc::resource_deadlock_would_occur, "error", "scoped_try_lock error %d", e.native_error()); } VT_CHECK(r == own, "error", "scoped_try_lock took a lock it already had"); if (!own) { VT_CHECK(rv == !m.deny, "result", "scoped_try_lock"); own = rv; }
    T b(boost::move(a)); VT_CHECK(b.owns_lock() == own && !a.owns_lock() && !a.mutex(), "owns", "moved scoped_try_lock"); HOLDS(m, own, 0, 0, "moved scoped_try_lock");
    d = boost::move(b); VT_CHECK(d.owns_lock() == own && !b.owns_lock(), "owns", "assigned scoped_try_lock"); HOLDS(m, own, 0, 0, "assigned scoped_try_lock");
    swap(a, d); VT_CHECK(a.owns_lock() == own && !d.owns_lock(), "owns", "swapped scoped_try_lock");
    if (own && chance(50)) { a.unlock(); own = false; try { a.unlock(); vt_fail("error", "scoped_try_lock unlocked twice"); } catch (lock_error& e) { VT_CHECK(e.native_error() == system::errc::operation_not_permitted, "error", "code %d", e.native_error()); } }
    HOLDS(m, own, 0, 0, "scoped_try_lock"); if (!own && chance(50)) { a.lock(); own = true; } if (chance(30)) { RM* p = a.release(); VT_CHECK(p == &m && !a.owns_lock(), "owns", "release"); if (own) m.unlock(); } }
  HOLDS(m, 0, 0, 0, "after scoped_try_lock"); vt_count("operations_checked", 1);
}
struct Counted : RM {};
SCENARIO(adapters, F_NATIVE) {
  struct A : upgrade_lockable_adapter<RM> { RM& r() { return lockable(); } }; A a; RM& m = a.r(); m.deny = chance(40);
  typedef chrono::milliseconds MS_; chrono::steady_clock::time_point tp(chrono::seconds(4)); bool rv = true; bool timed = false; const char* want = 0; unsigned f = vt_rnd(25);
  bool isvoid = true; 
  switch (f) { case 4: case 5: case 6: m.s = 1; }
  if (f >= 13 && f <= 18) m.s = 1; if (f == 19 || f == 20) m.x = 1; if (f >= 21) m.u = 1; if (f == 1) m.x = 1; if (f == 9) m.u = 1;
#define V_(N) want = #N; a.N(); break
#define B_(N, ...) want = #N; isvoid = false; rv = a.N(__VA_ARGS__); break
  switch (f) { case 0: V_(lock); case 1: V_(unlock); case 2: B_(try_lock); case 3: timed = true; if (chance(50)) { B_(try_lock_for, MS_(4000)); } B_(try_lock_until, tp);
    case 4: V_(lock_shared); case 5: B_(try_lock_shared); case 6: V_(unlock_shared); case 7: timed = true; if (chance(50)) { B_(try_lock_shared_for, MS_(4000)); } B_(try_lock_shared_until, tp);
    case 8: V_(lock_upgrade); case 9: V_(unlock_upgrade); case 10: B_(try_lock_upgrade); case 11: timed = true; B_(try_lock_upgrade_until, tp); case 12: timed = true; B_(try_lock_upgrade_for, MS_(4000));
    case 13: B_(try_unlock_shared_and_lock); case 14: timed = true; B_(try_unlock_shared_and_lock_until, tp); case 15: timed = true; B_(try_unlock_shared_and_lock_for, MS_(4000)); 
    case 16: B_(try_unlock_shared_and_lock_upgrade); case 17: timed = true; B_(try_unlock_shared_and_lock_upgrade_until, tp); case 18: timed = true; B_(try_unlock_shared_and_lock_upgrade_for, MS_(4000));
    case 19: V_(unlock_and_lock_shared); case 20: V_(unlock_and_lock_upgrade); case 21: V_(unlock_upgrade_and_lock); case 22: V_(unlock_upgrade_and_lock_shared); case 23: B_(try_unlock_upgrade_and_lock); default: timed = true; if (chance(50)) { B_(try_unlock_upgrade_and_lock_until, tp); } B_(try_unlock_upgrade_and_lock_for, MS_(4000)); }
  VT_CHECK(m.calls == 1 && !strcmp(m.last, want), "forward", "%s of the adapter called %s (%u calls)", want, m.last, m.calls);
  if (!isvoid) VT_CHECK(rv == m.last_ret, "forward", "%s of the adapter returned %d, its mutex %d", want, (int)rv, (int)m.last_ret);
  if (timed) VT_CHECK(m.ns == 4000000000ll, "forward", "%s of the adapter passed another time", want);
  vt_count("operations_checked", 1); m.x = m.s = m.u = 0;
}
// The lock types over the library's own mutexes: what they claim is what another thread finds.
template<class M> bool free_for_others(M& m) { bool r = false; Par p; p.go([&] { r = m.try_lock(); if (r) m.unlock(); }); p.join(); return r; }
template<class M> void real() {
  M* mp = new M; M& m = *mp; unique_lock<M> l[2] = { unique_lock<M>(m, defer_lock), unique_lock<M>() }; 
  int own = -1;
  for (int q = 0; q < 8; ++q) { int i = vt_rnd(2); Exp e = !l[i].mutex() ? NOMUTEX : l[i].owns_lock() ? DEADLK : OK_;
    switch (vt_rnd(7)) {
      case 0: if (e == OK_ && own < 0) { l[i].lock(); own = i; } break;
      case 1: if (e != OK_) { int code = 0; try { if (chance(50)) l[i].lock(); else l[i].try_lock(); } catch (lock_error& x) { code = x.native_error(); } VT_CHECK(code == (e == NOMUTEX ? system::errc::operation_not_permitted : system::errc::resource_deadlock_would_occur), "error", "code %d", code); vt_count("misuse_refused", 1); } break;
      case 2: if (own == i) { l[i].unlock(); own = -1; } break;
      case 3: l[i].swap(l[1 - i]); if (own >= 0) own = 1 - own; break;
      case 4: if (own < 0) { unique_lock<M> t(m, try_to_lock); VT_CHECK(t.owns_lock(), "owns", "try_to_lock on a free mutex"); l[i] = boost::move(t); own = i; if (l[1 - i].mutex() == 0) break; } break;
      case 5: { unique_lock<M> t(boost::move(l[i])); VT_CHECK(!l[i].mutex() && t.owns_lock() == (own == i), "owns", "move"); if (own == i) own = -1; break; }
      default: VT_CHECK(l[i].owns_lock() == (own == i), "owns", "owns_lock %d", (int)l[i].owns_lock()); }
    VT_CHECK(free_for_others(m) == (own < 0), "holds", "the mutex is %s although the lock objects say otherwise", own < 0 ? "held" : "free"); vt_count("operations_checked", 1); }
  l[0] = unique_lock<M>(); l[1] = unique_lock<M>(); VT_CHECK(free_for_others(m), "holds", "the mutex stays held after all locks are gone"); delete mp;
}
SCENARIO(real_mutex, F_NATIVE | F_SLOW) { real<mutex>(); }
SCENARIO(real_timed_mutex, F_NATIVE | F_SLOW) { real<timed_mutex>(); }
SCENARIO(real_recursive_mutex, F_NATIVE | F_SLOW) { real<recursive_mutex>(); }
SCENARIO(real_recursive_timed_mutex, F_NATIVE | F_SLOW) { real<recursive_timed_mutex>(); }
SCENARIO(real_shared_mutex, F_NATIVE | F_SLOW) { real<shared_mutex>(); }
