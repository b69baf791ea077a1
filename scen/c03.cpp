// C03: timed acquisition.  Every time type on every timed lockable, directly and through the lock objects.
#include "t.hpp"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/lock_types.hpp>
#if defined V2M
#include <boost/thread/v2/shared_mutex.hpp>
#else
#include <boost/thread/shared_mutex.hpp>
#endif
using namespace boost;

template<class M, class T> bool excl(M& m, T const& t) { if constexpr (is_dur<T>::value) return m.try_lock_for(t); else if constexpr (is_tp<T>::value) return m.try_lock_until(t); else if constexpr (is_xt<T>::value) return m.timed_lock(system_time(t)); else return m.timed_lock(t); }
template<class M> struct Plain { typedef M Mx; static const unsigned mask = M_ALL & ~M_XT; static const char* name() { return "direct"; } M& m; Plain(M& x) : m(x) {} template<class T> bool get(T const& t) { return excl(m, t); } void put() { m.unlock(); } };
template<class M> struct PlainX : Plain<M> { static const unsigned mask = M_ALL; PlainX(M& x) : Plain<M>(x) {} template<class T> bool get(T const& t) { if constexpr (is_xt<T>::value) return this->m.timed_lock(t); else return excl(this->m, t); } };
template<class M> struct Sh : Plain<M> { Sh(M& x) : Plain<M>(x) {} template<class T> bool get(T const& t) { if constexpr (is_dur<T>::value) return this->m.try_lock_shared_for(t); else if constexpr (is_tp<T>::value) return this->m.try_lock_shared_until(t); else if constexpr (is_xt<T>::value) return false; else return this->m.timed_lock_shared(t); } void put() { this->m.unlock_shared(); } };
template<class M> struct Up : Plain<M> { Up(M& x) : Plain<M>(x) {} template<class T> bool get(T const& t) { if constexpr (is_dur<T>::value) return this->m.try_lock_upgrade_for(t); else if constexpr (is_tp<T>::value) return this->m.try_lock_upgrade_until(t); else if constexpr (is_xt<T>::value) return false; else return this->m.timed_lock_upgrade(t); } void put() { this->m.unlock_upgrade(); } };
// through a lock object: constructed with the time, or deferred and asked
template<class L, unsigned MASK> struct Lk { typedef typename L::mutex_type Mx; static const unsigned mask = MASK; Mx& m; std::unique_ptr<L> l; bool ctor; Lk(Mx& x) : m(x), ctor(chance(50)) {}
  template<class T> bool get(T const& t) { bool r = false;
    constexpr bool date = is_ptime<T>::value, pd = is_pdur<T>::value, xt = is_xt<T>::value, chr = !date && !pd && !xt;
    constexpr bool can = chr || (date && (MASK & M_PTIME)) || (pd && (MASK & M_PDUR)) || (xt && (MASK & M_XT));
    constexpr bool canctor = can && !xt && (!pd || (MASK & 128));
    if constexpr (can) {
      bool done = false;
      if constexpr (canctor) if (ctor) { l.reset(new L(m, t)); r = l->owns_lock(); done = true; }
      if (!done) { l.reset(new L(m, defer_lock)); if constexpr (is_dur<T>::value) r = l->try_lock_for(t); else if constexpr (is_tp<T>::value) r = l->try_lock_until(t); else r = l->timed_lock(t); }
    }
    VT_CHECK(l->owns_lock() == r && bool(*l) == r && l->mutex() == &m, "lockobject", "the lock object disagrees with the result of its timed operation"); return r; }
  void put() { if (chance(50)) l->unlock(); l.reset(); } ~Lk() { } };

template<class M> struct Free { static bool ok(M& m) { if (!m.try_lock()) return false; m.unlock(); return true; } };

// One holder (kind of ownership as given), released at a known moment; one contender.
template<class A, class H, class R> void duel(const char* what, H hold, R drop, bool recursive) {
  typedef typename A::Mx M; M* pm = new M; M& m = *pm; RealTrack::reset();
  bool held = chance(75), steps = chance(25); i64 hold_ns = 0; static const i64 hv[] = { 0, 500000, 2000000, 7000000, 90000000, 400000000, 1200000000ll, 5000000000ll };
  Par p; u64 rel_at = 0, rel_done = 0; bool ready = false, owned = false; 
  if (held) { hold_ns = hv[vt_rnd(8)]; 
    p.go([&, hold_ns] { hold(m); { Quiet q; owned = true; ready = true; } vt_sleep(hold_ns); { Quiet q; owned = false; rel_at = vt_now(); } drop(m); { Quiet q; rel_done = vt_now(); } }); 
    if (chance(85)) { vt_settle(); } }
  if (steps) stepper(p, 1 + vt_rnd(3));
  A a(m); Want w; u64 start = vt_now(); bool heldatstart; { Quiet q; heldatstart = ready && owned; } bool untouched; { Quiet q; untouched = !held || rel_done; }
  vt_count("timed_attempts", 1);
  bool r = timed_form(w, A::mask & 127, [&](auto t) { return a.get(t); });
  u64 now = vt_now(); bool exact = vt_exact(); bool st; { Quiet q; st = RealTrack::I().steps != w.steps0; }
  if (r) { vt_count("timed_acquired", 1); { Quiet q; VT_CHECK(!owned, "exclusion", "%s: %s reported success while another thread owns the lock", what, w.form); }
    bool other = false; Par q2; q2.go([&] { other = m.try_lock(); if (other) m.unlock(); }); q2.join(); VT_CHECK(!other, "claims", "%s: %s reported success but the lock is free", what, w.form); 
    if (exact && heldatstart && rel_done && !st) VT_CHECK(now <= rel_at + 1000000 || w.clk != STEADY, "late", "%s: %s acquired %lld ns after the lock became free", what, w.form, (long long)(now - rel_at));
    if (exact && heldatstart && !st) VT_CHECK(now <= rel_at + 1000000, "late", "%s: %s acquired %lld ns after the lock became free", what, w.form, (long long)(now - rel_at)); 
    if (exact && heldatstart && !w.never && !st) VT_CHECK(w.past ? now <= start + 100000 || st : w.late() <= w.tol(), "late", "%s: %s acquired only %lld ns after its deadline", what, w.form, (long long)w.late());
    a.put(); }
  else { vt_count("timed_refused", 1);
    VT_CHECK(w.reached(), "early", "%s: %s reported failure %lld ns before its deadline", what, w.form, (long long)w.left());
    VT_CHECK(!untouched, "refused-free", "%s: %s failed on a free lock", what, w.form);
    if (exact && !w.never) VT_CHECK(w.past ? now <= start + 100000 || st : w.late() <= w.tol(), "late", "%s: %s reported failure %lld ns after its deadline", what, w.form, (long long)w.late());
    { Quiet q; if (rel_done && exact) VT_CHECK(rel_done + 1000000 >= now || (w.clk == REAL && st), "missed", "%s: %s failed although the lock had been free for %lld ns", what, w.form, (long long)(now - rel_done)); } }
  p.join(); VT_CHECK(Free<M>::ok(m), "trace", "%s: %s left the lock unavailable", what, w.form); 
  delete pm;
}
template<class M> void lk(M& m) { m.lock(); } template<class M> void ul(M& m) { m.unlock(); }
#if !defined V2M
SCENARIO(t_timed_mutex, 0) { duel<PlainX<timed_mutex> >("timed_mutex", lk<timed_mutex>, ul<timed_mutex>, false); }
SCENARIO(t_recursive_timed_mutex, 0) { duel<Plain<recursive_timed_mutex> >("recursive_timed_mutex", lk<recursive_timed_mutex>, ul<recursive_timed_mutex>, true); }
SCENARIO(t_unique_lock_timed, 0) { duel<Lk<unique_lock<timed_mutex>, M_ALL | 128> >("unique_lock<timed_mutex>", lk<timed_mutex>, ul<timed_mutex>, false); }
SCENARIO(t_unique_lock_rectimed, 0) { duel<Lk<unique_lock<recursive_timed_mutex>, (M_ALL & ~M_XT) | 128> >("unique_lock<recursive_timed_mutex>", lk<recursive_timed_mutex>, ul<recursive_timed_mutex>, true); }
typedef shared_mutex SM;
SCENARIO(t_unique_lock_shared, 0) { duel<Lk<unique_lock<SM>, (M_ALL & ~M_XT) | 128> >("unique_lock<shared_mutex>", lk<SM>, ul<SM>, false); }
SCENARIO(t_shared_lock, 0) { duel<Lk<shared_lock<SM>, (M_ALL & ~M_XT)> >("shared_lock<shared_mutex>", lk<SM>, ul<SM>, false); }
SCENARIO(t_upgrade_lock, 0) { duel<Lk<upgrade_lock<SM>, M_CHRONO | M_FAR> >("upgrade_lock<shared_mutex>", lk<SM>, ul<SM>, false); }
// the recursive owner itself
SCENARIO(t_recursive_owner, F_ONCE) { recursive_timed_mutex m; RealTrack::reset(); int k = 1 + vt_rnd(3); for (int i = 0; i < k; ++i) m.lock(); u64 t = vt_now(); Plain<recursive_timed_mutex> a(m); Want w; bool r = timed_form(w, M_ALL & ~M_XT, [&](auto t) { return a.get(t); });
  VT_CHECK(r, "owner", "the owner's own timed acquisition (%s) was refused", w.form); VT_CHECK(!vt_exact() || vt_now() <= t + 100000, "owner", "the owner waited for itself"); for (int i = 0; i <= k; ++i) m.unlock(); bool f = false; Par p; p.go([&] { f = m.try_lock(); if (f) m.unlock(); }); p.join(); VT_CHECK(f, "owner", "still owned after as many unlocks"); }
#else
typedef thread_v2::upgrade_mutex SM; typedef thread_v2::shared_mutex SM2;
SCENARIO(t2_excl, 0) { duel<Plain<SM2> >("v2 shared_mutex", lk<SM2>, ul<SM2>, false); }
SCENARIO(t2_excl_s, 0) { duel<Plain<SM2> >("v2 shared_mutex held shared", [](SM2& m) { m.lock_shared(); }, [](SM2& m) { m.unlock_shared(); }, false); }
SCENARIO(t2_shared, 0) { duel<Sh<SM2> >("v2 shared_mutex, shared", lk<SM2>, ul<SM2>, false); }
#endif
SCENARIO(t_shared_excl, 0) { duel<Plain<SM> >("shared_mutex, exclusive", lk<SM>, ul<SM>, false); }
SCENARIO(t_shared_excl_s, 0) { duel<Plain<SM> >("shared_mutex held shared, exclusive", [](SM& m) { m.lock_shared(); }, [](SM& m) { m.unlock_shared(); }, false); }
SCENARIO(t_shared_excl_u, 0) { duel<Plain<SM> >("shared_mutex held upgrade, exclusive", [](SM& m) { m.lock_upgrade(); }, [](SM& m) { m.unlock_upgrade(); }, false); }
SCENARIO(t_shared_shared, 0) { duel<Sh<SM> >("shared_mutex, shared", lk<SM>, ul<SM>, false); }
SCENARIO(t_shared_upgrade, 0) { duel<Up<SM> >("shared_mutex, upgrade", lk<SM>, ul<SM>, false); }
SCENARIO(t_shared_upgrade_u, 0) { duel<Up<SM> >("shared_mutex held upgrade, upgrade", [](SM& m) { m.lock_upgrade(); }, [](SM& m) { m.unlock_upgrade(); }, false); }
// held exclusively, then downgraded to shared shortly before the deadline: one wait, not two
SCENARIO(t_downgrade, 0) {
  SM m; RealTrack::reset(); m.lock(); Plain<SM> a(m); i64 d = (2 + vt_rnd(50)) * 1000000; u64 t0 = 0; bool done = false;
  Par p; p.go([&] { t0 = vt_now(); bool r; switch (vt_rnd(4)) { case 0: r = m.try_lock_for(chrono::nanoseconds(d)); break; case 1: r = m.timed_lock(posix_time::microseconds(d / 1000)); break; case 2: r = m.timed_lock(get_system_time() + posix_time::microseconds(d / 1000)); break; default: r = m.try_lock_until(chrono::system_clock::now() + chrono::nanoseconds(d)); }
    VT_CHECK(!r, "exclusion", "exclusive beside a shared owner"); if (vt_exact()) VT_CHECK(vt_now() <= t0 + d + 1000000, "late", "a timed exclusive attempt returned %lld ns after its deadline", (long long)(vt_now() - t0 - d)); done = true; });
  vt_settle(); vt_sleep(d * vt_rnd(11) / 10); m.unlock_and_lock_shared(); p.join(); m.unlock_shared(); VT_CHECK(Free<SM>::ok(m), "trace", "lock unavailable");
}
