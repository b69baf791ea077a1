// C01 / C02: exclusive mutexes.  Random programs of every acquisition form on every exclusive mutex type.
#include "h.hpp"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/lock_traits.hpp>
using namespace boost;

template<class M> struct Tr { static const bool timed = false, rec = false; };
template<> struct Tr<timed_mutex> { static const bool timed = true, rec = false; };
template<> struct Tr<recursive_mutex> { static const bool timed = false, rec = true; };
template<> struct Tr<recursive_timed_mutex> { static const bool timed = true, rec = true; };

template<class M, bool T> struct TimedOps { static bool go(M& m, unsigned) { return m.try_lock(); } };
template<class M> struct TimedOps<M, true> { static bool go(M& m, unsigned form) {
  chrono::microseconds d(vt_rnd(6) * 1500);
  switch (form % 6) {
    case 0: return m.try_lock_for(d);
    case 1: return m.try_lock_until(chrono::steady_clock::now() + d);
    case 2: return m.try_lock_until(chrono::system_clock::now() + d);
    case 3: return m.timed_lock(posix_time::microseconds(d.count()));
    case 4: return m.timed_lock(get_system_time() + posix_time::microseconds(d.count()));
    default: return m.try_lock_for(chrono::nanoseconds(d.count() * 1000 + 1));
  } } };

template<class M> struct World { M m; Shadow s; Pay p; World(const char* k) : s(k) {} };

// acquire in a random form; true when owned
template<class M> bool acquire(World<M>& w, unsigned mode) {
  if (mode == 0) { u64 f = w.s.call("lock", true); w.m.lock(); w.s.got(f); return true; }
  if (mode == 1) { u64 f = w.s.call("try_lock", false); bool r = w.m.try_lock(); if (r) w.s.got(f); else w.s.missed(f, "try_lock"); return r; }
  u64 f = w.s.call("timed lock", false); bool r = TimedOps<M, Tr<M>::timed>::go(w.m, vt_rnd(6)); if (r) w.s.got(f); else w.s.missed(f, "a timed lock"); return r;
}
template<class M> void release(World<M>& w) { w.s.releasing(); w.m.unlock(); w.s.released(); }

template<class M> void body(World<M>& w, int ops) {
  for (int i = 0; i < ops; ++i) {
    if (!acquire(w, vt_rnd(Tr<M>::timed ? 3 : 2) * (vt_rnd(3) ? 1 : 0))) { if (chance(30)) vt_yield(); continue; }
    w.p.bump();
    int depth = 1; 
    if (Tr<M>::rec) { int want = vt_rnd(4); for (int k = 0; k < want; ++k) { unsigned md = vt_rnd(Tr<M>::timed ? 3 : 2); bool r = acquire(w, md); VT_CHECK(r, "recursive-refused", "the owner's own acquisition (form %u) was refused at depth %d", md, depth); ++depth;
        if (chance(30)) { release(w); --depth; } w.p.bump(); } }
    if (chance(15)) vt_sleep(vt_rnd(5) * 1000000); 
    w.s.check_mine();
    while (depth-- > 0) { w.p.bump(); release(w); if (depth > 0) w.s.check_mine(); }
  }
}
template<class M> void mutual(const char* key) {
  World<M>* w; { w = new World<M>(key); }
  vt_on_idle(&Shadow::idle, &w->s);
  { Par p; int n = 2 + vt_rnd(3); for (int i = 0; i < n; ++i) { int ops = 1 + vt_rnd(5); p.go([w, ops] { body(*w, ops); }); } p.join(); }
  vt_on_idle(0, 0);
  VT_CHECK(w->p.ok(), "payload", "guarded data torn"); vt_outcome(w->p.a * 64 + w->s.fails.size());
  w->s.finish(); VT_CHECK(w->s.owner == -1, "x", "owner left");
  delete w;
}
SCENARIO(mutex, F_NATIVE) { mutual<mutex>("mutex"); }
SCENARIO(timed_mutex, F_NATIVE) { mutual<timed_mutex>("timed_mutex"); }
SCENARIO(recursive_mutex, F_NATIVE) { mutual<recursive_mutex>("recursive_mutex"); }
SCENARIO(recursive_timed_mutex, F_NATIVE) { mutual<recursive_timed_mutex>("recursive_timed_mutex"); }

// Handing over: a waiter acquires after one release, nothing else happening; timed waiters too.
template<class M> void handover(const char* key) {
  World<M> w(key); vt_on_idle(&Shadow::idle, &w.s);
  int n = 1 + vt_rnd(4); int got = 0;
  { u64 f = w.s.call("lock", true); w.m.lock(); w.s.got(f); }
  Par p; for (int i = 0; i < n; ++i) p.go([&] {
    bool timed = Tr<M>::timed && chance(30); u64 f = w.s.call(timed ? "timed lock" : "lock", !timed); 
    if (timed) { bool r = TimedOps<M, Tr<M>::timed>::go(w.m, vt_rnd(6)); if (!r) { w.s.missed(f, "a timed lock"); f = w.s.call("lock", true); w.m.lock(); } }
    else w.m.lock();
    w.s.got(f); w.p.bump(); { Quiet q; got++; } if (chance(30)) vt_sleep(3000000); release(w); });
  if (chance(60)) vt_settle(); if (chance(30)) vt_sleep(vt_rnd(8) * 1000000);
  w.p.bump(); release(w); p.join(); vt_on_idle(0, 0); w.s.finish();
  VT_CHECK(got == n, "handover", "%d of %d waiters acquired", got, n);
}
SCENARIO(handover_mutex, 0) { handover<mutex>("mutex"); }
SCENARIO(handover_timed, F_HOT) { handover<timed_mutex>("timed_mutex"); }
SCENARIO(handover_rec, 0) { handover<recursive_mutex>("recursive_mutex"); }
SCENARIO(handover_rectimed, F_HOT) { handover<recursive_timed_mutex>("recursive_timed_mutex"); }

// Timed waiter against a release at the deadline: either outcome, but the mutex is never lost.
template<class M> void race_deadline() {
  M m; bool owned = false; m.lock(); u64 d = (1 + vt_rnd(3)) * 1000000;
  Par p; p.go([&] { bool r = m.try_lock_for(chrono::nanoseconds(d)); if (r) { { Quiet q; VT_CHECK(!owned, "x", "two owners"); } m.unlock(); } });
  { Quiet q; owned = true; } vt_sleep(d - 1500 + vt_rnd(4) * 1000); { Quiet q; owned = false; } m.unlock(); 
  if (chance(50)) { vt_no_jump(1); bool r = m.try_lock_for(chrono::seconds(5)); VT_CHECK(r, "lost", "the mutex became unavailable after a release raced with a timeout"); m.unlock(); }
  p.join(); VT_CHECK(m.try_lock(), "lost", "nobody owns the mutex but try_lock fails"); m.unlock();
}
SCENARIO(race_deadline_timed, 0) { race_deadline<timed_mutex>(); }
SCENARIO(race_deadline_rectimed, 0) { race_deadline<recursive_timed_mutex>(); }

// Recursion: after k acquisitions, exactly k releases let another thread in.
template<class M> void counting() {
  M m; int k = 1 + vt_rnd(6); Pay pay; bool free_ = false;
  for (int i = 0; i < k; ++i) { unsigned md = vt_rnd(3); bool r = true; if (md == 0) m.lock(); else if (md == 1) r = m.try_lock(); else r = TimedOps<M, Tr<M>::timed>::go(m, vt_rnd(6)); VT_CHECK(r, "recursive-refused", "acquisition %d of the owner refused", i); }
  Par p; int n = 1 + vt_rnd(3); for (int i = 0; i < n; ++i) p.go([&] { if (chance(50)) { bool r = m.try_lock(); { Quiet q; VT_CHECK(!r || free_, "early", "try_lock by another thread succeeded while the owner still holds %d levels", k); } if (r) { pay.bump(); m.unlock(); } }
     unsigned md = vt_rnd(2); if (md == 0 || !Tr<M>::timed) m.lock(); else while (!TimedOps<M, Tr<M>::timed>::go(m, vt_rnd(6))) { } { Quiet q; VT_CHECK(free_, "early", "another thread acquired before the owner's last unlock"); } pay.bump(); m.unlock(); });
  pay.bump(); for (int i = 0; i < k; ++i) { if (i == k - 1) { Quiet q; free_ = true; } else { if (chance(30)) vt_settle(); if (chance(20)) vt_sleep(2000000); pay.bump(); } 
     if (i < k - 1 && chance(30)) { m.lock(); m.unlock(); } m.unlock(); }
  p.join(); vt_count("recursive_levels", k);
}
SCENARIO(counting_rec, F_NATIVE) { counting<recursive_mutex>(); }
SCENARIO(counting_rectimed, F_NATIVE) { counting<recursive_timed_mutex>(); }
