// C04 / C05 / C06: shared, upgrade and exclusive ownership.  RWV: 1 shared_mutex, 2 v2 upgrade_mutex, 3 v2 shared_mutex.
#include "h.hpp"
#if RWV == 1
#include <boost/thread/shared_mutex.hpp>
typedef boost::shared_mutex RM;
#define UPG 1
#else
#include <boost/thread/v2/shared_mutex.hpp>
#if RWV == 2
typedef boost::thread_v2::upgrade_mutex RM;
#define UPG 1
#else
typedef boost::thread_v2::shared_mutex RM;
#define UPG 0
#endif
#endif
#include <boost/thread/lock_types.hpp>
#include <boost/thread/thread_time.hpp>
using namespace boost;

enum St { N, S, U, X };
enum Op { LOCK, LOCK_S, LOCK_U, TRY, TRY_S, TRY_U, TL, TL_S, TL_U, UX, UX_TRY, UX_T, SX_TRY, SX_T, SU_TRY, SU_T, REL, NOP };
static const char* opname[] = { "lock", "lock_shared", "lock_upgrade", "try_lock", "try_lock_shared", "try_lock_upgrade", "a timed lock", "a timed shared lock", "a timed upgrade lock", "unlock_upgrade_and_lock",
  "try_unlock_upgrade_and_lock", "try_unlock_upgrade_and_lock_until", "try_unlock_shared_and_lock", "try_unlock_shared_and_lock_until", "try_unlock_shared_and_lock_upgrade", "try_unlock_shared_and_lock_upgrade_until", "a release", "-" };

struct W {
  RM m; Pay p; 
  St st[64]; Op pend[64]; u64 evt; const char* focus;
  W() : evt(0), focus(0) { Quiet q; for (int i = 0; i < 64; ++i) { st[i] = N; pend[i] = NOP; } }
  int others(int t, St s) { int n = 0; for (int i = 0; i < 64; ++i) if (i != t && st[i] == s) ++n; return n; }
  int pending(int t, Op a, Op b, Op c) { int n = 0; for (int i = 0; i < 64; ++i) if (i != t && (pend[i] == a || pend[i] == b || pend[i] == c)) ++n; return n; }
  bool otherscall(int t) { for (int i = 0; i < 64; ++i) if (i != t && pend[i] != NOP) return true; return false; }
  bool conflict(int t, Op o) { // do the others' ownerships conflict with what o asks for
    int s = others(t, S), u = others(t, U), x = others(t, X);
    switch (o) { case LOCK_S: case TRY_S: case TL_S: return x; case LOCK_U: case TRY_U: case TL_U: case SU_TRY: case SU_T: return x || u; default: return s || u || x; } }
  bool enabled(int t) {
    Op o = pend[t]; if (conflict(t, o)) return false;
    int w = pending(t, LOCK, TL, TL), up = pending(t, UX, UX_T, SX_T);
    switch (o) { case LOCK: case TL: case UX: case UX_T: return true; case SX_T: return w == 0; default: return w == 0 && up == 0; } }
  static void idle(void* v) { W* w = (W*)v; for (int i = 0; i < 64; ++i) if (w->pend[i] < REL && w->enabled(i)) { char b[400]; w->dump(b); vt_fail("stranded", "thread %d stays blocked in %s although the owners permit it (%s)", i, opname[w->pend[i]], b); } }
  void dump(char* b) { static const char* sn[] = { "none", "shared", "upgrade", "exclusive" }; *b = 0; int n = 0; for (int i = 0; i < 64 && n < 330; ++i) if (st[i] != N || pend[i] != NOP) n += sprintf(b + n, " t%d:%s%s%s", i, sn[st[i]], pend[i] != NOP ? " in " : "", pend[i] != NOP ? opname[pend[i]] : ""); }
  struct C { u64 e; bool clean; };
  C call(Op o) { Quiet q; int t = vt_tid(); C c; c.clean = !otherscall(t) && !conflict(t, o); pend[t] = o; c.e = ++evt; return c; }
  void end(Op o, C c, bool ok, St to) { Quiet q; int t = vt_tid(); pend[t] = NOP;
    if (ok) { if (conflict(t, o)) { char b[400]; dump(b); vt_fail("exclusion", "thread %d obtained %s while others own it:%s", t, opname[o], b); } st[t] = to; vt_count(to == X ? "got_exclusive" : to == U ? "got_upgrade" : "got_shared", 1); if (o >= UX) vt_count("converted_up", 1); }
    else { vt_count("refused", 1); if (c.clean && c.e == evt) vt_fail("refused", "%s by thread %d failed although no other thread owned a conflicting lock or was active during the call", opname[o], t); }
    ++evt; }
  void down(St to) { Quiet q; st[vt_tid()] = to; ++evt; pend[vt_tid()] = REL; }
  void downed() { Quiet q; pend[vt_tid()] = NOP; ++evt; }
};

static chrono::nanoseconds rd() { static const u64 v[] = { 0, 1, 500000, 1000000, 2000000, 5000000 }; return chrono::nanoseconds(v[vt_rnd(6)]); }
template<class F1, class F2, class F3> static bool form(F1 f1, F2 f2, F3 f3) {
  chrono::nanoseconds d = rd(); switch (vt_rnd(5)) { case 0: return f1(d); case 1: return f2(chrono::steady_clock::now() + d); case 2: return f2(chrono::system_clock::now() + d); default: return f3(posix_time::microseconds(d.count() / 1000)); } }

static bool go(W& w, Op o) {
  RM& m = w.m; St from; { Quiet q; from = w.st[vt_tid()]; } long v0 = 0; if (from != N) v0 = w.p.a;
  W::C c = w.call(o); bool r = true; St to = X;
  switch (o) {
    case LOCK: m.lock(); break;
    case LOCK_S: m.lock_shared(); to = S; break;
    case TRY: r = m.try_lock(); break;
    case TRY_S: r = m.try_lock_shared(); to = S; break;
    case TL: r = form([&](chrono::nanoseconds d) { return m.try_lock_for(d); }, [&](auto t) { return m.try_lock_until(t); }, [&](posix_time::time_duration d) { return chance(50) ? m.timed_lock(d) : m.timed_lock(get_system_time() + d); }); break;
    case TL_S: to = S; r = form([&](chrono::nanoseconds d) { return m.try_lock_shared_for(d); }, [&](auto t) { return m.try_lock_shared_until(t); }, [&](posix_time::time_duration d) { return chance(50) ? m.timed_lock_shared(d) : m.timed_lock_shared(get_system_time() + d); }); break;
#if UPG
    case LOCK_U: m.lock_upgrade(); to = U; break;
    case TRY_U: r = m.try_lock_upgrade(); to = U; break;
    case TL_U: to = U; r = form([&](chrono::nanoseconds d) { return m.try_lock_upgrade_for(d); }, [&](auto t) { return m.try_lock_upgrade_until(t); }, [&](posix_time::time_duration d) { return chance(50) ? m.timed_lock_upgrade(d) : m.timed_lock_upgrade(get_system_time() + d); }); break;
    case UX: m.unlock_upgrade_and_lock(); break;
    case UX_TRY: r = m.try_unlock_upgrade_and_lock(); break;
    case UX_T: r = form([&](chrono::nanoseconds d) { return m.try_unlock_upgrade_and_lock_for(d); }, [&](auto t) { return m.try_unlock_upgrade_and_lock_until(t); }, [&](posix_time::time_duration) { return m.try_unlock_upgrade_and_lock_for(chrono::microseconds(700)); }); break;
    case SX_TRY: r = m.try_unlock_shared_and_lock(); break;
    case SX_T: r = form([&](chrono::nanoseconds d) { return m.try_unlock_shared_and_lock_for(d); }, [&](auto t) { return m.try_unlock_shared_and_lock_until(t); }, [&](posix_time::time_duration) { return m.try_unlock_shared_and_lock_for(chrono::microseconds(700)); }); break;
    case SU_TRY: r = m.try_unlock_shared_and_lock_upgrade(); to = U; break;
    case SU_T: to = U; r = form([&](chrono::nanoseconds d) { return m.try_unlock_shared_and_lock_upgrade_for(d); }, [&](auto t) { return m.try_unlock_shared_and_lock_upgrade_until(t); }, [&](posix_time::time_duration) { return m.try_unlock_shared_and_lock_upgrade_for(chrono::microseconds(700)); }); break;
#endif
    default: break;
  }
  w.end(o, c, r, to);
  if (from != N) VT_CHECK(w.p.a == v0, "atomic", "the data changed while %s converted an ownership that was never given up", opname[o]);
  return r;
}
static void leave(W& w) {
  St s; { Quiet q; s = w.st[vt_tid()]; } 
  switch (s) { case X: w.down(N); w.m.unlock(); break; case S: w.down(N); w.m.unlock_shared(); break;
#if UPG
    case U: w.down(N); w.m.unlock_upgrade(); break;
#endif
    default: break; }
  w.downed();
}
#if UPG
static void downgrade(W& w) {
  St s; { Quiet q; s = w.st[vt_tid()]; }
  if (s == X) { if (chance(50)) { w.down(S); w.m.unlock_and_lock_shared(); } else { w.down(U); w.m.unlock_and_lock_upgrade(); } }
  else if (s == U) { w.down(S); w.m.unlock_upgrade_and_lock_shared(); }
  w.downed(); { Quiet q; vt_count("converted_down", 1); }
}
#endif
static void touch(W& w) { St s; { Quiet q; s = w.st[vt_tid()]; } if (s == X) w.p.bump(); else if (s != N) { long a = w.p.a; vt_point(); VT_CHECK(w.p.b == a, "exclusion", "a shared owner saw data change"); } }
static void pause(W& w) { touch(w); if (chance(20)) vt_sleep(vt_rnd(5) * 600000); else if (chance(20)) vt_yield(); touch(w); }

static void body(W& w, int ops, unsigned bias) {
  for (int i = 0; i < ops; ++i) {
    static const Op in[] = { LOCK, LOCK_S, TRY, TRY_S, TL, TL_S, LOCK_U, TRY_U, TL_U };
    Op o = in[vt_rnd(UPG ? 9 : 6)]; if (chance(bias)) o = UPG && chance(40) ? LOCK_U : LOCK_S;
    if (!go(w, o)) { if (chance(30)) vt_yield(); continue; }
    pause(w);
#if UPG
    for (int k = vt_rnd(4); k > 0; --k) {
      St s; { Quiet q; s = w.st[vt_tid()]; }
      if (s == X) { downgrade(w); }
      else if (s == U) { static const Op u[] = { UX, UX_TRY, UX_T, NOP }; Op c = u[vt_rnd(4)]; if (c == NOP) downgrade(w); else go(w, c); }
      else { static const Op u[] = { SX_TRY, SX_T, SU_TRY, SU_T }; go(w, u[vt_rnd(4)]); }
      pause(w);
    }
#endif
    leave(w);
  }
}
static void finish(W& w) {
  vt_on_idle(0, 0);
  VT_CHECK(w.m.try_lock(), "leftover", "nobody owns the mutex, yet try_lock fails at the end"); w.p.bump(); w.m.unlock();
  VT_CHECK(w.m.try_lock_shared(), "leftover", "nobody owns the mutex, yet try_lock_shared fails at the end"); VT_CHECK(w.m.try_lock_shared(), "leftover", "a second shared owner is refused at the end"); 
  VT_CHECK(!w.m.try_lock(), "leftover", "try_lock succeeds with shared owners"); w.m.unlock_shared(); w.m.unlock_shared();
#if UPG
  VT_CHECK(w.m.try_lock_upgrade(), "leftover", "nobody owns the mutex, yet try_lock_upgrade fails at the end"); VT_CHECK(!w.m.try_lock_upgrade(), "leftover", "two upgrade owners at the end"); VT_CHECK(w.m.try_lock_shared(), "leftover", "shared refused beside an upgrade owner"); w.m.unlock_shared(); w.m.unlock_upgrade();
#endif
  VT_CHECK(w.m.try_lock(), "leftover", "try_lock fails at the end"); w.m.unlock();
}
static void programs(unsigned bias) {
  W w; vt_on_idle(&W::idle, &w);
  { Par p; int n = 2 + vt_rnd(4); for (int i = 0; i < n; ++i) { int ops = 1 + vt_rnd(3); p.go([&w, ops, bias] { body(w, ops, bias); }); } p.join(); }
  finish(w); vt_outcome(w.evt * 131 + w.p.a);
}
SCENARIO(rw_programs, F_NATIVE) { programs(0); }
SCENARIO(rw_readers, 0) { programs(60); }

// An attempt that cannot succeed: whoever it blocked goes on when it fails, without other help.
SCENARIO(rw_failed_attempt, F_HOT) {
  W w; vt_on_idle(&W::idle, &w);
  Op hold = chance(50) || !UPG ? LOCK_S : LOCK_U; go(w, hold); int readers = 1 + vt_rnd(2);
  Par p; { p.go([&] { if (chance(50)) vt_sleep(vt_rnd(3) * 300000); if (go(w, TL)) leave(w); 
     }); for (int i = 0; i < readers; ++i) p.go([&] { if (chance(70)) vt_sleep(vt_rnd(3) * 400000); static const Op in[] = { LOCK_S, TL_S, LOCK_U, TL_U, LOCK_S }; if (go(w, in[UPG ? vt_rnd(5) : vt_rnd(2)])) { if (chance(50)) vt_sleep(900000); leave(w); } }); 
     if (chance(30)) p.go([&] { go(w, LOCK_S); vt_sleep(vt_rnd(4) * 500000);
#if UPG
       static const Op cv[] = { SX_T, SU_T }; go(w, cv[vt_rnd(2)]);
#endif
       pause(w); leave(w); }); }
#if UPG
  vt_sleep(vt_rnd(3) * 500000); if (w.st[0] == U && chance(50)) { go(w, UX_T); }
#endif
  vt_sleep(15000000); leave(w); p.join(); finish(w);
}
// A blocked group is released by one event.
SCENARIO(rw_handover, F_HOT) {
  W w; vt_on_idle(&W::idle, &w); static const Op in[] = { LOCK, LOCK_S, LOCK_U, TL, TL_S, TL_U };
  static const Op first[] = { LOCK, LOCK_S, LOCK_U };
  go(w, first[vt_rnd(UPG ? 3 : 2)]);
  Par p; int n = 1 + vt_rnd(4); for (int i = 0; i < n; ++i) p.go([&] { static const Op noup[] = { LOCK, LOCK_S, TL, TL_S }; Op o = UPG ? in[vt_rnd(6)] : noup[vt_rnd(4)]; 
    if (go(w, o)) { pause(w);
#if UPG
      if (chance(40)) { St s; { Quiet q; s = w.st[vt_tid()]; } if (s == U) go(w, chance(50) ? UX : UX_T); else if (s == S) go(w, chance(50) ? SX_T : SU_T); else downgrade(w); pause(w); }
#endif
      leave(w); } });
  if (chance(60)) vt_settle(); touch(w);
#if UPG
  if (chance(50)) { St s; { Quiet q; s = w.st[0]; } if (s == X) downgrade(w); else if (s == U) { if (chance(50)) go(w, chance(50) ? UX : UX_T); else downgrade(w); } else go(w, chance(50) ? SX_T : SU_T); touch(w); if (chance(50)) vt_settle(); }
#endif
  leave(w); p.join(); finish(w);
}
#if UPG
// Competition for upward conversions.
SCENARIO(rw_upward, F_HOT) {
  W w; vt_on_idle(&W::idle, &w);
  Par p; int n = 2 + vt_rnd(2); for (int i = 0; i < n; ++i) p.go([&] { static const Op st[] = { LOCK_S, LOCK_S, LOCK_U, TRY_U }; if (!go(w, st[vt_rnd(4)])) return; if (chance(50)) vt_sleep(vt_rnd(3) * 400000); touch(w);
     St s; { Quiet q; s = w.st[vt_tid()]; } static const Op su[] = { SX_TRY, SX_T, SX_T, SU_T, SU_TRY }; static const Op uu[] = { UX, UX_T, UX_TRY }; bool r = go(w, s == S ? su[vt_rnd(5)] : uu[vt_rnd(3)]); touch(w);
     if (r && chance(40)) { { Quiet q; s = w.st[vt_tid()]; } if (s == U) go(w, uu[vt_rnd(3)]); else if (s == X) downgrade(w); touch(w); } if (chance(40)) vt_sleep(vt_rnd(4) * 700000); leave(w); });
  if (chance(40)) p.go([&] { if (go(w, chance(50) ? LOCK : TL)) { pause(w); leave(w); } });
  p.join(); finish(w);
}
#endif
