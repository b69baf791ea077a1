// C32: sleeps last at least as long as asked and only interruption ends them early.
#include "t.hpp"
#include "val.hpp"
namespace c = boost::chrono; namespace tt = boost::this_thread;
enum Fn { POINT, NOPOINT };
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
static const bool intr_cfg = true;
#else
static const bool intr_cfg = false;
struct boost_no_interruption {};
#endif
template<class T> static bool nap(Fn f, T const& t) {
  if constexpr (is_dur<T>::value) { if (f == POINT) tt::sleep_for(t); else tt::no_interruption_point::sleep_for(t); }
  else if constexpr (is_tp<T>::value) { if (f == POINT) tt::sleep_until(t); else tt::no_interruption_point::sleep_until(t); }
  else if constexpr (is_ptime<T>::value) { if (f == POINT) { if (vt_rnd(2)) tt::sleep(t); else boost::thread::sleep(t); } else tt::no_interruption_point::sleep(t); }
  else if constexpr (is_xt<T>::value) { if (f == POINT) { if (vt_rnd(2)) tt::sleep(t); else boost::thread::sleep(t); } else tt::no_interruption_point::sleep(boost::system_time(t)); }
  else { if (f == POINT) tt::sleep(t); else tt::no_interruption_point::sleep(t); } return true; }
// One sleep.  Returns whether it was interrupted.
struct Nap { Want w; u64 start, end; bool intr; };
static void one(Nap& n, Fn f, unsigned mask, i64 maxv) { n.intr = false; n.start = vt_now(); unsigned m = mask;
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
  try { timed_form(n.w, m, [&](auto t) { return nap(f, t); }, maxv); } catch (boost::thread_interrupted&) { n.intr = true; }
#else
  timed_form(n.w, m, [&](auto t) { return nap(f, t); }, maxv);
#endif
  n.end = vt_now(); vt_count(f == POINT ? "sleeps" : "uninterruptible_sleeps", 1); }
static void normal(Nap& n, const char* what) { Want& w = n.w; VT_CHECK(w.reached(), "early", "%s: %s returned %lld ns before its time", what, w.form, (long long)w.left()); bool st = RealTrack::I().steps != w.steps0; if (vt_exact() && vt_virtual()) { if (w.past) VT_CHECK(st || n.end <= n.start + 100000, "late", "%s: %s slept %lld ns although its time was past", what, w.form, (long long)(n.end - n.start)); else VT_CHECK(w.late() <= w.tol(), "late", "%s: %s returned %lld ns after its time", what, w.form, (long long)w.late()); if (!w.past) vt_count("exact_checks", 1); } if (w.past) vt_count("past_requests", 1); }
#ifdef BOOST_THREAD_USES_DATETIME
static const unsigned dt = M_PDUR | M_PTIME | M_XT;
#else
static const unsigned dt = 0;
#endif
// threads not made by the library, and main-like threads: nothing interrupts
static void plain(bool lib) { RealTrack::reset(); bool steps = chance(30); vt_signals(chance(40) ? 30 : 0); Par p; auto body2 = [&] { for (int k = 0; k < 3; ++k) { Nap n; Fn f = chance(50) ? POINT : NOPOINT; one(n, f, M_CHRONO | dt, 4000000000ll); VT_CHECK(!n.intr, "interrupt", "interrupted by nobody"); normal(n, f == POINT ? "sleep" : "uninterruptible sleep"); } };
  if (steps) stepper(p, 1 + vt_rnd(4)); int nt = 1 + vt_rnd(2); if (lib) { boost::thread* t[2] = { 0, 0 }; for (int i = 0; i < nt; ++i) t[i] = new boost::thread(body2); for (int i = 0; i < nt; ++i) { t[i]->join(); delete t[i]; } } else for (int i = 0; i < nt; ++i) p.go(body2); p.join(); }
SCENARIO(raw_threads, F_HOT) { plain(false); }
SCENARIO(lib_threads, F_HOT) { plain(true); }
// special and far values that end: negative infinity, not_a_date_time; a long relative uninterruptible sleep
SCENARIO(special_values, 0) { RealTrack::reset(); Par p; p.go([] {
#ifdef BOOST_THREAD_USES_DATETIME
  namespace q = boost::posix_time; namespace d = boost::date_time; u64 s = vt_now(); int k = vt_rnd(8); switch (k) { case 0: tt::sleep(q::time_duration(d::neg_infin)); break; case 1: tt::sleep(q::time_duration(d::not_a_date_time)); break; case 2: tt::sleep(q::ptime(d::neg_infin)); break; case 3: tt::sleep(q::ptime(d::not_a_date_time)); break; case 4: tt::no_interruption_point::sleep(q::time_duration(d::neg_infin)); break; case 5: tt::no_interruption_point::sleep(q::time_duration(d::not_a_date_time)); break; case 6: tt::no_interruption_point::sleep(q::ptime(d::neg_infin)); break; default: tt::no_interruption_point::sleep(q::ptime(d::not_a_date_time)); } if (vt_exact() && vt_virtual()) VT_CHECK(vt_now() <= s + 100000, "late", "special value %d: slept %lld ns", k, (long long)(vt_now() - s)); s = vt_now(); if (chance(50)) tt::no_interruption_point::sleep(q::time_duration(q::hours(24 * 365 * 20))); else
#else
  u64 s = vt_now();
#endif
  tt::no_interruption_point::sleep_for(c::hours(24 * 365 * 20)); VT_CHECK(vt_now() - s >= 20ull * 365 * 24 * 3600 * SEC, "early", "a long sleep lasted %llu ns", (unsigned long long)(vt_now() - s)); }); p.join(); vt_count("special_values", 1); }
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
// interruption at any moment
static void interrupted(bool forever) { RealTrack::reset(); bool steps = chance(25), twice = chance(20), dis = !forever && chance(25); Par p; if (steps) stepper(p, 1 + vt_rnd(3)); u64 called = 0, done = 0; bool fin = false, delivered = false; static const i64 nv[] = { 0, 300000, 1500000, 6000000, 50000000, 130000000, 700000000ll, 2000000000ll }; i64 d = nv[vt_rnd(8)]; bool before = chance(20);
  boost::thread t([&] { if (before) vt_settle(); int naps = forever ? 1 : 1 + vt_rnd(3); auto run = [&] { for (int k = 0; k < naps && !delivered; ++k) { Nap n; Fn f = !forever && chance(30) ? NOPOINT : POINT; unsigned mask = f == POINT ? M_CHRONO | dt | (forever ? M_SPECIAL | M_FAR : 0) : M_CHRONO | dt; if (!dt) mask &= ~M_SPECIAL; u64 c0, d0; { Quiet q; d0 = done; } one(n, f, mask, forever ? 4000000000000ll : 4000000000ll); { Quiet q; c0 = called; }
      if (n.intr) { VT_CHECK(f == POINT, "uninterruptible", "a sleep that is not an interruption point was interrupted (%s)", n.w.form); VT_CHECK(!dis, "disabled", "interrupted although interruption is disabled"); VT_CHECK(c0, "interrupt", "interrupted before anyone asked"); if (vt_exact() && vt_virtual() && d0 == 0) VT_CHECK(n.end <= c0 + 1000000, "late", "%s ended %lld ns after the interruption", n.w.form, (long long)(n.end - c0)); delivered = true; vt_count("interrupted", 1); }
      else { if (n.w.never) VT_CHECK(n.w.reached(), "early", "%s: returned from an endless sleep", n.w.form); else normal(n, f == POINT ? "interruptible sleep" : "uninterruptible sleep");
        bool sure = vt_exact() && vt_virtual() && RealTrack::I().steps == n.w.steps0; if (sure && f == POINT && !dis && !n.w.past && d0 && n.end > n.start + 100000) vt_fail("lost", "%s slept on although an interruption was pending before it began", n.w.form);
        if (sure && f == POINT && !dis && !n.w.past) { u64 dn; { Quiet q; dn = done; } if (dn) VT_CHECK((dn > n.start ? dn : n.start) + 200000 >= n.end, "lost", "%s slept on for %lld ns after being interrupted", n.w.form, (long long)(n.end - dn)); } } } };
    if (dis) { boost::this_thread::disable_interruption di; run(); vt_count("disabled", 1); } else run();
    // what was not delivered must still be there
    for (int k = 0; k < 4000; ++k) { bool dn; { Quiet q; dn = done != 0; } if (dn) break; tt::no_interruption_point::sleep_for(c::milliseconds(2)); }
    { Quiet q; VT_CHECK(done, "x", "the interrupter never ran"); } bool again = false; try { tt::interruption_point(); } catch (boost::thread_interrupted&) { again = true; } if (!delivered) { VT_CHECK(again, "lost", "an interruption that arrived during or after the sleep is lost"); vt_count("delivered_later", 1); } else if (!twice) VT_CHECK(!again, "twice", "one interruption was delivered twice"); fin = true; });
  if (before) { { Quiet q; called = vt_now(); } t.interrupt(); { Quiet q; done = vt_now(); } } else p.go([&] { if (d) vt_sleep(d); { Quiet q; called = vt_now(); } t.interrupt(); if (twice) t.interrupt(); { Quiet q; done = vt_now(); } });
  p.join(); t.join(); VT_CHECK(fin, "x", "x"); }
SCENARIO(interrupts, F_HOT) { interrupted(false); }
SCENARIO(endless, F_HOT) { interrupted(true); }
// several sleepers, one interrupted: the others sleep on
SCENARIO(others, 0) { RealTrack::reset(); boost::thread* t[3]; Nap n[3]; int v = vt_rnd(3); bool late; for (int i = 0; i < 3; ++i) t[i] = new boost::thread([&, i] { one(n[i], POINT, M_CHRONO | dt, 4000000000ll); if (!n[i].intr) normal(n[i], "sleep"); }); if (chance(50)) vt_sleep(1000000 * vt_rnd(20)); t[v]->interrupt(); for (int i = 0; i < 3; ++i) { t[i]->join(); delete t[i]; if (i != v) VT_CHECK(!n[i].intr, "interrupt", "another thread's interruption ended a sleep"); } (void)late; }
#endif
// yielding gives way: a thread that yields in a loop does not keep others from running
SCENARIO(yields, 0) { bool go = false; boost::mutex m; boost::thread t([&] { for (;;) { { boost::lock_guard<boost::mutex> l(m); if (go) return; } if (chance(50)) tt::yield(); else
#ifdef BOOST_THREAD_USES_DATETIME
    boost::thread::yield();
#else
    tt::yield();
#endif
  } }); { boost::lock_guard<boost::mutex> l(m); go = true; } t.join(); vt_count("yields", 1); }
// with real threads and real clocks
SCENARIO(real, F_NATIVE) { Par p; for (int i = 0; i < 2; ++i) p.go([] { for (int k = 0; k < 2; ++k) { c::steady_clock::time_point s = c::steady_clock::now(); c::microseconds d((i64)vt_rnd(600)); switch (vt_rnd(4)) { case 0: tt::sleep_for(d); break; case 1: tt::sleep_until(s + d); break; case 2: tt::no_interruption_point::sleep_for(d); break; default: tt::no_interruption_point::sleep_until(s + d); } VT_CHECK(c::steady_clock::now() - s >= d, "early", "a sleep was too short"); } }); p.join(); }
