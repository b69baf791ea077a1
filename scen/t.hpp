// Deadlines of every accepted time type, with what they promise.
#ifndef VT_T_HPP
#define VT_T_HPP
#include "h.hpp"
#include <boost/chrono/chrono.hpp>
#include <boost/chrono/system_clocks.hpp>
#include <boost/thread/thread_time.hpp>
#include <boost/thread/xtime.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <type_traits>
enum Clk { STEADY, REAL, FASTC, SLOWC };
// user clocks that run at another rate than the machine's
struct FastClock { typedef boost::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef boost::chrono::time_point<FastClock> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration((i64)vt_now() * 2 + 12345)); } };
struct SlowClock { typedef boost::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef boost::chrono::time_point<SlowClock> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration((i64)vt_now() / 2 + 777)); } };
inline i64 clk_now(Clk c) { switch (c) { case STEADY: return vt_now(); case REAL: return vt_real(); case FASTC: return FastClock::now().time_since_epoch().count(); default: return SlowClock::now().time_since_epoch().count(); } }

// The largest value the realtime clock has shown (it may be stepped by step_clock).
struct RealTrack { i64 max; unsigned steps; i64 at; static RealTrack& I() { static RealTrack t; return t; } static void reset() { Quiet q; I().max = vt_real(); I().steps = 0; I().at = 0; }
  static void see() { Quiet q; i64 r = vt_real(); if (r > I().max) I().max = r; } };
inline void step_clock(i64 d) { Quiet q; RealTrack::see(); RealTrack::I().steps++; RealTrack::I().at = vt_now(); vt_step_clock(d); RealTrack::I().at = vt_now(); RealTrack::see(); vt_count("clock_steps", 1); }

struct Want { Clk clk; i64 dl; bool never, past; i64 slack; const char* form; i64 t0; i64 realmax0; unsigned steps0;
  bool reached() { if (past) return true; i64 n = clk_now(clk); if (clk == REAL) { if (RealTrack::I().steps != steps0) { RealTrack::see(); if (RealTrack::I().max > n) n = RealTrack::I().max; } } return n + slack >= dl; }
  i64 late() { if (never) return -1; i64 d = clk_now(clk) - dl; if (clk == REAL && RealTrack::I().steps != steps0) { i64 since = (i64)vt_now() - RealTrack::I().at; return d < since ? d : since; } return clk == FASTC ? d / 2 : clk == SLOWC ? d * 2 : d; }   // in monotonic ns (approx)
  i64 left() { return -late(); }
  // (after a step of the clock: since the step, if the step is what made the deadline pass)
  // how late a return is tolerated when time only moves while everybody waits
  i64 tol() { if (clk == FASTC || clk == SLOWC || RealTrack::I().steps != steps0) return 101 * 1000000ll; return 1000000; }
};
enum Mask { M_DUR = 1, M_TP = 2, M_PDUR = 4, M_PTIME = 8, M_XT = 16, M_SPECIAL = 32, M_FAR = 64, M_CHRONO = 3, M_ALL = 127 };
template<class T> struct is_dur : std::false_type {}; template<class R, class P> struct is_dur<boost::chrono::duration<R, P> > : std::true_type {};
template<class T> struct is_tp : std::false_type {}; template<class C, class D> struct is_tp<boost::chrono::time_point<C, D> > : std::true_type {};
template<class T> struct is_pdur : std::is_same<T, boost::posix_time::time_duration> {};
template<class T> struct is_ptime : std::is_same<T, boost::posix_time::ptime> {};
template<class T> struct is_xt : std::is_same<T, boost::xtime> {};

inline i64 pick_ns(i64 maxv) { static const i64 v[] = { -3600000000000ll, -5000000000ll, -1, 0, 0, 1, 1000, 999999, 1000000, 2500000, 7000001, 30000000, 99999999, 100000001, 250000000, 1000000000, 1500000000, 3000000000ll, 3600000000000ll };
  i64 r; do r = v[vt_rnd(sizeof v / sizeof *v)]; while (r > maxv); return r; }
inline i64 cdiv(i64 a, i64 b) { i64 q = a / b; return q * b < a ? q + 1 : q; }
inline i64 fldiv(i64 a, i64 b) { i64 q = a / b; return q * b > a ? q - 1 : q; }

// Calls f with a randomly chosen time value of an accepted type; fills w with what it means.
template<class F> bool timed_form(Want& w, unsigned mask, F f, i64 maxv = 4000000000000ll) {
  namespace c = boost::chrono; namespace p = boost::posix_time;
  i64 ns = pick_ns(maxv); w.never = w.past = false; w.slack = 0; w.steps0 = RealTrack::I().steps;
  { Quiet q; RealTrack::see(); } w.t0 = vt_now();
  auto rel = [&](i64 d) { w.clk = STEADY; w.dl = (i64)vt_now() + d; w.past = d <= 0; };
  auto at = [&](Clk k, i64 t) { w.clk = k; w.dl = t; w.past = t <= clk_now(k); };
  for (;;) switch (vt_rnd(24)) {
    case 0: if (!(mask & M_DUR)) break; w.form = "nanoseconds"; rel(ns); return f(c::nanoseconds(ns));
    case 1: if (!(mask & M_DUR)) break; w.form = "microseconds"; rel(fldiv(ns, 1000) * 1000); return f(c::microseconds(fldiv(ns, 1000)));
    case 2: if (!(mask & M_DUR)) break; w.form = "milliseconds"; rel(fldiv(ns, 1000000) * 1000000); return f(c::milliseconds(fldiv(ns, 1000000)));
    case 3: if (!(mask & M_DUR)) break; w.form = "seconds"; rel(fldiv(ns, 1000000000) * 1000000000); return f(c::seconds(fldiv(ns, 1000000000)));
    case 4: { if (!(mask & M_DUR)) break; w.form = "thirds of a millisecond"; i64 k = fldiv(ns, 333333); if (k > 100000) k = 100000; rel(cdiv(k * 1000000, 3)); return f(c::duration<i64, boost::ratio<1, 3000> >(k)); }
    case 5: { if (!(mask & M_DUR)) break; w.form = "double seconds"; rel(ns); w.slack = 2000; return f(c::duration<double>(ns / 1e9)); }
    case 6: { if (!(mask & M_DUR)) break; w.form = "double milliseconds"; rel(ns); w.slack = 2000; return f(c::duration<double, boost::milli>(ns / 1e6)); }
    case 7: { if (!(mask & M_DUR) || maxv < 3600000000000ll) break; int h = (int)vt_rnd(3) - 1; w.form = "hours"; rel(h * 3600000000000ll); return f(c::hours(h)); }
    case 8: case 9: if (!(mask & M_TP)) break; w.form = "steady_clock time point"; at(STEADY, (i64)c::steady_clock::now().time_since_epoch().count() + ns); return f(c::steady_clock::time_point(c::nanoseconds(w.dl)));
    case 10: { if (!(mask & M_TP)) break; w.form = "steady_clock time point in milliseconds"; i64 t = fldiv((i64)vt_now() + ns, 1000000); at(STEADY, t * 1000000); return f(c::time_point<c::steady_clock, c::milliseconds>(c::milliseconds(t))); }
    case 11: case 12: { if (!(mask & M_TP)) break; w.form = "system_clock time point"; i64 t = (i64)vt_real() + ns; typedef c::system_clock::duration D; i64 k = fldiv(t, 1000000000ll * D::period::num / D::period::den); at(REAL, k * (1000000000ll * D::period::num / D::period::den)); return f(c::system_clock::time_point(D(k))); }
    case 13: { if (!(mask & M_TP)) break; w.form = "system_clock time point in microseconds"; i64 t = fldiv((i64)vt_real() + ns, 1000); at(REAL, t * 1000); return f(c::time_point<c::system_clock, c::microseconds>(c::microseconds(t))); }
    case 14: { if (!(mask & M_TP)) break; w.form = "time point of a fast clock"; at(FASTC, clk_now(FASTC) + ns); return f(FastClock::time_point(c::nanoseconds(w.dl))); }
    case 15: { if (!(mask & M_TP)) break; w.form = "time point of a slow clock"; at(SLOWC, clk_now(SLOWC) + ns); return f(SlowClock::time_point(c::nanoseconds(w.dl))); }
    case 16: { if (!(mask & M_TP)) break; w.form = "steady_clock time point in thirds of a millisecond"; i64 k = fldiv(((i64)vt_now() + ns) / 1000 * 3, 1000); at(STEADY, cdiv(k * 1000000, 3)); return f(c::time_point<c::steady_clock, c::duration<i64, boost::ratio<1, 3000> > >(c::duration<i64, boost::ratio<1, 3000> >(k))); }
    case 17: case 18: { if (!(mask & M_PDUR)) break; w.form = "posix_time duration"; i64 u = fldiv(ns, 1000); rel(u * 1000); return f(p::time_duration(p::microseconds(u))); }
    case 19: { if (!(mask & M_PTIME)) break; w.form = "absolute posix_time"; p::ptime t = boost::get_system_time() + p::microseconds(fldiv(ns, 1000)); at(REAL, (t - p::from_time_t(0)).total_microseconds() * 1000); return f(t); }
    case 20: { if (!(mask & M_XT)) break; w.form = "xtime"; i64 t = (i64)vt_real() + ns; boost::xtime x; x.sec = fldiv(t, 1000000000); x.nsec = t - fldiv(t, 1000000000) * 1000000000; x.nsec = x.nsec / 1000 * 1000; at(REAL, (i64)x.sec * 1000000000 + x.nsec); return f(x); }
    case 21: { if (!(mask & M_SPECIAL) || !(mask & (M_PDUR | M_PTIME))) break; bool d = (mask & M_PDUR) && (!(mask & M_PTIME) || chance(50)); unsigned k = vt_rnd(3); w.clk = STEADY; w.dl = (i64)vt_now() + (k ? 0 : 50ll * 365 * 24 * 3600 * 1000000000); w.never = k == 0; w.past = k != 0; boost::date_time::special_values sv = k == 0 ? boost::date_time::pos_infin : k == 1 ? boost::date_time::neg_infin : boost::date_time::not_a_date_time;
      w.form = k == 0 ? (d ? "infinite posix_time duration" : "posix_time positive infinity") : k == 1 ? (d ? "negative infinite posix_time duration" : "posix_time negative infinity") : (d ? "not_a_date_time duration" : "not_a_date_time");
      if (d) return f(p::time_duration(sv)); return f(p::ptime(sv)); }
    case 22: { if (!(mask & M_FAR)) break; w.never = true; w.clk = STEADY; i64 d = 3600ll * 24 * 365 * (chance(50) ? 20 : 60); w.dl = (i64)vt_now() + d * 1000000000 - 7200000000000ll * 2; 
      if ((mask & M_TP) && chance(50)) { w.form = "far system_clock time point"; return f(c::system_clock::time_point(c::seconds(d + vt_real() / 1000000000))); }
      if ((mask & M_PTIME) && chance(50)) { w.form = "far absolute posix_time"; return f(boost::get_system_time() + p::hours(d / 3600)); }
      if ((mask & M_PDUR) && chance(50)) { w.form = "far posix_time duration"; return f(p::time_duration(p::hours(d / 3600))); }
      if (mask & M_DUR) { w.form = "far duration"; return f(c::seconds(d)); } break; }
    case 23: { if (!(mask & M_TP)) break; w.past = true; w.form = "time point at or before the epoch"; i64 s = -(i64)vt_rnd(3); switch (vt_rnd(3)) { case 0: at(REAL, s); return f(c::time_point<c::system_clock, c::nanoseconds>(c::nanoseconds(s))); case 1: at(STEADY, s); return f(c::steady_clock::time_point(c::nanoseconds(s))); default: at(REAL, s * 1000000000); return f(c::time_point<c::system_clock, c::seconds>(c::seconds(s))); } }
  }
}
// A thread that steps the realtime clock now and then.
inline void stepper(Par& p, int n) { p.go([n] { for (int i = 0; i < n; ++i) { vt_sleep((vt_rnd(5) + 1) * 40000000ull); static const i64 d[] = { 5000000000ll, -5000000000ll, 3600000000000ll, -20000000000ll, 1000000, -1000000, 100000000 }; step_clock(d[vt_rnd(7)]); } }); }
#endif
