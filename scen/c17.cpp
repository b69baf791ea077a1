// C17: latches open exactly when their count is reached and stay open.
#include "t.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
using namespace boost;
enum { CD, TCD, TW, WAIT, TIMED, NONE };
struct LOp { int k; int r; };
struct LModel { long c; bool apply(const LOp& o) { switch (o.k) { case CD: if (c <= 0) return false; --c; return true; case TCD: if (c > 0) { --c; return o.r == (c == 0); } return o.r == 1; case TW: return o.r == (c == 0); case WAIT: return c == 0; case TIMED: return o.r == (c == 0); } return true; } std::string hash() const { return std::string((const char*)&c, sizeof c); } };
typedef Hist<LOp> H;
static const char* opname(int k) { static const char* n[] = { "count_down", "try_count_down", "try_wait", "wait", "timed wait" }; return n[k]; }
struct Rounds { H h; long start; };
template<class L> static int timed(L& l, bool plenty) { Want w; int r = 0; bool first = true; 
  auto f = [&](auto const& x) -> bool { typedef typename std::decay<decltype(x)>::type X; (void)first; if constexpr (is_dur<X>::value) r = l.wait_for(x) == cv_status::no_timeout; else if constexpr (is_tp<X>::value) r = l.wait_until(x) == cv_status::no_timeout; return r; };
  timed_form(w, plenty ? M_CHRONO | M_FAR : M_CHRONO, f, 3000000000ll); if (!r) { VT_CHECK(w.reached(), "early", "a timed wait (%s) reported a timeout %lld ns before its deadline", w.form, (long long)w.left()); if (vt_exact() && vt_virtual()) VT_CHECK(w.late() <= w.tol() || w.past, "late", "a timed wait (%s) timed out %lld ns after its deadline", w.form, (long long)w.late()); }
  vt_count("timed_waits", 1); if (!r) vt_count("timeouts", 1); return r; }
// all operations against an atomic counter
SCENARIO(operations, F_NATIVE | F_HOT) {
  RealTrack::reset(); long n = vt_rnd(5); latch* l = new latch(n); int rounds = chance(30) ? 2 : 1; 
  for (int rd = 0; rd < rounds; ++rd) { if (rd) { n = vt_rnd(4); l->reset(n); } H* hh = new H; long left = n; struct Q { long left; }; Q* q = new Q; q->left = left; Pay* pay = new Pay[8]; memset((void*)pay, 0, sizeof(Pay) * 8); int nt = 1 + vt_rnd(4); Par p;
    // counting threads share the count between them
    for (int t = 0; t < nt; ++t) p.go([=] { int m = 1 + vt_rnd(3); for (int i = 0; i < m; ++i) { LOp o = { NONE, 0 }; if (vt_virtual() && chance(10)) vt_sleep(vt_rnd(300) * 1000000ull);
        switch (vt_rnd(6)) { 
          case 0: { { Quiet qq; if (q->left <= 0) continue; --q->left; } pay[t].bump(); o.k = CD; size_t x = hh->call(o); if (chance(50)) l->count_down(); else l->signal(); hh->ret(x, o); vt_count("count_downs", 1); break; }
          case 1: { bool mine; { Quiet qq; mine = q->left > 0; if (mine) --q->left; else mine = n == 0 || false; if (!mine) continue; } o.k = TCD; size_t x = hh->call(o); o.r = l->try_count_down(); hh->ret(x, o); break; }
          case 2: { o.k = TW; size_t x = hh->call(o); o.r = l->try_wait(); hh->ret(x, o); break; }
          case 3: { { Quiet qq; if (q->left <= 0) continue; --q->left; } LOp a = { CD, 0 }, w = { WAIT, 0 }; size_t x = hh->call(a), y = hh->call(w); if (chance(50)) l->count_down_and_wait(); else l->sync(); hh->ret(x, a); hh->ret(y, w); vt_count("waits", 1); break; }
          case 4: { o.k = WAIT; size_t x = hh->call(o); l->wait(); hh->ret(x, o); vt_count("waits", 1); break; }
          case 5: { o.k = TIMED; size_t x = hh->call(o); o.r = timed(*l, true); hh->ret(x, o); break; } } } });
    // whoever is left over counts the rest down
    p.go([=] { for (;;) { { Quiet qq; if (q->left <= 0) break; --q->left; } if (vt_virtual() && chance(20)) vt_sleep(vt_rnd(300) * 1000000ull); LOp o = { CD, 0 }; size_t x = hh->call(o); l->count_down(); hh->ret(x, o); vt_count("count_downs", 1); } });
    p.join(); VT_CHECK(l->try_wait(), "stuck", "the count was exhausted but the latch is not open"); l->wait(); VT_CHECK(l->wait_for(chrono::nanoseconds(0)) == cv_status::no_timeout, "stuck", "an open latch timed out");
    { Quiet qq; Lin<LModel, LOp> lin; lin.h = hh->h; LModel m = { n }; if (!lin.check(m)) { std::string s; for (size_t i = 0; i < hh->h.size(); ++i) { char b[120]; snprintf(b, sizeof b, "[T%d %s -> %d @%llu-%llu] ", hh->h[i].tid, opname(hh->h[i].op.k), hh->h[i].op.r, (unsigned long long)hh->h[i].call, (unsigned long long)hh->h[i].ret); s += b; } vt_fail("history", "count %ld: no order of the operations explains their results: %s", n, s.c_str()); } }
    delete hh; delete q; delete[] pay; } delete l; }
// happens-before: what was done before counting is seen after waiting
SCENARIO(visibility, F_NATIVE) {
  int n = 1 + vt_rnd(3), w = 1 + vt_rnd(3); latch* l = new latch(n); Pay* pay = new Pay[4]; Par p; for (int i = 0; i < n; ++i) p.go([=] { pay[i].bump(); switch (vt_rnd(3)) { case 0: l->count_down(); break; case 1: l->try_count_down(); break; default: l->count_down_and_wait(); for (int k = 0; k < n; ++k) VT_CHECK(pay[k].ok() && pay[k].a == 1, "visibility", "work done before counting down is not visible"); } });
  for (int i = 0; i < w; ++i) p.go([=] { switch (vt_rnd(3)) { case 0: l->wait(); break; case 1: while (!l->try_wait()) vt_sleep(50000); break; default: while (l->wait_for(chrono::milliseconds(5)) == cv_status::timeout) {} } for (int k = 0; k < n; ++k) VT_CHECK(pay[k].ok() && pay[k].a == 1, "visibility", "work done before counting down is not visible"); vt_count("waits", 1); });
  p.join(); delete l; delete[] pay; }
// a waiter inside when the count reaches zero is released even if the latch is reset at once
SCENARIO(reset_after_open, 0) {
  int w = 1 + vt_rnd(3); latch* l = new latch(1); Par p; std::vector<int> ids; vt_no_jump(1); for (int i = 0; i < w; ++i) ids.push_back(p.go([=] { if (chance(50)) l->wait(); else VT_CHECK(l->wait_for(chrono::hours(1000)) == cv_status::no_timeout, "released", "a released timed wait reports a timeout"); vt_count("waits", 1); }));
  for (int k = 0; k < 20; ++k) { vt_settle(); bool all = true; for (size_t i = 0; i < ids.size(); ++i) all = all && vt_blocked(ids[i]); if (all) break; } l->count_down(); l->reset(1 + vt_rnd(3)); p.join(); delete l; { Quiet q; std::vector<int>().swap(ids); } }
// the same with every waiting form, the waiters counting down too
SCENARIO(reset_after_counts, F_HOT) {
  int w = 1 + vt_rnd(3), n = 0; int form[3]; for (int i = 0; i < w; ++i) { form[i] = vt_rnd(5); if (form[i] >= 3) ++n; } latch* l = new latch(n + 1); Par p; std::vector<int> ids; vt_no_jump(1); for (int i = 0; i < w; ++i) { int f = form[i]; ids.push_back(p.go([=] { switch (f) { case 0: l->wait(); break; case 1: VT_CHECK(l->wait_for(chrono::hours(1000)) == cv_status::no_timeout, "released", "a released timed wait reports a timeout"); break; case 2: VT_CHECK(l->wait_until(chrono::steady_clock::now() + chrono::hours(1000)) == cv_status::no_timeout, "released", "a released timed wait reports a timeout"); break; case 3: l->count_down_and_wait(); break; default: l->sync(); } vt_count("waits", 1); })); }
  for (int k = 0; k < 30; ++k) { vt_settle(); bool all = true; for (size_t i = 0; i < ids.size(); ++i) all = all && vt_blocked(ids[i]); if (all) break; } VT_CHECK(!l->try_wait(), "early", "open before the last count"); if (chance(50)) l->count_down(); else if (chance(50)) l->try_count_down(); else l->count_down_and_wait(); vt_count("count_downs", 1); if (chance(80)) l->reset(1 + vt_rnd(3)); p.join(); delete l; { Quiet q; std::vector<int>().swap(ids); } }
SCENARIO(reuse, F_NATIVE) {
  int n = 1 + vt_rnd(4), g = 1 + vt_rnd(3); latch* l = new latch(n); long* in = new long(0); for (int r = 0; r < g; ++r) { if (r) l->reset(n); *in = 0; Par p; for (int i = 0; i < n; ++i) p.go([=] { { Quiet q; ++*in; } l->count_down_and_wait(); { Quiet q; VT_CHECK(*in == n, "early", "a wait returned after %ld of %d arrivals", *in, n); } vt_count("waits", 1); }); p.join(); } delete l; delete in; }
// interruption leaves the count alone
SCENARIO(interrupted, F_NATIVE) {
  latch* l = new latch(1); bool cdw = false; (void)cdw; thread t([=] { try { if (chance(50)) l->wait(); else l->wait_for(chrono::hours(10)); } catch (thread_interrupted&) { vt_count("interrupted", 1); } }); t.interrupt(); Par p; p.go([=] { l->wait(); }); if (chance(50)) { t.join(); VT_CHECK(!l->try_wait(), "count", "an interrupted wait opened the latch"); } l->count_down(); if (t.joinable()) t.join(); p.join(); delete l; }

// completion latches: the documented way of use - all waiters are inside before the count is exhausted
static int runs; static int expect_in; static int arrived; static int crun_tid;
static void done() { Quiet q; ++runs; crun_tid = vt_tid(); VT_CHECK(arrived == expect_in, "early", "the completion function ran after %d of %d arrivals", arrived, expect_in); vt_count("completions", 1); }
static int runs2; static void done2() { Quiet q; ++runs2; vt_count("completions", 1); }
struct DoneF { void operator()() const { done(); } };
SCENARIO(completion, F_NATIVE | F_HOT) {
  int n = 2 + vt_rnd(3), g = 1 + vt_rnd(3); runs = runs2 = 0; unsigned how = vt_rnd(3); completion_latch* l = how == 0 ? new completion_latch(n, &done) : how == 1 ? new completion_latch(n, DoneF()) : new completion_latch(n); if (how == 2) l->then(&done);
  Pay* pay = new Pay[4]; for (int r = 0; r < g; ++r) { if (r) { l->reset(n); if (chance(20)) { completion_latch::completion_function old = l->then(&done2); VT_CHECK(runs2 == 0, "completion", "an uninstalled function ran"); l->then(&done); } } { Quiet q; arrived = 0; expect_in = n; } Par p; for (int i = 0; i < n; ++i) p.go([=] { pay[i].bump(); { Quiet q; ++arrived; } if (chance(50)) l->count_down_and_wait(); else l->sync(); { Quiet q; VT_CHECK(arrived == n, "early", "a wait returned after %d of %d arrivals", arrived, n); } for (int k = 0; k < n; ++k) VT_CHECK(pay[k].ok() && pay[k].a == r + 1, "visibility", "work done before counting down is not visible"); vt_count("waits", 1); }); p.join(); VT_CHECK(runs == r + 1, "completion", "%d runs of the completion function in %d rounds", runs, r + 1); }
  delete l; delete[] pay; }
SCENARIO(completion_waiters, F_HOT) {
  int n = 1 + vt_rnd(3), w = 1 + vt_rnd(3); runs = 0; runs2 = 0; completion_latch* l = new completion_latch(n, &done); bool other = chance(20); if (other) l->then(&done2); { Quiet q; arrived = 0; expect_in = n; } vt_no_jump(1); Par p; std::vector<int> ids; 
  for (int i = 0; i < w; ++i) ids.push_back(p.go([=] { switch (vt_rnd(4)) { case 0: l->wait(); break; case 1: VT_CHECK(l->wait_for(chrono::hours(1)) == cv_status::no_timeout, "released", "a released timed wait reports a timeout"); break; case 2: VT_CHECK(l->wait_until(chrono::steady_clock::now() + chrono::hours(1)) == cv_status::no_timeout, "released", "a released timed wait reports a timeout"); break; default: l->wait(); } Quiet q; VT_CHECK(arrived == n, "early", "a wait returned after %d of %d counts", arrived, n); vt_count("waits", 1); }));
  for (int k = 0; k < 30; ++k) { vt_settle(); bool all = true; for (size_t i = 0; i < ids.size(); ++i) all = all && vt_blocked(ids[i]); if (all) break; } 
  Par c; for (int i = 0; i < n; ++i) c.go([=] { { Quiet q; ++arrived; } if (chance(50)) l->count_down(); else l->signal(); { Quiet q; vt_count("count_downs", 1); } }); c.join(); p.join(); VT_CHECK((other ? runs2 : runs) == 1 && runs + runs2 == 1, "completion", "%d runs of the completion function", runs + runs2); delete l; { Quiet q; std::vector<int>().swap(ids); } }
// reset while others look at the latch or count it down (allowed as long as nobody is inside count_down_and_wait)
template<class L> static void resets(bool tw) { L* l = new L(1000); Par p; int n = 1 + vt_rnd(3); p.go([=] { for (int i = 0; i < n; ++i) { l->reset(1000); vt_yield(); } }); for (int t = 1 + vt_rnd(2); t-- > 0;) p.go([=] { for (int i = 0; i < 3; ++i) { if (tw && chance(50)) VT_CHECK(!l->try_wait(), "early", "open with a count of about 1000"); else { l->count_down(); vt_count("count_downs", 1); } } }); p.join(); VT_CHECK(!l->try_wait(), "early", "open with a count of about 1000"); delete l; vt_count("resets", n); }
SCENARIO(reset_concurrent, F_NATIVE) { if (chance(50)) resets<latch>(true); else resets<completion_latch>(true); }
SCENARIO(then_concurrent, F_NATIVE) { completion_latch* l = new completion_latch(1); runs = runs2 = 0; bool r = chance(50); Par p; for (int t = 0; t < 2; ++t) p.go([=] { for (int i = 0; i < 2; ++i) if (t && r) l->reset(1); else l->then(t ? &done : &done2); }); p.join(); l->then(&done2); { Quiet q; arrived = expect_in = 0; } if (vt_virtual()) { Par c; c.go([=] { l->wait(); }); for (int k = 0; k < 30; ++k) vt_settle(); l->count_down(); c.join(); VT_CHECK(runs == 0 && runs2 == 1, "completion", "%d runs of the function set last", runs2); } delete l; vt_count("thens", 1); }
// all operations of a completion latch, before, while and after it opens; somebody waits without a limit
SCENARIO(completion_operations, F_NATIVE | F_HOT) {
  RealTrack::reset(); long n = 1 + vt_rnd(4); runs = runs2 = 0; completion_latch* l = new completion_latch(n, &done2); H* hh = new H; struct Q { long left; }; Q* q = new Q; q->left = n; int nt = 1 + vt_rnd(3); Par p;
  auto count = [=] { { Quiet qq; if (q->left <= 0) return false; --q->left; } LOp o = { CD, 0 }; size_t x = hh->call(o); if (chance(50)) l->count_down(); else l->signal(); hh->ret(x, o); vt_count("count_downs", 1); return true; };
  for (int t = 0; t < nt; ++t) p.go([=] { int m = 1 + vt_rnd(3); for (int i = 0; i < m; ++i) { LOp o = { NONE, 0 }; if (vt_virtual() && chance(20)) vt_sleep(vt_rnd(300) * 1000000ull); switch (vt_rnd(5)) { case 0: count(); break; case 1: { o.k = TW; size_t x = hh->call(o); o.r = l->try_wait(); hh->ret(x, o); break; } case 2: { { Quiet qq; if (q->left <= 0) continue; --q->left; } LOp a = { CD, 0 }, w = { WAIT, 0 }; size_t x = hh->call(a), y = hh->call(w); if (chance(50)) l->count_down_and_wait(); else l->sync(); hh->ret(x, a); hh->ret(y, w); vt_count("waits", 1); break; } case 3: { o.k = WAIT; size_t x = hh->call(o); l->wait(); hh->ret(x, o); vt_count("waits", 1); break; } default: { o.k = TIMED; size_t x = hh->call(o); o.r = timed(*l, true); hh->ret(x, o); break; } } } });
  p.go([=] { LOp o = { WAIT, 0 }; size_t x = hh->call(o); l->wait(); hh->ret(x, o); vt_count("waits", 1); });
  p.go([=] { if (vt_virtual() && chance(30)) vt_sleep(vt_rnd(300) * 1000000ull); while (count()) {} }); p.join();
  { Quiet qq; if (runs2 != 1) vt_fail("completion", "%d runs of the completion function", runs2); } VT_CHECK(l->try_wait(), "stuck", "the count was exhausted but the latch is not open"); l->wait(); VT_CHECK(l->wait_for(chrono::nanoseconds(0)) == cv_status::no_timeout, "stuck", "an open latch timed out");
  { Quiet qq; Lin<LModel, LOp> lin; lin.h = hh->h; LModel m = { n }; if (!lin.check(m)) { std::string s; for (size_t i = 0; i < hh->h.size(); ++i) { char b[120]; snprintf(b, sizeof b, "[T%d %s -> %d @%llu-%llu] ", hh->h[i].tid, opname(hh->h[i].op.k), hh->h[i].op.r, (unsigned long long)hh->h[i].call, (unsigned long long)hh->h[i].ret); s += b; } vt_fail("history", "completion latch, count %ld: no order of the operations explains their results: %s", n, s.c_str()); } }
  delete hh; delete q; delete l; }
// interrupted waiters and interrupted counting threads
// The completion function may use its latch: the thread that runs it holds nothing.
static completion_latch* fl; static int fl_n, fl_runs, fl_how;
static void fl_done() { ++fl_runs; vt_point(); if (fl_how & 1) fl->reset(fl_n); if (fl_how & 2) { bool o = fl->try_wait(); VT_CHECK(o == !(fl_how & 1), "completion", "try_wait in the completion function gave %d", o); } if (fl_how & 4) fl->then(&fl_done); }
SCENARIO(function_uses_latch, F_NATIVE) {
  fl_n = 2 + vt_rnd(2); fl_runs = 0; fl_how = vt_rnd(8); fl = new completion_latch(fl_n, &fl_done); int g = 1 + vt_rnd(3);
  for (int r = 0; r < g; ++r) { Par p; for (int i = 0; i < fl_n; ++i) p.go([] { fl->count_down_and_wait(); }); p.join(); VT_CHECK(fl_runs == r + 1, "completion", "%d runs of the completion function in %d rounds", fl_runs, r + 1); if (!(fl_how & 1)) fl->reset(fl_n); }
  delete fl; vt_count("function_uses", 1);
}
SCENARIO(completion_interrupted, F_NATIVE) { int n = 1 + vt_rnd(2); runs = runs2 = 0; completion_latch* l = new completion_latch(n, &done2); int intr = 0; bool later = false; thread t([&] { try { if (chance(50)) l->wait(); else l->wait_for(chrono::hours(10)); } catch (thread_interrupted&) { Quiet q; ++intr; vt_count("interrupted", 1); } });
  thread c([&] { bool was = false; try { l->count_down(); for (int i = 0; i < 3000; ++i) { this_thread::interruption_point(); vt_sleep(MS); } } catch (thread_interrupted&) { was = true; } later = was; }); bool ic = chance(50); for (unsigned i = vt_rnd(6); i-- > 0;) vt_yield(); t.interrupt(); if (ic || n == 1) c.interrupt(); for (unsigned i = vt_rnd(6); i-- > 0;) vt_yield(); Par p; p.go([=] { l->wait(); }); for (int i = 1; i < n; ++i) p.go([=] { l->count_down(); }); t.join(); p.join(); if (!(ic || n == 1)) c.interrupt(); c.join(); VT_CHECK(later, "interrupt", "an interruption was lost in count_down"); { Quiet q; if (runs2 != 1) vt_fail("completion", "%d runs of the completion function", runs2); } VT_CHECK(l->try_wait(), "stuck", "the count was exhausted but the latch is not open"); delete l; }
