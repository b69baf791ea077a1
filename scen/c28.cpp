// C28: scheduled executors run tasks not before their time, in time order.
#include "ex.hpp"
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#include <boost/thread/executors/scheduler.hpp>
namespace c = boost::chrono;
static i64 lo[64], top[64], rett[64]; static Clk clk; static bool steps; static const char* what; static bool closed_; static int workers, busy;
template<class C> struct ClkOf; template<> struct ClkOf<c::steady_clock> { static const Clk k = STEADY; }; template<> struct ClkOf<c::system_clock> { static const Clk k = REAL; };
static i64 hi() { i64 n = clk_now(clk); if (clk == REAL && steps) { RealTrack::see(); n = RealTrack::I().max; } return n; }
static void idle(void*) { if (closed_) return; int open = 0; for (int i = 0; i < ts_n; ++i) open += ts[i].open; if (open >= workers) return; i64 now = clk_now(clk);
  for (int i = 0; i < ts_n; ++i) if (ts[i].st == ACCEPTED && !ts[i].runs && top[i] <= now) { i64 since = now - top[i]; if (steps && clk == REAL) { i64 s = (i64)vt_now() - RealTrack::I().at; if (RealTrack::I().steps && s < since) since = s; } if (clk == REAL && vt_last_jump()) { i64 s = (i64)vt_now() - (i64)vt_last_jump(); if (s < since) since = s; } if (since >= (steps || (clk == REAL && !vt_exact()) ? 102000000 : 1000000)) vt_fail("late", "%s: task %d is not run although it has been due for %lld ns", what, i, (long long)since); } }
struct Init { Ts t; Init(const char* w, Clk k, int n, bool st = false) { Quiet q; what = w; clk = k; workers = n; steps = st; closed_ = false; RealTrack::reset(); vt_on_idle(&idle, 0); } ~Init() { vt_on_idle(0, 0); } };
static int task(bool nap) { Quiet q; int i = ts_n; lo[i] = top[i] = rett[i] = INT64_MAX; return ts_new([i, nap] { { Quiet q; i64 n = hi(); if (n < lo[i]) vt_fail("early", "%s: task %d was run %lld ns before its time", what, i, (long long)(lo[i] - n)); if (!steps && vt_exact() && vt_virtual() && clk_now(clk) - lo[i] > 2000000) vt_count("waited_for_worker", 1); vt_count("ran_in_time", 1); } unsigned k = vt_rnd(3); for (unsigned j = 0; j < k; ++j) vt_yield(); if (nap && chance(20)) vt_sleep(5 * MS); }); }
static i64 pick() { static const i64 v[] = { -2000000000ll, 0, 0, 1000000, 1000000, 2000000, 20000000, 50000000, 50000000, 99999000, 150000000, 1000000000, 3000000000ll, 3155760000000000000ll }; return v[vt_rnd(13 + chance(20))]; }
static const int M = 1 << S_LV | 1 << S_RV | 1 << S_FN | 1 << S_LAMBDA | 1 << S_WORK | 1 << S_CONST;
template<class F> struct By { F& f; template<class W> void submit(W&& w) { f(boost::forward<W>(w)); } };
template<class F> struct only_copies<By<F> > : std::true_type {};
template<class F> static bool by(int id, F f, int m = M) { By<F> b = { f }; return sub(b, id, m); }
enum { AT, AFTER };
// absolute or relative submission; how: a functor taking (time point | duration, callable)
template<class C, class A, class D> static bool give(int id, A at, D after, int m = M) { i64 off = pick(); typedef typename C::time_point TP; typedef typename C::duration DU; i64 n = clk_now(clk);
  if (!steps && chance(50) && off < 3000000000000ll) { { Quiet q; lo[id] = n + off / 1000 * 1000; } DU d(c::duration_cast<DU>(c::microseconds(off / 1000))); bool ok = by(id, [&](auto&& w) { after(d, boost::forward<decltype(w)>(w)); }, m); Quiet q; rett[id] = clk_now(clk); top[id] = rett[id] + off; return ok; }
  i64 t = (n + off) / 1000 * 1000; { Quiet q; lo[id] = t; } TP tp((c::duration_cast<DU>(c::nanoseconds(t)))); bool ok = by(id, [&](auto&& w) { at(tp, boost::forward<decltype(w)>(w)); }, m); Quiet q; rett[id] = clk_now(clk); top[id] = t; return ok; }
template<class E> static bool give_base(E& e, int id) { typedef typename E::clock C; typedef typename E::time_point TP; typedef typename E::duration DU; return give<C>(id, [&](TP tp, auto&& w) { e.submit_at(boost::forward<decltype(w)>(w), tp); }, [&](DU d, auto&& w) { e.submit_after(boost::forward<decltype(w)>(w), d); }); }
static void order(int n) { Quiet q; if (n == 1 && !steps) for (int i = 0; i < ts_n; ++i) for (int j = 0; j < ts_n; ++j) if (i != j && ts[j].runs && ts[i].st == ACCEPTED && top[i] < lo[j] && rett[i] < lo[j] && (!ts[i].runs || ts[j].start < ts[i].start)) vt_fail("order", "%s: task %d was run before task %d although it is due %lld ns later", what, j, i, (long long)(lo[j] - top[i])); }
// lets what is due (but for the tasks in the far future) be run
static void let_run() { bool all = false; for (int k = 0; k < 400 && !all; ++k) { vt_sleep(100 * MS); if (k > 60) vt_settle(); Quiet q; all = true; i64 mx = 0; for (int i = 0; i < ts_n; ++i) if (ts[i].st == ACCEPTED && (!ts[i].runs || ts[i].open) && top[i] < clk_now(clk) + 1000 * (i64)SEC) { all = false; if (top[i] > mx) mx = top[i]; } if (steps && k > 35 && !all && mx > clk_now(clk)) step_clock(mx - clk_now(clk) + 1000); }
  Quiet q; for (int i = 0; i < ts_n; ++i) if (ts[i].st == ACCEPTED && !ts[i].runs && top[i] < clk_now(clk)) vt_fail("lost", "%s: task %d was never run", what, i); }
// what was due when the executor was closed is still run
static i64 t0; static void close_now() { Quiet q; closed_ = true; t0 = clk_now(clk); }
static void drained() { if (steps) return; bool all = false; for (int k = 0; k < 400 && !all; ++k) { if (k > 60) vt_settle(); { Quiet q; all = true; for (int i = 0; i < ts_n; ++i) if (ts[i].st == ACCEPTED && top[i] <= t0 && (!ts[i].runs || ts[i].open)) all = false; } if (!all) vt_sleep(100 * MS); } Quiet q; for (int i = 0; i < ts_n; ++i) if (ts[i].st == ACCEPTED && top[i] <= t0) { if (!ts[i].runs) vt_fail("lost", "%s: task %d, accepted and due when the executor was closed, was never run", what, i); vt_count("drained", 1); } }
template<class E, class G> static void feed(E& e, G g, int m, bool early, Par& p) { for (int i = 0; i < m; ++i) { int k = 1 + vt_rnd(4); bool naps = chance(30); p.go([&e, g, k, naps] { for (int j = 0; j < k; ++j) { if (naps && chance(50)) vt_sleep((1 + vt_rnd(30)) * 5 * MS); int id = task(true); bool was = chance(20) && e.closed(); bool ok = g(e, id); VT_CHECK(!(was && ok), "closed", "a closed executor accepted a task"); } }); }
  if (early) p.go([&e] { for (unsigned i = vt_rnd(4); i-- > 0;) vt_sleep(vt_rnd(3) * 40 * MS); close_now(); e.close(); VT_CHECK(e.closed(), "closed", "closed() false after close()"); }); }
template<class E, class G> static void use(E& e, G g) { bool early = chance(25); Par p; feed(e, g, 1 + vt_rnd(3), early, p); if (steps) stepper(p, 1 + vt_rnd(4)); p.join(); if (!early && chance(70)) let_run(); if (early) drained(); { Quiet q; closed_ = true; } if (chance(50)) { if (!early) close_now(); e.close(); VT_CHECK(e.closed(), "closed", "closed() false after close()"); int id = task(false); VT_CHECK(!g(e, id), "closed", "%s: a closed executor accepted a task", what); if (chance(70)) drained(); } }
static void after(int n) { ts_done(what, true); order(n); no_live(what); }
struct BaseG { template<class E> bool operator()(E& e, int id) const { return give_base(e, id); } };
SCENARIO(pool, F_HOT) { int n = 1 + vt_rnd(3); Init i("scheduled_thread_pool", STEADY, n); { scheduled_thread_pool e(n); use(e, BaseG()); } after(n); }
SCENARIO(adaptor, 0) { Init i("scheduling_adaptor", STEADY, 1); { basic_thread_pool p(2); scheduling_adaptor<basic_thread_pool> e(p); VT_CHECK(&e.underlying_executor() == &p, "where", "underlying_executor"); use(e, BaseG()); } after(1); }
SCENARIO(sched_base, 0) { bool st = chance(50); if (chance(50)) { Init i("scheduler", STEADY, 1, st); { scheduler<> e; use(e, BaseG()); } after(1); } else { Init i("scheduler<system_clock>", REAL, 1, st); { scheduler<c::system_clock> e; use(e, BaseG()); } after(1); } }
// through at / after
struct AtG { template<class E> bool operator()(E& e, int id) const { typedef typename E::clock C; return give<C>(id, [&](typename C::time_point tp, auto&& w) { auto x = e.at(tp); VT_CHECK(x.closed() || &x.underlying_scheduler() == &e, "where", "underlying_scheduler"); x.submit(boost::forward<decltype(w)>(w)); x.close(); bool r = false; try { x.submit([] { }); } catch (sync_queue_is_closed&) { r = true; } VT_CHECK(x.closed() && r, "closed", "a closed at_executor accepted a task"); }, [&](typename C::duration d, auto&& w) { e.after(d).submit(boost::forward<decltype(w)>(w)); }); } };
SCENARIO(sched_at, 0) { bool st = chance(50); if (chance(50)) { Init i("scheduler::at", STEADY, 1, st); { scheduler<> e; use(e, AtG()); } after(1); } else { Init i("scheduler<system_clock>::at", REAL, 1, st); { scheduler<c::system_clock> e; use(e, AtG()); } after(1); } }
// on another executor
template<class X> struct OnG { X* x; template<class E> bool operator()(E& e, int id) const { typedef typename E::clock C; X& u = *x; return give<C>(id, [&](typename C::time_point tp, auto&& w) { if (chance(50)) { auto r = e.on(u).at(tp); r.submit(boost::forward<decltype(w)>(w)); VT_CHECK(&r.underlying_executor() == &u && &r.underlying_scheduler() == &e, "where", "underlying"); r.close(); bool t = false; try { r.submit([] { }); } catch (sync_queue_is_closed&) { t = true; } VT_CHECK(r.closed() && t, "closed", "a closed executor accepted a task"); } else e.at(tp).on(u).submit(boost::forward<decltype(w)>(w)); }, [&](typename C::duration d, auto&& w) { if (chance(50)) e.on(u).after(d).submit(boost::forward<decltype(w)>(w)); else e.after(d).on(u).submit(boost::forward<decltype(w)>(w)); }, M & ~(1 << S_CONST)); } };
static std::set<int> pw; struct Pw { Pw() { Quiet q; pw.clear(); } ~Pw() { Quiet q; std::set<int>().swap(pw); } }; static void entry(basic_thread_pool&) { Quiet q; pw.insert(vt_tid()); }
static void where() { Quiet q; for (int i = 0; i < ts_n; ++i) if (ts[i].runs && !pw.count(ts[i].tid)) vt_fail("where", "%s: task %d did not run on the executor given", what, i); vt_count("resubmitted", ts_n); }
SCENARIO(sched_on_pool, F_HOT) { bool st = chance(30); int n = 1 + vt_rnd(3); Pw w; if (chance(60)) { Init i("scheduler::on", STEADY, n, st); { basic_thread_pool u(n, &entry); OnG<basic_thread_pool> g = { &u }; { scheduler<> e; use(e, g); } u.close(); u.join(); where(); } after(n); } else { Init i("scheduler<system_clock>::on", REAL, n, st); { basic_thread_pool u(n, &entry); OnG<basic_thread_pool> g = { &u }; { scheduler<c::system_clock> e; use(e, g); } u.close(); u.join(); where(); } after(n); } }
SCENARIO(sched_on_loop, 0) { Pw w; Init i("scheduler::on(loop_executor)", STEADY, 1); { loop_executor u; Par l; l.go([&] { { Quiet q; pw.insert(vt_tid()); } u.loop(); }); OnG<loop_executor> g = { &u }; { scheduler<> e; use(e, g); } u.close(); l.join(); where(); } after(1); }
SCENARIO(sched_on_inline, 0) { Init i("scheduler::on(inline_executor)", STEADY, 1); { inline_executor u; OnG<inline_executor> g = { &u }; { scheduler<> e; use(e, g); } } after(1); }
SCENARIO(sched_on_threads, 0) { Init i("scheduler::on(thread_executor)", STEADY, 8); { thread_executor u; OnG<thread_executor> g = { &u }; { scheduler<> e; use(e, g); } } after(8); }
// a task becomes the earliest while the others are waited for
SCENARIO(new_earliest, F_HOT) { int n = 1 + vt_rnd(2); Init i("scheduled_thread_pool", STEADY, n); { scheduled_thread_pool e(n); i64 off = 400000000; for (int k = 0; k < 4; ++k) { if (chance(60)) vt_settle(); int id = task(false); i64 t = (i64)vt_now() + off; { Quiet q; lo[id] = t; } by(id, [&](auto&& w) { e.submit_at(w, c::steady_clock::time_point(c::nanoseconds(t))); }); { Quiet q; rett[id] = vt_now(); top[id] = t; } off = chance(80) ? off * 2 / 3 : pick() % 4000000000ll; } let_run(); { Quiet q; closed_ = true; } } after(n); vt_count("earliest_changed", 1); }
// tasks submit tasks
SCENARIO(chain, 0) { int n = 1 + vt_rnd(2); Init i("scheduled_thread_pool", STEADY, n); { scheduled_thread_pool e(n); std::function<void(int)> next; next = [&](int d) { int id; { Quiet q; id = ts_n; lo[id] = top[id] = rett[id] = INT64_MAX; ts_new([&, id, d] { { Quiet q; if (hi() < lo[id]) vt_fail("early", "%s: task %d was run before its time", what, id); } if (d) next(d - 1); }); lo[id] = (i64)vt_now() + 10000000; } by(id, [&](auto&& w) { e.submit_after(w, c::milliseconds(10)); }); { Quiet q; rett[id] = vt_now(); top[id] = rett[id] + 10000000; } }; next(2 + vt_rnd(3)); let_run(); let_run(); VT_CHECK(ts_all(), "lost", "a chain of tasks stopped"); { Quiet q; closed_ = true; } } after(n); }
// destruction with tasks pending or running
SCENARIO(destroyed, 0) { int n = 1 + vt_rnd(3); Init i("~scheduled_thread_pool", STEADY, n); { scheduled_thread_pool e(n); for (int k = 0; k < 4; ++k) { int id = task(false); { Quiet q; if (chance(40)) ts[id].body = [] { try { boost::this_thread::sleep_for(c::milliseconds(3)); } catch (thread_interrupted&) { vt_count("interrupted", 1); } }; } give_base(e, id); } if (chance(50)) vt_sleep(vt_rnd(100) * MS); { Quiet q; closed_ = true; } } ts_done(what, true); no_live(what); }
SCENARIO(owner_interrupted, 0) { int n = 1 + vt_rnd(3), k = vt_rnd(3); Init i("an executor whose owner is interrupted", STEADY, n); bool after = false, in = false; { basic_thread_pool u(1); boost::thread o([&] { try { { boost::this_thread::disable_interruption di; scheduled_thread_pool* p = 0; scheduler<>* s = 0; scheduling_adaptor<basic_thread_pool>* a = 0; if (k == 0) p = new scheduled_thread_pool(n); else if (k == 1) s = new scheduler<>; else a = new scheduling_adaptor<basic_thread_pool>(u); if (k == 0) for (int j = 0; j < 3; ++j) { int id = task(false); give_base(*p, id); } if (chance(30)) vt_sleep(vt_rnd(30) * MS); in = true; { boost::this_thread::restore_interruption ri(di); { Quiet q; closed_ = true; } delete p; delete s; delete a; } ts_done(what, true); } for (;;) { boost::this_thread::interruption_point(); vt_sleep(MS); } } catch (thread_interrupted&) { after = true; } }); for (unsigned j = vt_rnd(8); j-- > 0;) vt_yield(); o.interrupt(); o.join(); } VT_CHECK(in && after, "interrupt", "the interruption was lost"); no_live(what); vt_count("owner_interrupted", 1); }
SCENARIO(creation, F_FAULT) { int n = 1 + vt_rnd(3), f = vt_rnd(2), k = vt_rnd(3); Init i("creation", STEADY, n); basic_thread_pool u(1); if (f) vt_fail_new(1 + vt_rnd(12)); else vt_fail_create(1 + vt_rnd(n + 1)); bool failed = false, hit; scheduled_thread_pool* p = 0; scheduler<>* s = 0; scheduling_adaptor<basic_thread_pool>* a = 0; try { if (k == 0) p = new scheduled_thread_pool(n); else if (k == 1) s = new scheduler<>; else a = new scheduling_adaptor<basic_thread_pool>(u); } catch (thread_resource_error&) { failed = true; } catch (std::bad_alloc&) { failed = true; } hit = !vt_fail_pending(); vt_fail_new(0); vt_fail_create(0); VT_CHECK(!failed || hit, "creation", "the constructor threw for no reason"); if (!f && hit) VT_CHECK(failed, "creation", "a missing thread went unreported"); if (failed) vt_count("creation_failures", 1); { Quiet q; closed_ = true; } delete p; delete s; delete a; }
// an executor made of several is closed as soon as one of them is: what it could not run it refuses
template<class E> static bool refuses(E& e, int* hits) { bool r = false; try { e.submit([hits] { ++*hits; }); } catch (sync_queue_is_closed&) { r = true; } return r; }
SCENARIO(closed_parts, 0) { Init i("an executor with a closed part", STEADY, 1); int hits = 0, how = vt_rnd(4); { loop_executor u; scheduler<> e; c::steady_clock::time_point tp = c::steady_clock::now() + c::milliseconds(vt_rnd(30)); { Quiet q; closed_ = true; }
    auto a = e.at(tp); auto b = e.on(u).at(tp); auto d = a.on(u); VT_CHECK(!a.closed() && !b.closed() && !d.closed(), "closed", "closed() true before any close()");
    if (how & 1) e.close(); if (how & 2) u.close();
    VT_CHECK(a.closed() == ((how & 1) != 0), "closed", "at_executor::closed() is %d with scheduler %s", a.closed(), how & 1 ? "closed" : "open");
    VT_CHECK(b.closed() == (how != 0) && d.closed() == (how != 0), "closed", "resubmit_at_executor::closed() is %d, %d (closed parts: %d)", b.closed(), d.closed(), how);
    bool ra = refuses(a, &hits), rb = false, rd = false; if (how) { rb = refuses(b, &hits); rd = refuses(d, &hits); }
    VT_CHECK(ra == ((how & 1) != 0) && rb == (how != 0) && rd == (how != 0), "closed", "a submission was %s (closed parts: %d)", ra && rb && rd ? "refused" : "accepted", how);
    for (int k = 0; k < 400 && !ra; ++k) { { Quiet q; if (hits) break; } vt_sleep(MS); vt_settle(); } }
  { NoRace nr; VT_CHECK(hits == (how & 1 ? 0 : 1), "lost", "%d runs, at_executor with scheduler %s", hits, how & 1 ? "closed" : "open"); } vt_count("closed_parts", 1); }
SCENARIO(native, F_NATIVE | F_SLOW) { int K = vt_virtual() ? 3 : 30; static boost::mutex m; static long sum; sum = 0; { basic_thread_pool u(2); { scheduled_thread_pool e(2); scheduler<> s; Par p; for (int t = 0; t < 2; ++t) p.go([&] { for (int k = 0; k < K; ++k) { auto f = [] { boost::lock_guard<boost::mutex> g(m); ++sum; }; e.submit_after(f, c::microseconds(vt_rnd(500))); s.after(c::microseconds(vt_rnd(500))).submit(f); s.on(u).after(c::microseconds(vt_rnd(500))).submit(f); vt_count("tasks_run", 3); } }); p.join(); for (int k = 0; k < 2000; ++k) { { boost::lock_guard<boost::mutex> g(m); if (sum == 6 * K) break; } vt_sleep(MS); } } u.close(); u.join(); } boost::lock_guard<boost::mutex> g(m); VT_CHECK(sum == 6 * K, "lost", "%ld", sum); }
