// C26: executors run each accepted task exactly once and drain as documented.
#include "ex.hpp"
static int n_entry; static std::set<int> workers;
struct Wk { Wk() { Quiet q; workers.clear(); n_entry = 0; } ~Wk() { Quiet q; std::set<int>().swap(workers); } };
static void entry(basic_thread_pool&) { Quiet q; ++n_entry; workers.insert(vt_tid()); }
struct Entry { std::string s; Entry() : s(40, 'e') {} void operator()(basic_thread_pool&) { VT_CHECK(s.size() == 40, "entry", "the entry function is not whole"); Quiet q; ++n_entry; workers.insert(vt_tid()); } };
static basic_thread_pool* make_pool(unsigned n) { switch (vt_rnd(4)) { case 0: return new basic_thread_pool(n); case 1: return new basic_thread_pool(n, &entry); case 2: { Entry e; basic_thread_pool* p = new basic_thread_pool(n, e); VT_CHECK(e.s.size() == 40, "entry", "the entry function given as an lvalue was changed"); return p; } default: return new basic_thread_pool(n, Entry()); } }
struct Subs { Par p; template<class E> Subs(E& e, int m, int k, int mask = (1 << S_N) - 1) { for (int i = 0; i < m; ++i) p.go([&e, k, mask] { for (int j = 0; j < k; ++j) { int id = ts_new(); bool was = chance(20) && e.closed(); bool ok = sub(e, id, mask); VT_CHECK(!(was && ok), "closed", "a closed executor accepted a task"); if (chance(20)) vt_yield(); } }); } void join() { p.join(); } };
static void where(const char* what, std::set<int>& subs, size_t n) { Quiet q; std::set<int> t; for (int i = 0; i < ts_n; ++i) if (ts[i].runs) t.insert(ts[i].tid); if (t.size() > n) vt_fail("where", "%s: tasks ran in %zu threads", what, t.size()); for (int x : t) if (subs.count(x) || (!workers.empty() && !workers.count(x))) vt_fail("where", "%s: a task ran in a thread that is none of the executor's", what); }
template<class E> void pool_use(const char* what, E& e, basic_thread_pool& p, unsigned n) { bool early = chance(30), help = chance(25); std::set<int> outs; { Quiet q; outs.insert(vt_tid()); }
  { Subs s(e, 1 + vt_rnd(3), 1 + vt_rnd(4)); Par h; if (help) h.go([&] { for (int i = 0; i < 4; ++i) if (chance(50)) e.try_executing_one(); else p.schedule_one_or_yield(); }); if (early) h.go([&] { for (unsigned i = vt_rnd(4); i-- > 0;) vt_yield(); e.close(); VT_CHECK(e.closed(), "closed", "closed() false after close()"); });
    for (auto t : s.p.v) { Quiet q; outs.insert(t->id); } if (help) { Quiet q; outs.clear(); for (auto t : h.v) if (!workers.empty()) workers.insert(t->id); } s.join(); h.join(); if (help) n += 2; }
  if (!early && chance(40)) { ts_wait(what); vt_count("all_before_close", 1); } e.close(); VT_CHECK(e.closed() && p.closed(), "closed", "closed() false after close()"); int id = ts_new(); VT_CHECK(!sub(e, id), "closed", "%s: a closed executor accepted a task", what); p.join(); ts_done(what); if (!help) where(what, outs, n); VT_CHECK(!e.try_executing_one(), "task", "something left to execute"); }
SCENARIO(pool, F_HOT) { Ts t; Wk w; unsigned n = 1 + vt_rnd(3); basic_thread_pool* p = make_pool(n); pool_use("basic_thread_pool", *p, *p, n); Quiet* q = 0; (void)q; bool en; { Quiet q; en = n_entry != 0; } if (en) { Quiet q; VT_CHECK(n_entry == (int)n, "entry", "the entry function ran %d times for %u threads", n_entry, n); } delete p; no_live("basic_thread_pool"); }
SCENARIO(pool_adaptor, 0) { Ts t; Wk w; unsigned n = 1 + vt_rnd(3); executor_adaptor<basic_thread_pool> a(n); executor& e = a; if (chance(50)) pool_use("executor_adaptor<basic_thread_pool>", e, a.underlying_executor(), n); else pool_use("executor_adaptor<basic_thread_pool>", a, a.underlying_executor(), n); }
SCENARIO(pool_ref, 0) { Ts t; Wk w; unsigned n = 1 + vt_rnd(3); basic_thread_pool p(n); if (chance(60)) { generic_executor_ref r(p), r2(r); pool_use("generic_executor_ref", r2, p, n); } else { executor_ref<basic_thread_pool> r(p); executor& e = r; pool_use("executor_ref", e, p, n); } }
// as many tasks as threads can wait for each other
SCENARIO(pool_parallel, 0) { Ts t; Wk w; unsigned n = 1 + vt_rnd(3); basic_thread_pool* p = make_pool(n); boost::mutex m; boost::condition_variable cv; unsigned in = 0; for (unsigned i = 0; i < n; ++i) { int id = ts_new([&, n] { boost::unique_lock<boost::mutex> l(m); if (++in == n) cv.notify_all(); else cv.wait(l, [&] { return in == n; }); }); sub(*p, id); } ts_wait("basic_thread_pool: tasks that wait for each other"); p->close(); p->join(); ts_done("basic_thread_pool"); delete p; vt_count("mutual", 1); }
// destruction right after submission: what runs runs once and is waited for
SCENARIO(pool_destroyed, F_HOT) { Ts t; Wk w; unsigned n = 1 + vt_rnd(3); basic_thread_pool* p = make_pool(n); { Subs s(*p, 1 + vt_rnd(2), 1 + vt_rnd(3)); s.join(); } if (chance(30)) for (unsigned i = vt_rnd(6); i-- > 0;) vt_yield(); if (chance(20)) p->close(); bool j = chance(20); if (j) { p->close(); p->join(); } delete p; ts_done("~basic_thread_pool", !j); no_live("~basic_thread_pool"); vt_count("destroyed", 1); }
// interrupt() reaches every thread of the pool, and none is lost by it
SCENARIO(pool_interrupt_all, 0) { Ts t; Wk w; unsigned n = 1 + vt_rnd(4); vt_no_jump(1); basic_thread_pool* p = make_pool(n); int in = 0, ended = 0, intr = 0; int m = n + vt_rnd(2); for (int i = 0; i < (int)n; ++i) { int id = ts_new([&] { { Quiet q; ++in; } try { boost::this_thread::sleep_for(boost::chrono::hours(1000)); } catch (thread_interrupted&) { Quiet q; ++intr; } Quiet q; ++ended; }); sub(*p, id); } bool all = false; for (int k = 0; k < 200 && !all; ++k) { vt_settle(); Quiet q; all = in == (int)n; } if (all) { for (int k = 0; k < 5; ++k) vt_settle(); p->interrupt(); bool done = false; for (int k = 0; k < 200 && !done; ++k) { vt_settle(); Quiet q; done = ended == (int)n; } { Quiet q; if (vt_exact() && vt_virtual() && !done) vt_fail("interrupt", "interrupt() ended %d of %u tasks", ended, n); if (done && intr != (int)n) vt_fail("interrupt", "%d of %u tasks were interrupted", intr, n); vt_count("interrupted", intr); } for (int i = n; i < m; ++i) { int id = ts_new([] { }); sub(*p, id); } if (done) { p->close(); p->join(); VT_CHECK(ts_all(), "lost", "a task was lost after interrupt()"); } } delete p; ts_done("~basic_thread_pool", true); no_live("~basic_thread_pool"); }
// an interruption of workers that are busy (and find the next task waiting when they are not) costs no task: between tasks nothing is an interruption point
SCENARIO(pool_interrupt_busy, 0) { Ts t; Wk w; unsigned n = 1 + vt_rnd(3); int m = vt_rnd(6); basic_thread_pool* p = make_pool(n); boost::mutex* gate = new boost::mutex; gate->lock(); int in = 0; for (unsigned i = 0; i < n; ++i) { int id = ts_new([&] { { Quiet q; ++in; } gate->lock(); gate->unlock(); }); sub(*p, id); } bool all = false; for (int k = 0; k < 200 && !all; ++k) { vt_settle(); Quiet q; all = in == (int)n; }
  for (int i = 0; i < m; ++i) { int id = ts_new(); sub(*p, id); } if (all) { bool cl = chance(50), early = chance(50), jn = early; if (cl) p->close(); if (chance(80)) p->interrupt(); if (chance(20)) p->interrupt(); if (early) { Par o; o.go([&] { p->close(); p->join(); }); vt_point(); gate->unlock(); o.join(); } else { gate->unlock(); if (chance(60)) { p->close(); p->join(); jn = true; } } if (jn) { ts_done("join after interrupt"); } delete p; ts_done("~basic_thread_pool after interrupt"); vt_count("busy_interrupted", 1); } else { gate->unlock(); delete p; ts_done("~basic_thread_pool", true); } no_live("~basic_thread_pool"); delete gate; }
SCENARIO(pool_interrupted, 0) { Ts t; Wk w; unsigned n = 1 + vt_rnd(3); basic_thread_pool* p = make_pool(n); Par h; int ended = 0; for (unsigned i = 0; i < n + 1; ++i) { int id = ts_new([&] { struct D { int& e; ~D() { Quiet q; ++e; } } d = { ended }; try { boost::this_thread::sleep_for(boost::chrono::milliseconds(1 + vt_rnd(3))); } catch (thread_interrupted&) { vt_count("interrupted", 1); } }); sub(*p, id); } if (chance(50)) vt_sleep(vt_rnd(5) * MS); if (chance(40)) p->interrupt(); delete p; ts_done("~basic_thread_pool", true); no_live("~basic_thread_pool"); }
// the thread that destroys the executor is interrupted meanwhile: the destructor still waits, and the interruption stays pending
SCENARIO(owner_interrupted, 0) { Ts t; Wk w; unsigned n = 1 + vt_rnd(3); int k = vt_rnd(3); bool after = false, in = false; { boost::thread o([&] { try { { int ids[3]; for (int i = 0; i < 3; ++i) ids[i] = ts_new([&] { for (unsigned j = vt_rnd(5); j-- > 0;) vt_yield(); if (chance(30)) vt_sleep(MS); }); boost::this_thread::disable_interruption di; basic_thread_pool* p = 0; thread_executor* te = 0; executor_adaptor<basic_thread_pool>* a = 0; if (k == 0) p = make_pool(n); else if (k == 1) te = new thread_executor; else a = new executor_adaptor<basic_thread_pool>(n); for (int i = 0; i < 3; ++i) if (k == 0) sub(*p, ids[i]); else if (k == 1) sub(*te, ids[i]); else sub(*(executor*)a, ids[i]); in = true; { boost::this_thread::restore_interruption ri(di); delete p; delete te; delete a; } ts_done("an executor whose owner is interrupted", k != 1); } for (;;) { boost::this_thread::interruption_point(); vt_sleep(MS); } } catch (thread_interrupted&) { after = true; } }); for (unsigned i = vt_rnd(8); i-- > 0;) vt_yield(); o.interrupt(); o.join(); } VT_CHECK(in && after, "interrupt", "the interruption was lost"); ts_done("an executor whose owner is interrupted", k != 1); no_live("an executor whose owner is interrupted"); vt_count("owner_interrupted", 1); }
// a task that lets others be run
SCENARIO(pool_reschedule, 0) { Ts t; Wk w; unsigned n = 1 + vt_rnd(2); basic_thread_pool* p = make_pool(n); bool done = false; int ids[3]; boost::mutex m; auto isd = [&] { boost::lock_guard<boost::mutex> l(m); return done; }; bool last = chance(50); 
  ids[0] = ts_new([&] { for (int k = 0; k < 60; ++k) { bool r = p->reschedule_until(isd); if (r) { VT_CHECK(isd(), "reschedule", "reschedule_until returned true but the predicate is false"); break; } if (isd()) break; vt_yield(); } VT_CHECK(last || isd(), "reschedule", "the other task never ran"); });
  ids[1] = ts_new([] { vt_yield(); }); ids[2] = ts_new([&] { boost::lock_guard<boost::mutex> l(m); done = true; }); sub(*p, ids[0]); sub(*p, ids[1]); if (last) vt_yield(); sub(*p, ids[2]); p->close(); p->join(); ts_done("reschedule_until"); delete p; vt_count("rescheduled", 1); }
// thread or memory runs out
SCENARIO(pool_creation, F_FAULT) { Ts t; Wk w; unsigned n = 1 + vt_rnd(4); basic_thread_pool* p = 0; int f = vt_rnd(2), nth = 1 + vt_rnd(5); if (f) vt_fail_new(1 + vt_rnd(20)); else vt_fail_create(nth); bool failed = false; try { p = make_pool(n); } catch (thread_resource_error&) { failed = true; } catch (std::bad_alloc&) { failed = true; } bool hit = !vt_fail_pending(); vt_fail_new(0); vt_fail_create(0); VT_CHECK(!failed || hit, "creation", "the constructor threw for no reason"); if (failed) vt_count("creation_failures", 1); if (!f && hit) VT_CHECK(failed, "creation", "a missing thread went unreported"); if (p) { int id = ts_new(); sub(*p, id); p->close(); p->join(); ts_done("basic_thread_pool"); delete p; } }
SCENARIO(submit_fault, F_FAULT) { Ts t; Wk w; int k = vt_rnd(3); basic_thread_pool* p = 0; thread_executor* te = 0; loop_executor* le = 0; if (k == 0) p = new basic_thread_pool(2); else if (k == 1) te = new thread_executor; else le = new loop_executor; 
  for (int i = 0; i < 3; ++i) { int id = ts_new([] { }); bool c = k == 1 && chance(50); if (chance(60)) { if (c) vt_fail_create(1); else vt_fail_new(1 + vt_rnd(6)); } bool was = vt_fail_pending(), ok = k == 0 ? sub(*p, id) : k == 1 ? sub(*te, id) : sub(*le, id); bool hit = was && !vt_fail_pending(); vt_fail_new(0); vt_fail_create(0); VT_CHECK(ok || hit, "submit", "submission failed for no reason"); if (c && hit) VT_CHECK(!ok, "submit", "a thread that could not be created went unreported"); }
  if (p) { p->close(); p->join(); } if (le) { le->close(); le->loop(); } delete p; delete te; delete le; ts_done("after failed submissions"); no_live("after failed submissions"); }

static void fifo(const char* what) { Quiet q; for (int i = 0; i < ts_n; ++i) for (int j = 0; j < ts_n; ++j) if (ts[i].st == ACCEPTED && ts[j].st == ACCEPTED && ts[i].ret < ts[j].call && ts[j].runs && (!ts[i].runs || ts[j].start < ts[i].start)) vt_fail("order", "%s: task %d was submitted before task %d but not started before it", what, i, j); }
template<class E> void loop_use(const char* what, E& e, loop_executor& l) { std::set<int> loopers, none; Par lp; int nl = 1 + vt_rnd(3); bool early = chance(30); { Quiet q; workers.clear(); } for (int i = 0; i < nl; ++i) { int id = lp.go([&] { { Quiet q; workers.insert(vt_tid()); } l.loop(); VT_CHECK(l.closed(), "closed", "loop returned although the executor is open"); }); (void)id; }
  { Subs s(e, 1 + vt_rnd(3), 1 + vt_rnd(4)); Par h; if (early) h.go([&] { for (unsigned i = vt_rnd(4); i-- > 0;) vt_yield(); e.close(); }); s.join(); h.join(); } if (!early && chance(40)) ts_wait(what); e.close(); int id = ts_new(); VT_CHECK(!sub(e, id), "closed", "%s: a closed executor accepted a task", what); lp.join(); ts_done(what); if (nl == 1) fifo(what); where(what, none, nl); vt_count("loops", nl); }
SCENARIO(loop, F_HOT) { Ts t; Wk w; { loop_executor e; if (chance(50)) loop_use("loop_executor", e, e); else { generic_executor_ref r(e); loop_use("loop_executor by reference", r, e); } } no_live("loop_executor"); }
SCENARIO(loop_adaptor, 0) { Ts t; Wk w; executor_adaptor<loop_executor> e; loop_use("executor_adaptor<loop_executor>", (executor&)e, e.underlying_executor()); }
// the queue is run from outside while more is submitted
SCENARIO(loop_by_hand, F_HOT) { Ts t; Wk w; { loop_executor e; bool nest = chance(40); { Subs s(e, 1 + vt_rnd(3), 1 + vt_rnd(3)); if (nest) { int id = ts_new([&] { int i2 = ts_new(); sub(e, i2); }); sub(e, id); } int me = vt_tid(); int how = vt_rnd(3); { Quiet q; workers.insert(me); }
    for (int k = 0; k < 4; ++k) { if (how == 0 || (how == 2 && chance(50))) e.run_queued_closures(); else e.try_executing_one(); if (chance(50)) vt_yield(); } s.join(); } if (chance(50)) e.close(); if (chance(50)) { for (int k = 0; k < 3; ++k) e.run_queued_closures(); } else while (e.try_executing_one()); ts_done("loop_executor run by hand"); fifo("loop_executor run by hand"); std::set<int> none; where("loop_executor run by hand", none, 1); VT_CHECK(!e.try_executing_one(), "task", "something left"); vt_count("by_hand", 1); } no_live("loop_executor"); }
SCENARIO(loop_dropped, 0) { Ts t; { loop_executor e; Subs s(e, 2, 2); s.join(); for (unsigned i = vt_rnd(4); i-- > 0;) e.try_executing_one(); } ts_done("~loop_executor", true); no_live("~loop_executor"); }
SCENARIO(loop_reschedule, 0) { Ts t; loop_executor e; int a = 0; int i0 = ts_new([&] { bool r = e.reschedule_until([&] { return a == 2; }); VT_CHECK(r == (a == 2), "reschedule", "reschedule_until returned %d", r); }); int n = 1 + vt_rnd(4); sub(e, i0); for (int i = 0; i < n; ++i) { int id = ts_new([&] { ++a; }); sub(e, id); } e.try_executing_one(); VT_CHECK(a == (n < 2 ? n : 2), "reschedule", "%d tasks were run", a); e.close(); e.loop(); ts_done("loop_executor"); VT_CHECK(a == n, "lost", "%d of %d", a, n); }

template<class E> void inline_use(E& e) { const int M = ~(1 << S_PT | 1 << S_CONST); { Par p; int n = 1 + vt_rnd(3); for (int i = 0; i < n; ++i) p.go([&] { for (int j = 0; j < 3; ++j) { int id = chance(30) ? ts_new([&] { int i2 = ts_new(); sub(e, i2, ~(1 << S_PT | 1 << S_CONST)); }) : ts_new(); bool was = e.closed(); bool ok = sub(e, id, M); VT_CHECK(!(was && ok), "closed", "a closed executor accepted a task"); if (ok) VT_CHECK(ts[id].runs == 1 && ts[id].tid == vt_tid() && ts[id].pay.a == 3, "where", "inline_executor: the task was not run by the caller before submit returned"); } }); if (chance(40)) p.go([&] { vt_yield(); e.close(); }); p.join(); } VT_CHECK(!e.try_executing_one(), "task", "inline_executor executed something"); e.close(); VT_CHECK(e.closed(), "closed", "closed() false"); int id = ts_new(); VT_CHECK(!sub(e, id), "closed", "a closed executor accepted a task"); ts_done("inline_executor"); vt_count("inlined", 1); }
SCENARIO(inlined, 0) { Ts t; switch (vt_rnd(3)) { case 0: { inline_executor e; inline_use(e); break; } case 1: { executor_adaptor<inline_executor> a; executor& e = a; inline_use(e); break; } default: { inline_executor e; generic_executor_ref r(e); inline_use(r); } } no_live("inline_executor"); }
template<class E> void thread_use(E& e) { { Subs s(e, 1 + vt_rnd(3), 1 + vt_rnd(3)); Par h; if (chance(30)) h.go([&] { vt_yield(); e.close(); }); s.join(); h.join(); } VT_CHECK(!e.try_executing_one(), "task", "thread_executor executed something"); if (chance(40)) ts_wait("thread_executor"); if (chance(50)) { e.close(); int id = ts_new(); VT_CHECK(!sub(e, id), "closed", "a closed executor accepted a task"); } }
SCENARIO(threads, 0) { Ts t; switch (vt_rnd(3)) { case 0: { thread_executor e; thread_use(e); break; } case 1: { executor_adaptor<thread_executor> a; executor& e = a; thread_use(e); break; } default: { thread_executor e; generic_executor_ref r(e); thread_use(r); } } ts_done("~thread_executor"); no_live("~thread_executor"); Quiet q; for (int i = 0; i < ts_n; ++i) for (int j = 0; j < i; ++j) if (ts[i].runs && ts[j].runs && ts[i].tid == ts[j].tid) vt_fail("where", "thread_executor ran two tasks in one thread"); for (int i = 0; i < ts_n; ++i) if (ts[i].runs && ts[i].tid == ts[i].sub) vt_fail("where", "thread_executor ran a task in the submitter's thread"); vt_count("own_threads", 1); }
// tasks that submit tasks, close, or wait for others
SCENARIO(nested, 0) { Ts t; Wk w; unsigned n = 1 + vt_rnd(3); basic_thread_pool p(n); int depth = 1 + vt_rnd(3); std::function<void(int)> rec; rec = [&](int d) { for (int i = 0; i < (d ? 2 : 0); ++i) { int id = ts_new([&, d] { rec(d - 1); }); sub(p, id); } }; bool cl = chance(30); int id = ts_new([&] { rec(depth); if (cl) p.close(); }); sub(p, id); ts_wait("nested submission"); p.close(); p.join(); ts_done("nested submission"); }
SCENARIO(native, F_NATIVE | F_SLOW) { Ts t; { basic_thread_pool p(3); loop_executor l; thread_executor te; inline_executor ie; boost::mutex m; long sum = 0; long K = vt_virtual() ? 3 : 60; Par lp; lp.go([&] { l.loop(); }); Par ps; for (int i = 0; i < 2; ++i) ps.go([&] { for (int k = 0; k < K; ++k) { auto f = [&] { boost::lock_guard<boost::mutex> g(m); ++sum; }; p.submit(f); l.submit(f); if (k < 5) te.submit(f); ie.submit(f); if (chance(20)) p.try_executing_one(); } }); ps.join(); p.close(); p.join(); l.close(); lp.join(); te.close(); for (int k = 0; k < 1000; ++k) { { boost::lock_guard<boost::mutex> g(m); if (sum >= 6 * K + 2 * (K < 5 ? K : 5)) break; } vt_sleep(MS); } boost::lock_guard<boost::mutex> g(m); VT_CHECK(sum == 6 * K + 2 * (K < 5 ? K : 5), "lost", "%ld", sum); vt_count("tasks_run", sum); } }
