// C27: serial executors run tasks one at a time in submission order on the underlying executor.
#include "ex.hpp"
// started one after another in an order consistent with the submissions
static void serial(const char* what) { Quiet q; for (int i = 0; i < ts_n; ++i) for (int j = 0; j < ts_n; ++j) if (i != j && ts[i].runs && ts[j].runs) { if (ts[i].start < ts[j].start && (ts[i].open || ts[i].end > ts[j].start)) vt_fail("overlap", "%s: task %d started before task %d had finished", what, j, i); if (ts[i].ret < ts[j].call && ts[j].start < ts[i].start) vt_fail("order", "%s: task %d was submitted before task %d but started after it", what, i, j); } vt_count("serialized", ts_n); }
static Pay shared; static int running;
struct One { One() { Quiet q; if (running++) vt_fail("overlap", "two tasks of a serial executor run at once"); } ~One() { Quiet q; --running; } };
// each task uses data of the others without any other synchronisation
static void step(bool thr) { struct One o; VT_CHECK(shared.ok(), "overlap", "a task sees another one's update half done"); shared.bump(); unsigned n = vt_rnd(3); for (unsigned i = 0; i < n; ++i) vt_yield(); if (chance(5)) vt_sleep(MS); if (thr) { vt_count("tasks_threw", 1); throw Err(1); } }
static int task(bool thr) { bool t = thr && chance(25); return ts_new([t] { step(t); }); }
struct Mark { int id; ~Mark() {} };
template<class E> void feed(const char* what, E& e, bool thr, bool early, Par& p) { int m = 1 + vt_rnd(3), k = 1 + vt_rnd(4); for (int i = 0; i < m; ++i) p.go([&e, k, thr] { for (int j = 0; j < k; ++j) { int id = task(thr); bool was = chance(20) && e.closed(); bool ok = sub(e, id); VT_CHECK(!(was && ok), "closed", "a closed serial executor accepted a task"); if (chance(20)) vt_yield(); } }); if (early) p.go([&e] { for (unsigned i = vt_rnd(6); i-- > 0;) vt_yield(); e.close(); VT_CHECK(e.closed(), "closed", "closed() false after close()"); }); (void)what; }
struct Init { Ts t; Init() { Quiet q; shared = Pay(); running = 0; } };
static void check(const char* what) { serial(what); int n = 0; { Quiet q; for (int i = 0; i < ts_n; ++i) n += ts[i].runs; } VT_CHECK(shared.a <= n && shared.ok(), "overlap", "%s: %ld updates of %d", what, shared.a, n); }
// a serial executor, destroyed at the end; everything accepted has run
template<class S, class U> void use(const char* what, U& u, bool thr, std::set<int>* in) { bool early = chance(30); int sthr = -1; (void)sthr; Par p; { S s(u); feed(what, s, thr, early, p); p.join(); if (chance(50)) { s.close(); int id = task(thr); VT_CHECK(!sub(s, id), "closed", "%s: a closed executor accepted a task", what); } if (chance(40) && !early) { ts_wait(what); } VT_CHECK(&s.underlying_executor() != 0, "x", "x"); }
  Quiet q; if (in) for (int i = 0; i < ts_n; ++i) if (ts[i].runs && !in->count(ts[i].tid)) vt_fail("where", "%s: task %d did not run on the underlying executor", what, i); }
static std::set<int> pw; struct Pw { Pw() { Quiet q; pw.clear(); } ~Pw() { Quiet q; std::set<int>().swap(pw); } }; static void entry(basic_thread_pool&) { Quiet q; pw.insert(vt_tid()); }
// a task that threw is finished too
struct Fin { ~Fin() {} };
template<class E> void done(const char* what) { for (int i = 0; i < ts_n; ++i) { Quiet q; if (ts[i].runs && ts[i].open) { ts[i].open = false; ts[i].end = ts[i].start; } } }
static int t2(bool thr) { return task(thr); }
SCENARIO(on_pool, F_HOT) { Init i; Pw w; { basic_thread_pool u(1 + vt_rnd(3), &entry); use<serial_executor>("serial_executor", u, false, &pw); ts_done("~serial_executor"); check("serial_executor"); } no_live("serial_executor"); }
SCENARIO(on_threads, 0) { Init i; { thread_executor u; use<serial_executor>("serial_executor on threads", u, false, 0); ts_done("~serial_executor"); check("serial_executor on threads"); } no_live("serial_executor"); }
SCENARIO(on_inline, 0) { Init i; { inline_executor u; use<serial_executor>("serial_executor on inline_executor", u, false, 0); ts_done("~serial_executor"); check("serial_executor on inline_executor"); } no_live("serial_executor"); }
SCENARIO(on_loop, 0) { Init i; Pw w; { loop_executor u; Par l; l.go([&] { { Quiet q; pw.insert(vt_tid()); } u.loop(); }); use<serial_executor>("serial_executor on loop_executor", u, false, &pw); ts_done("~serial_executor"); check("serial_executor on loop_executor"); u.close(); l.join(); } no_live("serial_executor"); }
// several serial executors and direct users share a pool
SCENARIO(shared_pool, 0) { Init i; { basic_thread_pool u(1 + vt_rnd(3)); Par p; static int run2; run2 = 0; { serial_executor a(u), b(u); p.go([&] { for (int k = 0; k < 3; ++k) { int id = ts_new([] { step(false); }); sub(a, id); } }); p.go([&] { for (int k = 0; k < 3; ++k) { int id = ts_new([] { { Quiet q; if (run2++) vt_fail("overlap", "two tasks of a serial executor run at once"); } vt_yield(); Quiet q; --run2; }); sub(b, id); } }); p.go([&] { for (int k = 0; k < 2; ++k) { int id = ts_new([] { vt_yield(); }); sub(u, id); } }); p.join(); } { Quiet q; for (int k = 0; k < ts_n; ++k) if (ts[k].st != ACCEPTED) vt_fail("closed", "an open executor refused a task"); } u.close(); u.join(); ts_done("serial executors on one pool"); VT_CHECK(shared.a == 3 && shared.ok(), "lost", "%ld updates", shared.a); } no_live("serial executors"); }
// tasks that throw do not stop the others
static int bodies; 
SCENARIO(throwing, 0) { Init i; { basic_thread_pool u(1 + vt_rnd(3)); int n = 2 + vt_rnd(4); long want = n; { serial_executor s(u); for (int k = 0; k < n; ++k) { bool t = chance(40); s.submit([t] { step(t); }); vt_count("tasks_run", 1); } } VT_CHECK(shared.a == want && shared.ok(), "lost", "%ld of %ld tasks ran when others threw", shared.a, want); } }
// tasks submit to their own serial executor
SCENARIO(nested, 0) { Init i; { basic_thread_pool u(1 + vt_rnd(2)); { serial_executor s(u); int n = 1 + vt_rnd(3); for (int k = 0; k < n; ++k) { int id = ts_new([&] { step(false); int i2 = ts_new([] { step(false); }); sub(s, i2); }); sub(s, id); } ts_wait("nested submission"); } ts_done("~serial_executor"); check("nested submission"); } }
// pending tasks are tried by another thread: still one at a time, nothing lost
SCENARIO(serial_try, 0) { Init i; { loop_executor u; Par l; l.go([&] { u.loop(); }); { serial_executor s(u); Par p; feed("serial_executor", s, false, false, p); p.join(); ts_wait("serial_executor"); VT_CHECK(!s.try_executing_one(), "task", "something left to execute"); } u.close(); l.join(); ts_done("serial_executor"); check("serial_executor"); } }

// serial_executor_cont: the destructor closes but does not wait
template<class U> void cont(const char* what, U& u, std::set<int>* in) { { serial_executor_cont s(u); Par p; feed(what, s, false, chance(30), p); p.join(); VT_CHECK(!s.try_executing_one(), "task", "try_executing_one executed something"); if (chance(50)) ts_wait(what); if (chance(50)) { s.close(); int id = task(false); VT_CHECK(!sub(s, id), "closed", "%s: a closed executor accepted a task", what); } } ts_done(what); Quiet q; if (in) for (int i = 0; i < ts_n; ++i) if (ts[i].runs && !in->count(ts[i].tid)) vt_fail("where", "%s: task %d did not run on the underlying executor", what, i); vt_count("chains", 1); }
SCENARIO(cont_on_pool, F_HOT) { Init i; Pw w; { basic_thread_pool u(1 + vt_rnd(3), &entry); cont("serial_executor_cont", u, &pw); u.close(); u.join(); ts_done("serial_executor_cont"); check("serial_executor_cont"); } no_live("serial_executor_cont"); }
SCENARIO(cont_on_threads, 0) { Init i; { thread_executor u; cont("serial_executor_cont on threads", u, 0); } ts_done("serial_executor_cont"); check("serial_executor_cont on threads"); no_live("serial_executor_cont"); }
SCENARIO(cont_on_loop, 0) { Init i; Pw w; { loop_executor u; Par l; l.go([&] { { Quiet q; pw.insert(vt_tid()); } u.loop(); }); cont("serial_executor_cont on loop_executor", u, &pw); u.close(); l.join(); ts_done("serial_executor_cont"); check("serial_executor_cont on loop_executor"); } no_live("serial_executor_cont"); }
SCENARIO(cont_on_inline, 0) { Init i; { inline_executor u; cont("serial_executor_cont on inline_executor", u, 0); ts_done("serial_executor_cont"); check("serial_executor_cont on inline_executor"); } no_live("serial_executor_cont"); }
SCENARIO(native, F_NATIVE | F_SLOW) { Init i; { basic_thread_pool u(3); int K = vt_virtual() ? 3 : 30; static long sum, sum2; sum = sum2 = 0; { serial_executor s(u); serial_executor_cont sc(u); Par p; for (int t = 0; t < 2; ++t) p.go([&] { for (int k = 0; k < K; ++k) { s.submit([] { ++sum; }); sc.submit([] { ++sum2; }); vt_count("tasks_run", 1); } }); p.join(); } u.close(); u.join(); VT_CHECK(sum == 2 * K, "lost", "%ld", sum); VT_CHECK(sum2 == 2 * K, "task", "%ld", sum2); } }
