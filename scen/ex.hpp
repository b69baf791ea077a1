// Tasks given to executors.
#ifndef VT_EX_HPP
#define VT_EX_HPP
#include "val.hpp"
#include <boost/thread/executor.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
enum TSt { NEW, SUBMITTING, ACCEPTED, REFUSED, FAILED };
struct TS { int st, runs, tid, sub, in; u64 call, ret, start, end; u64 due; bool open; std::function<void()> body; Pay pay; };
static TS ts[64]; static int ts_n; static int ts_live;
static void ts_reset() { Quiet q; for (int i = 0; i < 64; ++i) { ts[i] = TS(); ts[i].tid = -1; } ts_n = 0; ts_live = 0; }
static void ts_free() { Quiet q; for (int i = 0; i < 64; ++i) std::function<void()>().swap(ts[i].body); }
template<class F> static int ts_new(F f) { Quiet q; int i = ts_n++; if (i >= 64) vt_fail("harness", "too many tasks"); ts[i].body = f; return i; }
static int ts_new() { return ts_new([] { unsigned n = vt_rnd(4); for (unsigned i = 0; i < n; ++i) vt_yield(); if (chance(10)) vt_sleep(MS); }); }
static void ts_run(int id) { TS& t = ts[id]; int tid = vt_tid();
  { Quiet q; if (t.st == NEW || t.st == REFUSED || t.st == FAILED) vt_fail("task", "task %d, which was not accepted, was run", id); if (t.runs++) vt_fail("task", "task %d was run twice", id); t.tid = tid; t.start = vt_step(); t.open = true; vt_count("tasks_run", 1); }
  VT_CHECK(t.pay.a == 1 && t.pay.ok(), "task", "task %d does not see what was done before it was submitted", id); t.pay.bump();
  t.body(); t.pay.bump(); { Quiet q; t.open = false; t.end = vt_step(); } }
struct Live { Live() { Quiet q; ++ts_live; } Live(Live const&) { Quiet q; ++ts_live; } ~Live() { Quiet q; --ts_live; } };
struct Task { std::string s; int id; Live l; explicit Task(int i) : s(40, (char)('A' + i % 26)), id(i) {} 
  void operator()() { VT_CHECK(s.size() == 40 && s[7] == 'A' + id % 26 && s[39] == s[7], "task", "the callable is not whole"); ts_run(id); } };
struct MTask { std::unique_ptr<int> p; Live l; explicit MTask(int i) : p(new int(i)) {} MTask(MTask&& o) noexcept : p(std::move(o.p)) {} MTask& operator=(MTask&& o) { p = std::move(o.p); return *this; } MTask(MTask const&) = delete;
  void operator()() { VT_CHECK(p.get(), "task", "the callable was moved from"); ts_run(*p); } };
template<int N> static void ts_fn() { ts_run(N); }
static void (*const ts_fns[8])() = { &ts_fn<0>, &ts_fn<1>, &ts_fn<2>, &ts_fn<3>, &ts_fn<4>, &ts_fn<5>, &ts_fn<6>, &ts_fn<7> };
enum { S_LV, S_RV, S_FN, S_MOVE, S_WORK, S_LAMBDA, S_PT, S_CONST, S_N };
template<class E> struct only_copies : std::false_type {};   // executors that store copyable callables only
template<class E> static void sub1(E& e, int id, int f) {
  switch (f) { case S_LV: { Task t(id); e.submit(t); VT_CHECK(t.s.size() == 40, "task", "submitting an lvalue changed it"); return; } case S_FN: if (id < 8) { e.submit(ts_fns[id]); return; } // fall through
    case S_RV: e.submit(Task(id)); return; case S_MOVE: if constexpr (!only_copies<E>::value) { e.submit(MTask(id)); return; } else vt_fail("harness", "x"); case S_WORK: { executors::work w((Task(id))); e.submit(boost::move(w)); return; } case S_LAMBDA: e.submit([id] { ts_run(id); }); return;
    case S_PT: if constexpr (!only_copies<E>::value) { PT<void> pt((MTask(id))); e.submit(boost::move(pt)); return; } else vt_fail("harness", "x"); default: if constexpr (!std::is_same<E, inline_executor>::value) { const Task t(id); e.submit(t); return; } else e.submit(Task(id)); } }
// submits task id; whether it was accepted
template<class E> static bool sub(E& e, int id, int mask = (1 << S_N) - 1) { TS& t = ts[id]; int f; do f = vt_rnd(S_N); while (!(mask >> f & 1)); { Quiet q; t.st = SUBMITTING; t.sub = vt_tid(); t.call = vt_step(); t.due = vt_now(); } t.pay.bump(); bool ok = true, threw = false;
  try { sub1(e, id, f); } catch (sync_queue_is_closed&) { ok = false; } catch (std::bad_alloc&) { threw = true; } catch (thread_resource_error&) { threw = true; }
  Quiet q; t.ret = vt_step(); if (threw) { t.st = FAILED; vt_count("submit_failed", 1); ok = false; } else { t.st = ok ? ACCEPTED : REFUSED; vt_count(ok ? "accepted" : "refused", 1); } if (!ok && t.runs) vt_fail("task", "task %d was run although its submission reported %s", id, threw ? "failure" : "closed"); return ok; }
// all accepted ones have run (unless drop); none is running; what they did is visible
static void ts_done(const char* what, bool drop = false) { for (int i = 0; i < ts_n; ++i) { TS& t = ts[i]; int st, runs; { Quiet q; st = t.st; runs = t.runs; if (t.open) vt_fail("task", "%s: task %d is still running", what, i); if (st == SUBMITTING) vt_fail("harness", "submission not finished"); }
    if (st == ACCEPTED && !runs && !drop) vt_fail("lost", "%s: accepted task %d was never run", what, i); if (st != ACCEPTED && runs) vt_fail("task", "%s: refused task %d was run", what, i);
    if (runs) { VT_CHECK(t.pay.a == 3 && t.pay.ok(), "task", "%s: what task %d did is not visible", what, i); vt_outcome((u64)i << 8 | t.tid); } else if (st == ACCEPTED) vt_count("dropped", 1); } }
static bool ts_all() { Quiet q; for (int i = 0; i < ts_n; ++i) { if (ts[i].st == SUBMITTING) return false; if (ts[i].st == ACCEPTED && (!ts[i].runs || ts[i].open)) return false; } return true; }
static void ts_wait(const char* what) { for (int k = 0; k < 3000; ++k) { if (ts_all()) return; if (k > 20) vt_sleep(MS); else vt_yield(); } { Quiet q; for (int i = 0; i < ts_n; ++i) if (ts[i].st == ACCEPTED && (!ts[i].runs || ts[i].open)) vt_fail("lost", "%s: accepted task %d %s", what, i, ts[i].runs ? "never finishes" : "is never run"); } vt_fail("lost", "%s: tasks never finish", what); }
static void no_live(const char* what) { Quiet q; if (ts_live) vt_fail("lost", "%s: %d callables were not destroyed", what, ts_live); }
struct Ts { Ts() { ts_reset(); } ~Ts() { ts_free(); } };
#endif
