// C34: running out of memory, threads or synchronisation objects is reported, and undoes what was begun.
#include "h.hpp"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/thread_guard.hpp>
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/once.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/testable_mutex.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#endif
using namespace boost;
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
#define VSIG void()
#define ALLOC (allocator_arg, std::allocator<int>())
#else
#define VSIG void
#define ALLOC
#endif

enum Kind { MEM = 1, SYNC = 2, THR = 4 };
static const char* kname(int k) { return k == MEM ? "memory" : k == SYNC ? "mutex and condition initialisation" : "thread creation"; }
// op runs a whole life of some objects: construct, use, destroy.  Every resource request it makes in the
// calling thread is made to fail once, one per run: the failure must come out as the documented exception
// and nothing may stay behind.  `quiet`: op is allowed to come through in spite of the failure.
template<class Op> void sweep(const char* what, Op op, int kinds, bool quiet = false) {
  op(); vt_settle(); vt_settle();
  i64 b0 = vt_live_blocks(), s0 = vt_live_sync(); op(); vt_settle(); vt_settle();
  VT_CHECK(vt_live_blocks() == b0, "behind", "%s: %lld blocks of memory stay behind", what, (long long)(vt_live_blocks() - b0));
  VT_CHECK(vt_live_sync() == s0, "behind", "%s: %lld mutexes or conditions are never destroyed", what, (long long)(vt_live_sync() - s0));
  for (int k = 1; k <= 4; k *= 2) if (kinds & k) for (int n = 1; n < 60; ++n) {
    vt_fail_mine(1); (k == MEM ? vt_fail_new : k == SYNC ? vt_fail_init : vt_fail_create)(n);
    int got = 0; bool pend = false; int code = 0;
    auto off = [&] { pend = vt_fail_pending(); vt_fail_new(0); vt_fail_init(0); vt_fail_create(0); vt_fail_mine(0); };
    try { op(); off(); } catch (std::bad_alloc&) { off(); got = MEM; } catch (thread_resource_error& e) { off(); got = THR; code = e.code().value(); } catch (...) { off(); got = 8; }
    if (pend && got) vt_fail("unprovoked", "%s: threw although nothing had failed", what);
    if (pend) break;
    vt_settle(); vt_settle();
    if (!got) { VT_CHECK(quiet, "silent", "%s: request %d of %s failed and nobody was told", what, n, kname(k)); vt_count("absorbed", 1); }
    else if (k == MEM) VT_CHECK(got == MEM || got == THR, "wrong-error", "%s: failure %d of %s was reported by another exception", what, n, kname(k));
    else { VT_CHECK(got == THR, "wrong-error", "%s: failure %d of %s was reported by another exception than thread_resource_error", what, n, kname(k));
           VT_CHECK(code != 0, "wrong-error", "%s: the thread_resource_error of failure %d of %s carries no error code", what, n, kname(k)); }
    VT_CHECK(vt_live_blocks() == b0, "behind", "%s: %lld blocks of memory stay behind after failure %d of %s", what, (long long)(vt_live_blocks() - b0), n, kname(k));
    VT_CHECK(vt_live_sync() == s0, "behind", "%s: after failure %d of %s %lld mutexes or conditions stay behind", what, n, kname(k), (long long)(vt_live_sync() - s0));
    vt_count(k == MEM ? "memory_failures" : k == SYNC ? "sync_failures" : "thread_failures", 1);
  }
  op(); vt_count("sweeps", 1);
}
template<class M> void use() { M m; VT_CHECK(m.try_lock(), "useless", "a fresh mutex is not free"); m.unlock(); m.lock(); m.unlock(); }
SCENARIO(mutexes, F_FAULT | F_ONCE) {
  sweep("mutex", [] { use<mutex>(); }, MEM | SYNC); sweep("timed_mutex", [] { use<timed_mutex>(); }, MEM | SYNC);
  sweep("recursive_mutex", [] { use<recursive_mutex>(); }, MEM | SYNC); sweep("recursive_timed_mutex", [] { use<recursive_timed_mutex>(); }, MEM | SYNC);
  sweep("shared_mutex", [] { use<shared_mutex>(); }, MEM | SYNC); sweep("upgrade_mutex", [] { use<upgrade_mutex>(); }, MEM | SYNC);
  sweep("testable_mutex", [] { use<testable_mutex<mutex> >(); }, MEM | SYNC);
}
SCENARIO(conditions, F_FAULT | F_ONCE) {
  sweep("condition_variable", [] { condition_variable c; mutex m; unique_lock<mutex> l(m); c.notify_all(); VT_CHECK(c.wait_for(l, chrono::milliseconds(0)) == cv_status::timeout || true, "x", "x"); }, MEM | SYNC);
  sweep("condition_variable_any", [] { condition_variable_any c; mutex m; unique_lock<mutex> l(m); c.notify_all(); c.wait_for(l, chrono::milliseconds(0)); }, MEM | SYNC);
}
struct CountFn { std::vector<int> big; CountFn() : big(20) {} unsigned int operator()() { return 1; } };
SCENARIO(counters, F_FAULT | F_ONCE) {
  sweep("barrier", [] { barrier b(1); b.wait(); }, MEM | SYNC); sweep("barrier with a function", [] { std::vector<int> big(20); barrier b(1, CountFn()); b.wait(); }, MEM | SYNC);
  sweep("latch", [] { latch b(1); b.count_down(); b.wait(); }, MEM | SYNC); sweep("completion_latch", [] { std::vector<int> big(20); completion_latch b(1, [big] {}); }, MEM | SYNC);
}
struct X0 {};
SCENARIO(values, F_FAULT | F_ONCE) {
  sweep("synchronized_value", [] { synchronized_value<std::vector<int> > v(std::vector<int>(5, 1)); v->push_back(1); synchronized_value<std::vector<int> > w(v); w = v; swap(v, w); VT_CHECK(w->size() == 6, "useless", "the copy lost something"); }, MEM | SYNC);
  sweep("thread_specific_ptr", [] { thread_specific_ptr<int> p; std::unique_ptr<int> n(new int(3)); p.reset(n.get()); n.release(); }, MEM);
  sweep("at_thread_exit functions", [] { thread t([] {}); t.join(); }, MEM | SYNC | THR);
}
struct Fn { std::vector<int> v; int* hits; Fn(int* h) : v(7, 3), hits(h) {} void operator()() { vt_point(); ++*hits; } };
template<class T> struct Th : T { template<class... A> Th(A&&... a) : T(std::forward<A>(a)...) {} ~Th() { if (this->joinable()) this->join(); } };
SCENARIO(threads, F_FAULT) {
  switch (vt_rnd(6)) {
    case 0: sweep("thread", [] { int hits = 0; { Th<thread> t((Fn(&hits))); } VT_CHECK(hits == 1, "useless", "the function did not run once"); }, MEM | SYNC | THR); break;
    case 1: sweep("thread with arguments", [] { int hits = 0; { Th<thread> t([](std::vector<int> v, int* h) { *h += (int)v.size(); }, std::vector<int>(9), &hits); } VT_CHECK(hits == 9, "useless", "the function did not run once"); }, MEM | SYNC | THR); break;
    case 2: sweep("thread with attributes", [] { int hits = 0; { thread::attributes at; at.set_stack_size(1 << 16); const thread::attributes& ca = at; Fn f(&hits); Th<thread> t(ca, f); } VT_CHECK(hits == 1, "useless", "the function did not run once"); }, MEM | SYNC | THR); break;
    case 3: sweep("scoped_thread", [] { int hits = 0; { scoped_thread<> t((Fn(&hits))); } VT_CHECK(hits == 1, "useless", "the function did not run once"); }, MEM | SYNC | THR); break;
    case 4: sweep("thread_group::create_thread", [] { int hits = 0; int hits2 = 0; { thread_group g; struct J { thread_group& g; ~J() { g.join_all(); } } j = { g }; thread* t; try { t = g.create_thread(Fn(&hits)); } catch (...) { VT_CHECK(g.size() == 0, "half", "the failed thread is in the group"); VT_CHECK(hits == 0, "half", "a thread ran although create_thread threw"); throw; }
      VT_CHECK(g.is_thread_in(t) && g.size() == 1, "useless", "the thread is not in the group"); try { g.create_thread(Fn(&hits2)); } catch (...) { VT_CHECK(g.size() == 1 && g.is_thread_in(t), "half", "a failed create_thread changed the group"); throw; } g.join_all(); VT_CHECK(hits == 1 && hits2 == 1, "useless", "a function did not run once"); } }, MEM | SYNC | THR); break;
    default: sweep("interruptible wait in a new thread", [] { struct B { mutex m; condition_variable c; } b; { Th<thread> t([&b] { try { unique_lock<mutex> l(b.m); for (;;) b.c.wait(l); } catch (thread_interrupted&) {} }); t.interrupt(); } }, SYNC | THR); break;
  }
}
struct Val { std::vector<int> v; Val() : v(4, 7) {} bool ok() const { return v.size() == 4 && v[0] == 7; } };
SCENARIO(promises, F_FAULT) {
  switch (vt_rnd(12)) {
    case 0: default: sweep("promise", [] { promise<Val> p; BOOST_THREAD_FUTURE<Val> f = p.get_future(); p.set_value(Val()); VT_CHECK(f.get().ok(), "useless", "wrong value"); }, MEM | SYNC); break;
    case 1: sweep("promise, exception", [] { promise<int> p; BOOST_THREAD_FUTURE<int> f = p.get_future(); p.set_exception(std::runtime_error("some long text that does not fit in place")); try { f.get(); VT_CHECK(false, "useless", "no exception"); } catch (std::runtime_error&) {} }, MEM | SYNC); break;
    case 2: sweep("make_ready_future", [] { BOOST_THREAD_FUTURE<Val> f = make_ready_future(Val()); VT_CHECK(f.get().ok(), "useless", "wrong value"); }, MEM | SYNC); break;
    case 3: sweep("packaged_task", [] { int hits = 0; packaged_task<VSIG> t((Fn(&hits))); BOOST_THREAD_FUTURE<void> f = t.get_future(); t(); f.get(); VT_CHECK(hits == 1, "useless", "the task did not run once"); t.reset(); t(); VT_CHECK(hits == 2, "useless", "the task did not run again"); }, MEM | SYNC); break;
    case 4: sweep("promise with an allocator", [] { promise<int> p ALLOC; BOOST_THREAD_FUTURE<int> f = p.get_future(); p.set_value(1); f.get(); }, MEM | SYNC); break;
#if defined BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
    case 9: sweep("packaged_task with an allocator", [] { int hits = 0; packaged_task<VSIG> t(allocator_arg, std::allocator<int>(), Fn(&hits)); BOOST_THREAD_FUTURE<void> f = t.get_future(); t(); f.get(); VT_CHECK(hits == 1, "useless", "the task did not run once"); }, MEM | SYNC); break;
    case 10: sweep("packaged_task with an allocator, lvalue", [] { int hits = 0; Fn g(&hits); packaged_task<VSIG> t(allocator_arg, std::allocator<int>(), g); t(); VT_CHECK(hits == 1, "useless", "the task did not run once"); }, MEM | SYNC); break;
    case 11: sweep("void and reference promises with an allocator", [] { promise<void> p(allocator_arg, std::allocator<int>()); promise<int&> q(allocator_arg, std::allocator<int>()); int x; p.set_value(); q.set_value(x); VT_CHECK(&q.get_future().get() == &x, "useless", "wrong result"); }, MEM | SYNC); break;
#endif
    case 5: sweep("shared_future", [] { promise<Val> p; shared_future<Val> f = p.get_future().share(), g = f; p.set_value(Val()); VT_CHECK(f.get().ok() && g.get().ok(), "useless", "wrong value"); }, MEM | SYNC); break;
    case 6: sweep("async, own thread", [] { int hits = 0; { BOOST_THREAD_FUTURE<void> f = async(launch::async, Fn(&hits)); f.get(); } VT_CHECK(hits == 1, "useless", "not run once"); }, SYNC | THR); break;
#if defined BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
    case 7: sweep("deferred async", [] { int hits = 0; { BOOST_THREAD_FUTURE<void> f = async(launch::deferred, Fn(&hits)); f.get(); } VT_CHECK(hits == 1, "useless", "not run once"); }, MEM | SYNC); break;
    case 8: sweep("wait_for_any", [] { promise<int> p, q; BOOST_THREAD_FUTURE<int> f = p.get_future(), g = q.get_future(); q.set_value(2); p.set_value(1); wait_for_any(f, g); VT_CHECK(f.is_ready(), "useless", "not ready"); }, MEM | SYNC); break;
#else
    case 7: case 8: sweep("wait_for_any", [] { promise<int> p, q; BOOST_THREAD_FUTURE<int> f = p.get_future(), g = q.get_future(); q.set_value(2); p.set_value(1); wait_for_any(f, g); VT_CHECK(f.is_ready(), "useless", "not ready"); }, MEM | SYNC); break;
#endif
  }
}
// Registrations for the end of a thread, in a thread of the library or not: one whose memory could not be had is undone.
template<class F> static void run_in(bool own, F f) {
  if (own) { thread t(f); t.join(); }
  else { Par w; w.go(f); w.join(); }
}
SCENARIO(registrations, F_FAULT) {
  int kind = vt_rnd(6); bool own = chance(60), before = chance(40);
  for (int n = 1; n < 40; ++n) {
    bool pend = false, threw = false; int hits = 0, early = 0; mutex m; condition_variable cv; promise<Val> p; promise<void> pv; promise<int> pe; int kept = 5; promise<int&> pr;
    BOOST_THREAD_FUTURE<Val> f = p.get_future(); BOOST_THREAD_FUTURE<void> fv = pv.get_future(); BOOST_THREAD_FUTURE<int> fe = pe.get_future(); BOOST_THREAD_FUTURE<int&> fr = pr.get_future();
    exception_ptr ep = copy_exception(std::runtime_error("expected"));
    run_in(own, [&] {
      if (before) this_thread::at_thread_exit([&] { ++early; });
      Val v; Fn fn(&hits); unique_lock<mutex> lk(m, defer_lock); if (kind == 2) lk.lock();
      vt_fail_mine(1); vt_fail_new(n);
      try {
        switch (kind) { case 0: this_thread::at_thread_exit(fn); break; case 1: p.set_value_at_thread_exit(v); break; case 2: notify_all_at_thread_exit(cv, boost::move(lk)); break;
                        case 3: pv.set_value_at_thread_exit(); break; case 4: pe.set_exception_at_thread_exit(ep); break; default: pr.set_value_at_thread_exit(kept); }
      } catch (std::bad_alloc&) { threw = true; }
      pend = vt_fail_pending(); vt_fail_new(0); vt_fail_mine(0);
      VT_CHECK(!(pend && threw), "unprovoked", "registration %d: threw although nothing had failed", kind);
      VT_CHECK(pend || threw, "silent", "registration %d: request %d of memory failed and nobody was told", kind, n);
      if (kind == 2) { NoRace nr; bool owned = vt_mutex_owner(m.native_handle()) >= 0; VT_CHECK(owned == !threw, "half", "notify_all_at_thread_exit %s the mutex", threw ? "threw and kept" : "succeeded and released"); }
      VT_CHECK(!f.is_ready() && !fv.is_ready() && !fe.is_ready() && !fr.is_ready(), "half", "registration %d: the future is ready before the thread ends", kind);
      if (threw) {
        try { switch (kind) { case 1: p.set_value(v); break; case 3: pv.set_value(); break; case 4: pe.set_exception(ep); break; case 5: pr.set_value(kept); break; default: break; } }
        catch (promise_already_satisfied&) { vt_fail("half", "registration %d: after the failed call the promise takes no other result", kind); }
        vt_count("undone", 1);
      }
    });
    VT_CHECK(!before || early == 1, "half", "an action registered before ran %d times", early);
    VT_CHECK(kind != 0 || hits == (threw ? 0 : 1), "half", "an exit action whose registration %s ran %d times", threw ? "failed" : "succeeded", hits);
    if (kind == 1) VT_CHECK(f.is_ready() && f.get().ok(), "useless", "the promised value did not arrive");
    if (kind == 3) { VT_CHECK(fv.is_ready(), "useless", "the promise was not satisfied"); fv.get(); }
    if (kind == 4) { bool ok = false; VT_CHECK(fe.is_ready(), "useless", "the promised exception did not arrive"); try { fe.get(); } catch (std::runtime_error&) { ok = true; } VT_CHECK(ok, "useless", "wrong exception"); }
    if (kind == 5) VT_CHECK(fr.is_ready() && &fr.get() == &kept, "useless", "the promised reference did not arrive");
    VT_CHECK(m.try_lock(), "half", "the mutex is still owned"); m.unlock(); vt_count("registrations", 1);
    if (pend) break;
  }
}
template<class Q> void queue(const char* what) { sweep(what, [] { Q q; Val a, b; typename Q::value_type x, y; q.push(x); q.push(y); typename Q::value_type o = q.pull(); VT_CHECK(q.size() == 1, "useless", "wrong size"); q.close(); }, MEM | SYNC); }
SCENARIO(queues, F_FAULT) {
  switch (vt_rnd(6)) {
    case 0: queue<sync_queue<Val> >("sync_queue"); break;
    case 1: sweep("sync_deque", [] { sync_deque<Val> q; q.push_back(Val()); q.push_back(Val()); Val v = q.pull_front(); VT_CHECK(v.ok(), "useless", "wrong value"); q.close(); }, MEM | SYNC); break;
    case 2: sweep("sync_bounded_queue", [] { sync_bounded_queue<Val> q(3); q.push_back(Val()); q.push_back(Val()); Val v = q.pull_front(); VT_CHECK(v.ok(), "useless", "wrong value"); q.close(); }, MEM | SYNC); break;
    case 3: sweep("sync_priority_queue", [] { concurrent::sync_priority_queue<int> q; for (int i = 0; i < 5; ++i) q.push(i); VT_CHECK(q.pull() == 4, "useless", "wrong value"); q.close(); }, MEM | SYNC); break;
    case 4: sweep("sync_timed_queue", [] { concurrent::sync_timed_queue<int> q; for (int i = 0; i < 5; ++i) q.push(i, chrono::milliseconds(0)); q.pull(); q.close(); }, MEM | SYNC); break;
    default: sweep("queue_adaptor", [] { queue_adaptor<sync_queue<int> > q; q.push(1); q.push(2); VT_CHECK(q.pull() == 1, "useless", "wrong value"); q.close(); }, MEM | SYNC); break;
  }
}
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
template<class E> void exe(const char* what, int kinds) { sweep(what, [] { std::atomic<int> hits(0); { E e; try { e.submit([&hits] { ++hits; }); } catch (...) { e.close(); throw; } } VT_CHECK(hits <= 1, "half", "a task ran twice"); }, kinds); }
SCENARIO(executors, F_FAULT) {
  switch (vt_rnd(8)) {
    case 0: sweep("basic_thread_pool", [] { basic_thread_pool p(2); }, MEM | SYNC | THR); break;
    case 1: exe<inline_executor>("inline_executor", MEM | SYNC); break;
    case 2: exe<loop_executor>("loop_executor", MEM | SYNC); break;
    case 3: sweep("scheduled_thread_pool", [] { scheduled_thread_pool p(2); }, MEM | SYNC | THR); break;
    case 4: exe<thread_executor>("thread_executor", SYNC | THR); break;
    case 5: sweep("serial_executor", [] { inline_executor i; serial_executor s(i); s.close(); }, SYNC | THR); break;
    case 6: sweep("scheduler", [] { scheduler<> s; s.close(); }, SYNC | THR); break;
    default: sweep("executor_adaptor", [] { executor_adaptor<inline_executor> a; int hits = 0; a.submit(Fn(&hits)); VT_CHECK(hits == 1, "useless", "not run once"); }, MEM | SYNC); break;
  }
}
#endif
#if defined BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
SCENARIO(continuations, F_FAULT) {
  switch (vt_rnd(5)) {
    case 0: sweep("then, own thread", [] { promise<int> p; BOOST_THREAD_FUTURE<int> f = p.get_future(); BOOST_THREAD_FUTURE<int> g = f.then(launch::async, [](BOOST_THREAD_FUTURE<int> x) { return x.get() + 1; }); p.set_value(1); VT_CHECK(g.get() == 2, "useless", "wrong result"); }, SYNC); break;
    case 1: sweep("then, deferred", [] { promise<int> p; BOOST_THREAD_FUTURE<int> f = p.get_future(); BOOST_THREAD_FUTURE<int> g = f.then(launch::deferred, [](BOOST_THREAD_FUTURE<int> x) { return x.get() + 1; }); p.set_value(1); VT_CHECK(g.get() == 2, "useless", "wrong result"); }, MEM | SYNC); break;
    case 2: sweep("then, synchronous", [] { BOOST_THREAD_FUTURE<int> f = make_ready_future(1); BOOST_THREAD_FUTURE<int> g = f.then(launch::sync, [](BOOST_THREAD_FUTURE<int> x) { return x.get() + 1; }); VT_CHECK(g.get() == 2, "useless", "wrong result"); }, SYNC); break;
    case 3: sweep("when_all", [] { promise<int> p; BOOST_THREAD_FUTURE<int> f = p.get_future(), g = make_ready_future(3); p.set_value(1); auto a = when_all(boost::move(f), boost::move(g)); a.wait(); }, SYNC | THR); break;
    default: sweep("unwrap", [] { promise<BOOST_THREAD_FUTURE<int> > p; BOOST_THREAD_FUTURE<BOOST_THREAD_FUTURE<int> > f = p.get_future(); BOOST_THREAD_FUTURE<int> g = f.unwrap(); p.set_value(make_ready_future(4)); VT_CHECK(g.get() == 4, "useless", "wrong result"); }, SYNC); break;
  }
}
#endif
