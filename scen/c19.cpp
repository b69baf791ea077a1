// C19: tasks and async run their function once and capture its outcome.
#include "val.hpp"
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#endif
// what is known about one task
struct Rec { int want; int begun, ended, tid; bool may; u64 life; Pay pay; Pay before; int live; Rec(int w) : want(w), begun(0), ended(0), tid(-1), may(true), life(0), live(0) {}
  void begin() { { Quiet q; VT_CHECK(may, "unexpected", "a function ran that must not"); VT_CHECK(++begun == 1, "twice", "a function was invoked %d times", begun); tid = vt_tid(); } VT_CHECK(before.ok(), "visibility", "the submission is not visible to the function"); pay.bump(); }
  void end() { pay.bump(); Quiet q; ++ended; vt_count("functions_run", 1); }
  void seen(int r) { { Quiet q; VT_CHECK(r == BROKEN || ended == 1, "early", "a result was observed before the function ended"); VT_CHECK(r == want, "differs", "the function produced %d, %d was observed", want, r); vt_count(r >= EXC ? "exceptions" : "results", 1); } if (r != BROKEN) VT_CHECK(pay.a == 2 && pay.ok(), "visibility", "what the function did is not visible to the reader"); }
  void check() { Quiet q; VT_CHECK(begun == ended, "unfinished", "a function did not finish"); VT_CHECK(live == 0, "function", "%d copies of the function object remain", live); } };
// function objects; live counts their instances
template<class T> static T body(Rec* r, int napms) { r->begin(); if (napms && vt_virtual()) vt_sleep(napms * MS); else vt_point(); r->end(); if (r->want >= EXC) throw Err(r->want - EXC); return Tr<T>::make(r->want); }
template<class T> struct Fn { typedef T result_type; Rec* r; int nap; explicit Fn(Rec* x, int n = 0) : r(x), nap(n) { Quiet q; ++r->live; } Fn(Fn const& o) : r(o.r), nap(o.nap) { Quiet q; ++r->live; } ~Fn() { Quiet q; --r->live; } T operator()() { return body<T>(r, nap); } };
template<class T> struct MFn { typedef T result_type; Rec* r; int nap; std::unique_ptr<long> own; explicit MFn(Rec* x, int n = 0) : r(x), nap(n), own(new long(77)) { Quiet q; ++r->live; } MFn(MFn&& o) : r(o.r), nap(o.nap), own(std::move(o.own)) { Quiet q; ++r->live; } MFn(MFn const&) = delete; ~MFn() { Quiet q; --r->live; } T operator()() { VT_CHECK(own && *own == 77, "function", "a moved-from function was invoked"); return body<T>(r, nap); } };
static Rec* g_rec; static int g_nap; template<class T> static T plain() { return body<T>(g_rec, g_nap); }
static int pick_want() { return chance(30) ? EXC + 1 + vt_rnd(4) : 1 + vt_rnd(5); }
SCENARIO(task_at_exit_fn_pointer, F_NATIVE) { Rec* r = new Rec(pick_want()); g_rec = r; g_nap = 0; r->before.bump(); int k = vt_rnd(3); PT<int>* p = k == 0 ? new PT<int>(&plain<int>) : 0; PT<void>* pv = k == 1 ? new PT<void>(&plain<void>) : 0; PT<int&>* pr = k == 2 ? new PT<int&>(&plain<int&>) : 0; Fut<int> f; Fut<void> fv; Fut<int&> fr; if (p) f = p->get_future(); if (pv) fv = pv->get_future(); if (pr) fr = pr->get_future(); thread t([=] { if (p) p->make_ready_at_thread_exit(); if (pv) pv->make_ready_at_thread_exit(); if (pr) pr->make_ready_at_thread_exit(); bool th = false; try { if (p) p->make_ready_at_thread_exit(); if (pv) pv->make_ready_at_thread_exit(); if (pr) pr->make_ready_at_thread_exit(); } catch (task_already_started&) { th = true; } catch (promise_already_satisfied&) { th = true; } VT_CHECK(th, "refused", "a second run was accepted"); vt_count("results_at_exit", 1); });
  int x = p ? get_id<int>(f) : pv ? get_id<void>(fv) : get_id<int&>(fr); { Quiet q; VT_CHECK(r->ended == 1, "early", "a result was observed before the function ended"); } VT_CHECK(x == (pv ? norm<void>(r->want) : r->want), "differs", "the function produced %d, %d was observed", r->want, x); t.join(); delete p; delete pv; delete pr; r->check(); delete r; }
template<class T> static PT<T>* make_task(Rec* r, int nap) { r->before.bump(); switch (vt_rnd(4)) { case 0: { Fn<T> f(r, nap); return new PT<T>(f); } case 1: return new PT<T>(Fn<T>(r, nap)); case 2: { MFn<T> f(r, nap); return new PT<T>(boost::move(f)); } default: g_rec = r; g_nap = nap; return new PT<T>(&plain<T>); } }
template<class T, class F> static void consume(F& f, Rec* r, int how, bool get = true) { for (int i = 0; i < how; ++i) switch (vt_rnd(5)) { case 0: f.wait(); VT_CHECK(f.is_ready(), "status", "not ready after wait()"); break; case 1: { future_status s = f.wait_for(chrono::milliseconds(vt_rnd(50))); VT_CHECK(s != future_status::deferred, "status", "deferred?"); if (s == future_status::ready) { Quiet q; VT_CHECK(r->want == BROKEN || r->ended, "early", "ready before the function ended"); } vt_count("timed_waits", 1); break; } case 2: { bool e = false; { Quiet q; e = r->ended && r->want != BROKEN; } (void)e; if (f.is_ready()) { Quiet q; VT_CHECK(r->want == BROKEN || r->ended, "early", "ready before the function ended"); } break; } case 3: { bool h = f.has_value(); VT_CHECK(!h || r->want < EXC, "differs", "has_value although the function threw"); break; } default: { bool h = f.has_exception(); VT_CHECK(!h || r->want >= EXC, "differs", "has_exception although the function did not throw"); } } if (get) { int x = get_id<T>(f); r->seen(x == UNK ? r->want : x); if (x == UNK) VT_CHECK(r->want < EXC, "differs", "the exception was lost"); } }
// several threads run one task, or nobody does; readers watch; the task may die at any time after
template<class T> static void task_race() {
  int runners = vt_rnd(4), readers = 1 + vt_rnd(3), nap = chance(30) ? 1 + vt_rnd(40) : 0; Rec* r = new Rec(runners ? pick_want() : BROKEN); if (!runners) r->may = false; PT<T>* p = make_task<T>(r, nap); shared_future<T>* base = new shared_future<T>(p->get_future()); if (chance(20)) { PT<T>* q = new PT<T>(boost::move(*p)); VT_CHECK(!p->valid(), "status", "a moved-from task is valid"); delete p; p = q; } if (chance(20)) { PT<T>* q = new PT<T>; q->swap(*p); VT_CHECK(q->valid() && !p->valid(), "status", "swap of tasks"); delete p; p = q; }
  int* refused = new int(0); Par w, rd; for (int i = 0; i < readers; ++i) { NoRace n; shared_future<T>* f = new shared_future<T>(*base); rd.go([=] { consume<T>(*f, r, vt_rnd(3)); if (chance(30)) consume<T>(*f, r, 1); delete f; }); } if (chance(40)) delete base, base = 0;
  for (int i = 0; i < runners; ++i) w.go([=] { if (vt_virtual() && chance(30)) vt_sleep(vt_rnd(60) * MS); try { (*p)(); Quiet q; VT_CHECK(r->ended, "unfinished", "the task's call returned before the function ended"); } catch (task_already_started&) { Quiet q; ++*refused; vt_count("second_refused", 1); } });
  w.join(); VT_CHECK(!runners || *refused == runners - 1, "refused", "%d of %d runs were refused", *refused, runners); if (runners && chance(50)) must<task_already_started>("a later run", [&] { (*p)(); }); delete p; if (!runners) vt_count("broken", 1); rd.join(); delete base; r->check(); delete r; delete refused; }
SCENARIO(task_race_int, F_NATIVE | F_HOT) { task_race<int>(); }
SCENARIO(task_race_big, F_NATIVE) { task_race<Big>(); }
SCENARIO(task_race_move_only, F_NATIVE) { PT<MoveOnly>* p; Rec* r = new Rec(pick_want()); p = make_task<MoveOnly>(r, 0); Fut<MoveOnly>* f = new Fut<MoveOnly>(p->get_future()); int fate = vt_rnd(3); if (!fate) { r->want = BROKEN; r->may = false; } Par w; w.go([=] { if (fate) (*p)(); if (fate == 1) must<task_already_started>("a later run", [&] { (*p)(); }); delete p; }); w.go([=] { consume<MoveOnly>(*f, r, vt_rnd(2)); delete f; }); w.join(); r->check(); delete r; }
SCENARIO(task_race_ref, F_NATIVE) { task_race<int&>(); }
SCENARIO(task_race_void, F_NATIVE) { task_race<void>(); }
// a task handed to a library thread, in the ways that exist
template<class T> static void task_thread() { Rec* r = new Rec(pick_want()); PT<T>* p = make_task<T>(r, chance(30) ? 5 : 0); Fut<T>* f = new Fut<T>(p->get_future()); bool drop = chance(20), exitr = chance(30); if (drop) delete f, f = 0; u64 t0 = vt_tid(); thread* t; if (exitr) t = new thread([=] { p->make_ready_at_thread_exit(); bool th = false; try { (*p)(); } catch (task_already_started&) { th = true; } VT_CHECK(th, "refused", "a second run was accepted"); if (f) VT_CHECK(!f->is_ready(), "early", "ready before the thread's exit"); vt_count("results_at_exit", 1); }); else if (chance(50)) t = new thread(boost::move(*p)); else t = new thread([=] { (*p)(); }); if (f && chance(50)) { consume<T>(*f, r, vt_rnd(3)); { Quiet q; VT_CHECK(r->tid != (int)t0, "where", "ran in the wrong thread"); } delete f; f = 0; } t->join(); delete t; delete p; if (f) { VT_CHECK(f->is_ready(), "status", "not ready after the thread ended"); consume<T>(*f, r, 0); } delete f; r->check(); { Quiet q; VT_CHECK(r->begun == 1, "lost", "the function did not run"); } delete r; }
SCENARIO(task_thread_int, F_NATIVE) { task_thread<int>(); }
SCENARIO(task_thread_big, F_NATIVE) { task_thread<Big>(); }
SCENARIO(task_thread_move_only, F_NATIVE) { task_thread<MoveOnly>(); }
SCENARIO(task_thread_void, F_NATIVE) { task_thread<void>(); }
SCENARIO(task_thread_ref, F_NATIVE) { task_thread<int&>(); }
// random histories of one thread against a model
struct Cell { bool valid, started, got; int want; Cell() : valid(false), started(false), got(false), want(0) {} };
template<class T> struct CFn { typedef T result_type; int* calls; int want; long own; CFn(int* c, int w) : calls(c), want(w), own(5) {} CFn(CFn const& o) : calls(o.calls), want(o.want), own(o.own) { VT_CHECK(own == 5, "function", "a dead function was copied"); } ~CFn() { own = 0; } T operator()() { VT_CHECK(own == 5, "function", "a dead function was invoked"); ++*calls; if (want >= EXC) throw Err(want - EXC); return Tr<T>::make(want); } };
template<class T> struct FSt { Fut<T> f; int st; int want; FSt() : st(0), want(0) {} };   // st: 0 pending 1 done
template<class T> static void history() {
  const int N = 3; PT<T> p[N]; Cell c[N]; int calls = 0, expect = 0; std::vector<FSt<T>*> fs; int link[N] = { -1, -1, -1 }; 
  for (int k = 0; k < 14; ++k) { int i = vt_rnd(N), j = vt_rnd(N);
    auto brk = [&](int x) { if (c[x].valid && !c[x].started && link[x] >= 0) { fs[link[x]]->st = 1; fs[link[x]]->want = BROKEN; vt_count("broken", 1); } link[x] = -1; };
    switch (vt_rnd(9)) {
      case 0: case 1: { int w = pick_want(); brk(i); if (chance(50)) p[i] = PT<T>(CFn<T>(&calls, w)); else { CFn<T> fn(&calls, w); p[i] = PT<T>(fn); } c[i] = Cell(); c[i].valid = true; c[i].want = w; break; }
      case 2: if (i == j) break; brk(i); p[i] = boost::move(p[j]); c[i] = c[j]; link[i] = link[j]; c[j] = Cell(); link[j] = -1; break;
      case 3: p[i].swap(p[j]); std::swap(c[i], c[j]); std::swap(link[i], link[j]); break;
      case 4: { if (!c[i].valid) { must<task_moved>("get_future without a task", [&] { p[i].get_future(); }); break; } if (c[i].got) { must<future_already_retrieved>("a second get_future", [&] { p[i].get_future(); }); break; } FSt<T>* f = new FSt<T>; f->f = p[i].get_future(); fs.push_back(f); c[i].got = true; link[i] = fs.size() - 1; if (c[i].started) f->st = 1, f->want = c[i].want; break; }
      case 5: case 6: if (!c[i].valid) { must<task_moved>("running without a task", [&] { p[i](); }); break; } if (c[i].started) { must<task_already_started>("a second run", [&] { p[i](); }); break; } p[i](); ++expect; c[i].started = true; if (link[i] >= 0) { fs[link[i]]->st = 1; fs[link[i]]->want = c[i].want; } break;
      case 7: if (!c[i].valid) { must<future_error>("reset without a task", [&] { p[i].reset(); }); break; } brk(i); p[i].reset(); c[i].started = false; c[i].got = false; vt_count("resets", 1); break;
      case 8: brk(i); { PT<T> d; p[i] = boost::move(d); } c[i] = Cell(); break; }
    VT_CHECK(calls == expect, "twice", "%d invocations, expected %d", calls, expect); for (int x = 0; x < N; ++x) VT_CHECK(p[x].valid() == c[x].valid, "status", "valid() is wrong");
    for (size_t x = 0; x < fs.size(); ++x) { FSt<T>& f = *fs[x]; if (!f.f.valid()) continue; bool r = f.f.is_ready(); VT_CHECK(r == (f.st == 1), r ? "early" : "status", r ? "a future is ready although its task has not run" : "a future is not ready although its task ended or died"); if (r) VT_CHECK(f.f.has_exception() == (f.want >= EXC) && f.f.has_value() == (f.want < EXC), "differs", "wrong kind of result"); if (r && chance(15)) { int g = get_id<T>(f.f); VT_CHECK(g == norm<T>(f.want), "differs", "result %d was produced, %d observed", f.want, g); f.f = Fut<T>(); vt_count("results", 1); } } }
  for (int x = 0; x < N; ++x) { if (c[x].valid && !c[x].started && link[x] >= 0) { fs[link[x]]->st = 1; fs[link[x]]->want = BROKEN; } p[x] = PT<T>(); } for (size_t x = 0; x < fs.size(); ++x) { FSt<T>& f = *fs[x]; if (f.f.valid()) { VT_CHECK(f.f.is_ready(), "status", "a future is not ready although its task is gone"); int g = get_id<T>(f.f); VT_CHECK(g == norm<T>(f.want), "differs", "result %d was produced, %d observed", f.want, g); } delete fs[x]; } }
SCENARIO(history_int, F_NATIVE) { history<int>(); }
SCENARIO(history_big, F_NATIVE) { history<Big>(); }
SCENARIO(history_ref, F_NATIVE) { history<int&>(); }
SCENARIO(history_void, F_NATIVE) { history<void>(); }
SCENARIO(history_move_only, F_NATIVE) { history<MoveOnly>(); }
// reset while another thread holds the old future
SCENARIO(reset_race, F_NATIVE) { int calls = 0; struct F2 { typedef int result_type; int* c; int operator()() { return ++*c; } }; F2 fn = { &calls }; PT<int>* p = new PT<int>(fn); shared_future<int>* f1 = new shared_future<int>(p->get_future()); bool ran = chance(50); Par w; w.go([=] { int x = -1; try { x = f1->get(); } catch (broken_promise&) { x = BROKEN; } VT_CHECK(x == (ran ? 1 : BROKEN), "differs", "the first future saw %d", x); }); if (ran) (*p)(); p->reset(); vt_count("resets", 1); shared_future<int>* f2 = new shared_future<int>(p->get_future()); VT_CHECK(!f2->is_ready(), "reset", "a future is ready before the task ran again"); Par w2; w2.go([=] { int x = f2->get(); VT_CHECK(x == (ran ? 2 : 1), "reset", "the second future saw %d", x); }); (*p)(); w.join(); w2.join(); VT_CHECK(calls == (ran ? 2 : 1), "twice", "%d invocations", calls); if (ran) VT_CHECK(f1->get() == 1, "reset", "the first future changed"); delete p; delete f1; delete f2; }

// ---- async ----
template<class T, class F> static void async_readers(shared_future<T>* base, Rec* r, int nap, F check) { (void)nap; int n = 1 + vt_rnd(3); Par rd; for (int i = 0; i < n; ++i) { NoRace q; shared_future<T>* f = new shared_future<T>(*base); rd.go([=] { consume<T>(*f, r, vt_rnd(3)); delete f; }); } if (chance(50)) { delete base; base = 0; } rd.join(); check(); delete base; }
static void own_thread(Rec* r, int me) { Quiet q; VT_CHECK(r->begun == 1, "lost", "the function did not run"); VT_CHECK(r->tid != me, "where", "an asynchronous function ran in the caller's thread"); }
template<class T> static Fut<T> start(Rec* r, int nap, launch pol) { r->before.bump(); switch (vt_rnd(4)) { case 0: { Fn<T> f(r, nap); return boost::async(launch(pol), f); } case 1: return boost::async(launch(pol), Fn<T>(r, nap)); case 2: { MFn<T> f(r, nap); return boost::async(launch(pol), boost::move(f)); } default: g_rec = r; g_nap = nap; if (pol == launch::async && chance(50)) return boost::async(&plain<T>); return boost::async(launch(pol), &plain<T>); } }
template<class T> static void async_own() { Rec* r = new Rec(pick_want()); int nap = chance(40) ? 1 + vt_rnd(40) : 0; Fut<T> f = start<T>(r, nap, chance(50) ? launch::async : launch::any); VT_CHECK(f.valid(), "status", "async gave an invalid future"); int me = vt_tid(); if (vt_virtual() && chance(15)) { { Fut<T> g = boost::move(f); } vt_settle(); vt_sleep(100 * MS); vt_settle(); vt_settle(); own_thread(r, me); NoRace n; r->check(); delete r; return; }
  async_readers<T>(new shared_future<T>(boost::move(f)), r, nap, [=] { own_thread(r, me); }); vt_settle(); vt_settle(); if (!vt_virtual()) return; NoRace n; r->check(); delete r; }
SCENARIO(async_own_int, F_NATIVE | F_HOT) { async_own<int>(); }
SCENARIO(async_own_big, F_NATIVE) { async_own<Big>(); }
SCENARIO(async_own_ref, F_NATIVE) { async_own<int&>(); }
SCENARIO(async_own_void, F_NATIVE) { async_own<void>(); }
SCENARIO(async_own_move_only, F_NATIVE) { Rec* r = new Rec(pick_want()); Fut<MoveOnly> f = start<MoveOnly>(r, 0, launch::async); consume<MoveOnly>(f, r, vt_rnd(3)); own_thread(r, vt_tid()); f = Fut<MoveOnly>(); vt_settle(); vt_settle(); if (!vt_virtual()) return; NoRace n; r->check(); delete r; }
// the failure to create the thread, or to allocate, is reported and the function never runs
SCENARIO(async_failures, F_FAULT) { Rec* r = new Rec(pick_want()); bool create = chance(50), threw = false; r->before.bump(); Fut<int> f; if (create) vt_fail_create(1); else vt_fail_new(1 + vt_rnd(10)); 
  try { f = boost::async(launch::async, Fn<int>(r)); } catch (thread_resource_error&) { threw = true; VT_CHECK(create, "error", "thread_resource_error without a failed creation"); vt_count("creation_failures", 1); } catch (std::bad_alloc&) { threw = true; VT_CHECK(!create, "error", "bad_alloc without a failed allocation"); vt_count("allocation_failures", 1); }
  bool pend = vt_fail_pending(); vt_fail_create(0); vt_fail_new(0); VT_CHECK(threw || !create, "error", "the failure to create the thread was not reported"); (void)pend; if (!threw) { bool ba = false; int x = 0; try { x = f.get(); } catch (std::bad_alloc&) { ba = true; } catch (boost::unknown_exception&) { ba = true; } catch (Err& e) { x = EXC + e.id; } if (!ba) r->seen(x); } f = Fut<int>(); vt_settle(); vt_settle(); NoRace n; { Quiet q; if (threw) VT_CHECK(r->begun == 0, "unexpected", "the function ran although async failed"); } r->check(); delete r; }
SCENARIO(task_failures, F_FAULT) { Rec* r = new Rec(3); bool threw = false; { PT<Big>* p = 0; r->before.bump(); vt_fail_new(1 + vt_rnd(5)); try { Quiet q; (void)q; } catch (...) {} try { p = new PT<Big>(Fn<Big>(r)); } catch (std::bad_alloc&) { threw = true; vt_count("allocation_failures", 1); } vt_fail_new(0); if (!threw) { Fut<Big> f; vt_fail_new(1 + vt_rnd(3)); bool g = false; for (int i = 0; i < 3 && !g; ++i) try { f = p->get_future(); g = true; } catch (std::bad_alloc&) { vt_count("allocation_failures", 1); } vt_fail_new(0); (*p)(); if (g) consume<Big>(f, r, 1); bool rs = false; vt_fail_new(1 + vt_rnd(2)); try { p->reset(); rs = true; } catch (std::bad_alloc&) { vt_count("allocation_failures", 1); } vt_fail_new(0); if (!rs) must<task_already_started>("running after a failed reset", [&] { (*p)(); }); else { VT_CHECK(!p->get_future().is_ready(), "reset", "ready after reset"); } delete p; } } r->check(); delete r; }
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
struct Obj { int k; long live; Obj() : k(3), live(9) {} int add(int a) { VT_CHECK(live == 9, "function", "dead object"); return k + a; } ~Obj() { live = 0; } };
static int sum(int a, std::string const& s, Big b) { return a + (int)s.size() + b.id(); }
static int take(MoveOnly m, int& r) { r += 1; return Tr<MoveOnly>::id(m); }
SCENARIO(async_args, F_NATIVE) { launch pol = chance(50) ? launch::async : launch::deferred; { int a = 2; std::string s(3, 'z'); Big b(4); Fut<int> f = boost::async(launch(pol), &sum, a, s, b); a = 50; s.clear(); b = Big(9); VT_CHECK(f.get() == 9, "arguments", "the arguments were not captured at the call"); b.id(); } { int cnt = 0; Fut<int> f = boost::async(launch(pol), &take, MoveOnly(6), boost::ref(cnt)); VT_CHECK(f.get() == 6, "arguments", "a moved argument was lost"); VT_CHECK(cnt == 1, "arguments", "a reference argument was copied"); } { Obj* o = new Obj; Fut<int> f = boost::async(launch(pol), &Obj::add, o, 4); VT_CHECK(f.get() == 7, "arguments", "a member function got the wrong arguments"); delete o; Obj v; Fut<int> g = boost::async(launch(pol), &Obj::add, v, 4); v.k = 100; VT_CHECK(g.get() == 7, "arguments", "the object was not captured at the call"); } { char txt[8] = "abc"; Fut<size_t> f = boost::async(launch(pol), [](std::string t) { return t.size(); }, txt); VT_CHECK(f.get() == 3, "arguments", "an array argument"); } { packaged_task<int(int, Big)> p([](int a, Big b) { return a + b.id(); }); Fut<int> f = p.get_future(); Big b(7); p(3, b); b.id(); VT_CHECK(f.get() == 10, "arguments", "a task's arguments"); p.reset(); f = p.get_future(); p(4, boost::move(b)); VT_CHECK(f.get() == 11, "arguments", "a task's arguments after reset"); } vt_count("results", 6); vt_settle(); }
// tasks with parameters: run here, in another thread with the arguments handed over, or with the result kept for the thread's exit
struct ArgFn { typedef int result_type; Rec* r; long own; ArgFn(Rec* x) : r(x), own(4) {} ~ArgFn() { own = 0; } int operator()(int a, Big b, MoveOnly m, int* ref) { VT_CHECK(own == 4, "function", "a dead function was invoked"); r->begin(); VT_CHECK(a == 2 && b.id() == 3 && m.p && *m.p == 4, "arguments", "the arguments are %d %d", a, b.id()); *ref += 1; vt_point(); r->end(); if (r->want >= EXC) throw Err(r->want - EXC); return r->want; } };
struct VoidFn { typedef void result_type; Rec* r; void operator()(Big b, int) { r->begin(); VT_CHECK(b.id() == 3, "arguments", "wrong argument"); vt_point(); r->end(); if (r->want >= EXC) throw Err(r->want - EXC); } };
struct RefFn { typedef int& result_type; Rec* r; int& operator()(int i) { r->begin(); vt_point(); r->end(); if (r->want >= EXC) throw Err(r->want - EXC); return targets[i]; } };
SCENARIO(task_args, F_NATIVE) { typedef packaged_task<int(int, Big, MoveOnly, int*)> P; Rec* r = new Rec(pick_want()); P* p = new P(ArgFn(r)); r->before.bump(); Fut<int>* f = new Fut<int>(p->get_future()); int* ref = new int(0); int how = vt_rnd(4); Par w; thread* t = 0; Par rd; if (how) rd.go([=] { consume<int>(*f, r, vt_rnd(3)); delete f; });
  switch (how) { case 0: (*p)(2, Big(3), MoveOnly(4), ref); consume<int>(*f, r, 1); delete f; break; case 1: w.go([=] { (*p)(2, Big(3), MoveOnly(4), ref); }); break; case 2: t = new thread([=] { p->make_ready_at_thread_exit(2, Big(3), MoveOnly(4), ref); { Quiet q; VT_CHECK(r->ended, "unfinished", "make_ready_at_thread_exit returned before the function ended"); } bool th = false; try { (*p)(2, Big(3), MoveOnly(4), ref); } catch (task_already_started&) { th = true; } VT_CHECK(th, "refused", "a second run was accepted"); vt_count("results_at_exit", 1); }); break; default: t = new thread([=] { Big b(3); (*p)(2, b, MoveOnly(4), ref); b.id(); }); }
  w.join(); if (t) { t->join(); delete t; } rd.join(); VT_CHECK(*ref == 1, "arguments", "a reference argument was copied"); must<task_already_started>("a later run", [&] { (*p)(2, Big(3), MoveOnly(4), ref); }); if (chance(30)) { p->reset(); Rec r2(pick_want()); (void)r2; Fut<int> g = p->get_future(); VT_CHECK(!g.is_ready(), "reset", "ready after reset()"); vt_count("resets", 1); } delete p; delete ref; r->check(); delete r; }
SCENARIO(task_args_move_thread, F_NATIVE) { typedef packaged_task<void(Big, int)> P; Rec* r = new Rec(pick_want()); VoidFn vf = { r }; P p(vf); r->before.bump(); Fut<void> f = p.get_future(); thread t(boost::move(p), Big(3), 1); VT_CHECK(!p.valid(), "status", "a moved-from task is valid"); consume<void>(f, r, vt_rnd(3)); t.join(); r->check(); delete r; }
SCENARIO(task_args_ref_void, F_NATIVE) { Rec* r = new Rec(pick_want()); Rec* r2 = new Rec(pick_want()); VoidFn vf = { r }; RefFn rf = { r2 }; packaged_task<void(Big, int)>* p = new packaged_task<void(Big, int)>(vf); packaged_task<int&(int)>* q = new packaged_task<int&(int)>(rf); r->before.bump(); r2->before.bump(); shared_future<void>* f = new shared_future<void>(p->get_future()); shared_future<int&>* g = new shared_future<int&>(q->get_future()); int w2 = r2->want; Par rd; for (int i = 1 + vt_rnd(2); i > 0; --i) rd.go([=] { if (chance(50)) consume<void>(*f, r, 1); int x = get_id<int&>(*g); { Quiet z; VT_CHECK(r2->ended == 1, "early", "a result was observed before the function ended"); } VT_CHECK(x == w2, "differs", "the function produced %d, %d was observed", w2, x); consume<void>(*f, r, vt_rnd(2)); });
  bool ex = chance(60); thread t([=] { if (ex) { p->make_ready_at_thread_exit(Big(3), 1); q->make_ready_at_thread_exit(w2 % EXC); VT_CHECK(!f->is_ready() && !g->is_ready(), "early", "ready before the thread's exit"); bool th = false; try { q->make_ready_at_thread_exit(1); } catch (task_already_started&) { th = true; } catch (promise_already_satisfied&) { th = true; } VT_CHECK(th, "refused", "a second run was accepted"); vt_count("results_at_exit", 1); } else { (*p)(Big(3), 1); (*q)(w2 % EXC); } }); t.join(); rd.join(); VT_CHECK(f->is_ready() && g->is_ready(), "status", "not ready after the thread ended"); delete p; delete q; delete f; delete g; r->check(); r2->check(); delete r; delete r2; }
// deferred: exactly one of the threads that wait runs it
template<class T> static void deferred() { Rec* r = new Rec(pick_want()); r->before.bump(); int nap = chance(40) ? 1 + vt_rnd(40) : 0; Fut<T> f = start<T>(r, nap, launch::deferred); VT_CHECK(f.valid() && !f.is_ready() && !f.has_value() && !f.has_exception(), "status", "a deferred function's future claims a result"); if (chance(50)) { VT_CHECK(f.wait_for(chrono::milliseconds(30)) == future_status::deferred && f.wait_until(chrono::steady_clock::now() + chrono::seconds(2)) == future_status::deferred, "status", "a timed wait did not report that the function is deferred"); vt_count("reported_deferred", 1); } { Quiet q; VT_CHECK(!r->begun, "unexpected", "a deferred function ran before anybody waited"); } 
  if (chance(15)) { r->may = false; { Fut<T> g = boost::move(f); } r->check(); delete r; vt_count("never_run", 1); return; }
  int n = 1 + vt_rnd(4); shared_future<T>* base = new shared_future<T>(boost::move(f)); std::set<int>* ids = new std::set<int>; Par w; for (int i = 0; i < n; ++i) { NoRace q; shared_future<T>* g = new shared_future<T>(*base); w.go([=] { { Quiet q2; ids->insert(vt_tid()); } for (int k = vt_rnd(3); k > 0; --k) switch (vt_rnd(4)) { case 0: g->wait(); VT_CHECK(g->is_ready(), "status", "not ready after wait()"); break; case 1: { future_status s = g->wait_for(chrono::milliseconds(vt_rnd(50))); if (s == future_status::deferred) vt_count("reported_deferred", 1); if (s == future_status::ready) { Quiet q3; VT_CHECK(r->ended, "early", "ready before the function ended"); } break; } case 2: if (g->is_ready()) { Quiet q3; VT_CHECK(r->ended, "early", "ready before the function ended"); } break; default: (void)g->get_exception_ptr(); VT_CHECK(g->is_ready(), "status", "not ready after get_exception_ptr()"); } int x = get_id<T>(*g); r->seen(x == UNK ? r->want : x); delete g; }); } if (chance(50)) delete base, base = 0; w.join(); { Quiet q; VT_CHECK(r->begun == 1 && ids->count(r->tid), "where", "a deferred function ran in a thread that did not wait"); } delete base; delete ids; r->check(); delete r; vt_count("deferred_run", 1); }
SCENARIO(deferred_int, F_NATIVE | F_HOT) { deferred<int>(); }
SCENARIO(deferred_big, F_NATIVE) { deferred<Big>(); }
SCENARIO(deferred_ref, F_NATIVE) { deferred<int&>(); }
SCENARIO(deferred_void, F_NATIVE) { deferred<void>(); }
SCENARIO(deferred_move_only, F_NATIVE) { Rec* r = new Rec(pick_want()); Fut<MoveOnly> f = start<MoveOnly>(r, 0, launch::deferred); if (chance(80)) { int me = vt_tid(); if (chance(50)) f.wait(); int x = get_id<MoveOnly>(f); r->seen(x); VT_CHECK(r->tid == me, "where", "a deferred function ran in another thread"); } f = Fut<MoveOnly>(); r->check(); delete r; }
#endif
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
template<class T, class Ex> static void on(Ex& ex, int lo, bool caller, Rec* r, int nap) { (void)lo; r->before.bump(); Fut<T> f; switch (vt_rnd(2)) { case 0: { Fn<T> fn(r, nap); f = boost::async(ex, fn); break; } default: f = boost::async(ex, Fn<T>(r, nap)); } int me = vt_tid(); if (caller) { VT_CHECK(f.is_ready(), "where", "an inline executor did not run the function at once"); VT_CHECK(r->tid == me, "where", "an inline executor ran the function elsewhere"); } async_readers<T>(new shared_future<T>(boost::move(f)), r, nap, [=] { if (!caller) own_thread(r, me); }); }
template<class T> static void executor_async() { Rec* r = new Rec(pick_want()); int nap = chance(40) ? 1 + vt_rnd(40) : 0; switch (vt_rnd(5)) { case 0: { basic_thread_pool* p = new basic_thread_pool(1 + vt_rnd(2)); on<T>(*p, 0, false, r, nap); p->close(); p->join(); delete p; break; } case 1: { inline_executor p; on<T>(p, 0, true, r, nap); break; } case 2: { thread_executor p; on<T>(p, 0, false, r, nap); break; } case 3: { executor_adaptor<basic_thread_pool>* p = new executor_adaptor<basic_thread_pool>(1); executor& e = *p; on<T>(e, 0, false, r, nap); p->close(); p->underlying_executor().join(); delete p; break; } default: { loop_executor* p = new loop_executor; Par lo; int lt = lo.go([=] { p->loop(); }); on<T>(*p, lt, false, r, nap); { Quiet q; VT_CHECK(r->tid == lt, "where", "a loop executor ran the function outside its loop"); } p->close(); lo.join(); delete p; } } vt_settle(); if (vt_virtual()) { r->check(); } vt_count("executor_async", 1); delete r; }
SCENARIO(executor_async_int, F_NATIVE) { executor_async<int>(); }
SCENARIO(executor_async_big, F_NATIVE) { executor_async<Big>(); }
SCENARIO(executor_async_void, F_NATIVE) { executor_async<void>(); }
SCENARIO(executor_closed, F_NATIVE) { Rec* r = new Rec(2); r->may = false; basic_thread_pool* p = new basic_thread_pool(1); p->close(); bool th = false; try { Fut<int> f = boost::async(*p, Fn<int>(r)); (void)f; } catch (sync_queue_is_closed&) { th = true; } VT_CHECK(th, "error", "async on a closed executor was accepted"); p->join(); delete p; r->check(); delete r; }
#endif
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
template<class T> struct Al { typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type; long* live; template<class U> struct rebind { typedef Al<U> other; }; Al(long* l) : live(l) {} template<class U> Al(Al<U> const& o) : live(o.live) {} T* allocate(size_t n) { ++*live; return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t) { --*live; ::operator delete(p); } void destroy(T* p) { p->~T(); } };
SCENARIO(allocator, F_NATIVE | F_ONCE) { long live = 0; int calls = 0; { PT<int> p(boost::allocator_arg, Al<int>(&live), CFn<int>(&calls, 3)); VT_CHECK(live == 1, "allocator", "the allocator was not used"); Fut<int> f = p.get_future(); p(); VT_CHECK(f.get() == 3 && calls == 1, "differs", "wrong value"); p.reset(); Fut<int> g = p.get_future(); p(); VT_CHECK(g.get() == 3 && calls == 2, "reset", "wrong value"); } VT_CHECK(live == 0, "allocator", "%ld allocations not returned", live); }
#endif
static int pcb; static void cb(PT<int>& p) { { Quiet q; ++pcb; } try { p(); } catch (task_already_started&) {} }
SCENARIO(wait_callback, F_NATIVE) { pcb = 0; Rec* r = new Rec(4); r->before.bump(); PT<int>* p = new PT<int>(Fn<int>(r)); shared_future<int>* f = new shared_future<int>(p->get_future()); p->set_wait_callback(&cb); Par w; int n = 1 + vt_rnd(3); for (int i = 0; i < n; ++i) w.go([=] { if (chance(50)) f->wait(); else while (f->wait_for(chrono::milliseconds(5)) != future_status::ready) {} int x = f->get(); r->seen(x); }); w.join(); { Quiet q; VT_CHECK(pcb >= 1, "callback", "nobody ran the wait callback"); vt_count("callbacks", pcb); } delete f; delete p; r->check(); delete r; }
