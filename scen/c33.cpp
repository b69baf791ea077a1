// C33: a task region ends only when all its tasks have, runs each once, and reports every failure exactly once.
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include "ex.hpp"
#else
#include "val.hpp"
static int ts_live;
struct Live { Live() { Quiet q; ++ts_live; } Live(Live const&) { Quiet q; ++ts_live; } ~Live() { Quiet q; --ts_live; } };
#endif
#include <boost/thread/experimental/parallel/v2/task_region.hpp>
#include <boost/thread/experimental/task_region.hpp>
namespace par = boost::experimental::parallel;
struct RErr : std::exception { int id; Live l; explicit RErr(int i) : id(i) {} };
struct RT { int runs; bool accepted, refused, open, done, must_fail, failed; Pay pay; };          // one task
static RT rt_[128]; static int rt_n; static std::multiset<int>* threw_; static int err_n; static bool injecting_; static int pools_;
struct Rs { std::multiset<int> t; Rs() { Quiet q; for (int i = 0; i < 128; ++i) rt_[i] = RT(); rt_n = err_n = 0; pools_ = 0; threw_ = &t; ts_live = 0; injecting_ = false; } ~Rs() { Quiet q; std::multiset<int>().swap(t); } };
[[noreturn]] static void err() { int e; { Quiet q; e = err_n++; threw_->insert(e); vt_count("failures", 1); } if (chance(50)) throw RErr(e); boost::throw_exception(enable_current_exception(RErr(e))); }
static std::multiset<int> all_errors(par::exception_list const& el, int& canceled, int& other) { std::multiset<int> r; canceled = other = 0; size_t n = 0; for (par::exception_list::const_iterator i = el.begin(); i != el.end(); ++i, ++n) { VT_CHECK(*i, "report", "a null entry in the exception list"); try { boost::rethrow_exception(*i); } catch (RErr& e) { Quiet q; r.insert(e.id); } catch (par::task_canceled_exception&) { ++canceled; } catch (par::exception_list&) { vt_fail("report", "a nested list in the exception list"); } catch (...) { ++other; } }
  VT_CHECK(n == el.size(), "report", "size() is %zu and there are %zu entries", el.size(), n); return r; }
struct Body;
enum { X_DEFAULT, X_POOL, X_SERIAL, X_THREADS, X_INLINE, X_LOOP, X_N };
struct Ctx { int depth; bool pool_ok; bool waits, wait_only; };
static void region(int kind, int depth);
// runs one region over handle type TR; what the region has to report is what was thrown inside it (including nested regions, which report by throwing)
template<class TR> struct RB { int depth; int kind; int* calls; std::vector<int>* mine; bool catches;
  void spawn(TR& tr) { int id; { Quiet q; id = rt_n++; if (id >= 128) vt_fail("harness", "too many tasks"); mine->push_back(id); } RT& t = rt_[id]; t.pay.bump(); int what = vt_rnd(100); bool f = what < 18, nest = what > 80 && depth < 2; int d = depth; bool accepted = false;
    bool sure; { Quiet q; sure = false; for (int m : *mine) if (rt_[m].failed && kind == X_INLINE) sure = true; }
    try { tr.run([id, f, nest, d] { RT& t = rt_[id]; { Quiet q; if (t.runs++) vt_fail("task", "task %d was run twice", id); if (t.refused) vt_fail("task", "task %d, which run() refused, was run", id); t.open = true; vt_count("tasks_run", 1); } VT_CHECK(t.pay.a == 1 && t.pay.ok(), "task", "task %d does not see what was done before run()", id); t.pay.bump(); unsigned n = vt_rnd(4); struct D { RT& t; bool ok; ~D() { t.pay.bump(); Quiet q; t.open = false; t.done = true; if (!ok) t.failed = true; } } dd = { t, false }; for (unsigned i = 0; i < n; ++i) vt_yield(); if (chance(10)) vt_sleep(MS); if (f) err(); if (nest) region(chance(50) ? X_DEFAULT : X_THREADS, d + 1); dd.ok = true; }); accepted = true; }
    catch (par::task_canceled_exception&) { { Quiet q; t.refused = true; if (t.runs) vt_fail("task", "task %d was run although run() reported cancellation", id); bool any = false; for (int m : *mine) if (rt_[m].runs) any = true; if (!any || (threw_->empty() && !injecting_)) vt_fail("canceled", "run() reported cancellation although no task has failed"); vt_count("canceled", 1); } throw; }
    Quiet q; t.accepted = accepted; if (sure) vt_fail("canceled", "run() accepted a task after another had failed"); vt_count("spawned", 1); }
  void ended(const char* what) { for (size_t i = 0; i < mine->size(); ++i) { RT& t = rt_[(*mine)[i]]; bool acc; { Quiet q; acc = t.accepted; if (t.open) vt_fail("early", "%s while task %d is still running", what, (*mine)[i]); if (acc && !t.done) vt_fail("early", "%s although task %d has not run", what, (*mine)[i]); } if (acc) VT_CHECK(t.pay.a == 3 && t.pay.ok(), "early", "%s: what task %d did is not visible", what, (*mine)[i]); } }
  void operator()(TR& tr) { { Quiet q; ++*calls; } int n = vt_rnd(4); for (int i = 0; i < n; ++i) { spawn(tr); if (chance(20)) vt_yield(); if (chance(15)) { try { tr.wait(); ended("wait() returned"); vt_count("explicit_waits", 1); } catch (par::exception_list& el) { ended("wait() threw"); int c, o; std::multiset<int> r = all_errors(el, c, o); { Quiet q; if (r.empty() && !o) vt_fail("report", "wait() threw an empty list"); for (int e : r) if (r.count(e) > 1) vt_fail("report", "wait() reported failure %d twice", e); std::multiset<int>().swap(r); } vt_count("explicit_waits_failed", 1); throw; } catch (par::task_canceled_exception&) { throw; } } } if (chance(10)) err(); if (chance(3)) { boost::throw_exception(par::task_canceled_exception()); } }
};
template<class F> static void check_region(std::vector<int>& mine, F f, bool ex_closed, int& calls) { std::multiset<int> before; { Quiet q; before = *threw_; } (void)before; bool ok = false; std::multiset<int> r; int c = 0, o = 0;
  try { f(); ok = true; VT_CHECK(calls == 1, "region", "the function of the region was called %d times", calls); } catch (par::exception_list& el) { VT_CHECK(calls == 1, "region", "the function of the region was called %d times", calls); r = all_errors(el, c, o); VT_CHECK(el.size(), "report", "an empty list was thrown"); { Quiet q; vt_count("reports", 1); }
    for (size_t i = 0; i < mine.size(); ++i) { Quiet q; RT& t = rt_[mine[i]]; if (t.open || (t.accepted && !t.done)) vt_fail("early", "task_region threw before task %d ended", mine[i]); }
    { Quiet q; if (c) vt_fail("report", "task_canceled_exception is in the list"); if (o && !ex_closed && !injecting_) vt_fail("report", "%d exceptions in the list that nobody threw", o); for (int e : r) if (r.count(e) > 1) vt_fail("report", "failure %d is in the list %zu times", e, r.count(e)); std::multiset<int>().swap(r); std::multiset<int>().swap(before); } throw; }
  for (size_t i = 0; i < mine.size(); ++i) { RT& t = rt_[mine[i]]; { Quiet q; if (t.open || (t.accepted && !t.done)) vt_fail("early", "task_region returned before task %d ended", mine[i]); if (t.failed) vt_fail("lost", "task_region returned normally although task %d failed", mine[i]); } if (t.accepted) VT_CHECK(t.pay.a == 3 && t.pay.ok(), "early", "what task %d did is not visible", mine[i]); }
  Quiet q; std::multiset<int>().swap(r); std::multiset<int>().swap(before); vt_count("regions", 1); }
template<class Ex> static void region_ex(Ex& ex, int kind, int depth, bool closed = false) { typedef par::task_region_handle_gen<Ex> TR; std::vector<int> mine; struct V { std::vector<int>& v; ~V() { Quiet q; std::vector<int>().swap(v); } } vv = { mine }; { Quiet q; mine.reserve(16); } int calls = 0; RB<TR> b = { depth, kind, &calls, &mine, false }; check_region(mine, [&] { if (chance(50)) par::task_region(ex, b); else par::task_region_final(ex, b); }, closed, calls); }
static void region(int kind, int depth) {
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
  if (kind == X_DEFAULT) { Quiet q; if (++pools_ > 2) kind = X_THREADS; } // a default region has a thread per processor
  switch (kind) { case X_POOL: { basic_thread_pool p(1 + vt_rnd(3)); region_ex(p, kind, depth); return; } case X_SERIAL: { thread_executor te; serial_executor s(te); region_ex(s, kind, depth); return; } case X_THREADS: { thread_executor e; region_ex(e, kind, depth); return; } case X_INLINE: { inline_executor e; region_ex(e, kind, depth); return; }
    case X_LOOP: { loop_executor e; Par p; p.go([&] { e.loop(); }); struct C { loop_executor& e; Par& p; ~C() { e.close(); p.join(); } } c = { e, p }; region_ex(e, kind, depth); return; } default: break; }
#endif
  std::vector<int> mine; struct V { std::vector<int>& v; ~V() { Quiet q; std::vector<int>().swap(v); } } vv = { mine }; { Quiet q; mine.reserve(16); } int calls = 0; RB<par::task_region_handle> b = { depth, X_DEFAULT, &calls, &mine, false }; check_region(mine, [&] { if (chance(50)) par::task_region(b); else par::task_region_final(b); }, false, calls); }
// the outermost region: the reported failures are exactly the ones that occurred
static void outer(int kind) { std::multiset<int> r; int c = 0, o = 0; try { region(kind, 0); } catch (par::exception_list& el) { r = all_errors(el, c, o); } Quiet q; for (int e : *threw_) if (!r.count(e)) vt_fail("lost", "failure %d was not reported (%zu of %zu were)", e, r.size(), threw_->size()); for (int e : r) if (!threw_->count(e)) vt_fail("report", "failure %d reported, which did not occur", e); for (int i = 0; i < rt_n; ++i) { if (rt_[i].open) vt_fail("early", "a task is running after the outermost region"); vt_outcome((u64)i << 3 | rt_[i].runs << 1 | rt_[i].failed); } std::multiset<int>().swap(r); }
SCENARIO(tree, F_HOT | F_NATIVE) { Rs s; 
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
  outer(vt_rnd(X_N));
#else
  outer(X_DEFAULT); if (!vt_virtual()) { vt_sleep(20 * MS); vt_count("trees", 1); return; } vt_settle(); vt_settle();      // its threads are detached and may still hold what they threw
#endif
  { Quiet q; VT_CHECK(ts_live == 0, "lost", "%d exceptions were not destroyed", ts_live); } vt_count("trees", 1); }
SCENARIO(interrupted, 0) { Rs s; injecting_ = true; bool out = false; { boost::thread t([&] { try {
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
  int kind = vt_rnd(X_N); if (kind == X_SERIAL || kind == X_LOOP) kind = X_POOL; region(kind, 1); 
#else
  region(X_DEFAULT, 1);
#endif
  } catch (par::exception_list&) { } catch (thread_interrupted&) { vt_count("interrupted", 1); } { Quiet q; for (int i = 0; i < rt_n; ++i) if (rt_[i].open || (rt_[i].accepted && !rt_[i].done)) vt_fail("early", "the region was left while task %d has not ended", i); } out = true; }); for (unsigned i = vt_rnd(8); i-- > 0;) vt_yield(); if (chance(30)) vt_sleep(vt_rnd(2000) * US); t.interrupt(); t.join(); } VT_CHECK(out, "harness", "x"); }
SCENARIO(fault, F_FAULT) { Rs s; 
  // memory runs out while the region is used: what was accepted still ends before the region does
  bool failed = false; int n = 1 + vt_rnd(3); int k = vt_rnd(4); int at = 1 + vt_rnd(14); bool body = chance(20);
  auto f = [&](auto& tr) { for (int i = 0; i < n; ++i) { int id; { Quiet q; id = rt_n++; } if (i == k) vt_fail_new(at); RT& t = rt_[id]; t.pay.bump(); tr.run([id] { RT& t = rt_[id]; { Quiet q; if (t.runs++) vt_fail("task", "task %d was run twice", id); t.open = true; vt_count("tasks_run", 1); } t.pay.bump(); for (unsigned j = vt_rnd(6); j-- > 0;) vt_yield(); t.pay.bump(); bool b = chance(40); { Quiet q; t.open = false; t.done = true; } if (b) throw 1; }); t.accepted = true; } if (body) throw 1; };
  auto after = [&](const char* w) { vt_fail_new(0); Quiet q; for (int i = 0; i < rt_n; ++i) if (rt_[i].open || (rt_[i].accepted && !rt_[i].done)) vt_fail("early", "%s while task %d has not ended", w, i); };
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
  { thread_executor te; basic_thread_pool bp(2); bool which = chance(50); try { if (which) par::task_region(te, f); else par::task_region(bp, f); after("task_region returned"); } catch (par::exception_list&) { failed = true; after("task_region threw"); } catch (std::bad_alloc&) { failed = true; after("task_region threw bad_alloc"); } catch (thread_resource_error&) { failed = true; after("x"); } vt_fail_new(0); if (!which) { bp.close(); bp.join(); } }
#else
  try { par::task_region(f); after("task_region returned"); } catch (par::exception_list&) { failed = true; after("task_region threw"); } catch (std::bad_alloc&) { failed = true; after("task_region threw bad_alloc"); }
#endif
  vt_fail_new(0); if (failed) vt_count("failed_regions", 1); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
// the executor is closed while the region is used
SCENARIO(closed, 0) { Rs s; basic_thread_pool p(1 + vt_rnd(2)); Par c; c.go([&] { for (unsigned i = vt_rnd(10); i-- > 0;) vt_yield(); p.close(); }); try { region_ex(p, X_POOL, 2, true); } catch (par::exception_list&) { vt_count("failed_regions", 1); } c.join(); Quiet q; for (int i = 0; i < rt_n; ++i) if (rt_[i].open) vt_fail("early", "a task is running"); }
SCENARIO(shared_pool, 0) { Rs s; basic_thread_pool p(1 + vt_rnd(3)); Par c; for (int i = 0; i < 2; ++i) c.go([&] { try { region_ex(p, X_POOL, 2); } catch (par::exception_list&) { } }); c.join(); Quiet q; for (int i = 0; i < rt_n; ++i) if (rt_[i].open) vt_fail("early", "a task is running"); vt_count("shared", 1); }
#endif
