// C12: threads run their function once; join waits for all of it.
#include "t.hpp"
#include <boost/thread/thread.hpp>
#include <boost/bind/bind.hpp>
#include <boost/functional/hash.hpp>
#include <sstream>
using namespace boost;

struct Run { Pay before, during; int starts, ends; int tid; u64 end_t; thread::id id; bool finished, done2; int live; Run() : done2(false),  starts(0), ends(0), tid(-1), end_t(0), finished(false), live(0) {}
  void enter() { Quiet q; VT_CHECK(starts == 0, "twice", "the thread function was invoked %d times", starts + 1); starts++; tid = vt_tid(); vt_count("functions_run", 1); }
  void leave() { Quiet q; ends++; finished = true; end_t = vt_now(); }
  void body(u64 ns) { enter(); VT_CHECK(before.ok() && before.a == 1, "visibility", "what was written before the thread was started is not seen in it"); before.bump(); during.bump(); thread::id me = this_thread::get_id(); VT_CHECK(me != thread::id(), "id", "a thread has the id of no thread"); { NoRace n; id = me; } if (ns) vt_sleep(ns); during.bump(); leave(); }
  void joined(const char* how) { if (done2) return; { Quiet q; VT_CHECK(finished, "join-early", "%s returned before the thread function had ended", how); VT_CHECK(starts == 1, "twice", "the function ran %d times", starts); vt_count("joins", 1); } VT_CHECK(during.ok() && during.a == 2, "visibility", "the thread's work is not visible after %s", how); during.bump(); during.a = during.b = 2; }
};
struct Fn { Run* r; u64 ns; Fn(Run* x, u64 n) : r(x), ns(n) { Quiet q; r->live++; } Fn(Fn const& o) : r(o.r), ns(o.ns) { Quiet q; r->live++; } ~Fn() { Quiet q; r->live--; } void operator()() { r->body(ns); } void operator()(int a, std::string const& s) { VT_CHECK(a == 5 && s == "x", "args", "wrong arguments"); r->body(ns); } void mem(int k) { VT_CHECK(k == 9, "args", "wrong argument %d", k); r->body(ns); } void cmem() const { r->body(ns); } };
struct MoveFn { std::unique_ptr<int> p; Run* r; MoveFn(Run* x) : p(new int(7)), r(x) {} MoveFn(MoveFn&& o) : p(std::move(o.p)), r(o.r) {} MoveFn(MoveFn const&) = delete; void operator()() { VT_CHECK(p && *p == 7, "args", "a moved callable lost its state"); r->body(0); } };
static void f2(Run* r, int a, Run& b) { VT_CHECK(a == 3 && r == &b, "args", "wrong arguments"); r->body(0); }
static Run* g_run[3]; template<int I> static void f0() { Run* r; { Quiet q; r = g_run[I]; } r->body(0); }
static void fmv(Run* r, std::unique_ptr<int> p) { VT_CHECK(p && *p == 8, "args", "a moved argument was lost"); r->body(0); }
static void fstr(Run* r, std::string const& s, double d) { VT_CHECK(s == "hello" && d == 2.5, "args", "wrong arguments"); r->body(0); }
static thread* start(Run& r, u64 ns = 0, int ix = 0) {
  { r.before.bump(); } thread::attributes at; u64 want = 0; thread* t = 0;
  switch (vt_rnd(15)) {
    case 0: t = new thread(Fn(&r, ns)); break;
    case 1: { Fn f(&r, ns); t = new thread(f); break; }
    case 2: t = new thread(Fn(&r, ns), 5, std::string("x")); break;
    case 3: t = new thread(&f2, &r, 3, boost::ref(r)); break;
    case 4: { Quiet q; g_run[ix] = &r; } t = ix == 0 ? new thread(&f0<0>) : ix == 1 ? new thread(&f0<1>) : new thread(&f0<2>); break;
    case 5: t = new thread(boost::bind(&Fn::mem, Fn(&r, ns), 9)); break;
    case 6: t = new thread([&r, ns] { r.body(ns); }); break;
    case 7: t = new thread(MoveFn(&r)); break;
#ifndef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
    case 8: { Fn* f = new Fn(&r, ns); t = new thread(boost::ref(*f)); { Quiet q; } t->join(); r.joined("join"); delete f; r.done2 = true; *t = thread([] {}); break; }
#endif
    case 9: t = new thread(&fstr, &r, std::string("hello"), 2.5); break;
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
    case 10: t = new thread(&fmv, &r, std::unique_ptr<int>(new int(8))); break;
    case 12: { at.set_stack_size(100000); t = new thread(static_cast<thread::attributes const&>(at), &f2, &r, 3, boost::ref(r)); break; }
    case 13: { Fn* f = new Fn(&r, ns); t = new thread(&Fn::cmem, *f); delete f; break; }
#endif
    case 11: { want = 65536 * (1 + vt_rnd(16)); at.set_stack_size(want); VT_CHECK(at.get_stack_size() >= want, "attr", "stack size not kept"); t = new thread(static_cast<thread::attributes const&>(at), Fn(&r, ns)); VT_CHECK(vt_last_stacksize() >= want || !vt_virtual(), "attr", "asked for a stack of %llu, the thread was created with %llu", (unsigned long long)want, (unsigned long long)vt_last_stacksize()); break; }
    default: { thread a(Fn(&r, ns)); t = new thread(boost::move(a)); VT_CHECK(!a.joinable() && a.get_id() == thread::id(), "handle", "a moved-from thread is joinable"); break; } }
  return t; }
SCENARIO(forms, F_NATIVE) { int n = 1 + vt_rnd(3); Run* r = new Run[n]; thread* t[3]; for (int i = 0; i < n; ++i) { t[i] = start(r[i], vt_rnd(2) * 50000, i); if (chance(50)) vt_point(); }
  for (int i = 0; i < n; ++i) { VT_CHECK(t[i]->joinable() && t[i]->get_id() != thread::id(), "handle", "a started thread is not joinable"); t[i]->join(); r[i].joined("join"); VT_CHECK(!t[i]->joinable() && t[i]->get_id() == thread::id(), "handle", "a joined thread is still joinable"); delete t[i]; { Quiet q; VT_CHECK(r[i].live == 0, "copies", "%d copies of the callable survive the thread", r[i].live); } } vt_outcome(n); delete[] r; }

// timed joins
SCENARIO(timed, 0) {
  RealTrack::reset(); Run* r = new Run; u64 d = vt_rnd(4) * 40 * MS + vt_rnd(2) * 1500000000ull; r->before.bump(); thread* t = new thread(Fn(r, d)); thread::id id = t->get_id(); bool j = false; Par p; if (chance(20)) stepper(p, 2);
  for (int q = 0; q < 6 && !j; ++q) { Want w; 
#ifdef BOOST_THREAD_USES_DATETIME
    bool ok = timed_form(w, (M_CHRONO | M_PDUR | M_PTIME), [&](auto const& x) -> bool { typedef std::decay_t<decltype(x)> T; if constexpr (is_dur<T>::value) return t->try_join_for(x); else if constexpr (is_tp<T>::value) return t->try_join_until(x); else if constexpr (is_pdur<T>::value || is_ptime<T>::value) return t->timed_join(x); else return false; }, 4000000000ll);
#else
    bool ok = timed_form(w, M_CHRONO, [&](auto const& x) -> bool { typedef std::decay_t<decltype(x)> T; if constexpr (is_dur<T>::value) return t->try_join_for(x); else if constexpr (is_tp<T>::value) return t->try_join_until(x); else return false; }, 4000000000ll);
#endif
    { Quiet qq; vt_count("timed_joins", 1); i64 late = w.late(); 
      if (ok) { vt_count("timed_join_success", 1); VT_CHECK(r->finished, "join-early", "timed join with %s returned true before the thread ended", w.form); if (vt_exact()) { i64 s = (i64)vt_now() - (i64)(r->end_t > (u64)w.t0 ? r->end_t : (u64)w.t0); VT_CHECK(s <= w.tol(), "late", "timed join with %s returned %lld ns after the thread's end", w.form, (long long)s); } }
      else { VT_CHECK(w.reached(), "early", "timed join with %s gave up %lld ns before its deadline", w.form, (long long)w.left()); VT_CHECK(t->joinable() && t->get_id() == id, "handle", "a failed timed join changed the handle"); if (vt_exact()) { VT_CHECK(w.past || late <= w.tol(), "late", "timed join with %s gave up %lld ns after its deadline", w.form, (long long)late); VT_CHECK(!r->finished || w.past || (i64)r->end_t + 1000000 >= (i64)vt_now() || w.steps0 != RealTrack::I().steps, "untrue", "timed join with %s failed although the thread had ended in time", w.form); } } }
    if (ok) { r->joined("timed join"); j = true; VT_CHECK(!t->joinable(), "handle", "joinable after a successful timed join"); } }
  if (!j) { t->join(); r->joined("join"); } delete t; p.join(); { Quiet q; VT_CHECK(r->live == 0, "copies", "%d copies of the callable survive", r->live); } delete r; }

// a thread that is long in its exit functions has not ended: timed joins fail, and at their deadline
SCENARIO(timed_exit, 0) {
  struct S { bool fn, ex; S() : fn(false), ex(false) {} }; S* s = new S; u64 d1 = vt_rnd(3) * 10 * MS, d2 = (1 + vt_rnd(4)) * 20 * MS; thread* t = new thread([=] { this_thread::at_thread_exit([=] { vt_sleep(d2); s->ex = true; }); vt_sleep(d1); s->fn = true; }); bool j = false;
  for (int i = 0; i < 8 && !j; ++i) { u64 w = vt_rnd(40) * MS, t0 = vt_now(); if (chance(50)) j = t->try_join_for(chrono::nanoseconds(w)); else j = t->try_join_until(chrono::steady_clock::now() + chrono::nanoseconds(w)); u64 t1 = vt_now(); vt_count("timed_joins", 1);
    if (j) VT_CHECK(s->ex && s->fn, "join-early", "a timed join returned true before the thread's exit functions had ended"); if (vt_exact()) VT_CHECK(t1 - t0 <= w + MS, "late", "a timed join with a thread in its exit functions returned %llu ns after its deadline", (unsigned long long)(t1 - t0 - w)); if (!j) { VT_CHECK(t1 - t0 >= w, "early", "a timed join gave up %llu ns before its deadline", (unsigned long long)(t0 + w - t1)); VT_CHECK(t->joinable(), "handle", "a failed timed join changed the handle"); } }
  if (!j) { t->join(); VT_CHECK(s->ex && s->fn, "join-early", "join returned before the thread's exit functions had ended"); } delete t; delete s; }

// detach never stops the thread, whenever it happens
SCENARIO(detached, F_NATIVE) {
  int n = 1 + vt_rnd(3); Run* r = new Run[n]; 
  for (int i = 0; i < n; ++i) { r[i].before.bump(); unsigned k = vt_rnd(5); thread t(Fn(&r[i], vt_rnd(2) * 30000));
    if (k == 0) vt_point(); else if (k == 1) vt_sleep(100000);
    switch (vt_rnd(4)) { case 0: t.detach(); break; 
#ifdef BOOST_THREAD_PROVIDES_THREAD_DESTRUCTOR_CALLS_TERMINATE_IF_JOINABLE
      default: t.detach(); break; }
#else
      case 1: { thread u(boost::move(t)); break; } case 2: t = thread(); break; case 3: break; }
    if (false)
#endif
    VT_CHECK(!t.joinable() && t.get_id() == thread::id(), "handle", "a detached thread is joinable"); }
  for (int k = 0; k < 2000; ++k) { bool all = true; { Quiet q; for (int i = 0; i < n; ++i) all = all && r[i].finished; } if (all) break; vt_sleep(100000); }
  { Quiet q; for (int i = 0; i < n; ++i) VT_CHECK(r[i].starts == 1 && r[i].finished, "detached", "a detached thread's function ran %d times, finished %d", r[i].starts, (int)r[i].finished); vt_count("detached", n); }
  for (int k = 0; k < 2000; ++k) { int l = 0; { Quiet q; for (int i = 0; i < n; ++i) l += r[i].live; } if (!l) break; vt_sleep(100000); }
  { Quiet q; for (int i = 0; i < n; ++i) VT_CHECK(r[i].live == 0, "copies", "%d copies of a detached callable survive", r[i].live); } vt_sleep(5 * MS); NoRace nr; delete[] r;
}
SCENARIO(created_detached, F_NATIVE) {
  Run* r = new Run; r->before.bump(); thread::attributes at; pthread_attr_setdetachstate(at.native_handle(), PTHREAD_CREATE_DETACHED); { thread t(static_cast<thread::attributes const&>(at), Fn(r, vt_rnd(2) * 1000)); VT_CHECK(!t.joinable(), "handle", "a thread created detached is joinable"); }
  for (int k = 0; k < 2000; ++k) { { Quiet q; if (r->finished && r->live == 0) break; } vt_sleep(100000); } { Quiet q; VT_CHECK(r->starts == 1 && r->finished && r->live == 0, "detached", "a thread created detached: ran %d times, %d copies left", r->starts, r->live); } vt_sleep(5 * MS); NoRace nr; delete r;
}
// ids
SCENARIO(ids, F_NATIVE) {
  int n = 2 + vt_rnd(3); std::vector<thread*> t; Run* r = new Run[n]; for (int i = 0; i < n; ++i) { r[i].before.bump(); t.push_back(new thread(Fn(&r[i], 300000 + vt_rnd(3) * 10000))); }
  std::vector<thread::id> ids; ids.push_back(thread::id()); ids.push_back(this_thread::get_id()); for (int i = 0; i < n; ++i) ids.push_back(t[i]->get_id());
  if (chance(60)) { int a = vt_rnd(n), b = vt_rnd(n); if (a != b) { if (chance(50)) t[a]->swap(*t[b]); else boost::swap(*t[a], *t[b]); VT_CHECK(t[a]->get_id() == ids[2 + b] && t[b]->get_id() == ids[2 + a], "id", "swap did not exchange the ids"); std::swap(t[a], t[b]); } }
  if (chance(50)) { int a = vt_rnd(n); thread u(boost::move(*t[a])); VT_CHECK(u.get_id() == ids[2 + a] && t[a]->get_id() == thread::id(), "id", "move did not move the id"); *t[a] = boost::move(u); VT_CHECK(t[a]->get_id() == ids[2 + a] && !u.joinable(), "id", "move assignment did not move the id"); }
  for (size_t i = 0; i < ids.size(); ++i) for (size_t j = 0; j < ids.size(); ++j) { bool eq = i == j; VT_CHECK((ids[i] == ids[j]) == eq && (ids[i] != ids[j]) == !eq, "id", "ids %d and %d compare %s", (int)i, (int)j, eq ? "unequal" : "equal");
      VT_CHECK((int)(ids[i] < ids[j]) + (int)(ids[j] < ids[i]) + (int)(ids[i] == ids[j]) == 1 && (ids[i] <= ids[j]) == !(ids[j] < ids[i]) && (ids[i] > ids[j]) == (ids[j] < ids[i]) && (ids[i] >= ids[j]) == !(ids[i] < ids[j]), "id", "ids are not ordered consistently");
      if (eq) VT_CHECK(hash_value(ids[i]) == hash_value(ids[j]), "id", "hash differs"); }
  { std::ostringstream a, b, c; a << ids[2]; b << ids[3]; c << thread::id(); VT_CHECK(a.str() != b.str() && a.str() != c.str() && c.str() == "{Not-any-thread}", "id", "ids print as %s %s %s", a.str().c_str(), b.str().c_str(), c.str().c_str()); }
  for (int i = 0; i < n; ++i) { t[i]->join(); r[i].joined("join"); { NoRace q; VT_CHECK(r[i].id == ids[2 + i], "id", "the thread sees another id than its handle"); } delete t[i]; } VT_CHECK(this_thread::get_id() == ids[1], "id", "the id of a thread changed"); { std::vector<thread*>().swap(t); std::vector<thread::id>().swap(ids); } delete[] r;
}
// errors
SCENARIO(errors, F_FAULT) {
  switch (vt_rnd(6)) {
    case 0: { thread* t = new thread; int* code = new int(0); Pay* go = new Pay; pthread_mutex_t mx; pthread_mutex_init(&mx, 0); pthread_mutex_lock(&mx); bool timed = chance(50); *t = thread([=, &mx] { pthread_mutex_lock(&mx); pthread_mutex_unlock(&mx); try { if (timed) t->try_join_for(chrono::seconds(1)); else t->join(); *code = 1; } catch (thread_resource_error& e) { *code = e.native_error(); } }); pthread_mutex_unlock(&mx); 
        for (int k = 0; k < 1000; ++k) { vt_sleep(100000); NoRace n; if (*code) break; } t->join(); VT_CHECK(*code == system::errc::resource_deadlock_would_occur, "error", "joining oneself gave %d", *code); VT_CHECK(!t->joinable(), "handle", "joinable"); pthread_mutex_destroy(&mx); delete t; delete code; delete go; vt_count("errors_raised", 1); break; }
    case 1: { thread t; int code = 0; bool r = true; unsigned f = vt_rnd(2);
#ifndef BOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
        f = 0;
#endif
        try { if (f) t.join(); else r = t.try_join_for(chrono::milliseconds(1)); } catch (thread_resource_error& e) { code = e.native_error(); }
#ifdef BOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
        VT_CHECK(code == system::errc::invalid_argument, "error", "joining no thread gave %d", code);
#else
        VT_CHECK(code == 0 || code == system::errc::invalid_argument, "error", "joining no thread gave %d", code); if (!code && !f) VT_CHECK(!r, "error", "a timed join of no thread succeeded");
#endif
        vt_count("errors_raised", 1); break; }
    case 2: case 3: { Run* r = new Run; r->before.bump(); bool thrown = false; thread* keep = 0; { Fn f(r, 0); int l0 = r->live; thread::attributes at; vt_fail_create(1); try { if (chance(50)) { thread t(f); vt_fail("error", "the thread could not be created but no error was raised"); } else { at.set_stack_size(70000); thread t(static_cast<thread::attributes const&>(at), f); vt_fail("error", "the thread could not be created but no error was raised"); } } catch (thread_resource_error& e) { thrown = true; VT_CHECK(e.native_error() == system::errc::resource_unavailable_try_again, "error", "failure to create a thread reported as %d", e.native_error()); } vt_fail_create(0); VT_CHECK(thrown, "error", "no error"); { Quiet q; VT_CHECK(r->starts == 0, "error", "the function of a thread that could not be created ran"); VT_CHECK(r->live == l0, "copies", "a failed start leaked %d copies of the callable", r->live - l0); }
          keep = new thread(f); keep->join(); r->joined("join"); delete keep; } { Quiet q; VT_CHECK(r->live == 0, "copies", "%d copies survive", r->live); } delete r; vt_count("creation_failures", 1); break; }
    default: { Run* r = new Run; r->before.bump(); int n = 1 + vt_rnd(6); bool threw = false; thread* t = 0; { Fn f(r, 0); std::string s("x"); t = new thread; vt_fail_new(n); try { thread u(f, 5, s); vt_fail_new(0); *t = boost::move(u); } catch (std::bad_alloc&) { threw = true; } vt_fail_new(0); } if (threw) { Quiet q; VT_CHECK(r->starts == 0, "error", "the function ran although starting it threw"); VT_CHECK(r->live == 0, "copies", "a failed start leaked %d copies of the callable", r->live); vt_count("allocation_failures", 1); } else { t->join(); r->joined("join"); } delete t; delete r; break; } }
}
// a join that is interrupted leaves the thread joinable
SCENARIO(interrupted_join, F_NATIVE) {
  Run* r = new Run; r->before.bump(); thread* t = new thread(Fn(r, vt_rnd(3) * 200000)); int* res = new int(0); bool timed = chance(50);
  thread j([=] { try { if (timed) { bool ok = t->try_join_for(chrono::seconds(50)); *res = ok ? 1 : 3; } else { t->join(); *res = 1; } } catch (thread_interrupted&) { *res = 2; } });
  if (chance(50)) vt_sleep(vt_rnd(3) * 100000); j.interrupt(); j.join(); VT_CHECK(*res == 1 || *res == 2 || !vt_exact(), "untrue", "timed join gave up early");
  if (*res == 1) { r->joined("join"); VT_CHECK(!t->joinable(), "handle", "joinable after join"); } else { VT_CHECK(t->joinable(), "handle", "an interrupted join lost the thread"); t->join(); r->joined("join"); vt_count("interrupted_joins", 1); } delete t; delete res; delete r;
}
// threads starting threads; handles handed over between threads
SCENARIO(tree, F_NATIVE) {
  Run* r = new Run[4]; thread** h = new thread*[4](); r[0].before.bump();
  thread a([=] { r[0].body(0); for (int i = 1; i < 3; ++i) { r[i].before.bump(); h[i] = new thread(Fn(&r[i], vt_rnd(2) * 1000)); } });
  bool in = chance(50); if (in) { thread b(boost::move(a)); b.join(); } else a.join(); r[0].joined("join");
  for (int i = 1; i < 3; ++i) { if (chance(50)) { thread c([=] { h[i]->join(); r[i].joined("join"); }); c.join(); } else { h[i]->join(); r[i].joined("join"); } delete h[i]; } delete[] h; delete[] r;
}
SCENARIO(misc, F_NATIVE | F_ONCE) {
  VT_CHECK(thread::hardware_concurrency() >= 1, "concurrency", "hardware_concurrency is 0"); VT_CHECK(thread::physical_concurrency() >= 1 && thread::physical_concurrency() <= thread::hardware_concurrency(), "concurrency", "physical_concurrency %u of %u", thread::physical_concurrency(), thread::hardware_concurrency());
  bool* ran = new bool(false); thread t([=] { this_thread::yield(); *ran = true; }); thread::native_handle_type nh = t.native_handle(); VT_CHECK(nh, "handle", "no native handle"); t.join(); VT_CHECK(*ran, "join-early", "not run"); delete ran; this_thread::yield(); }
