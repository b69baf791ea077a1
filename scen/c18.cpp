// C18: promises deliver exactly one result to every future, or an error.
#include "t.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
using namespace boost;
template<class T> using Fut = BOOST_THREAD_FUTURE<T>;
struct Err : std::exception { int id; long twin; Err(int i) : id(i), twin(-i) {} const char* what() const noexcept { return "Err"; } };
static int targets[8];
struct Big { long v[6]; std::string s; Big(int id) : s(40, 'a' + id % 26) { for (int i = 0; i < 6; ++i) { v[i] = id; vt_point(); } } Big(Big const& o) : s(o.s) { for (int i = 0; i < 6; ++i) { v[i] = o.v[i]; if (i == 3) vt_point(); } } int id() const { for (int i = 1; i < 6; ++i) if (v[i] != v[0]) vt_fail("torn", "a retrieved value is not whole"); if (s.size() != 40 || s.find_first_not_of((char)('a' + v[0] % 26)) != std::string::npos) vt_fail("torn", "a retrieved value is not whole (or was moved from)"); return v[0]; } };
struct MoveOnly { long* p; explicit MoveOnly(int id) : p(new long(id)) {} MoveOnly(MoveOnly&& o) : p(o.p) { o.p = 0; } MoveOnly& operator=(MoveOnly&& o) { std::swap(p, o.p); return *this; } MoveOnly(MoveOnly const&) = delete; ~MoveOnly() { delete p; } };
// per type: a value of an id, and the id of a value
template<class T> struct Tr;
template<> struct Tr<int> { static void set(promise<int>& p, int id, int how) { int x = id; switch (how) { case 0: p.set_value(x); break; case 1: p.set_value(boost::move(x)); break; case 2: p.emplace(id); break; default: p.set_value_deferred(x); p.notify_deferred(); } } static int id(int x) { return x; } };
template<> struct Tr<Big> { static void set(promise<Big>& p, int id, int how) { Big x(id); switch (how) { case 0: p.set_value(x); x.id(); break; case 1: p.set_value(boost::move(x)); break; case 2: p.emplace(id); break; default: p.set_value_deferred(x); p.notify_deferred(); } } static int id(Big const& x) { return x.id(); } };
template<> struct Tr<MoveOnly> { static void set(promise<MoveOnly>& p, int id, int how) { MoveOnly x(id); switch (how) { case 0: case 1: p.set_value(boost::move(x)); break; case 2: p.emplace(id); break; default: p.set_value_deferred(boost::move(x)); p.notify_deferred(); } } static int id(MoveOnly const& x) { VT_CHECK(x.p, "torn", "a retrieved value was moved from"); return *x.p; } };
template<> struct Tr<int&> { static void set(promise<int&>& p, int id, int how) { if (how < 3) p.set_value(targets[id]); else { p.set_value_deferred(targets[id]); p.notify_deferred(); } } static int id(int& x) { VT_CHECK(&x >= targets && &x < targets + 8, "torn", "a retrieved reference is wrong"); return (int)(&x - targets); } };
template<> struct Tr<void> { static void set(promise<void>& p, int, int how) { if (how < 3) p.set_value(); else { p.set_value_deferred(); p.notify_deferred(); } } };
template<class T, class F> struct Get { static int id(F& f) { return Tr<T>::id(f.get()); } };
template<class F> struct Get<void, F> { static int id(F& f) { f.get(); return -1; } };   // any value
template<class T> static void set_any(promise<T>& p, int id, bool exc, int how) { if (!exc) Tr<T>::set(p, id, how); else switch (how) { case 0: p.set_exception(boost::copy_exception(Err(id))); break; case 1: p.set_exception(Err(id)); break; case 2: { exception_ptr e; try { throw boost::enable_current_exception(Err(id)); } catch (...) { e = boost::current_exception(); } p.set_exception(e); break; } default: p.set_exception_deferred(Err(id)); p.notify_deferred(); } vt_point(); }
enum { BROKEN = 1000, EXC = 100 };
// everything known about one shared state
struct St { bool calling, done; int winner; int nwin; Pay pay[8]; int first; St() : calling(false), done(false), winner(-2), nwin(0), first(-2) {}
  void saw(int r) { Quiet q; VT_CHECK(calling, "early", "a result was observed before any was set"); if (r == -1) { VT_CHECK(first < EXC, "differs", "two readers observed different results"); return; } if (first == -2) first = r; VT_CHECK(first == r, "differs", "two readers observed different results (%d and %d)", first, r); vt_count("retrieved", 1); }
  void vis(int r) { if (r >= 0 && r != BROKEN) { int i = r % EXC; VT_CHECK(pay[i].a == 1 && pay[i].ok(), "visibility", "what the setter did before setting is not visible to the reader"); } } };
template<class T, class F> static int get_id(F& f) { try { return Get<T, F>::id(f); } catch (Err& e) { VT_CHECK(e.twin == -e.id, "torn", "a retrieved exception is not whole"); return EXC + e.id; } catch (broken_promise&) { return BROKEN; } }
static int ex_id(exception_ptr e) { try { boost::rethrow_exception(e); } catch (Err& x) { return EXC + x.id; } catch (broken_promise&) { return BROKEN; } }
template<class F> static bool timed(F& f, St& s) {
  Want w; int r = 0; bool done0; { Quiet q; done0 = s.done; }
  auto g = [&](auto const& x) -> bool { typedef typename std::decay<decltype(x)>::type X;
#ifdef BOOST_THREAD_USES_DATETIME
    if constexpr (is_pdur<X>::value) return r = f.timed_wait(x); else if constexpr (is_ptime<X>::value) return r = f.timed_wait_until(x); else
#endif
    if constexpr (is_dur<X>::value) { future_status st = f.wait_for(x); VT_CHECK(st != future_status::deferred, "status", "a promise's future claims to be deferred"); return r = st == future_status::ready; } else if constexpr (is_tp<X>::value) { future_status st = f.wait_until(x); VT_CHECK(st != future_status::deferred, "status", "a promise's future claims to be deferred"); return r = st == future_status::ready; } else return false; };
#ifdef BOOST_THREAD_USES_DATETIME
  unsigned m = M_CHRONO | M_PDUR | M_PTIME | M_SPECIAL;
#else
  unsigned m = M_CHRONO;
#endif
  timed_form(w, m, g, 3000000000ll); vt_count("timed_waits", 1); { Quiet q; VT_CHECK(r ? s.calling : !done0, r ? "early" : "status", r ? "ready before any result was set" : "a timed wait (%s) did not see a result set before it", w.form); }
  if (!r) { vt_count("timeouts", 1); VT_CHECK(w.reached(), "early", "a timed wait (%s) reported a timeout %lld ns before its deadline", w.form, (long long)w.left()); if (vt_exact() && vt_virtual()) VT_CHECK(w.late() <= w.tol() || w.past, "late", "a timed wait (%s) timed out %lld ns after its deadline", w.form, (long long)w.late()); } else if (vt_exact() && vt_virtual() && !w.never && !w.past) VT_CHECK(w.late() <= w.tol(), "late", "a timed wait (%s) returned %lld ns after its deadline", w.form, (long long)w.late());
  return r; }
template<class T, class F> static int observe(F& f, St& s, bool retrieve) {
  bool ready = false; int n = vt_rnd(4); for (int i = 0; i < n; ++i) { bool d0, r = ready; { Quiet q; d0 = s.done; } 
    switch (vt_rnd(9)) { case 0: r = f.is_ready(); break; case 1: r = f.has_value() || f.has_exception(); break; case 2: r = f.get_state() == future_state::ready; break; case 3: VT_CHECK(f.valid(), "status", "a future with a shared state is not valid"); continue; case 4: r = timed(f, s); break; case 5: f.wait(); r = true; break; case 6: { exception_ptr e = f.get_exception_ptr(); r = true; if (e) { int x = ex_id(e); s.saw(x); s.vis(x); VT_CHECK(f.has_exception() && !f.has_value(), "status", "an exception is stored but has_exception is false"); } else VT_CHECK(f.has_value() && !f.has_exception(), "status", "no exception is stored but has_value is false"); break; } case 7: if (vt_virtual()) vt_sleep(vt_rnd(200) * 1000000ull); continue; case 8: { bool v = f.has_value(), e = f.has_exception(); if (ready) VT_CHECK(v != e, "status", "a ready future has %s", v ? "both a value and an exception" : "neither a value nor an exception"); VT_CHECK(!(v && e), "status", "a future has both a value and an exception"); r = v || e; break; } }
    { Quiet q; if (r) VT_CHECK(s.calling, "early", "ready before any result was set"); else { VT_CHECK(!d0, "status", "not ready after a result was set"); VT_CHECK(!ready, "reverted", "readiness reverted"); } } ready = ready || r; if (r) s.vis(s.winner >= 0 && s.nwin ? s.winner : -1); }
  if (!retrieve) return -3; int x = get_id<T>(f); s.saw(x); s.vis(x); return x; }
template<class T> static void attempt(promise<T>& p, St& s, int id, bool exc) { { Quiet q; s.calling = true; } s.pay[id].bump(); bool before; { Quiet q; before = s.done; } int how = vt_rnd(4); try { set_any(p, id, exc, how); Quiet q; VT_CHECK(!before, "second", "a second setting was accepted"); VT_CHECK(++s.nwin == 1, "second", "two settings were accepted"); s.winner = (exc ? EXC : 0) + id; s.done = true; vt_count("set", 1); } catch (promise_already_satisfied&) { vt_count("second_refused", 1); } }
// setters race; readers of every kind watch; perhaps nobody sets
template<class T> static void race() {
  RealTrack::reset(); int ns = vt_rnd(4), nr = 1 + vt_rnd(3); promise<T>* p = new promise<T>; St* s = new St; shared_future<T>* base = new shared_future<T>(p->get_future()); if (chance(10)) { promise<T>* q = new promise<T>(boost::move(*p)); delete p; p = q; } if (chance(10)) { promise<T>* q = new promise<T>; q->swap(*p); delete p; p = q; }
  Par w; for (int i = 0; i < ns; ++i) { int id0 = i * 2; w.go([=] { if (vt_virtual() && chance(50)) vt_sleep(vt_rnd(300) * 1000000ull); attempt<T>(*p, *s, id0, chance(30)); if (chance(30)) attempt<T>(*p, *s, id0 + 1, chance(30)); }); }
  Par r; for (int i = 0; i < nr; ++i) { NoRace n; shared_future<T>* f = chance(50) ? new shared_future<T>(*base) : new shared_future<T>; if (!f->valid()) *f = *base; r.go([=] { int x = observe<T>(*f, *s, true); if (chance(30)) { int y = observe<T>(*f, *s, true); VT_CHECK(x == y, "differs", "two retrievals differ"); } delete f; }); } if (vt_virtual() && chance(20)) stepper(r, 2);
  w.join(); if (chance(30)) delete base, base = 0; if (!s->nwin) { Quiet q; s->calling = true; } delete p; if (!s->nwin) { Quiet q; s->winner = BROKEN; s->done = true; vt_count("broken", 1); } r.join(); { Quiet q; VT_CHECK(ns == 0 || s->nwin == 1, "lost", "%d settings accepted", s->nwin); if (s->first != -2 && (s->winner >= EXC || !std::is_void<T>::value)) VT_CHECK(s->first == s->winner, "differs", "result %d was set, %d was observed", s->winner, s->first); }
  delete base; delete s; }
SCENARIO(race_int, F_NATIVE | F_HOT) { race<int>(); }
SCENARIO(race_big, F_NATIVE | F_HOT) { race<Big>(); }
SCENARIO(race_ref, F_NATIVE) { race<int&>(); }
SCENARIO(race_void, F_NATIVE) { race<void>(); }
SCENARIO(race_move_only, F_NATIVE) { race<MoveOnly>(); }
// one reader takes the value out of a unique future; promise and future may die right after
template<class T> static void unique() {
  RealTrack::reset(); promise<T>* p = new promise<T>; St* s = new St; Fut<T>* f = new Fut<T>(p->get_future()); if (chance(10)) { Fut<T>* g = new Fut<T>(boost::move(*f)); VT_CHECK(!f->valid(), "status", "a moved-from future is valid"); delete f; f = g; } if (chance(10)) { Fut<T>* g = new Fut<T>; g->swap(*f); delete f; f = g; } int fate = vt_rnd(5); // 0: broken
  Par w; w.go([=] { if (vt_virtual() && chance(50)) vt_sleep(vt_rnd(300) * 1000000ull); if (fate) attempt<T>(*p, *s, 1, fate == 1); else { Quiet q; s->calling = true; } delete p; if (!fate) { Quiet q; s->done = true; vt_count("broken", 1); } });
  w.go([=] { bool drop = chance(15); int x = observe<T>(*f, *s, !drop); if (!drop) { int want = fate == 0 ? BROKEN : fate == 1 ? EXC + 1 : std::is_void<T>::value ? -1 : 1; VT_CHECK(x == want, "differs", "result %d was set, %d was observed", want, x);
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
      VT_CHECK(!f->valid(), "status", "the future is still valid after get()"); bool th = false; try { get_id<T>(*f); } catch (future_uninitialized&) { th = true; } VT_CHECK(th, "error", "a second get() was accepted");
#endif
    } delete f; }); w.join(); delete s; }
SCENARIO(unique_int, F_NATIVE) { unique<int>(); }
SCENARIO(unique_big, F_NATIVE) { unique<Big>(); }
SCENARIO(unique_ref, F_NATIVE) { unique<int&>(); }
SCENARIO(unique_void, F_NATIVE) { unique<void>(); }
SCENARIO(unique_move_only, F_NATIVE | F_HOT) { unique<MoveOnly>(); }

// get_or: the value, or the alternative when there is none
SCENARIO(get_or, F_NATIVE) {
  promise<Big>* p = new promise<Big>; promise<MoveOnly>* pm = new promise<MoveOnly>; Fut<Big>* f = new Fut<Big>(p->get_future()); Fut<MoveOnly>* fm = new Fut<MoveOnly>(pm->get_future()); int fate = vt_rnd(3); promise<int&>* pr = new promise<int&>; Fut<int&>* fr = new Fut<int&>(pr->get_future()); Par w;
  w.go([=] { if (fate == 1) { p->set_value(Big(3)); pm->set_value(MoveOnly(3)); pr->set_value(targets[3]); } else if (fate == 2) { p->set_exception(Err(3)); pm->set_exception(Err(3)); pr->set_exception(Err(3)); } delete p; delete pm; delete pr; });
  w.go([=] { Big alt(5); int want = fate == 1 ? 3 : 5; if (chance(50)) { VT_CHECK(f->get_or(alt).id() == want, "differs", "get_or gave the wrong value"); } else VT_CHECK(f->get_or(Big(5)).id() == want, "differs", "get_or gave the wrong value"); VT_CHECK(Tr<MoveOnly>::id(fm->get_or(MoveOnly(5))) == want, "differs", "get_or gave the wrong value"); VT_CHECK(&fr->get_or(targets[5]) == &targets[want], "differs", "get_or gave the wrong reference"); vt_count("retrieved", 3); delete f; delete fm; delete fr; promise<std::string> q; q.set_exception(Err(1)); std::string lv(40, 'l'); Fut<std::string> g = q.get_future(); VT_CHECK(g.get_or(lv) == std::string(40, 'l'), "differs", "get_or gave the wrong value"); VT_CHECK(lv == std::string(40, 'l'), "alternative", "get_or moved from an alternative that is an lvalue"); }); w.join(); }

// errors the documentation names
template<class E, class F> static void must(const char* what, F f) { bool ok = false; try { f(); } catch (E&) { ok = true; } catch (std::exception& e) { vt_fail("error", "%s: wrong exception %s", what, e.what()); } VT_CHECK(ok, "error", "%s: no exception", what); vt_count("errors_checked", 1); }
template<class T> static void no_cb(promise<T>&) {}
template<class T> static void errors(void (*set)(promise<T>&)) {
  { Fut<T> f; shared_future<T> g; VT_CHECK(!f.valid() && !g.valid() && !f.is_ready() && !g.is_ready() && !f.has_value() && !f.has_exception() && !g.has_value() && !g.has_exception() && f.get_state() == future_state::uninitialized && g.get_state() == future_state::uninitialized, "error", "an empty future is not empty"); must<future_uninitialized>("get of an empty future", [&] { f.get(); }); must<future_uninitialized>("get of an empty shared future", [&] { g.get(); }); must<future_uninitialized>("wait on an empty future", [&] { f.wait(); }); must<future_uninitialized>("wait on an empty shared future", [&] { g.wait(); }); must<future_uninitialized>("wait_for on an empty future", [&] { f.wait_for(chrono::milliseconds(1)); }); must<future_uninitialized>("wait_until on an empty shared future", [&] { g.wait_until(chrono::system_clock::now()); });
#ifdef BOOST_THREAD_USES_DATETIME
    must<future_uninitialized>("timed_wait on an empty future", [&] { f.timed_wait(posix_time::milliseconds(1)); }); must<future_uninitialized>("timed_wait_until on an empty shared future", [&] { g.timed_wait_until(get_system_time()); });
#endif
  }
  { promise<T> p; Fut<T> f = p.get_future(); must<future_already_retrieved>("a second get_future", [&] { p.get_future(); }); set(p); must<future_already_retrieved>("a second get_future", [&] { p.get_future(); }); VT_CHECK(f.is_ready() && f.has_value() && !f.has_exception(), "status", "not ready after setting"); must<promise_already_satisfied>("a second value", [&] { set(p); }); must<promise_already_satisfied>("an exception after a value", [&] { p.set_exception(Err(1)); }); must<promise_already_satisfied>("a deferred exception after a value", [&] { p.set_exception_deferred(Err(1)); }); VT_CHECK(f.has_value(), "second", "a refused setting changed the state"); f.get(); }
  { promise<T> p; p.set_exception(Err(2)); must<promise_already_satisfied>("a value after an exception", [&] { set(p); }); must<promise_already_satisfied>("a second exception", [&] { p.set_exception(Err(1)); }); Fut<T> f = p.get_future(); VT_CHECK(f.is_ready() && f.has_exception() && !f.has_value(), "status", "not ready after setting an exception"); must<Err>("get of an exception", [&] { f.get(); }); }
  { promise<T> p; Fut<T> f = p.get_future(); promise<T> q(boost::move(p)); set(q); must<future_already_retrieved>("get_future after a move", [&] { q.get_future(); }); VT_CHECK(f.is_ready(), "status", "the result did not follow the move"); shared_future<T> s = f.share(); VT_CHECK(!f.valid() && s.valid() && s.is_ready(), "status", "share() did not move the state"); must<future_uninitialized>("wait on a shared-out future", [&] { f.wait(); }); shared_future<T> s2(s); shared_future<T> s3(boost::move(s)); VT_CHECK(!s.valid() && s2.valid() && s3.valid(), "status", "copy or move of a shared future"); s2.get(); s3.get(); s3.get(); s2.swap(s); VT_CHECK(!s2.valid() && s.valid(), "status", "swap of shared futures"); s.get(); Fut<T> h; h = Fut<T>(); shared_future<T> s4; s4 = boost::move(h); VT_CHECK(!s4.valid(), "status", "assignment from an empty future"); }
  { promise<T> p, q; Fut<T> f = p.get_future(), g = q.get_future(); p = boost::move(q); VT_CHECK(f.is_ready() && f.has_exception(), "broken", "move assignment did not break the overwritten promise"); must<broken_promise>("the overwritten promise", [&] { f.get(); }); VT_CHECK(!g.is_ready(), "status", "ready too early"); set(p); VT_CHECK(g.is_ready() && g.has_value(), "status", "the result did not follow the move"); }
  { Fut<T> f; shared_future<T> s; { promise<T> p; f = p.get_future(); promise<T> q; s = shared_future<T>(q.get_future()); } must<broken_promise>("a dropped promise", [&] { f.get(); }); must<broken_promise>("a dropped promise", [&] { s.get(); }); must<broken_promise>("a dropped promise", [&] { s.get(); }); VT_CHECK(s.get_exception_ptr(), "status", "no exception pointer"); }
  { Fut<T> f = make_exceptional_future<T>(Err(4)); VT_CHECK(f.has_exception(), "status", "make_exceptional_future"); must<Err>("make_exceptional_future", [&] { f.get(); }); Fut<T> g = make_exceptional_future<T>(boost::copy_exception(Err(4))); must<Err>("make_exceptional_future", [&] { g.get(); }); try { throw boost::enable_current_exception(Err(5)); } catch (...) { Fut<T> h = make_exceptional_future<T>(); must<Err>("make_exceptional_future", [&] { h.get(); }); } Fut<T> i((exceptional_ptr(Err(6)))); must<Err>("a future from an exceptional_ptr", [&] { i.get(); }); shared_future<T> j((exceptional_ptr(Err(6)))); VT_CHECK(j.is_ready() && j.has_exception(), "status", "a future from an exceptional_ptr"); must<Err>("a future from an exceptional_ptr", [&] { j.get(); }); }
  { promise<T> p; { Fut<T> f = p.get_future(); } set(p); } { promise<T> p; set(p); } { promise<T> p; shared_future<T> f(p.get_future()); p.set_exception(Err(7)); f.wait(); VT_CHECK(f.wait_for(chrono::seconds(0)) == future_status::ready, "status", "a ready future timed out"); }
  { promise<T> p; promise<T> q(boost::move(p)); (void)q;
#ifndef BOOST_THREAD_PROVIDES_PROMISE_LAZY
    must<promise_moved>("get_future of a moved-from promise", [&] { p.get_future(); }); must<promise_moved>("set on a moved-from promise", [&] { set(p); }); must<promise_moved>("set_exception on a moved-from promise", [&] { p.set_exception(Err(1)); }); must<promise_moved>("set_exception_deferred on a moved-from promise", [&] { p.set_exception_deferred(Err(1)); }); must<promise_moved>("set_wait_callback on a moved-from promise", [&] { p.set_wait_callback(&no_cb<T>); });
#endif
    must<promise_moved>("set_exception_at_thread_exit on a moved-from promise", [&] { p.set_exception_at_thread_exit(Err(1)); }); must<promise_moved>("notify_deferred on a moved-from promise", [&] { p.notify_deferred(); }); }
}
static void s_int(promise<int>& p) { p.set_value(4); } static void s_big(promise<Big>& p) { p.set_value(Big(4)); } static void s_ref(promise<int&>& p) { p.set_value(targets[4]); } static void s_void(promise<void>& p) { p.set_value(); } static void s_mo(promise<MoveOnly>& p) { p.set_value(MoveOnly(4)); }
SCENARIO(errors, F_NATIVE | F_ONCE) { errors<int>(&s_int); errors<Big>(&s_big); errors<int&>(&s_ref); errors<void>(&s_void); errors<MoveOnly>(&s_mo); }
SCENARIO(factories, F_NATIVE | F_ONCE) {
  { int x = 6; Fut<int> f = make_ready_future(6); VT_CHECK(f.is_ready() && f.get() == 6, "factory", "make_ready_future"); Fut<int> g = make_ready_future(x); VT_CHECK(g.get() == 6, "factory", "make_ready_future"); Fut<int&> h = make_ready_future(boost::ref(x)); VT_CHECK(&h.get() == &x, "factory", "make_ready_future of a reference"); Fut<int&> h2 = make_ready_future<int&>(x); VT_CHECK(&h2.get() == &x, "factory", "make_ready_future of a reference"); Fut<void> v = make_ready_future(); VT_CHECK(v.is_ready() && v.has_value(), "factory", "make_ready_future()"); v.get(); Fut<Big> b = make_ready_future<Big>(3); VT_CHECK(b.get().id() == 3, "factory", "make_ready_future<T>(args)"); Fut<MoveOnly> m = make_ready_future(MoveOnly(8)); VT_CHECK(*m.get().p == 8, "factory", "make_ready_future of a move-only value"); Fut<std::string> e = make_ready_future<std::string>(4, 'x'); VT_CHECK(e.get() == "xxxx", "factory", "make_ready_future<T>(args)"); }
  { shared_future<int> f = make_shared_future(6); VT_CHECK(f.is_ready() && f.get() == 6, "factory", "make_shared_future"); shared_future<void> v = make_shared_future(); VT_CHECK(v.is_ready() && v.has_value(), "factory", "make_shared_future()"); v.get(); Fut<int> g = make_future(7); VT_CHECK(g.get() == 7, "factory", "make_future"); 
#ifdef BOOST_THREAD_USES_MOVE
    Fut<void> w = make_future(); w.get();
#endif
  } vt_count("errors_checked", 1); }
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
template<class T> struct Al { typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type; long* live; template<class U> struct rebind { typedef Al<U> other; }; Al(long* l) : live(l) {} template<class U> Al(Al<U> const& o) : live(o.live) {} T* allocate(size_t n) { ++*live; return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t) { --*live; ::operator delete(p); } void destroy(T* p) { p->~T(); } };
SCENARIO(allocator, F_NATIVE | F_ONCE) { long live = 0; { promise<int> p(boost::allocator_arg, Al<int>(&live)); VT_CHECK(live == 1, "allocator", "the allocator was not used"); Fut<int> f = p.get_future(); p.set_value(3); VT_CHECK(f.get() == 3, "differs", "wrong value"); promise<int&> r(boost::allocator_arg, Al<int>(&live)); r.set_value(targets[0]); promise<void> v(boost::allocator_arg, Al<int>(&live)); } VT_CHECK(live == 0, "allocator", "%ld allocations not returned", live); }
#endif
// a throwing copy or a failed allocation leaves the promise unset and usable
struct ThrowCopy { int id; std::string s; static int armed; ThrowCopy(int i) : id(i), s(40, 'x') {} ThrowCopy(ThrowCopy const& o) : id(o.id), s(o.s) { if (armed && --armed == 0) throw Err(9); } };
int ThrowCopy::armed = 0;
SCENARIO(throwing_copy, F_NATIVE | F_ONCE) { for (int def = 0; def < 2; ++def) { promise<ThrowCopy> p; shared_future<ThrowCopy> f(p.get_future()); ThrowCopy v(1), w(2); ThrowCopy::armed = 1; bool th = false; try { if (def) p.set_value_deferred(v); else p.set_value(v); } catch (Err&) { th = true; } ThrowCopy::armed = 0; VT_CHECK(th, "error", "the copy's exception was swallowed"); VT_CHECK(!f.is_ready(), "early", "ready although setting threw"); p.set_value(w); VT_CHECK(f.is_ready() && f.get().id == 2, "differs", "wrong value after a failed setting"); vt_count("failed_settings", 1); } }
template<class T> static void fault() {
  promise<T>* p = new promise<T>; St* s = new St; shared_future<T>* f = 0; vt_fail_new(1 + vt_rnd(4)); for (int k = 0; !f && k < 8; ++k) try { f = new shared_future<T>(p->get_future()); } catch (std::bad_alloc&) { vt_count("allocation_failures", 1); }  vt_fail_new(0);
  if (!f) vt_fail("error", "get_future failed repeatedly"); bool exc = chance(30); int how = vt_rnd(4); Par r; r.go([=] { int x; for (;;) try { x = get_id<T>(*f); break; } catch (std::bad_alloc&) {} Quiet q; VT_CHECK(s->calling, "early", "a result was observed before any was set"); if (!std::is_void<T>::value || exc) VT_CHECK(x == (exc ? EXC : 0) + 2 || (exc && x == -4), "differs", "wrong result %d", x); vt_count("retrieved", 1); });
  { Quiet q; s->calling = true; } if (exc) set_any(*p, 2, true, how); else { vt_fail_new(1 + vt_rnd(6)); for (int k = 0; k < 9; ++k) try { set_any(*p, 2, false, how); break; } catch (std::bad_alloc&) { vt_count("allocation_failures", 1); } vt_fail_new(0); } VT_CHECK(f->is_ready(), "status", "not ready after setting"); bool th = false; try { set_any(*p, 3, false, 0); } catch (promise_already_satisfied&) { th = true; } VT_CHECK(th, "second", "a second setting was accepted"); r.join(); delete f; delete p; delete s; }
SCENARIO(fault_big, F_FAULT) { fault<Big>(); }
SCENARIO(fault_move_only, F_FAULT) { fault<MoveOnly>(); }
SCENARIO(fault_void, F_FAULT) { fault<void>(); }
static int cb_count;
// results set at the exit of a thread, for every kind of result, copied or moved
template<class T> static void set_exit(promise<T>& p, int id, bool exc) { if (exc) { if (chance(50)) p.set_exception_at_thread_exit(Err(id)); else p.set_exception_at_thread_exit(boost::copy_exception(Err(id))); } else if constexpr (std::is_void<T>::value) p.set_value_at_thread_exit(); else if constexpr (std::is_reference<T>::value) p.set_value_at_thread_exit(targets[id]); else if constexpr (std::is_same<T, MoveOnly>::value) p.set_value_at_thread_exit(MoveOnly(id)); else { T x(id); if (chance(50)) { p.set_value_at_thread_exit(x); Tr<T>::id(x); } else p.set_value_at_thread_exit(boost::move(x)); } }
template<class T> static void at_exit() {
  RealTrack::reset(); promise<T>* p = new promise<T>; Fut<T>* f = new Fut<T>(p->get_future()); bool exc = chance(40), killp = chance(30), lib = chance(70), drop = chance(10); int id = 1 + vt_rnd(6); int* ended = new int(0); Pay* pay = new Pay; if (drop) delete f, f = 0;
  auto body = [=] { pay->bump(); { Quiet q; *ended = 1; } set_exit<T>(*p, id, exc); { Quiet q; *ended = 2; } if (f) VT_CHECK(!f->is_ready() && !f->has_value() && !f->has_exception(), "early", "ready before the end of the thread"); for (int k = vt_rnd(3); k > 0; --k) must<promise_already_satisfied>("a setting after one for the thread's exit", [&] { if (chance(50)) set_exit<T>(*p, 7, chance(50)); else set_any<T>(*p, 7, chance(50), vt_rnd(4)); }); if (killp) { promise<T> q; q = boost::move(*p); if (f) VT_CHECK(!f->is_ready(), "early", "ready before the end of the thread"); } pay->bump(); };
  Par w; thread* t = 0; if (lib) t = new thread(body); else w.go(body); Par r; if (f) r.go([=] { if (chance(30)) f->wait(); else if (chance(30)) while (f->wait_for(chrono::milliseconds(20)) != future_status::ready) {} int x = get_id<T>(*f); VT_CHECK(x == (exc ? EXC + id : std::is_void<T>::value ? -1 : id), "differs", "result %d was set, %d was observed", exc ? EXC + id : id, x); { Quiet q; VT_CHECK(*ended == 2, "early", "a result was observed before the thread ended"); } VT_CHECK(pay->a == 2 && pay->ok(), "visibility", "what the thread did before its end is not visible"); vt_count("retrieved", 1); vt_count("set_at_exit", 1); });
  if (t) { t->join(); delete t; if (f && chance(50)) { } } w.join(); r.join(); delete f; delete p; vt_settle(); vt_settle(); NoRace nr; delete ended; delete pay; }
SCENARIO(at_exit_int, F_NATIVE) { at_exit<int>(); }
SCENARIO(at_exit_big, F_NATIVE) { at_exit<Big>(); }
SCENARIO(at_exit_ref, F_NATIVE) { at_exit<int&>(); }
SCENARIO(at_exit_void, F_NATIVE) { at_exit<void>(); }
SCENARIO(at_exit_move_only, F_NATIVE) { at_exit<MoveOnly>(); }
// get_or of shared futures, asked by several threads
SCENARIO(get_or_shared, F_NATIVE) { promise<Big>* p = new promise<Big>; promise<int&>* pr = new promise<int&>; shared_future<Big>* f = new shared_future<Big>(p->get_future()); shared_future<int&>* fr = new shared_future<int&>(pr->get_future()); (void)fr; int fate = vt_rnd(3), want = fate == 1 ? 3 : 5; Par w; w.go([=] { if (fate == 1) { p->set_value(Big(3)); pr->set_value(targets[3]); } else if (fate == 2) { p->set_exception(Err(3)); pr->set_exception(Err(3)); } delete p; delete pr; }); int n = 1 + vt_rnd(3); for (int i = 0; i < n; ++i) w.go([=] { VT_CHECK(f->get_or(Big(5)).id() == want, "differs", "get_or gave the wrong value"); VT_CHECK(f->valid(), "status", "get_or invalidated a shared future"); VT_CHECK(f->get_or(Big(5)).id() == want, "differs", "the second get_or gave another value"); int x = get_id<Big>(*f); VT_CHECK(x == (fate == 0 ? BROKEN : fate == 1 ? 3 : EXC + 3), "differs", "get_or changed the result to %d", x); vt_count("retrieved", 3); }); w.join(); delete f; delete fr;
  shared_future<Big> e; must<future_uninitialized>("get_or of an empty shared future", [&] { e.get_or(Big(1)); }); Fut<Big> g; Big alt(2); must<future_uninitialized>("get_or of an empty future", [&] { g.get_or(Big(1)); }); must<future_uninitialized>("get_or of an empty future", [&] { g.get_or(alt); }); alt.id(); promise<Big> pq; g = pq.get_future(); pq.set_exception(Err(1)); VT_CHECK(g.get_or(alt).id() == 2, "differs", "get_or gave the wrong value"); alt.id();
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
  VT_CHECK(!g.valid(), "status", "the future is valid after get_or()"); must<future_uninitialized>("a second get_or", [&] { g.get_or(alt); });
#endif
}
// wait callbacks of the other kinds of promise
template<class T> static void cb_set(promise<T>& p) { { Quiet q; ++cb_count; } vt_point(); try { Tr<T>::set(p, 2, vt_rnd(4)); } catch (promise_already_satisfied&) {} }
template<class T> static void wait_callback_of() { { Quiet q; cb_count = 0; } promise<T>* p = new promise<T>; shared_future<T>* f = new shared_future<T>(p->get_future()); p->set_wait_callback(&cb_set<T>); Par w; int n = 1 + vt_rnd(2); for (int i = 0; i < n; ++i) w.go([=] { if (chance(50)) f->wait(); int x = get_id<T>(*f); VT_CHECK(x == (std::is_void<T>::value ? -1 : 2), "differs", "wrong result %d", x); vt_count("retrieved", 1); }); w.join(); { Quiet q; VT_CHECK(cb_count >= 1 && cb_count <= n * 2, "callback", "the wait callback ran %d times", cb_count); vt_count("callbacks", cb_count); } delete f; delete p; }
SCENARIO(wait_callback_ref, F_NATIVE) { wait_callback_of<int&>(); }
SCENARIO(wait_callback_void, F_NATIVE) { wait_callback_of<void>(); }
SCENARIO(wait_callback_big, F_NATIVE) { wait_callback_of<Big>(); }
// the wait callback runs in a waiting thread, before it waits, and may set the result
static int cb_runs; static int cb_mode; static void cb(promise<int>& p) { { Quiet q; ++cb_runs; } vt_point(); if (cb_mode) { try { p.set_value(11); } catch (promise_already_satisfied&) {} } }
SCENARIO(wait_callback, F_NATIVE) { cb_runs = 0; cb_mode = chance(70); promise<int>* p = new promise<int>; shared_future<int>* f = new shared_future<int>(p->get_future()); p->set_wait_callback(&cb); int n = 1 + vt_rnd(3); bool waitk = vt_rnd(5); Par w; for (int i = 0; i < n; ++i) w.go([=] { switch (vt_rnd(4)) { case 0: f->wait(); break; case 1: while (f->wait_for(chrono::milliseconds(20)) != future_status::ready) {} break; case 2: VT_CHECK(!f->get_exception_ptr(), "differs", "unexpected exception"); break; } VT_CHECK(f->get() == 11, "differs", "wrong value"); vt_count("retrieved", 1); }); (void)waitk;
  if (!cb_mode) { w.go([=] { vt_sleep(1000); p->set_value(11); }); } w.join(); { Quiet q; if (cb_mode) VT_CHECK(cb_runs >= 1, "callback", "nobody ran the wait callback"); vt_count("callbacks", cb_runs); cb_runs = 0; } f->get(); f->wait(); VT_CHECK(cb_runs == 0, "callback", "the wait callback ran on a ready future"); delete f; delete p; }
// the callback replaces itself, or is replaced by another thread, while it runs
struct Rcb { typedef void result_type; long a[4]; promise<int>* p; int left; Rcb(promise<int>* q, int n) : p(q), left(n) { for (int i = 0; i < 4; ++i) a[i] = 7 + i; }
  void operator()(promise<int>& x) { vt_point(); VT_CHECK(&x == p, "callback", "the wait callback got another promise"); { Quiet q; ++cb_runs; } if (left > 0 && chance(70)) x.set_wait_callback(Rcb(p, left - 1)); else { try { x.set_value(11); } catch (promise_already_satisfied&) {} } vt_point(); for (int i = 0; i < 4; ++i) VT_CHECK(a[i] == 7 + i, "callback", "the wait callback was destroyed while it ran"); } };
SCENARIO(wait_callback_replaced, 0) { cb_runs = 0; promise<int>* p = new promise<int>; shared_future<int>* f = new shared_future<int>(p->get_future()); p->set_wait_callback(Rcb(p, 2)); Par w; int n = 1 + vt_rnd(3); bool other = chance(60); for (int i = 0; i < n; ++i) w.go([=] { while (f->wait_for(chrono::milliseconds(20)) != future_status::ready) {} VT_CHECK(f->get() == 11, "differs", "wrong value"); vt_count("retrieved", 1); }); if (other) for (int i = vt_rnd(4); i-- > 0;) { vt_point(); p->set_wait_callback(Rcb(p, vt_rnd(2))); } w.join(); { Quiet q; VT_CHECK(cb_runs > 0, "callback", "nobody ran the wait callback"); vt_count("callbacks", cb_runs); } delete f; delete p; }
// interruption of a waiting reader loses nothing for the others, nor for itself
SCENARIO(interrupted, F_NATIVE) { promise<Big>* p = new promise<Big>; shared_future<Big>* f = new shared_future<Big>(p->get_future()); int n = 1 + vt_rnd(3); std::vector<thread*> t; for (int i = 0; i < n; ++i) t.push_back(new thread([=] { shared_future<Big> g(*f); bool got = false; while (!got) { try { switch (vt_rnd(3)) { case 0: g.wait(); break; case 1: g.wait_for(chrono::hours(1)); break; } VT_CHECK(g.get().id() == 3, "differs", "wrong value"); got = true; vt_count("retrieved", 1); } catch (thread_interrupted&) { vt_count("interrupted", 1); } } })); 
  Par w; w.go([=] { if (chance(50)) vt_sleep(2000); p->set_value(Big(3)); }); for (int i = 0; i < 2; ++i) t[vt_rnd(n)]->interrupt(); for (int i = 0; i < n; ++i) { t[i]->join(); delete t[i]; } w.join(); VT_CHECK(f->get().id() == 3, "differs", "wrong value"); delete f; delete p; { Quiet q; std::vector<thread*>().swap(t); } }
