// C21: waiting for several futures at once.
#include "val.hpp"
template<class T> using Sh = shared_future<T>;
struct Src {
  Pay pay; u64 s0, s1, t0; int want, ran, tid; bool deferred;
  Src() : s0(~0ull), s1(~0ull), t0(~0ull), want(0), ran(0), tid(-1), deferred(false) {}
  void go() { pay.bump(); Quiet q; s0 = vt_step(); t0 = vt_now(); ++ran; tid = vt_tid(); }
  void set() { Quiet q; s1 = vt_step(); }
  bool may(u64 at) { Quiet q; return s0 < at; }         // could be ready at that step
  bool must(u64 from) { Quiet q; return s1 < from; }    // was certainly ready at that step
};
enum { K_LATER, K_READY, K_ASYNC, K_DROP, K_TASK, K_DEFERRED, K_NEVER, K_EXIT, K_N };
template<class T> static T fn(Src* s) { s->go(); if (s->want >= EXC) throw Err(s->want - EXC); return Tr<T>::make(s->want); }
template<class T> static void setp(promise<T>* p, Src* s) { s->go(); if (s->want >= EXC) p->set_exception(Err(s->want - EXC)); else if constexpr (std::is_void<T>::value) p->set_value(); else p->set_value(Tr<T>::make(s->want)); s->set(); }
static void pause_() { if (chance(40)) vt_yield(); if (vt_virtual() && chance(40)) vt_sleep(1 + vt_rnd(40) * MS); }
template<class T> static Fut<T> source(Src* s, Par& w, int kind, std::vector<std::function<void()> >* late = 0) {
  s->want = chance(25) ? EXC + 1 + vt_rnd(3) : 1 + vt_rnd(5);
  switch (kind) {
    case K_READY: { promise<T> p; Fut<T> f = p.get_future(); setp(&p, s); return boost::move(f); }
    case K_ASYNC: return boost::async(launch::async, [s]() -> T { pause_(); return fn<T>(s); });
    case K_EXIT: { promise<T>* p = new promise<T>; Fut<T> f = p->get_future(); w.go([=] { pause_(); s->go(); if (s->want >= EXC) p->set_exception_at_thread_exit(boost::copy_exception(Err(s->want - EXC))); else if constexpr (std::is_void<T>::value) p->set_value_at_thread_exit(); else p->set_value_at_thread_exit(Tr<T>::make(s->want)); delete p; vt_count("set_at_exit", 1); }); return boost::move(f); }
    case K_DROP: { s->want = BROKEN; promise<T>* p = new promise<T>; Fut<T> f = p->get_future(); w.go([=] { pause_(); s->go(); delete p; s->set(); }); return boost::move(f); }
    case K_TASK: { PT<T>* p = new PT<T>([s]() -> T { return fn<T>(s); }); Fut<T> f = p->get_future(); w.go([=] { pause_(); (*p)(); s->set(); delete p; }); return boost::move(f); }
    case K_DEFERRED: s->deferred = true; return boost::async(launch::deferred, [s]() -> T { return fn<T>(s); });
    case K_NEVER: { promise<T>* p = new promise<T>; Fut<T> f = p->get_future(); Quiet q; late->push_back([=] { setp(p, s); delete p; }); return boost::move(f); }
    default: { promise<T>* p = new promise<T>; Fut<T> f = p->get_future(); w.go([=] { pause_(); setp(p, s); delete p; }); return boost::move(f); } } }
template<class T, class F> static void result(F& f, Src* s) { VT_CHECK(f.valid(), "inputs", "an input future came back invalid"); int r = get_id<T>(f); VT_CHECK(r == norm<T>(s->want), "inputs", "an input future came back with result %d instead of %d", r, s->want); VT_CHECK(s->pay.a == 1 && s->pay.ok(), "visibility", "what the task did is not visible"); vt_count("results", 1); }
static void gone(Src* s) { if (!vt_virtual()) return; NoRace nr; Quiet q; delete[] s; }
typedef std::vector<std::function<void()> > Late;
static void run_late(Late* l) { for (size_t i = 0; i < l->size(); ++i) (*l)[i](); delete l; }

// --- wait_for_any over every arity, by several threads in different orders
struct AnyCheck { u64 from, t; Src** o; int n; AnyCheck(Src** x, int k) : o(x), n(k) { from = vt_step(); t = vt_now(); }
  void operator()(size_t i) { u64 now = vt_step(), tn = vt_now(); Quiet q; VT_CHECK((int)i < n, "position", "wait_for_any returned position %zu of %d", i, n); VT_CHECK(o[i]->may(now), "untrue", "wait_for_any returned position %zu, which is not ready", i);
    for (int j = 0; j < (int)i; ++j) VT_CHECK(!o[j]->must(from), "position", "wait_for_any returned position %zu although position %d was ready when it was called", i, j);
    if (vt_exact() && vt_virtual()) { u64 e = ~0ull; for (int j = 0; j < n; ++j) if (o[j]->t0 < e) e = o[j]->t0; if (e < t) e = t; VT_CHECK(tn <= e + MS, "late", "wait_for_any returned %llu ms after the first future became ready", (unsigned long long)((tn - e) / MS)); }
    vt_count("any_waits", 1); } };
template<class F> static size_t any_of(F** f, int n) { switch (n) { case 1: return wait_for_any(*f[0]); case 2: return wait_for_any(*f[0], *f[1]); case 3: return wait_for_any(*f[0], *f[1], *f[2]); case 4: return wait_for_any(*f[0], *f[1], *f[2], *f[3]); default: return wait_for_any(*f[0], *f[1], *f[2], *f[3], *f[4]); } }
template<class F> static void all_of(F** f, int n) { switch (n) { case 1: wait_for_all(*f[0]); break; case 2: wait_for_all(*f[0], *f[1]); break; case 3: wait_for_all(*f[0], *f[1], *f[2]); break; case 4: wait_for_all(*f[0], *f[1], *f[2], *f[3]); break; default: wait_for_all(*f[0], *f[1], *f[2], *f[3], *f[4]); } }
static int pick(bool never) { for (;;) { int k = vt_rnd(K_N); if (k == K_DEFERRED) continue; if (k == K_NEVER && !never) continue; return k; } }
template<class T> static void any_shared() {
  Par w; int n = 1 + vt_rnd(5); Src* s = new Src[n]; Late* late = new Late; std::vector<Sh<T> >* f = new std::vector<Sh<T> >; int sure = vt_rnd(n);
  for (int i = 0; i < n; ++i) f->push_back(Sh<T>(source<T>(&s[i], w, pick(i != sure), late)));
  Par c; int k = 1 + vt_rnd(3); for (int t = 0; t < k; ++t) { bool dup = chance(15), iter = chance(50); std::vector<int> perm; for (int i = 0; i < n; ++i) perm.push_back(i); for (int i = n; i-- > 1;) std::swap(perm[i], perm[vt_rnd(i + 1)]); if (dup) perm[vt_rnd(n)] = sure; bool in = false; for (int i = 0; i < n; ++i) if (perm[i] == sure) in = true; if (!in) perm[vt_rnd(n)] = sure;
    c.go([=] { Src* o[5]; Sh<T> own[5]; Sh<T>* p[5]; bool same = chance(50); for (int i = 0; i < n; ++i) { o[i] = &s[perm[i]]; own[i] = (*f)[perm[i]]; p[i] = same ? &(*f)[perm[i]] : &own[i]; } (void)same;
      AnyCheck ck(o, n); size_t r; if (iter) { std::vector<Sh<T> > v(own, own + n); ck = AnyCheck(o, n); typename std::vector<Sh<T> >::iterator it = wait_for_any(v.begin(), v.end()); r = it - v.begin(); ck(r); VT_CHECK(v[r].is_ready(), "untrue", "the future returned by wait_for_any is not ready"); result<T>(v[r], o[r]); } else { r = any_of(p, n); ck(r); VT_CHECK(p[r]->is_ready(), "untrue", "the future returned by wait_for_any is not ready"); result<T>(*p[r], o[r]); } }); }
  c.join(); run_late(late); w.join(); delete f; vt_settle(); gone(s);
}
SCENARIO(any_shared_int, F_NATIVE | F_HOT) { any_shared<int>(); }
SCENARIO(any_shared_void, F_NATIVE) { any_shared<void>(); }
template<class T> static void all_shared() {
  Par w; int n = 1 + vt_rnd(5); Src* s = new Src[n]; std::vector<Sh<T> >* f = new std::vector<Sh<T> >; bool def = BOOST_THREAD_VERSION >= 4 && chance(30);
  for (int i = 0; i < n; ++i) f->push_back(Sh<T>(source<T>(&s[i], w, def && chance(50) ? (int)K_DEFERRED : pick(false))));
  Par c; int k = 1 + vt_rnd(3); for (int t = 0; t < k; ++t) { bool iter = chance(50); int rot = vt_rnd(n); c.go([=] { Sh<T> own[5]; Sh<T>* p[5]; for (int i = 0; i < n; ++i) { own[i] = (*f)[(i + rot) % n]; p[i] = &own[i]; } if (iter) wait_for_all(own, own + n); else all_of(p, n); u64 now = vt_step(); for (int i = 0; i < n; ++i) VT_CHECK(s[i].may(now), "untrue", "wait_for_all returned before future %d was ready", i); vt_count("all_waits", 1); u64 t = vt_now(); for (int i = 0; i < n; ++i) { VT_CHECK(own[i].is_ready(), "untrue", "not ready after wait_for_all"); result<T>(own[i], &s[(i + rot) % n]); } if (vt_exact() && vt_virtual()) { VT_CHECK(vt_now() - t < MS, "untrue", "a future blocked after wait_for_all"); } }); }
  if (k == 1 && vt_exact() && vt_virtual()) {}
  c.join(); w.join(); delete f; vt_settle(); gone(s);
}
SCENARIO(all_shared_int, F_NATIVE) { all_shared<int>(); }
SCENARIO(all_shared_void, F_NATIVE) { all_shared<void>(); }
// unique and shared futures of several types together
SCENARIO(mixed, F_NATIVE | F_HOT) {
  Par w; Src* s = new Src[3]; Late* late = new Late; int sure = vt_rnd(3); Fut<int>* a = new Fut<int>(source<int>(&s[0], w, pick(sure != 0), late)); Fut<void>* b = new Fut<void>(source<void>(&s[1], w, pick(sure != 1), late)); Sh<Big>* c = new Sh<Big>(source<Big>(&s[2], w, pick(sure != 2), late));
  Src* o[3] = { &s[0], &s[1], &s[2] }; AnyCheck ck(o, 3); size_t r = wait_for_any(*a, *b, *c); ck(r); switch (r) { case 0: result<int>(*a, &s[0]); break; case 1: result<void>(*b, &s[1]); break; default: result<Big>(*c, &s[2]); }
  run_late(late); a->valid() && r != 0 ? wait_for_all(*a, *c) : wait_for_all(*c); u64 now = vt_step(); VT_CHECK(s[2].may(now) && s[0].may(now), "untrue", "wait_for_all returned too early"); delete a; delete b; delete c; w.join(); vt_settle(); gone(s);
}
// a waiting thread is interrupted: nothing is left registered
SCENARIO(interrupted, F_NATIVE | F_HOT) {
  Par w; Src* s = new Src[3]; Late* late = new Late; std::vector<Sh<int> >* f = new std::vector<Sh<int> >; for (int i = 0; i < 3; ++i) f->push_back(Sh<int>(source<int>(&s[i], w, chance(30) ? (int)K_LATER : (int)K_NEVER, late)));
  bool all = chance(40); bool ended = false; thread* t = new thread([=, &ended] { Src* o[3] = { &s[0], &s[1], &s[2] }; try { if (all) { wait_for_all((*f)[0], (*f)[1], (*f)[2]); u64 now = vt_step(); for (int i = 0; i < 3; ++i) VT_CHECK(s[i].may(now), "untrue", "wait_for_all returned too early"); } else { AnyCheck ck(o, 3); ck(wait_for_any((*f)[0], (*f)[1], (*f)[2])); } } catch (thread_interrupted&) { vt_count("interrupted", 1); } ended = true; });
  if (chance(50)) vt_yield(); t->interrupt(); t->join(); VT_CHECK(ended, "lost", "the waiting thread vanished"); delete t; run_late(late); w.join(); for (int i = 0; i < 3; ++i) result<int>((*f)[i], &s[i]); delete f; gone(s);
}
// memory runs out while the wait is set up: an error, and nothing is left registered with the futures
SCENARIO(no_memory, F_FAULT) {
  Par w; Src* s = new Src[3]; Late* late = new Late; std::vector<Sh<int> >* f = new std::vector<Sh<int> >; for (int i = 0; i < 3; ++i) f->push_back(Sh<int>(source<int>(&s[i], w, K_NEVER, late))); int how = vt_rnd(3), n = 1 + vt_rnd(3);
  for (int k = 0; k < n; ++k) { vt_fail_new(1 + vt_rnd(7)); try { if (how == 0) { promise<int> rp; Sh<int> r(rp.get_future()); rp.set_value(1); wait_for_any((*f)[0], (*f)[1], r); }
      else if (how == 1) { Sh<int> own[4]; promise<int> rp; rp.set_value(1); own[0] = (*f)[0]; own[1] = (*f)[1]; own[2] = (*f)[2]; own[3] = Sh<int>(rp.get_future()); wait_for_any(own, own + 4); }
      else { promise<int> rp; rp.set_value(1); Sh<int> r(rp.get_future()); wait_for_any((*f)[2], r, (*f)[0], (*f)[1]); } } catch (std::bad_alloc&) { vt_count("allocation_failures", 1); } vt_fail_new(0); }
  run_late(late); w.join(); for (int i = 0; i < 3; ++i) result<int>((*f)[i], &s[i]); delete f; gone(s);
}
// the wait callback of one of the futures runs (and may throw)
SCENARIO(callback, F_NONE) {
  Src* s = new Src[2]; bool thr = chance(40); promise<int> p; int* calls = new int(0); s[0].want = 4; s[1].want = 5; promise<int> q0; Sh<int> f(q0.get_future()), g(p.get_future());
  p.set_wait_callback(std::function<void(promise<int>&)>([=](promise<int>& x) { ++*calls; if (thr) throw Err(6); if (*calls == 1) setp(&x, &s[1]); })); Src* o[2] = { &s[0], &s[1] };
  try { if (chance(50)) { AnyCheck ck(o, 2); size_t r = wait_for_any(f, g); ck(r); VT_CHECK(r == 1, "position", "wrong position"); } else { AnyCheck ck(o, 2); std::vector<Sh<int> > v; v.push_back(f); v.push_back(g); size_t r = wait_for_any(v.begin(), v.end()) - v.begin(); ck(r); VT_CHECK(r == 1, "position", "wrong position"); } VT_CHECK(!thr, "lost", "the exception of the wait callback was lost"); vt_count("callbacks", 1); } catch (Err& e) { VT_CHECK(thr && e.id == 6, "lost", "unexpected exception"); vt_count("callbacks_threw", 1); }
  setp(&q0, &s[0]); result<int>(f, &s[0]); if (thr) { p.set_wait_callback(std::function<void(promise<int>&)>()); setp(&p, &s[1]); } result<int>(g, &s[1]); delete calls; f = Sh<int>(); g = Sh<int>(); gone(s);
}
SCENARIO(wait_callback_all, F_NONE) { promise<int> p; p.set_wait_callback(std::function<void(promise<int>&)>([](promise<int>& x) { x.set_value(3); })); Sh<int> g(p.get_future()), h(make_ready_future(2).share()); wait_for_all(h, g); VT_CHECK(g.is_ready() && g.get() == 3, "untrue", "wait_for_all returned too early"); vt_count("callbacks", 1); }
SCENARIO(degenerate, F_ONCE) { std::vector<Sh<int> > v; VT_CHECK(wait_for_any(v.begin(), v.end()) == v.end(), "position", "wait_for_any of nothing"); wait_for_all(v.begin(), v.end()); Fut<int> a, b = make_ready_future(3); VT_CHECK(wait_for_any(a, b) == 1, "position", "an invalid future was counted as ready"); Sh<int> s(boost::move(b)); VT_CHECK(wait_for_any(s, s) == 0, "position", "the same future twice"); wait_for_all(s, s); std::vector<Sh<int> > x(1); x.push_back(s); x.push_back(s); VT_CHECK(wait_for_any(x.begin(), x.end()) - x.begin() == 1, "position", "an invalid future was counted as ready"); vt_count("degenerate", 1); }
#ifdef BOOST_THREAD_PROVIDES_FUTURE_WHEN_ALL_WHEN_ANY
static int pick2() { for (;;) { int k = vt_rnd(K_N); if (k != K_NEVER) return k; } }
// polls the combined future while the inputs complete, then takes it
template<class C> static void poll_all(C& c, Src* s, int n, bool any) { for (int k = vt_rnd(3); k-- > 0;) { u64 a = vt_step(); bool r; u64 t = vt_now(); switch (vt_rnd(3)) { case 0: r = c.is_ready(); break; case 1: r = c.wait_for(chrono::milliseconds(vt_rnd(30))) == future_status::ready; break; default: c.wait(); r = true; } (void)t; (void)a; if (r) { u64 b = vt_step(); int m = 0; for (int i = 0; i < n; ++i) m += s[i].may(b); VT_CHECK(any ? m > 0 : m == n, "untrue", "%s ready although %d of %d futures are", any ? "when_any" : "when_all", m, n); } }
  c.wait(); u64 b = vt_step(), tn = vt_now(); int m = 0; for (int i = 0; i < n; ++i) m += s[i].may(b); VT_CHECK(any ? m > 0 : m == n, "untrue", "%s ready although %d of %d futures are", any ? "when_any" : "when_all", m, n); (void)tn; }
// what must hold right after the call: deferred functions were run by the caller
static void after_all(Src* s, int n, int me) { Quiet q; for (int i = 0; i < n; ++i) if (s[i].deferred) { VT_CHECK(s[i].ran == 1, "deferred", "when_all returned before running the deferred function of future %d", i); VT_CHECK(s[i].tid == me, "deferred", "a deferred function ran in another thread"); vt_count("deferred_run", 1); } }
static void after_any(Src* s, int n, u64 from, u64 to) { Quiet q; int stop = n; for (int i = 0; i < n; ++i) { if (s[i].must(from)) { stop = i; break; } if (s[i].deferred) { bool may = false; for (int j = 0; j < i; ++j) may |= s[j].may(to); VT_CHECK(may || s[i].ran == 1, "deferred", "when_any did not run the deferred function of future %d, the first one", i); if (s[i].ran) vt_count("deferred_run", 1); stop = i; break; } }
  for (int i = stop + 1; i < n; ++i) VT_CHECK(!s[i].deferred || s[i].ran == 0, "deferred", "when_any ran the deferred function of future %d although future %d was ready or deferred", i, stop); }
template<template<class> class FT, class T> static void when_vector(bool any) {
  Par w; int n = 1 + vt_rnd(5); Src* s = new Src[n]; std::vector<FT<T> > v; for (int i = 0; i < n; ++i) v.push_back(FT<T>(source<T>(&s[i], w, pick2()))); typedef csbl::vector<FT<T> > V; int me = vt_tid(); u64 from = vt_step();
  { Fut<V> c = any ? when_any(v.begin(), v.end()) : when_all(v.begin(), v.end()); u64 to = vt_step(); if (any) after_any(s, n, from, to); else after_all(s, n, me); VT_CHECK(c.valid(), "inputs", "the combined future is invalid"); for (int i = 0; i < n; ++i) VT_CHECK(v[i].valid() == (std::is_same<FT<T>, Sh<T> >::value && false), "inputs", "an input future is still valid");
    if (chance(85)) { poll_all(c, s, n, any); V r = c.get(); VT_CHECK((int)r.size() == n, "inputs", "%zu futures came back for %d", r.size(), n); bool one = false; for (int i = 0; i < n; ++i) one |= r[i].is_ready(); VT_CHECK(one, "untrue", "none of the futures is ready"); for (int i = 0; i < n; ++i) { if (!any) VT_CHECK(r[i].is_ready(), "untrue", "an input future of when_all is not ready"); result<T>(r[i], &s[i]); } vt_count(any ? "when_any" : "when_all", 1); } else vt_count("dropped", 1); }
  w.join(); vt_settle(); for (int i = 0; vt_virtual() && i < 200; ++i) { bool run = false; for (int j = 0; j < n; ++j) { Quiet q; run |= !s[j].deferred && !s[j].ran; } if (!run) break; vt_sleep(20 * MS); } vt_settle(); vt_settle(); { std::vector<FT<T> > x; v.swap(x); } gone(s);
}
SCENARIO(all_vector_unique, F_NATIVE | F_HOT) { when_vector<Fut, int>(false); }
SCENARIO(any_vector_unique, F_NATIVE | F_HOT) { when_vector<Fut, int>(true); }
SCENARIO(all_vector_shared, F_NATIVE) { when_vector<shared_future, Big>(false); }
SCENARIO(any_vector_shared, F_NATIVE) { when_vector<shared_future, Big>(true); }
template<class A, class B, class C> static void when_tuple(bool any, bool sh) {
  Par w; Src* s = new Src[3]; int n = 3; Fut<A> a = source<A>(&s[0], w, pick2()); Fut<B> b = source<B>(&s[1], w, pick2()); Sh<C> c(source<C>(&s[2], w, pick2())); int me = vt_tid(); u64 from = vt_step();
  if (chance(50)) { typedef csbl::tuple<Fut<A>, Fut<B>, Sh<C> > T; Fut<T> x; if (sh) x = any ? when_any(boost::move(a), boost::move(b), c) : when_all(boost::move(a), boost::move(b), c); else x = any ? when_any(boost::move(a), boost::move(b), boost::move(c)) : when_all(boost::move(a), boost::move(b), boost::move(c)); u64 to = vt_step(); if (any) after_any(s, n, from, to); else after_all(s, n, me); VT_CHECK(x.valid() && !a.valid() && !b.valid() && c.valid() == sh, "inputs", "validity of the inputs after the call");
    if (chance(85)) { poll_all(x, s, n, any); T r = x.get(); if (any) VT_CHECK(csbl::get<0>(r).is_ready() || csbl::get<1>(r).is_ready() || csbl::get<2>(r).is_ready(), "untrue", "none of the futures is ready"); else VT_CHECK(csbl::get<0>(r).is_ready() && csbl::get<1>(r).is_ready() && csbl::get<2>(r).is_ready(), "untrue", "an input future of when_all is not ready"); result<A>(csbl::get<0>(r), &s[0]); result<B>(csbl::get<1>(r), &s[1]); result<C>(csbl::get<2>(r), &s[2]); vt_count(any ? "when_any" : "when_all", 1); } else vt_count("dropped", 1); }
  else { Fut<csbl::tuple<Fut<A> > > x = any ? when_any(boost::move(a)) : when_all(boost::move(a)); u64 to = vt_step(); if (any) after_any(s, 1, from, to); else after_all(s, 1, me); poll_all(x, s, 1, any); csbl::tuple<Fut<A> > r = x.get(); VT_CHECK(csbl::get<0>(r).is_ready(), "untrue", "the only future is not ready"); result<A>(csbl::get<0>(r), &s[0]); vt_count(any ? "when_any" : "when_all", 1); }
  w.join(); c = Sh<C>(); b = Fut<B>(); vt_settle(); for (int i = 0; vt_virtual() && i < 200; ++i) { bool run = false; for (int j = 0; j < n; ++j) { Quiet q; run |= !s[j].deferred && !s[j].ran; } if (!run) break; vt_sleep(20 * MS); } vt_settle(); vt_settle(); gone(s);
}
SCENARIO(all_tuple, F_NATIVE | F_HOT) { when_tuple<int, void, Big>(false, chance(50)); }
SCENARIO(any_tuple, F_NATIVE | F_HOT) { when_tuple<int, MoveOnly, Big>(true, chance(50)); }
SCENARIO(none, F_ONCE) { std::vector<Fut<int> > v; VT_CHECK(when_all(v.begin(), v.end()).is_ready() && when_any(v.begin(), v.end()).is_ready() && when_all().is_ready() && when_any().is_ready(), "untrue", "the combination of nothing is not ready"); VT_CHECK(when_all(v.begin(), v.end()).get().empty() && when_any(v.begin(), v.end()).get().empty(), "inputs", "the combination of nothing is not empty"); vt_count("degenerate", 1); }
// the helper thread cannot be created: an error, and no hang
SCENARIO(no_thread, F_FAULT) { promise<int> p, q; Sh<int> a(p.get_future()), b(q.get_future()); bool any = chance(50), vec = chance(50), early = chance(50); vt_fail_create(1); bool thr = false; try { if (vec) { std::vector<Sh<int> > v; v.push_back(a); v.push_back(b); Fut<csbl::vector<Sh<int> > > f = any ? when_any(v.begin(), v.end()) : when_all(v.begin(), v.end()); } else { Fut<csbl::tuple<Sh<int>, Sh<int> > > f = any ? when_any(a, b) : when_all(a, b); } } catch (thread_resource_error&) { thr = true; } (void)early; vt_fail_create(0); VT_CHECK(thr, "lost", "no error although no thread could be created"); p.set_value(1); q.set_value(2); VT_CHECK(a.get() == 1 && b.get() == 2, "inputs", "an input future was changed"); vt_count("creation_failures", 1); }
SCENARIO(no_memory_when, F_FAULT) { Par w; Src* s = new Src[2]; Late* late = new Late; { Sh<int> a(source<int>(&s[0], w, K_NEVER, late)), b(source<int>(&s[1], w, K_NEVER, late)); bool any = chance(50), vec = chance(50); Fut<csbl::vector<Sh<int> > > v; Fut<csbl::tuple<Sh<int>, Sh<int> > > t; std::vector<Sh<int> > in; in.push_back(a); in.push_back(b); vt_fail_new(1 + vt_rnd(12)); bool thr = false; try { if (vec) v = any ? when_any(in.begin(), in.end()) : when_all(in.begin(), in.end()); else t = any ? when_any(a, b) : when_all(a, b); } catch (std::bad_alloc&) { thr = true; vt_count("allocation_failures", 1); } catch (thread_resource_error&) { thr = true; vt_count("allocation_failures", 1); } vt_fail_new(0); VT_CHECK(thr || (vec ? v.valid() : t.valid()), "inputs", "the combined future is invalid"); { std::vector<Sh<int> > x; in.swap(x); } run_late(late); result<int>(a, &s[0]); result<int>(b, &s[1]); if (!thr) try { if (vec) { csbl::vector<Sh<int> > r = v.get(); VT_CHECK(r.size() == 2 && (any || (r[0].is_ready() && r[1].is_ready())), "untrue", "an input future of when_all is not ready"); } else { csbl::tuple<Sh<int>, Sh<int> > r = t.get(); VT_CHECK(any || (csbl::get<0>(r).is_ready() && csbl::get<1>(r).is_ready()), "untrue", "an input future of when_all is not ready"); } } catch (std::bad_alloc&) { vt_count("allocation_failures", 1); } catch (boost::unknown_exception&) {} } w.join(); vt_settle(); vt_settle(); gone(s); }
// continuations on combined futures
SCENARIO(then_on_all, F_NATIVE) { Par w; Src* s = new Src[2]; Fut<int> a = source<int>(&s[0], w, pick2()), b = source<int>(&s[1], w, pick2()); typedef csbl::tuple<Fut<int>, Fut<int> > T; Fut<int> r = when_all(boost::move(a), boost::move(b)).then([=](Fut<T> x) { T t = x.get(); result<int>(csbl::get<0>(t), &s[0]); result<int>(csbl::get<1>(t), &s[1]); return 5; }); VT_CHECK(r.get() == 5, "inputs", "wrong result"); r = Fut<int>(); w.join(); vt_settle(); vt_settle(); gone(s); }
#endif
