// C20: continuations run exactly once, after their antecedent, with its result.
#include "val.hpp"
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
// the antecedent of a chain
struct Src { bool calling; int tid, setter; Pay pay; int want; bool may, ran; Src() : calling(false), tid(-1), setter(-1), want(0), may(true), ran(false) {} void go() { pay.bump(); Quiet q; VT_CHECK(may, "unexpected", "a deferred function ran although nobody waited"); calling = true; tid = vt_tid(); ran = true; } };
struct Node { int in, out, mode, begun, ended, tid, atid, pol; bool attached, may; Src* src; Node* prev; Pay pay; Node() : in(0), out(0), mode(0), begun(0), ended(0), tid(-1), atid(-1), pol(0), attached(false), may(true), src(0), prev(0) {}
  void begin() { { Quiet q; VT_CHECK(may, "unexpected", "a deferred continuation ran although nobody waited"); VT_CHECK(++begun == 1, "twice", "a continuation ran %d times", begun); tid = vt_tid(); if (prev) VT_CHECK(prev->ended, "early", "a continuation ran before its antecedent ended"); else VT_CHECK(src->calling, "early", "a continuation ran before its antecedent was set"); } VT_CHECK(prev ? prev->pay.a == 2 && prev->pay.ok() : src->pay.a == 1 && src->pay.ok(), "visibility", "what the antecedent did is not visible to the continuation"); pay.bump(); }
  void end() { pay.bump(); Quiet q; ++ended; vt_count("continuations_run", 1); } };
static int map_out(int in, int mode) { switch (mode) { case 0: return in >= EXC ? in : in % 7 + 1; case 1: return in >= EXC ? 9 : in % 7 + 1; case 2: return EXC + 5; default: return in == UNK ? 8 : in % 13 + 1; } }
template<class R, class T, class F> static R run_node(Node* n, F& f) {
  n->begin(); VT_CHECK(f.valid(), "antecedent", "a continuation received an invalid future"); VT_CHECK(f.is_ready(), "antecedent", "a continuation received a future that is not ready"); VT_CHECK(f.has_value() == (n->in < EXC) && f.has_exception() == (n->in >= EXC), "antecedent", "a continuation received a future with the wrong kind of result"); exception_ptr e = f.get_exception_ptr(); int r = get_id<T>(f); VT_CHECK(r == norm<T>(n->in), "antecedent", "a continuation received result %d instead of %d", r, n->in);
  if (chance(20) && vt_virtual()) vt_sleep(vt_rnd(30) * MS); else vt_point(); n->end(); if (n->out >= EXC) { if (n->mode == 0) boost::rethrow_exception(e); throw Err(n->out - EXC); } return Tr<R>::make(n->out); }
template<class R, class T, template<class> class FT> struct Cont { typedef R result_type; Node* n; explicit Cont(Node* x) : n(x) {} R operator()(FT<T> f) { return run_node<R, T>(n, f); } };
template<class R, class T, template<class> class FT> struct MCont { typedef R result_type; Node* n; std::unique_ptr<long> own; explicit MCont(Node* x) : n(x), own(new long(7)) {} MCont(MCont&&) = default; R operator()(FT<T> f) { VT_CHECK(own && *own == 7, "function", "a moved-from continuation ran"); return run_node<R, T>(n, f); } };
template<class T> using Sh = shared_future<T>;
enum { P_DEFAULT, P_NONE, P_ASYNC, P_DEFERRED, P_SYNC, P_INHERIT, P_EXEC, P_EXPOL, P_N };
static const char* const pn[] = { "default", "none", "async", "deferred", "sync", "inherit", "executor", "launch::executor" };
// effective policy: what a future made under pol on a parent of policy par behaves as
static int eff(int pol, int par) { switch (pol) { case P_DEFAULT: return par == P_DEFERRED || par == P_ASYNC || par == P_EXEC ? par : P_ASYNC; case P_NONE: return P_ASYNC; case P_INHERIT: return par == P_DEFERRED || par == P_ASYNC || par == P_EXEC ? par : P_ASYNC; case P_EXPOL: return P_EXEC; default: return pol; } }
static int policy_of(int e) { return e == P_SYNC ? P_NONE : e; }   // what launch_policy() reports
struct Exs { basic_thread_pool* pool; loop_executor* loop; Par lo; int ltid; executor_adaptor<basic_thread_pool>* poly; inline_executor* inl; int kind; Exs() : pool(0), loop(0), ltid(-1), poly(0), inl(0), kind(vt_rnd(4)) { switch (kind) { case 0: pool = new basic_thread_pool(1 + vt_rnd(2)); break; case 1: { loop = new loop_executor; loop_executor* l = loop; ltid = lo.go([l] { l->loop(); }); break; } case 2: poly = new executor_adaptor<basic_thread_pool>(1); break; default: inl = new inline_executor; } }
  void stop() { if (pool) { pool->close(); pool->join(); } if (loop) { loop->close(); lo.join(); } if (poly) { poly->close(); poly->underlying_executor().join(); } }
  ~Exs() { delete pool; delete loop; delete poly; delete inl; } };
template<class R, class FF, class C> static Fut<R> attach1(FF& f, Node* n, Exs* x, C c) { switch (n->pol) { case P_DEFAULT: return f.then(boost::move(c)); case P_NONE: return f.then(launch::none, boost::move(c)); case P_ASYNC: return f.then(launch::async, boost::move(c)); case P_DEFERRED: return f.then(launch::deferred, boost::move(c)); case P_SYNC: return f.then(launch::sync, boost::move(c)); case P_INHERIT: return f.then(launch::inherit, boost::move(c)); case P_EXPOL: return f.then(launch::executor, boost::move(c)); default: switch (x->kind) { case 0: return f.then(*x->pool, boost::move(c)); case 1: return f.then(*x->loop, boost::move(c)); case 2: { executor& e = *x->poly; return f.then(e, boost::move(c)); } default: return f.then(*x->inl, boost::move(c)); } } }
template<class R, class T, template<class> class FT> static Fut<R> attach(FT<T>& f, Node* n, Exs* x) { { Quiet q; n->attached = true; n->atid = vt_tid(); } Fut<R> g; if (chance(50)) g = attach1<R>(f, n, x, Cont<R, T, FT>(n)); else g = attach1<R>(f, n, x, MCont<R, T, FT>(n)); VT_CHECK(g.valid(), "status", "then() gave an invalid future"); return boost::move(g); }
struct XI { int kind, ltid; };
static void where(Node* n, int e, XI xi) { XI* x = &xi; Quiet q; if (!n->begun) return; int ptid = n->prev ? n->prev->tid : n->src->tid; switch (e) { case P_ASYNC: VT_CHECK(n->tid != n->atid && n->tid != ptid, "where", "an asynchronous continuation did not run in a thread of its own"); break; case P_SYNC: VT_CHECK(n->tid == n->atid || n->tid == ptid || n->tid == n->src->setter, "where", "a synchronous continuation ran in thread %d, not in the attaching (%d) or completing (%d) one", n->tid, n->atid, ptid); break; case P_EXEC: if (x->kind == 1) VT_CHECK(n->tid == x->ltid, "where", "a continuation did not run on its executor"); if (x->kind == 0 || x->kind == 2) VT_CHECK(n->tid != n->atid && n->tid != n->src->setter, "where", "a continuation did not run on its executor"); if (x->kind == 3) VT_CHECK(n->tid == n->atid || n->tid == ptid || n->tid == n->src->setter, "where", "a continuation did not run on its executor"); break; } }
enum { S_LATER, S_BEFORE, S_DROP, S_ASYNC, S_DEFERRED, S_TASK, S_EXEC, S_READY, S_PEXEC, S_TEXEC, S_N };
static bool isx(int kind) { return kind == S_EXEC || kind == S_PEXEC || kind == S_TEXEC; }
static shared_ptr<executor> ex_ptr(Exs* x) { switch (x->kind) { case 0: return shared_ptr<executor>(new executor_ref<basic_thread_pool>(*x->pool)); case 1: return shared_ptr<executor>(new executor_ref<loop_executor>(*x->loop)); case 2: return shared_ptr<executor>(new executor_ref<executor>(*x->poly)); default: return shared_ptr<executor>(new executor_ref<inline_executor>(*x->inl)); } }
template<class T> static void set_src(promise<T>* p, Src* s) { s->go(); if (s->want >= EXC) p->set_exception(Err(s->want - EXC)); else if constexpr (std::is_void<T>::value) p->set_value(); else p->set_value(Tr<T>::make(s->want)); }
template<class T> static T fn_src(Src* s) { s->go(); if (s->want >= EXC) throw Err(s->want - EXC); return Tr<T>::make(s->want); }
struct Setup { Par w; Exs* x; XI xi; Setup() : x(0) { xi.kind = xi.ltid = -1; } };
// makes the antecedent; par becomes its policy
template<class T> static Fut<T> source(Src* s, Setup& u, int kind, int& par) { par = P_NONE; s->want = chance(30) ? EXC + 1 + vt_rnd(3) : 1 + vt_rnd(5); switch (kind) {
    case S_LATER: { promise<T>* p = new promise<T>; Fut<T> f = p->get_future(); s->setter = u.w.go([=] { if (vt_virtual() && chance(30)) vt_sleep(vt_rnd(60) * MS); set_src(p, s); delete p; }); return boost::move(f); }
    case S_BEFORE: { promise<T> p; if (chance(50)) { set_src(&p, s); return p.get_future(); } Fut<T> f = p.get_future(); set_src(&p, s); return boost::move(f); }
    case S_DROP: { s->want = BROKEN; promise<T>* p = new promise<T>; Fut<T> f = p->get_future(); s->setter = u.w.go([=] { vt_point(); s->go(); delete p; }); return boost::move(f); }
    case S_ASYNC: par = P_ASYNC; return boost::async(launch::async, [s] { return fn_src<T>(s); });
    case S_DEFERRED: par = P_DEFERRED; return boost::async(launch::deferred, [s]() -> T { return fn_src<T>(s); });
    case S_TASK: { packaged_task<T()>* p = new packaged_task<T()>([s]() -> T { return fn_src<T>(s); }); Fut<T> f = p->get_future(); s->setter = u.w.go([=] { (*p)(); delete p; }); return boost::move(f); }
    case S_EXEC: { par = P_EXEC; auto fn = [s]() -> T { return fn_src<T>(s); }; switch (u.x->kind) { case 0: return boost::async(*u.x->pool, fn); case 1: return boost::async(*u.x->loop, fn); case 2: { executor& e = *u.x->poly; return boost::async(e, fn); } default: return boost::async(*u.x->inl, fn); } }
    case S_PEXEC: { par = P_EXEC; promise<T>* p = new promise<T>; if constexpr (std::is_void<T>::value) par = P_NONE; else p->set_executor(ex_ptr(u.x)); Fut<T> f = p->get_future(); s->setter = u.w.go([=] { if (vt_virtual() && chance(30)) vt_sleep(vt_rnd(60) * MS); set_src(p, s); delete p; }); vt_count("executor_sources", 1); return boost::move(f); }
    case S_TEXEC: { par = P_EXEC; packaged_task<T()>* p = new packaged_task<T()>([s]() -> T { return fn_src<T>(s); }); p->set_executor(ex_ptr(u.x)); if (chance(30)) { p->reset(); } Fut<T> f = p->get_future(); s->setter = u.w.go([=] { (*p)(); delete p; }); vt_count("executor_sources", 1); return boost::move(f); }
    default: s->go(); if (s->want >= EXC) return make_exceptional_future<T>(Err(s->want - EXC)); if constexpr (std::is_void<T>::value) return make_ready_future(); else return make_ready_future<T>(Tr<T>::make(s->want)); } }
static int pick_pol(int par, bool x, bool deferred_ok) { for (;;) { int p = vt_rnd(P_N); if (p == P_EXPOL && par != P_EXEC) continue; if (p == P_EXEC && !x) continue; if (!deferred_ok && eff(p, par) == P_DEFERRED) continue; return p; } }
template<class T> static void check_final(Fut<T>& f, Node* n, int how) { for (int k = 0; k < how; ++k) switch (vt_rnd(4)) { case 0: f.wait(); break; case 1: { future_status st = f.wait_for(chrono::milliseconds(vt_rnd(40))); if (st == future_status::ready) { Quiet q; VT_CHECK(n->ended, "early", "ready before the continuation ended"); } break; } case 2: if (f.is_ready()) { Quiet q; VT_CHECK(n->ended, "early", "ready before the continuation ended"); } break; default: if (f.has_value()) VT_CHECK(n->out < EXC, "result", "has_value although the continuation threw"); }
  int r = get_id<T>(f); { Quiet q; VT_CHECK(n->ended == 1, "early", "a result was observed before the continuation ended"); VT_CHECK(r == norm<T>(n->out), "result", "a continuation produced %d, %d was observed", n->out, r); vt_count("results", 1); } VT_CHECK(n->pay.a == 2 && n->pay.ok(), "visibility", "what the continuation did is not visible to the reader"); }
static bool all_ended(Node* n, int k) { Quiet q; for (int i = 0; i < k; ++i) if (n[i].may && !n[i].ended) return false; return true; }
static void finish(Setup& u, Node* n = 0, int k = 0) { u.w.join(); vt_settle(); for (int i = 0; vt_virtual() && i < 300 && !all_ended(n, k); ++i) { vt_sleep(20 * MS); vt_settle(); } vt_settle(); vt_settle(); if (u.x) { u.x->stop(); u.xi.kind = u.x->kind; u.xi.ltid = u.x->ltid; delete u.x; u.x = 0; } vt_settle(); vt_settle(); }
static void gone(Src* s, Node* n, int k) { if (!vt_virtual()) return; NoRace nr; Quiet q; delete s; delete[] n; (void)k; }
// a chain of continuations attached while the antecedent completes
template<class T> static void chain() {
  Setup u; int kind = vt_rnd(S_N); bool drop = vt_virtual() && chance(20); if (isx(kind) || chance(30)) u.x = new Exs; Src* s = new Src; int par; int depth = 1 + vt_rnd(4); Node* n = new Node[depth]; int es[4]; 
  // decide the policies first: a trailing run of deferred ones is only run on demand
  Fut<T>* f; int par0 = kind == S_ASYNC ? P_ASYNC : kind == S_DEFERRED ? P_DEFERRED : isx(kind) && !(std::is_void<T>::value && kind == S_PEXEC) ? P_EXEC : P_NONE; par = par0; for (int i = 0; i < depth; ++i) { n[i].pol = pick_pol(par, u.x, true); es[i] = eff(n[i].pol, par); par = policy_of(es[i]); n[i].mode = vt_rnd(3) ? 0 : 1 + vt_rnd(2); n[i].src = s; n[i].prev = i ? &n[i - 1] : 0; if (i) n[i].prev = &n[i - 1]; }
  bool lazy = drop; for (int i = depth; i-- > 0 && lazy;) { if (es[i] != P_DEFERRED) lazy = false; else n[i].may = false; } if (lazy && kind == S_DEFERRED) s->may = false;
  int p2; f = new Fut<T>(source<T>(s, u, kind, p2)); int in = s->want; for (int i = 0; i < depth; ++i) { n[i].in = in; in = n[i].out = map_out(in, n[i].mode); }
  for (int i = 0; i < depth; ++i) { if (chance(25)) vt_yield(); Fut<T>* g = new Fut<T>(attach<T, T, Fut>(*f, &n[i], u.x)); VT_CHECK(!f->valid(), "status", "then() left the antecedent valid"); delete f; f = g; }
  vt_count(drop ? "dropped_chains" : "chains", 1); if (!drop) { if (es[depth - 1] == P_DEFERRED && chance(30)) { VT_CHECK(f->wait_for(chrono::milliseconds(10)) == future_status::deferred, "status", "a timed wait did not report a deferred continuation"); Quiet q; VT_CHECK(!n[depth - 1].begun, "unexpected", "a deferred continuation ran before anybody waited"); } if (chance(50)) check_final(*f, &n[depth - 1], vt_rnd(3)); else { Node* l = &n[depth - 1]; Par c; c.go([=] { check_final(*f, l, vt_rnd(3)); }); c.join(); } }
  delete f; finish(u, n, depth); for (int i = 0; i < depth; ++i) { where(&n[i], es[i], u.xi); Quiet q; VT_CHECK(!vt_virtual() || n[i].ended == (n[i].may ? 1 : 0), "lost", "continuation %d of %d (policy %s) ran %d times", i, depth, pn[n[i].pol], n[i].ended); } gone(s, n, depth); }
SCENARIO(chain_int, F_NATIVE | F_HOT) { chain<int>(); }
SCENARIO(chain_big, F_NATIVE) { chain<Big>(); }
SCENARIO(chain_void, F_NATIVE) { chain<void>(); }
SCENARIO(chain_move_only, F_NATIVE) { chain<MoveOnly>(); }
// several threads attach several continuations to one shared future
template<class T> static void fan() {
  Setup u; int kind = vt_rnd(S_N); if (isx(kind) || chance(30)) u.x = new Exs; Src* s = new Src; int par; int threads = 1 + vt_rnd(3), each = 1 + vt_rnd(2), tot = threads * each; Node* n = new Node[tot]; int* es = new int[tot]; bool drop = vt_virtual() && chance(20), demanded = false; int par0 = kind == S_ASYNC ? P_ASYNC : kind == S_DEFERRED ? P_DEFERRED : isx(kind) && !(std::is_void<T>::value && kind == S_PEXEC) ? P_EXEC : P_NONE;
  for (int i = 0; i < tot; ++i) { n[i].pol = pick_pol(par0, u.x, true); es[i] = eff(n[i].pol, par0); n[i].src = s; n[i].mode = vt_rnd(3) ? 0 : 1 + vt_rnd(2); n[i].may = !(drop && es[i] == P_DEFERRED); if (n[i].may) demanded = true; } if (kind == S_DEFERRED && !demanded) s->may = false;
  Sh<T>* f = new Sh<T>(source<T>(s, u, kind, par)); for (int i = 0; i < tot; ++i) { n[i].in = s->want; n[i].out = map_out(n[i].in, n[i].mode); } Exs* x = u.x;
  Par w; for (int t = 0; t < threads; ++t) { NoRace q; Sh<T>* c = new Sh<T>(*f); w.go([=] { for (int i = t * each; i < (t + 1) * each; ++i) { Fut<T>* g = new Fut<T>(attach<T, T, Sh>(*c, &n[i], x)); VT_CHECK(c->valid(), "status", "then() invalidated a shared future"); if (!drop) check_final(*g, &n[i], vt_rnd(2)); delete g; } if (chance(30) && s->may) { int r = get_id<T>(*c); VT_CHECK(r == norm<T>(s->want), "antecedent", "the shared future itself gives %d instead of %d", r, s->want); } delete c; }); } if (chance(50)) delete f, f = 0;
  w.join(); delete f; finish(u, n, tot); vt_count("fans", 1); for (int i = 0; i < tot; ++i) { where(&n[i], es[i], u.xi); Quiet q; VT_CHECK(!vt_virtual() || n[i].ended == (n[i].may ? 1 : 0), "lost", "a continuation (policy %s) ran %d times", pn[n[i].pol], n[i].ended); } delete[] es; gone(s, n, tot); }
SCENARIO(fan_int, F_NATIVE | F_HOT) { fan<int>(); }
SCENARIO(fan_big, F_NATIVE) { fan<Big>(); }
SCENARIO(fan_void, F_NATIVE) { fan<void>(); }
// result types change along a chain
SCENARIO(types, F_NATIVE) { Setup u; Src* s = new Src; int par; Node* n = new Node[4]; int kind = vt_rnd(S_TASK); Fut<int> f = source<int>(s, u, kind, par); int in = s->want; for (int i = 0; i < 4; ++i) { n[i].pol = pick_pol(P_NONE, false, true); if (n[i].pol == P_INHERIT || n[i].pol == P_DEFAULT) n[i].pol = P_ASYNC; n[i].src = s; n[i].prev = i ? &n[i - 1] : 0; n[i].mode = i == 2 ? 1 : 0; n[i].in = in; in = n[i].out = i == 3 ? (in >= EXC ? in : 8) : map_out(in, n[i].mode); }
  Fut<Big> g = attach<Big, int, Fut>(f, &n[0], 0); Fut<void> h = attach<void, Big, Fut>(g, &n[1], 0); Fut<Big> k = attach<Big, void, Fut>(h, &n[2], 0); Fut<MoveOnly> m = attach<MoveOnly, Big, Fut>(k, &n[3], 0); check_final(m, &n[3], 1); m = Fut<MoveOnly>(); finish(u, n, 4); gone(s, n, 4); }
// continuations on a future of a future receive it whole
SCENARIO(then_nested, F_NATIVE | F_HOT) {
  Setup u; Src* s = new Src; Node* n = new Node[1]; s->want = 3; bool fail = chance(25); n->src = s; n->in = 0; n->out = fail ? EXC + 2 : 4; int ok = vt_rnd(4); bool x = chance(40) || ok == 3; if (x) u.x = new Exs; int par = ok == 1 ? P_ASYNC : ok == 2 ? P_DEFERRED : ok == 3 ? P_EXEC : P_NONE; n->pol = pick_pol(par, x, true); int es = eff(n->pol, par); typedef Fut<Fut<int> > FF; FF f; promise<int>* in = new promise<int>; bool late = chance(50); Exs* xs = u.x;
  auto inner = [=] { Fut<int> i = in->get_future(); if (!late) in->set_value(3); s->go(); return boost::move(i); };
  switch (ok) { case 0: { promise<Fut<int> >* p = new promise<Fut<int> >; f = p->get_future(); s->setter = u.w.go([=] { if (chance(30)) vt_yield(); Fut<int> i = inner(); if (fail) p->set_exception(Err(2)); else p->set_value(boost::move(i)); delete p; }); break; } case 1: f = boost::async(launch::async, [=]() -> Fut<int> { Fut<int> i = inner(); if (fail) throw Err(2); return boost::move(i); }); break; case 2: f = boost::async(launch::deferred, [=]() -> Fut<int> { Fut<int> i = inner(); if (fail) throw Err(2); return boost::move(i); }); break; default: { promise<Fut<int> >* p = new promise<Fut<int> >; p->set_executor(ex_ptr(xs)); f = p->get_future(); s->setter = u.w.go([=] { Fut<int> i = inner(); if (fail) p->set_exception(Err(2)); else p->set_value(boost::move(i)); delete p; }); } }
  if (chance(30)) vt_yield(); { Quiet q; n->atid = vt_tid(); } Fut<int> g = attach1<int>(f, n, u.x, [=](FF o) -> int { n->begin(); VT_CHECK(o.valid() && o.is_ready() && o.has_exception() == fail, "antecedent", "a continuation on a nested future received a wrong future"); struct E { Node* n; ~E() { n->end(); } } e = { n }; Fut<int> i = o.get(); VT_CHECK(i.valid() && i.is_ready() == !late, "antecedent", "the inner future is wrong"); if (late) in->set_value(3); VT_CHECK(i.get() == 3, "antecedent", "the inner result is wrong"); return 4; }); VT_CHECK(!f.valid() && g.valid(), "status", "then() left the antecedent valid");
  bool drop = vt_virtual() && chance(15) && es != P_DEFERRED && par != P_DEFERRED; if (!drop) check_final(g, n, vt_rnd(3)); g = Fut<int>(); finish(u, n, 1); vt_count("nested", 1); where(n, es, u.xi); { Quiet q; VT_CHECK(!vt_virtual() || n->ended == 1, "lost", "a continuation on a nested future (policy %s) ran %d times", pn[n->pol], n->ended); } { NoRace nr; delete in; } gone(s, n, 1); }
// several threads wait for a deferred continuation; one of them may be interrupted
SCENARIO(deferred_shared, F_NATIVE | F_HOT) { Setup u; Src* s = new Src; int par; Node* n = new Node[2]; int depth = 1 + vt_rnd(2); Fut<int> f = source<int>(s, u, vt_rnd(S_EXEC), par); int in = s->want; for (int i = 0; i < depth; ++i) { n[i].pol = P_DEFERRED; n[i].src = s; n[i].prev = i ? &n[0] : 0; n[i].in = in; n[i].mode = vt_rnd(3); in = n[i].out = map_out(in, n[i].mode); Fut<int> g = attach<int, int, Fut>(f, &n[i], 0); f = boost::move(g); } Sh<int>* base = new Sh<int>(boost::move(f)); Node* l = &n[depth - 1]; bool intr = chance(40); int k = 1 + vt_rnd(3); std::vector<thread*> ts; std::set<int>* ids = new std::set<int>;
  for (int i = 0; i < k; ++i) { NoRace nr; Sh<int>* c = new Sh<int>(*base); ts.push_back(new thread([=] { { Quiet q; ids->insert(vt_tid()); } for (;;) try { if (chance(50)) c->wait(); else if (chance(50)) { c->wait_for(chrono::milliseconds(20)); } bool poll = chance(30); if (poll) (void)c->is_ready(); int r = get_id<int>(*c); VT_CHECK(r == l->out, "result", "a continuation produced %d, %d was observed", l->out, r); vt_count("results", 1); break; } catch (thread_interrupted&) { VT_CHECK(intr, "error", "interrupted?"); vt_count("interrupted", 1); } delete c; })); }
  if (intr) { vt_yield(); ts[vt_rnd(k)]->interrupt(); } for (int i = 0; i < k; ++i) { ts[i]->join(); delete ts[i]; } { Quiet q; std::vector<thread*>().swap(ts); VT_CHECK(l->ended == 1, "lost", "the deferred continuation ran %d times", l->ended); VT_CHECK(ids->count(l->tid), "where", "a deferred continuation ran in a thread that did not wait"); } delete base; delete ids; finish(u, n, depth); gone(s, n, 2); }
// while a thread runs a deferred continuation whose antecedent is not ready, others may still look at it
SCENARIO(deferred_poll, F_EXACT) { promise<int>* p = new promise<int>; Fut<int> f = p->get_future(); Sh<int>* c = new Sh<int>(f.then(launch::deferred, [](Fut<int> g) { return g.get() + 1; })); Par w; w.go([=] { VT_CHECK(c->get() == 5, "result", "wrong value"); }); w.go([=] { vt_sleep(10 * MS); u64 t = vt_now(); future_status st = c->wait_for(chrono::milliseconds(50)); VT_CHECK(st == future_status::timeout, "status", "a timed wait reported %d for a continuation that is being run", (int)st); VT_CHECK(vt_now() - t >= 50 * MS && vt_now() - t <= 52 * MS, "late", "a timed wait for a deferred continuation lasted %llu ms instead of 50", (unsigned long long)((vt_now() - t) / MS)); t = vt_now(); VT_CHECK(!c->is_ready() && !c->has_value(), "early", "ready too early"); VT_CHECK(vt_now() - t <= MS, "late", "is_ready() blocked"); vt_count("results", 1); }); w.go([=] { vt_sleep(SEC); p->set_value(4); }); w.join(); delete c; delete p; }
// an executor that has been closed, or a thread that cannot be created: the continuation's future must still end
template<bool ready> static void refused() { Setup u; u.x = new Exs; while (u.x->kind == 3 || u.x->kind == 0) { u.x->stop(); delete u.x; u.x = new Exs; } promise<int>* p = new promise<int>; Sh<int>* f = new Sh<int>(p->get_future()); if (ready) p->set_value(3); else if (chance(50)) { (void)0; } Node* n = new Node[2]; Src* s = new Src; s->want = 3; n[0].src = n[1].src = s; n[0].in = n[1].in = 3; n[0].out = n[1].out = 4; s->pay.bump(); s->calling = true; n[0].pol = P_EXEC; n[1].pol = P_SYNC; Fut<int> a, b; bool thr = false; if (ready) u.x->stop(); try { a = attach<int, int, Sh>(*f, &n[0], u.x); } catch (sync_queue_is_closed&) { thr = true; } b = attach<int, int, Sh>(*f, &n[1], u.x); if (!ready) { u.x->stop(); p->set_value(3); } VT_CHECK(f->is_ready() && f->get() == 3, "antecedent", "the antecedent's value is %d", f->get()); check_final(b, &n[1], 0); if (!thr) { bool ok = false; try { a.get(); } catch (sync_queue_is_closed&) { ok = true; } VT_CHECK(ok, "refused", "the continuation's future does not tell that the executor was closed"); } VT_CHECK(!n[0].begun, "unexpected", "a continuation ran on a closed executor"); vt_count("executor_closed", 1); a = Fut<int>(); b = Fut<int>(); delete f; delete p; delete u.x; u.x = 0; gone(s, n, 2); }
SCENARIO(executor_closed_before, F_NATIVE) { refused<true>(); }
SCENARIO(executor_closed_later, F_NATIVE) { refused<false>(); }
SCENARIO(creation_fails, F_FAULT) { Src* s = new Src; Node* n = new Node[2]; s->want = 3; n[0].src = n[1].src = s; n[0].in = n[1].in = 3; n[0].out = n[1].out = 4; n[0].pol = P_ASYNC; n[1].pol = P_SYNC; bool task = chance(50); packaged_task<int()>* t = new packaged_task<int()>([s] { return fn_src<int>(s); }); promise<int>* p = new promise<int>; Sh<int>* f = new Sh<int>(task ? t->get_future() : p->get_future()); Fut<int> a = attach<int, int, Sh>(*f, &n[0], 0), b = attach<int, int, Sh>(*f, &n[1], 0); vt_fail_create(1); bool thr = false; try { if (task) (*t)(); else { s->go(); p->set_value(3); } } catch (thread_resource_error&) { thr = true; } vt_fail_create(0); (void)thr; vt_count("creation_failures", 1); VT_CHECK(f->is_ready() && f->has_value() && f->get() == 3, "antecedent", "the failure of a continuation changed the antecedent's result"); check_final(b, &n[1], 0); bool ok = false; try { a.get(); } catch (thread_resource_error&) { ok = true; } VT_CHECK(ok, "refused", "the continuation's future does not tell that no thread could be created"); VT_CHECK(!n[0].begun, "unexpected", "ran?"); a = Fut<int>(); b = Fut<int>(); delete f; delete p; delete t; gone(s, n, 2); }
// fallback_to
SCENARIO(fallback, F_NATIVE) { Setup u; Src* s = new Src; int par; int kind = vt_rnd(S_N); if (isx(kind)) u.x = new Exs; Fut<Big> f = source<Big>(s, u, kind, par); Big alt(11); Fut<Big> g = chance(50) ? f.fallback_to(alt) : f.fallback_to(Big(11)); VT_CHECK(!f.valid() && g.valid(), "status", "fallback_to"); int want = s->want >= EXC ? 11 : s->want; VT_CHECK(g.get().id() == want, "result", "fallback_to gave the wrong value"); alt.id(); vt_count("fallbacks", 1); g = Fut<Big>(); finish(u); gone(s, 0, 0); }
// unwrapping nested futures, set in any order
template<class T> static void unwrap() {
  Setup u; Src* si = new Src; Src* so = new Src; int ik = vt_rnd(S_N), ok = vt_rnd(6); if (isx(ik) || ok == 5) u.x = new Exs; int par, want; Fut<T>* inner = new Fut<T>(source<T>(si, u, ik, par)); Fut<Fut<T> > f; want = si->want; bool used = true;
  switch (ok) { case 0: { promise<Fut<T> >* p = new promise<Fut<T> >; f = p->get_future(); so->setter = u.w.go([=] { vt_yield(); so->go(); p->set_value(boost::move(*inner)); delete inner; delete p; }); break; } case 1: f = make_ready_future(boost::move(*inner)); delete inner; break; case 2: f = boost::async(launch::async, [=]() -> Fut<T> { Fut<T> r = boost::move(*inner); delete inner; return boost::move(r); }); break; case 3: { used = false; delete inner; want = EXC + 7; promise<Fut<T> >* p = new promise<Fut<T> >; f = p->get_future(); u.w.go([=] { p->set_exception(Err(7)); delete p; }); break; } case 4: { used = false; delete inner; want = BROKEN; promise<Fut<T> >* p = new promise<Fut<T> >; f = p->get_future(); bool inv = chance(50); u.w.go([=] { if (inv) p->set_value(Fut<T>()); delete p; }); break; } default: f = boost::async(launch::deferred, [=]() -> Fut<T> { Fut<T> r = boost::move(*inner); delete inner; return boost::move(r); }); }
  Fut<T>* g = chance(50) ? new Fut<T>(f.unwrap()) : new Fut<T>(boost::move(f)); VT_CHECK(g->valid() && !f.valid(), "status", "unwrap() gave an invalid future or left the outer one valid"); int how = vt_rnd(4); if (how == 3 && ik == S_DEFERRED && used) how = 0;
  if (how == 3) { vt_count("dropped_chains", 1); delete g; } else if (how == 2) { Node* n = new Node[1]; n->pol = P_ASYNC; n->in = want; n->out = map_out(want, 0); Src* s2 = new Src; s2->calling = true; s2->pay.bump(); n->src = s2; { Fut<T> k = attach<T, T, Fut>(*g, n, 0); check_final(k, n, 1); } delete g; vt_settle(); vt_settle(); gone(s2, n, 1); } else { if (how == 1) { g->wait(); VT_CHECK(g->is_ready(), "status", "not ready after wait()"); } int r = get_id<T>(*g); VT_CHECK(r == norm<T>(want), "unwrap", "the inner result is %d, %d was observed", want, r); if (used) { VT_CHECK(si->pay.a == 1 && si->pay.ok(), "visibility", "what the inner task did is not visible"); } vt_count("unwrapped", 1); delete g; }
  finish(u); gone(si, 0, 0); gone(so, 0, 0); }
SCENARIO(unwrap_int, F_NATIVE | F_HOT) { unwrap<int>(); }
SCENARIO(unwrap_big, F_NATIVE) { unwrap<Big>(); }
SCENARIO(unwrap_void, F_NATIVE) { unwrap<void>(); }
SCENARIO(unwrap_move_only, F_NATIVE) { unwrap<MoveOnly>(); }
// a continuation that returns a future, unwrapped
SCENARIO(then_unwrap, F_NATIVE) { promise<int>* p = new promise<int>; Fut<int> f = p->get_future(); launch in = chance(50) ? launch::async : launch::deferred; int pol = vt_rnd(3); auto c = [in](Fut<int> x) { int v = x.get(); return boost::async(launch(in), [v] { return v * 2; }); }; Fut<Fut<int> > g = pol == 0 ? f.then(launch::sync, boost::move(c)) : pol == 1 ? f.then(launch::async, boost::move(c)) : f.then(launch::deferred, boost::move(c)); Par w; w.go([=] { p->set_value(4); delete p; }); Fut<int> h(g.unwrap()); VT_CHECK(h.get() == 8, "unwrap", "wrong value"); vt_count("unwrapped", 1); h = Fut<int>(); w.join(); vt_settle(); vt_settle(); }
// a shared state with continuations that nobody ever completes or waits for goes away
SCENARIO(abandoned, F_NONE) { switch (vt_rnd(4)) { case 0: { Fut<int> f = boost::async(launch::deferred, [] { return 1; }); Fut<int> g = f.then(launch::deferred, [](Fut<int> x) { return x.get(); }); break; } case 1: { Fut<int> f = boost::async(launch::deferred, [] { return 1; }); Fut<int> g = f.then([](Fut<int> x) { return x.get(); }); Fut<int> h = g.then([](Fut<int> x) { return x.get(); }); break; } case 2: { promise<int> p; Fut<int> g = p.get_future().then(launch::sync, [](Fut<int> x) { return x.get(); }); break; } default: { promise<int> p; Fut<int> g = p.get_future().then(launch::deferred, [](Fut<int> x) { return x.get(); }); } } vt_count("abandoned", 1); }
SCENARIO(uninitialized, F_ONCE | F_NATIVE) { Fut<int> f; (void)f; Fut<Fut<int> > g; (void)g;
#ifdef BOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
  must<future_uninitialized>("then() on an empty future", [&] { f.then(launch::sync, [](Fut<int>) { return 1; }); }); must<future_uninitialized>("unwrap() of an empty future", [&] { g.unwrap(); });
#endif
}
