// C16: a barrier releases complete groups, one leader each.
#include "h.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/function.hpp>
using namespace boost;
// What must be true of arrivals, completions and returns, whichever threads take part.
struct Obs {
  std::vector<unsigned> cnt;        // count of each generation
  unsigned started, returned, completed, leaders, thrown, quota; long work; std::vector<Pay> pay; Obs() : started(0), returned(0), completed(0), leaders(0), thrown(0), quota(0), work(0) {}
  ~Obs() { Quiet q; std::vector<unsigned>().swap(cnt); std::vector<Pay>().swap(pay); }
  unsigned sum(unsigned g) { unsigned s = 0; for (unsigned i = 0; i < g && i < cnt.size(); ++i) s += cnt[i]; return s; }
  unsigned call() { Quiet q; ++started; return completed; }
  void complete() { unsigned g; { Quiet q; VT_CHECK(completed < cnt.size(), "completion", "the completion function ran more often than there are generations"); VT_CHECK(started >= sum(completed + 1), "completion", "the completion function of generation %u ran with %u arrivals in total, %u needed", completed, started, sum(completed + 1)); VT_CHECK(returned + thrown <= sum(completed) + thrown, "completion", "a waiter was released before the completion function ran"); g = completed; }
    if (g < pay.size()) pay[g].bump(); vt_point(); Quiet q; ++completed; vt_count("completions", 1); }
  void ret(bool leader, unsigned c0, bool has_fn) { Quiet q; ++returned; unsigned G = 0; while (G < cnt.size() && sum(G + 1) <= started) ++G;
    VT_CHECK(returned + 0 <= sum(G), "early", "%u waits returned with only %u arrivals (complete generations hold %u)", returned, started, sum(G));
    if (has_fn) { VT_CHECK(returned <= sum(completed), "early", "%u waits returned but only %u completion functions have finished", returned, completed); VT_CHECK(completed > c0, "lapped", "a wait that started in generation %u returned when only %u were complete", c0, completed); }
    if (leader) { ++leaders; vt_count("leaders", 1); VT_CHECK(leaders <= G, "leaders", "%u leaders in %u complete generations", leaders, G); } else vt_count("followers", 1); }
  void fin() { Quiet q; VT_CHECK(leaders == cnt.size(), "leaders", "%u leaders in %u generations", leaders, (unsigned)cnt.size()); VT_CHECK(returned + thrown == sum(cnt.size()), "count", "%u returned, %u interrupted of %u", returned, thrown, sum(cnt.size())); }
};
static Obs* O;
static bool take() { Quiet q; if (!O->quota) return false; --O->quota; return true; }
static unsigned next_count() { Quiet q; unsigned g = O->completed; return g < O->cnt.size() ? O->cnt[g] : 1; }
static unsigned fsize; 
static void fn_void() { O->complete(); }
static unsigned fn_next() { O->complete(); return next_count(); }
struct FV { int tag; FV() : tag(77) {} void operator()() const { VT_CHECK(tag == 77, "functor", "the completion functor was damaged"); fn_void(); } };
struct FN { int tag; FN() : tag(78) {} unsigned int operator()() const { VT_CHECK(tag == 78, "functor", "the completion functor was damaged"); return fn_next(); } };
enum Kind { PLAIN, FVOID, FNEXT, PVOID, PNEXT, NULLV, NULLN, LVOID, LNEXT, MOVEF, N_KIND };
static bool changes(Kind k) { return k == FNEXT || k == PNEXT || k == LNEXT; }
static bool has_fn(Kind k) { return k != PLAIN && k != NULLV && k != NULLN; }
static barrier* make(Kind k, unsigned n) { static FV fv; static FN fn; switch (k) { case PLAIN: return new barrier(n); case FVOID: return new barrier(n, FV()); case FNEXT: return new barrier(n, FN()); case PVOID: return new barrier(n, &fn_void); case PNEXT: return new barrier(n, &fn_next); case NULLV: return new barrier(n, (void(*)())0); case NULLN: return new barrier(n, (unsigned(*)())0); case LVOID: return new barrier(n, fv); case LNEXT: return new barrier(n, fn);
  default: { boost::function<void()> f(&fn_void); return new barrier(n, f); } } }
static bool arrive(barrier& b, bool& leader, bool may_cd) { if (may_cd && chance(15)) { b.count_down_and_wait(); return false; } leader = b.wait(); return true; }

// fixed groups: n threads, many generations, everything written before is seen after
SCENARIO(groups, F_NATIVE | F_HOT) {
  unsigned n = 1 + vt_rnd(4), g = 1 + vt_rnd(5); Kind k = (Kind)vt_rnd(N_KIND); Obs o; O = &o; { Quiet q; o.cnt.assign(g, n); o.pay.resize(g); } std::vector<std::vector<Pay> >* slots = new std::vector<std::vector<Pay> >(g, std::vector<Pay>(n)); std::vector<int>* lead = new std::vector<int>(g, 0);
  barrier* b = make(k, n); Par p; for (unsigned t = 0; t < n; ++t) p.go([=] { for (unsigned i = 0; i < g; ++i) { (*slots)[i][t].bump(); unsigned c0 = O->call(); bool l = b->wait(); O->ret(l, c0, has_fn(k)); for (unsigned j = 0; j < n; ++j) VT_CHECK((*slots)[i][j].a == 1 && (*slots)[i][j].ok(), "visibility", "thread %u's arrival in generation %u is not visible after the wait", j, i); if (has_fn(k)) VT_CHECK(O->pay[i].a == 1 && O->pay[i].ok(), "visibility", "the completion function of generation %u has not (visibly) run", i); if (l) { Quiet q; VT_CHECK(++(*lead)[i] == 1, "leaders", "two leaders in generation %u", i); } if (chance(30)) vt_sleep(vt_rnd(3000)); } });
  p.join(); o.fin(); { Quiet q; for (unsigned i = 0; i < g; ++i) VT_CHECK((*lead)[i] == 1, "leaders", "generation %u has %d leaders", i, (*lead)[i]); if (has_fn(k)) VT_CHECK(o.completed == g, "completion", "%u completions in %u generations", o.completed, g); } delete b; delete slots; delete lead; }

// the completion function changes the count; more threads than the count come and go
SCENARIO(changing, F_NATIVE | F_HOT) {
  unsigned T = 1 + vt_rnd(4), g = 1 + vt_rnd(5); Kind k = (Kind)vt_rnd(N_KIND); Obs o; O = &o; { Quiet q; unsigned c = 1 + vt_rnd(T); for (unsigned i = 0; i < g; ++i) { if (changes(k) && i) c = 1 + vt_rnd(T); o.cnt.push_back(c); o.quota += c; } o.pay.resize(g); }
  barrier* b = make(k, o.cnt[0]); Par p; for (unsigned t = 0; t < T; ++t) p.go([=] { while (take()) { unsigned c0 = O->call(); bool l = b->wait(); O->ret(l, c0, has_fn(k)); if (has_fn(k)) VT_CHECK(O->pay[c0].a == 1 && O->pay[c0].ok(), "visibility", "the completion function of generation %u has not (visibly) run", c0); if (chance(30)) vt_sleep(vt_rnd(2000)); } });
  p.join(); o.fin(); if (has_fn(k)) VT_CHECK(o.completed == g, "completion", "%u completions in %u generations", o.completed, g); delete b; }

// a barrier may go away as soon as every waiter has returned; count_down_and_wait is wait
SCENARIO(one_shot, F_NATIVE) {
  unsigned n = 1 + vt_rnd(4); struct S { barrier* b; unsigned out, n, leaders, asked; } ; S* s = new S; s->b = make(chance(50) ? PLAIN : FVOID, n); s->out = 0; s->n = n; s->leaders = 0; s->asked = 0; Obs o; O = &o; { Quiet q; o.cnt.assign(1, n); o.pay.resize(1); }
  Par p; for (unsigned t = 0; t < n; ++t) p.go([=] { O->call(); bool l = false; bool asked = chance(60); if (asked) l = s->b->wait(); else s->b->count_down_and_wait(); { Quiet q; VT_CHECK(O->started == n, "early", "a wait returned after %u of %u arrivals", O->started, n); s->leaders += l; s->asked += asked; VT_CHECK(s->leaders <= 1, "leaders", "two leaders"); ++s->out; } });
  p.join(); { Quiet q; VT_CHECK(s->asked < n || s->leaders == 1, "leaders", "%u leaders", s->leaders); } delete s->b; delete s; vt_count("followers", 1); }

// interruption: an interrupted waiter leaves by exception; having arrived, it still counts
SCENARIO(interrupted, F_NATIVE) {
  unsigned T = 2 + vt_rnd(3), g = 1 + vt_rnd(4); Obs o; O = &o; { Quiet q; unsigned c = 1 + vt_rnd(T); o.cnt.assign(g, c); o.quota = c * g; o.pay.resize(g); } barrier* b = make(FVOID, o.cnt[0]); std::vector<thread*> ts; unsigned sent = 0;
  for (unsigned t = 0; t < T; ++t) ts.push_back(new thread([=] { while (take()) { unsigned c0 = O->call(); try { bool l = b->wait(); O->ret(l, c0, true); } catch (thread_interrupted&) { Quiet q; ++O->thrown; vt_count("interrupted", 1); } } try { this_thread::interruption_point(); } catch (thread_interrupted&) {} }));
  for (unsigned i = 0; i < 2; ++i) { if (chance(50)) vt_sleep(1000); ts[vt_rnd(T)]->interrupt(); ++sent; }
  for (unsigned t = 0; t < T; ++t) { ts[t]->join(); delete ts[t]; } VT_CHECK(o.thrown <= sent, "interrupt", "%u interrupted by %u interrupts", o.thrown, sent); o.fin(); delete b; { Quiet q; std::vector<thread*>().swap(ts); } }

SCENARIO(zero_count, F_ONCE | F_NATIVE) {
  for (int k = 0; k < N_KIND; ++k) { bool th = false; Obs o; O = &o; try { delete make((Kind)k, 0); } catch (thread_exception& e) { th = e.native_error() == EINVAL; } VT_CHECK(th, "zero", "a barrier for no thread was accepted (form %d)", k); vt_count("refused_zero", 1); } }
