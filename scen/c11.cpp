// C11: one-time initialisation.
#include "h.hpp"
#include <boost/thread/once.hpp>
#include <boost/thread/thread.hpp>
#include <boost/ref.hpp>
#include <boost/bind/bind.hpp>
using namespace boost;
struct FH { once_flag f; FH() : f() {} };
struct Boom { int tid; int no; };
struct Init { // one flag and what happened on it
  FH flag; Pay data; int running, runs, good, throws_left, last_runner; int copies; Init* inner; bool ran_by[32]; int threw_by[32];
  Init() : running(0), runs(0), good(0), throws_left(0), last_runner(-1), copies(0), inner(0) { memset(ran_by, 0, sizeof ran_by); memset(threw_by, 0, sizeof threw_by); }
  void body() {
    { Quiet q; VT_CHECK(running == 0, "twice", "two invocations run at the same time on one flag"); VT_CHECK(good == 0, "twice", "invoked again although an invocation has completed"); running++; runs++; last_runner = vt_tid(); ran_by[vt_tid()] = true; vt_count("invocations", 1); }
    data.bump(); vt_point(); data.bump();
    if (inner) inner->call_plain();
    bool t; { Quiet q; t = throws_left > 0; if (t) { throws_left--; threw_by[vt_tid()]++; } running--; if (!t) good++; }
    if (t) { { Quiet q; vt_count("threw", 1); } Boom b = { vt_tid(), 0 }; throw b; }
  }
  void after() { { Quiet q; VT_CHECK(good == 1, "early", "call_once returned although no invocation has completed (running %d)", running); vt_count("returned", 1); } VT_CHECK(data.ok() && data.a >= 2, "data", "the initialiser's data is incomplete"); }
  void call_plain(); 
};
static Init* g_i[32]; // per thread: for the plain function form
static void plain_fn() { Init* i; { Quiet q; i = g_i[vt_tid()]; } i->body(); }
static void arg_fn(Init* i, int n) { VT_CHECK(n == 42, "args", "wrong argument %d", n); i->body(); }
static void ref_fn(Init& i, int& n) { ++n; i.body(); }
struct Functor { Init* i; Functor(Init* p) : i(p) {} void operator()() { i->body(); } void operator()(int a, int b, std::string const& c) { VT_CHECK(a == 1 && b == 2 && c == "three", "args", "wrong arguments"); i->body(); } };
void Init::call_plain() { Functor f(this); for (int k = 0; k < 5; ++k) try { call_once(flag.f, f); after(); return; } catch (Boom& b) { Quiet q; VT_CHECK(b.tid == vt_tid(), "exception", "an exception of thread %d's invocation reached thread %d", b.tid, vt_tid()); } }
static bool do_call(Init& I) { // returns whether it returned normally
  int n = 0, before; { Quiet q; g_i[vt_tid()] = &I; before = I.threw_by[vt_tid()]; }
  try { switch (vt_rnd(8)) { case 0: call_once(I.flag.f, &plain_fn); break; case 1: call_once(I.flag.f, &arg_fn, &I, 42); break; case 2: call_once(I.flag.f, &ref_fn, boost::ref(I), boost::ref(n)); { Quiet q; VT_CHECK(n <= 1, "twice", "invoked %d times by one call", n); } break;
      case 3: call_once(I.flag.f, Functor(&I)); break; case 4: { Functor f(&I); call_once(I.flag.f, f, 1, 2, std::string("three")); break; } case 5: call_once(&plain_fn, I.flag.f); break;
#ifdef BOOST_THREAD_PROVIDES_INVOKE
      case 6: call_once(I.flag.f, &Init::body, &I); break;
#else
      case 6: call_once(I.flag.f, boost::bind(&Init::body, &I)); break;
#endif
      default: call_once(I.flag.f, [&] { I.body(); }); }
    I.after(); Quiet q; VT_CHECK(I.threw_by[vt_tid()] == before, "exception", "call_once returned normally although its invocation threw"); return true;
  } catch (Boom& b) { Quiet q; VT_CHECK(b.tid == vt_tid(), "exception", "an exception of thread %d's invocation reached thread %d", b.tid, vt_tid()); VT_CHECK(I.threw_by[vt_tid()] == before + 1, "exception", "call_once threw but its invocation did not"); return false; }
}
SCENARIO(race, F_NATIVE | F_HOT) {
  int nf = 1 + vt_rnd(2), nt = 2 + vt_rnd(3); Init* I = new Init[nf]; int thr = vt_rnd(4); for (int i = 0; i < nf; ++i) I[i].throws_left = chance(60) ? 0 : thr;
  { Par p; for (int t = 0; t < nt; ++t) p.go([=] { int n = 1 + vt_rnd(3); for (int k = 0; k < n; ++k) { Init& x = I[vt_rnd(nf)]; for (int r = 0; r < 4; ++r) if (do_call(x)) break; else if (chance(50)) break; } }); p.join(); }
  for (int i = 0; i < nf; ++i) { bool any = I[i].runs > 0; int left = I[i].throws_left; if (any && left == 0 && I[i].good == 0) { /* only throwing calls were made */ } VT_CHECK(I[i].good <= 1, "twice", "%d successful invocations", I[i].good); int c = 0; while (I[i].good == 0 && c++ < 8) do_call(I[i]); VT_CHECK(I[i].good == 1, "twice", "later calls never initialise"); do_call(I[i]); }
  vt_outcome(I[0].runs * 8 + I[0].last_runner); delete[] I;
}
// while one thread initialises, another flag's initialisation goes ahead
SCENARIO(independent, 0) {
  Init* A = new Init; Init* B = new Init; int* bdone = new int(0); struct Wait { pthread_mutex_t m; pthread_cond_t c; }; static pthread_mutex_t m; static pthread_cond_t c; pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0);
  { Par p; p.go([=] { call_once(A->flag.f, [=] { pthread_mutex_lock(&m); while (!*bdone) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); A->body(); }); A->after(); });
    p.go([=] { for (int i = 0; i < 3; ++i) if (do_call(*B)) break; pthread_mutex_lock(&m); *bdone = 1; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); });
    if (chance(50)) p.go([=] { do_call(*A); }); B->throws_left = vt_rnd(2); p.join(); }
  pthread_mutex_destroy(&m); pthread_cond_destroy(&c); delete A; delete B; delete bdone;
}
SCENARIO(nested, F_NATIVE) {
  Init* A = new Init; Init* B = new Init; A->inner = B; A->throws_left = vt_rnd(2); B->throws_left = vt_rnd(2); int nt = 2 + vt_rnd(2);
  { Par p; for (int t = 0; t < nt; ++t) p.go([=] { int w = vt_rnd(2); for (int k = 0; k < 2; ++k, w ^= 1) { if (w) { for (int r = 0; r < 4; ++r) if (do_call(*A)) break; } else do_call(*B); } }); p.join(); }
  while (A->good == 0) do_call(*A); VT_CHECK(A->good == 1 && B->good == 1, "twice", "nested initialisations completed %d and %d times", A->good, B->good); delete A; delete B;
}
// the one that throws does so because it is interrupted; the others still get through
SCENARIO(interrupted, F_NATIVE) {
  Init* A = new Init; int nt = 2 + vt_rnd(2); std::vector<boost::thread*> th; int* got = new int[8]();
  for (int t = 0; t < nt; ++t) th.push_back(new boost::thread([=] { bool mine = false; try { call_once(A->flag.f, [&] { mine = true; try { boost::this_thread::sleep(boost::posix_time::milliseconds(2)); } catch (boost::thread_interrupted&) { throw; } A->body(); }); A->after(); got[t] = 1; } catch (boost::thread_interrupted&) { Quiet q; VT_CHECK(mine, "exception", "an interruption was raised in a caller that was not running the initialiser"); got[t] = 2; vt_count("threw", 1); } }));
  th[vt_rnd(nt)]->interrupt(); if (chance(40)) th[vt_rnd(nt)]->interrupt();
  for (int t = 0; t < nt; ++t) { th[t]->join(); delete th[t]; } int ok = 0; for (int t = 0; t < nt; ++t) { VT_CHECK(got[t], "early", "no result"); if (got[t] == 1) ok++; } VT_CHECK(A->good == (ok > 0), "twice", "%d initialisations, %d normal returns", A->good, ok);
  { std::vector<boost::thread*>().swap(th); } delete[] got; delete A;
}
static void* vp(void* p) { return p; }
