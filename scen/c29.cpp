// C29: thread groups and scoped threads account for every thread.
#include "val.hpp"
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
namespace c = boost::chrono;
// one per thread started
struct W { int started, ended, interrupted, tid; Pay pay; bool gated, poll, stop; boost::mutex m; boost::condition_variable cv; W() : started(0), ended(0), interrupted(0), tid(-1), gated(false), poll(false), stop(false) {}
  void open() { boost::lock_guard<boost::mutex> l(m); gated = false; cv.notify_all(); }
  void run() { { Quiet q; if (started++) vt_fail("once", "the thread function was called twice"); tid = vt_tid(); } VT_CHECK(pay.a == 0 && pay.ok(), "once", "payload"); pay.bump(); unsigned n = vt_rnd(4); for (unsigned i = 0; i < n; ++i) vt_yield(); if (chance(20)) vt_sleep(MS);
    { boost::unique_lock<boost::mutex> l(m); try { while (gated) cv.wait(l); } catch (thread_interrupted&) { Quiet q; ++interrupted; vt_count("interrupted", 1); } }
    pay.bump(); Quiet q; ++ended; vt_count("threads_ended", 1); }
  bool done() { Quiet q; return ended == 1; }
  void finished(const char* what) { VT_CHECK(done(), "join", "%s: the thread has not finished", what); VT_CHECK(pay.a == 2 && pay.ok(), "join", "%s: what the thread did is not visible", what); } };
struct WP { W* p; WP() : p(new W[2]) {} ~WP() { NoRace nr; delete[] p; } };   // detached threads: the destruction is ordered by settling only
struct F { W* w; std::string s; explicit F(W& x) : w(&x), s(40, 'f') {} void operator()() { VT_CHECK(s.size() == 40, "once", "callable not whole"); w->run(); } };
static void f1(W* w, int a) { VT_CHECK(a == 7, "once", "argument"); w->run(); }
static int acted; template<class D> struct Counting { template<class T> void operator()(T& t) { { Quiet q; ++acted; } D d; d(t); } };
enum Act { JOIN, DETACH, INTR };
template<class D> struct ActOf; template<> struct ActOf<join_if_joinable> { static const Act a = JOIN; }; template<> struct ActOf<boost::detach> { static const Act a = DETACH; }; template<> struct ActOf<detach_if_joinable> { static const Act a = DETACH; }; template<> struct ActOf<interrupt_and_join_if_joinable> { static const Act a = INTR; };
static void late(W& w) { for (int k = 0; k < 400 && !w.done(); ++k) { if (k == 3) w.open(); vt_sleep(MS); } VT_CHECK(w.done(), "detach", "a detached thread never finished"); vt_settle(); vt_settle(); NoRace nr; if (!w.pay.ok()) vt_fail("detach", "payload"); }
static void ended(Act a, W& w, const char* what, bool was_gated) { if (a == JOIN) w.finished(what); else if (a == INTR) { w.finished(what); int n; { Quiet q; n = w.interrupted; } VT_CHECK(n == (was_gated ? 1 : 0), "interrupt", "%s: the thread saw %d interruptions", what, n); } else late(w); }
// join needs the gate opened by someone: gate only the others
template<class D> static bool gate(W& w) { Act a = ActOf<D>::a; w.gated = a == JOIN ? false : chance(60); return w.gated; }
struct Opener { Par p; Opener(W& w, bool on) { if (on) p.go([&w] { vt_settle(); vt_sleep(MS); w.open(); }); } };
template<class D> static void strict(const char* what) { WP wp; W& w = *wp.p; bool g = gate<D>(w); { Quiet q; acted = 0; } bool thr = chance(30); try { switch (vt_rnd(3)) { case 0: { strict_scoped_thread<Counting<D> > s((F(w))); if (thr) throw Err(1); break; } case 1: { strict_scoped_thread<Counting<D> > s(&f1, &w, 7); if (thr) throw Err(1); break; } default: { boost::thread t((F(w))); strict_scoped_thread<Counting<D> > s((boost::move(t))); VT_CHECK(!t.joinable(), "move", "the thread was not moved"); if (thr) throw Err(1); } } VT_CHECK(!thr, "x", "x"); } catch (Err&) { } { Quiet q; VT_CHECK(acted == 1, "action", "%s: the action was performed %d times", what, acted); } ended(ActOf<D>::a, w, what, g); vt_count("scopes", 1); }
template<class D> static void guard(const char* what) { WP wp; W& w = *wp.p; bool g = gate<D>(w); { Quiet q; acted = 0; } int how = vt_rnd(3); boost::thread t((F(w))); bool nj = false; try { thread_guard<Counting<D> > s(t); if (how == 1) throw Err(1); if (how == 2 && !std::is_same<D, boost::detach>::value) { w.open(); t.join(); nj = true; g = false; } } catch (Err&) { } { Quiet q; VT_CHECK(acted == 1, "action", "%s: the action was performed %d times", what, acted); } VT_CHECK(!t.joinable(), "action", "%s: still joinable", what); if (nj) w.finished(what); else ended(ActOf<D>::a, w, what, g); vt_count("scopes", 1); }
template<class D> static void scoped(const char* what) { WP wp; W* w = wp.p; bool g[2] = { gate<D>(w[0]), gate<D>(w[1]) }; int how = vt_rnd(8); bool gone = false, two = false; if (std::is_same<D, boost::detach>::value && (how == 1 || how == 2 || how == 3 || how == 6)) how = 0;
  { scoped_thread<D> s(&f1, &w[0], 7); VT_CHECK(s.joinable() && s.get_id() != boost::thread::id(), "state", "%s: not joinable", what);
    switch (how) { case 1: w[0].open(); g[0] = false; s.join(); w[0].finished(what); gone = true; break; case 2: s.detach(); gone = true; break;
      case 3: { scoped_thread<D> m(boost::move(s)); VT_CHECK(!s.joinable() && m.joinable(), "move", "%s: move construction", what); break; }
      case 4: { scoped_thread<D> m((F(w[1]))); two = true; boost::thread::id a = s.get_id(), b = m.get_id(); if (chance(50)) s.swap(m); else swap(s, m); VT_CHECK(s.get_id() == b && m.get_id() == a, "move", "%s: swap", what); break; }
      case 5: { boost::thread t((F(w[1]))); scoped_thread<D> m((boost::move(t))); two = true; boost::thread::id b = m.get_id(); if (std::is_same<D, boost::detach>::value) { s.swap(m); break; } s = boost::move(m); VT_CHECK(s.get_id() == b && !m.joinable(), "move", "%s: move assignment", what); ended(ActOf<D>::a, w[0], what, g[0]); gone = true; break; }
      case 6: { bool ok = s.try_join_for(c::milliseconds(1 + vt_rnd(3))); if (ok) { w[0].finished(what); gone = true; } break; }
      case 7: if (w[0].gated) { s.interrupt(); VT_CHECK(true, "x", "x"); } else if (s.native_handle() == 0) {} break; default: break; } 
    if (how == 7 && g[0]) { int k = 0; for (; k < 200 && !w[0].done(); ++k) vt_sleep(MS); VT_CHECK(w[0].done(), "interrupt", "%s: the interruption never arrived", what); Quiet q; VT_CHECK(w[0].interrupted == 1, "interrupt", "%s: %d interruptions", what, w[0].interrupted); } }
  if (how == 7 && g[0]) { if (ActOf<D>::a == DETACH) late(w[0]); else w[0].finished(what); } else if (gone) { if (how == 2) late(w[0]); } else if (how == 6 && ActOf<D>::a == INTR && g[0]) w[0].finished(what); else ended(ActOf<D>::a, w[0], what, g[0]); if (two) ended(ActOf<D>::a, w[1], what, g[1]); vt_count("scopes", 1); }
#define FORMS(K) switch (vt_rnd(4)) { case 0: K<join_if_joinable>(#K " join_if_joinable"); break; case 1: K<boost::detach>(#K " detach"); break; case 2: K<detach_if_joinable>(#K " detach_if_joinable"); break; default: K<interrupt_and_join_if_joinable>(#K " interrupt_and_join_if_joinable"); }
SCENARIO(strict_scoped, 0) { FORMS(strict) }
SCENARIO(guards, 0) { FORMS(guard) }
SCENARIO(scoped_threads, F_HOT) { FORMS(scoped) }
// the owner is interrupted while it waits at the end of the scope
SCENARIO(owner_interrupted, 0) { W w; w.gated = true; bool ok = false, after = false; int k = vt_rnd(3); boost::thread o([&] { try { { if (k == 0) { strict_scoped_thread<> s((F(w))); } else if (k == 1) { scoped_thread<> s((F(w))); } else { boost::thread t((F(w))); thread_guard<> g(t); } } w.finished("a scope whose owner is interrupted"); ok = true; boost::this_thread::interruption_point(); } catch (thread_interrupted&) { after = true; } }); vt_settle(); o.interrupt(); vt_settle(); { Quiet q; VT_CHECK(!w.done(), "gate", "gate"); } if (chance(50)) vt_sleep(MS); VT_CHECK(!ok, "join", "the scope ended although its thread is still running"); w.open(); o.join(); VT_CHECK(ok && after, "interrupt", "the interruption was lost"); vt_count("owner_interrupted", 1); }
SCENARIO(empty_scopes, F_ONCE) { scoped_thread<> a; scoped_thread<detach_if_joinable> b; VT_CHECK(!a.joinable() && a.get_id() == boost::thread::id(), "state", "an empty scoped thread is joinable"); scoped_thread<> d(boost::move(a)); boost::thread t; thread_guard<> g(t); strict_scoped_thread<> s((boost::move(t))); a = boost::move(d); VT_CHECK(scoped_thread<>::hardware_concurrency() == boost::thread::hardware_concurrency(), "state", "hardware_concurrency"); }
SCENARIO(scope_creation, F_FAULT) { W w; bool f = chance(50), thrown = false; if (f) vt_fail_create(1); else vt_fail_new(1 + vt_rnd(4)); { try { scoped_thread<> s(&f1, &w, 7); } catch (thread_resource_error&) { thrown = true; } catch (std::bad_alloc&) { thrown = true; } } bool hit = !vt_fail_pending(); vt_fail_new(0); vt_fail_create(0); VT_CHECK(!thrown || hit, "creation", "threw for no reason"); if (thrown) { vt_settle(); Quiet q; VT_CHECK(!w.started, "creation", "a thread runs although its creation failed"); vt_count("creation_failures", 1); } else w.finished("scoped_thread"); }

// groups
SCENARIO(group, F_HOT) { W w[8]; boost::thread* t[8] = {}; bool in[8] = {}, early[8] = {}; int n = 0, size = 0; { thread_group g; VT_CHECK(g.size() == 0 && !g.is_this_thread_in() && !g.is_thread_in(0), "group", "a new group is not empty"); g.add_thread(0); g.remove_thread(0); int k = 2 + vt_rnd(6); bool gates = chance(50);
  for (int i = 0; i < k; ++i) { unsigned x = vt_rnd(100); if (n < 6 && x < 55) { w[n].gated = gates; if (chance(60)) t[n] = g.create_thread(F(w[n])); else { t[n] = new boost::thread(F(w[n])); g.add_thread(t[n]); } in[n++] = true; ++size; } else if (n) { int j = vt_rnd(n); if (in[j] && x < 80) { g.remove_thread(t[j]); in[j] = false; --size; vt_count("removed", 1); } else if (!in[j] && x < 90) { g.add_thread(t[j]); in[j] = true; ++size; } else if (!in[j]) g.remove_thread(t[j]); }
    VT_CHECK((int)g.size() == size, "group", "size() is %zu with %d threads", g.size(), size); for (int j = 0; j < n; ++j) if (t[j]->joinable()) VT_CHECK(g.is_thread_in(t[j]) == in[j], "group", "is_thread_in is wrong for thread %d", j); VT_CHECK(!g.is_this_thread_in(), "group", "is_this_thread_in"); }
  for (int j = 0; j < n; ++j) if (in[j] && chance(15)) { w[j].open(); if (chance(50)) t[j]->join(); else while (!t[j]->try_join_for(c::milliseconds(20))) {} early[j] = true; w[j].finished("join"); vt_count("joined_early", 1); }   // the group owns the thread object, which may be used by itself
  Par p; bool intr = gates && chance(50); if (intr) { if (chance(50)) vt_settle(); g.interrupt_all(); } else if (gates) p.go([&] { if (chance(50)) vt_settle(); for (int j = 0; j < 8; ++j) if (j >= n || in[j]) w[j].open(); });
  g.join_all(); for (int j = 0; j < n; ++j) if (in[j]) { w[j].finished("join_all"); VT_CHECK(!t[j]->joinable(), "group", "still joinable after join_all"); Quiet q; VT_CHECK(w[j].interrupted == (int)(gates && intr && !early[j]), "interrupt", "a thread of the group saw %d interruptions", w[j].interrupted); } p.join(); g.join_all();
  for (int j = 0; j < n; ++j) if (!in[j]) { VT_CHECK(t[j]->joinable(), "group", "join_all joined a thread that is not in the group"); { Quiet q; VT_CHECK(!gates || !w[j].done(), "group", "a thread that is not in the group was interrupted"); } w[j].open(); t[j]->join(); delete t[j]; w[j].finished("join"); } VT_CHECK((int)g.size() == size, "group", "size changed"); vt_count("groups", 1); } }
// is_this_thread_in from inside, and concurrent use
// threads enter and leave the group at the same time
SCENARIO(group_members, F_NATIVE) { W w[6]; thread_group g; int n = 2 + vt_rnd(2); Par p; int left = 0; boost::thread* t[6]; for (int i = 0; i < n; ++i) { bool leave = chance(50), mk = chance(30); left += !leave; p.go([&, i, leave, mk] { if (mk) t[i] = g.create_thread([&, i] { w[i].run(); }); else { t[i] = new boost::thread([&, i] { w[i].run(); }); VT_CHECK(!g.is_thread_in(t[i]), "group", "in the group before being added"); g.add_thread(t[i]); } VT_CHECK(g.is_thread_in(t[i]), "group", "not in the group"); VT_CHECK(g.size() >= 1 && g.size() <= (size_t)n, "group", "size() is %zu", g.size()); if (leave) { g.remove_thread(t[i]); VT_CHECK(!g.is_thread_in(t[i]), "group", "still in the group"); t[i]->join(); w[i].finished("join"); delete t[i]; vt_count("removed", 1); } }); } p.join(); VT_CHECK(g.size() == (size_t)left, "group", "size() is %zu with %d threads", g.size(), left); g.join_all(); for (int i = 0; i < n; ++i) w[i].finished("join_all"); vt_count("groups", 1); }
SCENARIO(group_concurrent, F_HOT) { W w[6]; thread_group g; boost::mutex cm; boost::condition_variable ccv; int asked = 0; int n = 1 + vt_rnd(3), m = 1 + vt_rnd(2); Par p; boost::thread* t[6]; for (int i = 0; i < n; ++i) p.go([&, i] { for (int j = 0; j < m; ++j) { int x = i * m + j; size_t b = g.size(); t[x] = g.create_thread([&, x] { bool r = g.is_this_thread_in(); VT_CHECK(r, "group", "a thread created in the group is not in it"); { boost::lock_guard<boost::mutex> l(cm); ++asked; } ccv.notify_all(); w[x].run(); }); size_t a = g.size(); VT_CHECK(a > b && a <= (size_t)(n * m), "group", "size went from %zu to %zu", b, a); VT_CHECK(g.is_thread_in(t[x]), "group", "not in the group"); } }); if (chance(30)) p.go([&] { g.interrupt_all(); }); p.join(); VT_CHECK(g.size() == (size_t)(n * m), "group", "size() is %zu with %d threads", g.size(), n * m); VT_CHECK(!g.is_this_thread_in(), "group", "a stranger is in the group"); { boost::unique_lock<boost::mutex> l(cm); while (asked < n * m) ccv.wait(l); } bool rm = chance(40); if (rm) { g.remove_thread(t[0]); VT_CHECK(g.size() == (size_t)(n * m - 1), "group", "size after removal"); } g.join_all(); for (int x = rm; x < n * m; ++x) w[x].finished("join_all"); if (rm) { t[0]->join(); w[0].finished("join"); delete t[0]; } vt_count("groups", 1); }
// a known finding: queries and interruptions of a group while another thread is in join_all
SCENARIO(group_join_race, F_KNOWN) { W w[3]; thread_group g; for (int i = 0; i < 3; ++i) g.create_thread([&, i] { w[i].run(); if (i == 2) g.is_this_thread_in(); }); Par p; p.go([&] { for (int k = 0; k < 3; ++k) { g.interrupt_all(); vt_yield(); } }); g.join_all(); p.join(); }
SCENARIO(group_fault, F_FAULT) { W w[4]; thread_group g; int size = 0, ok[4] = {}; for (int i = 0; i < 4; ++i) { bool f = chance(50); if (chance(60)) { if (f) vt_fail_create(1); else vt_fail_new(1 + vt_rnd(5)); } bool was = vt_fail_pending(), thr = false; try { g.create_thread(F(w[i])); } catch (thread_resource_error&) { thr = true; } catch (std::bad_alloc&) { thr = true; } bool hit = was && !vt_fail_pending(); vt_fail_new(0); vt_fail_create(0); VT_CHECK(!thr || hit, "creation", "create_thread threw for no reason"); if (thr) vt_count("creation_failures", 1); else { ok[i] = 1; ++size; } VT_CHECK((int)g.size() == size, "group", "size() is %zu with %d threads", g.size(), size); } g.join_all(); vt_settle(); for (int i = 0; i < 4; ++i) if (ok[i]) w[i].finished("join_all"); else { Quiet q; VT_CHECK(!w[i].started, "creation", "a thread runs although create_thread failed"); } }
#ifdef BOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
SCENARIO(group_misuse, 0) { W w; bool twice = chance(50); w.gated = twice; thread_group g; boost::thread* t = g.create_thread([&] { bool r = false; try { g.join_all(); } catch (thread_resource_error&) { r = true; } VT_CHECK(r, "misuse", "a thread joined the group it is in"); w.run(); }); bool r = false; if (twice) { try { g.add_thread(t); } catch (thread_resource_error&) { r = true; } VT_CHECK(r, "misuse", "a thread was added twice"); VT_CHECK(g.size() == 1, "group", "size"); w.open(); } g.join_all(); w.finished("join_all"); vt_count("misuse_refused", 1); }
#endif
#if BOOST_THREAD_VERSION < 3
// destroying a group detaches what is not joined
SCENARIO(group_detach, 0) { W* w = new W[2]; { thread_group g; g.create_thread(F(w[0])); g.create_thread(F(w[1])); } for (int k = 0; k < 400 && !(w[0].done() && w[1].done()); ++k) vt_sleep(MS); VT_CHECK(w[0].done() && w[1].done(), "detach", "a thread of a destroyed group never finished"); vt_settle(); vt_settle(); NoRace nr; delete[] w; vt_count("group_detached", 1); }
#endif
SCENARIO(native, F_NATIVE | F_SLOW) { static boost::mutex m; static long sum; sum = 0; auto f = [] { boost::lock_guard<boost::mutex> l(m); ++sum; }; thread_group g; Par p; for (int i = 0; i < 2; ++i) p.go([&] { for (int k = 0; k < 3; ++k) { g.create_thread(f); scoped_thread<> s(f); boost::thread t(f); thread_guard<interrupt_and_join_if_joinable> gd(t); scoped_thread<> s2((boost::thread(f))); s2 = boost::move(s); } }); p.join(); g.join_all(); VT_CHECK(sum == 24, "lost", "%ld", sum); vt_count("threads_ended", sum); }
