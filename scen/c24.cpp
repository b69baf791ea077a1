// C24: priority queue
#include "q.hpp"
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>

// orderings: all different, reversed, and with many equivalent elements
static int k_less(int x) { return x; } static int k_greater(int x) { return -x; } static int k_class(int x) { return (x * 7 + 3) % 4; } static int k_hash(int x) { return (x * 37) % 61; }
template<int W> struct Cmp { static int key(int i) { return W == 0 ? k_less(i) : W == 1 ? k_greater(i) : W == 2 ? k_class(i) : k_hash(i); } template<class V> bool operator()(V const& a, V const& b) const { int x = El<V>::id(a), y = El<V>::id(b); if (x < 0 || y < 0) vt_fail("element", "a moved-from element was compared"); return key(x) < key(y); } };
struct NP {
  template<class Q, class V> static QR pushc(Q& q, int f, V const& v) { if (f & 1) return st(q.try_push(v)); q.push(v); return OK; }
  template<class Q, class V> static QR pushm(Q& q, int f, V& v) { if (f & 1) return st(q.try_push(boost::move(v))); q.push(boost::move(v)); return OK; }
  template<class Q, class V> static QR pull(Q& q, int f, V& v) { return NA::pull(q, f, v); }
};
static int pform() { static const int f[] = { 0, 1, 4, 5 }; return f[vt_rnd(4)]; }
// a timed pull
template<class V, class Q> QR t_pull(QRun& r, Q& q, bool past = false) {
  V v = El<V>::make(999); QR res = OK; int id = -1; Want w; size_t i = 0; 
  timed_form(w, M_CHRONO, [&](auto const& t) { i = r.call(PULL, 6, -1, false); typedef typename std::remove_const<typename std::remove_reference<decltype(t)>::type>::type T; if constexpr (is_dur<T>::value) res = st(q.pull_for(t, v)); else if constexpr (is_tp<T>::value) res = st(q.pull_until(t, v)); return true; }, past ? 0 : 3000000000ll);
  if (res == TIMEOUT) VT_CHECK(w.reached(), "early", "%s: a timed pull (%s) reported timeout %lld ns before its deadline", r.what, w.form, (long long)w.left());
  if (vt_exact() && vt_virtual() && !w.past) VT_CHECK(w.late() <= w.tol(), "late", "%s: a timed pull (%s) returned %s %lld ns after its deadline", r.what, w.form, qr_name[res], (long long)w.late());
  if (res == OK) id = pulled<V>(r, v); r.ret(i, res, id); expect(r, res == OK || res == CLOSED || res == TIMEOUT, "a timed pull", res); vt_count("timed_pulls", 1); if (res != OK) VT_CHECK(El<V>::id(v) == 999, "element", "%s: the caller's element was changed", r.what); return res; }
template<int W, class V> void mixed(bool timed) {
  sync_priority_queue<V, csbl::vector<V>, Cmp<W> > q; QRun r("sync_priority_queue", ~0ull); vt_on_idle(&QRun::idle, &r); Par p; int n = 2 + vt_rnd(3); bool early = chance(35);
  int warm = vt_rnd(6); for (int i = 0; i < warm; ++i) do_push<NP, V>(r, q, pform(), r.fresh(), false);
  for (int i = 0; i < n; ++i) { int k = 1 + vt_rnd(5), bias = vt_rnd(101);
    p.go([&, k, bias] { for (int j = 0; j < k; ++j) { unsigned x = vt_rnd(100); if (x < 10) do_look(r, q); else if (vt_rnd(100) < (unsigned)bias) do_push<NP, V>(r, q, pform(), r.fresh(), false); else if (timed && chance(40)) t_pull<V>(r, q); else do_pull<NP, V>(r, q, vt_rnd(5)); } }); }
  if (early) p.go([&] { for (unsigned i = vt_rnd(5); i-- > 0;) vt_yield(); do_close(r, q); });
  end_it(r, q, p);
  for (;;) { QR s = chance(20) ? t_pull<V>(r, q) : do_pull<NP, V>(r, q, 2 + 2 * vt_rnd(2)); if (s == CLOSED) break; VT_CHECK(s == OK, "status", "draining a closed queue: %s", qr_name[s]); }
  do_push<NP, V>(r, q, pform(), r.fresh(), false); do_look(r, q); r.check(MaxQ(&Cmp<W>::key)); VT_CHECK(r.pushed == r.pulled, "lost", "%ld pushed, %ld pulled", r.pushed, r.pulled); vt_on_idle(0, 0); vt_count("histories", 1);
}
template<class V> void anyw(bool timed) { switch (vt_rnd(4)) { case 0: mixed<0, V>(timed); break; case 1: mixed<1, V>(timed); break; case 2: mixed<2, V>(timed); break; default: mixed<3, V>(timed); } }
SCENARIO(mixed_int, 0) { anyw<int>(false); }
SCENARIO(mixed_timed, 0) { RealTrack::reset(); anyw<XB>(true); }
SCENARIO(mixed_move_only, F_SLOW) { if (chance(50)) mixed<2, XM>(false); else mixed<3, XM>(false); }
SCENARIO(mixed_copy_only, F_SLOW) { if (chance(50)) mixed<0, XC>(false); else mixed<3, XC>(false); }
// default ordering
SCENARIO(sorted, 0) { sync_priority_queue<XB> q; QRun r("sync_priority_queue", ~0ull); int n = 1 + vt_rnd(40); std::multiset<int> m; for (int i = 0; i < n; ++i) { int x = vt_rnd(40); XB v(x); if (chance(50)) q.push(v); else q.push(boost::move(v)); m.insert(x); while (!m.empty() && chance(35)) { XB w; q.pull(w); VT_CHECK(El<XB>::id(w) == *--m.end(), "order", "pulled %d, the greatest is %d", El<XB>::id(w), *--m.end()); m.erase(--m.end()); vt_count("pulled", 1); } VT_CHECK(q.size() == m.size() && q.empty() == m.empty(), "size", "size"); } if (chance(50)) q.close();
  while (!m.empty()) { XB w; if (chance(50)) w = q.pull(); else VT_CHECK(q.try_pull(w) == queue_op_status::success, "status", "try_pull"); VT_CHECK(El<XB>::id(w) == *--m.end(), "order", "pulled %d, the greatest is %d", El<XB>::id(w), *--m.end()); m.erase(--m.end()); vt_count("pulled", 1); } }
SCENARIO(handoff, F_HOT) { sync_priority_queue<XB> q; QRun r("sync_priority_queue", ~0ull); vt_on_idle(&QRun::idle, &r); Par p; int nc = 1 + vt_rnd(3), np = 1 + vt_rnd(2);
  for (int i = 0; i < nc; ++i) p.go([&] { int f = vt_rnd(4); if (f == 3 && !vt_exact()) f = 0; if (f == 3) { QR x = t_pull<XB>(r, q); if (x == TIMEOUT) do_pull<NP, XB>(r, q, 0); } else do_pull<NP, XB>(r, q, f == 2 ? 4 : f); });
  if (chance(60)) vt_settle(); for (int i = 0; i < np; ++i) p.go([&, i] { for (int j = i; j < nc; j += np) do_push<NP, XB>(r, q, pform(), r.fresh(), false); });
  vt_settle(); end_it(r, q, p); r.check(MaxQ(&k_less)); vt_on_idle(0, 0); }
SCENARIO(close_wakes, F_HOT) { sync_priority_queue<int> q; QRun r("sync_priority_queue", ~0ull); vt_on_idle(&QRun::idle, &r); Par p; int n = 1 + vt_rnd(3);
  for (int i = 0; i < n; ++i) p.go([&] { int f = vt_rnd(4); QR x = f == 3 ? t_pull<int>(r, q) : do_pull<NP, int>(r, q, f == 2 ? 4 : f); VT_CHECK(x == CLOSED || (f == 3 && x == TIMEOUT), "status", "pull on an empty closed queue: %s", qr_name[x]); });
  if (chance(50)) vt_settle(); end_it(r, q, p); r.check(MaxQ(&k_less)); vt_on_idle(0, 0); }
SCENARIO(interrupted, 0) { sync_priority_queue<int> q; QRun r("sync_priority_queue", ~0ull); vt_on_idle(&QRun::idle, &r); int n = 1 + vt_rnd(3); boost::thread t[3];
  for (int i = 0; i < n; ++i) t[i] = boost::thread([&] { for (int k = 0; k < 2; ++k) { int f = vt_rnd(3); if (do_pull<NP, int>(r, q, f == 2 ? 4 : f) == CLOSED) break; } });
  Par p; p.go([&] { for (int i = 0; i < n; ++i) { if (chance(40)) vt_settle(); do_push<NP, int>(r, q, pform(), r.fresh(), false); } }); for (int i = 0; i < n; ++i) { if (chance(40)) vt_settle(); t[i].interrupt(); }
  vt_settle(); end_it(r, q, p); for (int i = 0; i < n; ++i) t[i].join(); for (;;) { QR s = do_pull<NP, int>(r, q, 2); if (s == CLOSED) break; } r.check(MaxQ(&k_less)); VT_CHECK(r.pushed == r.pulled, "lost", "%ld pushed, %ld pulled", r.pushed, r.pulled); vt_on_idle(0, 0); }
SCENARIO(conserve, F_NATIVE | F_SLOW) { sync_priority_queue<XB> q; int K = vt_virtual() ? 1 + vt_rnd(8) : 100; const int np = 2, nc = 1 + vt_rnd(2); Par prod, cons; int seen[2][2] = { { 0, 0 }, { 0, 0 } };
  for (int j = 0; j < nc; ++j) cons.go([&, j] { for (;;) { XB v; int f = vt_rnd(6); QR s; try { s = f == 5 ? st(q.pull_for(boost::chrono::milliseconds(1), v)) : NA::pull(q, f, v); } catch (sync_queue_is_closed&) { s = CLOSED; } if (s == CLOSED) break; if (s != OK) { vt_yield(); continue; } int id = El<XB>::id(v); VT_CHECK(id >= 0 && id < 512, "element", "broken element"); seen[j][id >> 8]++; vt_count("pulled", 1); } });
  for (int i = 0; i < np; ++i) prod.go([&, i] { for (int k = 0; k < K; ++k) { XB v(i << 8 | k); if (chance(50)) q.push(v); else q.push(boost::move(v)); vt_count("pushed", 1); } });
  prod.join(); q.close(); cons.join(); for (int i = 0; i < np; ++i) VT_CHECK(seen[0][i] + seen[1][i] == K, "lost", "%d of %d elements came out", seen[0][i] + seen[1][i], K); }
