// C23: bounded queue
#include "q.hpp"
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/queue_views.hpp>
#undef BOOST_THREAD_QUEUE_VIEWS_HPP
#include <boost/thread/concurrent_queues/deque_views.hpp>

// the names of the older interface: forms as in q.hpp, refusals by false
struct NO {
  struct Refused {};
  template<class Q, class V> static QR pushc(Q& q, int f, V const& v) { switch (f) { case 0: case 3: q.push(v); return OK; case 1: return q.try_push(v) ? OK : FULL; default: return q.try_push(no_block, v) ? OK : FULL; } }
  template<class Q, class V> static QR pushm(Q& q, int f, V& v) { switch (f) { case 0: case 3: q.push(boost::move(v)); return OK; case 1: return q.try_push(boost::move(v)) ? OK : FULL; default: return q.try_push(no_block, boost::move(v)) ? OK : FULL; } }
  template<class Q, class V> static QR pull(Q& q, int f, V& v) { switch (f) { case 0: if (chance(30)) { v = boost::move(*q.ptr_pull()); return OK; } q.pull(v); return OK; case 1: v = q.pull(); return OK; case 2: if (chance(40)) { boost::shared_ptr<V> p = q.try_pull(); if (!p) return EMPTY; v = boost::move(*p); return OK; } return q.try_pull(v) ? OK : EMPTY; case 3: return q.try_pull(no_block, v) ? OK : EMPTY; default: q.pull(v); return OK; } }
};
template<class V, class Q> QR old_push(QRun& r, Q& q, int form, int id) {
  V v = El<V>::make(id); if (id < 64) qpay[id].bump(); int f = form & 3; bool rv = El<V>::move && (!El<V>::copy || (form & 4)); size_t i = r.call(PUSH, form, id, f == 0 || f == 3); QR res;
  try { res = PushSel<NO, V, El<V>::copy, El<V>::move>::go(q, form, v); } catch (sync_queue_is_closed&) { res = CLOSED; }
  if (f == 2 && res == FULL) res = WOULDBLOCK; // "would block" covers both
  r.ret(i, res, id); if (res != OK || !rv) VT_CHECK(El<V>::id(v) == id, "element", "%s: the caller's element was changed", r.what); return res; }
template<class V, class Q> QR old_pull(QRun& r, Q& q, int form) {
  V v = El<V>::make(999); size_t i = r.call(PULL, form, -1, form != 2 && form != 3); QR res; int id = -1; try { res = NO::pull(q, form, v); } catch (sync_queue_is_closed&) { res = CLOSED; }
  if (res == OK) id = pulled<V>(r, v); if (form == 3 && res == EMPTY) res = WOULDBLOCK; r.ret(i, res, id); if (res != OK) VT_CHECK(El<V>::id(v) == 999, "element", "%s: the caller's element was changed", r.what); return res; }

template<class V, class Q> void mixed(const char* what, Q& q, size_t cap, bool faults, bool old) {
  QRun r(what, cap); vt_on_idle(&QRun::idle, &r); Par p; int n = 2 + vt_rnd(3); bool early = chance(35);
  VT_CHECK(q.capacity() == cap, "capacity", "capacity() is %zu, not %zu", q.capacity(), cap);
  { int warm = vt_rnd(cap * 2 + 1); for (int i = 0; i < warm; ++i) { V v = El<V>::make(500); q.push_back(boost::move(v)); V w = q.pull_front(); } }   // start anywhere in the ring
  for (int i = 0; i < n; ++i) { int k = 1 + vt_rnd(6), bias = vt_rnd(101);
    p.go([&, k, bias] { for (int j = 0; j < k; ++j) { unsigned x = vt_rnd(100); bool o = old && chance(50);
      if (x < 25) do_look(r, q); 
      else if (vt_rnd(100) < (unsigned)bias) { int f = vt_rnd(8); if (o) old_push<V>(r, q, f, r.fresh()); else do_push<NB, V>(r, q, f, r.fresh(), true, faults && chance(25)); }
      else { int f = vt_rnd(5); if (o) old_pull<V>(r, q, f); else do_pull<NB, V>(r, q, f, faults && chance(25)); } } }); }
  if (early) p.go([&] { for (unsigned i = vt_rnd(5); i-- > 0;) vt_yield(); do_close(r, q); });
  end_it(r, q, p);
  for (;;) { do_look(r, q); QR s = do_pull<NB, V>(r, q, 2 + 2 * vt_rnd(2)); if (s == CLOSED) break; VT_CHECK(s == OK, "status", "%s: draining a closed queue: %s", what, qr_name[s]); }
  do_push<NB, V>(r, q, vt_rnd(8), r.fresh(), true); do_look(r, q);
  r.check(Fifo(cap)); VT_CHECK(r.pushed == r.pulled, "lost", "%s: %ld pushed, %ld pulled", what, r.pushed, r.pulled); vt_on_idle(0, 0); vt_count("histories", 1);
}
SCENARIO(mixed_int, 0) { size_t c = 1 + vt_rnd(4); sync_bounded_queue<int> q(c); mixed<int>("sync_bounded_queue", q, c, false, false); }
SCENARIO(mixed_copyable, 0) { size_t c = 1 + vt_rnd(4); sync_bounded_queue<XB> q(c); mixed<XB>("sync_bounded_queue", q, c, false, true); }
SCENARIO(mixed_move_only, 0) { size_t c = 1 + vt_rnd(4); sync_bounded_queue<XM> q(c); mixed<XM>("sync_bounded_queue of a move-only type", q, c, false, true); }
SCENARIO(mixed_throwing, F_FAULT) { size_t c = 1 + vt_rnd(4); sync_bounded_queue<XC> q(c); mixed<XC>("sync_bounded_queue of a type whose copies throw", q, c, true, false); }

// Hand over under pressure: capacity 1 or 2, blocking forms only, equal numbers.
SCENARIO(pressure, F_HOT) { size_t c = 1 + vt_rnd(2); sync_bounded_queue<XB> q(c); QRun r("sync_bounded_queue", c); vt_on_idle(&QRun::idle, &r); Par p; int np = 1 + vt_rnd(3), nc = 1 + vt_rnd(3), total = np * nc * (1 + vt_rnd(2));
  for (int i = 0; i < np; ++i) p.go([&] { for (int k = 0; k < total / np; ++k) if (chance(70)) do_push<NB, XB>(r, q, chance(50) ? 0 : 7, r.fresh(), true); else old_push<XB>(r, q, 4, r.fresh()); });
  for (int i = 0; i < nc; ++i) p.go([&] { for (int k = 0; k < total / nc; ++k) if (chance(70)) do_pull<NB, XB>(r, q, chance(50) ? 1 : 4); else old_pull<XB>(r, q, vt_rnd(2)); });
  p.join(); VT_CHECK(q.empty() && q.size() == 0, "lost", "not empty at the end"); r.check(Fifo(c)); vt_on_idle(0, 0); }
// closing wakes blocked producers and consumers
SCENARIO(close_wakes, F_HOT) { size_t c = 1 + vt_rnd(2); sync_bounded_queue<int> q(c); QRun r("sync_bounded_queue", c); vt_on_idle(&QRun::idle, &r); bool full = chance(50); Par p; int n = 1 + vt_rnd(3);
  if (full) for (size_t i = 0; i < c; ++i) do_push<NB, int>(r, q, 0, r.fresh(), true);
  for (int i = 0; i < n; ++i) p.go([&] { int f = vt_rnd(3); QR x; if (full) { static const int fs[] = { 0, 3, 4, 7 }; x = f ? do_push<NB, int>(r, q, fs[vt_rnd(4)], r.fresh(), true) : old_push<int>(r, q, vt_rnd(2) * 4, r.fresh()); } else x = f ? do_pull<NB, int>(r, q, f == 1 ? vt_rnd(2) : 4) : old_pull<int>(r, q, vt_rnd(2)); VT_CHECK(x == CLOSED, "status", "blocked call on a closed queue: %s", qr_name[x]); vt_count(full ? "blocked_push_closed" : "blocked_pull_closed", 1); });
  if (chance(50)) vt_settle(); end_it(r, q, p); r.check(Fifo(c)); vt_on_idle(0, 0); }
// refusals of the older interface are truthful
SCENARIO(old_status, F_ONCE) { size_t c = 1 + vt_rnd(3); sync_bounded_queue<XB> q(c); XB v(1), w; VT_CHECK(!q.try_pull(w) && !q.try_pull(no_block, w) && !q.try_pull(), "status", "try_pull from an empty queue"); for (size_t i = 0; i < c; ++i) { VT_CHECK(q.size() == i && !q.full(), "size", "size"); VT_CHECK(chance(50) ? q.try_push(v) : q.try_push(no_block, XB(1)), "status", "try_push failed with room"); VT_CHECK(!q.empty(), "size", "empty"); }
  VT_CHECK(q.full() && q.size() == c, "size", "full"); VT_CHECK(!q.try_push(v) && !q.try_push(no_block, v) && !q.try_push(boost::move(v)) && El<XB>::id(v) == 1, "status", "try_push into a full queue"); q.close(); int e = 0; try { q.try_push(v); } catch (sync_queue_is_closed&) { ++e; } try { q.push(boost::move(v)); } catch (sync_queue_is_closed&) { ++e; } VT_CHECK(e == 2 && El<XB>::id(v) == 1, "status", "push into a closed queue");
  for (size_t i = 0; i < c; ++i) { boost::shared_ptr<XB> s = chance(50) ? q.try_pull() : q.ptr_pull(); VT_CHECK(s && El<XB>::id(*s) == 1, "status", "draining"); } try { q.try_pull(w); } catch (sync_queue_is_closed&) { ++e; } try { q.try_pull(); } catch (sync_queue_is_closed&) { ++e; } try { q.pull(); } catch (sync_queue_is_closed&) { ++e; } try { q.ptr_pull(); } catch (sync_queue_is_closed&) { ++e; } VT_CHECK(e == 6, "status", "pull from a closed queue: %d", e); }
SCENARIO(operators, F_SLOW) { size_t c = 1 + vt_rnd(3); QRun r("operators", c); sync_bounded_queue<XB> d(c); Par p; int n = 1 + vt_rnd(6);
  p.go([&] { for (int i = 0; i < n; ++i) { XB v(i); qpay[i].bump(); if (chance(50)) { d << v; VT_CHECK(El<XB>::id(v) == i, "element", "<< of an lvalue changed it"); } else d << boost::move(v); } });
  for (int i = 0; i < n; ++i) { XB v; d >> v; VT_CHECK(pulled<XB>(r, v) == i, "order", ">> out of order"); vt_count("pulled", 1); } p.join(); VT_CHECK(d.empty(), "lost", "not empty"); }
SCENARIO(views, F_SLOW) { size_t c = 1 + vt_rnd(3); sync_bounded_queue<XB> q(c); deque_back_view<sync_bounded_queue<XB> > b(q); deque_front_view<sync_bounded_queue<XB> > f(q); QRun r("views of sync_bounded_queue", c); vt_on_idle(&QRun::idle, &r); Par p; 
  for (int i = 0; i < 2; ++i) { p.go([&] { for (int k = 0; k < 3; ++k) do_push<NA, XB>(r, b, vt_rnd(8), r.fresh(), true); }); p.go([&] { for (int k = 0; k < 3; ++k) do_pull<NA, XB>(r, f, vt_rnd(5)); }); } vt_settle(); do_look(r, b); end_it(r, f, p); r.check(Fifo(c)); vt_on_idle(0, 0); }
// Interrupting blocked threads loses no element, and no wakeup that others need.
SCENARIO(interrupted, 0) { size_t c = 1 + vt_rnd(2); sync_bounded_queue<int> q(c); QRun r("sync_bounded_queue", c); vt_on_idle(&QRun::idle, &r); int n = 2 + vt_rnd(2); bool cons = chance(50); boost::thread t[3];
  if (!cons) for (size_t i = 0; i < c; ++i) do_push<NB, int>(r, q, 0, r.fresh(), true);
  for (int i = 0; i < n; ++i) t[i] = boost::thread([&] { QR x; if (cons) x = do_pull<NB, int>(r, q, chance(50) ? vt_rnd(2) : 4); else x = do_push<NB, int>(r, q, chance(50) ? 0 : 7, r.fresh(), true); (void)x; });
  if (chance(70)) vt_settle(); Par p; p.go([&] { int k = 1 + vt_rnd(n - 1); for (int i = 0; i < k; ++i) { if (cons) do_push<NB, int>(r, q, vt_rnd(8), r.fresh(), true); else do_pull<NB, int>(r, q, 2); } });
  int k = 1 + vt_rnd(n); for (int i = 0; i < k; ++i) { if (chance(20)) vt_settle(); t[i].interrupt(); }
  vt_settle(); end_it(r, q, p); for (int i = 0; i < n; ++i) t[i].join(); for (;;) { QR s = do_pull<NB, int>(r, q, 2); if (s == CLOSED) break; } r.check(Fifo(c)); VT_CHECK(r.pushed == r.pulled, "lost", "%ld pushed, %ld pulled", r.pushed, r.pulled); vt_on_idle(0, 0); }
// native too
template<class V, class Q> void conserve(const char* what, Q& q, size_t cap) {
  int K = vt_virtual() ? 1 + vt_rnd(8) : 100; const int np = 1 + vt_rnd(2), nc = 1 + vt_rnd(2); Par prod, cons; struct C { int seen[2], last[2]; } c[2];
  for (int j = 0; j < nc; ++j) cons.go([&, j] { C& m = c[j]; m.seen[0] = m.seen[1] = 0; m.last[0] = m.last[1] = -1; for (;;) { V v = El<V>::make(999); int f = vt_rnd(5); QR s; try { s = NB::pull(q, f, v); } catch (sync_queue_is_closed&) { s = CLOSED; } if (s == CLOSED) break; VT_CHECK(q.size() <= cap, "capacity", "more elements than the capacity"); if (s != OK) { vt_yield(); continue; } int id = El<V>::id(v); VT_CHECK(id >= 0 && id < 2 * 256, "element", "%s: broken element", what); int w = id >> 8, k = id & 255; VT_CHECK(k > m.last[w], "order", "%s: elements of one producer out of order", what); m.last[w] = k; m.seen[w]++; vt_count("pulled", 1); } });
  for (int i = 0; i < np; ++i) prod.go([&, i] { for (int k = 0; k < K; ++k) { V v = El<V>::make(i << 8 | k); for (;;) { QR s = PushSel<NB, V, El<V>::copy, El<V>::move>::go(q, vt_rnd(8), v); if (s == OK) break; VT_CHECK(s == BUSY || s == FULL, "status", "%s: push: %s", what, qr_name[s]); vt_yield(); } vt_count("pushed", 1); } });
  prod.join(); q.close(); cons.join(); for (int i = 0; i < np; ++i) { int s = 0; for (int j = 0; j < nc; ++j) s += c[j].seen[i]; VT_CHECK(s == K, "lost", "%s: %d of %d elements came out", what, s, K); }
}
SCENARIO(conserve, F_NATIVE | F_SLOW) { size_t c = 1 + vt_rnd(5); if (chance(50)) { sync_bounded_queue<XB> q(c); conserve<XB>("sync_bounded_queue", q, c); } else { sync_bounded_queue<XM> q(c); conserve<XM>("sync_bounded_queue", q, c); } }
