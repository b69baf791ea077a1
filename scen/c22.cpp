// C22: synchronized queue and deque
#include "q.hpp"
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#include <boost/thread/concurrent_queues/deque_adaptor.hpp>
#include <boost/thread/concurrent_queues/queue_views.hpp>
#undef BOOST_THREAD_QUEUE_VIEWS_HPP   // (both headers use this include guard)
#include <boost/thread/concurrent_queues/deque_views.hpp>

// Mixed operations of every form, checked for linearizability.
template<class NP, class NL, class V, class QP, class QL> void mixed(const char* what, QP& qp, QL& ql, bool faults) {
  QRun r(what, ~0ull); vt_on_idle(&QRun::idle, &r); Par p; int n = 2 + vt_rnd(3); bool early = chance(35); int total = 0;
  for (int i = 0; i < n; ++i) { int k = 1 + vt_rnd(5), bias = vt_rnd(101); total += k;
    p.go([&, k, bias] { for (int j = 0; j < k; ++j) { unsigned x = vt_rnd(100);
      if (x < 8) do_look(r, qp); else if (x < 12) do_look(r, ql);
      else if (vt_rnd(100) < (unsigned)bias) do_push<NP, V>(r, qp, vt_rnd(8), r.fresh(), false, faults && chance(25));
      else do_pull<NL, V>(r, ql, vt_rnd(5), faults && chance(25)); } }); }
  if (early) p.go([&] { for (unsigned i = vt_rnd(5); i-- > 0;) vt_yield(); if (chance(50)) do_close(r, qp); else do_close(r, ql); });
  end_it(r, qp, p);
  for (;;) { QR s = do_pull<NL, V>(r, ql, 2 + 2 * vt_rnd(2)); if (s == CLOSED) break; VT_CHECK(s == OK, "status", "%s: draining a closed queue: %s", what, qr_name[s]); }
  do_push<NP, V>(r, qp, vt_rnd(8), r.fresh(), false); do_look(r, qp);
  r.check(Fifo()); VT_CHECK(r.pushed == r.pulled, "lost", "%s: %ld pushed, %ld pulled", what, r.pushed, r.pulled); vt_on_idle(0, 0); vt_count("histories", 1);
}
template<class V> void mix_any(bool faults) { switch (vt_rnd(8)) {
  case 0: case 1: { sync_queue<V> q; mixed<NA, NA, V>("sync_queue", q, q, faults); break; }
  case 2: case 3: { sync_deque<V> q; mixed<NB, NB, V>("sync_deque", q, q, faults); break; }
  case 4: { queue_adaptor<sync_queue<V> > a; queue_base<V>& b = a; mixed<NA, NA, V>("queue_adaptor", b, b, faults); break; }
  case 5: { deque_adaptor<sync_deque<V> > a; deque_base<V>& b = a; mixed<NB, NB, V>("deque_adaptor", b, b, faults); break; }
  case 6: { sync_queue<V> q; queue_back_view<sync_queue<V> > b(q); queue_front_view<sync_queue<V> > f(q); mixed<NA, NA, V>("queue views", b, f, faults); break; }
  default: { sync_deque<V> q; deque_back_view<sync_deque<V> > b(q); deque_front_view<sync_deque<V> > f(q); mixed<NA, NA, V>("deque views", b, f, faults); break; } } }
SCENARIO(mixed_int, F_NOLEAK * 0) { mix_any<int>(false); }
SCENARIO(mixed_copyable, 0) { mix_any<XB>(false); }
SCENARIO(mixed_move_only, 0) { if (chance(50)) { sync_queue<XM> q; mixed<NA, NA, XM>("sync_queue of a move-only type", q, q, false); } else { sync_deque<XM> q; mixed<NB, NB, XM>("sync_deque of a move-only type", q, q, false); } }
// an element's copy throws: the queue and the element stay as they were
SCENARIO(mixed_throwing, F_FAULT) { if (chance(50)) { sync_queue<XC> q; mixed<NA, NA, XC>("sync_queue of a type whose copies throw", q, q, true); } else { sync_deque<XC> q; mixed<NB, NB, XC>("sync_deque of a type whose copies throw", q, q, true); } }
SCENARIO(adaptors_move_only, F_SLOW) { if (chance(50)) { queue_adaptor<sync_queue<XM> > a; queue_base<XM>& b = a; mixed<NA, NA, XM>("queue_adaptor of a move-only type", b, b, false); } else { deque_adaptor<sync_deque<XM> > a; deque_base<XM>& b = a; mixed<NB, NB, XM>("deque_adaptor of a move-only type", b, b, false); } }
// other containers
SCENARIO(containers, F_SLOW) { if (chance(50)) { sync_queue<XB, std::deque<XB> > q; mixed<NA, NA, XB>("sync_queue over std::deque", q, q, false); } else { sync_deque<XB, std::deque<XB> > q; mixed<NB, NB, XB>("sync_deque over std::deque", q, q, false); } }

// Small: consumers blocked first, then exactly as many elements.
template<class N, class V, class Q> void handoff(const char* what, Q& q) {
  QRun r(what, ~0ull); vt_on_idle(&QRun::idle, &r); Par p; int nc = 1 + vt_rnd(3), np = 1 + vt_rnd(2);
  for (int i = 0; i < nc; ++i) p.go([&] { int f = vt_rnd(3); do_pull<N, V>(r, q, f == 2 ? 4 : f); });
  if (chance(60)) vt_settle();
  for (int i = 0; i < np; ++i) p.go([&, i] { for (int j = i; j < nc; j += np) do_push<N, V>(r, q, vt_rnd(4) * 2, r.fresh(), false); });
  vt_settle(); end_it(r, q, p); r.check(Fifo()); vt_on_idle(0, 0);
}
SCENARIO(handoff, F_HOT) { if (chance(50)) { sync_queue<XB> q; handoff<NA, XB>("sync_queue", q); } else { sync_deque<XB> q; handoff<NB, XB>("sync_deque", q); } }
// closing wakes everybody
SCENARIO(close_wakes, F_HOT) { sync_queue<int> q; sync_deque<int> d; bool dq = chance(50); QRun r(dq ? "sync_deque" : "sync_queue", ~0ull); vt_on_idle(&QRun::idle, &r); Par p; int n = 1 + vt_rnd(3);
  for (int i = 0; i < n; ++i) p.go([&] { int f = vt_rnd(3); f = f == 2 ? 4 : f; QR x = dq ? do_pull<NB, int>(r, d, f) : do_pull<NA, int>(r, q, f); VT_CHECK(x == CLOSED, "status", "pull on an empty closed queue: %s", qr_name[x]); });
  if (chance(50)) vt_settle(); if (dq) end_it(r, d, p); else end_it(r, q, p); r.check(Fifo()); vt_on_idle(0, 0); }

// operators
SCENARIO(operators, F_SLOW) { QRun r("operators", ~0ull); sync_queue<XB> q; sync_deque<XB> d; Par p; int n = 1 + vt_rnd(4);
  p.go([&] { for (int i = 0; i < n; ++i) { XB v(i); qpay[i].bump(); if (chance(50)) { q << v; VT_CHECK(El<XB>::id(v) == i, "element", "<< of an lvalue changed it"); } else q << boost::move(v); } });
  p.go([&] { for (int i = 0; i < n; ++i) { XB v(32 + i); qpay[32 + i].bump(); if (chance(50)) { d << v; VT_CHECK(El<XB>::id(v) == 32 + i, "element", "<< of an lvalue changed it"); } else d << boost::move(v); } });
  for (int i = 0; i < n; ++i) { XB v; q >> v; VT_CHECK(pulled<XB>(r, v) == i, "order", ">> out of order"); d >> v; VT_CHECK(pulled<XB>(r, v) == 32 + i, "order", ">> out of order"); vt_count("pulled", 2); }
  p.join(); q.close(); d.close(); int e = 0; XB v(7); try { q << v; } catch (sync_queue_is_closed&) { ++e; } try { d << boost::move(v); } catch (sync_queue_is_closed&) { ++e; } VT_CHECK(e == 2 && El<XB>::id(v) == 7, "status", "<< into a closed queue"); try { q >> v; } catch (sync_queue_is_closed&) { ++e; } VT_CHECK(e == 3, "status", ">> from an empty closed queue"); }

// An interrupted pull takes nothing.
SCENARIO(interrupted, 0) { sync_queue<int> q; sync_deque<int> d; bool dq = chance(50); QRun r(dq ? "sync_deque" : "sync_queue", ~0ull); vt_on_idle(&QRun::idle, &r); int n = 1 + vt_rnd(3); boost::thread t[3];
  for (int i = 0; i < n; ++i) t[i] = boost::thread([&] { for (int k = 0; k < 2; ++k) { int f = vt_rnd(3); f = f == 2 ? 4 : f; QR x = dq ? do_pull<NB, int>(r, d, f) : do_pull<NA, int>(r, q, f); if (x == CLOSED) break; } });
  Par p; p.go([&] { for (int i = 0; i < n; ++i) { if (chance(40)) vt_settle(); if (dq) do_push<NB, int>(r, d, vt_rnd(8), r.fresh(), false); else do_push<NA, int>(r, q, vt_rnd(8), r.fresh(), false); } });
  for (int i = 0; i < n; ++i) { if (chance(40)) vt_settle(); t[i].interrupt(); }
  vt_settle(); if (dq) end_it(r, d, p); else end_it(r, q, p); for (int i = 0; i < n; ++i) t[i].join();
  for (;;) { QR s = dq ? do_pull<NB, int>(r, d, 2) : do_pull<NA, int>(r, q, 2); if (s == CLOSED) break; }
  r.check(Fifo()); VT_CHECK(r.pushed == r.pulled, "lost", "%ld pushed, %ld pulled", r.pushed, r.pulled); vt_on_idle(0, 0); }

// No memory while pushing: nothing changes.
SCENARIO(no_memory, F_FAULT | F_SLOW) { sync_queue<int> q; sync_deque<int> d; bool dq = chance(50); int n = vt_rnd(9); for (int i = 0; i < n; ++i) { if (dq) d.push_back(i); else q.push(i); } vt_fail_new(1); bool threw = false; int x = 100; try { if (dq) switch (vt_rnd(4)) { case 0: d.push_back(x); break; case 1: d.try_push_back(100); break; case 2: d.wait_push_back(x); break; default: d.nonblocking_push_back(x); } else switch (vt_rnd(4)) { case 0: q.push(x); break; case 1: q.try_push(100); break; case 2: q.wait_push(x); break; default: q.nonblocking_push(x); } } catch (std::bad_alloc&) { threw = true; vt_count("allocation_failures", 1); } vt_fail_new(0);
  size_t want = n + !threw; VT_CHECK((dq ? d.size() : q.size()) == want, "lost", "size is wrong after a failed push"); for (size_t i = 0; i < want; ++i) { int y = -1; if (dq) d.pull_front(y); else q.pull(y); VT_CHECK(y == (i < (size_t)n ? (int)i : 100), "order", "wrong element after a failed push"); } VT_CHECK(dq ? d.empty() : q.empty(), "lost", "not empty"); }
// the rest can be taken as a whole
template<class T, class C> queue_op_status NA_try(sync_queue<T, C>& q, T& x) { return q.try_pull(x); }
template<class T, class C> queue_op_status NA_try(sync_deque<T, C>& q, T& x) { return q.try_pull_front(x); }
template<class Q, class PU, class PL> void taken_out(const char* what, PU push, PL pull) { Q q; int n = vt_rnd(6), next = 0, first = 0; for (int rep = 0; rep < 3; ++rep) { for (int i = 0; i < n; ++i) push(q, next++); int k = n ? vt_rnd(n + 1) : 0; for (int i = 0; i < k; ++i) VT_CHECK(pull(q) == first++, "order", "%s: pulled out of order", what); VT_CHECK((int)q.size() == next - first, "lost", "%s: size %d", what, (int)q.size());
    if (chance(60)) { typename Q::underlying_queue_type u = q.underlying_queue(); VT_CHECK((int)u.size() == next - first, "lost", "%s: underlying_queue size", what); for (; first < next; ++first) { VT_CHECK(u.front() == first, "order", "%s: underlying_queue order", what); u.pop_front(); } VT_CHECK(u.empty() && q.empty() && q.size() == 0, "lost", "%s: not empty after underlying_queue()", what); int x; VT_CHECK(NA_try(q, x) == queue_op_status::empty, "status", "%s: an element came out of an emptied queue", what); } n = vt_rnd(4); } }
SCENARIO(underlying, F_SLOW) { auto pu = [](auto& q, int x) { q.push(x); }; auto pb = [](auto& q, int x) { q.push_back(x); }; auto pl = [](auto& q) { int x; q.pull(x); return x; }; auto pf = [](auto& q) { int x; q.pull_front(x); return x; };
  switch (vt_rnd(4)) { case 0: taken_out<sync_queue<int, std::deque<int> > >("sync_queue", pu, pl); break; case 1: taken_out<sync_queue<int> >("sync_queue", pu, pl); break; case 2: taken_out<sync_deque<int> >("sync_deque", pb, pf); break; default: taken_out<sync_deque<int, std::deque<int> > >("sync_deque", pb, pf); } vt_count("underlying", 1); }

// Native too: producers and consumers of many elements; each exactly once, in order per producer.
template<class N, class V, class Q> void conserve(const char* what, Q& q, bool bounded) {
  int K = vt_virtual() ? 1 + vt_rnd(8) : 100; const int np = 1 + vt_rnd(2), nc = 1 + vt_rnd(2); QRun r(what, bounded ? 1 : ~0ull); Par prod, cons; struct C { int seen[2], last[2]; } c[2];
  for (int j = 0; j < nc; ++j) cons.go([&, j] { C& m = c[j]; m.seen[0] = m.seen[1] = 0; m.last[0] = m.last[1] = -1; for (;;) { V v = El<V>::make(999); int f = vt_rnd(5); QR s; try { s = N::pull(q, f, v); } catch (sync_queue_is_closed&) { s = CLOSED; } if (s == CLOSED) break; if (s != OK) { vt_yield(); continue; } int id = El<V>::id(v); VT_CHECK(id >= 0 && id < 2 * 256, "element", "%s: broken element", what); int w = id >> 8, k = id & 255; VT_CHECK(k > m.last[w], "order", "%s: elements of one producer out of order", what); m.last[w] = k; m.seen[w]++; vt_count("pulled", 1); } });
  for (int i = 0; i < np; ++i) prod.go([&, i] { for (int k = 0; k < K; ++k) { V v = El<V>::make(i << 8 | k); for (;;) { QR s = PushSel<N, V, El<V>::copy, El<V>::move>::go(q, vt_rnd(8), v); if (s == OK) break; VT_CHECK(s == BUSY || (bounded && s == FULL), "status", "%s: push: %s", what, qr_name[s]); vt_yield(); } vt_count("pushed", 1); } });
  prod.join(); q.close(); cons.join(); for (int i = 0; i < np; ++i) { int s = 0; for (int j = 0; j < nc; ++j) s += c[j].seen[i]; VT_CHECK(s == K, "lost", "%s: %d of %d elements came out", what, s, K); }
}
SCENARIO(conserve, F_NATIVE | F_SLOW) { switch (vt_rnd(3)) { case 0: { sync_queue<XB> q; conserve<NA, XB>("sync_queue", q, false); break; } case 1: { sync_deque<XM> q; conserve<NB, XM>("sync_deque", q, false); break; } default: { sync_deque<int> q; conserve<NB, int>("sync_deque", q, false); } } }
