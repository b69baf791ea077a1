// C25: timed queue
#include "q.hpp"
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
namespace c = boost::chrono;

static i64 tq_time[NIDS], tq_top[NIDS];   // of each element, on the queue's clock (bounds, when pushed with a duration)
struct TOp { int kind, form, val, res; bool blocking; i64 lo, hi; };   // lo, hi: smallest and largest clock reading during the call
struct TQ { std::set<int> d; bool closed; TQ() : closed(false) {}
  i64 min() const { i64 m = INT64_MAX; for (int x : d) if (tq_top[x] < m) m = tq_top[x]; return m; }
  bool apply(TOp const& o) { switch (o.kind) {
    case PUSH: switch (o.res) { case OK: if (closed) return false; d.insert(o.val); return true; default: return closed; }
    case PULL: switch (o.res) { case OK: { if (!d.count(o.val) || tq_time[o.val] > min() || tq_time[o.val] > o.hi) return false; d.erase(o.val); return true; } case EMPTY: case TIMEOUT: return d.empty() && !closed; case NOTREADY: return !d.empty() && !closed && min() > o.lo; case CLOSED: return closed && (d.empty() || min() > o.lo); default: return true; }
    case CLOSE: closed = true; return true;
    case SIZE: return (size_t)o.res == d.size(); case ISEMPTY: return (bool)o.res == d.empty(); case ISFULL: return !o.res; default: return (bool)o.res == closed; } }
  std::string hash() const { std::string s; for (int x : d) { s += (char)x; } s += closed ? 'c' : 'o'; return s; } };
struct TRun { Hist<TOp> h; std::set<int> in; int bal[64] = {}; bool closed; Clk clk; int next; bool steps; const char* what;
  TRun(const char* w, Clk k) : closed(false), clk(k), next(0), steps(false), what(w) { RealTrack::reset(); if (vt_virtual()) for (int i = 0; i < 64; ++i) qpay[i] = Pay(); }
  ~TRun() { Quiet q; std::set<int>().swap(in); }
  int fresh() { Quiet q; return next++; }
  i64 hi() { Quiet q; i64 n = clk_now(clk); if (clk == REAL && steps) { RealTrack::see(); n = RealTrack::I().max; } return n; }
  size_t call(int kind, int form, int val, bool b) { TOp o = { kind, form, val, -1, b, steps ? INT64_MIN : clk_now(clk), 0 }; vt_count(kind == PUSH ? "push_calls" : kind == PULL ? "pull_calls" : "other_calls", 1); return h.call(o); }
  void ret(size_t i, int res, int val) { Quiet q; TOp o = h.h[i].op; o.res = res; o.val = val; o.hi = hi(); h.ret(i, o); if (res == OK && o.kind == PUSH && ++bal[val] == 1) in.insert(val); if (res == OK && o.kind == PULL && --bal[val] == 0) in.erase(val); if (o.kind == CLOSE) closed = true;
    if (o.kind == PUSH) vt_count(res == OK ? "pushed" : "push_closed", 1); else if (o.kind == PULL) { static const char* n[] = { "pulled", "found_empty", "found_full", "pull_closed", "found_busy", "timeouts", "not_ready", "element_threw", "interrupted" }; vt_count(n[res], 1); } }
  static void idle(void* p) { TRun* r = (TRun*)p; i64 best = INT64_MAX; for (int x : r->in) if (tq_top[x] < best) best = tq_top[x]; i64 now = clk_now(r->clk), since = now - best; if (r->steps && r->clk == REAL) { i64 s = (i64)vt_now() - RealTrack::I().at; if (RealTrack::I().steps && s < since) since = s; } if (r->clk == REAL && vt_last_jump()) { i64 s = (i64)vt_now() - (i64)vt_last_jump(); if (s < since) since = s; }
    bool due = best <= now && since >= (r->steps || (r->clk == REAL && !vt_exact()) ? 102000000 : 1000000);
    for (size_t i = 0; i < r->h.h.size(); ++i) { HOp<TOp>& o = r->h.h[i]; if (o.ret != ~0ull) continue; if (o.op.kind != PULL) vt_fail("stranded", "%s: an operation that never waits is blocked", r->what); if (due || r->closed) vt_fail("late", "%s: a pull (form %d) stays blocked although %s", r->what, o.op.form, due ? "an element is due" : "the queue is closed"); } }
  void check() { Quiet q; Lin<TQ, TOp> l; l.h = h.h; for (size_t i = 0; i < h.h.size(); ++i) { HOp<TOp>& o = h.h[i]; if (o.ret == ~0ull) vt_fail("history", "unfinished operation");
      if (o.op.kind == PULL && o.op.res == BUSY) { bool other = false; for (size_t j = 0; j < h.h.size(); ++j) if (h.h[j].tid != o.tid && h.h[j].call <= o.ret && h.h[j].ret >= o.call) other = true; if (!other) vt_fail("status", "%s: 'busy' although no other thread used the queue during the call", what); } }
    if (!l.check(TQ())) vt_fail("not_linearizable", "%s: no sequential order explains the history:%s", what, dump().c_str()); }
  std::string dump() { std::string s; for (size_t i = 0; i < h.h.size(); ++i) { HOp<TOp>& o = h.h[i]; char b[160]; static const char* kn[] = { "push", "pull", "close", "size", "empty", "full", "closed" }; bool el = o.op.kind <= PULL && o.op.val >= 0; snprintf(b, sizeof b, " T%d:%s/%d(%d due %lld)=%s%d@[%llu,%llu]clock[%lld,%lld]", o.tid, kn[o.op.kind], o.op.form, o.op.val, el ? (long long)tq_time[o.op.val] : 0, o.op.kind <= PULL ? o.op.res < 0 ? "..." : qr_name[o.op.res] : "", o.op.kind <= PULL ? 0 : o.op.res, (unsigned long long)o.call, (unsigned long long)o.ret, (long long)o.op.lo, (long long)o.op.hi); s += b; } return s.substr(0, 3000); }
};
static i64 pick_off() { static const i64 v[] = { -2000000000ll, -1000, 0, 0, 1000, 1000000, 1000000, 2000000, 50000000, 50000000, 99999000, 150000000, 250000000, 1000000000, 3000000000ll }; return v[vt_rnd(sizeof v / sizeof *v)]; }
template<class C> struct ClkOf; template<> struct ClkOf<c::steady_clock> { static const Clk k = STEADY; }; template<> struct ClkOf<c::system_clock> { static const Clk k = REAL; };
template<class V, class Q> QR t_push(TRun& r, Q& q, int id, i64 off) {
  typedef typename Q::clock C; typedef typename C::time_point TP; V v = El<V>::make(id); if (id < 64) qpay[id].bump(); int f = vt_rnd(8); bool dur = !r.steps && (f & 1), rv = f & 2, tr = f & 4; QR res;
  i64 t = clk_now(r.clk) + off; t = fldiv(t, 1000) * 1000; if (dur) t = clk_now(r.clk) + fldiv(off, 1000) * 1000; { Quiet qq; tq_time[id] = t; tq_top[id] = dur ? INT64_MAX : t; }
  size_t i = r.call(PUSH, f, id, false);
  try {
    if (dur) { c::microseconds d(fldiv(off, 1000)); if (tr) res = st(rv ? q.try_push(boost::move(v), d) : q.try_push((V const&)v, d)); else { if (rv) q.push(boost::move(v), d); else q.push((V const&)v, d); res = OK; } }
    else { TP tp(c::duration_cast<typename C::duration>(c::nanoseconds(t))); if (tr) res = st(rv ? q.try_push(boost::move(v), tp) : q.try_push((V const&)v, tp)); else { if (rv) q.push(boost::move(v), tp); else q.push((V const&)v, tp); res = OK; } }
  } catch (sync_queue_is_closed&) { VT_CHECK(!tr, "status", "try_push threw"); res = CLOSED; }
  if (dur) { Quiet qq; tq_top[id] = clk_now(r.clk) + fldiv(off, 1000) * 1000; }
  r.ret(i, res, id); VT_CHECK(res == OK || res == CLOSED, "status", "push: %s", qr_name[res]); if (!rv) VT_CHECK(El<V>::id(v) == id, "element", "the caller's element was changed by a push"); return res; }
// forms 0..4 as in q.hpp, 5 pull_for, 6 pull_until
template<class V, class Q> QR t_pull(TRun& r, Q& q, int f) {
  typedef typename Q::clock C; V v = El<V>::make(999); QR res = OK; int id = -1; size_t i; bool past = false; i64 dl = 0; Clk dk = STEADY; u64 real0 = RealTrack::I().steps;
  if (f < 5) { i = r.call(PULL, f, -1, f != 2 && f != 3); try { res = NA::pull(q, f, v); } catch (sync_queue_is_closed&) { VT_CHECK(f <= 1, "status", "a pull that reports by status threw"); res = CLOSED; } catch (thread_interrupted&) { res = INTR; } }
  else { i64 off = fldiv(pick_off(), 1000) * 1000; past = off <= 0; i = r.call(PULL, f, -1, false);
    try { if (f == 5) { dl = (i64)vt_now() + off; int k = vt_rnd(3); if (k == 0) res = st(q.pull_for(c::nanoseconds(off), v)); else if (k == 1) res = st(q.pull_for(c::microseconds(off / 1000), v)); else { off = fldiv(off, 1000000); dl = (i64)vt_now() + off * 1000000; past = off <= 0; res = st(q.pull_for(c::milliseconds(off), v)); } }
      else { dk = r.clk; dl = clk_now(dk) + off; dl = fldiv(dl, 1000) * 1000; if (chance(50)) res = st(q.pull_until(c::time_point<C, c::microseconds>(c::microseconds(dl / 1000)), v)); else res = st(q.pull_until(typename C::time_point(c::duration_cast<typename C::duration>(c::nanoseconds(dl))), v)); } } catch (thread_interrupted&) { res = INTR; }
    if (res == TIMEOUT || res == NOTREADY) { i64 n = clk_now(dk); if (dk == REAL) n = r.hi(); VT_CHECK(past || n >= dl, "early", "%s: a timed pull reported %s %lld ns before its deadline", r.what, qr_name[res], (long long)(dl - n)); vt_count("deadlines_reached", 1); }
    if (!past && vt_exact() && vt_virtual() && real0 == RealTrack::I().steps && !(dk == REAL && r.steps)) VT_CHECK(clk_now(dk) - dl <= 1000000, "late", "%s: a timed pull returned %s %lld ns after its deadline", r.what, qr_name[res], (long long)(clk_now(dk) - dl));
    vt_count("timed_pulls", 1); }
  if (res == OK) { id = El<V>::id(v); VT_CHECK(id >= 0 && id < 64, "element", "pulled a broken element"); VT_CHECK(qpay[id].a == 1 && qpay[id].b == 1, "element", "element %d came out twice, or not as it was put in", id); qpay[id].bump(); }
  r.ret(i, res, id); if (res == OK) VT_CHECK(tq_time[id] <= r.h.h[i].op.hi, "early", "%s: element %d came out %lld ns before its time", r.what, id, (long long)(tq_time[id] - r.h.h[i].op.hi));
  bool ok = res == OK || res == CLOSED || (res == INTR && f != 2 && f != 3); if (f == 2) ok = ok || res == EMPTY || res == NOTREADY; if (f == 3) ok = ok || res == EMPTY || res == NOTREADY || res == BUSY; if (f >= 5) ok = ok || res == TIMEOUT || res == NOTREADY; VT_CHECK(ok, "status", "%s: pull form %d returned %s", r.what, f, qr_name[res]);
  if (res != OK) VT_CHECK(El<V>::id(v) == 999, "element", "the caller's element was changed by a pull that failed"); return res; }
template<class Q> void t_look(TRun& r, Q& q) { size_t i; switch (vt_rnd(4)) { case 0: i = r.call(SIZE, 0, 0, false); r.ret(i, (int)q.size(), 0); break; case 1: i = r.call(ISEMPTY, 0, 0, false); r.ret(i, q.empty(), 0); break; case 2: i = r.call(ISFULL, 0, 0, false); r.ret(i, q.full(), 0); break; default: i = r.call(ISCLOSED, 0, 0, false); r.ret(i, q.closed(), 0); } }
template<class Q> void t_close(TRun& r, Q& q) { size_t i = r.call(CLOSE, 0, 0, false); q.close(); r.ret(i, 0, 0); vt_count("closes", 1); }
// all elements still there come out once their time has come
template<class V, class Q> void t_drain(TRun& r, Q& q) { for (int k = 0; !r.in.empty() && k < 200; ++k) { vt_sleep(100 * MS); if (r.steps && k > 100) { i64 m = 0; for (int x : r.in) if (tq_time[x] > m) m = tq_time[x]; i64 d = m - clk_now(r.clk); if (d > 0) step_clock(d + 1000); } while (t_pull<V>(r, q, 2) == OK) ; } VT_CHECK(r.in.empty(), "lost", "%s: %zu elements never came out:%s", r.what, r.in.size(), r.dump().c_str()); VT_CHECK(q.empty() && q.size() == 0, "lost", "not empty"); }

template<class V, class C> void mixed(const char* what, bool steps) {
  sync_timed_queue<V, C> q; TRun r(what, ClkOf<C>::k); r.steps = steps; vt_on_idle(&TRun::idle, &r); Par p; int n = 2 + vt_rnd(3); bool early = chance(30);
  for (int i = 0; i < n; ++i) { int k = 1 + vt_rnd(5), bias = vt_rnd(101), naps = chance(50) ? 0 : vt_rnd(60);
    p.go([&, k, bias, naps] { for (int j = 0; j < k; ++j) { unsigned x = vt_rnd(100); if (vt_rnd(100) < (unsigned)naps) vt_sleep((1 + vt_rnd(40)) * 5 * MS); if (x < 8) t_look(r, q); else if (vt_rnd(100) < (unsigned)bias) t_push<V>(r, q, r.fresh(), pick_off()); else t_pull<V>(r, q, vt_rnd(7)); } }); }
  if (early) p.go([&] { for (unsigned i = vt_rnd(5); i-- > 0;) vt_sleep(vt_rnd(3) * 40 * MS); t_close(r, q); });
  if (steps) stepper(p, 1 + vt_rnd(4));
  if (chance(50)) vt_sleep(vt_rnd(5) * 1000 * MS); vt_settle(); t_close(r, q); p.join(); t_look(r, q); t_drain<V>(r, q); t_push<V>(r, q, r.fresh(), 0); r.check(); vt_on_idle(0, 0); vt_count("histories", 1); }
SCENARIO(mixed_steady, 0) { if (chance(50)) mixed<XB, c::steady_clock>("sync_timed_queue", false); else mixed<int, c::steady_clock>("sync_timed_queue", false); }
SCENARIO(mixed_system, 0) { mixed<XB, c::system_clock>("sync_timed_queue of system_clock", false); }
SCENARIO(mixed_stepped, 0) { if (chance(60)) mixed<XB, c::system_clock>("sync_timed_queue of system_clock", true); else mixed<int, c::steady_clock>("sync_timed_queue", true); }
// the earliest element changes while consumers wait
SCENARIO(new_earliest, F_HOT) { sync_timed_queue<XB> q; TRun r("sync_timed_queue", STEADY); vt_on_idle(&TRun::idle, &r); Par p; int n = 1 + vt_rnd(3), m = n + vt_rnd(2); 
  for (int i = 0; i < n; ++i) p.go([&] { int f = vt_rnd(4); QR x = t_pull<XB>(r, q, f == 2 ? 4 : f == 3 ? 5 + vt_rnd(2) : f); if (x == TIMEOUT || x == NOTREADY) t_pull<XB>(r, q, 4); });
  p.go([&] { i64 off = 400000000; for (int i = 0; i < m; ++i) { if (chance(60)) vt_settle(); if (chance(30)) vt_sleep(10 * MS); t_push<XB>(r, q, r.fresh(), off); if (chance(80)) off = off * 2 / 3; else off = pick_off(); } });
  vt_sleep(5000 * MS); vt_settle(); t_close(r, q); p.join(); t_drain<XB>(r, q); r.check(); vt_on_idle(0, 0); vt_count("histories", 1); }
SCENARIO(close_wakes, F_HOT) { sync_timed_queue<int> q; TRun r("sync_timed_queue", STEADY); vt_on_idle(&TRun::idle, &r); Par p; int n = 1 + vt_rnd(3); if (chance(50)) t_push<int>(r, q, r.fresh(), 3000000000ll);
  for (int i = 0; i < n; ++i) p.go([&] { int f = vt_rnd(4); t_pull<int>(r, q, f == 2 ? 4 : f == 3 ? 5 + vt_rnd(2) : f); }); if (chance(50)) vt_settle(); t_close(r, q); p.join(); t_drain<int>(r, q); r.check(); vt_on_idle(0, 0); }
SCENARIO(interrupted, 0) { sync_timed_queue<int> q; TRun r("sync_timed_queue", STEADY); vt_on_idle(&TRun::idle, &r); int n = 1 + vt_rnd(3); boost::thread t[3];
  for (int i = 0; i < n; ++i) t[i] = boost::thread([&] { for (int k = 0; k < 2; ++k) { int f = vt_rnd(4); if (t_pull<int>(r, q, f == 2 ? 4 : f == 3 ? 5 + vt_rnd(2) : f) == CLOSED) break; } });
  Par p; p.go([&] { for (int i = 0; i < n; ++i) { if (chance(40)) vt_settle(); t_push<int>(r, q, r.fresh(), pick_off()); } }); for (int i = 0; i < n; ++i) { if (chance(40)) vt_settle(); if (chance(30)) vt_sleep(vt_rnd(3) * 100 * MS); t[i].interrupt(); }
  p.join(); vt_sleep(vt_rnd(3) * 1000 * MS); t_close(r, q); for (int i = 0; i < n; ++i) t[i].join(); t_drain<int>(r, q); r.check(); vt_on_idle(0, 0); }
SCENARIO(conserve, F_NATIVE | F_SLOW) { sync_timed_queue<XB> q; int K = vt_virtual() ? 1 + vt_rnd(8) : 40; Par prod, cons; int seen[2][2] = { { 0, 0 }, { 0, 0 } };
  for (int j = 0; j < 2; ++j) cons.go([&, j] { for (;;) { XB v; int f = vt_rnd(7); QR s; try { s = f == 5 ? st(q.pull_for(c::milliseconds(1), v)) : f == 6 ? st(q.pull_until(c::steady_clock::now() + c::milliseconds(1), v)) : NA::pull(q, f, v); } catch (sync_queue_is_closed&) { s = CLOSED; } if (s == CLOSED) break; if (s != OK) { vt_yield(); continue; } int id = El<XB>::id(v); VT_CHECK(id >= 0 && id < 512, "element", "broken element"); seen[j][id >> 8]++; vt_count("pulled", 1); } });
  for (int i = 0; i < 2; ++i) prod.go([&, i] { for (int k = 0; k < K; ++k) { XB v(i << 8 | k); c::microseconds d(vt_rnd(2000)); if (chance(50)) q.push(v, d); else q.push(boost::move(v), c::steady_clock::now() + d); vt_count("pushed", 1); } });
  prod.join(); vt_sleep(5 * MS); q.close(); cons.join(); XB v; for (int k = 0; k < 100 && !q.empty(); ++k) { vt_sleep(1 * MS); while (q.try_pull(v) == queue_op_status::success) seen[0][El<XB>::id(v) >> 8]++; } for (int i = 0; i < 2; ++i) VT_CHECK(seen[0][i] + seen[1][i] == K, "lost", "%d of %d elements came out", seen[0][i] + seen[1][i], K); }
// the clock is set back around the deadline of a timed pull
SCENARIO(set_back, F_HOT) { sync_timed_queue<XB, c::system_clock> q; TRun r("sync_timed_queue of system_clock", REAL); r.steps = true; vt_on_idle(&TRun::idle, &r); Par p; bool el = chance(50); if (chance(50)) { t_push<XB>(r, q, r.fresh(), 0); t_pull<XB>(r, q, 4); }
  p.go([&] { t_pull<XB>(r, q, 5 + vt_rnd(2)); }); if (el) p.go([&] { t_push<XB>(r, q, r.fresh(), 50000000); });
  p.go([&] { vt_sleep(vt_rnd(3) * 50 * MS); for (unsigned i = vt_rnd(20); i-- > 0;) vt_point(); step_clock(-(i64)(1 + vt_rnd(2)) * 1000000000ll); vt_sleep(200 * MS); step_clock(10000000000ll); });
  vt_sleep(6000 * MS); t_close(r, q); p.join(); t_drain<XB>(r, q); r.check(); vt_on_idle(0, 0); }
