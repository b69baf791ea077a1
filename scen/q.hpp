// Common machinery of the queue scenarios: every push and pull form of every queue, recorded as a history.
#ifndef VT_Q_HPP
#define VT_Q_HPP
#include "t.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/concurrent_queues/queue_op_status.hpp>
using namespace boost;
enum QR { OK, EMPTY, FULL, CLOSED, BUSY, TIMEOUT, NOTREADY, THREW, INTR, WOULDBLOCK };
static const char* qr_name[] = { "success", "empty", "full", "closed", "busy", "timeout", "not_ready", "threw", "interrupted", "false" };
inline QR st(queue_op_status s) { switch (s) { case queue_op_status::success: return OK; case queue_op_status::empty: return EMPTY; case queue_op_status::full: return FULL; case queue_op_status::closed: return CLOSED; case queue_op_status::busy: return BUSY; case queue_op_status::timeout: return TIMEOUT; case queue_op_status::not_ready: return NOTREADY; } vt_fail("status", "unknown status"); }
enum QK { PUSH, PULL, CLOSE, SIZE, ISEMPTY, ISFULL, ISCLOSED };
struct QOp { int kind, form, val, res; bool blocking; };
// --- element types: an id, and whether the element is whole
static const int NIDS = 512;
static Pay qpay[NIDS];                 // written before the push, read after the pull: carries happens-before
struct XI { int v; XI() : v(-1) {} };  // (plain)
struct XM { long* p; XM() : p(0) {} explicit XM(int i) : p(new long(i)) {} XM(XM&& o) noexcept : p(o.p) { o.p = 0; } XM& operator=(XM&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; } XM(XM const&) = delete; XM& operator=(XM const&) = delete; ~XM() { delete p; } bool operator<(XM const& o) const { return *p < *o.p; } };
struct Oops {};
static int xc_bomb[64];                // per thread: the n-th copy throws
// copyable only; its copies can throw
struct XC { long* p; XC() : p(0) {} explicit XC(int i) : p(new long(i)) {} static void boom() { int t = vt_tid() & 63; if (xc_bomb[t] && --xc_bomb[t] == 0) { vt_point(); throw Oops(); } }
  XC(XC const& o) : p(0) { boom(); if (o.p) p = new long(*o.p); } XC& operator=(XC const& o) { boom(); if (this != &o) { long* q = o.p ? new long(*o.p) : 0; delete p; p = q; } return *this; } ~XC() { delete p; } bool operator<(XC const& o) const { return *p < *o.p; } };
// copyable and movable
struct XB { long* p; long w; XB() : p(0), w(0) {} explicit XB(int i) : p(new long(i)), w(i) {} XB(XB const& o) : p(o.p ? new long(*o.p) : 0), w(o.w) {} XB(XB&& o) noexcept : p(o.p), w(o.w) { o.p = 0; o.w = 0; } XB& operator=(XB const& o) { if (this != &o) { long* q = o.p ? new long(*o.p) : 0; delete p; p = q; w = o.w; } return *this; } XB& operator=(XB&& o) noexcept { if (this != &o) { delete p; p = o.p; w = o.w; o.p = 0; o.w = 0; } return *this; } ~XB() { delete p; } bool operator<(XB const& o) const { return *p < *o.p; } };
template<class V> struct El;
template<> struct El<int> { enum { copy = 1, move = 1, throws = 0 }; static int make(int i) { return i; } static int id(int v) { return v; } };
template<> struct El<XM> { enum { copy = 0, move = 1, throws = 0 }; static XM make(int i) { return XM(i); } static int id(XM const& v) { return v.p ? (int)*v.p : -1; } };
template<> struct El<XC> { enum { copy = 1, move = 0, throws = 1 }; static XC make(int i) { return XC(i); } static int id(XC const& v) { return v.p ? (int)*v.p : -1; } };
template<> struct El<XB> { enum { copy = 1, move = 1, throws = 0 }; static XB make(int i) { return XB(i); } static int id(XB const& v) { if (v.p && *v.p != v.w) return -2; return v.p ? (int)*v.p : -1; } };

// --- naming: push/pull (A) or push_back/pull_front (B)
#define QNAMES(N, PU, PL, TPU, TPL, NPU, NPL, WPU, WPL) \
struct N { \
  template<class Q, class V> static QR pushc(Q& q, int f, V const& v) { switch (f) { case 0: q.PU(v); return OK; case 1: return st(q.TPU(v)); case 2: return st(q.NPU(v)); default: return st(q.WPU(v)); } } \
  template<class Q, class V> static QR pushm(Q& q, int f, V& v) { switch (f) { case 0: q.PU(boost::move(v)); return OK; case 1: return st(q.TPU(boost::move(v))); case 2: return st(q.NPU(boost::move(v))); default: return st(q.WPU(boost::move(v))); } } \
  template<class Q, class V> static QR pull(Q& q, int f, V& v) { switch (f) { case 0: q.PL(v); return OK; case 1: v = q.PL(); return OK; case 2: return st(q.TPL(v)); case 3: return st(q.NPL(v)); default: return st(q.WPL(v)); } } \
};
QNAMES(NA, push, pull, try_push, try_pull, nonblocking_push, nonblocking_pull, wait_push, wait_pull)
QNAMES(NB, push_back, pull_front, try_push_back, try_pull_front, nonblocking_push_back, nonblocking_pull_front, wait_push_back, wait_pull_front)
// push: forms 0 throwing, 1 try, 2 nonblocking, 3 wait; +4 = the rvalue variant; 8/9 = operator<<
// pull: forms 0 throwing by reference, 1 by value, 2 try, 3 nonblocking, 4 wait; 5 = operator>>
template<class N, class V, bool C, bool M> struct PushSel;
template<class N, class V> struct PushSel<N, V, true, true> { template<class Q> static QR go(Q& q, int f, V& v) { return f & 4 ? N::pushm(q, f & 3, v) : N::pushc(q, f & 3, (V const&)v); } };
template<class N, class V> struct PushSel<N, V, true, false> { template<class Q> static QR go(Q& q, int f, V& v) { return N::pushc(q, f & 3, (V const&)v); } };
template<class N, class V> struct PushSel<N, V, false, true> { template<class Q> static QR go(Q& q, int f, V& v) { return N::pushm(q, f & 3, v); } };

// A model of the queue's contents that every history must be explained by.
struct Fifo { std::deque<int> d; bool closed; size_t cap; Fifo(size_t c = ~0ull) : closed(false), cap(c) {}
  bool apply(QOp const& o) { switch (o.kind) {
    case PUSH: switch (o.res) { case OK: if (closed || d.size() >= cap) return false; d.push_back(o.val); return true; case CLOSED: return closed; case FULL: return !closed && d.size() >= cap; default: return true; }
    case PULL: switch (o.res) { case OK: if (d.empty() || d.front() != o.val) return false; d.pop_front(); return true; case EMPTY: return d.empty() && !closed; case CLOSED: return d.empty() && closed; default: return true; }
    case CLOSE: closed = true; return true;
    case SIZE: return (size_t)o.res == d.size(); case ISEMPTY: return (bool)o.res == d.empty(); case ISFULL: return (bool)o.res == (d.size() >= cap); default: return (bool)o.res == closed; } }
  std::string hash() const { std::string s; for (int x : d) { s += (char)x; s += (char)(x >> 8); } s += closed ? 'c' : 'o'; return s; } };
struct MaxQ { std::multiset<int> d; bool closed; int (*key)(int); MaxQ(int (*k)(int)) : closed(false), key(k) {}
  bool apply(QOp const& o) { switch (o.kind) {
    case PUSH: switch (o.res) { case OK: if (closed) return false; d.insert(o.val); return true; case CLOSED: return closed; case FULL: return false; default: return true; }
    case PULL: switch (o.res) { case OK: { if (d.empty()) return false; for (int x : d) if (key(x) > key(o.val)) return false; std::multiset<int>::iterator i = d.find(o.val); if (i == d.end()) return false; d.erase(i); return true; } case EMPTY: return d.empty() && !closed; case CLOSED: return d.empty() && closed; case TIMEOUT: return d.empty() && !closed; default: return true; }
    case CLOSE: closed = true; return true;
    case SIZE: return (size_t)o.res == d.size(); case ISEMPTY: return (bool)o.res == d.empty(); case ISFULL: return !o.res; default: return (bool)o.res == closed; } }
  std::string hash() const { std::string s; for (int x : d) { s += (char)x; s += (char)(x >> 8); } s += closed ? 'c' : 'o'; return s; } };

// The record of one execution: history for the checker, and what is blocked.
struct QRun {
  Hist<QOp> h; long pushed, pulled; bool closed; size_t cap; const char* what; int next; int left;
  QRun(const char* w, size_t c) : pushed(0), pulled(0), closed(false), cap(c), what(w), next(0), left(0) { for (int i = 0; i < 64; ++i) xc_bomb[i] = 0; if (vt_virtual()) for (int i = 0; i < 64; ++i) qpay[i] = Pay(); }
  int fresh() { Quiet q; return next++; }
  size_t call(int kind, int form, int val, bool blocking) { QOp o = { kind, form, val, -1, blocking }; vt_count(kind == PUSH ? "push_calls" : kind == PULL ? "pull_calls" : "other_calls", 1); return h.call(o); }
  void ret(size_t i, int res, int val) { Quiet q; QOp o = h.h[i].op; o.res = res; o.val = val; h.ret(i, o); if (res == OK && o.kind == PUSH) pushed++; if (res == OK && o.kind == PULL) pulled++; if (o.kind == CLOSE) closed = true;
    if (o.kind == PUSH || o.kind == PULL) { if (res == OK) vt_count(o.kind == PUSH ? "pushed" : "pulled", 1); else if (res == CLOSED) vt_count(o.kind == PUSH ? "push_closed" : "pull_closed", 1); else if (res == EMPTY) vt_count("found_empty", 1); else if (res == FULL) vt_count("found_full", 1); else if (res == BUSY) vt_count("found_busy", 1); else if (res == THREW) vt_count("element_threw", 1); else if (res == INTR) vt_count("interrupted", 1); else if (res == TIMEOUT) vt_count("timeouts", 1); else if (res == NOTREADY) vt_count("not_ready", 1); } }
  // everything is blocked: is that right?
  static void idle(void* p) { QRun* r = (QRun*)p; long n = r->pushed - r->pulled; for (size_t i = 0; i < r->h.h.size(); ++i) { HOp<QOp>& o = r->h.h[i]; if (o.ret != ~0ull) continue;
      if (o.op.kind == PULL && (n > 0 || r->closed)) vt_fail("stranded", "%s: a pull (form %d) stays blocked although %ld elements are present%s", r->what, o.op.form, n, r->closed ? " and the queue is closed" : "");
      if (o.op.kind == PUSH && ((size_t)n < r->cap || r->closed)) vt_fail("stranded", "%s: a push (form %d) stays blocked although only %ld of %zu elements are present%s", r->what, o.op.form, n, r->cap, r->closed ? " and the queue is closed" : "");
      if (o.op.kind != PULL && o.op.kind != PUSH) vt_fail("stranded", "%s: an operation that never waits is blocked", r->what); } }
  template<class M> void check(M const& init) { Quiet q; 
    for (size_t i = 0; i < h.h.size(); ++i) { HOp<QOp>& o = h.h[i]; if (o.ret == ~0ull) vt_fail("history", "%s: unfinished operation", what);
      if ((o.op.kind == PUSH || o.op.kind == PULL) && (o.op.res == BUSY || o.op.res == WOULDBLOCK)) { bool other = false; for (size_t j = 0; j < h.h.size(); ++j) if (h.h[j].tid != o.tid && h.h[j].call <= o.ret && h.h[j].ret >= o.call) other = true; if (!other && o.op.res == BUSY) vt_fail("status", "%s: 'busy' although no other thread used the queue during the call", what); if (!other) o.op.res = o.op.kind == PUSH ? FULL : EMPTY; } }
    Lin<M, QOp> l; l.h = h.h; if (!l.check(init)) { std::string s; for (size_t i = 0; i < h.h.size(); ++i) { HOp<QOp>& o = h.h[i]; char b[120]; static const char* kn[] = { "push", "pull", "close", "size", "empty", "full", "closed" }; snprintf(b, sizeof b, " T%d:%s/%d(%d)=%s%d@[%llu,%llu]", o.tid, kn[o.op.kind], o.op.form, o.op.val, o.op.kind <= PULL ? qr_name[o.op.res] : "", o.op.kind <= PULL ? 0 : o.op.res, (unsigned long long)o.call, (unsigned long long)o.ret); s += b; } vt_fail("not_linearizable", "%s: no sequential order explains the history:%s", what, s.substr(0, 3000).c_str()); } }
};
inline void expect(QRun& r, bool ok, const char* form, QR res) { if (!ok) vt_fail("status", "%s: %s returned %s", r.what, form, qr_name[res]); }

// one push of a fresh element with the given form
template<class N, class V, class Q> QR do_push(QRun& r, Q& q, int form, int id, bool can_full, bool bomb = false) {
  V v = El<V>::make(id); if (id < 64) qpay[id].bump(); int f = form & 3; bool rv = El<V>::move && (!El<V>::copy || (form & 4)); size_t i = r.call(PUSH, form, id, f == 0 || f == 3); QR res;
  if (bomb) { Quiet q; xc_bomb[vt_tid() & 63] = 1; }
  try { res = PushSel<N, V, El<V>::copy, El<V>::move>::go(q, form, v); } catch (sync_queue_is_closed&) { expect(r, f == 0, f == 1 ? "try_push" : f == 2 ? "nonblocking_push" : "wait_push: an exception", CLOSED); res = CLOSED; } catch (Oops&) { res = THREW; } catch (std::bad_alloc&) { res = THREW; } catch (thread_interrupted&) { res = INTR; }
  { Quiet q; xc_bomb[vt_tid() & 63] = 0; }
  r.ret(i, res, id); 
  if (f == 0) expect(r, res == OK || res == CLOSED || res == THREW || res == INTR, "push", res);
  if (f == 1) expect(r, res == OK || res == CLOSED || res == THREW || (can_full && res == FULL), "try_push", res);
  if (f == 2) expect(r, res == OK || res == CLOSED || res == THREW || res == BUSY || (can_full && res == FULL), "nonblocking_push", res);
  if (f == 3) expect(r, res == OK || res == CLOSED || res == THREW || res == INTR, "wait_push", res);
  if (res != OK || !rv) VT_CHECK(El<V>::id(v) == id, "element", "%s: the caller's element was changed by a push that %s", r.what, res != OK ? "did not happen" : "only copies");
  return res;
}
// what was pulled is whole, and happens-after its push
template<class V> int pulled(QRun& r, V& v) { int id = El<V>::id(v); VT_CHECK(id >= 0 && id < NIDS, "element", "%s: pulled a broken element (%d)", r.what, id); if (id < 64) { VT_CHECK(qpay[id].a == 1 && qpay[id].b == 1, "element", "%s: element %d came out twice, or not as it was put in", r.what, id); qpay[id].bump(); } return id; }
template<class N, class V, class Q> QR do_pull(QRun& r, Q& q, int form, bool bomb = false) {
  V v = El<V>::make(999); size_t i = r.call(PULL, form, -1, form == 0 || form == 1 || form == 4); QR res; int id = -1;
  if (bomb) { Quiet q; xc_bomb[vt_tid() & 63] = 1; }
  try { res = N::pull(q, form, v); } catch (sync_queue_is_closed&) { expect(r, form <= 1, "a pull that reports by status threw:", CLOSED); res = CLOSED; } catch (Oops&) { res = THREW; } catch (thread_interrupted&) { res = INTR; }
  { Quiet q; xc_bomb[vt_tid() & 63] = 0; }
  if (res == OK) id = pulled<V>(r, v); r.ret(i, res, id);
  if (form <= 1) expect(r, res == OK || res == CLOSED || res == THREW || res == INTR, "pull", res);
  if (form == 2) expect(r, res == OK || res == CLOSED || res == THREW || res == EMPTY, "try_pull", res);
  if (form == 3) expect(r, res == OK || res == CLOSED || res == THREW || res == EMPTY || res == BUSY, "nonblocking_pull", res);
  if (form == 4) expect(r, res == OK || res == CLOSED || res == THREW || res == INTR, "wait_pull", res);
  if (res != OK) VT_CHECK(El<V>::id(v) == 999, "element", "%s: the caller's element was changed by a pull that failed", r.what);
  return res;
}
template<class Q> void do_look(QRun& r, Q& q) { size_t i; switch (vt_rnd(4)) { case 0: i = r.call(SIZE, 0, 0, false); r.ret(i, (int)q.size(), 0); break; case 1: i = r.call(ISEMPTY, 0, 0, false); r.ret(i, q.empty(), 0); break; case 2: i = r.call(ISFULL, 0, 0, false); r.ret(i, q.full(), 0); break; default: i = r.call(ISCLOSED, 0, 0, false); r.ret(i, q.closed(), 0); } }
template<class Q> void do_close(QRun& r, Q& q) { size_t i = r.call(CLOSE, 0, 0, false); q.close(); r.ret(i, 0, 0); vt_count("closes", 1); }
// the threads are done or blocked: close, and let them end
template<class Q> void end_it(QRun& r, Q& q, Par& p) { if (vt_virtual()) vt_settle(); do_close(r, q); if (chance(30)) do_close(r, q); p.join(); }
#endif
