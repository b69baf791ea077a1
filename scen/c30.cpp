// C30: synchronized values are only reached under their lock.
#include "val.hpp"
#include "rm.hpp"
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/externally_locked.hpp>
#include <boost/thread/externally_locked_stream.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/testable_mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
namespace c = boost::chrono;
// A lockable that knows its owner.  OWN says which thread is inside.
template<class M> struct LMt { M m; int owner, depth; bool arm; LMt() : owner(-1), depth(0), arm(false) {}
  ~LMt() { Quiet q; if (owner != -1) vt_fail("lock", "a lock is still held when its object goes"); }
  void in() { Quiet q; if (owner == vt_tid()) ++depth; else { if (owner != -1) vt_fail("lock", "two owners"); owner = vt_tid(); depth = 1; } }
  void lock() { { Quiet q; if (arm) { arm = false; throw RmError(); } } m.lock(); in(); }
  bool try_lock() { if (!m.try_lock()) return false; in(); return true; }
  void unlock() { { Quiet q; VT_CHECK(owner == vt_tid(), "lock", "unlock by a thread that does not hold the lock"); if (!--depth) owner = -1; } m.unlock(); }
  bool mine() { Quiet q; return owner == vt_tid(); } bool is_free() { Quiet q; return owner == -1; } };
typedef LMt<boost::mutex> LM; typedef LMt<boost::recursive_mutex> LR;
// Which lock guards which object.
struct Map { struct E { const char* a; size_t n; LM* l; }; std::vector<E> e; bool on; } ; static Map map_;
static void guards(const void* a, size_t n, LM const& l) { Quiet q; Map::E x = { (const char*)a, n, const_cast<LM*>(&l) }; map_.e.push_back(x); }
static void unguard() { Quiet q; std::vector<Map::E>().swap(map_.e); }
static void touch(const void* p, const char* what) { Quiet q; for (auto& x : map_.e) if ((const char*)p >= x.a && (const char*)p < x.a + x.n) { if (x.l->owner != vt_tid()) vt_fail("unlocked", "%s of a synchronized value by a thread that does not hold its lock", what); vt_count("guarded_accesses", 1); return; } }
enum { NANV = 9, GONE = -5 }; static int arm_copy = 0;
struct V { long a, b; std::string s;
  void put(long x) { a = x; vt_point(); b = x; s.assign(30, (char)('a' + (x + 26) % 26)); }
  long id() const { touch(this, "reading"); long x = a; vt_point(); VT_CHECK(b == x && s.size() == 30 && s[29] == (char)('a' + (x + 26) % 26), "torn", "a synchronized value is not whole"); return x; }
  V() { put(0); } V(int x) { put(x); } static void boom() { bool t = false; { Quiet q; if (arm_copy && arm_copy == 1 + vt_tid()) { arm_copy = 0; t = true; } } if (t) throw Err(3); }
  V(V const& o) { touch(this, "construction"); touch(&o, "copying"); boom(); put(o.id()); } V(V&& o) { touch(&o, "moving"); put(o.id()); o.put(GONE); }
  V& operator=(V const& o) { touch(this, "assignment"); touch(&o, "copying"); boom(); put(o.id()); return *this; } V& operator=(V&& o) { touch(this, "assignment"); touch(&o, "moving"); long x = o.id(); o.put(GONE); put(x); return *this; }
  long set(long x) { long o = id(); touch(this, "changing"); put(x); return o; }
  friend void swap(V& x, V& y) { touch(&x, "swapping"); touch(&y, "swapping"); long a = x.id(), b = y.id(); x.put(b); y.put(a); } };
static bool rel(int k, long x, long y) { bool n = x == NANV || y == NANV; switch (k) { case 0: return !n && x == y; case 1: return n || x != y; case 2: return !n && x < y; case 3: return !n && x <= y; case 4: return !n && x > y; default: return !n && x >= y; } }
static bool operator==(V const& x, V const& y) { return rel(0, x.id(), y.id()); } static bool operator!=(V const& x, V const& y) { return rel(1, x.id(), y.id()); } static bool operator<(V const& x, V const& y) { return rel(2, x.id(), y.id()); } static bool operator<=(V const& x, V const& y) { return rel(3, x.id(), y.id()); } static bool operator>(V const& x, V const& y) { return rel(4, x.id(), y.id()); } static bool operator>=(V const& x, V const& y) { return rel(5, x.id(), y.id()); }
typedef synchronized_value<V, LM> SV; typedef synchronized_value<V> SVM;
// a stream for save and load
struct OS { long last; OS() : last(-9) {} OS& operator<<(V const& v) { last = v.id(); return *this; } OS& operator>>(V& v) { touch(&v, "loading"); v.put(last); return *this; } };
enum OpK { GET, SET, ASG, SWP, SWPV, CMP, CMPV, CMPR, ROT, XCH, COPY, MOVE, PAIR };
struct Op { int k, i, j, l, r; long v; long res, res2, res3; };
struct Mod { long v[3]; bool apply(Op const& o) { long t; switch (o.k) { case GET: case COPY: return v[o.i] == o.res; case SET: v[o.i] = o.v; return true; case ASG: v[o.i] = v[o.j]; return true; case SWP: std::swap(v[o.i], v[o.j]); return true; case SWPV: case XCH: if (v[o.i] != o.res) return false; v[o.i] = o.v; return true; case CMP: return rel(o.r, v[o.i], v[o.j]) == (bool)o.res; case CMPV: return rel(o.r, v[o.i], o.v) == (bool)o.res; case CMPR: return rel(o.r, o.v, v[o.i]) == (bool)o.res; case ROT: if (v[o.i] != o.res || v[o.j] != o.res2 || v[o.l] != o.res3) return false; t = v[o.i]; v[o.i] = v[o.j]; v[o.j] = v[o.l]; v[o.l] = t; return true; case PAIR: if (v[o.i] != o.res || v[o.j] != o.res2) return false; v[o.i] = o.v; return true; case MOVE: if (v[o.i] != o.res) return false; v[o.i] = GONE; return true; } return false; }
  std::string hash() const { return std::string((const char*)v, sizeof v); } };
static long val() { return chance(10) ? (long)NANV : (long)vt_rnd(4); }
template<class A, class B> static bool cmp(int r, A const& a, B const& b) { switch (r) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
static long fread_(V const& v) { return v.id(); }
struct Fn { long x; long operator()(V& v) const { return v.set(x); } typedef long result_type; };
struct FnC { long operator()(V const& v) const { return v.id(); } typedef long result_type; };
// one operation on s[0..2]; false if nothing happened (a try failed)
template<class S> static bool one(S* s, Op& o, bool multi) { S const* cs = s; o.i = vt_rnd(3); do o.j = vt_rnd(3); while (o.j == o.i); o.l = 3 - o.i - o.j; o.v = val(); o.r = vt_rnd(6); V nv((int)o.v);
  switch (vt_rnd(multi ? 34 : 26)) {
    case 0: o.k = GET; o.res = cs[o.i].get().id(); break;
    case 1: o.k = SET; s[o.i] = nv; break;
    case 2: o.k = XCH; o.res = s[o.i]->set(o.v); break;
    case 3: o.k = GET; o.res = cs[o.i]->id(); break;
    case 4: { o.k = XCH; auto p = s[o.i].synchronize(); vt_yield(); o.res = p->id(); vt_point(); (*p).set(o.v); break; }
    case 5: { o.k = GET; auto p = cs[o.i].synchronize(); vt_yield(); o.res = (*p).id(); VT_CHECK(p->id() == o.res, "exclusion", "a value changed under its lock"); break; }
    case 6: { o.k = GET; o.res = static_cast<V>(cs[o.i]).id(); break; }
    case 7: { o.k = SET; *s[o.i] = nv; break; }
    case 8: { o.k = GET; V const& r = *cs[o.i]; (void)r; V x(static_cast<V const&>(*cs[o.i])); o.res = x.id(); break; }
    case 9: { o.k = XCH; o.res = s[o.i](Fn{ o.v }); break; }
    case 10: { o.k = GET; o.res = cs[o.i](FnC()); break; }
    case 11: { o.k = SWPV; if (chance(50)) s[o.i].swap(nv); else if (chance(50)) swap(s[o.i], nv); else swap(nv, s[o.i]); o.res = nv.id(); break; }
    case 12: { o.k = GET; OS os; if (chance(50)) cs[o.i].save(os); else os << cs[o.i]; o.res = os.last; break; }
    case 13: { o.k = SET; OS is; is.last = o.v; if (chance(50)) s[o.i].load(is); else is >> s[o.i]; break; }
    case 14: o.k = CMPV; o.res = cmp(o.r, cs[o.i], nv); break;
    case 15: o.k = CMPR; o.res = cmp(o.r, nv, cs[o.i]); break;
    case 16: { o.k = XCH; auto p = s[o.i].unique_synchronize(); VT_CHECK(p.owns_lock(), "owns", "unique_synchronize does not own"); vt_yield(); o.res = p->id(); (*p).set(o.v); if (chance(30)) { p.unlock(); VT_CHECK(!p.owns_lock(), "owns", "still owns"); vt_yield(); } break; }
    case 17: { o.k = GET; auto p = cs[o.i].unique_synchronize(); o.res = p->id(); VT_CHECK((*p).id() == o.res, "exclusion", "a value changed under its lock"); break; }
    case 18: { o.k = XCH; auto p = chance(50) ? s[o.i].defer_synchronize() : s[o.i].unique_synchronize(defer_lock); VT_CHECK(!p.owns_lock(), "owns", "a deferred lock owns"); vt_yield(); p.lock(); VT_CHECK(p.owns_lock(), "owns", "not owning"); o.res = (*p).id(); p->set(o.v); break; }
    case 19: { o.k = GET; auto p = chance(50) ? cs[o.i].defer_synchronize() : cs[o.i].unique_synchronize(defer_lock); VT_CHECK(!p.owns_lock(), "owns", "a deferred lock owns"); if (chance(50)) p.lock(); else if (!p.try_lock()) return false; o.res = (*p).id(); break; }
    case 20: { o.k = XCH; auto p = s[o.i].try_to_synchronize(); if (!p.owns_lock()) { vt_count("try_refused", 1); return false; } vt_yield(); o.res = p->id(); p->set(o.v); break; }
    case 21: { o.k = GET; auto p = cs[o.i].try_to_synchronize(); if (!p.owns_lock()) { vt_count("try_refused", 1); return false; } o.res = p->id(); break; }
    case 22: { o.k = XCH; auto p = s[o.i].unique_synchronize(); auto* m = p.release(); auto q = s[o.i].adopt_synchronize(); VT_CHECK(q.owns_lock() && q.mutex() == m && &s[o.i].mutex() == m, "owns", "adopt_synchronize"); o.res = q->id(); auto q2 = boost::move(q); VT_CHECK(q2.owns_lock() && !q.owns_lock(), "owns", "moved lock pointer"); q2->set(o.v); break; }
    case 23: { o.k = COPY; S x(cs[o.i]); o.res = x.get().id(); break; }
    case 24: { o.k = MOVE; S x(boost::move(s[o.i])); o.res = x.get().id(); break; }
    case 25: { o.k = SET; S x(nv); if (chance(50)) s[o.i] = static_cast<S const&>(x); else s[o.i].swap(x); break; }
    case 26: case 27: o.k = ASG; s[o.i] = cs[o.j]; break;
    case 28: o.k = SWP; if (chance(50)) s[o.i].swap(s[o.j]); else swap(s[o.i], s[o.j]); break;
    case 29: case 30: o.k = CMP; o.res = cmp(o.r, cs[o.i], cs[o.j]); break;
    case 31: { o.k = ROT; auto t = boost::synchronize(s[o.i], s[o.j], s[o.l]); vt_yield(); o.res = std::get<0>(t)->id(); o.res2 = std::get<1>(t)->id(); o.res3 = std::get<2>(t)->id(); std::get<0>(t)->set(o.res2); vt_yield(); std::get<1>(t)->set(o.res3); std::get<2>(t)->set(o.res); break; }
    case 32: { o.k = PAIR; auto t = boost::synchronize(s[o.i], cs[o.j]); o.res = std::get<0>(t)->id(); vt_yield(); o.res2 = (*std::get<1>(t)).id(); std::get<0>(t)->set(o.v); break; }
    default: { o.k = PAIR; auto a = s[o.i].defer_synchronize(); auto b = cs[o.j].defer_synchronize(); boost::lock(a, b); o.res = a->id(); o.res2 = b->id(); vt_yield(); a->set(o.v); break; }
  } vt_count("operations", 1); return true; }
static void reg(SV* s) { for (int i = 0; i < 3; ++i) guards(&s[i].value(), sizeof(V), s[i].mutex()); } static void reg(SVM*) {}
static void all_free(SV* s) { for (int i = 0; i < 3; ++i) VT_CHECK(const_cast<LM&>(s[i].mutex()).is_free(), "lock", "a lock is still held after the operations"); } static void all_free(SVM*) {}
template<class S> static void values(int nt, int nops) { S s[3]; Mod m; for (int i = 0; i < 3; ++i) { m.v[i] = val(); s[i] = V((int)m.v[i]); } reg(s); Hist<Op> h; Par p;
  for (int t = 0; t < nt; ++t) p.go([&] { for (int k = 0; k < nops; ++k) { Op o; memset(&o, 0, sizeof o); size_t x = h.call(o); bool ok = one(s, o, true); if (!ok) { o.k = -1; } h.ret(x, o); if (chance(30)) vt_yield(); } });
  p.join(); all_free(s); Lin<Mod, Op> L; { Quiet q; for (auto& e : h.h) if (e.op.k >= 0) L.h.push_back(e); } for (int i = 0; i < 3; ++i) { Op o; memset(&o, 0, sizeof o); o.k = GET; o.i = i; size_t x = h.call(o); o.res = s[i].get().id(); h.ret(x, o); Quiet q; L.h.push_back(h.h[x]); }
  unguard(); bool ok; { Quiet q; ok = L.check(m); } if (!ok) { for (auto& e : L.h) vt_tracef("op %d i%d j%d r%d v%ld -> %ld %ld %ld  [%llu %llu] t%d", e.op.k, e.op.i, e.op.j, e.op.r, e.op.v, e.op.res, e.op.res2, e.op.res3, (unsigned long long)e.call, (unsigned long long)e.ret, e.tid); vt_fail("atomic", "no order of the operations explains what they returned"); } vt_count("histories", 1); { Quiet q; std::vector<HOp<Op> >().swap(L.h); std::unordered_set<std::string>().swap(L.seen); } }
SCENARIO(values_2, F_HOT) { values<SV>(2, 4); }
SCENARIO(values_3, F_HOT) { values<SV>(3, 3); }
SCENARIO(values_plain, F_NATIVE) { values<SVM>(2 + vt_rnd(2), 3); }
// opposite directions: no deadlock, no torn pair
SCENARIO(opposite, F_NATIVE | F_HOT) { SV s[3]; reg(s); s[0] = V(1); s[1] = V(2); s[2] = V(3); int k = vt_rnd(5); Par p; auto f = [&](int a, int b, int d) { for (int n = 0; n < 3; ++n) switch (k) { case 0: s[a].swap(s[b]); break; case 1: s[a] = static_cast<SV const&>(s[b]); break; case 2: (void)cmp(vt_rnd(6), s[a], s[b]); break; case 3: { auto t = boost::synchronize(s[a], s[b], s[d]); std::get<0>(t)->set(5); break; } default: switch (vt_rnd(3)) { case 0: s[a].swap(s[b]); break; case 1: s[a] = static_cast<SV const&>(s[b]); break; default: (void)cmp(vt_rnd(6), s[a], s[b]); } } }; p.go([&] { f(0, 1, 2); }); p.go([&] { f(1, 0, 2); }); if (chance(50)) p.go([&] { f(2, 1, 0); }); p.join(); all_free(s); if (k == 0) { long a = s[0].get().id(), b = s[1].get().id(), d = s[2].get().id(); VT_CHECK(a + b + d == 6 && a * b * d == 6, "atomic", "swaps lost or duplicated a value: %ld %ld %ld", a, b, d); } unguard(); vt_count("opposite_runs", 1); }
// with itself
SCENARIO(itself, 0) { SV s[3]; reg(s); s[0] = V(2); Par p; bool other = chance(60); if (other) p.go([&] { for (int i = 0; i < 3; ++i) s[0]->id(); }); s[0] = static_cast<SV const&>(s[0]); s[0].swap(s[0]); swap(s[0], s[0]); VT_CHECK(s[0].get().id() == 2, "self", "self-assignment or self-swap changed the value"); int r = vt_rnd(6); bool nan = chance(30); if (nan) s[0] = V(NANV); bool x = cmp(r, s[0], s[0]); VT_CHECK(x == (r == 1 ? nan : rel(r, nan ? NANV : 2, nan ? NANV : 2)), "self", "comparing a synchronized value with itself"); p.join(); all_free(s); unguard(); vt_count("self_operations", 1); }
// exceptions release the locks and leave the other value alone
SCENARIO(throwing, 0) { SV s[3]; reg(s); s[0] = V(1); s[1] = V(2); bool thr = false; int k = vt_rnd(9); { Quiet q; arm_copy = k < 6 ? 1 + vt_tid() : 0; } try { V x(7); switch (k) { case 0: s[0] = static_cast<SV const&>(s[1]); break; case 1: s[0] = x; break; case 2: (void)s[0].get(); break; case 3: { SV y(static_cast<SV const&>(s[0])); break; } case 4: (void)static_cast<V>(s[0]); break; case 5: *s[0] = x; break; case 6: s[0]([](V& v) -> long { v.set(5); throw Err(4); }); break; case 7: { auto t = boost::synchronize(s[0], s[1]); throw Err(5); } default: static_cast<SV const&>(s[0])([](V const& v) -> long { v.id(); throw Err(4); }); } } catch (Err&) { thr = true; } { Quiet q; arm_copy = 0; } VT_CHECK(thr, "exception", "an exception of the value was swallowed"); all_free(s); VT_CHECK(s[1].get().id() == 2 && s[0].get().id() == (k == 6 ? 5 : 1), "exception", "a failed operation changed a value"); unguard(); vt_count("threw", 1); }
SCENARIO(lock_throws, 0) { SV s[3]; reg(s); s[0] = V(1); s[1] = V(2); int w = vt_rnd(2); LM& m = const_cast<LM&>(s[w].mutex()); bool thr = false, arm = false; { Quiet q; m.arm = true; } int k = vt_rnd(12); try { V x(7); switch (k) { case 0: s[0] = static_cast<SV const&>(s[1]); break; case 1: s[w] = x; break; case 2: (void)s[w].get(); break; case 3: s[w].swap(x); break; case 4: s[0].swap(s[1]); break; case 5: (void)cmp(vt_rnd(6), s[0], s[1]); break; case 6: s[w]->set(9); break; case 7: boost::synchronize(s[0], s[1]); break; case 8: (void)cmp(vt_rnd(6), s[w], x); break; case 9: *s[w] = x; break; case 10: { SV y(boost::move(s[w])); break; } default: { auto q = s[w].defer_synchronize(); q.lock(); } } } catch (RmError&) { thr = true; } { Quiet q; arm = m.arm; m.arm = false; } VT_CHECK(thr == !arm, "exception", "an exception of the lock was swallowed"); all_free(s); if (thr) VT_CHECK(s[0].get().id() == 1 && s[1].get().id() == 2, "exception", "an operation whose lock failed changed a value"); unguard(); vt_count("lock_threw", thr); }
// nobody else is there: a try must succeed, and every form of access takes the lock and gives it back
SCENARIO(uncontended, F_ONCE) { SV* s = new SV[1]; guards(&s[0], sizeof s[0], s[0].mutex()); SV const& cs = s[0]; LM& m = const_cast<LM&>(cs.mutex()); s[0] = V(2);
  { auto p = s[0].try_to_synchronize(); VT_CHECK(p.owns_lock() && m.mine(), "owns", "try_to_synchronize of a free value does not own"); VT_CHECK(p->id() == 2, "value", "wrong value"); } VT_CHECK(m.is_free(), "lock", "not released");
  { auto p = cs.try_to_synchronize(); VT_CHECK(p.owns_lock() && m.mine(), "owns", "try_to_synchronize of a free constant value does not own"); VT_CHECK(p->id() == 2, "value", "wrong value"); } VT_CHECK(m.is_free(), "lock", "not released");
  { auto p = cs.defer_synchronize(); VT_CHECK(!p.owns_lock() && p.try_lock() && p.owns_lock() && m.mine(), "owns", "try_lock of a free constant value"); p.unlock(); VT_CHECK(m.is_free(), "lock", "not released"); }
  { auto p = cs.unique_synchronize(); auto* r = p.release(); VT_CHECK(r == &m && m.mine(), "owns", "release"); auto q = cs.adopt_synchronize(); VT_CHECK(q.owns_lock() && q->id() == 2, "owns", "adopt_synchronize of a constant value"); } VT_CHECK(m.is_free(), "lock", "not released");
  { auto d = *cs; VT_CHECK(m.mine(), "owns", "dereferencing a constant value does not lock"); V const& r = d; VT_CHECK(r.id() == 2, "value", "wrong value"); auto e = boost::move(d); VT_CHECK(m.mine(), "owns", "moving a reference released the lock"); V const& r2 = e; VT_CHECK(r2.id() == 2, "value", "wrong value"); } VT_CHECK(m.is_free(), "lock", "not released");
  { auto d = *s[0]; d = V(3); V& r = d; VT_CHECK(r.id() == 3 && m.mine(), "value", "assignment through a reference"); auto e = boost::move(d); e = V(4); } VT_CHECK(m.is_free(), "lock", "not released"); VT_CHECK(s[0].get().id() == 4, "value", "wrong value");
  { auto p = cs.synchronize(); VT_CHECK(m.mine() && p->id() == 4 && (*p).id() == 4, "owns", "synchronize of a constant value"); } VT_CHECK(cs->id() == 4, "value", "wrong value"); VT_CHECK(m.is_free(), "lock", "not released"); V x = static_cast<V>(cs); VT_CHECK(x.id() == 4, "value", "wrong value"); VT_CHECK(cs([](V const& v) { return v.id(); }) == 4 && m.is_free(), "value", "function on a constant value"); vt_count("uncontended", 1); unguard(); delete[] s; }
SCENARIO(constructors, F_ONCE) { SV a; VT_CHECK(a.get().id() == 0, "construct", "default"); V v(4); SV b(v); VT_CHECK(b.get().id() == 4 && v.id() == 4, "construct", "copy of a value"); SV d(boost::move(v)); VT_CHECK(d.get().id() == 4 && v.id() == GONE, "construct", "move of a value"); SV e(static_cast<SV const&>(b)); VT_CHECK(e == b && e.get().id() == 4, "construct", "copy"); SV f(boost::move(b)); VT_CHECK(f.get().id() == 4 && b.get().id() == GONE, "construct", "move"); VT_CHECK(&a.mutex() != &b.mutex(), "construct", "mutexes"); strict_lock_ptr<V, LM> p = a.synchronize(); strict_lock_ptr<V, LM> p2(boost::move(p)); VT_CHECK(const_cast<LM&>(a.mutex()).mine(), "owns", "moving a lock pointer released the lock"); }
// lock pointers over user objects
SCENARIO(pointers, F_NATIVE) { V v[2]; LM l; guards(v, sizeof v, l); long sum = 0; Par p; for (int t = 0; t < 2; ++t) p.go([&] { for (int k = 0; k < 3; ++k) { switch (vt_rnd(6)) { case 0: { strict_lock_ptr<V, LM> q(v[0], l); long x = q->id(); vt_yield(); (*q).set(x == 0 ? 1 : 0); break; } case 1: { l.lock(); strict_lock_ptr<V, LM> q(v[0], l, adopt_lock); q->set(1); break; } case 2: { unique_lock_ptr<V, LM> q(v[1], l); q->set(2); break; } case 3: { unique_lock_ptr<V, LM> q(v[1], l, try_to_lock); if (q.owns_lock()) { q->set(3); } break; } case 4: { const_strict_lock_ptr<V, LM> q(v[0], l); long x = q->id(); vt_yield(); VT_CHECK((*q).id() == x, "exclusion", "a value changed under its lock"); break; } default: { const_unique_lock_ptr<V, LM> q(v[1], l, defer_lock); q.lock(); long x = q->id(); vt_yield(); VT_CHECK((*q).id() == x, "exclusion", "a value changed under its lock"); const_unique_lock_ptr<V, LM> q2(boost::move(q)); VT_CHECK(q2.owns_lock() && !q.owns_lock(), "owns", "moved"); } } } }); p.join(); VT_CHECK(l.is_free(), "lock", "still held"); unguard(); (void)sum; vt_count("operations", 1); }

// externally locked objects
#ifdef BOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
template<class F> static void refuses(const char* what, F f) { bool r = false; try { f(); } catch (boost::lock_error&) { r = true; } VT_CHECK(r, "misuse", "%s: access was granted without the right lock", what); vt_count("wrong_lock_refused", 1); }
#else
template<class F> static void refuses(const char*, F) { }
#endif
template<class T> struct Exp { };   // the object behind
SCENARIO(external_rules, 0) { LM m1, m2; V o1(1), o2(2); typedef externally_locked<V, LM> E; typedef externally_locked<V&, LM> R;
  E a(m1, o1), b(m2, boost::move(o2)), d(m1); R r1(o1, m1), r2(o2, m2); VT_CHECK(a.mutex() == &m1 && b.mutex() == &m2 && r1.mutex() == &m1, "ext", "mutex()");
  auto rd = [&](E& e, LM& m) { strict_lock<LM> l(m); VT_CHECK(l.owns_lock(&m) && l.owns_lock() && l.mutex() == &m && m.mine(), "owns", "strict_lock"); return e.get(l).id(); };
  auto nested = [&](E& e, LM& m) { unique_lock<LM> l(m, defer_lock); if (chance(50)) l.lock(); bool had = l.owns_lock(); long x; { nested_strict_lock<unique_lock<LM> > n(l); VT_CHECK(m.mine() && n.owns_lock(&m), "owns", "nested_strict_lock"); x = e.get(n).id(); VT_CHECK(static_cast<E const&>(e).get(n).id() == x, "ext", "const"); } VT_CHECK(l.owns_lock() && m.mine(), "owns", "nested_strict_lock did not give the lock back"); (void)had; return x; };
  VT_CHECK(rd(a, m1) == 1 && rd(b, m2) == 2 && rd(d, m1) == 0 && nested(a, m1) == 1, "ext", "value"); VT_CHECK(m1.is_free() && m2.is_free(), "lock", "still held");
  refuses("get(strict_lock)", [&] { strict_lock<LM> l(m2); a.get(l).set(9); }); refuses("get(strict_lock) const", [&] { strict_lock<LM> l(m2); static_cast<E const&>(a).get(l).id(); }); refuses("get(nested_strict_lock)", [&] { unique_lock<LM> l(m2); nested_strict_lock<unique_lock<LM> > n(l); a.get(n).set(9); }); refuses("get(nested_strict_lock) const", [&] { unique_lock<LM> l(m2); nested_strict_lock<unique_lock<LM> > n(l); static_cast<E const&>(a).get(n).id(); });
  refuses("ref get(strict_lock)", [&] { strict_lock<LM> l(m2); r1.get(l).set(9); }); refuses("ref get(strict_lock) const", [&] { strict_lock<LM> l(m2); static_cast<R const&>(r1).get(l).id(); }); refuses("ref get(nested_strict_lock)", [&] { unique_lock<LM> l(m2); nested_strict_lock<unique_lock<LM> > n(l); r1.get(n).set(9); }); refuses("ref get(nested) const", [&] { unique_lock<LM> l(m2); nested_strict_lock<unique_lock<LM> > n(l); static_cast<R const&>(r1).get(n).id(); });
  refuses("nested_strict_lock of nothing", [&] { unique_lock<LM> l; nested_strict_lock<unique_lock<LM> > n(l); });
  VT_CHECK(m1.is_free() && m2.is_free(), "lock", "still held"); VT_CHECK(rd(a, m1) == 1, "ext", "changed");
  { strict_lock<LM> l(m1); VT_CHECK(&r1.get(l) == &o1 && &static_cast<R const&>(r1).get(l) == &o1, "ext", "reference"); }
  switch (vt_rnd(6)) { case 0: { E x(a); VT_CHECK(x.mutex() == &m1 && rd(x, m1) == 1 && rd(a, m1) == 1, "ext", "copy"); break; } case 1: { E x(boost::move(a)); VT_CHECK(x.mutex() == &m1 && rd(x, m1) == 1, "ext", "move"); break; } case 2: { a = static_cast<E const&>(b); VT_CHECK(a.mutex() == &m2 && rd(a, m2) == 2 && rd(b, m2) == 2, "ext", "assignment"); break; } case 3: { a = boost::move(b); VT_CHECK(a.mutex() == &m2 && rd(a, m2) == 2, "ext", "move assignment"); break; } case 4: { if (chance(50)) a.swap(b); else swap(a, b); VT_CHECK(a.mutex() == &m2 && b.mutex() == &m1 && rd(a, m2) == 2 && rd(b, m1) == 1, "ext", "swap"); break; }
    default: { R x(r1); R y(boost::move(r2)); strict_lock<LM> l(m1), k(m2); VT_CHECK(&x.get(l) == &o1 && &y.get(k) == &o2, "ext", "reference copies"); if (chance(30)) x.swap(y); else if (chance(50)) swap(x, y); else { R z(x); x = static_cast<R const&>(y); y = boost::move(z); } VT_CHECK(&x.get(k) == &o2 && &y.get(l) == &o1 && x.mutex() == &m2 && y.mutex() == &m1, "ext", "reference swap"); } }
  d.lock(); VT_CHECK(m1.mine(), "owns", "lock()"); d.unlock(); VT_CHECK(m1.is_free(), "owns", "unlock()"); VT_CHECK(d.try_lock() && m1.mine() && !r1.try_lock(), "owns", "try_lock()"); d.unlock(); r1.lock(); VT_CHECK(m1.mine(), "owns", "lock()"); r1.unlock(); VT_CHECK(m1.is_free(), "owns", "unlock()"); vt_count("operations", 1); }
struct Acc : basic_lockable_adapter<LM> { V v; LM& l() const { return this->lockable(); } }; struct Acc2 : lockable_adapter<LM> { externally_locked<V, Acc2> v; Acc2() : v(*this) { guards(&v, sizeof(V), l()); } LM& l() const { return this->lockable(); } };
SCENARIO(external_use, F_NATIVE) { Acc a; guards(&a.v, sizeof(V), a.l()); Acc2 b; externally_locked<V&, Acc> r(a.v, a); Par p; int n = 0; for (int t = 0; t < 3; ++t) p.go([&] { for (int k = 0; k < 2; ++k) switch (vt_rnd(4)) { case 0: { strict_lock<Acc> l(a); long x = r.get(l).id(); vt_yield(); r.get(l).set(x + 1); break; } case 1: { strict_lock<Acc2> l(b); long x = b.v.get(l).id(); vt_yield(); b.v.get(l).set(x + 1); break; } case 2: { unique_lock<Acc2> u(b); nested_strict_lock<unique_lock<Acc2> > l(u); long x = b.v.get(l).id(); vt_yield(); b.v.get(l).set(x + 1); break; } default: { unique_lock<Acc> u(a, defer_lock); nested_strict_lock<unique_lock<Acc> > l(u); long x = r.get(l).id(); vt_yield(); r.get(l).set(x + 1); } } }); p.join(); { strict_lock<Acc> l(a); n += r.get(l).id(); } { strict_lock<Acc2> l(b); n += b.v.get(l).id(); } VT_CHECK(n == 6, "exclusion", "increments were lost: %d of 6", n); unguard(); vt_count("operations", 6); }
SCENARIO(make_locks, F_ONCE) { LM m; { const auto& l = make_strict_lock(m); VT_CHECK(m.mine() && l.owns_lock(&m), "owns", "make_strict_lock"); } VT_CHECK(m.is_free(), "lock", "still held"); unique_lock<LM> u(m, defer_lock); { const auto& l = make_nested_strict_lock(u); VT_CHECK(m.mine() && l.owns_lock(&m) && !u.owns_lock(), "owns", "make_nested_strict_lock"); } VT_CHECK(u.owns_lock() && m.mine(), "owns", "not given back"); }

// streams: what one thread writes through one guard or one expression stays together
struct St { std::string b; Pay pay; St& put(char ch) { pay.bump(); b += ch; vt_point(); return *this; } St& operator<<(char ch) { return put(ch); } St& operator<<(int x) { return put((char)('0' + x)); } St& operator<<(St& (*f)(St&)) { return f(*this); } St& operator>>(char& ch) { pay.bump(); ch = b.empty() ? 0 : b[0]; if (!b.empty()) b.erase(0, 1); return *this; } };
static St& fin(St& s) { return s.put('.'); }
typedef externally_locked_stream<St, LR> XS; typedef stream_guard<St, LR> XG;
SCENARIO(streams, F_NATIVE) { St st; LR m; XS xs(st, m); Par p; int n = 2 + vt_rnd(2), k = 2; for (int t = 0; t < n; ++t) p.go([&, t] { char ch = (char)('a' + t); for (int i = 0; i < k; ++i) { switch (vt_rnd(5)) { case 0: xs << ch << 1 << 2 << ch << &fin; break; case 1: { XG g(xs); VT_CHECK(g.owns_lock(&m) && m.mine(), "owns", "stream_guard"); g << ch; vt_yield(); g << 1 << 2 << ch; vt_yield(); g << &fin; break; } case 2: { XG g = xs.hold(); VT_CHECK(m.mine(), "owns", "hold()"); xs << ch << 1; vt_yield(); g << 2; vt_yield(); xs << ch << &fin; VT_CHECK(m.mine(), "owns", "hold() let go"); break; } case 3: { XG g(xs); XG h(boost::move(g)); VT_CHECK(m.mine() && h.owns_lock(&m) && !g.owns_lock(&m), "owns", "moving a guard released it"); h.get() << ch << 1; vt_yield(); h.bypass() << 2 << ch << &fin; break; } default: { xs.lock(); XG g(xs, adopt_lock); vt_yield(); xs.get(g) << ch << 1 << 2 << ch << &fin; } } } }); p.join(); VT_CHECK(m.is_free(), "lock", "still held"); std::string b = st.b; VT_CHECK((int)b.size() == 5 * n * k, "stream", "%zu characters written instead of %d", b.size(), 5 * n * k); for (size_t i = 0; i + 5 <= b.size(); i += 5) VT_CHECK(b[i] == b[i + 3] && b[i + 1] == '1' && b[i + 2] == '2' && b[i + 4] == '.', "stream", "the output of two threads is mixed: %s", b.c_str()); char a = 0, d = 0; xs >> a >> d; VT_CHECK(a == b[0] && d == '1', "stream", "extraction"); { XG g(xs); g >> a; VT_CHECK(a == '2', "stream", "extraction"); refuses("stream get", [&] { LR m2; St s2; XS x2(s2, m2); xs.get(x2.hold()) << 'x'; }); } VT_CHECK(m.is_free(), "lock", "still held"); vt_count("streams", 1); }

// adapters forward to the mutex they wrap
struct AD : upgrade_lockable_adapter<RM> { RM& m() const { return this->lockable(); } };
SCENARIO(adapters, F_ONCE) { AD const a; RM& m = a.m(); c::milliseconds d(5); c::steady_clock::time_point tp(c::seconds(7)); 
#define FWV(CALL, NAME, SET) { m.x = m.s = m.u = 0; SET; m.last = ""; a.CALL; VT_CHECK(!strcmp(m.last, NAME), "adapter", "%s called %s", #CALL, m.last); }
#define FWB(CALL, NAME, SET, NS) { for (int dn = 0; dn < 2; ++dn) { m.x = m.s = m.u = 0; SET; m.deny = dn; m.last = ""; m.ns = NS; bool r = a.CALL; VT_CHECK(!strcmp(m.last, NAME), "adapter", "%s called %s", #CALL, m.last); VT_CHECK(r == !dn, "adapter", "%s returned the wrong result", #CALL); VT_CHECK(m.ns == NS, "adapter", "%s passed %lld", #CALL, (long long)m.ns); } m.deny = false; }
  const i64 D = 5000000, T = 7000000000ll;
  FWV(lock(), "lock", ) VT_CHECK(m.x == 1, "adapter", "lock"); FWV(unlock(), "unlock", m.x = 1) FWB(try_lock(), "try_lock", , 0) FWB(try_lock_for(d), "try_lock_for", , D) FWB(try_lock_until(tp), "try_lock_until", , T)
  FWV(lock_shared(), "lock_shared", ) FWV(unlock_shared(), "unlock_shared", m.s = 1) FWB(try_lock_shared(), "try_lock_shared", , 0) FWB(try_lock_shared_for(d), "try_lock_shared_for", , D) FWB(try_lock_shared_until(tp), "try_lock_shared_until", , T)
  FWV(lock_upgrade(), "lock_upgrade", ) FWV(unlock_upgrade(), "unlock_upgrade", m.u = 1) FWB(try_lock_upgrade(), "try_lock_upgrade", , 0) FWB(try_lock_upgrade_for(d), "try_lock_upgrade_for", , D) FWB(try_lock_upgrade_until(tp), "try_lock_upgrade_until", , T)
  FWB(try_unlock_shared_and_lock(), "try_unlock_shared_and_lock", m.s = 1, 0) FWB(try_unlock_shared_and_lock_for(d), "try_unlock_shared_and_lock_for", m.s = 1, D) FWB(try_unlock_shared_and_lock_until(tp), "try_unlock_shared_and_lock_until", m.s = 1, T)
  FWB(try_unlock_shared_and_lock_upgrade(), "try_unlock_shared_and_lock_upgrade", m.s = 1, 0) FWB(try_unlock_shared_and_lock_upgrade_for(d), "try_unlock_shared_and_lock_upgrade_for", m.s = 1, D) FWB(try_unlock_shared_and_lock_upgrade_until(tp), "try_unlock_shared_and_lock_upgrade_until", m.s = 1, T)
  FWV(unlock_and_lock_shared(), "unlock_and_lock_shared", m.x = 1) FWV(unlock_and_lock_upgrade(), "unlock_and_lock_upgrade", m.x = 1) FWV(unlock_upgrade_and_lock(), "unlock_upgrade_and_lock", m.u = 1) FWV(unlock_upgrade_and_lock_shared(), "unlock_upgrade_and_lock_shared", m.u = 1)
  FWB(try_unlock_upgrade_and_lock(), "try_unlock_upgrade_and_lock", m.u = 1, 0) FWB(try_unlock_upgrade_and_lock_for(d), "try_unlock_upgrade_and_lock_for", m.u = 1, D) FWB(try_unlock_upgrade_and_lock_until(tp), "try_unlock_upgrade_and_lock_until", m.u = 1, T) m.x = m.s = m.u = 0; vt_count("forwarded", 28); }
// a testable mutex knows who holds it
SCENARIO(testable, F_NATIVE) { testable_mutex<boost::timed_mutex> m; Pay pay; int holder = -1; Par p; int n = 0; for (int t = 0; t < 3; ++t) p.go([&] { for (int k = 0; k < 3; ++k) { VT_CHECK(!m.is_locked_by_this_thread(), "testable", "a thread that does not hold the mutex is told it does"); bool got = true; switch (vt_rnd(4)) { case 0: m.lock(); break; case 1: got = m.try_lock(); break; case 2: got = m.try_lock_for(c::milliseconds(vt_rnd(3))); break; default: got = m.try_lock_until(c::steady_clock::now() + c::milliseconds(vt_rnd(3))); } if (!got) { VT_CHECK(!m.is_locked_by_this_thread(), "testable", "a failed attempt made the thread an owner"); continue; } pay.bump(); { Quiet q; VT_CHECK(holder == -1, "exclusion", "two owners"); holder = vt_tid(); ++n; } vt_yield(); VT_CHECK(m.is_locked_by_this_thread() && m.is_locked() && m.get_id() == boost::this_thread::get_id(), "testable", "the owner is told that it does not hold the mutex"); pay.bump(); { Quiet q; holder = -1; } m.unlock(); VT_CHECK(!m.is_locked_by_this_thread(), "testable", "still the owner after unlock"); } }); p.join(); VT_CHECK(!m.is_locked() && m.get_id() == boost::thread::id(), "testable", "a free mutex says it is locked"); vt_count("testable", n); }
