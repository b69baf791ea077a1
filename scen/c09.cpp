// C09: locking several lockables at once.
#include "h.hpp"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/lock_factories.hpp>
using namespace boost;

struct Boom {};
static int g_held[64]; static int g_throws; static int g_try_fail[64]; // per thread
// A lockable of the user's that records its owner, and throws now and then.
struct UL { mutex m; int owner; Pay p; int id; static int next;
  UL() : owner(-1) { Quiet q; id = next++; }
  static void maybe() { bool t; { Quiet q; t = g_throws && vt_rnd(g_throws) == 0; } if (t) { { Quiet q; vt_count("lockable_threw", 1); } throw Boom(); } }
  void lock() { vt_point(); maybe(); { Quiet q; VT_CHECK(owner != vt_tid(), "relock", "a lockable already owned by the caller was locked again"); } m.lock(); own(); }
  bool try_lock() { vt_point(); maybe(); { Quiet q; VT_CHECK(owner != vt_tid(), "relock", "a lockable already owned by the caller was try-locked again"); } bool r = m.try_lock(); if (r) own(); else { Quiet q; g_try_fail[vt_tid()] |= 1 << id; } return r; }
  void own() { Quiet q; VT_CHECK(owner == -1, "exclusion", "two owners"); owner = vt_tid(); g_held[owner]++; }
  void unlock() { { Quiet q; VT_CHECK(owner == vt_tid(), "unlock", "unlocked by thread %d but owned by %d", vt_tid(), owner); g_held[owner]--; owner = -1; } m.unlock(); }
};
int UL::next;
static int held() { Quiet q; return g_held[vt_tid()]; }
static void none(const char* what) { Quiet q; VT_CHECK(g_held[vt_tid()] == 0, "partial", "%s left %d lockables locked", what, g_held[vt_tid()]); }
static void all(UL** v, int n, const char* what) { for (int i = 0; i < n; ++i) { Quiet q; VT_CHECK(v[i]->owner == vt_tid(), "partial", "%s returned without owning lockable %d of %d", what, i, n); } for (int i = 0; i < n; ++i) v[i]->p.bump(); { Quiet q; vt_count("all_acquired", 1); } }
static void rel(UL** v, int n) { for (int i = 0; i < n; ++i) { v[i]->p.bump(); v[i]->unlock(); } none("the unlocks"); }
static void failed(int r, UL** v, int n, const char* what) { { Quiet q; VT_CHECK(r >= 0 && r < n, "index", "%s returned %d", what, r); VT_CHECK(g_try_fail[vt_tid()] >> v[r]->id & 1, "index", "%s named lockable %d, which was not the one that could not be acquired", what, r); vt_count("try_refused", 1); } none(what); }

static void round(UL** v, int n) {
  { Quiet q; g_try_fail[vt_tid()] = 0; }
  unsigned how = vt_rnd(4);
  try {
    if (how == 0) { switch (n) { case 2: boost::lock(*v[0], *v[1]); break; case 3: boost::lock(*v[0], *v[1], *v[2]); break; case 4: boost::lock(*v[0], *v[1], *v[2], *v[3]); break; default: boost::lock(*v[0], *v[1], *v[2], *v[3], *v[4]); } all(v, n, "lock"); rel(v, n); }
    else if (how == 1) { int r; switch (n) { case 2: r = boost::try_lock(*v[0], *v[1]); break; case 3: r = boost::try_lock(*v[0], *v[1], *v[2]); break; case 4: r = boost::try_lock(*v[0], *v[1], *v[2], *v[3]); break; default: r = boost::try_lock(*v[0], *v[1], *v[2], *v[3], *v[4]); } if (r == -1) { all(v, n, "try_lock"); rel(v, n); } else failed(r, v, n, "try_lock"); }
    else { typedef unique_lock<UL> K; K kk[5], *k = kk; for (int i = 0; i < n; ++i) k[i] = K(*v[i], defer_lock);
      auto ok = [&](const char* w) { for (int i = 0; i < n; ++i) VT_CHECK(k[i].owns_lock(), "partial", "%s over lock objects: lock %d does not own", w, i); all(v, n, w); };
      auto no = [&](const char* w) { for (int i = 0; i < n; ++i) VT_CHECK(!k[i].owns_lock(), "partial", "%s over lock objects: lock %d still owns", w, i); none(w); };
      try {
      switch (vt_rnd(4)) {
      case 0: if (n == 2) boost::lock(k[0], k[1]); else if (n == 3) boost::lock(k[0], k[1], k[2]); else if (n == 4) boost::lock(k[0], k[1], k[2], k[3]); else boost::lock(k[0], k[1], k[2], k[3], k[4]); ok("lock"); break;
      case 1: boost::lock(k, k + n); ok("lock(begin,end)"); break;
      case 2: { int r = n == 2 ? boost::try_lock(k[0], k[1]) : n == 3 ? boost::try_lock(k[0], k[1], k[2]) : n == 4 ? boost::try_lock(k[0], k[1], k[2], k[3]) : boost::try_lock(k[0], k[1], k[2], k[3], k[4]); if (r == -1) ok("try_lock"); else { failed(r, v, n, "try_lock over lock objects"); no("try_lock"); } break; }
      default: { K* r = boost::try_lock(k, k + n); if (r == k + n) ok("try_lock(begin,end)"); else { failed((int)(r - k), v, n, "try_lock(begin,end)"); no("try_lock(begin,end)"); } } }
      } catch (Boom&) { no("a throwing multi-lock"); }
    }
  } catch (Boom&) { none("a throwing multi-lock"); }
  none("the round");
}
static void programs(bool throws) {
  { Quiet q; UL::next = 0; memset(g_held, 0, sizeof g_held); g_throws = throws ? 6 + vt_rnd(10) : 0; }
  UL* u = new UL[5]; int total = 2 + vt_rnd(4);
  { Par p; int nt = 2 + vt_rnd(3); for (int i = 0; i < nt; ++i) { int ops = 1 + vt_rnd(4); p.go([&, ops] { for (int k = 0; k < ops; ++k) { UL* v[5]; for (int j = 0; j < total; ++j) v[j] = &u[j]; for (int j = total - 1; j > 0; --j) std::swap(v[j], v[vt_rnd(j + 1)]); int n = 2 + vt_rnd(total - 1); round(v, n); } }); } p.join(); }
  for (int i = 0; i < 5; ++i) { VT_CHECK(u[i].m.try_lock(), "partial", "a lockable is still locked at the end"); u[i].m.unlock(); VT_CHECK(u[i].p.ok(), "exclusion", "torn"); } delete[] u;
}
SCENARIO(multi, F_NATIVE) { programs(false); }
SCENARIO(multi_throwing, 0) { programs(true); }

// The library's own mutexes, mixed, and make_unique_locks.
SCENARIO(mixed, F_NATIVE) {
  struct S { mutex a; recursive_mutex b; shared_mutex c; timed_mutex d; mutex e; Pay p; }; S* ps = new S; S& s = *ps; int nt = 2 + vt_rnd(3);
  { Par p; for (int i = 0; i < nt; ++i) { int ops = 1 + vt_rnd(3); p.go([&, ops] { for (int k = 0; k < ops; ++k) switch (vt_rnd(9)) {
     case 0: boost::lock(s.a, s.b); s.p.bump(); s.a.unlock(); s.b.unlock(); break;
     case 1: boost::lock(s.c, s.b, s.a); s.p.bump(); s.a.unlock(); s.b.unlock(); s.c.unlock(); break;
     case 2: boost::lock(s.d, s.a, s.c, s.b); s.p.bump(); s.a.unlock(); s.b.unlock(); s.c.unlock(); s.d.unlock(); break;
     case 3: boost::lock(s.e, s.d, s.c, s.b, s.a); s.p.bump(); s.a.unlock(); s.b.unlock(); s.c.unlock(); s.d.unlock(); s.e.unlock(); break;
     case 4: { unique_lock<mutex> x(s.a, defer_lock); unique_lock<recursive_mutex> y(s.b, defer_lock); boost::lock(y, x); VT_CHECK(x.owns_lock() && y.owns_lock(), "partial", "lock objects not owning"); s.p.bump(); break; }
     case 5: { int r = boost::try_lock(s.a, s.c, s.d); if (r == -1) { s.p.bump(); s.a.unlock(); s.c.unlock(); s.d.unlock(); } else VT_CHECK(r >= 0 && r < 3, "index", "%d", r); break; }
     case 6: { std::tuple<unique_lock<mutex>, unique_lock<mutex> > t = make_unique_locks(s.a, s.e); VT_CHECK(std::get<0>(t).owns_lock() && std::get<1>(t).owns_lock(), "partial", "make_unique_locks result not owning"); VT_CHECK(std::get<0>(t).mutex() == &s.a && std::get<1>(t).mutex() == &s.e, "index", "make_unique_locks mixed up its mutexes"); s.p.bump(); break; }
     case 7: { shared_lock<shared_mutex> x(s.c, defer_lock); unique_lock<mutex> y(s.a, defer_lock); boost::lock(x, y); VT_CHECK(x.owns_lock() && y.owns_lock(), "partial", "lock objects not owning"); s.p.bump(); break; }
     default: { unique_lock<mutex> x(s.a, try_to_lock); if (x.owns_lock()) s.p.bump(); } } }); } p.join(); }
  VT_CHECK(s.a.try_lock() && s.b.try_lock() && s.c.try_lock() && s.d.try_lock() && s.e.try_lock(), "partial", "a mutex is still locked at the end"); s.a.unlock(); s.b.unlock(); s.c.unlock(); s.d.unlock(); s.e.unlock(); delete ps;
}
// A lock object that already owns makes the call fail without taking anything.
SCENARIO(misuse, F_ONCE) {
  mutex m[3]; unique_lock<mutex> kk[3], *k = kk; for (int i = 0; i < 3; ++i) k[i] = unique_lock<mutex>(m[i], defer_lock); int own = vt_rnd(3); k[own].lock(); bool threw = false;
  try { if (chance(50)) boost::lock(k[0], k[1], k[2]); else boost::lock(k, k + 3); } catch (lock_error& e) { threw = true; VT_CHECK(e.code() == boost::system::errc::resource_deadlock_would_occur, "error", "wrong error code %d", e.code().value()); }
  VT_CHECK(threw, "error", "locking an owned lock object raised nothing"); for (int i = 0; i < 3; ++i) VT_CHECK(k[i].owns_lock() == (i == own), "partial", "lock %d changed by a failed multi-lock", i);
}
// empty and single ranges
SCENARIO(ranges, F_ONCE) { mutex m[1]; unique_lock<mutex> kk[1], *k = kk; k[0] = unique_lock<mutex>(m[0], defer_lock); boost::lock(k, k); VT_CHECK(!k[0].owns_lock(), "partial", "empty range locked something"); VT_CHECK(boost::try_lock(k, k) == k, "index", "empty range"); boost::lock(k, k + 1); VT_CHECK(k[0].owns_lock(), "partial", "single"); k[0].unlock(); VT_CHECK(boost::try_lock(k, k + 1) == k + 1 && k[0].owns_lock(), "partial", "single try"); k[0].unlock(); m[0].lock(); unique_lock<mutex>* r = 0; Par p; p.go([&] { r = boost::try_lock(k, k + 1); }); p.join(); VT_CHECK(r == k && !k[0].owns_lock(), "index", "single try on a locked mutex"); m[0].unlock(); }
