// C10: the polymorphic lockables hand every operation on unchanged.
#include "rm.hpp"
#include <boost/thread/poly_shared_lockable_adapter.hpp>
#include <boost/thread/lock_guard.hpp>
using namespace boost;
// the library declares these and leaves their definition to the user
basic_poly_lockable::~basic_poly_lockable() {} poly_lockable::~poly_lockable() {} timed_poly_lockable::~timed_poly_lockable() {} shared_poly_lockable::~shared_poly_lockable() {} upgrade_poly_lockable::~upgrade_poly_lockable() {}
struct A : poly_upgrade_lockable_adapter<RM, upgrade_poly_lockable> { RM& r() { return mtx(); } };
SCENARIO(poly, F_NATIVE) {
  A real; RM& m = real.r(); m.deny = chance(40); upgrade_poly_lockable& a = real; m.x = m.s = m.u = 5; int x = 5, s = 5, u = 5;
  chrono::nanoseconds d(4000000000ll); chrono::steady_clock::time_point tp((chrono::nanoseconds(4000000000ll))); chrono::system_clock::time_point sp(chrono::duration_cast<chrono::system_clock::duration>(d)); bool rv = true, timed = false, isvoid = false; const char* want = 0;
#define V_(N, DX, DS, DU) want = #N; isvoid = true; a.N(); x += DX; s += DS; u += DU; break
#define B_(N, DX, DS, DU) want = #N; rv = a.N(); if (rv) { x += DX; s += DS; u += DU; } break
#define F_(N, DX, DS, DU) want = #N "_for"; timed = true; rv = a.N##_for(d); if (rv) { x += DX; s += DS; u += DU; } break
#define T_(N, DX, DS, DU) want = #N "_until"; timed = true; rv = chance(50) ? a.N##_until(tp) : a.N##_until(sp); if (rv) { x += DX; s += DS; u += DU; } break
  switch (vt_rnd(28)) { case 0: V_(lock, 1, 0, 0); case 1: V_(unlock, -1, 0, 0); case 2: B_(try_lock, 1, 0, 0); case 3: F_(try_lock, 1, 0, 0); case 4: T_(try_lock, 1, 0, 0);
    case 5: V_(lock_shared, 0, 1, 0); case 6: V_(unlock_shared, 0, -1, 0); case 7: B_(try_lock_shared, 0, 1, 0); case 8: F_(try_lock_shared, 0, 1, 0); case 9: T_(try_lock_shared, 0, 1, 0);
    case 10: V_(lock_upgrade, 0, 0, 1); case 11: V_(unlock_upgrade, 0, 0, -1); case 12: B_(try_lock_upgrade, 0, 0, 1); case 13: F_(try_lock_upgrade, 0, 0, 1); case 14: T_(try_lock_upgrade, 0, 0, 1);
    case 15: B_(try_unlock_shared_and_lock, 1, -1, 0); case 16: F_(try_unlock_shared_and_lock, 1, -1, 0); case 17: T_(try_unlock_shared_and_lock, 1, -1, 0);
    case 18: B_(try_unlock_shared_and_lock_upgrade, 0, -1, 1); case 19: F_(try_unlock_shared_and_lock_upgrade, 0, -1, 1); case 20: T_(try_unlock_shared_and_lock_upgrade, 0, -1, 1);
    case 21: V_(unlock_and_lock_shared, -1, 1, 0); case 22: V_(unlock_and_lock_upgrade, -1, 0, 1); case 23: V_(unlock_upgrade_and_lock, 1, 0, -1); case 24: V_(unlock_upgrade_and_lock_shared, 0, 1, -1);
    case 25: B_(try_unlock_upgrade_and_lock, 1, 0, -1); case 26: F_(try_unlock_upgrade_and_lock, 1, 0, -1); default: T_(try_unlock_upgrade_and_lock, 1, 0, -1); }
  VT_CHECK(m.calls == 1 && !strcmp(m.last, want), "forward", "%s called %s (%u calls)", want, m.last, m.calls); if (!isvoid) VT_CHECK(rv == !m.deny, "forward", "%s returned %d", want, (int)rv); if (timed) VT_CHECK(m.ns == 4000000000ll, "forward", "%s passed on another time", want);
  VT_CHECK(m.x == x && m.s == s && m.u == u, "holds", "%s left %d/%d/%d", want, m.x, m.s, m.u); vt_count("operations_checked", 1); m.x = m.s = m.u = 0;
}
