// A recording mutex: counts every kind of ownership, can refuse and can throw.
#ifndef VT_RM_HPP
#define VT_RM_HPP
#include "h.hpp"
#include <boost/chrono/chrono.hpp>
#include <boost/thread/lock_types.hpp>
struct RmError { int n; };
struct RM {
  int x, s, u; bool deny; bool arm, arm_un, threw; unsigned calls; const char* last; bool last_ret; std::string arg;
  RM() : x(0), s(0), u(0), deny(false), arm(false), arm_un(false), threw(false), calls(0), last(""), last_ret(false) {}
  ~RM() { }
  void in(const char* w) { calls++; last = w; if (arm) { threw = true; arm = false; throw RmError(); } }
  void out(const char* w, int& c) { calls++; last = w; if (arm_un) { threw = true; arm_un = false; throw RmError(); } VT_CHECK(c > 0, "double-release", "%s called on a mutex that is not held that way", w); --c; }
  bool maybe(int& c) { if (deny) return last_ret = false; ++c; return last_ret = true; }
  bool conv(const char* w, int& a, int& b, bool tr) { in(w); VT_CHECK(a > 0, "double-release", "%s called on a mutex that is not held that way", w); if (tr && deny) return last_ret = false; --a; ++b; return last_ret = true; }
  template<class T> void targ(T const& t) { note(t); }
  template<class R, class P> void note(boost::chrono::duration<R, P> const& d) { ns = (i64)boost::chrono::duration_cast<boost::chrono::nanoseconds>(d).count(); }
  template<class C, class D> void note(boost::chrono::time_point<C, D> const& d) { ns = (i64)boost::chrono::duration_cast<boost::chrono::nanoseconds>(d.time_since_epoch()).count(); }
  template<class T> void note(T const&) { ns = -77; }
  i64 ns;
  void lock() { in("lock"); ++x; }
  bool try_lock() { in("try_lock"); return maybe(x); }
  void unlock() { out("unlock", x); }
  template<class T> bool try_lock_for(T const& t) { note(t); in("try_lock_for"); return maybe(x); }
  template<class T> bool try_lock_until(T const& t) { note(t); in("try_lock_until"); return maybe(x); }
  template<class T> bool timed_lock(T const& t) { in("timed_lock"); return maybe(x); }
  void lock_shared() { in("lock_shared"); ++s; }
  bool try_lock_shared() { in("try_lock_shared"); return maybe(s); }
  void unlock_shared() { out("unlock_shared", s); }
  template<class T> bool try_lock_shared_for(T const& t) { note(t); in("try_lock_shared_for"); return maybe(s); }
  template<class T> bool try_lock_shared_until(T const& t) { note(t); in("try_lock_shared_until"); return maybe(s); }
  template<class T> bool timed_lock_shared(T const&) { in("timed_lock_shared"); return maybe(s); }
  void lock_upgrade() { in("lock_upgrade"); ++u; }
  bool try_lock_upgrade() { in("try_lock_upgrade"); return maybe(u); }
  void unlock_upgrade() { out("unlock_upgrade", u); }
  template<class T> bool try_lock_upgrade_for(T const& t) { note(t); in("try_lock_upgrade_for"); return maybe(u); }
  template<class T> bool try_lock_upgrade_until(T const& t) { note(t); in("try_lock_upgrade_until"); return maybe(u); }
  bool try_unlock_shared_and_lock() { return conv("try_unlock_shared_and_lock", s, x, true); }
  template<class T> bool try_unlock_shared_and_lock_for(T const& t) { note(t); return conv("try_unlock_shared_and_lock_for", s, x, true); }
  template<class T> bool try_unlock_shared_and_lock_until(T const& t) { note(t); return conv("try_unlock_shared_and_lock_until", s, x, true); }
  bool try_unlock_shared_and_lock_upgrade() { return conv("try_unlock_shared_and_lock_upgrade", s, u, true); }
  template<class T> bool try_unlock_shared_and_lock_upgrade_for(T const& t) { note(t); return conv("try_unlock_shared_and_lock_upgrade_for", s, u, true); }
  template<class T> bool try_unlock_shared_and_lock_upgrade_until(T const& t) { note(t); return conv("try_unlock_shared_and_lock_upgrade_until", s, u, true); }
  bool try_unlock_upgrade_and_lock() { return conv("try_unlock_upgrade_and_lock", u, x, true); }
  template<class T> bool try_unlock_upgrade_and_lock_for(T const& t) { note(t); return conv("try_unlock_upgrade_and_lock_for", u, x, true); }
  template<class T> bool try_unlock_upgrade_and_lock_until(T const& t) { note(t); return conv("try_unlock_upgrade_and_lock_until", u, x, true); }
  void unlock_and_lock_shared() { conv("unlock_and_lock_shared", x, s, false); }
  void unlock_and_lock_upgrade() { conv("unlock_and_lock_upgrade", x, u, false); }
  void unlock_upgrade_and_lock() { conv("unlock_upgrade_and_lock", u, x, false); }
  void unlock_upgrade_and_lock_shared() { conv("unlock_upgrade_and_lock_shared", u, s, false); }
};
#endif
