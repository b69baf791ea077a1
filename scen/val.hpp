// Result types of tasks and futures.
#ifndef VT_VAL_HPP
#define VT_VAL_HPP
#include "t.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
using namespace boost;
template<class T> using Fut = BOOST_THREAD_FUTURE<T>;
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
template<class R> using PT = packaged_task<R()>;
#else
template<class R> using PT = packaged_task<R>;
#endif
struct Err : std::exception { int id; long twin; Err(int i) : id(i), twin(-i) {} const char* what() const noexcept { return "Err"; } };
static int targets[16];
struct Big { long v[6]; std::string s; Big() : s(40, 'a') { for (int i = 0; i < 6; ++i) v[i] = 0; } explicit Big(int id) : s(40, 'a' + id % 26) { for (int i = 0; i < 6; ++i) { v[i] = id; vt_point(); } } Big(Big const& o) : s(o.s) { for (int i = 0; i < 6; ++i) { v[i] = o.v[i]; if (i == 3) vt_point(); } } Big(Big&& o) : s(std::move(o.s)) { o.s.clear(); for (int i = 0; i < 6; ++i) { v[i] = o.v[i]; } }
  Big& operator=(Big const& o) { s = o.s; for (int i = 0; i < 6; ++i) v[i] = o.v[i]; return *this; }
  int id() const { for (int i = 1; i < 6; ++i) if (v[i] != v[0]) vt_fail("torn", "a value is not whole"); if (s.size() != 40 || s.find_first_not_of((char)('a' + v[0] % 26)) != std::string::npos) vt_fail("torn", "a value is not whole (or was moved from)"); return v[0]; } };
struct MoveOnly { long* p; explicit MoveOnly(int id) : p(new long(id)) {} MoveOnly(MoveOnly&& o) noexcept : p(o.p) { o.p = 0; } MoveOnly& operator=(MoveOnly&& o) { std::swap(p, o.p); return *this; } MoveOnly(MoveOnly const&) = delete; ~MoveOnly() { delete p; } };
enum { BROKEN = 1000, EXC = 100, UNK = -1 };
template<class T> struct Tr;
template<> struct Tr<int> { static int make(int id) { return id; } static int id(int x) { return x; } };
template<> struct Tr<Big> { static Big make(int id) { return Big(id); } static int id(Big const& x) { return x.id(); } };
template<> struct Tr<MoveOnly> { static MoveOnly make(int id) { return MoveOnly(id); } static int id(MoveOnly const& x) { VT_CHECK(x.p, "torn", "a value was moved from"); return *x.p; } };
template<> struct Tr<int&> { static int& make(int id) { return targets[id]; } static int id(int& x) { VT_CHECK(&x >= targets && &x < targets + 16, "torn", "a reference is wrong"); return (int)(&x - targets); } };
template<> struct Tr<void> { static void make(int) {} };
template<class T, class F> struct Get { static int id(F& f) { return Tr<T>::id(f.get()); } };
template<class F> struct Get<void, F> { static int id(F& f) { f.get(); return UNK; } };
template<class T, class F> static int get_id(F& f) { try { return Get<T, F>::id(f); } catch (Err& e) { VT_CHECK(e.twin == -e.id, "torn", "an exception is not whole"); return EXC + e.id; } catch (broken_promise&) { return BROKEN; } }
// the outcome id as seen through a future of T (a void result has no id)
template<class T> static int norm(int id) { return std::is_void<T>::value && id < EXC ? UNK : id; }
template<class E, class F> static void must(const char* what, F f) { bool ok = false; try { f(); } catch (E&) { ok = true; } catch (std::exception& e) { vt_fail("error", "%s: wrong exception %s", what, e.what()); } VT_CHECK(ok, "error", "%s: no exception", what); vt_count("errors_checked", 1); }
#endif
