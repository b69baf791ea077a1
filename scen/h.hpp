// Shared helpers of the scenarios.
#ifndef VT_H_HPP
#define VT_H_HPP
#include "rt.h"
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <functional>
#include <memory>
#include <utility>
#include <cstring>
#include <cstdio>
#include <unordered_set>
using namespace vt;

// Raw threads (not created by the library) with lambdas.
struct Par {
  struct T { std::function<void()> f; u64 h; int id; };
  std::vector<T*> v;
  static void tr(void* p) { static_cast<T*>(p)->f(); }
  template<class F> int go(F f) { T* t = new T; t->f = f; t->h = 0; t->id = -1; { Quiet q; v.push_back(t); } t->id = vt_raw_spawn(&tr, t, &t->h); return t->id; }
  void join() { for (size_t i = 0; i < v.size(); ++i) vt_raw_join(v[i]->h); for (size_t i = 0; i < v.size(); ++i) delete v[i]; Quiet q; std::vector<T*>().swap(v); }
  ~Par() { if (!v.empty()) join(); }
};

// An int whose unsynchronised use the happens-before monitor sees.
struct Pay { long a, b; Pay() : a(0), b(0) {} void bump() { a++; vt_point(); b++; } bool ok() const { return a == b; } };

// A mutex for the harness only: excluded from the monitors, gives no ordering to the code under test.
struct Log {
  struct E { u64 step; int tid; int kind; long a, b; u64 t; };
  std::vector<E> e;
  u64 add(int kind, long a = 0, long b = 0) { Quiet q; E x; x.step = vt_step(); x.tid = vt_tid(); x.kind = kind; x.a = a; x.b = b; x.t = vt_now(); e.push_back(x); return x.step; }
  ~Log() { Quiet q; std::vector<E>().swap(e); }
};

// Ownership shadow of one exclusive lock with "possible ownership" intervals.
struct Shadow {
  int owner, depth; 
  struct Rec { int tid; u64 from, to; };
  std::vector<Rec> recs;        // closed: a call that ended owning, until its unlock returned
  struct Pend { int tid; u64 from; const char* what; bool timed; };
  std::vector<Pend> pend;       // blocking calls in progress
  std::vector<Rec> open;        // owned now
  struct Fail { int tid; u64 from, to; const char* what; };
  std::vector<Fail> fails;
  const char* key;
  Shadow(const char* k) : owner(-1), depth(0), key(k) {}
  ~Shadow() { Quiet q; std::vector<Rec>().swap(recs); std::vector<Pend>().swap(pend); std::vector<Rec>().swap(open); std::vector<Fail>().swap(fails); }
  u64 call(const char* what, bool blocking) { Quiet q; u64 s = vt_step(); Pend p = { vt_tid(), s, what, !blocking }; pend.push_back(p); return s; }
  void unpend() { int t = vt_tid(); for (size_t i = pend.size(); i-- > 0;) if (pend[i].tid == t) { pend.erase(pend.begin() + i); return; } }
  void got(u64 from) { Quiet q; unpend(); int t = vt_tid();
    if (owner != -1 && owner != t) vt_fail(key, "two owners: thread %d acquired while thread %d owns", t, owner);
    owner = t; if (depth++ == 0) { Rec r = { t, from, ~0ull }; open.push_back(r); } vt_count("acquired", 1); }
  void missed(u64 from, const char* what) { Quiet q; unpend(); Fail f = { vt_tid(), from, vt_step(), what }; fails.push_back(f); vt_count("refused", 1); }
  void thrown() { Quiet q; unpend(); }
  void check_mine() { Quiet q; if (owner != vt_tid()) vt_fail(key, "thread %d lost ownership to %d", vt_tid(), owner); }
  void releasing() { Quiet q; if (owner != vt_tid()) vt_fail(key, "thread %d releases but %d owns", vt_tid(), owner); if (--depth == 0) owner = -1; }
  void released() { Quiet q; int t = vt_tid(); if (depth > 0 && owner == t) return; for (size_t i = 0; i < open.size(); ++i) if (open[i].tid == t) { open[i].to = vt_step(); recs.push_back(open[i]); open.erase(open.begin() + i); return; } }
  static void idle(void* p) { Shadow* s = (Shadow*)p; if (s->owner == -1 && !s->pend.empty() && s->open.empty()) vt_fail(s->key, "nobody owns the lock, yet thread %d stays blocked in %s while all is quiet", s->pend[0].tid, s->pend[0].what); }
  void finish() { Quiet q; if (!vt_virtual()) return; 
    for (size_t i = 0; i < fails.size(); ++i) { bool ok = false; for (size_t j = 0; j < recs.size() && !ok; ++j) if (recs[j].tid != fails[i].tid && recs[j].from <= fails[i].to && recs[j].to >= fails[i].from) ok = true;
      if (!ok) vt_fail(key, "%s by thread %d failed although no other thread could have owned the lock during the call", fails[i].what, fails[i].tid); } }
};

// ---- linearizability (Wing & Gong with memoisation) -----------------------------------------------
// Model: copyable, bool apply(const Op&) -> whether the op with its observed result is legal now,
// u64 hash() const.
template<class Op> struct HOp { Op op; int tid; u64 call, ret; };
template<class Model, class Op> struct Lin {
  std::vector<HOp<Op> > h; std::unordered_set<std::string> seen; u64 budget; std::string best;
  bool dfs(const Model& m, u64 done, size_t left) {
    if (!left) return true; if (budget-- == 0) return true; // inconclusive counts as held
    std::string k((const char*)&done, 8); k += m.hash(); if (!seen.insert(k).second) return false;
    u64 minret = ~0ull; for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1) && h[i].ret < minret) minret = h[i].ret;
    for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1) && h[i].call <= minret) { Model m2(m); if (m2.apply(h[i].op)) if (dfs(m2, done | 1ull << i, left - 1)) return true; }
    return false;
  }
  bool check(const Model& init) { if (h.size() > 62) return true; budget = 400000; bool r = dfs(init, 0, h.size()); if (budget == 0) vt_count("linearizability_inconclusive", 1); else vt_count("linearizability_checks", 1); return r; }
};
template<class Op> struct Hist {
  std::vector<HOp<Op> > h;
  size_t call(const Op& op) { Quiet q; HOp<Op> x; x.op = op; x.tid = vt_tid(); x.call = vt_step(); x.ret = ~0ull; h.push_back(x); return h.size() - 1; }
  void ret(size_t i, const Op& op) { Quiet q; h[i].op = op; h[i].ret = vt_step(); }
  ~Hist() { Quiet q; std::vector<HOp<Op> >().swap(h); }
};
#endif
