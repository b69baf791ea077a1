// Harness API.  Two implementations of it exist:
//   rt.cpp     - controlled scheduler (virtual threads, virtual time, happens-before monitor)
//   native.cpp - ordinary pthreads, for the TSan / ASan+UBSan builds
#ifndef VT_RT_H
#define VT_RT_H
#include <cstdint>
#include <cstddef>
#include <cstdarg>
namespace vt {
typedef uint64_t u64;
typedef int64_t i64;
enum Flags {
  F_NONE = 0,
  F_NATIVE = 1,      // also meaningful with real threads (no exact-time oracle, no settle dependence)
  F_EXACT = 2,       // time advances only when every thread is blocked
  F_NOSPUR = 4,      // no spurious condition wakeups
  F_NOLEAK = 8,      // skip the per-execution leak check
  F_SLOW = 16,       // expensive: run with a lower weight
  F_KNOWN = 32,      // demonstrates a known finding; run a few times only
  F_FAULT = 64,      // uses allocation/creation fault injection
  F_HOT = 128,       // small critical scenario: run with a higher weight
  F_ONCE = 256,      // deterministic enough: few executions suffice
};
struct Scn { const char* name; void (*fn)(); unsigned flags; Scn* next; };
struct Reg { Reg(Scn*); };
#define SCENARIO(NAME, FLAGS) \
  static void scn_##NAME(); \
  static vt::Scn scn_d_##NAME = { #NAME, &scn_##NAME, (FLAGS), 0 }; \
  static vt::Reg scn_r_##NAME(&scn_d_##NAME); \
  static void scn_##NAME()

extern "C" {
void vt_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void vt_tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint32_t vt_rnd(uint32_t n);
void vt_point();                 // a possible preemption
void vt_yield();                 // give way
void vt_settle();                // let every other thread run until it blocks, without time passing
void vt_sleep(u64 ns);           // raw sleep (virtual time)
u64 vt_now();                    // monotonic ns
u64 vt_last_jump();              // when time last jumped although threads could run (0: never); a wait computed across the jump may last one polling interval longer
u64 vt_real();                   // realtime ns
void vt_step_clock(i64 ns);      // step the realtime clock
int vt_exact();                  // time only advances when idle
int vt_virtual();
int vt_tid();
int vt_blocked(int tid);         // is that thread blocked right now (virtual only)
int vt_raw_spawn(void (*f)(void*), void* a, u64* handle);   // plain pthread
void vt_raw_join(u64 handle);
void vt_raw_detach(u64 handle);
void vt_quiet(int d);
void vt_norace(int d);           // only disable the race detector (still preempt)
void vt_count(const char* name, u64 n);
void vt_outcome(u64 h);          // distinct observable outcomes
void vt_on_idle(void (*cb)(void*), void* a);
void vt_fail_create(int nth);    // nth pthread_create from now fails (1 = next); 0 = off
void vt_fail_new(int nth);       // nth operator new from now throws; 0 = off
int vt_fail_pending();
void vt_fail_init(int nth);      // nth initialisation of a mutex or condition from now fails
void vt_fail_mine(int on);       // injected faults hit the calling thread only
i64 vt_live_sync();              // explicitly initialised mutexes and conditions not destroyed
i64 vt_live_blocks();            // operator-new blocks of this execution still live
u64 vt_step();                   // logical time, unique and increasing
int vt_tier();                   // 0 quick, 1 thorough
void vt_spurious(int on);        // allow spurious wakeups from here
void vt_signals(int pct);        // nanosleep is cut short by a signal with this probability
int vt_mutex_owner(void* pthread_mutex);  // tid or -1 (virtual only)
void vt_no_jump(int on);         // forbid random time jumps from here on
u64 vt_last_stacksize();
int vt_last_detached();
}
struct Quiet { Quiet() { vt_quiet(1); } ~Quiet() { vt_quiet(-1); } };
struct NoRace { NoRace() { vt_norace(1); } ~NoRace() { vt_norace(-1); } };
inline bool chance(unsigned pct) { return vt_rnd(100) < pct; }
static const u64 US = 1000ull, MS = 1000000ull, SEC = 1000000000ull;
#define VT_CHECK(cond, key, ...) do { if (!(cond)) vt::vt_fail(key, __VA_ARGS__); } while (0)
}
#endif
