// POSIX wrappers: the native call made by every operation, with every time limit.  The native functions with a time
// limit are replaced by recorders.  Parameters: HDR, OBJ, KIND 0 mutex 1 rwlock 2 semaphore, BITS (width of the time
// limit, signed), UNIT (unit of relative and absolute limits), UTONS (nanoseconds in a unit).
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include <system_error>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <errno.h>
int ghost_calls, ghost_fn, ghost_result, ghost_errno; void* ghost_obj; timespec ghost_ts;
static int record(int fn, void* o, const timespec* t) {
  ghost_calls++; ghost_fn = fn; ghost_obj = o; ghost_ts = *t;
#if KIND == 2
  int e = ghost_errno; ghost_errno = 0; if (e == 0) return 0;
  ghost_result = e; errno = e; return -1;
#else
  return ghost_result;
#endif
}
static int rec_mutex(pthread_mutex_t* m, const timespec* t) { return record(1, m, t); }
static int rec_wr(pthread_rwlock_t* m, const timespec* t) { return record(2, m, t); }
static int rec_rd(pthread_rwlock_t* m, const timespec* t) { return record(3, m, t); }
static int rec_sem(sem_t* m, const timespec* t) { return record(4, m, t); }
static int rec_mutexc(pthread_mutex_t* m, clockid_t c, const timespec* t) { CHECK(c == CLOCK_REALTIME, "the time limit is measured on another clock"); return record(1, m, t); }
static int rec_wrc(pthread_rwlock_t* m, clockid_t c, const timespec* t) { CHECK(c == CLOCK_REALTIME, "the time limit is measured on another clock"); return record(2, m, t); }
static int rec_rdc(pthread_rwlock_t* m, clockid_t c, const timespec* t) { CHECK(c == CLOCK_REALTIME, "the time limit is measured on another clock"); return record(3, m, t); }
static int rec_semc(sem_t* m, clockid_t c, const timespec* t) { CHECK(c == CLOCK_REALTIME, "the time limit is measured on another clock"); return record(4, m, t); }
#define pthread_mutex_timedlock rec_mutex
#define pthread_rwlock_timedwrlock rec_wr
#define pthread_rwlock_timedrdlock rec_rd
#define sem_timedwait rec_sem
#define pthread_mutex_clocklock rec_mutexc
#define pthread_rwlock_clockwrlock rec_wrc
#define pthread_rwlock_clockrdlock rec_rdc
#define sem_clockwait rec_semc
#include HDR
#ifndef BITS
#define BITS 62
#endif
#ifndef UNIT
#define UNIT std::chrono::nanoseconds
#define UTONS 1
#endif
typedef OBJ obj_t;
alignas(64) static unsigned char buf[sizeof(obj_t)];
extern "C" void setup() {}
extern "C" void thread_0() {}
extern "C" void final() {
#if KIND == 2
  obj_t* o = new (buf) obj_t(0);
#else
  obj_t* o = new (buf) obj_t();
#endif
  long long v = (long long)(__vx_symbits(BITS)) - (1ll << (BITS - 1));
#ifdef OP
  const unsigned op = OP;
#else
  unsigned op = __vx_choice(4);
#endif
  bool rel = op & 1, r = false, threw = false;
  int want = KIND == 0 ? 1 : KIND == 1 ? 2 + (op >> 1) : 4;
#if KIND == 0
  __vx_assume(op < 2);
#endif
  ghost_result = 0;
#if KIND == 2
  unsigned out = __vx_choice(3); ghost_errno = out == 0 ? 0 : out == 1 ? ETIMEDOUT : EINVAL;
  bool ok = out == 0;
#else
  unsigned out = __vx_choice(2); ghost_result = out ? ETIMEDOUT : 0; bool ok = out == 0;
#endif
  long long now0 = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count(), tp;
  std::chrono::time_point<std::chrono::system_clock, UNIT> at{UNIT(v)};
  try {
#if KIND == 2
#if OP == 0
    r = o->try_acquire_until(at);
#elif OP == 1
    r = o->try_acquire_for(UNIT(v));
#else
    r = o->try_acquire_until(std::chrono::time_point<std::chrono::steady_clock, UNIT>(UNIT(v)));
#endif
#elif KIND == 1
    switch (op) {
    case 0: r = o->try_lock_until(at); break;
    case 1: r = o->try_lock_for(UNIT(v)); break;
    case 2: r = o->try_lock_shared_until(at); break;
    case 3: r = o->try_lock_shared_for(UNIT(v)); break;
    }
#else
    if (rel) r = o->try_lock_for(UNIT(v)); else r = o->try_lock_until(at);
#endif
  } catch (const std::system_error& e) { threw = true; CHECK(e.code().value() == EINVAL && ghost_result == EINVAL, "an error is reported that did not happen"); COVER("threw"); }
  tp = (rel ? now0 : 0) + v * UTONS;
#if KIND == 2
  if (op >= 2) tp = now0 + (v * UTONS - std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count());
  rel = false;
#endif
  CHECK(ghost_calls == 1 && ghost_fn == want, "the operation does not make the native call of its kind exactly once");
#if KIND != 2
  CHECK(ghost_obj == (void*)o->native_handle(), "the native call is made on another object");
#endif
  CHECK(ghost_ts.tv_nsec >= 0 && ghost_ts.tv_nsec < 1000000000, "the native call gets an invalid time limit");
  CHECK((unsigned long long)ghost_ts.tv_sec * 1000000000ull + (unsigned long long)ghost_ts.tv_nsec == (unsigned long long)tp, "the native call gets another time limit");
#if KIND == 2
  CHECK(threw == (out == 2), "an error of the native call is not reported");
#endif
  if (!threw) CHECK(r == ok, "the result differs from that of the native call");
  if (v < 0) COVER("negative"); else COVER("positive");
  if (r) COVER("ok"); else COVER("failed");
  if (rel) COVER("for"); else COVER("until");
  COVER("final");
  o->~obj_t();
}
