// Exclusive lock harness: NT threads, ROUNDS attempts each, every attempt uses a solver-chosen
// operation.  Parameters: HDR, MTX, OPS, NT, ROUNDS, REC (max. nesting), HOLD (thread 0 keeps the lock).
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include HDR
typedef MTX mtx_t;
#ifndef OPS
#define OPS 3
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef REC
#define REC 1
#endif
#ifndef DBITS
#define DBITS 4          // width of the solver-chosen relative timeout (ns)
#endif
#ifndef SLACK
#define SLACK 0          // distance of deadlines from the end of the modelled time
#endif
#ifndef HOLD
#define HOLD 0
#endif
#ifndef STDCLK
#define STDCLK std::chrono::steady_clock
#endif
static mtx_t* mtx; alignas(64) static unsigned char mtxbuf[sizeof(mtx_t)];
long payload = 0;                      // protected data (race-checked when --hb)
int ghost_owner = -1;                  // who is inside the critical section
int ghost_depth = 0;
unsigned ghost_busy[NT];               // thread is attempting, holding or releasing
unsigned ghost_epoch;                  // number of attempts started so far
uint64_t ghost_freeSince;              // time at which the last busy thread became idle
unsigned ghost_pending[NT];            // failed attempts that still lack a reason
typedef std::chrono::nanoseconds ns;
static int me() { return __vx_tid(); }
static bool othersBusy() { bool b = false; for (int t = 0; t < NT; t++) if (t != me() && ghost_busy[t]) b = true; return b; }
static unsigned busyMask() { unsigned m = 0; for (int t = 0; t < NT; t++) if (t != me() && ghost_busy[t]) m |= 1u << t; return m; }
static void idle() { ghost_busy[me()] = 0; ghost_freeSince = __vx_now(); }
extern "C" void setup() { mtx = new (mtxbuf) mtx_t(); }
// one attempt; returns true when the lock was obtained
static bool acquire(unsigned op, bool owner) {
  uint64_t now0 = __vx_now(), dl = 0; bool r = true, timed = false;
  bool alone = !othersBusy(); unsigned ep = ghost_epoch;
  if (!owner) { ghost_busy[me()] = 1; ghost_epoch++; ep++; ghost_pending[me()] = 0; }
  switch (op) {
#if OPS & 1
  case 0: mtx->lock(); break;
#endif
#if OPS & 2
  case 1: r = mtx->try_lock(); break;
#endif
#if OPS & 4
  case 2: { uint64_t d = __vx_symbits(DBITS); dl = now0 + d; __vx_assume(!SLACK || dl + SLACK <= __vx_clockmax()); timed = true; r = mtx->try_lock_for(ns((long long)d)); break; }
#endif
#if OPS & 8
  case 3: { uint64_t d = __vx_symbits(DBITS); dl = (1ull << 40) + d; __vx_assume(!SLACK || dl + SLACK <= __vx_clockmax()); timed = true; r = mtx->try_lock_until(STDCLK::time_point(ns((long long)(dl + (std::is_same<STDCLK, std::chrono::system_clock>::value ? 1ull << 50 : 0))))); break; }
#endif
#if OPS & 16
  case 4: { dl = now0; timed = true; r = mtx->try_lock_for(ns(-1)); dl = now0 - 1; break; }
#endif
  default: __vx_assume(false);
  }
  if (r) {
    if (op == 1) COVER("try-ok");
    if (timed) COVER("timed-ok");
    if (!owner) for (int t = 0; t < NT; t++) if (ghost_pending[t] >> me() & 1) ghost_pending[t] = 0;
    return true;
  }
  CHK(3, !owner, "re-acquisition by the owning thread is refused");
  if (timed) {
    COVER("timed-fail");
    CHK(6, __vx_now() >= dl, "timed attempt gives up before its deadline");
    CHK(6, !(alone && ep == ghost_epoch), "timed attempt fails although the lock was free throughout");
    CHK(6, othersBusy() || ghost_freeSince + SLACK >= dl || ghost_freeSince == 0, "timed attempt fails although the lock became free before the deadline");
  } else {
    COVER("try-fail");
    CHK(5, !(alone && ep == ghost_epoch), "try_lock fails although no other thread uses the lock");
    if (alone) ghost_pending[me()] = busyMask(); else ghost_pending[me()] = 0;
  }
  // an attempt that fails cannot be the reason why another attempt failed
  for (int t = 0; t < NT; t++) if (ghost_pending[t] >> me() & 1) {
    ghost_pending[t] &= ~(1u << me());
    CHK(5, ghost_pending[t] != 0, "try_lock fails although no thread obtained the lock");
  }
  if (!owner) idle();
  return false;
}
static unsigned pickOp() {
  unsigned op = __vx_choice(5);
  __vx_assume(OPS >> op & 1);
  return op;
}
static void enter() {
  CHK(1, ghost_owner == -1, "two threads hold the exclusive lock");
  ghost_owner = me(); ghost_depth = 1;
  payload++;
}
static void inside() {
  CHK(1, ghost_owner == me(), "another thread obtained the lock while it was held");
  CHK(3, ghost_owner == me(), "lock lost while the ownership depth is still positive");
}
static void leave() { inside(); payload++; ghost_owner = -1; ghost_depth = 0; }
static void body() {
#if PROP == 5 || PROP == 6 || ALLPROPS
  __vx_yield();          // the start of the first attempt is a scheduling decision too
#endif
  for (int i = 0; i < ROUNDS; i++) {
    if (!acquire(pickOp(), false)) continue;
    enter();
    __vx_yield();
    inside();
#if REC > 1
    int depth = 1;
    for (int k = 1; k < REC; k++) {
      if (!__vx_choice(2)) break;
      if (!acquire(pickOp(), true)) break;
      depth++; COVER("nested");
      __vx_yield(); inside();
    }
    while (depth > 1) { mtx->unlock(); depth--; __vx_yield(); inside(); }
#endif
    COVER("held");
#if HOLD
    if (me() == 0) { COVER("kept"); return; }
#endif
    leave();
    mtx->unlock();
    idle();
  }
}
extern "C" void thread_0() { body(); }
#if NT > 1
extern "C" void thread_1() { body(); }
#endif
#if NT > 2
extern "C" void thread_2() { body(); }
#endif
extern "C" void final() {
#if HOLD
  if (ghost_owner == 0) { __vx_set_tid(0); CHK(5, true, ""); leave(); mtx->unlock(); __vx_set_tid(30); }
#endif
  CHK(1, ghost_owner == -1, "owner left over");
#if OPS & 2
  bool r = mtx->try_lock();
  CHK(5, r, "try_lock fails on a lock that every thread has released");
  CHK(3, r, "lock is not free after the outermost unlock");
  CHK(4, r, "lock is not free after every thread has released it");
  if (r) mtx->unlock();
#endif
  COVER("final");
  mtx->~mtx_t();
}
