// Shared lock harness: NT threads, ROUNDS attempts each, every attempt uses a solver-chosen mode and
// operation.  Parameters: HDR, MTX, XOPS (exclusive), SOPS (shared) with bits 1 lock 2 try 4 for 8 until 16 for(-1).
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include HDR
typedef MTX mtx_t;
#ifndef XOPS
#define XOPS 3
#endif
#ifndef SOPS
#define SOPS 3
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef DBITS
#define DBITS 4
#endif
#ifndef STDCLK
#define STDCLK std::chrono::steady_clock
#endif
#ifndef W0
#define W0 0             // thread 0 uses exclusive mode only
#endif
static mtx_t* mtx; alignas(64) static unsigned char mtxbuf[sizeof(mtx_t)];
long payload = 0, sink[NT];
int ghost_writer = -1; int ghost_readers = 0; bool ghost_in[NT];
unsigned ghost_busy[NT];               // 0 idle, 1 exclusive, 2 shared: attempting, holding or releasing
unsigned ghost_epoch, ghost_xepoch;    // attempts started: all, exclusive ones
uint64_t ghost_freeSince, ghost_xfreeSince;
typedef std::chrono::nanoseconds ns;
static int me() { return __vx_tid(); }
static bool others(unsigned mask) { bool b = false; for (int t = 0; t < NT; t++) if (t != me() && (ghost_busy[t] & mask)) b = true; return b; }
static void idle() { if (ghost_busy[me()] == 1) ghost_xfreeSince = __vx_now(); ghost_busy[me()] = 0; ghost_freeSince = __vx_now(); }
extern "C" void setup() { mtx = new (mtxbuf) mtx_t(); }
static STDCLK::time_point at(uint64_t t) { return STDCLK::time_point(ns((long long)(t + (std::is_same<STDCLK, std::chrono::system_clock>::value ? 1ull << 50 : 0)))); }
static bool acquire(bool shared, unsigned op) {
  uint64_t now0 = __vx_now(), dl = 0; bool r = true, timed = false;
  bool alone = !others(3), noX = !others(1);
  ghost_busy[me()] = shared ? 2 : 1; ghost_epoch++; if (!shared) ghost_xepoch++;
  unsigned ep = ghost_epoch, xep = ghost_xepoch;
  if (!shared) switch (op) {
#if XOPS & 1
  case 0: mtx->lock(); break;
#endif
#if XOPS & 2
  case 1: r = mtx->try_lock(); break;
#endif
#if XOPS & 4
  case 2: { uint64_t d = __vx_symbits(DBITS); dl = now0 + d; timed = true; r = mtx->try_lock_for(ns((long long)d)); break; }
#endif
#if XOPS & 8
  case 3: { uint64_t d = __vx_symbits(DBITS); dl = (1ull << 40) + d; timed = true; r = mtx->try_lock_until(at(dl)); break; }
#endif
#if XOPS & 16
  case 4: { dl = now0 - 1; timed = true; r = mtx->try_lock_for(ns(-1)); break; }
#endif
  default: __vx_assume(false);
  } else switch (op) {
#if SOPS & 1
  case 0: mtx->lock_shared(); break;
#endif
#if SOPS & 2
  case 1: r = mtx->try_lock_shared(); break;
#endif
#if SOPS & 4
  case 2: { uint64_t d = __vx_symbits(DBITS); dl = now0 + d; timed = true; r = mtx->try_lock_shared_for(ns((long long)d)); break; }
#endif
#if SOPS & 8
  case 3: { uint64_t d = __vx_symbits(DBITS); dl = (1ull << 40) + d; timed = true; r = mtx->try_lock_shared_until(at(dl)); break; }
#endif
#if SOPS & 16
  case 4: { dl = now0 - 1; timed = true; r = mtx->try_lock_shared_for(ns(-1)); break; }
#endif
  default: __vx_assume(false);
  }
  if (r) {
    if (op == 1) { if (shared) COVER("s-try-ok"); else COVER("x-try-ok"); }
    if (timed) { if (shared) COVER("s-timed-ok"); else COVER("x-timed-ok"); }
    return true;
  }
  if (timed) {
    if (shared) COVER("s-timed-fail"); else COVER("x-timed-fail");
    CHK(6, __vx_now() >= dl, "timed attempt gives up before its deadline");
    if (shared) {
      CHK(6, !(noX && xep == ghost_xepoch), "timed shared attempt fails although no writer used the lock");
      CHK(6, others(1) || ghost_xfreeSince >= dl || ghost_xfreeSince == 0, "timed shared attempt fails although the last writer left before the deadline");
    } else {
      CHK(6, !(alone && ep == ghost_epoch), "timed attempt fails although the lock was free throughout");
      CHK(6, others(3) || ghost_freeSince >= dl || ghost_freeSince == 0, "timed attempt fails although the lock became free before the deadline");
    }
  } else {
    if (shared) { COVER("s-try-fail"); CHK(5, !(noX && xep == ghost_xepoch), "try_lock_shared fails although no writer uses the lock"); }
    else { COVER("x-try-fail"); CHK(5, !(alone && ep == ghost_epoch), "try_lock fails although no other thread uses the lock"); }
  }
  idle();
  return false;
}
static void body() {
#if PROP == 5 || PROP == 6 || ALLPROPS
  __vx_yield();          // the start of the first attempt is a scheduling decision too
#endif
  for (int i = 0; i < ROUNDS; i++) {
    bool shared = __vx_choice(2); unsigned op = __vx_choice(5);
#if W0
    __vx_assume(me() != 0 || !shared);
#endif
#ifdef SHARERS         // which threads use the shared mode (bit mask)
    __vx_assume(shared == ((SHARERS) >> me() & 1));
#endif
    __vx_assume((shared ? SOPS : XOPS) >> op & 1);
    if (!acquire(shared, op)) continue;
    CHK(2, ghost_writer == -1, "lock granted while a writer holds it");
    if (!shared) {
      CHK(2, ghost_readers == 0, "exclusive lock granted while readers hold it");
      ghost_writer = me(); payload++;
      __vx_yield();
      CHK(2, ghost_writer == me() && ghost_readers == 0, "another thread obtained the lock while a writer held it");
      COVER("written");
      payload++; ghost_writer = -1;
      mtx->unlock();
    } else {
      ghost_readers++; ghost_in[me()] = true;
      long v = payload;
      __vx_yield();
      CHK(2, ghost_writer == -1, "a writer obtained the lock while a reader held it");
      CHK(2, payload == v, "data changed under a shared lock");
      if (ghost_readers > 1) COVER("readers-together");
      ghost_in[me()] = false; ghost_readers--;
      mtx->unlock_shared();
    }
    idle();
  }
}
extern "C" void thread_0() { body(); }
#if NT > 1
extern "C" void thread_1() { body(); }
#endif
#if NT > 2
extern "C" void thread_2() { body(); }
#endif
extern "C" void final() {
#if XOPS & 2
  bool r = mtx->try_lock();
  CHK(5, r, "try_lock fails on a lock that every thread has released");
  CHK(4, r, "lock is not free after every thread has released it");
  CHK(2, r, "lock is not free after every thread has released it");
  if (r) {
    __vx_set_tid(29);
    bool s = mtx->try_lock_shared();
    CHK(2, !s, "shared lock granted while a writer holds the lock");
    __vx_set_tid(30);
    mtx->unlock();
    s = mtx->try_lock_shared();
    CHK(5, s, "try_lock_shared fails on a free lock");
    if (s) {
      __vx_set_tid(29);
      bool s2 = mtx->try_lock_shared();
      CHK(2, s2, "two readers cannot share the lock");
      CHK(5, s2, "two readers cannot share the lock");
      bool x = (__vx_set_tid(28), mtx->try_lock());
      CHK(2, !x, "exclusive lock granted while readers hold it");
      if (s2) { __vx_set_tid(29); mtx->unlock_shared(); x = (__vx_set_tid(28), mtx->try_lock()); CHK(2, !x, "exclusive lock granted while one reader still holds it"); }
      __vx_set_tid(30); mtx->unlock_shared();
      r = mtx->try_lock();
      CHK(5, r, "try_lock fails after the last reader left");
      if (r) mtx->unlock();
    }
  }
#endif
  COVER("final");
  mtx->~mtx_t();
}
