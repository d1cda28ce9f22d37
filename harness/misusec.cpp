// Usage errors of the checked locks while other threads hold the lock or wait for it: NT threads, each issues LEN
// operations of its choice on one lock and then releases what it holds.  Parameters: HDR, MTX, KIND (0 plain,
// 1 recursive, 2 shared), OPS (bits as in misuse.cpp), LEN, NT.
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include <cerrno>
#include <system_error>
#include HDR
typedef MTX mtx_t;
#ifndef LEN
#define LEN 2
#endif
alignas(64) static unsigned char buf[sizeof(mtx_t)];
static mtx_t* mtx;
int ghost_x = -1, ghost_readers; unsigned ghost_depth[NT]; bool ghost_s[NT];
typedef std::chrono::nanoseconds ns;
static int me() { return __vx_tid(); }
static ns dur() { return ns((long long)__vx_symbits(3) - 1); }
extern "C" void setup() { mtx = new (buf) mtx_t(); }
static void unlockX() { if (--ghost_depth[me()] == 0) ghost_x = -1; }
static void step() {
  int w = me(); unsigned op = __vx_choice(10);
  __vx_assume((OPS) >> op & 1);
  bool acq = op < 4 || (op >= 5 && op < 9), sh = op >= 5;
  bool mineX = ghost_depth[w] != 0, mineS = ghost_s[w];
  int want = 0;
  if (acq) { if ((mineX && KIND != 1) || mineS) want = EDEADLK; }
  else want = (sh ? mineS : mineX) ? 0 : EPERM;
  if (!acq && want == 0) { if (sh) { ghost_s[w] = false; ghost_readers--; } else unlockX(); }   // the lock may pass on before the call returns
  int got = 0; bool r = true;
  try {
    switch (op) {
    case 0: mtx->lock(); break;
    case 1: r = mtx->try_lock(); break;
#if (OPS) & 4
    case 2: r = mtx->try_lock_for(dur()); break;
#endif
    case 4: mtx->unlock(); break;
#if (OPS) & 32
    case 5: mtx->lock_shared(); break;
    case 6: r = mtx->try_lock_shared(); break;
#if (OPS) & 128
    case 7: r = mtx->try_lock_shared_for(dur()); break;
#endif
    case 9: mtx->unlock_shared(); break;
#endif
    default: __vx_assume(false);
    }
  } catch (const std::system_error& e) { got = e.code().value(); if (got <= 0) got = 9999; }
  if (want == 0) CHECK(got == 0, "an error is reported although the lock is used correctly");
  if (want == EPERM) { CHECK(got == EPERM, "releasing a lock that is not held by the caller is not reported"); COVER("eperm"); }
  if (want == EDEADLK) { CHECK(got == EDEADLK, "acquiring a lock the caller already holds is not reported"); COVER("edeadlk"); }
  if (want || !acq || got) return;
  if (!r) { COVER("refused"); CHECK(!mineX, "the owner of a recursive lock is refused"); return; }
  CHECK(ghost_x == -1 || (KIND == 1 && ghost_x == w), "lock granted although another thread holds it");
  if (sh) { ghost_s[w] = true; ghost_readers++; }
  else { CHECK(ghost_readers == 0, "lock granted although another thread holds it"); ghost_x = w; ghost_depth[w]++; }
  COVER("held");
}
static void body() {
  for (int i = 0; i < LEN; i++) { __vx_yield(); step(); }
  __vx_yield();
  while (ghost_depth[me()]) { unlockX(); mtx->unlock(); }
#if (OPS) & 32
  if (ghost_s[me()]) { ghost_s[me()] = false; ghost_readers--; mtx->unlock_shared(); }
#endif
}
extern "C" void thread_0() { body(); }
extern "C" void thread_1() { body(); }
#if NT > 2
extern "C" void thread_2() { body(); }
#endif
extern "C" void final() {
  bool r = mtx->try_lock(); CHECK(r, "the lock is not free after everybody has released it");
  if (r) mtx->unlock();
  mtx->~mtx_t(); COVER("final");
}
