// Usage errors of the checked locks: every sequence of LEN operations issued by NW simulated threads on one
// lock, against a model of who owns it.  Parameters: HDR, MTX, KIND (0 plain, 1 recursive, 2 shared), OPS (bits:
// 1 lock 2 try 4 for 8 until 16 unlock 32 lock_shared 64 try_shared 128 shared_for 256 shared_until 512 unlock_shared),
// LEN, NW, ABORT (usage errors end in abort()).
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include <cerrno>
#include <system_error>
#include HDR
typedef MTX mtx_t;
#ifndef LEN
#define LEN 4
#endif
#ifndef NW
#define NW 2
#endif
alignas(64) static unsigned char buf[sizeof(mtx_t)];
static mtx_t* mtx;
int ghost_x = -1; unsigned ghost_depth; bool ghost_s[NW];
bool ghost_abortOk;
typedef std::chrono::nanoseconds ns;
static std::chrono::steady_clock::time_point tp() { return std::chrono::steady_clock::time_point(ns((long long)((1ull << 40) + __vx_symbits(4)))); }
static ns dur() { return ns((long long)__vx_symbits(4) - 4); }
extern "C" void __vx_on_abort() { CHECK(ghost_abortOk, "abort() although the lock is used correctly"); COVER("aborted"); __vx_path_end(); }
static bool held() { if (ghost_x >= 0) return true; for (int i = 0; i < NW; i++) if (ghost_s[i]) return true; return false; }
static bool others(int w) { if (ghost_x >= 0 && ghost_x != w) return true; for (int i = 0; i < NW; i++) if (i != w && ghost_s[i]) return true; return false; }
static void step() {
  int w = (int)__vx_choice(NW); unsigned op = __vx_choice(10);
  __vx_assume((OPS) >> op & 1);
  bool acq = op < 4 || (op >= 5 && op < 9), sh = op >= 5;
  bool mineX = ghost_x == w, mineS = ghost_s[w];
  enum { REFUSED = -1 };
  int want = 0;
  if (acq) {
    if (KIND == 1 && mineX) want = 0;
    else if (mineX || mineS) want = EDEADLK;
    else if (sh ? (ghost_x >= 0) : others(w)) { want = REFUSED; __vx_assume(op == 1 || op == 6); }   // attempts that would have to wait are not part of these sequences
  } else want = (sh ? mineS : mineX) ? 0 : EPERM;
  ghost_abortOk = want > 0;
  __vx_set_tid(28 - w);
  int got = 0; bool r = true;
  try {
    switch (op) {
    case 0: mtx->lock(); break;
    case 1: r = mtx->try_lock(); break;
#if (OPS) & 4
    case 2: r = mtx->try_lock_for(dur()); break;
    case 3: r = mtx->try_lock_until(tp()); break;
#endif
    case 4: mtx->unlock(); break;
#if (OPS) & 32
    case 5: mtx->lock_shared(); break;
    case 6: r = mtx->try_lock_shared(); break;
#if (OPS) & 128
    case 7: r = mtx->try_lock_shared_for(dur()); break;
    case 8: r = mtx->try_lock_shared_until(tp()); break;
#endif
    case 9: mtx->unlock_shared(); break;
#endif
    default: __vx_assume(false);
    }
    if (!r) got = REFUSED;
  } catch (const std::system_error& e) { got = e.code().value(); if (got <= 0) got = 9999; }
  __vx_set_tid(30);
#ifdef ABORT
  CHECK(!ghost_abortOk, "a usage error does not end in abort()");
#endif
  if (want <= 0) CHECK(got <= 0, "an error is reported although the lock is used correctly");
  if (want == EPERM) { CHECK(got > 0, "releasing a lock that is not held by the caller is not reported"); CHECK(got == EPERM, "wrong error code for an invalid release"); COVER("eperm"); }
  if (want == EDEADLK) { CHECK(got > 0, "acquiring a lock the caller already holds is not reported"); CHECK(got == EDEADLK, "wrong error code for a repeated acquisition"); COVER("edeadlk"); }
  if (want == REFUSED) { CHECK(got == REFUSED, "try succeeds on a lock held by another thread"); COVER("refused"); }
  if (want == 0) {
    CHECK(got == 0, "a correct operation fails");
    if (acq && !sh) { ghost_x = w; ghost_depth++; if (ghost_depth > 1) COVER("nested"); }
    else if (acq) ghost_s[w] = true;
    else if (!sh) { if (--ghost_depth == 0) ghost_x = -1; }
    else ghost_s[w] = false;
  }
  ghost_abortOk = false;
}
extern "C" void final() {
  mtx = new (buf) mtx_t();
  for (int i = 0; i < LEN; i++) step();
  // the end of the lifetime
  bool h = held(), thrown = false;
  ghost_abortOk = h;
  try { mtx->~mtx_t(); } catch (const std::system_error& e) { thrown = true; CHECK(e.code().value() == EDEADLK, "wrong error code for the destruction of a held lock"); }
  if (h) COVER("abandoned"); else COVER("clean");
#ifdef ABORT
  CHECK(!h, "destruction of a held lock does not end in abort()");
#else
  CHECK(thrown == h, h ? "destruction of a held lock is not reported" : "destruction of a free lock is reported as an error");
#endif
  COVER("final");
}
extern "C" void setup() {}
extern "C" void thread_0() {}
