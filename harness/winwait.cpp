// Windows wrappers: the waits made by a timed attempt, for every time limit and every outcome of the native waits.
// Parameters: HDR, OBJ, WSEM (semaphore), OP 0 for 1 until, BITS (signed width of the limit), UNIT, UTONS.
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include <system_error>
#include <windows.h>
#ifndef BITS
#define BITS 54
#endif
#ifndef UNIT
#define UNIT std::chrono::nanoseconds
#define UTONS 1
#endif
int ghost_calls, ghost_sleeps; uint64_t ghost_ms, ghost_slept; bool ghost_inf, ghost_bad, ghost_okd, ghost_err, ghost_forever; HANDLE ghost_h;
static DWORD rec_wait(HANDLE h, DWORD ms) {
  ghost_bad |= ghost_okd || ghost_err;           // waits again after the outcome is known
  ghost_calls++; ghost_h = h; ghost_inf |= ms == INFINITE;
  switch (__vx_choice(3)) {
  case 0: ghost_okd = true; return WAIT_OBJECT_0;
  case 1: ghost_err = true; return WAIT_FAILED;
  default: ghost_ms += ms; return WAIT_TIMEOUT;
  }
}
static void rec_sleep(DWORD ms) { ghost_bad |= ghost_okd || ghost_err; ghost_sleeps++; ghost_slept += ms; }
static HANDLE ghost_created;
static HANDLE rec_mutex(void*, BOOL own, const char*) { CHECK(!own, "a new mutex is owned"); static int x; ghost_created = &x; return &x; }
static HANDLE rec_sema(void*, LONG i, LONG m, const char*) { static int x; ghost_created = &x; return &x; }
static BOOL rec_close(HANDLE h) { CHECK(h == ghost_created, "another handle is closed"); ghost_created = NULL; return TRUE; }
#define WaitForSingleObject rec_wait
#define Sleep rec_sleep
#define CreateMutex rec_mutex
#define CreateSemaphore rec_sema
#define CloseHandle rec_close
#include HDR
typedef OBJ obj_t;
alignas(64) static unsigned char buf[sizeof(obj_t)];
extern "C" void setup() {}
extern "C" void thread_0() {}
extern "C" void final() {
#ifdef WSEM
  obj_t* o = new (buf) obj_t(0);
#else
  obj_t* o = new (buf) obj_t();
  CHECK(o->native_handle() == ghost_created, "native_handle is not the handle of the mutex");
#endif
  long long v = (long long)(__vx_symbits(BITS)) - (1ll << (BITS - 1));
#ifdef FAR       // limits around multiples of the longest wait a native call accepts
  switch (__vx_choice(4)) { case 0: v += 4294967295ll * (1000000 / UTONS); break; case 1: v += 4294967296ll * (1000000 / UTONS); break; case 2: v += 3 * 4294967294ll * (1000000 / UTONS); break; case 3: v -= 4294967296ll * (1000000 / UTONS); break; }
#endif
  bool r = false, threw = false;
  try {
#if OP == 0
#ifdef WSEM
    r = o->try_acquire_for(UNIT(v));
#else
    r = o->try_lock_for(UNIT(v));
#endif
#else
    auto tp = std::chrono::steady_clock::now() + UNIT(v);
#ifdef WSEM
    r = o->try_acquire_until(tp);
#else
    r = o->try_lock_until(tp);
#endif
#endif
  } catch (const std::system_error&) { threw = true; COVER("threw"); }
  CHECK(ghost_calls > 0 && ghost_h == ghost_created, "the attempt does not wait on its own object");
  CHECK(!ghost_inf, "an attempt with a time limit waits for ever");
  CHECK(!ghost_bad, "an attempt waits on although its outcome is known");
  CHECK(threw == ghost_err, "a failure of the native call is not reported, or one is made up");
  if (threw) { CHECK(!r, ""); }
  else {
    CHECK(r == ghost_okd, "the result differs from that of the native call");
    if (!r) {
      CHECK(v <= 0 || ghost_ms >= (uint64_t)v / (1000000 / UTONS) + ((uint64_t)v % (1000000 / UTONS) != 0), "a timed attempt gives up before its limit");
      CHECK(v <= 0 || ghost_ms <= (uint64_t)v / (1000000 / UTONS) + 1, "a timed attempt waits longer than its limit");
      CHECK(v > 0 || ghost_ms == 0, "an attempt whose limit has passed waits");
      CHECK(v <= 0 || ghost_slept >= 1, "the native wait may end a tick early and nothing makes up for it");
      CHECK(ghost_slept <= 1, "a timed attempt sleeps on");
      COVER("failed");
    } else COVER("ok");
  }
  if (v < 0) COVER("negative"); else COVER("positive");
  o->~obj_t();
  CHECK(ghost_created == NULL, "the handle is not closed");
  COVER("final");
}
