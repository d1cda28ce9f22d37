// A recursive lock acquired DEPTH times by its owner stays closed to everybody else until the last release.
// Parameters: HDR, MTX, DEPTH.
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include HDR
typedef MTX mtx_t;
static mtx_t* mtx; alignas(64) static unsigned char mtxbuf[sizeof(mtx_t)];
static bool other() { __vx_set_tid(29); bool r = mtx->try_lock(); if (r) mtx->unlock(); __vx_set_tid(28); return r; }
extern "C" void setup() {}
extern "C" void thread_0() {}
extern "C" void final() {
  mtx = new (mtxbuf) mtx_t();
  __vx_set_tid(28);
  for (int i = 0; i < DEPTH; i++) {
    if (i % 2) { bool r = mtx->try_lock(); CHECK(r, "the owner is refused"); if (!r) return; } else mtx->lock();
    bool o = other(); CHECK(!o, "another thread acquires the lock although it is held"); if (o) return;
  }
  COVER("deep");
  // any number of releases short of all of them leaves the lock held
  unsigned n = 1 + (unsigned)__vx_choice(8);
  for (int i = DEPTH; i > 0; i--) {
    if ((unsigned)i == n) { bool o = other(); CHECK(!o, "another thread acquires the lock before the last release"); }
    mtx->unlock();
    if (i == 1) { bool o = other(); CHECK(o, "the lock is not free after the last release"); }
    else if (i < 4 || i % 16 == 0) { bool o = other(); CHECK(!o, "another thread acquires the lock before the last release"); }
  }
  __vx_set_tid(30); mtx->~mtx_t(); COVER("final");
}
