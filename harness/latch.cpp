// The latch under every schedule.  Thread t contributes a chosen update; the updates sum up to the count.
// Parameters: NT, MAXU (largest update of one thread), SPLIT (a thread may split its update in two count_downs).
#include "vx.h"
#include <new>
#include "yamc_latch.hpp"
#ifndef MAXU
#define MAXU 2
#endif
alignas(64) static unsigned char buf[sizeof(yamc::latch)];
static yamc::latch* L;
unsigned ghost_u[NT], ghost_n, ghost_started, ghost_done;
bool ghost_open;                       // somebody has observed the latch open
static int me() { return __vx_tid(); }
extern "C" void setup() {
  for (int t = 0; t < NT; t++) { ghost_u[t] = __vx_choice(MAXU + 1); ghost_n += ghost_u[t]; }
  L = new (buf) yamc::latch((std::ptrdiff_t)ghost_n);
}
static void opened() { CHECK(ghost_started == ghost_n, "the latch lets a thread through before the count is used up"); ghost_open = true; }
static void tryit() {
  bool all = ghost_done == ghost_n || ghost_open;
  bool r = L->try_wait();
  if (r) { opened(); COVER("try-open"); } else { CHECK(!all, "try_wait fails although the latch is open"); COVER("try-closed"); }
}
static void body() {
  unsigned u = ghost_u[me()];
  switch (__vx_choice(4)) {
  case 0: { ghost_started += u; if (u == 1) L->count_down(); else L->count_down((std::ptrdiff_t)u); ghost_done += u; COVER("counted"); tryit(); break; }
  case 1: { ghost_started += u; if (u == 1) L->arrive_and_wait(); else L->arrive_and_wait((std::ptrdiff_t)u); opened(); COVER("arrived"); break; }
  case 2: { ghost_started += u; L->count_down((std::ptrdiff_t)u); ghost_done += u; L->wait(); opened(); tryit(); COVER("waited"); break; }
  case 3: { tryit(); if (u > 1) { ghost_started++; L->count_down(); ghost_done++; u--; } ghost_started += u; L->count_down((std::ptrdiff_t)u); ghost_done += u; break; }
  }
}
extern "C" void thread_0() { body(); }
extern "C" void thread_1() { body(); }
#if NT > 2
extern "C" void thread_2() { body(); }
#endif
extern "C" void final() {
  CHECK(L->try_wait(), "the latch is not open although the count is used up");
  L->wait(); L->arrive_and_wait(0); L->count_down(0);
  CHECK(L->try_wait(), "the latch closes again");
  COVER("final"); L->~latch();
}
