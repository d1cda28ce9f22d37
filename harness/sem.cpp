// Counting semaphores under every schedule.  Parameters: HDR, SEM, NT, ROUNDS, OPS (acquirer operations: bits
// 1 acquire 2 try 4 for 8 until(steady) 16 until(system) 32 for(negative)), REL (releases made by the last thread),
// UPD (largest update, values 0..UPD), INIT (initial value 0..INIT), DBITS.
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include HDR
typedef SEM sem_type;
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef REL
#define REL 1
#endif
#ifndef UPD
#define UPD 2
#endif
#ifndef INIT
#define INIT 1
#endif
#ifndef DBITS
#define DBITS 4
#endif
typedef std::chrono::nanoseconds ns;
alignas(64) static unsigned char buf[sizeof(sem_type)];
static sem_type* sem;
// tokens that have certainly been made available / certainly or possibly taken
unsigned ghost_relStarted, ghost_relDone, ghost_granted, ghost_init;
bool ghost_trying[NT];                 // an attempt of this thread may take a token
uint64_t ghost_availSince = 1;         // time since which a token was available to everybody (0: not available)
static int me() { return __vx_tid(); }
static unsigned possible() { unsigned n = 0; for (int t = 0; t < NT; t++) if (t != me() && ghost_trying[t]) n++; return n; }
// tokens left over whatever the other attempts in progress do
static int sure() { return (int)(ghost_init + ghost_relDone) - (int)ghost_granted - (int)possible(); }
bool ghost_short[NT];                  // during this attempt there may have been no token at some moment
static void note() { for (int t = 0; t < NT; t++) if (ghost_trying[t]) { int s = (int)(ghost_init + ghost_relDone) - (int)ghost_granted; for (int u = 0; u < NT; u++) if (u != t && ghost_trying[u]) s--; if (s <= 0) ghost_short[t] = true; } }
extern "C" void setup() {
  ghost_init = __vx_choice(INIT + 1);
  sem = new (buf) sem_type((std::ptrdiff_t)ghost_init);
}
static bool acquire() {
  unsigned op = __vx_choice(6);
  __vx_assume((OPS) >> op & 1);
  bool r = true, timed = false; uint64_t dl = 0, now0 = __vx_now();
  uint64_t d = __vx_symbits(DBITS);
#ifndef SLACK
#define SLACK 0
#endif
#if defined(LIVE) || SLACK
  __vx_assume(now0 + d + SLACK <= __vx_clockmax());
#endif
  ghost_trying[me()] = true; ghost_short[me()] = false; note();
  switch (op) {
#if (OPS) & 1
  case 0: sem->acquire(); break;
#endif
#if (OPS) & 2
  case 1: r = sem->try_acquire(); break;
#endif
#if (OPS) & 4
  case 2: dl = now0 + d; timed = true; r = sem->try_acquire_for(ns((long long)d)); break;
#endif
#if (OPS) & 8
  case 3: dl = (1ull << 40) + d; timed = true; r = sem->try_acquire_until(std::chrono::steady_clock::time_point(ns((long long)dl))); break;
#endif
#if (OPS) & 16
  case 4: dl = (1ull << 40) + d; timed = true; r = sem->try_acquire_until(std::chrono::system_clock::time_point(ns((long long)(dl + (1ull << 50))))); break;
#endif
#if (OPS) & 32
  case 5: dl = now0 - 1; timed = true; r = sem->try_acquire_for(ns(-1 - (long long)d)); break;
#endif
  default: __vx_assume(false);
  }
  bool shrt = ghost_short[me()];
  ghost_trying[me()] = false;
  if (r) {
    ghost_granted++;
    CHECK(ghost_granted <= ghost_init + ghost_relStarted, "more acquisitions than tokens");
    if (timed) COVER("timed-ok"); else if (op == 1) COVER("try-ok"); else COVER("acquired");
  } else {
    CHECK(shrt, "an attempt fails although a token was available throughout");
    if (timed) { CHECK(__vx_now() >= dl, "a timed attempt gives up before its deadline"); COVER("timed-fail"); } else COVER("try-fail");
  }
  note();
  return r;
}
static void rel(unsigned u) {
  ghost_relStarted += u;
  if (u == 1 && __vx_choice(2)) sem->release(); else sem->release((std::ptrdiff_t)u);
  ghost_relDone += u;
}
static void acquirer() {
  for (int i = 0; i < ROUNDS; i++) if (acquire()) {
#ifdef GIVEBACK
    __vx_yield(); rel(1);
#endif
  }
}
static void releaser() {
#if REL
  unsigned need = 0;
#ifndef GIVEBACK
  need = (NT - 1) * ROUNDS; need = need > ghost_init ? need - ghost_init : 0;   // in the end everybody can be served
#else
  need = ghost_init ? 0 : 1;
#endif
  for (int i = 0; i < REL; i++) {
    unsigned u = __vx_choice(UPD + 1);
    if (i == REL - 1) __vx_assume(ghost_relStarted + u >= need);
#ifdef BINARY
    __vx_assume(ghost_init + ghost_relStarted + u <= 1 + 0 * ghost_granted);
#endif
    rel(u);
  }
#else
  acquirer();
#endif
}
extern "C" void thread_0() { acquirer(); }
#if NT > 1
extern "C" void thread_1() {
#if NT == 2
  releaser();
#else
  acquirer();
#endif
}
#endif
#if NT > 2
extern "C" void thread_2() { releaser(); }
#endif
extern "C" void final() {
  int left = (int)(ghost_init + ghost_relDone) - (int)ghost_granted;
  for (int i = 0; i < left; i++) CHECK(sem->try_acquire(), "a released token is lost");
  CHECK(!sem->try_acquire(), "a token appears from nowhere");
  COVER("final");
  sem->~sem_type();
}
