// Deadlock detection of the checked locks.  NT threads each lock up to LEN different mutexes (chosen by the
// solver), then release them all.  A report must be backed by a real cycle, and no set of threads may end up
// blocked for ever.  Parameters: HDR, MTX, NM mutexes, LEN, SHARED (modes are chosen), TIMED (timed attempts too),
// ABORT (report by abort()), NULLV (detection disabled), PRE (thread t starts out holding mutex t; bit t of PRE says
// exclusively, otherwise shared), REQS (decimal digits, thread 0 last: the mutex each thread requests next, 9 = chosen,
// 8 = none), REQS2 (same for later requests, 8 = stop), MODES (digits: 1 exclusive, 0 shared, 9 chosen).
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include <system_error>
#include HDR
typedef MTX mtx_t;
#ifndef NM
#define NM 2
#endif
#ifndef LEN
#define LEN 2
#endif
#ifndef SHARED
#define SHARED 0
#endif
#ifndef WP
#define WP 0
#endif
#ifndef TIMED
#define TIMED 0
#endif
#ifndef NULLV
#define NULLV 0
#endif
#ifndef REQS
#define REQS 9999
#endif
#ifndef REQS2
#define REQS2 REQS        // the requests after the first one
#endif
#ifndef MODES
#define MODES 9999
#endif
static std::chrono::nanoseconds dur() { uint64_t d = __vx_symbits(4); __vx_assume(__vx_now() + d <= __vx_clockmax()); return std::chrono::nanoseconds((long long)d); }
static int digit(int v, int t) { while (t-- > 0) v /= 10; return v % 10; }
alignas(64) static unsigned char buf[NM][sizeof(mtx_t)];
static mtx_t* mtx(int i) { return reinterpret_cast<mtx_t*>(buf[i]); }
int ghost_x[NM];                        // exclusive owner or -1
unsigned ghost_s[NM];                   // shared owners
int ghost_want[NT]; bool ghost_wx[NT];  // what a thread is requesting (without a time limit)
static int me() { return __vx_tid(); }
extern "C" void setup() { for (int i = 0; i < NM; i++) { new (buf[i]) mtx_t(); ghost_x[i] = -1; } for (int t = 0; t < NT; t++) ghost_want[t] = -1;
#ifdef PRE
  for (int t = 0; t < NT; t++) {
    __vx_set_tid(t);
    if (PRE >> t & 1) { mtx(t)->lock(); ghost_x[t] = t; }
#if SHARED
    else { mtx(t)->lock_shared(); ghost_s[t] = 1u << t; }
#endif
  }
  __vx_set_tid(30);
#endif
}
// threads that t directly waits for
static unsigned blockers(int t) {
  if (ghost_want[t] < 0) return 0;
  int m = ghost_want[t]; unsigned b = ghost_x[m] >= 0 ? 1u << ghost_x[m] : 0;
  if (ghost_wx[t]) b |= ghost_s[m];
  else if (WP) for (int u = 0; u < NT; u++) if (u != t && ghost_want[u] == m && ghost_wx[u]) b |= ghost_s[m];
  return b & ~(1u << t);
}
static bool cycle(int t) {
  unsigned reach = blockers(t);
  for (int k = 0; k < NT; k++) for (int u = 0; u < NT; u++) if (reach >> u & 1) reach |= blockers(u);
  return reach >> t & 1;
}
#ifdef ABORT
extern "C" void __vx_on_abort() { 
  CHECK(cycle(me()), "abort without a deadlock");
#ifdef VX_SYMBOLIC
  __vx_assume(false);     // the process is gone; what remains are the executions without a report
#else
  __vx_path_end();
#endif
}
#endif
static void body() {
  __vx_yield();
  int held[LEN]; bool heldX[LEN]; int n = 0; bool gaveUp = false;
#ifdef PRE
  held[0] = me(); heldX[0] = PRE >> me() & 1; n = 1;
  if (digit(REQS, me()) != 8)
#endif
  for (int i = n; i < LEN; i++) {
    int rq = digit(i > 1 ? REQS2 : REQS, me());
    if (i > 1 && rq == 8) break;
    int m = rq == 9 ? (int)__vx_choice(NM) : rq;
    for (int k = 0; k < n; k++) __vx_assume(held[k] != m);
    bool x = true;
#if SHARED
    x = digit(MODES, me()) == 9 ? __vx_choice(2) : digit(MODES, me());
#endif
    bool timed = false;
#if TIMED
    timed = __vx_choice(2);
#endif
    bool r = true;
    if (!timed) { ghost_want[me()] = m; ghost_wx[me()] = x; }
#ifndef ABORT
    try {
#endif
#if TIMED
      if (timed) {
        if (x) r = mtx(m)->try_lock_for(dur());
#if SHARED
        else r = mtx(m)->try_lock_shared_for(dur());
#endif
      } else
#endif
#if SHARED
      if (!x) mtx(m)->lock_shared(); else
#endif
      mtx(m)->lock();
#ifndef ABORT
    } catch (const std::system_error& e) {
      CHECK(e.code().value() == EDEADLK, "wrong error code for a deadlock");
      CHECK(!timed, "a timed request reports a deadlock");
      CHECK(!NULLV, "a deadlock is reported although detection is disabled");
      CHECK(cycle(me()), "a deadlock is reported although there is none");
      COVER("reported"); gaveUp = true;
    }
#endif
    ghost_want[me()] = -1;
    if (gaveUp || !r) break;
    if (x) { CHECK(ghost_x[m] == -1 && ghost_s[m] == 0, "exclusive lock granted while held"); ghost_x[m] = me(); } else { CHECK(ghost_x[m] == -1, "shared lock granted while held"); ghost_s[m] |= 1u << me(); }
    held[n] = m; heldX[n] = x; n++;
  }
  if (n == LEN) COVER("all-held");
  while (n > 0) {
    n--; int m = held[n];
    if (heldX[n]) { ghost_x[m] = -1; mtx(m)->unlock(); }
#if SHARED
    else { ghost_s[m] &= ~(1u << me()); mtx(m)->unlock_shared(); }
#endif
  }
}
extern "C" void thread_0() { body(); }
extern "C" void thread_1() { body(); }
#if NT > 2
extern "C" void thread_2() { body(); }
#endif
extern "C" void final() {
  for (int i = 0; i < NM; i++) {
    bool r = mtx(i)->try_lock(); CHECK(r, "a mutex is still locked after every thread has released it");
    if (r) mtx(i)->unlock();
#if SHARED
    bool s = mtx(i)->try_lock_shared(); CHECK(s, "a reader is refused after every thread has released the mutex");
    if (s) mtx(i)->unlock_shared();
#endif
    mtx(i)->~mtx_t();
  }
  COVER("final");
}
