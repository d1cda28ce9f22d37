// Queueing order of the fair locks.  An attempt that has already been put to sleep when another attempt
// starts is "ahead" of it; the policy says which pairs must be served in that order.
// Parameters: HDR, MTX, POLICY (0 exclusive only, 1 task fair, 2 phase fair, 3 writer preference), XOPS, SOPS, ROUNDS, NT,
// TIMEDX (threads whose exclusive attempts are timed), HOLD0 (1: the lock starts out held exclusively, 2: shared; thread 0 only releases it).
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include HDR
typedef MTX mtx_t;
#ifndef XOPS
#define XOPS 3
#endif
#ifndef SOPS
#define SOPS 0
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef DBITS
#define DBITS 4
#endif
#ifndef HOLD0
#define HOLD0 0
#endif
#ifndef ORDERED
#define ORDERED 0         // 1: thread t only starts once thread t-1 has been put to sleep or has finished its attempt
#endif
#ifndef MODES
#define MODES 2           // 2: chosen; otherwise bit t of ROLES says whether thread t reads
#endif
#ifndef ROLES
#define ROLES 0
#endif
#define ORDERCHK(c, m) do { if (PROP != 2 && PROP != 4) CHECK(c, m); } while (0)   // C02 and C04 use the same queues
static mtx_t* mtx; alignas(64) static unsigned char mtxbuf[sizeof(mtx_t)];
typedef std::chrono::nanoseconds ns;
unsigned ghost_mode[NT];               // 0 no attempt, 1 exclusive, 2 shared attempt in progress (not yet granted)
bool ghost_untimed[NT];                // the attempt cannot give up
unsigned ghost_before[NT];             // attempts that must be granted (or given up) first
unsigned ghost_leaders[NT];            // readers that had been put to sleep when this exclusive attempt started
bool ghost_ended[NT];
bool ghost_bypass[NT];                 // a reader may have queued ahead of this exclusive attempt
int ghost_writer = -1; unsigned ghost_readers;
static int me() { return __vx_tid(); }
static bool queued(int t) { return ghost_mode[t] && __vx_waited(t); }
static void endAttempt() { for (int t = 0; t < NT; t++) { ghost_before[t] &= ~(1u << me()); ghost_leaders[t] &= ~(1u << me()); } ghost_mode[me()] = 0; ghost_ended[me()] = true; }
static void startAttempt(bool shared, bool untimed) {
  int m = me(); unsigned b = 0, ld = 0; bool by = false;
  __vx_waited_reset();
  for (int t = 0; t < NT; t++) if (t != m && ghost_mode[t]) {
    bool q = __vx_waited(t);
    if (!shared && ghost_mode[t] == 2) by = true;
    if (shared && ghost_mode[t] == 1 && !q) ghost_bypass[t] = true;
    if (!q) continue;
    if (!shared && ghost_mode[t] == 2 && ghost_untimed[t]) ld |= 1u << t;
    bool rule = POLICY == 0 || POLICY == 3 || !shared || ghost_mode[t] == 1;
    if (POLICY == 2 && shared && ghost_bypass[t]) rule = false;
    if (POLICY == 3) rule = shared && ghost_mode[t] == 1;
    if (rule) b |= 1u << t;
  }
  ghost_bypass[m] = by; ghost_before[m] = b; ghost_leaders[m] = ld; ghost_mode[m] = shared ? 2 : 1; ghost_untimed[m] = untimed;
}
static void granted() {
#if POLICY == 3   // writer preference: no reader gets in while a writer that cannot give up is queued
  if (ghost_mode[me()] == 2) for (int t = 0; t < NT; t++) if (queued(t) && ghost_mode[t] == 1 && ghost_untimed[t]) ORDERCHK(false, "a reader is served while a writer is queued");
#endif
#if POLICY == 3   // a writer that is about to give up no longer counts
  for (int t = 0; t < NT; t++) if ((ghost_before[me()] >> t & 1) && !ghost_untimed[t] && !__vx_waiting(t)) ghost_before[me()] &= ~(1u << t);
#endif
  ORDERCHK(ghost_before[me()] == 0, "a later attempt is served before one that was already queued");
  endAttempt();
}
// phase fairness: a writer that releases while the next waiter is a reader starts a phase with every waiting reader
static void beforeRelease(bool exclusive) {
  if (POLICY != 2 || !exclusive) return;
  unsigned readers = 0, cand = ~0u; bool anyW = false;
  for (int t = 0; t < NT; t++) if (queued(t) && ghost_mode[t] == 2) readers |= 1u << t;
  for (int t = 0; t < NT; t++) if (queued(t) && ghost_mode[t] == 1) { cand &= ghost_leaders[t]; anyW = true; }
  for (int t = 0; t < NT; t++) if (!(queued(t) && ghost_mode[t] == 2 && ghost_untimed[t])) cand &= ~(1u << t);
  if (!(cand & ((1u << NT) - 1)) || !anyW) return;
  COVER("phase");
  for (int t = 0; t < NT; t++) if (queued(t) && ghost_mode[t] == 1) ghost_before[t] |= readers;
}
extern "C" void setup() {
  mtx = new (mtxbuf) mtx_t();
#if HOLD0
  __vx_set_tid(0);
#if HOLD0 == 1
  mtx->lock(); ghost_writer = 0;
#else
  mtx->lock_shared(); ghost_readers = 1;
#endif
  __vx_set_tid(30);
#endif
}
static bool attempt(bool shared) {
  unsigned op = __vx_choice(4); bool r = true;
  __vx_assume((shared ? SOPS : XOPS) >> op & 1);
  startAttempt(shared, op == 0);
  if (!shared) switch (op) {
#if XOPS & 1
  case 0: mtx->lock(); break;
#endif
#if XOPS & 2
  case 1: r = mtx->try_lock(); break;
#endif
#if XOPS & 4
  case 2: r = mtx->try_lock_for(ns((long long)__vx_symbits(DBITS))); break;
#endif
#if XOPS & 8
  case 3: r = mtx->try_lock_until(std::chrono::steady_clock::time_point(ns((long long)((1ull << 40) + __vx_symbits(DBITS))))); break;
#endif
  default: __vx_assume(false);
  } else switch (op) {
#if SOPS & 1
  case 0: mtx->lock_shared(); break;
#endif
#if SOPS & 2
  case 1: r = mtx->try_lock_shared(); break;
#endif
#if SOPS & 4
  case 2: r = mtx->try_lock_shared_for(ns((long long)__vx_symbits(DBITS))); break;
#endif
#if SOPS & 8
  case 3: r = mtx->try_lock_shared_until(std::chrono::steady_clock::time_point(ns((long long)((1ull << 40) + __vx_symbits(DBITS))))); break;
#endif
  default: __vx_assume(false);
  }
  if (!r) { if (queued(me())) COVER("gave-up"); endAttempt(); return false; }
  if (queued(me())) { if (shared) COVER("s-queued"); else COVER("x-queued"); }
  granted();
  CHK(2, ghost_writer == -1, "lock granted while a writer holds it");
  if (shared) { ghost_readers++; } else { CHK(2, ghost_readers == 0, "exclusive lock granted while readers hold it"); ghost_writer = me(); }
  return true;
}
static void release(bool shared) {
  beforeRelease(!shared);
  CHK(2, shared ? ghost_writer == -1 : ghost_writer == me() && ghost_readers == 0, "another thread got in while the lock was held");
  if (shared) ghost_readers--; else ghost_writer = -1;
#if SOPS
  if (shared) { mtx->unlock_shared(); return; }
#endif
  mtx->unlock();
}
static void body() {
  __vx_yield();          // the start of the first attempt is a scheduling decision too
#if HOLD0
  if (me() == 0) { release(HOLD0 == 2); return; }
#endif
#if ORDERED
  if (me() > (HOLD0 ? 1 : 0)) __vx_assume(ghost_ended[me() - 1] || queued(me() - 1));
#endif
  for (int i = 0; i < ROUNDS; i++) {
#if !SOPS
    bool shared = false;
#elif MODES == 2
    bool shared = __vx_choice(2);
#else
    bool shared = ROLES >> me() & 1;
#endif
    if (!attempt(shared)) continue;
#if !HOLD0 || PROP == 2
    __vx_yield();
#endif
    release(shared);
  }
}
extern "C" void thread_0() { body(); }
extern "C" void thread_1() { body(); }
#if NT > 2
extern "C" void thread_2() { body(); }
#endif
#if NT > 3
extern "C" void thread_3() { body(); }
#endif
extern "C" void final() { COVER("final"); mtx->~mtx_t(); }
