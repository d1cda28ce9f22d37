// scoped_lock under every schedule: NT threads guard overlapping sets of mutexes, named in different orders.
// Parameters: HDR, MTX, N (mutexes per guard, 1..3), ADOPT (a thread may lock by hand and adopt), THROW.
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include HDR
#include "yamc_scoped_lock.hpp"
typedef MTX mtx_t;
#ifndef N
#define N 2
#endif
alignas(64) static unsigned char buf[3][sizeof(mtx_t)];
static mtx_t& m(int i) { return *reinterpret_cast<mtx_t*>(buf[i]); }
int ghost_own[3] = {-1, -1, -1};
static int me() { return __vx_tid(); }
struct Boom {};
extern "C" void setup() { for (int i = 0; i < 3; i++) new (buf[i]) mtx_t(); }
static void inside(int a, int b, int c) {
  int s[3] = {a, b, c};
  for (int i = 0; i < N; i++) { CHECK(ghost_own[s[i]] == -1, "a guarded mutex is held by two threads"); ghost_own[s[i]] = me(); }
  __vx_yield();
  for (int i = 0; i < N; i++) { CHECK(ghost_own[s[i]] == me(), "a guarded mutex is lost inside the scope"); ghost_own[s[i]] = -1; }
  COVER("inside");
}
#if N == 1
#define ARGS m(a)
#elif N == 2
#define ARGS m(a), m(b)
#else
#define ARGS m(a), m(b), m(c)
#endif
static void guard(int a, int b, int c) {
#ifdef THROW
  try {
#endif
#ifdef ADOPT
  if (__vx_choice(2)) {
#if N == 1
    m(a).lock(); yamc::scoped_lock<mtx_t> g(std::adopt_lock, m(a));
#elif N == 2
    std::lock(m(a), m(b)); yamc::scoped_lock<mtx_t, mtx_t> g(std::adopt_lock, m(a), m(b));
#endif
    inside(a, b, c); COVER("adopted");
    return;
  }
#endif
#if N == 1
  yamc::scoped_lock<mtx_t> g(m(a));
#elif N == 2
  yamc::scoped_lock<mtx_t, mtx_t> g(m(a), m(b));
#else
  yamc::scoped_lock<mtx_t, mtx_t, mtx_t> g(m(a), m(b), m(c));
#endif
  inside(a, b, c);
#ifdef THROW
  throw Boom();
  } catch (const Boom&) { COVER("unwound"); }
#endif
}
extern "C" void thread_0() { guard(0, 1, 2); }
extern "C" void thread_1() { guard(N == 1 ? 0 : 1, N == 1 ? 1 : N == 3 ? 2 : 0, N == 3 ? 0 : 2); }
#if NT > 2
extern "C" void thread_2() { guard(N == 1 ? 0 : 2, N == 1 ? 1 : 0, N == 1 ? 2 : 1); }
#endif
extern "C" void final() {
  { yamc::scoped_lock<> none; (void)none; yamc::scoped_lock<> none2{std::adopt_lock}; (void)none2; }
  for (int i = 0; i < 3; i++) { bool r = m(i).try_lock(); CHECK(r, "a mutex is still held after every scope has ended"); if (r) m(i).unlock(); m(i).~mtx_t(); }
  COVER("final");
}
