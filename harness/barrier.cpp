// The barrier under every schedule.  NT threads take part in PHASES phases; in every phase each of them chooses how
// to arrive, and it may drop out (OPS bits: 1 arrive_and_wait 2 wait(arrive()) 4 arrive_and_drop 8 arrive() without
// waiting, last phase only 16 arrive(2) on behalf of two, thread 0 only).  START: the phases start just before the
// internal phase counter wraps.

#include "vx.h"
#include <new>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <cstddef>
#include <limits>
#include <utility>

#include "yamc_barrier.hpp"
#ifndef PHASES
#define PHASES 2
#endif
#ifndef OPS
#define OPS 3
#endif
unsigned ghost_phase, ghost_arrived, ghost_dropped, ghost_expect = NT + EXTRA;
static int me() { return __vx_tid(); }
struct Completion {
  void operator()() {
    CHECK(ghost_arrived == ghost_expect, "the completion step runs before everybody has arrived");
    ghost_expect -= ghost_dropped; ghost_dropped = 0; ghost_arrived = 0; ghost_phase++;
    COVER("completed");
  }
};
typedef yamc::barrier<Completion> barrier_t;
alignas(64) static unsigned char buf[sizeof(barrier_t)];
static barrier_t* B;
template <class T> auto preset(T& b, unsigned v, int) -> decltype(b.phase_, void()) { b.phase_ = (decltype(b.phase_))v; }
template <class T> void preset(T&, unsigned, long) {}
extern "C" void setup() {
  B = new (buf) barrier_t((std::ptrdiff_t)ghost_expect);
#ifdef START
  preset(*B, 0u - (unsigned)(START), 0);
#endif
}
static void passed(unsigned p) {
  CHECK(ghost_phase >= p + 1, "a thread passes the barrier before the phase is complete");
  CHECK(ghost_phase == p + 1, "the barrier runs ahead of a thread that still takes part");
}
static void body() {
  for (unsigned p = 0; p < PHASES; p++) {
    unsigned op = __vx_choice(5);
    __vx_assume((OPS) >> op & 1);
    unsigned w = 1;
#if EXTRA
    if (me() == 0) { if (op != 4) { __vx_assume(op != 2); (void)B->arrive(); ghost_arrived++; } }
#endif
    CHECK(ghost_phase == p, "the barrier is out of step with the threads that take part");
    switch (op) {
#if (OPS) & 1
    case 0: ghost_arrived += w; B->arrive_and_wait(); passed(p); COVER("waited"); break;
#endif
#if (OPS) & 2
    case 1: { ghost_arrived += w; auto t = B->arrive(); __vx_yield(); B->wait(std::move(t)); passed(p); break; }
#endif
#if (OPS) & 4
    case 2: ghost_arrived += w; ghost_dropped++; B->arrive_and_drop(); COVER("dropped"); return;
#endif
#if (OPS) & 8
    case 3: __vx_assume(p == PHASES - 1); ghost_arrived += w; (void)B->arrive(); return;
#endif
#if (OPS) & 16
    case 4: { __vx_assume(me() == 0); ghost_arrived += 2; auto t = B->arrive(2); B->wait(std::move(t)); passed(p); COVER("two"); break; }
#endif
    default: __vx_assume(false);
    }
  }
}
extern "C" void thread_0() { body(); }
extern "C" void thread_1() { body(); }
#if NT > 2
extern "C" void thread_2() { body(); }
#endif
extern "C" void final() {
  COVER("final");
  CHECK(ghost_arrived == 0 && ghost_dropped == 0, "an arrival is left over");
  // the barrier still works for the threads that are left
  if (ghost_expect > 0) {
    unsigned p = ghost_phase;
    for (unsigned i = 0; i < NT; i++) if (i + 1 < ghost_expect) { ghost_arrived++; (void)B->arrive(); CHECK(ghost_phase == p, "the phase completes too early"); }
    ghost_arrived++; B->arrive_and_wait();
    CHECK(ghost_phase == p + 1, "the phase does not complete");
  }
  B->~barrier_t();
}
