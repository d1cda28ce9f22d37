// The barrier, sequentially, over the whole range of expected counts.
#include "vx.h"
#include <new>
#include <utility>
#include "yamc_barrier.hpp"
unsigned ghost_calls;
struct Completion { void operator()() { ghost_calls++; } };
typedef yamc::barrier<Completion> barrier_t;
alignas(64) static unsigned char buf[sizeof(barrier_t)];
extern "C" void setup() {}
extern "C" void thread_0() {}
extern "C" void final() {
  uint64_t n = __vx_symbits(63); __vx_assume(0 < n && n < (uint64_t)(barrier_t::max)());
  barrier_t* B = new (buf) barrier_t((std::ptrdiff_t)n);
  uint64_t left = n; unsigned phases = 0;
  for (int i = 0; i < 4; i++) {
    uint64_t u = __vx_symbits(63); __vx_assume(0 < u && u <= left);
    bool aw = u == 1 && left == 1 && __vx_choice(2), drop = !aw && u == 1 && left == 1 && n > 1 && __vx_choice(2);
    if (aw) B->arrive_and_wait();
    else if (drop) { B->arrive_and_drop(); n--; COVER("dropped"); }
    else { auto t = B->arrive((std::ptrdiff_t)u); if (u == left) B->wait(std::move(t)); }
    left -= u;
    if (left == 0) { phases++; left = n; COVER("completed"); }
    CHECK(ghost_calls == phases, "the completion step does not run exactly once per phase");
  }
  COVER("final");
  B->~barrier_t();
}
