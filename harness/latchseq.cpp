// The latch, sequentially, over the whole range of counts.
#include "vx.h"
#include <new>
#include "yamc_latch.hpp"
alignas(64) static unsigned char buf[sizeof(yamc::latch)];
extern "C" void setup() {}
extern "C" void thread_0() {}
extern "C" void final() {
  uint64_t n = __vx_symbits(63); __vx_assume(n < (uint64_t)(yamc::latch::max)());
  CHECK((yamc::latch::max)() > 0, "max() is not positive");
  yamc::latch* L = new (buf) yamc::latch((std::ptrdiff_t)n);
  for (int i = 0; i < 4; i++) {
    CHECK(L->try_wait() == (n == 0), "try_wait does not reflect the count");
    if (n == 0) { L->wait(); L->arrive_and_wait(0); COVER("open"); }
    uint64_t u = __vx_symbits(63); __vx_assume(u <= n);
    if (u == n && __vx_choice(2)) L->arrive_and_wait((std::ptrdiff_t)u); else L->count_down((std::ptrdiff_t)u);
    n -= u;
    if (n) COVER("closed");
  }
  CHECK(L->try_wait() == (n == 0), "try_wait does not reflect the count");
  COVER("final");
}
