// Counting semaphores, sequentially: arbitrary initial values and updates over the whole range of the type,
// against an integer.  Parameters: HDR, SEM, LEN, BITS (width of the values), STEPS (units given back one by one).
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include HDR
typedef SEM sem_type;
typedef std::chrono::nanoseconds ns;
#ifndef LEN
#define LEN 5
#endif
#ifndef BITS
#define BITS 63
#endif
alignas(64) static unsigned char buf[sizeof(sem_type)];
extern "C" void setup() {}
extern "C" void thread_0() {}
extern "C" void final() {
  uint64_t c = __vx_symbits(BITS); const uint64_t mx = (uint64_t)(sem_type::max)();
  __vx_assume(c <= mx);
  sem_type* s = new (buf) sem_type((std::ptrdiff_t)c);
  for (int i = 0; i < LEN; i++) switch (__vx_choice(5)) {
  case 0: { uint64_t u = __vx_symbits(BITS); __vx_assume(u <= mx - c);
#ifdef SMALLUPD
    __vx_assume(u <= SMALLUPD);
#endif
    s->release((std::ptrdiff_t)u); c += u; COVER("released"); break; }
  case 1: if (c == mx) break; s->release(); c++; break;
  case 2: { bool r = s->try_acquire(); CHECK(r == (c > 0), "try_acquire does not reflect the number of tokens"); if (r) { c--; COVER("taken"); } else COVER("empty"); break; }
  case 3: if (c == 0) break; s->acquire(); c--; break;
  case 4: if (c == 0) break; { bool r = s->try_acquire_for(ns((long long)__vx_symbits(4) - 8)); CHECK(r, "a timed attempt fails although a token is available"); c--; } break;
  }
  bool r = s->try_acquire(); CHECK(r == (c > 0), "try_acquire does not reflect the number of tokens");
  COVER("final");
  s->~sem_type();
}
