// Backoff policies.  Parameters: POLICY, KIND (0 exponential, 1 yield, 2 busy), LEN, CAP (bound on the symbolic counters).
#include "vx.h"
#include "yamc_backoff_spin.hpp"
unsigned ghost_yields;
extern "C" int sched_yield() { ghost_yields++; return 0; }
typedef POLICY pol;
extern "C" void setup() {}
extern "C" void thread_0() {}
#if KIND == 0
template <class S> auto arbitrary(S& s, int) -> decltype(s.initcount, s.counter, bool()) { s.initcount = (unsigned)__vx_symbits(32); s.counter = (unsigned)__vx_symbits(32); __vx_assume(s.counter <= s.initcount); return true; }
template <class S> bool arbitrary(S&, long) { return false; }
#endif
extern "C" void final() {
#if KIND == 1
  pol::state s;
  for (int i = 0; i < LEN; i++) { unsigned y = ghost_yields; pol::wait(s); CHECK(ghost_yields == y + 1, "a wait does not yield exactly once"); }
#elif KIND == 2
  pol::state s;
  for (int i = 0; i < LEN; i++) pol::wait(s);
  CHECK(ghost_yields == 0, "the busy policy yields");
#else
  {
    pol::state s;
#ifdef FIRST
    // from the initial state: FIRST waits without a yield, then one
    for (unsigned i = 0; i < FIRST; i++) pol::wait(s);
    CHECK(ghost_yields == 0, "the first interval is shorter than the initial count");
    pol::wait(s); CHECK(ghost_yields == 1, "no yield at the end of the first interval");
    unsigned gap = FIRST, last = 0; (void)last;
    // every later interval is about half as long as the one before, and never empty
    for (int k = 0; k < LEN; k++) {
      unsigned n = 0; do { pol::wait(s); n++; CHECK(n <= (gap ? gap : 1), "the yield interval grows"); } while (ghost_yields == (unsigned)k + 1);
      CHECK(n >= 1 && n <= gap / 2 + 1, "the yield interval does not shrink exponentially");
      gap = n; COVER("interval");
    }
#endif
  }
  {
    // from any state: the next yield comes after at most counter waits, and the interval at least halves
    pol::state s;
    if (arbitrary(s, 0)) {
      unsigned c0 = s.counter, i0 = s.initcount; ghost_yields = 0;
      pol::wait(s);
      if (c0 == 0) { CHECK(ghost_yields == 1, "no yield although the interval is used up"); CHECK(s.initcount <= i0 / 2 + 1 && s.counter < (i0 / 2 + 1), "the yield interval does not shrink"); COVER("yielded"); }
      else { CHECK(ghost_yields == 0, "a yield before the interval is used up"); CHECK(s.counter < c0, "the interval does not run out"); CHECK(s.initcount == i0, "the interval changes without a yield"); COVER("spun"); }
      CHECK(s.counter <= s.initcount, "the counter leaves its interval");
    }
    pol::state t; if (arbitrary(t, 0)) {
      __vx_assume(t.counter <= CAP); unsigned c0 = t.counter; ghost_yields = 0;
      for (unsigned k = 0; k < CAP + 1; k++) { if (k > c0) break; pol::wait(t); }
      CHECK(ghost_yields >= 1, "no yield within the interval");
    }
  }
#endif
  COVER("final");
}
