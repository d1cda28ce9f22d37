// shared_lock against a model: LEN operations on two objects over two mutexes.  The mutex is a stand-in that counts
// shared ownership, refuses or throws as the solver chooses.  Parameters: LEN, SET (0 construct/lock/unlock, 1 moves/swap/release), THROWS.
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include <cerrno>
#include <system_error>
#include <utility>
#include "yamc_shared_lock.hpp"
#ifndef LEN
#define LEN 3
#endif
#ifndef OPS
#define OPS 0xffff
#endif
struct Boom {};
int ghost_cnt[2], ghost_calls; bool ghost_res; unsigned ghost_kind; long long ghost_arg; int ghost_on = -1; bool ghost_boom;
struct M {
  int id;
  bool enter(unsigned kind) {
    ghost_calls++; ghost_kind = kind; ghost_on = id; ghost_boom = false;
#ifdef THROWS
    if (__vx_choice(2)) { ghost_boom = true; throw Boom(); }
#endif
    return true;
  }
  void lock_shared() { enter(1); ghost_cnt[id]++; }
  bool maybe(unsigned kind) { enter(kind); ghost_res = __vx_choice(2); if (ghost_res) ghost_cnt[id]++; return ghost_res; }
  bool try_lock_shared() { return maybe(2); }
  template <class R, class P> bool try_lock_shared_for(const std::chrono::duration<R, P>& d) { ghost_arg = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); return maybe(3); }
  template <class C, class D> bool try_lock_shared_until(const std::chrono::time_point<C, D>& t) { ghost_arg = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); return maybe(4); }
  void unlock_shared() { ghost_calls++; ghost_kind = 5; ghost_on = id; CHECK(ghost_cnt[id] > 0, "the mutex is released more often than it was acquired"); ghost_cnt[id]--; }
};
typedef yamc::shared_lock<M> lock_t;
typedef std::chrono::nanoseconds ns;
static M mx[2];
alignas(16) static unsigned char buf[2][sizeof(lock_t)];
static lock_t& L(int i) { return *reinterpret_cast<lock_t*>(buf[i]); }
int pm[2]; bool ow[2];                 // model: mutex (-1 none), owns
static void agree(int i) {
  CHECK(L(i).owns_lock() == ow[i] && bool(L(i)) == ow[i], "owns_lock() differs from what was acquired and released");
  CHECK(L(i).mutex() == (pm[i] < 0 ? nullptr : &mx[pm[i]]), "mutex() is not the associated mutex");
}
static void counts() { for (int m = 0; m < 2; m++) { int n = 0; for (int i = 0; i < 2; i++) if (ow[i] && pm[i] == m) n++; CHECK(ghost_cnt[m] == n, "the mutex is held a different number of times than there are owning objects"); } }
// a locking operation through the object
static void acq(int i, unsigned kind) {
  int want = pm[i] < 0 ? EPERM : ow[i] ? EDEADLK : 0, got = 0; int calls = ghost_calls; bool r = true, boom = false; long long a = (long long)__vx_symbits(40);
  try {
    switch (kind) {
    case 1: L(i).lock(); break;
    case 2: r = L(i).try_lock(); break;
    case 3: r = L(i).try_lock_for(ns(a)); break;
    default: r = L(i).try_lock_until(std::chrono::steady_clock::time_point(ns(a))); break;
    }
  } catch (const std::system_error& e) { got = e.code().value(); } catch (const Boom&) { boom = true; }
  CHECK(got == want, want == EPERM ? "locking without a mutex is not reported" : want ? "locking an object that already owns the mutex is not reported" : "a correct locking operation reports an error");
  if (want) { CHECK(ghost_calls == calls, "a rejected operation touches the mutex"); COVER("rejected"); return; }
  CHECK(ghost_calls == calls + 1 && ghost_kind == kind && ghost_on == pm[i], "the matching operation of the mutex is not called exactly once");
  CHECK(boom == ghost_boom, "an exception of the mutex is lost");
  if (boom) { COVER("boom"); return; }
  if (kind >= 3) CHECK(ghost_arg == a, "the time limit is not passed on");
  if (kind > 1) CHECK(r == ghost_res, "the result of the attempt is not passed on");
  ow[i] = kind == 1 ? true : ghost_res;
  if (ow[i]) COVER("locked"); else COVER("refused");
}
static void construct(int i) {
  int m = (int)__vx_choice(2); unsigned k = __vx_choice(8); int calls = ghost_calls; long long a = (long long)__vx_symbits(40);
  pm[i] = m; ow[i] = false;
  try {
    switch (k) {
    case 0: new (buf[i]) lock_t(); pm[i] = -1; break;
    case 1: new (buf[i]) lock_t(mx[m]); ow[i] = true; break;
    case 2: new (buf[i]) lock_t(mx[m], std::defer_lock); break;
    case 3: new (buf[i]) lock_t(mx[m], std::try_to_lock); ow[i] = ghost_res; break;
    case 4: mx[m].lock_shared(); calls = ghost_calls; new (buf[i]) lock_t(mx[m], std::adopt_lock); ow[i] = true; break;
    case 5: new (buf[i]) lock_t(mx[m], ns(a)); ow[i] = ghost_res; CHECK(ghost_arg == a && ghost_kind == 3, "the time limit is not passed on"); break;
    case 6: new (buf[i]) lock_t(mx[m], std::chrono::steady_clock::time_point(ns(a))); ow[i] = ghost_res; CHECK(ghost_arg == a && ghost_kind == 4, "the time limit is not passed on"); break;
    case 7: { int o = 1 - i; new (buf[i]) lock_t(std::move(L(o))); pm[i] = pm[o]; ow[i] = ow[o]; pm[o] = -1; ow[o] = false; agree(o); COVER("moved"); break; }
    }
    int n = ghost_calls - calls;
    CHECK(n == (k == 1 || k == 3 || k == 5 || k == 6), "construction touches the mutex in a different way than documented");
    if (k == 1) CHECK(ghost_kind == 1, "the locking constructor does not wait for the lock"); if (k == 3) CHECK(ghost_kind == 2, "the trying constructor does not try");
  } catch (const Boom&) { new (buf[i]) lock_t(); pm[i] = -1; ow[i] = false; }
}
static void step() {
  int i = (int)__vx_choice(2); unsigned op = __vx_choice(9);
  __vx_assume((OPS) >> op & 1);
  switch (op) {
  case 0: acq(i, 1); break; case 1: acq(i, 2); break; case 2: acq(i, 3); break; case 3: acq(i, 4); break;
  case 4: {
    int want = ow[i] ? 0 : EPERM, got = 0, calls = ghost_calls;
    try { L(i).unlock(); } catch (const std::system_error& e) { got = e.code().value(); }
    CHECK(got == want, want ? "unlocking an object that owns nothing is not reported" : "a correct unlock reports an error");
    CHECK(ghost_calls == calls + (want == 0), "unlock does not release the mutex exactly once");
    if (!want) COVER("unlocked"); else COVER("unlock-rejected");
    ow[i] = false; break; }
  case 5: { int calls = ghost_calls; M* p = L(i).release(); CHECK(p == (pm[i] < 0 ? nullptr : &mx[pm[i]]), "release() does not return the mutex"); CHECK(ghost_calls == calls, "release() touches the mutex");
    bool had = ow[i]; pm[i] = -1; ow[i] = false; if (had) { COVER("released"); p->unlock_shared(); } break; }
  case 6: { int calls = ghost_calls; if (__vx_choice(2)) L(0).swap(L(1)); else { using std::swap; swap(L(0), L(1)); } CHECK(ghost_calls == calls, "swap touches a mutex"); std::swap(pm[0], pm[1]); std::swap(ow[0], ow[1]); break; }
  case 7: { int o = 1 - i, calls = ghost_calls; bool had = ow[i]; lock_t& res = (L(i) = std::move(L(o))); CHECK(&res == &L(i), "assignment does not return the object"); CHECK(ghost_calls == calls + had, "assignment does not release what the object owned"); pm[i] = pm[o]; ow[i] = ow[o]; pm[o] = -1; ow[o] = false; COVER("assigned"); break; }
  case 8: { int calls = ghost_calls; bool had = ow[i]; L(i).~lock_t(); CHECK(ghost_calls == calls + had, "destruction does not release exactly what the object owns"); ow[i] = false; construct(i); break; }
  }
  agree(0); agree(1); counts();
}
extern "C" void setup() {}
extern "C" void thread_0() {}
extern "C" void final() {
  mx[0].id = 0; mx[1].id = 1; pm[0] = pm[1] = -1;
  new (buf[0]) lock_t(); new (buf[1]) lock_t();
  agree(0); agree(1);
  construct(0); agree(0); counts();
  for (int k = 0; k < LEN; k++) step();
  for (int i = 0; i < 2; i++) L(i).~lock_t();
  CHECK(ghost_cnt[0] == 0 && ghost_cnt[1] == 0, "a mutex is still held after the last owner is gone");
  COVER("final");
}
