// Native replay runtime.  The harness is compiled from the same sources with the thread-sanitizer
// instrumentation pass; this file supplies the __tsan_* callbacks, the pthread / clock entry points
// and the __vx_* vocabulary, and drives real threads through the schedule found by the solver.
#include "vx.h"
#include <chrono>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <csetjmp>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <signal.h>
#include <vector>
#include <dlfcn.h>
#include <new>
extern "C" {
void thread_0() __attribute__((weak)); void thread_1() __attribute__((weak)); void thread_2() __attribute__((weak)); void thread_3() __attribute__((weak));
void thread_4() __attribute__((weak)); void thread_5() __attribute__((weak));
void setup() __attribute__((weak)); void final() __attribute__((weak)); void __vx_on_abort() __attribute__((weak));
extern char __executable_start, etext;
}
typedef unsigned long long u64;
static const u64 TBASE = 1ull << 40, SYSOFF = 1ull << 50;
namespace {
struct Ev { int step; std::string kind; std::vector<u64> v; };
// everything lives behind a pointer so that it exists before static constructors run
struct VC { u64 c[40] = {}; };
struct RT {
  std::vector<Ev> ev; size_t pos = 0; int step = -2; u64 now = TBASE; int cbits = 16, K = 0;
  enum { BOOT, SEQ, PRERUN, CONC } mode = BOOT;
  int n = 0;
  void (*body[8])() = {};
  int futexv[8] = {}, mainFutex = 0;
  bool done[8] = {};
  std::function<bool(bool)> pend[8];
  uintptr_t slo[8] = {}, shi[8] = {}, sp[8] = {};
  struct { u64 cv = 0; int st = 0; u64 dl = 0; bool timed = false, ever = false; } wait[8];
  std::set<std::string> covers;
  bool hb = false;
  std::vector<std::pair<uintptr_t, uintptr_t>> ghost;
  VC vc[40], pendA[40], relF[40]; std::map<uintptr_t, VC> sync;
  struct Sh { u64 w[40], r[40], aw[40], ar[40]; };
  std::map<uintptr_t, Sh> sh;
  std::map<uintptr_t, std::pair<size_t, bool>> heap;
  jmp_buf seqEnd;
  bool ext = false; unsigned extCtr = 0;
};
RT* R;
thread_local int myTid = -1;     // -1: the sequential context
int seqTid = 30;
thread_local int inRt = 0;
int tid() { return myTid >= 0 ? myTid : seqTid; }
struct Guard { Guard() { inRt++; } ~Guard() { inRt--; } };

[[noreturn]] void finish(int code) { fflush(stdout); _exit(code); }
[[noreturn]] void viol(const char* kind, const std::string& m) {
  inRt++;
  printf("REPLAY-VIOLATION %s: %s (thread %d, step %d)\n", kind, m.c_str(), tid(), R ? R->step : -9);
  finish(42);
}
[[noreturn]] void mismatch(const std::string& m) { inRt++; for (auto& c : R->covers) printf("REPLAY-COVER %s\n", c.c_str()); printf("REPLAY-MISMATCH %s (thread %d, step %d, event %zu)\n", m.c_str(), tid(), R->step, R->pos); finish(3); }
void fwait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELAXED); }
void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void toMain() { int t = myTid; char x; R->sp[t] = (uintptr_t)&x; fwake(&R->mainFutex); fwait(&R->futexv[t]); }
void toThread(int t) { fwake(&R->futexv[t]); fwait(&R->mainFutex); }
bool info(const std::string& k) { return k == "deadline" || k == "wake" || k == "cover" || k == "end" || k == "abort"; }
Ev* peek() { size_t p = R->pos; while (p < R->ev.size() && info(R->ev[p].kind)) p++; return p < R->ev.size() ? &R->ev[p] : nullptr; }
Ev* take(const char* kind) {
  Ev* e = peek();
  if (!e || e->kind != kind) return nullptr;
  R->pos = (size_t)(e - R->ev.data()) + 1;
  return e;
}
// a scheduling point: pred tells whether the operation can proceed
void syncPoint(const std::function<bool(bool)>& pred, const char* what) {
  if (R->mode == RT::SEQ || R->mode == RT::BOOT || myTid < 0) { if (!pred(false)) viol("blocked", std::string(what) + " blocks in sequential code"); return; }
  R->pend[myTid] = pred;
  toMain();
  if (!R->pend[myTid](false)) mismatch(std::string("scheduled thread cannot proceed: ") + what);
}
void syncPoint(const char* w) { syncPoint([](bool) { return true; }, w); }
u64 clockMax() { return TBASE + (1ull << R->cbits) - 1; }
// ---- happens-before
void hbBump() { R->vc[tid()].c[tid()]++; }
void join(VC& a, const VC& b) { for (int i = 0; i < 40; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
bool hbOn() { return R && R->hb && (R->mode == RT::PRERUN || R->mode == RT::CONC) && myTid >= 0; }
void hbAcq(const void* p) { if (hbOn()) join(R->vc[tid()], R->sync[(uintptr_t)p]); }
void hbRel(const void* p, bool merge) { if (!hbOn()) return; VC& s = R->sync[(uintptr_t)p]; if (!merge) s = R->vc[tid()]; else join(s, R->vc[tid()]); hbBump(); }
void checkDead(uintptr_t a) {
  if (!R) return;
  auto it = R->heap.upper_bound(a);
  if (it != R->heap.begin()) { --it; if (a < it->first + it->second.first && it->second.second) viol("memory", "access to freed heap memory"); }
  for (int t = 0; t < R->n; t++) if (t != myTid && R->slo[t] && a >= R->slo[t] && a < R->shi[t] && R->sp[t] && a < R->sp[t]) viol("memory", "access to a dead stack frame of another thread");
}
void access(uintptr_t a, size_t n, bool write, bool atomic) {
  if (!R || inRt || R->mode == RT::BOOT) return;
  Guard g;
  if (a < 4096) viol("memory", "null pointer access");
  checkDead(a);
  if (!hbOn()) return;
  for (auto& r : R->ghost) if (a >= r.first && a < r.second) return;
  if (a >= R->slo[myTid] && a < R->shi[myTid] && false) return;
  int me = tid(); VC& v = R->vc[me];
  for (size_t i = 0; i < n; i++) {
    auto it = R->sh.find(a + i);
    if (it == R->sh.end()) { RT::Sh z; memset(&z, 0, sizeof z); it = R->sh.emplace(a + i, z).first; }
    RT::Sh& s = it->second;
    for (int t = 0; t < R->n; t++) if (t != me) {
      bool bad = s.w[t] > v.c[t] || (!atomic && s.aw[t] > v.c[t]) || (write && (s.r[t] > v.c[t] || (!atomic && s.ar[t] > v.c[t])));
      if (bad) viol("race", "unordered conflicting accesses");
    }
    u64 c = v.c[me];
    (write ? (atomic ? s.aw : s.w) : (atomic ? s.ar : s.r))[me] = c;
  }
}
int runThread(int t) { try { R->body[t](); } catch (...) { viol("exception", "uncaught exception leaves the thread function"); } return 0; }
void* thr(void* p) {
  int t = (int)(intptr_t)p;
  myTid = t;
  { Guard g; pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_t(syscall(SYS_gettid)) ? (*(pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self"))() : 0, &at); pthread_attr_getstack(&at, &lo, &sz); R->slo[t] = (uintptr_t)lo; R->shi[t] = (uintptr_t)lo + sz; pthread_attr_destroy(&at); }
  fwait(&R->futexv[t]);
  runThread(t);
  R->done[t] = true;
  R->sp[t] = R->shi[t];
  fwake(&R->mainFutex);
  for (;;) pause();
}
void segv(int) { viol("crash", "signal (invalid memory access or runaway recursion)"); }
bool inExe(void* ra) { return (char*)ra >= &__executable_start && (char*)ra < &etext; }
int seqJmp = 0;
void runSeq(void (*f)()) {
  if (!f) return;
  R->mode = RT::SEQ;
  seqJmp = 1;
  if (setjmp(R->seqEnd) == 0) { try { f(); } catch (...) { viol("exception", "uncaught exception in sequential code"); } }
  seqJmp = 0;
}
} // namespace
__attribute__((constructor(101))) static void rtInit() {
  R = new RT;
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = segv; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
  if (const char* e = getenv("VX_CLOCK")) R->cbits = atoi(e);
  if (const char* e = getenv("VX_HB")) R->hb = atoi(e);
  if (const char* e = getenv("VX_GHOST")) { uintptr_t a, s; int k; while (sscanf(e, "%lx:%lx%n", &a, &s, &k) == 2) { R->ghost.push_back({a, a + s}); e += k; if (*e == ',') e++; } }
  if (const char* e = getenv("VX_TRACE")) {
    FILE* f = fopen(e, "r"); char line[512];
    while (f && fgets(line, sizeof line, f)) {
      Ev v; char kind[64]; int k; if (sscanf(line, "%d %63s%n", &v.step, kind, &k) != 2) continue;
      v.kind = kind; char* p = line + k; u64 x; int m; while (sscanf(p, "%llu%n", &x, &m) == 1) { v.v.push_back(x); p += m; }
      R->ev.push_back(v);
    }
    if (f) fclose(f);
  }
  R->mode = RT::SEQ; R->step = -2;
}
int main() {
  void (*b[6])() = {thread_0, thread_1, thread_2, thread_3, thread_4, thread_5};
  while (R->n < 6 && b[R->n]) { R->body[R->n] = b[R->n]; R->n++; }
  std::set_terminate([] { viol("terminate", "std::terminate called"); });
  const char* kind = getenv("VX_KIND");
  int upto = getenv("VX_UPTO") ? atoi(getenv("VX_UPTO")) : 1 << 30;
  auto bye = [&] { for (auto& c : R->covers) printf("REPLAY-COVER %s\n", c.c_str()); printf("REPLAY-OK\n"); finish(0); };
  R->step = -2; runSeq(setup);
  if (upto <= -2) bye();
  R->step = -1; seqTid = 30; R->mode = RT::PRERUN;
  for (int t = 0; t < R->n; t++) {
    for (int i = 0; i < R->n; i++) R->vc[t].c[i] = 0;
    R->vc[t].c[t] = 1;
    pthread_t id; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); pthread_create(&id, &at, thr, (void*)(intptr_t)t);
    toThread(t);
  }
  R->mode = RT::CONC;
  auto allDone = [&] { for (int t = 0; t < R->n; t++) if (!R->done[t]) return false; return true; };
  for (;;) {
    while (R->pos < R->ev.size() && R->ev[R->pos].kind != "run") { if (R->ev[R->pos].step >= 0 && !info(R->ev[R->pos].kind)) { if (R->ev[R->pos].step <= R->step) mismatch("event not consumed: " + R->ev[R->pos].kind); else break; } R->pos++; }
    if (R->pos >= R->ev.size() || R->ev[R->pos].kind != "run") break;
    Ev& e = R->ev[R->pos]; int t = (int)e.v[0];
    R->pos++; R->step = e.step; R->now = e.v[1];
    if (R->done[t]) mismatch("scheduled thread has finished");
    toThread(t);
  }
  if (kind && !strcmp(kind, "deadlock") && !allDone()) {
    bool any = false; for (int t = 0; t < R->n; t++) if (!R->done[t] && R->pend[t](true)) any = true;
    if (!any) { std::string w; for (int t = 0; t < R->n; t++) if (!R->done[t]) w += " " + std::to_string(t); viol("deadlock", "no thread can make progress; blocked threads:" + w); }
  }
  if (kind && !strcmp(kind, "progress") && !allDone()) {
    // continue fairly for many more rounds: a slow but finishing execution is no violation
    R->ext = true; R->extCtr = getenv("VX_EXTSEED") ? atoi(getenv("VX_EXTSEED")) : 0; R->now = clockMax() + 1;
    for (int round = 0; round < 4000 && !allDone(); round++) {
      bool any = false;
      for (int t = 0; t < R->n; t++) if (!R->done[t] && R->pend[t](false)) { any = true; R->step++; toThread(t); }
      if (!any) break;
    }
    if (allDone()) { printf("REPLAY-OK finished under a longer fair continuation\n"); finish(0); }
    std::string w; for (int t = 0; t < R->n; t++) if (!R->done[t]) w += " " + std::to_string(t); viol("progress", "threads unfinished under a fair continuation:" + w); }
  if (allDone() && upto >= R->step) { R->now = clockMax() + 2; runSeq(final); }
  bye();
}
// ------------------------------------------------------------------ vocabulary
extern "C" {
unsigned __vx_choice(unsigned n) { Guard g; if (R->ext) return R->extCtr++ % n; Ev* e = take("choice"); if (!e) mismatch("choice not in trace"); (void)n; return (unsigned)e->v[0]; }
uint64_t __vx_sym64() { Guard g; if (R->ext) return 0; Ev* e = take("sym64"); if (!e) mismatch("sym64 not in trace"); return e->v[0]; }
uint64_t __vx_symbits(unsigned) { return __vx_sym64(); }
void __vx_assume(bool x) { if (!x) mismatch("assumption violated on replay"); }
void __vx_assert_(bool x, const char* m) { if (!x) viol("assert", m); }
void __vx_cover(const char* n) { Guard g; R->covers.insert(n); }
void __vx_yield() { syncPoint("yield"); }
int __vx_tid() { return tid(); }
void __vx_set_tid(int i) { seqTid = i; }
uint64_t __vx_now() { return R->now; }
int __vx_step() { return R->step; }
int __vx_waiting(int t) { return R->wait[t].st == 1; }
int __vx_waited(int t) { return R->wait[t].ever; }
void __vx_waited_reset() { if (myTid >= 0) R->wait[myTid].ever = false; }
uint64_t __vx_clockmax() { return clockMax(); }
void __vx_path_end() { Guard g; if (myTid >= 0) { R->done[myTid] = true; R->sp[myTid] = 0; fwake(&R->mainFutex); for (;;) pause(); } if (seqJmp) longjmp(R->seqEnd, 1); for (;;) finish(0); }
void abort() { if (R && R->mode != RT::BOOT && __vx_on_abort) { __vx_on_abort(); finish(0); } viol("abort", "abort called"); }
void __assert_fail(const char* a, const char* f, unsigned l, const char*) { viol("internal-assert", std::string(a) + " at " + f + ":" + std::to_string(l)); }
// ------------------------------------------------------------------ pthread
static int& ow(pthread_mutex_t* m) { return ((int*)m)[2]; }
static int& cn(pthread_mutex_t* m) { return ((int*)m)[1]; }
static int kd(pthread_mutex_t* m) { return ((int*)m)[4] & 3; }
static bool mfree(pthread_mutex_t* m) { return ow(m) == 0 || (ow(m) == tid() + 1 && kd(m) == 1); }
static void mtake(pthread_mutex_t* m) { cn(m)++; ow(m) = tid() + 1; hbAcq(m); }
static u64 tsns(const timespec* t, bool sys, bool* bad) { if (bad) *bad = getenv("VX_TSPEC") && (t->tv_nsec < 0 || t->tv_nsec > 999999999); u64 r = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; return sys ? r - SYSOFF : r; }
#define OUTSIDE(x) if (!R || !inExe(__builtin_return_address(0)) || inRt) return x; Guard g_;
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { OUTSIDE(0); checkDead((uintptr_t)m); syncPoint([=](bool) { return mfree(m) || (kd(m) == 2 && ow(m) == tid() + 1); }, "mutex lock"); if (kd(m) == 2 && ow(m) == tid() + 1) return EDEADLK; mtake(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { OUTSIDE(0); checkDead((uintptr_t)m); syncPoint("mutex trylock"); if (!mfree(m)) return EBUSY; mtake(m); return 0; }
static void mrelease(pthread_mutex_t* m) { if (ow(m) != tid() + 1) viol("unlock", "underlying mutex unlocked by a thread that does not own it"); if (--cn(m) == 0) { hbRel(m, false); ow(m) = 0; } }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { OUTSIDE(0); checkDead((uintptr_t)m); static const bool us = getenv("VX_UNLOCKSYNC"); if (us) syncPoint("mutex unlock"); mrelease(m); return 0; }
static int mtimed(pthread_mutex_t* m, const timespec* t, bool sys) {
  bool bad; u64 dl = tsns(t, sys, &bad);
  syncPoint([=](bool pot) { return mfree(m) || bad || (int64_t)dl <= (int64_t)(pot || R->mode == RT::SEQ ? clockMax() : R->now); }, "timed mutex lock");
  if (mfree(m)) { mtake(m); return 0; }
  return bad ? EINVAL : ETIMEDOUT;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept { Guard g; return mtimed(m, t, true); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) noexcept { Guard g; return mtimed(m, t, c == 0); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { OUTSIDE(0); memset(m, 0, sizeof *m); if (a) ((int*)m)[4] = *(const int*)a; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { OUTSIDE(0); if (ow(m)) viol("destroy", "pthread mutex destroyed while locked"); return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t* a) noexcept { *(int*)a = 0; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) noexcept { *(int*)a = k; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
// condition variables
static bool cvOk(int t, pthread_mutex_t* m, bool pot) {
  auto& w = R->wait[t];
  bool wake = w.st != 1 || (w.timed && (int64_t)w.dl <= (int64_t)(pot ? clockMax() : R->now));
  if (!pot && R->mode == RT::CONC && getenv("VX_SPURIOUS")) wake = true;
  return wake && mfree(m);
}
static int cvwait(pthread_cond_t* c, pthread_mutex_t* m, u64 dl, bool timed) {
  checkDead((uintptr_t)c);
  if (myTid < 0) viol("blocked", "condition wait in sequential code");
  if (ow(m) != tid() + 1) viol("cvwait", "condition wait without owning the mutex");
  int t = myTid; mrelease(m);
  auto& w = R->wait[t]; w.cv = (u64)c; w.st = 1; w.ever = true; w.dl = dl; w.timed = timed;
  // the predicate runs on the scheduler's side as well, so bind the thread id
  R->pend[t] = [=](bool pot) { int save = myTid, sq = seqTid; if (myTid != t) seqTid = t, myTid = -1; bool r = cvOk(t, m, pot); myTid = save; seqTid = sq; return r; };
  toMain();
  if (!R->pend[t](false)) mismatch("woken thread cannot proceed");
  bool exp = timed && (int64_t)dl <= (int64_t)R->now;
  w.st = 0; w.cv = 0; w.timed = false;
  mtake(m);
  return exp ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { Guard g; return cvwait(c, m, 0, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { Guard g; return cvwait(c, m, tsns(t, true, nullptr), true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { Guard g; return cvwait(c, m, tsns(t, k == 0, nullptr), true); }
static void cvnotify(pthread_cond_t* c, bool all) {
  checkDead((uintptr_t)c);
  if (R->ext) { for (int t = 0; t < R->n; t++) { auto& w = R->wait[t]; if (w.cv == (u64)c && w.st == 1) { w.st = 2; if (!all) break; } } return; }
  Ev* e = take("notify");
  if (!e) { if (R->mode == RT::CONC) mismatch("notify not in trace"); return; }
  u64 picked = e->v[1], left = e->v[2];
  for (int t = 0; t < R->n; t++) {
    auto& w = R->wait[t]; if (w.cv != (u64)c || w.st != 1) continue;
    if ((left >> t) & 1) { w.st = 3; continue; }
    if (all || picked == (u64)t) w.st = 2;
  }
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { Guard g; cvnotify(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { Guard g; cvnotify(c, true); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept { if (!R) return 0; Guard g; for (int t = 0; t < R->n; t++) if (R->wait[t].cv == (u64)c && R->wait[t].st == 1) viol("destroy", "condition variable destroyed while a thread is waiting on it"); return 0; }
// rwlock
static int& rw(pthread_rwlock_t* p) { return ((int*)p)[0]; }
static int& rr(pthread_rwlock_t* p) { return ((int*)p)[1]; }
static int rwop(pthread_rwlock_t* p, bool wr, int kind, const timespec* ts, bool sys) {
  bool bad = false; u64 dl = 0; if (kind == 2) dl = tsns(ts, sys, &bad);
  auto fr = [=] { return wr ? rw(p) == 0 && rr(p) == 0 : rw(p) == 0; };
  syncPoint([=](bool pot) { return kind == 1 || fr() || (kind == 2 && (bad || (int64_t)dl <= (int64_t)(pot || R->mode == RT::SEQ ? clockMax() : R->now))); }, "rwlock");
  if (!fr()) return kind == 1 ? EBUSY : bad ? EINVAL : ETIMEDOUT;
  if (wr) { rw(p) = tid() + 1; hbAcq((int*)p + 1); } else rr(p)++;
  hbAcq(p); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* p) noexcept { OUTSIDE(0); return rwop(p, true, 0, nullptr, false); }
int pthread_rwlock_rdlock(pthread_rwlock_t* p) noexcept { OUTSIDE(0); return rwop(p, false, 0, nullptr, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) noexcept { Guard g; return rwop(p, true, 1, nullptr, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) noexcept { Guard g; return rwop(p, false, 1, nullptr, false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* p, const timespec* t) noexcept { Guard g; return rwop(p, true, 2, t, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* p, const timespec* t) noexcept { Guard g; return rwop(p, false, 2, t, true); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* p, clockid_t c, const timespec* t) noexcept { Guard g; return rwop(p, true, 2, t, c == 0); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* p, clockid_t c, const timespec* t) noexcept { Guard g; return rwop(p, false, 2, t, c == 0); }
int pthread_rwlock_unlock(pthread_rwlock_t* p) noexcept { OUTSIDE(0); if (rw(p) == tid() + 1) { hbRel(p, false); rw(p) = 0; } else if (rr(p) > 0) { hbRel((int*)p + 1, true); rr(p)--; } else viol("unlock", "rwlock unlocked while not held"); return 0; }
int pthread_rwlock_init(pthread_rwlock_t* p, const pthread_rwlockattr_t*) noexcept { memset(p, 0, sizeof *p); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* p) noexcept { if (rw(p) || rr(p)) viol("destroy", "rwlock destroyed while held"); return 0; }
// spin
int pthread_spin_init(pthread_spinlock_t* p, int) noexcept { *p = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) noexcept { return 0; }
int pthread_spin_lock(pthread_spinlock_t* p) noexcept { Guard g; syncPoint([=](bool) { return *p == 0; }, "spin lock"); *p = tid() + 1; hbAcq((void*)p); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* p) noexcept { Guard g; syncPoint("spin trylock"); if (*p) return EBUSY; *p = tid() + 1; hbAcq((void*)p); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* p) noexcept { Guard g; if (*p != tid() + 1) viol("unlock", "spin lock unlocked by a thread that does not own it"); hbRel((void*)p, false); *p = 0; return 0; }
// semaphores
static unsigned& sv(sem_t* s) { return *(unsigned*)s; }
int sem_init(sem_t* s, int, unsigned v) noexcept { memset(s, 0, sizeof *s); if (v > 0x7fffffff) { errno = EINVAL; return -1; } sv(s) = v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_post(sem_t* s) noexcept { Guard g; syncPoint("sem_post"); hbRel(s, true); if (sv(s) == 0x7fffffff) { errno = EOVERFLOW; return -1; } sv(s)++; return 0; }
static int semop(sem_t* s, int kind, const timespec* ts, bool sys) {
  bool bad = false; u64 dl = 0; if (kind == 2) dl = tsns(ts, sys, &bad);
  syncPoint([=](bool pot) { if (kind == 1 || sv(s)) return true; if (kind == 2 && (bad || (int64_t)dl <= (int64_t)(pot || R->mode == RT::SEQ ? clockMax() : R->now))) return true; if (!pot && myTid >= 0) { Ev* e = peek(); if (e && e->kind == "eintr" && e->v[0]) return true; } return false; }, "semaphore wait");
  Ev* e = take("eintr"); bool intr = e && e->v[0];
  if (sv(s)) { sv(s)--; hbAcq(s); return 0; }
  errno = kind == 1 ? EAGAIN : intr ? EINTR : bad ? EINVAL : ETIMEDOUT;
  return -1;
}
int sem_wait(sem_t* s) { Guard g; return semop(s, 0, nullptr, false); }
int sem_trywait(sem_t* s) noexcept { Guard g; return semop(s, 1, nullptr, false); }
int sem_timedwait(sem_t* s, const timespec* t) { Guard g; return semop(s, 2, t, true); }
int sem_clockwait(sem_t* s, clockid_t c, const timespec* t) { Guard g; return semop(s, 2, t, c == 0); }
int sem_getvalue(sem_t* s, int* v) noexcept { *v = (int)sv(s); return 0; }
// threads and time
pthread_t pthread_self() noexcept { if (!R || inRt) { static pthread_t (*real)() = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self"); return real(); } return 0x600000000000ull + (u64)(tid() + 1) * 0x1000; }
__attribute__((weak)) int sched_yield() noexcept { Guard g; syncPoint("sched_yield"); return 0; }
int nanosleep(const timespec*, timespec*) { Guard g; syncPoint("nanosleep"); return 0; }
int clock_gettime(clockid_t c, timespec* t) noexcept { u64 n = R ? R->now : TBASE; if (c == 0) n += SYSOFF; t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull); return 0; }
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)R->now)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)(R->now + SYSOFF))); }
} } }
// ------------------------------------------------------------------ heap
static void* vxAlloc(size_t n) { void* p = malloc(n ? n : 1); if (R && !inRt && R->mode != RT::BOOT) { Guard g; R->heap[(uintptr_t)p] = {n ? n : 1, false}; } return p; }
static void vxFree(void* p) {
  if (!p) return;
  if (!R || inRt) return;   // runtime memory is never returned
  Guard g; auto it = R->heap.find((uintptr_t)p);
  if (it == R->heap.end()) return;
  if (it->second.second) viol("memory", "double free");
  if (hbOn()) { inRt--; access((uintptr_t)p, it->second.first, true, false); inRt++; }
  it->second.second = true;
}
void* operator new(size_t n) { return vxAlloc(n); }
void* operator new[](size_t n) { return vxAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vxAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vxAlloc(n); }
void operator delete(void* p) noexcept { vxFree(p); }
void operator delete[](void* p) noexcept { vxFree(p); }
void operator delete(void* p, size_t) noexcept { vxFree(p); }
void operator delete[](void* p, size_t) noexcept { vxFree(p); }
// ------------------------------------------------------------------ instrumentation callbacks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RD(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, false); } void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, false); } \
  void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, false); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, false); } \
  void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, false, false); access((uintptr_t)p, n, true, false); } void __tsan_unaligned_read_write##n(void* p) { access((uintptr_t)p, n, true, false); }
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, false); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false); }
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, false); }
void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, true, false); return memset(d, c, n); }
static bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static bool rel(int o) { return o == 3 || o == 4 || o == 5; }
static void hRead(void* p, size_t n, int o) { access((uintptr_t)p, n, false, true); if (!hbOn()) return; Guard g; if (acq(o)) hbAcq(p); else join(R->pendA[tid()], R->sync[(uintptr_t)p]); }
static void hWrite(void* p, size_t n, int o, bool rmw) { access((uintptr_t)p, n, true, true); if (!hbOn()) return; Guard g; if (rel(o)) hbRel(p, rmw); else { VC& s = R->sync[(uintptr_t)p]; if (rmw) join(s, R->relF[tid()]); else s = R->relF[tid()]; } }
static void as(const volatile void* p) { Guard g; if (R) for (auto& r : R->ghost) if ((uintptr_t)p >= r.first && (uintptr_t)p < r.second) return; if (R->mode != RT::BOOT) syncPoint("atomic operation"); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int o) { as((const void*)p); T v = *p; hRead((void*)p, sizeof(T), o); return v; } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int o) { as((const void*)p); *p = v; hWrite((void*)p, sizeof(T), o, false); } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int o) { as((const void*)p); T r = *p; *p = v; hRead((void*)p, sizeof(T), o); hWrite((void*)p, sizeof(T), o, true); return r; } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int o) { as((const void*)p); T r = *p; *p = r + v; hRead((void*)p, sizeof(T), o); hWrite((void*)p, sizeof(T), o, true); return r; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int o) { as((const void*)p); T r = *p; *p = r - v; hRead((void*)p, sizeof(T), o); hWrite((void*)p, sizeof(T), o, true); return r; } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int o) { as((const void*)p); T r = *p; *p = r & v; hRead((void*)p, sizeof(T), o); hWrite((void*)p, sizeof(T), o, true); return r; } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int o) { as((const void*)p); T r = *p; *p = r | v; hRead((void*)p, sizeof(T), o); hWrite((void*)p, sizeof(T), o, true); return r; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int o) { as((const void*)p); T r = *p; *p = r ^ v; hRead((void*)p, sizeof(T), o); hWrite((void*)p, sizeof(T), o, true); return r; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int o, int fo) { as((const void*)p); T r = *p; bool fail = false; { Guard g; Ev* e = take("casfail"); fail = e && e->v[0]; } \
    if (r == c && !fail) { *p = v; hRead((void*)p, sizeof(T), o); hWrite((void*)p, sizeof(T), o, true); return r; } hRead((void*)p, sizeof(T), fo); return fail ? (T)~r : r; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int fo) { T r = __tsan_atomic##b##_compare_exchange_val(p, *c, v, o, fo); bool ok = r == *c; if (!ok) *c = *p; return ok; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int fo) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, o, fo); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int o) { if (!hbOn()) return; Guard g; if (acq(o)) join(R->vc[tid()], R->pendA[tid()]); if (rel(o)) { R->relF[tid()] = R->vc[tid()]; hbBump(); } }
void __tsan_atomic_signal_fence(int) {}
}
