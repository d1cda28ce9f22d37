// A reader (thread 0) keeps the lock until the other readers are through; writers come and go meanwhile.
// No reader may depend on thread 0 releasing the lock once the writers have given up (or, for a
// reader-preferring lock, at all).  Parameters: HDR, MTX, XOPS (writer operations), SOPS, NT, STDCLK.
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include <semaphore.h>
#include HDR
typedef MTX mtx_t;
#ifndef XOPS
#define XOPS 6
#endif
#ifndef SOPS
#define SOPS 1
#endif
#ifndef DBITS
#define DBITS 4
#endif
static mtx_t* mtx; alignas(64) static unsigned char mtxbuf[sizeof(mtx_t)];
typedef std::chrono::nanoseconds ns;
static sem_t gate;
bool ghost_writing;
static int me() { return __vx_tid(); }
static ns dur() { uint64_t d = __vx_symbits(DBITS); __vx_assume(__vx_now() + d <= __vx_clockmax()); return ns((long long)d); }
extern "C" void setup() {
  mtx = new (mtxbuf) mtx_t(); sem_init(&gate, 0, 0);
  __vx_set_tid(0); mtx->lock_shared(); __vx_set_tid(30);
}
extern "C" void thread_0() {
  for (int i = 2; i < NT; i++) sem_wait(&gate);
  CHECK(!ghost_writing, "a writer got in while a reader held the lock");
  mtx->unlock_shared();
}
extern "C" void thread_1() {
  __vx_yield();
  bool r = true; unsigned op = __vx_choice(4);
  __vx_assume(XOPS >> op & 1);
  switch (op) {
#if XOPS & 1
  case 0: mtx->lock(); break;
#endif
#if XOPS & 2
  case 1: r = mtx->try_lock(); break;
#endif
#if XOPS & 4
  case 2: r = mtx->try_lock_for(dur()); break;
#endif
#if XOPS & 8
  case 3: r = mtx->try_lock_for(ns(-5)); break;
#endif
  default: __vx_assume(false);
  }
  if (!r) { COVER("writer-gave-up"); return; }
  ghost_writing = true; COVER("writer-served"); __vx_yield(); ghost_writing = false;
  mtx->unlock();
}
static void reader() {
  __vx_yield();
  bool r = true; unsigned op = __vx_choice(3);
  __vx_assume(SOPS >> op & 1);
  switch (op) {
#if SOPS & 1
  case 0: mtx->lock_shared(); break;
#endif
#if SOPS & 2
  case 1: r = mtx->try_lock_shared(); break;
#endif
#if SOPS & 4
  case 2: r = mtx->try_lock_shared_for(dur()); break;
#endif
  default: __vx_assume(false);
  }
#ifdef NEVERFAIL
  CHECK(r, "a reader is refused although no writer holds the lock");
#endif
  if (r) { if (__vx_waited(me())) COVER("reader-waited"); mtx->unlock_shared(); }
  COVER("reader-done");
  sem_post(&gate);
}
extern "C" void thread_2() { reader(); }
#if NT > 3
extern "C" void thread_3() { reader(); }
#endif
extern "C" void final() { COVER("final"); mtx->~mtx_t(); }
