// Stand-in for <windows.h>: the documented behaviour of the Win32 synchronisation calls the wrappers use, on top of
// POSIX primitives.  A timed wait may end up to one millisecond early, as the Win32 documentation warns.
#pragma once
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <stdint.h>
#include "vx.h"
typedef void* HANDLE; typedef uint32_t DWORD; typedef int32_t LONG; typedef int BOOL; typedef unsigned char BOOLEAN;
#ifndef FALSE
#define FALSE 0
#define TRUE 1
#endif
#define INFINITE 0xFFFFFFFFu
#define WAIT_OBJECT_0 0u
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
namespace vxwin {
enum { MUTEX = 0x4d55, SEMA = 0x5345 };
struct obj { int kind; LONG max; pthread_mutex_t m; sem_t s; };
inline timespec at(uint64_t ns) { timespec t; t.tv_sec = (time_t)(ns / 1000000000u); t.tv_nsec = (long)(ns % 1000000000u); return t; }
inline uint64_t limit(DWORD ms, bool early) {
  uint64_t d = (uint64_t)ms * 1000000u;
  if (early && ms) { uint64_t e = __vx_symbits(20); __vx_assume(e < 1000000u); d -= e; }
  return __vx_now() + d;
}
inline obj* get(HANDLE h) { return (obj*)h; }
}
inline HANDLE CreateMutex(void*, BOOL own, const char*) {
  vxwin::obj* o = (vxwin::obj*)calloc(1, sizeof(vxwin::obj)); o->kind = vxwin::MUTEX;
  pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&o->m, &a); pthread_mutexattr_destroy(&a);
  if (own) pthread_mutex_lock(&o->m);
  return o;
}
inline HANDLE CreateSemaphore(void*, LONG init, LONG max, const char*) {
  if (max <= 0 || init < 0 || init > max) return NULL;
  vxwin::obj* o = (vxwin::obj*)calloc(1, sizeof(vxwin::obj)); o->kind = vxwin::SEMA; o->max = max; sem_init(&o->s, 0, (unsigned)init); return o;
}
inline BOOL CloseHandle(HANDLE h) { free(h); return TRUE; }
inline BOOL ReleaseMutex(HANDLE h) { return pthread_mutex_unlock(&vxwin::get(h)->m) == 0; }
inline BOOL ReleaseSemaphore(HANDLE h, LONG n, LONG* prev) {
  vxwin::obj* o = vxwin::get(h); int v = 0; sem_getvalue(&o->s, &v);
  if (n <= 0 || o->max - v < n) return FALSE;
  if (prev) *prev = v;
  for (LONG i = 0; i < n; i++) sem_post(&o->s);
  return TRUE;
}
inline DWORD WaitForSingleObject(HANDLE h, DWORD ms) {
  vxwin::obj* o = vxwin::get(h); int r;
  if (o->kind == vxwin::MUTEX) {
    if (ms == INFINITE) r = pthread_mutex_lock(&o->m);
    else if (ms == 0) r = pthread_mutex_trylock(&o->m);
    else { timespec t = vxwin::at(vxwin::limit(ms, true)); r = pthread_mutex_clocklock(&o->m, CLOCK_MONOTONIC, &t); }
  } else {
    if (ms == INFINITE) r = sem_wait(&o->s);
    else if (ms == 0) r = sem_trywait(&o->s);
    else { timespec t = vxwin::at(vxwin::limit(ms, true)); r = sem_clockwait(&o->s, CLOCK_MONOTONIC, &t); }
  }
  return r == 0 ? WAIT_OBJECT_0 : WAIT_TIMEOUT;
}
inline void Sleep(DWORD ms) {
  sem_t never; sem_init(&never, 0, 0); uint64_t l = vxwin::limit(ms, false); if (l > __vx_clockmax()) l = __vx_clockmax();   // the modelled time ends there
  timespec t = vxwin::at(l);
  sem_clockwait(&never, CLOCK_MONOTONIC, &t); sem_destroy(&never);
}
struct CRITICAL_SECTION { pthread_mutex_t m; };
inline void InitializeCriticalSection(CRITICAL_SECTION* c) { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&c->m, &a); pthread_mutexattr_destroy(&a); }
inline void DeleteCriticalSection(CRITICAL_SECTION* c) { pthread_mutex_destroy(&c->m); }
inline void EnterCriticalSection(CRITICAL_SECTION* c) { pthread_mutex_lock(&c->m); }
inline BOOL TryEnterCriticalSection(CRITICAL_SECTION* c) { return pthread_mutex_trylock(&c->m) == 0; }
inline void LeaveCriticalSection(CRITICAL_SECTION* c) { pthread_mutex_unlock(&c->m); }
struct SRWLOCK { pthread_rwlock_t l; };
#define SRWLOCK_INIT { PTHREAD_RWLOCK_INITIALIZER }
inline void AcquireSRWLockExclusive(SRWLOCK* l) { pthread_rwlock_wrlock(&l->l); }
inline void AcquireSRWLockShared(SRWLOCK* l) { pthread_rwlock_rdlock(&l->l); }
inline BOOLEAN TryAcquireSRWLockExclusive(SRWLOCK* l) { return pthread_rwlock_trywrlock(&l->l) == 0; }
inline BOOLEAN TryAcquireSRWLockShared(SRWLOCK* l) { return pthread_rwlock_tryrdlock(&l->l) == 0; }
inline void ReleaseSRWLockExclusive(SRWLOCK* l) { pthread_rwlock_unlock(&l->l); }
inline void ReleaseSRWLockShared(SRWLOCK* l) { pthread_rwlock_unlock(&l->l); }
