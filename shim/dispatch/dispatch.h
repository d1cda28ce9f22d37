// Stand-in for Apple's <dispatch/dispatch.h>: dispatch semaphores and times
#pragma once
#include <semaphore.h>
#include <stdlib.h>
#include <stdint.h>
#include <time.h>
#include "vx.h"
struct dispatch_semaphore_s { sem_t s; };
typedef dispatch_semaphore_s* dispatch_semaphore_t;
typedef uint64_t dispatch_time_t;
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
#define KERN_SUCCESS 0
#define KERN_OPERATION_TIMED_OUT 49
namespace vxgcd { inline timespec at(uint64_t ns) { timespec t; t.tv_sec = (time_t)(ns / 1000000000u); t.tv_nsec = (long)(ns % 1000000000u); return t; } }
inline dispatch_semaphore_t dispatch_semaphore_create(long v) {
  if (v < 0) return NULL;
  dispatch_semaphore_t d = (dispatch_semaphore_t)calloc(1, sizeof(dispatch_semaphore_s)); sem_init(&d->s, 0, (unsigned)v); return d;
}
inline long dispatch_semaphore_signal(dispatch_semaphore_t d) { sem_post(&d->s); return 0; }
// clock times count from the steady clock's origin, wall times carry the top bit
inline dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta) {
  if (when == DISPATCH_TIME_NOW) when = __vx_now();
  int64_t t = (int64_t)when + delta;
  return t < 1 ? 1 : (dispatch_time_t)t;
}
inline dispatch_time_t dispatch_walltime(const timespec* when, int64_t delta) {
  int64_t t = delta + (when ? when->tv_sec * 1000000000ll + when->tv_nsec : (int64_t)(__vx_now() + (1ull << 50)));
  return (t < 1 ? 1ull : (dispatch_time_t)t) | 1ull << 63;
}
inline long dispatch_semaphore_wait(dispatch_semaphore_t d, dispatch_time_t t) {
  int r;
  if (t == DISPATCH_TIME_NOW) r = sem_trywait(&d->s);
  else if (t == DISPATCH_TIME_FOREVER) r = sem_wait(&d->s);
  else if (t >> 63) { timespec x = vxgcd::at(t & ~(1ull << 63)); r = sem_timedwait(&d->s, &x); }
  else { timespec x = vxgcd::at(t); r = sem_clockwait(&d->s, CLOCK_MONOTONIC, &x); }
  return r == 0 ? KERN_SUCCESS : KERN_OPERATION_TIMED_OUT;
}
