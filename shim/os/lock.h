// Stand-in for Apple's <os/lock.h>
#pragma once
#include <pthread.h>
struct os_unfair_lock_s { pthread_mutex_t m; };
typedef os_unfair_lock_s os_unfair_lock; typedef os_unfair_lock_s* os_unfair_lock_t;
#define OS_UNFAIR_LOCK_INIT { PTHREAD_MUTEX_INITIALIZER }
inline void os_unfair_lock_lock(os_unfair_lock_t l) { pthread_mutex_lock(&l->m); }
inline bool os_unfair_lock_trylock(os_unfair_lock_t l) { return pthread_mutex_trylock(&l->m) == 0; }
inline void os_unfair_lock_unlock(os_unfair_lock_t l) { pthread_mutex_unlock(&l->m); }
