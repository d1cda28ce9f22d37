// Native wrappers: operations through the wrapper and through its native handle, by one thread, against a counter.
// Parameters: HDR, MTX, KIND 0 exclusive 1 recursive 2 shared, API (posix names), LEN.
#include "vx.h"
#include <new>
#include <mutex>
#include <chrono>
#include HDR
typedef MTX mtx_t;
#if API == 0       // pthread mutex
#define NTRY(h) (pthread_mutex_trylock(h) == 0)
#define NUNL(h) pthread_mutex_unlock(h)
#elif API == 1     // pthread rwlock
#define NTRY(h) (pthread_rwlock_trywrlock(h) == 0)
#define NUNL(h) pthread_rwlock_unlock(h)
#define NTRYS(h) (pthread_rwlock_tryrdlock(h) == 0)
#define NUNLS(h) pthread_rwlock_unlock(h)
#elif API == 2     // pthread spin lock
#define NTRY(h) (pthread_spin_trylock(h) == 0)
#define NUNL(h) pthread_spin_unlock(h)
#elif API == 3     // Windows mutex
#define NTRY(h) (WaitForSingleObject(h, 0) == WAIT_OBJECT_0)
#define NUNL(h) ReleaseMutex(h)
#elif API == 4     // Windows critical section
#define NTRY(h) (TryEnterCriticalSection(h) != 0)
#define NUNL(h) LeaveCriticalSection(h)
#elif API == 5     // Windows slim lock
#define NTRY(h) (TryAcquireSRWLockExclusive(h) != 0)
#define NUNL(h) ReleaseSRWLockExclusive(h)
#define NTRYS(h) (TryAcquireSRWLockShared(h) != 0)
#define NUNLS(h) ReleaseSRWLockShared(h)
#elif API == 6     // Apple unfair lock
#define NTRY(h) os_unfair_lock_trylock(h)
#define NUNL(h) os_unfair_lock_unlock(h)
#endif
#ifndef LEN
#define LEN 5
#endif
alignas(64) static unsigned char buf[sizeof(mtx_t)];
extern "C" void setup() {}
extern "C" void thread_0() {}
extern "C" void final() {
  __vx_set_tid(0);
  mtx_t* m = new (buf) mtx_t();
  unsigned x = 0, s = 0;                // exclusive depth, shared count
  for (int i = 0; i < LEN; i++) {
    bool native = __vx_choice(2), r, can = KIND == 1 || (x == 0 && s == 0);
    switch (__vx_choice(6)) {
    case 0: r = native ? NTRY(m->native_handle()) : m->try_lock(); CHECK(r == can, "trying does not reflect the state of the native lock"); if (r) { x++; COVER("taken"); } else COVER("busy"); break;
    case 1: if (!can) break; m->lock(); x++; break;
    case 2: if (!x) break; if (native) NUNL(m->native_handle()); else m->unlock(); x--; break;
#if KIND == 2
    case 3: r = native ? NTRYS(m->native_handle()) : m->try_lock_shared(); CHECK(r == (x == 0), "trying does not reflect the state of the native lock"); if (r) { s++; COVER("shared"); } break;
    case 4: if (x) break; m->lock_shared(); s++; break;
    case 5: if (!s) break; if (native) NUNLS(m->native_handle()); else m->unlock_shared(); s--; break;
#else
    default: __vx_assume(false);
#endif
    }
  }
  while (x) { m->unlock(); x--; }
#if KIND == 2
  while (s) { m->unlock_shared(); s--; }
#endif
  bool f = m->try_lock(); CHECK(f, "the lock is not free after it has been released as often as it was acquired"); if (f) m->unlock();
  COVER("final");
  m->~mtx_t();
}
