From 30a17aa3715c2c8bb14310b30b85064017aed007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 01/15] fix: wake readers blocked by a writer whose timed lock
 gives up

---
 include/alternate_shared_mutex.hpp | 1 +
 include/checked_shared_mutex.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index 64b79e4..9f32afc 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -152,6 +152,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers might wait for this writer only
         return false;
       }
     }
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 4362520..a804c33 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -301,6 +301,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers might wait for this writer only
         return false;
       }
     }
-- 
2.43.0


From 4d139de93dbe705f2a91690d779a0d3890c66cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 02/15] fix: undo the writer registration when checked shared
 lock() reports a deadlock

---
 include/checked_shared_mutex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index a804c33..216f7f6 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -117,6 +117,8 @@ protected:
 #if YAMC_CHECKED_CALL_ABORT
         std::abort();
 #else
+        RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers might wait for this writer only
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
       }
-- 
2.43.0


From 9fc4a54a824937cfd8d96cd126cef9a6392ec075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 03/15] fix: forget the waiter when the lock validator reports
 a deadlock

---
 include/yamc_lock_validator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 008d74e..d4c642c 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -162,6 +162,7 @@ public:
         << " " << (shared ? "shared-lock" : "lock") << '\n';
       dump_mutexmap(std::cout, table.mutexmap);
       std::cout << "==== DEADLOCK DETECTED ====" << std::endl;
+      remove_elem(table.mutexmap[mkey].waiters, tid);  // this thread will not wait
       return false;
     }
 #if YAMC_CHECK_VERBOSE
-- 
2.43.0


From 6e7076d82f109a4f9fd45e1679703eb00d4e9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 04/15] fix: barrier::arrive_and_drop() lowers the expected
 count of later phases whoever arrives last

---
 include/yamc_barrier.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 135d717..4c49795 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -66,12 +66,9 @@ class barrier {
   mutable std::condition_variable cv_;
   mutable std::mutex mtx_;
 
-  void phase_completion_step(bool drop)
+  void phase_completion_step()
   {
     completion_();
-    if (drop) {
-      --init_count_;
-    }
     counter_ = init_count_;
     ++phase_;
     cv_.notify_all();
@@ -108,7 +105,7 @@ public:
     arrival_token token{phase_};
     counter_ -= update;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     return token;
   }
@@ -129,7 +126,7 @@ public:
     auto arrival_phase = phase_;
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
@@ -141,9 +138,10 @@ public:
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     assert(0 < counter_);
     auto arrival_phase = phase_;
+    init_count_ -= 1;  // drop expected count of all subsequent phases
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(true);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
-- 
2.43.0


From 7c12ce20e2d0e9956b7245f39fd7a0c39eebc179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 05/15] fix: barrier waiters survive the wrap-around of the
 phase counter

---
 include/yamc_barrier.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 4c49795..4c438f8 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -113,7 +113,7 @@ public:
   void wait(arrival_token&& arrival) const
   {
     std::unique_lock<decltype(mtx_)> lk(mtx_);
-    while (phase_ <= arrival.phase_) {
+    while (phase_ == arrival.phase_) {
       cv_.wait(lk);
     }
   }
@@ -128,7 +128,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
@@ -143,7 +143,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
-- 
2.43.0


From 9feb790d994cad870dfa63cd752faac402981d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 06/15] fix: shared_lock::unlock() throws instead of asserting
 when there is no mutex

---
 include/yamc_shared_lock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yamc_shared_lock.hpp b/include/yamc_shared_lock.hpp
index 229fd15..77a738e 100644
--- a/include/yamc_shared_lock.hpp
+++ b/include/yamc_shared_lock.hpp
@@ -159,10 +159,10 @@ public:
 
   void unlock()
   {
-    assert(pm_ != nullptr);
     if (!owns_) {
       throw std::system_error(std::make_error_code(std::errc::operation_not_permitted), "shared_lock::unlock");
     }
+    assert(pm_ != nullptr);
     pm_->unlock_shared();
     owns_ = false;
   }
-- 
2.43.0


From 8f15bbd8af1de4b6df3e9acfb67df7da20d380ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 07/15] fix: posix native mutexes pass a valid timespec for
 time points before the epoch

---
 include/posix_native_mutex.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 83314d7..159e4b1 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -79,6 +79,11 @@ class native_mutex {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_mutex_timedlock(&mtx_, &abs_timeout) == 0);
   }
 #endif
@@ -154,6 +159,11 @@ class native_recursive_mutex {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_mutex_timedlock(&mtx_, &abs_timeout) == 0);
   }
 #endif
@@ -236,6 +246,11 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_rwlock_timedwrlock(&rwlock_, &abs_timeout) == 0);
   }
 
@@ -245,6 +260,11 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_rwlock_timedrdlock(&rwlock_, &abs_timeout) == 0);
   }
 #endif
-- 
2.43.0


From 1ff9d886ae0573cff60d7fa66546045d6301cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 08/15] fix: posix semaphore passes a valid timespec for time
 points before the epoch

---
 include/posix_semaphore.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 4775445..b3c5c76 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -87,6 +87,11 @@ class counting_semaphore {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
 
     errno = 0;
     if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-- 
2.43.0


From 1e5618c045a301dfb3624c550a5b9b1586c0961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 09/15] fix: posix semaphore keeps waiting when interrupted by
 a signal handler

---
 include/posix_semaphore.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index b3c5c76..91bd092 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -93,13 +93,13 @@ class counting_semaphore {
       abs_timeout.tv_nsec += 1000000000;
     }
 
-    errno = 0;
-    if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-      return true;
-    } else if (errno != ETIMEDOUT) {
-      throw_errno("sem_timedwait");
+    while (::sem_timedwait(&sem_, &abs_timeout) != 0) {
+      if (errno == ETIMEDOUT)
+        return false;
+      if (errno != EINTR)  // retry when interrupted by a signal handler
+        throw_errno("sem_timedwait");
     }
-    return false;
+    return true;
   }
 
 public:
@@ -137,9 +137,9 @@ public:
 
   void acquire()
   {
-    errno = 0;
-    if (::sem_wait(&sem_) != 0) {
-      throw_errno("sem_wait");
+    while (::sem_wait(&sem_) != 0) {
+      if (errno != EINTR)  // retry when interrupted by a signal handler
+        throw_errno("sem_wait");
     }
   }
 
-- 
2.43.0


From 7d28abe9be1d578a26d2d4e1e1d558ac38fa9d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:13 +0000
Subject: [PATCH 10/15] fix: posix semaphore does not time out early when
 converting clocks

---
 include/posix_semaphore.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 91bd092..84e1bf2 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -57,7 +57,8 @@ inline
 std::chrono::time_point<std::chrono::system_clock, Duration>
 to_system_timepoint(const std::chrono::time_point<Clock, Duration>& tp)
 {
-  return std::chrono::system_clock::now() + (tp - Clock::now());
+  const auto rel_time = tp - Clock::now();  // read before system_clock, never ends up earlier than tp
+  return std::chrono::system_clock::now() + rel_time;
 }
 
 template<typename Duration>
-- 
2.43.0


From 2a4f5e147af22d1c311134b616c81f304186896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 11/15] fix: win timed operations do not wait when the timeout
 is already over

---
 include/win_native_mutex.hpp | 3 ++-
 include/win_semaphore.hpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 85d8990..38c8686 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -68,7 +68,8 @@ class native_mutex {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
+    const auto msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD timeout_in_msec = (0 < msec) ? static_cast<DWORD>(msec) : 0;
     DWORD result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index c70550b..bd1c40a 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -71,7 +71,8 @@ class counting_semaphore {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
+    const auto msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD timeout_in_msec = (0 < msec) ? static_cast<DWORD>(msec) : 0;
     DWORD result = ::WaitForSingleObject(hsem_, timeout_in_msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
-- 
2.43.0


From 13c6e11ac72229d47e54f5c67a7f0ebeff9a30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 12/15] fix: win timed operations wait for timeouts longer than
 32bit milliseconds

---
 include/win_native_mutex.hpp | 11 ++++++++---
 include/win_semaphore.hpp    | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 38c8686..bb4c353 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -68,9 +68,14 @@ class native_mutex {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    const auto msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
-    DWORD timeout_in_msec = (0 < msec) ? static_cast<DWORD>(msec) : 0;
-    DWORD result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+    auto msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD timeout_in_msec, result;
+    do {
+      // Win32 wait functions accept a timeout shorter than INFINITE milliseconds
+      timeout_in_msec = (msec <= 0) ? 0 : (msec < INFINITE) ? static_cast<DWORD>(msec) : INFINITE - 1;
+      result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+      msec -= timeout_in_msec;
+    } while (result == WAIT_TIMEOUT && 0 < msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index bd1c40a..5eed12c 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -71,9 +71,14 @@ class counting_semaphore {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    const auto msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
-    DWORD timeout_in_msec = (0 < msec) ? static_cast<DWORD>(msec) : 0;
-    DWORD result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+    auto msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD timeout_in_msec, result;
+    do {
+      // Win32 wait functions accept a timeout shorter than INFINITE milliseconds
+      timeout_in_msec = (msec <= 0) ? 0 : (msec < INFINITE) ? static_cast<DWORD>(msec) : INFINITE - 1;
+      result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+      msec -= timeout_in_msec;
+    } while (result == WAIT_TIMEOUT && 0 < msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
-- 
2.43.0


From 334a969853a5a9c5789d47cca61516c72ffd4fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 13/15] fix: win semaphore accepts release(0)

---
 include/win_semaphore.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index 5eed12c..9b1b757 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -127,6 +127,8 @@ public:
   void release(std::ptrdiff_t update = 1)
   {
     validate_native_handle("counting_semaphore::release");
+    if (update == 0)
+      return;  // ReleaseSemaphore() refuses zero
     BOOL result = ::ReleaseSemaphore(hsem_, (LONG)update, NULL);
     if (!result) {
       // [thread.mutex.requirements.mutex]
-- 
2.43.0


From f2af02de82aaf69f8fc38ca9b416ee239d3421c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 14/15] fix: win::native_mutex::native_handle() returns the
 handle

---
 include/win_native_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index bb4c353..7b8db58 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -148,7 +148,7 @@ public:
   using native_handle_type = ::HANDLE;
   native_handle_type native_handle()
   {
-    return &hmtx_;
+    return hmtx_;
   }
 };
 
-- 
2.43.0


From f5c1116de0b290ca59b366b50deec0b25c3c7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 15/15] fix: deadlock detection forgets the waiters that a
 checked shared mutex wakes up

A reader that had been notified but had not run yet was still listed as a
waiter, so that a deadlock was reported where there is none.
---
 include/checked_shared_mutex.hpp | 4 ++++
 include/yamc_lock_validator.hpp  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 216f7f6..231fbce 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -118,6 +118,7 @@ protected:
         std::abort();
 #else
         RwLockPolicy::after_wait_wlock(state_);
+        validator::dequeue_all(reinterpret_cast<uintptr_t>(this));
         cv_.notify_all();  // readers might wait for this writer only
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
@@ -166,6 +167,7 @@ protected:
     e_owner_ = {};
     RwLockPolicy::release_wlock(state_);
     validator::unlocked(reinterpret_cast<uintptr_t>(this), tid, false);
+    validator::dequeue_all(reinterpret_cast<uintptr_t>(this));
     cv_.notify_all();
   }
 
@@ -231,6 +233,7 @@ protected:
 #endif
     }
     if (RwLockPolicy::release_rlock(state_)) {
+      validator::dequeue_all(reinterpret_cast<uintptr_t>(this));
       cv_.notify_all();
     }
     auto result = std::remove(s_owner_.begin(), s_owner_.end(), tid);
@@ -303,6 +306,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        detail::validator::dequeue_all(reinterpret_cast<uintptr_t>(this));
         cv_.notify_all();  // readers might wait for this writer only
         return false;
       }
diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index d4c642c..1869888 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -178,6 +178,13 @@ public:
     auto&& table = global_table();
     remove_elem(table.mutexmap[mkey].waiters, tid);
   }
+
+  static void dequeue_all(uintptr_t mkey)
+  {
+    // all waiters are going to wake up, they enqueue again if they have to wait further
+    auto&& table = global_table();
+    table.mutexmap[mkey].waiters.clear();
+  }
 };
 
 
@@ -189,6 +196,7 @@ public:
   static void unlocked(uintptr_t, std::thread::id, bool) {}
   static bool enqueue(uintptr_t, std::thread::id, bool) { return true; }
   static void dequeue(uintptr_t, std::thread::id) {}
+  static void dequeue_all(uintptr_t) {}
 };
 
 
-- 
2.43.0

