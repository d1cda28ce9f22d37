p('C17', 'What is written under a lock is visible to the next owner, without data races', 'Everything a thread did before releasing a lock happens before everything the next incompatible owner does after acquiring it, by every acquiring operation that succeeds. The locks themselves contain no data race.', ['schedules', 'inputs'], 'all interleavings of 2-3 threads with 1-2 acquisitions by every operation in every mode; a pair of accesses is a race unless the acquire and release operations actually executed order them', 'on x86 a relaxed store behaves like a releasing one and tests do not run under a race detector', a(LOCKS, ('memory orders of the spin flag', 'naive_spin_mutex.hpp'), ('memory orders of the spin flag', 'ttas_spin_mutex.hpp'), ('owner field read outside the internal mutex', 'alternate_mutex.hpp'), ('internal mutex', 'fair_mutex.hpp')), 'symbolic execution of the LLVM IR of the real headers with a symbolic scheduler and a happens-before relation built from the memory orders in the code; SAT/SMT verdict; native replay', SC.replace(', under sequential consistency', ', with sequentially consistent values and C++11 happens-before') + ' Outcomes only possible under weaker memory are covered as races of the accesses that would observe them.')
p('C19', 'POSIX wrappers hand every time limit and lock state to the native primitive unchanged', 'A timed attempt on a POSIX wrapper asks the native primitive for exactly the requested time limit, in a valid form, whatever the sign, size and unit of the limit, and reports the outcome of the native call. Operations through the wrapper and through its native handle act on the same lock.', ['inputs', 'histories', 'schedules'], 'all time limits of 62 bits in nanoseconds (42 in milliseconds, 32 in seconds), both signs, relative and absolute, for every timed operation and every outcome of the native call; all sequences of 6 operations mixed through wrapper and handle; interleavings of 2 threads before the epoch', 'tests use a few positive limits near the present; carries, negative remainders and mixed use are input-dependent', a(['posix_native_mutex.hpp', 'posix_semaphore.hpp'], ('conversion to timespec', 'posix_native_mutex.hpp'), ('conversion to timespec', 'posix_semaphore.hpp')), SEQ, SQ + ' The native timed calls are replaced by recorders that return every outcome; overflow of the time representation is outside.')
p('C20', 'The POSIX semaphore conserves tokens, also when interrupted by signals', 'The POSIX semaphore wrapper grants no more tokens than exist and loses none, serves waiting threads, and gives up a timed attempt neither before its limit nor while a token is available, on any clock. An interruption by a signal handler is never visible to the caller.', ['schedules', 'inputs', 'faults'], 'all interleavings of 2-3 threads with all acquiring operations, releases of 0-2 tokens, and up to two interruptions of a wait at any moment; sequentially all initial values of 31 bits', 'tests never interrupt a wait and use small fixed counts', a(['posix_semaphore.hpp'], ('retry after EINTR', 'posix_semaphore.hpp'), ('clock conversion', 'posix_semaphore.hpp')), SYM, SC)
p('C21', 'Windows and macOS lock wrappers keep the contract of the lock they wrap', 'The wrappers of native Windows and macOS locks give mutual exclusion, shared ownership, recursion, exact trying and progress as far as the native lock documents them. A timed attempt waits at least its limit however long it is, does not wait when the limit has passed, never waits for ever, and reports failures of the native call.', ['schedules', 'inputs', 'faults'], 'all interleavings of 2-3 threads on models of the native calls; for timed attempts all limits of 30 bits in nanoseconds and limits around multiples of the longest native wait, with every outcome of every native wait', 'the tests of these wrappers cannot even be compiled on this platform', a(['win_native_mutex.hpp', 'apple_native_mutex.hpp'], ('wait in milliseconds', 'win_native_mutex.hpp'), ('native calls', 'apple_native_mutex.hpp')), SYM, SC + ' The platform headers are stand-ins written from the documented behaviour of the calls.')
p('C22', 'Windows and GCD semaphores conserve tokens and keep time limits', 'The semaphore wrappers for Windows and Grand Central Dispatch grant no more tokens than exist and lose none, for every update including zero. Waiting threads are served, and a timed attempt gives up neither before its limit nor while a token is available.', ['schedules', 'inputs', 'faults'], 'all interleavings of 2-3 threads on models of the native calls; sequentially all initial values of 31 bits; for timed attempts all limits of 30 bits and limits around multiples of the longest native wait, with every outcome of every native wait', 'the tests of these wrappers cannot even be compiled on this platform', a(['win_semaphore.hpp', 'gcd_semaphore.hpp'], ('wait in milliseconds', 'win_semaphore.hpp'), ('clock conversion', 'gcd_semaphore.hpp')), SYM, SC + ' The platform headers are stand-ins written from the documented behaviour of the calls.')
