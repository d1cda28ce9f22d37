#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def a(files, *mech): return {'files': ['include/' + f for f in files], 'mechanism': [{'name': n, 'where': 'include/' + w} for n, w in mech]}
LOCKS = ['naive_spin_mutex.hpp', 'ttas_spin_mutex.hpp', 'alternate_mutex.hpp', 'alternate_shared_mutex.hpp', 'fair_mutex.hpp', 'fair_shared_mutex.hpp', 'checked_mutex.hpp', 'checked_shared_mutex.hpp', 'posix_native_mutex.hpp']
SHL = ['alternate_shared_mutex.hpp', 'fair_shared_mutex.hpp', 'checked_shared_mutex.hpp', 'posix_native_mutex.hpp', 'yamc_rwlock_sched.hpp']
P = []
def p(id, title, st, over, text, why, anc, tech, note): P.append(dict(id=id, title=title, statement=st, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=anc, _t=tech, _n=note))
SYM = 'symbolic execution of the LLVM IR of the real headers with a symbolic scheduler, clock and inputs; SAT/SMT verdict; native replay'
SEQ = 'symbolic execution of the LLVM IR of the real headers over symbolic operation sequences and values; SAT/SMT verdict; native replay'
SC = 'Bounded: every schedule, clock advance and input within the stated threads/operations/steps of each instance, under sequential consistency. Trusts the models of the standard library and OS primitives and the IR executor; witnesses and counterexamples are replayed natively.'
SQ = 'Bounded: every operation sequence of the stated length and every value of the stated width. Trusts the IR executor and library models; witnesses and counterexamples are replayed natively.'
p('C01', 'Mutual exclusion: an exclusively held lock has one owner', 'While one thread holds a mutex exclusively, however it was acquired (waiting, trying, or with a time limit), no other thread acquires it. What a thread writes while holding it is intact when the next owner arrives.', ['schedules', 'inputs'], 'all interleavings of 2-3 threads, 1-2 acquisitions each, all mixes of locking operations and time limits, spurious wake-ups and weak exchange failures included, for every lock type', 'the tests sample a handful of OS schedules with sleeps; a lost-ownership window of a few instructions is practically never hit', a(LOCKS, ('spin exchange', 'naive_spin_mutex.hpp'), ('condition-variable lock state', 'alternate_mutex.hpp'), ('queue hand-over', 'fair_mutex.hpp')), SYM, SC)
p('C02', 'Shared ownership: readers never overlap a writer, readers may share', 'A thread holding a shared lock exclusively is alone; threads holding it shared never coincide with an exclusive holder. Shared holders may coincide with each other.', ['schedules', 'inputs'], 'all interleavings of 2-3 threads taking the lock in either mode by every operation, and of four threads queueing behind a held lock with writers that may give up, for every shared lock and scheduling policy', 'tests check a few fixed orders driven by sleeps; the quantifier is over schedules and mode mixes', a(SHL, ('reader count and writer flag', 'yamc_rwlock_sched.hpp'), ('queue nodes merging readers', 'fair_shared_mutex.hpp')), SYM, SC)
p('C03', 'Recursive locks are free only after as many releases as acquisitions', 'The owner of a recursive lock may acquire it again by any operation without waiting, and no other thread acquires it until the owner has released it as often as it was acquired. After that it can be acquired by anybody.', ['schedules', 'inputs'], 'all interleavings and all nesting sequences up to depth 3 with two threads, depth 6 with one, and nesting of depth 66000 with attempts of another thread at every depth', 'tests use one fixed nesting and one schedule', a(['alternate_mutex.hpp', 'fair_mutex.hpp', 'checked_mutex.hpp', 'posix_native_mutex.hpp'], ('nesting counter', 'alternate_mutex.hpp'), ('nesting counter', 'fair_mutex.hpp')), SYM, SC)
p('C04', 'Progress: no thread is left waiting for a lock that nobody holds', 'If every holder eventually releases the lock, every thread waiting for it is eventually served or gives up at its time limit, whatever the others do, including writers that give up. There is no lost wake-up and no deadlock inside a single lock.', ['schedules', 'inputs'], 'all interleavings of 2-3 threads with 1-2 acquisitions by every operation, and of queues of four on the fair shared locks, followed by a fair continuation', 'a lost wake-up needs a particular interleaving of release, time-out and wait; tests hit it at most by chance and would simply hang', a(LOCKS + ['yamc_rwlock_sched.hpp'], ('notification on release', 'alternate_mutex.hpp'), ('queue hand-over', 'fair_mutex.hpp'), ('notification policy', 'alternate_shared_mutex.hpp')), SYM, SC + ' Termination is judged by deadlock freedom plus a bounded fair round-robin continuation.')
p('C05', 'Trying is exact: success on a free lock, failure without waiting on a held one', 'An attempt that does not wait succeeds if the lock is available to the caller throughout the attempt and fails if it is held incompatibly throughout, and it never blocks. A failed attempt leaves the lock as it was.', ['schedules', 'inputs'], 'all interleavings of 2-3 threads with trying attempts in both modes against every other operation', 'tests try a lock once while it is held and once while it is free; they do not interleave tries with releases, time-outs and hand-overs', a(LOCKS, ('trying operations', 'alternate_mutex.hpp'), ('trying operations', 'fair_shared_mutex.hpp')), SYM, SC + ' Implementations documented to fail spuriously are held to the documented contract.')
p('C06', 'Timed attempts never give up early nor refuse an available lock', 'A timed attempt returns failure only when its time limit has passed, never before, and only if the lock was unavailable at some moment of the attempt; a lock granted within the limit is reported as acquired. This holds for relative and absolute limits on any supported clock, zero and negative limits included.', ['schedules', 'inputs'], 'all interleavings of 2-3 threads, all clock advances, spurious wake-ups and all limits of 4 bits (44 bits in the wide instances)', 'tests use a few hundred milliseconds of slack and one limit; early expiry by rounding, spurious wake-ups racing with time-outs, and clock conversion are never exercised', a(['alternate_mutex.hpp', 'alternate_shared_mutex.hpp', 'fair_mutex.hpp', 'fair_shared_mutex.hpp', 'checked_mutex.hpp', 'checked_shared_mutex.hpp', 'posix_native_mutex.hpp'], ('timed waiting loops', 'alternate_mutex.hpp'), ('timed waiting loops', 'fair_mutex.hpp')), SYM, SC)
p('C07', 'Fair mutexes serve waiting threads first in, first out', 'A thread that is already waiting for a fair mutex is served before any thread that arrives later, unless it gives up at its own time limit. Threads that give up do not disturb the order of the others.', ['schedules', 'inputs'], 'all interleavings of 2-4 threads, with time-outs and spurious wake-ups', 'the FIFO test releases three threads at fixed pauses; overtaking needs an arrival between release and wake-up or a time-out in the middle of the queue', a(['fair_mutex.hpp'], ('waiting queue', 'fair_mutex.hpp')), SYM, SC)
p('C08', 'Fair shared mutexes keep the queueing order of their policy', 'Under task fairness waiting threads are served in arrival order, adjacent readers together. Under phase fairness a releasing writer followed by a waiting reader lets in every waiting reader at once, and apart from that the arrival order holds.', ['schedules', 'inputs'], 'all interleavings of 3-4 threads in all role assignments, with time-outs', 'tests check one arrival sequence per policy', a(['fair_shared_mutex.hpp', 'yamc_rwlock_sched.hpp'], ('queue insertion', 'fair_shared_mutex.hpp'), ('phase policy', 'yamc_rwlock_sched.hpp')), SYM, SC)
p('C09', 'Reader and writer preference decide who goes first', 'With reader preference a reader is never held up, and never refused, while no writer holds the lock. With writer preference no new reader gets in while a writer is waiting.', ['schedules', 'inputs'], 'all interleavings of 3-4 threads with waiting, trying and timed operations', 'tests check one order of arrival per policy, driven by a step counter', a(['yamc_rwlock_sched.hpp', 'alternate_shared_mutex.hpp', 'checked_shared_mutex.hpp'], ('scheduling policies', 'yamc_rwlock_sched.hpp')), SYM, SC)
p('C10', 'Checked locks report every misuse and nothing else', 'Acquiring a checked lock the caller already holds, releasing one the caller does not hold, and destroying one that is held are reported with the documented error, or end the process when so configured. Correct use is never reported, and a reported operation leaves the lock as it was.', ['histories', 'configurations', 'inputs'], 'all sequences of 4-5 operations by two threads on every checked lock, and all interleavings of two threads with two operations each that may wait, in the throwing, aborting and detection-disabled configurations', 'tests have one case per error kind; combinations (error after error, mixed modes, after recursion) are not covered', a(['checked_mutex.hpp', 'checked_shared_mutex.hpp', 'yamc_lock_validator.hpp'], ('misuse checks', 'checked_mutex.hpp'), ('misuse checks', 'checked_shared_mutex.hpp')), SEQ, SQ)
p('C11', 'Deadlock detection is exact: every cycle is reported and nothing else', 'When threads wait for each other in a cycle through checked locks, one of them gets the documented error instead of waiting for ever. No error is reported where there is no cycle, and after a report all locks are usable once they are released.', ['schedules', 'programs', 'configurations'], 'all interleavings and all request patterns of two threads over two locks, and selected three-thread patterns (cycle, chain, common target, readers, a reader that has just been woken up), with the report as an exception, as an abort, and switched off', 'tests have one cycle of two or three threads under one schedule', a(['yamc_lock_validator.hpp', 'checked_mutex.hpp', 'checked_shared_mutex.hpp'], ('owner and waiter graph', 'yamc_lock_validator.hpp')), SYM, SC + ' Only requests without a time limit count as waiting for ever; requests with a time limit are covered for the exclusive locks.')
p('C12', 'Semaphores conserve tokens and wake waiting threads', 'The number of successful acquisitions never exceeds the initial value plus what was released; every token released can be acquired. A waiting thread is served as long as tokens suffice, an attempt fails only if there was a moment without a token, and a timed attempt not before its limit.', ['schedules', 'inputs'], 'all interleavings of 2-3 threads, releases of 0-2 tokens, spurious wake-ups; sequentially all initial values and updates of 63 bits', 'tests acquire and release in fixed patterns with small counts', a(['yamc_semaphore.hpp'], ('token counter', 'yamc_semaphore.hpp')), SYM, SC)
p('C13', 'A latch opens exactly when its count is used up, and stays open', 'No thread passes a latch before the whole count has been used up; from then on every waiting thread passes, every test of the latch succeeds, and it never closes again.', ['schedules', 'inputs'], 'all interleavings of 2-3 threads with all ways of counting down, waiting and testing', 'tests use fixed thread counts and one schedule', a(['yamc_latch.hpp'], ('count and condition', 'yamc_latch.hpp')), SYM, SC)
p('C14', 'A barrier completes each phase exactly once, after everybody has arrived', 'The completion step of a phase runs exactly once, after all expected arrivals and before anybody waiting for that phase passes; a thread passes exactly the phases it arrived for. Dropping out lowers the expected count from the next phase on.', ['schedules', 'inputs', 'histories'], 'all interleavings of 2-3 threads over 2-3 phases with all ways to arrive, wait and drop out, and with the internal counter about to wrap around', 'tests run one phase pattern; mixing drop-outs with different last arrivals is not covered', a(['yamc_barrier.hpp'], ('phase counter', 'yamc_barrier.hpp')), SYM, SC)
p('C15', 'shared_lock releases exactly what it owns, and reports misuse', 'A shared lock guard owns the lock exactly when its last successful operation says so; moving, swapping and releasing transfer the ownership without touching the mutex, and destruction releases exactly what is owned. Operations without a mutex or on an already owned one are rejected with the documented error without touching the mutex, exceptions of the mutex included.', ['histories', 'inputs'], 'all sequences of construction plus 3 operations on two guards and two mutexes (4 for the moves), every operation allowed to refuse or throw', 'tests check each operation once from one state', a(['yamc_shared_lock.hpp'], ('ownership flag', 'yamc_shared_lock.hpp')), SEQ, SQ)
p('C16', 'scoped_lock holds all its mutexes for the scope, without deadlock', 'A scoped guard over several mutexes holds all of them inside its scope and none afterwards, also when the scope is left by an exception and when it adopts mutexes that are already held. Guards naming the same mutexes in different orders never block each other for ever.', ['schedules', 'programs'], 'all interleavings of 2-3 threads with 1-3 mutexes in different orders', 'tests use one thread', a(['yamc_scoped_lock.hpp'], ('locking of the tuple', 'yamc_scoped_lock.hpp')), SYM, SC + ' std::lock may livelock; only deadlock is excluded.')
p('C18', 'Backoff policies yield when they say they do', 'The exponential policy yields after its interval is used up and shortens the interval about by half each time, down to one yield per wait; from any state a yield comes within the current interval. The yielding policy yields once per wait and the busy policy never.', ['inputs', 'histories'], 'four consecutive intervals from the initial state for several initial counts, and one step from every 32-bit state', 'no test observes the yields', a(['yamc_backoff_spin.hpp'], ('backoff policies', 'yamc_backoff_spin.hpp')), SEQ, SQ)
exec(open(V + '/tools/meta_more.py').read()) if os.path.exists(V + '/tools/meta_more.py') else None
P.sort(key=lambda x: x['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps({k: v for k, v in x.items() if not k.startswith('_')}) + '\n')
NA = globals().get('NA', [])
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [{'property': x['id'], 'quick_cmd': 'python3 tools/check.py %s --tier quick' % x['id'], 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % x['id'], 'technique': x['_t'], 'level': 'model_checking', 'level_note': x['_n']} for x in P if x['id'] not in {n['property'] for n in NA}], 'not_applicable': NA}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
