// Harness vocabulary shared by the symbolic engine and the native replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cassert>
extern "C" {
unsigned __vx_choice(unsigned n);          // nondeterministic value 0..n-1
uint64_t __vx_sym64();                     // nondeterministic 64-bit value
uint64_t __vx_symbits(unsigned w);         // nondeterministic w-bit value
void __vx_assume(bool x);
void __vx_assert_(bool x, const char* msg);
void __vx_cover(const char* name);
void __vx_yield();                         // a scheduling point
int __vx_tid();
void __vx_set_tid(int i);                  // only in sequential entry points
uint64_t __vx_now();
int __vx_step();
int __vx_waiting(int t);                   // thread t is blocked in a condition wait, not yet woken
int __vx_waited(int t);                    // thread t has been in a condition wait since its last reset
void __vx_waited_reset();                  // start of an attempt by the calling thread
uint64_t __vx_clockmax();
void __vx_path_end();
void setup();
void final();
void thread_0();
void thread_1();
void thread_2();
void thread_3();
}
#define CHECK(x, msg) __vx_assert_((x), msg)
// conditions that belong to one property are only asserted when that property is being decided
#ifndef ALLPROPS
#define ALLPROPS 0       // platform wrappers: everything at once
#endif
#ifndef PROP
#define PROP 0
#endif
#define CHK(p, x, msg) do { if (PROP == (p) || ALLPROPS) __vx_assert_((x), msg); } while (0)
#ifndef NT
#define NT 2
#endif
#define COVER(n) __vx_cover(n)

#include "containers.h"
