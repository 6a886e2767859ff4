// Preemption-bounded schedule exploration of two sessions (property C25).
//
// The repository sources are compiled with -fsanitize=thread, which turns
// every memory access into a call; the functions behind those calls are
// defined in sched.cpp (there is no TSan runtime).  Two fibers run one
// operation each.  First each fiber runs alone and its accesses are logged.
// Accesses of the two fibers to disjoint memory commute, so when no location
// is written by one and touched by the other, all interleavings are
// equivalent to the serial one and a single execution decides them all.
// Otherwise every access to a conflicting location is a scheduling point and
// all schedules with up to 2 preemptions there are executed.
// Calls into GMP are atomic steps: the runner redirects them through stubs
// (generated from the prototypes in gmp.h) that report the number objects and
// limbs they read and write before jumping to the library.
#pragma once
#include "core.h"
#include <functional>
namespace mc {
// returns the number of schedules executed; fails through fail()
void sched_explore(std::function<void(int)> body, int bound, b64 cap);
int sched_who();                 // the thread the current fiber stands for, 0 outside
void *arena_alloc(size_t);       // memory of the current fiber, null outside
bool arena_has(void *);
}
