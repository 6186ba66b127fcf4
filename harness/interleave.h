// Deterministic scheduling of the tested code's threads.
//
// The library and the harness are compiled with -fsanitize=thread, but linked with the functions of interleave.cpp instead of the
// ThreadSanitizer runtime: every memory access, atomic operation and synchronisation call is a point at which the running
// thread may be preempted. Threads are real threads, but only one runs at a time; which one is drawn from the Case, so a
// schedule is part of the generated input, replays and shrinks. A state in which no thread can run is reported as a deadlock,
// and conflicting accesses that no synchronisation orders are reported as a data race (vector clocks; relaxed loads count as acquire loads, so
// what is decided is the set of sequentially consistent interleavings, not the choice of memory orders).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "pbt.h"

namespace sched {
struct Event { int tid, kind; int64_t a, b; };

struct Session {  // threads created while it lives are scheduled; the creating thread has number 0
    explicit Session(pbt::Case & c, bool races = true);  // races: report data races
    ~Session();
    void finish();  // runs until all other threads have ended, and fails the case if a data race was seen
};

void event(int kind, int64_t a = 0, int64_t b = 0);  // appends to the history; not a scheduling point
const std::vector<Event> & events();
void bad(const std::string & msg);  // a wrong result seen by any thread; finish() reports the first one
int self();
void yield();            // lets another thread run if the schedule says so
uint64_t switches();     // preemptions (switches that were not forced by blocking) so far
uint64_t points();
}  // namespace sched
