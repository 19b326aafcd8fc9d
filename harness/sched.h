/*
 * Controlled concurrency.  The engine is compiled with the compiler's thread
 * instrumentation, but the functions it calls are ours: every access to memory,
 * atomic operation, lock and pause is a point where the scheduler may hand the
 * only permission to run to another thread.  A seed determines the schedule.
 */
#pragma once

#include <cstdint>
#include <functional>
#include <vector>

namespace sched {

// runs the bodies as threads, interleaved as the seed says; engine threads may
// join in (wake) and drop out (park)
void run(std::uint64_t seed, const std::vector<std::function<void()>>& bodies);

bool active();      // between begin and end of run
bool controlled();  // the calling thread is one of the scheduled ones

// engine threads
void* wake(void* o);  // it may run from now on (called by a scheduled thread); o: null or what wake returned
void join(void* o);   // called by the thread itself: wait for the permission
void park();          // called by the thread itself: it gives the permission back

void track(bool b);    // from now on watch which memory the threads share
void act_as(int id);   // who the calling thread is, 1..255

void relax();         // let others run (waiting for something)
std::uint64_t steps();

// what happens in its scope is one step
struct quiet {
    quiet();
    ~quiet();
    quiet(const quiet&) = delete;
    quiet& operator=(const quiet&) = delete;
};

} // namespace sched
