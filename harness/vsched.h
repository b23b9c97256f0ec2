// A scheduler that runs the threads of the code under test one at a time, and decides at every lock, wait, atomic operation
// and (seldom) memory access which goes on.  Drivers built without it see only these declarations, and use real threads.
#pragma once
#include <cstdint>
namespace vs {
    // Explore: run f again and again, until every choice of threads at locks and waits was made (with at most `bound` preemptions),
    // or f ran `most` times.  Returns the number of runs.
    void explore_begin(int bound) __attribute__((weak));
    bool explore_again() __attribute__((weak));      // after a run: is there another choice to try?
    void explore_end() __attribute__((weak));
    void random_schedule(uint64_t seed) __attribute__((weak));
    inline bool controlled() { return explore_begin != nullptr; }
    // Called when no thread can go on; blocked threads never will.
    extern void (*on_stuck)() __attribute__((weak));
}
