// The thread engine: real threads, of which exactly one runs at any time; the scheduler decides
// at every memory access, allocation, callback and synchronisation of the library which one.
#pragma once
#include "core.hpp"
#include <functional>

namespace sim
{
    constexpr int MAX_THREADS = 4;

    struct Schedule
    {
        enum Kind { EXPLICIT, RANDOM, PCT, HOT } kind = EXPLICIT;
        u64 seed = 0;
        u64 k = 0;          // RANDOM: one switch in k points; PCT: change points; HOT: one in k cold points
        u64 length = 1;     // expected number of points
        std::map<u64, int> pre;   // EXPLICIT: at this point, continue with this thread
    };

    // Runs the bodies as threads under the schedule, to completion. Every decision taken is
    // appended to g_shared->nested as "pre step=.. to=.." lines.
    void run_threads(const Schedule& s, const std::vector<std::function<void()>>& bodies);
    // A scheduling point in harness code of a simulated thread (callbacks, between calls).
    void yield_point();
    // What the current thread is doing, for reports.
    void set_activity(const char* name);
    u64 thread_points();     // scheduling points passed by all threads
    u64 thread_switches();   // preemptions
    u64 schedule_hash();
    u64 shared_conflicts();  // points at which another thread had touched the same mutable memory
}
