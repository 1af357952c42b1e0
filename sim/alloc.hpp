// The simulated allocator: every allocation the library makes inside a LibScope is counted,
// tracked until it is freed, and can be made to fail.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>

namespace sim
{
    struct AllocPlan
    {
        std::vector<uint32_t> kth;   // fail exactly these allocations of the scope (1-based)
        uint32_t from = 0;           // fail this one and all later ones (0: off)
        size_t min_size = 0;         // fail every allocation of at least this size (0: off)
        bool empty() const { return kth.empty() && !from && !min_size; }
    };

    // Per caller (thread) allocator state.
    struct AllocCtx
    {
        int lib_depth = 0;
        int harness_depth = 0;
        AllocPlan plan;
        uint64_t count = 0;          // allocations since arm()
        uint64_t failed = 0;         // of which made to fail
        uint64_t bytes = 0;
        uint64_t total_failed = 0;
        uint64_t total_count = 0;
        bool active() const { return lib_depth > 0 && harness_depth == 0; }
        void arm(const AllocPlan& p) { plan = p; count = failed = bytes = 0; }
        void disarm() { plan.kth.clear(); plan.from = 0; plan.min_size = 0; count = failed = bytes = 0; }
    };
    AllocCtx& alloc_ctx();

    // Library-owned memory that is currently allocated.
    int64_t lib_outstanding();
    int64_t lib_outstanding_bytes();
    // The content of uninitialised heap and stack memory.
    void set_garbage(unsigned char b);
    void scrub_stack();

#ifdef SIM_THREADS
#define SIM_TLS thread_local
#else
#define SIM_TLS
#endif
    extern SIM_TLS uint64_t g_steps;        // simulated time: control-flow edges executed in library scopes
    extern SIM_TLS uint64_t g_step_budget;  // violation when exceeded (0: unlimited)
    extern SIM_TLS uint64_t g_mem_budget;   // bytes one scope may allocate in total
    uint32_t coverage_total();
    void coverage_memory(uint8_t* p);

    struct LibScope
    {
        LibScope();
        ~LibScope();
        LibScope(const LibScope&) = delete;
    };
    // Harness code that runs inside a library call (callbacks): not part of the system under test.
    struct HarnessScope
    {
        HarnessScope();
        ~HarnessScope();
        HarnessScope(const HarnessScope&) = delete;
    };
}
