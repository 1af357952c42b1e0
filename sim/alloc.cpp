#include "alloc.hpp"
#include "core.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>

extern "C"
{
    void* __real_malloc(size_t);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    void __real_free(void*);
}

#ifdef SIM_THREADS
// implemented by the thread engine
void sim_on_alloc(void* p, size_t n);
bool sim_on_free(void* p, size_t n); // true: the block is not to be reused
void sim_yield_alloc(const void* pc);
#else
static inline void sim_on_alloc(void*, size_t) {}
static inline bool sim_on_free(void*, size_t) { return false; }
static inline void sim_yield_alloc(const void*) {}
#endif

namespace sim
{
    namespace
    {
        struct Entry { void* p; size_t n; };
        constexpr size_t CAP0 = 1 << 12;
        Entry* table = nullptr;
        size_t cap = 0, used = 0; // used counts tombstones too
        int64_t live = 0, live_bytes = 0;
        void* const TOMB = reinterpret_cast<void*>(1);
        unsigned char fill = 0xA5;
        thread_local AllocCtx* tl_ctx = nullptr;

        size_t slot(void* p, size_t c) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull % c; }

        void put(void* p, size_t n);
        void grow()
        {
            auto old = table;
            auto oldcap = cap;
            cap = !cap ? CAP0 : (size_t(live) * 4 > cap ? cap * 2 : cap);
            table = static_cast<Entry*>(__real_calloc(cap, sizeof(Entry)));
            used = 0;
            for (size_t i = 0; i < oldcap; ++i)
                if (old[i].p && old[i].p != TOMB)
                {
                    size_t s = slot(old[i].p, cap);
                    while (table[s].p) s = (s + 1) % cap;
                    table[s] = old[i];
                    ++used;
                }
            __real_free(old);
        }
        void put(void* p, size_t n)
        {
            if (used * 2 >= cap) grow();
            size_t s = slot(p, cap);
            while (table[s].p && table[s].p != TOMB) s = (s + 1) % cap;
            if (!table[s].p) ++used;
            table[s] = {p, n};
            ++live;
            live_bytes += int64_t(n);
        }
        bool take(void* p, size_t& n)
        {
            if (!cap || !live) return false;
            size_t s = slot(p, cap);
            while (table[s].p)
            {
                if (table[s].p == p)
                {
                    n = table[s].n;
                    table[s].p = TOMB;
                    --live;
                    live_bytes -= int64_t(n);
                    return true;
                }
                s = (s + 1) % cap;
            }
            return false;
        }

        bool should_fail(AllocCtx& c, size_t n)
        {
            ++c.count;
            ++c.total_count;
            c.bytes += n;
            if (g_mem_budget && c.bytes > g_mem_budget)
                die_violation("unbounded-memory", "one call allocated more than its memory budget");
            bool f = false;
            for (auto k : c.plan.kth) f = f || k == c.count;
            if (c.plan.from && c.count >= c.plan.from) f = true;
            if (c.plan.min_size && n >= c.plan.min_size) f = true;
            if (f) { ++c.failed; ++c.total_failed; }
            return f;
        }

        void* do_alloc(size_t n, size_t align, const void* pc)
        {
            auto& c = alloc_ctx();
            bool lib = c.active();
            if (lib)
            {
                sim_yield_alloc(pc);
                if (should_fail(c, n)) return nullptr;
            }
            void* p;
            if (align > alignof(std::max_align_t))
            {
                if (posix_memalign(&p, align, n ? n : 1)) p = nullptr;
            }
            else
                p = __real_malloc(n ? n : 1);
            if (!p) { if (lib) die_violation("unbounded-memory", "the real allocator refused a request"); abort(); }
            if (lib)
            {
                memset(p, fill, n);
                put(p, n);
            }
            sim_on_alloc(p, n);
            return p;
        }

        void do_free(void* p, const void* pc)
        {
            if (!p) return;
            size_t n = 0;
            if (take(p, n))
            {
                bool keep = sim_on_free(p, n);
                if (alloc_ctx().active()) sim_yield_alloc(pc);
                if (keep) return;
            }
            __real_free(p);
        }
    }

    AllocCtx& alloc_ctx()
    {
        if (!tl_ctx)
            tl_ctx = new (__real_calloc(1, sizeof(AllocCtx))) AllocCtx;
        return *tl_ctx;
    }

    int64_t lib_outstanding() { return live; }
    int64_t lib_outstanding_bytes() { return live_bytes; }
    void set_garbage(unsigned char b) { fill = b; }

    // What earlier calls left on the stack is a source of nondeterminism too.
    __attribute__((noinline)) void scrub_stack()
    {
        volatile char a[12288];
        memset(const_cast<char*>(a), fill, sizeof a);
        asm volatile("" : : "r"(a) : "memory");
    }

    SIM_TLS uint64_t g_steps = 0;
    SIM_TLS uint64_t g_step_budget = 0;
    SIM_TLS uint64_t g_mem_budget = 64u << 20;

    // Where the stack was when the library was entered.
    static SIM_TLS uintptr_t stack_top = 0;
    LibScope::LibScope()
    {
        if (!alloc_ctx().lib_depth++) stack_top = uintptr_t(__builtin_frame_address(0));
    }
    LibScope::~LibScope() { --alloc_ctx().lib_depth; }
    HarnessScope::HarnessScope() { ++alloc_ctx().harness_depth; }
    HarnessScope::~HarnessScope() { --alloc_ctx().harness_depth; }
}

using namespace sim;
#define PC __builtin_return_address(0)

void* operator new(size_t n) { if (auto p = do_alloc(n, 0, PC)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (auto p = do_alloc(n, 0, PC)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 0, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 0, PC); }
void* operator new(size_t n, std::align_val_t a) { if (auto p = do_alloc(n, size_t(a), PC)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n, std::align_val_t a) { if (auto p = do_alloc(n, size_t(a), PC)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, size_t(a), PC); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, size_t(a), PC); }
void operator delete(void* p) noexcept { do_free(p, PC); }
void operator delete[](void* p) noexcept { do_free(p, PC); }
void operator delete(void* p, size_t) noexcept { do_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { do_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p, PC); }

extern "C"
{
    void* __wrap_malloc(size_t n)
    {
        if (!alloc_ctx().active())
        {
            auto q = __real_malloc(n);
            if (q) sim_on_alloc(q, n);
            return q;
        }
        auto p = do_alloc(n, 0, PC);
        if (!p) errno = ENOMEM;
        return p;
    }
    void* __wrap_calloc(size_t a, size_t b)
    {
        if (!alloc_ctx().active())
        {
            auto q = __real_calloc(a, b);
            if (q) sim_on_alloc(q, a * b);
            return q;
        }
        auto p = do_alloc(a * b, 0, PC);
        if (p) memset(p, 0, a * b);
        else errno = ENOMEM;
        return p;
    }
    void* __wrap_realloc(void* q, size_t n)
    {
        if (!alloc_ctx().active()) return __real_realloc(q, n);
        if (!q) return __wrap_malloc(n);
        size_t old = 0;
        if (!take(q, old)) return __real_realloc(q, n);
        put(q, old);
        auto p = do_alloc(n, 0, PC);
        if (!p) { errno = ENOMEM; return nullptr; }
        memcpy(p, q, old < n ? old : n);
        do_free(q, PC);
        return p;
    }
    void __wrap_free(void* p) { do_free(p, PC); }

#ifndef SIM_THREADS
    // Single caller: blocking on a lock that is already held can never end.
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!alloc_ctx().active()) return __real_pthread_mutex_lock(m);
        int r = pthread_mutex_trylock(m);
        if (r == EBUSY)
            die_violation("deadlock", "the call waits for a lock its own caller holds");
        return r;
    }

    // Stack, too, is memory: a call that recurses for every place it acts at runs out of it.
    static const uintptr_t STACK_BUDGET = 128 << 10;
    static void another_step(uintptr_t sp)
    {
        ++g_steps;
        if (g_step_budget && g_steps > g_step_budget)
            die_violation("no-progress", "the call did not end within its step budget");
        if (sp < stack_top && stack_top - sp > STACK_BUDGET)
            die_violation("stack-use", "the call uses more stack than any text should need");
    }

    static uint32_t n_guards = 0;
    static uint8_t* cov = nullptr;      // shared by all processes of this run
    void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
    {
        if (start == stop || *start) return;
        for (uint32_t* x = start; x < stop; ++x) *x = ++n_guards;
    }
    void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
    {
        auto& c = alloc_ctx();
        if (!c.active()) return;
        if (cov) cov[*guard] = 1;
        another_step(uintptr_t(__builtin_frame_address(0)));
    }
    // the same, from files that had to be compiled with gcc
    void __sanitizer_cov_trace_pc()
    {
        auto& c = alloc_ctx();
        if (!c.active()) return;
        another_step(uintptr_t(__builtin_frame_address(0)));
    }
#endif
}

namespace sim
{
#ifndef SIM_THREADS
    uint32_t coverage_total() { return n_guards; }
    void coverage_memory(uint8_t* p) { cov = p; }
#else
    uint32_t coverage_total() { return 0; }
    void coverage_memory(uint8_t*) {}
#endif
}
