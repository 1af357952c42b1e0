// Runtime behind -fsanitize=thread instrumentation: instead of observing real concurrency it
// hands every access to the scheduler, and checks the simulated execution for data races with
// vector clocks.
#include "alloc.hpp"
#include "threads.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <linux/futex.h>
#include <sched.h>
#include <sys/syscall.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

extern "C" char __data_start;
extern "C" char _end;
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void __real_free(void*);

namespace sim
{
    namespace
    {
        struct Clock
        {
            u32 c[MAX_THREADS] = {};
            void join(const Clock& o)
            {
                for (int i = 0; i < MAX_THREADS; ++i)
                    if (o.c[i] > c[i]) c[i] = o.c[i];
            }
        };

        struct Thread
        {
            sem_t sem;
            pthread_t handle;
            bool done = false;
            const void* waiting = nullptr; // blocked on this object
            Clock vc;
            u64 priority = 0;
            u64 spin = 0;
            uintptr_t stack_lo = 0, stack_hi = 0;
            const char* activity = "start";
            const std::function<void()>* body = nullptr;
        };

        // What is known about eight bytes of memory.
        struct Cell
        {
            uintptr_t key;
            u32 wc[MAX_THREADS], rc[MAX_THREADS];
            const char* wa[MAX_THREADS];
            const char* ra[MAX_THREADS];
            u8 wm[MAX_THREADS], rm[MAX_THREADS];
            u8 freed;
        };

        // All of this is only touched by the one thread that runs.
        bool running = false;
        int n_threads = 0;
        Thread threads[MAX_THREADS];
        thread_local int self = -1;
        sem_t main_sem;
        const Schedule* sched = nullptr;
        Rng rng(0);
        u64 point = 0, switches = 0, conflicts = 0, sched_hash = 0;
        std::vector<u64> change_points;
        u64 low_priority = 0;

        Cell* cells = nullptr;
        size_t n_cells = 0, used_cells = 0;

        size_t slot(uintptr_t key, size_t n) { return (key * 0x9E3779B97F4A7C15ull >> 20) & (n - 1); }
        Cell& cell(uintptr_t key)
        {
            if (used_cells * 2 >= n_cells)
            {
                auto old = cells;
                auto oldn = n_cells;
                n_cells = oldn ? oldn * 2 : 1 << 12;
                cells = static_cast<Cell*>(__real_calloc(n_cells, sizeof(Cell)));
                for (size_t i = 0; i < oldn; ++i)
                    if (old[i].key)
                    {
                        size_t s = slot(old[i].key, n_cells);
                        while (cells[s].key) s = (s + 1) & (n_cells - 1);
                        cells[s] = old[i];
                    }
                __real_free(old);
            }
            size_t s = slot(key, n_cells);
            while (cells[s].key && cells[s].key != key) s = (s + 1) & (n_cells - 1);
            if (!cells[s].key)
            {
                cells[s].key = key;
                ++used_cells;
            }
            return cells[s];
        }

        std::string where(const void* pc)
        {
            Dl_info d;
            if (!dladdr(pc, &d) || !d.dli_sname) return "?";
            int st = 0;
            char* p = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
            std::string r = st == 0 && p ? p : d.dli_sname;
            auto q = r.find('(');
            if (q != std::string::npos && q > 0) r.resize(q);
            return r;
        }

        // ---- scheduling
        void record(u64 at, int to)
        {
            char b[64];
            int n = snprintf(b, sizeof b, "pre step=%llu to=%d\n", (unsigned long long)at, to);
            if (g_shared->nested_size + size_t(n) < sizeof g_shared->nested)
            {
                memcpy(g_shared->nested + g_shared->nested_size, b, size_t(n));
                g_shared->nested_size += size_t(n);
            }
            sched_hash = mix(sched_hash, at * MAX_THREADS + u64(to));
        }

        bool runnable(int i) { return !threads[i].done && !threads[i].waiting; }

        int random_other()
        {
            int c[MAX_THREADS], n = 0;
            for (int i = 0; i < n_threads; ++i)
                if (i != self && runnable(i)) c[n++] = i;
            return n ? c[rng.below(u64(n))] : -1;
        }
        int best()
        {
            int b = -1;
            for (int i = 0; i < n_threads; ++i)
                if (runnable(i) && (b < 0 || threads[i].priority > threads[b].priority)) b = i;
            return b;
        }
        int lowest()
        {
            for (int i = 0; i < n_threads; ++i)
                if (runnable(i)) return i;
            return -1;
        }

        void wait_turn(int me)
        {
            while (sem_wait(&threads[me].sem) != 0) {}
        }

        void switch_to(int to)
        {
            int me = self;
            if (to == me) return;
            sem_post(&threads[to].sem);
            if (!threads[me].done) wait_turn(me);
        }

        // The current thread cannot go on: somebody else must.
        void must_switch()
        {
            ++point;
            int to = -1;
            auto it = sched->pre.find(point);
            if (sched->kind == Schedule::EXPLICIT && it != sched->pre.end() && it->second >= 0 && it->second < n_threads && runnable(it->second))
                to = it->second;
            else if (sched->kind == Schedule::EXPLICIT) to = lowest();
            else if (sched->kind == Schedule::PCT) to = best();
            else to = random_other();
            if (to < 0)
            {
                HarnessScope h;
                bool any = false;
                std::string who;
                for (int i = 0; i < n_threads; ++i)
                    if (!threads[i].done)
                    {
                        any = true;
                        who += std::string(" thread ") + std::to_string(i) + " in " + threads[i].activity + ";";
                    }
                if (any)
                    die_violation("deadlock", ("every unfinished call waits for another:" + who).c_str());
                sem_post(&main_sem);
                return;
            }
            record(point, to);
            switch_to(to);
        }

        // The current thread could be preempted here.
        void may_switch(bool hot, bool must_give_way = false)
        {
            ++point;
            int to = -1;
            switch (sched->kind)
            {
            case Schedule::EXPLICIT:
                if (auto it = sched->pre.find(point); it != sched->pre.end())
                    to = it->second;
                if (to < 0 || to >= n_threads || !runnable(to)) to = -1;
                break;
            case Schedule::RANDOM:
                if (rng.below(sched->k) == 0) to = random_other();
                break;
            case Schedule::HOT:
                if (hot ? rng.below(3) == 0 : rng.below(sched->k) == 0) to = random_other();
                break;
            case Schedule::PCT:
                while (!change_points.empty() && change_points.back() <= point)
                {
                    change_points.pop_back();
                    threads[self].priority = low_priority--;
                }
                to = best();
                break;
            }
            if (must_give_way && (to < 0 || to == self) && sched->kind != Schedule::EXPLICIT)
            {
                if (sched->kind == Schedule::PCT) threads[self].priority = low_priority--;
                to = random_other();
            }
            if (to >= 0 && to != self)
            {
                threads[self].spin = 0;
                ++switches;
                if (hot) ++conflicts;
                record(point, to);
                switch_to(to);
            }
        }

        bool in_sim() { return running && self >= 0; }

        void tick()
        {
            ++g_steps;
            if (g_step_budget && g_steps > g_step_budget)
                die_violation("no-progress", "a call did not end within its step budget");
        }

        // ---- race detection
        [[noreturn]] void race(const char* what, int other, const char* their, const void* pc)
        {
            HarnessScope h;
            std::string d = std::string(what) + ": " + where(pc) + " (thread " + std::to_string(self) + ", "
                            + threads[self].activity + ") conflicts with thread " + std::to_string(other)
                            + " (" + (their ? their : "?") + "), unordered by any synchronisation";
            die_violation("data-race", d.c_str());
        }

        bool hot_and_check(uintptr_t a, size_t n, bool write, const void* pc)
        {
            bool hot = a >= uintptr_t(&__data_start) && a < uintptr_t(&_end);
            auto& me = threads[self];
            for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
            {
                uintptr_t lo = g << 3;
                size_t from = a > lo ? a - lo : 0;
                size_t to = a + n < lo + 8 ? a + n - lo : 8;
                auto m = u8(((1u << to) - 1) & ~((1u << from) - 1));
                auto& c = cell(g);
                if (c.freed & m)
                {
                    HarnessScope h;
                    die_violation("use-after-free", (std::string(write ? "write" : "read") + " of freed memory in " + where(pc)).c_str());
                }
                for (int u = 0; u < n_threads; ++u)
                {
                    if (u == self) continue;
                    if (c.wm[u] & m)
                    {
                        hot = true;
                        if (c.wc[u] > me.vc.c[u]) race(write ? "write after write" : "read after write", u, c.wa[u], pc);
                    }
                    if (write && (c.rm[u] & m))
                    {
                        hot = true;
                        if (c.rc[u] > me.vc.c[u]) race("write after read", u, c.ra[u], pc);
                    }
                }
                auto& mm = write ? c.wm[self] : c.rm[self];
                auto& cc = write ? c.wc[self] : c.rc[self];
                (write ? c.wa : c.ra)[self] = me.activity;
                if (cc == me.vc.c[self]) mm |= m;
                else { cc = me.vc.c[self]; mm = m; }
            }
            return hot;
        }

        void access(const void* p, size_t n, bool write, const void* pc)
        {
            if (!n || !alloc_ctx().active()) return;
            tick();
            if (!in_sim()) return;
            auto a = uintptr_t(p);
            if (a >= threads[self].stack_lo && a < threads[self].stack_hi) return;
            bool hot = hot_and_check(a, n, write, pc);
            may_switch(hot);
            // preempted between deciding to access and accessing: others may have come first
            if (hot) hot_and_check(a, n, write, pc);
        }

        // ---- synchronisation objects
        struct SyncObj
        {
            Clock vc;
            int owner = -1;       // exclusive holder
            int depth = 0;
            int readers = 0;
            int once = 0;         // 0 not run, 1 running, 2 done
        };
        std::map<const void*, SyncObj>* objs = nullptr;
        SyncObj& obj(const void* p)
        {
            HarnessScope h;
            return (*objs)[p];
        }
        void acquire(const void* p) { threads[self].vc.join(obj(p).vc); }
        void release(const void* p, bool assign = false)
        {
            auto& o = obj(p);
            if (assign) o.vc = threads[self].vc;
            else o.vc.join(threads[self].vc);
            ++threads[self].vc.c[self];
        }
        void wake(const void* p)
        {
            for (int i = 0; i < n_threads; ++i)
                if (threads[i].waiting == p) threads[i].waiting = nullptr;
        }
        void wait_for(const void* p)
        {
            {
                HarnessScope h;
                R.count("probe:waited-for-a-lock");
            }
            threads[self].waiting = p;
            must_switch();
        }
        bool sim_sync() { return in_sim() && alloc_ctx().active(); }

        void* thread_main(void* arg)
        {
            int me = int(reinterpret_cast<intptr_t>(arg));
            self = me;
            auto& t = threads[me];
            char here;
            t.stack_hi = uintptr_t(&here) + 65536;
            t.stack_lo = uintptr_t(&here) - (4u << 20);
            wait_turn(me);
            try { (*t.body)(); }
            catch (const Violation& v) { die_violation(v.cls.c_str(), v.detail.c_str()); }
            catch (const std::exception& e)
            {
                g_shared->state = Shared::ERROR;
                snprintf(g_shared->detail, sizeof g_shared->detail, "%s", e.what());
                fflush(stdout);
                _exit(4);
            }
            t.done = true;
            t.activity = "finished";
            must_switch();
            // what the thread leaves behind is cleaned up when all are done, one at a time
            wait_turn(me);
            self = -1;
            return nullptr;
        }
    }

    void set_activity(const char* name) { if (self >= 0) threads[self].activity = name; }
    void yield_point() { if (in_sim()) { tick(); may_switch(false); } }
    u64 thread_points() { return point; }
    u64 thread_switches() { return switches; }
    u64 schedule_hash() { return sched_hash; }
    u64 shared_conflicts() { return conflicts; }

    void run_threads(const Schedule& s, const std::vector<std::function<void()>>& bodies)
    {
        // one processor: handing over is cheaper, and nothing else may run anyway
        cpu_set_t set;
        CPU_ZERO(&set);
        CPU_SET(sched_getcpu(), &set);
        sched_setaffinity(0, sizeof set, &set);

        objs = new std::map<const void*, SyncObj>;
        sched = &s;
        rng = Rng(s.seed);
        n_threads = int(bodies.size());
        sem_init(&main_sem, 0, 0);
        std::vector<u64> prio;
        for (int i = 0; i < n_threads; ++i) prio.push_back(u64(1000 + i));
        for (int i = n_threads - 1; i > 0; --i) std::swap(prio[size_t(i)], prio[rng.below(u64(i) + 1)]);
        low_priority = 999;
        if (s.kind == Schedule::PCT)
        {
            for (u64 i = 0; i < s.k; ++i) change_points.push_back(1 + rng.below(s.length));
            std::sort(change_points.rbegin(), change_points.rend());
        }
        g_shared->nested_size = 0;
        for (int i = 0; i < n_threads; ++i)
        {
            auto& t = threads[i];
            sem_init(&t.sem, 0, 0);
            t.body = &bodies[size_t(i)];
            t.priority = prio[size_t(i)];
            t.vc.c[i] = 1;
        }
        for (int i = 0; i < n_threads; ++i)
            if (pthread_create(&threads[i].handle, nullptr, thread_main, reinterpret_cast<void*>(intptr_t(i))))
                harness_error("cannot create threads");
        running = true;
        int first = 0;
        if (auto it = s.pre.find(0); it != s.pre.end() && it->second >= 0 && it->second < n_threads) first = it->second;
        else if (s.kind == Schedule::PCT) first = best();
        else if (s.kind != Schedule::EXPLICIT) first = int(rng.below(u64(n_threads)));
        record(0, first);
        sem_post(&threads[first].sem);
        while (sem_wait(&main_sem) != 0) {}
        running = false;
        for (int i = 0; i < n_threads; ++i)
        {
            sem_post(&threads[i].sem);
            pthread_join(threads[i].handle, nullptr);
        }
    }
}

using namespace sim;
#define PC __builtin_return_address(0)

void sim_on_alloc(void* p, size_t n)
{
    if (!in_sim() || !n) return;
    for (uintptr_t g = uintptr_t(p) >> 3; g <= (uintptr_t(p) + n - 1) >> 3; ++g)
    {
        auto& c = cell(g);
        auto k = c.key;
        c = Cell{};
        c.key = k;
    }
}
// Returns true if the block is to be kept from being used again in this run.
bool sim_on_free(void* p, size_t n)
{
    if (!in_sim()) return false;
    if (!n) return true;
    hot_and_check(uintptr_t(p), n, true, reinterpret_cast<void*>(&sim_on_free));
    uintptr_t a = uintptr_t(p);
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
        cell(g).freed = u8((g << 3) + 8 <= a + n ? 0xFF : (1u << (a + n - (g << 3))) - 1);
    return true;
}
// Code outside the executable (the C++ runtime) may hold locks of its own: no scheduling there.
extern "C" char __executable_start;
extern "C" char etext;
static bool from_outside(const void* pc) { return pc < &__executable_start || pc >= &etext; }
void sim_yield_alloc(const void* pc) { if (in_sim() && !from_outside(pc)) may_switch(false); }

extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
    void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
    void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
    void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
    void* __tsan_memcpy(void* d, const void* s, size_t n)
    {
        access(s, n, false, PC);
        access(d, n, true, PC);
        return memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, const void* s, size_t n)
    {
        access(s, n, false, PC);
        access(d, n, true, PC);
        return memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int v, size_t n)
    {
        access(d, n, true, PC);
        return memset(d, v, n);
    }

    int __real_memcmp(const void*, const void*, size_t);
    int __wrap_memcmp(const void* a, const void* b, size_t n)
    {
        access(a, n, false, PC);
        access(b, n, false, PC);
        return __real_memcmp(a, b, n);
    }
    int __wrap_bcmp(const void* a, const void* b, size_t n)
    {
        access(a, n, false, PC);
        access(b, n, false, PC);
        return __real_memcmp(a, b, n);
    }
    size_t __real_strlen(const char*);
    size_t __wrap_strlen(const char* a)
    {
        auto n = __real_strlen(a);
        access(a, n + 1, false, PC);
        return n;
    }
    void* __real_memchr(const void*, int, size_t);
    void* __wrap_memchr(const void* a, int c, size_t n)
    {
        access(a, n, false, PC);
        return __real_memchr(a, c, n);
    }
}

// ---- atomics
namespace
{
    // A thread that does nothing but look at atomics is waiting for somebody.
    void before_atomic()
    {
        if (!alloc_ctx().active()) return;
        tick();
        if (!in_sim()) return;
        may_switch(true, ++threads[self].spin % 64 == 0);
    }
    bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
    bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
    template <class T> T a_load(const volatile T* p, int mo)
    {
        before_atomic();
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
        if (sim_sync() && acq(mo)) acquire(const_cast<const T*>(p));
        return v;
    }
    template <class T> void a_store(volatile T* p, T v, int mo)
    {
        before_atomic();
        if (sim_sync())
        {
            if (rel(mo)) release(const_cast<const T*>(p), true);
            else obj(const_cast<const T*>(p)).vc = Clock();
        }
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    }
    template <class T, class F> T a_rmw(volatile T* p, int mo, F f)
    {
        before_atomic();
        T old = *p;
        *p = f(old);
        if (sim_sync())
        {
            if (acq(mo)) acquire(const_cast<const T*>(p));
            if (rel(mo)) release(const_cast<const T*>(p));
        }
        return old;
    }
    template <class T> int a_cas(volatile T* p, T* expected, T v, int mo, int fmo)
    {
        before_atomic();
        bool ok = *p == *expected;
        if (ok) *p = v;
        else *expected = *p;
        if (sim_sync())
        {
            if (acq(ok ? mo : fmo)) acquire(const_cast<const T*>(p));
            if (ok && rel(mo)) release(const_cast<const T*>(p));
        }
        return ok;
    }
}
extern "C"
{
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { return a_load(p, mo); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { a_store(p, v, mo); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T) { return v; }); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return T(o + v); }); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return T(o - v); }); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return T(o & v); }); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return T(o | v); }); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return T(o ^ v); }); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return T(~(o & v)); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int f) { return a_cas(p, e, v, mo, f); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f) { return a_cas(p, e, v, mo, f); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f) { a_cas(p, &e, v, mo, f); return e; }
    AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
    void __tsan_atomic_thread_fence(int)
    {
        static int fence;
        if (sim_sync()) { acquire(&fence); release(&fence); }
    }
    void __tsan_atomic_signal_fence(int) {}
}

// ---- locks
#define REAL(name) __real_##name
namespace
{
    int lock_excl(const void* m, bool recursive, bool try_only)
    {
        may_switch(true);
        for (;;)
        {
            auto& o = obj(m);
            if (o.owner == self && recursive) { ++o.depth; return 0; }
            if (o.owner < 0 && o.readers == 0)
            {
                o.owner = self;
                o.depth = 1;
                acquire(m);
                return 0;
            }
            if (try_only) return EBUSY;
            wait_for(m);
        }
    }
    int unlock_excl(const void* m)
    {
        auto& o = obj(m);
        if (--o.depth > 0) return 0;
        release(m);
        o.owner = -1;
        wake(m);
        may_switch(true);
        return 0;
    }
    int lock_shared(const void* m, bool try_only)
    {
        may_switch(true);
        for (;;)
        {
            auto& o = obj(m);
            if (o.owner < 0) { ++o.readers; acquire(m); return 0; }
            if (try_only) return EBUSY;
            wait_for(m);
        }
    }
    int unlock_any(const void* m)
    {
        auto& o = obj(m);
        if (o.owner == self) return unlock_excl(m);
        --o.readers;
        release(m);
        if (!o.readers) wake(m);
        may_switch(true);
        return 0;
    }
    bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
}
extern "C"
{
#define WRAP1(name, type, body) \
    int __real_##name(type*); \
    int __wrap_##name(type* m) { if (!sim_sync()) return __real_##name(m); body }
    WRAP1(pthread_mutex_lock, pthread_mutex_t, return lock_excl(m, is_recursive(m), false);)
    WRAP1(pthread_mutex_trylock, pthread_mutex_t, return lock_excl(m, is_recursive(m), true);)
    WRAP1(pthread_mutex_unlock, pthread_mutex_t, return unlock_excl(m);)
    WRAP1(pthread_rwlock_rdlock, pthread_rwlock_t, return lock_shared(m, false);)
    WRAP1(pthread_rwlock_tryrdlock, pthread_rwlock_t, return lock_shared(m, true);)
    WRAP1(pthread_rwlock_wrlock, pthread_rwlock_t, return lock_excl(m, false, false);)
    WRAP1(pthread_rwlock_trywrlock, pthread_rwlock_t, return lock_excl(m, false, true);)
    WRAP1(pthread_rwlock_unlock, pthread_rwlock_t, return unlock_any(m);)

    int __real_pthread_once(pthread_once_t*, void (*)());
    int __wrap_pthread_once(pthread_once_t* m, void (*f)())
    {
        if (!sim_sync()) return __real_pthread_once(m, f);
        may_switch(true);
        for (;;)
        {
            auto& o = obj(m);
            if (o.once == 2 || *m == 2) { acquire(m); return 0; }
            if (o.once == 0) { acquire(m); break; } // an earlier attempt may have failed
            wait_for(m);
        }
        obj(m).once = 1;
        try { f(); }
        catch (...)
        {
            obj(m).once = 0;
            release(m);
            wake(m);
            throw;
        }
        obj(m).once = 2;
        *m = 2;
        release(m);
        wake(m);
        may_switch(true);
        return 0;
    }
    // Condition variables: called from the C++ runtime, hence defined rather than wrapped.
    static int cond_wait(const void* c, pthread_mutex_t* m, bool timed)
    {
        auto& o = obj(m);
        int depth = o.depth;
        release(m);
        o.owner = -1;
        o.depth = 0;
        wake(m);
        if (timed) may_switch(true, true); // its time runs out
        else wait_for(c);
        acquire(c);
        lock_excl(m, false, false);
        obj(m).depth = depth;
        return timed ? ETIMEDOUT : 0;
    }
    static int cond_signal(const void* c, bool all)
    {
        release(c);
        for (int i = 0; i < n_threads; ++i)
            if (threads[i].waiting == c)
            {
                threads[i].waiting = nullptr;
                if (!all) break;
            }
        may_switch(true);
        return 0;
    }
    static void* real_cond(const char* name)
    {
        auto p = dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2");
        return p ? p : dlsym(RTLD_NEXT, name);
    }
#define REAL_COND(name) reinterpret_cast<decltype(&name)>(real_cond(#name))
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!sim_sync()) return REAL_COND(pthread_cond_wait)(c, m);
        return cond_wait(c, m, false);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
    {
        if (!sim_sync()) return REAL_COND(pthread_cond_timedwait)(c, m, t);
        return cond_wait(c, m, true);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* t)
    {
        if (!sim_sync()) return REAL_COND(pthread_cond_clockwait)(c, m, id, t);
        return cond_wait(c, m, true);
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        if (!sim_sync()) return REAL_COND(pthread_cond_signal)(c);
        return cond_signal(c, false);
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (!sim_sync()) return REAL_COND(pthread_cond_broadcast)(c);
        return cond_signal(c, true);
    }

    // Waiting on atomics, semaphores, latches.
    long __real_syscall(long, ...);
    long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f)
    {
        if (nr != SYS_futex || !sim_sync()) return __real_syscall(nr, a, b, c, d, e, f);
        auto p = reinterpret_cast<const int*>(a);
        switch (b & FUTEX_CMD_MASK)
        {
        case FUTEX_WAIT:
        case FUTEX_WAIT_BITSET:
            may_switch(true);
            if (*static_cast<const volatile int*>(p) != int(c)) { errno = EAGAIN; return -1; }
            if (d) { may_switch(true, true); errno = ETIMEDOUT; return -1; }
            wait_for(p);
            return 0;
        case FUTEX_WAKE:
        case FUTEX_WAKE_BITSET:
            wake(p);
            may_switch(true);
            return 0;
        default:
            return __real_syscall(nr, a, b, c, d, e, f);
        }
    }

    int __real_sched_yield();
    int __wrap_sched_yield()
    {
        if (!sim_sync()) return __real_sched_yield();
        tick();
        may_switch(true, true);
        return 0;
    }
    int __wrap_nanosleep(const timespec*, timespec*)
    {
        if (sim_sync()) { tick(); may_switch(true, true); }
        return 0;
    }
    int __wrap_clock_nanosleep(clockid_t, int, const timespec*, timespec*)
    {
        if (sim_sync()) { tick(); may_switch(true, true); }
        return 0;
    }

    // Initialisation of function-local statics.
    int __cxa_guard_acquire(abi::__guard* g)
    {
        auto b = reinterpret_cast<volatile char*>(g);
        if (!sim_sync() || from_outside(PC))
        {
            if (b[0]) return 0;
            if (b[1]) die_violation("recursive-initialisation", "a static object is initialised recursively");
            b[1] = 1;
            return 1;
        }
        may_switch(true);
        for (;;)
        {
            if (b[0]) { acquire(g); return 0; }
            if (!b[1]) { acquire(g); break; } // an earlier attempt may have failed
            if (obj(g).owner == self)
                die_violation("recursive-initialisation", "a static object is initialised recursively");
            wait_for(g);
        }
        b[1] = 1;
        obj(g).owner = self;
        HarnessScope h;
        R.count("probe:static-initialised-by-thread");
        return 1;
    }
    void __cxa_guard_release(abi::__guard* g) noexcept
    {
        auto b = reinterpret_cast<volatile char*>(g);
        b[1] = 0;
        bool sync = sim_sync() && !from_outside(PC);
        if (sync) { release(g); obj(g).owner = -1; wake(g); }
        b[0] = 1;
        if (sync) may_switch(true);
    }
    void __cxa_guard_abort(abi::__guard* g) noexcept
    {
        auto b = reinterpret_cast<volatile char*>(g);
        b[1] = 0;
        if (sim_sync() && !from_outside(PC)) { release(g); obj(g).owner = -1; wake(g); may_switch(true); }
    }

    // Exceptions live in memory the C++ runtime reuses.
    void* __real___cxa_allocate_exception(size_t);
    void* __wrap___cxa_allocate_exception(size_t n)
    {
        auto p = __real___cxa_allocate_exception(n);
        sim_on_alloc(p, n);
        return p;
    }
}
