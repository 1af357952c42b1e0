// Supervisor: every simulated run is executed in a process of its own, forked from this pristine
// one, so that no run sees what another left behind and a crash is just another verdict.
#include "alloc.hpp"
#include "core.hpp"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <malloc.h>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:handle_segv=1:print_legend=0:symbolize=0:max_malloc_fill_size=0";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:symbolize=0"; }

namespace sim
{
    Shared* g_shared = nullptr;

    // fork() without its handlers: they are the most expensive part of a short run.
    static pid_t raw_fork()
    {
#ifdef SIM_THREADS
        return fork();
#else
        return pid_t(syscall(SYS_fork));
#endif
    }
    static unsigned g_run_seconds = 60;

    static void set_text(char* dst, size_t cap, std::string_view s)
    {
        size_t n = std::min(cap - 1, s.size());
        memcpy(dst, s.data(), n);
        dst[n] = 0;
    }

    void die_violation(const char* cls, const char* detail)
    {
        g_shared->state = Shared::VIOLATION;
        g_shared->hash = hash_bytes(cls, R.hash);
        set_text(g_shared->cls, sizeof g_shared->cls, cls);
        set_text(g_shared->detail, sizeof g_shared->detail, detail);
        fflush(stdout);
        _exit(3);
    }

    static void die_like(int status)
    {
        fflush(stdout);
        if (WIFSIGNALED(status))
        {
            signal(WTERMSIG(status), SIG_DFL);
            raise(WTERMSIG(status));
        }
        _exit(WIFEXITED(status) ? WEXITSTATUS(status) : 99);
    }

    // The limit is on processor time, so that a busy machine makes no difference; a process that
    // waits for ever ends too.
    static void limit_time()
    {
        itimerval t{};
        t.it_value.tv_sec = g_run_seconds;
        setitimer(ITIMER_PROF, &t, nullptr);
        alarm(g_run_seconds * 5 / 2);
    }

    std::string in_child(std::string (*f)(void*), void* arg)
    {
        g_shared->nested_size = 0;
        fflush(stdout);
        pid_t pid = raw_fork();
        if (pid < 0) harness_error("fork failed");
        if (pid == 0)
        {
            limit_time();
            int code = 0;
            try
            {
                auto s = f(arg);
                if (s.size() > sizeof g_shared->nested) harness_error("nested result too large");
                memcpy(g_shared->nested, s.data(), s.size());
                g_shared->nested_size = s.size();
                g_shared->nested_steps = g_steps;
            }
            catch (const Violation& v)
            {
                die_violation(v.cls.c_str(), v.detail.c_str());
            }
            catch (const std::logic_error& e)
            {
                // never thrown by the simulator itself: a position beyond a text, handed out by the library
                die_violation("unexpected-exception", e.what());
            }
            catch (const std::exception& e)
            {
                g_shared->state = Shared::ERROR;
                set_text(g_shared->detail, sizeof g_shared->detail, e.what());
                code = 4;
            }
            fflush(stdout);
            _exit(code);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
            die_like(status);
        g_steps = g_shared->nested_steps;
        return std::string(g_shared->nested, g_shared->nested_size);
    }

    struct Verdict
    {
        int state;
        std::string cls, detail;
        u64 hash = 0;
    };

    static const Property* find_property(const std::string& id)
    {
        for (auto& p : properties())
            if (id == p.id) return &p;
        fprintf(stderr, "unknown property %s\n", id.c_str());
        exit(2);
    }

    static void on_terminate()
    {
        // An exception escaped from where none may escape: the process would have been killed.
        die_violation("terminated", "std::terminate was called");
    }

    static std::string classify(int status, const std::string& err)
    {
        auto word_after = [&](const char* key) {
            auto p = err.find(key);
            if (p == std::string::npos) return std::string();
            p += strlen(key);
            auto e = err.find_first_of(" \n", p);
            return err.substr(p, e - p);
        };
        if (auto w = word_after("ERROR: AddressSanitizer: "); !w.empty()) return "crash:" + w;
        if (err.find("runtime error: ") != std::string::npos) return "crash:undefined-behaviour";
        if (err.find("Assertion '") != std::string::npos) return "crash:assertion";
        if (err.find("Assertion `") != std::string::npos) return "crash:assertion";
        if (WIFSIGNALED(status))
        {
            if (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGPROF) return "hang";
            return "crash:signal-" + std::to_string(WTERMSIG(status));
        }
        return "crash:exit-" + std::to_string(WEXITSTATUS(status));
    }

    // Executes one scenario (or generates it from a seed) in a fresh process.
    static Verdict run_one(const Property& p, const Scenario* sc, u64 seed, bool verbose)
    {
        static int errfd = -1;
        if (errfd < 0) errfd = memfd_create("stderr", 0);
        if (ftruncate(errfd, 0) || lseek(errfd, 0, SEEK_SET) < 0) exit(2);
        auto& sh = *g_shared;
        sh.state = Shared::RUNNING;
        sh.cls[0] = sh.detail[0] = 0;
        sh.hash = sh.steps = sh.sim_time = 0;
        sh.stats_size = sh.distinct_size = 0;
        fflush(stdout);
        pid_t pid = raw_fork();
        if (pid < 0) { perror("fork"); exit(2); }
        if (pid == 0)
        {
            dup2(errfd, 2);
            limit_time();
            std::set_terminate(on_terminate);
            R = Report();
            R.verbose = verbose;
            int state = Shared::OK;
            try
            {
                Scenario s = sc ? *sc : p.gen(seed);
                p.exec(s);
            }
            catch (const Violation& v)
            {
                state = Shared::VIOLATION;
                set_text(sh.cls, sizeof sh.cls, v.cls);
                set_text(sh.detail, sizeof sh.detail, v.detail);
                R.log("VIOLATION " + v.cls + ": " + v.detail);
            }
            catch (const std::logic_error& e)
            {
                state = Shared::VIOLATION;
                set_text(sh.cls, sizeof sh.cls, "unexpected-exception");
                set_text(sh.detail, sizeof sh.detail, e.what());
                R.log(std::string("VIOLATION unexpected-exception: ") + e.what());
            }
            catch (const std::exception& e)
            {
                state = Shared::ERROR;
                set_text(sh.detail, sizeof sh.detail, e.what());
            }
            sh.hash = R.hash;
            sh.steps = g_steps;
            sh.sim_time = R.sim_time;
            std::string st;
            for (auto& [k, v] : R.counts) st += k + " " + std::to_string(v) + "\n";
            sh.stats_size = std::min(st.size(), sizeof sh.stats);
            memcpy(sh.stats, st.data(), sh.stats_size);
            sh.distinct_size = std::min(R.distinct.size(), std::size(sh.distinct));
            memcpy(sh.distinct, R.distinct.data(), sh.distinct_size * 8);
            sh.state = state;
            fflush(stdout);
            _exit(0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        Verdict v;
        v.state = sh.state;
        v.cls = sh.cls;
        v.detail = sh.detail;
        v.hash = sh.hash;
        if (sh.state == Shared::RUNNING)
        {
            std::string err(size_t(lseek(errfd, 0, SEEK_END)), 0);
            if (pread(errfd, err.data(), err.size(), 0) < 0) err.clear();
            v.state = Shared::VIOLATION;
            v.cls = classify(status, err);
            // addresses and process ids differ between executions
            auto q = err.find("runtime error: ");
            auto line = q == std::string::npos ? std::string() : err.substr(q, err.find('\n', q) - q);
            v.detail = line.empty() ? "the process died" : line;
            if (verbose) fputs(err.c_str(), stderr);
        }
        if (v.state == Shared::VIOLATION && v.hash == 0)
            v.hash = hash_bytes(v.cls);
        return v;
    }

    static int cmd_exec(const char* file, bool verbose)
    {
        std::ifstream f(file);
        std::stringstream ss;
        ss << f.rdbuf();
        auto sc = Scenario::parse(ss.str());
        auto& p = *find_property(sc.prop);
        auto v = run_one(p, &sc, sc.seed, verbose);
        const char* names[] = {"running", "ok", "violation", "error"};
        printf("RESULT %s hash=%016llx class=%s\n", names[v.state], (unsigned long long)v.hash,
               v.cls.empty() ? "-" : v.cls.c_str());
        if (!v.detail.empty()) printf("DETAIL %s\n", v.detail.c_str());
        return v.state == Shared::OK ? 0 : v.state == Shared::VIOLATION ? 1 : 2;
    }

    // The same scenario with the scheduling decisions of its execution written out.
    static int cmd_trace(const char* file)
    {
        std::ifstream f(file);
        std::stringstream ss;
        ss << f.rdbuf();
        auto sc = Scenario::parse(ss.str());
        auto& p = *find_property(sc.prop);
        g_shared->nested_size = 0;
        run_one(p, &sc, sc.seed, false);
        std::vector<Line> keep;
        for (auto& l : sc.lines)
            if (l.op != "sched" && l.op != "pre") keep.push_back(l);
        sc.lines = keep;
        std::cout << sc.str() << std::string(g_shared->nested, g_shared->nested_size);
        return 0;
    }

    // batch PROP VERIF_SEED START STRIDE END WALL_SECONDS OUT
    static int cmd_batch(int argc, char** argv)
    {
        if (argc < 9) return 2;
        auto& p = *find_property(argv[2]);
        u64 base = mix(strtoull(argv[3], nullptr, 10), hash_bytes(p.id));
        u64 start = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10),
            end = strtoull(argv[6], nullptr, 10);
        double wall = atof(argv[7]);
        std::string out = argv[8];
        auto t0 = std::chrono::steady_clock::now();
        auto since = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

        auto covn = coverage_total() + 1;
        auto cov = static_cast<uint8_t*>(mmap(nullptr, covn, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        coverage_memory(cov);
        std::map<std::string, u64> counts;
        std::unordered_set<u64> distinct, hashes;
        u64 runs = 0, steps = 0, sim_time = 0, errors = 0;
        std::ofstream hf(out + ".hashes", std::ios::binary);
        std::ofstream vf(out + ".violations");
        size_t violations = 0;
        for (u64 i = start; i < end; i += stride)
        {
            if (since() > wall) break;
            u64 seed = mix(base, i) >> 1;
            auto v = run_one(p, nullptr, seed, false);
            ++runs;
            hashes.insert(v.hash);
            steps += g_shared->steps;
            sim_time += g_shared->sim_time;
            std::istringstream st(std::string(g_shared->stats, g_shared->stats_size));
            std::string k;
            u64 n;
            u64 faulty = 0;
            while (st >> k >> n)
            {
                counts[k] += n;
                if (n && k.compare(0, 6, "fault:") == 0) faulty = 1;
            }
            u64 rec[4] = {i, seed, v.hash, faulty};
            hf.write(reinterpret_cast<char*>(rec), sizeof rec);
            for (size_t j = 0; j < g_shared->distinct_size; ++j)
                if (distinct.size() < 3000000) distinct.insert(g_shared->distinct[j]);
            if (v.state == Shared::ERROR)
            {
                vf << "E " << i << ' ' << seed << ' ' << v.detail << std::endl;
                if (++errors >= 3) break;
            }
            if (v.state == Shared::VIOLATION)
            {
                vf << "V " << i << ' ' << seed << ' ' << v.cls << std::endl;
                if (++violations >= 2) break;
            }
        }
        std::ofstream sf(out + ".stats");
        sf << "runs " << runs << "\nsteps " << steps << "\nsim_time " << sim_time << "\nwall_ms " << u64(since() * 1000)
           << "\ndistinct_runs " << hashes.size() << "\nedges_total " << coverage_total() << '\n';
        for (auto& [k, n] : counts) sf << "count:" << k << ' ' << n << '\n';
        sf << "edges";
        for (u32 i = 1; i < covn; ++i) if (cov[i]) sf << ' ' << i;
        sf << '\n';
        std::ofstream df(out + ".distinct", std::ios::binary);
        for (auto d : distinct) df.write(reinterpret_cast<const char*>(&d), 8);
        return 0;
    }
}

// The simulator proper. Called with the stack at the same address whatever the length of the
// command line and the environment.
static int simulator(int argc, char** argv)
{
    using namespace sim;
    {
        // Touch the allocator's size classes once, so that the runs need not.
        std::vector<void*> w;
        for (size_t n = 1; n < 3000; n += 16) w.push_back(malloc(n));
        for (auto p : w) free(p);
    }
#ifdef SIM_THREADS
    mallopt(M_ARENA_MAX, 1);
#endif
    g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (g_shared == MAP_FAILED) return 2;
    if (auto s = getenv("YSIM_RUN_SECONDS")) g_run_seconds = unsigned(atoi(s));
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "exec" && argc > 2) return cmd_exec(argv[2], argc > 3 && std::string(argv[3]) == "-v");
    if (cmd == "trace" && argc > 2) return cmd_trace(argv[2]);
    if (cmd == "batch") return cmd_batch(argc, argv);
    if (cmd == "gen" && argc > 3)
    {
        auto& p = *find_property(argv[2]);
        std::cout << p.gen(strtoull(argv[3], nullptr, 10)).str();
        return 0;
    }
    fprintf(stderr, "usage: gen PROP SEED | exec FILE [-v] | batch PROP SEED START STRIDE END WALL OUT\n");
    return 2;
}

int main(int argc, char** argv)
{
    // Addresses are an input too: switch their randomisation off where the system lets us.
    if (!getenv("YSIM_NO_REEXEC"))
    {
        int old = personality(0xffffffff);
        if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("YSIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    auto sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    auto target = (sp - 0x20000) & ~uintptr_t(0x3ffff);
    auto pad = static_cast<volatile char*>(__builtin_alloca(sp - target));
    pad[0] = 0;
    return simulator(argc, argv);
}
