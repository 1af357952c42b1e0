// Simulator core: PRNG, scenarios (= replay files), run report, UTF-8 model, text generation, damage.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace sim
{
    using u8 = uint8_t;
    using u32 = uint32_t;
    using u64 = uint64_t;
    using i64 = int64_t;

    u64 mix(u64 a, u64 b);

    struct Rng
    {
        u64 s[4];
        explicit Rng(u64 seed);
        u64 next();
        u64 below(u64 n) { return n ? next() % n : 0; }
        i64 range(i64 lo, i64 hi) { return lo + i64(below(u64(hi - lo + 1))); }
        bool chance(u64 num, u64 den) { return below(den) < num; }
        template <class C> auto& pick(C& c) { return c[below(c.size())]; }
    };

    // One line of a scenario: "op key=value key=value". Values: integers, x:HEX (bytes),
    // u:HEX,HEX (code points), words.
    struct Line
    {
        std::string op;
        std::vector<std::pair<std::string, std::string>> kv;

        Line() = default;
        explicit Line(std::string o) : op(std::move(o)) {}
        Line& n(const char* k, i64 v);
        Line& x(const char* k, std::string_view v);
        Line& u(const char* k, std::u32string_view v);
        Line& w(const char* k, std::string v);
        bool has(const char* k) const;
        i64 gn(const char* k, i64 def = 0) const;
        std::string gx(const char* k) const;
        std::u32string gu(const char* k) const;
        std::string gw(const char* k, const char* def = "") const;
        std::string str() const;
    };

    struct Scenario
    {
        std::string prop;
        u64 seed = 0;
        std::vector<Line> lines;
        std::string str() const;
        static Scenario parse(const std::string& text);
    };

    // Thrown by executors when the property is violated.
    struct Violation
    {
        std::string cls;
        std::string detail;
    };

    [[noreturn]] void violate(std::string cls, std::string detail);
    // Thrown when a scenario's machinery itself is broken.
    [[noreturn]] void harness_error(const std::string& what);

    // What one run reports. One instance per process.
    struct Report
    {
        u64 hash = 1469598103934665603ull;
        u64 sim_time = 0;
        bool verbose = false;
        std::map<std::string, u64> counts;
        std::vector<u64> distinct;
        void log(std::string_view s);
        void count(const std::string& k, u64 n = 1) { counts[k] += n; }
        void state(u64 h) { distinct.push_back(h); }
    };
    extern Report R;
    // Memory shared with the supervising process.
    struct Shared
    {
        enum State : int { RUNNING = 0, OK, VIOLATION, ERROR };
        int state;
        u64 hash, steps, sim_time;
        char cls[128];
        char detail[6000];
        size_t stats_size, distinct_size;
        char stats[1 << 16];
        u64 distinct[1 << 15];
        size_t nested_size;
        u64 nested_steps;
        char nested[8 << 20];
    };
    extern Shared* g_shared;
    // Runs f in a process forked from this one and returns what it produced. If that process
    // dies, so does this one, in the same way.
    std::string in_child(std::string (*f)(void*), void* arg);
    // Emergency exit usable from any context (allocator, coverage callback).
    [[noreturn]] void die_violation(const char* cls, const char* detail);

    std::string hex(std::string_view s);
    std::string show(std::string_view s);   // printable form for messages
    u64 hash_bytes(std::string_view s, u64 h = 1469598103934665603ull);

    // ---- UTF-8 model (independent of the library)
    std::string enc(char32_t c);
    std::string enc(std::u32string_view s);
    // Lenient structural decoder used by models: lead byte plus the right number of continuation
    // bytes. Returns the length of the sequence at pos or 0.
    size_t seq_len(std::string_view s, size_t pos, char32_t* cp = nullptr);
    bool structurally_valid(std::string_view s);
    std::u32string dec(std::string_view s); // s must be structurally valid

    // ---- workload text
    struct Profile
    {
        std::vector<int> classes;   // enabled character classes
        size_t max_len = 24;
        bool mates = false;          // letters next to the same letters in another case
        bool alias = false;          // code points that resemble earlier ones in some bits
    };
    Profile gen_profile(Rng& r);
    char32_t gen_cp(Rng& r, const Profile& p);
    // another code point that is the same letter, case aside; c if there is none. Its encoding
    // may be shorter or longer.
    char32_t fold_mate(Rng& r, char32_t c);
    char32_t alias(Rng& r, char32_t c);   // another code point that differs in one bit
    std::u32string gen_text(Rng& r, const Profile& p);
    // Text with escape sequences in it (for the unescape family).
    std::string gen_escaped(Rng& r, const Profile& p);

    // ---- damage in transit
    struct Tagged
    {
        std::string bytes;
        std::vector<i64> tag; // index of the original byte, or -1
    };
    Line gen_damage(Rng& r, size_t size);
    // Applies one damage line; returns true if it changed something (and counts it).
    bool apply_damage(const Line& l, Tagged& t);

    // ---- properties
    struct Property
    {
        const char* id;
        Scenario (*gen)(u64 seed);
        void (*exec)(const Scenario&);
    };
    const std::vector<Property>& properties();
}
