// The library's public API as data: a Call can be generated, written to a replay file, executed
// under an allocation plan, and its outcome rendered so that executions can be compared.
#pragma once
#include "alloc.hpp"
#include "core.hpp"
#include <Ystring/Algorithms.hpp>
#include <Ystring/YstringException.hpp>
#include <memory>
#include <new>

namespace sim
{
    // A caller-owned text of exactly n bytes; any access next to it is an error (engine F).
    class Buf
    {
    public:
        Buf() = default;
        explicit Buf(std::string_view s, bool null_if_empty = false);
        Buf(Buf&& b) noexcept { *this = std::move(b); }
        Buf& operator=(Buf&& b) noexcept;
        ~Buf();
        std::string_view view() const { return {p_, n_}; }
        char* data() const { return p_; }
        size_t size() const { return n_; }
    private:
        char* p_ = nullptr;
        size_t n_ = 0;
        bool owned_ = false;
        bool pooled_ = false;
    };

    class Buf32
    {
    public:
        Buf32() = default;
        explicit Buf32(std::u32string_view s);
        std::u32string_view view() const { return {reinterpret_cast<char32_t*>(b_.data()), b_.size() / 4}; }
        std::string_view bytes() const { return b_.view(); }
    private:
        Buf b_;
    };

    struct Value
    {
        std::vector<i64> nums;
        std::vector<std::string> strs;
        std::vector<std::u32string> u32s;
        std::vector<std::string_view> views;
        std::string_view base;
        bool outside = false;        // a view or subrange outside the text it refers to

        void n(i64 v) { nums.push_back(v); }
        void s(std::string v) { strs.push_back(std::move(v)); }
        void u(std::u32string v) { u32s.push_back(std::move(v)); }
        void v(std::string_view w) { views.push_back(w); }
        void r(const ystring::Subrange& s);
        void r(const std::pair<ystring::Subrange, char32_t>& s) { r(s.first); n(s.second); }
        std::string render() const;
        bool views_inside() const;
    };

    struct In
    {
        std::string_view a, b, d;
        std::u32string_view u;
        char* raw = nullptr;        // a, writable
        i64 n = 0, m = 0;
        u64 o = 0;
        char32_t c = 0, e = 0;
        const ystring::CodepointSet* set = nullptr;
        ystring::SplitParams p;
    };

    enum OpFlags : unsigned
    {
        PRODUCES_TEXT = 1,   // strs are UTF-8 texts made from the argument
        ESCAPES = 2,         // works on escaped text
        NO_TEXT_ERR = 4,     // may report errors on valid text (bounds, escapes)
        INPLACE = 8,         // writes its first argument
        CASE = 16,
    };

    struct Op
    {
        const char* name;
        const char* args;    // a b d u S o n m r c e p  (see gen_call)
        unsigned flags;
        void (*fn)(const In&, Value&);
    };
    const std::vector<Op>& ops();
    int op_index(const std::string& name);

    struct Call
    {
        int op = 0;
        std::string a, b, d;
        std::u32string u;
        i64 n = 0, m = 0;
        u64 o = 0;
        char32_t c = 0, e = 0;
        bool neg = false;
        u64 p = SIZE_MAX;
        bool ign = false;
        i64 rep = 0;         // a is repeated this many times (0, 1: once)

        Line line(const char* name = "call") const;
        static Call from(const Line& l);
        std::string text() const;
    };

    enum class Kind { OK, YEX, OOM, OTHER };
    struct Outcome
    {
        Kind kind = Kind::OK;
        std::string what;          // exception text
        std::string value;         // rendered value
        bool outside = false;
        bool args_changed = false;
        u64 allocs = 0, failed = 0, steps = 0, bytes = 0;
        std::string str(bool with_message = true) const;
        bool same(const Outcome& o, bool with_message) const
        {
            return kind == o.kind && value == o.value && (!with_message || what == o.what);
        }
    };

    // Everything a call was given and returned, kept alive.
    struct Held
    {
        Buf a, b, d;
        Buf32 u;
        ystring::CodepointSet set;
        Value value;
    };

    // Callbacks of the calls below throw at this invocation (counted down; 0: never).
    extern SIM_TLS i64 g_callback_throw;

    // When set, texts of equal size are placed at the same address, one after the other.
    extern bool g_pool;

    struct Budget { u64 steps = 0, mem = 0; };
    Budget call_budget(const Call& c);
    bool has_callback(const Call& c);

    // Runs the call. If held is given, arguments and result are kept there.
    Outcome run_call(const Call& c, const AllocPlan* plan = nullptr, Held* held = nullptr,
                     const ystring::CodepointSet* shared_set = nullptr, const Buf* shared_a = nullptr);

    struct CallMode
    {
        bool damaged = true;      // texts may be damaged
        bool aligned = false;     // offsets only between code points, positions within bounds
        bool valid_cps = false;   // code points only up to U+10FFFF
        unsigned exclude = 0;     // op flags that may not be used
        bool huge = false;
        const std::string* text = nullptr; // use this text
    };
    Call gen_call(Rng& r, const Profile& p, const CallMode& m, int op = -1);
    std::string gen_needle(Rng& r, const Profile& p, const std::string& a, bool aligned);

    // Outcomes of the calls, each executed in order, without faults, in a separate process
    // forked from the current one.
    std::vector<Outcome> elsewhere(const std::vector<Call>& calls);

    std::string pack(const std::vector<Outcome>& v);
    std::vector<Outcome> unpack(std::string_view s);

    AllocPlan plan_from(const Line& l);
    Line gen_fault(Rng& r);
    const char* kind_name(Kind k);

    extern u64 g_guard_steps;   // step budget of guarded calls

    // Runs f as a library call under an allocation plan. Exceptions that are not derived from
    // std::exception pass through.
    template <class F>
    Kind guarded(const AllocPlan& plan, std::string* what, F f)
    {
        auto& ctx = alloc_ctx();
        ctx.arm(plan);
        g_step_budget = g_steps + g_guard_steps;
        g_mem_budget = 64u << 20;
        Kind k = Kind::OK;
        struct Reset
        {
            ~Reset() { g_step_budget = g_mem_budget = 0; }
        } reset;
        scrub_stack();
        try
        {
            LibScope s;
            f();
        }
        catch (const std::bad_alloc&) { k = Kind::OOM; }
        catch (const ystring::YstringException& e) { k = Kind::YEX; if (what) *what = e.what(); }
        catch (const Violation&) { ctx.disarm(); throw; }
        catch (const std::exception& e) { k = Kind::OTHER; if (what) *what = e.what(); }
        if (ctx.failed) R.count("fault:allocation-failed", ctx.failed);
        else if (k == Kind::OOM)
        {
            ctx.disarm();
            violate("spurious-out-of-memory", "bad_alloc although no allocation failed");
        }
        ctx.disarm();
        return k;
    }
}
