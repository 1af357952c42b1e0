// Helpers for executors where texts arrive in pieces.
#pragma once
#include "api.hpp"

namespace sim
{
    // Runs f as a library call; when it runs out of memory (as planned) it is repeated.
    template <class F>
    Kind retried(AllocPlan& plan, const std::string& where, std::string* what, F f)
    {
        auto k = guarded(plan, what, f);
        plan = {};
        if (k == Kind::OOM)
        {
            R.count("probe:retried-after-out-of-memory");
            k = guarded(plan, what, f);
        }
        if (k == Kind::OTHER) violate("wrong-exception", where + ": " + *what);
        if (k == Kind::OOM) violate("spurious-out-of-memory", where);
        return k;
    }

    inline void with_fault(Rng& r, Line& l, u64 num, u64 den)
    {
        if (!r.chance(num, den)) return;
        auto f = gen_fault(r);
        l.kv.insert(l.kv.end(), f.kv.begin(), f.kv.end());
    }

    // How often the text of a run is repeated: now and then a text is long, so that sizes and
    // positions pass what fits in one or two bytes, a block or a buffer.
    inline i64 gen_rep(Rng& r, size_t size, size_t max = 199000)
    {
        if (!size || !r.chance(1, 50)) return 1;
        static const size_t sizes[] = {140, 270, 270, 600, 1100, 1100, 4500, 10000, 20000, 66000, 66000};
        auto want = sizes[r.below(std::size(sizes))];
        if (want == 66000 && !r.chance(1, 3)) want = 270;
        // more than 65536 code points, mostly
        if (want == 66000 && r.chance(2, 3)) want = 199000;
        return std::min<i64>(i64(std::min(want, max) / size) + 1, 70000);
    }
    // The same for the text t (encoded: a), which a very long run may cut down to a code point or
    // two, so that there are as many places to act at as there can be.
    inline i64 gen_rep(Rng& r, std::u32string& t, std::string& a)
    {
        auto rep = gen_rep(r, a.size());
        if (rep * i64(a.size()) <= 60000 || t.size() < 3 || r.chance(1, 2)) return rep;
        t = t.substr(r.below(t.size() - 1), 1 + r.below(2));
        a = enc(t);
        return std::min<i64>(i64(199000 / a.size()), 70000);
    }
    // A number that is no code point, although its low bits may be those of one.
    inline char32_t beyond(Rng& r)
    {
        switch (r.below(4))
        {
        case 0: return 0x110000;
        case 1: return 0xFFFFFFFF - char32_t(r.below(3));
        case 2: return 0x110000 + char32_t(r.below(0x10000));
        default: return (char32_t(1 + r.below(255)) << 24) | char32_t(r.below(0x300));
        }
    }
    inline std::string repeated(const Line& l, const char* key)
    {
        auto unit = l.gx(key);
        std::string s = unit;
        for (i64 i = std::min<i64>(l.gn("rep", 1), 70000); i > 1 && s.size() + unit.size() < 200000; --i) s += unit;
        g_guard_steps = 4000000 + 2000 * s.size();
        return s;
    }

    inline bool valid_text(const std::string& s)
    {
        if (!structurally_valid(s)) return false;
        auto u = dec(s);
        for (auto c : u) if (c > 0x10FFFF) return false;
        return enc(u) == s;
    }

    struct Cp { size_t pos, len; char32_t c; };
    inline std::vector<Cp> points_of(std::string_view s)
    {
        std::vector<Cp> r;
        for (size_t i = 0; i < s.size();)
        {
            char32_t c = 0;
            auto n = seq_len(s, i, &c);
            if (!n) break;
            r.push_back({i, n, c});
            i += n;
        }
        return r;
    }
}
