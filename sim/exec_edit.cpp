// Editing sessions under memory pressure against a list of code points (C11).
#include "api.hpp"
#include "unidata.hpp"
#include "delivery.hpp"
#include <Ystring/CaseInsensitive.hpp>
#include <Ystring/CodepointPredicates.hpp>
#include <optional>

namespace ys = ystring;

namespace sim
{
    namespace
    {
        const char* const EDITS[] = {
            "insert_chars", "insert_char", "insert_codepoint", "insert_codepoints",
            "replace_chars", "replace_codepoints", "replace", "ci_replace", "replace_codepoint",
            "get_char_substring", "get_codepoint_substring", "reverse",
            "trim", "trim_start", "trim_end", "trim_where", "trim_start_where", "trim_end_where", "trim_default",
            "append", "append_inplace", "replace_invalid_utf8_inplace", "get_char_range", "get_codepoint"};

        using Text = std::u32string;

        // where the characters (a code point and the marks following it) start; ends with the size
        std::vector<size_t> chars(const Text& t)
        {
            std::vector<size_t> r;
            for (size_t i = 0; i < t.size(); ++i)
                if (i == 0 || !uni::mark(t[i])) r.push_back(i);
            r.push_back(t.size());
            return r;
        }
        std::vector<size_t> points(const Text& t)
        {
            std::vector<size_t> r;
            for (size_t i = 0; i <= t.size(); ++i) r.push_back(i);
            return r;
        }
        size_t clamp(i64 pos, size_t n)
        {
            if (pos >= 0) return std::min<u64>(u64(pos), n);
            if (pos < -i64(n)) return 0;
            return size_t(i64(n) + pos);
        }
        bool at(const Text& t, size_t i, const Text& f, bool ci)
        {
            if (f.size() > t.size() - i) return false;
            for (size_t k = 0; k < f.size(); ++k)
                if (ci ? !uni::same(t[i + k], f[k]) : t[i + k] != f[k]) return false;
            return true;
        }
        Text model_replace(const Text& t, const Text& f, const Text& to, i64 max, bool ci)
        {
            if (f.empty() || f.size() > t.size()) return t;
            u64 n = max >= 0 ? u64(max) : u64(0) - u64(max);
            std::vector<size_t> hits;
            if (max >= 0)
                for (size_t i = 0; i + f.size() <= t.size() && hits.size() < n;)
                    if (at(t, i, f, ci)) { hits.push_back(i); i += f.size(); }
                    else ++i;
            else
            {
                for (size_t e = t.size(); e >= f.size() && hits.size() < n;)
                    if (at(t, e - f.size(), f, ci)) { e -= f.size(); hits.push_back(e); }
                    else --e;
                std::reverse(hits.begin(), hits.end());
            }
            Text r;
            size_t p = 0;
            for (auto h : hits)
            {
                r += t.substr(p, h - p);
                r += to;
                p = h + f.size();
            }
            return r + t.substr(p);
        }

        struct Want
        {
            bool error = false;        // must be refused
            bool either = false;       // may be refused
            Text text;
        };

        std::optional<Want> expected(const Call& c, const Text& t)
        {
            std::string op = ops()[c.op].name;
            Want w;
            auto arg = [](const std::string& s) { return dec(s); };
            bool by_char = op.find("_char") != std::string::npos && op.find("_codepoint") == std::string::npos;
            if (op.rfind("insert_", 0) == 0)
            {
                auto b = by_char ? chars(t) : points(t);
                i64 n = i64(b.size()) - 1;
                Text add = op == "insert_chars" || op == "insert_codepoints" ? arg(c.b) : Text(1, c.c);
                bool one = op == "insert_char" || op == "insert_codepoint";
                if (one && c.c > 0x10FFFF) { w.error = true; return w; }
                if (c.n > n || c.n < -n) { w.error = true; w.either = add.empty(); w.text = t; return w; }
                auto i = b[size_t(c.n >= 0 ? c.n : n + c.n)];
                w.text = t.substr(0, i) + add + t.substr(i);
                return w;
            }
            if (op == "replace_chars" || op == "replace_codepoints" || op == "get_char_substring" || op == "get_codepoint_substring")
            {
                auto b = by_char ? chars(t) : points(t);
                auto s = clamp(c.n, b.size() - 1), e = std::max(s, clamp(c.m, b.size() - 1));
                auto mid = t.substr(b[s], b[e] - b[s]);
                if (op[0] == 'g') w.text = mid;
                else w.text = t.substr(0, b[s]) + arg(c.b) + t.substr(b[e]);
                return w;
            }
            if (op == "get_char_range" || op == "get_codepoint")
            {
                // extraction of one character or code point
                auto b = by_char ? chars(t) : points(t);
                i64 n = i64(b.size()) - 1;
                i64 i = c.n >= 0 ? c.n : (c.n < -n ? -1 : n + c.n);
                if (i >= 0 && i < n) w.text = t.substr(b[size_t(i)], b[size_t(i) + 1] - b[size_t(i)]);
                return w;
            }
            if (op == "replace" || op == "ci_replace")
            {
                if (c.n == 0) return std::nullopt;
                w.text = model_replace(t, arg(c.b), arg(c.d), c.n, op[0] == 'c');
                return w;
            }
            if (op == "replace_codepoint")
            {
                if (c.n == 0) return std::nullopt;
                if (c.c > 0x10FFFF || c.e > 0x10FFFF) { w.error = true; return w; }
                w.text = model_replace(t, Text(1, c.c), Text(1, c.e), c.n, false);
                return w;
            }
            if (op == "reverse")
            {
                auto b = chars(t);
                for (size_t i = b.size() - 1; i-- > 0;) w.text += t.substr(b[i], b[i + 1] - b[i]);
                return w;
            }
            if (op.rfind("trim", 0) == 0)
            {
                Text u = op == "trim_default" ? Text(U" \t\n\r") : c.u;
                size_t s = 0, e = t.size();
                auto in = [&](char32_t x) { return u.find(x) != Text::npos; };
                if (op.rfind("trim_end", 0) != 0) while (s < e && in(t[s])) ++s;
                if (op.rfind("trim_start", 0) != 0) while (e > s && in(t[e - 1])) --e;
                w.text = t.substr(s, e - s);
                return w;
            }
            if (op == "append" || op == "append_inplace")
            {
                if (c.c > 0x10FFFF) { w.error = true; return w; }
                w.text = t + c.c;
                return w;
            }
            if (op == "replace_invalid_utf8_inplace") { w.text = t; return w; }
            return std::nullopt;
        }

        bool text_ok(const std::string& s)
        {
            if (!structurally_valid(s)) return false;
            for (auto c : dec(s)) if (c > 0x10FFFF) return false;
            return true;
        }
    }

    Scenario gen_c11(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C11", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        auto p = gen_profile(r);
        if (r.chance(1, 2)) p.classes.push_back(7);
        if (p.max_len > 60) p.max_len = 60;
        auto t = gen_text(r, p);
        auto a = enc(t);
        auto rep = gen_rep(r, t, a);
        if (rep == 1 && !a.empty() && r.chance(1, 300)) rep = i64(199000 / (a = enc(t = t.substr(r.below(t.size()), 1))).size());
        sc.lines.push_back(Line("text").x("a", a).n("rep", rep));
        auto small = p;
        small.max_len = 5;
        size_t n = 3 + r.below(40);
        bool pressure = false;
        CallMode m;
        m.damaged = false;
        m.text = &a;
        for (size_t i = 0; i < n; ++i)
        {
            if (r.chance(1, 12)) { pressure = !pressure; }
            auto op = op_index(EDITS[r.below(std::size(EDITS))]);
            auto c = gen_call(r, p, m, op);
            if (!text_ok(c.b)) c.b = enc(gen_text(r, small));
            if (!text_ok(c.d)) c.d = enc(gen_text(r, small));
            std::string name = ops()[op].name;
            if (name.find("insert") == 0 && r.chance(1, 2)) c.b = enc(gen_text(r, small));
            if (name.find("insert") == 0 && r.chance(2, 3)) c.n = r.range(-6, 6);
            if ((name.find("substring") != std::string::npos) && r.chance(3, 4))
            {
                // keep something to edit
                c.n = r.chance(1, 2) ? i64(r.below(3)) : -i64(10 + r.below(20));
                c.m = r.chance(1, 2) ? -i64(1 + r.below(2)) : INT64_MAX;
            }
            if (!i && rep > 1 && r.chance(2, 3))
            {
                // act everywhere in a long text
                static const char* const ALL[] = {"replace", "replace_codepoint", "ci_replace"};
                c.op = op_index(ALL[r.below(std::size(ALL))]);
                c.c = t[r.below(t.size())];
                c.b = enc(std::u32string(1, c.c));
                c.n = r.chance(3, 4) ? INT64_MAX : -INT64_MAX;
                name = ops()[c.op].name;
            }
            if (name == "get_char_range" || name == "get_codepoint") { if (r.chance(1, 2)) c.n = r.range(-5, 5); }
            if (rep > 1 && c.n != INT64_MIN && c.n != INT64_MAX && std::abs(c.n) < 1000 && r.chance(2, 3))
            {
                // anywhere in a long text; a large number of replacements
                c.n = c.n * rep + r.range(-2, 2);
                if (c.m != INT64_MAX && c.m != INT64_MIN && std::abs(c.m) < 1000) c.m = c.m * rep + r.range(-2, 2);
            }
            c.a.clear();
            auto l = c.line("edit");
            if (r.chance(1, 3)) l.n("peek", 1);   // look at the result, keep the text
            if (pressure ? r.chance(1, 2) : r.chance(1, 8))
            {
                auto f = gen_fault(r);
                l.kv.insert(l.kv.end(), f.kv.begin(), f.kv.end());
            }
            sc.lines.push_back(l);
        }
        return sc;
    }

    void exec_c11(const Scenario& sc)
    {
        std::string s;
        Text t;
        size_t first = 0;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") { set_garbage(u8(l.gn("v"))); continue; }
            if (l.op == "text")
            {
                auto a = repeated(l, "a");
                if (!text_ok(a)) continue;
                s = a;
                t = dec(a);
                first = a.size();
                continue;
            }
            if (l.op != "edit") continue;
            auto c = Call::from(l);
            std::string op = ops()[c.op].name;
            c.a = s;
            c.rep = 0;
            if (!text_ok(c.b) || !text_ok(c.d)) continue;
            auto w = expected(c, t);
            if (!w) continue;
            auto plan = plan_from(l);
            for (int attempt = 0; attempt < 2; ++attempt)
            {
                Held held;
                auto o = run_call(c, attempt == 0 ? &plan : nullptr, &held);
                auto where = c.line().str() + " on " + show(s);
                R.log(where + " -> " + o.str(false));
                if (o.args_changed) violate("text-changed", where);
                if (o.kind == Kind::OTHER) violate("wrong-exception", where + ": " + o.what);
                if (o.outside) violate("result-outside", where);
                if (o.kind == Kind::OOM)
                {
                    if (!o.failed) violate("spurious-out-of-memory", where);
                    R.count("probe:edit-failed-without-memory");
                    continue; // the text is as it was; the edit is repeated
                }
                if (o.kind == Kind::YEX)
                {
                    if (!w->error) violate("edit-refused", where + ": " + o.what);
                    R.count("probe:edit-refused");
                    break;
                }
                if (w->error && !w->either)
                    violate("bad-edit-accepted", where + " gave " + o.str());
                std::string result;
                auto& v = held.value;
                if (op == "get_char_range" || op == "get_codepoint")
                    result = v.nums[1] ? s.substr(size_t(v.nums[0]), size_t(v.nums[1])) : std::string();
                else if (!v.strs.empty()) result = v.strs.back();
                else if (!v.views.empty()) result = std::string(v.views.front());
                if (op == "get_codepoint" && !w->text.empty() && v.nums[2] != i64(w->text[0]))
                    violate("edit-wrong", where + " gave code point " + std::to_string(v.nums[2]));
                if (result != enc(w->text))
                    violate("edit-wrong", where + " gave " + show(result) + " instead of " + show(enc(w->text)));
                R.count("probe:edits");
                R.state(mix(hash_bytes(op), hash_bytes(result, u64(c.n))));
                if (!l.gn("peek") && result.size() < std::max<size_t>(2000, 2 * first))
                {
                    s = result;
                    t = w->text;
                }
                break;
            }
        }
    }
}
