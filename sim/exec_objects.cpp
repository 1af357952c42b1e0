// In-place changes (C02), reading characters (C03), incremental delivery (C04), damage (C05).
#include "api.hpp"
#include "delivery.hpp"
#include <Ystring/Unescape.hpp>
#include <functional>
#include <list>
#include <optional>
#include <queue>
#include <set>

namespace ys = ystring;

namespace sim
{
    // ------------------------------------------------------------------ C02
    Scenario gen_c02(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C02", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        auto p = gen_profile(r);
        if (r.chance(1, 2)) p.classes.push_back(5), p.classes.push_back(6); // several bytes each
        sc.lines.push_back(Line("str").x("a", enc(gen_text(r, p))).n("cap", i64(r.chance(1, 2) ? 0 : r.below(40))));
        size_t n = 4 + r.below(60);
        u64 pf = r.below(4); // how often memory runs out
        u64 what = r.below(3);
        char32_t last = U'a';
        auto cp = [&]() -> char32_t {
            switch (r.below(6))
            {
            case 0: return last + 1;
            case 1: return last ? last - 1 : 0;
            case 2: return last;
            case 3: return char32_t(r.below(0x110000));
            default: return gen_cp(r, p);
            }
        };
        for (size_t i = 0; i < n; ++i)
        {
            Line l;
            bool on_set = what == 0 ? false : what == 1 ? true : r.chance(1, 2);
            if (!on_set)
                switch (r.below(10))
                {
                case 0: l = Line("shrink"); break;
                case 1: l = Line("harm").n("pos", i64(r.below(40))).n("v", i64(r.chance(1, 2) ? r.below(256) : 0x80 + r.below(128))); break;
                case 2: case 3: l = Line("repair").n("ch", r.chance(1, 2) ? 0xFFFD : gen_cp(r, p)); break;
                case 4: l = Line("append").n("ch", i64(r.chance(1, 2) ? 0x110000 + r.below(1000) : r.chance(1, 2) ? 0xFFFFFFFF : 0x110000)); break;
                case 5: l = Line("cut").n("n", i64(1 + r.below(20))); break;
                default: l = Line("append").n("ch", gen_cp(r, p)); break;
                }
            else
                switch (r.below(9))
                {
                case 0: l = Line("setshrink"); break;
                case 1: l = Line("negate"); break;
                case 2: case 3:
                {
                    char32_t x = cp(), y = r.chance(1, 2) ? char32_t(x + r.below(5)) : cp();
                    // now and then from the wrong end
                    bool turned = r.chance(1, 6);
                    l = Line("addrange").n("x", turned ? std::max(x, y) : std::min(x, y)).n("y", turned ? std::min(x, y) : std::max(x, y));
                    last = r.chance(3, 4) ? std::max(x, y) : std::min(x, y);
                    break;
                }
                case 4: case 5:
                {
                    std::u32string u;
                    size_t k = r.below(9);
                    while (k--) { last = cp(); u += last; }
                    l = Line("addcps").u("u", u);
                    break;
                }
                case 6: l = Line("copyset"); break;
                default: last = cp(); l = Line("addcp").n("x", last); break;
                }
            if (r.below(4) < pf)
                l.n("k", i64(1 + r.below(r.chance(2, 3) ? 1 : 4)));
            sc.lines.push_back(l);
        }
        return sc;
    }

    namespace
    {
        struct SetModel
        {
            std::vector<std::pair<char32_t, char32_t>> in;
            std::vector<std::pair<char32_t, char32_t>> open; // nothing is said about these
            bool neg = false;
            bool open_about(char32_t c) const
            {
                bool may = false, is = false;
                for (auto& p : open) may = may || (p.first <= c && c <= p.second);
                for (auto& p : in) is = is || (p.first <= c && c <= p.second);
                return may && !is;
            }
            bool has(char32_t c) const
            {
                bool r = false;
                for (auto& p : in) r = r || (p.first <= c && c <= p.second);
                return r != neg;
            }
        };
    }

    void exec_c02(const Scenario& sc)
    {
        std::string s, model;
        ys::CodepointSet set;
        SetModel sm;
        std::set<char32_t> points = {0, 0x7F, 0x80, 0xD800, 0xFFFF, 0x10FFFF, 0x110000};
        auto check_set = [&](const SetModel& m) -> char32_t {
            for (auto c : points)
                if (set.contains(c) != m.has(c) && !m.open_about(c)) return char32_t(c + 1);
            return char32_t(0);
        };
        for (auto& l : sc.lines)
        {
            auto plan = plan_from(l);
            R.log(l.str());
            std::string what;
            if (l.op == "garbage") set_garbage(u8(l.gn("v")));
            else if (l.op == "str")
            {
                s = model = l.gx("a");
                if (l.gn("cap")) s.reserve(s.size() + size_t(l.gn("cap")));
                else s.shrink_to_fit();
            }
            else if (l.op == "shrink") s.shrink_to_fit();
            else if (l.op == "cut")
            {
                s.resize(s.size() - std::min<size_t>(s.size(), size_t(l.gn("n"))));
                model = s;
                s.shrink_to_fit();
            }
            else if (l.op == "harm")
            {
                if (s.empty()) continue;
                s[size_t(l.gn("pos")) % s.size()] = char(l.gn("v"));
                model = s;
                R.count("fault:damage-set");
            }
            else if (l.op == "append")
            {
                auto ch = char32_t(l.gn("ch"));
                auto before = s;
                auto p = &s;
                auto k = guarded(plan, &what, [&] { p = &ys::append(s, ch); });
                R.log(std::string("-> ") + kind_name(k) + " " + show(s));
                bool bad = ch > 0x10FFFF;
                if (k == Kind::OTHER) violate("wrong-exception", l.str() + ": " + what);
                if (k == Kind::OK && bad) violate("bad-code-point-accepted", l.str());
                if (k == Kind::YEX && !bad) violate("good-code-point-rejected", l.str() + ": " + what);
                if (k == Kind::OK) model += enc(ch);
                if (p != &s) violate("wrong-reference", l.str());
                if (s != model)
                    violate(k == Kind::OK ? "append-wrong" : "half-done", l.str() + " (" + kind_name(k) + ") turned " + show(before) + " into " + show(s));
                R.count(k == Kind::OK ? "probe:append-done" : "probe:append-failed");
                R.state(hash_bytes(s, u64(k)));
            }
            else if (l.op == "repair")
            {
                auto ch = char32_t(l.gn("ch", 0xFFFD));
                auto before = s;
                std::string full;
                {
                    AllocPlan none;
                    auto k0 = guarded(none, &what, [&] { full = ys::replace_invalid_utf8(std::string_view(before), ch); });
                    if (k0 != Kind::OK) violate("repair-failed", l.str() + " of " + show(before) + ": " + what);
                }
                auto p = &s;
                auto k = guarded(plan, &what, [&] { p = &ys::replace_invalid_utf8(s, ch); });
                R.log(std::string("-> ") + kind_name(k) + " " + show(s));
                if (k == Kind::OTHER || k == Kind::YEX) violate("wrong-exception", l.str() + ": " + what);
                if (p != &s) violate("wrong-reference", l.str());
                if (k == Kind::OK) model = full;
                if (s != model)
                    violate(k == Kind::OK ? "repair-wrong" : "half-done", l.str() + " (" + kind_name(k) + ") turned " + show(before) + " into " + show(s) + ", expected " + show(model));
                if (k == Kind::OK && structurally_valid(before) && s != before)
                {
                    bool strict = true;
                    for (auto c : dec(before)) strict = strict && c <= 0x10FFFF;
                    if (strict) violate("valid-text-altered", l.str() + " turned " + show(before) + " into " + show(s));
                }
                R.count(k == Kind::OK ? "probe:repair-done" : "probe:repair-failed");
                R.state(hash_bytes(s, u64(k)));
            }
            else if (l.op == "negate") { set.negated = !set.negated; sm.neg = !sm.neg; }
            else if (l.op == "setshrink") set.ranges.shrink_to_fit();
            else if (l.op == "copyset")
            {
                ys::CodepointSet c(set);
                set = c;
                set.ranges.shrink_to_fit();
            }
            else if (l.op == "addcp" || l.op == "addrange" || l.op == "addcps")
            {
                std::u32string u;
                char32_t x = char32_t(l.gn("x")), y = char32_t(l.gn("y"));
                if (l.op == "addcp") y = x;
                if (l.op == "addcps") u = l.gu("u");
                bool big = x > 0x1FFFFF || y > 0x1FFFFF;
                for (auto c : u) big = big || c > 0x1FFFFF;
                if (big) continue;
                for (auto c : {x, y}) { points.insert(c); points.insert(c + 1); if (c) points.insert(c - 1); }
                for (auto c : u) { points.insert(c); points.insert(c + 1); if (c) points.insert(c - 1); }
                SetModel after = sm;
                auto k = guarded(plan, &what, [&] {
                    if (l.op == "addcp") set.add_codepoint(x);
                    else if (l.op == "addrange") set.add_range(x, y);
                    else set.add_codepoints(u);
                });
                R.log(std::string("-> ") + kind_name(k));
                if (k == Kind::OTHER || k == Kind::YEX) violate("wrong-exception", l.str() + ": " + what);
                if (l.op != "addcps")
                {
                    // a range given from the wrong end may add what is in it, or nothing
                    if (k == Kind::OK) { if (x <= y) sm.in.emplace_back(x, y); else sm.open.emplace_back(y, x); }
                    if (auto c = check_set(sm))
                        violate(k == Kind::OK ? "set-wrong" : "half-done", l.str() + " (" + kind_name(k) + "): membership of " + std::to_string(c - 1) + " is wrong");
                }
                else
                {
                    // all of them, or after a failure a leading part
                    size_t n = k == Kind::OK ? u.size() : 0;
                    for (size_t i = 0; i < n; ++i) after.in.emplace_back(u[i], u[i]);
                    auto c = check_set(after);
                    while (c && k != Kind::OK && n < u.size())
                    {
                        after.in.emplace_back(u[n], u[n]);
                        ++n;
                        c = check_set(after);
                    }
                    if (c)
                        violate(k == Kind::OK ? "set-wrong" : "half-done", l.str() + " (" + kind_name(k) + "): membership of " + std::to_string(c - 1) + " is wrong");
                    sm = after;
                }
                R.count(k == Kind::OK ? "probe:set-change-done" : "probe:set-change-failed");
                R.state(mix(set.ranges.size(), mix(u64(k), hash_bytes(l.op))));
            }
        }
    }

    // ------------------------------------------------------------------ C03
    // What a read at a place may legitimately do: any of several (outcome, length) pairs.
    namespace
    {
        struct Read
        {
            enum What { CHAR, END, FAIL } what;
            char32_t ch = 0;
            size_t from = 0;  // bytes skipped before the character
            size_t len = 0;   // position moves by from + len
            bool escaped = false;
        };

        bool strict(char32_t c, size_t len)
        {
            return c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000) && enc(c).size() == len;
        }

        // reading forward at the start of s
        std::vector<Read> allowed_next(std::string_view s)
        {
            if (s.empty()) return {{Read::END}};
            char32_t c;
            size_t n = seq_len(s, 0, &c);
            if (!n) return {{Read::FAIL}};
            std::vector<Read> r = {{Read::CHAR, c, 0, n}};
            if (!strict(c, n)) r.push_back({Read::FAIL});
            return r;
        }
        std::vector<Read> allowed_prev(std::string_view s)
        {
            if (s.empty()) return {{Read::END}};
            for (size_t k = 1; k <= 4 && k <= s.size(); ++k)
            {
                char32_t c;
                if (seq_len(s, s.size() - k, &c) == k)
                {
                    std::vector<Read> r = {{Read::CHAR, c, 0, k}};
                    if (!strict(c, k)) r.push_back({Read::FAIL});
                    return r;
                }
                if ((u8(s[s.size() - k]) & 0xC0) != 0x80) break;
            }
            return {{Read::FAIL}};
        }
        int hexv(char c)
        {
            if (c >= '0' && c <= '9') return c - '0';
            if ((c | 32) >= 'a' && (c | 32) <= 'f') return (c | 32) - 'a' + 10;
            return -1;
        }
        size_t hex_run(std::string_view s, size_t pos, size_t max, char32_t& v)
        {
            v = 0;
            size_t n = 0;
            while (n < max && pos + n < s.size() && hexv(s[pos + n]) >= 0)
            {
                v = v * 16 + char32_t(hexv(s[pos + n]));
                ++n;
            }
            return n;
        }
        std::vector<Read> allowed_unescape(std::string_view s)
        {
            size_t from = 0;
            while (s.size() - from >= 2 && s[from] == '\\' && s[from + 1] == '\n') from += 2;
            auto t = s.substr(from);
            std::vector<Read> r;
            auto add = [&](char32_t c, size_t len, bool e, bool may_fail = false) {
                r.push_back({Read::CHAR, c, from, len, e});
                if (may_fail) r.push_back({Read::FAIL, 0, from});
            };
            if (t.empty()) return {{Read::END, 0, from}};
            if (t[0] != '\\')
            {
                for (auto& x : allowed_next(t))
                    if (x.what == Read::CHAR) add(x.ch, x.len, false);
                    else r.push_back({Read::FAIL, 0, from});
                return r;
            }
            if (t.size() == 1) return {{Read::FAIL, 0, from}};
            char32_t v;
            switch (t[1])
            {
            case 'a': add(7, 2, true); return r;
            case 'b': add(8, 2, true); return r;
            case 'f': add(12, 2, true); return r;
            case 'n': add(10, 2, true); return r;
            case 'r': add(13, 2, true); return r;
            case 't': add(9, 2, true); return r;
            case 'v': add(11, 2, true); return r;
            case 'x': case 'X':
            {
                auto n = hex_run(t, 2, 8, v);
                if (n) add(v, 2 + n, true, v > 0x10FFFF);
                else r.push_back({Read::FAIL, 0, from});
                return r;
            }
            case 'U':
            {
                auto n = hex_run(t, 2, 8, v);
                if (n == 8) add(v, 10, true, v > 0x10FFFF);
                else r.push_back({Read::FAIL, 0, from});
                return r;
            }
            case 'u':
            {
                auto n = hex_run(t, 2, 4, v);
                if (n < 4) return {{Read::FAIL, 0, from}};
                if (v >= 0xD800 && v < 0xDC00 && t.size() >= 8 && t[6] == '\\' && t[7] == 'u')
                {
                    char32_t w;
                    auto k = hex_run(t, 8, 4, w);
                    if (k == 4 && w >= 0xDC00 && w < 0xE000)
                    {
                        add(0x10000 + ((v & 0x3FF) << 10) + (w & 0x3FF), 12, true);
                        return r;
                    }
                    // a lone surrogate before something odd: it is given out or refused
                    add(v, 6, true, true);
                    return r;
                }
                add(v, 6, true, v >= 0xD800 && v < 0xE000);
                return r;
            }
            default: break;
            }
            if (t[1] >= '0' && t[1] <= '7')
            {
                size_t n = 0;
                v = 0;
                while (n < 3 && 1 + n < t.size() && t[1 + n] >= '0' && t[1 + n] <= '7') v = v * 8 + char32_t(t[1 + n++] - '0');
                add(v, 1 + n, true);
                return r;
            }
            for (auto& x : allowed_next(t.substr(1)))
                if (x.what == Read::CHAR) add(x.ch, 1 + x.len, true);
                else r.push_back({Read::FAIL, 0, from});
            return r;
        }
    }

    Scenario gen_c03(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C03", seed, {}};
        auto p = gen_profile(r);
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        bool esc = r.chance(1, 2);
        auto a = esc ? gen_escaped(r, p) : enc(gen_text(r, p));
        while (r.chance(1, 3)) a += r.chance(1, 2) ? gen_escaped(r, p) : enc(gen_text(r, p));
        sc.lines.push_back(Line("text").x("a", a));
        // what the reader sees: a part of the text, possibly damaged
        size_t k = r.chance(1, 2) ? 0 : r.below(4);
        while (k--) sc.lines.push_back(gen_damage(r, a.size()));
        static const char* how[] = {"decode", "safe", "pop", "unescape", "list"};
        int mode = esc && r.chance(3, 4) ? 3 : int(r.below(5));
        sc.lines.push_back(Line("begin").n("lo", i64(r.chance(1, 2) ? 0 : r.below(a.size() + 1))).n("hi", i64(r.chance(1, 2) ? a.size() : r.below(a.size() + 1))));
        size_t n = 4 + r.below(60);
        for (size_t i = 0; i < n; ++i)
        {
            if (r.chance(1, 8)) mode = int(r.below(5));
            switch (r.below(12))
            {
            case 0: sc.lines.push_back(Line("cut").n("n", i64(1 + r.below(4)))); break;      // the end of what has arrived
            case 1: case 2: sc.lines.push_back(Line("more").n("n", i64(1 + r.below(6)))); break;
            case 3: sc.lines.push_back(Line("seek").n("n", i64(r.below(4)))); break;          // the reader gives up on some bytes
            default:
            {
                Line l("read");
                l.w("how", how[mode]).n("back", mode != 3 && r.chance(1, 4));
                if (r.chance(1, 3)) l.n("k", i64(1 + r.below(r.chance(2, 3) ? 1 : 3)));
                else if (r.chance(1, 10)) l.n("from", 1);
                l.n("did", r.chance(2, 3));
                sc.lines.push_back(l);
                break;
            }
            }
        }
        return sc;
    }

    void exec_c03(const Scenario& sc)
    {
        Tagged t;
        size_t lo = 0, hi = 0, pos = 0;   // visible part, position
        bool begun = false;
        bool failed_before = false;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") { set_garbage(u8(l.gn("v"))); continue; }
            if (l.op == "text") { t.bytes = l.gx("a"); t.tag.assign(t.bytes.size(), 0); hi = t.bytes.size(); continue; }
            if (l.op == "dmg") { apply_damage(l, t); hi = t.bytes.size(); continue; }
            auto& b = t.bytes;
            if (l.op == "begin")
            {
                lo = std::min<size_t>(size_t(l.gn("lo")), b.size());
                hi = std::min<size_t>(std::max(lo, size_t(l.gn("hi"))), b.size());
                pos = lo;
                begun = true;
                continue;
            }
            if (!begun) hi = std::min(hi, b.size());
            if (l.op == "cut") { hi = std::max(std::max(pos, lo), hi - std::min<size_t>(hi, size_t(l.gn("n")))); R.count("fault:truncated"); continue; }
            if (l.op == "more")
            {
                hi = std::min(b.size(), hi + size_t(l.gn("n")));
                lo -= std::min<size_t>(lo, size_t(l.gn("n")));
                continue;
            }
            if (l.op == "seek") { pos = std::min(hi, pos + size_t(l.gn("n"))); failed_before = false; continue; }
            if (l.op != "read") continue;

            auto how = l.gw("how");
            bool back = l.gn("back");
            auto plan = plan_from(l);
            std::string_view seen(b.data() + lo, hi - lo);
            size_t at = pos - lo;
            auto allowed = how == "unescape" ? allowed_unescape(seen.substr(at))
                           : back ? allowed_prev(seen.substr(0, at)) : allowed_next(seen.substr(at));
            Buf buf(seen);
            auto v = buf.view();
            auto mid = v.begin() + ptrdiff_t(at);
            Read got{Read::FAIL};
            size_t after = at;
            std::string what;
            bool did = false, want_did = l.gn("did");
            Kind k = Kind::OK;
            auto result = [&](std::optional<char32_t> c) {
                if (c) { got.what = Read::CHAR; got.ch = *c; }
                else got.what = Read::END;
            };
            if (how == "decode")
            {
                auto it = mid;
                char32_t c = 0;
                k = guarded(plan, &what, [&] { c = back ? ys::decode_prev(v.begin(), it) : ys::decode_next(it, v.end()); });
                after = size_t(it - v.begin());
                if (k == Kind::OK)
                {
                    if (c != ys::INVALID_CHAR) result(c);
                    else if (allowed[0].what == Read::END) got.what = Read::END;
                }
            }
            else if (how == "safe")
            {
                auto it = mid;
                char32_t c = 0;
                bool ok = false;
                k = guarded(plan, &what, [&] { ok = back ? ys::safe_decode_prev(v.begin(), it, c) : ys::safe_decode_next(it, v.end(), c); });
                after = size_t(it - v.begin());
                if (k == Kind::OK) result(ok ? std::optional(c) : std::nullopt);
            }
            else if (how == "list")
            {
                std::list<unsigned char> li(v.begin(), v.end());
                auto it = std::next(li.cbegin(), ptrdiff_t(at));
                char32_t c = 0;
                bool ok = false;
                k = guarded(plan, &what, [&] { ok = back ? ys::safe_decode_prev(li.cbegin(), it, c) : ys::safe_decode_next(it, li.cend(), c); });
                after = size_t(std::distance(li.cbegin(), it));
                if (k == Kind::OK) result(ok ? std::optional(c) : std::nullopt);
            }
            else if (how == "pop")
            {
                auto s = back ? v.substr(0, at) : v.substr(at);
                std::optional<char32_t> c;
                k = guarded(plan, &what, [&] { c = back ? ys::pop_last_utf8_codepoint(s) : ys::pop_utf8_codepoint(s); });
                if (s.data() < v.data() || s.data() + s.size() > v.data() + v.size() || (back ? s.data() != v.data() : s.data() + s.size() != v.data() + v.size()))
                    violate("view-moved-outside", l.str() + " on " + show(seen));
                after = back ? s.size() : size_t(s.data() - v.data());
                if (k == Kind::OK) result(c);
            }
            else
            {
                auto s = v.substr(at);
                std::optional<char32_t> c;
                k = guarded(plan, &what, [&] { c = ys::unescape_next(s, want_did ? &did : nullptr); });
                if (s.data() < v.data() || s.data() + s.size() != v.data() + v.size())
                    violate("view-moved-outside", l.str() + " on " + show(seen));
                after = size_t(s.data() - v.data());
                if (k == Kind::OK) { result(c); got.escaped = did; }
            }
            auto where = l.str() + " at byte " + std::to_string(at) + " of " + show(seen);
            R.log(where + " -> " + kind_name(k) + " " + (got.what == Read::CHAR ? std::to_string(got.ch) : got.what == Read::END ? "end" : "fail") + " now at " + std::to_string(after));
            if (k == Kind::OTHER) violate("wrong-exception", where + ": " + what);
            if (k != Kind::OK) got.what = Read::FAIL;
            size_t moved = back ? at - after : after - at;
            if (got.what == Read::CHAR)
            {
                bool ok = false;
                for (auto& x : allowed)
                    ok = ok || (x.what == Read::CHAR && x.ch == got.ch && moved == x.from + x.len && (how != "unescape" || !want_did || x.escaped == got.escaped));
                if (!ok)
                    violate("wrong-character", where + " returned " + std::to_string(got.ch) + " and moved " + std::to_string(i64(moved)) + " bytes");
                if (failed_before) R.count("probe:recovered-after-failure");
                failed_before = false;
                R.count("probe:characters-read");
            }
            else
            {
                bool ok = k == Kind::OOM;
                size_t slack = 0;
                for (auto& x : allowed)
                {
                    ok = ok || x.what == got.what;
                    slack = std::max(slack, x.from);
                }
                if (!ok)
                    violate("character-refused", where + " gave " + (got.what == Read::END ? "end of text" : "an error: " + what) + " although there is a character");
                if (moved != 0 && !(how == "unescape" && moved <= slack && moved % 2 == 0))
                    violate("consumed-on-failure", where + " failed (" + kind_name(k) + ") but moved " + std::to_string(i64(moved)) + " bytes");
                if (got.what == Read::FAIL) { failed_before = true; R.count(k == Kind::OOM ? "probe:failed-without-memory" : "probe:failed-read"); }
            }
            pos = lo + after;
            R.state(mix(hash_bytes(how, u64(k) + 16 * u64(got.what)), mix(moved, hash_bytes(seen.substr(at, 4)))));
        }
    }

    // ------------------------------------------------------------------ C04
    namespace
    {
        // Storage made of separately allocated pages; iterators are bidirectional only and
        // complain when asked for a byte that has not arrived.
        struct Paged
        {
            size_t page = 3;
            std::vector<std::unique_ptr<Buf>> pages;
            size_t lo = 0, hi = 0; // what has arrived
            void load(std::string_view all)
            {
                for (size_t i = 0; i < all.size(); i += page)
                    pages.push_back(std::make_unique<Buf>(all.substr(i, page)));
            }
            const char& at(size_t i) const
            {
                if (i < lo || i >= hi)
                {
                    HarnessScope h;
                    throw Violation{"read-beyond-arrived", "byte " + std::to_string(i) + " was read when only [" + std::to_string(lo) + ", " + std::to_string(hi) + ") had arrived"};
                }
                return pages[i / page]->view()[i % page];
            }
        };
        struct PagedIt
        {
            using iterator_category = std::bidirectional_iterator_tag;
            using value_type = char;
            using difference_type = ptrdiff_t;
            using pointer = const char*;
            using reference = const char&;
            const Paged* p = nullptr;
            size_t i = 0;
            const char& operator*() const { return p->at(i); }
            PagedIt& operator++() { ++i; return *this; }
            PagedIt operator++(int) { auto t = *this; ++i; return t; }
            PagedIt& operator--()
            {
                if (i == p->lo)
                {
                    HarnessScope h;
                    throw Violation{"moved-before-arrived", "moved in front of the bytes that have arrived"};
                }
                --i;
                return *this;
            }
            PagedIt operator--(int) { auto t = *this; --*this; return t; }
            bool operator==(const PagedIt& o) const { return i == o.i; }
            bool operator!=(const PagedIt& o) const { return i != o.i; }
        };

        struct Stream
        {
            std::string text;
            bool back = false;
            std::string how;
            std::vector<std::pair<size_t, char32_t>> expect; // end position (in reading direction) of each code point
            size_t arrived = 0, consumed = 0, next = 0;
            Paged paged;
            std::list<char> list;
            bool ended = false;
        };
    }

    Scenario gen_c04(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C04", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        size_t n = 1 + r.below(r.chance(1, 2) ? 1 : 4);
        static const char* how[] = {"decode", "safe", "pop", "paged", "paged-safe", "list", "u8"};
        for (size_t i = 0; i < n; ++i)
        {
            auto p = gen_profile(r);
            if (r.chance(1, 2)) p.classes = {4, 5, 6};
            auto text = enc(gen_text(r, p));
            auto rep = gen_rep(r, text.size(), 90000);
            sc.lines.push_back(Line("stream").n("id", i64(i)).n("back", r.chance(1, 3)).w("how", how[r.below(rep > 1 ? 3 : 7)]).n("page", i64(1 + r.below(5))).x("a", text).n("rep", rep));
            size_t left = text.size() * size_t(rep);
            i64 time = i64(r.below(50));
            size_t maxp = 1 + r.below(r.chance(1, 2) ? 3 : 9);
            const bool at_once = rep > 1 && r.chance(1, 2);
            if (rep > 1) maxp = std::max(maxp, left / (1 + r.below(8)));
            while (left)
            {
                size_t k = at_once ? left : std::min(left, 1 + r.below(maxp));
                left -= k;
                sc.lines.push_back(Line("deliver").n("id", i64(i)).n("at", time).n("n", i64(k)));
                if (r.chance(1, 8)) time += i64(1000 + r.below(100000)); // a stall
                else time += i64(r.below(40));
                if (r.chance(1, 6)) sc.lines.push_back(Line("poll").n("id", i64(i)).n("at", time).n("k", i64(r.chance(1, 2))));
                if (r.chance(1, 40)) break; // connection lost
            }
            if (r.chance(1, 4)) sc.lines.push_back(Line("lost").n("id", i64(i)).n("at", i64(r.below(u64(time) + 1))));
        }
        return sc;
    }

    void exec_c04(const Scenario& sc)
    {
        std::map<i64, Stream> streams;
        struct Event { i64 at; size_t seq; const Line* l; };
        auto later = [](const Event& a, const Event& b) { return a.at != b.at ? a.at > b.at : a.seq > b.seq; };
        std::priority_queue<Event, std::vector<Event>, decltype(later)> q(later);
        size_t seq = 0;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") set_garbage(u8(l.gn("v")));
            else if (l.op == "stream")
            {
                auto& s = streams[l.gn("id")];
                s = Stream();
                s.text = repeated(l, "a");
                if (!structurally_valid(s.text)) s.text.clear();
                s.back = l.gn("back");
                s.how = l.gw("how", "decode");
                s.paged.page = std::max<size_t>(1, size_t(l.gn("page", 3)));
                s.paged.load(s.text);
                s.paged.lo = s.paged.hi = s.back ? s.text.size() : 0;
                auto u = dec(s.text);
                if (s.back) std::reverse(u.begin(), u.end());
                size_t e = 0;
                for (auto c : u) { e += enc(c).size(); s.expect.emplace_back(e, c); }
            }
            else q.push({l.gn("at"), seq++, &l});
        }
        i64 now = 0;
        while (!q.empty())
        {
            auto ev = q.top();
            q.pop();
            now = ev.at;
            auto& l = *ev.l;
            auto f = streams.find(l.gn("id"));
            if (f == streams.end()) continue;
            auto& s = f->second;
            if (s.ended) continue;
            size_t size = s.text.size();
            if (l.op == "lost") { s.ended = true; R.count("fault:stream-cut"); continue; }
            if (l.op == "deliver")
            {
                auto n = std::min<size_t>(size - s.arrived, size_t(l.gn("n")));
                if (s.back) s.list.insert(s.list.begin(), s.text.begin() + ptrdiff_t(size - s.arrived - n), s.text.begin() + ptrdiff_t(size - s.arrived));
                else s.list.insert(s.list.end(), s.text.begin() + ptrdiff_t(s.arrived), s.text.begin() + ptrdiff_t(s.arrived + n));
                s.arrived += n;
                R.count("fault:delayed-piece");
            }
            else
                R.count("fault:early-read");
            (s.back ? s.paged.lo : s.paged.hi) = s.back ? size - s.arrived : s.arrived;
            // a fresh buffer of exactly the bytes that have arrived
            Buf buf(s.back ? std::string_view(s.text).substr(size - s.arrived) : std::string_view(s.text).substr(0, s.arrived));
            auto v = buf.view();
            for (size_t guard = 0; guard < size + 2; ++guard)
            {
                AllocPlan plan;
                if (l.gn("k")) plan.kth.push_back(u32(l.gn("k")));
                std::string what;
                std::optional<char32_t> got;
                size_t moved = 0;
                Kind k = Kind::OK;
                auto bad = [&](const std::string& cls, const std::string& d) {
                    violate(cls, "stream " + std::to_string(l.gn("id")) + " (" + s.how + (s.back ? ", backward" : ", forward") + ") with " + std::to_string(s.arrived) + " of " + std::to_string(size) + " bytes of " + show(s.text) + " arrived and " + std::to_string(s.consumed) + " read: " + d);
                };
                auto use = [&](auto begin, auto end, auto it, bool safe) {
                    auto it0 = it;
                    char32_t c = 0;
                    bool ok = true;
                    k = guarded(plan, &what, [&] {
                        if (safe) ok = s.back ? ys::safe_decode_prev(begin, it, c) : ys::safe_decode_next(it, end, c);
                        else c = s.back ? ys::decode_prev(begin, it) : ys::decode_next(it, end);
                    });
                    if (k == Kind::OK && ok && c != ys::INVALID_CHAR) got = c;
                    while (it0 != it && moved <= size) { if (s.back) --it0; else ++it0; ++moved; }
                };
                size_t at = s.back ? s.arrived - s.consumed : s.consumed;
                if (s.how == "decode" || s.how == "safe")
                    use(v.begin(), v.end(), v.begin() + ptrdiff_t(at), s.how == "safe");
                else if (s.how == "u8")
                {
                    std::u8string_view w(reinterpret_cast<const char8_t*>(v.data()), v.size());
                    use(w.begin(), w.end(), w.begin() + ptrdiff_t(at), guard % 2);
                }
                else if (s.how == "pop")
                {
                    auto t = s.back ? v.substr(0, at) : v.substr(at);
                    auto n0 = t.size();
                    k = guarded(plan, &what, [&] { got = s.back ? ys::pop_last_utf8_codepoint(t) : ys::pop_utf8_codepoint(t); });
                    moved = n0 - t.size();
                }
#ifndef SIM_NO_BIDI
                else if (s.how == "list")
                    use(s.list.cbegin(), s.list.cend(), std::next(s.list.cbegin(), ptrdiff_t(at)), guard % 2);
                else
                {
                    PagedIt b{&s.paged, s.paged.lo}, e{&s.paged, s.paged.hi}, it{&s.paged, s.paged.lo + at};
                    use(b, e, it, s.how == "paged-safe");
                }
#else
                else use(v.begin(), v.end(), v.begin() + ptrdiff_t(at), guard % 2);
#endif
                if (k == Kind::OTHER) bad("wrong-exception", what);
                bool complete = s.next < s.expect.size() && s.expect[s.next].first <= s.arrived;
                R.log("t=" + std::to_string(now) + " stream " + std::to_string(l.gn("id")) + " arrived " + std::to_string(s.arrived) + " -> " + kind_name(k) + (got ? " " + std::to_string(*got) : " none"));
                R.state(mix(mix(s.arrived - s.consumed, moved), mix(hash_bytes(s.how, s.back), got ? *got : u64(k) + 77)));
                if (got)
                {
                    if (!complete) bad("character-too-early", "got " + std::to_string(*got) + " before its bytes arrived");
                    if (*got != s.expect[s.next].second) bad("wrong-character", "got " + std::to_string(*got) + " instead of " + std::to_string(s.expect[s.next].second));
                    if (s.consumed + moved != s.expect[s.next].first) bad("wrong-length", "moved " + std::to_string(moved) + " bytes");
                    s.consumed += moved;
                    ++s.next;
                    R.count("probe:delivered-characters");
                    continue;
                }
                if (moved) bad("consumed-on-failure", "moved " + std::to_string(moved) + " bytes without a character");
                if (complete && k != Kind::OOM) bad("character-withheld", "the next character has arrived but was not given out: " + what);
                if (complete) { R.count("probe:retry-after-out-of-memory"); if (guard == 0) continue; break; }
                if (s.arrived > s.consumed) R.count("probe:incomplete-character-waiting");
                break;
            }
        }
        for (auto& [id, s] : streams)
        {
            size_t done = s.next;
            size_t could = 0;
            while (could < s.expect.size() && s.expect[could].first <= s.arrived) ++could;
            if (done != could && !s.ended)
            {
                bool polled_last = false;
                for (auto& l : sc.lines) polled_last = polled_last || (l.op == "poll" && l.gn("k"));
                if (!polled_last) violate("character-withheld", "stream " + std::to_string(id) + " ended with undelivered characters");
            }
        }
        R.sim_time += u64(now);
    }

    // ------------------------------------------------------------------ C05
    Scenario gen_c05(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C05", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        size_t rounds = 1 + r.below(6);
        for (size_t i = 0; i < rounds; ++i)
        {
            auto p = gen_profile(r);
            if (r.chance(1, 2)) p.classes.push_back(4), p.classes.push_back(5), p.classes.push_back(6);
            auto u = gen_text(r, p);
            auto rep = gen_rep(r, enc(u).size(), 90000);
            sc.lines.push_back(Line("text").u("u", u).n("rep", rep));
            auto size = enc(u).size() * size_t(rep);
            if (size > 20000 && i + 2 < rounds) i = rounds - 2;
            size_t k = r.below(r.chance(1, 4) ? 12 : 5);
            while (k--) sc.lines.push_back(gen_damage(r, size));
            sc.lines.push_back(Line("check").n("ch", r.chance(1, 2) ? 0xFFFD : gen_cp(r, p)).n("k", i64(r.chance(1, 4) ? 1 + r.below(2) : 0)));
        }
        return sc;
    }

    void exec_c05(const Scenario& sc)
    {
        struct Cp { size_t pos, len; char32_t ch; };
        Tagged t;
        std::u32string u;
        std::vector<size_t> start; // byte -> code point index of the original
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") { set_garbage(u8(l.gn("v"))); continue; }
            if (l.op == "text")
            {
                u = l.gu("u");
                auto unit = u;
                for (i64 i = l.gn("rep", 1); i > 1 && u.size() < 100000; --i) u += unit;
                t.bytes = enc(u);
                g_guard_steps = 4000000 + 2000 * t.bytes.size();
                t.tag.resize(t.bytes.size());
                for (size_t i = 0; i < t.tag.size(); ++i) t.tag[i] = i64(i);
                start.clear();
                for (size_t i = 0; i < u.size(); ++i)
                    for (size_t j = 0; j < enc(u[i]).size(); ++j) start.push_back(i);
                continue;
            }
            if (l.op == "dmg") { apply_damage(l, t); continue; }
            if (l.op != "check") continue;

            auto& b = t.bytes;
            R.log("arrived " + show(b));
            // the code points whose bytes arrived intact, side by side
            std::vector<Cp> intact;
            auto orig = enc(u);
            for (size_t i = 0; i < b.size();)
            {
                auto g = t.tag[i];
                if (g < 0 || (g > 0 && start[size_t(g)] == start[size_t(g) - 1])) { ++i; continue; }
                auto n = enc(u[start[size_t(g)]]).size();
                bool ok = i + n <= b.size();
                for (size_t j = 1; ok && j < n; ++j) ok = t.tag[i + j] == g + i64(j);
                if (!ok) { ++i; continue; }
                intact.push_back({i, n, u[start[size_t(g)]]});
                i += n;
            }
            bool damaged = b != orig;
            R.count("probe:intact-characters", intact.size());
            auto where = "in " + show(b);
            // readers, both directions, several interfaces
            for (int how = 0; how < 8; ++how)
            {
                bool back = how & 1;
                // (a reader of a linked list counts what is left at every step)
                if (how >= 6 && b.size() > 5000) continue;
                std::vector<Cp> seen;
                Buf buf(b);
                auto v = buf.view();
                std::string what;
                auto k = guarded({}, &what, [&] {
                    auto put = [&](size_t pos, size_t len, char32_t c) { HarnessScope h; seen.push_back({pos, len, c}); };
                    auto stuck = [&] { HarnessScope h; throw Violation{"no-progress", "a skip did not move " + where}; };
                    if (how < 4)
                    {
                        auto it = back ? v.end() : v.begin();
                        while (it != (back ? v.begin() : v.end()))
                        {
                            auto i0 = it;
                            char32_t c = 0;
                            bool ok = true;
                            if (how < 2)
                            {
                                c = back ? ys::decode_prev(v.begin(), it) : ys::decode_next(it, v.end());
                                ok = c != ys::INVALID_CHAR;
                            }
                            else
                            {
                                try { ok = back ? ys::safe_decode_prev(v.begin(), it, c) : ys::safe_decode_next(it, v.end(), c); }
                                catch (const ys::YstringException&) { ok = false; it = i0; }
                            }
                            if (ok) put(size_t((back ? it : i0) - v.begin()), size_t(back ? i0 - it : it - i0), c);
                            else if (!(back ? ys::skip_prev(v.begin(), it) : ys::skip_next(it, v.end()))) stuck();
                            if (back ? !(it < i0) : !(it > i0)) stuck();
                        }
                    }
                    else if (how < 6)
                    {
                        auto s = v;
                        while (!s.empty())
                        {
                            auto s0 = s;
                            std::optional<char32_t> c;
                            try { c = back ? ys::pop_last_utf8_codepoint(s) : ys::pop_utf8_codepoint(s); }
                            catch (const ys::YstringException&) {}
                            if (c) put(back ? s.size() : size_t(s0.data() - v.data()), s0.size() - s.size(), *c);
                            else if (!(back ? ys::remove_last_utf8_codepoint(s) : ys::remove_utf8_codepoint(s))) stuck();
                            if (s.size() >= s0.size()) stuck();
                        }
                    }
                    else
                    {
                        std::list<char> li(v.begin(), v.end());
                        auto it = back ? li.cend() : li.cbegin();
                        size_t pos = back ? v.size() : 0;
                        size_t guard = 0;
                        while (it != (back ? li.cbegin() : li.cend()))
                        {
                            auto i0 = it;
                            auto c = back ? ys::decode_prev(li.cbegin(), it) : ys::decode_next(it, li.cend());
                            bool ok = c != ys::INVALID_CHAR;
                            if (!ok) back ? ys::skip_prev(li.cbegin(), it) : ys::skip_next(it, li.cend());
                            auto n = size_t(back ? std::distance(it, i0) : std::distance(i0, it));
                            if (!n || ++guard > v.size()) stuck();
                            if (ok) put(back ? pos - n : pos, n, c);
                            pos = back ? pos - n : pos + n;
                        }
                    }
                });
                if (k != Kind::OK) violate("reader-failed", "reader " + std::to_string(how) + " " + where + ": " + what);
                if (back) std::reverse(seen.begin(), seen.end());
                size_t j = 0, last = 0;
                for (auto& c : seen)
                {
                    if (c.pos < last || c.pos + c.len > b.size()) violate("out-of-order", "reader " + std::to_string(how) + " " + where);
                    last = c.pos + c.len;
                    if (j < intact.size() && intact[j].pos == c.pos && intact[j].len == c.len && intact[j].ch == c.ch) ++j;
                }
                if (j != intact.size())
                    violate("intact-character-lost", std::string(back ? "backward" : "forward") + " reader " + std::to_string(how) + " missed the intact code point " + std::to_string(intact[j].ch) + " at byte " + std::to_string(intact[j].pos) + " " + where);
                R.state(mix(hash_bytes(b), u64(how)));
            }
            // repair
            auto ch = char32_t(l.gn("ch", 0xFFFD));
            bool is_ok = false, is_ok2 = false;
            std::string fixed, again, inplace = b, what;
            AllocPlan plan;
            if (l.gn("k")) plan.kth.push_back(u32(l.gn("k")));
            {
                std::string first;
                Buf buf(b);
                auto kk = guarded(plan, &what, [&] { first = ys::replace_invalid_utf8(buf.view(), ch); });
                if (kk == Kind::OTHER || kk == Kind::YEX) violate("repair-failed", where + ": " + what);
                Buf buf2(b);
                auto k = guarded({}, &what, [&] {
                    fixed = ys::replace_invalid_utf8(buf2.view(), ch);
                    again = ys::replace_invalid_utf8(std::string_view(fixed), ch);
                    (void)ys::replace_invalid_utf8(inplace, ch);
                    is_ok = ys::is_valid_utf8(buf2.view());
                    is_ok2 = ys::is_valid_utf8(fixed);
                });
                if (k != Kind::OK) violate("repair-failed", where + ": " + what);
                if (kk == Kind::OK && first != fixed) violate("repair-differs", where);
            }
            R.log("repaired " + show(fixed));
            if (!damaged && (!is_ok || fixed != b || inplace != b)) violate("undamaged-text-altered", where + " became " + show(fixed));
            if (!is_ok2 || !structurally_valid(fixed)) violate("repair-not-valid", where + " became " + show(fixed));
            if (again != fixed) violate("repair-not-stable", where + " became " + show(fixed) + " and then " + show(again));
            if (inplace != fixed) violate("repair-differs", where + " in place became " + show(inplace) + " instead of " + show(fixed));
            if (is_ok && fixed != b) violate("valid-text-altered", where + " became " + show(fixed));
            if (is_ok && !structurally_valid(b)) violate("damage-overlooked", where + " is reported valid");
            // the text is intact code points and, between them, damaged stretches
            auto out = dec(fixed);
            // (how far into the repaired text what was looked at may reach: a narrow band)
            std::vector<size_t> at{0}, nx;
            size_t prev = 0;
            for (size_t j = 0; j <= intact.size(); ++j)
            {
                size_t gap = (j < intact.size() ? intact[j].pos : b.size()) - prev;
                if (gap)
                {
                    nx.clear();
                    for (auto i : at)
                        for (size_t k = nx.empty() ? i + 1 : std::max(i, nx.back()) + 1; k <= i + gap && k <= out.size(); ++k) nx.push_back(k);
                    at.swap(nx);
                }
                if (j == intact.size()) break;
                nx.clear();
                for (auto i : at)
                    if (i < out.size() && out[i] == intact[j].ch) nx.push_back(i + 1);
                at.swap(nx);
                prev = intact[j].pos + intact[j].len;
            }
            if (at.empty() || at.back() != out.size())
                violate("repair-wrong", where + " became " + show(fixed) + ": intact characters are missing or a damaged stretch became too long or nothing");
        }
    }
}
