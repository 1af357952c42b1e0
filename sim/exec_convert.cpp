// Converting (C17) and comparing (C18) texts that arrive in pieces.
#include "api.hpp"
#include "delivery.hpp"
#include "unidata.hpp"
#include <Ystring/CaseInsensitive.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/Normalize.hpp>
#include <Ystring/Utf32.hpp>
#include <algorithm>
#include <map>
#include <set>

namespace ys = ystring;
namespace ci = ystring::case_insensitive;

namespace sim
{
    // ------------------------------------------------------------------ C17
    namespace
    {
        enum Conv { V_UPPER, V_LOWER, V_TITLE, V_DECOMPOSE, V_COMPOSE, V_UTF32, V_REPAIR, V_N };
        const char* const CONVS[] = {"upper", "lower", "title", "decompose", "compose", "utf32", "repair"};

        std::string convert(int conv, std::string_view s)
        {
            switch (conv)
            {
            case V_UPPER: return ys::to_upper(s);
            case V_LOWER: return ys::to_lower(s);
            case V_TITLE: return ys::to_title(s);
            case V_DECOMPOSE: return ys::to_decomposed(s);
            case V_COMPOSE: return ys::to_composed(s);
            case V_UTF32: return ys::from_utf32(ys::to_utf32(s));
            default: return ys::replace_invalid_utf8(s);
            }
        }

        // The same, one code point after the other. s is valid.
        std::string convert_each(int conv, const std::string& s)
        {
            std::string r;
            std::u32string u;
            { HarnessScope h; u = dec(s); }
            bool word = false;
            for (auto c : u)
            {
                std::u32string v;
                switch (conv)
                {
                case V_UPPER: if (c == 0xDF) v = U"SS"; else v += ys::to_upper(c); break;
                case V_LOWER: v += ys::to_lower(c); break;
                case V_TITLE:
                {
                    auto letter = uni::letter(c);
                    if (!letter) v += c;
                    else if (word) v += ys::to_lower(c);
                    else if (c == 0xDF) v = U"Ss";
                    else v += ys::to_title(c);
                    word = letter;
                    break;
                }
                case V_DECOMPOSE: v = ys::decompose(c); break;
                default: v += c; break;
                }
                r += ys::from_utf32(v);
            }
            return r;
        }

        // The conversion of a text, from the Unicode data.
        std::string model(int conv, std::string_view text)
        {
            std::u32string r;
            auto u = dec(std::string(text));
            bool word = false;
            for (size_t i = 0; i < u.size(); ++i)
            {
                auto c = u[i];
                switch (conv)
                {
                case V_UPPER: if (c == 0xDF) r += U"SS"; else r += uni::upper(c); break;
                case V_LOWER: r += uni::lower(c); break;
                case V_TITLE:
                    if (!uni::letter(c)) { r += c; word = false; break; }
                    if (word) r += uni::lower(c);
                    else if (c == 0xDF) r += U"Ss";
                    else r += uni::title(c);
                    word = true;
                    break;
                case V_DECOMPOSE: r += uni::decompose(c); break;
                case V_COMPOSE:
                    if (i)
                        if (auto p = uni::pair(r.back(), c)) { r.back() = p; break; }
                    r += c;
                    break;
                default: r += c;
                }
            }
            return enc(r);
        }
    }

    Scenario gen_c17(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C17", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        auto p = gen_profile(r);
        if (p.max_len > 60) p.max_len = 60;
        bool marks = r.chance(2, 3);
        size_t n = r.below(p.max_len + 1);
        std::u32string t;
        while (n--)
        {
            if (marks && r.chance(1, 2))
            {
                auto& k = uni::PAIR_ROWS[r.below(uni::PAIR_ROW_COUNT)];
                switch (r.below(4))
                {
                case 0: t += k.c; break;
                case 1: t += k.a; t += k.b; break;
                default: t += uni::decompose(k.c);
                }
                if (r.chance(1, 6)) t += uni::PAIR_ROWS[r.below(uni::PAIR_ROW_COUNT)].b;
            }
            else t += r.chance(1, 4) ? uni::CASE_ROWS[r.below(uni::CASE_ROW_COUNT)].c : gen_cp(r, p);
        }
        auto a = enc(t);
        auto rep = gen_rep(r, t, a);
        sc.lines.push_back(Line("text").x("a", a).n("rep", rep));
        size_t hops = 1 + r.below(3), total = a.size() * size_t(rep);
        for (size_t i = 0; i < hops; ++i) sc.lines.push_back(Line("relay").w("conv", CONVS[r.chance(1, 3) ? V_DECOMPOSE + r.below(2) : r.below(V_N)]));
        size_t maxp = 1 + r.below(r.chance(1, 2) ? 4 : 20);
        if (rep > 1) maxp = std::max(maxp, total / 6);
        size_t steps = 2 + r.below(6 + 2 * hops * (total / maxp + 1));
        if (steps > 80) steps = 80;
        while (steps--)
        {
            auto h = r.below(hops);
            switch (r.below(8))
            {
            case 0: case 1: case 2: case 3:
            {
                Line l("deliver");
                l.n("to", i64(h)).n("n", i64(1 + r.below(maxp))).n("dt", r.chance(1, 10) ? i64(r.below(10000)) : i64(r.below(40)));
                if (r.chance(1, 12)) l.n("stall", 1);
                sc.lines.push_back(l);
                break;
            }
            case 4: if (r.chance(1, 3)) { sc.lines.push_back(Line("crash").n("at", i64(h))); break; } [[fallthrough]];
            default:
            {
                Line l("convert");
                l.n("at", i64(h));
                if (r.chance(1, 4)) l.n("raw", 1);
                if (r.chance(1, 4)) l.n("one", 1);
                if (r.chance(1, 4)) l.n("each", 1);
                with_fault(r, l, 1, 3);
                sc.lines.push_back(l);
            }
            }
        }
        Line l("end");
        with_fault(r, l, 1, 3);
        sc.lines.push_back(l);
        return sc;
    }

    void exec_c17(const Scenario& sc)
    {
        std::string text;
        struct Relay
        {
            int conv = 0;
            std::string out;       // what it has passed on (durable, and so is how much of its input that is)
            size_t got = 0;        // bytes received
            size_t done = 0;       // bytes converted
        };
        std::vector<Relay> relays;
        i64 now = 0;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") set_garbage(u8(l.gn("v")));
            else if (l.op == "text") { auto a = repeated(l, "a"); if (valid_text(a)) text = a; }
            else if (l.op == "relay")
            {
                auto name = l.gw("conv");
                for (int i = 0; i < V_N; ++i) if (name == CONVS[i]) { relays.emplace_back().conv = i; break; }
            }
        }
        auto source = [&](size_t i) -> const std::string& { return i ? relays[i - 1].out : text; };
        // Where the bytes from `done` to `got` can be cut without changing their conversion.
        auto cut_of = [&](const Relay& h, std::string_view v, bool last) -> size_t {
            if (last) return v.size();
            size_t cut = 0;
            auto pts = points_of(v);
            for (size_t i = 0; i < pts.size(); ++i)
            {
                bool cp_end = i + 1 == pts.size();
                auto end = cp_end ? v.size() : pts[i + 1].pos;
                switch (h.conv)
                {
                case V_COMPOSE:
                    // what follows may join in
                    if (cp_end || uni::mark(pts[i + 1].c) || pts[i + 1].c == 0x16D67) break;
                    cut = end;
                    break;
                case V_TITLE:
                    if (!uni::letter(pts[i].c)) cut = end;
                    break;
                default: cut = end;
                }
            }
            return cut;
        };
        auto whole_len = [](std::string_view v) {
            // without the incomplete code point at its end
            size_t n = v.size(), k = 0;
            while (k < n && k < 4 && (u8(v[n - 1 - k]) & 0xC0) == 0x80) ++k;
            if (k == n) return n;
            auto lead = u8(v[n - 1 - k]);
            size_t need = lead < 0x80 ? 1 : lead < 0xE0 ? 2 : lead < 0xF0 ? 3 : 4;
            return need <= k + 1 ? n : n - 1 - k;
        };
        auto run = [&](size_t i, AllocPlan plan, bool raw, bool one, bool each, bool last) {
            auto& h = relays[i];
            auto in = std::string_view(source(i)).substr(h.done, h.got - h.done);
            auto whole = whole_len(in);
            std::string what, name = std::string("relay ") + std::to_string(i) + " (" + CONVS[h.conv] + "): ";
            if (raw && whole != in.size() && h.conv != V_REPAIR)
            {
                // part of a code point is refused
                Buf buf(in);
                std::string got;
                if (retried(plan, name, &what, [&] { got = convert(h.conv, buf.view()); }) == Kind::OK)
                    violate("part-accepted", name + show(in) + " was converted to " + show(got));
                R.count("probe:part-refused");
                R.log(name + show(in) + " refused");
                plan = {};
            }
            auto piece = in.substr(0, cut_of(h, in.substr(0, whole), last));
            if (one && !last)
            {
                // no more than the least that can be converted on its own
                for (auto& x : points_of(piece))
                    if (auto c = cut_of(h, piece.substr(0, x.pos + x.len), false)) { piece = piece.substr(0, c); break; }
            }
            if (piece.empty() && !last) return;
            Buf buf(piece);
            std::string got;
            each = each && h.conv != V_COMPOSE && valid_text(std::string(piece));
            if (each) { name += "one by one: "; R.count("probe:code-point-by-code-point"); }
            auto k = retried(plan, name + show(piece), &what, [&] { got = each ? convert_each(h.conv, std::string(buf.view())) : convert(h.conv, buf.view()); });
            if (k != Kind::OK) violate("conversion-refused", name + show(piece) + ": " + what);
            if (buf.view() != piece) violate("text-changed", name + show(piece));
            h.out += got;
            h.done += piece.size();
            R.log("t=" + std::to_string(now) + " " + name + show(piece) + " -> " + show(got));
            R.state(mix(hash_bytes(piece, u64(h.conv)), hash_bytes(got)));
            R.count("probe:pieces-converted");
            auto want = model(h.conv, source(i).substr(0, h.done));
            if (h.out != want)
                violate("conversion-wrong", name + show(source(i).substr(0, h.done)) + " was converted to " + show(h.out) + " instead of " + show(want) + ", last piece " + show(piece));
        };
        for (auto& l : sc.lines)
        {
            auto plan = plan_from(l);
            if (l.op == "deliver")
            {
                now += std::max<i64>(0, l.gn("dt"));
                auto i = size_t(l.gn("to"));
                if (i >= relays.size()) continue;
                if (l.gn("stall")) { R.count("fault:stalled-link"); continue; }
                auto& h = relays[i];
                auto k = std::min(source(i).size() - h.got, size_t(std::max<i64>(0, l.gn("n"))));
                if (!k) continue;
                h.got += k;
                R.count("fault:delayed-piece");
            }
            else if (l.op == "crash")
            {
                auto i = size_t(l.gn("at"));
                if (i >= relays.size()) continue;
                // what it had received but not passed on has to be sent again
                relays[i].got = relays[i].done;
                R.count("fault:relay-crashed");
            }
            else if (l.op == "convert")
            {
                auto i = size_t(l.gn("at"));
                if (i < relays.size()) run(i, plan, l.gn("raw"), l.gn("one"), l.gn("each"), false);
            }
            else if (l.op == "end")
            {
                for (size_t i = 0; i < relays.size(); ++i)
                {
                    relays[i].got = source(i).size();
                    run(i, plan, false, false, false, true);
                    plan = {};
                }
            }
        }
        for (size_t i = 0; i < relays.size(); ++i)
        {
            relays[i].got = source(i).size();
            if (relays[i].done != relays[i].got) run(i, {}, false, false, false, true);
        }
        // in one go, and what is normalized already stays as it is
        auto whole = [&](int conv, const std::string& s, const char* note) {
            Buf buf(s);
            std::string got, what, where = std::string(CONVS[conv]) + " of " + show(s) + note;
            AllocPlan none;
            if (retried(none, where, &what, [&] { got = convert(conv, buf.view()); }) != Kind::OK) violate("conversion-refused", where + ": " + what);
            return got;
        };
        for (size_t i = 0; i < relays.size(); ++i)
        {
            auto& h = relays[i];
            auto& in = source(i);
            auto got = whole(h.conv, in, "");
            if (got != h.out) violate("pieces-differ", std::string(CONVS[h.conv]) + " of " + show(in) + " gave " + show(got) + ", in pieces " + show(h.out));
            auto twice = whole(h.conv, got, " (again)");
            if (twice != got)
                violate("not-stable", std::string(CONVS[h.conv]) + " of " + show(got) + " gave " + show(twice));
            auto d = whole(V_DECOMPOSE, in, ""), e = whole(V_DECOMPOSE, whole(V_COMPOSE, in, ""), " (composed)");
            if (d != e) violate("not-equivalent", show(in) + " decomposes to " + show(d) + ", after composing to " + show(e));
        }
        R.sim_time += u64(now);
    }

    // ------------------------------------------------------------------ C18
    namespace
    {
        enum Cmp { M_COMPARE, M_LESS, M_EQUAL, M_CI_STARTS, M_CI_ENDS, M_STARTS, M_ENDS, M_CONTAINS, M_N };
        const char* const CMPS[] = {"compare", "less", "equal", "ci-starts", "ci-ends", "starts", "ends", "contains"};

        int sign(i64 v) { return v < 0 ? -1 : v > 0; }

        char32_t fold(char32_t c)
        {
            return uni::upper(c);
        }

        std::u32string folded(const std::u32string& u)
        {
            std::u32string r;
            for (auto c : u) r += fold(c);
            return r;
        }

        // Something like u.
        std::u32string vary(Rng& r, const Profile& p, std::u32string u)
        {
            if (r.chance(1, 2)) for (auto& c : u) if (r.chance(1, 2)) c = fold_mate(r, c);
            switch (r.below(10))
            {
            case 0: u = u.substr(0, r.below(u.size() + 1)); break;
            case 1: u = u.substr(r.below(u.size() + 1)); break;
            case 2: u += gen_cp(r, p); break;
            case 3: u.insert(u.begin(), gen_cp(r, p)); break;
            case 4: if (!u.empty()) u[r.below(u.size())] = gen_cp(r, p); break;
            case 5: if (!u.empty()) { auto& c = u[r.below(u.size())]; if (c < 0x10FFFF && c != 0xD7FF) ++c; } break;
            case 8: // what would be another letter case, were it a letter
                for (size_t i = 0, k = u.empty() ? 0 : r.below(u.size()); i < u.size(); ++i)
                {
                    auto& c = u[(i + k) % u.size()];
                    if (c < '@' || c > 0x7F || ((c | 32) >= 'a' && (c | 32) <= 'z')) continue;
                    c ^= 32;
                    break;
                }
                break;
            case 6: case 7: if (!u.empty()) { auto& c = u[r.below(u.size())]; c = alias(r, c); } break;
            default: break;
            }
            return u;
        }
    }

    Scenario gen_c18(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C18", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        auto p = gen_profile(r);
        if (p.max_len > 40) p.max_len = 40;
        auto t = gen_text(r, p);
        if (r.chance(1, 6))
        {
            // a longer word, often with nothing but letters and what lies between them
            if (r.chance(1, 3)) t.clear();
            std::u32string w;
            char32_t lo = r.chance(2, 3) ? 0x40 : 0x20;
            for (size_t n = 4 + r.below(30); n--;) w += r.chance(1, 5) ? U"@[]{}^~_`|\\\x7F"[r.below(12)] : lo + char32_t(r.below(0x80 - lo));
            t.insert(r.below(t.size() + 1), w);
        }
        auto a = enc(t);
        auto rep = gen_rep(r, t, a);
        sc.lines.push_back(Line("text").x("a", a).n("rep", rep));
        // references the arriving text is compared with
        std::vector<std::u32string> refs;
        for (size_t n = 1 + r.below(4); n--;)
        {
            refs.push_back(r.chance(1, 8) ? gen_text(r, p) : vary(r, p, t));
            Line l("ref");
            l.x("b", enc(refs.back()));
            // a long reference agrees with the text almost to its end, or from its end
            if (rep > 1) l.n("reps", rep - i64(r.below(2))).n("tail", r.chance(1, 2));
            sc.lines.push_back(l);
        }
        size_t maxp = 1 + r.below(r.chance(1, 2) ? 4 : 12);
        size_t left = a.size() * size_t(rep);
        if (rep > 1) maxp = std::max(maxp, left / 6);
        do
        {
            auto k = std::min<size_t>(left, 1 + r.below(maxp));
            left -= k;
            sc.lines.push_back(Line("chunk").n("n", i64(k)).n("dt", r.chance(1, 10) ? i64(r.below(10000)) : i64(r.below(40))));
            for (size_t q = 1 + r.below(5); q--;)
            {
                Line l("ask");
                l.w("what", CMPS[r.below(M_N)]).n("ref", i64(r.below(refs.size()))).n("swap", r.chance(1, 3)).n("raw", r.chance(1, 4)).n("back", r.chance(1, 4));
                l.n("c", i64(!t.empty() && r.chance(1, 2) ? t[r.below(t.size())] : r.chance(1, 8) ? beyond(r) : gen_cp(r, p)));
                with_fault(r, l, 1, 4);
                sc.lines.push_back(l);
            }
        }
        while (left);
        // a directory of names, kept by several replicas
        size_t replicas = 1 + r.below(3), names = 2 + r.below(8);
        if (r.chance(1, 2))
        {
            std::vector<std::u32string> pool{t};
            while (pool.size() < names) pool.push_back(vary(r, p, pool[r.below(pool.size())]));
            for (auto& n : pool) sc.lines.push_back(Line("name").x("b", enc(n)));
            std::vector<std::pair<size_t, size_t>> mail;
            for (size_t i = 0; i < replicas; ++i) for (size_t k = 0; k < names; ++k) for (size_t copies = r.chance(1, 6) ? 2 : 1; copies--;) mail.emplace_back(i, k);
            for (size_t i = mail.size(); i > 1; --i) std::swap(mail[i - 1], mail[r.below(i)]);
            for (auto [i, k] : mail)
            {
                if (r.chance(1, 16)) sc.lines.push_back(Line("crash").n("at", i64(i)));
                Line l("mail");
                l.n("to", i64(i)).n("name", i64(k)).n("dt", i64(r.below(30)));
                if (r.chance(1, 8)) l.n("lost", 1);
                sc.lines.push_back(l);
            }
        }
        return sc;
    }

    void exec_c18(const Scenario& sc)
    {
        std::string text;
        std::vector<std::string> refs, names;
        std::string unit;
        for (auto& l : sc.lines) if (l.op == "text") unit = l.gx("a");
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") set_garbage(u8(l.gn("v")));
            else if (l.op == "text") { auto a = repeated(l, "a"); if (valid_text(a)) text = a; }
            else if (l.op == "ref")
            {
                auto a = l.gx("b");
                for (i64 i = std::min<i64>(l.gn("reps"), 70000); i > 1 && a.size() + unit.size() < 200000; --i)
                    a = l.gn("tail") ? a + unit : unit + a;
                if (valid_text(a)) refs.push_back(a);
            }
            else if (l.op == "name") { auto a = l.gx("b"); if (valid_text(a)) names.push_back(a); }
        }
        size_t size = text.size(), arrived = 0;
        i64 now = 0;

        // Replicas: names in the order the library gives them.
        struct Less
        {
            bool operator()(const std::string& a, const std::string& b) const
            {
                bool r = false;
                std::string what;
                AllocPlan none;
                Buf x(a), y(b);
                if (retried(none, "less", &what, [&] { r = ci::less(x.view(), y.view()); }) != Kind::OK)
                    violate("comparison-refused", show(a) + " < " + show(b) + ": " + what);
                R.count("probe:names-compared");
                return r;
            }
        };
        struct Replica
        {
            std::vector<size_t> log;             // durable
            std::vector<std::string> sorted;
        };
        std::vector<Replica> replicas(4);
        auto insert = [&](Replica& p, size_t name) {
            auto& n = names[name];
            auto it = std::lower_bound(p.sorted.begin(), p.sorted.end(), n, Less());
            if (it != p.sorted.end() && !Less()(n, *it)) { R.count("probe:same-name-again"); return; }
            p.sorted.insert(it, n);
        };
        auto check = [&](Replica& p, size_t i) {
            // what is in the directory, and in which order
            std::map<std::u32string, std::string> want;
            for (auto k : p.log) want.try_emplace(folded(dec(names[k])), names[k]);
            std::string is;
            for (auto& s : p.sorted) is += " " + show(s);
            bool ok = want.size() == p.sorted.size();
            size_t k = 0;
            for (auto& [key, first] : want) { ok = ok && folded(dec(p.sorted[k])) == key; ++k; }
            if (!ok) violate("directory-wrong", "replica " + std::to_string(i) + " holds" + is);
            for (size_t x = 0; x < p.sorted.size(); ++x)
                for (size_t y = 0; y < p.sorted.size(); ++y)
                {
                    int c = 0;
                    bool e = false;
                    std::string what;
                    AllocPlan none;
                    if (retried(none, "compare", &what, [&] { c = sign(ci::compare(p.sorted[x], p.sorted[y])); e = ci::equal(p.sorted[x], p.sorted[y]); }) != Kind::OK)
                        violate("comparison-refused", show(p.sorted[x]) + " and " + show(p.sorted[y]) + ": " + what);
                    if (c != sign(i64(x) - i64(y)) || e != (x == y))
                        violate("order-differs", show(p.sorted[x]) + " and " + show(p.sorted[y]) + " compare as " + std::to_string(c) + (e ? ", equal" : ", not equal") + " in" + is);
                }
            R.state(mix(hash_bytes(is), i));
        };

        for (auto& l : sc.lines)
        {
            if (l.op == "chunk")
            {
                arrived += std::min<size_t>(size - arrived, size_t(std::max<i64>(0, l.gn("n"))));
                now += std::max<i64>(0, l.gn("dt"));
                R.count("fault:delayed-piece");
                continue;
            }
            if (l.op == "crash")
            {
                auto i = size_t(l.gn("at"));
                if (i >= replicas.size()) continue;
                // rebuilt from its log, newest first
                auto& p = replicas[i];
                p.sorted.clear();
                for (size_t k = p.log.size(); k--;) insert(p, p.log[k]);
                R.count("fault:replica-rebuilt");
                continue;
            }
            if (l.op == "mail")
            {
                auto i = size_t(l.gn("to")), k = size_t(l.gn("name"));
                if (i >= replicas.size() || k >= names.size()) continue;
                now += std::max<i64>(0, l.gn("dt"));
                if (l.gn("lost")) { R.count("fault:message-lost"); continue; }
                R.count("fault:message-reordered");
                replicas[i].log.push_back(k);
                insert(replicas[i], k);
                R.log("t=" + std::to_string(now) + " replica " + std::to_string(i) + " learns " + show(names[k]) + ", holds " + std::to_string(replicas[i].sorted.size()));
                continue;
            }
            if (l.op != "ask" || refs.empty()) continue;
            auto name = l.gw("what");
            int q = -1;
            for (int i = 0; i < M_N; ++i) if (name == CMPS[i]) q = i;
            if (q < 0) continue;
            auto plan = plan_from(l);
            bool swap = l.gn("swap"), raw = l.gn("raw"), back = l.gn("back");
            auto& ref = refs[size_t(l.gn("ref")) % refs.size()];
            char32_t c = char32_t(l.gn("c"));
            // what has arrived, complete to the code point or not
            size_t whole = arrived;
            if (!back) while (whole < size && (u8(text[whole]) & 0xC0) == 0x80) --whole;
            else while (whole && (u8(text[size - whole]) & 0xC0) == 0x80) --whole;
            size_t shown = raw ? arrived : whole;
            bool part = shown != whole;
            Buf bv(back ? std::string_view(text).substr(size - shown) : std::string_view(text).substr(0, shown)), br(ref);
            auto known = dec(std::string(back ? bv.view().substr(shown - whole) : bv.view().substr(0, whole)));
            auto other = dec(ref);
            auto v = bv.view(), w = br.view();
            if (swap) std::swap(v, w);
            std::string what, where = name + " " + show(v) + ", " + (q == M_CONTAINS ? std::to_string(c) : show(w));
            int got = 0;
            auto k = retried(plan, where, &what, [&] {
                switch (q)
                {
                case M_COMPARE: got = sign(ci::compare(v, w)); break;
                case M_LESS: got = ci::less(v, w); break;
                case M_EQUAL: got = ci::equal(v, w); break;
                case M_CI_STARTS: got = ci::starts_with(v, w); break;
                case M_CI_ENDS: got = ci::ends_with(v, w); break;
                case M_STARTS: got = ys::starts_with(v, w); break;
                case M_ENDS: got = ys::ends_with(v, w); break;
                default: got = ys::contains(bv.view(), c); break;
                }
            });
            R.log("t=" + std::to_string(now) + " " + where + " -> " + kind_name(k) + " " + std::to_string(got));
            R.state(mix(hash_bytes(v, u64(q)), mix(hash_bytes(w), u64(k) * 4 + u64(got + 1))));
            R.count("probe:comparisons");
            if (q == M_STARTS || q == M_ENDS)
            {
                // bytes
                if (k != Kind::OK) violate("comparison-refused", where + ": " + what);
                bool want = w.size() <= v.size() && (q == M_STARTS ? v.substr(0, w.size()) : v.substr(v.size() - w.size())) == w;
                if (got != want) violate("comparison-wrong", where + " gave " + std::to_string(got));
                continue;
            }
            // Where do they differ?
            auto A = folded(known), B = folded(other);
            size_t m = 0, n = std::min(A.size(), B.size());
            bool from_end = q == M_CI_ENDS;
            while (m < n && (from_end ? A[A.size() - 1 - m] == B[B.size() - 1 - m] : A[m] == B[m])) ++m;
            bool decided = m < n;                         // by what is known
            // the incomplete code point is met first when it is at the end that is looked at first
            bool at_front = part && back != from_end;
            if (q == M_CONTAINS)
            {
                bool in = known.find(c) != std::u32string::npos;
                if (k == Kind::YEX)
                {
                    if (!part || (in && !back)) violate("comparison-refused", where + ": " + what);
                    R.count("probe:not-known-yet");
                }
                else if (got && !in) violate("comparison-wrong", where + " gave true");
                else if (!got && in && !(part && back)) violate("comparison-wrong", where + " gave false");
                continue;
            }
            if (part && at_front)
            {
                // nothing can be said, except about an empty reference or against a longer one
                if (k == Kind::OK && !B.empty() && ((q == M_EQUAL && got) || ((q == M_CI_STARTS || q == M_CI_ENDS) && got && !swap)))
                    violate("comparison-wrong", where + " gave " + std::to_string(got) + " before the characters were there");
                continue;
            }
            if (k == Kind::YEX)
            {
                if (!part || decided) violate("comparison-refused", where + ": " + what);
                R.count("probe:not-known-yet");
                continue;
            }
            if (part && !decided)
            {
                // the reference ends here, or not enough has arrived
                int wrong = q == M_COMPARE ? 0 : q == M_EQUAL ? 1 : -2;
                if (m == B.size() && B.size() == A.size() && got == wrong)
                    violate("comparison-wrong", where + " gave " + std::to_string(got) + " although more is under way");
                if (m < B.size() && !swap && (q == M_CI_STARTS || q == M_CI_ENDS) && got)
                    violate("comparison-wrong", where + " gave true too early");
                if (m < B.size() && q == M_EQUAL && got) violate("comparison-wrong", where + " gave true too early");
                if (!swap && m == B.size() && (q == M_CI_STARTS || q == M_CI_ENDS) && !got) violate("comparison-wrong", where + " gave false");
                continue;
            }
            auto& X = swap ? B : A;
            auto& Y = swap ? A : B;
            int cmp = X < Y ? -1 : X == Y ? 0 : 1;
            int want = 0;
            switch (q)
            {
            case M_COMPARE: want = cmp; break;
            case M_LESS: want = cmp < 0; break;
            case M_EQUAL: want = cmp == 0; break;
            default: want = m == Y.size(); break;
            }
            if (got != want) violate("comparison-wrong", where + " gave " + std::to_string(got) + " instead of " + std::to_string(want));
            if (decided && !part && !back && (q == M_COMPARE || q == M_LESS)) R.count("probe:decided-early");
        }
        for (size_t i = 0; i < replicas.size(); ++i) check(replicas[i], i);
        // In the end everybody has been told everything: they agree.
        for (size_t i = 0; i < replicas.size(); ++i)
        {
            if (replicas[i].log.empty()) continue;
            for (size_t k = 0; k < names.size(); ++k)
                if (std::find(replicas[i].log.begin(), replicas[i].log.end(), k) == replicas[i].log.end())
                {
                    replicas[i].log.push_back(k);
                    insert(replicas[i], k);
                }
            check(replicas[i], i);
        }
        R.sim_time += u64(now);
    }
}
