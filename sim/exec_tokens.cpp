// Tokenizing with a separator search that fails part-way (C06).
#include "api.hpp"
#include "unidata.hpp"
#include "delivery.hpp"
#include <Ystring/CaseInsensitive.hpp>
#include <functional>
#include <optional>

namespace ys = ystring;
namespace ci = ystring::case_insensitive;

namespace sim
{
    namespace
    {
        enum SepKind { BYTES, CHARS, SET, LINES, CI_BYTES, CI_CHARS, RUN, ALTERNATE, N_KINDS };
        const char* const KINDS[] = {"bytes", "chars", "set", "lines", "ci-bytes", "ci-chars", "run", "alternate"};

        struct Sep
        {
            int kind = BYTES;
            std::string b, d;
            std::u32string u;
            bool neg = false;
            int nf = 0;               // how the search says that there is nothing
        };

        Sep sep_from(const Line& l)
        {
            Sep s;
            auto k = l.gw("kind");
            for (int i = 0; i < N_KINDS; ++i) if (k == KINDS[i]) s.kind = i;
            s.b = l.gx("b");
            s.d = l.gx("d");
            s.u = l.gu("u");
            s.neg = l.gn("neg");
            s.nf = int(l.gn("nf"));
            return s;
        }

        struct Tok { size_t pos, len; };

        bool is_newline_cp(char32_t c)
        {
            return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029;
        }

        // Independent reference: separators of a valid text. Nothing if the separator itself
        // cannot be read.
        std::optional<std::vector<Tok>> reference(const Sep& s, const std::string& text)
        {
            std::vector<Tok> r;
            if (s.kind == BYTES || s.kind == ALTERNATE)
            {
                size_t pos = 0, i = 0;
                while (true)
                {
                    auto& sep = s.kind == ALTERNATE && i++ % 2 ? s.d : s.b;
                    auto p = sep.empty() ? std::string::npos : text.find(sep, pos);
                    if (p == std::string::npos) return r;
                    r.push_back({p, sep.size()});
                    pos = p + sep.size();
                }
            }
            std::vector<std::pair<size_t, char32_t>> cps;
            for (size_t i = 0; i < text.size();)
            {
                char32_t c;
                auto n = seq_len(text, i, &c);
                cps.emplace_back(i, c);
                i += n;
            }
            cps.emplace_back(text.size(), 0);
            size_t n = cps.size() - 1;
            if (s.kind == CI_BYTES)
            {
                if (!structurally_valid(s.b)) return std::nullopt;
                auto sep = dec(s.b);
                for (auto c : sep) if (c > 0x10FFFF) return std::nullopt;
                if (sep.empty()) return r;
                for (size_t i = 0; i + sep.size() <= n;)
                {
                    size_t k = 0;
                    while (k < sep.size() && uni::same(cps[i + k].second, sep[k])) ++k;
                    if (k < sep.size()) { ++i; continue; }
                    r.push_back({cps[i].first, cps[i + k].first - cps[i].first});
                    i += k;
                }
                return r;
            }
            for (size_t i = 0; i < n;)
            {
                auto c = cps[i].second;
                bool in = false;
                if (s.kind == LINES) in = is_newline_cp(c);
                else if (s.kind == CI_CHARS) for (auto x : s.u) in = in || uni::same(c, x);
                else in = (s.u.find(c) != std::u32string::npos) != (s.kind == SET && s.neg);
                if (!in) { ++i; continue; }
                size_t k = 1;
                if (s.kind == LINES && c == '\r' && i + 1 < n && cps[i + 1].second == '\n') k = 2;
                if (s.kind == RUN) while (i + k < n && s.u.find(cps[i + k].second) != std::u32string::npos) ++k;
                r.push_back({cps[i].first, cps[i + k].first - cps[i].first});
                i += k;
            }
            return r;
        }

        std::vector<std::string> ref_parts(const std::vector<Tok>& t, const std::string& text, u64 max, bool ign)
        {
            std::vector<std::string> r;
            size_t pos = 0;
            for (size_t i = 0; i <= t.size(); ++i)
            {
                if (r.size() == max)
                {
                    auto rest = text.substr(pos);
                    if (!ign || !rest.empty()) r.push_back(rest);
                    return r;
                }
                auto e = i < t.size() ? t[i].pos : text.size();
                auto part = text.substr(pos, e - pos);
                if (!ign || !part.empty()) r.push_back(part);
                if (i < t.size()) pos = t[i].pos + t[i].len;
            }
            return r;
        }

        struct Boom { u64 id; };
        enum Fail { NONE, THROW, YEX };

        // The caller's separator search: the library's own functions, or one of the caller's.
        struct Search
        {
            Sep sep;
            ys::CodepointSet set;
            bool odd = false;           // state of the alternating search
            int fail = NONE;
            i64 fail_in = 0;            // which of the following calls fails (1: the next one)
            u64 calls = 0, after_failure = 0, id = 0;
            bool failed = false;
            bool late = false;          // fails after having looked for the separator

            ys::Subrange nothing(std::string_view s) const
            {
                switch (sep.nf)
                {
                case 0: return {s.size(), 0};
                case 1: return {};
                case 2: return {0, 0};
                default: return ys::Subrange(std::string_view::npos);
                }
            }
            ys::Subrange look(std::string_view s)
            {
                switch (sep.kind)
                {
                case BYTES: return ys::find_first(s, sep.b);
                case CHARS: return ys::find_first_of(s, std::u32string_view(sep.u)).first;
                case SET: return ys::find_first_of(s, set).first;
                case LINES: return ys::find_first_newline(s);
                case CI_BYTES: return ci::find_first(s, sep.b);
                case CI_CHARS: return ci::find_first_of(s, std::u32string_view(sep.u)).first;
                default: break;
                }
                HarnessScope h;
                if (sep.kind == ALTERNATE)
                {
                    auto& x = odd ? sep.d : sep.b;
                    auto p = x.empty() ? std::string_view::npos : s.find(x);
                    if (p == std::string_view::npos) return nothing(s);
                    return {p, x.size()};
                }
                size_t i = 0;
                while (i < s.size())
                {
                    size_t e = i;
                    while (e < s.size())
                    {
                        char32_t c;
                        auto n = seq_len(s, e, &c);
                        if (!n || sep.u.find(c) == std::u32string::npos) break;
                        e += n;
                    }
                    if (e > i) return {i, e - i};
                    auto n = seq_len(s, i);
                    i += n ? n : 1;
                }
                return nothing(s);
            }
            ys::Subrange operator()(std::string_view s)
            {
                {
                    HarnessScope h;
                    ++calls;
                    if (failed) ++after_failure;
                    if (fail && --fail_in == 0 && !late) fire();
                }
                auto r = look(s);
                HarnessScope h;
                if (fail && fail_in == 0 && late) fire();
                if (sep.kind == ALTERNATE && r) odd = !odd;
                return r;
            }
            void fire()
            {
                failed = true;
                R.count(fail == THROW ? "fault:search-threw" : "fault:search-reported-error");
                if (fail == YEX) throw ys::YstringException("separator search failed");
                throw Boom{id};
            }
            void arm(int f, i64 in, bool l)
            {
                fail = f;
                fail_in = in;
                late = l;
                failed = false;
                after_failure = 0;
                ++id;
            }
        };

        // What the library is given: it may be copied and moved, the search behind it is that of
        // the walk being stepped.
        Search* g_search = nullptr;
        struct Finder
        {
            int tag = -1;
            ys::Subrange operator()(std::string_view v) const
            {
                if (tag != 42)
                {
                    HarnessScope h;
                    violate("search-lost", "the token iterator called a search that is not the caller's");
                }
                return (*g_search)(v);
            }
        };
        using Iter = ys::TokenIterator<Finder>;

        struct Walk
        {
            std::unique_ptr<Search> search;
            std::optional<Iter> it;
            size_t pos = 0;        // where the unread text starts
            size_t steps = 0;      // successful steps
            bool started = false, ended = false;
            // what the last successful step showed
            std::string_view part, token, rest;
            bool more = false;
            std::shared_ptr<std::optional<std::vector<Tok>>> ref;   // the separators of the text
        };

        Line sep_line(Rng& r, const Profile& p, const std::string& a, const char* name)
        {
            Line l(name);
            int kind = int(r.below(N_KINDS));
            l.w("kind", KINDS[kind]);
            auto needle = [&] {
                auto s = gen_needle(r, p, a, true);
                if (s.empty() && r.chance(3, 4)) s = enc(gen_cp(r, p));
                if (!a.empty() && a.size() < 100 && r.chance(1, 25) && structurally_valid(a))
                {
                    // a long one, or nearly
                    s.clear();
                    for (size_t k = 40 + r.below(100); s.size() < k; ) s += a;
                    if (r.chance(1, 3)) s += enc(gen_cp(r, p));
                }
                if (kind == CI_BYTES && r.chance(1, 2) && structurally_valid(s))
                {
                    auto u = dec(s);
                    for (auto& c : u) if (r.chance(2, 3)) c = fold_mate(r, c);
                    s = enc(u);
                }
                return s;
            };
            if (kind == BYTES || kind == ALTERNATE || kind == CI_BYTES) l.x("b", needle());
            if (kind == ALTERNATE) l.x("d", needle());
            if (kind == CHARS || kind == SET || kind == CI_CHARS || kind == RUN)
            {
                std::u32string u;
                size_t k = 1 + r.below(3);
                auto t = structurally_valid(a) ? dec(a) : std::u32string();
                while (k--)
                {
                    auto c = !t.empty() && r.chance(3, 4) ? t[r.below(t.size())] : gen_cp(r, p);
                    if (kind == CI_CHARS && r.chance(1, 2)) c = fold_mate(r, c);
                    u += c;
                }
                if (r.chance(1, 25))
                    for (size_t k = 10 + r.below(80); k--;)
                        u.insert(u.begin() + ptrdiff_t(r.below(u.size() + 1)), gen_cp(r, p));
                l.u("u", u);
                if (kind == SET) l.n("neg", r.chance(1, 5));
            }
            if (kind == RUN || kind == ALTERNATE) l.n("nf", i64(r.below(4)));
            return l;
        }

        std::string list(const std::vector<std::string>& v)
        {
            std::string r = "[";
            for (size_t i = 0; i < v.size(); ++i)
            {
                if (v.size() > 100 && i == 60) { r += "... (" + std::to_string(v.size()) + " in all) ..., "; i = v.size() - 30; }
                r += show(v[i]) + ", ";
            }
            return r + "]";
        }
    }

    Scenario gen_c06(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C06", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        auto p = gen_profile(r);
        if (r.chance(1, 2)) p.classes.push_back(int(r.chance(1, 2) ? 9 : 10));
        if (p.max_len < 12) p.max_len = 12;
        auto a = enc(gen_text(r, p));
        auto rep = gen_rep(r, a.size());
        sc.lines.push_back(Line("text").x("a", a).n("rep", rep).n("null", r.chance(1, 2)));
        if (r.chance(1, 5))
        {
            size_t k = 1 + r.below(2);
            while (k--) sc.lines.push_back(gen_damage(r, a.size() * size_t(rep)));
        }
        size_t walks = r.below(4);
        for (size_t i = 0; i < walks; ++i)
            sc.lines.push_back(sep_line(r, p, a, "walk").n("id", i64(i)));
        u64 pf = r.below(5);
        auto fault = [&](Line& l, bool many) {
            if (r.below(6) >= pf) return;
            switch (r.below(4))
            {
            case 0: l.n("k", i64(1 + r.below(2))); break;
            case 1: l.n("fail", YEX).n("in", i64(1 + r.below(many ? 5 : 1))).n("late", r.chance(1, 2)); break;
            default: l.n("fail", THROW).n("in", i64(1 + r.below(many ? 5 : 1))).n("late", r.chance(1, 2)); break;
            }
        };
        size_t n = walks ? 4 + r.below(40) : 0;
        for (size_t i = 0; i < n; ++i)
        {
            auto id = i64(r.below(walks));
            Line l;
            switch (r.below(16))
            {
            case 0: l = Line("copy").n("id", id).n("to", i64(r.below(walks + 1))); break;
            case 1: l = Line("resume").n("id", id); break;
            default: l = Line("step").n("id", id); if (rep > 1) l.n("n", i64(1 + r.below(std::min<size_t>(size_t(rep) * 2, a.size() * size_t(rep) > 20000 && r.chance(9, 10) ? 300 : 10000)))); fault(l, false); break;
            }
            sc.lines.push_back(l);
        }
        size_t splits = walks ? r.below(3) : 1 + r.below(4);
        for (size_t i = 0; i < splits; ++i)
        {
            auto l = sep_line(r, p, a, "split");
            static const i64 maxs[] = {1, 2, 3, 5, -1, -1, -1};
            l.n("p", maxs[r.below(7)]).n("ign", r.chance(1, 3)).n("direct", r.chance(2, 3));
            fault(l, true);
            // the parts are put together again
            if (r.chance(1, 2)) l.x("j", r.chance(1, 2) && l.has("b") ? l.gx("b") : gen_needle(r, p, a, true)).n("jk", i64(r.below(3)));
            sc.lines.insert(sc.lines.begin() + i64(3 + r.below(sc.lines.size() - 2)) - 1, l);
        }
        return sc;
    }

    void exec_c06(const Scenario& sc)
    {
        Tagged t;
        std::optional<Buf> buf;
        bool null_ok = false, valid = true;
        std::map<i64, Walk> walks;
        auto seal = [&] {
            if (buf) return;
            buf.emplace(t.bytes, null_ok);
            valid = structurally_valid(t.bytes);
            for (auto c : valid ? dec(t.bytes) : std::u32string()) valid = valid && c <= 0x10FFFF;
        };
        auto make_search = [](const Line& l) {
            auto s = std::make_unique<Search>();
            s->sep = sep_from(l);
            for (auto c : s->sep.u) s->set.ranges.emplace_back(c, c);
            s->set.negated = s->sep.neg;
            return s;
        };
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") { set_garbage(u8(l.gn("v"))); continue; }
            if (l.op == "text") { t.bytes = repeated(l, "a"); t.tag.assign(t.bytes.size(), 0); null_ok = l.gn("null"); continue; }
            if (l.op == "dmg") { if (!buf) apply_damage(l, t); continue; }
            seal();
            auto text = buf->view();
            auto plan = plan_from(l);
            std::string what;
            if (l.op == "walk")
            {
                Walk w;
                w.search = make_search(l);
                w.ref = std::make_shared<std::optional<std::vector<Tok>>>(valid ? reference(w.search->sep, std::string(text)) : std::nullopt);
                guarded({}, &what, [&] { w.it.emplace(text, Finder{42}); });
                auto& x = walks[l.gn("id")];
                x = std::move(w);
                if (x.it->part() != "" || x.it->token() != "" || x.it->remainder() != text)
                    violate("start-wrong", "a new token iterator over " + show(text) + " does not start with the whole text unread");
            }
            else if (l.op == "copy")
            {
                auto i = walks.find(l.gn("id"));
                if (i == walks.end() || l.gn("to") == l.gn("id")) continue;
                auto& from = i->second;
                // the copy continues with a search of its own
                Walk w;
                w.search = std::make_unique<Search>(*from.search);
                w.pos = from.pos; w.steps = from.steps; w.started = from.started; w.ended = from.ended;
                w.part = from.part; w.token = from.token; w.rest = from.rest; w.more = from.more; w.ref = from.ref;
                w.it.emplace(*from.it);
                walks[l.gn("to")] = std::move(w);
            }
            else if (l.op == "resume")
            {
                auto i = walks.find(l.gn("id"));
                if (i == walks.end() || i->second.ended) continue;
                auto& w = i->second;
                auto rest = w.it->remainder();
                if (!w.more && w.started) continue;
                if (rest.empty() && w.started) { rest = text.substr(text.size()); }
                w.it.emplace(rest, Finder{42});
                w.part = w.token = {};
                w.rest = rest;
                w.more = false;
                w.started = w.steps != 0;
                R.count("probe:walk-resumed-from-remainder");
            }
            else if (l.op == "step")
            {
                auto i = walks.find(l.gn("id"));
                if (i == walks.end()) continue;
                auto& w = i->second;
                for (i64 left = std::min<i64>(l.gn("n", 1), 10000); left > 0; --left)
                {
                auto& it = *w.it;
                auto& se = *w.search;
                auto where = "walking " + show(text) + " by " + KINDS[se.sep.kind] + " at byte " + std::to_string(w.pos);
                auto p0 = it.part(), t0 = it.token(), r0 = it.remainder();
                bool b0 = bool(it);
                g_search = &se;
                se.arm(left > 1 ? NONE : int(l.gn("fail")), l.gn("in", 1), l.gn("late"));
                bool got = false, boom = false;
                Kind k = Kind::OK;
                try { k = guarded(left > 1 ? AllocPlan() : plan, &what, [&] { got = it.next(); }); }
                catch (const Boom& b)
                {
                    boom = true;
                    if (b.id != se.id) violate("wrong-exception", where);
                }
                alloc_ctx().disarm();
                auto p1 = it.part(), t1 = it.token(), r1 = it.remainder();
                bool b1 = bool(it);
                R.log(l.str() + " -> " + (boom ? "thrown" : kind_name(k)) + (got ? " part " : " no part ") + show(p1) + " token " + show(t1) + " rest " + show(r1));
                if (k == Kind::OTHER) violate("wrong-exception", where + ": " + what);
                if (se.after_failure) violate("search-called-again", where + " after it had failed");
                auto same = [](std::string_view a, std::string_view b) { return a.size() == b.size() && (a.empty() || a.data() == b.data()); };
                if (boom || k != Kind::OK)
                {
                    R.count("probe:step-failed");
                    if (!se.failed && k == Kind::YEX && valid && structurally_valid(se.sep.b))
                        violate("error-on-valid-text", where + ": " + what);
                    if (!same(p0, p1) || !same(t0, t1) || !same(r0, r1) || b0 != b1)
                        violate("moved-by-failed-step", where + ": part " + show(p0) + " token " + show(t0) + " rest " + show(r0) + " became part " + show(p1) + " token " + show(t1) + " rest " + show(r1));
                    R.state(mix(hash_bytes("fail"), mix(w.steps, mix(u64(se.sep.kind), u64(k) + 8 * boom))));
                    left = std::min<i64>(left, 2); // it has not moved, so the next one fails the same way
                    continue;
                }
                if (se.failed) violate("failure-swallowed", where + ": the search failed but next() returned normally");
                if (w.ended)
                {
                    if (got) violate("walk-went-on", where + " after its end: part " + show(p1));
                    if (!same(p0, p1) || !same(r0, r1)) violate("changed-after-end", where);
                    left = std::min<i64>(left, 2);
                    continue;
                }
                if (!got)
                {
                    violate("text-lost", where + ": the walk ends although " + show(text.substr(w.pos)) + " is unread");
                }
                // the part starts where the unread text started
                auto inside = [&](std::string_view v, size_t pos) {
                    return v.empty() || (v.data() == text.data() + pos && pos + v.size() <= text.size());
                };
                size_t tp = w.pos + p1.size(), rp = tp + t1.size();
                if (!inside(p1, w.pos) || !inside(t1, tp) || !inside(r1, rp) || rp + r1.size() != text.size())
                    violate("text-not-conserved", where + ": part " + show(p1) + " token " + show(t1) + " rest " + show(r1));
                if (!b1 && !t1.empty()) violate("end-wrong", where + ": no more tokens, yet token " + show(t1));
                if (b1 && t1.empty()) violate("token-wrong", where + ": a token was found but it is empty");
                if (auto& ref = *w.ref)
                {
                    auto n = w.steps;
                    if (n > ref->size()) violate("walk-went-on", where);
                    auto e = n < ref->size() ? (*ref)[n] : Tok{text.size(), 0};
                    if (tp != e.pos || t1.size() != e.len)
                        violate("token-wrong", where + ": part " + show(p1) + " token " + show(t1) + ", expected a separator of " + std::to_string(e.len) + " bytes at " + std::to_string(e.pos));
                }
                w.started = true;
                ++w.steps;
                w.pos = rp;
                w.part = p1; w.token = t1; w.rest = r1;
                w.more = b1;
                if (!b1) w.ended = true;
                R.count("probe:steps");
                R.state(mix(hash_bytes("step"), mix(w.steps, mix(u64(se.sep.kind), mix(p1.size(), t1.size())))));
                }
            }
            else if (l.op == "split")
            {
                auto se = make_search(l);
                ys::SplitParams sp{size_t(l.gn("p")), bool(l.gn("ign"))};
                if (!sp.max_splits) continue;
                bool direct = l.gn("direct");
                int kind = se->sep.kind;
                if (kind == SET || kind == RUN || kind == ALTERNATE) direct = false;
                auto call = [&] {
                    std::u32string_view u = se->sep.u;
                    std::string_view b = se->sep.b;
                    if (!direct) return ys::split_where(text, Finder{42}, sp);
                    switch (kind)
                    {
                    case BYTES: return ys::split(text, b, sp);
                    case CHARS: return ys::split(text, u, sp);
                    case LINES: return ys::split_lines(text, sp);
                    case CI_BYTES: return ci::split(text, b, sp);
                    default: return ci::split(text, u, sp);
                    }
                };
                auto ref = valid ? reference(se->sep, std::string(text)) : std::nullopt;
                auto where = l.str() + " of " + show(text);
                for (int round = 0; round < 2; ++round)
                {
                    bool faulty = round == 0;
                    bool boom = false;
                    Kind k = Kind::OK;
                    {
                        std::vector<std::string_view> v;
                        se->odd = false;
                        g_search = se.get();
                        se->arm(faulty && !direct ? int(l.gn("fail")) : NONE, l.gn("in", 1), l.gn("late"));
                        try { k = guarded(faulty ? plan : AllocPlan(), &what, [&] { auto x = call(); HarnessScope h; v.assign(x.begin(), x.end()); }); }
                        catch (const Boom& b)
                        {
                            boom = true;
                            if (b.id != se->id) violate("wrong-exception", where);
                        }
                        alloc_ctx().disarm();
                        std::vector<std::string> parts(v.begin(), v.end());
                        R.log("split -> " + std::string(boom ? "thrown" : kind_name(k)) + " " + list(parts));
                        if (k == Kind::OTHER) violate("wrong-exception", where + ": " + what);
                        if (se->after_failure) violate("search-called-again", where + " after it had failed");
                        if (k == Kind::OK && !boom && se->failed) violate("failure-swallowed", where);
                        if (k == Kind::YEX && !se->failed && ref) violate("error-on-valid-text", where + ": " + what);
                        if (k == Kind::OK && !boom)
                        {
                            const char* at = text.data();
                            for (auto& x : v)
                            {
                                if (x.empty()) continue;
                                if (x.data() < at || x.data() + x.size() > text.data() + text.size())
                                    violate("part-outside", where + ": part " + show(x) + " does not lie in the caller's text, in order");
                                at = x.data() + x.size();
                            }
                            if (ref)
                            {
                                auto e = ref_parts(*ref, std::string(text), sp.max_splits, sp.ignore_empty);
                                if (e != parts) violate("parts-wrong", where + " gave " + list(parts) + ", expected " + list(e));
                            }
                            if (l.has("j"))
                            {
                                auto d = l.gx("j");
                                std::string joined, wanted;
                                for (size_t i = 0; i < parts.size(); ++i) wanted += (i ? d : "") + parts[i];
                                AllocPlan jp;
                                if (faulty && l.gn("jk")) jp.kth.push_back(u32(l.gn("jk")));
                                auto join = [&] { joined = ys::join(v.begin(), v.end(), std::string_view(d)); };
                                auto jk = guarded(jp, &what, join);
                                if (jk == Kind::OOM) jk = guarded({}, &what, join);
                                if (jk != Kind::OK) violate("join-failed", where + ": " + what);
                                R.log("joined " + show(joined));
                                if (joined != wanted) violate("join-wrong", where + ", joined by " + show(d) + ", gave " + show(joined));
                                if (kind == BYTES && d == se->sep.b && !sp.ignore_empty && joined != text)
                                    violate("text-not-conserved", where + ", joined again, gave " + show(joined));
                                R.count("probe:joined-again");
                            }
                            R.count("probe:splits");
                            R.state(mix(hash_bytes("split"), mix(parts.size(), mix(u64(kind), sp.max_splits + 2 * sp.ignore_empty))));
                        }
                        else R.count("probe:split-failed");
                    }
                    if (round == 0 && !boom && k != Kind::OOM && !se->failed) break;
                }
            }
        }
    }
}
