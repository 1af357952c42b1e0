// Callbacks and iterators that throw or call back into the library (C07).
#include "api.hpp"
#include <iterator>
#include <list>
#include <optional>
#include <stdexcept>

namespace ys = ystring;

namespace sim
{
    namespace
    {
        // ---- the exceptions callers throw
        struct Boom { u64 id; };
        struct MyError : ys::YstringException { u64 id; explicit MyError(u64 i) : YstringException("mine"), id(i) {} };
        struct MyOom : std::bad_alloc { u64 id; explicit MyOom(u64 i) : id(i) {} };
        struct MyRange : std::out_of_range { u64 id; explicit MyRange(u64 i) : out_of_range("mine"), id(i) {} };
        const char* const TEXTS[] = {"zero", "one", "two", "three"};

        [[noreturn]] void throw_kind(int ex, u64 id)
        {
            R.count("fault:callback-threw");
            switch (ex)
            {
            case 0: throw Boom{id};
            case 1: throw MyError(id);
            case 2: throw MyOom(id);
            case 3: throw int(id);
            case 4: throw MyRange(id);
            default: throw TEXTS[id % 4];
            }
        }

        struct Caught
        {
            enum What { NOTHING, MINE, LIB, OOM, OTHER } what = NOTHING;
            int ex = -1;
            u64 id = 0;
            std::string text;
            std::string str() const
            {
                static const char* n[] = {"nothing", "the callback's own", "the library's error", "out of memory", "another exception"};
                return n[what] + (text.empty() ? std::string() : " (" + text + ")");
            }
        };

        template <class F>
        Caught catching(F f)
        {
            Caught c;
            try { f(); }
            catch (const Violation&) { throw; }
            catch (const Boom& e) { c = {Caught::MINE, 0, e.id, ""}; }
            catch (const MyError& e) { c = {Caught::MINE, 1, e.id, ""}; }
            catch (const MyOom& e) { c = {Caught::MINE, 2, e.id, ""}; }
            catch (int e) { c = {Caught::MINE, 3, u64(e), ""}; }
            catch (const MyRange& e) { c = {Caught::MINE, 4, e.id, ""}; }
            catch (const char* e)
            {
                c = {Caught::OTHER, 5, 0, "a string"};
                for (u64 i = 0; i < 4; ++i) if (e == TEXTS[i]) { c.what = Caught::MINE; c.id = i; }
            }
            catch (const ys::YstringException& e) { c = {Caught::LIB, -1, 0, e.what()}; }
            catch (const std::bad_alloc&) { c = {Caught::OOM, -1, 0, ""}; }
            catch (const std::exception& e) { c = {Caught::OTHER, -1, 0, e.what()}; }
            catch (...) { c = {Caught::OTHER, -1, 0, "unknown"}; }
            return c;
        }

        // ---- one execution's control block
        struct Nested
        {
            u64 at;
            Line op;            // if set: the same kind of call, on a text of its own
            std::string op_text;
            Call call;
            AllocPlan plan;
            bool same = false;
            Outcome expect;
            // deeper levels: the same operation on other texts, one inside the other
            std::vector<std::string> texts, values;
            std::vector<u64> counts;
            size_t level = 0;
        };
        struct Ctl
        {
            u64 n = 0, copies = 0;          // invocations, copies of the callback
            u64 throw_at = 0, throw_copy = 0;
            int ex = 0;
            u64 id = 0;
            bool thrown = false;
            u64 after = 0;                  // invocations after it threw
            u64 own = 0, lost = 0;          // what the callback itself counted, and how often it had to start again
            std::u32string seen;
            std::vector<Nested>* nested = nullptr;
            const Buf* text = nullptr;
            std::string where;

            void nest();
            void tick()
            {
                HarnessScope h;
                ++n;
                if (thrown) { ++after; return; }
                if (nested) nest();
                if (throw_at && n == throw_at) { thrown = true; throw_kind(ex, id); }
            }
            // a callback that counts its invocations itself must see them all
            void counted(u64 k)
            {
                if (k != own + 1) ++lost;
                own = k;
            }
            void copy()
            {
                HarnessScope h;
                ++copies;
                if (thrown) return;
                if (throw_copy && copies == throw_copy) { thrown = true; throw_kind(ex, id); }
            }
        };

        std::string reenter(const Nested& x, bool deep, u64* count = nullptr);

        void Ctl::nest()
        {
            for (auto& x : *nested)
            {
                if (x.at != n) continue;
                if (!x.op.op.empty())
                {
                    R.count("fault:callback-called-back");
                    if (x.level) R.count("fault:callback-called-back-deeper");
                    auto got = reenter(x, true);
                    auto& want = x.values[x.level];
                    if (got != want)
                        die_violation("nested-call-differs", (where + ", inside it " + x.op.str() + " gave " + got + " instead of " + want).c_str());
                    continue;
                }
                auto& ctx = alloc_ctx();
                auto saved = ctx;
                auto steps = g_steps, sb = g_step_budget, mb = g_mem_budget;
                ctx = AllocCtx();
                auto o = run_call(x.call, x.plan.empty() ? nullptr : &x.plan, nullptr, nullptr, x.same ? text : nullptr);
                ctx = saved;
                g_step_budget = sb ? sb + (g_steps - steps) : 0;
                g_mem_budget = mb;
                R.count("fault:callback-called-back");
                bool ok = o.same(x.expect, o.failed == 0);
                if (!ok && o.failed && o.kind == Kind::OOM) ok = true;
                if (!ok || o.args_changed)
                    die_violation("nested-call-differs", (where + ", inside it " + x.call.line().str() + " gave " + o.str() + " instead of " + x.expect.str()).c_str());
            }
        }

        // ---- callbacks
        struct Pred
        {
            Ctl* c;
            std::u32string_view u;
            bool neg;
            u64 mine = 0;
            Pred(Ctl* c, std::u32string_view u, bool neg) : c(c), u(u), neg(neg) {}
            Pred(const Pred& o) : c(o.c), u(o.u), neg(o.neg), mine(o.mine) { c->copy(); }
            bool operator()(char32_t ch)
            {
                { HarnessScope h; c->seen += ch; c->counted(++mine); }
                c->tick();
                HarnessScope h;
                return (u.find(ch) != std::u32string_view::npos) != neg;
            }
        };
        struct TokFind
        {
            Ctl* c;
            std::string_view b;
            u64 mine = 0;
            TokFind(Ctl* c, std::string_view b) : c(c), b(b) {}
            TokFind(const TokFind& o) : c(o.c), b(o.b), mine(o.mine) { c->copy(); }
            ys::Subrange operator()(std::string_view s)
            {
                { HarnessScope h; c->counted(++mine); }
                c->tick();
                HarnessScope h;
                auto p = b.empty() ? std::string_view::npos : s.find(b);
                if (p == std::string_view::npos) return {s.size(), 0};
                return {p, b.size()};
            }
        };
        // iterator over words: T is what dereferencing gives
        template <class T>
        struct WordIt
        {
            using iterator_category = std::forward_iterator_tag;
            using value_type = std::decay_t<T>;
            using difference_type = ptrdiff_t;
            using pointer = const value_type*;
            using reference = T;
            Ctl* c = nullptr;
            const std::vector<std::string>* w = nullptr;
            size_t i = 0;
            T operator*() const
            {
                c->tick();
                return T((*w)[i]);
            }
            WordIt& operator++() { c->tick(); ++i; return *this; }
            WordIt operator++(int) { auto t = *this; c->tick(); ++i; return t; }
            bool operator==(const WordIt& o) const { c->tick(); return i == o.i; }
            bool operator!=(const WordIt& o) const { c->tick(); return i != o.i; }
        };
        struct ByteIt
        {
            using iterator_category = std::bidirectional_iterator_tag;
            using value_type = char;
            using difference_type = ptrdiff_t;
            using pointer = const char*;
            using reference = const char&;
            Ctl* c = nullptr;
            std::string_view s;
            size_t i = 0;
            const char& operator*() const
            {
                c->tick();
                if (i >= s.size()) { HarnessScope h; violate("read-outside", "the iterator was dereferenced at the end"); }
                return s[i];
            }
            ByteIt& operator++()
            {
                c->tick();
                if (i >= s.size()) { HarnessScope h; violate("moved-outside", "the iterator was moved beyond the end"); }
                ++i;
                return *this;
            }
            ByteIt& operator--()
            {
                c->tick();
                if (i == 0) { HarnessScope h; violate("moved-outside", "the iterator was moved in front of the text"); }
                --i;
                return *this;
            }
            ByteIt operator++(int) { auto t = *this; ++*this; return t; }
            ByteIt operator--(int) { auto t = *this; --*this; return t; }
            bool operator==(const ByteIt& o) const { c->tick(); return i == o.i; }
            bool operator!=(const ByteIt& o) const { c->tick(); return i != o.i; }
        };

        const char* const FNS[] = {"find_first_where", "find_last_where", "trim_where", "trim_start_where", "trim_end_where",
                                   "split_where", "walk", "join", "join_view", "join_ref", "decode_next", "decode_prev", "skip_next",
                                   "skip_prev", "safe_next", "safe_prev", "read_all", "read_all_back", "subrange"};

        // Runs the operation and renders its result.
        std::string perform(const Line& l, const Buf& text, Ctl& c)
        {
            auto fn = l.gw("fn");
            std::string_view a = text.view();
            auto u = l.gu("u");
            auto b = l.gx("b");
            bool neg = l.gn("neg");
            size_t o = size_t(l.gn("o"));
            if (fn != "find_last_where") o = std::min(o, a.size());
            Value v;
            v.base = a;
            auto& ctx = alloc_ctx();
            ctx.arm({});
            g_step_budget = g_steps + 4000000;
            g_mem_budget = 64u << 20;
            struct Reset { ~Reset() { g_step_budget = g_mem_budget = 0; alloc_ctx().disarm(); } } reset;
            scrub_stack();
            auto words = [&] {
                std::vector<std::string> w;
                size_t k = 1 + o % 5;
                for (size_t i = 0; i < a.size(); i += k) w.emplace_back(a.substr(i, k));
                return w;
            };
            Pred p(&c, u, neg);
            c.copies = 0;
#define LIB(expr) ([&]() -> decltype(auto) { LibScope s_; return (expr); }())
            if (fn == "find_first_where") v.r(LIB(ys::find_first_where(a, p, o)));
            else if (fn == "find_last_where") v.r(LIB(ys::find_last_where(a, p, o)));
            else if (fn == "trim_where") v.v(LIB(ys::trim_where(a, p)));
            else if (fn == "trim_start_where") v.v(LIB(ys::trim_start_where(a, p)));
            else if (fn == "trim_end_where") v.v(LIB(ys::trim_end_where(a, p)));
            else if (fn == "split_where")
            {
                TokFind f(&c, b);
                c.copies = 0;
                ys::SplitParams sp{size_t(l.gn("p", -1)), bool(l.gn("ign"))};
                v.views = LIB(ys::split_where(a, f, sp));
            }
            else if (fn == "walk")
            {
                TokFind f(&c, b);
                c.copies = 0;
                auto it = LIB((ys::TokenIterator<TokFind>(a, f)));
                while (LIB(it.next())) { v.v(it.part()); v.v(it.token()); }
            }
            else if (fn == "join" || fn == "join_view" || fn == "join_ref")
            {
                auto w = words();
                if (fn == "join") v.s(LIB(ys::join(WordIt<std::string>{&c, &w, 0}, WordIt<std::string>{&c, &w, w.size()}, b)));
                else if (fn == "join_view") v.s(LIB(ys::join(WordIt<std::string_view>{&c, &w, 0}, WordIt<std::string_view>{&c, &w, w.size()}, b)));
                else v.s(LIB(ys::join(WordIt<const std::string&>{&c, &w, 0}, WordIt<const std::string&>{&c, &w, w.size()}, b)));
            }
            else if (fn == "subrange")
            {
#ifdef SIM_NO_BIDI
                auto x = a.begin(), y = x + ptrdiff_t(o / 2), z = x + ptrdiff_t(o);
#else
                ByteIt x{&c, a, 0}, y{&c, a, o / 2}, z{&c, a, o};
#endif
                v.r(LIB(ys::Subrange(x, y, z)));
            }
            else
            {
#ifdef SIM_NO_BIDI
                auto first = a.begin(), last = a.end(), it = first + ptrdiff_t(o);
#else
                ByteIt first{&c, a, 0}, last{&c, a, a.size()}, it{&c, a, o};
#endif
                char32_t ch = 0;
                if (fn == "decode_next") v.n(LIB(ys::decode_next(it, last)));
                else if (fn == "decode_prev") v.n(LIB(ys::decode_prev(first, it)));
                else if (fn == "skip_next") v.n(LIB(ys::skip_next(it, last)));
                else if (fn == "skip_prev") v.n(LIB(ys::skip_prev(first, it)));
                else if (fn == "safe_next") { v.n(LIB(ys::safe_decode_next(it, last, ch))); v.n(ch); }
                else if (fn == "safe_prev") { v.n(LIB(ys::safe_decode_prev(first, it, ch))); v.n(ch); }
                else if (fn == "read_all") { it = first; while (LIB(ys::safe_decode_next(it, last, ch))) v.n(ch); }
                else { it = last; while (LIB(ys::safe_decode_prev(first, it, ch))) v.n(ch); }
#ifdef SIM_NO_BIDI
                v.n(i64(it - first));
#else
                v.n(i64(it.i));
#endif
            }
#undef LIB
            if (v.outside || !v.views_inside()) violate("result-outside", l.str() + " on " + show(a));
            return v.render();
        }

        // The nested call, with a callback of its own.
        std::string reenter(const Nested& x, bool deep, u64* count)
        {
            auto& ctx = alloc_ctx();
            auto saved = ctx;
            auto steps = g_steps, sb = g_step_budget, mb = g_mem_budget;
            ctx = AllocCtx();
            std::string value;
            {
                Buf text(x.texts[x.level]);
                std::vector<Nested> inner;
                if (deep && x.level + 1 < x.texts.size())
                {
                    inner.push_back(x);
                    ++inner[0].level;
                    inner[0].at = x.counts[x.level];
                }
                Ctl c;
                if (!inner.empty()) c.nested = &inner;
                c.where = x.op.str();
                c.text = &text;
                auto r = catching([&] { value = perform(x.op, text, c); });
                value = r.str() + " " + value + " " + show(enc(c.seen));
                if (count) *count = c.n;
            }
            ctx = saved;
            g_step_budget = sb ? sb + (g_steps - steps) : 0;
            g_mem_budget = mb;
            return value;
        }

        // The order in which the text must be offered to the predicate, and the result: code point
        // by code point from the searched end, up to the match or the first damaged place.
        struct Expect { std::u32string order; std::string value; bool error = false, checked = true; };
        std::vector<Expect> reference(const Line& l, std::string_view a)
        {
            auto fn = l.gw("fn");
            auto u = l.gu("u");
            bool neg = l.gn("neg");
            size_t o = size_t(l.gn("o"));
            auto pred = [&](char32_t c) { return (u.find(c) != std::u32string::npos) != neg; };
            enum { NONE, FOUND, BROKEN, UNSAID };
            auto first = [&](std::string_view s, bool want, std::u32string& log, size_t& pos, size_t& len, char32_t& c) {
                for (size_t i = 0; i < s.size(); i += len)
                {
                    len = seq_len(s, i, &c);
                    if (!len) return BROKEN;
                    if (c > 0x10FFFF) return UNSAID;
                    log += c;
                    if (pred(c) == want) { pos = i; return FOUND; }
                }
                return NONE;
            };
            auto last = [&](std::string_view s, bool want, std::u32string& log, size_t& pos, size_t& len, char32_t& c) {
                for (size_t e = s.size(); e > 0; e = pos)
                {
                    pos = e - 1;
                    while (pos > 0 && (u8(s[pos]) & 0xC0) == 0x80) --pos;
                    len = seq_len(s, pos, &c);
                    if (!len || pos + len != e) return BROKEN;
                    if (c > 0x10FFFF) return UNSAID;
                    log += c;
                    if (pred(c) == want) return FOUND;
                }
                return NONE;
            };
            Value v;
            v.base = a;
            Expect e;
            size_t pos = 0, len = 0;
            char32_t c = 0;
            if (fn == "find_first_where" || fn == "find_last_where")
            {
                o = std::min(o, a.size());
                bool fwd = fn == "find_first_where";
                auto r = fwd ? first(a.substr(o), true, e.order, pos, len, c) : last(a.substr(0, o), true, e.order, pos, len, c);
                if (r == UNSAID) return {};
                e.error = r == BROKEN;
                e.checked = r == FOUND;
                if (r == FOUND)
                {
                    v.r(ys::Subrange((fwd ? o : 0) + pos, len));
                    v.n(c);
                    e.value = v.render();
                }
                return {e};
            }
            if (fn == "trim_start_where" || fn == "trim_end_where" || fn == "trim_where")
            {
                bool front = fn != "trim_end_where", back = fn != "trim_start_where";
                std::vector<Expect> all;
                // nothing says which end trim_where starts at
                for (int order = 0; order < (front && back ? 2 : 1); ++order)
                {
                    Expect x;
                    auto s = a;
                    bool unsaid = false;
                    auto cut = [&](bool at_front) {
                        if (x.error || unsaid) return;
                        auto r = at_front ? first(s, false, x.order, pos, len, c) : last(s, false, x.order, pos, len, c);
                        unsaid = r == UNSAID;
                        x.error = r == BROKEN;
                        if (r == NONE) s = {};
                        else if (r == FOUND) s = at_front ? s.substr(pos) : s.substr(0, pos + len);
                    };
                    if (order == 0) { if (front) cut(true); if (back) cut(false); }
                    else { cut(false); cut(true); }
                    if (unsaid) return {};
                    Value w;
                    w.base = a;
                    if (!x.error) { w.v(s); x.value = w.render(); }
                    all.push_back(x);
                }
                return all;
            }
            return {};
        }
    }

    Scenario gen_c07(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C07", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        size_t n = 1 + r.below(4);
        for (size_t i = 0; i < n; ++i)
        {
            auto p = gen_profile(r);
            auto a = enc(gen_text(r, p));
            sc.lines.push_back(Line("text").x("a", a));
            if (r.chance(1, 4)) sc.lines.push_back(gen_damage(r, a.size()));
            size_t k = 1 + r.below(3);
            for (size_t j = 0; j < k; ++j)
            {
                Line l("op");
                auto fn = FNS[r.below(r.chance(1, 2) ? 7 : std::size(FNS))];
                l.w("fn", fn);
                std::u32string u;
                auto t = dec(a);
                size_t m = r.below(5);
                while (m--) u += !t.empty() && r.chance(3, 4) ? t[r.below(t.size())] : gen_cp(r, p);
                l.u("u", u).n("neg", r.chance(1, 3));
                l.x("b", gen_needle(r, p, a, true));
                size_t o = r.chance(1, 3) ? 0 : r.chance(1, 3) ? a.size() : r.below(a.size() + 1);
                if (r.chance(4, 5)) while (o > 0 && o < a.size() && (u8(a[o]) & 0xC0) == 0x80) --o;
                l.n("o", std::string_view(fn) == "find_last_where" && r.chance(1, 3) ? (r.chance(1, 2) ? -1 : i64(o + 1 + r.below(40))) : i64(o));
                static const i64 maxs[] = {1, 2, 3, -1, -1};
                l.n("p", maxs[r.below(5)]).n("ign", r.chance(1, 3));
                sc.lines.push_back(l);
                size_t f = r.below(4);
                while (f--)
                {
                    if (r.chance(1, 2))
                    {
                        Line x("throw");
                        x.n("at", i64(r.chance(1, 6) ? 0 : 1 + r.below(r.chance(1, 2) ? 4 : a.size() + 4)));
                        if (x.gn("at") == 0) x.n("copy", i64(1 + r.below(3)));
                        x.n("ex", i64(r.below(6)));
                        sc.lines.push_back(x);
                    }
                    else
                    {
                        if (r.chance(1, 3))
                        {
                            // the same kind of call again, on another text
                            auto x = l;
                            x.op = "reenter";
                            auto p2 = gen_profile(r);
                            if (p2.max_len > 20) p2.max_len = 20;
                            auto a2 = r.chance(1, 4) ? a : enc(gen_text(r, p2));
                            x.x("a", a2).n("at", r.chance(1, 3) ? 0 : i64(1 + r.below(r.chance(1, 2) ? 4 : a.size() + 4)));
                            if (r.chance(1, 3)) x.n("deep", i64(1 + r.below(r.chance(1, 6) ? 18 : 5)));
                            for (auto& [k, v] : x.kv)
                                if (k == "o" && (v[0] == '-' || size_t(atoll(v.c_str())) > a2.size())) v = std::to_string(a2.size());
                            sc.lines.push_back(x);
                            continue;
                        }
                        CallMode cm;
                        cm.exclude = INPLACE;
                        bool same = r.chance(1, 3);
                        if (same) cm.text = &a;
                        auto p2 = gen_profile(r);
                        if (p2.max_len > 40) p2.max_len = 40;
                        auto c = gen_call(r, p2, cm);
                        auto x = c.line("nest");
                        x.n("at", i64(1 + r.below(r.chance(1, 2) ? 4 : a.size() + 4)));
                        x.n("same", same);
                        if (r.chance(1, 4)) x.n("k", i64(1 + r.below(3)));
                        sc.lines.push_back(x);
                    }
                }
            }
        }
        return sc;
    }

    void exec_c07(const Scenario& sc)
    {
        struct Item { Line op; std::string text; std::vector<Line> throws; std::vector<Nested> nests; };
        std::vector<Item> items;
        Tagged t;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") set_garbage(u8(l.gn("v")));
            else if (l.op == "text") { t.bytes = l.gx("a"); t.tag.assign(t.bytes.size(), 0); }
            else if (l.op == "dmg") apply_damage(l, t);
            else if (l.op == "op") items.push_back({l, t.bytes, {}, {}});
            else if (items.empty()) continue;
            else if (l.op == "throw") items.back().throws.push_back(l);
            else if (l.op == "reenter")
            {
                Nested x;
                x.at = u64(l.gn("at"));
                x.op = l;
                x.op_text = l.gx("a");
                items.back().nests.push_back(x);
            }
            else if (l.op == "nest")
            {
                Nested x;
                x.at = u64(l.gn("at"));
                x.call = Call::from(l);
                x.same = l.gn("same") && strchr(ops()[x.call.op].args, 'a');
                if (x.same) x.call.a = items.back().text;
                x.plan = plan_from(l);
                items.back().nests.push_back(x);
            }
        }
        std::vector<Call> all;
        for (auto& i : items) for (auto& x : i.nests) if (x.op.op.empty()) all.push_back(x.call);
        std::vector<Outcome> base;
        if (!all.empty()) base = elsewhere(all);
        size_t bi = 0;
        for (auto& i : items) for (auto& x : i.nests)
        {
            if (x.op.op.empty()) x.expect = base.at(bi++);
            else
            {
                auto deep = std::min<i64>(x.op.gn("deep"), 20);
                x.texts.push_back(x.op_text);
                for (i64 k = 0; k < deep; ++k)
                {
                    // the next text begins a code point later, or is another one
                    auto s = x.texts.back();
                    size_t n = 1;
                    while (n < s.size() && (u8(s[n]) & 0xC0) == 0x80) ++n;
                    x.texts.push_back(s.size() > n ? s.substr(n) + s.substr(0, n) : x.op_text);
                }
                for (x.level = 0; x.level < x.texts.size(); ++x.level)
                {
                    u64 n = 0;
                    x.values.push_back(reenter(x, false, &n));
                    x.counts.push_back(n);
                }
                x.level = 0;
            }
        }

        u64 id = 100;
        for (auto& it : items)
        {
            Buf text(it.text);
            auto where = it.op.str() + " on " + show(it.text);
            auto once = [&](Ctl& c, std::string& value) {
                c.where = where;
                c.text = &text;
                value.clear();
                auto r = catching([&] { value = perform(it.op, text, c); });
                if (text.view() != it.text) violate("argument-changed", where);
                // trimming at both ends may give each end a callback of its own
                if (c.lost > (it.op.gw("fn") == "trim_where" ? 1u : 0u))
                    violate("callback-state-lost", where + ": the callback, which counts its invocations, had to start again");
                return r;
            };
            // without faults
            Ctl c0;
            std::string v0;
            auto r0 = once(c0, v0);
            R.log(where + " -> " + r0.str() + " " + v0);
            if (r0.what != Caught::NOTHING && r0.what != Caught::LIB) violate("wrong-exception", where + ": " + r0.str());
            if (auto es = reference(it.op, it.text); !es.empty())
            {
                bool error_ok = false, done_ok = false, order_ok = false, value_ok = false;
                for (auto& e : es)
                {
                    (e.error ? error_ok : done_ok) = true;
                    if (e.error != (r0.what == Caught::LIB) || e.order != c0.seen) continue;
                    order_ok = true;
                    value_ok = value_ok || e.error || !e.checked || e.value == v0;
                }
                if (r0.what == Caught::LIB && !error_ok) violate("error-on-intact-part", where + ": " + r0.str());
                if (r0.what != Caught::LIB && !done_ok) violate("damage-unnoticed", where + " gave " + v0);
                if (!order_ok) violate("predicate-order", where + ": the predicate was offered " + show(enc(c0.seen)) + " instead of " + show(enc(es[0].order)));
                if (!value_ok) violate("result-wrong", where + " gave " + v0 + " instead of " + es[0].value);
            }
            R.state(mix(hash_bytes(it.op.gw("fn")), mix(c0.n, u64(r0.what))));
            // 0: at the last invocation
            for (auto& x : it.nests) if (x.at == 0) x.at = c0.n;
            auto expect_full = [&](const char* when, Ctl& c, const Caught& r, const std::string& v) {
                if (r.what != r0.what || v != v0)
                    violate(std::string("result-differs-") + when, where + " gave " + r.str() + " " + v + " instead of " + r0.str() + " " + v0);
                if (c.seen != c0.seen) violate(std::string("predicate-order-") + when, where);
            };
            // calling back
            if (!it.nests.empty())
            {
                Ctl c;
                c.nested = &it.nests;
                std::string v;
                auto r = once(c, v);
                expect_full("when-calling-back", c, r, v);
            }
            // throwing
            for (auto& th : it.throws)
            {
                u64 at = u64(th.gn("at")), cp = u64(th.gn("copy"));
                i64 out[4];
                out[0] = lib_outstanding();
                bool reached = false;
                for (int round = 0; round < 3; ++round)
                {
                    Ctl c;
                    c.throw_at = at;
                    c.throw_copy = cp;
                    c.ex = int(th.gn("ex"));
                    c.id = ++id;
                    if (c.ex == 5) c.id %= 4;
                    if (round == 1) c.nested = &it.nests;
                    {
                        std::string v;
                        auto r = once(c, v);
                        reached = c.thrown;
                        auto w = where + " with " + th.str();
                        R.log(w + " -> " + r.str());
                        if (at && at <= c0.n && !c.thrown) violate("not-repeatable", w + ": the callback was invoked fewer times than before");
                        if (c.thrown)
                        {
                            if (r.what != Caught::MINE || r.ex != c.ex || r.id != c.id)
                                violate(r.what == Caught::NOTHING ? "exception-swallowed" : "exception-replaced", w + ": the caller got " + r.str());
                            if (c.after) violate("invoked-after-throw", w + ": " + std::to_string(c.after) + " more invocation(s)");
                            if (c.seen != c0.seen.substr(0, c.seen.size())) violate("predicate-order", w);
                            R.count("probe:throw-passed-on");
                        }
                        else expect_full("without-throw", c, r, v);
                    }
                    out[round + 1] = lib_outstanding();
                }
                if (out[1] > out[0] && out[2] > out[1] && out[3] > out[2])
                    violate("leak", where + " with " + th.str() + " keeps memory every time");
                Ctl c;
                std::string v;
                auto r = once(c, v);
                expect_full("after-throw", c, r, v);
                R.state(mix(hash_bytes(it.op.gw("fn")), mix(at + 1000 * cp, u64(reached))));
            }
        }
    }
}
