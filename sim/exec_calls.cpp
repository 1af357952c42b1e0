// Properties over the whole API: memory exhaustion (C01), damaged input (C09), repaired text
// (C12), independence of history (C13).
#include "api.hpp"
#include "delivery.hpp"
#include <cerrno>
#include <clocale>
#include <locale>
#include <optional>
#include <Ystring/Escape.hpp>

namespace ys = ystring;

namespace sim
{
    static void log_call(const char* tag, const Call& c, const Outcome& o)
    {
        R.log(std::string(tag) + " " + c.line().str() + " -> " + o.str(false));
    }
    static std::string describe(const Call& c) { return c.line().str(); }

    // ------------------------------------------------------------------ C01
    Scenario gen_c01(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C01", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        size_t n = 1 + r.below(8);
        const bool huge = r.chance(1, 50);
        if (huge) n = 1;
        for (size_t i = 0; i < n; ++i)
        {
            auto p = gen_profile(r);
            if (r.chance(3, 4) && p.max_len < 40) p.max_len = 40;
            CallMode m;
            m.damaged = r.chance(1, 4);
            m.huge = huge;
            int op = -1;
            if (r.chance(1, 2)) // operations that always allocate
                do op = int(r.below(ops().size())); while (!(ops()[op].flags & PRODUCES_TEXT));
            auto c = gen_call(r, p, m, op);
            if (std::string_view(ops()[c.op].name) == "token_walk") c.rep = 0; // its results would be huge
            sc.lines.push_back(c.line());
            if (r.chance(2, 3))
                sc.lines.push_back(Line("sweep").n("n", i64(2 + r.below(24))));
            size_t k = r.below(4);
            for (size_t j = 0; j < k; ++j)
                sc.lines.push_back(gen_fault(r));
            if (r.chance(1, 2))
            {
                auto p2 = gen_profile(r);
                m.huge = false;
                sc.lines.push_back(gen_call(r, p2, m).line("probe"));
            }
        }
        return sc;
    }

    static void leak_check(const char* what, const std::string& detail, const std::function<void()>& again, i64 before)
    {
        auto now = lib_outstanding();
        if (now <= before) return;
        // Something kept is not a leak (it may be a cache); something more each time is.
        auto first = now - before;
        i64 prev = now;
        for (int i = 0; i < 4; ++i)
        {
            again();
            auto cur = lib_outstanding();
            if (cur <= prev) return;
            prev = cur;
        }
        violate("leak", std::string(what) + " keeps memory every time (" + std::to_string(first) + " block(s) the first time): " + detail);
    }

    void exec_c01(const Scenario& sc)
    {
        struct Item { Call c; std::vector<AllocPlan> plans; i64 sweep = 0; std::optional<Call> probe; };
        std::vector<Item> items;
        std::vector<Call> all;
        unsigned char g = 0xA5;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") g = u8(l.gn("v"));
            else if (l.op == "call") items.push_back({Call::from(l), {}, 0, {}});
            else if (items.empty()) continue;
            else if (l.op == "fault") items.back().plans.push_back(plan_from(l));
            else if (l.op == "sweep") items.back().sweep = l.gn("n");
            else if (l.op == "probe") items.back().probe = Call::from(l);
        }
        for (auto& i : items)
        {
            all.push_back(i.c);
            if (i.probe) all.push_back(*i.probe);
        }
        auto base = elsewhere(all);
        set_garbage(g);
        size_t bi = 0;
        for (auto& it : items)
        {
            auto b0 = base.at(bi++);
            std::optional<Outcome> pb;
            if (it.probe) pb = base.at(bi++);
            R.log("baseline " + b0.str(false) + " allocs=" + std::to_string(b0.allocs));
            if (b0.kind == Kind::OTHER || b0.kind == Kind::OOM) continue; // C09's business
            auto plans = it.plans;
            for (u64 k = 1; k <= std::min<u64>(b0.allocs, u64(it.sweep)); ++k)
                plans.push_back(AllocPlan{{u32(k)}, 0, 0});
            for (auto& plan : plans)
            {
                auto before = lib_outstanding();
                auto o = run_call(it.c, &plan);
                log_call("attempt", it.c, o);
                auto where = describe(it.c) + " with " + std::to_string(o.failed) + " failed allocation(s)";
                if (o.args_changed) violate("argument-changed", where);
                if (o.kind == Kind::OTHER) violate("wrong-exception", where + ": " + o.what);
                if (o.kind == Kind::OOM && !o.failed) violate("spurious-out-of-memory", where);
                if (o.kind == Kind::OK && !(b0.kind == Kind::OK && b0.value == o.value))
                    violate("wrong-result", where + " returned " + o.str() + " instead of " + b0.str());
                if (o.kind == Kind::YEX && b0.kind != Kind::YEX)
                    violate("wrong-error", where + " reported " + o.str() + " instead of " + b0.str());
                leak_check("the failed call", where, [&] { run_call(it.c, &plan); }, before);
                if (o.failed)
                {
                    R.count("probe:failed-calls");
                    R.state(hash_bytes(ops()[it.c.op].name, mix(o.allocs - o.failed, mix(u64(o.kind), b0.allocs))));
                }
                if (it.probe)
                {
                    auto q = run_call(*it.probe);
                    log_call("probe", *it.probe, q);
                    if (!q.same(*pb, false))
                        violate("later-call-affected", describe(*it.probe) + " after a failed " + where + " returned " + q.str() + " instead of " + pb->str());
                }
                auto q = run_call(it.c);
                log_call("retry", it.c, q);
                if (!q.same(b0, false))
                    violate("retry-differs", where + ", then again with memory available: " + q.str() + " instead of " + b0.str());
                if (q.args_changed) violate("argument-changed", where);
            }
        }
    }

    // ------------------------------------------------------------------ C09
    Scenario gen_c09(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C09", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        if (r.chance(1, 12))
        {
            auto p = gen_profile(r);
            CallMode m;
            m.huge = true;
            m.damaged = r.chance(1, 2);
            sc.lines.push_back(gen_call(r, p, m).line());
            return sc;
        }
        size_t n = 1 + r.below(40);
        auto p = gen_profile(r);
        for (size_t i = 0; i < n; ++i)
        {
            if (r.chance(1, 4)) p = gen_profile(r);
            CallMode m;
            sc.lines.push_back(gen_call(r, p, m).line());
        }
        return sc;
    }

    void exec_c09(const Scenario& sc)
    {
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") { set_garbage(u8(l.gn("v"))); continue; }
            if (l.op != "call") continue;
            auto c = Call::from(l);
            R.log("> " + l.str());
            auto o = run_call(c);
            R.log("< " + o.str(false));
            if (o.kind == Kind::OTHER || o.kind == Kind::OOM) violate("wrong-exception", describe(c) + " ended with " + o.str());
            if (o.outside) violate("outside-text", describe(c) + " returned something outside the text: " + o.str());
            if (o.args_changed) violate("argument-changed", describe(c));
            R.count(o.kind == Kind::OK ? "probe:accepted" : "probe:rejected");
            R.state(mix(hash_bytes(ops()[c.op].name), mix(o.steps, u64(o.kind))));
        }
    }

    // ------------------------------------------------------------------ C12
    Scenario gen_c12(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C12", seed, {}};
        auto p = gen_profile(r);
        auto a = enc(gen_text(r, p));
        auto reps = gen_rep(r, a.size());
        sc.lines.push_back(Line("text").x("a", a).n("rep", reps));
        size_t size = a.size() * size_t(reps);
        size_t k = r.below(6);
        while (k--) sc.lines.push_back(gen_damage(r, size));
        if (r.chance(1, 4))
        {
            std::string junk;
            size_t n = 1 + r.below(6);
            while (n--) junk += char(r.chance(1, 2) ? 0xC0 + r.below(0x40) : 0x80 + r.below(0x80));
            sc.lines.push_back(Line("splice").n("pos", i64(r.below(size + 1))).x("b", junk));
        }
        char32_t ch = r.chance(1, 2) ? 0xFFFD : gen_cp(r, p);
        Line rep("repair");
        rep.w("how", r.chance(1, 2) ? "copy" : "inplace").n("ch", ch);
        if (r.chance(1, 5)) rep.n("k", i64(1 + r.below(3)));
        sc.lines.push_back(rep);
        size_t n = 2 + r.below(size > 20000 ? 8 : 30);
        for (size_t i = 0; i < n; ++i)
        {
            size_t op;
            do op = r.below(ops().size()); while (ops()[op].flags & (ESCAPES | INPLACE));
            sc.lines.push_back(Line("use").w("op", ops()[op].name).n("s", i64(r.next() >> 1)).n("chain", r.chance(1, 6)));
        }
        return sc;
    }

    void exec_c12(const Scenario& sc)
    {
        Tagged t;
        std::string text;
        bool ready = false;
        Call val;
        val.op = op_index("is_valid_utf8");
        auto valid = [&](const std::string& s) {
            val.a = s;
            auto o = run_call(val);
            return o.kind == Kind::OK && o.value != "0 ";
        };
        for (auto& l : sc.lines)
        {
            if (l.op == "text") { t.bytes = repeated(l, "a"); t.tag.assign(t.bytes.size(), 0); }
            else if (l.op == "dmg") apply_damage(l, t);
            else if (l.op == "splice")
            {
                auto b = l.gx("b");
                auto pos = std::min<size_t>(size_t(l.gn("pos")), t.bytes.size());
                t.bytes.insert(pos, b);
                t.tag.insert(t.tag.begin() + ptrdiff_t(pos), b.size(), -1);
                R.count("fault:damage-splice");
            }
            else if (l.op == "repair")
            {
                Call c;
                c.op = op_index(l.gw("how") == "copy" ? "replace_invalid_utf8" : "replace_invalid_utf8_inplace");
                c.a = t.bytes;
                c.c = char32_t(l.gn("ch", 0xFFFD));
                bool was_valid = valid(t.bytes);
                R.log(std::string("arrived ") + show(t.bytes) + (was_valid ? " valid" : " invalid"));
                Held h;
                if (l.has("k"))
                {
                    auto plan = plan_from(l);
                    auto o = run_call(c, &plan);
                    R.log("repair attempt " + o.str(false));
                }
                auto o = run_call(c, nullptr, &h);
                if (o.kind != Kind::OK || h.value.strs.size() != 1)
                    violate("repair-failed", describe(c) + ": " + o.str());
                text = h.value.strs[0];
                if (!valid(text)) violate("repair-not-valid", describe(c) + " gave " + show(text));
                if (was_valid) R.count("probe:valid-on-arrival");
                else R.count("probe:repaired");
                ready = true;
            }
            else if (l.op == "use")
            {
                if (!ready)
                {
                    if (!valid(t.bytes)) continue;
                    text = t.bytes;
                    ready = true;
                }
                // (reading a linked list counts what is left at every step; a walk shows all that is left each time)
                if (text.size() > 5000 && (l.gw("op") == "decode_all_list" || l.gw("op") == "token_walk")) continue;
                Rng r(u64(l.gn("s")));
                auto p = gen_profile(r);
                CallMode m;
                m.damaged = false;
                m.aligned = m.valid_cps = true;
                m.text = &text;
                auto c = gen_call(r, p, m, op_index(l.gw("op")));
                if (text.size() > 5000)
                    for (auto x : {&c.b, &c.d})
                    {
                        // searching takes the product of the sizes
                        size_t n = std::min<size_t>(x->size(), 40);
                        while (n && n < x->size() && (u8((*x)[n]) & 0xC0) == 0x80) --n;
                        x->resize(n);
                    }
                Held h;
                auto o = run_call(c, nullptr, &h);
                log_call("use", c, o);
                if (o.kind != Kind::OK)
                    violate("valid-text-rejected", describe(c) + " on valid text: " + o.str());
                R.state(hash_bytes(o.value, hash_bytes(ops()[c.op].name)));
                if (c.op == op_index("join") || c.op == op_index("join_strings")) continue; // made of pieces of characters
                std::vector<std::string> out;
                for (auto& v : h.value.views) out.emplace_back(v);
                if (ops()[c.op].flags & PRODUCES_TEXT) for (auto& s : h.value.strs) out.push_back(s);
                for (auto& u : h.value.u32s)
                {
                    Call back;
                    back.op = op_index("from_utf32");
                    back.u = u;
                    Held hb;
                    auto ob = run_call(back, nullptr, &hb);
                    if (ob.kind != Kind::OK) violate("valid-text-rejected", describe(back) + ": " + ob.str());
                    out.push_back(hb.value.strs.at(0));
                    // code points go there and back unchanged
                    Call again;
                    again.op = op_index("to_utf32");
                    again.a = out.back();
                    Held ha;
                    auto oa = run_call(again, nullptr, &ha);
                    if (oa.kind != Kind::OK) violate("valid-text-rejected", describe(again) + ": " + oa.str());
                    if (ha.value.u32s.at(0) != u) violate("utf32-not-restored", describe(back));
                }
                for (auto& s : out)
                    if (!structurally_valid(s) || !valid(s))
                        violate("invalid-text-produced", describe(c) + " made " + show(s) + " from valid text");
                if (l.gn("chain") && !out.empty())
                {
                    text = out[r.below(out.size())];
                    auto most = std::max<size_t>(400, t.bytes.size());
                    if (text.size() > most)
                    {
                        size_t n = most;
                        while (n && (u8(text[n]) & 0xC0) == 0x80) --n;
                        text.resize(n);
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ C13
    Scenario gen_c13(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C13", seed, {}};
        auto p = gen_profile(r);
        size_t n = 2 + r.below(24);
        sc.lines.push_back(Line("env").n("g1", i64(r.below(256))).n("g2", i64(r.below(256))).n("pool", r.chance(1, 2)).n("perm", i64(r.next() >> 2)));
        std::vector<Call> calls;
        CallMode m;
        m.damaged = r.chance(1, 2);
        // a run concentrates on a few operations, so that they meet again with other arguments
        std::vector<int> few;
        size_t nf = 1 + r.below(5);
        for (size_t i = 0; i < nf; ++i) few.push_back(int(r.below(ops().size())));
        for (size_t i = 0; i < n; ++i)
        {
            Call c;
            auto mm = m;
            std::string text;
            int op = r.chance(4, 5) ? few[r.below(few.size())] : -1;
            if (!calls.empty() && r.chance(2, 3))
            {
                auto& o = calls[r.below(calls.size())];
                text = o.a;
                switch (r.below(7))
                {
                case 5: case 6:
                    if (!text.empty())
                    {
                        // one code point becomes one that resembles it
                        size_t k = r.below(text.size());
                        while (k && (u8(text[k]) & 0xC0) == 0x80) --k;
                        char32_t x;
                        if (auto len = seq_len(text, k, &x); len && x <= 0x10FFFF)
                            text = text.substr(0, k) + enc(alias(r, x)) + text.substr(k + len);
                    }
                    break;
                case 0: if (!text.empty()) { auto& b = text[r.below(text.size())]; if (u8(b) < 0x80) b = char(u8(b) ^ (1 + r.below(31))); } break;
                case 1: text += enc(gen_cp(r, p)); break;
                case 2: text = enc(gen_cp(r, p)) + text; break;
                case 3: std::reverse(text.begin(), text.end()); break;
                default: break;
                }
                mm.text = &text;
                c = gen_call(r, p, mm, op);
                if (r.chance(1, 5))
                {
                    // another function, often a similar one, with the same arguments
                    int sib = r.chance(1, 3) ? int(r.below(ops().size())) : o.op + int(r.range(-3, 3));
                    if (sib >= 0 && sib < int(ops().size()))
                    {
                        mm.text = &o.a;
                        auto k = gen_call(r, p, mm, sib);
                        auto common = [&](char x) { return strchr(ops()[sib].args, x) && strchr(ops()[o.op].args, x); };
                        if (common('b')) k.b = o.b;
                        if (common('d')) k.d = o.d;
                        if (common('u')) k.u = o.u;
                        if (common('c')) k.c = o.c;
                        if (common('e')) k.e = o.e;
                        if (common('n')) k.n = o.n;
                        if (common('m')) k.m = o.m;
                        if (common('o')) k.o = o.o;
                        c = k;
                    }
                }
                else if (r.chance(1, 3))
                {
                    // the same call but for one argument
                    Call k = o;
                    auto& args = ops()[o.op].args;
                    std::string which = "a";
                    for (auto x : {'n', 'c', 'u', 'b', 'o', 'e', 'd', 'm', 'S', 'p'}) if (strchr(args, x)) which += x;
                    if (strchr(args, 'r')) which += 'n';
                    if (strchr(args, 'O')) which += 'o';
                    if (strchr(args, 'S')) which += "Su";
                    switch (which[r.below(which.size())])
                    {
                    case 'a': k.a = text; break;
                    case 'n': k.n = c.n; break;
                    case 'c': k.c = r.chance(1, 2) ? c.c : alias(r, k.c); break;
                    case 'u': if (!k.u.empty() && r.chance(1, 2)) { auto& x = k.u[r.below(k.u.size())]; x = alias(r, x); } else k.u = c.u; break;
                    case 'b': k.b = c.b; break;
                    case 'o': k.o = c.o; break;
                    case 'e': k.e = c.e; break;
                    case 'd': k.d = c.d; break;
                    case 'm': k.m = c.m; break;
                    case 'S': k.neg = !k.neg; break;
                    default: if (r.chance(1, 2)) k.ign = !k.ign; else k.p = c.p; break;
                    }
                    c = k;
                }
            }
            else
                c = gen_call(r, p, mm, op);
            calls.push_back(c);
            sc.lines.push_back(c.line());
            size_t e = r.below(3);
            while (e--)
                switch (r.below(8))
                {
                case 0: case 1: sc.lines.push_back(gen_fault(r)); break;
                case 2: sc.lines.push_back(Line("again").n("i", i64(r.below(calls.size()))).n("n", i64(r.chance(1, 12) ? (r.chance(1, 10) ? (r.chance(1, 12) ? 66000 : 1100) : 270) : 1 + r.below(3)))); break;
                case 3: sc.lines.push_back(Line("locale").w("name", r.chance(1, 2) ? "grouped" : "classic")); break;
                case 4: sc.lines.push_back(Line("clocale").w("name", r.chance(1, 2) ? "C.utf8" : "C")); break;
                case 5: sc.lines.push_back(Line("errno").n("v", r.chance(1, 2) ? ERANGE : EILSEQ)); break;
                case 6: sc.lines.push_back(Line("abandon").n("i", i64(r.below(calls.size()))).n("k", i64(1 + r.below(4)))); break;
                case 7:
                    if (r.chance(1, 3))
                    {
                        // many calls like an earlier one, each with another code point
                        static const i64 counts[] = {20, 20, 70, 70, 300, 300, 1100, 4200};
                        auto k = counts[r.below(r.chance(1, 4) ? 8 : 6)];
                        sc.lines.push_back(Line("sweep").n("i", i64(r.below(calls.size()))).n("n", k).n("from", gen_cp(r, p)).n("step", r.chance(1, 2) ? 1 : i64(1 + r.below(300))));
                        break;
                    }
                    [[fallthrough]];
                default: sc.lines.push_back(Line("again").n("i", i64(r.below(calls.size()))).n("n", 1)); break;
                }
        }
        return sc;
    }

    namespace
    {
        struct Punct : std::numpunct<char>
        {
            std::string do_grouping() const override { return "\1"; }
            char do_thousands_sep() const override { return '\''; }
            char do_decimal_point() const override { return ','; }
            std::string do_truename() const override { return "ja"; }
        };
        struct Ctype : std::ctype<char>
        {
            Ctype() : std::ctype<char>(make()) {}
            static const mask* make()
            {
                static mask t[table_size];
                for (size_t i = 0; i < table_size; ++i) t[i] = classic_table()[(i * 7 + 3) % table_size];
                return t;
            }
            char do_toupper(char c) const override { return char(c ^ 1); }
            char do_tolower(char c) const override { return char(c ^ 2); }
        };
        void set_locale(const std::string& name)
        {
            if (name == "grouped")
                std::locale::global(std::locale(std::locale(std::locale::classic(), new Punct), new Ctype));
            else
                std::locale::global(std::locale::classic());
            R.count("fault:locale-changed");
        }

        struct Abandon { int x; };

        struct Hist { const Scenario* sc; bool b; };

        // History A: the calls in order with everything else that happens; history B: only the
        // calls, each once, in another order and with other garbage in uninitialised memory.
        std::string history(void* arg)
        {
            auto& h = *static_cast<Hist*>(arg);
            std::vector<Call> calls;
            std::vector<Outcome> out;
            std::vector<std::unique_ptr<Held>> held;
            const Line* env = nullptr;
            for (auto& l : h.sc->lines) if (l.op == "env") env = &l;
            bool pool = env && env->gn("pool");
            set_garbage(u8(env ? env->gn(h.b ? "g2" : "g1") : 0));
            g_pool = pool;
            if (h.b)
            {
                for (auto& l : h.sc->lines) if (l.op == "call") calls.push_back(Call::from(l));
                out.resize(calls.size());
                std::vector<size_t> order(calls.size());
                for (size_t i = 0; i < order.size(); ++i) order[i] = i;
                u64 perm = env ? u64(env->gn("perm")) : 1;
                Rng r(perm);
                if (perm % 3 == 0) std::reverse(order.begin(), order.end());
                else for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
                for (auto i : order) out[i] = run_call(calls[i]);
                return pack(out);
            }
            auto check = [&](size_t i, const Outcome& o, const char* why) {
                if (!o.same(out[i], true))
                    violate("answer-changed", describe(calls[i]) + " returned first " + out[i].str() + " and " + why + " " + o.str());
            };
            for (auto& l : h.sc->lines)
            {
                if (l.op == "call")
                {
                    calls.push_back(Call::from(l));
                    auto hd = std::make_unique<Held>();
                    out.push_back(run_call(calls.back(), nullptr, hd.get()));
                    if (!pool) held.push_back(std::move(hd));
                }
                else if (l.op == "fault" && !calls.empty())
                {
                    auto plan = plan_from(l);
                    run_call(calls.back(), &plan);
                    check(calls.size() - 1, run_call(calls.back()), "after a failed attempt");
                }
                else if (l.op == "again")
                {
                    auto i = size_t(l.gn("i"));
                    if (i >= calls.size()) continue;
                    for (i64 k = l.gn("n"); k > 0; --k) check(i, run_call(calls[i]), "later");
                }
                else if (l.op == "sweep")
                {
                    auto i = size_t(l.gn("i"));
                    if (i >= calls.size()) continue;
                    auto c = calls[i];
                    bool cp = std::string_view(ops()[c.op].args).find('c') != std::string_view::npos;
                    i64 n = std::min<i64>(l.gn("n"), 100000);
                    if (c.a.size() > 40) n = std::min<i64>(n, 300);
                    char32_t x = char32_t(l.gn("from")), y = x;
                    for (; n > 0; --n)
                    {
                        x = (x + char32_t(l.gn("step"))) % 0x110000;
                        if (x >= 0xD800 && x < 0xE000) x = 0xE000;
                        if (cp) c.c = x;
                        else if (n % 2 || calls[i].u.empty()) c.a = n % 3 ? calls[i].a + enc(x) : enc(x) + enc(y);
                        else c.u[size_t(n) % c.u.size()] = x;
                        run_call(c);
                        y = x;
                    }
                    R.count("fault:swept-arguments");
                    for (size_t j = 0; j < calls.size(); ++j) check(j, run_call(calls[j]), "after many other calls");
                }
                else if (l.op == "locale") set_locale(l.gw("name"));
                else if (l.op == "clocale") { setlocale(LC_ALL, l.gw("name").c_str()); R.count("fault:c-locale-changed"); }
                else if (l.op == "errno") { errno = int(l.gn("v")); R.count("fault:errno-set"); }
                else if (l.op == "abandon")
                {
                    auto i = size_t(l.gn("i"));
                    if (i >= calls.size()) continue;
                    i64 k = l.gn("k");
                    auto pred = [&](char32_t) -> bool { if (--k == 0) throw Abandon{1}; return false; };
                    auto& a = calls[i].a;
                    for (int j = 0; j < 3; ++j)
                    {
                        k = l.gn("k");
                        LibScope s;
                        try
                        {
                            if (j == 0) (void)ys::find_first_where(std::string_view(a), pred);
                            else if (j == 1) (void)ys::find_last_where(std::string_view(a), pred);
                            else (void)ys::split_where(std::string_view(a), [&](std::string_view v) -> ys::Subrange {
                                if (--k == 0) throw Abandon{2};
                                return v.empty() ? ys::Subrange(0, 0) : ys::Subrange(0, 1); });
                        }
                        catch (const Abandon&) { R.count("fault:abandoned-by-exception"); }
                        catch (const ys::YstringException&) {}
                    }
                }
            }
            for (size_t i = 0; i < held.size(); ++i)
            {
                if (out[i].kind != Kind::OK) continue;
                auto now = held[i]->value.render();
                if (now != out[i].value)
                    violate("old-result-changed", describe(calls[i]) + " had returned " + out[i].value + ", which later became " + now);
            }
            return pack(out);
        }
    }

    void exec_c13(const Scenario& sc)
    {
        Hist a{&sc, false}, b{&sc, true};
        auto oa = unpack(in_child(history, &a));
        auto ob = unpack(in_child(history, &b));
        if (oa.size() != ob.size()) harness_error("histories differ in length");
        size_t i = 0;
        for (auto& l : sc.lines)
        {
            if (l.op == "env") continue;
            if (l.op != "call") { R.count("probe:" + l.op); continue; }
            auto c = Call::from(l);
            R.log(l.str() + " -> " + oa[i].str());
            if (!oa[i].same(ob[i], true))
                violate("history-dependent", describe(c) + " returned " + oa[i].str() + " in one history and " + ob[i].str() + " in another");
            R.state(hash_bytes(oa[i].value, hash_bytes(ops()[c.op].name)));
            ++i;
        }
        R.count("probe:histories", 2);
    }
}
