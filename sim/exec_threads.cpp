// Concurrent callers (C08).
#include "api.hpp"
#include "threads.hpp"
#include <algorithm>
#include <iomanip>
#include <locale>
#include <sstream>

namespace ys = ystring;

namespace sim
{
    Scenario gen_c08(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C08", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        auto p = gen_profile(r);
        if (p.max_len > 60) p.max_len = r.chance(1, 4) ? 120 : 40;
        int threads = r.chance(3, 5) ? 2 : r.chance(3, 5) ? 3 : 4;

        // shared data
        CallMode any;
        bool share_text = r.chance(1, 2), share_set = r.chance(2, 3);
        Call proto = gen_call(r, p, any, op_index("find_first_of_set"));
        std::string text = proto.a;
        if (share_text || share_set)
            sc.lines.push_back(Line("shared").x("a", text).u("u", proto.u).n("neg", proto.neg));

        std::vector<int> pool;
        size_t np = r.chance(1, 2) ? 1 + r.below(2) : 3 + r.below(4);
        bool all = r.chance(1, 5);
        while (pool.size() < np)
        {
            int o = int(r.below(ops().size()));
            // a shared set is what callers share most
            if (share_set && r.chance(1, 4)) o = op_index(r.chance(1, 2) ? "find_first_of_set" : r.chance(1, 2) ? "ci_find_first_of_set" : "set_contains");
            pool.push_back(o);
        }
        switch (r.below(3))
        {
        case 0: { static const i64 k[] = {2, 5, 20, 100, 400}; sc.lines.push_back(Line("sched").w("kind", "random").n("seed", i64(r.next() >> 1)).n("k", k[r.below(5)])); break; }
        case 1: sc.lines.push_back(Line("sched").w("kind", "pct").n("seed", i64(r.next() >> 1)).n("k", i64(1 + r.below(6)))); break;
        default: { static const i64 k[] = {50, 300, 2000}; sc.lines.push_back(Line("sched").w("kind", "hot").n("seed", i64(r.next() >> 1)).n("k", k[r.below(3)])); break; }
        }
        u64 pf = r.below(3), same = r.below(4), pcb = r.below(3);
        std::vector<Call> first;
        for (int t = 0; t < threads; ++t)
        {
            size_t n = 1 + r.below(3);
            for (size_t i = 0; i < n; ++i)
            {
                int o = all ? int(r.below(ops().size())) : pool[r.below(pool.size())];
                bool inplace = ops()[size_t(o)].flags & INPLACE;
                bool sh = share_text && !inplace && strchr(ops()[size_t(o)].args, 'a') && r.chance(2, 3);
                CallMode m;
                if (sh) m.text = &text;
                Call c = gen_call(r, p, m, o);
                if (t == 0) first.push_back(c);
                else if (same == 0 && i < first.size())
                {
                    c = first[i];
                    inplace = ops()[size_t(c.op)].flags & INPLACE;
                    sh = share_text && c.a == text && !inplace && strchr(ops()[size_t(c.op)].args, 'a');
                }
                auto args = ops()[size_t(c.op)].args;
                bool shs = share_set && strchr(args, 'S') && !strchr(args, 'u') && r.chance(3, 4);
                if (shs) { c.u = proto.u; c.neg = proto.neg; }
                auto l = c.line();
                l.n("t", t);
                if (sh) l.n("sh", 1);
                if (shs) l.n("shs", 1);
                if (r.below(6) < pf)
                {
                    auto f = gen_fault(r);
                    for (auto& kv : f.kv) l.kv.emplace_back("f" + kv.first, kv.second);
                }
                if (has_callback(c) && r.below(5) < pcb) l.n("cb", i64(1 + r.below(6)));
                sc.lines.push_back(l);
            }
        }
        return sc;
    }

    namespace
    {
        struct Item
        {
            Call c;
            AllocPlan plan;
            bool sh = false, shs = false;
            i64 cb = 0;
        };
        struct World
        {
            Buf text;
            ys::CodepointSet set;
        };

        Outcome run_item(const Item& it, const World& w, bool faults)
        {
            g_callback_throw = it.cb;
            return run_call(it.c, faults ? &it.plan : nullptr, nullptr, it.shs ? &w.set : nullptr, it.sh ? &w.text : nullptr);
        }
        struct Solo { const std::vector<Item>* items; const World* w; };
    }

    void exec_c08(const Scenario& sc)
    {
        World w;
        std::vector<Item> items[MAX_THREADS];
        Schedule s;
        int threads = 0;
        std::string shared_text;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") set_garbage(u8(l.gn("v")));
            else if (l.op == "shared")
            {
                shared_text = l.gx("a");
                w.text = Buf(shared_text);
                auto u = l.gu("u");
                for (size_t i = 0; i < u.size(); i += 2)
                {
                    auto x = u[i], y = i + 1 < u.size() ? u[i + 1] : x;
                    w.set.ranges.emplace_back(std::min(x, y), std::max(x, y));
                }
                w.set.negated = l.gn("neg");
            }
            else if (l.op == "sched")
            {
                auto k = l.gw("kind");
                s.kind = k == "random" ? Schedule::RANDOM : k == "pct" ? Schedule::PCT : k == "hot" ? Schedule::HOT : Schedule::EXPLICIT;
                s.seed = u64(l.gn("seed"));
                s.k = u64(std::max<i64>(1, l.gn("k")));
            }
            else if (l.op == "pre")
                s.pre[u64(l.gn("step"))] = int(l.gn("to"));
            else if (l.op == "call")
            {
                Item it;
                it.c = Call::from(l);
                int t = int(l.gn("t"));
                if (t < 0 || t >= MAX_THREADS) harness_error("no such thread");
                Line f("fault");
                for (auto& [k, v] : l.kv)
                    if (k.size() > 1 && k[0] == 'f') f.kv.emplace_back(k.substr(1), v);
                it.plan = plan_from(f);
                it.sh = l.gn("sh") && it.c.text() == shared_text && w.text.size() == shared_text.size();
                it.shs = l.gn("shs");
                it.cb = l.gn("cb");
                items[t].push_back(it);
                threads = std::max(threads, t + 1);
            }
        }
        {
            // the C++ runtime's own lazy set-up is not part of the system under test
            std::ostringstream os;
            os.imbue(std::locale::classic());
            os << 1u << ' ' << std::setw(3) << u64(77) << 1.5;
        }
        auto set_before = w.set;
        ops();

        // each caller alone
        std::vector<Outcome> expected[MAX_THREADS];
        s.length = 1;
        for (int t = 0; t < threads; ++t)
        {
            Solo solo{&items[t], &w};
            auto f = [](void* p) {
                auto& s = *static_cast<Solo*>(p);
                std::vector<Outcome> v;
                for (auto& it : *s.items) v.push_back(run_item(it, *s.w, false));
                return pack(v);
            };
            expected[t] = unpack(in_child(f, &solo));
            for (auto& o : expected[t]) s.length += o.steps;
        }
        g_shared->nested_size = 0;

        // all together
        std::vector<Outcome> got[MAX_THREADS];
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < threads; ++t)
            bodies.push_back([&, t] {
                for (auto& it : items[t])
                {
                    set_activity(ops()[size_t(it.c.op)].name);
                    yield_point();
                    auto o = run_item(it, w, true);
                    auto& e = expected[t][got[t].size()];
                    R.log("t" + std::to_string(t) + " " + ops()[size_t(it.c.op)].name + " -> " + o.str());
                    bool oom = o.kind == Kind::OOM && o.failed;
                    if (o.kind == Kind::OOM && !o.failed)
                        violate("spurious-out-of-memory", std::string(ops()[size_t(it.c.op)].name) + " reports that memory ran out although no allocation of its thread failed");
                    if (!oom && !o.same(e, true))
                        violate("different-result", std::string(ops()[size_t(it.c.op)].name) + " in thread " + std::to_string(t)
                                + " returns " + o.str() + ", alone it returns " + e.str());
                    if (o.args_changed)
                        violate("argument-changed", std::string(ops()[size_t(it.c.op)].name) + " in thread " + std::to_string(t) + " changed what it was given to read");
                    R.state(mix(hash_bytes(o.str()), u64(it.c.op) * 8 + u64(o.kind)));
                    got[t].push_back(std::move(o));
                }
            });
        if (bodies.empty()) return;
        run_threads(s, bodies);
        if (w.text.view() != shared_text) violate("argument-changed", "the text shared by all threads has changed");
        if (w.set.ranges != set_before.ranges || w.set.negated != set_before.negated)
            violate("argument-changed", "the code point set shared by all threads has changed");
        g_steps += thread_points();
        R.count("fault:preemption", thread_switches());
        R.count("probe:preempted-at-conflicting-access", shared_conflicts());
        R.count("probe:threads", u64(threads));
        R.distinct.clear();
        R.state(schedule_hash());
        char b[64];
        snprintf(b, sizeof b, "points %llu schedule %llx", (unsigned long long)thread_points(), (unsigned long long)schedule_hash());
        R.log(b);
    }
}
