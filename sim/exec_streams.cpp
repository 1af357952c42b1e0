// Writing to output devices that fail (C10).
#include "api.hpp"
#include <locale>
#include <optional>
#include <ostream>

namespace ys = ystring;

namespace sim
{
    namespace
    {
        struct Boom { u64 id; };

        struct Fault
        {
            u64 at;            // the device has taken this many bytes
            int how;           // 0 refuses, 1 throws
            i64 times;         // how often (-1: for good)
        };

        // The simulated device behind a stream: takes bytes until a fault is due.
        class Device : public std::streambuf
        {
        public:
            std::string taken;             // what has reached the device
            std::vector<Fault> faults;
            size_t chunk = SIZE_MAX;       // takes at most this much at a time
            size_t buffer = 0;
            bool refused = false;
            u64 refusals = 0, writes = 0, id = 0;
            char* buf = nullptr;

            ~Device() override { delete[] buf; }
            void use_buffer(size_t n)
            {
                buffer = n;
                if (!n) return;
                buf = new char[n];
                setp(buf, buf + n);
            }
            std::string accepted() const { return taken + std::string(pbase(), pptr()); }

        private:
            // Takes as much as it likes of s; throws or takes less than everything when faulty.
            size_t take(const char* s, size_t n)
            {
                HarnessScope h;
                ++writes;
                size_t done = 0;
                while (done < n)
                {
                    size_t k = std::min(n - done, chunk);
                    Fault* due = nullptr;
                    for (auto& f : faults)
                        if (f.times && f.at >= taken.size() && f.at - taken.size() < k)
                        {
                            k = size_t(f.at - taken.size());
                            due = &f;
                        }
                    taken.append(s + done, k);
                    done += k;
                    if (!due) continue;
                    if (due->times > 0) --due->times;
                    refused = true;
                    ++refusals;
                    if (due->how == 1)
                    {
                        R.count("fault:device-threw");
                        pending(s, done);
                        throw Boom{id};
                    }
                    R.count(done ? "fault:short-write" : "fault:device-refused");
                    return done;
                }
                return done;
            }
            // Keeps what the device has not taken of the buffer.
            void pending(const char* s, size_t done)
            {
                if (!buf || s != pbase()) return;
                size_t left = size_t(pptr() - pbase()) - done;
                memmove(buf, buf + done, left);
                setp(buf, buf + buffer);
                pbump(int(left));
            }
            bool flush_buffer()
            {
                if (!buf) return true;
                size_t n = size_t(pptr() - pbase());
                if (!n) return true;
                size_t done = take(pbase(), n);
                pending(pbase(), done);
                return done == n;
            }
            int_type overflow(int_type c) override
            {
                HarnessScope h;
                if (buf)
                {
                    if (!flush_buffer()) return traits_type::eof();
                    if (!traits_type::eq_int_type(c, traits_type::eof()))
                    {
                        *pptr() = traits_type::to_char_type(c);
                        pbump(1);
                    }
                    return traits_type::not_eof(c);
                }
                if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
                char ch = traits_type::to_char_type(c);
                return take(&ch, 1) == 1 ? c : traits_type::eof();
            }
            std::streamsize xsputn(const char* s, std::streamsize n) override
            {
                HarnessScope h;
                if (!buf) return std::streamsize(take(s, size_t(n)));
                std::streamsize done = 0;
                while (done < n)
                {
                    if (pptr() == epptr() && !flush_buffer()) break;
                    size_t k = std::min<size_t>(size_t(n - done), size_t(epptr() - pptr()));
                    memcpy(pptr(), s + done, k);
                    pbump(int(k));
                    done += std::streamsize(k);
                }
                return done;
            }
            int sync() override
            {
                HarnessScope h;
                return flush_buffer() ? 0 : -1;
            }
        };

        std::string set_text(const ys::CodepointSet& s)
        {
            std::string r = s.negated ? "[^" : "[";
            for (auto& x : s.ranges)
            {
                r += enc(x.first);
                if (x.first != x.second) { r += '-'; r += enc(x.second); }
            }
            return r + "]";
        }
        std::string subrange_text(const ys::Subrange& s)
        {
            return "{offset: " + std::to_string(s.offset) + ", length: " + std::to_string(s.length) + "}";
        }
    }

    Scenario gen_c10(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C10", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        auto p = gen_profile(r);
        static const i64 bufs[] = {0, 0, 1, 2, 3, 8, 64, 512};
        static const i64 chunks[] = {0, 0, 1, 2, 5, 16};
        static const i64 masks[] = {0, 0, 1, 4, 5};
        sc.lines.push_back(Line("device").n("buffer", bufs[r.below(8)]).n("chunk", chunks[r.below(6)]).n("mask", masks[r.below(5)]));
        size_t n = 1 + r.below(8);
        i64 total = 0;
        for (size_t i = 0; i < n; ++i)
        {
            Line l("write");
            if (r.chance(1, 2))
            {
                l.w("what", "subrange");
                auto num = [&]() -> i64 {
                    switch (r.below(4))
                    {
                    case 0: return i64(r.below(10));
                    case 1: return i64(r.next() >> r.below(64));
                    case 2: return -1;
                    default: return i64(r.below(100000));
                    }
                };
                l.n("x", num()).n("y", num());
                total += 26;
            }
            else
            {
                l.w("what", "set");
                std::u32string u;
                size_t k = r.below(r.chance(1, 6) ? 30 : 6);
                while (k--)
                {
                    auto c = gen_cp(r, p);
                    u += c;
                    u += r.chance(1, 2) ? c : std::min<char32_t>(0x10FFFF, char32_t(c + r.below(50)));
                }
                l.u("u", u).n("neg", r.chance(1, 3));
                total += 2 + i64(u.size()) * 2;
            }
            if (r.chance(1, 6)) l.n("k", i64(1 + r.below(3)));
            l.n("flush", r.chance(1, 2));
            if (r.chance(1, 2))
            {
                Line f("devfault");
                f.n("in", i64(r.below(r.chance(1, 2) ? 12 : 40))).n("how", i64(r.below(2))).n("times", r.chance(2, 3) ? 1 : r.chance(1, 2) ? 2 : -1);
                sc.lines.push_back(f);
            }
            if (r.chance(1, 10)) sc.lines.push_back(Line("noclear"));
            sc.lines.push_back(l);
        }
        return sc;
    }

    void exec_c10(const Scenario& sc)
    {
        Device dev;
        std::optional<std::ostream> os;
        std::string expect;             // everything accepted so far
        bool clear = true;
        auto open = [&] {
            if (os) return;
            os.emplace(&dev);
            os->imbue(std::locale::classic());
        };
        for (auto& l : sc.lines)
        {
            R.log(l.str());
            if (l.op == "garbage") { set_garbage(u8(l.gn("v"))); continue; }
            if (l.op == "device")
            {
                if (os) continue;
                dev.use_buffer(size_t(l.gn("buffer")));
                if (l.gn("chunk")) dev.chunk = size_t(l.gn("chunk"));
                open();
                auto m = l.gn("mask");
                os->exceptions((m & 1 ? std::ios::badbit : std::ios::goodbit) | (m & 4 ? std::ios::failbit : std::ios::goodbit));
                continue;
            }
            open();
            if (l.op == "devfault")
            {
                dev.faults.push_back({dev.accepted().size() + u64(l.gn("in")), int(l.gn("how")), l.gn("times")});
                continue;
            }
            if (l.op == "noclear") { clear = false; continue; }
            if (l.op != "write") continue;
            bool is_set = l.gw("what") == "set";
            ys::CodepointSet set;
            auto u = l.gu("u");
            for (size_t i = 0; i + 1 < u.size(); i += 2) set.ranges.emplace_back(std::min(u[i], u[i + 1]), std::max(u[i], u[i + 1]));
            set.negated = l.gn("neg");
            ys::Subrange sub(size_t(l.gn("x")), size_t(l.gn("y")));
            auto text = is_set ? set_text(set) : subrange_text(sub);
            auto set0 = set;
            auto plan = plan_from(l);
            auto mask = os->exceptions();
            for (int attempt = 0; attempt < 3; ++attempt)
            {
                bool was_bad = !os->good();
                dev.refused = false;
                ++dev.id;
                std::string what;
                std::string got = "ok";
                Kind k = Kind::OK;
                bool boom = false, io = false, oom = false;
                bool flush = l.gn("flush");
                auto out0 = lib_outstanding();
                u64 failed0 = alloc_ctx().total_failed;
                std::ostream* ret = &*os;
                try
                {
                    k = guarded(attempt == 0 ? plan : AllocPlan(), &what, [&] {
                        try
                        {
                            if (is_set) ret = &(*os << set);
                            else ret = &(*os << sub);
                        }
                        catch (const std::ios::failure&) { io = true; }
                    });
                }
                catch (const Boom& b) { boom = true; if (b.id != dev.id) violate("wrong-exception", l.str()); }
                alloc_ctx().disarm();
                bool alloc_failed = alloc_ctx().total_failed != failed0;
                oom = k == Kind::OOM;
                auto where = l.str() + " (" + show(text) + "), attempt " + std::to_string(attempt + 1) + " on a device that had taken " + std::to_string(expect.size()) + " bytes";
                auto after = dev.accepted();
                bool bad = os->fail();
                bool refused_in_write = dev.refused;
                R.log(std::string("-> ") + (boom ? "device's exception" : io ? "ios failure" : kind_name(k)) + " state " + std::to_string(int(os->rdstate())) + " accepted " + show(after.substr(std::min(after.size(), expect.size()))));
                if (ret != &*os) violate("wrong-reference", where);
                if (set.ranges != set0.ranges || set.negated != set0.negated) violate("argument-changed", where);
                if (k == Kind::OTHER || k == Kind::YEX) violate("wrong-exception", where + ": " + what);
                if (after.compare(0, expect.size(), expect) != 0) violate("harness", "device lost what it had taken");
                auto part = after.substr(expect.size());
                if (text.compare(0, part.size(), part) != 0 || part.size() > text.size())
                    violate("wrong-bytes", where + ": delivered " + show(part));
                bool complete = part.size() == text.size();
                bool reported = bad || boom || io || oom;
                if (!complete && !reported)
                    violate("failure-unnoticed", where + ": only " + show(part) + " was delivered and the stream is fine");
                if (!was_bad && dev.refused && !reported)
                    violate("failure-unnoticed", where + ": the device refused a byte and the stream is fine");
                if (dev.refused && !boom && !oom && !bad)
                    violate("failure-unnoticed", where + ": the device failed but the stream's state does not say so");
                if ((boom || io) && mask == std::ios::goodbit)
                    violate("unwanted-exception", where + ": the caller had not asked for exceptions");
                if (!was_bad && bad && (mask & std::ios::badbit) && (os->rdstate() & std::ios::badbit) && !boom && !io && !oom)
                    violate("exception-missing", where + ": the caller had asked for exceptions");
                if (!was_bad && !dev.refused && !alloc_failed && (!complete || reported))
                    violate("healthy-write-failed", where + ": delivered " + show(part));
                expect = after;
                R.count(complete ? "probe:write-complete" : "probe:write-failed");
                R.state(mix(hash_bytes(text), mix(part.size(), u64(os->rdstate()) + 16 * boom + 32 * io + 64 * oom)));
                // leak: three failing attempts that each keep something
                if (!complete && lib_outstanding() > out0)
                {
                    auto prev = lib_outstanding();
                    int grow = 0;
                    for (int i = 0; i < 3; ++i)
                    {
                        try
                        {
                            guarded(attempt == 0 ? plan : AllocPlan(), &what, [&] {
                                try { if (is_set) *os << set; else *os << sub; }
                                catch (const std::ios::failure&) {}
                            });
                        }
                        catch (const Boom&) {}
                        alloc_ctx().disarm();
                        grow += lib_outstanding() > prev;
                        prev = lib_outstanding();
                    }
                    if (grow == 3) violate("leak", where + " keeps memory every time");
                    expect = dev.accepted();
                }
                if (flush && os->good())
                {
                    try { os->flush(); } catch (const std::ios::failure&) {} catch (const Boom&) {}
                    if (dev.refused && !refused_in_write && !os->fail() && mask == std::ios::goodbit) violate("harness", "flush failure lost");
                    expect = dev.accepted();
                }
                if (!os->good())
                {
                    if (!clear) { clear = true; continue; }  // one more attempt on the failed stream
                    os->clear();
                }
                if (complete) break;
            }
            if (os->fail()) os->clear();
            clear = true;
        }
        // faults over: everything still written goes through
        if (os)
        {
            dev.faults.clear();
            os->clear();
            try { os->flush(); } catch (...) { violate("harness", "flush of a healthy device threw"); }
            ys::Subrange s(1, 2);
            auto before = dev.accepted();
            auto k = guarded({}, nullptr, [&] { *os << s; });
            if (k != Kind::OK || !os->good() || dev.accepted() != before + subrange_text(s))
                violate("healthy-write-failed", "after all faults were over");
        }
    }
}
