// Texts that arrive in pieces: escaped records (C14), searching (C15) and positions (C16).
#include "api.hpp"
#include "unidata.hpp"
#include "delivery.hpp"
#include <Ystring/CaseInsensitive.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/CodepointPredicates.hpp>
#include <Ystring/Escape.hpp>
#include <Ystring/Unescape.hpp>
#include <optional>

namespace ys = ystring;
namespace ci = ystring::case_insensitive;

namespace sim
{
    namespace
    {
        std::string sub(const ys::Subrange& r)
        {
            return "[" + std::to_string(r.offset) + ", " + std::to_string(r.offset + r.length) + ")";
        }
    }

    // ------------------------------------------------------------------ C14
    namespace
    {
        int hex_value(char c)
        {
            if (c >= '0' && c <= '9') return c - '0';
            if (c >= 'a' && c <= 'f') return c - 'a' + 10;
            if (c >= 'A' && c <= 'F') return c - 'A' + 10;
            return -1;
        }

        struct Token { size_t pos, len; char32_t cp; };

        // The content of a JSON string, or of one with the escapes of C: nothing if it isn't one. Where
        // an escape is not finished, its place and what precedes it are told.
        std::optional<std::vector<Token>> parse_escaped(std::string_view s, bool c_style = false,
                                                        size_t* broken = nullptr, std::vector<Token>* before = nullptr)
        {
            std::vector<Token> r;
            auto unit = [&](size_t i) -> i64 {
                if (i + 6 > s.size() || s[i] != '\\' || s[i + 1] != 'u') return -1;
                i64 v = 0;
                for (size_t k = i + 2; k < i + 6; ++k)
                {
                    auto h = hex_value(s[k]);
                    if (h < 0) return -1;
                    v = v * 16 + h;
                }
                return v;
            };
            for (size_t i = 0; i < s.size();)
            {
                if (s[i] != '\\')
                {
                    if (!c_style && (u8(s[i]) < 0x20 || s[i] == '"')) return std::nullopt;
                    if (s[i] == '\n') return std::nullopt;
                    char32_t c;
                    auto n = seq_len(s, i, &c);
                    if (!n || c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return std::nullopt;
                    r.push_back({i, n, c});
                    i += n;
                    continue;
                }
                auto broken_here = [&] { if (broken) { *broken = i; *before = r; } };
                if (i + 1 == s.size()) { broken_here(); return std::nullopt; }
                size_t n = 2;
                char32_t c;
                switch (s[i + 1])
                {
                case '"': case '\\': case '/': c = char32_t(s[i + 1]); break;
                case 'b': c = 8; break;
                case 'f': c = 12; break;
                case 'n': c = 10; break;
                case 'r': c = 13; break;
                case 't': c = 9; break;
                case 'u':
                {
                    auto v = unit(i);
                    if (v < 0) broken_here();
                    if (v < 0 || (v >= 0xDC00 && v < 0xE000)) return std::nullopt;
                    n = 6;
                    c = char32_t(v);
                    if (v >= 0xD800 && v < 0xDC00)
                    {
                        auto w = unit(i + 6);
                        if (w < 0xDC00 || w > 0xDFFF) return std::nullopt;
                        c = char32_t(0x10000 + (v - 0xD800) * 0x400 + (w - 0xDC00));
                        n = 12;
                    }
                    break;
                }
                default:
                {
                    if (!c_style) return std::nullopt;
                    auto e = s[i + 1];
                    size_t k = i + 2;
                    u64 v = 0;
                    if (e == 'a') c = 7;
                    else if (e == 'v') c = 11;
                    else if (e == 'x' || e == 'X')
                    {
                        while (k < s.size() && hex_value(s[k]) >= 0 && k - i < 11) v = v * 16 + u64(hex_value(s[k++]));
                        if (k - i == 2) broken_here();
                        if (k - i < 4 || k - i > 10 || v > 0x10FFFF) return std::nullopt;
                        n = k - i;
                        c = char32_t(v);
                    }
                    else if (e == 'U')
                    {
                        while (k < s.size() && hex_value(s[k]) >= 0 && k - i < 10) v = v * 16 + u64(hex_value(s[k++]));
                        if (k - i != 10) broken_here();
                        if (k - i != 10 || v > 0x10FFFF) return std::nullopt;
                        n = 10;
                        c = char32_t(v);
                    }
                    else if (e >= '0' && e <= '7')
                    {
                        for (k = i + 1; k < s.size() && s[k] >= '0' && s[k] <= '7' && k - i < 4; ++k) v = v * 8 + u64(s[k] - '0');
                        n = k - i;
                        c = char32_t(v);
                    }
                    else if (ispunct(u8(e)) && u8(e) < 128) c = char32_t(e);
                    else return std::nullopt;
                }
                }
                if (c >= 0xD800 && c < 0xE000) return std::nullopt;
                r.push_back({i, n, c});
                i += n;
            }
            return r;
        }

        std::string foreign_c(Rng& r, const std::u32string& t)
        {
            std::string s;
            u64 much = r.below(5);
            for (size_t i = 0; i < t.size(); ++i)
            {
                auto c = t[i];
                auto next = i + 1 < t.size() ? t[i + 1] : U'-';
                bool safe_hex = next > 127 || hex_value(char(next)) < 0;
                bool safe_oct = !(next >= '0' && next <= '7');
                static const std::string from = "\a\b\f\n\r\t\v\"\\\'?", to = "abfnrtv\"\\\'?";
                auto k = c < 128 ? from.find(char(c)) : std::string::npos;
                char b[16];
                if (k != std::string::npos && r.chance(1, 2)) { s += '\\'; s += to[k]; continue; }
                if (c != 10 && c != '\\' && r.below(6) >= much) { s += enc(c); continue; }
                switch (r.below(5))
                {
                case 0: snprintf(b, 16, r.chance(1, 2) ? "\\U%08x" : "\\U%08X", u32(c)); s += b; continue;
                case 1: if (c < 0x10000) { snprintf(b, 16, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", u32(c)); s += b; continue; } break;
                case 2: if (c < 512) { snprintf(b, 16, safe_oct && r.chance(1, 2) ? "\\%o" : "\\%03o", u32(c)); s += b; continue; } break;
                case 3: if (c < 128 && ispunct(int(c))) { s += '\\'; s += char(c); continue; } break;
                default: break;
                }
                if (safe_hex) { snprintf(b, 16, r.chance(1, 2) ? "\\x%02x" : r.chance(1, 2) ? "\\X%04X" : "\\x%08x", u32(c)); s += b; }
                else { snprintf(b, 16, "\\x%08x", u32(c)); s += b; if (r.chance(1, 2)) { s.resize(s.size() - 10); snprintf(b, 16, "\\U%08x", u32(c)); s += b; } }
            }
            return s;
        }

        std::string foreign(Rng& r, const std::u32string& t)
        {
            std::string s;
            auto unit = [&](u32 v) {
                const char* d = r.chance(1, 2) ? "0123456789abcdef" : "0123456789ABCDEF";
                s += "\\u";
                for (int k = 12; k >= 0; k -= 4) s += d[(v >> k) & 15];
            };
            u64 much = r.below(5);
            for (auto c : t)
            {
                static const std::string from = "\b\f\n\r\t\"\\/", to = "bfnrt\"\\/";
                auto k = c < 128 ? from.find(char(c)) : std::string::npos;
                if (k != std::string::npos && r.chance(2, 3)) { s += '\\'; s += to[k]; continue; }
                if (c >= 32 && c != '"' && c != '\\' && r.below(6) >= much) { s += enc(c); continue; }
                if (c < 0x10000) { unit(c); continue; }
                unit(0xD800 + ((c - 0x10000) >> 10));
                unit(0xDC00 + ((c - 0x10000) & 0x3FF));
            }
            return s;
        }
    }

    Scenario gen_c14(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C14", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        size_t n = 1 + r.below(4), size = 0;
        std::vector<size_t> sizes;
        for (size_t i = 0; i < n; ++i)
        {
            auto p = gen_profile(r);
            if (r.chance(2, 3)) p.classes.push_back(r.chance(1, 2) ? 8 : 3);
            if (p.max_len > 60 && r.chance(3, 4)) p.max_len = 24;
            auto t = gen_text(r, p);
            for (size_t k = r.below(3); k-- && !t.empty();)
                t.insert(t.begin() + ptrdiff_t(r.below(t.size() + 1)), char32_t(r.chance(1, 3) ? U'\\' : r.chance(1, 2) ? U'"' : r.below(32)));
            // (what follows the text when it is repeated is no digit)
            auto rep = i ? 1 : gen_rep(r, enc(t).size() + 1, 150000);
            if (rep > 1) t.insert(t.begin(), U'-');
            if (rep > 1) n = 1 + r.below(2);
            Line l("rec");
            l.x("a", enc(t)).n("rep", rep);
            size_t len = (enc(t).size() + 4) * size_t(rep);
            if (r.chance(2, 5))
            {
                bool c = r.chance(1, 2);
                auto f = c ? foreign_c(r, t) : foreign(r, t);
                l.x("f", f).n("c", c);
                len = f.size() * size_t(rep);
            }
            with_fault(r, l, 1, 3);
            sizes.push_back(len);
            size += len + 1;
            sc.lines.push_back(l);
        }
        if (r.chance(1, 2))
            for (size_t k = 1 + r.below(3); k--;)
            {
                auto i = r.below(n);
                auto l = gen_damage(r, sizes[i]);
                l.n("i", i64(i));
                sc.lines.push_back(l);
            }
        if (r.chance(1, 8))
        {
            // a sender that does not finish its escapes
            static const char* const junk[] = {"\\x", "\\xg", "\\u12g4", "\\u", "\\u123", "\\U0001", "\\U0010FFF-", "\\", "\\X-1", "\\u 123", "\\u+123", "\\U+0000041",
                                               "\\xg12", "\\X.12345678", "\\ug123", "\\u1g23", "\\Ug0000041", "\\U0000004g", "\\x 41"};
            auto i = r.below(n);
            sc.lines.push_back(Line("junk").n("i", i64(i)).n("pos", r.chance(1, 2) ? 1 << 20 : i64(r.below(sizes[i] + 1))).x("b", junk[r.below(std::size(junk))]));
        }
        size_t maxp = 1 + r.below(r.chance(1, 2) ? 4 : 16);
        if (size > 500) maxp = std::max(maxp, 1 + r.below(size / 3));
        if (size > 500) maxp = std::max(maxp, size / 60);
        for (size_t left = size; left;)
        {
            auto k = std::min<size_t>(left, 1 + r.below(maxp));
            left -= k;
            Line l("chunk");
            l.n("n", i64(k)).n("dt", r.chance(1, 10) ? i64(r.below(10000)) : i64(r.below(40)));
            if (r.chance(1, 4)) l.n("late", 1); // the reader is busy elsewhere
            if (r.chance(1, 14)) l.n("crash", 1); // the reader starts the record again
            with_fault(r, l, 1, 4);
            sc.lines.push_back(l);
        }
        return sc;
    }

    void exec_c14(const Scenario& sc)
    {
        struct Rec
        {
            std::u32string text;
            std::string raw, body;   // the text, what is sent
            std::vector<Token> tokens;
            bool own = true, damaged = false;
            size_t pos = 0;          // on the wire
        };
        std::vector<Rec> recs;
        std::vector<const Line*> damage, chunks;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") set_garbage(u8(l.gn("v")));
            else if (l.op == "dmg" || l.op == "junk") damage.push_back(&l);
            else if (l.op == "chunk") chunks.push_back(&l);
            if (l.op != "rec") continue;
            Rec rec;
            rec.raw = repeated(l, "a");
            if (!valid_text(rec.raw)) rec.raw.clear();
            rec.text = dec(rec.raw);
            auto plan = plan_from(l);
            Buf buf(rec.raw);
            std::string what, where = "escaping " + show(rec.raw);
            // what escapes are needed
            std::vector<size_t> need;
            for (size_t i = 0; i < rec.raw.size(); ++i)
                if (u8(rec.raw[i]) < 32 || rec.raw[i] == '"' || rec.raw[i] == '\\') need.push_back(i);
            bool has = false;
            AllocPlan none;
            if (retried(none, where, &what, [&] { has = ys::has_escapable_chars(buf.view()); }) != Kind::OK)
                violate("escape-refused", where + ": " + what);
            if (has != !need.empty()) violate("escapable-wrong", where + ": has_escapable_chars says " + std::to_string(has));
            size_t off = 0;
            for (size_t i = 0; i <= need.size(); ++i)
            {
                ys::Subrange s;
                if (retried(none, where, &what, [&] { s = ys::find_first_escapable_char(buf.view(), off); }) != Kind::OK)
                    violate("escape-refused", where + ": " + what);
                if (i == need.size() ? bool(s) : s.offset != need[i] || s.length != 1)
                    violate("escapable-wrong", where + ": find_first_escapable_char from " + std::to_string(off) + " gave " + sub(s));
                off = s.offset + s.length;
            }
            std::string out;
            if (retried(plan, where, &what, [&] { out = ys::escape_json(buf.view()); }) != Kind::OK)
                violate("escape-refused", where + ": " + what);
            if (buf.view() != rec.raw) violate("text-changed", where);
            auto t = parse_escaped(out);
            if (!t) violate("not-a-json-string", where + " gave " + show(out));
            std::u32string back;
            for (auto& x : *t) back += x.cp;
            if (back != rec.text) violate("escaped-wrong", where + " gave " + show(out) + ", which means " + show(enc(back)));
            rec.body = out;
            rec.tokens = *t;
            if (l.has("f"))
            {
                auto f = repeated(l, "f");
                auto ft = parse_escaped(f, l.gn("c"));
                std::u32string fb;
                if (ft) for (auto& x : *ft) fb += x.cp;
                if (ft && fb == rec.text) { rec.body = f; rec.tokens = *ft; rec.own = false; R.count(l.gn("c") ? "probe:c-style-record" : "probe:foreign-record"); }
            }
            R.log(where + " -> " + show(rec.body));
            recs.push_back(std::move(rec));
        }
        // the wire
        std::string wire;
        std::vector<std::string> sent;
        for (auto& x : recs) sent.push_back(x.body);
        for (auto l : damage)
        {
            auto i = size_t(l->gn("i"));
            if (i >= sent.size()) continue;
            Tagged t{sent[i], std::vector<i64>(sent[i].size(), 0)};
            if (l->op == "junk")
            {
                t.bytes.insert(std::min(t.bytes.size(), size_t(std::max<i64>(0, l->gn("pos")))), l->gx("b"));
                R.count("fault:unfinished-escape");
            }
            else apply_damage(*l, t);
            sent[i] = t.bytes;
        }
        for (size_t i = 0; i < recs.size(); ++i)
        {
            recs[i].damaged = sent[i] != recs[i].body;
            recs[i].pos = wire.size();
            wire += sent[i] + "\n";
        }
        g_guard_steps = 4000000 + 2000 * wire.size();
        // what the receiver must find
        size_t arrived = 0, start = 0, scan = 0, rd = 0, given = 0, done = 0, chunk = 0;
        bool gave_up = false;
        i64 now = 0;
        while (true)
        {
            const Line* l = chunk < chunks.size() ? chunks[chunk++] : nullptr;
            AllocPlan plan;
            if (l)
            {
                auto n = std::min<size_t>(wire.size() - arrived, size_t(std::max<i64>(0, l->gn("n"))));
                arrived += n;
                now += l->gn("dt");
                plan = plan_from(*l);
                R.count("fault:delayed-piece");
                if (l->gn("crash"))
                {
                    R.count("fault:reader-restarted");
                    scan = start;
                    rd = given = 0;
                    gave_up = false;
                }
                if (l->gn("late")) { R.count("fault:late-reader"); continue; }
            }
            else arrived = wire.size();
            Buf buf(std::string_view(wire).substr(0, arrived));
            auto v = buf.view();
            auto where = [&] { return "with " + std::to_string(arrived) + " of the bytes " + show(wire) + " arrived: "; };
            while (true)
            {
                // the record being read
                const Rec* rec = nullptr;
                for (auto& x : recs) if (x.pos == start && !x.damaged) rec = &x;
                // where does it end?
                std::string what;
                ys::Subrange nl;
                if (retried(plan, where(), &what, [&] { nl = ys::find_first(v, std::string_view("\n"), scan); }) != Kind::OK)
                    violate("search-refused", where() + what);
                auto p = wire.find('\n', scan);
                bool whole = p < arrived;
                if (whole ? nl.offset != p || nl.length != 1 : bool(nl))
                    violate("record-not-framed", where() + "searching the end of the record from " + std::to_string(scan) + " gave " + sub(nl));
                auto end = whole ? p : arrived;
                // read what is there
                bool stepwise = (!rec || rec->own || whole) && !gave_up;
                while (stepwise)
                {
                    auto s = v.substr(start + rd, end - start - rd);
                    auto s0 = s;
                    std::optional<char32_t> c;
                    bool did = false;
                    auto k = retried(plan, where(), &what, [&] { c = ys::unescape_next(s, &did); });
                    auto moved = size_t(s.data() - s0.data());
                    R.log("t=" + std::to_string(now) + " at " + std::to_string(start + rd) + " -> " + kind_name(k) + (c ? " " + std::to_string(*c) : " none"));
                    R.state(mix(hash_bytes(s0.substr(0, 12), u64(k)), mix(moved, whole)));
                    if (s.data() + s.size() != s0.data() + s0.size())
                        violate("reader-lost-its-place", where() + "reading at " + std::to_string(start + rd));
                    if (rec)
                    {
                        bool there = given < rec->tokens.size() && start + rec->tokens[given].pos + rec->tokens[given].len <= end;
                        auto at = where() + "reading at " + std::to_string(start + rd) + ": ";
                        if (there != (k == Kind::OK && c.has_value()))
                            violate(there ? "character-withheld" : "character-too-early", at + (there ? what : std::to_string(*c)));
                        if (there)
                        {
                            auto& t = rec->tokens[given];
                            if (*c != t.cp) violate("wrong-character", at + std::to_string(*c) + " instead of " + std::to_string(t.cp));
                            if (moved != t.len) violate("wrong-length", at + "moved " + std::to_string(moved) + " bytes");
                            if (did != (wire[start + t.pos] == '\\')) violate("wrong-escape-flag", at + "says " + std::to_string(did));
                        }
                        else
                        {
                            if (moved) violate("consumed-on-failure", at + "moved " + std::to_string(moved) + " bytes without a character");
                            if (s0.empty() != (k == Kind::OK)) violate("bad-end-of-record", at + kind_name(k));
                        }
                    }
                    if (k == Kind::OK && c)
                    {
                        if (!moved) violate("no-progress", where() + "reading at " + std::to_string(start + rd));
                        rd += moved;
                        ++given;
                        R.count("probe:characters-read");
                        continue;
                    }
                    if (k == Kind::YEX && !rec && whole) { gave_up = true; R.count("probe:damaged-record-refused"); }
                    break;
                }
                if (!whole) { scan = arrived; break; }
                // the whole record is there
                std::string body(v.substr(start, end - start));
                auto at = "the record " + show(body) + ": ";
                std::string out, arg = body;
                auto k = guarded(plan, &what, [&] { out = ys::unescape(arg); });
                plan = {};
                if (k == Kind::OOM) { R.count("probe:retried-after-out-of-memory"); k = guarded(plan, &what, [&] { out = ys::unescape(arg); }); }
                Buf in_place(body);
                size_t n = 0;
                auto k2 = guarded(plan, nullptr, [&] { n = ys::unescape(in_place.data(), in_place.size()); });
                if (k == Kind::OTHER || k2 == Kind::OTHER) violate("wrong-exception", at + what);
                if (k == Kind::OK && n > in_place.size()) violate("result-outside", at + std::to_string(n));
                if (k != k2 || (k == Kind::OK && out != in_place.view().substr(0, n)))
                    violate("unescape-disagrees", at + "as a string " + kind_name(k) + " " + show(out) + ", in place " + kind_name(k2) + " " + show(in_place.view().substr(0, std::min(n, in_place.size()))));
                if (rec)
                {
                    if (k != Kind::OK) violate("record-refused", at + what);
                    if (out != rec->raw) violate("record-wrong", at + "unescaped to " + show(out) + " instead of " + show(rec->raw));
                    if (given != rec->tokens.size()) violate("character-withheld", at + "ended after " + std::to_string(given) + " characters");
                    Buf b2(body);
                    size_t off = 0;
                    bool any = false, has = false;
                    auto esc = [&](size_t from) {
                        ys::Subrange s;
                        if (retried(plan, at, &what, [&] { s = ys::find_first_escaped_char(b2.view(), from); }) != Kind::OK)
                            violate("record-refused", at + what);
                        return s;
                    };
                    for (auto& t : rec->tokens)
                    {
                        if (body[t.pos] != '\\') continue;
                        any = true;
                        bool pair = t.len == 12;   // two escapes that make up one character
                        for (size_t q = t.pos; q < t.pos + t.len; q += pair ? 6 : t.len)
                        {
                            auto s = esc(off);
                            auto len = pair ? 6 : t.len;
                            if (s.offset != q || s.length != len)
                                violate("escapes-wrong", at + "find_first_escaped_char from " + std::to_string(off) + " gave " + sub(s));
                            off = s.offset + s.length;
                        }
                    }
                    if (auto s = esc(off)) violate("escapes-wrong", at + "find_first_escaped_char from " + std::to_string(off) + " gave " + sub(s));
                    if (retried(plan, at, &what, [&] { has = ys::has_escaped_chars(b2.view()); }) != Kind::OK) violate("record-refused", at + what);
                    if (has != any) violate("escapes-wrong", at + "has_escaped_chars says " + std::to_string(has));
                    ++done;
                    R.count("probe:records-recovered");
                }
                else
                {
                    // a damaged record may still be a well-formed one
                    R.count("probe:damaged-record");
                    size_t broken = SIZE_MAX;
                    std::vector<Token> before;
                    auto t = parse_escaped(body, true, &broken, &before);
                    if (broken != SIZE_MAX)
                    {
                        // an escape that lacks its digits is not read as something else
                        if (k == Kind::OK) violate("broken-escape-accepted", at + "unescaped to " + show(out));
                        Buf b2(body);
                        auto s = b2.view();
                        std::optional<char32_t> c;
                        for (auto& x : before)
                            if (retried(plan, at, &what, [&] { c = ys::unescape_next(s); }) != Kind::OK || !c || *c != x.cp)
                                violate("wrong-character", at + "before the broken escape");
                        auto s0 = s;
                        auto kb = retried(plan, at, &what, [&] { c = ys::unescape_next(s); });
                        if (s0.data() != b2.view().data() + broken) violate("wrong-length", at + "before the broken escape");
                        if (kb != Kind::YEX) violate("broken-escape-accepted", at + "read as " + (c ? std::to_string(*c) : "nothing"));
                        if (s.data() != s0.data() || s.size() != s0.size()) violate("consumed-on-failure", at);
                        // nor pointed out as one
                        ys::Subrange f;
                        if (retried(plan, at, &what, [&] { f = ys::find_first_escaped_char(b2.view(), broken); }) != Kind::YEX)
                            violate("broken-escape-accepted", at + "find_first_escaped_char from " + std::to_string(broken) + " gave " + sub(f));
                        if (body.find('\\') == broken)
                        {
                            bool has = false;
                            if (retried(plan, at, &what, [&] { has = ys::has_escaped_chars(b2.view()); }) != Kind::YEX)
                                violate("broken-escape-accepted", at + "has_escaped_chars says " + std::to_string(has));
                        }
                        R.count("probe:broken-escape-refused");
                    }
                    if (t && valid_text(body))
                    {
                        std::u32string u;
                        for (auto& x : *t) u += x.cp;
                        if (k != Kind::OK) violate("record-refused", at + what);
                        if (out != enc(u)) violate("record-wrong", at + "unescaped to " + show(out) + " instead of " + show(enc(u)));
                        Buf b2(body);
                        auto s = b2.view();
                        for (auto& x : *t)
                        {
                            std::optional<char32_t> c;
                            if (retried(plan, at, &what, [&] { c = ys::unescape_next(s); }) != Kind::OK || !c) violate("record-refused", at + what);
                            if (*c != x.cp) violate("wrong-character", at + std::to_string(*c) + " instead of " + std::to_string(x.cp));
                        }
                        if (!s.empty()) violate("wrong-length", at + "text is left over");
                        R.count("probe:damaged-record-read");
                    }
                }
                start = scan = end + 1;
                rd = given = 0;
                gave_up = false;
            }
            if (!l) break;
        }
        size_t could = 0;
        for (auto& x : recs) could += !x.damaged;
        if (done != could) violate("record-lost", std::to_string(could) + " records arrived undamaged, " + std::to_string(done) + " were recovered from " + show(wire));
        R.sim_time += u64(now);
    }

    // ------------------------------------------------------------------ C15
    namespace
    {
        enum SearchKind { S_BYTES, S_CI, S_OF, S_SET, S_WHERE, S_LINES, S_CI_OF, S_CI_SET, S_KINDS };
        const char* const SEARCHES[] = {"bytes", "ci", "of", "set", "where", "lines", "ci-of", "ci-set"};

        bool newline_cp(char32_t c)
        {
            return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029;
        }

        struct Hit
        {
            size_t pos, len;
            char32_t c;
            bool operator==(const Hit& o) const { return pos == o.pos && len == o.len && c == o.c; }
        };

        // The library's predicates, and what they mean.
        struct Pred { const char* name; bool (*lib)(char32_t); bool (*ref)(char32_t); };
        bool is(char32_t c, const char* first, const char* exact = "")
        {
            auto k = uni::category(c);
            return strchr(first, k[0]) || strstr(exact, k);
        }
        const Pred PREDS[] = {
            {"alphanumeric", [](char32_t c) { return ys::is_alpha_numeric(c); }, [](char32_t c) { return is(c, "LN"); }},
            {"cased", [](char32_t c) { return ys::is_cased_letter(c); }, [](char32_t c) { return is(c, "", "Lu Ll Lt"); }},
            {"control", [](char32_t c) { return ys::is_control(c); }, [](char32_t c) { return is(c, "", "Cc"); }},
            {"format", [](char32_t c) { return ys::is_format(c); }, [](char32_t c) { return is(c, "", "Cf"); }},
            {"graphical", [](char32_t c) { return ys::is_graphical(c); }, [](char32_t c) { return is(c, "LMNPS"); }},
            {"hex", [](char32_t c) { return ys::is_hex_digit(c); }, [](char32_t c) { return c < 128 && hex_value(char(c)) >= 0; }},
            {"letter", [](char32_t c) { return ys::is_letter(c); }, [](char32_t c) { return is(c, "L"); }},
            {"lower", [](char32_t c) { return ys::is_lower(c); }, [](char32_t c) { return is(c, "", "Ll"); }},
            {"mark", [](char32_t c) { return ys::is_mark(c); }, [](char32_t c) { return is(c, "M"); }},
            {"newline", [](char32_t c) { return ys::is_newline(c); }, newline_cp},
            {"number", [](char32_t c) { return ys::is_number(c); }, [](char32_t c) { return is(c, "N"); }},
            {"punctuation", [](char32_t c) { return ys::is_punctuation(c); }, [](char32_t c) { return is(c, "P"); }},
            {"separator", [](char32_t c) { return ys::is_separator(c); }, [](char32_t c) { return is(c, "Z"); }},
            {"surrogate", [](char32_t c) { return ys::is_surrogate(c); }, [](char32_t c) { return is(c, "", "Cs"); }},
            {"symbol", [](char32_t c) { return ys::is_symbol(c); }, [](char32_t c) { return is(c, "S"); }},
            {"upper", [](char32_t c) { return ys::is_upper(c); }, [](char32_t c) { return is(c, "", "Lu"); }},
            {"visible", [](char32_t c) { return ys::is_visible(c); }, [](char32_t c) { return is(c, "LMNPSZ"); }},
            {"space", [](char32_t c) { return ys::is_whitespace(c); }, [](char32_t c) { return c == '\t' || newline_cp(c) || is(c, "Z"); }},
        };

        // The general categories in the order of the bits of the library's classes.
        const char* const CATEGORIES[] = {"Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe",
                                          "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf", "Cs", "Co", "Cn"};

        struct Searcher
        {
            int kind = S_BYTES;
            int cls = -1;
            const Pred* pred = nullptr;
            bool back = false, raw = false;
            std::string b;
            std::u32string needle, u;
            bool neg = false;
            char32_t lo = 1, hi = 0;    // a range that belongs to the set, too
            ys::CodepointSet set;
            size_t done = 0;            // bytes (from the end where the text starts to arrive) that need not be looked at again
            size_t found_to = 0;        // end of the last match
            std::vector<Hit> found;
            std::vector<Hit> expect;    // in the whole text

            bool in(char32_t c) const
            {
                switch (kind)
                {
                case S_WHERE: if (pred) return pred->ref(c); if (cls >= 0) return !strcmp(uni::category(c), CATEGORIES[cls]); [[fallthrough]];
                case S_OF: return u.find(c) != std::u32string::npos;
                case S_SET: return (u.find(c) != std::u32string::npos || (lo <= c && c <= hi)) != neg;
                case S_LINES: return newline_cp(c);
                case S_CI_OF: for (auto x : u) if (uni::same(c, x)) return true; return false;
                case S_CI_SET: return ci_member(c) != neg;
                default: return false;
                }
            }
            // Is some member of the set the same character, letter case aside? Characters with a
            // third form (such as the long s) are not looked for in the set: sure becomes false.
            bool ci_member(char32_t c, bool* sure = nullptr) const
            {
                bool found = false, plain = false;
                auto up = uni::upper(c);
                auto test = [&](char32_t m) {
                    if (!uni::same(c, m)) return;
                    found = true;
                    plain = plain || m == c || m == up || m == uni::lower(c) || m == uni::lower(up);
                };
                for (auto m : u) test(m);
                for (u64 m = lo; m <= hi; ++m) test(char32_t(m));
                if (sure) *sure = found == plain;
                return found;
            }
            bool with_char() const { return kind != S_BYTES && kind != S_CI && kind != S_LINES; }
        };

        // All matches in a text, in the order in which they are found.
        std::vector<Hit> all_hits(const Searcher& s, const std::string& text)
        {
            std::vector<Hit> r;
            if (s.kind == S_BYTES)
            {
                if (!s.back)
                    for (size_t p = 0; (p = text.find(s.b, p)) != std::string::npos; p += s.b.size()) r.push_back({p, s.b.size(), 0});
                else
                    for (size_t e = text.size(); e >= s.b.size();)
                    {
                        if (text.compare(e - s.b.size(), s.b.size(), s.b) == 0) { e -= s.b.size(); r.push_back({e, s.b.size(), 0}); }
                        else --e;
                    }
                return r;
            }
            auto cp = points_of(text);
            size_t n = cp.size();
            auto span = [&](size_t i, size_t k) { return Hit{cp[i].pos, cp[i + k - 1].pos + cp[i + k - 1].len - cp[i].pos, s.with_char() ? cp[i].c : 0}; };
            auto at = [&](size_t i) -> size_t {   // length of the match that starts here
                if (s.kind == S_CI)
                {
                    size_t k = 0;
                    if (i + s.needle.size() > n) return 0;
                    while (k < s.needle.size() && uni::same(cp[i + k].c, s.needle[k])) ++k;
                    return k == s.needle.size() ? k : 0;
                }
                if (!s.in(cp[i].c)) return 0;
                return s.kind == S_LINES && cp[i].c == 13 && i + 1 < n && cp[i + 1].c == 10 ? 2 : 1;
            };
            if (!s.back)
                for (size_t i = 0; i < n;)
                {
                    auto k = at(i);
                    if (k) r.push_back(span(i, k));
                    i += k ? k : 1;
                }
            else
                for (size_t e = n; e > 0;)
                {
                    size_t k = 0;
                    if (s.kind == S_CI)
                    {
                        if (s.needle.size() <= e && at(e - s.needle.size())) k = s.needle.size();
                    }
                    else if (s.in(cp[e - 1].c))
                        k = s.kind == S_LINES && cp[e - 1].c == 10 && e > 1 && cp[e - 2].c == 13 ? 2 : 1;
                    if (k) r.push_back(span(e - k, k));
                    e -= k ? k : 1;
                }
            return r;
        }

        std::pair<ys::Subrange, char32_t> search(const Searcher& s, std::string_view v, size_t off)
        {
            auto pred = [&](char32_t c) { if (s.pred) return s.pred->lib(c); if (s.cls >= 0) return (ys::get_char_class(c) & (1u << s.cls)) != 0; HarnessScope h; return s.u.find(c) != std::u32string::npos; };
            auto u = std::u32string_view(s.u);
            std::string_view b = s.b;
            if (!s.back)
                switch (s.kind)
                {
                case S_BYTES: return {ys::find_first(v, b, off), 0};
                case S_CI: return {ci::find_first(v, b, off), 0};
                case S_OF: return ys::find_first_of(v, u, off);
                case S_SET: return ys::find_first_of(v, s.set, off);
                case S_WHERE: return ys::find_first_where(v, pred, off);
                case S_LINES: return {ys::find_first_newline(v, off), 0};
                case S_CI_OF: return ci::find_first_of(v, u, off);
                default: return ci::find_first_of(v, s.set, off);
                }
            switch (s.kind)
            {
            case S_BYTES: return {ys::find_last(v, b, off), 0};
            case S_CI: return {ci::find_last(v, b, off), 0};
            case S_OF: return ys::find_last_of(v, u, off);
            case S_SET: return ys::find_last_of(v, s.set, off);
            case S_WHERE: return ys::find_last_where(v, pred, off);
            case S_LINES: return {ys::find_last_newline(v, off), 0};
            case S_CI_OF: return ci::find_last_of(v, u, off);
            default: return ci::find_last_of(v, s.set, off);
            }
        }
    }

    Scenario gen_c15(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C15", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        auto p = gen_profile(r);
        if (r.chance(1, 2)) p.classes.push_back(int(r.chance(1, 2) ? 9 : 10));
        bool edges = r.chance(1, 5);
        if (edges) { p.classes.push_back(15); p.classes.push_back(15); }
        if (p.max_len < 8) p.max_len = 8;
        auto t = gen_text(r, p);
        // every place where a class begins or ends, over a stretch of Unicode
        bool dense = edges && r.chance(1, 4);
        if (dense)
        {
            t.clear();
            for (size_t i = r.below(uni::CLASS_ROW_COUNT), k = 100 + r.below(400); k--; i = (i + 1) % uni::CLASS_ROW_COUNT)
                for (auto c : {uni::CLASS_ROWS[i].lo, uni::CLASS_ROWS[i].hi})
                    if (c < 0xD800 || c > 0xDFFF) t += char32_t(c);
        }
        // repetitions, so that matches nearly happen and overlap
        if (!t.empty() && r.chance(1, 2))
            for (size_t k = 1 + r.below(3); k--;)
            {
                auto i = r.below(t.size());
                auto piece = t.substr(i, 1 + r.below(4));
                t.insert(r.below(t.size() + 1), piece);
            }
        if (r.chance(1, 3)) for (auto& c : t) if (c == 10 && r.chance(1, 2)) c = 13;
        auto a = enc(t);
        auto rep = gen_rep(r, t, a);
        std::string tail;
        size_t n = 1 + r.below(4);
        for (size_t i = 0; i < n; ++i)
        {
            Line l("search");
            int kind = dense || (edges && r.chance(1, 2)) ? int(S_WHERE) : int(r.below(S_KINDS));
            l.w("kind", SEARCHES[kind]).n("back", r.chance(1, 2)).n("raw", r.chance(1, 3));
            if (kind == S_BYTES || kind == S_CI)
            {
                std::u32string s;
                // at the very end of it, too
                auto k = 1 + r.below(4);
                if (!t.empty() && r.chance(1, 6)) s = l.gn("back") ? t.substr(t.size() - std::min(t.size(), k)) : t.substr(0, k);
                else if (!t.empty() && r.chance(4, 5)) s = t.substr(r.below(t.size()), k);
                else { auto q = p; q.max_len = 3; s = gen_text(r, q) + gen_cp(r, p); }
                if (kind == S_CI) for (auto& c : s) if ((c | 32) >= 'a' && (c | 32) <= 'z' && r.chance(1, 2)) c ^= 32;
                if (kind == S_CI && r.chance(1, 8)) for (auto& c : s) if (c >= 64 && c < 128 && r.chance(1, 3)) c ^= 32;
                if (kind == S_CI && r.chance(1, 3)) for (auto& c : s) if (r.chance(2, 3)) c = fold_mate(r, c);
                if (r.chance(1, 5)) s.back() = gen_cp(r, p);
                // a long one, which may differ from a place in the text in one code point
                if (r.chance(1, 12) && s.size() < 100)
                {
                    auto u = s;
                    while (s.size() < 20) s += t.empty() || r.chance(1, 8) ? u : t;
                    if (r.chance(1, 2)) while (s.size() < 150) s += u;
                    if (s.size() > 300) s.resize(300);
                    if (tail.size() < 2000) tail += enc(s);
                    if (r.chance(2, 3)) { auto& c = s[r.chance(1, 2) ? s.size() - 1 : r.below(s.size())]; c = r.chance(1, 2) ? gen_cp(r, p) : kind == S_CI ? fold_mate(r, c) : c + (c < 0x7F); }
                }
                auto b = enc(s);
                // part of a character is searched for as bytes, too
                if (kind == S_BYTES && b.size() > 1 && r.chance(1, 6)) b = b.substr(r.below(b.size()));
                l.x("b", b);
            }
            else if (kind != S_LINES)
            {
                std::u32string u;
                for (size_t k = 1 + r.below(3); k--;)
                {
                    auto c = !t.empty() && r.chance(3, 4) ? t[r.below(t.size())] : gen_cp(r, p);
                    if (kind >= S_CI_OF && (c | 32) >= 'a' && (c | 32) <= 'z' && r.chance(1, 2)) c ^= 32;
                    else if (kind >= S_CI_OF && r.chance(1, 4)) c = fold_mate(r, c);
                    u += c;
                }
                if (r.chance(1, 4)) for (size_t k = r.below(4); k--;) u += char32_t(u.back() + 1); // neighbours
                // many of them, in no order
                if (kind != S_WHERE && r.chance(1, 12))
                    for (size_t k = 10 + r.below(r.chance(1, 3) ? 270 : 80); k--;)
                        u.insert(u.begin() + ptrdiff_t(r.below(u.size() + 1)), r.chance(1, 2) ? gen_cp(r, p) : u[r.below(u.size())] + char32_t(r.below(40)));
                for (auto& c : u) if (c > 0x10FFFF) c = 'a';
                // no code point at all: never there
                if ((kind == S_OF || kind == S_CI_OF) && r.chance(1, 8)) u.insert(u.begin() + r.below(u.size() + 1), beyond(r));
                l.u("u", u).n("neg", r.chance(1, 5));
                if (kind == S_WHERE && edges && r.chance(2, 3))
                {
                    // a class of one of the letters around it
                    auto c = (t.empty() ? 0x400 : t[r.below(t.size())]) + char32_t(r.below(3)) - 1;
                    l.w("pred", uni::category(c <= 0x10FFFF ? c : 0));
                }
                else if (kind == S_WHERE && r.chance(1, 2))
                {
                    if (!t.empty() && r.chance(1, 2)) l.w("pred", uni::category(t[r.below(t.size())]));
                    else l.w("pred", r.chance(2, 3) ? PREDS[r.below(std::size(PREDS))].name : CATEGORIES[r.below(std::size(CATEGORIES))]);
                }
                if ((kind == S_SET || kind == S_CI_SET) && r.chance(1, 3))
                {
                    auto c = !t.empty() ? t[r.below(t.size())] : gen_cp(r, p);
                    if (r.chance(1, 2)) c = uni::lower(c);
                    auto lo = i64(c) - i64(r.below(40)), hi = i64(c) + i64(r.below(40));
                    l.n("lo", std::max<i64>(0, lo)).n("hi", std::min<i64>(0x10FFFF, hi));
                }
            }
            sc.lines.push_back(l);
        }
        if (rep == 1 && !tail.empty()) a = r.chance(1, 2) ? a + tail : tail + a;
        sc.lines.push_back(Line("text").x("a", a).n("rep", rep));
        // others join when everything is there, and begin anywhere
        for (size_t k = r.below(4); k--;)
        {
            Line l("jump");
            l.n("who", i64(r.below(n))).n("at", i64(r.below(a.size() * size_t(rep) + 1)));
            with_fault(r, l, 1, 4);
            sc.lines.push_back(l);
        }
        size_t maxp = 1 + r.below(r.chance(1, 2) ? 4 : 12), total = a.size() * size_t(rep);
        if (rep > 1 || dense || !tail.empty()) maxp = std::max(maxp, total / 6);
        for (size_t left = total; left;)
        {
            auto k = std::min<size_t>(left, 1 + r.below(maxp));
            left -= k;
            Line l("chunk");
            l.n("n", i64(k)).n("dt", r.chance(1, 10) ? i64(r.below(10000)) : i64(r.below(40)));
            l.n("who", i64(r.chance(1, 2) ? 15 : r.below(16)));
            if (r.chance(1, 12)) l.n("crash", i64(r.below(n)));
            with_fault(r, l, 1, 4);
            sc.lines.push_back(l);
        }
        return sc;
    }

    void exec_c15(const Scenario& sc)
    {
        std::string text;
        std::vector<Searcher> ss;
        i64 now = 0;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") set_garbage(u8(l.gn("v")));
            else if (l.op == "text") { auto a = repeated(l, "a"); if (valid_text(a)) text = a; }
        }
        for (auto& l : sc.lines)
        {
            if (l.op != "search") continue;
            Searcher s;
            auto k = l.gw("kind");
            for (int i = 0; i < S_KINDS; ++i) if (k == SEARCHES[i]) s.kind = i;
            s.back = l.gn("back");
            s.raw = l.gn("raw");
            s.b = l.gx("b");
            s.u = l.gu("u");
            for (auto& p : PREDS) if (s.kind == S_WHERE && l.gw("pred") == p.name) s.pred = &p;
            for (size_t i = 0; i < std::size(CATEGORIES); ++i) if (s.kind == S_WHERE && l.gw("pred") == CATEGORIES[i]) s.cls = int(i);
            s.neg = l.gn("neg") && (s.kind == S_SET || s.kind == S_CI_SET);
            if ((s.kind == S_BYTES || s.kind == S_CI) && s.b.empty()) continue;
            if (s.kind == S_CI) { if (!valid_text(s.b)) continue; s.needle = dec(s.b); }
            if (s.kind == S_SET || s.kind == S_CI_SET)
            {
                if (l.has("lo") && l.gn("lo") <= l.gn("hi") && l.gn("hi") <= 0x10FFFF && l.gn("hi") - l.gn("lo") < 2000)
                {
                    s.lo = char32_t(l.gn("lo"));
                    s.hi = char32_t(l.gn("hi"));
                }
                guarded({}, nullptr, [&] {
                    for (auto c : s.u) s.set.add_codepoint(c);
                    if (s.lo <= s.hi) s.set.add_range(s.lo, s.hi);
                    s.set.negated = s.neg;
                });
                bool sure = true;
                if (s.kind == S_CI_SET) for (auto& x : points_of(text)) { bool b; s.ci_member(x.c, &b); sure = sure && b; }
                if (!sure) continue;
            }
            s.expect = all_hits(s, text);
            ss.push_back(std::move(s));
        }
        size_t arrived = 0, size = text.size();
        auto starts = [&](size_t i) { return i >= size || (u8(text[i]) & 0xC0) != 0x80; };
        // one searcher looks at what has arrived
        auto look = [&](Searcher& s, AllocPlan plan, bool last) {
            // the complete code points among what has arrived
            size_t whole = arrived;
            if (!s.back) while (!starts(whole)) --whole;
            else while (whole && !starts(size - whole)) --whole;
            bool part = whole != arrived;
            size_t shown = s.raw ? arrived : whole;
            bool tail = s.raw && part;
            auto piece = s.back ? std::string_view(text).substr(size - shown) : std::string_view(text).substr(0, shown);
            Buf buf(piece);
            auto v = buf.view();
            // what can be found in it
            for (size_t guard = 0; guard < 2 * size + 4; ++guard)
            {
                size_t off = s.back ? shown - std::min(s.done, shown) : std::min(s.done, shown);
                auto where = std::string(SEARCHES[s.kind]) + (s.back ? " search, backward" : " search, forward") + " from " + std::to_string(off)
                             + " for " + (s.pred ? std::string(s.pred->name) : s.cls >= 0 ? std::string(CATEGORIES[s.cls]) : s.b.empty() ? show(enc(s.u)) : show(s.b))
                             + (s.lo <= s.hi ? " or " + std::to_string(s.lo) + "-" + std::to_string(s.hi) : "") + (s.neg ? " (negated)" : "") + " in " + show(v) + " (" + std::to_string(arrived) + " of " + std::to_string(size) + " bytes arrived)";
                // the next match, if all of it has arrived
                const Hit* next = s.found.size() < s.expect.size() ? &s.expect[s.found.size()] : nullptr;
                bool byte = s.kind == S_BYTES;
                auto have = byte ? shown : whole;
                if (next && (s.back ? size - next->pos : next->pos + next->len) > have) next = nullptr;
                // a line break may be only half of one
                bool half = false;
                if (s.kind == S_LINES && whole && !last)
                {
                    auto e = s.back ? size - whole : whole - 1;
                    half = text[e] == (s.back ? '\n' : '\r') && (s.back ? size - s.done > e : s.done <= e);
                    // a complete one may be there before it
                    if (next && half && (s.back ? next->pos == e : next->pos + next->len == whole)) next = nullptr;
                    else if (next) half = false;
                }
                std::pair<ys::Subrange, char32_t> got;
                std::string what;
                // an offset at or beyond the end means the end
                size_t from = off;
                if (s.back && off == shown)
                    switch ((arrived + guard) % 4)
                    {
                    case 0: case 1: from = std::string_view::npos; break;
                    case 2: from = shown + 1 + arrived % 7; break;
                    default: break;
                    }
                auto k = retried(plan, where, &what, [&] { got = search(s, v, from); });
                auto [g, c] = got;
                auto outcome = k == Kind::YEX ? "error" : g ? sub(g) : std::string("nothing");
                R.log("t=" + std::to_string(now) + " " + where + " -> " + outcome);
                R.state(mix(hash_bytes(v.substr(0, std::min<size_t>(v.size(), 64)), u64(s.kind) * 2 + s.back), mix(off, hash_bytes(outcome))));
                if (k == Kind::YEX)
                {
                    if (!tail) violate("search-refused", where + ": " + what);
                    R.count("probe:search-waits-for-a-character");
                    return;
                }
                if (g && (g.offset > v.size() || g.length > v.size() - g.offset)) violate("result-outside", where + " gave " + outcome);
                if (half && !next)
                {
                    // found as far as it has arrived; look again later
                    size_t e = s.back ? 0 : whole - 1;
                    if (s.back && tail) e = shown - whole;
                    if (g && (g.offset != e || g.length != 1)) violate("match-wrong", where + " gave " + outcome);
                    if (!g && !tail) violate("match-missed", where + ": the line break at the end of what has arrived was not found");
                    R.count("probe:half-a-line-break");
                    return;
                }
                if (!next)
                {
                    if (g) violate("false-match", where + " gave " + outcome);
                    size_t keep = byte ? s.b.size() - 1 : 0;
                    if (s.kind == S_CI)
                    {
                        auto cp = points_of(s.back ? std::string_view(text).substr(size - whole) : std::string_view(text).substr(0, whole));
                        size_t m = std::min(cp.size(), s.needle.size() - 1);
                        for (size_t i = 0; i < m; ++i) keep += cp[s.back ? i : cp.size() - 1 - i].len;
                    }
                    s.done = std::max(s.done, have - std::min(have, keep));
                    return;
                }
                Hit h{s.back ? size - shown + g.offset : g.offset, g.length, s.with_char() ? c : 0};
                if (!g) violate("match-missed", where + " found nothing");
                if (!(h == *next)) violate("match-wrong", where + " gave " + outcome + " " + std::to_string(c));
                s.found.push_back(h);
                s.done = s.found_to = s.back ? size - h.pos : h.pos + h.len;
                R.count("probe:matches");
            }
            violate("no-progress", "a searcher of " + show(text) + " keeps finding matches");
        };
        for (auto& l : sc.lines)
        {
            if (l.op != "chunk") continue;
            arrived += std::min<size_t>(size - arrived, size_t(std::max<i64>(0, l.gn("n"))));
            now += l.gn("dt");
            R.count("fault:delayed-piece");
            if (l.has("crash") && size_t(l.gn("crash")) < ss.size())
            {
                auto& s = ss[size_t(l.gn("crash"))];
                s.done = s.found_to;
                R.count("fault:searcher-restarted");
            }
            auto plan = plan_from(l);
            for (size_t i = 0; i < ss.size(); ++i)
            {
                if (!(l.gn("who") >> (i % 4) & 1)) { R.count("fault:late-reader"); continue; }
                look(ss[i], plan, arrived == size);
                plan = {};
            }
        }
        arrived = size;
        for (auto& s : ss)
        {
            look(s, {}, true);
            if (!(s.found == s.expect))
                violate("match-missed", std::to_string(s.found.size()) + " of " + std::to_string(s.expect.size()) + " matches were found in " + show(text));
        }
        for (auto& l : sc.lines)
        {
            if (l.op != "jump" || size_t(l.gn("who")) >= ss.size()) continue;
            auto& s = ss[size_t(l.gn("who"))];
            size_t at = std::min<u64>(size, u64(l.gn("at")));
            if (s.kind != S_BYTES) while (!starts(at)) --at;
            auto hits = all_hits(s, s.back ? text.substr(0, at) : text.substr(at));
            Buf buf(text);
            std::pair<ys::Subrange, char32_t> got;
            std::string what, where = std::string(SEARCHES[s.kind]) + (s.back ? " search, backward" : " search, forward") + " from " + std::to_string(at)
                                      + " for " + (s.pred ? std::string(s.pred->name) : s.cls >= 0 ? std::string(CATEGORIES[s.cls]) : s.b.empty() ? show(enc(s.u)) : show(s.b)) + " in " + show(text);
            auto plan = plan_from(l);
            auto k = retried(plan, where, &what, [&] { got = search(s, buf.view(), at); });
            auto [g, c] = got;
            R.log(where + " -> " + (k == Kind::YEX ? "error" : g ? sub(g) : std::string("nothing")));
            R.count("probe:searches-from-anywhere");
            if (k == Kind::YEX) violate("search-refused", where + ": " + what);
            if (hits.empty() && g) violate("false-match", where + " gave " + sub(g));
            if (hits.empty()) continue;
            if (!g) violate("match-missed", where + " found nothing");
            if (!s.back) hits[0].pos += at;
            if (!(hits[0] == Hit{g.offset, g.length, s.with_char() ? c : 0})) violate("match-wrong", where + " gave " + sub(g) + " " + std::to_string(c));
        }
        R.sim_time += u64(now);
    }

    // ------------------------------------------------------------------ C16
    namespace
    {
        const char* const QUERIES[] = {"char-range", "codepoint", "char-pos", "codepoint-pos", "char-substring",
                                       "codepoint-substring", "count-chars", "count-codepoints"};
        enum { Q_CHAR_RANGE, Q_CP, Q_CHAR_POS, Q_CP_POS, Q_CHAR_SUB, Q_CP_SUB, Q_COUNT_CHARS, Q_COUNT_CPS, Q_N };
    }

    Scenario gen_c16(u64 seed)
    {
        Rng r(seed);
        Scenario sc{"C16", seed, {}};
        sc.lines.push_back(Line("garbage").n("v", i64(r.below(256))));
        auto p = gen_profile(r);
        if (r.chance(2, 3)) p.classes.push_back(7);
        if (p.max_len > 60) p.max_len = 60;
        auto t = gen_text(r, p);
        auto a = enc(t);
        auto rep = gen_rep(r, t, a);
        sc.lines.push_back(Line("text").x("a", a).n("rep", rep));
        i64 n = i64(t.size()) * rep;
        auto pos = [&]() -> i64 {
            switch (r.below(12))
            {
            case 0: { static const i64 far[] = {INT64_MAX, INT64_MIN, INT64_MIN + 1, INT64_MAX - 1, i64(1) << 32, -(i64(1) << 32)}; return far[r.below(6)]; }
            case 1: return n + r.range(-2, 2);
            case 2: return -n + r.range(-2, 2);
            case 3: return 0;
            case 4: return -1;
            default: return r.range(-n - 1, n + 1);
            }
        };
        auto query = [&](Line& l) {
            l.w("what", QUERIES[r.below(Q_N)]).n("p", pos()).n("q", pos()).n("back", r.chance(1, 2)).n("raw", r.chance(1, 4));
        };
        size_t maxp = 1 + r.below(r.chance(1, 2) ? 4 : 12);
        size_t left = a.size() * size_t(rep);
        if (rep > 1) maxp = std::max(maxp, left / 6);
        do
        {
            auto k = std::min<size_t>(left, 1 + r.below(maxp));
            left -= k;
            Line l("chunk");
            l.n("n", i64(k)).n("dt", r.chance(1, 10) ? i64(r.below(10000)) : i64(r.below(40)));
            l.n("who", i64(r.chance(1, 2) ? 3 : r.below(4)));
            if (r.chance(1, 12)) l.n("crash", 1);
            with_fault(r, l, 1, 5);
            sc.lines.push_back(l);
            for (size_t q = r.below(4); q--;)
            {
                Line x("ask");
                query(x);
                with_fault(r, x, 1, 4);
                sc.lines.push_back(x);
            }
        }
        while (left);
        for (size_t q = r.below(8); q--;)
        {
            Line x("ask");
            query(x);
            with_fault(r, x, 1, 4);
            sc.lines.push_back(x);
        }
        return sc;
    }

    void exec_c16(const Scenario& sc)
    {
        std::string text;
        for (auto& l : sc.lines)
        {
            if (l.op == "garbage") set_garbage(u8(l.gn("v")));
            else if (l.op == "text") { auto a = repeated(l, "a"); if (valid_text(a)) text = a; }
        }
        size_t size = text.size(), arrived = 0;
        i64 now = 0;
        // starts of the code points and of the characters of a text, and its end
        auto cp_bounds = [](std::string_view s) {
            std::vector<size_t> r;
            for (auto& x : points_of(s)) r.push_back(x.pos);
            r.push_back(s.size());
            return r;
        };
        auto char_bounds = [](std::string_view s) {
            std::vector<size_t> r;
            for (auto& x : points_of(s)) if (r.empty() || !uni::mark(x.c)) r.push_back(x.pos);
            r.push_back(s.size());
            return r;
        };
        auto all_chars = char_bounds(text);
        // two readers walk the text character by character, from its start and from its end
        struct Walker { size_t off = 0, last = 0; std::vector<size_t> seen; } fw, bw;
        auto whole_of = [&](bool back) {
            size_t w = arrived;
            if (!back) while (w < size && (u8(text[w]) & 0xC0) == 0x80) --w;
            else while (w && (u8(text[size - w]) & 0xC0) == 0x80) --w;
            return w;
        };
        auto walk = [&](Walker& w, bool back, AllocPlan plan, bool last) {
            auto whole = whole_of(back);
            Buf buf(back ? std::string_view(text).substr(size - whole) : std::string_view(text).substr(0, whole));
            auto v = buf.view();
            auto b = char_bounds(v);
            auto vh = hash_bytes(v, back);
            while (w.off < whole)
            {
                auto off = back ? whole - w.off : w.off;
                ys::Subrange s;
                std::string what, where = std::string(back ? "the character before " : "the character at ") + std::to_string(off) + " of " + show(v);
                if (retried(plan, where, &what, [&] { s = back ? ys::get_prev_char_range(v, off) : ys::get_next_char_range(v, off); }) != Kind::OK)
                    violate("position-refused", where + ": " + what);
                R.log("t=" + std::to_string(now) + " " + where + " -> " + sub(s));
                R.state(mix(vh, mix(off, s.length)));
                auto it = back ? std::lower_bound(b.begin(), b.end(), off) - 1 : std::upper_bound(b.begin(), b.end(), off);
                size_t lo = back ? *it : off, hi = back ? off : *it;
                if (s.offset != lo || s.length != hi - lo) violate("wrong-range", where + " is " + sub(s));
                // marks that belong to it may still be under way
                bool open = !last && (back ? s.offset == 0 && uni::mark(points_of(v)[0].c) : s.offset + s.length == whole);
                if (open) { R.count("probe:open-character"); return; }
                w.off += s.length;
                w.seen.push_back(back ? size - w.off : w.off);
                R.count("probe:characters-walked");
            }
        };
        for (auto& l : sc.lines)
        {
            auto plan = plan_from(l);
            if (l.op == "chunk")
            {
                arrived += std::min<size_t>(size - arrived, size_t(std::max<i64>(0, l.gn("n"))));
                now += l.gn("dt");
                R.count("fault:delayed-piece");
                if (l.gn("crash"))
                {
                    // the walkers start over
                    fw = bw = Walker();
                    R.count("fault:reader-restarted");
                }
                if (l.gn("who") & 1) walk(fw, false, plan, arrived == size); else R.count("fault:late-reader");
                if (l.gn("who") & 2) walk(bw, true, plan, arrived == size); else R.count("fault:late-reader");
                continue;
            }
            if (l.op != "ask") continue;
            bool back = l.gn("back"), raw = l.gn("raw");
            auto name = l.gw("what");
            int q = -1;
            for (int i = 0; i < Q_N; ++i) if (name == QUERIES[i]) q = i;
            if (q < 0) continue;
            auto whole = whole_of(back);
            bool part = raw && whole != arrived;
            size_t shown = raw ? arrived : whole;
            Buf buf(back ? std::string_view(text).substr(size - shown) : std::string_view(text).substr(0, shown));
            auto v = buf.view();
            auto p = l.gn("p"), p2 = l.gn("q");
            // with part of a code point at one end, positions counted from the other end are known
            if (part && (back ? p >= 0 : p < 0)) continue;
            size_t shift = part && back ? shown - whole : 0;
            auto known = part ? v.substr(shift, whole) : v;
            bool chars = q == Q_CHAR_RANGE || q == Q_CHAR_POS || q == Q_CHAR_SUB || q == Q_COUNT_CHARS;
            auto b = chars ? char_bounds(known) : cp_bounds(known);
            for (auto& x : b) x += shift;
            i64 n = i64(b.size()) - 1;
            std::string what, where = name + " " + std::to_string(p);
            if (q == Q_CHAR_SUB || q == Q_CP_SUB) where += " to " + std::to_string(p2);
            where += " of " + show(v);
            ys::Subrange s;
            size_t num = 0;
            char32_t c = 0;
            auto k = retried(plan, where, &what, [&] {
                std::string_view w;
                switch (q)
                {
                case Q_CHAR_RANGE: s = ys::get_char_range(v, p); break;
                case Q_CP: std::tie(s, c) = ys::get_codepoint(v, p); break;
                case Q_CHAR_POS: num = ys::get_char_pos(v, p); break;
                case Q_CP_POS: num = ys::get_codepoint_pos(v, p); break;
                case Q_CHAR_SUB: w = ys::get_char_substring(v, p, p2); break;
                case Q_CP_SUB: w = ys::get_codepoint_substring(v, p, p2); break;
                case Q_COUNT_CHARS: num = ys::count_chars(v); break;
                default: num = ys::count_codepoints(v); break;
                }
                if (w.data() >= v.data() && w.data() <= v.data() + v.size()) s = {size_t(w.data() - v.data()), w.size()};
                else if (!w.empty()) s = {SIZE_MAX, w.size()};
            });
            R.log("t=" + std::to_string(now) + " " + where + " -> " + kind_name(k) + " " + sub(s) + " " + std::to_string(num) + " " + std::to_string(c));
            R.state(mix(hash_bytes(v, u64(q)), mix(u64(p), mix(u64(k), mix(s.offset, s.length)))));
            R.count("probe:positions-asked");
            if (k == Kind::YEX)
            {
                if (!part) violate("position-refused", where + ": " + what);
                // not if it lies well before the part
                i64 i = p < 0 ? -(p + 1) : p;
                if ((q == Q_CHAR_RANGE || q == Q_CP || q == Q_CP_POS || q == Q_CHAR_POS) && i < n - 1)
                    violate("position-refused", where + ": " + what);
                R.count("probe:position-not-known-yet");
                continue;
            }
            if (s && (s.offset > v.size() || s.length > v.size() - s.offset)) violate("result-outside", where + " is " + sub(s));
            auto clamp = [&](i64 x) -> size_t {
                if (x >= 0) return size_t(std::min(x, n));
                return x < -n ? 0 : size_t(n + x);
            };
            i64 i = p >= 0 ? p : p < -n ? -1 : n + p;   // which one is meant
            bool there = i >= 0 && i < n;
            if (part)
            {
                // the last one before the part may be given or withheld, what lies in the part is not known
                i64 from = p >= 0 ? p : -(p + 1);
                if (q >= Q_CHAR_SUB || from >= n - 1) continue;
            }
            switch (q)
            {
            case Q_CHAR_RANGE:
            case Q_CP:
                if (!there && s) violate("position-wrong", where + " is " + sub(s) + ", but there is none");
                if (!there) { R.count("probe:out-of-bounds"); break; }
                if (s.offset != b[size_t(i)] || s.offset + s.length != b[size_t(i) + 1]) violate("position-wrong", where + " is " + sub(s));
                if (q == Q_CP)
                {
                    char32_t w = 0;
                    seq_len(v, s.offset, &w);
                    if (c != w) violate("wrong-character", where + " is " + std::to_string(c));
                }
                if (!part)
                {
                    // counted from the other end it is the same one
                    ys::Subrange s2;
                    AllocPlan none;
                    i64 other = p >= 0 ? p - n : p + n;
                    if (retried(none, where, &what, [&] { s2 = q == Q_CP ? ys::get_codepoint(v, other).first : ys::get_char_range(v, other); }) != Kind::OK)
                        violate("position-refused", where + ": " + what);
                    if (s2.offset != s.offset || s2.length != s.length)
                        violate("ends-disagree", where + " is " + sub(s) + ", position " + std::to_string(other) + " is " + sub(s2));
                }
                break;
            case Q_CHAR_POS:
            case Q_CP_POS:
            {
                bool in = p >= -n && p <= n;
                auto want = !in ? std::string_view::npos : b[size_t(p >= 0 ? p : n + p)];
                if (num != want) violate("position-wrong", where + " is " + std::to_string(num) + " instead of " + std::to_string(want));
                if (!in) R.count("probe:out-of-bounds");
                break;
            }
            case Q_CHAR_SUB:
            case Q_CP_SUB:
            {
                auto f = clamp(p), e = std::max(f, clamp(p2));
                auto len = b[e] - b[f];
                if (s.length != len || (len && s.offset != b[f]))
                    violate("position-wrong", where + " is " + sub(s) + " instead of [" + std::to_string(b[f]) + ", " + std::to_string(b[e]) + ")");
                break;
            }
            default:
                if (num != size_t(n)) violate("count-wrong", where + " is " + std::to_string(num) + " instead of " + std::to_string(n));
            }
        }
        arrived = size;
        walk(fw, false, {}, true);
        walk(bw, true, {}, true);
        std::vector<size_t> f(all_chars.begin() + (size ? 1 : 0), all_chars.end()), g(all_chars.rbegin() + (size ? 1 : 0), all_chars.rend());
        if (!size) f.clear(), g.clear();
        if (fw.seen != f || bw.seen != g) violate("characters-lost", "walking " + show(text) + " by characters");
        R.sim_time += u64(now);
    }
}
