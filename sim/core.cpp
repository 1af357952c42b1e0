#include "core.hpp"
#include "unidata.hpp"
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <unistd.h>
#include <sys/mman.h>

namespace sim
{
    Report R;

    u64 mix(u64 a, u64 b)
    {
        u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    Rng::Rng(u64 seed)
    {
        for (int i = 0; i < 4; ++i)
            s[i] = mix(seed, i + 1);
    }

    u64 Rng::next()
    {
        auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
        u64 result = rotl(s[1] * 5, 7) * 9;
        u64 t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return result;
    }

    std::string hex(std::string_view s)
    {
        static const char d[] = "0123456789abcdef";
        std::string r;
        for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
        return r;
    }

    std::string show(std::string_view s)
    {
        std::string r = "\"";
        size_t n = 0;
        for (unsigned char c : s)
        {
            if (++n > 120) { r += "..."; break; }
            if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c);
            else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        }
        return r + "\"(" + std::to_string(s.size()) + ")";
    }

    u64 hash_bytes(std::string_view s, u64 h)
    {
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h;
    }

    // ---- lines
    Line& Line::n(const char* k, i64 v) { kv.emplace_back(k, std::to_string(v)); return *this; }
    Line& Line::x(const char* k, std::string_view v) { kv.emplace_back(k, "x:" + hex(v)); return *this; }
    Line& Line::u(const char* k, std::u32string_view v)
    {
        std::string r = "u:";
        char b[16];
        for (size_t i = 0; i < v.size(); ++i)
        {
            snprintf(b, sizeof b, "%s%x", i ? "," : "", unsigned(v[i]));
            r += b;
        }
        kv.emplace_back(k, r);
        return *this;
    }
    Line& Line::w(const char* k, std::string v) { kv.emplace_back(k, std::move(v)); return *this; }
    static const std::string* find(const Line& l, const char* k)
    {
        for (auto& p : l.kv)
            if (p.first == k) return &p.second;
        return nullptr;
    }
    bool Line::has(const char* k) const { return find(*this, k) != nullptr; }
    i64 Line::gn(const char* k, i64 def) const
    {
        auto p = find(*this, k);
        return p ? strtoll(p->c_str(), nullptr, 10) : def;
    }
    std::string Line::gx(const char* k) const
    {
        auto p = find(*this, k);
        std::string r;
        if (!p) return r;
        auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
        for (size_t i = 2; i + 1 < p->size(); i += 2)
            r += char(v((*p)[i]) * 16 + v((*p)[i + 1]));
        return r;
    }
    std::u32string Line::gu(const char* k) const
    {
        auto p = find(*this, k);
        std::u32string r;
        if (!p || p->size() < 3) return r;
        const char* c = p->c_str() + 2;
        while (*c)
        {
            char* e;
            r += char32_t(strtoul(c, &e, 16));
            if (e == c) break;
            c = *e ? e + 1 : e;
        }
        return r;
    }
    std::string Line::gw(const char* k, const char* def) const
    {
        auto p = find(*this, k);
        return p ? *p : std::string(def);
    }
    std::string Line::str() const
    {
        std::string r = op;
        for (auto& [k, v] : kv) r += " " + k + "=" + v;
        return r;
    }

    std::string Scenario::str() const
    {
        std::string r = "ysim 1\nproperty " + prop + "\nseed " + std::to_string(seed) + "\n";
        for (auto& l : lines) r += l.str() + "\n";
        return r;
    }

    Scenario Scenario::parse(const std::string& text)
    {
        Scenario sc;
        size_t i = 0;
        while (i < text.size())
        {
            size_t e = text.find('\n', i);
            if (e == std::string::npos) e = text.size();
            std::string line = text.substr(i, e - i);
            i = e + 1;
            if (line.empty() || line[0] == '#') continue;
            Line l;
            size_t p = line.find(' ');
            l.op = line.substr(0, p);
            while (p != std::string::npos)
            {
                size_t q = line.find(' ', p + 1);
                std::string t = line.substr(p + 1, q == std::string::npos ? q : q - p - 1);
                p = q;
                if (t.empty()) continue;
                size_t eq = t.find('=');
                if (eq == std::string::npos) l.kv.emplace_back("", t);
                else l.kv.emplace_back(t.substr(0, eq), t.substr(eq + 1));
            }
            if (l.op == "ysim") continue;
            if (l.op == "property") { sc.prop = l.gw(""); continue; }
            if (l.op == "seed") { sc.seed = strtoull(l.gw("").c_str(), nullptr, 10); continue; }
            sc.lines.push_back(std::move(l));
        }
        return sc;
    }

    void violate(std::string cls, std::string detail) { throw Violation{std::move(cls), std::move(detail)}; }
    void harness_error(const std::string& what) { throw std::logic_error("harness: " + what); }

    void Report::log(std::string_view s)
    {
        hash = hash_bytes(s, hash);
        hash = hash_bytes("\n", hash);
        if (verbose)
            printf("| %.*s\n", int(s.size()), s.data());
    }

    // ---- UTF-8 model
    std::string enc(char32_t c)
    {
        std::string r;
        if (c < 0x80) r += char(c);
        else if (c < 0x800) { r += char(0xC0 | (c >> 6)); r += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += char(0xE0 | (c >> 12)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
        else { r += char(0xF0 | (c >> 18)); r += char(0x80 | ((c >> 12) & 63)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
        return r;
    }
    std::string enc(std::u32string_view s)
    {
        std::string r;
        for (auto c : s) r += enc(c);
        return r;
    }
    size_t seq_len(std::string_view s, size_t pos, char32_t* cp)
    {
        if (pos >= s.size()) return 0;
        auto b = u8(s[pos]);
        size_t n;
        char32_t v;
        if (b < 0x80) { n = 1; v = b; }
        else if (b >= 0xC0 && b < 0xE0) { n = 2; v = b & 0x1F; }
        else if (b >= 0xE0 && b < 0xF0) { n = 3; v = b & 0x0F; }
        else if (b >= 0xF0 && b < 0xF8) { n = 4; v = b & 0x07; }
        else return 0;
        if (n > s.size() - pos) return 0;
        for (size_t i = 1; i < n; ++i)
        {
            auto c = u8(s[pos + i]);
            if (c < 0x80 || c >= 0xC0) return 0;
            v = (v << 6) | (c & 63);
        }
        if (cp) *cp = v;
        return n;
    }
    bool structurally_valid(std::string_view s)
    {
        size_t i = 0;
        while (i < s.size())
        {
            auto n = seq_len(s, i);
            if (!n) return false;
            i += n;
        }
        return true;
    }
    std::u32string dec(std::string_view s)
    {
        std::u32string r;
        size_t i = 0;
        while (i < s.size())
        {
            char32_t c;
            auto n = seq_len(s, i, &c);
            if (!n) harness_error("model text is not valid UTF-8");
            r += c;
            i += n;
        }
        return r;
    }

    // ---- text generation
    namespace
    {
        const std::u32string CLS[] = {
            U"abcdefgXYZABCQqwerty",                      // 0 letters
            U"0123456789",                                // 1
            U" \t\n\r\f\v",                               // 2 white space
            U",;.-_/\\\"'[]{}()<>|=+*!?%&#$@^~`:",        // 3 punctuation
            U"\u00e5\u00f8\u00c5\u00d8\u00e6\u00c6\u00e9\u00df\u00b5\u00ff\u0100\u0101\u0131\u017f\u0130\u00c4\u00d6\u01c5\u01d5\u0391\u03b1\u03a9\u03c2\u0410\u0430\u0080\u07ff", // 4 two bytes
            U"\u20ac\u2039\u221a\ufb01\u1e9e\u1fa7\u1f82\u1fb7\u0958\u4e2d\uac00\u1e0d\u1e0e\u0800\ufffd\uffff\u2160\u24d0", // 5 three bytes
            U"\U0001f600\U00010400\U00010428\U0001d15e\U0010ffff\U00010000\U0001e943\U0002f800\U000e0001\U0001f3f4\U00020000", // 6 four bytes
            U"\u0300\u0301\u0308\u0304\u030a\u0342\u0345\u0310\u20d0\ufe0f\u0903\u0323\U0001d165\U0001e944", // 7 marks
            std::u32string(U"\0\1\2\7\b\x1b\x1f\x7f", 8), // 8 controls
            U"\u0085\u2028\u2029\n\r",                    // 9 newlines
            U"ab",                                        // 10 tiny alphabet (many repeats)
            U"\u00e5\u00c5a\u030aA",                      // 11 composable
            {},                                           // 12 anything
            {},                                           // 13 letters that have another case
            {},                                           // 14 composed characters, or their parts
            {},                                           // 15 where a class begins or ends
        };
        constexpr int MARKS = 7, CASED = 13, COMPOSED = 14, CLASS_EDGES = 15;
    }

    Profile gen_profile(Rng& r)
    {
        Profile p;
        size_t n = 1 + r.below(4);
        for (size_t i = 0; i < n; ++i)
            p.classes.push_back(int(r.below(std::size(CLS))));
        switch (r.below(12))
        {
        case 0: p.max_len = 200; break;
        case 1: p.max_len = 60; break;
        case 2: case 3: p.max_len = 4; break;
        default: p.max_len = 16; break;
        }
        if (r.chance(1, 40)) p.max_len = 500;
        p.alias = r.chance(1, 6);
        p.mates = r.chance(1, 8);
        return p;
    }

    char32_t fold_mate(Rng& r, char32_t c)
    {
        // (upper case, code point), sorted
        static const auto rows = [] {
            std::vector<std::pair<char32_t, char32_t>> v;
            auto put = [&](char32_t x) { v.emplace_back(uni::upper(x), x); };
            for (size_t i = 0; i < uni::CASE_ROW_COUNT; ++i)
            {
                auto& row = uni::CASE_ROWS[i];
                put(row.c); put(row.upper); put(row.lower); put(row.title);
            }
            std::sort(v.begin(), v.end());
            v.erase(std::unique(v.begin(), v.end()), v.end());
            return v;
        }();
        auto up = uni::upper(c);
        auto lo = std::lower_bound(rows.begin(), rows.end(), std::pair<char32_t, char32_t>(up, 0));
        auto hi = lo;
        while (hi != rows.end() && hi->first == up) ++hi;
        if (hi - lo < 2) return c;
        auto k = r.below(u64(hi - lo));
        if (lo[k].second == c) k = (k + 1) % u64(hi - lo);
        return lo[k].second;
    }

    char32_t alias(Rng& r, char32_t c)
    {
        if (r.chance(1, 4))
            if (auto m = fold_mate(r, c); m != c) return m;
        static const unsigned bits[] = {0x20, 0x20, 0x10000, 0x10000, 0x100, 0x80, 0x40, 1, 0x1000};
        for (int i = 0; i < 8; ++i)
        {
            auto v = c ^ (r.chance(3, 4) ? bits[r.below(std::size(bits))] : 1u << r.below(21));
            if (v <= 0x10FFFF && (v < 0xD800 || v > 0xDFFF)) return v;
        }
        return c;
    }

    char32_t gen_cp(Rng& r, const Profile& p)
    {
        auto cls = p.classes[r.below(p.classes.size())];
        auto& c = CLS[cls];
        if (cls == MARKS && r.chance(1, 3))
        {
            // any mark, often the first or last of its kind in a row
            static const auto rows = [] {
                std::vector<const uni::ClassRow*> v;
                for (size_t i = 0; i < uni::CLASS_ROW_COUNT; ++i)
                    if (uni::CLASS_ROWS[i].cls[0] == 'M') v.push_back(&uni::CLASS_ROWS[i]);
                return v;
            }();
            if (!rows.empty())
            {
                auto& row = *rows[r.below(rows.size())];
                return r.chance(1, 2) ? row.lo : r.chance(1, 2) ? row.hi : row.lo + char32_t(r.below(row.hi - row.lo + 1));
            }
        }
        if (!c.empty())
            return c[r.below(c.size())];
        if (cls == CASED && r.chance(1, 5))
        {
            // one with a title case of its own
            static const auto titled = [] {
                std::u32string s;
                for (size_t i = 0; i < uni::CASE_ROW_COUNT; ++i)
                    if (uni::CASE_ROWS[i].title != uni::CASE_ROWS[i].upper) s += uni::CASE_ROWS[i].c;
                return s;
            }();
            if (!titled.empty()) return titled[r.below(titled.size())];
        }
        if (cls == CASED)
            return uni::CASE_ROWS[r.below(uni::CASE_ROW_COUNT)].c;
        if (cls == COMPOSED)
        {
            auto& row = uni::PAIR_ROWS[r.below(uni::PAIR_ROW_COUNT)];
            return r.chance(1, 2) ? row.c : r.chance(1, 2) ? row.a : row.b;
        }
        char32_t v;
        if (cls == CLASS_EDGES)
        {
            auto& row = uni::CLASS_ROWS[r.below(uni::CLASS_ROW_COUNT)];
            v = r.chance(1, 2) ? row.lo : row.hi;
            if (r.chance(1, 3)) v += r.chance(1, 2) ? 1 : -1;
            if (v < 0xD800 || (v > 0xDFFF && v <= 0x10FFFF)) return v;
        }
        do
        {
            switch (r.below(4))
            {
            case 0: v = char32_t(r.below(0x110000)); break;
            case 1: v = char32_t(r.below(0x10000)); break;
            case 2: v = char32_t(r.below(0x3000)); break;
            default: v = char32_t(0x10000 + r.below(0x2000 * 16)); break;
            }
        }
        while (v >= 0xD800 && v < 0xE000);
        return v;
    }

    std::u32string gen_text(Rng& r, const Profile& p)
    {
        size_t n = r.below(p.max_len + 1);
        std::u32string s;
        for (size_t i = 0; i < n; ++i)
            s += p.mates && i && r.chance(1, 3) ? fold_mate(r, s[r.below(i)]) : p.alias && i && r.chance(1, 4) ? alias(r, s[r.below(i)]) : gen_cp(r, p);
        return s;
    }

    std::string gen_escaped(Rng& r, const Profile& p)
    {
        std::string s;
        size_t n = r.below(p.max_len < 12 ? p.max_len + 1 : 12);
        auto hexd = [&](size_t k) { std::string h; while (k--) h += "0123456789abcdefABCDEF"[r.below(22)]; return h; };
        for (size_t i = 0; i < n; ++i)
        {
            switch (r.below(11))
            {
            case 0: s += "\\"; s += "abfnrtv"[r.below(7)]; break;
            case 1: s += r.chance(1, 2) ? "\\x" : "\\X"; s += hexd(1 + r.below(r.chance(1, 6) ? 10 : 4)); break;
            case 2: s += "\\u"; s += hexd(4); break;
            case 3: s += "\\u"; s += "d8"; s += hexd(2); s += "\\u"; s += "dc"; s += hexd(2); break;
            case 4: s += "\\U00"; s += r.chance(3, 4) ? "0" : "1"; s += hexd(5); break;
            case 5: { s += "\\"; size_t k = 1 + r.below(3); while (k--) s += char('0' + r.below(8)); break; }
            case 6: s += "\\\n"; break;
            case 7: s += "\\"; s += enc(gen_cp(r, p)); break;
            case 8: s += "\\"; s += "\\\"'[]^-?"[r.below(8)]; break;
            default: s += enc(gen_cp(r, p)); break;
            }
        }
        return s;
    }

    // ---- damage
    Line gen_damage(Rng& r, size_t size)
    {
        i64 pos = i64(r.below(size + 1));
        switch (r.below(9))
        {
        case 0: case 1: return Line("dmg").w("kind", "flip").n("pos", pos).n("v", i64(r.below(8)));
        case 2: return Line("dmg").w("kind", "set").n("pos", pos).n("v", i64(r.chance(1, 2) ? r.below(256) : 0x80 + r.below(128)));
        case 3: return Line("dmg").w("kind", "lose").n("pos", pos).n("v", i64(1 + r.below(3)));
        case 4: return Line("dmg").w("kind", "insert").n("pos", pos).n("v", i64(r.chance(1, 2) ? r.below(256) : 0x80 + r.below(128)));
        case 5: return Line("dmg").w("kind", "truncate").n("pos", i64(r.below(6))).n("v", 0);
        case 6: return Line("dmg").w("kind", "behead").n("pos", i64(r.below(6))).n("v", 0);
        case 7: return Line("dmg").w("kind", "duplicate").n("pos", pos).n("v", i64(1 + r.below(5)));
        default: return Line("dmg").w("kind", "swap").n("pos", pos).n("v", i64(1 + r.below(4)));
        }
    }

    bool apply_damage(const Line& l, Tagged& t)
    {
        auto kind = l.gw("kind");
        i64 pos = l.gn("pos"), v = l.gn("v");
        i64 size = i64(t.bytes.size());
        auto b = t.bytes.begin();
        auto g = t.tag.begin();
        if (pos < 0 || pos > size || v < 0) return false;
        if (kind == "flip")
        {
            if (pos >= size) return false;
            t.bytes[pos] = char(u8(t.bytes[pos]) ^ (1u << (v & 7)));
            t.tag[pos] = -1;
        }
        else if (kind == "set")
        {
            if (pos >= size || u8(t.bytes[pos]) == u8(v)) return false;
            t.bytes[pos] = char(v);
            t.tag[pos] = -1;
        }
        else if (kind == "lose")
        {
            v = std::min(v, size - pos);
            if (!v) return false;
            t.bytes.erase(b + pos, b + pos + v);
            t.tag.erase(g + pos, g + pos + v);
        }
        else if (kind == "insert")
        {
            t.bytes.insert(b + pos, char(v));
            t.tag.insert(g + pos, -1);
        }
        else if (kind == "truncate")
        {
            pos = std::min(pos, size);
            if (!pos) return false;
            t.bytes.resize(size - pos);
            t.tag.resize(size - pos);
        }
        else if (kind == "behead")
        {
            pos = std::min(pos, size);
            if (!pos) return false;
            t.bytes.erase(0, pos);
            t.tag.erase(g, g + pos);
        }
        else if (kind == "duplicate")
        {
            v = std::min(v, size - pos);
            if (!v) return false;
            auto sb = t.bytes.substr(pos, v);
            std::vector<i64> sg(g + pos, g + pos + v);
            t.bytes.insert(pos, sb);
            t.tag.insert(t.tag.begin() + pos, sg.begin(), sg.end());
        }
        else if (kind == "swap")
        {
            if (pos + 2 * v > size || !v) return false;
            std::swap_ranges(b + pos, b + pos + v, b + pos + v);
            std::swap_ranges(g + pos, g + pos + v, g + pos + v);
        }
        else return false;
        R.count("fault:damage-" + kind);
        return true;
    }
}

std::u32string sim::uni::decompose(char32_t c)
{
    static const std::map<char32_t, const PairRow*> by_composite = [] {
        std::map<char32_t, const PairRow*> m;
        for (size_t i = 0; i < PAIR_ROW_COUNT; ++i) m[PAIR_ROWS[i].c] = &PAIR_ROWS[i];
        return m;
    }();
    auto it = by_composite.find(c);
    return it == by_composite.end() ? std::u32string(1, c) : decompose(it->second->a) + it->second->b;
}
