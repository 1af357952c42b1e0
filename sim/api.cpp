#include "api.hpp"
#ifdef SIM_THREADS
#include "threads.hpp"
#endif
#include <Ystring/CaseInsensitive.hpp>
#include <Ystring/CharClass.hpp>
#include <Ystring/CodepointPredicates.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/Escape.hpp>
#include <Ystring/Normalize.hpp>
#include <Ystring/Unescape.hpp>
#include <Ystring/Utf32.hpp>
#include <deque>
#include <list>
#include <locale>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define SIM_ASAN 1
#endif
#endif

namespace ys = ystring;
namespace ci = ystring::case_insensitive;

namespace sim
{
    // ---- buffers
    bool g_pool = false;
    static std::map<size_t, std::vector<char*>> pool;

    Buf::Buf(std::string_view s, bool null_if_empty) : n_(s.size())
    {
        if (n_ == 0 && null_if_empty)
            return;
        if (g_pool && n_ && !pool[n_].empty())
        {
            p_ = pool[n_].back();
            pool[n_].pop_back();
            owned_ = pooled_ = true;
            memcpy(p_, s.data(), n_);
            return;
        }
        pooled_ = g_pool && n_;
        p_ = static_cast<char*>(malloc(n_ ? n_ : 16));
        owned_ = true;
        if (n_) memcpy(p_, s.data(), n_);
#ifdef SIM_ASAN
        else __asan_poison_memory_region(p_, 16);
#endif
    }
    Buf& Buf::operator=(Buf&& b) noexcept
    {
        std::swap(p_, b.p_);
        std::swap(n_, b.n_);
        std::swap(owned_, b.owned_);
        std::swap(pooled_, b.pooled_);
        return *this;
    }
    Buf::~Buf()
    {
        if (!owned_) return;
        if (pooled_)
        {
            pool[n_].push_back(p_);
            return;
        }
#ifdef SIM_ASAN
        if (!n_) __asan_unpoison_memory_region(p_, 16);
#endif
        free(p_);
    }
    Buf32::Buf32(std::u32string_view s)
        : b_(std::string_view(reinterpret_cast<const char*>(s.data()), s.size() * 4))
    {}

    // ---- values
    void Value::r(const ys::Subrange& s)
    {
        n(i64(s.offset));
        n(i64(s.length));
        if (s.length && (s.offset > base.size() || s.length > base.size() - s.offset))
            outside = true;
    }

    bool Value::views_inside() const
    {
        for (auto& v : views)
        {
            if (v.empty()) continue;
            if (std::less<const char*>()(v.data(), base.data())
                || std::less<const char*>()(base.data() + base.size(), v.data())
                || v.size() > size_t(base.data() + base.size() - v.data()))
                return false;
        }
        return true;
    }

    std::string Value::render() const
    {
        std::string r;
        for (auto x : nums) { r += std::to_string(x); r += ' '; }
        for (auto& s : strs) { r += '"'; r += hex(s); r += "\" "; }
        for (auto& s : u32s)
        {
            r += '<';
            char b[12];
            for (auto c : s) { snprintf(b, sizeof b, "%x,", unsigned(c)); r += b; }
            r += "> ";
        }
        bool ok = views_inside();
        for (auto& v : views)
        {
            if (v.empty()) { r += "@:0 "; continue; }
            r += '@';
            r += ok ? std::to_string(v.data() - base.data()) : std::string("OUT");
            r += ':';
            r += std::to_string(v.size());
            if (ok) { r += '='; r += hex(v); }
            r += ' ';
        }
        return r;
    }

    std::string Outcome::str(bool with_message) const
    {
        std::string r;
        switch (kind)
        {
        case Kind::OK: r = "ok " + value; break;
        case Kind::YEX: r = "error"; break;
        case Kind::OOM: r = "out-of-memory"; break;
        case Kind::OTHER: r = "other-exception"; break;
        }
        if (kind != Kind::OK && kind != Kind::OOM && with_message) r += " [" + what + "]";
        if (r.size() > 400) { r.resize(400); r += "..."; }
        return r;
    }

    // ---- operations
#define L(expr) ([&]() -> decltype(auto) { LibScope s_; return (expr); }())
#define OP(name, args, flags, body) Op{name, args, flags, [](const In& i, Value& v) { (void)i; body }}

    SIM_TLS i64 g_callback_throw = 0;

    namespace
    {
        void in_callback()
        {
#ifdef SIM_THREADS
            yield_point();
#endif
            if (g_callback_throw && --g_callback_throw == 0)
            {
                R.count("fault:callback-threw");
                throw std::runtime_error("callback");
            }
        }
        struct In32
        {
            std::u32string_view u;
            bool operator()(char32_t c) const
            {
                HarnessScope h;
                in_callback();
                return u.find(c) != std::u32string_view::npos;
            }
        };
        struct FindBytes
        {
            std::string_view sep;
            ys::Subrange operator()(std::string_view s) const
            {
                HarnessScope h;
                in_callback();
                auto p = sep.empty() ? std::string_view::npos : s.find(sep);
                if (p == std::string_view::npos) return {s.size(), 0};
                return {p, sep.size()};
            }
        };
        std::vector<std::string_view> pieces(std::string_view a, i64 n)
        {
            std::vector<std::string_view> r;
            size_t k = 1 + size_t(n < 0 ? -(n + 1) : n) % 7;
            for (size_t i = 0; i < a.size(); i += k)
                r.push_back(a.substr(i, k));
            return r;
        }
        template <class T> std::string stream(const T& t)
        {
            std::ostringstream os;
            os.imbue(std::locale::classic());
            L((os << t, 0));
            if (!os) throw std::bad_alloc(); // how a string stream reports it
            return os.str();
        }
        ys::Subrange sub(const In& i) { return {size_t(i.o), size_t(i.n)}; }
    }

    const std::vector<Op>& ops()
    {
        static const std::vector<Op> table = {
            OP("append_inplace", "ac", PRODUCES_TEXT, { std::string s(i.a); L(ys::append(s, i.c)); v.s(std::move(s)); }),
            OP("append", "ac", PRODUCES_TEXT, { v.s(L(ys::append(i.a, i.c))); }),
            OP("contains", "ac", 0, { v.n(L(ys::contains(i.a, i.c))); }),
            OP("count_chars", "a", 0, { v.n(L(ys::count_chars(i.a))); }),
            OP("count_codepoints", "a", 0, { v.n(L(ys::count_codepoints(i.a))); }),
            OP("ends_with", "ab", 0, { v.n(L(ys::ends_with(i.a, i.b))); }),
            OP("find_first", "abo", 0, { v.r(L(ys::find_first(i.a, i.b, i.o))); }),
            OP("find_first_newline", "ao", 0, { v.r(L(ys::find_first_newline(i.a, i.o))); }),
            OP("find_first_of", "auo", 0, { v.r(L(ys::find_first_of(i.a, i.u, i.o))); }),
            OP("find_first_of_set", "aSo", 0, { v.r(L(ys::find_first_of(i.a, *i.set, i.o))); }),
            OP("find_first_where", "auo", 0, { v.r(L(ys::find_first_where(i.a, In32{i.u}, i.o))); }),
            OP("find_last", "abo", 0, { v.r(L(ys::find_last(i.a, i.b, i.o))); }),
            OP("find_last_newline", "ao", 0, { v.r(L(ys::find_last_newline(i.a, i.o))); }),
            OP("find_last_of", "auo", 0, { v.r(L(ys::find_last_of(i.a, i.u, i.o))); }),
            OP("find_last_of_set", "aSo", 0, { v.r(L(ys::find_last_of(i.a, *i.set, i.o))); }),
            OP("find_last_where", "auo", 0, { v.r(L(ys::find_last_where(i.a, In32{i.u}, i.o))); }),
            OP("get_char_pos", "an", 0, { v.n(i64(L(ys::get_char_pos(i.a, i.n)))); }),
            OP("get_char_range", "an", 0, { v.r(L(ys::get_char_range(i.a, i.n))); }),
            OP("get_char_substring", "anm", 0, { v.v(L(ys::get_char_substring(i.a, i.n, i.m))); }),
            OP("get_codepoint", "an", 0, { v.r(L(ys::get_codepoint(i.a, i.n))); }),
            OP("get_codepoint_pos", "an", 0, { v.n(i64(L(ys::get_codepoint_pos(i.a, i.n)))); }),
            OP("get_codepoint_substring", "anm", 0, { v.v(L(ys::get_codepoint_substring(i.a, i.n, i.m))); }),
            OP("get_next_char_range", "aO", 0, { v.r(L(ys::get_next_char_range(i.a, i.o))); }),
            OP("get_prev_char_range", "aO", 0, { v.r(L(ys::get_prev_char_range(i.a, i.o))); }),
            OP("insert_chars", "anb", PRODUCES_TEXT | NO_TEXT_ERR, { v.s(L(ys::insert_chars(i.a, i.n, i.b))); }),
            OP("insert_char", "anc", PRODUCES_TEXT | NO_TEXT_ERR, { v.s(L(ys::insert_char(i.a, i.n, i.c))); }),
            OP("insert_codepoint", "anc", PRODUCES_TEXT | NO_TEXT_ERR, { v.s(L(ys::insert_codepoint(i.a, i.n, i.c))); }),
            OP("insert_codepoints", "anb", PRODUCES_TEXT | NO_TEXT_ERR, { v.s(L(ys::insert_codepoints(i.a, i.n, i.b))); }),
            OP("is_valid_utf8", "a", 0, { v.n(L(ys::is_valid_utf8(i.a))); }),
            OP("join", "anb", 0, { auto p = pieces(i.a, i.n); v.s(L(ys::join(p.begin(), p.end(), i.b))); }),
            OP("join_strings", "anb", 0, {
                std::list<std::string> l;
                for (auto s : pieces(i.a, i.n)) l.emplace_back(s);
                v.s(L(ys::join(l.begin(), l.end(), i.b)));
            }),
            OP("replace", "abdr", PRODUCES_TEXT, { v.s(L(ys::replace(i.a, i.b, i.d, i.n))); }),
            OP("replace_chars", "anmb", PRODUCES_TEXT, { v.s(L(ys::replace_chars(i.a, i.n, i.m, i.b))); }),
            OP("replace_codepoints", "anmb", PRODUCES_TEXT, { v.s(L(ys::replace_codepoints(i.a, i.n, i.m, i.b))); }),
            OP("replace_codepoint", "acer", PRODUCES_TEXT, { v.s(L(ys::replace_codepoint(i.a, i.c, i.e, i.n))); }),
            OP("replace_invalid_utf8", "ac", PRODUCES_TEXT, { v.s(L(ys::replace_invalid_utf8(i.a, i.c))); }),
            OP("replace_invalid_utf8_default", "a", PRODUCES_TEXT, { v.s(L(ys::replace_invalid_utf8(i.a))); }),
            OP("replace_invalid_utf8_inplace", "ac", PRODUCES_TEXT, {
                std::string s(i.a);
                auto& q = L(ys::replace_invalid_utf8(s, i.c));
                v.n(&q == &s);
                v.s(std::move(s));
            }),
            OP("reverse", "a", PRODUCES_TEXT, { v.s(L(ys::reverse(i.a))); }),
            OP("split_chars", "aup", 0, { v.views = L(ys::split(i.a, i.u, i.p)); }),
            OP("split", "abp", 0, { v.views = L(ys::split(i.a, i.b, i.p)); }),
            OP("split_lines", "ap", 0, { v.views = L(ys::split_lines(i.a, i.p)); }),
            OP("split_where", "abp", 0, { v.views = L(ys::split_where(i.a, FindBytes{i.b}, i.p)); }),
            OP("starts_with", "ab", 0, { v.n(L(ys::starts_with(i.a, i.b))); }),
            OP("trim", "au", 0, { v.v(L(ys::trim(i.a, i.u))); }),
            OP("trim_default", "a", 0, { v.v(L(ys::trim(i.a))); v.v(L(ys::trim_start(i.a))); v.v(L(ys::trim_end(i.a))); }),
            OP("trim_end", "au", 0, { v.v(L(ys::trim_end(i.a, i.u))); }),
            OP("trim_start", "au", 0, { v.v(L(ys::trim_start(i.a, i.u))); }),
            OP("trim_where", "au", 0, { v.v(L(ys::trim_where(i.a, In32{i.u}))); }),
            OP("trim_end_where", "au", 0, { v.v(L(ys::trim_end_where(i.a, In32{i.u}))); }),
            OP("trim_start_where", "au", 0, { v.v(L(ys::trim_start_where(i.a, In32{i.u}))); }),

            OP("ci_compare", "ab", CASE, { v.n(L(ci::compare(i.a, i.b))); }),
            OP("ci_ends_with", "ab", CASE, { v.n(L(ci::ends_with(i.a, i.b))); }),
            OP("ci_equal", "ab", CASE, { v.n(L(ci::equal(i.a, i.b))); }),
            OP("ci_find_first", "abo", CASE, { v.r(L(ci::find_first(i.a, i.b, i.o))); }),
            OP("ci_find_first_of", "auo", CASE, { v.r(L(ci::find_first_of(i.a, i.u, i.o))); }),
            OP("ci_find_first_of_set", "aSo", CASE, { v.r(L(ci::find_first_of(i.a, *i.set, i.o))); }),
            OP("ci_find_last", "abo", CASE, { v.r(L(ci::find_last(i.a, i.b, i.o))); }),
            OP("ci_find_last_of", "auo", CASE, { v.r(L(ci::find_last_of(i.a, i.u, i.o))); }),
            OP("ci_find_last_of_set", "aSo", CASE, { v.r(L(ci::find_last_of(i.a, *i.set, i.o))); }),
            OP("ci_less", "ab", CASE, { v.n(L(ci::less(i.a, i.b))); }),
            OP("ci_replace", "abdr", PRODUCES_TEXT | CASE, { v.s(L(ci::replace(i.a, i.b, i.d, i.n))); }),
            OP("ci_split_chars", "aup", CASE, { v.views = L(ci::split(i.a, i.u, i.p)); }),
            OP("ci_split", "abp", CASE, { v.views = L(ci::split(i.a, i.b, i.p)); }),
            OP("ci_starts_with", "ab", CASE, { v.n(L(ci::starts_with(i.a, i.b))); }),

            OP("set_contains", "cS", 0, { v.n(L(i.set->contains(i.c))); v.n(L(i.set->case_insensitive_contains(i.c))); }),
            OP("set_add", "Su", 0, {
                ys::CodepointSet s(*i.set);
                L((s.add_codepoints(i.u), 0));
                for (auto c : i.u) { v.n(s.contains(c)); v.n(s.contains(c + 1)); v.n(s.contains(c - 1)); }
            }),
            OP("set_print", "S", 0, { v.s(stream(*i.set)); }),
            OP("u32_contains", "uc", CASE, { v.n(L(ys::contains(i.u, i.c))); v.n(L(ys::case_insensitive_contains(i.u, i.c))); }),
            OP("char_case", "ce", CASE, {
                v.n(L(ys::to_lower(i.c))); v.n(L(ys::to_title(i.c))); v.n(L(ys::to_upper(i.c)));
                v.n(L(ys::case_insensitive_compare(i.c, i.e))); v.n(L(ys::case_insensitive_equal(i.c, i.e)));
                v.n(L(ys::case_insensitive_less(i.c, i.e)));
            }),
            OP("char_lower", "c", CASE, { v.n(L(ys::to_lower(i.c))); }),
            OP("char_title", "c", CASE, { v.n(L(ys::to_title(i.c))); }),
            OP("char_upper", "c", CASE, { v.n(L(ys::to_upper(i.c))); }),
            OP("char_class", "c", 0, {
                v.n(L(ys::get_char_class(i.c)));
                v.n(L(ys::is_alpha_numeric(i.c) + 2 * ys::is_letter(i.c) + 4 * ys::is_mark(i.c)
                      + 8 * ys::is_whitespace(i.c) + 16 * ys::is_newline(i.c) + 32 * ys::is_upper(i.c)
                      + 64 * ys::is_lower(i.c) + 128 * ys::is_punctuation(i.c) + 256 * ys::is_hex_digit(i.c)));
            }),
            OP("to_lower", "a", PRODUCES_TEXT | CASE, { v.s(L(ys::to_lower(i.a))); }),
            OP("to_title", "a", PRODUCES_TEXT | CASE, { v.s(L(ys::to_title(i.a))); }),
            OP("to_upper", "a", PRODUCES_TEXT | CASE, { v.s(L(ys::to_upper(i.a))); }),

            OP("decode_next", "aO", 0, {
                auto it = i.a.begin() + i.o;
                v.n(L(ys::decode_next(it, i.a.end()))); v.n(it - i.a.begin());
                auto jt = i.a.begin() + i.o;
                v.n(L(ys::skip_next(jt, i.a.end()))); v.n(jt - i.a.begin());
            }),
            OP("decode_prev", "aO", 0, {
                auto it = i.a.begin() + i.o;
                v.n(L(ys::decode_prev(i.a.begin(), it))); v.n(it - i.a.begin());
                auto jt = i.a.begin() + i.o;
                v.n(L(ys::skip_prev(i.a.begin(), jt))); v.n(jt - i.a.begin());
            }),
            OP("decode_all_list", "a", 0, {
                std::list<char> l(i.a.begin(), i.a.end());
                std::u32string out;
                auto it = l.cbegin();
                char32_t ch;
                while (L(ys::safe_decode_next(it, l.cend(), ch))) out += ch;
                v.u(out);
                out.clear();
                while (L(ys::safe_decode_prev(l.cbegin(), it, ch))) out += ch;
                v.u(out);
            }),
            OP("pop", "a", 0, { auto s = i.a; auto c = L(ys::pop_utf8_codepoint(s)); v.n(c ? i64(*c) : -1); v.v(s); }),
            OP("pop_last", "a", 0, { auto s = i.a; auto c = L(ys::pop_last_utf8_codepoint(s)); v.n(c ? i64(*c) : -1); v.v(s); }),
            OP("remove", "a", 0, { auto s = i.a; v.n(L(ys::remove_utf8_codepoint(s))); v.v(s); }),
            OP("remove_last", "a", 0, { auto s = i.a; v.n(L(ys::remove_last_utf8_codepoint(s))); v.v(s); }),

            OP("find_first_escapable_char", "ao", 0, { v.r(L(ys::find_first_escapable_char(i.a, i.o))); v.n(L(ys::has_escapable_chars(i.a))); }),
            OP("escape_json", "a", PRODUCES_TEXT, { v.s(L(ys::escape_json(i.a))); }),
            OP("find_first_escaped_char", "ao", ESCAPES | NO_TEXT_ERR, { v.r(L(ys::find_first_escaped_char(i.a, i.o))); }),
            OP("has_escaped_chars", "a", ESCAPES | NO_TEXT_ERR, { v.n(L(ys::has_escaped_chars(i.a))); }),
            OP("unescape", "a", ESCAPES | NO_TEXT_ERR, { v.s(L(ys::unescape(std::string(i.a)))); }),
            OP("unescape_inplace", "a", ESCAPES | NO_TEXT_ERR | INPLACE, {
                auto n = L(ys::unescape(i.raw, i.a.size()));
                v.n(i64(n));
                if (n > i.a.size()) v.outside = true;
                else v.s(std::string(i.raw, n));
            }),
            OP("unescape_next", "an", ESCAPES | NO_TEXT_ERR, {
                auto s = i.a;
                bool did = false;
                bool* pdid = (i.n & 1) ? &did : nullptr;
                auto c = L(ys::unescape_next(s, pdid));
                v.n(c ? i64(*c) : -1); v.n(did && pdid); v.v(s);
            }),
            OP("unescape_all", "a", ESCAPES | NO_TEXT_ERR, {
                auto s = i.a;
                std::u32string out;
                bool did = false;
                while (auto c = L(ys::unescape_next(s, &did)))
                {
                    out += *c;
                    if (out.size() > i.a.size()) { v.outside = true; break; }
                }
                v.u(out); v.v(s);
            }),
            OP("to_composed", "a", PRODUCES_TEXT, { v.s(L(ys::to_composed(i.a))); }),
            OP("to_decomposed", "a", PRODUCES_TEXT, { v.s(L(ys::to_decomposed(i.a))); }),
            OP("decompose", "c", 0, { v.u(L(ys::decompose(i.c))); }),
            OP("subrange_print", "On", 0, { v.s(stream(sub(i))); }),
            OP("token_walk", "ab", 0, {
                auto it = L((ys::TokenIterator<FindBytes>(i.a, FindBytes{i.b})));
                size_t k = 0;
                while (L(it.next()))
                {
                    v.v(it.part()); v.v(it.token()); v.v(it.remainder()); v.n(bool(it));
                    if (++k > i.a.size() + 2) { v.outside = true; break; }
                }
            }),
            OP("from_utf32_char", "c", 0, { v.s(L(ys::from_utf32(i.c))); }),
            OP("from_utf32", "u", 0, { v.s(L(ys::from_utf32(i.u))); }),
            OP("to_utf32", "a", 0, { v.u(L(ys::to_utf32(i.a))); }),
            OP("u8_views", "a", 0, { v.v(L(ys::to_string_view(ys::to_u8string_view(i.a)))); }),
        };
        return table;
    }

    int op_index(const std::string& name)
    {
        auto& t = ops();
        for (size_t i = 0; i < t.size(); ++i)
            if (name == t[i].name) return int(i);
        harness_error("unknown operation " + name);
    }

    // ---- calls
    static bool has(const Op& o, char c) { return strchr(o.args, c) != nullptr; }

    Line Call::line(const char* name) const
    {
        auto& o = ops()[op];
        Line l(name);
        l.w("op", o.name);
        if (has(o, 'a')) l.x("a", a);
        if (has(o, 'a') && rep > 1) l.n("rep", rep);
        if (has(o, 'b')) l.x("b", b);
        if (has(o, 'd')) l.x("d", d);
        if (has(o, 'u') || has(o, 'S')) l.u("u", u);
        if (has(o, 'S')) { l.n("neg", neg); if (has(o, 'u')) l.n("m", m); }
        if (has(o, 'o') || has(o, 'O')) l.n("o", i64(this->o));
        if (has(o, 'n') || has(o, 'r')) l.n("n", n);
        if (has(o, 'm')) l.n("m", m);
        if (has(o, 'c')) l.n("c", c);
        if (has(o, 'e')) l.n("e", e);
        if (has(o, 'p')) { l.n("p", i64(p)); l.n("ign", ign); }
        return l;
    }

    Call Call::from(const Line& l)
    {
        Call c;
        c.op = op_index(l.gw("op"));
        c.a = l.gx("a"); c.b = l.gx("b"); c.d = l.gx("d");
        c.u = l.gu("u");
        c.rep = l.gn("rep");
        c.neg = l.gn("neg"); c.o = u64(l.gn("o")); c.n = l.gn("n"); c.m = l.gn("m");
        c.c = char32_t(l.gn("c")); c.e = char32_t(l.gn("e"));
        c.p = u64(l.gn("p", -1)); c.ign = l.gn("ign");
        return c;
    }

    std::string Call::text() const
    {
        if (rep <= 1) return a;
        std::string s;
        for (i64 i = 0; i < rep; ++i) s += a;
        return s;
    }

    bool has_callback(const Call& c)
    {
        std::string_view n = ops()[c.op].name;
        return n.find("_where") != n.npos || n == "token_walk";
    }

    Budget call_budget(const Call& c)
    {
        auto& o = ops()[c.op];
        u64 n = c.a.size() * (c.rep > 1 ? c.rep : 1) + 8;
        u64 m = 1;
        if (has(o, 'b')) m += c.b.size();
        if (has(o, 'u') || has(o, 'S')) m += c.u.size();
        u64 out = 2;
        if (has(o, 'd')) out += c.d.size();
        if (has(o, 'b')) out += c.b.size();
#ifdef SIM_THREADS
        n *= 8; // memory accesses, not edges
        const u64 each = 1500;
#else
        // The most expensive calls take 20 to 40 edges per byte. Reading all of a linked list is
        // many calls, each of which counts what is left.
        const u64 each = 300 + (std::string_view(o.name) == "decode_all_list" ? 8 * n : 0);
#endif
        return {100000 + each * n * m, 262144 + 64 * (n + c.u.size()) * out};
    }

    static ys::CodepointSet make_set(const Call& c)
    {
        ys::CodepointSet s;
        // pairs of code points make ranges; an odd one at the end stands alone
        for (size_t i = 0; i < c.u.size(); i += 2)
        {
            auto x = c.u[i], y = i + 1 < c.u.size() ? c.u[i + 1] : x;
            s.ranges.emplace_back(std::min(x, y), std::max(x, y));
        }
        s.negated = c.neg;
        return s;
    }

    u64 g_guard_steps = 4000000;

    Outcome run_call(const Call& c, const AllocPlan* plan, Held* held,
                     const ys::CodepointSet* shared_set, const Buf* shared_a)
    {
        auto& o = ops()[c.op];
        Held local;
        Held& h = held ? *held : local;
        auto text = c.text();
        if (!shared_a)
            h.a = Buf(text, c.b.size() % 2 == 1);
        h.b = Buf(c.b, c.a.size() % 2 == 1);
        h.d = Buf(c.d);
        h.u = Buf32(c.u);
        const Buf& a = shared_a ? *shared_a : h.a;
        In in;
        in.a = a.view(); in.b = h.b.view(); in.d = h.d.view();
        in.u = h.u.view();
        in.raw = a.data();
        in.n = c.n; in.m = c.m; in.c = c.c; in.e = c.e;
        in.o = c.o;
        // an offset beyond the text is outside the contract (except where the end is capped)
        if (has(o, 'a') && (has(o, 'o') || has(o, 'O')) && in.o > in.a.size())
        {
            if (has(o, 'o') && std::string_view(o.name).find("find_last") != std::string_view::npos) {}
            else in.o = in.a.size();
        }
        h.set = make_set(c);
        if (has(o, 'S') && has(o, 'u'))
        {
            // ranges come from the first half, added code points from the rest
            Call k = c;
            size_t half = c.u.size() / 2;
            k.u = c.u.substr(0, half);
            h.set = make_set(k);
            in.u = in.u.substr(half);
        }
        in.set = shared_set ? shared_set : &h.set;
        in.p.max_splits = size_t(c.p);
        in.p.ignore_empty = c.ign;
        h.value = Value();
        h.value.base = in.a;

        auto& ctx = alloc_ctx();
        ctx.arm(plan ? *plan : AllocPlan());
        auto budget = call_budget(c);
        auto steps0 = g_steps;
        g_step_budget = g_steps + budget.steps;
        g_mem_budget = budget.mem;
        Outcome out;
        scrub_stack();
        try
        {
            o.fn(in, h.value);
        }
        catch (const std::bad_alloc&) { out.kind = Kind::OOM; }
        catch (const ys::YstringException& e) { out.kind = Kind::YEX; out.what = e.what(); }
        catch (const Violation&) { throw; }
        catch (const std::exception& e) { out.kind = Kind::OTHER; out.what = std::string(typeid(e).name()) + ": " + e.what(); }
        catch (...) { out.kind = Kind::OTHER; out.what = "unknown exception"; }
        g_step_budget = 0;
        g_mem_budget = 0;
        g_callback_throw = 0;
        out.steps = g_steps - steps0;
        out.allocs = ctx.count;
        out.failed = ctx.failed;
        out.bytes = ctx.bytes;
        ctx.disarm();
        if (out.failed) R.count("fault:allocation-failed", out.failed);
        if (out.kind == Kind::OK)
        {
            out.outside = h.value.outside || !h.value.views_inside();
            out.value = h.value.render();
        }
        else
            h.value = Value();
        out.args_changed = (!(o.flags & INPLACE) && a.view() != text) || h.b.view() != c.b
                           || h.d.view() != c.d || h.u.view() != c.u;
        if (!shared_set && !out.args_changed && !has(o, 'u'))
        {
            auto s = make_set(c);
            out.args_changed = s.ranges != h.set.ranges || s.negated != h.set.negated;
        }
        return out;
    }

    // ---- generation
    std::string gen_needle(Rng& r, const Profile& p, const std::string& a, bool aligned)
    {
        switch (r.below(8))
        {
        case 0: return {};
        case 1: return enc(gen_cp(r, p));
        case 2: return enc(gen_text(r, p));
        default: break;
        }
        if (a.empty()) return enc(gen_cp(r, p));
        size_t i = r.below(a.size()), n = 1 + r.below(r.chance(1, 4) ? a.size() : 4);
        if (aligned || r.chance(3, 4))
        {
            auto cont = [&](size_t k) { return k < a.size() && (u8(a[k]) & 0xC0) == 0x80; };
            while (i > 0 && cont(i)) --i;
            size_t e = std::min(a.size(), i + n);
            while (e < a.size() && cont(e)) ++e;
            n = e - i;
        }
        auto s = a.substr(i, n);
        if (r.chance(1, 4))
            for (auto& ch : s)
                if (((ch | 32) >= 'a') && ((ch | 32) <= 'z') && u8(ch) < 128) ch ^= 32;
        if (r.chance(1, 8) && structurally_valid(s))
        {
            auto u = dec(s);
            for (auto& c : u) if (r.chance(2, 3)) c = fold_mate(r, c);
            s = enc(u);
        }
        if (r.chance(1, 12))
        {
            size_t k = r.below(s.size());
            while (k && (u8(s[k]) & 0xC0) == 0x80) --k;
            char32_t x;
            if (auto len = seq_len(s, k, &x); len && x <= 0x10FFFF)
                s = s.substr(0, k) + enc(alias(r, x)) + s.substr(k + len);
        }
        if (r.chance(1, 10)) s += s;
        if (r.chance(1, 10)) s += enc(gen_cp(r, p));
        return s;
    }

    static char32_t gen_arg_cp(Rng& r, const Profile& p, const std::string& a, bool valid)
    {
        if (r.chance(1, 2) && !a.empty())
        {
            size_t i = r.below(a.size());
            char32_t c;
            while (i > 0 && (u8(a[i]) & 0xC0) == 0x80) --i;
            if (seq_len(a, i, &c) && (!valid || c <= 0x10FFFF)) return c <= 0x10FFFF && r.chance(1, 8) ? alias(r, c) : c;
        }
        if (!valid && r.chance(1, 12))
            return char32_t(r.chance(1, 2) ? 0x110000 + r.below(0x100000) : (r.chance(1, 2) ? 0xFFFFFFFF : r.next()));
        if (r.chance(1, 6))
            return char32_t(r.below(0x110000));
        return gen_cp(r, p);
    }

    Call gen_call(Rng& r, const Profile& p, const CallMode& m, int op)
    {
        Call c;
        if (op < 0)
            do op = int(r.below(ops().size())); while (ops()[op].flags & m.exclude);
        c.op = op;
        auto& o = ops()[op];
        if (m.text)
            c.a = *m.text;
        else
        {
            c.a = (o.flags & ESCAPES) && r.chance(7, 8) ? gen_escaped(r, p) : enc(gen_text(r, p));
            if (m.damaged)
            {
                Tagged t{c.a, std::vector<i64>(c.a.size(), 0)};
                if (r.chance(2, 5))
                {
                    size_t k = 1 + r.below(4);
                    while (k--) apply_damage(gen_damage(r, t.bytes.size()), t);
                }
                else if (r.chance(1, 8))
                {
                    t.bytes.clear();
                    size_t k = r.below(24);
                    while (k--) t.bytes += char(r.chance(1, 2) ? 0x80 + r.below(0x80) : r.below(256));
                }
                else if (r.chance(1, 12))
                    t.bytes += std::string(1 + r.below(20), char(0x80 + r.below(64)));
                c.a = t.bytes;
            }
        }
        if (m.huge && has(o, 'a') && !c.a.empty())
        {
            if (!m.text && r.chance(1, 2))
            {
                // long stretches of the same one or two code points
                c.a = enc(gen_cp(r, p));
                if (r.chance(1, 2)) c.a += enc(gen_cp(r, p));
            }
            static const size_t sizes[] = {1000, 2000, 4000, 12000};
            c.rep = i64(sizes[r.below(4)] / c.a.size()) + 1;
        }
        const i64 rep = c.rep > 1 ? c.rep : 1;
        if (has(o, 'b')) c.b = gen_needle(r, p, c.a, m.aligned);
        if (m.damaged && has(o, 'b') && r.chance(1, 8) && !c.b.empty()) c.b[r.below(c.b.size())] ^= char(1u << r.below(8));
        if (m.huge && c.b.size() > 8) c.b.resize(8);
        if (has(o, 'd')) c.d = gen_needle(r, p, c.a, m.aligned);
        if (m.huge && c.d.size() > 40) c.d.resize(40);
        if (has(o, 'u') || has(o, 'S'))
        {
            size_t k = r.below(r.chance(1, 10) ? 40 : 6);
            while (k--)
            {
                c.u += gen_arg_cp(r, p, c.a, true);
                if (has(o, 'S') && !has(o, 'u') && r.chance(1, 2)) c.u += c.u.back() + char32_t(r.below(40));
            }
            if (m.huge && r.chance(1, 2))
            {
                // all of the text belongs to it
                auto i = c.a.data(), e = i + std::min<size_t>(c.a.size(), 40);
                std::string_view v(i, size_t(e - i));
                char32_t x;
                for (size_t k = 0; k < v.size();)
                {
                    auto len = seq_len(v, k, &x);
                    if (len) c.u += x;
                    if (len && has(o, 'S') && !has(o, 'u')) c.u += x;
                    k += len ? len : 1;
                }
                c.neg = false;
            }
            c.neg = r.chance(1, 3);
        }
        if (has(o, 'n'))
        {
            i64 len = 0;
            for (auto ch : c.a) len += (u8(ch) & 0xC0) != 0x80;
            len *= rep;
            auto pos = [&]() -> i64 {
                if (m.aligned) return r.range(-len, len);
                if (r.chance(1, 40)) return r.chance(1, 2) ? INT64_MAX : INT64_MIN;
                if (r.chance(1, 2)) return r.range(-4, 4);
                return r.range(-len - 3, len + 3);
            };
            c.n = pos();
            c.m = r.chance(1, 5) ? INT64_MAX : pos();
            // valid texts may have fewer characters than code points
            if (m.aligned && std::string_view(o.name).find("insert_char") == 0) c.n = r.chance(1, 2) ? 0 : (len ? r.range(-1, 1) : 0);
        }
        if (has(o, 'r'))
        {
            static const i64 v[] = {1, 2, 3, -1, -2, -3, INT64_MAX, INT64_MIN, 0, -INT64_MAX, INT64_MAX, 100};
            c.n = v[r.below(std::size(v))];
        }
        if (has(o, 'o') || has(o, 'O'))
        {
            if (r.chance(1, 3)) c.o = strstr(o.name, "find_last") ? (r.chance(1, 2) ? u64(-1) : c.a.size() * size_t(rep)) : 0;
            else c.o = r.below(c.a.size() * size_t(rep) + 1);
            if (m.aligned)
                while (c.o < c.a.size() && c.o > 0 && (u8(c.a[c.o]) & 0xC0) == 0x80) --c.o;
            // the end is capped
            if (has(o, 'o') && strstr(o.name, "find_last") && r.chance(1, 8))
                c.o = c.a.size() * size_t(rep) + (r.chance(1, 3) ? u64(1) << (8 + r.below(54)) : 1 + r.below(70));
            if (!has(o, 'a')) { c.o = r.next() >> r.below(64); c.n = i64(r.next() >> r.below(64)); }
        }
        if (has(o, 'c')) c.c = gen_arg_cp(r, p, c.a, m.valid_cps);
        if (has(o, 'e')) c.e = gen_arg_cp(r, p, c.a, m.valid_cps);
        if (has(o, 'p'))
        {
            static const u64 v[] = {1, 2, 3, SIZE_MAX, SIZE_MAX, 7};
            c.p = v[r.below(std::size(v))];
            c.ign = r.chance(1, 3);
        }
        return c;
    }

    static void put_str(std::string& r, std::string_view s)
    {
        u64 n = s.size();
        r.append(reinterpret_cast<const char*>(&n), 8);
        r.append(s);
    }
    static std::string get_str(std::string_view& s)
    {
        u64 n;
        memcpy(&n, s.data(), 8);
        std::string r(s.substr(8, n));
        s.remove_prefix(8 + n);
        return r;
    }

    std::string pack(const std::vector<Outcome>& v)
    {
        std::string r;
        for (auto& o : v)
        {
            u64 w[6] = {u64(o.kind), u64(o.outside) + 2 * u64(o.args_changed), o.allocs, o.failed, o.steps, o.bytes};
            r.append(reinterpret_cast<const char*>(w), sizeof w);
            put_str(r, o.what);
            put_str(r, o.value);
        }
        return r;
    }

    std::vector<Outcome> unpack(std::string_view s)
    {
        std::vector<Outcome> v;
        while (s.size() >= 48)
        {
            u64 w[6];
            memcpy(w, s.data(), sizeof w);
            s.remove_prefix(sizeof w);
            Outcome o;
            o.kind = Kind(w[0]); o.outside = w[1] & 1; o.args_changed = w[1] & 2;
            o.allocs = w[2]; o.failed = w[3]; o.steps = w[4]; o.bytes = w[5];
            o.what = get_str(s);
            o.value = get_str(s);
            v.push_back(std::move(o));
        }
        return v;
    }

    std::vector<Outcome> elsewhere(const std::vector<Call>& calls)
    {
        auto f = [](void* p) {
            std::vector<Outcome> v;
            for (auto& c : *static_cast<const std::vector<Call>*>(p))
                v.push_back(run_call(c));
            return pack(v);
        };
        auto s = in_child(f, const_cast<std::vector<Call>*>(&calls));
        return unpack(s);
    }

    AllocPlan plan_from(const Line& l)
    {
        AllocPlan p;
        if (l.has("k")) p.kth.push_back(u32(l.gn("k")));
        if (l.has("k2")) p.kth.push_back(u32(l.gn("k2")));
        if (l.has("from")) p.from = u32(l.gn("from"));
        if (l.has("min")) p.min_size = size_t(l.gn("min"));
        return p;
    }

    Line gen_fault(Rng& r)
    {
        Line l("fault");
        switch (r.below(6))
        {
        case 0: l.n("from", i64(1 + r.below(r.chance(1, 2) ? 3 : 12))); break;
        case 1: l.n("min", i64(16 + r.below(r.chance(1, 2) ? 64 : 600))); break;
        case 2: { auto k = 1 + r.below(6); l.n("k", i64(k)); l.n("k2", i64(k + 1 + r.below(3))); break; }
        default: l.n("k", i64(1 + r.below(r.chance(2, 3) ? 3 : 12))); break;
        }
        return l;
    }

    const char* kind_name(Kind k)
    {
        switch (k)
        {
        case Kind::OK: return "ok";
        case Kind::YEX: return "error";
        case Kind::OOM: return "out-of-memory";
        default: return "other-exception";
        }
    }
}
