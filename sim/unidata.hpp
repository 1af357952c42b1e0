// Letter case, classes and canonical pairs as the Unicode data shipped with the project has them,
// independent of the library's own tables.
#pragma once
#include <algorithm>
#include <cstddef>
#include <string>

namespace sim::uni
{
    struct CaseRow { char32_t c, upper, lower, title; };      // sorted by c
    struct PairRow { char32_t a, b, c; };                     // c decomposes to a b; sorted by (a, b)
    struct ClassRow { char32_t lo, hi; char cls[3]; };            // general category; sorted
    extern const CaseRow CASE_ROWS[];
    extern const size_t CASE_ROW_COUNT;
    extern const PairRow PAIR_ROWS[];
    extern const size_t PAIR_ROW_COUNT;
    extern const ClassRow CLASS_ROWS[];
    extern const size_t CLASS_ROW_COUNT;

    inline const CaseRow* case_row(char32_t c)
    {
        auto end = CASE_ROWS + CASE_ROW_COUNT;
        auto it = std::lower_bound(CASE_ROWS, end, c, [](auto& r, char32_t v) { return r.c < v; });
        return it != end && it->c == c ? it : nullptr;
    }
    inline char32_t upper(char32_t c) { auto r = case_row(c); return r ? r->upper : c; }
    inline char32_t lower(char32_t c) { auto r = case_row(c); return r ? r->lower : c; }
    inline char32_t title(char32_t c) { auto r = case_row(c); return r ? r->title : c; }
    inline bool same(char32_t a, char32_t b) { return upper(a) == upper(b); }    // letter case aside

    inline const char* category(char32_t c)
    {
        auto end = CLASS_ROWS + CLASS_ROW_COUNT;
        auto it = std::lower_bound(CLASS_ROWS, end, c, [](auto& r, char32_t v) { return r.hi < v; });
        return it != end && it->lo <= c ? it->cls : "Cn";
    }
    inline bool letter(char32_t c) { return category(c)[0] == 'L'; }
    inline bool mark(char32_t c) { return category(c)[0] == 'M'; }

    // What a and b compose to (0: nothing).
    inline char32_t pair(char32_t a, char32_t b)
    {
        auto end = PAIR_ROWS + PAIR_ROW_COUNT;
        auto it = std::lower_bound(PAIR_ROWS, end, PairRow{a, b, 0},
                                   [](auto& x, auto& y) { return x.a != y.a ? x.a < y.a : x.b < y.b; });
        return it != end && it->a == a && it->b == b ? it->c : 0;
    }
    std::u32string decompose(char32_t c);
}
