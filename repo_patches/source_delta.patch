From 1e5900b649fdf0e23f13057f0b6049502f5fb049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 01/21] fix: append leaves an incomplete code point behind when
 memory runs out

---
 src/Ystring/Algorithms.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 7e310e6..4afa38e 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -30,8 +30,11 @@ namespace ystring
 
     std::string& append(std::string& str, char32_t chr)
     {
-        if (encode_utf8(chr, std::back_inserter(str)))
-            return str;
+        // Encode into a local buffer first: if the string can't grow, it must
+        // not be left with an incomplete code point at its end.
+        char buffer[4];
+        if (auto n = encode_utf8(chr, buffer, sizeof(buffer)))
+            return str.append(buffer, n);
         YSTRING_THROW("Invalid code point: " + std::to_string(size_t(chr)));
     }
 
-- 
2.43.0


From 9894eb9c220af2dd6313fced079e2d933c82d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 02/21] fix: unescape_next moves past a bad escape sequence
 when memory runs out

---
 src/Ystring/Unescape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 0a2ebdf..b88c9d1 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -356,7 +356,7 @@ namespace ystring
                 return pop_utf8_codepoint(str);
             }
         }
-        catch (YstringException&)
+        catch (...)
         {
             str = backup;
             throw;
-- 
2.43.0


From 81832932babd503be653f7b4ab33542950411d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 03/21] fix: TokenIterator loses its place when the token
 finder throws

---
 include/Ystring/TokenIterator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Ystring/TokenIterator.hpp b/include/Ystring/TokenIterator.hpp
index 0d211df..1af47c4 100644
--- a/include/Ystring/TokenIterator.hpp
+++ b/include/Ystring/TokenIterator.hpp
@@ -28,11 +28,14 @@ namespace ystring
 
         bool next()
         {
+            auto str = m_str;
             if (m_token)
-                m_str = m_str.substr(m_token.end());
+                str = str.substr(m_token.end());
             else if (m_token.start() != 0)
                 return false;
-            m_token = m_finder(m_str);
+            // Don't modify the iterator until the finder has succeeded.
+            m_token = m_finder(str);
+            m_str = str;
             if (!m_token)
                 m_token.offset = SIZE_MAX;
             return true;
-- 
2.43.0


From 3da9e6f7062789e034e0f8f6f6cdc21bdf9863f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 04/21] fix: TokenIterator::token returns more than the token

---
 include/Ystring/TokenIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/TokenIterator.hpp b/include/Ystring/TokenIterator.hpp
index 1af47c4..1e47867 100644
--- a/include/Ystring/TokenIterator.hpp
+++ b/include/Ystring/TokenIterator.hpp
@@ -55,7 +55,7 @@ namespace ystring
         {
             if (!m_token)
                 return {};
-            return m_str.substr(m_token.start(), m_token.end());
+            return m_str.substr(m_token.start(), m_token.length);
         }
 
         [[nodiscard]] std::string_view remainder() const
-- 
2.43.0


From 5d668ce6a37778999894499fb3c9c53246efafec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 05/21] fix: truncated escape sequences are read beyond the end
 of the text

---
 src/Ystring/Unescape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index b88c9d1..74983bc 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -33,7 +33,7 @@ namespace ystring
                 if (pred(str[i]))
                     return i;
             }
-            return end;
+            return std::min(str.size(), end);
         }
 
         size_t
-- 
2.43.0


From fde46d2abc47797e5d2494b5d7a86a63b8525d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 06/21] fix: unescape uses an uninitialized value when a hex
 escape is too long

---
 src/Ystring/Unescape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 74983bc..549a3d6 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -60,7 +60,7 @@ namespace ystring
             auto res = std::from_chars(str.data() + 2,
                                        str.data() + str.size(),
                                        value, 16);
-            if (res.ptr == str.data() + 2)
+            if (res.ec != std::errc())
             {
                 YSTRING_THROW("Cannot parse escaped char: "
                               + std::string(str));
-- 
2.43.0


From 133fde3ec9db74c7ab99d06ea79fc7c4fbfef5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 07/21] fix: replace never ends when the from-string is empty

---
 src/Ystring/Algorithms.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 4afa38e..b71f9b1 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -358,6 +358,10 @@ namespace ystring
                         std::string_view to,
                         ptrdiff_t max_replacements)
     {
+        // An empty string has no occurrences that can be replaced.
+        if (from.empty())
+            return std::string(str);
+
         std::string result;
         if (max_replacements >= 0)
         {
-- 
2.43.0


From b7101b4dec36ded56e3925ce3219657fe64d4ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 08/21] fix: decode_prev shifts too far when there are many
 continuation bytes

---
 include/Ystring/DecodeUtf8.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Ystring/DecodeUtf8.hpp b/include/Ystring/DecodeUtf8.hpp
index 412db80..a675d5d 100644
--- a/include/Ystring/DecodeUtf8.hpp
+++ b/include/Ystring/DecodeUtf8.hpp
@@ -94,7 +94,8 @@ namespace ystring
         unsigned n = 0;
         while ((uint8_t(*it) & 0xC0u) == 0x80)
         {
-            if (it == begin)
+            // No code point has more than three continuation bytes.
+            if (it == begin || n == 3)
             {
                 for (unsigned i = 0; i <= n; ++i)
                     ++it;
-- 
2.43.0


From a19eab3b1976037120d621fd2379bf8af40d6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 09/21] fix: to_composed reads beyond the end of the
 composition table

---
 src/Ystring/Normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 8affe78..38b12b1 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -38,7 +38,7 @@ namespace ystring
             auto it = std::lower_bound(std::begin(TO_COMPOSED),
                                        std::end(TO_COMPOSED),
                                        key << 20u);
-            if (it == std::end(TO_DECOMPOSED) || char32_t(*it >> 20u) != key)
+            if (it == std::end(TO_COMPOSED) || char32_t(*it >> 20u) != key)
                 return 0;
             return char32_t(*it & 0xFFFFFu);
         }
-- 
2.43.0


From 2102b835e4bfd3b73e4e4d05383c8b233b4ce1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 10/21] fix: to_decomposed never ends on code points with
 four-part decompositions

---
 src/Ystring/Normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 38b12b1..5cdffe1 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -50,7 +50,7 @@ namespace ystring
             while (mark)
             {
                 ++n;
-                std::tie(norm, mark) = find_decomposed(mark);
+                std::tie(norm, mark) = find_decomposed(norm);
             }
             return n;
         }
-- 
2.43.0


From 95dd82b54a5cb6e5b4fd63cebc98bac970998014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 11/21] fix: substring ranges with start and end counted from
 different ends

---
 src/Ystring/AlgorithmUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index 56da7d8..a96793e 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -65,7 +65,7 @@ namespace ystring
         {
             auto s = get_capped_char_pos(str, start_index);
             auto e = get_capped_char_pos(str.substr(s), end_index);
-            return {s, e - s};
+            return {s, e};
         }
         else
         {
@@ -103,7 +103,7 @@ namespace ystring
         {
             auto s = get_capped_codepoint_pos(str, start_index);
             auto e = get_capped_codepoint_pos(str, end_index);
-            return {s, std::max(s, e)};
+            return {s, e > s ? e - s : 0};
         }
     }
 
-- 
2.43.0


From 981850a0cd471da657591eb9b5257395d472693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 12/21] fix: code points beyond U+10FFFF are accepted as valid
 UTF-8

---
 src/Ystring/Algorithms.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index b71f9b1..21892a3 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -347,7 +347,7 @@ namespace ystring
         auto it = str.begin(), end = str.end();
         while (it != end)
         {
-            if (decode_next(it, end) == INVALID_CHAR)
+            if (decode_next(it, end) > UNICODE_MAX)
                 return false;
         }
         return true;
@@ -438,10 +438,12 @@ namespace ystring
         auto end = str.end();
         while (it != end)
         {
-            if (decode_next(it, end) != INVALID_CHAR)
+            auto start = it;
+            if (decode_next(it, end) <= UNICODE_MAX)
                 continue;
-            result.append(prev, it);
+            result.append(prev, start);
             result.append(repl, repl_size);
+            it = start;
             skip_next(it, end);
             prev = it;
         }
-- 
2.43.0


From a3e3c9bac851c28fbe5a7b1f9b66fdee5b53ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 13/21] fix: signed overflow when a position or count is
 PTRDIFF_MIN

---
 src/Ystring/Algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 21892a3..e02d5be 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -258,7 +258,7 @@ namespace ystring
 
     size_t get_codepoint_pos(std::string_view str, ptrdiff_t pos)
     {
-        if (std::abs(pos) > ptrdiff_t(str.size()))
+        if (pos > ptrdiff_t(str.size()) || pos < -ptrdiff_t(str.size()))
             return std::string_view::npos;
         if (pos >= 0)
         {
@@ -381,7 +381,7 @@ namespace ystring
         else
         {
             size_t prev = 0;
-            auto matches = find_last_n(str, from, -max_replacements);
+            auto matches = find_last_n(str, from, size_t(0) - size_t(max_replacements));
             for (auto it = matches.rbegin(); it != matches.rend(); ++it)
             {
                 if (it->offset != prev)
-- 
2.43.0


From 7e7d46ecbcb21f9341bd9838a845075a2012449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 14/21] fix: default white space and newline characters are
 read beyond their end

---
 include/Ystring/Algorithms.hpp | 4 ++--
 src/Ystring/Algorithms.cpp     | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/Ystring/Algorithms.hpp b/include/Ystring/Algorithms.hpp
index 12eb689..f1b597c 100644
--- a/include/Ystring/Algorithms.hpp
+++ b/include/Ystring/Algorithms.hpp
@@ -26,8 +26,8 @@
 
 namespace ystring
 {
-    constexpr char32_t ASCII_WHITESPACE[] = {' ', '\t', '\n', '\r', '\f', '\v'};
-    constexpr char32_t COMMON_WHITESPACE[] = {' ', '\t', '\n', '\r'};
+    constexpr std::u32string_view ASCII_WHITESPACE = U" \t\n\r\f\v";
+    constexpr std::u32string_view COMMON_WHITESPACE = U" \t\n\r";
 
     inline std::string_view to_string_view(std::u8string_view str)
     {
diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index e02d5be..44f2ad3 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -17,7 +17,7 @@ namespace ystring
 {
     namespace
     {
-        constexpr char32_t NEWLINES[] = {
+        constexpr char32_t NEWLINE_CHARS[] = {
             '\n',
             '\v',
             '\f',
@@ -26,6 +26,10 @@ namespace ystring
             LINE_SEPARATOR,
             PARAGRAPH_SEPARATOR
         };
+
+        // NEWLINE_CHARS isn't null-terminated.
+        constexpr std::u32string_view NEWLINES(NEWLINE_CHARS,
+                                               std::size(NEWLINE_CHARS));
     }
 
     std::string& append(std::string& str, char32_t chr)
-- 
2.43.0


From 72a2e29ee38542b46a519f868ee2ef0eb156877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 15/21] fix: empty ranges counted from the end return
 everything before them

---
 src/Ystring/AlgorithmUtilities.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index a96793e..f77782c 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -58,7 +58,10 @@ namespace ystring
         else if (start_index < 0 && end_index < 0)
         {
             auto e = get_capped_char_pos(str, end_index);
-            auto s = get_capped_char_pos(str.substr(0, e), start_index - end_index);
+            // Position 0 is the start of the string, not its end.
+            auto s = start_index == end_index
+                     ? e
+                     : get_capped_char_pos(str.substr(0, e), start_index - end_index);
             return {s, e - s};
         }
         else if (start_index >= 0 && end_index < 0)
@@ -90,7 +93,10 @@ namespace ystring
         else if (start_index < 0 && end_index < 0)
         {
             auto e = get_capped_codepoint_pos(str, end_index);
-            auto s = get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
+            // Position 0 is the start of the string, not its end.
+            auto s = start_index == end_index
+                     ? e
+                     : get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
             return {s, e - s};
         }
         else if (start_index >= 0 && end_index < 0)
-- 
2.43.0


From a274a98ab85167388330a3925d52bdbc0542f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 16/21] fix: compose code points above U+0FFF

The table entry was truncated to 32 bits before it was compared with the
key, so code points that need more than 12 bits never matched.
---
 src/Ystring/Normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 5cdffe1..ab2867d 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -38,7 +38,7 @@ namespace ystring
             auto it = std::lower_bound(std::begin(TO_COMPOSED),
                                        std::end(TO_COMPOSED),
                                        key << 20u);
-            if (it == std::end(TO_COMPOSED) || char32_t(*it >> 20u) != key)
+            if (it == std::end(TO_COMPOSED) || *it >> 20u != key)
                 return 0;
             return char32_t(*it & 0xFFFFFu);
         }
-- 
2.43.0


From dfd180cee7b654508aca79d0e395d3bebc487266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 17/21] fix: don't compose with code points in the last private
 use plane

They overlap with the other code point in the key, so that for instance
U+0040 followed by U+100300 was composed as U+0041 U+0300.
---
 src/Ystring/Normalize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index ab2867d..3615936 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -32,7 +32,8 @@ namespace ystring
 
         char32_t find_composed(char32_t ch, char32_t mark)
         {
-            if (mark < 0x300)
+            // Larger marks would overlap with ch in the key.
+            if (mark < 0x300 || 0xFFFFFu < mark)
                 return 0;
             auto key = (uint64_t(ch) << 20u) | uint64_t(mark);
             auto it = std::lower_bound(std::begin(TO_COMPOSED),
-- 
2.43.0


From c2d6c7ea20d5011a478dd824f90a9ad8899ecbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 18/21] fix: case-insensitive code point ranges compare upper
 case values

---
 src/Ystring/Char32Set.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Char32Set.cpp b/src/Ystring/Char32Set.cpp
index d033793..c7419ca 100644
--- a/src/Ystring/Char32Set.cpp
+++ b/src/Ystring/Char32Set.cpp
@@ -6,6 +6,7 @@
 // License text is included with the source distribution.
 //****************************************************************************
 #include "Ystring/CodepointSet.hpp"
+#include "Ystring/ConvertCase.hpp"
 #include "Ystring/Utf32.hpp"
 
 #include <ostream>
@@ -41,13 +42,21 @@ namespace ystring
 
     bool CodepointSet::case_insensitive_contains(char32_t cp) const
     {
+        const auto upper = to_upper(cp);
+        const char32_t variants[] = {cp, upper, to_lower(cp), to_lower(upper),
+                                     to_title(cp)};
         return std::any_of(ranges.begin(), ranges.end(),
                            [&](auto& r)
                            {
                                if (r.first == r.second)
                                    return case_insensitive_equal(cp, r.first);
-                               return !case_insensitive_less(cp, r.first)
-                                      && !case_insensitive_less(r.second, cp);
+                               return std::any_of(
+                                   std::begin(variants), std::end(variants),
+                                   [&](char32_t c)
+                                   {
+                                       return r.first <= c && c <= r.second
+                                              && case_insensitive_equal(cp, c);
+                                   });
                            }) != negated;
     }
 
-- 
2.43.0


From f6ad8e6ff290df1458b6e79f5556b4a6c8e990df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 19/21] fix: to_composed drops the code point between two
 composed characters

---
 src/Ystring/Normalize.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 3615936..8919bbe 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -130,7 +130,10 @@ namespace ystring
                 {
                     denorm = find_composed(ch, mark);
                     if (denorm == 0)
+                    {
+                        prev = it;
                         break;
+                    }
 
                     ch = denorm;
                     from = prev = to = it;
-- 
2.43.0


From be399a4ec3561a321dd7253fe20ae3a7c51d7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 20/21] fix: ideographs are reported as unassigned code points

The end points of the ranges that are given as a first and a last code
point in UnicodeData.txt were recognised from a fixed list, and only
the first code point was included when the range had grown since.
---
 src/Ystring/CharClassTables.hpp                    | 14 +++++++-------
 .../make_char_class_file.py                        |  7 ++-----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/Ystring/CharClassTables.hpp b/src/Ystring/CharClassTables.hpp
index 973d811..9652555 100644
--- a/src/Ystring/CharClassTables.hpp
+++ b/src/Ystring/CharClassTables.hpp
@@ -249,7 +249,7 @@ namespace ystring
         0x018CF816, 0x018DF805, 0x018F2816, 0x018F7BD6, 0x018FF805,
         0x0190FADE, 0x0191480B, 0x01923816, 0x01928176, 0x0192F80B,
         0x0193F816, 0x0194480B, 0x01958016, 0x0195F80B, 0x01A002C5,
-        0x026DFBC5, 0x027002C5, 0x04FFF01E, 0x0500A8A4, 0x05246005,
+        0x026DF805, 0x027002C5, 0x04FFF005, 0x0500A8A4, 0x05246005,
         0x0524781E, 0x05263016, 0x0526781E, 0x0527B805, 0x0527E804,
         0x0527F812, 0x053060A4, 0x05307812, 0x0530F805, 0x05314809,
         0x05315805, 0x0531F81E, 0x05336C02, 0x053378A6, 0x05339912,
@@ -426,8 +426,8 @@ namespace ystring
         0x0B71F81E, 0x0B72F801, 0x0B73F802, 0x0B74B00B, 0x0B74D012,
         0x0B77F81E, 0x0B7A5005, 0x0B7A7BC6, 0x0B7A8005, 0x0B7C3807,
         0x0B7C701E, 0x0B7C9006, 0x0B7CF804, 0x0B7EF81E, 0x0B7F1092,
-        0x0B7F2086, 0x0B7F781E, 0x0B7F8807, 0x0B8003C5, 0x0C3FBBC5,
-        0x0C3FF81E, 0x0C66A805, 0x0C67F01E, 0x0C680005, 0x0C6843C5,
+        0x0B7F2086, 0x0B7F781E, 0x0B7F8807, 0x0B8003C5, 0x0C3FB805,
+        0x0C3FF81E, 0x0C66A805, 0x0C67F01E, 0x0C680005, 0x0C684005,
         0x0D7F781E, 0x0D7FA09E, 0x0D7FE09E, 0x0D7FF89E, 0x0D891005,
         0x0D8993C5, 0x0D8A781E, 0x0D8A9005, 0x0D8AABC5, 0x0D8B181E,
         0x0D8B3805, 0x0D8B781E, 0x0D97D805, 0x0DDFF81E, 0x0DE35005,
@@ -491,10 +491,10 @@ namespace ystring
         0x0FD36816, 0x0FD3781E, 0x0FD3E016, 0x0FD3F81E, 0x0FD44816,
         0x0FD4701E, 0x0FD63016, 0x0FD6681E, 0x0FD6E016, 0x0FD6F01E,
         0x0FD74816, 0x0FD7781E, 0x0FD7C016, 0x0FD7F81E, 0x0FDC9ADE,
-        0x0FDF7816, 0x0FDFC809, 0x100003C5, 0x1536FBC5, 0x153803C5,
-        0x15B9CBC5, 0x15B9F81E, 0x15C0E805, 0x15C103C5, 0x16750BC5,
-        0x167583C5, 0x175F03C5, 0x175F83C5, 0x1772EBC5, 0x17BFF81E,
-        0x17D0E805, 0x180003C5, 0x189A53C5, 0x189A83C5, 0x191D7BC5,
+        0x0FDF7816, 0x0FDFC809, 0x100003C5, 0x1536F805, 0x153803C5,
+        0x15B9C805, 0x15B9F81E, 0x15C0E805, 0x15C103C5, 0x16750805,
+        0x167583C5, 0x175F0005, 0x175F83C5, 0x1772E805, 0x17BFF81E,
+        0x17D0E805, 0x180003C5, 0x189A5005, 0x189A83C5, 0x191D7805,
         0x70000BDB, 0x7000F81E, 0x7003F81B, 0x7007F81E, 0x700F7806,
         0x77FFF81E, 0x7FFFE81D, 0x7FFFF81E, 0x87FFE81D
     };
diff --git a/tools/unicode_character_tables/make_char_class_file.py b/tools/unicode_character_tables/make_char_class_file.py
index adb8c1a..fd87cec 100644
--- a/tools/unicode_character_tables/make_char_class_file.py
+++ b/tools/unicode_character_tables/make_char_class_file.py
@@ -127,10 +127,6 @@ ClassNames = {
     "XLu":  "Alternating upper and lower case, ends on upper"
 }
 
-KnownRanges = {0x4DB5, 0x9FCC, 0xD7A3, 0xDB7F, 0xDBFF, 0xDFFF, 0xF8FF,
-               0x2A6D6, 0x2B734, 0x2B81D, 0xFFFFD, 0x10FFFD}
-
-
 Template = """\
 //****************************************************************************
 // Copyright © [[[year]]] Jan Erik Breimo. All rights reserved.
@@ -175,7 +171,8 @@ def get_class_ranges(file_name):
         parts = line.split(";")
         char_class = parts[2]
         char_id = int(parts[0], 16)
-        if (char_id == range_end + 1 or char_id in KnownRanges) and char_class == range_class:
+        ends_range = parts[1].endswith(", Last>")
+        if (char_id == range_end + 1 or ends_range) and char_class == range_class:
             range_end = char_id
         else:
             if range_class:
-- 
2.43.0


From ced42ccd99834fb45563a7eeac0faed2d2dfb77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 21/21] fix: keep code points added to a set after a range
 given backwards

add_codepoint extended the last range whenever it ended just before the new
code point, also when the range ends before it starts, so that the code point
was not a member afterwards.
---
 src/Ystring/Char32Set.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Char32Set.cpp b/src/Ystring/Char32Set.cpp
index c7419ca..1afd327 100644
--- a/src/Ystring/Char32Set.cpp
+++ b/src/Ystring/Char32Set.cpp
@@ -21,7 +21,9 @@ namespace ystring
 
     void CodepointSet::add_codepoint(char32_t cp)
     {
-        if (!ranges.empty() && ranges.back().second + 1 == cp)
+        // The last range can only be extended if it isn't given backwards.
+        if (!ranges.empty() && ranges.back().first < cp
+            && ranges.back().second == cp - 1)
             ranges.back().second = cp;
         else
             add_range(cp, cp);
-- 
2.43.0

