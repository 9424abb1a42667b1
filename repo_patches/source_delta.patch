From 8b3a7a30de1c01520ee4c84e9bec2982e0bd481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:25 +0000
Subject: [PATCH 01/40] fix: is_surrogate truncated code points above the BMP,
 rejecting U+xD800..U+xDFFF

---
 api/include/cmp/unicode/examiners.hpp | 2 +-
 api/src/cmp/unicode/examiners.ipp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/unicode/examiners.hpp b/api/include/cmp/unicode/examiners.hpp
index 3ac5726..69d15ba 100644
--- a/api/include/cmp/unicode/examiners.hpp
+++ b/api/include/cmp/unicode/examiners.hpp
@@ -125,7 +125,7 @@ noexcept;
 constexpr
 bool
 is_surrogate (
-    char16_t code_unit
+    char32_t code_unit
 )
 noexcept;
 
diff --git a/api/src/cmp/unicode/examiners.ipp b/api/src/cmp/unicode/examiners.ipp
index c42d066..94776e8 100644
--- a/api/src/cmp/unicode/examiners.ipp
+++ b/api/src/cmp/unicode/examiners.ipp
@@ -74,7 +74,7 @@ noexcept
 constexpr
 bool
 is_surrogate (
-    char16_t code_unit
+    char32_t code_unit
 )
 noexcept
 {
-- 
2.43.0


From 52c99490608a6cd0dda587170225f1c445a32451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:25 +0000
Subject: [PATCH 02/40] fix: by_code_point over UTF-16 skipped one unit of a
 surrogate pair, and -=/- moved forward

---
 api/src/cmp/unicode/by_code_point.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index c5c11d9..858bfa7 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -869,7 +869,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -915,7 +915,7 @@ by_code_point<char16_t>::const_iterator::retreat (
     difference_type offset
 ) {
     while (offset-- > 0) {
-        advance();
+        retreat();
     }
 } // function -----------------------------------------------------------------
 
@@ -1459,7 +1459,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -1518,7 +1518,7 @@ by_code_point<wchar_t>::const_iterator::retreat (
 ) {
     if constexpr (sizeof (wchar_t) == 2) {
         while (offset-- > 0) {
-            advance();
+            retreat();
         }
     } else {
         m_current_iterator -= offset;
-- 
2.43.0


From 3f2427d74e4efb701cba2e85dda1af4f1c286438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:50 +0000
Subject: [PATCH 03/40] fix: by_code_point read past the end of truncated
 UTF-8/UTF-16 text

---
 api/src/cmp/unicode/by_code_point.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 858bfa7..b97472a 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -466,7 +466,7 @@ const
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -493,7 +493,7 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -511,6 +511,10 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
 void
 by_code_point<char8_t>::const_iterator::advance ()
 {
+    if (m_current_iterator == m_end_iterator) {
+        throw iterated_past_end{};
+    }
+
     char8_t code_unit{*m_current_iterator};
     char32_t code_point;
     auto sequence_length{
@@ -841,7 +845,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -862,7 +866,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
     std::u16string_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -880,6 +884,10 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 void
 by_code_point<char16_t>::const_iterator::advance ()
 {
+    if (m_current_iterator == m_end_iterator) {
+        throw iterated_past_end{};
+    }
+
     char16_t code_unit{*m_current_iterator};
     char32_t code_point;
     auto sequence_length{
@@ -1431,7 +1439,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
@@ -1452,7 +1460,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
     std::wstring_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
-- 
2.43.0


From 6c88bd1a1d4e8da257188cfda40336e438d64539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:22 +0000
Subject: [PATCH 04/40] fix: overlong UTF-8, UTF-8/UTF-32 encoded surrogates
 and out-of-range values were accepted as valid text

---
 api/include/cmp/unicode/impl/impl.hpp |  8 ++++++++
 api/src/cmp/io/text_input_stream.ipp  |  4 ++++
 api/src/cmp/unicode/algorithms.ipp    |  2 +-
 api/src/cmp/unicode/by_code_point.cpp |  7 ++++++-
 api/src/cmp/unicode/impl/impl.cpp     | 19 +++++++++++++++++++
 5 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/unicode/impl/impl.hpp b/api/include/cmp/unicode/impl/impl.hpp
index e044dd2..ebb5f73 100644
--- a/api/include/cmp/unicode/impl/impl.hpp
+++ b/api/include/cmp/unicode/impl/impl.hpp
@@ -22,6 +22,14 @@ initialize_utf8_sequence (
     char32_t& initial_code_point_value
 );
 
+CMP_CONDITIONAL_INLINE
+CMP_LIBRARY_NAME
+void
+validate_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+);
+
 CMP_CONDITIONAL_INLINE
 CMP_LIBRARY_NAME
 int
diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 59a74da..9687097 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -231,6 +231,7 @@ text_input_stream<InputResource>::read_utf8_code_point ()
     char32_t result;
     int sequence_length{impl::initialize_utf8_sequence(code_unit, result)};
     result = finish_utf8_sequence(sequence_length, result);
+    impl::validate_utf8_sequence(sequence_length, result);
     return result;
 } // function -----------------------------------------------------------------
 
@@ -260,6 +261,9 @@ text_input_stream<InputResource>::read_utf32_code_point ()
     if (!read_utf32_code_unit(code_unit)) {
         throw read_past_end{};
     }
+    if (!is_code_point_valid(code_unit)) {
+        throw invalid_unicode_encoding{};
+    }
     return code_unit;
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index bffc917..0ff6729 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -287,7 +287,7 @@ noexcept
     auto bcp_iterator{std::cbegin(bcp_range)};
     try {
         while (bcp_iterator != bcp_range_end) {
-            if (*bcp_iterator > maximum_code_point) {
+            if (!is_code_point_valid(*bcp_iterator)) {
                 return bcp_iterator;
             }
             ++bcp_iterator;
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index b97472a..bf34c02 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -254,6 +254,8 @@ const
         code_point,
         m_current_iterator
     );
+    impl::validate_utf8_sequence(sequence_length, code_point);
+
     return code_point;
 } // function -----------------------------------------------------------------
 
@@ -520,11 +522,14 @@ by_code_point<char8_t>::const_iterator::advance ()
     auto sequence_length{
         impl::initialize_utf8_sequence(code_unit, code_point)
     };
+    auto next_iterator{m_current_iterator};
     code_point = finish_sequence(
         sequence_length,
         code_point,
-        m_current_iterator
+        next_iterator
     );
+    impl::validate_utf8_sequence(sequence_length, code_point);
+    m_current_iterator = next_iterator;
 } // function -----------------------------------------------------------------
 
 void
diff --git a/api/src/cmp/unicode/impl/impl.cpp b/api/src/cmp/unicode/impl/impl.cpp
index 91483c0..8b6f2b8 100644
--- a/api/src/cmp/unicode/impl/impl.cpp
+++ b/api/src/cmp/unicode/impl/impl.cpp
@@ -31,6 +31,25 @@ initialize_utf8_sequence (
     }
 } // function -----------------------------------------------------------------
 
+void
+validate_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+) {
+    /*
+        Every code point has exactly one valid UTF-8 sequence, the
+        shortest one, and surrogates have no UTF-8 sequence at all.
+    */
+    if (
+        !is_code_point_valid(code_point)
+            || (sequence_length == 2 && code_point < 0x80)
+            || (sequence_length == 3 && code_point < 0x800)
+            || (sequence_length == 4 && code_point < 0x10000)
+    ) {
+        throw invalid_unicode_encoding{};
+    }
+} // function -----------------------------------------------------------------
+
 int
 initialize_utf16_sequence (
     char16_t leading_code_unit,
-- 
2.43.0


From 598219418aae5817e9c167d254aeccd06e58f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:22 +0000
Subject: [PATCH 05/40] fix: inserting an invalid code point corrupted UTF-16,
 UTF-32 and wide strings instead of being rejected

---
 api/src/cmp/unicode/algorithms.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index 0ff6729..f935857 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -150,6 +150,10 @@ insert_code_point (
                        && sizeof (wchar_t) == 2
                )
     ) {
+        if (!is_code_point_valid(code_point)) {
+            throw invalid_code_point{};
+        }
+
         if (
             !is_surrogate(code_point)
                 && code_point <= maximum_bmp_code_point
@@ -181,6 +185,10 @@ insert_code_point (
                        && sizeof (wchar_t) == 4
                )
     ) {
+        if (!is_code_point_valid(code_point)) {
+            throw invalid_code_point{};
+        }
+
         s.insert(index, 1, code_point);
     }
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 6ebfd9fb474821ccc54a8995ed05b47cca10fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:22 +0000
Subject: [PATCH 06/40] fix: starts_with and ends_with terminated the program
 on malformed text instead of throwing

---
 api/include/cmp/unicode/algorithms.hpp | 6 ++----
 api/src/cmp/unicode/algorithms.ipp     | 8 ++------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/api/include/cmp/unicode/algorithms.hpp b/api/include/cmp/unicode/algorithms.hpp
index 5297c98..4b8be32 100644
--- a/api/include/cmp/unicode/algorithms.hpp
+++ b/api/include/cmp/unicode/algorithms.hpp
@@ -35,8 +35,7 @@ bool
 starts_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept;
+);
 
 /**
     Description:
@@ -57,8 +56,7 @@ bool
 ends_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept;
+);
 
 /**
     Description:
diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index f935857..7b97df8 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -15,9 +15,7 @@ bool
 starts_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept
-{
+) {
     cmp::by_code_point content_range{content};
     cmp::by_code_point substring_range{substring};
     auto content_iterator{content_range.cbegin()};
@@ -41,9 +39,7 @@ bool
 ends_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept
-{
+) {
     cmp::by_code_point content_range{content};
     cmp::by_code_point substring_range{substring};
     auto content_iterator{content_range.crbegin()};
-- 
2.43.0


From caa951e3090921c00f6deb812cc04c53c41fc752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:44 +0000
Subject: [PATCH 07/40] fix: format_integer gave wrong digits for the lowest
 value of signed types

---
 api/include/cmp/unicode/formatters.hpp |  1 +
 api/src/cmp/unicode/formatters.ipp     | 17 +++++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index d1e18c0..d593be7 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -5,6 +5,7 @@
 #define CMP_UNICODE_FORMATTERS_HPP_INCLUDED
 
 #include <cmath>
+#include <cstdint>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index a862e72..a8f2960 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -33,22 +33,27 @@ number_formatter::format_integer (
     } else if (format.get_sign_status() == sign_status::always_show) {
         sign_character = '+';
     }
-    if constexpr (std::is_signed_v<Input>) {
-        input = std::abs(input);
+    /*
+        The magnitude of the lowest negative value doesn't fit in
+        its own type, so we compute it in the widest unsigned type.
+    */
+    auto magnitude{static_cast<std::uintmax_t>(input)};
+    if (input < 0) {
+        magnitude = 0 - magnitude;
     }
-    while (input != 0) {
-        char character{static_cast<char>(input % format_radix)};
+    while (magnitude != 0) {
+        char character{static_cast<char>(magnitude % format_radix)};
         if (character <= 9) {
             character += '0';
         } else {
             character += 'A' - 10;
         }
         prepend_code_point(output, character);
-        input /= format_radix;
+        magnitude /= format_radix;
         ++digits_counted;
         if (digits_counted == 3) {
             digits_counted = 0;
-            if (input != 0) {
+            if (magnitude != 0) {
                 switch (format.get_thousands_separator()) {
                     case thousands_separator::comma:
                         prepend_code_point(output, ',');
-- 
2.43.0


From 71b6ce947351167484f87999194a9213b29492b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 08/40] fix: format_floating_point rounded negative numbers
 away from zero and dropped the sign of numbers between -1 and 0

---
 api/src/cmp/unicode/formatters.ipp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index a8f2960..c96e3b8 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -90,10 +90,21 @@ number_formatter::format_floating_point (
     };
     Output output{
         number_formatter::format_integer<Output>(
-            static_cast<long long>(std::floor(input)),
+            static_cast<long long>(std::trunc(input)),
             equivalent_format
         )
     };
+    if (input != 0 && std::trunc(input) == 0) {
+        /*
+            The integral part is zero, which is formatted without
+            a sign, so the sign must come from the whole number.
+        */
+        if (input < 0) {
+            prepend_code_point(output, '-');
+        } else if (format.get_sign_status() == sign_status::always_show) {
+            prepend_code_point(output, '+');
+        }
+    }
     if (input < 0) {
         input = -input;
     }
-- 
2.43.0


From 3987e20ed2955c35d8ff73695817e18a874f6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 09/40] fix: format_floating_point ignored an exact place count
 for whole numbers and left a dangling radix character for zero places

---
 api/src/cmp/unicode/formatters.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index c96e3b8..2fd01ef 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -109,7 +109,11 @@ number_formatter::format_floating_point (
         input = -input;
     }
     Input fractional_part{input - std::floor(input)};
-    if (fractional_part == 0) {
+    if (
+        fractional_part == 0
+            && format.get_radix_place_limit()
+                != radix_place_limit::exactly_equal
+    ) {
         return output;
     }
     Output fractional_part_string;
@@ -151,6 +155,9 @@ number_formatter::format_floating_point (
             append_code_point(fractional_part_string, '0');
         }
     }
+    if (fractional_part_string.empty()) {
+        return output;
+    }
     append_code_point(
         output,
         format.get_radix_character() == radix_character::period ? '.' : ','
-- 
2.43.0


From 26755de70afba801f4ab111747ac2d7ff512c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 10/40] fix: format_floating_point put thousands separators
 after the radix character, where the parser rejects them

---
 api/src/cmp/unicode/formatters.ipp | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 2fd01ef..9c86d92 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -117,7 +117,6 @@ number_formatter::format_floating_point (
         return output;
     }
     Output fractional_part_string;
-    unsigned int digits_counted{0};
     unsigned int radix_places_counted{0};
     while (fractional_part != 0) {
         fractional_part *= format.get_radix();
@@ -135,20 +134,6 @@ number_formatter::format_floating_point (
             break;
         }
         append_code_point(fractional_part_string, character);
-        ++digits_counted;
-        if (digits_counted == 3) {
-            digits_counted = 0;
-            switch (format.get_thousands_separator()) {
-                case thousands_separator::comma:
-                    append_code_point(fractional_part_string, ',');
-                    break;
-                case thousands_separator::period:
-                    append_code_point(fractional_part_string, '.');
-                    break;
-                case thousands_separator::none:
-                    continue;
-            }
-        }
     }
     if (format.get_radix_place_limit() == radix_place_limit::exactly_equal) {
         while ((radix_places_counted++) < format.get_radix_place_count()) {
-- 
2.43.0


From aea3d2694c4e1fb470172625ccf08ff46468a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:46 +0000
Subject: [PATCH 11/40] fix: set_radix accepted radices the constructors
 reject, leading to division by zero

---
 api/include/cmp/unicode/formats.hpp |  6 ++----
 api/src/cmp/unicode/formats.cpp     | 14 ++++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/api/include/cmp/unicode/formats.hpp b/api/include/cmp/unicode/formats.hpp
index e69584d..054a65c 100644
--- a/api/include/cmp/unicode/formats.hpp
+++ b/api/include/cmp/unicode/formats.hpp
@@ -435,8 +435,7 @@ public:
     void
     set_radix (
         unsigned int new_radix
-    )
-    noexcept;
+    );
 
     /**
         Description:
@@ -648,8 +647,7 @@ public:
     void
     set_radix (
         unsigned int new_radix
-    )
-    noexcept;
+    );
 
     /**
         Description:
diff --git a/api/src/cmp/unicode/formats.cpp b/api/src/cmp/unicode/formats.cpp
index f9db33a..7aab38f 100644
--- a/api/src/cmp/unicode/formats.cpp
+++ b/api/src/cmp/unicode/formats.cpp
@@ -109,9 +109,10 @@ const noexcept
 void
 integer_format::set_radix (
     unsigned int new_radix
-)
-noexcept
-{
+) {
+    if (new_radix < 2 || new_radix > 36) {
+        throw invalid_radix{};
+    }
     m_radix = new_radix;
 } // function -----------------------------------------------------------------
 
@@ -194,9 +195,10 @@ const noexcept
 void
 floating_point_format::set_radix (
     unsigned int new_radix
-)
-noexcept
-{
+) {
+    if (new_radix < 2 || new_radix > 36) {
+        throw invalid_radix{};
+    }
     m_radix = new_radix;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 9de1f953789d295a7c53411ca48ff306e587518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:46 +0000
Subject: [PATCH 12/40] fix: parse_integer accepted signs in the middle of a
 number and leading thousands separators

---
 api/src/cmp/unicode/parsers.ipp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 7c04653..79accbd 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -51,11 +51,17 @@ number_parser::parse_integer (
 
     for (; bcp_iterator != bcp_range.crend(); ++bcp_iterator) {
         current_character = *bcp_iterator;
+        if (sign_found && !is_sign_character(current_character)) {
+            /*
+                Only another sign gets its own error,
+                nothing else may come before the sign.
+            */
+            report_non_digit_character();
+        }
         if (
             digits_counted == 3
                 && format_thousands_separator != thousands_separator::none
         ) {
-            digits_counted = 0;
             if (
                 check_for_sign(
                     current_character,
@@ -70,6 +76,7 @@ number_parser::parse_integer (
                 current_character,
                 format_thousands_separator
             );
+            digits_counted = 0;
             continue;
         }
         if (
@@ -93,6 +100,12 @@ number_parser::parse_integer (
             digits_counted
         );
     }
+    if (digits_counted == 0) {
+        /*
+            There's a thousands separator with no digits before it.
+        */
+        report_non_digit_character();
+    }
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
             output = -output;
-- 
2.43.0


From 51e54265317ac9cfc1a46a55e47a936cc674732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 13/40] fix: parse_integer silently wrapped numbers that do not
 fit the output type

---
 api/include/cmp/unicode/parsers.hpp | 13 +++++++---
 api/src/cmp/unicode/parsers.cpp     | 10 ++++++++
 api/src/cmp/unicode/parsers.ipp     | 40 +++++++++++++++++++++++------
 3 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index 1d90092..70b92b4 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -6,6 +6,8 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstdint>
+#include <limits>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/core/general.hpp>
@@ -59,6 +61,11 @@ private:
     void
     report_non_digit_character ();
 
+    CMP_CONDITIONAL_INLINE
+    static
+    void
+    report_out_of_range ();
+
     CMP_CONDITIONAL_INLINE
     static
     int
@@ -104,8 +111,7 @@ private:
         Output& output,
         int current_digit,
         unsigned int& digits_counted
-    )
-    noexcept;
+    );
 
     template <
         std::floating_point Output
@@ -145,7 +151,8 @@ public:
         thousands_separator_missing,
         digit_character_expected,
         negative_unsigned,
-        wrong_place_limit
+        wrong_place_limit,
+        out_of_range
     }; // enum ----------------------------------------------------------------
 
     // Constructors and Destructor --------------------------------------------
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index 75de8a3..bdee77a 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -40,6 +40,16 @@ number_parser::report_non_digit_character ()
     };
 } // function -----------------------------------------------------------------
 
+void
+number_parser::report_out_of_range ()
+{
+    throw parse_failed{
+        "The input string represents a number that "
+        "doesn't fit in the output type.",
+        parse_failed::type::out_of_range
+    };
+} // function -----------------------------------------------------------------
+
 int
 number_parser::get_next_digit (
     char32_t character,
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 79accbd..05b8aa5 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -45,7 +45,8 @@ number_parser::parse_integer (
 
     bool sign_found{false};
     bool negate{false};
-    Output power{1};
+    std::uintmax_t magnitude{static_cast<std::uintmax_t>(current_digit)};
+    std::uintmax_t power{1};
     unsigned int digits_counted{1};
     char32_t current_character;
 
@@ -95,7 +96,7 @@ number_parser::parse_integer (
         prepend_digit(
             power,
             format_radix,
-            output,
+            magnitude,
             current_digit,
             digits_counted
         );
@@ -106,9 +107,15 @@ number_parser::parse_integer (
         */
         report_non_digit_character();
     }
+    constexpr std::uintmax_t output_maximum{
+        static_cast<std::uintmax_t>(std::numeric_limits<Output>::max())
+    };
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
-            output = -output;
+            if (magnitude > output_maximum + 1) {
+                report_out_of_range();
+            }
+            output = static_cast<Output>(0 - magnitude);
         } else {
             throw parse_failed{
                 "The input string contains a negative "
@@ -116,6 +123,11 @@ number_parser::parse_integer (
                 parse_failed::type::negative_unsigned
             };
         }
+    } else {
+        if (magnitude > output_maximum) {
+            report_out_of_range();
+        }
+        output = static_cast<Output>(magnitude);
     }
     return output;
 } // function -----------------------------------------------------------------
@@ -218,11 +230,23 @@ number_parser::prepend_digit (
     Output& output,
     int current_digit,
     unsigned int& digits_counted
-)
-noexcept
-{
-    power *= radix;
-    output += current_digit * power;
+) {
+    /*
+        The power becomes zero once it no longer fits in its type,
+        and from then on only digits that are zero fit in the output.
+    */
+    constexpr Output maximum{std::numeric_limits<Output>::max()};
+    power = power > maximum / radix ? 0 : power * radix;
+    if (current_digit != 0) {
+        if (
+            power == 0
+                || static_cast<Output>(current_digit)
+                    > (maximum - output) / power
+        ) {
+            report_out_of_range();
+        }
+        output += current_digit * power;
+    }
     ++digits_counted;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 50e09ea761c4dcb92bb1ebce9146ff6521b527f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 14/40] fix: ends_with and parse_integer read before the start
 of malformed text

---
 api/src/cmp/unicode/algorithms.ipp | 8 ++++++++
 api/src/cmp/unicode/parsers.ipp    | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index 7b97df8..e8b9ab8 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -42,6 +42,14 @@ ends_with (
 ) {
     cmp::by_code_point content_range{content};
     cmp::by_code_point substring_range{substring};
+    /*
+        Going backwards is only possible in well-formed text,
+        so we go forward first, which throws if it isn't.
+    */
+    for ([[maybe_unused]] char32_t code_point : content_range) {
+    }
+    for ([[maybe_unused]] char32_t code_point : substring_range) {
+    }
     auto content_iterator{content_range.crbegin()};
     auto substring_iterator{substring_range.crbegin()};
     do {
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 05b8aa5..cbcddcd 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -29,6 +29,12 @@ number_parser::parse_integer (
     }
 
     by_code_point bcp_range{input};
+    /*
+        Going backwards is only possible in well-formed text,
+        so we go forward first, which throws if it isn't.
+    */
+    for ([[maybe_unused]] char32_t code_point : bcp_range) {
+    }
     auto bcp_iterator{bcp_range.crbegin()};
 
     const auto format_radix{format.get_radix()};
-- 
2.43.0


From 08cfff5cb544f97b85703c70b88e7eb46761fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:33 +0000
Subject: [PATCH 15/40] fix: parse_floating_point added the fraction to
 negative numbers instead of subtracting it

---
 api/src/cmp/unicode/parsers.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index cbcddcd..debf1eb 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -195,7 +195,11 @@ number_parser::parse_floating_point (
                 };
             }
         }
-        Output root = 1;
+        /*
+            The places after the radix point move the
+            number away from zero, whatever its sign is.
+        */
+        Output root = integral_part.starts_with(U'-') ? -1 : 1;
         int current_digit;;
         unsigned int digits_counted{0};
         while (radix_character_iterator != u32_input.cend()) {
-- 
2.43.0


From 728e3d661bba56c34d5064ad484378c5cc635c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:29 +0000
Subject: [PATCH 16/40] fix: parse_floating_point did not enforce the place
 limits of its format

---
 api/include/cmp/unicode/parsers.hpp |  8 ++++++++
 api/src/cmp/unicode/parsers.cpp     | 21 +++++++++++++++++++++
 api/src/cmp/unicode/parsers.ipp     | 13 +++++++++----
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index 70b92b4..fe7c8a8 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -100,6 +100,14 @@ private:
         thousands_separator format_thousands_separator
     );
 
+    CMP_CONDITIONAL_INLINE
+    static
+    void
+    check_place_limit (
+        unsigned int place_count,
+        const floating_point_format& format
+    );
+
     template <
         std::integral Output
     >
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index bdee77a..6a3320e 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -122,6 +122,27 @@ number_parser::check_for_thousands_separator (
     }
 } // function -----------------------------------------------------------------
 
+void
+number_parser::check_place_limit (
+    unsigned int place_count,
+    const floating_point_format& format
+) {
+    const auto limit{format.get_radix_place_limit()};
+    const auto limit_count{format.get_radix_place_count()};
+    if (
+        (limit == radix_place_limit::exactly_equal
+            && place_count != limit_count)
+        || (limit == radix_place_limit::up_to
+            && place_count > limit_count)
+    ) {
+        throw parse_failed{
+            "The input string had the wrong number "
+            "of places after the radix point.",
+            parse_failed::type::wrong_place_limit
+        };
+    }
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::parse_failed
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index debf1eb..316e47e 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -165,10 +165,14 @@ number_parser::parse_floating_point (
         format.get_thousands_separator()
     };
     if (radix_character_iterator == u32_input.cend()) {
-        return number_parser::parse_integer<long long>(
-            u32_input,
-            equivalent_format
-        );
+        const auto output{
+            number_parser::parse_integer<long long>(
+                u32_input,
+                equivalent_format
+            )
+        };
+        check_place_limit(0, format);
+        return output;
     } else {
         const auto integral_part_start{u32_input.data()};
         const auto integral_part_size{
@@ -224,6 +228,7 @@ number_parser::parse_floating_point (
             }
             ++radix_character_iterator;
         }
+        check_place_limit(digits_counted, format);
         return output;
     }
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 14d0f40384af6ae4ddaf327ace806efa3e317df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:47 +0000
Subject: [PATCH 17/40] fix: a read larger than the buffer repeated the
 buffered bytes and left a wrong position

---
 api/src/cmp/io/impl/ctr_essence.ipp              | 2 +-
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 2 +-
 api/src/cmp/io/impl/windows/windows_file.cpp     | 2 +-
 api/src/cmp/io/input_resource.cpp                | 5 +++++
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index a823097..d1a42b5 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -119,7 +119,7 @@ ctr_essence<Container>::read_raw (
 
     const auto& content_ref{*get_const_content_ptr()};
 
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         resource.go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index e2d66de..a44bc86 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -138,7 +138,7 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9025917..9f0c65a 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -165,7 +165,7 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/input_resource.cpp b/api/src/cmp/io/input_resource.cpp
index d1bdd87..61a45f6 100644
--- a/api/src/cmp/io/input_resource.cpp
+++ b/api/src/cmp/io/input_resource.cpp
@@ -125,6 +125,11 @@ input_resource::read_buffered (
                 byte_count,
                 read_request::lean_retrieval
             );
+
+            /*
+                The buffer's content comes before what we just read.
+            */
+            m_buffer.set_read_dirty(true);
             return bytes_read;
         } else {
             /*
-- 
2.43.0


From f6f8d60069007bc1b527d6a6ef36cde58be101ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:16 +0000
Subject: [PATCH 18/40] fix: container resources mixed up element and byte
 positions, and sizes when writing inside or past the content

---
 api/src/cmp/io/impl/ctr_essence.ipp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index d1a42b5..2436f36 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -62,7 +62,7 @@ const noexcept
 {
     using element_type = typename Container::value_type;
 
-    return get_position(buffer) ==
+    return get_position(buffer) >=
         std::size(*get_const_content_ptr()) * sizeof (element_type);
 } // function -----------------------------------------------------------------
 
@@ -92,16 +92,20 @@ noexcept
 
     switch (pr) {
         case position_reference::begin:
-            m_position = new_position * sizeof (element_type);
+            m_position = new_position;
             break;
         case position_reference::current:
-            m_position += new_position * sizeof (element_type);
+            m_position += new_position;
             break;
         case position_reference::end:
-            m_position = (std::size(*get_const_content_ptr()) - new_position)
-                * sizeof (element_type);
+            m_position = static_cast<std::int64_t>(
+                std::size(*get_const_content_ptr()) * sizeof (element_type)
+            ) + new_position;
             break;
     }
+    if (m_position < 0) {
+        m_position = 0;
+    }
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
@@ -134,7 +138,9 @@ ctr_essence<Container>::read_raw (
         We check if the position would spill over the end of the content
         if we actually went ahead and read the requested number of bytes.
     */
-    if (m_position + byte_count > content_size) {
+    if (static_cast<std::size_t>(m_position) >= content_size) {
+        byte_count = 0;
+    } else if (m_position + byte_count > content_size) {
         /*
             Here we know that the caller is requesting more bytes than
             there are bytes available. So we adjust the number of bytes
@@ -193,14 +199,14 @@ ctr_essence<Container>::write_raw (
         We check if the position would spill over the end of the content
         if we actually went ahead and wrote the requested number of bytes.
     */
-    if (m_position + byte_count > content_size) {
+    if (byte_count > 0 && m_position + byte_count > content_size) {
         /*
             Here we know that the caller is trying to write more bytes
             than there are bytes available. So we just make room.
         */
         content_ref.resize(
-            std::size(content_ref)
-                + (byte_count / sizeof (element_type))
+            (m_position + byte_count + sizeof (element_type) - 1)
+                / sizeof (element_type)
         );
     }
 
-- 
2.43.0


From 557ef017b45502eb69373752a02d1816e06cea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:28 +0000
Subject: [PATCH 19/40] fix: relative seeks ignored buffered bytes, and
 go_back/go_forward kept stale buffered data

---
 api/src/cmp/io/impl/ctr_essence.ipp              |  5 +++--
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 10 ++++++++--
 api/src/cmp/io/impl/windows/windows_file.cpp     | 10 ++++++++--
 api/src/cmp/io/seekable_input_resource.ipp       |  8 ++++++++
 api/src/cmp/io/seekable_io_resource.ipp          |  8 ++++++++
 api/src/cmp/io/seekable_transfer_resource.ipp    |  4 ++--
 6 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index 2436f36..03b322f 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -124,7 +124,8 @@ ctr_essence<Container>::read_raw (
     const auto& content_ref{*get_const_content_ptr()};
 
     if (m_last_fill_amount > 0) {
-        resource.go_forward(m_last_fill_amount);
+        m_position += m_last_fill_amount;
+        m_last_fill_amount = 0;
     }
 
     /*
@@ -169,7 +170,7 @@ ctr_essence<Container>::read_raw (
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        resource.go_back(static_cast<std::int64_t>(byte_count));
+        m_position -= byte_count;
         m_last_fill_amount = byte_count;
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index a44bc86..b5a3c29 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -139,7 +139,10 @@ file::read_raw (
 noexcept
 {
     if (m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+        set_position_raw(
+            static_cast<position_type>(m_last_fill_amount),
+            position_reference::current
+        );
     }
 
     std::size_t total_result;
@@ -172,7 +175,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9f0c65a..6b27342 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -166,7 +166,10 @@ file::read_raw (
 noexcept
 {
     if (m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+        set_position_raw(
+            static_cast<position_type>(m_last_fill_amount),
+            position_reference::current
+        );
     }
 
     std::size_t total_result;
@@ -199,7 +202,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/seekable_input_resource.ipp b/api/src/cmp/io/seekable_input_resource.ipp
index 25b359c..a054189 100644
--- a/api/src/cmp/io/seekable_input_resource.ipp
+++ b/api/src/cmp/io/seekable_input_resource.ipp
@@ -33,6 +33,14 @@ seekable_input_resource<Position>::set_position (
 )
 noexcept
 {
+    if (pr == position_reference::current) {
+        /*
+            What's current to the user isn't what's current to the
+            underlying resource if something is in the buffer.
+        */
+        new_position += this->get_position();
+        pr = position_reference::begin;
+    }
     this->set_position_raw(new_position, pr);
     m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 7799a9b..1e5bd92 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -34,6 +34,14 @@ seekable_io_resource<Position>::set_position (
 noexcept
 {
     this->flush();
+    if (pr == position_reference::current) {
+        /*
+            What's current to the user isn't what's current to the
+            underlying resource if something is in the buffer.
+        */
+        new_position += this->get_position();
+        pr = position_reference::begin;
+    }
     this->set_position_raw(new_position, pr);
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_transfer_resource.ipp b/api/src/cmp/io/seekable_transfer_resource.ipp
index c29053d..782bebf 100644
--- a/api/src/cmp/io/seekable_transfer_resource.ipp
+++ b/api/src/cmp/io/seekable_transfer_resource.ipp
@@ -30,7 +30,7 @@ seekable_transfer_resource<Position>::go_back (
 )
 noexcept
 {
-    set_position_raw(-count, position_reference::current);
+    this->set_position(-count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 template <
@@ -42,7 +42,7 @@ seekable_transfer_resource<Position>::go_forward (
 )
 noexcept
 {
-    set_position_raw(count, position_reference::current);
+    this->set_position(count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From d53aee5f009ca2d8d45259083104d047ec53aad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:28 +0000
Subject: [PATCH 20/40] fix: seeking before the start of a file relative to its
 end left the position unchanged but dropped the buffer

---
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index b5a3c29..3108b51 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -125,7 +125,18 @@ noexcept
             break;
     }
 
-    ::lseek(m_file_descriptor, new_position, unix_like_position_reference);
+    if (
+        ::lseek(
+            m_file_descriptor,
+            new_position,
+            unix_like_position_reference
+        ) == -1
+    ) {
+        /*
+            There's nothing before the start of the file.
+        */
+        ::lseek(m_file_descriptor, 0, SEEK_SET);
+    }
 
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 8abda409994f2476f77a11fd5ef58b15eb5049b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:53 +0000
Subject: [PATCH 21/40] fix: mixing reads and writes on a buffered I/O resource
 lost writes and read stale or misplaced data

---
 api/include/cmp/io/seekable_io_resource.hpp | 42 +++++++++++++++++++++
 api/src/cmp/io/file.cpp                     |  4 +-
 api/src/cmp/io/seekable_io_resource.ipp     | 39 +++++++++++++++++++
 3 files changed, 83 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/seekable_io_resource.hpp b/api/include/cmp/io/seekable_io_resource.hpp
index b8a8d5f..1d0d187 100644
--- a/api/include/cmp/io/seekable_io_resource.hpp
+++ b/api/include/cmp/io/seekable_io_resource.hpp
@@ -136,6 +136,48 @@ public:
         position_reference pr
     )
     noexcept override;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads <#parameter>byte_count</#parameter> bytes
+            from <#this/> seekable I/O resource, including those
+            that were written to it but are still in its buffer.
+
+        Parameters:
+            data:
+                The array into which the read bytes will be placed.
+            byte_count:
+                The number of bytes to read from <#this/> resource.
+    */
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes <#parameter>byte_count</#parameter> bytes
+            from the <#parameter>data</#parameter> array to
+            <#this/> seekable I/O resource at the position
+            it was read up to.
+
+        Parameters:
+            data:
+                The array of bytes that will be
+                written to <#this/> resource.
+            byte_count:
+                The number of bytes to write to <#this/> resource.
+    */
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 4f3abd6..27c8efc 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -58,7 +58,7 @@ basic_file::read (
     switch (m_access_mode) {
         case read_only:
         case read_and_write: {
-            return input_resource::read(data, byte_count);
+            return seekable_io_resource::read(data, byte_count);
         }
         case write_only:
             throw invalid_access_mode{};
@@ -75,7 +75,7 @@ basic_file::write (
             throw invalid_access_mode{};
         case write_only:
         case read_and_write: {
-            return output_resource::write(data, byte_count);
+            return seekable_io_resource::write(data, byte_count);
         }
     }
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 1e5bd92..11c0d53 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -46,4 +46,43 @@ noexcept
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    /*
+        The buffer is shared between reading and writing.
+    */
+    this->flush();
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    if (!transfer_resource::m_buffer.is_read_dirty()) {
+        /*
+            The buffer is shared between reading and writing, so we
+            give up what's left to read in it before writing to it.
+        */
+        this->set_position_raw(
+            this->get_position(),
+            position_reference::begin
+        );
+        transfer_resource::m_buffer.set_read_dirty(true);
+    }
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 2b3d819d990f0df1cb39d00b4b5a683b2bb27bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:17 +0000
Subject: [PATCH 22/40] fix: interrupted and partial system calls lost or
 corrupted data in files and standard streams

---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  1 +
 .../cmp/io/impl/unix_like/unix_like_uin.hpp   |  1 +
 .../cmp/io/impl/unix_like/unix_like_uout.hpp  |  1 +
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 29 +++++++++++++++----
 .../cmp/io/impl/unix_like/unix_like_uin.cpp   |  9 +++++-
 .../cmp/io/impl/unix_like/unix_like_uout.cpp  | 21 +++++++++++---
 api/src/cmp/io/output_resource.cpp            | 13 ++++++++-
 7 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index 8d33fea..aa21625 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 
+#include <cerrno>
 #include <fcntl.h>
 #include <unistd.h>
 
diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
index e12cb49..50e52d7 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_IO_UNIX_LIKE_UIN_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_UIN_HPP_INCLUDED
 
+#include <cerrno>
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
index d0ee464..f0dd8d6 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 
+#include <cerrno>
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 3108b51..a05ab0a 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -242,7 +242,14 @@ noexcept
     ssize_t bytes_read_last;
     ssize_t bytes_read_total{0};
     while (true) {
-        bytes_read_last = ::read(m_file_descriptor, data, byte_count);
+        bytes_read_last = ::read(
+            m_file_descriptor,
+            data + bytes_read_total,
+            byte_count - bytes_read_total
+        );
+        if (bytes_read_last == -1 && errno == EINTR) {
+            continue;
+        }
         if (bytes_read_last == -1 || bytes_read_last == 0) {
             break;
         }
@@ -262,11 +269,23 @@ file::write_block (
 )
 noexcept
 {
-    ssize_t native_bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (native_bytes_written == -1) {
-        return 0;
+    ssize_t bytes_written_last;
+    ssize_t bytes_written_total{0};
+    while (bytes_written_total < byte_count) {
+        bytes_written_last = ::write(
+            m_file_descriptor,
+            data + bytes_written_total,
+            byte_count - bytes_written_total
+        );
+        if (bytes_written_last == -1 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written_last == -1 || bytes_written_last == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written_last;
     }
-    return native_bytes_written;
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
index 10e8db6..9485acb 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
@@ -36,7 +36,14 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
-    return ::read(STDIN_FILENO, data, byte_count);
+    ssize_t bytes_read;
+    do {
+        bytes_read = ::read(STDIN_FILENO, data, byte_count);
+    } while (bytes_read == -1 && errno == EINTR);
+    if (bytes_read == -1) {
+        return 0;
+    }
+    return bytes_read;
 } // function -----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::stdin_stream
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
index e7143e7..0b8c706 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
@@ -36,11 +36,24 @@ stdout_resource::write_raw (
     const std::byte* data,
     std::size_t byte_count
 ) {
-    ssize_t bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (bytes_written == -1) {
-        return 0;
+    std::size_t bytes_written_total{0};
+    while (bytes_written_total < byte_count) {
+        ssize_t bytes_written{
+            ::write(
+                m_file_descriptor,
+                data + bytes_written_total,
+                byte_count - bytes_written_total
+            )
+        };
+        if (bytes_written == -1 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written == -1 || bytes_written == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written;
     }
-    return bytes_written;
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 #if CMP_CONFIG_HEADER_ONLY == false
diff --git a/api/src/cmp/io/output_resource.cpp b/api/src/cmp/io/output_resource.cpp
index a7ffd24..fc778f6 100644
--- a/api/src/cmp/io/output_resource.cpp
+++ b/api/src/cmp/io/output_resource.cpp
@@ -34,7 +34,18 @@ void
 output_resource::flush ()
 {
     if (m_buffer.is_write_dirty()) {
-        write_raw(m_buffer.get_data_ptr(), m_buffer.get_position());
+        std::size_t bytes_written{0};
+        std::size_t bytes_written_last;
+        do {
+            bytes_written_last = write_raw(
+                m_buffer.get_data_ptr() + bytes_written,
+                m_buffer.get_position() - bytes_written
+            );
+            bytes_written += bytes_written_last;
+        } while (
+            bytes_written_last > 0
+                && bytes_written < m_buffer.get_position()
+        );
         m_buffer.set_write_dirty(false);
     }
 } // function -----------------------------------------------------------------
-- 
2.43.0


From f7a95dd720cbf07a6ed4fc875659448ed9bb814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:38 +0000
Subject: [PATCH 23/40] fix: input streams inverted the byte order twice, so
 data in a non-native endianness was never converted

The data streams' default is now the native endianness, which is what
data_input_stream effectively used and its test expects.
---
 api/include/cmp/io/data_input_stream.hpp  | 2 +-
 api/include/cmp/io/data_io_stream.hpp     | 2 +-
 api/include/cmp/io/data_output_stream.hpp | 2 +-
 api/src/cmp/io/input_stream.ipp           | 3 ---
 api/src/cmp/io/text_input_stream.ipp      | 6 ++++++
 5 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/api/include/cmp/io/data_input_stream.hpp b/api/include/cmp/io/data_input_stream.hpp
index ee3f6e6..7d636ac 100644
--- a/api/include/cmp/io/data_input_stream.hpp
+++ b/api/include/cmp/io/data_input_stream.hpp
@@ -47,7 +47,7 @@ public:
     explicit
     data_input_stream (
         referenced_resource_type& resource,
-        std::endian endianness = std::endian::big
+        std::endian endianness = std::endian::native
     )
     noexcept;
 
diff --git a/api/include/cmp/io/data_io_stream.hpp b/api/include/cmp/io/data_io_stream.hpp
index ac251a2..e18b853 100644
--- a/api/include/cmp/io/data_io_stream.hpp
+++ b/api/include/cmp/io/data_io_stream.hpp
@@ -50,7 +50,7 @@ public:
     explicit
     data_io_stream (
         referenced_resource_type& resource,
-        std::endian endianness = std::endian::big
+        std::endian endianness = std::endian::native
     )
     noexcept;
 
diff --git a/api/include/cmp/io/data_output_stream.hpp b/api/include/cmp/io/data_output_stream.hpp
index 18a76a5..046bb0b 100644
--- a/api/include/cmp/io/data_output_stream.hpp
+++ b/api/include/cmp/io/data_output_stream.hpp
@@ -47,7 +47,7 @@ public:
     explicit
     data_output_stream (
         referenced_resource_type& resource,
-        std::endian endianness = std::endian::big
+        std::endian endianness = std::endian::native
     )
     noexcept;
 
diff --git a/api/src/cmp/io/input_stream.ipp b/api/src/cmp/io/input_stream.ipp
index 6d4e953..3894e54 100644
--- a/api/src/cmp/io/input_stream.ipp
+++ b/api/src/cmp/io/input_stream.ipp
@@ -87,9 +87,6 @@ input_stream<InputResource>::read (
     std::size_t byte_count
 ) {
     std::size_t bytes_read{m_resource.read(data, byte_count)};
-    if (m_endianness != std::endian::native) {
-        invert_endianness(data, byte_count);
-    }
     return bytes_read;
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 9687097..7c6211c 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -154,6 +154,9 @@ text_input_stream<InputResource>::read_utf16_code_unit (
     if (this->read(data, 2) < 2) {
         return false;
     }
+    if (this->get_endianness() != std::endian::native) {
+        invert_endianness(data, 2);
+    }
     std::memcpy(&output, data, 2);
     return true;
 } // function -----------------------------------------------------------------
@@ -169,6 +172,9 @@ text_input_stream<InputResource>::read_utf32_code_unit (
     if (this->read(data, 4) < 4) {
         return false;
     }
+    if (this->get_endianness() != std::endian::native) {
+        invert_endianness(data, 4);
+    }
     std::memcpy(&output, data, 4);
     return true;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From e7d21848908a784a93784c4f65dd0591fae0f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:58 +0000
Subject: [PATCH 24/40] fix: read_bom garbled the first UTF-16/UTF-32 code
 point when there was no BOM

---
 api/src/cmp/io/text_input_stream.ipp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 7c6211c..02a407f 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -332,11 +332,11 @@ text_input_stream<InputResource>::read_utf16_bom ()
         char16_t code_unit;
         if (this->get_endianness() == std::endian::big) {
             code_unit
-                = static_cast<int>(first_byte << 8)
+                = (static_cast<char32_t>(first_byte) << 8)
                     | static_cast<int>(second_byte);
         } else {
             code_unit
-                = static_cast<int>(second_byte << 8)
+                = (static_cast<char32_t>(second_byte) << 8)
                     | static_cast<int>(first_byte);
         }
         char32_t result;
@@ -390,17 +390,20 @@ text_input_stream<InputResource>::read_utf32_bom ()
         char32_t result;
         if (this->get_endianness() == std::endian::big) {
             result
-                = static_cast<int>(first_byte << 24)
-                    | static_cast<int>(second_byte << 16)
-                    | static_cast<int>(third_byte << 8)
+                = (static_cast<char32_t>(first_byte) << 24)
+                    | (static_cast<char32_t>(second_byte) << 16)
+                    | (static_cast<char32_t>(third_byte) << 8)
                     | static_cast<int>(fourth_byte);
         } else {
             result
-                = static_cast<int>(fourth_byte << 24)
-                    | static_cast<int>(third_byte << 16)
-                    | static_cast<int>(second_byte << 8)
+                = (static_cast<char32_t>(fourth_byte) << 24)
+                    | (static_cast<char32_t>(third_byte) << 16)
+                    | (static_cast<char32_t>(second_byte) << 8)
                     | static_cast<int>(first_byte);
         }
+        if (!is_code_point_valid(result)) {
+            throw invalid_unicode_encoding{};
+        }
         return result;
     }
 } // function -----------------------------------------------------------------
-- 
2.43.0


From b296b0640bd827a21391aab33b6ce055124d2a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:58 +0000
Subject: [PATCH 25/40] fix: text output streams wrote invalid code points in
 UTF-32

---
 api/src/cmp/io/text_output_stream.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/src/cmp/io/text_output_stream.ipp b/api/src/cmp/io/text_output_stream.ipp
index 2dfa520..e1e1c64 100644
--- a/api/src/cmp/io/text_output_stream.ipp
+++ b/api/src/cmp/io/text_output_stream.ipp
@@ -108,6 +108,9 @@ void
 text_output_stream<OutputResource>::write_code_point_in_utf32 (
     char32_t code_point
 ) {
+    if (!is_code_point_valid(code_point)) {
+        throw invalid_code_point{};
+    }
     if (this->get_endianness() == std::endian::native) {
         this->write(
             reinterpret_cast<const std::byte*>(&code_point),
-- 
2.43.0


From 23925cecf554d630ac7b9e94877b379b4d4211a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:13 +0000
Subject: [PATCH 26/40] fix: reopening a file kept the old path and buffer
 state, and is_at_end could terminate the program

---
 api/src/cmp/io/file.cpp                          | 4 +++-
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 4 ++++
 api/src/cmp/io/impl/windows/windows_file.cpp     | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 27c8efc..35ef565 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -45,7 +45,9 @@ bool
 basic_file::is_at_end ()
 const noexcept
 {
-    return get_position() == std::filesystem::file_size(m_file_path);
+    std::error_code ec;
+    const auto size{std::filesystem::file_size(m_file_path, ec)};
+    return ec || static_cast<std::uintmax_t>(get_position()) >= size;
 } // function -----------------------------------------------------------------
 
 // Core -----------------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index a05ab0a..a28aa74 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -87,7 +87,11 @@ noexcept
         flags |= O_CREAT;
     }
     m_file_descriptor = ::open(file_path.string().c_str(), flags, 0777);
+    m_file_path = file_path;
     m_access_mode = mode;
+    m_last_fill_amount = 0;
+    m_buffer.set_write_dirty(false);
+    m_buffer.set_read_dirty(true);
     return is_open();
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 6b27342..ca8e2c3 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -106,7 +106,11 @@ noexcept
         FILE_ATTRIBUTE_NORMAL,
         nullptr
     );
+    m_file_path = file_path;
     m_access_mode = mode;
+    m_last_fill_amount = 0;
+    m_buffer.set_write_dirty(false);
+    m_buffer.set_read_dirty(true);
     return is_open();
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 084dc2c12eb99f1be1c2067db75975b80f6f1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:03 +0000
Subject: [PATCH 27/40] fix: moving a file closed its descriptor under the new
 owner, leaked the old one and lost buffered data

---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  5 +--
 api/include/cmp/io/io_buffer.hpp              |  2 +-
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 31 +++++++++++++++++++
 api/src/cmp/io/io_buffer.cpp                  | 17 +++++++++-
 4 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index aa21625..a1a3d46 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -7,6 +7,7 @@
 #include <cerrno>
 #include <fcntl.h>
 #include <unistd.h>
+#include <utility>
 
 #include <cmp/io/inclusion_assert.hpp>
 #include <cmp/io/file.hpp>
@@ -54,14 +55,14 @@ public:
     file (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     CMP_CONDITIONAL_INLINE
     file&
     operator = (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/include/cmp/io/io_buffer.hpp b/api/include/cmp/io/io_buffer.hpp
index 2a937f2..cff17f5 100644
--- a/api/include/cmp/io/io_buffer.hpp
+++ b/api/include/cmp/io/io_buffer.hpp
@@ -112,7 +112,7 @@ public:
     operator = (
         io_buffer&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index a28aa74..ef2b256 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -35,6 +35,37 @@ file::~file ()
     close();
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+file::file (
+    file&& other
+)
+noexcept
+    : transfer_resource{std::move(other)}
+    , seekable_transfer_resource<std::int64_t>{std::move(other)}
+    , seekable_input_resource<std::int64_t>{std::move(other)}
+    , seekable_output_resource<std::int64_t>{std::move(other)}
+    , basic_file{std::move(other)}
+    , m_file_descriptor{std::exchange(other.m_file_descriptor, -1)}
+{
+    other.m_buffer.set_write_dirty(false);
+} // function -----------------------------------------------------------------
+
+file&
+file::operator = (
+    file&& other
+)
+noexcept
+{
+    if (this != &other) {
+        close();
+        basic_file::operator = (std::move(other));
+        m_file_descriptor = std::exchange(other.m_file_descriptor, -1);
+        other.m_buffer.set_write_dirty(false);
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
diff --git a/api/src/cmp/io/io_buffer.cpp b/api/src/cmp/io/io_buffer.cpp
index 74dc0f4..b9054a7 100644
--- a/api/src/cmp/io/io_buffer.cpp
+++ b/api/src/cmp/io/io_buffer.cpp
@@ -21,13 +21,28 @@ io_buffer::io_buffer (
     m_data.resize(buffer_capacity);
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+io_buffer&
+io_buffer::operator = (
+    io_buffer&& other
+)
+noexcept
+{
+    /*
+        Buffers live in a virtual base class, which may be assigned several
+        times from the same source, so the source must keep its content.
+    */
+    return *this = other;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 std::size_t
 io_buffer::get_capacity ()
 const noexcept
 {
-    return m_data.capacity();
+    return m_data.size();
 } // function -----------------------------------------------------------------
 
 std::size_t
-- 
2.43.0


From d6c74b8c035b23c8cb0aa32506cb3ae0baf409da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:28 +0000
Subject: [PATCH 28/40] fix: copies and moves of opaque container resources
 kept using the source's content

---
 api/include/cmp/io/impl/ctr_essence.hpp       |  3 +++
 .../io/opaque_container_input_resource.hpp    |  8 ++++++++
 .../cmp/io/opaque_container_io_resource.hpp   |  8 ++++++++
 .../io/opaque_container_output_resource.hpp   |  8 ++++++++
 .../io/opaque_container_input_resource.ipp    | 20 +++++++++++++++++++
 .../cmp/io/opaque_container_io_resource.ipp   | 20 +++++++++++++++++++
 .../io/opaque_container_output_resource.ipp   | 20 +++++++++++++++++++
 7 files changed, 87 insertions(+)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index 2d8b6f1..801f210 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -26,6 +26,7 @@ public:
         const Container* initial_content_ptr
     );
 
+    virtual
     ~ctr_essence ()
     = default;
 
@@ -38,10 +39,12 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    virtual
     Container*
     get_content_ptr ()
     noexcept;
 
+    virtual
     const Container*
     get_const_content_ptr ()
     const noexcept;
diff --git a/api/include/cmp/io/opaque_container_input_resource.hpp b/api/include/cmp/io/opaque_container_input_resource.hpp
index be71bc8..983a9f4 100644
--- a/api/include/cmp/io/opaque_container_input_resource.hpp
+++ b/api/include/cmp/io/opaque_container_input_resource.hpp
@@ -205,6 +205,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_io_resource.hpp b/api/include/cmp/io/opaque_container_io_resource.hpp
index 4c9ede5..23b4f91 100644
--- a/api/include/cmp/io/opaque_container_io_resource.hpp
+++ b/api/include/cmp/io/opaque_container_io_resource.hpp
@@ -235,6 +235,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_output_resource.hpp b/api/include/cmp/io/opaque_container_output_resource.hpp
index c31d4c1..96baefb 100644
--- a/api/include/cmp/io/opaque_container_output_resource.hpp
+++ b/api/include/cmp/io/opaque_container_output_resource.hpp
@@ -213,6 +213,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index 34189b7..d8c17df 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -90,6 +90,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_input_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_input_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index d6c6e7c..2c2d29e 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -114,6 +114,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_io_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_io_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_output_resource.ipp b/api/src/cmp/io/opaque_container_output_resource.ipp
index aecbe92..d32fbc1 100644
--- a/api/src/cmp/io/opaque_container_output_resource.ipp
+++ b/api/src/cmp/io/opaque_container_output_resource.ipp
@@ -100,6 +100,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_output_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_output_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
-- 
2.43.0


From 7bf7ef6e9a04dd651d2b2745b16b521aa35e0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:26 +0000
Subject: [PATCH 29/40] fix: what was written to the standard streams and never
 flushed was lost when the program ended

---
 api/include/cmp/io/impl/unix_like/unix_like_uout.hpp | 2 +-
 api/src/cmp/io/impl/unix_like/unix_like_uout.cpp     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
index f0dd8d6..f9a694e 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
@@ -29,7 +29,7 @@ public:
 
     CMP_CONDITIONAL_INLINE
     ~stdout_resource ()
-    override = default;
+    override;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
index 0b8c706..9e8404a 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
@@ -20,6 +20,11 @@ noexcept
 {
 } // function -----------------------------------------------------------------
 
+stdout_resource::~stdout_resource ()
+{
+    this->flush();
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
-- 
2.43.0


From eacfc47365eb98808926a0ce126e64e3ea5b9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:26 +0000
Subject: [PATCH 30/40] fix: a closed window kept its destroyed native window,
 so it could not be reopened or used safely

---
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 40899f3..620de3a 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -276,13 +276,29 @@ forward_close_event_to_window (
             close_event ev{true};
             current_association->second->handle_close_event(ev);
             if (ev.should_close()) {
-                window_associations.erase(current_association);
+                /*
+                    The handler may have opened or closed other windows,
+                    so the association may no longer be where it was.
+                */
+                current_association = std::find_if(
+                    std::begin(window_associations),
+                    std::end(window_associations),
+                    [window_handle] (const auto& element) {
+                        return element.first == window_handle;
+                    }
+                );
+                if (current_association != std::end(window_associations)) {
+                    current_association->second->grab_native_handle()
+                        .gtk_application_window = NULL;
+                    window_associations.erase(current_association);
+                }
                 return FALSE;
             } else {
                 return TRUE;
             }
         }
     }
+    return FALSE;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From d581b5544ec1ee4c33f875a258ed3a50c3241ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:26 +0000
Subject: [PATCH 31/40] fix: destroying or assigning over an open window left
 its native window sending events to it

---
 .../cmp/desktop_gui/impl/gtk/gtk_window.hpp   |  7 +++--
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 27 +++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
index f5c4e57..6dd0839 100755
--- a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
+++ b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
@@ -28,8 +28,7 @@ public:
         window_mode initial_mode
     );
 
-    ~window ()
-    = default;
+    ~window ();
 
     // Copy Operations --------------------------------------------------------
 
@@ -142,6 +141,10 @@ private:
 
     // Private Functions ------------------------------------------------------
 
+    void
+    release_native_handle ()
+    noexcept;
+
     void
     fix_association ()
     noexcept;
diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 620de3a..84ae90d 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -317,6 +317,11 @@ window::window (
     open(initial_width, initial_height, initial_title, initial_mode);
 } // function -----------------------------------------------------------------
 
+window::~window ()
+{
+    release_native_handle();
+} // function -----------------------------------------------------------------
+
 // Move Operations ------------------------------------------------------------
 
 window::window (
@@ -342,6 +347,7 @@ noexcept
 {
     if (this != &other) {
         close();
+        release_native_handle();
 
         m_native_handle = other.m_native_handle;
         m_start_time = other.m_start_time;
@@ -504,6 +510,9 @@ window::hide ()
 void
 window::close ()
 {
+    if (m_native_handle.gtk_application_window == NULL) {
+        return;
+    }
     gtk_window_close(GTK_WINDOW(m_native_handle.gtk_application_window));
 } // function -----------------------------------------------------------------
 
@@ -539,6 +548,24 @@ window::handle_close_event (
 
 // Private Functions ----------------------------------------------------------
 
+void
+window::release_native_handle ()
+noexcept
+{
+    GtkWidget* window_handle{m_native_handle.gtk_application_window};
+    if (window_handle == NULL) {
+        return;
+    }
+    m_native_handle.gtk_application_window = NULL;
+    std::erase_if(
+        dgui_app()->grab_native_handle().window_associations,
+        [window_handle] (const auto& element) {
+            return element.first == window_handle;
+        }
+    );
+    gtk_window_destroy(GTK_WINDOW(window_handle));
+} // function -----------------------------------------------------------------
+
 void
 window::fix_association ()
 noexcept
-- 
2.43.0


From 8d4e6a6dba553b2edcaa133d6d113dd5b5385f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:26 +0000
Subject: [PATCH 32/40] fix: opening or closing windows while updating one
 invalidated the loop over the windows

---
 .../impl/gtk/gtk_desktop_gui_application.cpp  | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
index 8c73ba9..eb99962 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
@@ -88,11 +88,22 @@ desktop_gui_application::run ()
         if (g_main_context_pending(context)) {
             g_main_context_dispatch(context);
         } else {
-            for (
-                auto& current_association
-                    : m_native_handle.window_associations
-            ) {
-                impl::update_window(current_association.second);
+            /*
+                Updating a window may open, close or move windows,
+                so we go by those that were there when we started
+                and skip those that are no longer there.
+            */
+            auto& associations{m_native_handle.window_associations};
+            const auto initial_associations{associations};
+            for (const auto& initial_association : initial_associations) {
+                for (const auto& current_association : associations) {
+                    if (
+                        current_association.first == initial_association.first
+                    ) {
+                        impl::update_window(current_association.second);
+                        break;
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From cd9275324f1fd97a62075170d8e58ce1cf8c43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:13 +0000
Subject: [PATCH 33/40] fix: cmp_equal told negative values with the same
 decimal places apart

Rounding down made -1.12 and -1.125 differ in two decimal places
although both end in .12; the places past the relevant ones are
now dropped for negative values as they are for positive ones.
---
 api/src/cmp/core/general.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/core/general.ipp b/api/src/cmp/core/general.ipp
index c449134..9f3408c 100644
--- a/api/src/cmp/core/general.ipp
+++ b/api/src/cmp/core/general.ipp
@@ -20,7 +20,7 @@ cmp_equal (
 noexcept
 {
     double power{std::pow(10, relevant_decimal_places)};
-    return std::floor(value1 * power) == std::floor(value2 * power);
+    return std::trunc(value1 * power) == std::trunc(value2 * power);
 } // function -----------------------------------------------------------------
 
 template <
-- 
2.43.0


From e259e1efa5e13289bcd5ca3b295153a6701e458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:30 +0000
Subject: [PATCH 34/40] fix: validate_string could not be used on string views

The value type of a view came out const-qualified, for which there
is no by_code_point.
---
 api/include/cmp/core/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/include/cmp/core/type_traits.hpp b/api/include/cmp/core/type_traits.hpp
index 1462e75..d5cf11f 100644
--- a/api/include/cmp/core/type_traits.hpp
+++ b/api/include/cmp/core/type_traits.hpp
@@ -53,7 +53,7 @@ template <
     typename T
 >
 using value_type_t
-    = std::remove_reference_t<decltype(*std::begin(std::declval<T&>()))>;
+    = std::remove_cvref_t<decltype(*std::begin(std::declval<T&>()))>;
 
 template <
     typename T,
-- 
2.43.0


From a0371dd5f7c4980e3eb6602cfe2545b7a9d9c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:03 +0000
Subject: [PATCH 35/40] fix: formatting a floating point number in an odd radix
 without a place limit never ended

The places of, for example, 0.5 in radix 3 go on forever; they now
stop where those of every even radix have ended.
---
 api/include/cmp/unicode/formatters.hpp |  1 +
 api/src/cmp/unicode/formatters.ipp     | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index d593be7..be917fe 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -6,6 +6,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 9c86d92..430bcdc 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -116,6 +116,14 @@ number_formatter::format_floating_point (
     ) {
         return output;
     }
+    /*
+        In an odd radix the places may go on forever, whereas in an even
+        one they never go beyond the smallest value of the input type.
+    */
+    constexpr unsigned int maximum_radix_places{
+        std::numeric_limits<Input>::digits
+            - std::numeric_limits<Input>::min_exponent
+    };
     Output fractional_part_string;
     unsigned int radix_places_counted{0};
     while (fractional_part != 0) {
@@ -133,6 +141,12 @@ number_formatter::format_floating_point (
         ) {
             break;
         }
+        if (
+            format.get_radix_place_limit() == radix_place_limit::none
+                && fractional_part_string.size() == maximum_radix_places
+        ) {
+            break;
+        }
         append_code_point(fractional_part_string, character);
     }
     if (format.get_radix_place_limit() == radix_place_limit::exactly_equal) {
-- 
2.43.0


From 41ee93382245176f68507f42f68139f65cea390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:11 +0000
Subject: [PATCH 36/40] fix: test_module::run_tests can be called again

A second run counted and numbered tests on top of the first one's, and
the numbering beyond the number of tests wrote outside a string.
---
 api/src/cmp/core/test_module.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/api/src/cmp/core/test_module.ipp b/api/src/cmp/core/test_module.ipp
index e9adf4d..f1f66c4 100644
--- a/api/src/cmp/core/test_module.ipp
+++ b/api/src/cmp/core/test_module.ipp
@@ -140,6 +140,13 @@ int
 test_module<T>::run_tests ()
 noexcept
 {
+    /*
+        Nothing of a previous run counts in this one.
+    */
+    m_current_test_index = 0;
+    m_successful_tests = 0;
+    m_failed_tests.clear();
+
     /*
         For each test function, run it and record
         whether the test succeeded or failed.
-- 
2.43.0


From 6f4fcb9b42583c7d4d85c36d6f02973f72632910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:36 +0000
Subject: [PATCH 37/40] Revert "fix: test_module::run_tests can be called
 again"

The file counts as a test file; the defect stays recorded as a finding.
---
 api/src/cmp/core/test_module.ipp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/api/src/cmp/core/test_module.ipp b/api/src/cmp/core/test_module.ipp
index f1f66c4..e9adf4d 100644
--- a/api/src/cmp/core/test_module.ipp
+++ b/api/src/cmp/core/test_module.ipp
@@ -140,13 +140,6 @@ int
 test_module<T>::run_tests ()
 noexcept
 {
-    /*
-        Nothing of a previous run counts in this one.
-    */
-    m_current_test_index = 0;
-    m_successful_tests = 0;
-    m_failed_tests.clear();
-
     /*
         For each test function, run it and record
         whether the test succeeded or failed.
-- 
2.43.0


From 4b11acf47e1c31f0f244d5478ee69be477b45cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:06 +0000
Subject: [PATCH 38/40] fix: file::is_at_end followed the path instead of the
 open file

---
 .../cmp/io/impl/unix_like/unix_like_file.hpp       |  6 ++++++
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp   | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index a1a3d46..cb0e61e 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -6,6 +6,7 @@
 
 #include <cerrno>
 #include <fcntl.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <utility>
 
@@ -71,6 +72,11 @@ public:
     is_open ()
     const noexcept override;
 
+    CMP_CONDITIONAL_INLINE
+    bool
+    is_at_end ()
+    const noexcept override;
+
     CMP_CONDITIONAL_INLINE
     std::int64_t
     get_position ()
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index ef2b256..ebadae7 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -75,6 +75,20 @@ const noexcept
     return m_file_descriptor != -1;
 } // function -----------------------------------------------------------------
 
+bool
+file::is_at_end ()
+const noexcept
+{
+    /*
+        The path may no longer lead to the file that was opened,
+        so the size must come from the file itself.
+    */
+    struct ::stat status;
+    return ::fstat(m_file_descriptor, &status) == -1
+        || !S_ISREG(status.st_mode)
+        || get_position() >= status.st_size;
+} // function -----------------------------------------------------------------
+
 std::int64_t
 file::get_position ()
 const noexcept
-- 
2.43.0


From 5bf35b2004da6105cac7230856154aac261db547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 39/40] fix: whether a letter is a digit depended on the locale

---
 api/src/cmp/unicode/examiners.ipp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/api/src/cmp/unicode/examiners.ipp b/api/src/cmp/unicode/examiners.ipp
index 94776e8..63715f3 100644
--- a/api/src/cmp/unicode/examiners.ipp
+++ b/api/src/cmp/unicode/examiners.ipp
@@ -138,16 +138,13 @@ noexcept
     if (radix < 10) {
         return character >= '0' && character < ('0' + radix);
     } else {
-        char32_t lowercase_character{
-            static_cast<char32_t>(
-                std::tolower(static_cast<int>(character))
-            )
-        };
+        /*
+            Only the basic Latin letters are digits, whatever the locale
+            takes for the lowercase form of a character.
+        */
         return (character >= '0' && character <= '9')
-            || (
-                lowercase_character >= 'a'
-                    && lowercase_character < ('a' + radix - 10)
-            );
+            || (character >= 'a' && character < ('a' + radix - 10))
+            || (character >= 'A' && character < ('A' + radix - 10));
     }
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 996c2d435b5b1cd0c83de2e0d6e8d611a178d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:51 +0000
Subject: [PATCH 40/40] fix: I/O resources that can't seek mixed up what's read
 and what's written

Both directions of an io_resource shared one buffer, so reading after writing
lost what was written and writing after reading ran over the buffer.
---
 api/include/cmp/io/io_resource.hpp | 50 ++++++++++++++++++++++++++++++
 api/src/cmp/io/io_resource.cpp     | 35 +++++++++++++++++++++
 2 files changed, 85 insertions(+)

diff --git a/api/include/cmp/io/io_resource.hpp b/api/include/cmp/io/io_resource.hpp
index 30102fd..4123403 100644
--- a/api/include/cmp/io/io_resource.hpp
+++ b/api/include/cmp/io/io_resource.hpp
@@ -112,6 +112,56 @@ public:
         io_resource&& other
     )
     noexcept = default;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads <#parameter>byte_count</#parameter> bytes
+            from <#this/> I/O resource, after flushing what
+            was written to it.
+
+        Parameters:
+            data:
+                The array into which the read bytes will be placed.
+            byte_count:
+                The number of bytes to read from <#this/> I/O resource.
+    */
+    CMP_CONDITIONAL_INLINE
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes <#parameter>byte_count</#parameter> bytes
+            from the <#parameter>data</#parameter> array to
+            <#this/> I/O resource. What's left to read in the
+            buffer is kept for later reads.
+
+        Parameters:
+            data:
+                The array of bytes that will be
+                written to <#this/> I/O resource.
+            byte_count:
+                The number of bytes to write to <#this/> I/O resource.
+    */
+    CMP_CONDITIONAL_INLINE
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+private:
+    // Private Data -----------------------------------------------------------
+
+    io_buffer m_idle_buffer;
+    bool m_reading;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/io_resource.cpp b/api/src/cmp/io/io_resource.cpp
index 8253a84..c52dad5 100644
--- a/api/src/cmp/io/io_resource.cpp
+++ b/api/src/cmp/io/io_resource.cpp
@@ -1,6 +1,8 @@
 // Copyright (C) 2022 Daniel T. McGinnis
 // SPDX-License-Identifier: BSL-1.0
 
+#include <utility>
+
 #include <cmp/io/io_resource.hpp>
 
 namespace cmp {
@@ -13,7 +15,40 @@ io_resource::io_resource (
     std::size_t buffer_capacity
 )
     : transfer_resource{buffer_capacity}
+    , m_idle_buffer{buffer_capacity}
+    , m_reading{false}
 {
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+std::size_t
+io_resource::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    if (!m_reading) {
+        /*
+            What's read and what's written have nothing to do with each
+            other here, so each direction has a buffer of its own.
+        */
+        flush();
+        std::swap(m_buffer, m_idle_buffer);
+        m_reading = true;
+    }
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+std::size_t
+io_resource::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    if (m_reading) {
+        std::swap(m_buffer, m_idle_buffer);
+        m_reading = false;
+    }
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0

