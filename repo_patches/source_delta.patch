From ae847089104bda4f4fbc9c6fdf9c634cb407ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:40 +0000
Subject: [PATCH 01/53] fix: overflow<I>(overflow<J>) marks values as
 overflowed exactly when they do not fit

---
 best/math/overflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index d7633ac..3c4b476 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -187,8 +187,8 @@ struct overflow {
   constexpr overflow(overflow<J> that)
     : value(that.value),
       overflowed(that.overflowed ||
-                 best::int_cmp(best::min_of<Int>, that.value) < 0 ||
-                 best::int_cmp(best::max_of<Int>, that.value) > 0) {}
+                 best::int_cmp(best::min_of<Int>, that.value) > 0 ||
+                 best::int_cmp(best::max_of<Int>, that.value) < 0) {}
 
   /// # `overflow::wrap()`
   ///
-- 
2.43.0


From 19c5ceb18036192fb1b72d487468cbbb1fc48b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 02/53] fix: ceildiv() rounds mixed-sign operands in their
 common type and wraps min/-1

---
 best/math/overflow.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 3c4b476..dba451b 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -75,8 +75,12 @@ BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
 template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr overflow<best::common_int<A, B>> ceildiv(
   overflow<A> a, overflow<B> b) {
+  using C = common_int<A, B>;
   auto [q, r] = best::div(a, b);
-  if ((r.value > 0 && b.value > 0) || (r.value < 0 && b.value < 0)) {
+  C cb = b.value;
+  // Dividing by -1 never leaves a remainder: in that case, `r` can only be
+  // nonzero because the division itself overflowed.
+  if ((r.value > 0 && cb > 0) || (r.value < 0 && cb < C(-1))) {
     return q + 1;
   }
   return q;
-- 
2.43.0


From e9e63209c65b90797ed7a1d1f89e1ae7144142a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 03/53] fix: next_pow2() and friends detect overflow of types
 narrower than int

---
 best/math/bit.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index 0265da6..4f30faa 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -162,7 +162,7 @@ BEST_INLINE_ALWAYS constexpr Int next_pow2_minus1(Int x) {
 /// Returns the next positive power of two, or zero on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr Int wrapping_next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).wrap();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).wrap();
 }
 
 /// # `best::checked_next_pow2()`
@@ -170,7 +170,7 @@ BEST_INLINE_ALWAYS constexpr Int wrapping_next_pow2(Int x) {
 /// Returns the next positive power of two; returns `best::none` on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).checked();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).checked();
 }
 
 /// # `best::next_pow2()`
@@ -178,7 +178,7 @@ BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
 /// Returns the next positive power of two; returns crashes on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr Int next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).strict();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).strict();
 }
 
 /// # `best::bits_for()`
-- 
2.43.0


From f9e8d7d93c6fb7e40072159c27262b430b4385ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 04/53] fix: UTF-8 decoding does not read past the end of a
 truncated sequence

---
 best/text/internal/utf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 1501dc2..77c6531 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -85,7 +85,9 @@ constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
   if (ones == 1 || ones > 4) { return Invalid; }
-  return ones + (ones == 0);
+  uint32_t bytes = ones + (ones == 0);
+  if (input.size() < bytes) { return OutOfBounds; }
+  return bytes;
 }
 
 // This function is unfortunately a build-time hot-spot, so we can't use
-- 
2.43.0


From 43e16a5606ca1978c80b92f68f6edb8c68e48996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:34 +0000
Subject: [PATCH 05/53] fix: UTF-16 decoding reports empty, lone-surrogate and
 truncated input as errors

---
 best/text/internal/utf.h | 7 +++++--
 best/text/utf16.h        | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 77c6531..ea4d070 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -159,10 +159,13 @@ constexpr bool is_low_surrogate(char16_t code) {
   return (code & 0xfc00) == Low;
 }
 
-constexpr size_t decode16_size(best::span<const char16_t> input) {
+constexpr int32_t decode16_size(best::span<const char16_t> input) {
   if (input.is_empty()) { return OutOfBounds; }
   auto value = input.data().raw()[0];
-  if (is_high_surrogate(value)) { return 2; }
+  if (is_high_surrogate(value)) {
+    if (input.size() < 2) { return OutOfBounds; }
+    return 2;
+  }
   if (is_low_surrogate(value)) { return Invalid; }
   return 1;
 }
diff --git a/best/text/utf16.h b/best/text/utf16.h
index b0ebd93..aa9d141 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -71,7 +71,7 @@ struct utf16 final {
     auto code = best::utf_internal::decode16(input->data().raw(), words);
     if (code < 0) { return encoding_error(~code); }
 
-    *input = (*input)[{.start = words}];
+    *input = (*input)[{.start = best::to_unsigned(words)}];
     if (auto r = rune::from_int(code)) { return *r; }
     return encoding_error::Invalid;
   }
-- 
2.43.0


From 4c41d9aa47dca7df7ad08b70a2873de3a56e8102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:19 +0000
Subject: [PATCH 06/53] fix: UTF-8 reverse decoding rejects leading bytes that
 do not match their continuation bytes

---
 best/text/internal/utf.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index ea4d070..2e8be05 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -122,6 +122,10 @@ constexpr int32_t undecode8(best::span<const char>* input) {
     if (best::leading_ones(byte) != 1) { break; }
   }
   if (len == 5) { return Invalid; }
+
+  // The leading byte must announce exactly the bytes we walked over.
+  best::span<const char> rune = {input->data() + (input->size() - len), len};
+  if (decode8_size(rune) != len) { return Invalid; }
   *input = {input->data(), input->size() - len};
 
   return decode8(input->data().offset(input->size()).raw(), len);
-- 
2.43.0


From 5c478da81b0e28494cf854546ffbd0851232715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:50 +0000
Subject: [PATCH 07/53] fix: UTF-8 validation rejects lone continuation bytes
 and overlong encodings

---
 best/text/internal/utf.h | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 2e8be05..02655ee 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -39,6 +39,18 @@ namespace best::utf_internal {
 inline constexpr int32_t OutOfBounds = ~int32_t(encoding_error::OutOfBounds);
 inline constexpr int32_t Invalid = ~int32_t(encoding_error::Invalid);
 
+constexpr int32_t encode8_size(uint32_t rune) {
+  if (rune < 0x80) {
+    return 1;
+  } else if (rune < 0x800) {
+    return 2;
+  } else if (rune < 0x10000) {
+    return 3;
+  } else {
+    return 4;
+  }
+}
+
 constexpr bool validate_utf8_fast(const char* data, size_t len) {
   // This function is hit whenever we create a `best::str` from a literal, so
   // we need to avoid optional/span here.
@@ -52,8 +64,8 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
     size_t bytes = best::leading_ones(uint8_t(value));
     value &= 0x7f >> bytes;
 
-    if (bytes > 4 || (end - data) < bytes - 1) { return false; }
-    while (--bytes > 0) {
+    if (bytes == 1 || bytes > 4 || (end - data) < bytes - 1) { return false; }
+    for (size_t i = 1; i < bytes; ++i) {
       char c = data[0];
       ++data;
       if (best::leading_ones(c) != 1) { return false; }
@@ -62,6 +74,8 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
       value |= c & 0b00'111111;
     }
 
+    // Reject oversized encodings.
+    if (bytes != encode8_size(value)) { return false; }
     if (value >= 0x11'0000 || (value >= 0xd800 && value <= 0xdfff)) {
       return false;
     }
@@ -69,18 +83,6 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
   return true;
 }
 
-constexpr int32_t encode8_size(uint32_t rune) {
-  if (rune < 0x80) {
-    return 1;
-  } else if (rune < 0x800) {
-    return 2;
-  } else if (rune < 0x10000) {
-    return 3;
-  } else {
-    return 4;
-  }
-}
-
 constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
-- 
2.43.0


From b3ea0db20b887a47b578450e6ffb14ee9f4df70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:57 +0000
Subject: [PATCH 08/53] fix: Latin-1 decoding accepts the upper half of the
 code page

---
 best/text/ascii.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/text/ascii.h b/best/text/ascii.h
index 0309343..4c5f994 100644
--- a/best/text/ascii.h
+++ b/best/text/ascii.h
@@ -110,7 +110,8 @@ struct latin1 final {
     auto next = input->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   static constexpr best::result<rune, encoding_error> undecode(
@@ -118,7 +119,8 @@ struct latin1 final {
     auto next = input->take_last(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   constexpr bool operator==(const latin1&) const = default;
-- 
2.43.0


From 865edd4a66ef94ff9cdc31d3a3802a55f4e862dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 09/53] fix: UTF-8, UTF-16 and UTF-32 refuse to encode unpaired
 surrogates

---
 best/text/utf16.h | 1 +
 best/text/utf32.h | 1 +
 best/text/utf8.h  | 9 ++++++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/best/text/utf16.h b/best/text/utf16.h
index aa9d141..1e6fed2 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -55,6 +55,7 @@ struct utf16 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char16_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto size =
       best::utf_internal::encode16(output->data().raw(), output->size(), rune);
     if (size < 0) { return encoding_error(~size); }
diff --git a/best/text/utf32.h b/best/text/utf32.h
index 19079d7..ebe0f56 100644
--- a/best/text/utf32.h
+++ b/best/text/utf32.h
@@ -58,6 +58,7 @@ struct utf32 final {
   template <int = 0>
   static constexpr best::result<void, encoding_error> encode(
     best::span<char32_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto next = output->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
diff --git a/best/text/utf8.h b/best/text/utf8.h
index 53ba36c..72a555c 100644
--- a/best/text/utf8.h
+++ b/best/text/utf8.h
@@ -57,6 +57,13 @@ struct utf8 final {
   }
 
   static constexpr best::result<void, encoding_error> encode(
+    best::span<char>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
+    return wtf8_encode(output, rune);
+  }
+
+  // Shared with `best::wtf8`, which also encodes unpaired surrogates.
+  static constexpr best::result<void, encoding_error> wtf8_encode(
     best::span<char>* output, rune rune) {
     size_t bytes = best::utf_internal::encode8_size(rune);
     if (output->size() < bytes) { return encoding_error::OutOfBounds; }
@@ -115,7 +122,7 @@ struct wtf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
-    return utf8::encode(output, rune);
+    return utf8::wtf8_encode(output, rune);
   }
 
   static constexpr best::result<rune, encoding_error> decode(
-- 
2.43.0


From 7996109c58b31436e1618d50f0b54bb63d464d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 10/53] fix: [0, SIZE_MAX] bounds do not resolve to an empty
 range

---
 best/iter/bounds.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 82efd80..150d64f 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -364,6 +364,11 @@ constexpr int_range<Int>::opt_t int_range<Int>::try_compute_count(
 {
   if (!max_size && !end && !including_end && !count) { return {}; }
 
+  // [0, Max] has one more element than a size_t can count.
+  if (start == 0 && !end && including_end && *including_end == Max) {
+    return {};
+  }
+
   auto count = normalize(max_size).count;
   if (!max_size) { return count; }
 
-- 
2.43.0


From 96f37191974ed62c20f880e94f05d5ba78c7d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:46 +0000
Subject: [PATCH 11/53] fix: iterating a signed integer range compiles and
 counts without overflow

---
 best/iter/bounds.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 150d64f..3f9083b 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -213,7 +213,9 @@ struct int_range final {
 
  private:
   struct iter_impl {
-    Int start_, count_;
+    Int start_;
+    // Unsigned, because a signed range can hold more than `Max` integers.
+    std::make_unsigned_t<Int> count_;
     bool plus_one_ = false;
 
    private:
@@ -247,7 +249,7 @@ struct int_range final {
         return {};
       }
 
-      auto ret = start_ + count_ - !plus_one_;
+      auto ret = (best::overflow(start_) + Int(count_) - Int(!plus_one_)).wrap();
       count_ = (best::overflow(count_) - 1).wrap();
       return ret;
     }
@@ -264,7 +266,7 @@ struct int_range final {
     }
 
     constexpr best::option<Int> last() && {
-      return (best::overflow(start_) + count_ + Int(plus_one_) - 1).wrap();
+      return (best::overflow(start_) + Int(count_) + Int(plus_one_) - Int(1)).wrap();
     }
   };
 
@@ -294,11 +296,14 @@ constexpr auto int_range<Int>::iter() const {
   if (start == Min && ((including_end && *including_end == Max) ||
                        (!including_end && !end && !count))) {
     return best::iter(
-      iter_impl{.start_ = Min, .count_ = Int(-1), .plus_one_ = true});
+      iter_impl{.start_ = Min,
+                .count_ = std::make_unsigned_t<Int>(-1),
+                .plus_one_ = true});
   }
 
   return best::iter(
-    iter_impl{.start_ = start, .count_ = *normalize(Max).count});
+    iter_impl{.start_ = start,
+              .count_ = std::make_unsigned_t<Int>(*normalize(Max).count)});
 }
 
 template <typename Int>
-- 
2.43.0


From b0da285cf9a2cf0449d4481e08a4589e1f0141a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:22 +0000
Subject: [PATCH 12/53] fix: integer range size hints include the extra element
 of a full range

---
 best/iter/bounds.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 3f9083b..fe9da51 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -257,7 +257,8 @@ struct int_range final {
     constexpr std::array<size_t, 2> size_hint() const {
       // TODO(mcyoung): This will overflow for uint64 ranges, need to return
       // something else.
-      return {count_, count_};
+      size_t n = size_t(count_) + size_t(plus_one_);
+      return {n, n};
     }
 
     constexpr size_t count() && {
-- 
2.43.0


From 93ae519fc1ff8122513cc3e42f7ff8460f4efa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 13/53] fix: last() of an empty integer range is none

---
 best/iter/bounds.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index fe9da51..bc76b7b 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -267,6 +267,7 @@ struct int_range final {
     }
 
     constexpr best::option<Int> last() && {
+      if (count_ == 0 && !plus_one_) { return {}; }
       return (best::overflow(start_) + Int(count_) + Int(plus_one_) - Int(1)).wrap();
     }
   };
-- 
2.43.0


From 0724c9729333722a139b88e991003297ae3f8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:28 +0000
Subject: [PATCH 14/53] fix: an integer range without an end runs through the
 maximum and .end wins over .including_end

---
 best/iter/bounds.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index bc76b7b..44433ef 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -292,11 +292,15 @@ int_range(Int, Int) -> int_range<Int>;
 namespace best {
 template <typename Int>
 constexpr auto int_range<Int>::iter() const {
+  // A range without an end runs through Max, inclusive.
+  int_range range = *this;
+  if (!end && !including_end && !count) { range.including_end = Max; }
+
   // Deal with a funny special case: we need to yield every integer. This
   // happens when start == min and end/count is not set or including_end is
   // Max.
-  if (start == Min && ((including_end && *including_end == Max) ||
-                       (!including_end && !end && !count))) {
+  if (start == Min && !end && range.including_end &&
+      *range.including_end == Max) {
     return best::iter(
       iter_impl{.start_ = Min,
                 .count_ = std::make_unsigned_t<Int>(-1),
@@ -305,7 +309,7 @@ constexpr auto int_range<Int>::iter() const {
 
   return best::iter(
     iter_impl{.start_ = start,
-              .count_ = std::make_unsigned_t<Int>(*normalize(Max).count)});
+              .count_ = std::make_unsigned_t<Int>(*range.normalize(Max).count)});
 }
 
 template <typename Int>
-- 
2.43.0


From b03ee70368fcf901c169892b8607df501489438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:49 +0000
Subject: [PATCH 15/53] fix: constructing a fixed-size span checks the length
 of its source

---
 best/memory/span.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index fdfea2f..6fbf092 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -845,8 +845,7 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n>::span(best::ptr<T> data, size_t size, best::location loc)
   : data_(data) {
   if constexpr (is_static) {
-    best::bounds bounds_check = {.start = this->size(), .count = 0};
-    bounds_check.compute_count(this->size(), loc);
+    if (size != *n) { bounds_internal::crash({.count = *n}, size, loc); }
   } else {
     size_ = size;
   }
-- 
2.43.0


From 8df27385fbd5cf37495f0d827214b338a8b020ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:16 +0000
Subject: [PATCH 16/53] fix: span::at(unsafe, bounds) reads the inclusive end
 it was given

---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 6fbf092..dcbdcae 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1005,7 +1005,7 @@ constexpr best::span<T> span<T, n>::at(unsafe, best::bounds range) const {
   if (range.end) {
     count = *range.end - range.start;
   } else if (range.including_end) {
-    count = *range.end - range.start + 1;
+    count = *range.including_end - range.start + 1;
   } else if (range.count) {
     count = *range.count;
   }
-- 
2.43.0


From 1d6719e30b8c88cf55c0e067abdd2f29b59573eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 17/53] fix: searching spans of any one-byte type compiles, and
 constexpr search stays inside the haystack

---
 best/memory/internal/bytes.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 0595947..edd6013 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -41,10 +41,8 @@ size_t strlen(const char*) noexcept;
 
 #if BEST_CONSTEXPR_MEMCMP_
 #define BEST_memcmp_ __builtin_memcmp
-#define BEST_memchr_ __builtin_char_memchr
 #else
 #define BEST_memcmp_ best::bytes_internal::memcmp
-#define BEST_memchr_ best::bytes_internal::memchr
 #endif
 
 template <typename>
@@ -134,10 +132,19 @@ BEST_INLINE_ALWAYS constexpr best::ord compare(best::span<T> lhs,
 template <typename T, typename U>
 constexpr best::option<size_t> search_byte(best::span<T> haystack,
                                            best::span<U> needle) {
-  auto* found =
-    BEST_memchr_(haystack.data().raw(), *needle.data(), haystack.size());
+  if (std::is_constant_evaluated()) {
+    for (size_t i = 0; i < haystack.size(); ++i) {
+      if (haystack.data().raw()[i] == *needle.data()) { return i; }
+    }
+    return best::none;
+  }
+
+  auto* data = haystack.data().cast(best::types<const char>).raw();
+  auto* byte = needle.data().cast(best::types<const unsigned char>).raw();
+  auto* found = static_cast<const char*>(
+    bytes_internal::memchr(data, *byte, haystack.size()));
   if (!found) { return best::none; }
-  return found - haystack.data().raw();
+  return found - data;
 }
 
 template <typename T, typename U>
@@ -189,17 +196,18 @@ BEST_INLINE_ALWAYS constexpr best::option<size_t> search_constexpr(
   T* hp = haystack.data().raw();
   U* np = needle.data().raw();
 
-  U first = *np;
   const T* end = hp + hz;
   while (true) {
     size_t len = end - hp;
     if (len < nz) { return best::none; }
 
     // Skip to the next possible candidate.
-    hp = (T*)BEST_memchr_(hp, first, len);
-    if (hp == nullptr) { return best::none; }
+    auto next = search_byte(best::span<T>(hp, len), needle);
+    if (!next) { return best::none; }
+    hp += *next;
 
     // Check if we actually found the string.
+    if (size_t(end - hp) < nz) { return best::none; }
     if (BEST_memcmp_(hp, np, nz) == 0) { return hp - haystack.data().raw(); }
     ++hp;
   }
@@ -221,7 +229,6 @@ BEST_INLINE_ALWAYS constexpr best::option<size_t> search(best::span<T> haystack,
 }
 
 #undef BEST_memcmp_
-#undef BEST_memchr_
 }  // namespace best::bytes_internal
 
 #endif  // BEST_MEMORY_INTERNAL_BYTES_H_
-- 
2.43.0


From cbacdcdcf2f2ecbfbf3c5380b51b4267c1348a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:46 +0000
Subject: [PATCH 18/53] fix: span search over multi-byte elements keeps
 searching inside the haystack after an unaligned match

---
 best/memory/internal/bytes.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index edd6013..0660cd7 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -156,10 +156,10 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
 
   auto* data = haystack.data().cast(best::types<const char>).raw();
   auto* start = data;
-  size_t size = haystack.size() * sizeof(T);
+  auto* end = data + haystack.size() * sizeof(T);
 
   while (true) {
-    void* found = bytes_internal::memmem(data, size, needle.data().raw(),
+    void* found = bytes_internal::memmem(data, end - data, needle.data().raw(),
                                          needle.size() * sizeof(T));
     if (!found) { return best::none; }
 
@@ -176,7 +176,6 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
     // stride of T.
     size_t misalign = sizeof(T) - offset % sizeof(T);
     data += misalign;
-    size -= offset + misalign;
   }
 }
 
-- 
2.43.0


From 64d6cc3923aba8929a338425cf9ad65be8353c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:19 +0000
Subject: [PATCH 19/53] fix: element-wise span search continues in the
 remaining haystack

---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index dcbdcae..ddb9b65 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1080,7 +1080,7 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
       if (next == haystack.size()) { return best::none; }
 
       // Skip forward.
-      haystack = at(unsafe("we just did a bounds check; avoid going through "
+      haystack = haystack.at(unsafe("we just did a bounds check; avoid going through "
                            "best::option here for constexpr speed"),
                     {// SKip the first element for a speedier comparison.
                      .start = next + 1});
-- 
2.43.0


From bbeb65c2dda083e0057adfafb4c9873f83e8b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:58 +0000
Subject: [PATCH 20/53] fix: splitting a span once by predicate compiles

---
 best/memory/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index ddb9b65..01a0504 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1202,7 +1202,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::split_once(
   auto idx = find(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
@@ -1237,7 +1237,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::rsplit_once(
   auto idx = rfind(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
-- 
2.43.0


From 0d79db9c12216a3c915765ac7748ff607c30c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:57 +0000
Subject: [PATCH 21/53] fix: span equality and search use bytes only for
 elements whose equality is bytewise

---
 best/memory/internal/bytes.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 0660cd7..4641507 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -51,6 +51,15 @@ struct tag {};
 template <typename T, typename U>
 void can_memcmp(tag<T>, tag<U>) requires requires {
   requires sizeof(T) == sizeof(U);
+  // Comparing different types converts them to a common type first, which only
+  // preserves their bytes for integers that are extended in the same way. Plain
+  // char stands for a byte, whatever its sign.
+  requires best::same<std::remove_cv_t<T>, std::remove_cv_t<U>> ||
+             (std::is_integral_v<T> && std::is_integral_v<U> &&
+              (std::is_signed_v<T> == std::is_signed_v<U> ||
+               best::same<std::remove_cv_t<T>, char> ||
+               best::same<std::remove_cv_t<U>, char> ||
+               sizeof(T) >= sizeof(int)));
 #if BEST_HAS_BUILTIN(__is_trivially_equality_comparable)
   requires __is_trivially_equality_comparable(T);
   requires __is_trivially_equality_comparable(U);
@@ -73,6 +82,10 @@ void can_memcmp(tag<T*>, tag<U*>) requires requires {
   // https://github.com/llvm/llvm-project/blob/ecf2a53407f517a261ee296e1f922c647a13a503/libcxx/include/__type_traits/is_equality_comparable.h#L41
   requires !std::is_polymorphic_v<T> && !std::is_polymorphic_v<U>;
 
+  // Comparing pointers to different types may adjust one of them.
+  requires best::same<std::remove_cv_t<T>, std::remove_cv_t<U>> ||
+             std::is_void_v<T> || std::is_void_v<U>;
+
   // Some platforms are just weird, man.
   requires sizeof(T*) == sizeof(U*);
 };
-- 
2.43.0


From 6949a8e230e3dae31a2f3742840cf84302484a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:02 +0000
Subject: [PATCH 22/53] fix: span ordering compares bytes only for elements
 ordered like bytes

---
 best/memory/internal/bytes.h | 11 +++++++++++
 best/memory/span.h           |  5 +++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 4641507..b59defb 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -105,6 +105,17 @@ concept byte_comparable = requires {
                                    best::bytes_internal::tag<U>{});
 };
 
+/// # `best::byte_ordered`
+///
+/// Whether a pair of types' ordering is modeled by `memcmp()`.
+template <typename T, typename U = T>
+concept byte_ordered = requires {
+  requires byte_comparable<T, U>;
+  requires sizeof(T) == 1;
+  requires std::is_unsigned_v<T> || best::same<std::remove_cv_t<T>, char>;
+  requires std::is_unsigned_v<U> || best::same<std::remove_cv_t<U>, char>;
+};
+
 /// # `best::constexpr_byte_comparable`
 ///
 /// Whether a pair of types can be `memcmp`'d in constexpr.
diff --git a/best/memory/span.h b/best/memory/span.h
index 01a0504..5280254 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1416,11 +1416,12 @@ constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   requires best::comparable<T, U>
 {
   if (std::is_constant_evaluated()) {
-    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
+    if constexpr (best::bytes_internal::byte_ordered<T, U> &&
+                  best::bytes_internal::constexpr_byte_comparable<T, U>) {
       return best::bytes_internal::compare(best::span(*this), best::span(that));
     }
   } else {
-    if constexpr (best::bytes_internal::byte_comparable<T, U>) {
+    if constexpr (best::bytes_internal::byte_ordered<T, U>) {
       return best::bytes_internal::compare(best::span(*this), best::span(that));
     }
   }
-- 
2.43.0


From ec743fa1afa137c839b3069c044a62dd9a2ee296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:57 +0000
Subject: [PATCH 23/53] fix: relocating elements to an overlapping range moves
 each element out before it is overwritten

---
 best/memory/ptr.h | 33 ++++++---------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5a43185..5f82735 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -1031,22 +1031,15 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
   // | xxxx | yyyyyyyyyyyy | yyyyyy | ------------ | xxxx |
   //        src            dst      src + count    dst + count
   //
-  // The moved part is subdivided as follows according to how it needs to be
-  // moved:
-  // | aaaa | bbbbbbbbbbbb | cccc |
-  // src    src + overlap  dst    src + count
-  //
-  // Where overlap = src + count - dst. The c part is move-constructed
-  // but not destroyed; then the b part is relocated, and the a part is
-  // move-assigned and then destroyed.
+  // The elements are relocated one by one, last one first, so that each is
+  // moved out before something else is moved over it.
   //
   // Overlapping backward shift. Happens when dst < src < dest + count, need to
   // destroy {.start = dst + count, .end = src + count }
   // | xxxx | ------------ | yyyyyy | yyyyyyyyyyyy | xxxx |
   //        dst            src      dst + count    src + count
   //
-  // The moved part is divided in the analogous way, but the move/relocate/
-  // assign regions are in the opposite order.
+  // This is the same, but the first element goes first.
 
   // Non-overlapping case.
   if (src + count <= dst || dst + count <= src) {
@@ -1064,27 +1057,13 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
   }
 
   // Forward case.
-  if (src < dst && dst < src + count) {
-    size_t overlap0 = src + count - dst;
-    size_t overlap1 = dst - src;
-    // Need to make the copies in backward order to avoid trampling.
-    (dst + overlap1).move(src + overlap1, count - overlap1);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    dst.relo_assign(src, overlap0);
+  if (src < dst) {
+    for (size_t i = count; i > 0; --i) { (dst + (i - 1)).relo(src + (i - 1)); }
     return;
   }
 
   // Backward case.
-  if (dst < src && src < dst + count) {
-    size_t overlap0 = dst + count - src;
-    size_t overlap1 = src - dst;
-
-    dst.move(src, overlap0);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    (dst + overlap1).relo_assign(src + overlap1, count - overlap1);
-
-    return;
-  }
+  dst.relo(src, count);
 }
 }  // namespace best
 
-- 
2.43.0


From c924f432d671bd0abfc0a51d7ebcd09eb25241a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:52 +0000
Subject: [PATCH 24/53] fix: bisecting terminates when a comparison is
 unordered

---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 5280254..ac707c5 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1348,7 +1348,8 @@ constexpr best::result<size_t, size_t> span<T, n>::bisect(
     auto cmp = best::call(BEST_FWD(comparator), (const T&)(at(u, mid)));
 
     left = cmp < 0 ? mid + 1 : left;
-    right = cmp > 0 ? mid : right;
+    // Anything else, including an unordered result, must make progress too.
+    right = cmp < 0 ? right : mid;
     if (cmp == 0) {
       // We are done. This hints to the caller that a bounds check to access
       // the span with the returned index is ok.
-- 
2.43.0


From f0f3e728574639898958731304e208c935a16c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:44 +0000
Subject: [PATCH 25/53] fix: moving an inline vector of
 non-trivially-relocatable elements sets the new length

---
 best/container/vec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index be4e4aa..7e2c7ed 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -602,11 +602,13 @@ void vec<T, max_inline, A>::move_construct(vec&& that, bool assign) {
     } else {
       data().relo_assign(that.data(), new_size);
     }
+    set_size(unsafe("the elements were just relocated"), new_size);
   } else {
     destroy();
     auto new_size = that.size();
     reserve(new_size);
     data().relo(that.data(), new_size);
+    set_size(unsafe("the elements were just relocated"), new_size);
   }
 
   if (assign) { alloc_ = std::move(that.alloc_); }
-- 
2.43.0


From 13c157e35bb52caca247803826ebb9ab4d3844e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:21 +0000
Subject: [PATCH 26/53] fix: inline vectors reserve the sign bit of their size
 bytes

---
 best/container/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 7e2c7ed..4ecbc28 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -474,7 +474,7 @@ class vec final {
     size_t bits = best::bits_for(max_inline);
     // We need to pay one extra bit, which is the sign bit of the MSB of size_,
     // which is used to tell whether or not this is an inlined string or not.
-    return best::ceildiv(bits, 8).wrap();
+    return best::ceildiv(bits + 1, 8).wrap();
   }();
 
   /// The amount of padding after raw_ to get the total needed space for
-- 
2.43.0


From 124933ba4e596927fe3f4cbf85fe06ed95e76a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 27/53] fix: vec::shrink_to_fit shrinks

---
 best/container/vec.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 4ecbc28..ba0d120 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -315,7 +315,11 @@ class vec final {
   /// Resizes the underlying allocation such that `capacity == size`.
   void shrink_to_fit() {
     if (size() == capacity() || !on_heap()) { return; }
-    spill_to_heap(size());
+    if (is_empty()) {
+      destroy();
+      return;
+    }
+    spill_to_heap(size(), true);
   }
 
   /// # `vec::truncate()`.
-- 
2.43.0


From 20d4e22aab819a246c0974665c1da37fdcc71de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:02 +0000
Subject: [PATCH 28/53] fix: malloc::realloc copies from and frees the original
 block when over-aligned

---
 best/memory/allocator.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index fec2148..5ef5e21 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -131,11 +131,13 @@ best::ptr<void> malloc::zalloc(best::layout layout) {
 best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
                                 best::layout layout) {
   check_addr(ptr);
-  check_layout(ptr, old);
+  auto base = ptr;
+  auto old_actual = old;
+  check_layout(base, old_actual);
   auto actual = UseCookies ? embiggen(layout) : layout;
 
-  if (actual.align() <= MaxAlign) {
-    void* p = ::realloc(ptr.raw(), actual.size());
+  if (old_actual.align() <= MaxAlign && actual.align() <= MaxAlign) {
+    void* p = ::realloc(base.raw(), actual.size());
     if (best::unlikely(p == nullptr)) {
       best::crash_internal::crash(
         "realloc() returned a null pointer on layout %zu:%zu -> %zu:%zu",
@@ -151,7 +153,7 @@ best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
   auto p = alloc(layout);
   size_t common = best::min(old.size(), layout.size());
   std::memcpy(p.raw(), ptr.raw(), common);
-  dealloc(ptr, layout);
+  dealloc(ptr, old);
   return p;
 }
 
-- 
2.43.0


From 1f810e0395f5c9b6eee5d1bf8637b5ccc0d646fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:40 +0000
Subject: [PATCH 29/53] fix: vec::reserve detects overflow

---
 best/container/vec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index ba0d120..ac62a2d 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -308,7 +308,9 @@ class vec final {
   ///
   /// Ensures that pushing an additional `count` elements would not cause this
   /// vector to resize, by resizing the internal array eagerly.
-  void reserve(size_t count) { resize_uninit(size() + count); }
+  void reserve(size_t count) {
+    resize_uninit((best::overflow(size()) + count).strict());
+  }
 
   /// # `vec::shrink_to_fit()`
   ///
-- 
2.43.0


From d5104f99877f1e1995d288085e5a3ef4e0462fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:22 +0000
Subject: [PATCH 30/53] fix: layout::array crashes above max/2 bytes

---
 best/memory/layout.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/layout.h b/best/memory/layout.h
index 7f21d2a..c15f1ce 100644
--- a/best/memory/layout.h
+++ b/best/memory/layout.h
@@ -90,7 +90,7 @@ class layout final {
   template <typename T>
   static constexpr layout array(size_t n) {
     auto [sz, of] = best::overflow(size_of<T>) * n;
-    if (of || sz > best::max_of<size_t>) {
+    if (of || sz > best::max_of<size_t> / 2) {
       best::crash_internal::crash(
         "attempted to allocate more than max_of<size_t>/2 bytes");
     }
-- 
2.43.0


From f82ea5350c11d6e7cdb22537130b4e6b3756693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 31/53] fix: vec::at(bounds) returns a span

---
 best/container/vec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index ac62a2d..a0e68c4 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -274,8 +274,10 @@ class vec final {
   /// out-of-bounds, returns `best::none`.
   best::option<const T&> at(size_t idx) const { return as_span().at(idx); }
   best::option<T&> at(size_t idx) { return as_span().at(idx); }
-  best::option<const T&> at(best::bounds b) const { return as_span().at(b); }
-  best::option<T&> at(best::bounds b) { return as_span().at(b); }
+  best::option<best::span<const T>> at(best::bounds b) const {
+    return as_span().at(b);
+  }
+  best::option<best::span<T>> at(best::bounds b) { return as_span().at(b); }
 
   /// # `vec::citer`, `vec::iter`, `vec::begin()`, `vec::end()`.
   ///
-- 
2.43.0


From a984cc1a169e14fc16f926569a01381ab875c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:35 +0000
Subject: [PATCH 32/53] fix: construct a vector from an array box

---
 best/container/vec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index a0e68c4..de617ef 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -166,7 +166,9 @@ class vec final {
   /// allocation.
   vec(box<T[], alloc>&& box)
     : alloc_(best::in_place, BEST_MOVE(box.allocator())) {
-    raw_ = BEST_MOVE(box).leak();
+    auto ptr = BEST_MOVE(box).leak();
+    if (ptr.raw() == decltype(ptr)::dangling().raw()) { return; }
+    raw_ = best::span<T>(best::ptr<T>(ptr.raw()), ptr.meta());
     store_size(~raw_.size());
   }
 
-- 
2.43.0


From d8950ff50a16561c6a29e42296246bf39bb36236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:13 +0000
Subject: [PATCH 33/53] fix: copy-assigning to a moved-from box

---
 best/container/box.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/container/box.h b/best/container/box.h
index 7327f45..da492dc 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -325,7 +325,8 @@ template <typename T, typename A>
 constexpr box<T, A>& box<T, A>::operator=(const box& that)
   requires requires(ptr p) { p.copy_assign(p); }
 {
-  if (layout() != that.layout()) {
+  if (ptr_.raw() == best::ptr<T>::dangling().raw() ||
+      layout() != that.layout()) {
     this->~box();
     return *new (this) box(that);
   } else {
-- 
2.43.0


From c4fcb03fafca719eda21dc233262b4649ea71a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:51 +0000
Subject: [PATCH 34/53] fix: pointers into a const option or choice

---
 best/container/internal/choice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 50b350d..fcba448 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -239,7 +239,7 @@ class impl : public storage<Ts...> {
     return *get(u, i);
   }
   template <size_t n>
-  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<type<n>> ptr(
+  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<const type<n>> ptr(
     unsafe u, best::index_t<n> i = {}) const {
     return get(u, i).operator->();
   }
-- 
2.43.0


From 08fb2fa591a471c95e5bd7b08ee94f5aa60ae0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:51 +0000
Subject: [PATCH 35/53] fix: choice::object() on an rvalue returns its object

---
 best/container/choice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index e095b1d..32a39bf 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -484,7 +484,7 @@ template <size_t n>
 constexpr best::option<best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) && {
   if (which() != n) { return {}; }
-  BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
 }
 
 template <typename... A>
-- 
2.43.0


From 9e89c7b47a52b07d8e2d77246c820fd3ddc324fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:16 +0000
Subject: [PATCH 36/53] fix: option::ok_or/err_or on an lvalue does not move
 out of it

---
 best/container/option.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index 57075e2..fe4e4cb 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -562,12 +562,12 @@ class option final {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(BEST_FWD(arg));
   }
@@ -581,12 +581,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto ok_or(best::callable<void()> auto&& arg) &
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, ref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) &
+  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(best::call(BEST_FWD(arg)));
@@ -624,13 +624,13 @@ class option final {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) const&&
+  constexpr auto err_or(auto&& arg) &
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) &
+  constexpr auto err_or(auto&& arg) const&&
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(BEST_FWD(arg));
@@ -646,12 +646,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto err_or(best::callable<void()> auto&& arg) &
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, ref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) &
+  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(best::call(BEST_FWD(arg)));
-- 
2.43.0


From cc304f12f4a864eb7f430630b3827bf41ed26fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:33 +0000
Subject: [PATCH 37/53] fix: order a result against plain values and ok/err as
 against results

---
 best/container/result.h | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/best/container/result.h b/best/container/result.h
index c329ba2..ac6cee5 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -334,32 +334,36 @@ class [[nodiscard(
     return impl() <=> that.impl();
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<T> auto& u) const {
-    if (auto v = ok()) { return v <=> u; }
-    return best::ord::less;
+    const best::comparable<T> auto& u) const
+    -> best::order_type<T, decltype(u)> {
+    if (is_ok()) { return impl()[best::index<0>] <=> u; }
+    return best::ord::greater;
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<E> auto& u) const {
-    if (auto v = err()) { return v <=> u; }
-    return best::ord::greater;
+    const best::comparable<E> auto& u) const
+    -> best::order_type<E, decltype(u)> {
+    if (is_err()) { return impl()[best::index<1>] <=> u; }
+    return best::ord::less;
   }
   template <best::comparable<T> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    best::ok<U> u) const {
+    if (is_ok()) { return impl()[best::index<0>] <=> u.args.row[best::index<0>]; }
+    return best::ord::greater;
   }
   template <best::comparable<E> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    best::err<U> u) const {
+    if (is_err()) { return impl()[best::index<1>] <=> u.args.row[best::index<0>]; }
     return best::ord::less;
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<> u) const {
-    if (ok()) { return best::ord::equal; }
-    return best::ord::less;
+    if (is_ok()) { return best::ord::equal; }
+    return best::ord::greater;
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<> u) const {
-    if (err()) { return best::ord::equal; }
-    return best::ord::greater;
+    if (is_err()) { return best::ord::equal; }
+    return best::ord::less;
   }
 
   friend void BestFmt(auto& fmt, const result& res) requires requires {
-- 
2.43.0


From deac1201982663a5ac92f77766d71b838b18be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:00 +0000
Subject: [PATCH 38/53] fix: self-assignment of a choice whose payload is not
 assignable

---
 best/container/internal/choice.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index fcba448..ef1eb54 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -182,6 +182,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(const impl& that) requires (!info.trivial_copy())
   {
+    if (this == &that) { return *this; }
     that.index_match(
       [&](auto tag, auto&... value) { emplace<tag.value>(value...); });
     return *this;
@@ -200,6 +201,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(impl&& that) requires (!info.trivial_move())
   {
+    if (this == &that) { return *this; }
     that.index_match([&](auto tag, auto&... value) {
       emplace<tag.value>(BEST_MOVE(value)...);
     });
-- 
2.43.0


From e8d1a86649c82bdb8788afcaad45f76cba2466f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:35 +0000
Subject: [PATCH 39/53] fix: self-assignment of a mutable option

---
 best/container/option.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/option.h b/best/container/option.h
index fe4e4cb..ecdbc33 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -223,7 +223,7 @@ class option final {
   constexpr option& operator=(U&& that)
     requires best::constructible<T,
                                  best::copy_ref<best::option_type<U>, U&&>> &&
-             cannot_init_from<U>
+             cannot_init_from<U> && (!best::same<option, best::as_auto<U>>)
   {
     if (that.has_value()) {
       if constexpr (best::is_void<best::option_type<U>>) {
-- 
2.43.0


From fad89125f7910b4eb18e38ffd6cd59c82cbecaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:18 +0000
Subject: [PATCH 40/53] fix: rows can be ordered

---
 best/container/row.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index 922c1b7..d5d58ed 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -521,13 +521,13 @@ class row final
   }
 
   template <typename... Us>
-  constexpr auto operator<=>(const choice<Us...>& that) const
-    requires (best::comparable<Elems, Us> && ...)
+  constexpr best::common_ord<best::order_type<Elems, Us>...> operator<=>(
+    const row<Us...>& that) const requires (best::comparable<Elems, Us> && ...)
   {
     using Output = best::common_ord<best::order_type<Elems, Us>...>;
     Output result = Output::equivalent;
 
-    return indices.each([&](auto i) {
+    indices.each([&](auto i) {
       if (result == 0) { result = get(i) <=> that.get(i); }
     });
 
-- 
2.43.0


From e7deaa737b71d334b3e3edae9eab3ac0a85a0585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:12 +0000
Subject: [PATCH 41/53] fix: compare an empty-pointer with an option reference

option<T&> == U* dereferenced a null pointer when the option held a value.
---
 best/container/option.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/container/option.h b/best/container/option.h
index ecdbc33..9002ecb 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -720,7 +720,8 @@ class option final {
   constexpr bool operator==(const U* u) const requires best::is_ref<T>
   {
     return (!has_value() && u == nullptr) ||
-           (has_value() && value(unsafe("just checked has_value()")) == *u);
+           (has_value() && u != nullptr &&
+            value(unsafe("just checked has_value()")) == *u);
   }
   constexpr bool operator==(const best::none_t&) const { return is_empty(); }
 
-- 
2.43.0


From f8f69bdb44b1be60f138f872c26a5ffaaf930977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:09 +0000
Subject: [PATCH 42/53] fix: row::scatter() with explicit types uses those
 types

---
 best/container/row.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index d5d58ed..4518304 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -1345,7 +1345,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const& {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1354,7 +1354,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) & {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1363,7 +1363,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const&& {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
@@ -1373,7 +1373,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) && {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
-- 
2.43.0


From c3db9d36c9c00eab5684ef6e002f6e63225a446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:05 +0000
Subject: [PATCH 43/53] fix: parsing a negative number into an unsigned type is
 an error

---
 best/math/conv.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/math/conv.h b/best/math/conv.h
index 47d472c..5231a08 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -81,8 +81,10 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
     size_t total_codes = best::size(str);
     size_t maximum_codes_without_overflow =
       sizeof(Int) * 2 - best::is_signed<Int>;
-    size_t cannot_overflow =
-      radix <= 16 && total_codes <= maximum_codes_without_overflow;
+    // Negative unsigned values always need the checks.
+    bool cannot_overflow = radix <= 16 &&
+                           total_codes <= maximum_codes_without_overflow &&
+                           (best::is_signed<Int> || !is_negative);
 
 #define BEST_ATOI_LOOP_(result_, op_)                             \
   do {                                                            \
-- 
2.43.0


From d79f1cd39056dff355fdf0ec1c90d1afdb5cffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:18 +0000
Subject: [PATCH 44/53] fix: a defer that runs itself runs once

---
 best/func/defer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/defer.h b/best/func/defer.h
index 5c87e3b..e8164c2 100644
--- a/best/func/defer.h
+++ b/best/func/defer.h
@@ -64,8 +64,8 @@ class [[nodiscard(
   /// Forcibly runs the defer. Further calls to run() will have no effect.
   constexpr void run() {
     if (!cancelled_) {
-      best::call(cb_);
       cancel();
+      best::call(cb_);
     }
   }
 
-- 
2.43.0


From ad57975d8759e21e59780b45901c0c438b4de650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:19 +0000
Subject: [PATCH 45/53] fix: tap[] passes the index, not the tapped value, to
 operator[]

---
 best/func/tap.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index fd62e71..9408aa4 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -175,27 +175,27 @@ constexpr auto tap<Guard, Cb>::operator()(auto&&... args) && {
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) & {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) & {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const&& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const&& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) && {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 
-- 
2.43.0


From 5c9010dd4759bc5745ec9db275c44720431be99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:19 +0000
Subject: [PATCH 46/53] fix: an inspecting tap returns its argument

---
 best/func/tap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index 9408aa4..38853d6 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -201,14 +201,14 @@ constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
 
 constexpr auto inspect(auto&& cb) {
   return best::tap([cb = BEST_FWD(cb)](auto&& arg) -> decltype(auto) {
-    (void)best::call(cb, BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(cb, arg);
+    return BEST_FWD(arg);
   });
 }
 constexpr auto inspect(best::bind_t, auto&& cb) {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    (void)best::call(BEST_FWD(cb), BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(BEST_FWD(cb), arg);
+    return BEST_FWD(arg);
   });
 }
 }  // namespace best
-- 
2.43.0


From 9351d36039834c34f8bb3f838408dba67ace69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:19 +0000
Subject: [PATCH 47/53] fix: a bound tap can be used as a temporary

---
 best/func/tap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index 38853d6..306450b 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -93,8 +93,10 @@ class [[nodiscard(
   /// Gets a reference to the wrapped callback.
   constexpr const Cb& callback() const& { return cb_; }
   constexpr Cb& callback() & { return cb_; }
-  constexpr const Cb&& callback() const&& { return BEST_MOVE(cb_); }
-  constexpr Cb&& callback() && { return BEST_MOVE(cb_); }
+  constexpr const Cb&& callback() const&& {
+    return static_cast<const Cb&&>(cb_);
+  }
+  constexpr Cb&& callback() && { return static_cast<Cb&&>(cb_); }
 
   /// # `tap()`, `tap[]`
   ///
-- 
2.43.0


From 0d3fc85d295b50e10aa4803cfef3a2d77e253178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:00 +0000
Subject: [PATCH 48/53] fix: closures bound to fnrefs and vtables may return
 references

---
 best/func/internal/dyn.h   | 2 +-
 best/func/internal/fnref.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index 1875ee0..aba234c 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -90,7 +90,7 @@ class binder_impl {
   constexpr binder_impl(std::nullptr_t){};
 
   constexpr binder_impl(no_captures auto closure)
-    : fnptr_(+[](ptr self, Args... args) {
+    : fnptr_(+[](ptr self, Args... args) -> R {
         decltype(closure) closure;
         return closure(ptr_cast{.ptr = self}, BEST_FWD(args)...);
       }) {}
diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index 22f5a56..1f31990 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -65,7 +65,7 @@ class impl {
     constexpr bound(std::nullptr_t){};
 
     constexpr bound(no_captures auto closure)
-      : pc_(+[](ptr thiz, Args... args) {
+      : pc_(+[](ptr thiz, Args... args) -> R {
           decltype(closure) closure;
           return closure(ptr_cast{.ptr = thiz}, BEST_FWD(args)...);
         }) {}
-- 
2.43.0


From cbc24eb141c3ea9c990f823835bdb63532a7157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:21 +0000
Subject: [PATCH 49/53] fix: dyn objects are destroyed as what they were when
 copied over

---
 best/memory/ptr.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5f82735..0c30dd7 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -650,7 +650,13 @@ class ptr final {
   BEST_INLINE_ALWAYS constexpr ptr
   try_copy_assign(ptr from) const {
     if (!from.can_copy()) { return nullptr; }
-    from.meta_().copy(raw(), from.raw(), true);
+    if constexpr (can_statically_copy()) {
+      from.meta_().copy(raw(), from.raw(), true);
+    } else {
+      // The two may have different dynamic types.
+      meta_().destroy(raw());
+      from.meta_().copy(raw(), from.raw(), false);
+    }
     return ptr{raw(), from.meta()};
   }
 
-- 
2.43.0


From a65b5a75cb7ef4d1a6d1797ef0e7b1929d134035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:21 +0000
Subject: [PATCH 50/53] fix: constant dyn pointers can be made from objects

---
 best/func/dyn.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/best/func/dyn.h b/best/func/dyn.h
index 5ea68ac..49547ad 100644
--- a/best/func/dyn.h
+++ b/best/func/dyn.h
@@ -427,7 +427,8 @@ class dyn<I...>::meta {
   template <typename P>
   constexpr meta(best::tlist<P>, const typename P::metadata&)
     requires (P::is_thin() && (best::implements<typename P::pointee, I> && ...))
-    : vt_(&best::itable<I...>::of(best::types<typename P::pointee>)) {}
+    : vt_(&best::itable<best::un_const<I>...>::of(
+        best::types<typename P::pointee>)) {}
 
   constexpr best::layout layout() const { return vt_->layout(); }
   constexpr auto deref(pointee* ptr) const { return accessor(ptr, vt_); }
@@ -435,7 +436,7 @@ class dyn<I...>::meta {
   template <typename T>
   static constexpr meta meta_for(T&&) requires (best::implements<T, I> && ...)
   {
-    return &best::itable<I...>::of(best::types<T>);
+    return &best::itable<best::un_const<I>...>::of(best::types<T>);
   }
   template <typename T>
   static constexpr void construct(pointee* dst, bool assign, T&& arg) {
-- 
2.43.0


From adfbbe31d594106637c0904f3852c59276ba3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:28 +0000
Subject: [PATCH 51/53] fix: take() reports the sizes it can yield

---
 best/iter/iter.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index d2c8d7b..f9e0cbe 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -449,6 +449,8 @@ class take final {
 
   constexpr best::size_hint size_hint() const {
     auto [min, max] = iter_.size_hint();
+    if (min > count_) { min = count_; }
+    if (max && *max < count_) { return {min, max}; }
     return {min, count_};
   }
 
-- 
2.43.0


From ccbefd2bf1a1262b8e1d7280aff4a25236d3838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:59 +0000
Subject: [PATCH 52/53] fix: inspect() does not yield references to items that
 are gone

---
 best/iter/iter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index f9e0cbe..3ea643e 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -389,7 +389,7 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void()> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](auto&& value) -> item {
       best::call(cb);
       return BEST_FWD(value);
     },
@@ -400,9 +400,9 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void(item&)> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](auto&& value) -> item {
       best::call(cb, value);
-      return item(value);
+      return BEST_FWD(value);
     },
   });
 }
-- 
2.43.0


From 5790871d21991b23484f78458840d2219622652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:59 +0000
Subject: [PATCH 53/53] fix: a reversed iterator can be reversed

---
 best/iter/iter.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index 3ea643e..4f64c4e 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -485,7 +485,7 @@ class rev_ final {
 
   constexpr best::size_hint size_hint() const { return iter_.size_hint(); }
 
-  constexpr auto rev() const { return iter_; }
+  constexpr auto rev() && { return BEST_MOVE(iter_); }
 
  private:
   constexpr explicit rev_(best::iter<Impl> iter) : iter_(BEST_MOVE(iter)) {}
@@ -498,8 +498,11 @@ class rev_ final {
 template <typename I>
 constexpr auto iter<I>::rev() && requires double_ended
 {
-  BEST_ITER_FWD(rev);
-  return best::iter(best::iter_internal::rev_(std::move(*this)));
+  if constexpr (requires { BEST_MOVE(impl_).rev(); }) {
+    return BEST_MOVE(impl_).rev();
+  } else {
+    return best::iter(best::iter_internal::rev_(std::move(*this)));
+  }
 }
 
 #undef BEST_ITER_FWD
-- 
2.43.0

