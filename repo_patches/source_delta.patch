From 3f8a5b820851d014ecac7f2aa2a6457a06391459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 01/86] fix: TextView::clip_suffix_of returns the matching
 suffix, and handles an empty view

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 01ddb65..64b3ffb 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1757,8 +1757,8 @@ TextView::clip_prefix_of(F const &pred) {
 template <typename F>
 TextView::self_type
 TextView::clip_suffix_of(F const &pred) {
-  size_t idx = this->size() - 1;
-  for (auto spot = this->data() + idx, limit = this->data(); spot >= limit && pred(*spot); --spot, --idx)
+  size_t idx = 0;
+  for (auto spot = this->data_end(), limit = this->data(); spot > limit && pred(*--spot); ++idx)
     ; // empty
   TextView token = this->suffix(idx);
   this->remove_suffix(idx);
-- 
2.43.0


From 69f75f8cd6861e3b5fbe2df9376a2b9b2d6489d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 02/86] fix: TextView::split_suffix_if splits after the
 matching character

---
 code/include/swoc/TextView.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 64b3ffb..1efc73e 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1472,7 +1472,8 @@ TextView::split_suffix_at(std::string_view const &delimiters) -> self_type {
 template <typename F>
 TextView::self_type
 TextView::split_suffix_if(F const &pred) {
-  return this->split_suffix(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return npos == idx ? self_type{} : this->split_suffix(this->size() - (idx + 1));
 }
 
 inline TextView
-- 
2.43.0


From 873e8362221050e4a0c7ff4f238e960303819efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 03/86] fix: TextView::take_suffix takes a suffix of the given
 size, take_suffix_if uses its predicate

---
 code/include/swoc/TextView.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 1efc73e..ab16286 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1478,8 +1478,8 @@ TextView::split_suffix_if(F const &pred) {
 
 inline TextView
 TextView::take_suffix(size_t n) {
-  self_type zret{*this};
-  *this = zret.split_prefix(n);
+  self_type zret = this->suffix(n);
+  this->remove_suffix(zret.size() + 1);
   return zret;
 }
 
@@ -1490,18 +1490,21 @@ TextView::take_suffix(int n) {
 
 inline TextView
 TextView::take_suffix_at(char c) {
-  return this->take_suffix(this->rfind(c));
+  auto idx = this->rfind(c);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 inline TextView
 TextView::take_suffix_at(std::string_view const &delimiters) {
-  return this->take_suffix(this->find_last_of(delimiters));
+  auto idx = this->find_last_of(delimiters);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
 TextView::self_type
 TextView::take_suffix_if(F const &pred) {
-  return this->take_suffix_at(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
-- 
2.43.0


From 80f5756c706a8419febb4cf273e1d19d0a4e741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 04/86] fix: digit value of 'T' / 't' in text to integer
 conversion

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fbfb343..3bd5110 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -27,9 +27,9 @@ const int8_t svtoi_convert[256] = {
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 20
   0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  -1, -1, -1, -1, -1, -1, // 30
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 40
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 60
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 80
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 90
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // A0
-- 
2.43.0


From 6f7b319e5f697cf0cd163ffc92b1474ffa5e10c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 05/86] fix: svtoi clears the parsed text when nothing is
 parsed, no signed overflow for the minimum value

---
 code/src/TextView.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 3bd5110..d812c7f 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -47,6 +47,10 @@ svtoi(TextView src, TextView *out, int base) {
   static constexpr uintmax_t ABS_MIN = uintmax_t(std::numeric_limits<intmax_t>::min());
   intmax_t zret = 0;
 
+  if (out) {
+    out->clear();
+  }
+
   if (src.ltrim_if(&isspace)) {
     TextView parsed;
     const char *start = src.data();
@@ -63,7 +67,7 @@ svtoi(TextView src, TextView *out, int base) {
         out->assign(start, parsed.data_end());
       }
       if (neg) {
-        zret = -intmax_t(std::min<uintmax_t>(n, ABS_MIN));
+        zret = intmax_t(-std::min<uintmax_t>(n, ABS_MIN)); // negate unsigned, the minimum has no positive counterpart.
       } else {
         zret = std::min(n, ABS_MAX);
       }
-- 
2.43.0


From efa57fb22b0c3be3dd715e53851831342bc7fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 06/86] fix: string view comparison orders a prefix before the
 longer view, TextView::LessThan accepts any negative result

---
 code/include/swoc/TextView.h | 4 ++--
 code/src/string_view_util.cc | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index ab16286..b6bdfee 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -947,7 +947,7 @@ public:
     /// @return Case sensitive ordering.
     bool
     operator()(self_type const &lhs, self_type const &rhs) const noexcept {
-      return -1 == strcmp(lhs, rhs);
+      return strcmp(lhs, rhs) < 0;
     }
   };
 
@@ -956,7 +956,7 @@ public:
     /// @return Case insensitive ordering.
     bool
     operator()(self_type const &lhs, self_type const &rhs) const noexcept {
-      return -1 == strcasecmp(lhs, rhs);
+      return strcasecmp(lhs, rhs) < 0;
     }
   };
 
diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 3c483ca..5abe524 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -14,10 +14,10 @@ memcmp(std::string_view const &lhs, std::string_view const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // same memory, obviously equal.
     return 0;
   }
@@ -33,10 +33,10 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // the same memory, obviously equal.
     return 0;
   }
-- 
2.43.0


From 1c9341e155dc811acee2be8fe769c9a71935a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 07/86] fix: TransformView::end is built from the end iterator,
 not from a C string starting there

---
 code/include/swoc/TextView.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index b6bdfee..27256b7 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1862,7 +1862,7 @@ public:
   /// Iterator past last transformed character.
   iterator
   end() const {
-    return self_type{_xf, _limit};
+    return self_type{_xf, _limit, _limit};
   }
 
 protected:
@@ -1871,7 +1871,8 @@ protected:
   source_iterator _limit; ///< End of source view.
 
   /// Special constructor for making an empty instance to serve as the @c end iterator.
-  TransformView(transform_type &&xf, source_iterator &&limit) : _xf(xf), _spot(limit), _limit(limit) {}
+  TransformView(transform_type const &xf, source_iterator const &spot, source_iterator const &limit)
+    : _xf(xf), _spot(spot), _limit(limit) {}
 };
 
 template <typename X, typename V>
@@ -2004,7 +2005,7 @@ protected:
   source_iterator _limit; ///< End marker.
 
   /// Special constructor for making an empty instance to serve as the @c end iterator.
-  explicit TransformView(source_iterator &&limit) : _spot(limit), _limit(limit) {}
+  TransformView(source_iterator const &spot, source_iterator const &limit) : _spot(spot), _limit(limit) {}
 };
 
 template <typename V>
@@ -2059,7 +2060,7 @@ TransformView<void, V>::begin() const -> self_type {
 template <typename V>
 auto
 TransformView<void, V>::end() const -> self_type {
-  return self_type{_limit};
+  return self_type{_limit, _limit};
 }
 
 /// @cond INTERNAL_DETAIL
-- 
2.43.0


From 3106d8f0ccfce91dbc73076c94a1afab5489be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 08/86] fix: FNV-1a hash of octets above 127

---
 code/include/swoc/ext/HashFNV.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/ext/HashFNV.h b/code/include/swoc/ext/HashFNV.h
index b22d43f..fb83d32 100644
--- a/code/include/swoc/ext/HashFNV.h
+++ b/code/include/swoc/ext/HashFNV.h
@@ -177,7 +177,7 @@ template <typename X, typename V>
 auto
 Hash32FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view); // octet value, no sign extension.
     hval += (hval << 1) + (hval << 4) + (hval << 7) + (hval << 8) + (hval << 24);
   }
   return *this;
@@ -221,7 +221,7 @@ template <typename X, typename V>
 auto
 Hash64FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view); // octet value, no sign extension.
     hval += (hval << 1) + (hval << 4) + (hval << 5) + (hval << 7) + (hval << 8) + (hval << 40);
   }
   return *this;
-- 
2.43.0


From 6f3d6e6ff42a9b7bdc3dd06a9a6b52940588e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 09/86] fix: case ignoring comparison of views does not stop at
 a nul character

---
 code/include/swoc/TextView.h |  4 ++--
 code/src/string_view_util.cc | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 27256b7..a8a5520 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1683,7 +1683,7 @@ TextView::starts_with_nocase(char c) const noexcept {
 
 inline bool
 TextView::starts_with_nocase(std::string_view const &prefix) const noexcept {
-  return this->size() >= prefix.size() && 0 == ::strncasecmp(this->data(), prefix.data(), prefix.size());
+  return this->size() >= prefix.size() && 0 == ::strcasecmp(this->prefix(prefix.size()), prefix);
 }
 
 inline bool
@@ -1693,7 +1693,7 @@ TextView::ends_with(std::string_view const &suffix) const noexcept {
 
 inline bool
 TextView::ends_with_nocase(std::string_view const &suffix) const noexcept {
-  return this->size() >= suffix.size() && 0 == ::strncasecmp(this->data_end() - suffix.size(), suffix.data(), suffix.size());
+  return this->size() >= suffix.size() && 0 == ::strcasecmp(this->suffix(suffix.size()), suffix);
 }
 
 inline bool
diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 5abe524..687edfd 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -6,6 +6,7 @@
 */
 
 #include "swoc/string_view_util.h"
+#include <cctype>
 
 int
 memcmp(std::string_view const &lhs, std::string_view const &rhs) {
@@ -31,7 +32,7 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
   int zret = 0;
   size_t n = rhs.size();
 
-  // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
+  // Seems a bit ugly but size comparisons must be done anyway to get the number of characters to compare.
   if (lhs.size() < rhs.size()) {
     zret = -1;
     n    = lhs.size();
@@ -41,7 +42,13 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
     return 0;
   }
 
-  int r = ::strncasecmp(lhs.data(), rhs.data(), n);
+  // Can't use @c strncasecmp - that stops at a nul character, which is not special in a view.
+  for (size_t idx = 0; idx < n; ++idx) {
+    int r = ::tolower(static_cast<unsigned char>(lhs[idx])) - ::tolower(static_cast<unsigned char>(rhs[idx]));
+    if (r) {
+      return r;
+    }
+  }
 
-  return r ? r : zret;
+  return zret;
 }
-- 
2.43.0


From a4bfd6bf1df0019e8e9c3a0cbd042c91d04e24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 10/86] fix: MemSpan comparison and copy handle all bytes of
 the elements, copy from a view is limited by the span

---
 code/include/swoc/MemSpan.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 02c170c..22e5243 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -959,14 +959,14 @@ template <typename T>
 int
 memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
   int zret = 0;
-  size_t n = lhs.size();
+  size_t n = lhs.data_size(); // number of bytes, not elements.
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
     zret = 1;
   } else if (lhs.count() > rhs.count()) {
     zret = -1;
-    n    = rhs.size();
+    n    = rhs.data_size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
 
@@ -983,29 +983,29 @@ using std::memcmp;
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, MemSpan<T> const &src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.size(), src.size())));
+  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.data_size(), src.data_size())));
 }
 
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, T *src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src, dst.size()));
+  return static_cast<T *>(std::memcpy(dst.data(), src, dst.data_size()));
 }
 
 template <typename T>
 T *
 memcpy(T *dst, MemSpan<T> &src) {
-  return static_cast<T *>(std::memcpy(dst, src.data(), src.size()));
+  return static_cast<T *>(std::memcpy(dst, src.data(), src.data_size()));
 }
 
 inline char *
 memcpy(MemSpan<char> &span, std::string_view view) {
-  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(view.size(), view.size())));
+  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(span.size(), view.size())));
 }
 
 inline void *
 memcpy(MemSpan<void> &span, std::string_view view) {
-  return std::memcpy(span.data(), view.data(), std::min(view.size(), view.size()));
+  return std::memcpy(span.data(), view.data(), std::min(span.size(), view.size()));
 }
 
 using std::memcpy;
@@ -1118,7 +1118,7 @@ MemSpan<T>::is_same(self_type const &that) const {
 template <typename T>
 constexpr bool
 MemSpan<T>::operator==(self_type const &that) const {
-  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->size()));
+  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->data_size()));
 }
 
 template <typename T>
-- 
2.43.0


From 2639835e7391e39c7156375538a1d4eb7728dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:42 +0000
Subject: [PATCH 11/86] fix: MemSpan<void>::align pads up to the alignment

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 22e5243..3484afe 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1615,7 +1615,7 @@ MemSpan<void>::align() const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1); // distance to the next aligned address.
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = _size - padding;
@@ -1632,7 +1632,7 @@ MemSpan<void>::align(size_t alignment) const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment, size_t obj_size) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1); // distance to the next aligned address.
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = ((_size - padding) / obj_size) * obj_size;
-- 
2.43.0


From 0671043a9dfc1d4e05f3e784186bf090625d5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:50 +0000
Subject: [PATCH 12/86] fix: MemSpan rebind to void keeps the number of bytes

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 3484afe..0480871 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -935,7 +935,7 @@ template <typename T> struct is_span_compatible<T, void> {
 template <typename T>
 size_t
 is_span_compatible<T, void>::count(size_t size) {
-  return sizeof(T) * size;
+  return size; // @a size is already the number of bytes.
 }
 
 template <typename T> struct is_span_compatible<T, void const> {
@@ -946,7 +946,7 @@ template <typename T> struct is_span_compatible<T, void const> {
 template <typename T>
 size_t
 is_span_compatible<T, void const>::count(size_t size) {
-  return sizeof(T) * size;
+  return size; // @a size is already the number of bytes.
 }
 /// @endcond
 
-- 
2.43.0


From 1246ad28a59108509ea1ec17c8d465b3a2f25815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 13/86] fix: MemArena makes a new block large enough for the
 alignment padding

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 1d4d708..3ff4190 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -162,7 +162,8 @@ MemArena::require(size_t n, size_t align) {
     }
   }
   if (spot == _active.end()) {   // no block has enough free space
-    block = this->make_block(n); // assuming a new block is sufficiently aligned.
+    // The block data is aligned only as well as @c malloc does, larger alignments can require padding.
+    block = this->make_block(align > alignof(std::max_align_t) ? n + align : n);
     _active.prepend(block);
   } else if (spot != _active.begin()) {
     // big enough space, move to the head of the list.
-- 
2.43.0


From 0d87f794e4b1153f8c66d9ddc628542f123056fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 14/86] fix: MemArena remnants are aligned and have the
 requested size

---
 code/include/swoc/MemArena.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index e0b25fb..a744c46 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -697,7 +697,8 @@ template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
   auto span = this->require(sizeof(T) * n, alignof(T)).remnant();
-  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).rebind<T>();
+  span.remove_prefix(Block::align_padding(span.data(), alignof(T)));
+  return span.prefix(sizeof(T) * n).template rebind<T>();
 }
 
 template <>
@@ -708,7 +709,8 @@ MemArena::remnant_span<void>(size_t n) {
 
 inline MemSpan<void>
 MemArena::remnant(size_t n, size_t align) {
-  return this->require(n, align).remnant().prefix(n);
+  auto span = this->require(n, align).remnant();
+  return span.remove_prefix(Block::align_padding(span.data(), align)).prefix(n);
 }
 
 inline size_t
-- 
2.43.0


From 352ef9e3b0a390e6e14e940e9631ee09fa43500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 15/86] fix: MemArena move assignment transfers the static
 block

---
 code/src/MemArena.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 3ff4190..c17637b 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -66,6 +66,9 @@ MemArena::operator=(swoc::MemArena::self_type &&that) noexcept {
   std::swap(_reserve_hint, that._reserve_hint);
   _active = std::move(that._active);
   _frozen = std::move(that._frozen);
+  // The block lists can contain the static block of @a that.
+  _static_block      = that._static_block;
+  that._static_block = nullptr;
   return *this;
 }
 
-- 
2.43.0


From 3da55d1015022e0956854d4dd6405d7cece76dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 16/86] fix: MemArena::thaw does not recycle a static block
 that is active

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index c17637b..d351ea8 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -136,7 +136,8 @@ MemArena &
 MemArena::thaw() {
   this->destroy_frozen();
   _frozen_reserved = _frozen_allocated = 0;
-  if (_static_block) {
+  // Recycle the static block, unless it is still (or already) in use as an active block.
+  if (_static_block && std::none_of(_active.begin(), _active.end(), [=](const Block &b) { return &b == _static_block; })) {
     _static_block->discard();
     _active.prepend(_static_block);
     _active_reserved += _static_block->remaining();
-- 
2.43.0


From cc8df177d4bff23cef5860218e459e2f949e6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 17/86] fix: MemArena::localize_c does not read past the
 source, nor include the nul in the view

---
 code/include/swoc/MemArena.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index a744c46..6358871 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -684,9 +684,9 @@ inline MemSpan<char> MemArena::localize(char const * s) {
 
 inline MemSpan<char> MemArena::localize_c(MemSpan<char const> s) {
   auto span = this->alloc(s.size() + 1).rebind<char>();
-  memcpy(span.data(), s.data(), span.size());
+  memcpy(span.data(), s.data(), s.size());
   span[s.size()] = '\0';
-  return { span.data(), span.size() };
+  return { span.data(), s.size() };
 }
 
 inline MemSpan<char> MemArena::localize_c(char const * s) {
-- 
2.43.0


From 1b2de7a1d2d75e7c973c7c6171d1ba738fe3c957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 18/86] fix: Vectray fixed storage spans only the elements in
 it, pop_back and constant access compile

---
 code/include/swoc/Vectray.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index e2e6485..224ff6d 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -69,6 +69,9 @@ public:                                                              // STL comp
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
+    /// @return A span containing the valid elements.
+    MemSpan<T const> span() const;
+
     /// @return A pointer to the data.
     T *data();
 
@@ -263,7 +266,13 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedSto
 template <typename T, size_t N, class A>
 MemSpan<T>
 Vectray<T, N, A>::FixedStore::span() {
-  return MemSpan<std::byte>(_raw).template rebind<T>();
+  return {this->data(), _count};
+}
+
+template <typename T, size_t N, class A>
+MemSpan<T const>
+Vectray<T, N, A>::FixedStore::span() const {
+  return {this->data(), _count};
 }
 
 template <typename T, size_t N, class A>
@@ -275,7 +284,7 @@ Vectray<T, N, A>::FixedStore::data() {
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::FixedStore::data() const {
-  return reinterpret_cast<T *>(_raw.data());
+  return reinterpret_cast<T const *>(_raw.data());
 }
 
 template <typename T, size_t N, typename A>
@@ -287,7 +296,7 @@ Vectray<T, N, A>::operator[](size_type idx) {
 template <typename T, size_t N, typename A>
 T const &
 Vectray<T, N, A>::operator[](size_type idx) const {
-  return this->items[idx];
+  return this->items()[idx];
 }
 
 template <typename T, size_t N, typename A>
@@ -341,7 +350,7 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::pop_back() -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.span()[--fs._count]); },
+  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.data() + --fs._count); },
                               [&](DynamicStore &ds) -> void { ds.pop_back(); }},
              _store);
   return *this;
@@ -404,7 +413,7 @@ Vectray<T, N, A>::transfer(size_type rN) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::items() const -> const_span {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.span(); },
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.span(); },
                                      [](DynamicStore const &ds) { return const_span(ds.data(), ds.size()); }},
                     _store);
 }
@@ -412,14 +421,14 @@ Vectray<T, N, A>::items() const -> const_span {
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::data() {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore &fs) { return fs.data(); }, [](DynamicStore &ds) { return ds.data(); }},
                     _store);
 }
 
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::data() const {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
                     _store);
 }
 
-- 
2.43.0


From 942881b87fbc3116a9b87f166df208c3099d53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 19/86] fix: Vectray fixed storage is aligned for the element
 type

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 224ff6d..35e14e6 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -52,7 +52,7 @@ public:                                                              // STL comp
 
   /// Internal (fixed) storage.
   struct FixedStore {
-    std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
+    alignas(T) std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
     size_t _count = 0;                         ///< Number of valid elements.
     allocator_type _a;                         ///< Allocator instance - used for construction.
 
-- 
2.43.0


From f6bae5c64efd59e7d3c558473aa0a13627c4ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 20/86] fix: Vectray copy and move construct the elements in
 the fixed storage instead of copying their bytes

---
 code/include/swoc/Vectray.h | 64 +++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 35e14e6..d0ce9b2 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -64,8 +64,23 @@ public:                                                              // STL comp
      */
     explicit FixedStore(allocator_type const &a) : _a(a) {}
 
+    /// Copy construct the elements.
+    FixedStore(FixedStore const &that);
+
+    /// Move the elements, leaving @a that empty.
+    FixedStore(FixedStore &&that);
+
     ~FixedStore();
 
+    /// Copy assign, existing elements are destroyed.
+    FixedStore &operator=(FixedStore const &that);
+
+    /// Move assign, existing elements are destroyed and @a that is left empty.
+    FixedStore &operator=(FixedStore &&that);
+
+    /// Destroy the elements.
+    void clear();
+
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
@@ -257,10 +272,59 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   }
 }
 
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : _a(that._a) {
+  for (auto const &item : that.span()) {
+    new (this->data() + _count) T(item);
+    ++_count;
+  }
+}
+
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) : _a(that._a) {
+  for (auto &item : that.span()) {
+    new (this->data() + _count) T(std::move(item));
+    ++_count;
+  }
+  that.clear();
+}
+
 template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
+  this->clear();
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore const &that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (auto const &item : that.span()) {
+      new (this->data() + _count) T(item);
+      ++_count;
+    }
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore &&that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (auto &item : that.span()) {
+      new (this->data() + _count) T(std::move(item));
+      ++_count;
+    }
+    that.clear();
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+void
+Vectray<T, N, A>::FixedStore::clear() {
   for (auto &item : this->span()) {
     std::destroy_at(std::addressof(item));
   }
+  _count = 0;
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From 3a8f577412cc2271535d7178c32ae969d4509d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 21/86] fix: Vectray move from another static size compiles and
 keeps elements that do not fit the fixed storage

---
 code/include/swoc/Vectray.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index d0ce9b2..181062f 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -37,6 +37,8 @@ template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
   using self_type   = Vectray;           ///< Self reference type.
   using vector_type = std::vector<T, A>; ///< Internal dynamic storage type.
 
+  template <typename, size_t, class> friend class Vectray; // Move from an instance with a different static size.
+
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
   using reference       = std::remove_reference<T> &;                ///< Reference to element.
@@ -262,13 +264,12 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   if (DYNAMIC == that._store.index()) {
     _store = std::move(std::get<DYNAMIC>(that._store));
   } else {
-    auto span = std::get<FIXED>(that._store).span();
-    if (span.size() > N) {
-    } else {
-      for (auto &&item : span) {
-        this->template emplace_back(std::move(item));
-      }
+    auto &fs = std::get<FIXED>(that._store);
+    this->reserve(fs._count); // switch to dynamic storage if needed.
+    for (auto &item : fs.span()) {
+      this->emplace_back(std::move(item));
     }
+    fs.clear();
   }
 }
 
-- 
2.43.0


From 32d29b546d4444e9cbc2f05ac384731dd5167a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 22/86] fix: Vectray elements added when the storage changes
 can be copies of existing elements

---
 code/include/swoc/Vectray.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 181062f..0ca4a6a 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -371,8 +371,9 @@ Vectray<T, N, A>::push_back(const T &t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
                                 } else {
+                                  T tmp{t}; // @a t can be an element of this container.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(t);
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(t); }},
@@ -387,8 +388,9 @@ Vectray<T, N, A>::push_back(T &&t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
                                 } else {
+                                  T tmp{std::move(t)}; // @a t can be an element of this container.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(std::move(t));
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(std::move(t)); }},
@@ -406,7 +408,10 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
       new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
       return *this;
     }
-    this->transfer(); // transfer to dynamic and fall through to add item.
+    T tmp(std::forward<Args>(args)...); // @a args can refer to an element of this container.
+    this->transfer();                   // transfer to dynamic and add item.
+    std::get<DYNAMIC>(_store).emplace_back(std::move(tmp));
+    return *this;
   }
   std::get<DYNAMIC>(_store).emplace_back(std::forward<Args>(args)...);
   return *this;
-- 
2.43.0


From b6fbf24f79cd86e67ed4592379310974085055d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 23/86] fix: FixedBufferWriter::copy is clipped by the used
 part of the buffer

---
 code/include/swoc/BufferWriter.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/BufferWriter.h b/code/include/swoc/BufferWriter.h
index 154da37..81b2eec 100644
--- a/code/include/swoc/BufferWriter.h
+++ b/code/include/swoc/BufferWriter.h
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstdlib>
 #include <utility>
 #include <cstring>
@@ -626,9 +627,9 @@ FixedBufferWriter::clear() -> self_type & {
 inline auto
 FixedBufferWriter::copy(size_t dst, size_t src, size_t n) -> self_type & {
   auto limit = std::min<size_t>(_capacity, _attempted); // max offset of region possible.
-  MemSpan<char> src_span{_buffer + src, std::min(limit, src + n)};
-  MemSpan<char> dst_span{_buffer + dst, std::min(limit, dst + n)};
-  std::memmove(dst_span.data(), src_span.data(), std::min(dst_span.size(), src_span.size()));
+  if (src < limit && dst < limit) {
+    std::memmove(_buffer + dst, _buffer + src, std::min({n, limit - src, limit - dst}));
+  }
   return *this;
 }
 
-- 
2.43.0


From 23df0d69ed711eec306d39c5bdb20ca194307db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 24/86] fix: formatting the minimum value of a signed integer
 type

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index d5c426d..b60461c 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1104,7 +1104,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, I &&i) ->
   bool neg_p  = false;
   uintmax_t n = static_cast<uintmax_t>(i);
   if (i < 0) {
-    n     = static_cast<uintmax_t>(-i);
+    n     = -n; // negate unsigned - the minimum value has no positive counterpart in the signed type.
     neg_p = true;
   }
   return bwf::Format_Integer(w, spec, n, neg_p);
-- 
2.43.0


From 8db607aff51e28b52042eda06b46b41994ef0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 25/86] fix: format specifier properties of characters above
 127 were read out of bounds

---
 code/include/swoc/bwf_base.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index b60461c..2d13973 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -474,37 +474,37 @@ extern ExternalNames Global_Names;
 
 inline Spec::Align
 Spec::align_of(char c) {
-  return static_cast<Align>(_prop._data[static_cast<unsigned>(c)] & Property::ALIGN_MASK);
+  return static_cast<Align>(_prop._data[static_cast<unsigned char>(c)] & Property::ALIGN_MASK);
 }
 
 inline bool
 Spec::is_sign(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::SIGN_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::SIGN_CHAR;
 }
 
 inline bool
 Spec::is_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::TYPE_CHAR;
 }
 
 inline bool
 Spec::is_upper_case_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
 Spec::is_numeric_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_numeric_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_upper_case_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
-- 
2.43.0


From ff8f1784eea77cd2dd158f2ec1c401ecc0fec49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 26/86] fix: format specifier ending in the zero flag was read
 past its end

---
 code/src/bw_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 60ceacc..2aa9d66 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -127,7 +127,9 @@ Spec::parse(TextView fmt) {
           _align = Align::SIGN;
         }
         _fill = '0';
-        ++sz;
+        if (!(++sz).size()) {
+          return true;
+        }
       }
       num = sz;
       n   = svto_radix<10>(num);
-- 
2.43.0


From e50432ec77ea296015c164f4263cbdd6ed59bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 27/86] fix: format specifier argument index is clamped, not
 truncated

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 2aa9d66..96fb84c 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -75,7 +75,7 @@ Spec::parse(TextView fmt) {
   num    = _name;
   auto n = svto_radix<10>(num);
   if (num.empty()) {
-    _idx = static_cast<decltype(_idx)>(n);
+    _idx = static_cast<decltype(_idx)>(std::min<uintmax_t>(n, std::numeric_limits<decltype(_idx)>::max()));
   }
 
   if (fmt.size()) {
-- 
2.43.0


From 116368f7d7df10a926e888d9c84042f7e83101af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 28/86] fix: formatted output is clipped to the maximum width
 also if padded to the minimum width

---
 code/src/bw_format.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 96fb84c..c5e39ff 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -299,12 +299,12 @@ Adjust_Alignment(BufferWriter &aux, Spec const &spec) {
     for (int i = right_delta; i > 0; --i) {
       aux.write(spec._fill);
     }
+    extent = aux.extent();
+  }
 
-  } else {
-    size_t max = spec._max;
-    if (max < extent) {
-      aux.discard(extent - max);
-    }
+  size_t max = spec._max;
+  if (max < extent) {
+    aux.discard(extent - max);
   }
 }
 
-- 
2.43.0


From 1c10d18a807d2c60003cc7ba776167c421a06ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 29/86] fix: empty output is padded to the minimum width

---
 code/include/swoc/bwf_base.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 2d13973..cf1d37b 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -903,11 +903,9 @@ BufferWriter::print_nfv(Binding &&names, Extractor &&ex, bwf::ArgPack const &arg
         } else if (spec._name.size()) {
           names(lw, spec);
         }
-        if (lw.extent()) {
-          bwf::Adjust_Alignment(lw, spec);
-          if (!this->commit(lw.extent())) {
-            continue;
-          }
+        bwf::Adjust_Alignment(lw, spec);
+        if (lw.extent() && !this->commit(lw.extent())) {
+          continue;
         }
         break;
       }
-- 
2.43.0


From 927e128364f5be64996997a86f2b1c75d4b24b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:49 +0000
Subject: [PATCH 30/86] fix: short names of two errno values were misspelled

---
 code/src/bw_format.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index c5e39ff..d1921e5 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -751,7 +751,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "SUCCESS", "EPERM",
    "ENOENT", "ESRCH",
    "EINTR", "EIO",
-   "ENXIO", "E2BIG ",
+   "ENXIO", "E2BIG",
    "ENOEXEC", "EBADF",
    "ECHILD", "EAGAIN",
    "ENOMEM", "EACCES",
@@ -773,7 +773,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "ECHRNG", "EL2NSYNC",
    "EL3HLT", "EL3RST",
    "ELNRNG", "EUNATCH",
-   "ENOCSI", "EL2HTL",
+   "ENOCSI", "EL2HLT",
    "EBADE", "EBADR",
    "EXFULL", "ENOANO",
    "EBADRQC", "EBADSLT",
-- 
2.43.0


From 9a2e6101d9885f28afa86ed38515fcfb6e351d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 31/86] fix: IntrusiveDList range erase: compile, keep the
 count, accept an empty range

---
 code/include/swoc/IntrusiveDList.h | 42 ++++++++++++++++--------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index 2b5b0a2..0b18a65 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -925,27 +925,31 @@ template <typename L>
 auto
 IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterator {
   value_type *spot = first;
-  value_type *prev{L::prev_ptr(spot)};
-  if (prev) {
-    L::next_ptr(prev) = limit;
-  }
-  if (spot == _head) {
-    _head = limit;
-  }
-  // tail is only updated if @a limit is @a end (e.g., @c nullptr).
-  if (nullptr == limit) {
-    _tail = prev;
-  } else {
-    L::prev_ptr(limit) = prev;
+  value_type *stop = limit;
+  if (spot != stop) {
+    value_type *prev{L::prev_ptr(spot)};
+    if (prev) {
+      L::next_ptr(prev) = stop;
+    }
+    if (spot == _head) {
+      _head = stop;
+    }
+    // tail is only updated if @a limit is @a end (e.g., @c nullptr).
+    if (nullptr == stop) {
+      _tail = prev;
+    } else {
+      L::prev_ptr(stop) = prev;
+    }
+    // Clear links in removed elements.
+    while (spot != stop) {
+      value_type *target{spot};
+      spot                = L::next_ptr(spot);
+      L::prev_ptr(target) = L::next_ptr(target) = nullptr;
+      --_count;
+    }
   }
-  // Clear links in removed elements.
-  while (spot != limit) {
-    value_type *target{spot};
-    spot                = L::next_ptr(spot);
-    L::prev_ptr(target) = L::next_ptr(target) = nullptr;
-  };
 
-  return {limit._v, this};
+  return {this, stop};
 }
 
 template <typename L>
-- 
2.43.0


From 07c469ab8e24c9d38d63803a199fc9278ea7bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:41 +0000
Subject: [PATCH 32/86] fix: IntrusiveHashMap range erase: compile, drop
 emptied buckets, keep the bucket starts

---
 code/include/swoc/IntrusiveHashMap.h | 35 +++++++++++++++++-----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4bbe3b6..bd5e121 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -574,22 +574,29 @@ IntrusiveHashMap<H>::erase(value_type *value) {
 template <typename H>
 auto
 IntrusiveHashMap<H>::erase(iterator const &start, iterator const &limit) -> iterator {
-  auto spot{start};
-  Bucket *bucket{this->bucket_for(spot)};
-  while (spot != limit) {
-    auto target         = bucket;
-    bucket              = bucket->_link._next; // bump now to avoid forward iteration problems in case of bucket removal.
-    value_type *v_limit = bucket ? bucket->_v : nullptr;
-    while (spot != v_limit && spot != limit) {
-      --(target->_count);
-      ++spot;
-    }
-    if (target->_count == 0) {
-      _active_buckets.erase(target);
+  value_type *spot = start;
+  value_type *stop = limit;
+  if (spot != stop) {
+    Bucket *bucket{this->bucket_for(H::key_of(spot))};
+    while (spot != stop) {
+      auto target         = bucket;
+      value_type *v_limit = bucket->limit();
+      bucket              = bucket->_link._next; // bump now to avoid forward iteration problems in case of bucket removal.
+      bool first_p        = target->_v == spot;
+      while (spot != v_limit && spot != stop) {
+        --(target->_count);
+        spot = H::next_ptr(spot);
+      }
+      if (target->_count == 0) {
+        _active_buckets.erase(target);
+        target->clear();
+      } else if (first_p) {
+        target->_v = spot;
+      }
     }
+    _list.erase(start, limit);
   }
-  _list.erase(start, limit);
-  return _list.iterator_for(limit); // convert from const_iterator back to iterator
+  return _list.iterator_for(stop); // convert from const_iterator back to iterator
 };
 
 template <typename H>
-- 
2.43.0


From dedafbc1a546cfbdb7f19c21cc3193d183a2d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:41 +0000
Subject: [PATCH 33/86] fix: IntrusiveHashMap::erase keeps the bucket count
 when the element is not the first of the bucket

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index bd5e121..d8beae8 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -555,6 +555,8 @@ IntrusiveHashMap<H>::erase(iterator const &loc) -> iterator {
       b->_v = nv;
       --b->_count;
     }
+  } else {
+    --b->_count;
   }
   _list.erase(loc);
   return zret;
-- 
2.43.0


From b9b4c4de2192b98be3a3f6ec4ae8702edc092efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:41 +0000
Subject: [PATCH 34/86] fix: IntrusiveHashMap: define the conversion from range
 to const_range

---
 code/include/swoc/IntrusiveHashMap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index d8beae8..b0eb779 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -367,6 +367,9 @@ IntrusiveHashMap<H>::range::end() const -> iterator const & {
   return super_type::second;
 }
 
+template <typename H>
+IntrusiveHashMap<H>::const_range::const_range(range const &r) : super_type(r.first, r.second) {}
+
 template <typename H>
 auto
 IntrusiveHashMap<H>::const_range::begin() const -> const_iterator const & {
-- 
2.43.0


From 3b38c99e9f9e575ed68617a8a43748db102564fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:41 +0000
Subject: [PATCH 35/86] fix: IntrusiveHashMap constructed for zero elements has
 a bucket

---
 code/include/swoc/IntrusiveHashMap.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index b0eb779..ad914a2 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -385,9 +385,7 @@ IntrusiveHashMap<H>::const_range::end() const -> const_iterator const & {
 // ---------------------
 
 template <typename H> IntrusiveHashMap<H>::IntrusiveHashMap(size_t n) {
-  if (n) {
-    _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), n));
-  }
+  _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), n));
 }
 
 template <typename H>
-- 
2.43.0


From 20fa93b0b0739ab468b1ed633c4f2261fef0f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:56 +0000
Subject: [PATCH 36/86] fix: Lexicon iterator decrement: compile, and post
 decrement returns the previous position

---
 code/include/swoc/Lexicon.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index c574bc7..30d0f31 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -770,15 +770,15 @@ Lexicon<E>::value_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_value_link->_prev;
+  super_type::_item = super_type::_item->_value_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
@@ -800,15 +800,15 @@ Lexicon<E>::name_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_name_link->_prev;
+  super_type::_item = super_type::_item->_name_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
-- 
2.43.0


From bebaf449c50023eba28c1c5257691589fc870cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 37/86] fix: DiscreteRange: relationship, has_union and
 operator^ compile

---
 code/include/swoc/DiscreteRange.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index cfd8dba..7becebf 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -464,7 +464,7 @@ template <typename T>
 auto
 DiscreteRange<T>::relationship(self_type const &that) const -> Relation {
   Relation retval = Relation::NONE;
-  if (this->has_intersection(that)) {
+  if (this->has_intersection_with(that)) {
     if (*this == that)
       retval = Relation::EQUAL;
     else if (this->is_subset_of(that))
@@ -568,7 +568,7 @@ DiscreteRange<T>::max() const {
 template <typename T>
 bool
 DiscreteRange<T>::has_union(DiscreteRange::self_type const &that) const {
-  return this->has_intersection(that) || this->is_adjacent_to(that);
+  return this->has_intersection_with(that) || this->is_adjacent_to(that);
 }
 
 template <typename T>
@@ -644,7 +644,7 @@ operator!=(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
 template <typename T>
 bool
 operator^(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
-  return lhs.has_intersection(rhs);
+  return lhs.has_intersection_with(rhs);
 }
 
 /** Containment ordering.
-- 
2.43.0


From 796df34951e0625c08b1e73f535545d476cdaa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 38/86] fix: DiscreteRange: nothing intersects an empty range

---
 code/include/swoc/DiscreteRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 7becebf..5ca1366 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -581,7 +581,7 @@ DiscreteRange<T>::operator&=(DiscreteRange::self_type const &that) {
 template <typename T>
 bool
 DiscreteRange<T>::has_intersection_with(DiscreteRange::self_type const &that) const {
-  return (that._min <= _min && _min <= that._max) || (_min <= that._min && that._min <= _max);
+  return !this->intersection(that).empty();
 }
 
 template <typename T>
-- 
2.43.0


From 1c3d1613f6f97d43f298a80d4254bed8c6a1e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 39/86] fix: DiscreteRange::left_edge_relationship compares
 with the left edge of the argument

---
 code/include/swoc/DiscreteRange.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 5ca1366..58470a4 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -454,10 +454,11 @@ DiscreteRange<T>::hull(DiscreteRange::self_type const &that) const {
 template <typename T>
 auto
 DiscreteRange<T>::left_edge_relationship(self_type const &that) const -> EdgeRelation {
-  if (_max < that._max) {
-    return ++metric_type(_max) < that._max ? EdgeRelation::GAP : EdgeRelation::ADJ;
+  if (_max < that._min) {
+    metric_type max(_max); // some built in integer types don't support increment on rvalues.
+    return ++max < that._min ? EdgeRelation::GAP : EdgeRelation::ADJ;
   }
-  return _min >= that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
+  return _min > that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
 }
 
 template <typename T>
-- 
2.43.0


From 9d146b738d91dc44a3493ccbdcf79d7bcab2bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 40/86] fix: DiscreteSpace::lower_bound and upper_bound compile

---
 code/include/swoc/DiscreteRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 58470a4..f665ea3 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1171,14 +1171,14 @@ template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::lower_bound(METRIC const &m) -> iterator {
   auto n = this->lower_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::upper_bound(METRIC const &m) -> iterator {
   auto n = this->upper_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
-- 
2.43.0


From a5b3e83c823fd92c7645cfb13e4d1c3128ef0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 41/86] fix: DiscreteSpace: marking, filling, erasing or
 blending an empty range changes nothing

---
 code/include/swoc/DiscreteRange.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index f665ea3..92fdbc1 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1275,6 +1275,10 @@ DiscreteSpace<METRIC, PAYLOAD>::insert_after(DiscreteSpace::Node *spot, Discrete
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
+  if (range.empty()) {
+    return *this;
+  }
+
   Node *n = this->lower_node(range.min()); // current node.
   while (n) {
     auto nn = next(n);            // cache in case @a n disappears.
@@ -1306,6 +1310,10 @@ DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  if (range.empty()) {
+    return *this;
+  }
+
   Node *n = this->lower_node(range.min()); // current node.
   Node *x = nullptr;                       // New node, gets set if we re-use an existing one.
   Node *y = nullptr;                       // Temporary for removing and advancing.
@@ -1427,6 +1435,10 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  if (range.empty()) {
+    return *this;
+  }
+
   // Rightmost node of interest with n->min() <= min.
   Node *n = this->lower_node(range.min());
   Node *x = nullptr; // New node (if any).
@@ -1546,6 +1558,10 @@ template <typename METRIC, typename PAYLOAD>
 template <typename F, typename U>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U const &color, F &&blender) -> self_type & {
+  if (range.empty()) {
+    return *this;
+  }
+
   // Do a base check for the color to use on unmapped values. If self blending on @a color
   // is @c false, then do not color currently unmapped values.
   PAYLOAD plain_color{};                            // color to paint uncolored metrics.
-- 
2.43.0


From 771d55b3e315d6576d3cbd80613cf5f0a47fc6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 42/86] fix: DiscreteSpace::intersection with an empty range is
 empty

---
 code/include/swoc/DiscreteRange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 92fdbc1..9be67f0 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1185,7 +1185,8 @@ template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::intersection(DiscreteSpace::range_type const &range) -> std::pair<iterator, iterator> {
   // Quick checks for null intersection
-  if (this->head() == nullptr ||                  // empty
+  if (range.empty() ||                            // nothing to intersect
+      this->head() == nullptr ||                  // empty
       this->head()->_range.min() > range.max() || // before first range
       this->tail()->_range.max() < range.min()    // after last range
   ) {
-- 
2.43.0


From 1344716db4a7ef1136042d1bfbb7a58de447602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 43/86] fix: DiscreteSpace::blend destroys the temporary node
 if the overlap is cleared

---
 code/include/swoc/DiscreteRange.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 9be67f0..81b2b70 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1625,7 +1625,6 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
         if (n_r.max() > remaining.max()) {             // overhang on the right, must split.
-          fill.release();                              // not going to use it,
           n->assign_min(++metric_type(remaining.max()));
           this->insert_before(n, _fa.make(n_r.min(), --metric_type(remaining.min()), n->payload()));
           return *this;
-- 
2.43.0


From d46a86222565ad68fd99c893d3a42fffb5c8c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 44/86] fix: DiscreteSpace::blend does not extend a range
 across uncolored values if those are not to be colored

---
 code/include/swoc/DiscreteRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 81b2b70..b67e5bc 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1660,7 +1660,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     if (!right_overlap_p) {
       // @a pred has the same color as would be used for unmapped values
       // and is adjacent to @a remaining.
-      bool pred_plain_colored_p = pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
+      bool pred_plain_colored_p = plain_color_p && pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
 
       if (right_adj_p && n_plain_colored_p) { // can pull @a n left to cover
         n->assign_min(remaining.min());
-- 
2.43.0


From f86eca0c967c434fd6633a4f681afef73a62abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 45/86] fix: DiscreteSpace::blend fills a gap with the plain
 color and does not blend it again, nor cover values left of the target

---
 code/include/swoc/DiscreteRange.h | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index b67e5bc..fd9b206 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1681,22 +1681,12 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
     // If there's a gap on the left, fill from @a r.min to @a n.min - 1
     if (plain_color_p && remaining.min() < n->min()) {
-      if (n->payload() == plain_color) {
-        if (pred && pred->payload() == n->payload()) {
-          auto pred_min{pred->min()};
-          this->remove(pred);
-          n->assign_min(pred_min);
-        } else {
-          n->assign_min(remaining.min());
-        }
+      auto n_min_minus_1{n->min()};
+      --n_min_minus_1;
+      if (pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color) {
+        pred->assign_max(n_min_minus_1);
       } else {
-        auto n_min_minus_1{n->min()};
-        --n_min_minus_1;
-        if (pred && pred->payload() == plain_color) {
-          pred->assign_max(n_min_minus_1);
-        } else {
-          this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
-        }
+        this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
       }
     }
 
-- 
2.43.0


From 143e970a2aa7dddce8970e8092496904a45ac1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 46/86] fix: DiscreteSpace::blend of a range that ends at the
 maximum metric value

---
 code/include/swoc/DiscreteRange.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index fd9b206..7e7c8ac 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1621,6 +1621,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
           }
           n = fn; // skip to use new node as current node.
         }
+        if (n->max() >= remaining.max()) { // nothing left, and the next value may not exist.
+          return *this;
+        }
         remaining.assign_min(++metric_type(n->max())); // going to fill up n->max(), clip target.
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
@@ -1735,6 +1738,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     }
 
     // Everything up to @a n.max is correct, time to process next node.
+    if (nullptr == next_n && max >= range.max()) { // nothing left, and the next value may not exist.
+      return *this;
+    }
     n = next_n;
   }
 
-- 
2.43.0


From 125b5b9f2d4a46b00daa906e090036f78435abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 47/86] fix: DiscreteSpace::erase of a range that starts before
 the first range in the space

---
 code/include/swoc/DiscreteRange.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 7e7c8ac..f68a480 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1281,6 +1281,9 @@ DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
   }
 
   Node *n = this->lower_node(range.min()); // current node.
+  if (nullptr == n) {
+    n = this->head(); // everything is past the start of the range.
+  }
   while (n) {
     auto nn = next(n);            // cache in case @a n disappears.
     if (n->min() > range.max()) { // cleared the target range, done.
-- 
2.43.0


From 02808ea29ea1af9e23157c1025abe0a04a14da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 48/86] fix: Scalar: rounding of negative values up and down

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 339daf3..fcd84bd 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -47,11 +47,11 @@ scale_conversion_round_up(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num + (0 != c % R::num); // N is a multiple of S.
+    return c / R::num + (c % R::num > 0); // N is a multiple of S.
   } else if constexpr (R::num == 1) {
     return c * R::den; // S is a multiple of N.
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (0 != (c % R::num));
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (c % R::num > 0);
 }
 
 // Convert a count @a c that is scale @a S to scale @c N
@@ -62,11 +62,11 @@ scale_conversion_round_down(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num; // N = k S
+    return c / R::num - (c % R::num < 0); // N = k S
   } else if constexpr (R::num == 1) {
     return c * R::den; // S = k N
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num;
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num - (c % R::num < 0);
 }
 
 /* Helper classes for @c Scalar
@@ -104,7 +104,7 @@ template <typename C> struct scalar_unit_round_up_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N + (0 != (_n % N)));
+    return static_cast<I>(_n / N + (_n % N > 0));
   }
 };
 
@@ -115,7 +115,7 @@ template <typename C> struct scalar_unit_round_down_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N);
+    return static_cast<I>(_n / N - (_n % N < 0));
   }
 };
 
-- 
2.43.0


From e59e025213523d3d507374366d019add74683305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 49/86] fix: Scalar: plus and minus compile

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index fcd84bd..42e35eb 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -988,13 +988,13 @@ Scalar<N, C, T>::operator()(Counter n) const -> self_type {
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::plus(Counter n) const -> self_type {
-  return {_n + n};
+  return self_type(_n + n);
 }
 
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::minus(Counter n) const -> self_type {
-  return {_n - n};
+  return self_type(_n - n);
 }
 
 /** Explicitly round @c value up to a multiple of @a N.
-- 
2.43.0


From c632034df1d4840ba31475ecb443a264b96cff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 50/86] fix: Scalar: addition and subtraction of a rounded
 scalar compile

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 42e35eb..f1aee43 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -732,25 +732,25 @@ operator+(Scalar<N, C, T> const &lhs, detail::scalar_unit_round_down_t<I> rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 /// @endcond
 
@@ -855,7 +855,7 @@ operator-(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 
 template <intmax_t N, typename C, typename T>
@@ -867,7 +867,7 @@ operator-(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs)
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 /// @endcond
 
-- 
2.43.0


From e6ec9f33529d58c765892931ec5d59dacc30669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 51/86] fix: Scalar: multiplication of a tagged int scalar by
 an int is not ambiguous

---
 code/include/swoc/Scalar.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index f1aee43..eb926be 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -946,16 +946,16 @@ operator*(int n, Scalar<N, C, T> const &rhs) {
   return Scalar<N, C, T>(rhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(Scalar<N, int> const &lhs, int n) {
-  return Scalar<N, int>(lhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(Scalar<N, int, T> const &lhs, int n) {
+  return Scalar<N, int, T>(lhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(int n, Scalar<N, int> const &rhs) {
-  return Scalar<N, int>(rhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(int n, Scalar<N, int, T> const &rhs) {
+  return Scalar<N, int, T>(rhs) *= n;
 }
 
 template <intmax_t N, typename C, typename T>
-- 
2.43.0


From 9da1cfad751b08ad2469c30a07987e3d1b8ef572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 52/86] fix: IPv4 address text with brackets, a trailing dot
 inside them or empty octets

---
 code/src/swoc_ip.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6403922..8ac2339 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -304,7 +304,14 @@ IP4Addr::load(std::string_view const &text) {
 
   // empty or trailing dot or empty brackets or unmatched brackets.
   src.trim_if(&isspace);
-  if (src.empty() || src.back() == '.' || ('[' == *src && ((++src).empty() || src.back() != ']'))) {
+  if (src && '[' == *src) { // brackets must match.
+    ++src;
+    if (src.empty() || src.back() != ']') {
+      return false;
+    }
+    src.remove_suffix(1);
+  }
+  if (src.empty() || src.back() == '.') {
     return false;
   }
 
@@ -313,7 +320,7 @@ IP4Addr::load(std::string_view const &text) {
     TextView parsed;
     auto token = src.take_prefix_at('.');
     auto v     = svtou(token, &parsed);
-    if (parsed.size() != token.size()) {
+    if (token.empty() || parsed.size() != token.size()) {
       break;
     }
     if (src.empty()) {
-- 
2.43.0


From 0aeb8e08d4f42a3baf4f7698f68bb696221e3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 53/86] fix: IPv6 address text with invalid, oversize or signed
 groups or a single trailing colon, and clear the address on every parse
 failure

---
 code/src/swoc_ip.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 8ac2339..f41e90a 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -428,6 +428,8 @@ IP6Addr::load(std::string_view const &str) {
   int empty_idx = -1;
   auto quad     = _addr._quad.data();
 
+  this->clear(); // state on failure.
+
   src.trim_if(&isspace);
   if (src && '[' == *src) {
     ++src;
@@ -441,6 +443,11 @@ IP6Addr::load(std::string_view const &str) {
     return false;
   }
 
+  // A trailing ':' must be part of a "::".
+  if (src.back() == ':' && src[src.size() - 2] != ':') {
+    return false;
+  }
+
   // If the first character is ':' then it is an error for it not to be followed by another ':'.
   // Special case the empty address and loopback, otherwise just make a note of the leading '::'.
   if (src[0] == ':') {
@@ -467,16 +474,18 @@ IP6Addr::load(std::string_view const &str) {
     TextView token{src.take_prefix_at(':')};
     if (token.empty()) {
       if (empty_idx >= 0) { // two instances of "::", fail.
+        this->clear();
         return false;
       }
       empty_idx = n;
     } else {
       TextView r;
-      auto x = svtoi(token, &r, 16);
-      if (r.size() == token.size()) {
+      auto x = svtou(token, &r, 16);
+      if (r.size() == token.size() && x <= QUAD_MASK) {
         quad[QUAD_IDX[n++]] = x;
-      } else {
-        break;
+      } else { // not a quad, fail even if there was a "::".
+        this->clear();
+        return false;
       }
     }
   }
@@ -491,6 +500,7 @@ IP6Addr::load(std::string_view const &str) {
       }
       n = N_QUADS; // Mark success.
     } else {
+      this->clear();
       return false; // too many quads - full set plus empty.
     }
   }
-- 
2.43.0


From 70f7b0e8d3cdead0f114afceac03b4675a6df11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 54/86] fix: IP address shifts by zero or by at least the
 address width

---
 code/include/swoc/IPAddr.h |  4 ++--
 code/src/swoc_ip.cc        | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/IPAddr.h b/code/include/swoc/IPAddr.h
index 4964129..a38c246 100644
--- a/code/include/swoc/IPAddr.h
+++ b/code/include/swoc/IPAddr.h
@@ -777,13 +777,13 @@ IP4Addr::family() const {
 
 inline auto
 IP4Addr::operator<<=(unsigned n) -> self_type & {
-  _addr <<= n;
+  _addr = n < WIDTH ? _addr << n : 0;
   return *this;
 }
 
 inline auto
 IP4Addr::operator>>=(unsigned n) -> self_type & {
-  _addr >>= n;
+  _addr = n < WIDTH ? _addr >> n : 0;
   return *this;
 }
 
diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index f41e90a..53d51f3 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -380,6 +380,11 @@ IP6Addr::cmp(const self_type &that) const {
 IP6Addr &
 IP6Addr::operator<<=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
+  if (n == 0) {
+    return *this;
+  } else if (n >= WIDTH) {
+    return this->clear();
+  }
   if (n < WORD_WIDTH) {
     _addr._store[MSW] <<= n;
     _addr._store[MSW]  |= (_addr._store[LSW] >> (WORD_WIDTH - n)) & ~(MASK << n);
@@ -395,6 +400,11 @@ IP6Addr::operator<<=(unsigned int n) {
 IP6Addr &
 IP6Addr::operator>>=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
+  if (n == 0) {
+    return *this;
+  } else if (n >= WIDTH) {
+    return this->clear();
+  }
   if (n < WORD_WIDTH) {
     _addr._store[LSW] >>= n;
     _addr._store[LSW]  |= (_addr._store[MSW] & ~(MASK << n)) << (WORD_WIDTH - n);
-- 
2.43.0


From ae8e49d626f4d22dc5939ce862a4e8eb9546d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 55/86] fix: an IPv6 address is never less than an IPv4 address

---
 code/src/swoc_ip.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 53d51f3..a19d24c 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -614,8 +614,6 @@ IPAddr::operator<(self_type const &that) const {
     }
   } else if (AF_INET6 == _family) {
     switch (that._family) {
-    case AF_INET:
-      return true;
     case AF_INET6:
       return _addr._ip6 < that._addr._ip6;
     default:
-- 
2.43.0


From 3441e97384dd47df1a076cadc848bc4aaca299eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 56/86] fix: reject empty mask text and masks wider than an
 address

---
 code/src/swoc_ip.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index a19d24c..25ace49 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -687,11 +687,12 @@ bool operator == (IPAddr const& lhs, sockaddr const * sa) {
 bool
 IPMask::load(string_view const &text) {
   TextView parsed;
-  _cidr = swoc::svtou(text, &parsed);
-  if (parsed.size() != text.size()) {
+  auto n = swoc::svtou(text, &parsed);
+  if (text.empty() || parsed.size() != text.size() || n > IP6Addr::WIDTH) {
     _cidr = 0;
     return false;
   }
+  _cidr = n;
   return true;
 }
 
-- 
2.43.0


From 043e981da747d4aa672748c90a0b5b02a12f09cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 57/86] fix: do not read past the end of the text when
 splitting address and port

---
 code/src/swoc_ip.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 25ace49..e2a3160 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -168,10 +168,10 @@ IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_v
     bool colon_p = false;
     src.ltrim_if(&isspace);
     // Check for brackets.
-    if ('[' == *src) {
+    if (src && '[' == *src) {
       ++src; // skip bracket.
       *addr = src.take_prefix_at(']');
-      if (':' == *src) {
+      if (src && ':' == *src) {
         colon_p = true;
         ++src;
       }
-- 
2.43.0


From ba29dffac6ed3115e38ca0905f47fbecd8bdeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 58/86] fix: define the declared endpoint constructors from
 IPv4 and IPv6 socket addresses

---
 code/include/swoc/IPEndpoint.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 0cfde9c..20efeca 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -293,6 +293,14 @@ inline IPEndpoint::IPEndpoint(sockaddr const *addr) {
   this->assign(addr);
 }
 
+inline IPEndpoint::IPEndpoint(sockaddr_in const *sin) {
+  this->assign(sin);
+}
+
+inline IPEndpoint::IPEndpoint(sockaddr_in6 const *sin6) {
+  this->assign(sin6);
+}
+
 inline IPEndpoint::IPEndpoint(IPEndpoint::self_type const &that) : self_type(&that.sa) {}
 
 inline IPEndpoint &
-- 
2.43.0


From 8b2e60d8e1c1150541ef1de17a6d5faa210ec873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 59/86] fix: an endpoint constructed from an invalid address or
 service is invalid

---
 code/include/swoc/IPEndpoint.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 20efeca..139b2a7 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -282,10 +282,12 @@ inline IPEndpoint::IPEndpoint() {
 }
 
 inline IPEndpoint::IPEndpoint(IPAddr const &addr) {
+  this->invalidate(); // in case @a addr is not valid.
   this->assign(addr);
 }
 
 inline IPEndpoint::IPEndpoint(IPSrv const &srv) {
+  this->invalidate(); // in case @a srv is not valid.
   this->assign(srv);
 }
 
-- 
2.43.0


From ddad6103bc3f4c94c88b4457cd99ea45ba30ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 60/86] fix: self assignment of a valid socket address reports
 it as valid

---
 code/src/swoc_ip.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index e2a3160..ef03d0d 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -62,6 +62,8 @@ IPEndpoint::assign(sockaddr *dst, sockaddr const *src) {
     if (n) {
       memcpy(dst, src, n);
     }
+  } else {
+    return self_type::is_valid(dst);
   }
   return n != 0;
 }
-- 
2.43.0


From 9faa2382ce27523aa222adfa698b81a01f50dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 61/86] fix: the address family code prints the name of the
 family of an address

---
 code/src/bw_ip_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_ip_format.cc b/code/src/bw_ip_format.cc
index 2fd66fb..25cb07c 100644
--- a/code/src/bw_ip_format.cc
+++ b/code/src/bw_ip_format.cc
@@ -289,7 +289,7 @@ bwformat(BufferWriter &w, Spec const &spec, IPAddr const &addr) {
     if (spec.has_numeric_type()) {
       bwformat(w, local_spec, static_cast<uintmax_t>(addr.family()));
     } else {
-      swoc::bwformat(w, local_spec, addr.family());
+      swoc::bwformat(w, local_spec, IPEndpoint::family_name(addr.family()));
     }
   }
   return w;
-- 
2.43.0


From ab056346ea212e94fa2db94434c412131757353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 62/86] fix: splitting of address and port without result
 arguments reports whether there is an address

---
 code/src/swoc_ip.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index ef03d0d..66cdae6 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -150,15 +150,15 @@ IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_v
   TextView src(str); /// Easier to work with for parsing.
   // In case the incoming arguments are null, set them here and only check for null once.
   // it doesn't matter if it's all the same, the results will be thrown away.
-  std::string_view local;
+  std::string_view local_addr, local_port, local_rest;
   if (!addr) {
-    addr = &local;
+    addr = &local_addr;
   }
   if (!port) {
-    port = &local;
+    port = &local_port;
   }
   if (!rest) {
-    rest = &local;
+    rest = &local_rest;
   }
 
   *addr = std::string_view{};
-- 
2.43.0


From d94a493e6749c40442f6ad58b5b03391340f9a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 63/86] fix: define the declared post increment of the network
 sources

---
 code/include/swoc/IPRange.h | 7 +++++++
 code/src/swoc_ip.cc         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 547afdb..d5afa86 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2431,6 +2431,13 @@ IPRange::NetSource::operator++() -> self_type & {
   return *this;
 }
 
+inline auto
+IPRange::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
 inline auto
 IPRange::NetSource::operator->() -> self_type * {
   return this;
diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 66cdae6..296c2aa 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1231,6 +1231,13 @@ IP6Range::NetSource::NetSource(IP6Range::NetSource::range_type const &range) : _
   }
 }
 
+auto
+IP6Range::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
 auto
 IP6Range::NetSource::operator++() -> self_type & {
   auto upper = _range.min() | _mask;
-- 
2.43.0


From a86e216b64e257aa39957878104913994dc65111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 64/86] fix: reject IPv4 ranges and networks with a mask wider
 than an IPv4 address

---
 code/src/swoc_ip.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 296c2aa..845f6c7 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -887,7 +887,7 @@ IP4Net::load(TextView text) {
           mask_p = (m == mask.as_ip4()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP4Addr::WIDTH) {
         this->assign(addr, mask);
         return true;
       }
@@ -945,7 +945,7 @@ IPNet::load(TextView text) {
           mask_p = (m == mask.as_ip4()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP4Addr::WIDTH) {
         this->assign(a4, mask);
         return true;
       }
@@ -989,7 +989,7 @@ IP4Range::load(string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= metric_type::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
-- 
2.43.0


From 05a24f5c05ca73968f4b3ce8c9e20f7eb40ff0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 65/86] fix: a range loaded from invalid text is invalid, also
 if it was of the other family before

---
 code/src/swoc_ip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 845f6c7..cc2ec4c 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1147,6 +1147,7 @@ IPRange::load(std::string_view const &text) {
     return true;
   }
 
+  this->clear();
   return false;
 }
 
-- 
2.43.0


From 78cb885f586bba27938352ae202bb1dece109c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 66/86] fix: a range assigned from a range view that is invalid
 is cleared

---
 code/include/swoc/IPRange.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index d5afa86..ee163e8 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -1931,6 +1931,8 @@ IPRange::operator=(const IPRangeView &rv) -> self_type & {
     *this = *rv._raw._4;
   } else if (AF_INET6 == rv._family) {
     *this = *rv._raw._6;
+  } else {
+    this->clear();
   }
   return *this;
 }
-- 
2.43.0


From 9f4974009a036443ee7460b2be4bbfab8d39528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 67/86] fix: containment of an address in a family independent
 IPv6 range

---
 code/include/swoc/IPRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index ee163e8..7d0125e 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2009,7 +2009,7 @@ inline bool IPRange::contains(IPAddr const & addr) const {
   if (addr.family() != _family) {
     return false;
   }
-  if (this->ip4()) {
+  if (this->is_ip4()) {
     return _range._ip4.contains(addr.ip4());
   } else if (this->is_ip6()) {
     return _range._ip6.contains(addr.ip6());
-- 
2.43.0


From fe24c246c086d422be4876b79e1d7df629ec3d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 68/86] fix: report the code of an Errata that has no notes

---
 code/include/swoc/Errata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Errata.h b/code/include/swoc/Errata.h
index 6ee0be5..09131dc 100644
--- a/code/include/swoc/Errata.h
+++ b/code/include/swoc/Errata.h
@@ -1124,7 +1124,7 @@ Errata::empty() const {
 
 inline auto
 Errata::code() const -> code_type const & {
-  return this->empty() ? DEFAULT_CODE : _data->_code;
+  return _data ? _data->_code : DEFAULT_CODE;
 }
 
 inline auto
-- 
2.43.0


From 024bb46bdc05b6d39897abb9b836e411dc87cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 69/86] fix: do not loop forever when the notes of an Errata
 are added to itself

---
 code/src/Errata.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index 4ffd875..e32c8fd 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -103,8 +103,9 @@ Errata::note(const self_type &that) {
     if (that.has_severity()) {
       this->update(that.severity());
     }
-    for (auto const &annotation : that) {
-      d->_notes.append(d->_arena.make<Annotation>(d->localize(annotation._text), annotation._severity, annotation._level + 1));
+    auto spot = that.begin();
+    for (auto n = that.length(); n > 0; --n, ++spot) { // only the notes present now, @a that may be @a this.
+      d->_notes.append(d->_arena.make<Annotation>(d->localize(spot->_text), spot->_severity, spot->_level + 1));
     }
   }
   return *this;
-- 
2.43.0


From f2481bc8ee587986a62dc02232c928da6c3028ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 70/86] fix: appending a path to itself must not read released
 memory

---
 code/src/swoc_file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 374f4fc..182d759 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -7,6 +7,7 @@
  */
 
 #include <variant>
+#include <functional>
 
 #include <fcntl.h>
 #include <unistd.h>
@@ -42,6 +43,9 @@ path::filename() const -> self_type {
 
 path &
 path::operator/=(std::string_view that) {
+  if (std::less_equal<>()(_path.data(), that.data()) && std::less<>()(that.data(), _path.data() + _path.size())) {
+    return *this /= std::string_view(std::string(that)); // part of this path, which changes below.
+  }
   if (!that.empty()) { // don't waste time appending nothing.
     if (that.front() == SEPARATOR || _path.empty()) {
       _path.assign(that);
-- 
2.43.0


From 47c265697e7569c0d362de79debd5288f8e8e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 71/86] fix: the parent of a path with a single element is not
 that element

---
 code/src/swoc_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 182d759..4ba8ab6 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -23,6 +23,9 @@ namespace file {
 path
 path::parent_path() const {
   TextView parent{_path};
+  if (!_path.empty() && TextView::npos == parent.rfind(SEPARATOR)) {
+    return {}; // only a file name.
+  }
   parent.split_suffix_at(SEPARATOR);
   return parent ? parent : "/"_tv;
 }
-- 
2.43.0


From be5c0f713a40b6ac2aef656d7e485ab5b1d503b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 72/86] fix: look for temporary directories in all of the
 documented environment variables

---
 code/src/swoc_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 4ba8ab6..64d19b1 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -232,7 +232,7 @@ temp_directory_path() {
   /* ISO/IEC 9945 (POSIX): The path supplied by the first environment variable found in the list TMPDIR, TMP, TEMP, TEMPDIR.
    * If none of these are found, "/tmp"
    * */
-  for (char const *tp : {"TMPDIR", "TMP", "TEMPDIR"}) {
+  for (char const *tp : {"TMPDIR", "TMP", "TEMP", "TEMPDIR"}) {
     if (auto v = ::getenv(tp); v) {
       return path(v);
     }
-- 
2.43.0


From 0be522e3a3705a7619d8fac380f9f654663193d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 73/86] fix: do not construct a path from a null current
 directory name

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 64d19b1..1f7add1 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -247,8 +247,9 @@ current_path() {
     return path{buff};
 #if !__FreeBSD__ && !__APPLE__ // Freakin' Apple and FreeBSD.
   } else if (ERANGE == errno) {
-    swoc::unique_malloc<char> raw{::get_current_dir_name()};
-    return path{raw.get()};
+    if (swoc::unique_malloc<char> raw{::get_current_dir_name()}; raw) {
+      return path{raw.get()};
+    }
 #endif
   }
   return {};
-- 
2.43.0


From bfbcd2022930134fa84ed508acd19882411bbe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 74/86] fix: clear the error code when a canonical path is
 found

---
 code/src/swoc_file.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 1f7add1..e54f29f 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -262,6 +262,7 @@ canonical(const path &p, std::error_code &ec) {
     return {};
   }
 
+  ec.clear();
   char buf[PATH_MAX + 1];
 
   if (auto rp = ::realpath(p.c_str(), buf); rp) {
-- 
2.43.0


From 13b71ef3cc46e38433a685e1b846897639334d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 75/86] fix: load a file completely with short reads and report
 a failing read

---
 code/src/swoc_file.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index e54f29f..329b780 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -472,10 +472,18 @@ load(const path &p, std::error_code &ec) {
     } else {
       auto n = info.st_size;
       zret.resize(n);
-      auto read_len = ::read(fd, zret.data(), n);
-      if (read_len < n) {
-        ec = std::error_code(errno, std::system_category());
+      decltype(n) read_len = 0;
+      while (read_len < n) {
+        auto count = ::read(fd, zret.data() + read_len, n - read_len);
+        if (count < 0) {
+          ec = std::error_code(errno, std::system_category());
+          break;
+        } else if (count == 0) { // end of file, it was truncated after getting the size.
+          break;
+        }
+        read_len += count;
       }
+      zret.resize(read_len);
     }
   }
   return zret;
-- 
2.43.0


From 46914ca210812ea52147dae5f7e088b2d8865bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 76/86] fix: copy a file completely with short writes and
 report failures

---
 code/src/swoc_file.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 329b780..e716066 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -367,13 +367,20 @@ copy(const path &from, const path &to, std::error_code &ec) {
   }
 
   while (true) {
-    if (auto n = read(src_fd, span.data(), span.size()); n > 0) {
-      if (::write(dst_fd, span.data(), n) < n) {
+    auto n = ::read(src_fd, span.data(), span.size());
+    if (n < 0) {
+      ec = std::error_code(errno, std::system_category());
+      return false;
+    } else if (n == 0) {
+      break;
+    }
+    for (auto data = span.prefix(n); !data.empty();) {
+      auto count = ::write(dst_fd, data.data(), data.size());
+      if (count < 0) {
         ec = std::error_code(errno, std::system_category());
-        break;
+        return false;
       }
-    } else {
-      break;
+      data.remove_prefix(count);
     }
   }
 
-- 
2.43.0


From 996648cdbf5501022ac4616c3d711f8061cc7f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 77/86] fix: replace the previous content of the destination of
 a copy

---
 code/src/swoc_file.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index e716066..e97080d 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -366,6 +366,7 @@ copy(const path &from, const path &to, std::error_code &ec) {
     return false;
   }
 
+  off_t total = 0;
   while (true) {
     auto n = ::read(src_fd, span.data(), span.size());
     if (n < 0) {
@@ -382,6 +383,14 @@ copy(const path &from, const path &to, std::error_code &ec) {
       }
       data.remove_prefix(count);
     }
+    total += n;
+  }
+
+  // Cut off what is left of a previous, longer content. This is not done when opening the destination because
+  // that can be the source.
+  if (struct ::stat s {}; ::fstat(dst_fd, &s) != 0 || (S_ISREG(s.st_mode) && ::ftruncate(dst_fd, total) != 0)) {
+    ec = std::error_code(errno, std::system_category());
+    return false;
   }
 
   return true;
-- 
2.43.0


From ed486b8c4777b506752c68f4cfefd61e3e57a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 78/86] fix: report the actual failure when creating a
 directory

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index e97080d..86cdbf8 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -286,14 +286,15 @@ create_directory(const path &path, std::error_code &ec, mode_t mode) noexcept {
 
   ec.clear();
   if (::mkdir(path.c_str(), mode) != 0) {
-    if (EEXIST == errno) {
+    ec = std::error_code(errno, std::system_category());
+    if (EEXIST == ec.value()) {
       std::error_code local_ec;
       auto fs = status(path, local_ec);
       if (!local_ec && is_dir(fs)) {
+        ec.clear();
         return true;
       }
     }
-    ec = std::error_code(errno, std::system_category());
     return false;
   }
   return true;
-- 
2.43.0


From 3f7f0d3a4406085b6b06edfd5d65b54a917e5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 79/86] fix: remove symbolic links instead of what they refer
 to

---
 code/src/swoc_file.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 86cdbf8..ecca17e 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -409,10 +409,10 @@ remove_all(const path &p, std::error_code &ec) {
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return zret;
-  } else if (::stat(p.c_str(), &s) < 0) {
+  } else if (::lstat(p.c_str(), &s) < 0) {
     ec = std::error_code(errno, std::system_category());
     return zret;
-  } else if (S_ISREG(s.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISREG(s.st_mode) || S_ISLNK(s.st_mode)) { // regular file or link, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
@@ -458,9 +458,9 @@ remove(path const &p, std::error_code &ec) {
   struct ::stat fs {};
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
-  } else if (::stat(p.c_str(), &fs) < 0) {
+  } else if (::lstat(p.c_str(), &fs) < 0) {
     ec = std::error_code(errno, std::system_category());
-  } else if (S_ISREG(fs.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISREG(fs.st_mode) || S_ISLNK(fs.st_mode)) { // regular file or link, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From ca5bf72c2fa39adc998e749d5fefe26bd7de2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 80/86] fix: count only removed directories

---
 code/src/swoc_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index ecca17e..0da635b 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -445,8 +445,9 @@ remove_all(const path &p, std::error_code &ec) {
 
   if (0 != rmdir(p.c_str())) {
     ec = std::error_code(errno, std::system_category());
+  } else {
+    ++zret;
   }
-  ++zret;
 
   closedir(dir);
   return zret;
-- 
2.43.0


From 3e51850fe190744acf4aaefef41f8cbbf0be165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 81/86] fix: removing must not report an error from before

---
 code/src/swoc_file.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 0da635b..6c6a7f8 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -406,6 +406,7 @@ remove_all(const path &p, std::error_code &ec) {
   uintmax_t zret = 0;
 
   struct ::stat s {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return zret;
@@ -440,7 +441,10 @@ remove_all(const path &p, std::error_code &ec) {
     }
     child  = p;
     child /= entry->d_name;
-    zret  += remove_all(child, ec);
+    zret  += remove_all(child, err);
+    if (err) {
+      ec = err;
+    }
   }
 
   if (0 != rmdir(p.c_str())) {
@@ -457,6 +461,7 @@ bool
 remove(path const &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
   struct ::stat fs {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
   } else if (::lstat(p.c_str(), &fs) < 0) {
-- 
2.43.0


From 0b119c2d7415649ea1ebad8b68d3589b4ed00a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 82/86] fix: svtod lost the sign and size of whole numbers and
 the documented accuracy

The sign was dropped if nothing followed the digits, whole parts past 2^63
turned negative, large exponents overflowed, and fractions were off by more
than the documented epsilon. A failed parse left parsed not empty.
---
 code/src/TextView.cc | 110 ++++++++++++++++++++++---------------------
 1 file changed, 56 insertions(+), 54 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index d812c7f..3f63d03 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -10,7 +10,11 @@
 */
 
 #include "swoc/TextView.h"
+#include <algorithm>
 #include <cctype>
+#include <cmath>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 
 using namespace swoc::literals;
@@ -151,29 +155,12 @@ svtou(TextView src, TextView *out, int base) {
 
 double
 svtod(swoc::TextView text, swoc::TextView *parsed) {
-  // @return 10^e
-  auto pow10 = [](int e) -> double {
-    double zret  = 1.0;
-    double scale = 10.0;
-    if (e < 0) { // flip the scale and make @a e positive.
-      e     = -e;
-      scale = 0.1;
-    }
-
-    // Walk the bits in the exponent @a e and multiply the scale for set bits.
-    while (e) {
-      if (e & 1) {
-        zret *= scale;
-      }
-      scale  *= scale;
-      e     >>= 1;
-    }
-    return zret;
-  };
-
-  if (text.empty()) {
-    return 0;
-  }
+  // Powers of ten that are represented exactly.
+  static constexpr double POW10[] = {1e0,  1e1,  1e2,  1e3,  1e4,  1e5,  1e6,  1e7,  1e8,  1e9,  1e10, 1e11,
+                                     1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
+  static constexpr intmax_t POW10_MAX = 22;
+  static constexpr uintmax_t EXP_MAX  = 1000000; // beyond any finite result.
+  static constexpr uintmax_t MANTISSA_LIMIT = (std::numeric_limits<uintmax_t>::max() - 9) / 10;
 
   auto org_text = text; // save this to update @a parsed.
   // Check just once and dump to a local copy if needed.
@@ -181,51 +168,66 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
   if (!parsed) {
     parsed = &local_parsed;
   }
+  parsed->clear();
 
   // Handle leading sign.
-  int sign = 1;
-  if (*text == '-') {
-    ++text;
-    sign = -1;
-  } else if (*text == '+') {
-    ++text;
+  bool neg_p = false;
+  if (text && (*text == '-' || *text == '+')) {
+    neg_p = *text++ == '-';
   }
-  // Parse the leading whole part as an integer.
-  intmax_t whole = svto_radix<10>(text);
-  parsed->assign(org_text.data(), text.data());
 
-  if (text.empty()) {
-    return whole;
+  // Accumulate all of the digits in an integer. The result is that integer multiplied by 10^exp.
+  uintmax_t mantissa = 0;
+  intmax_t exp       = 0;
+  bool digit_p       = false; // any digit found.
+  bool frac_p        = false; // past the decimal point.
+  for (; text; ++text) {
+    unsigned v = static_cast<unsigned char>(*text) - '0';
+    if (v < 10) {
+      digit_p = true;
+      if (mantissa <= MANTISSA_LIMIT) {
+        mantissa  = mantissa * 10 + v;
+        exp      -= frac_p;
+      } else { // out of precision, the digit only scales.
+        exp += !frac_p;
+      }
+    } else if (*text == '.' && !frac_p) {
+      frac_p = true;
+    } else {
+      break;
+    }
   }
 
-  double frac = 0.0;
-  if (*text == '.') { // fractional part.
-    ++text;
-    double scale = 0.1;
-    while (text && isdigit(*text)) {
-      frac  += scale * (*text++ - '0');
-      scale /= 10.0;
-    }
+  if (!digit_p) {
+    return 0;
   }
 
-  double exp = 1.0;
   if (text.starts_with_nocase("e")) {
-    int exp_sign = 1;
+    bool exp_neg_p = false;
     ++text;
-    if (text) {
-      if (*text == '+') {
-        ++text;
-      } else if (*text == '-') {
-        ++text;
-        exp_sign = -1;
-      }
+    if (text && (*text == '-' || *text == '+')) {
+      exp_neg_p = *text++ == '-';
     }
-    auto exp_part = svto_radix<10>(text);
-    exp           = pow10(exp_part * exp_sign);
+    auto exp_part  = static_cast<intmax_t>(std::min(svto_radix<10>(text), EXP_MAX));
+    exp           += exp_neg_p ? -exp_part : exp_part;
   }
 
   parsed->assign(org_text.data(), text.data());
-  return sign * (whole + frac) * exp;
+
+  auto zret = static_cast<double>(mantissa);
+  if (mantissa) {
+    // Scale in steps that are themselves exact.
+    for (; exp > POW10_MAX && std::isfinite(zret); exp -= POW10_MAX) {
+      zret *= POW10[POW10_MAX];
+    }
+    for (; exp < -POW10_MAX && zret > 0; exp += POW10_MAX) {
+      zret /= POW10[POW10_MAX];
+    }
+    if (std::abs(exp) <= POW10_MAX) {
+      zret = exp < 0 ? zret / POW10[-exp] : zret * POW10[exp];
+    }
+  }
+  return neg_p ? -zret : zret;
 }
 
 // Do the template instantiations.
-- 
2.43.0


From 85280a1f2e2b00e1510bd527a71033db9fdb7b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 83/86] fix: floating point output lost zeros after the decimal
 point and rounding carry

1.05 was written as "1.5" and 0.999 as "0.100". A precision past 16 overran
the digit buffers.
---
 code/src/bw_format.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index d1921e5..8b4b002 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -537,8 +537,8 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   double frac               = NAN;
   size_t l                  = 0;
   size_t r                  = 0;
-  char whole[std::numeric_limits<double>::digits10 + 1];
-  char fraction[std::numeric_limits<double>::digits10 + 1];
+  char whole[std::numeric_limits<uint64_t>::digits10 + 1];
+  char fraction[std::numeric_limits<uint64_t>::digits10 + 1];
   char neg               = 0;
   int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
@@ -553,7 +553,11 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
 
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
+  static constexpr unsigned MAX_PRECISION = std::numeric_limits<uint64_t>::digits10 - 1; // rounded fraction must fit.
   uint64_t shift = 0;
+
+  precision = std::min(precision, MAX_PRECISION);
+  auto places = precision; // number of fraction digits.
   if (precision < POWERS_OF_TEN.size()) {
     shift = POWERS_OF_TEN[precision];
   } else { // not precomputed.
@@ -564,9 +568,16 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   }
 
   auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+  if (frac_part >= shift) { // rounded up to the next whole number.
+    frac_part -= shift;
+    ++whole_part;
+  }
 
   l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
   r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
+  while (r < places) { // zeros after the decimal point.
+    fraction[sizeof(fraction) - ++r] = '0';
+  }
 
   // Clip fill width
   if (neg) {
-- 
2.43.0


From 682c37e5db8e2b87ee6dbe682ba6255f0f5bb06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 84/86] fix: floating point output honors the sign option and
 field width

Negative infinity was written without sign, zero, infinity and NaN ignored the
width, and a blank was written for the option to never write a sign.
---
 code/src/bw_format.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 8b4b002..a42bce4 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -504,6 +504,20 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   static const std::string_view subnormal_bwf{"subnormal"};
   static const std::string_view unknown_bwf{"unknown float"};
 
+  char neg  = 0;
+  int width = static_cast<int>(spec._min); // amount left to fill.
+
+  if (spec._sign != Spec::SIGN_NEVER) {
+    if (negative_p) {
+      neg = '-';
+    } else if (spec._sign == Spec::SIGN_ALWAYS) {
+      neg = spec._sign;
+    }
+  }
+  if (neg) { // Clip fill width
+    --width;
+  }
+
   // Handle floating values that are not normal
   if (!std::isnormal(f)) {
     std::string_view unnormal;
@@ -524,7 +538,8 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
       unnormal = unknown_bwf;
     }
 
-    w.write(unnormal);
+    width -= static_cast<int>(unnormal.size());
+    Write_Aligned(w, [&]() { w.write(unnormal); }, spec._align, width, spec._fill, neg);
     return w;
   }
 
@@ -539,18 +554,10 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   size_t r                  = 0;
   char whole[std::numeric_limits<uint64_t>::digits10 + 1];
   char fraction[std::numeric_limits<uint64_t>::digits10 + 1];
-  char neg               = 0;
-  int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
 
   frac = f - whole_part; // split the number
 
-  if (negative_p) {
-    neg = '-';
-  } else if (spec._sign != '-') {
-    neg = spec._sign;
-  }
-
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
   static constexpr unsigned MAX_PRECISION = std::numeric_limits<uint64_t>::digits10 - 1; // rounded fraction must fit.
@@ -580,9 +587,6 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   }
 
   // Clip fill width
-  if (neg) {
-    --width;
-  }
   width -= static_cast<int>(l);
   --width; // '.'
   width -= static_cast<int>(r);
-- 
2.43.0


From ef709d227b957d130cbde83d7e9987de0d3d40b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 85/86] fix: floating point output of values past 64 bits

---
 code/src/bw_format.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index a42bce4..e9c1d66 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -543,6 +543,14 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return w;
   }
 
+  if (f >= 0x1p64) { // only whole digits, but too many for an integer.
+    char digits[std::numeric_limits<double>::max_exponent10 + 2];
+    std::string_view text{digits, size_t(snprintf(digits, sizeof(digits), "%.0f", f))};
+    width -= static_cast<int>(text.size());
+    Write_Aligned(w, [&]() { w.write(text); }, spec._align, width, spec._fill, neg);
+    return w;
+  }
+
   auto whole_part = static_cast<uint64_t>(f);
   if (whole_part == f || spec._prec == 0) { // integral
     return Format_Integer(w, spec, whole_part, negative_p);
-- 
2.43.0


From f953c3a1db8c8646c4ef9a6c630573faee8e1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 86/86] fix: file::canonical releases the path allocated by
 realpath

---
 code/src/swoc_file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 6c6a7f8..cbab454 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -269,8 +269,8 @@ canonical(const path &p, std::error_code &ec) {
     return path{rp};
   }
 
-  if (auto rp = ::realpath(p.c_str(), nullptr); rp) {
-    return path{rp};
+  if (swoc::unique_malloc<char> rp{::realpath(p.c_str(), nullptr)}; rp) {
+    return path{rp.get()};
   }
 
   ec = std::error_code(errno, std::system_category());
-- 
2.43.0

