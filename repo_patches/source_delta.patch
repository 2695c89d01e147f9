From 65540008f6f97db57f52f204f7f072fd0f95e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 01/84] fix: vector::insert returns iterator to the first
 inserted element

---
 include/cista/containers/vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 6e592fc..3c029a1 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -220,7 +220,8 @@ struct basic_vector {
     new (el_ + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <typename El>
@@ -234,7 +235,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -248,7 +250,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
-- 
2.43.0


From c6b5536cae88570e8b657e36ce68dc33ef984085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 02/84] fix: vector::erase(first, last) returns iterator
 following the removed range

---
 include/cista/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 3c029a1..724ed68 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -404,7 +404,7 @@ struct basic_vector {
       }
       used_size_ -= static_cast<size_type>(std::distance(new_end, end()));
     }
-    return end();
+    return first;
   }
 
   bool contains(T const* el) const noexcept {
-- 
2.43.0


From 0495b36254f4e69e541e4b6d5615402fa8b9d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 03/84] fix: vector::set destroys the previous elements before
 overwriting them

---
 include/cista/containers/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 724ed68..c636d2a 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -175,6 +175,7 @@ struct basic_vector {
         range_size >= 0 && range_size <= std::numeric_limits<size_type>::max(),
         "cista::vector::set: invalid range");
 
+    clear();
     reserve(static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
-- 
2.43.0


From 02131a0bf65c60907991df948b9d5959b5b3b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 04/84] fix: vector::resize destroys the elements it cuts off

---
 include/cista/containers/vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index c636d2a..dce640f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -321,6 +321,9 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{};
     }
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     used_size_ = size;
   }
 
@@ -329,6 +332,9 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{init};
     }
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     used_size_ = size;
   }
 
-- 
2.43.0


From e79c6815b832ef7bd367e843fa59d9fdc480bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 05/84] fix: vector: adding a copy of an own element does not
 read freed memory on growth

---
 include/cista/containers/vector.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index dce640f..97b8c08 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -217,9 +217,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
-    new (el_ + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg>(el));
 
     std::rotate(begin() + old_offset, begin() + old_size, end());
     return begin() + old_offset;
@@ -296,21 +294,35 @@ struct basic_vector {
   }
 
   void push_back(T const& el) {
-    reserve(used_size_ + 1U);
+    if (used_size_ == allocated_size_) {
+      push_back(T(el));  // el may refer to an element of this vector
+      return;
+    }
     new (el_ + used_size_) T(el);
     ++used_size_;
   }
 
   void push_back(T&& el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T(std::move(el));
+    if (used_size_ == allocated_size_) {
+      auto tmp = T(std::move(el));  // el may refer to an element of this vector
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T(std::move(el));
+    }
     ++used_size_;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T{std::forward<Args>(el)...};
+    if (used_size_ == allocated_size_) {
+      // el... may refer to an element of this vector
+      auto tmp = T{std::forward<Args>(el)...};
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T{std::forward<Args>(el)...};
+    }
     T* ptr = el_ + used_size_;
     ++used_size_;
     return *ptr;
-- 
2.43.0


From d9a45a4ee300e0c91d641f1173a9c388595dc8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 06/84] fix: string: assigning from own content does not read
 freed or cleared memory

---
 include/cista/containers/string.h | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 8334af5..21230e0 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -96,24 +96,27 @@ struct generic_string {
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
   void set_owning(CharT const* str, msize_t const len) {
-    reset();
     if (str == nullptr || len == 0U) {
+      reset();
       return;
     }
-    s_.is_short_ = (len <= short_length_limit);
-    if (s_.is_short_) {
-      std::memcpy(s_.s_, str, len * sizeof(CharT));
-      for (auto i = len; i < short_length_limit; ++i) {
-        s_.s_[i] = 0;
-      }
+    // str may refer to the current content: copy first, then reset.
+    if (len <= short_length_limit) {
+      CharT tmp[short_length_limit]{};
+      std::memcpy(tmp, str, len * sizeof(CharT));
+      reset();
+      s_.is_short_ = true;
+      std::memcpy(s_.s_, tmp, sizeof(tmp));
     } else {
-      h_.ptr_ = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
-      if (h_.ptr_ == nullptr) {
+      auto const mem = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
+      if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
+      std::memcpy(mem, str, len * sizeof(CharT));
+      reset();
+      h_.ptr_ = mem;
       h_.size_ = len;
       h_.self_allocated_ = true;
-      std::memcpy(data(), str, len * sizeof(CharT));
     }
   }
 
@@ -128,15 +131,11 @@ struct generic_string {
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
 
   void set_non_owning(CharT const* str, msize_t const len) {
-    reset();
-    if (str == nullptr || len == 0U) {
-      return;
-    }
-
-    if (len <= short_length_limit) {
+    if (str == nullptr || len == 0U || len <= short_length_limit) {
       return set_owning(str, len);
     }
 
+    reset();
     h_.is_short_ = false;
     h_.self_allocated_ = false;
     h_.ptr_ = str;
-- 
2.43.0


From 321a357a39a811191ee56e740c82ce792f1d69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 07/84] fix: string: short strings keep embedded NUL characters

---
 include/cista/containers/string.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 21230e0..5505bbc 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -95,13 +95,19 @@ struct generic_string {
 
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
+  // The size of a short string is given by its first NUL character.
+  static bool fits_short(CharT const* str, msize_t const len) noexcept {
+    return len <= short_length_limit &&
+           std::char_traits<CharT>::find(str, len, CharT(0)) == nullptr;
+  }
+
   void set_owning(CharT const* str, msize_t const len) {
     if (str == nullptr || len == 0U) {
       reset();
       return;
     }
     // str may refer to the current content: copy first, then reset.
-    if (len <= short_length_limit) {
+    if (fits_short(str, len)) {
       CharT tmp[short_length_limit]{};
       std::memcpy(tmp, str, len * sizeof(CharT));
       reset();
@@ -131,7 +137,7 @@ struct generic_string {
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
 
   void set_non_owning(CharT const* str, msize_t const len) {
-    if (str == nullptr || len == 0U || len <= short_length_limit) {
+    if (str == nullptr || len == 0U || fits_short(str, len)) {
       return set_owning(str, len);
     }
 
-- 
2.43.0


From adcebe44f7b39d18a17a348ef69c7aecdf22ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 08/84] fix: cstring: assigning from own content does not read
 freed or cleared memory

---
 include/cista/containers/cstring.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 1a6d26d..cc7e4c6 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -84,17 +84,21 @@ struct generic_cstring {
 
   void set_owning(char const* str, msize_t const len) {
     assert(str != nullptr || len == 0U);
-    reset();
     if (len == 0U) {
+      reset();
       return;
     }
-    s_.remaining_ = static_cast<int8_t>(
-        std::max(static_cast<int32_t>(short_length_limit - len), -1));
-    if (is_short()) {
-      std::memcpy(s_.s_, str, len);
+    // str may refer to the current content: copy first, then reset.
+    if (len <= short_length_limit) {
+      auto tmp = stack{};
+      std::memcpy(tmp.s_, str, len);
+      tmp.remaining_ = static_cast<int8_t>(short_length_limit - len);
+      reset();
+      s_ = tmp;
     } else {
-      h_ = heap(len, owning);
-      std::memcpy(data(), str, len);
+      auto const tmp = heap(str, len, owning);
+      reset();
+      h_ = tmp;
     }
   }
 
@@ -310,11 +314,12 @@ struct generic_cstring {
                             // offset of stack::remaining_ below.
 
     heap() = default;
-    heap(msize_t len, owning_t) {
+    heap(char const* str, msize_t len, owning_t) {
       char* mem = static_cast<char*>(std::malloc(len + 1));
       if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
+      std::memcpy(mem, str, len);
       mem[len] = '\0';
       ptr_ = mem;
       size_ = len;
-- 
2.43.0


From 8334be0659d22c6d0edde19c4a4653360dcc32d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 09/84] fix: cstring: move assignment frees the old content and
 survives self move

---
 include/cista/containers/cstring.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index cc7e4c6..e43a18a 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -121,9 +121,13 @@ struct generic_cstring {
   }
 
   void move_from(generic_cstring&& s) noexcept {
+    if (&s == this) {
+      return;
+    }
+    reset();
     std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
     if constexpr (std::is_pointer_v<Ptr>) {
-      std::memset(static_cast<void*>(&s), 0, sizeof(*this));
+      s.s_ = stack{};
     } else if (!s.is_short()) {
       h_.ptr_ = s.h_.ptr_;
       s.s_ = stack{};
-- 
2.43.0


From dc6d281bd774b8b34643fc0e694db2a57524388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 10/84] fix: hash_storage::rehash on a table without storage
 does not leak

---
 include/cista/containers/hash_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 753c675..7663221 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -646,7 +646,11 @@ struct hash_storage {
     self_allocated_ = false;
   }
 
-  void rehash() { resize(capacity_); }
+  void rehash() {
+    if (capacity_ != 0U) {
+      resize(capacity_);
+    }
+  }
 
   iterator iterator_at(size_type const i) noexcept {
     return {ctrl_ + i, entries_ + i};
-- 
2.43.0


From eb9014c833d5c34bd5d554fb3c7ca29d871d71c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 11/84] fix: bitvec::reset (and shifting by >= size) keeps the
 blocks of the kept size

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ac79f1e..a387b05 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -120,7 +120,7 @@ struct basic_bitvec {
     }
   }
 
-  void reset() noexcept { blocks_ = {}; }
+  void reset() noexcept { zero_out(); }
 
   bool operator[](Key const i) const noexcept { return test(i); }
 
-- 
2.43.0


From cd43b8edc746f906703ca4f1e493f0fc2bb61804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 12/84] fix: bitvec::next_set_bit does not report bits past the
 end

---
 include/cista/containers/bitvec.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index a387b05..d559bc2 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -172,11 +172,12 @@ struct basic_bitvec {
     }
 
     auto const first_block_idx = i / bits_per_block;
-    auto const first_block = blocks_[first_block_idx];
+    auto const first_block = first_block_idx + 1U == blocks_.size()
+                                 ? sanitized_last_block()
+                                 : blocks_[first_block_idx];
     if (first_block != 0U) {
       auto const first_bit = i % bits_per_block;
-      auto const n = std::min(size(), bits_per_block);
-      for (auto bit = first_bit; bit != n; ++bit) {
+      for (auto bit = first_bit; bit != bits_per_block; ++bit) {
         if ((first_block & (block_t{1U} << bit)) != 0U) {
           return Key{first_block_idx * bits_per_block + bit};
         }
-- 
2.43.0


From 153de0b3654ae684bb039c6f37b2a0af115595e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 13/84] fix: variant: visiting works for more than 15
 alternatives

---
 include/cista/containers/variant.h | 897 +++++++++++++++--------------
 1 file changed, 449 insertions(+), 448 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index b035975..ffd9b91 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,448 +1,449 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant&& o) {
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
+          el = std::move(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *(new (&storage_)
+                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = I;
+    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 15U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
-- 
2.43.0


From 392e370d07c5db4fd3aafb8d133d80cb8f2567b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 14/84] fix: variant: assigning an lvalue of the held
 alternative is not dropped

---
 include/cista/containers/variant.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index ffd9b91..203c032 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -108,8 +108,9 @@ struct variant {
   variant& operator=(Arg&& arg) {
     if (index_of_type<Arg, T...>() == idx_) {
       apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
         }
       });
       return *this;
-- 
2.43.0


From 6460f917de36a0cd55e3045f68716b501d16f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 15/84] fix: variant: no value is held while a new one is under
 construction

---
 include/cista/containers/variant.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 203c032..5059cc2 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -116,8 +116,9 @@ struct variant {
       return *this;
     }
     destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    idx_ = NO_VALUE;
     new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
     return *this;
   }
 #if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
@@ -177,18 +178,22 @@ struct variant {
   Arg& emplace(CtorArgs&&... ctor_args) {
     static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
     destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_) std::decay_t<Arg>{
+        std::forward<CtorArgs>(ctor_args)...});
     idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+    return el;
   }
 
   template <std::size_t I, typename... CtorArgs>
   type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
     static_assert(I < sizeof...(T));
     destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
         std::forward<CtorArgs>(ctor_args)...});
+    idx_ = I;
+    return el;
   }
 
   constexpr std::size_t index() const noexcept { return idx_; }
-- 
2.43.0


From 1d9808db982e399feb3c7142da5e8cb734e26a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 16/84] fix: variant: valueless variants can be copied, moved,
 compared, swapped and hashed

---
 include/cista/containers/variant.h | 46 ++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 5059cc2..1701091 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -82,22 +82,34 @@ struct variant {
   }
 
   variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::forward<decltype(el)>(el));
     });
   }
   variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::move(el));
     });
   }
 
-  variant& operator=(variant const& o) {
+  variant& operator=(variant  const& o) {
+    if (!o.valid()) {
+      return clear();
+    }
     return o.apply([&](auto&& el) -> variant& { return *this = el; });
   }
-  variant& operator=(variant&& o) {
+  variant& operator=(variant && o) {
+    if (!o.valid()) {
+      return clear();
+    }
     return o.apply(
         [&](auto&& el) -> variant& { return *this = std::move(el); });
   }
@@ -133,6 +145,9 @@ struct variant {
   constexpr operator bool() const noexcept { return valid(); }
 
   friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
                        a.idx_, a, b)
@@ -140,6 +155,9 @@ struct variant {
   }
 
   friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
                        a.idx_, a, b)
@@ -147,6 +165,9 @@ struct variant {
   }
 
   friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                        a, b)
@@ -154,6 +175,9 @@ struct variant {
   }
 
   friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
                        a, b)
@@ -161,6 +185,9 @@ struct variant {
   }
 
   friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
                        a.idx_, a, b)
@@ -168,6 +195,9 @@ struct variant {
   }
 
   friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
                        a.idx_, a, b)
@@ -198,7 +228,16 @@ struct variant {
 
   constexpr std::size_t index() const noexcept { return idx_; }
 
+  variant& clear() {
+    destruct();
+    idx_ = NO_VALUE;
+    return *this;
+  }
+
   void swap(variant& o) {
+    if (!valid() && !o.valid()) {
+      return;
+    }
     if (idx_ == o.idx_) {
       apply(
           [](auto&& a, auto&& b) {
@@ -352,6 +391,9 @@ struct variant {
   }
 
   hash_t hash() const noexcept {
+    if (!valid()) {
+      return hashing<std::size_t>{}(index(), BASE_HASH);
+    }
     return apply([&](auto&& val) {
       auto const idx = index();
       auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-- 
2.43.0


From b37515fddd4e1b6afd50bcb179c3ffcce5d6a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 17/84] fix: optional: copying a non-const optional uses the
 copy constructor

---
 include/cista/containers/optional.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index a9d5df5..356fb62 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -12,7 +12,10 @@ template <typename T>
 struct optional {
   optional() = default;
 
-  template <typename... Ts>
+  template <typename... Ts,
+            typename = std::enable_if_t<
+                !(sizeof...(Ts) == 1U &&
+                  (std::is_same_v<std::decay_t<Ts>, optional> && ...))>>
   optional(Ts&&... t) noexcept(std::is_nothrow_constructible_v<T, Ts...>) {
     new (&storage_[0]) T{std::forward<Ts>(t)...};
     valid_ = true;
-- 
2.43.0


From 433dce67ea6d8b47242ca6f8755c5b74d99f7c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 18/84] fix: optional: destroys its value on destruction and
 assignment

---
 include/cista/containers/optional.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index 356fb62..e1d79c4 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -32,7 +32,21 @@ struct optional {
     return move(std::forward<optional>(other));
   }
 
+  ~optional() { reset(); }
+
+  void reset() {
+    if (valid_) {
+      valid_ = false;
+      value_ptr()->~T();
+    }
+  }
+
   optional& copy(optional const& other) {
+    if (this == &other) {
+      return *this;
+    }
+
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T{other.value()};
     }
@@ -43,6 +57,11 @@ struct optional {
   }
 
   optional& move(optional&& other) {
+    if (this == &other) {
+      return *this;
+    }
+
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T(std::move(other.value()));
     }
@@ -79,6 +98,8 @@ struct optional {
     return *reinterpret_cast<T const*>(&storage_[0]);
   }
 
+  T* value_ptr() noexcept { return reinterpret_cast<T*>(&storage_[0]); }
+
   bool valid_{false};
   alignas(std::alignment_of_v<T>) unsigned char storage_[sizeof(T)];
 };
-- 
2.43.0


From c9a207b9b3786a9380ba6b5493e1fd42cf13552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 19/84] fix: unique_ptr: survives self move assignment

---
 include/cista/containers/unique_ptr.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index c490a6b..1287082 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -28,6 +28,9 @@ struct basic_unique_ptr {
   }
 
   basic_unique_ptr& operator=(basic_unique_ptr&& o) noexcept {
+    if (this == &o) {
+      return *this;
+    }
     reset();
     el_ = o.el_;
     self_allocated_ = o.self_allocated_;
-- 
2.43.0


From d640dd48ccd10c39ff76a7e1d4abb2d1ac144573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 20/84] fix: unique_ptr: reset of a non-owning pointer clears
 it

---
 include/cista/containers/unique_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index 1287082..f1c1158 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -50,9 +50,9 @@ struct basic_unique_ptr {
   void reset() {
     if (self_allocated_ && el_ != nullptr) {
       delete el_;
-      el_ = nullptr;
-      self_allocated_ = false;
     }
+    el_ = nullptr;
+    self_allocated_ = false;
   }
 
   explicit operator bool() const noexcept { return el_ != nullptr; }
-- 
2.43.0


From 0511f066eaf7a93eee5afa92ba8a40be992a7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 21/84] fix: offset_ptr: post increment and decrement modify
 the pointer

---
 include/cista/containers/offset_ptr.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index a8e699f..e246f73 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -104,8 +104,17 @@ struct offset_ptr {
     return *this;
   }
 
-  offset_ptr operator++(int) const noexcept { return offset_ptr{get() + 1}; }
-  offset_ptr operator--(int) const noexcept { return offset_ptr{get() - 1}; }
+  offset_ptr operator++(int) noexcept {
+    auto const previous = *this;
+    ++*this;
+    return previous;
+  }
+
+  offset_ptr operator--(int) noexcept {
+    auto const previous = *this;
+    --*this;
+    return previous;
+  }
 
   offset_t offset_{NULLPTR_OFFSET};
 };
-- 
2.43.0


From f0acd2920f355b9954b3f591abb41a5c05c5b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 22/84] fix: wrapped::reset does not destroy the element twice

---
 include/cista/memory_holder.h | 109 ++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 52 deletions(-)

diff --git a/include/cista/memory_holder.h b/include/cista/memory_holder.h
index 840c375..7bb0553 100755
--- a/include/cista/memory_holder.h
+++ b/include/cista/memory_holder.h
@@ -1,52 +1,57 @@
-#pragma once
-
-#include <variant>
-
-#include "cista/buffer.h"
-#include "cista/containers/unique_ptr.h"
-#include "cista/mmap.h"
-#include "cista/targets/buf.h"
-
-namespace cista {
-
-using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
-
-template <typename T>
-struct wrapped {
-  wrapped() = default;
-  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
-    el_.self_allocated_ = false;
-  }
-  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
-
-  void reset() {
-    el_->~T();
-    if (std::holds_alternative<buffer>(mem_)) {
-      std::get<buffer>(mem_) = buffer{};
-    } else if (std::holds_alternative<byte_buf>(mem_)) {
-      std::get<byte_buf>(mem_) = byte_buf{};
-    }
-  }
-
-  friend bool operator==(wrapped const& x, std::nullptr_t) {
-    return x.el_ == nullptr;
-  }
-
-  operator bool() const { return el_.get() != nullptr; }
-  T* get() const noexcept { return el_.get(); }
-  T* operator->() noexcept { return el_.get(); }
-  T const* operator->() const noexcept { return el_.get(); }
-  T& operator*() noexcept { return *el_; }
-  T const& operator*() const noexcept { return *el_; }
-
-  memory_holder mem_;
-  raw::unique_ptr<T> el_;
-};
-
-template <typename T>
-wrapped(memory_holder, T*) -> wrapped<T>;
-
-template <typename T>
-wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
-
-}  // namespace cista
+#pragma once
+
+#include <variant>
+
+#include "cista/buffer.h"
+#include "cista/containers/unique_ptr.h"
+#include "cista/mmap.h"
+#include "cista/targets/buf.h"
+
+namespace cista {
+
+using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
+
+template <typename T>
+struct wrapped {
+  wrapped() = default;
+  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
+    el_.self_allocated_ = false;
+  }
+  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
+
+  void reset() {
+    if (el_.self_allocated_) {
+      el_.reset();
+    } else if (el_ != nullptr) {
+      el_->~T();
+      el_ = nullptr;
+    }
+    if (std::holds_alternative<buffer>(mem_)) {
+      std::get<buffer>(mem_) = buffer{};
+    } else if (std::holds_alternative<byte_buf>(mem_)) {
+      std::get<byte_buf>(mem_) = byte_buf{};
+    }
+  }
+
+  friend bool operator==(wrapped const& x, std::nullptr_t) {
+    return x.el_ == nullptr;
+  }
+
+  operator bool() const { return el_.get() != nullptr; }
+  T* get() const noexcept { return el_.get(); }
+  T* operator->() noexcept { return el_.get(); }
+  T const* operator->() const noexcept { return el_.get(); }
+  T& operator*() noexcept { return *el_; }
+  T const& operator*() const noexcept { return *el_; }
+
+  memory_holder mem_;
+  raw::unique_ptr<T> el_;
+};
+
+template <typename T>
+wrapped(memory_holder, T*) -> wrapped<T>;
+
+template <typename T>
+wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
+
+}  // namespace cista
-- 
2.43.0


From 14eff0223cc0114d2d430f8f196723c5e4d3ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 23/84] fix: serialization: out-of-line UTF-16/UTF-32 strings
 are aligned

---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 559960d..54baafc 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -224,7 +224,8 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
       (origin->h_.ptr_ == nullptr)
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
-                    origin->size() * sizeof(typename Type::CharT));
+                    origin->size() * sizeof(typename Type::CharT),
+                    std::alignment_of_v<typename Type::CharT>);
   if (start != NULLPTR_OFFSET) {
     str_convert_endian(c, start, origin->data(),
                        static_cast<offset_t>(origin->size()));
-- 
2.43.0


From 6972ee06c93dd673ee61424bc1d1abe11ffde9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 24/84] fix: deserialization accepts valid hash tables with
 tombstones

growth_left = growth(capacity) - full - deleted. The previous (lower bound)
check ignored deleted entries and therefore rejected tables after erase().
---
 include/cista/serialization.h | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 54baafc..a1cdaf1 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -964,28 +964,23 @@ void check_state(Ctx const& c,
             "hash storage: ctrl bytes must be empty or deleted or full");
 
   using st_t = typename Type::size_type;
-  auto [total_empty, total_full, total_deleted, total_growth_left] =
-      std::accumulate(
-          ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
-          std::tuple{st_t{0U}, st_t{0U}, st_t{0U}, st_t{0}},
-          [&](std::tuple<st_t, st_t, st_t, st_t> const acc,
-              typename Type::ctrl_t const& ctrl) {
-            auto const [empty, full, deleted, growth_left] = acc;
-            return std::tuple{
-                Type::is_empty(ctrl) ? empty + 1 : empty,
-                Type::is_full(ctrl) ? full + 1 : full,
-                Type::is_deleted(ctrl) ? deleted + 1 : deleted,
-                (Type::is_empty(ctrl) && el->was_never_full(static_cast<st_t>(
-                                             &ctrl - el->ctrl_))
-                     ? growth_left + 1
-                     : growth_left)};
-          });
+  auto [total_empty, total_full, total_deleted] = std::accumulate(
+      ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
+      std::tuple{st_t{0U}, st_t{0U}, st_t{0U}},
+      [&](std::tuple<st_t, st_t, st_t> const acc,
+          typename Type::ctrl_t const& ctrl) {
+        auto const [empty, full, deleted] = acc;
+        return std::tuple{Type::is_empty(ctrl) ? empty + 1 : empty,
+                          Type::is_full(ctrl) ? full + 1 : full,
+                          Type::is_deleted(ctrl) ? deleted + 1 : deleted};
+      });
 
   c.require(el->size_ == total_full, "hash storage: size");
   c.require(total_empty + total_full + total_deleted == el->capacity_,
             "hash storage: empty + full + deleted = capacity");
-  c.require(std::min(Type::capacity_to_growth(el->capacity_) - el->size_,
-                     total_growth_left) <= el->growth_left_,
+  c.require(Type::capacity_to_growth(el->capacity_) - total_full -
+                    total_deleted ==
+                el->growth_left_,
             "hash storage: growth left");
 }
 
-- 
2.43.0


From 9c05f2f65c176aabe79c979b096f9690732a2c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 25/84] fix: deserialization checks capacity and cloned control
 bytes of hash tables

A table whose cloned control bytes are all full never ends a probe sequence.
---
 include/cista/serialization.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index a1cdaf1..e7efb91 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -964,6 +964,13 @@ void check_state(Ctx const& c,
             "hash storage: ctrl bytes must be empty or deleted or full");
 
   using st_t = typename Type::size_type;
+  c.require((el->capacity_ & (el->capacity_ + 1U)) == 0U,
+            "hash storage: capacity must be 2^n - 1");
+  for (auto i = st_t{0U}; i != Type::WIDTH; ++i) {
+    c.require(el->ctrl_[el->capacity_ + 1U + i] ==
+                  (i < el->capacity_ ? el->ctrl_[i] : Type::EMPTY),
+              "hash storage: cloned ctrl bytes");
+  }
   auto [total_empty, total_full, total_deleted] = std::accumulate(
       ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
       std::tuple{st_t{0U}, st_t{0U}, st_t{0U}},
-- 
2.43.0


From edb65df07e7d3e6346047aab983ddacd25ff6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 26/84] fix: cstring: deserialization converts and checks
 out-of-line strings

Big endian images were not converted and the pointer and size of an untrusted
image were never checked.
---
 include/cista/serialization.h | 39 +++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index e7efb91..19aef4b 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -879,6 +879,45 @@ void recurse(Ctx& c, basic_string_view<Ptr>* el, Fn&& fn) {
   recurse(c, static_cast<generic_string<Ptr>*>(el), fn);
 }
 
+// --- CSTRING ---
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, generic_cstring<Ptr>* el) {
+  if (!el->is_short()) {
+    deserialize(c, &el->h_.ptr_);
+    c.convert_endian(el->h_.size_);
+  }
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, generic_cstring<Ptr>* el) {
+  if (el->is_short()) {
+    c.require(el->size() <= generic_cstring<Ptr>::short_length_limit,
+              "cstring short size");
+  } else {
+    c.require(el->data() != nullptr, "cstring ptr must be set");
+    c.check_ptr(el->data(), static_cast<std::size_t>(el->size()) + 1U);
+    c.check_bool(el->h_.self_allocated_);
+    c.require(!el->h_.self_allocated_, "cstring self-allocated");
+  }
+  c.require(el->data()[el->size()] == '\0', "cstring not terminated");
+}
+
+template <typename Ctx, typename Ptr, typename Fn>
+void recurse(Ctx&, generic_cstring<Ptr>*, Fn&&) {}
+
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, basic_cstring<Ptr>* el) {
+  convert_endian_and_ptr(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, basic_cstring<Ptr>* el) {
+  check_state(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr, typename Fn>
+void recurse(Ctx&, basic_cstring<Ptr>*, Fn&&) {}
+
 // --- UNIQUE_PTR<T> ---
 template <typename Ctx, typename T, typename Ptr>
 void convert_endian_and_ptr(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
-- 
2.43.0


From f094915614ff225196a4be021776aa52ec1ae493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 27/84] fix: vector::insert(pos, n, value) with an own element
 does not read freed memory

---
 include/cista/containers/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 97b8c08..112f32f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -228,9 +228,10 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
+    auto const copy = T{value};  // value may refer to an element of this vector
     reserve(used_size_ + count);
     for (auto i = size_type{0U}; i < count; ++i) {
-      new (el_ + used_size_) T{value};
+      new (el_ + used_size_) T{copy};
       ++used_size_;
     }
 
-- 
2.43.0


From 25cc23eddd13b545e4648a3e7255052b57664230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 28/84] fix: fws_multimap: iterator subtraction, subscript and
 end of an empty map

---
 include/cista/containers/fws_multimap.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 566e108..17fa250 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -91,14 +91,14 @@ struct fws_multimap_iterator {
   }
 
   fws_multimap_iterator operator-(int const n) const {
-    return {map_, index_ + static_cast<index_t>(n)};
+    return {map_, index_ - static_cast<index_t>(n)};
   }
 
   int operator-(fws_multimap_iterator const& o) const {
     return index_ - o.index_;
   }
 
-  value_type& operator[](int const n) const { return {map_, index_ + n}; }
+  value_type operator[](int const n) const { return *(*this + n); }
 
   bool operator<(fws_multimap_iterator const& o) const {
     return index_ < o.index_;
@@ -182,7 +182,9 @@ struct fws_multimap {
   }
 
   iterator begin() const { return {*this, 0}; }
-  iterator end() const { return {*this, index_.size() - 1}; }
+  iterator end() const {
+    return {*this, index_.empty() ? 0U : index_.size() - 1U};
+  }
 
   iterator cbegin() const { return begin(); }
   iterator cend() const { return end(); }
-- 
2.43.0


From 4bb3606f1fdfcdf979fbbb5b85debc4e85d0c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 29/84] fix: mutable_fws_multimap: iterator decrement, erase
 results, element count and own elements as arguments

---
 .../cista/containers/mutable_fws_multimap.h   | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 1713ce0..59b6bc8 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -145,15 +145,17 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type const& val) {
+      auto copy = value_type(val);  // val may be an element of this container
       auto insert_it = prepare_insert(it);
-      *insert_it = val;
+      *insert_it = std::move(copy);
       return insert_it;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type&& val) {
+      auto tmp = value_type(std::move(val));
       auto insert_it = prepare_insert(it);
-      *insert_it = std::move(val);
+      *insert_it = std::move(tmp);
       return insert_it;
     }
 
@@ -205,6 +207,7 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator erase(iterator pos) {
+      auto const erased = pos;
       auto last = std::prev(end());
       while (pos < last) {
         std::swap(*pos, *std::next(pos));
@@ -213,7 +216,7 @@ struct dynamic_fws_multimap_base {
       (*pos).~T();
       --get_index().size_;
       --mutable_mm().element_count_;
-      return end();
+      return erased;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
@@ -227,7 +230,7 @@ struct dynamic_fws_multimap_base {
         get_index().size_ -= count;
         mutable_mm().element_count_ -= count;
       }
-      return end();
+      return first;
     }
 
   protected:
@@ -318,7 +321,7 @@ struct dynamic_fws_multimap_base {
     }
 
     bucket_iterator& operator--() {
-      ++index_;
+      --index_;
       return *this;
     }
 
@@ -341,14 +344,8 @@ struct dynamic_fws_multimap_base {
              static_cast<difference_type>(rhs.index_);
     }
 
-    value_type operator[](difference_type n) const {
-      return multimap_.at(access_t{index_ + n});
-    }
-
-    template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
-    value_type operator[](difference_type const n) {
-      return const_cast<dynamic_fws_multimap_base&>(multimap_)  // NOLINT
-          .at(access_t{index_ + n});
+    value_type operator[](difference_type const n) const {
+      return *(*this + n);
     }
 
     bool operator<(bucket_iterator const& rhs) const {
@@ -431,6 +428,7 @@ struct dynamic_fws_multimap_base {
 
   void erase(access_t const i) {
     if (to_idx(i) < index_.size()) {
+      element_count_ -= index_[to_idx(i)].size_;
       release_bucket(index_[to_idx(i)]);
     }
   }
@@ -600,8 +598,9 @@ struct dynamic_fws_multimap_base {
   }
 
   size_type push_back_entry(size_type const map_index, value_type const& val) {
+    auto copy = value_type(val);  // val may be an element of this container
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = val;
+    data_[data_index] = std::move(copy);
     ++element_count_;
     return data_index;
   }
@@ -609,8 +608,9 @@ struct dynamic_fws_multimap_base {
   template <typename... Args>
   size_type emplace_back_entry(size_type const i, Args&&... args) {
     auto const map_index = to_idx(i);
+    auto val = value_type{std::forward<Args>(args)...};
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = value_type{std::forward<Args>(args)...};
+    data_[data_index] = std::move(val);
     ++element_count_;
     return data_index;
   }
-- 
2.43.0


From e2c059406b80f9277b16041220563ac26fd5eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 30/84] fix: vecvec: bounds checks, shrinking, empty maps, own
 buckets and lvalues as arguments

---
 include/cista/containers/vecvec.h | 53 +++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e649847..f7ab26c 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <cassert>
+#include <cinttypes>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 #include <vector>
 
@@ -170,7 +172,8 @@ struct basic_vecvec {
     CISTA_CUDA_COMPAT friend difference_type operator-(bucket const& a,
                                                        bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
@@ -304,7 +307,8 @@ struct basic_vecvec {
     friend CISTA_CUDA_COMPAT difference_type operator-(const_bucket const& a,
                                                        const_bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
@@ -334,14 +338,12 @@ struct basic_vecvec {
   }
 
   CISTA_CUDA_COMPAT const_bucket at(Key const i) const {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
   CISTA_CUDA_COMPAT bucket at(Key const i) {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
@@ -354,7 +356,7 @@ struct basic_vecvec {
   CISTA_CUDA_COMPAT index_value_type size() const {
     return empty() ? 0U : bucket_starts_.size() - 1;
   }
-  CISTA_CUDA_COMPAT bool empty() const { return bucket_starts_.empty(); }
+  CISTA_CUDA_COMPAT bool empty() const { return bucket_starts_.size() <= 1U; }
 
   void clear() {
     bucket_starts_.clear();
@@ -368,9 +370,7 @@ struct basic_vecvec {
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
-    data_.insert(std::end(data_),  //
-                 std::make_move_iterator(std::begin(bucket)),
-                 std::make_move_iterator(std::end(bucket)));
+    append(std::forward<Container>(bucket));
     bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
   }
 
@@ -409,6 +409,7 @@ struct basic_vecvec {
     for (auto i = old_size; i < new_size + 1U; ++i) {
       bucket_starts_[i] = data_.size();
     }
+    data_.resize(bucket_starts_[new_size]);
   }
 
   CISTA_CUDA_COMPAT
@@ -429,6 +430,38 @@ struct basic_vecvec {
   CISTA_CUDA_COMPAT
   friend const_bucket end(basic_vecvec const& m) { return m.end(); }
 
+  template <typename Container>
+  void append(Container&& c) {
+    using std::begin;
+    using std::end;
+    using type = std::decay_t<Container>;
+
+    if (begin(c) == end(c)) {
+      return;
+    }
+
+    auto is_own = false;
+    if constexpr (std::is_lvalue_reference_v<decltype(*begin(c))>) {
+      auto const ptr =
+          reinterpret_cast<std::uintptr_t>(std::addressof(*begin(c)));
+      is_own = ptr >= reinterpret_cast<std::uintptr_t>(data_.begin()) &&
+               ptr < reinterpret_cast<std::uintptr_t>(data_.end());
+    }
+
+    if (is_own) {  // growing data_ invalidates c
+      auto copy = std::vector<data_value_type>(begin(c), end(c));
+      data_.insert(std::end(data_), std::make_move_iterator(copy.begin()),
+                   std::make_move_iterator(copy.end()));
+    } else if constexpr (std::is_lvalue_reference_v<Container> ||
+                         std::is_same_v<type, bucket> ||
+                         std::is_same_v<type, const_bucket>) {
+      data_.insert(std::end(data_), begin(c), end(c));
+    } else {
+      data_.insert(std::end(data_), std::make_move_iterator(begin(c)),
+                   std::make_move_iterator(end(c)));
+    }
+  }
+
   DataVec data_;
   IndexVec bucket_starts_;
 };
-- 
2.43.0


From 20793d9c2ca44ad2060946de0e0c7116ad89ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 31/84] fix: nvec: depth > 2, bounds checks, size of inner
 entries, own entries and lvalues as arguments

---
 include/cista/containers/nvec.h | 103 +++++++++++++++++++++++---------
 1 file changed, 74 insertions(+), 29 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 82aa930..af1c3b1 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -1,7 +1,13 @@
 #pragma once
 
+#include <cassert>
 #include <cinttypes>
+#include <iterator>
+#include <memory>
 #include <string_view>
+#include <tuple>
+#include <type_traits>
+#include <vector>
 
 #include "cista/containers/array.h"
 #include "cista/containers/vector.h"
@@ -29,7 +35,7 @@ struct const_bucket final {
                index_value_type const i)
       : data_{data}, index_{index}, i_{to_idx(i)} {}
 
-  friend data_value_type* data(const_bucket b) { return &b[0]; }
+  friend data_value_type const* data(const_bucket b) { return &b[0]; }
   friend index_value_type size(const_bucket b) { return b.size(); }
 
   template <typename T = std::decay_t<data_value_type>,
@@ -88,7 +94,6 @@ struct const_bucket final {
     --i_;
     return *this;
   }
-  const_bucket operator*() { return *this; }
   const_bucket& operator+=(difference_type const n) {
     i_ += n;
     return *this;
@@ -111,7 +116,8 @@ struct const_bucket final {
                                    const_bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
@@ -189,7 +195,7 @@ struct bucket final {
     return *(begin() + i);
   }
 
-  reference operator*() const { return *this; }
+  bucket operator*() const { return *this; }
 
   operator const_bucket<DataVec, IndexVec, SizeType>() const {
     return {data_, index_, i_};
@@ -225,7 +231,6 @@ struct bucket final {
     --i_;
     return *this;
   }
-  bucket operator*() { return *this; }
   bucket& operator+=(difference_type const n) {
     i_ += n;
     return *this;
@@ -247,7 +252,8 @@ struct bucket final {
   friend difference_type operator-(bucket const& a, bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
@@ -296,7 +302,7 @@ struct const_meta_bucket {
 
   reference operator*() const { return *this; }
 
-  iterator operator[](size_type const i) { return begin() + i; }
+  iterator operator[](size_type const i) const { return begin() + i; }
 
   const_meta_bucket& operator++() {
     ++i_;
@@ -474,7 +480,7 @@ struct basic_nvec {
         i.push_back(0U);
       }
     }
-    add<N - 1>(bucket);
+    add<N - 1>(std::forward<Container>(bucket));
   }
 
   iterator operator[](Key const k) { return begin() + to_idx(k); }
@@ -486,20 +492,16 @@ struct basic_nvec {
 
   template <typename... Indices>
   size_type size(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    if (sizeof...(Indices) == 0U) {
-      return get_size<N - sizeof...(Indices) - 1>(first);
-    } else {
-      return get_size<N - sizeof...(Indices) - 1>(index_[I][first], rest...);
-    }
+    static_assert(sizeof...(Indices) < N);
+    verify(to_idx(first) < size(), "nvec::size: index out of range");
+    return get_size<N - 1>(to_idx(first), rest...);
   }
 
   template <typename... Indices>
   bucket_t at(Key const first, Indices... rest) {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
     return get_bucket(index_[I][to_idx(first)], rest...);
   }
 
@@ -507,7 +509,7 @@ struct basic_nvec {
   const_bucket_t at(Key const first, Indices... rest) const {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
     return get_bucket(index_[I][to_idx(first)], rest...);
   }
 
@@ -516,8 +518,7 @@ struct basic_nvec {
   template <typename... Rest>
   bucket_t get_bucket(index_value_type const bucket_start,
                       index_value_type const i, Rest... rest) {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+    return get_bucket(index_[sizeof...(Rest)][bucket_start + i], rest...);
   }
 
   bucket_t get_bucket(index_value_type const bucket_start,
@@ -528,8 +529,7 @@ struct basic_nvec {
   template <typename... Rest>
   const_bucket_t get_bucket(index_value_type const bucket_start,
                             index_value_type const i, Rest... rest) const {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+    return get_bucket(index_[sizeof...(Rest)][bucket_start + i], rest...);
   }
 
   const_bucket_t get_bucket(index_value_type const bucket_start,
@@ -541,25 +541,70 @@ struct basic_nvec {
   void add(Container&& c) {
     if constexpr (L == 0) {
       index_[0].push_back(static_cast<size_type>(data_.size() + c.size()));
-      data_.insert(std::end(data_), std::make_move_iterator(std::begin(c)),
-                   std::make_move_iterator(std::end(c)));
+      append(std::forward<Container>(c));
     } else {
       index_[L].push_back(
           static_cast<size_type>(index_[L - 1].size() + c.size() - 1U));
       for (auto&& x : c) {
-        add<L - 1>(x);
+        if constexpr (is_movable<Container>()) {
+          add<L - 1>(std::move(x));
+        } else {
+          add<L - 1>(x);
+        }
       }
     }
   }
 
+  template <typename Container>
+  void append(Container&& c) {
+    using std::begin;
+    using std::end;
+
+    if (begin(c) == end(c)) {
+      return;
+    }
+
+    auto is_own = false;
+    if constexpr (std::is_lvalue_reference_v<decltype(*begin(c))>) {
+      auto const ptr =
+          reinterpret_cast<std::uintptr_t>(std::addressof(*begin(c)));
+      is_own = ptr >= reinterpret_cast<std::uintptr_t>(data_.begin()) &&
+               ptr < reinterpret_cast<std::uintptr_t>(data_.end());
+    }
+
+    if (is_own) {  // growing data_ invalidates c
+      auto copy = std::vector<data_value_type>(begin(c), end(c));
+      data_.insert(std::end(data_), std::make_move_iterator(copy.begin()),
+                   std::make_move_iterator(copy.end()));
+    } else if constexpr (is_movable<Container>()) {
+      data_.insert(std::end(data_), std::make_move_iterator(begin(c)),
+                   std::make_move_iterator(end(c)));
+    } else {
+      data_.insert(std::end(data_), begin(c), end(c));
+    }
+  }
+
+  // rvalue that owns its entries (not just a view on the entries of an nvec)
+  template <typename Container>
+  static constexpr bool is_movable() {
+    return !std::is_reference_v<Container> && !is_view<Container>::value;
+  }
+
+  template <typename T>
+  struct is_view : std::false_type {};
+  template <typename D, typename I, typename S>
+  struct is_view<bucket<D, I, S>> : std::true_type {};
+  template <typename D, typename I, typename S>
+  struct is_view<const_bucket<D, I, S>> : std::true_type {};
+  template <std::size_t Depth, typename D, typename I, typename S>
+  struct is_view<meta_bucket<Depth, D, I, S>> : std::true_type {};
+  template <std::size_t Depth, typename D, typename I, typename S>
+  struct is_view<const_meta_bucket<Depth, D, I, S>> : std::true_type {};
+
   template <std::size_t L, typename... Rest>
   size_type get_size(index_value_type const i, index_value_type const j,
                      Rest... rest) const {
-    if constexpr (sizeof...(Rest) == 0U) {
-      return index_[L][i + j + 1] - index_[L][i + j];
-    } else {
-      return get_size<L>(index_[L][i + j], rest...);
-    }
+    return get_size<L - 1U>(index_[L][i] + j, rest...);
   }
 
   template <std::size_t L>
-- 
2.43.0


From 5088cca2d10a09388fa7e255e25a1cc3bd2c11c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 32/84] fix: paged: own elements and other element types as
 arguments, size limit, empty iteration, iterator difference

---
 include/cista/containers/paged.h        | 17 +++++++----
 include/cista/containers/paged_vecvec.h | 38 ++++++++++++++-----------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 2866266..b71591c 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <cinttypes>
+#include <algorithm>
 #include <cstring>
+#include <iterator>
 #include <limits>
 
 #include "cista/bit_counting.h"
@@ -49,6 +51,8 @@ struct paged {
   static constexpr auto const free_list_size =
       free_list_index(MaxPageSize) + 1U;
 
+  static constexpr std::size_t const max_page_size = MaxPageSize;
+
   page_t resize_page(page_t const& p, PageSizeType const size) {
     if (size <= p.capacity_) {
       return {size, p.capacity_, p.start_};
@@ -61,6 +65,7 @@ struct paged {
   }
 
   page_t create_page(PageSizeType const size) {
+    verify(size <= MaxPageSize, "paged::create_page: size > max capacity");
     auto const capacity = next_power_of_two(std::max(MinPageSize, size));
     auto const i = free_list_index(capacity);
     verify(i < free_list_.size(), "paged::create_page: size > max capacity");
@@ -107,8 +112,8 @@ struct paged {
   value_type* begin(page_t const& p) { return data(p); }
   value_type const* begin(page_t const& p) const { return data(p); }
 
-  value_type* end(page_t& p) const { return begin(p) + p.size(); }
-  value_type const* end(page_t const& p) const { return begin() + p.size; }
+  value_type* end(page_t const& p) { return begin(p) + p.size(); }
+  value_type const* end(page_t const& p) const { return begin(p) + p.size(); }
 
   void copy(page_t const& to, page_t const& from) {
     std::memcpy(data(to), data(from), from.size() * sizeof(value_type));
@@ -116,9 +121,11 @@ struct paged {
 
   template <typename ItA, typename ItB>
   void copy(page_t const& to, ItA begin, ItB end) {
-    auto const n = static_cast<std::size_t>(std::distance(begin, end));
-    if (n != 0U) {
-      std::memcpy(data(to), &*begin, n * sizeof(value_type));
+    if (begin != end) {
+      auto out = data(to);
+      for (auto it = begin; it != end; ++it, ++out) {
+        *out = static_cast<value_type>(*it);
+      }
     }
   }
 
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 4c8a98d..535d18f 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -1,6 +1,14 @@
 #pragma once
 
+#include <cassert>
+#include <algorithm>
+#include <initializer_list>
+#include <iterator>
+#include <string_view>
+#include <type_traits>
+
 #include "cista/strong.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -50,11 +58,6 @@ struct paged_vecvec {
       return *(begin() + i);
     }
 
-    value_type& at(std::size_t const i) {
-      verify(i < size(), "paged_vecvec: const_bucket::at: index out of range");
-      return *(begin() + i);
-    }
-
     value_type const& front() const {
       assert(!empty());
       return (*this)[0];
@@ -88,7 +91,6 @@ struct paged_vecvec {
       --i_;
       return *this;
     }
-    const_bucket operator*() { return *this; }
     const_bucket& operator+=(difference_type const n) {
       i_ += n;
       return *this;
@@ -110,7 +112,8 @@ struct paged_vecvec {
     friend difference_type operator-(const_bucket const& a,
                                      const_bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
@@ -156,9 +159,10 @@ struct paged_vecvec {
     }
 
     void push_back(data_value_type const& x) {
+      auto const copy = x;  // x may refer to an element of this container
       auto& p = pv_->page(i_);
       p = pv_->paged_.resize_page(p, p.size_ + 1U);
-      (*this)[size() - 1U] = x;
+      (*this)[size() - 1U] = copy;
     }
 
     template <typename Arg>
@@ -166,7 +170,8 @@ struct paged_vecvec {
       auto const old_offset = std::distance(begin(), it);
       auto const old_size = size();
       push_back(data_value_type{el});
-      return std::rotate(begin() + old_offset, begin() + old_size, end());
+      std::rotate(begin() + old_offset, begin() + old_size, end());
+      return begin() + old_offset;
     }
 
     template <typename T = std::decay_t<data_value_type>,
@@ -229,7 +234,6 @@ struct paged_vecvec {
       --i_;
       return *this;
     }
-    bucket operator*() { return *this; }
     bucket& operator+=(difference_type const n) {
       i_ += n;
       return *this;
@@ -250,13 +254,11 @@ struct paged_vecvec {
     }
     friend difference_type operator-(bucket const& a, bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
-    page_t page() { return pv_->page(i_); }
-    pointer data() { pv_->data(i_); }
-
     paged_vecvec* pv_;
     Key i_;
   };
@@ -297,9 +299,9 @@ struct paged_vecvec {
   base_t<Key> size() const { return idx_.size(); }
   bool empty() const { return idx_.empty(); }
 
-  bucket begin() { return front(); }
+  bucket begin() { return operator[](Key{0}); }
   bucket end() { return operator[](Key{size()}); }
-  const_bucket begin() const { return front(); }
+  const_bucket begin() const { return operator[](Key{0}); }
   const_bucket end() const { return operator[](Key{size()}); }
 
   friend bucket begin(paged_vecvec& m) { return m.begin(); }
@@ -311,6 +313,8 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
+    verify(bucket.size() <= Paged::max_page_size,
+           "paged_vecvec: bucket size > max page size");
     auto p = paged_.create_page(
         static_cast<typename Paged::page_size_type>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
@@ -335,6 +339,8 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void insert(Key const& k, Container&& bucket) {
+    verify(bucket.size() <= Paged::max_page_size,
+           "paged_vecvec: bucket size > max page size");
     auto p = paged_.create_page(
         static_cast<typename Paged::page_size_type>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
-- 
2.43.0


From f8c54ab97d31c9c9457901e568d26f0a815bbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 33/84] fix: flat_matrix: row iterators, entries keep their
 place on resize, dimension overflow

---
 include/cista/containers/flat_matrix.h | 77 ++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 11 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 411a062..8f866cc 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -1,8 +1,14 @@
 #pragma once
 
+#include <cassert>
 #include <cinttypes>
+#include <algorithm>
+#include <iterator>
+#include <limits>
+#include <utility>
 
 #include "cista/containers/vector.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -18,16 +24,16 @@ struct base_flat_matrix {
     using const_iterator = typename Vector::const_iterator;
 
     const_iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return matrix_.entries_.begin() + matrix_.n_columns_ * i_;
     }
     const_iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return matrix_.entries_.begin() + matrix_.n_columns_ * (i_ + 1);
     }
     iterator begin() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return matrix_.entries_.begin() + matrix_.n_columns_ * i_;
     }
     iterator end() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return matrix_.entries_.begin() + matrix_.n_columns_ * (i_ + 1);
     }
     friend const_iterator begin(row const& r) { return r.begin(); }
     friend const_iterator end(row const& r) { return r.end(); }
@@ -51,10 +57,10 @@ struct base_flat_matrix {
     using iterator = typename Vector::const_iterator;
 
     iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return matrix_.entries_.begin() + matrix_.n_columns_ * i_;
     }
     iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return matrix_.entries_.begin() + matrix_.n_columns_ * (i_ + 1);
     }
     friend iterator begin(const_row const& r) { return r.begin(); }
     friend iterator end(const_row const& r) { return r.end(); }
@@ -83,6 +89,11 @@ struct base_flat_matrix {
     return entries_[n_columns_ * i + j];
   }
 
+  value_type const& operator()(size_type const i, size_type const j) const {
+    assert(i < n_rows_ && j < n_columns_);
+    return entries_[n_columns_ * i + j];
+  }
+
   row at(size_type const i) {
     verify(i < n_rows_, "matrix::at: index out of range");
     return {*this, i};
@@ -94,13 +105,57 @@ struct base_flat_matrix {
   }
 
   void resize(size_type const n_rows, size_t const n_columns) {
+    auto const new_size = entry_count(n_rows, n_columns);
+    auto const columns = static_cast<size_type>(n_columns);
+    auto const rows = std::min(n_rows, n_rows_);
+
+    // Entries keep their row and column.
+    auto const move_entry = [&](size_type const i, size_type const j) {
+      auto const from = i * n_columns_ + j;
+      auto const to = i * columns + j;
+      if (from != to) {
+        entries_[to] = std::move(entries_[from]);
+      }
+    };
+    if (columns < n_columns_) {
+      for (auto i = size_type{0U}; i != rows; ++i) {
+        for (auto j = size_type{0U}; j != columns; ++j) {
+          move_entry(i, j);
+        }
+      }
+      entries_.resize(rows * columns);
+      entries_.resize(new_size);
+    } else {
+      entries_.resize(rows * n_columns_);
+      entries_.resize(new_size);
+      if (columns != n_columns_) {
+        for (auto i = rows; i-- != 0U;) {
+          for (auto j = n_columns_; j-- != 0U;) {
+            move_entry(i, j);
+          }
+          for (auto j = n_columns_; j != columns; ++j) {
+            entries_[i * columns + j] = value_type{};
+          }
+        }
+      }
+    }
+
     n_rows_ = n_rows;
-    n_columns_ = n_columns;
-    entries_.resize(n_rows * n_columns);
+    n_columns_ = columns;
   }
 
   void reset(value_type const& t) {
-    std::fill(begin(entries_), end(entries_), t);
+    auto const copy = t;  // t may refer to an entry of this matrix
+    std::fill(begin(entries_), end(entries_), copy);
+  }
+
+  static size_type entry_count(size_type const n_rows, size_t const n_columns) {
+    verify(n_rows == 0U ||
+               n_columns <= std::numeric_limits<size_type>::max() / n_rows,
+           "matrix: too many entries");
+    verify(n_columns <= std::numeric_limits<size_type>::max(),
+           "matrix: too many columns");
+    return static_cast<size_type>(n_rows * n_columns);
   }
 
   size_type n_rows_{0U}, n_columns_{0U};
@@ -117,7 +172,7 @@ inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
   auto v = vector<T>{};
-  v.resize(n_rows * n_columns, init);
+  v.resize(flat_matrix<T>::entry_count(n_rows, n_columns), init);
   return {n_rows, n_columns, std::move(v)};
 }
 
@@ -133,7 +188,7 @@ inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
   auto v = vector<T>{};
-  v.resize(n_rows * n_columns, init);
+  v.resize(flat_matrix<T>::entry_count(n_rows, n_columns), init);
   return {n_rows, n_columns, std::move(v)};
 }
 
-- 
2.43.0


From ca6da060f5958f8c0138ceef4e978c54483b5eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 34/84] fix: rtree: trees higher than the recorded path,
 repeated search of the hinted child, own entries as arguments

---
 include/cista/containers/rtree.h | 34 +++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index de74b0b..ae41895 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <cinttypes>
+#include <algorithm>
 #include <filesystem>
+#include <limits>
 
 #include "cista/cista_member_offset.h"
 #include "cista/containers/array.h"
@@ -24,6 +26,9 @@ template <typename DataType,  //
 struct basic_rtree {
   static constexpr auto const kInfinity = std::numeric_limits<NumType>::max();
 
+  static constexpr auto const kNoPathHint =
+      std::numeric_limits<std::uint32_t>::max();
+
   static constexpr auto const kSplitMinItemsPercentage = 10U;
   static constexpr auto const kSplitMinItems =
       ((MaxItems * kSplitMinItemsPercentage) / 100) + 1;
@@ -264,6 +269,7 @@ struct basic_rtree {
 
   void insert(coord_t const& min, coord_t const& max, DataType const& data) {
     auto const insert_rect = rect{min, max};
+    auto const insert_data = data;  // may refer to an entry of this tree
     while (true) {
       if (m_.root_ == node_idx_t::invalid()) {
         m_.root_ = node_new(kind::kLeaf);
@@ -272,7 +278,7 @@ struct basic_rtree {
       }
 
       auto split = false;
-      node_insert(m_.rect_, m_.root_, insert_rect, std::move(data), 0, split);
+      node_insert(m_.rect_, m_.root_, insert_rect, insert_data, 0, split);
       if (!split) {
         m_.rect_.expand(insert_rect);
         ++m_.count_;
@@ -380,7 +386,7 @@ struct basic_rtree {
 
   std::uint32_t node_choose(node const& search_node, rect const& search_rect,
                             std::uint32_t const depth) {
-    auto const h = m_.path_hint_[depth];
+    auto const h = get_path_hint(depth);
     if (h < search_node.count_) {
       if (search_node.rects_[h].contains(search_rect)) {
         return h;
@@ -390,17 +396,28 @@ struct basic_rtree {
     // Take a quick look for the first node that contain the rect.
     for (auto i = 0U; i != search_node.count_; ++i) {
       if (search_node.rects_[i].contains(search_rect)) {
-        m_.path_hint_[depth] = i;
+        set_path_hint(depth, i);
         return i;
       }
     }
 
     // Fallback to using che "choose least enlargment" algorithm.
     auto const i = search_node.choose_least_enlargement(search_rect);
-    m_.path_hint_[depth] = i;
+    set_path_hint(depth, i);
     return i;
   }
 
+  // The tree can be higher than the recorded path.
+  std::uint32_t get_path_hint(std::uint32_t const depth) const {
+    return depth < m_.path_hint_.size() ? m_.path_hint_[depth] : kNoPathHint;
+  }
+
+  void set_path_hint(std::uint32_t const depth, std::uint32_t const i) {
+    if (depth < m_.path_hint_.size()) {
+      m_.path_hint_[depth] = i;
+    }
+  }
+
   node& get_node(node_idx_t const node_id) { return nodes_[node_id]; }
   node const& get_node(node_idx_t const node_id) const {
     return nodes_[node_id];
@@ -502,20 +519,23 @@ struct basic_rtree {
       return;
     }
 
-    auto h = m_.path_hint_[depth];
+    auto h = get_path_hint(depth);
+    auto searched = kNoPathHint;
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
+        crect = delete_node.rects_[h];
         node_delete(delete_node.rects_[h], delete_node.children_[h], input_rect,
                     depth + 1, removed, shrunk, fn);
         if (removed) {
           goto removed;
         }
+        searched = h;
       }
     }
     h = 0;
     for (; h < delete_node.count_; h++) {
-      if (!delete_node.rects_[h].contains(input_rect)) {
+      if (h == searched || !delete_node.rects_[h].contains(input_rect)) {
         continue;
       }
       crect = delete_node.rects_[h];
@@ -537,7 +557,7 @@ struct basic_rtree {
         shrunk = true;
         return;
       }
-      m_.path_hint_[depth] = h;
+      set_path_hint(depth, h);
       if (shrunk) {
         shrunk = !delete_node.rects_[h].equals(crect);
         if (shrunk) {
-- 
2.43.0


From 3438eab90c4e6ac1e9893440d2f10c182b5939ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 35/84] fix: file: move assignment closes the old file,
 content() can be read repeatedly

---
 include/cista/targets/file.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 1b8d599..21fcd22 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -73,6 +73,12 @@ struct file {
   }
 
   file& operator=(file&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    if (f_ != nullptr) {
+      CloseHandle(f_);
+    }
     f_ = o.f_;
     size_ = o.size_;
     o.f_ = nullptr;
@@ -227,6 +233,12 @@ struct file {
   }
 
   file& operator=(file&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    if (f_ != nullptr) {
+      std::fclose(f_);
+    }
     f_ = o.f_;
     size_ = o.size_;
     o.f_ = nullptr;
@@ -250,6 +262,7 @@ struct file {
   }
 
   buffer content() {
+    verify(f_ == nullptr || !std::fseek(f_, 0L, SEEK_SET), "seek error");
     auto b = buffer(size());
     verify(std::fread(b.data(), 1U, b.size(), f_) == b.size(), "read error");
     return b;
-- 
2.43.0


From c290bc37812d993ab5757a9ad57ee90383548b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 36/84] fix: mmap: moving neither leaks nor reuses mappings,
 closing unmaps the mapped size

---
 include/cista/mmap.h | 54 ++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index c6b40d2..fc78612 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -15,6 +15,11 @@
 #include <unistd.h>
 #endif
 
+#include <cinttypes>
+#include <limits>
+#include <string_view>
+#include <utility>
+
 #include "cista/next_power_of_2.h"
 #include "cista/targets/file.h"
 
@@ -37,16 +42,7 @@ struct mmap {
         used_size_{f_.size()},
         addr_{size_ == 0U ? nullptr : map()} {}
 
-  ~mmap() {
-    if (addr_ != nullptr) {
-      sync();
-      size_ = used_size_;
-      unmap();
-      if (size_ != f_.size()) {
-        resize_file();
-      }
-    }
-  }
+  ~mmap() { close(); }
 
   mmap(mmap const&) = delete;
   mmap& operator=(mmap const&) = delete;
@@ -60,10 +56,14 @@ struct mmap {
 #ifdef _WIN32
     file_mapping_ = o.file_mapping_;
 #endif
-    o.addr_ = nullptr;
+    o.release();
   }
 
   mmap& operator=(mmap&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    close();
     f_ = std::move(o.f_);
     prot_ = o.prot_;
     size_ = o.size_;
@@ -72,7 +72,7 @@ struct mmap {
 #ifdef _WIN32
     file_mapping_ = o.file_mapping_;
 #endif
-    o.addr_ = nullptr;
+    o.release();
     return *this;
   }
 
@@ -126,6 +126,26 @@ struct mmap {
   }
 
 private:
+  void close() {
+    if (addr_ != nullptr) {
+      sync();
+      unmap();
+      size_ = used_size_;
+      if (size_ != f_.size()) {
+        resize_file();
+      }
+    }
+  }
+
+  void release() noexcept {
+    size_ = 0U;
+    used_size_ = 0U;
+    addr_ = nullptr;
+#ifdef _WIN32
+    file_mapping_ = nullptr;
+#endif
+  }
+
   void unmap() {
 #ifdef _WIN32
     if (addr_ != nullptr) {
@@ -205,12 +225,12 @@ private:
   }
 
   file f_;
-  protection prot_;
-  std::size_t size_;
-  std::size_t used_size_;
-  void* addr_;
+  protection prot_{protection::READ};
+  std::size_t size_{0U};
+  std::size_t used_size_{0U};
+  void* addr_{nullptr};
 #ifdef _WIN32
-  HANDLE file_mapping_;
+  HANDLE file_mapping_{nullptr};
 #endif
 };
 
-- 
2.43.0


From 657c2127b3a9c1a1b0b77d46e52189635bfbe5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 37/84] fix: mmap_vec: own elements as arguments, reserve,
 insert results, moved-from size

---
 include/cista/containers/mmap_vec.h | 72 ++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 8fcbc61..bdd2978 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -1,6 +1,12 @@
 #pragma once
 
 #include <cassert>
+#include <algorithm>
+#include <iterator>
+#include <limits>
+#include <new>
+#include <type_traits>
+#include <utility>
 
 #include "cista/mmap.h"
 #include "cista/strong.h"
@@ -26,17 +32,26 @@ struct basic_mmap_vec {
       : mmap_{std::move(mmap)},
         used_size_{static_cast<size_type>(mmap_.size() / sizeof(T))} {}
 
-  void push_back(T const& t) {
-    ++used_size_;
-    mmap_.resize(sizeof(T) * used_size_);
-    (*this)[Key{used_size_ - 1U}] = t;
+  basic_mmap_vec(basic_mmap_vec&& o)
+      : mmap_{std::move(o.mmap_)},
+        used_size_{std::exchange(o.used_size_, size_type{0U})} {}
+
+  basic_mmap_vec& operator=(basic_mmap_vec&& o) {
+    if (this != &o) {
+      mmap_ = std::move(o.mmap_);
+      used_size_ = std::exchange(o.used_size_, size_type{0U});
+    }
+    return *this;
   }
 
+  void push_back(T const& t) { emplace_back(t); }
+
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
-    new (data() + used_size_) T{std::forward<Args>(el)...};
-    T* ptr = data() + used_size_;
+    // Arguments may refer to elements of this vector.
+    auto const copy = T{std::forward<Args>(el)...};
+    mmap_.resize(sizeof(T) * (used_size_ + 1U));
+    T* ptr = new (data() + used_size_) T{copy};
     ++used_size_;
     return *ptr;
   }
@@ -63,16 +78,16 @@ struct basic_mmap_vec {
   bool empty() const noexcept { return size() == 0U; }
 
   T const& operator[](access_type const index) const noexcept {
-    assert(index < used_size_);
+    assert(to_idx(index) < used_size_);
     return begin()[to_idx(index)];
   }
 
   T& operator[](access_type const index) noexcept {
-    assert(used_size_);
+    assert(to_idx(index) < used_size_);
     return begin()[to_idx(index)];
   }
 
-  void reserve(size_type const size) { mmap_.resize(size * sizeof(T)); }
+  void reserve(size_type const size) { mmap_.reserve(size * sizeof(T)); }
 
   void resize(size_type const size) {
     mmap_.resize(size * sizeof(T));
@@ -93,7 +108,7 @@ struct basic_mmap_vec {
                    static_cast<diff_t>(std::numeric_limits<size_type>::max()),
            "cista::vector::set: invalid range");
 
-    reserve(static_cast<size_type>(range_size));
+    mmap_.resize(static_cast<std::size_t>(range_size) * sizeof(T));
 
     auto copy_source = begin_it;
     auto copy_target = data();
@@ -109,11 +124,26 @@ struct basic_mmap_vec {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
-    new (data() + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg>(el));
+
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
+  }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+  template <typename El>
+  T* insert(T* it, size_type const count, El const& value) {
+    auto const old_offset = std::distance(begin(), it);
+    auto const old_size = used_size_;
+
+    auto const copy = T{value};  // value may refer to an element of this vector
+    mmap_.resize(sizeof(T) * (used_size_ + count));
+    for (auto i = size_type{0U}; i < count; ++i) {
+      new (data() + used_size_) T{copy};
+      ++used_size_;
+    }
+
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -122,12 +152,11 @@ struct basic_mmap_vec {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
-      new (data() + used_size_) T{std::forward<decltype(*first)>(*first)};
-      ++used_size_;
+      emplace_back(std::forward<decltype(*first)>(*first));
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
@@ -139,7 +168,7 @@ struct basic_mmap_vec {
 
     auto const pos_idx = pos - begin();
     auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    mmap_.resize(sizeof(T) * (used_size_ + new_count));
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
@@ -164,7 +193,8 @@ struct basic_mmap_vec {
     return pos;
   }
 
-  template <class It>
+  template <class It, typename = typename std::iterator_traits<
+                          It>::iterator_category>
   T* insert(T* pos, It first, It last) {
     return insert(pos, first, last,
                   typename std::iterator_traits<It>::iterator_category());
-- 
2.43.0


From f5e0e8a28949793073d9ff40c41fcda8effb81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 38/84] fix: vector::insert(pos, n, value) is not ambiguous for
 unsigned elements

---
 include/cista/containers/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 112f32f..43c143c 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -288,7 +288,8 @@ struct basic_vector {
     return pos;
   }
 
-  template <class It>
+  template <class It, typename = typename std::iterator_traits<
+                          It>::iterator_category>
   T* insert(T* pos, It first, It last) {
     return insert(pos, first, last,
                   typename std::iterator_traits<It>::iterator_category());
-- 
2.43.0


From 6f622656d8c8cbdb82211f788772d459e189903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 39/84] fix: cstring: construction with a length, self copy, no
 shallow copies of generic_cstring

---
 include/cista/containers/cstring.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index e43a18a..be08d7f 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -45,6 +45,23 @@ struct generic_cstring {
   }
   generic_cstring(char const* s, owning_t const) { set_owning(s); }
   generic_cstring(char const* s, non_owning_t const) { set_non_owning(s); }
+  generic_cstring(char const* s, msize_t const len, owning_t const) {
+    set_owning(s, len);
+  }
+  generic_cstring(char const* s, msize_t const len, non_owning_t const) {
+    set_non_owning(s, len);
+  }
+
+  generic_cstring(generic_cstring const& o) { copy_from(o); }
+  generic_cstring(generic_cstring&& o) noexcept { move_from(std::move(o)); }
+  generic_cstring& operator=(generic_cstring const& o) {
+    copy_from(o);
+    return *this;
+  }
+  generic_cstring& operator=(generic_cstring&& o) noexcept {
+    move_from(std::move(o));
+    return *this;
+  }
 
   char* begin() noexcept { return data(); }
   char* end() noexcept { return data() + size(); }
@@ -135,6 +152,9 @@ struct generic_cstring {
   }
 
   void copy_from(generic_cstring const& s) {
+    if (&s == this) {
+      return;
+    }
     reset();
     if (s.is_short()) {
       std::memcpy(static_cast<void*>(this), &s, sizeof(s));
-- 
2.43.0


From 614258dc2e9664a6a71dd1c16e668bd97bdb210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 40/84] fix: tuple, strong: apply on two tuples and shifts by
 strong values compile

---
 include/cista/containers/tuple.h | 6 ++----
 include/cista/strong.h           | 8 ++++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/tuple.h b/include/cista/containers/tuple.h
index 12ee6db..c6b7c73 100644
--- a/include/cista/containers/tuple.h
+++ b/include/cista/containers/tuple.h
@@ -222,16 +222,14 @@ constexpr decltype(auto) apply(F&& f, Tuple&& t) {
 template <typename F, typename Tuple, std::size_t... I>
 constexpr decltype(auto) apply_impl(std::index_sequence<I...>, F&& f,
                                     Tuple const& a, Tuple const& b) {
-  return (std::invoke(std::forward<F>(f), get<I>(std::forward<Tuple>(a)),
-                      get<I>(std::forward<Tuple>(b))),
-          ...);
+  return (std::invoke(f, get<I>(a), get<I>(b)), ...);
 }
 
 template <typename F, typename Tuple>
 constexpr decltype(auto) apply(F&& f, Tuple const& a, Tuple const& b) {
   return apply_impl(
       std::make_index_sequence<tuple_size_v<std::remove_reference_t<Tuple>>>{},
-      std::forward<F>(f), std::forward<Tuple>(a), std::forward<Tuple>(b));
+      std::forward<F>(f), a, b);
 }
 
 template <typename T1, typename T2, std::size_t... I>
diff --git a/include/cista/strong.h b/include/cista/strong.h
index 93f2e9b..0efa806 100644
--- a/include/cista/strong.h
+++ b/include/cista/strong.h
@@ -104,8 +104,12 @@ struct strong {
   constexpr strong operator<<(T const& i) const {
     return strong{static_cast<value_t>(v_ << i)};
   }
-  constexpr strong operator>>(strong const& o) const { return v_ >> o.v_; }
-  constexpr strong operator<<(strong const& o) const { return v_ << o.v_; }
+  constexpr strong operator>>(strong const& o) const {
+    return strong{static_cast<value_t>(v_ >> o.v_)};
+  }
+  constexpr strong operator<<(strong const& o) const {
+    return strong{static_cast<value_t>(v_ << o.v_)};
+  }
 
   constexpr strong& operator|=(strong const& o) {
     v_ |= o.v_;
-- 
2.43.0


From 4cae56ecbc5bc7b679320e2f322f97b638b94645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 41/84] fix: file::checksum of more than 512 kB with hash
 functions that cannot be continued

---
 include/cista/hash.h         |  8 ++++++++
 include/cista/targets/file.h | 34 ++++++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/cista/hash.h b/include/cista/hash.h
index 04b647e..a8e2d80 100644
--- a/include/cista/hash.h
+++ b/include/cista/hash.h
@@ -5,6 +5,14 @@
 
 namespace cista {
 
+// hash(b, hash(a)) == hash(a + b) holds only for FNV-1a.
+#if defined(CISTA_XXH3) || defined(CISTA_WYHASH) || \
+    defined(CISTA_WYHASH_FASTEST)
+constexpr auto const HASH_IS_INCREMENTAL = false;
+#else
+constexpr auto const HASH_IS_INCREMENTAL = true;
+#endif
+
 #if defined(CISTA_XXH3)
 
 #include "xxh3.h"
diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 21fcd22..9b3a48a 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -116,22 +116,30 @@ struct file {
 
   std::uint64_t checksum(offset_t const start = 0) const {
     constexpr auto const block_size = 512U * 1024U;  // 512kB
+    auto const total = size_ - static_cast<std::size_t>(start);
     auto c = BASE_HASH;
-    char buf[block_size];
-    chunk(block_size, size_ - static_cast<std::size_t>(start),
+    auto b = buffer(HASH_IS_INCREMENTAL ? block_size : total);
+    auto const buf = reinterpret_cast<char*>(b.data());
+    chunk(block_size, total,
           [&](auto const from, auto const size) {
+            auto const dest = HASH_IS_INCREMENTAL ? buf : buf + from;
             OVERLAPPED overlapped = {0};
             overlapped.Offset = static_cast<DWORD>(start + from);
 #ifdef _WIN64
             overlapped.OffsetHigh = static_cast<DWORD>((start + from) >> 32U);
 #endif
             DWORD bytes_read = {0};
-            verify(ReadFile(f_, buf, static_cast<DWORD>(size), &bytes_read,
+            verify(ReadFile(f_, dest, static_cast<DWORD>(size), &bytes_read,
                             &overlapped),
                    "checksum read error");
             verify(bytes_read == size, "checksum read error bytes read");
-            c = hash(std::string_view{buf, size}, c);
+            if constexpr (HASH_IS_INCREMENTAL) {
+              c = hash(std::string_view{buf, size}, c);
+            }
           });
+    if constexpr (!HASH_IS_INCREMENTAL) {
+      c = hash(std::string_view{buf, total});
+    }
     return c;
   }
 
@@ -273,13 +281,19 @@ struct file {
         static_cast<std::size_t>(512U * 1024U);  // 512kB
     verify(size_ >= static_cast<std::size_t>(start), "invalid checksum offset");
     verify(!std::fseek(f_, static_cast<long>(start), SEEK_SET), "fseek error");
+    auto const total = size_ - static_cast<std::size_t>(start);
     auto c = BASE_HASH;
-    char buf[block_size];
-    chunk(block_size, size_ - static_cast<std::size_t>(start),
-          [&](auto const, auto const s) {
-            verify(std::fread(buf, 1U, s, f_) == s, "invalid read");
-            c = hash(std::string_view{buf, s}, c);
-          });
+    if constexpr (HASH_IS_INCREMENTAL) {
+      char buf[block_size];
+      chunk(block_size, total, [&](auto const, auto const s) {
+        verify(std::fread(buf, 1U, s, f_) == s, "invalid read");
+        c = hash(std::string_view{buf, s}, c);
+      });
+    } else {
+      auto b = buffer(total);
+      verify(std::fread(b.data(), 1U, total, f_) == total, "invalid read");
+      c = hash(std::string_view{reinterpret_cast<char const*>(b.data()), total});
+    }
     return c;
   }
 
-- 
2.43.0


From 10decdebb672f553677cc443f110eea20570c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 42/84] fix: targets: alignment relative to the image start,
 padding is written and zero

---
 include/cista/targets/buf.h  | 31 ++++++++++++++-----------------
 include/cista/targets/file.h | 11 ++++++-----
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index 3a37a89..1616fd6 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -38,26 +38,23 @@ struct buf {
 
   offset_t write(void const* ptr, std::size_t const num_bytes,
                  std::size_t alignment = 0U) {
-    auto start = static_cast<offset_t>(size());
-    if (alignment > 1U && buf_.size() != 0U) {
-      auto unaligned_ptr = static_cast<void*>(addr(start));
-      auto space = std::numeric_limits<std::size_t>::max();
-      auto const aligned_ptr =
-          std::align(alignment, num_bytes, unaligned_ptr, space);
-      auto const new_offset = static_cast<offset_t>(
-          aligned_ptr ? static_cast<std::uint8_t*>(aligned_ptr) - base() : 0U);
-      auto const adjustment = static_cast<offset_t>(new_offset - start);
-      start += adjustment;
+    auto const old_size = size();
+    auto start = static_cast<offset_t>(old_size);
+    if (alignment > 1U) {
+      // Align relative to the start of the buffer (not to its current address).
+      start = static_cast<offset_t>((old_size + alignment - 1U) / alignment *
+                                    alignment);
     }
 
-    auto const space_left =
-        static_cast<int64_t>(buf_.size()) - static_cast<int64_t>(start);
-    if (space_left < static_cast<int64_t>(num_bytes)) {
-      auto const missing = static_cast<std::size_t>(
-          static_cast<int64_t>(num_bytes) - space_left);
-      buf_.resize(buf_.size() + missing);
+    auto const new_size = static_cast<std::size_t>(start) + num_bytes;
+    if (new_size != old_size) {
+      buf_.resize(new_size);
+      std::memset(addr(static_cast<offset_t>(old_size)), 0,
+                  static_cast<std::size_t>(start) - old_size);
+    }
+    if (num_bytes != 0U) {
+      std::memcpy(addr(start), ptr, num_bytes);
     }
-    std::memcpy(addr(start), ptr, num_bytes);
 
     return start;
   }
diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 9b3a48a..ef75941 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -308,8 +308,6 @@ struct file {
   offset_t write(void const* ptr, std::size_t const size,
                  std::size_t alignment) {
     auto curr_offset = size_;
-    auto seek_offset = long{0};
-    auto seek_whence = int{SEEK_END};
     if (alignment > 1U) {
       auto unaligned_ptr = reinterpret_cast<void*>(size_);
       auto space = std::numeric_limits<std::size_t>::max();
@@ -318,10 +316,13 @@ struct file {
       if (aligned_ptr != nullptr) {
         curr_offset = reinterpret_cast<std::uintptr_t>(aligned_ptr);
       }
-      seek_offset = static_cast<long>(curr_offset);
-      seek_whence = SEEK_SET;
     }
-    verify(!std::fseek(f_, seek_offset, seek_whence), "seek error");
+    verify(!std::fseek(f_, static_cast<long>(size_), SEEK_SET), "seek error");
+    constexpr std::uint8_t const padding[64U] = {0U};
+    chunk(sizeof(padding), curr_offset - size_,
+          [&](std::size_t const, std::size_t const n) {
+            verify(std::fwrite(padding, 1U, n, f_) == n, "write error");
+          });
     verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
     size_ = curr_offset + size;
     return static_cast<offset_t>(curr_offset);
-- 
2.43.0


From 457862007800601a304ca6fd8bff1f6cb052ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 43/84] fix: deserialization finds roots with larger alignment
 than the headers

---
 include/cista/serialization.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 19aef4b..dd06c91 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -479,6 +479,14 @@ constexpr offset_t data_start(mode const m) noexcept {
   return start;
 }
 
+// Position of the root object: the first aligned position after the headers.
+template <typename T>
+constexpr offset_t root_start(mode const m) noexcept {
+  constexpr auto const alignment =
+      static_cast<offset_t>(std::alignment_of_v<decay_t<T>>);
+  return (data_start(m) + alignment - 1) / alignment * alignment;
+}
+
 template <mode const Mode = mode::NONE, typename Target, typename T>
 void serialize(Target& t, T& value) {
   serialization_context<Target, Mode> c{t};
@@ -1110,7 +1118,7 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
     return reinterpret_cast<T*>(from);
   } else {
     check<T, Mode>(from, to);
-    auto const el = reinterpret_cast<T*>(from + data_start(Mode));
+    auto const el = reinterpret_cast<T*>(from + root_start<T>(Mode));
 
     deserialization_context<Mode> c{from, to};
     deserialize(c, el);
-- 
2.43.0


From 5cc607ff89a96e8727db1cf8cb42b4f3ce8f7e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 44/84] fix: variant index is converted when reading big endian
 images

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index dd06c91..fa365d9 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1063,7 +1063,7 @@ void recurse(Ctx&, array<T, Size>* el, Fn&& fn) {
 }
 
 // --- VARIANT<T...> ---
-template <typename Ctx, typename Fn, typename... T>
+template <typename Ctx, typename... T>
 void convert_endian_and_ptr(Ctx const& c, variant<T...>* el) {
   c.convert_endian(el->idx_);
 }
-- 
2.43.0


From d12665628d88b8b386f6aa6e5e5ab02cdb6cea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:17 +0000
Subject: [PATCH 45/84] fix: bitvec size is serialized as a member and
 converted for big endian images

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index d559bc2..f4d1d6f 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -44,7 +44,7 @@ struct basic_bitvec {
     return ret;
   }
 
-  auto cista_members() noexcept { return std::tie(blocks_); }
+  auto cista_members() noexcept { return std::tie(size_, blocks_); }
 
   static constexpr size_type num_blocks(size_type num_bits) {
     return static_cast<size_type>(num_bits / bits_per_block +
-- 
2.43.0


From d53a46321aeb1ba1076e37c9cd119d513159bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 46/84] fix: fetch_or and fetch_and return the previous value
 with GCC/Clang builtins, too

---
 include/cista/atomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 5d1855b..ac4fd55 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -16,7 +16,7 @@ inline std::uint64_t fetch_or(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_or(mask);
 #else
-  return __atomic_or_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_or(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
@@ -26,7 +26,7 @@ inline std::uint64_t fetch_and(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_and(mask);
 #else
-  return __atomic_and_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_and(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
-- 
2.43.0


From deedd803098b6025cd382893553d2865c34e9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 47/84] fix: fetch_max updates when the new value is larger

---
 include/cista/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index ac4fd55..95fcc25 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -47,7 +47,7 @@ inline std::int16_t fetch_max(std::int16_t& block, std::int16_t const val) {
   // UB due to aliasing but `std::atomic_ref` is not there yet.
   auto const a = reinterpret_cast<std::atomic_int16_t*>(&block);
   auto old = a->load();
-  if (old > val) {
+  if (old < val) {
     while (!a->compare_exchange_weak(old, std::max(old, val),
                                      std::memory_order_release,
                                      std::memory_order_relaxed)) {
-- 
2.43.0


From 4bc26f9c0b1dd0f2886f298efcac2bf6fd608899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 48/84] fix: aligned_allocator::allocate throws instead of
 overflowing the size

---
 include/cista/aligned_allocator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/aligned_allocator.h b/include/cista/aligned_allocator.h
index 84cf347..6282407 100644
--- a/include/cista/aligned_allocator.h
+++ b/include/cista/aligned_allocator.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <cinttypes>
+#include <limits>
+#include <new>
 #include <stdexcept>
 
 #include "cista/aligned_alloc.h"
@@ -32,6 +34,10 @@ struct aligned_allocator {
   const_pointer adress(const_reference r) const noexcept { return &r; }
 
   pointer allocate(size_type const n) const {
+    if (n > (std::numeric_limits<size_type>::max() - next_power_of_two(N)) /
+                sizeof(value_type)) {
+      throw_exception(std::bad_alloc{});
+    }
     auto const ptr =
         static_cast<pointer>(CISTA_ALIGNED_ALLOC(N, n * sizeof(value_type)));
     if (ptr == nullptr) {
-- 
2.43.0


From ae3789b8c02067dc6818a7988d37fd827b2e8d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 49/84] fix: character arrays hash like the string they contain

---
 include/cista/hashing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index 9607548..98583ff 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -99,7 +99,7 @@ struct hashing {
     } else if constexpr (is_pointer_v<Type>) {
       return hash_combine(seed, reinterpret_cast<intptr_t>(ptr_cast(el)));
     } else if constexpr (is_char_array_v<Type>) {
-      return hash(std::string_view{el, sizeof(el) - 1U}, seed);
+      return hash(std::string_view{static_cast<char const*>(el)}, seed);
     } else if constexpr (is_string_like_v<Type>) {
       using std::begin;
       using std::end;
-- 
2.43.0


From f5078a58b5ec6fde03fa2c5b8c95adf52751dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 50/84] fix: all kinds of empty strings have the same hash with
 XXH3 and wyhash

---
 include/cista/hash.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/hash.h b/include/cista/hash.h
index a8e2d80..a9c9fdd 100644
--- a/include/cista/hash.h
+++ b/include/cista/hash.h
@@ -31,12 +31,12 @@ constexpr hash_t hash_combine(hash_t h, Args... val) {
 }
 
 inline hash_t hash(std::string_view s, hash_t h = BASE_HASH) {
-  return XXH3_64bits_withSeed(s.data(), s.size(), h);
+  return s.empty() ? h : XXH3_64bits_withSeed(s.data(), s.size(), h);
 }
 
 template <std::size_t N>
 constexpr hash_t hash(const char (&str)[N], hash_t const h = BASE_HASH) {
-  return XXH3_64bits_withSeed(str, N - 1, h);
+  return N == 1U ? h : XXH3_64bits_withSeed(str, N - 1, h);
 }
 
 template <typename T>
@@ -62,13 +62,13 @@ constexpr hash_t hash_combine(hash_t h, Args... val) {
 }
 
 inline hash_t hash(std::string_view s, hash_t h = BASE_HASH) {
-  return wyhash::wyhash(s.data(), s.size(), h, wyhash::_wyp);
+  return s.empty() ? h : wyhash::wyhash(s.data(), s.size(), h, wyhash::_wyp);
 }
 
 template <std::size_t N>
 constexpr hash_t hash(const char (&str)[N],
                       hash_t const h = BASE_HASH) noexcept {
-  return wyhash::wyhash(str, N - 1, h, wyhash::_wyp);
+  return N == 1U ? h : wyhash::wyhash(str, N - 1, h, wyhash::_wyp);
 }
 
 template <typename T>
@@ -96,13 +96,13 @@ constexpr hash_t hash_combine(hash_t h, Args... val) {
 }
 
 inline hash_t hash(std::string_view s, hash_t h = BASE_HASH) {
-  return wyhash::FastestHash(s.data(), s.size(), h);
+  return s.empty() ? h : wyhash::FastestHash(s.data(), s.size(), h);
 }
 
 template <std::size_t N>
 constexpr hash_t hash(const char (&str)[N],
                       hash_t const h = BASE_HASH) noexcept {
-  return wyhash::FastestHash(str, N - 1U, h);
+  return N == 1U ? h : wyhash::FastestHash(str, N - 1U, h);
 }
 
 template <typename T>
-- 
2.43.0


From f88ff386b3f3b3f5611c0f93211a98fd7a9aa8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 51/84] fix: 0.0 and -0.0 have the same hash with XXH3 and
 wyhash

---
 include/cista/hashing.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index 98583ff..a6b144f 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -106,6 +106,8 @@ struct hashing {
       return el.size() == 0U
                  ? seed
                  : hash(std::string_view{&(*begin(el)), el.size()}, seed);
+    } else if constexpr (std::is_floating_point_v<Type>) {
+      return hash_combine(seed, el == Type{0} ? Type{0} : el);  // -0.0 == 0.0
     } else if constexpr (std::is_scalar_v<Type>) {
       return hash_combine(seed, el);
     } else if constexpr (has_std_hash_v<Type>) {
-- 
2.43.0


From b43249b7bac44344abe8e4f441d614e37eeeff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 52/84] fix: lookup by an integer of another type than the key

---
 include/cista/hashing.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index a6b144f..72f25c8 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -86,9 +86,14 @@ struct hashing {
   }
 
   template <typename T1>
-  static constexpr hashing<T1> create() noexcept {
+  static constexpr auto create() noexcept {
     static_assert(is_hash_equivalent<T, T1>(), "Incompatible types");
-    return hashing<T1>{};
+    if constexpr (std::is_integral_v<decay_t<T>> &&
+                  std::is_integral_v<decay_t<T1>>) {
+      return hashing<T>{};  // same hash for equal integers of different types
+    } else {
+      return hashing<T1>{};
+    }
   }
 
   constexpr hash_t operator()(T const& el,
-- 
2.43.0


From 5c919a24bbb55c7f50d47b3fff0084e4f70ecfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 53/84] fix: unused bits influence neither hash nor equal_to of
 bitset and bitvec

---
 include/cista/containers/bitset.h | 23 +++++++++++++++++++++++
 include/cista/containers/bitvec.h | 27 +++++++++++++++++++++++++++
 include/cista/equal_to.h          | 11 +++++++++--
 3 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/bitset.h b/include/cista/containers/bitset.h
index bb0447a..f68265e 100644
--- a/include/cista/containers/bitset.h
+++ b/include/cista/containers/bitset.h
@@ -12,6 +12,8 @@
 
 #include "cista/bit_counting.h"
 #include "cista/containers/array.h"
+#include "cista/equal_to.h"
+#include "cista/hashing.h"
 
 namespace cista {
 
@@ -316,6 +318,27 @@ struct bitset {
   cista::array<block_t, num_blocks> blocks_{};
 };
 
+// Bits beyond the size influence neither hash nor equality.
+template <std::size_t Size>
+struct hashing<bitset<Size>> {
+  constexpr hash_t operator()(bitset<Size> const& el,
+                              hash_t const seed = BASE_HASH) const {
+    auto h = seed;
+    for (std::size_t i = 0U; i != bitset<Size>::num_blocks - 1U; ++i) {
+      h = hash_combine(h, el.blocks_[i]);
+    }
+    return hash_combine(h, el.sanitized_last_block());
+  }
+};
+
+template <std::size_t Size>
+struct equal_to<bitset<Size>> {
+  constexpr bool operator()(bitset<Size> const& a,
+                            bitset<Size> const& b) const {
+    return a == b;
+  }
+};
+
 }  // namespace cista
 
 #if defined(CISTA_FMT)
diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index f4d1d6f..a8daabc 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -15,6 +15,8 @@
 #include "cista/atomic.h"
 #include "cista/bit_counting.h"
 #include "cista/containers/vector.h"
+#include "cista/equal_to.h"
+#include "cista/hashing.h"
 #include "cista/strong.h"
 
 namespace cista {
@@ -483,6 +485,31 @@ struct basic_bitvec {
   Vec blocks_;
 };
 
+// Bits beyond the size influence neither hash nor equality.
+template <typename Vec, typename Key>
+struct hashing<basic_bitvec<Vec, Key>> {
+  hash_t operator()(basic_bitvec<Vec, Key> const& el,
+                    hash_t const seed = BASE_HASH) const {
+    auto h = hash_combine(seed, el.size_);
+    if (el.empty()) {
+      return h;
+    }
+    using size_type = typename basic_bitvec<Vec, Key>::size_type;
+    for (auto i = size_type{0U}; i != el.blocks_.size() - 1; ++i) {
+      h = hash_combine(h, el.blocks_[i]);
+    }
+    return hash_combine(h, el.sanitized_last_block());
+  }
+};
+
+template <typename Vec, typename Key>
+struct equal_to<basic_bitvec<Vec, Key>> {
+  bool operator()(basic_bitvec<Vec, Key> const& a,
+                  basic_bitvec<Vec, Key> const& b) const {
+    return a == b;
+  }
+};
+
 namespace offset {
 using bitvec = basic_bitvec<vector<std::uint64_t>>;
 }
diff --git a/include/cista/equal_to.h b/include/cista/equal_to.h
index b8210ef..040f8d2 100644
--- a/include/cista/equal_to.h
+++ b/include/cista/equal_to.h
@@ -55,11 +55,18 @@ struct equal_to {
       using std::end;
       auto const eq = std::equal(
           begin(a), end(a), begin(b), end(b),
-          [](auto&& x, auto&& y) { return equal_to<decltype(x)>{}(x, y); });
+          [](auto&& x, auto&& y) {
+            return equal_to<decay_t<decltype(x)>>{}(x, y);
+          });
       return eq;
     } else if constexpr (to_tuple_works_v<Type> && to_tuple_works_v<Type1>) {
       return tuple_equal(
-          [](auto&& x, auto&& y) { return equal_to<decltype(x)>{}(x, y); },
+          [](auto&& x, auto&& y) {
+            using X = decay_t<decltype(x)>;
+            using Y = decay_t<decltype(y)>;
+            return equal_to<X>{}(static_cast<X const&>(x),
+                                 static_cast<Y const&>(y));
+          },
           to_tuple(a), to_tuple(b));
     } else if constexpr (is_eq_comparable_v<Type, Type1>) {
       return a == b;
-- 
2.43.0


From 04187da69461d73643a778cc5a9060fb2bff4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 54/84] fix: hash and equal_to of hash tables do not depend on
 their layout

---
 include/cista/containers/hash_storage.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 7663221..57f5565 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -12,8 +12,10 @@
 #include "cista/bit_counting.h"
 #include "cista/containers/ptr.h"
 #include "cista/decay.h"
+#include "cista/equal_to.h"
 #include "cista/exception.h"
 #include "cista/hash.h"
+#include "cista/hashing.h"
 
 namespace cista {
 
@@ -678,4 +680,26 @@ struct hash_storage {
   bool self_allocated_{false};
 };
 
+// Tables with equal entries are equal, independent of their layout.
+template <typename T, template <typename> typename Ptr, typename GetKey,
+          typename GetValue, typename Hash, typename Eq>
+struct hashing<hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>> {
+  hash_t operator()(
+      hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq> const& el,
+      hash_t const seed = BASE_HASH) const {
+    auto sum = hash_t{0U};
+    for (auto const& entry : el) {
+      sum += hashing<T>{}(entry, BASE_HASH);
+    }
+    return hash_combine(seed, el.size(), sum);
+  }
+};
+
+template <typename T, template <typename> typename Ptr, typename GetKey,
+          typename GetValue, typename Hash, typename Eq>
+struct equal_to<hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>> {
+  using table_t = hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>;
+  bool operator()(table_t const& a, table_t const& b) const { return a == b; }
+};
+
 }  // namespace cista
-- 
2.43.0


From 43f084221c65f3b485c015636d22b4e6dfd565bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 55/84] fix: checked deserialization verifies the size of a
 bitvec

---
 include/cista/serialization.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index fa365d9..00b217e 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -742,6 +742,10 @@ void recurse(Ctx& c, T* el, Fn&& fn) {
   }
 }
 
+// Consistency of el's members (called after the members have been checked).
+template <typename Ctx, typename T>
+void check_content(Ctx const&, T*) {}
+
 template <typename Ctx, typename T>
 void deserialize(Ctx const& c, T* el) {
   c.check_ptr(el);
@@ -752,6 +756,9 @@ void deserialize(Ctx const& c, T* el) {
     check_state(c, el);
   }
   recurse(c, el, [&](auto* entry) { deserialize(c, entry); });
+  if constexpr (is_mode_disabled(Ctx::MODE, mode::UNCHECKED)) {
+    check_content(c, el);
+  }
 }
 
 // --- PAIR<A,B> ---
@@ -1054,6 +1061,14 @@ void recurse(Ctx&, bitset<Size>* el, Fn&& fn) {
   fn(&el->blocks_);
 }
 
+// --- BITVEC ---
+template <typename Ctx, typename Vec, typename Key>
+void check_content(Ctx const& c, basic_bitvec<Vec, Key>* el) {
+  using Type = basic_bitvec<Vec, Key>;
+  c.require(Type::num_blocks(el->size_) <= el->blocks_.size(),
+            "bitvec: size > number of bits");
+}
+
 // --- ARRAY<T> ---
 template <typename Ctx, typename T, std::size_t Size, typename Fn>
 void recurse(Ctx&, array<T, Size>* el, Fn&& fn) {
-- 
2.43.0


From 8fa6bb799ef1b0574177240c1eb1159e5fefa026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 56/84] fix: checked deserialization verifies the index of a
 fws_multimap

---
 include/cista/serialization.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 00b217e..676a9e9 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -952,6 +952,18 @@ void recurse(Ctx&, basic_unique_ptr<T, Ptr>* el, Fn&& fn) {
   }
 }
 
+// --- FWS_MULTIMAP ---
+template <typename Ctx, typename DataVec, typename IndexVec>
+void check_content(Ctx const& c, fws_multimap<DataVec, IndexVec>* el) {
+  c.check_bool(el->complete_);
+  c.require(std::is_sorted(el->index_.begin(), el->index_.end()) &&
+                (el->index_.empty() ||
+                 to_idx(el->index_.back()) <= el->data_.size()),
+            "fws_multimap: index");
+  c.require(to_idx(el->current_start_) <= el->data_.size(),
+            "fws_multimap: current start");
+}
+
 // --- MUTABLE_FWS_MULTIMAP<T> ---
 template <typename Ctx, typename T, typename SizeType,
           template <typename> typename Vec, std::size_t Log2MaxEntriesPerBucket,
-- 
2.43.0


From ee87b47ef7582c16c23c77f3ef9d60ffbd96634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 57/84] fix: checked deserialization verifies the bucket starts
 of a vecvec

---
 include/cista/serialization.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 676a9e9..ebc20f7 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -964,6 +964,15 @@ void check_content(Ctx const& c, fws_multimap<DataVec, IndexVec>* el) {
             "fws_multimap: current start");
 }
 
+// --- VECVEC ---
+template <typename Ctx, typename Key, typename DataVec, typename IndexVec>
+void check_content(Ctx const& c, basic_vecvec<Key, DataVec, IndexVec>* el) {
+  auto const& starts = el->bucket_starts_;
+  c.require(std::is_sorted(starts.begin(), starts.end()) &&
+                (starts.empty() || to_idx(starts.back()) <= el->data_.size()),
+            "vecvec: bucket starts");
+}
+
 // --- MUTABLE_FWS_MULTIMAP<T> ---
 template <typename Ctx, typename T, typename SizeType,
           template <typename> typename Vec, std::size_t Log2MaxEntriesPerBucket,
-- 
2.43.0


From 74199c625c8dc72a40b25a5de8c71771f985c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 58/84] fix: checked deserialization verifies the indices of a
 nvec

---
 include/cista/serialization.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index ebc20f7..094cf48 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -973,6 +973,20 @@ void check_content(Ctx const& c, basic_vecvec<Key, DataVec, IndexVec>* el) {
             "vecvec: bucket starts");
 }
 
+// --- NVEC ---
+template <typename Ctx, typename Key, typename DataVec, typename IndexVec,
+          std::size_t N, typename SizeType>
+void check_content(Ctx const& c,
+                   basic_nvec<Key, DataVec, IndexVec, N, SizeType>* el) {
+  auto entries = static_cast<std::size_t>(el->data_.size());
+  for (auto const& index : el->index_) {
+    c.require(std::is_sorted(index.begin(), index.end()) &&
+                  (index.empty() || to_idx(index.back()) <= entries),
+              "nvec: index");
+    entries = index.empty() ? 0U : static_cast<std::size_t>(index.size() - 1U);
+  }
+}
+
 // --- MUTABLE_FWS_MULTIMAP<T> ---
 template <typename Ctx, typename T, typename SizeType,
           template <typename> typename Vec, std::size_t Log2MaxEntriesPerBucket,
-- 
2.43.0


From 8bfaa4f54736bf6b42825f5ea734c4e1c8980a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 59/84] fix: checked deserialization verifies the buckets of a
 mutable_fws_multimap

---
 include/cista/serialization.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 094cf48..6d0e36b 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1001,6 +1001,27 @@ void recurse(
   fn(&el->element_count_);
 }
 
+template <typename Ctx, typename T, typename SizeType,
+          template <typename> typename Vec, std::size_t Log2MaxEntriesPerBucket>
+void check_content(
+    Ctx const& c,
+    dynamic_fws_multimap_base<T, SizeType, Vec, Log2MaxEntriesPerBucket>* el) {
+  auto const data_size = static_cast<std::size_t>(el->data_.size());
+  auto const is_valid = [&](auto const& b) {
+    return b.size_ <= b.capacity_ && b.capacity_ <= data_size &&
+           b.begin_ <= data_size - b.capacity_;
+  };
+  for (auto const& b : el->index_) {
+    c.require(is_valid(b), "mutable_fws_multimap: bucket");
+  }
+  for (auto i = std::size_t{0U}; i != el->free_buckets_.size(); ++i) {
+    for (auto const& b : el->free_buckets_[i]) {
+      c.require(is_valid(b) && b.capacity_ == std::size_t{1U} << i,
+                "mutable_fws_multimap: free bucket");
+    }
+  }
+}
+
 // --- HASH_STORAGE<T> ---
 template <typename Ctx, typename T, template <typename> typename Ptr,
           typename GetKey, typename GetValue, typename Hash, typename Eq>
-- 
2.43.0


From 3ca4f1d5554aa3c094445f5e528301505975ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 60/84] fix: checked deserialization verifies pages and free
 lists of paged and paged_vecvec

---
 include/cista/serialization.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 6d0e36b..fc22bf2 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1022,6 +1022,37 @@ void check_content(
   }
 }
 
+// --- PAGED ---
+template <typename Ctx, typename DataVec, typename SizeType,
+          typename PageSizeType, PageSizeType MinPageSize,
+          PageSizeType MaxPageSize>
+void check_content(Ctx const& c, paged<DataVec, SizeType, PageSizeType,
+                                       MinPageSize, MaxPageSize>* el) {
+  auto const data_size = static_cast<std::size_t>(el->data_.size());
+  auto capacity = static_cast<std::size_t>(MinPageSize);
+  auto free_size = std::size_t{0U};
+  for (auto node : el->free_list_) {
+    while (!node.empty()) {
+      c.require(capacity <= data_size && node.next_ <= data_size - capacity,
+                "paged: free page");
+      free_size += capacity;  // a page cannot be in a free list twice
+      c.require(free_size <= data_size, "paged: free list");
+      node.next_ = el->template read<SizeType>(node.next_);
+    }
+    capacity *= 2U;
+  }
+}
+
+template <typename Ctx, typename Index, typename Paged, typename Key>
+void check_content(Ctx const& c, paged_vecvec<Index, Paged, Key>* el) {
+  auto const data_size = static_cast<std::size_t>(el->paged_.data_.size());
+  for (auto const& p : el->idx_) {
+    c.require(p.size_ <= p.capacity_ && p.capacity_ <= data_size &&
+                  p.start_ <= data_size - p.capacity_,
+              "paged_vecvec: page");
+  }
+}
+
 // --- HASH_STORAGE<T> ---
 template <typename Ctx, typename T, template <typename> typename Ptr,
           typename GetKey, typename GetValue, typename Hash, typename Eq>
-- 
2.43.0


From 71bd98dcb97278bc083bafebae0d9438cc8094b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 61/84] fix: checked deserialization verifies the dimensions of
 a flat_matrix

---
 include/cista/containers/flat_matrix.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 8f866cc..7a60f0b 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -162,6 +162,13 @@ struct base_flat_matrix {
   Vector entries_;
 };
 
+template <typename Ctx, typename Vector>
+void check_content(Ctx const& c, base_flat_matrix<Vector>* el) {
+  c.require(el->n_columns_ == 0U ||
+                el->n_rows_ <= el->entries_.size() / el->n_columns_,
+            "flat_matrix: size");
+}
+
 namespace offset {
 
 template <typename T>
-- 
2.43.0


From 298616647b65a62d95847ff3e2b7db11d4de7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 62/84] fix: checked deserialization verifies the nodes of a
 rtree

---
 include/cista/serialization.h | 46 +++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index fc22bf2..61d8748 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1053,6 +1053,52 @@ void check_content(Ctx const& c, paged_vecvec<Index, Paged, Key>* el) {
   }
 }
 
+// --- RTREE ---
+template <typename Ctx, typename DataType,
+          template <typename, typename...> typename VectorType,
+          std::uint32_t Dims, typename NumType, std::uint32_t MaxItems,
+          typename SizeType>
+void check_content(
+    Ctx const& c,
+    basic_rtree<DataType, VectorType, Dims, NumType, MaxItems, SizeType>* el) {
+  using Type = decay_t<remove_pointer_t<decltype(el)>>;
+  using node_idx_t = typename Type::node_idx_t;
+
+  // Every node is part of the tree or of the free list at most once.
+  auto visited = std::vector<bool>(static_cast<std::size_t>(el->nodes_.size()));
+  auto const visit = [&](node_idx_t const n) {
+    c.require(to_idx(n) < visited.size() && !visited[to_idx(n)], "rtree: node");
+    visited[to_idx(n)] = true;
+    return n;
+  };
+
+  auto todo = std::vector<node_idx_t>{};
+  if (el->m_.root_ != node_idx_t::invalid()) {
+    todo.emplace_back(visit(el->m_.root_));
+  }
+  while (!todo.empty()) {
+    auto const& n = el->get_node(todo.back());
+    todo.pop_back();
+    c.require(
+        n.kind_ == Type::kind::kLeaf || n.kind_ == Type::kind::kBranch,
+        "rtree: node kind");
+    c.require(n.count_ <= MaxItems, "rtree: node size");
+    if (n.kind_ == Type::kind::kBranch) {
+      for (auto i = 0U; i != n.count_; ++i) {
+        todo.emplace_back(visit(n.children_[i]));
+      }
+    }
+  }
+
+  auto free = el->m_.free_list_;
+  while (free != node_idx_t::invalid()) {
+    auto const& n = el->get_node(visit(free));
+    free = n.kind_ == Type::kind::kEndFreeList
+               ? node_idx_t::invalid()
+               : node_idx_t{static_cast<SizeType>(n.count_)};
+  }
+}
+
 // --- HASH_STORAGE<T> ---
 template <typename Ctx, typename T, template <typename> typename Ptr,
           typename GetKey, typename GetValue, typename Hash, typename Eq>
-- 
2.43.0


From 1188fc15de1de04eb19c00c444672d0cf0bc5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 63/84] fix: checked deserialization rejects hash tables
 without an empty slot

---
 include/cista/serialization.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 61d8748..09a3fbb 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1172,9 +1172,9 @@ void check_state(Ctx const& c,
   c.require(el->size_ == total_full, "hash storage: size");
   c.require(total_empty + total_full + total_deleted == el->capacity_,
             "hash storage: empty + full + deleted = capacity");
-  c.require(Type::capacity_to_growth(el->capacity_) - total_full -
-                    total_deleted ==
-                el->growth_left_,
+  auto const growth = Type::capacity_to_growth(el->capacity_);
+  c.require(total_full <= growth && total_deleted <= growth - total_full &&
+                growth - total_full - total_deleted == el->growth_left_,
             "hash storage: growth left");
 }
 
-- 
2.43.0


From c1230c0e4d118eff8cf1c26b47b7c91a55ee3db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 64/84] fix: checked deserialization rejects containers that
 contain themselves

---
 include/cista/serialization.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 09a3fbb..e607e91 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -656,6 +656,15 @@ struct deserialization_context {
     verify(condition, msg);
   }
 
+  // Owned data is written behind its owner: no object can contain itself.
+  template <typename Owner>
+  void check_behind(Owner const* owner, void const* data) const {
+    require(data == nullptr ||
+                reinterpret_cast<uintptr_t>(data) >=
+                    reinterpret_cast<uintptr_t>(owner) + sizeof(Owner),
+            "owned data before owner");
+  }
+
   intptr_t from_, to_;
 };
 
@@ -819,6 +828,7 @@ void check_state(Ctx const& c,
   c.require(!el->self_allocated_, "vec self-allocated");
   c.require(el->allocated_size_ == el->used_size_, "vec size mismatch");
   c.require((el->size() == 0U) == (el->el_ == nullptr), "vec size=0 <=> ptr=0");
+  c.check_behind(el, ptr_cast(el->el_));
 }
 
 template <typename Ctx, typename T, template <typename> typename Ptr,
@@ -943,6 +953,7 @@ template <typename Ctx, typename T, typename Ptr>
 void check_state(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
   c.check_bool(el->self_allocated_);
   c.require(!el->self_allocated_, "unique_ptr self-allocated");
+  c.check_behind(el, ptr_cast(el->el_));
 }
 
 template <typename Ctx, typename T, typename Ptr, typename Fn>
@@ -1137,6 +1148,7 @@ void check_state(Ctx const& c,
 
   c.check_bool(el->self_allocated_);
   c.require(!el->self_allocated_, "hash storage: self-allocated");
+  c.check_behind(el, ptr_cast(el->entries_));
 
   c.require(el->ctrl_[el->capacity_] == Type::END,
             "hash storage: end ctrl byte");
-- 
2.43.0


From 106fca6a463007346493181ced14ccad7015236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 65/84] fix: static type hash of mutually recursive types

---
 include/cista/type_hash/static_type_hash.h | 69 +++++++++++-----------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index e396a3b..6949ece 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -91,14 +91,15 @@ constexpr hash_data<NMaxTypes> static_type_hash(T const*,
                                                 hash_data<NMaxTypes>) noexcept;
 
 template <typename Tuple, std::size_t NMaxTypes, std::size_t I>
-constexpr auto hash_tuple_element(hash_data<NMaxTypes> const h) noexcept {
+constexpr hash_data<NMaxTypes> hash_tuple_element(
+    hash_data<NMaxTypes> const h) noexcept {
   using element_type = std::decay_t<std::tuple_element_t<I, Tuple>>;
   return static_type_hash(null<element_type>(), h);
 }
 
 template <typename Tuple, std::size_t NMaxTypes, std::size_t... I>
-constexpr auto hash_tuple(Tuple const*, hash_data<NMaxTypes> h,
-                          std::index_sequence<I...>) noexcept {
+constexpr hash_data<NMaxTypes> hash_tuple(Tuple const*, hash_data<NMaxTypes> h,
+                                          std::index_sequence<I...>) noexcept {
   ((h = hash_tuple_element<Tuple, NMaxTypes, I>(h)), ...);
   return h;
 }
@@ -136,8 +137,9 @@ constexpr hash_data<NMaxTypes> static_type_hash(
 }
 
 template <typename Rep, typename Period, std::size_t NMaxTypes>
-constexpr auto static_type_hash(std::chrono::duration<Rep, Period> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    std::chrono::duration<Rep, Period> const*,
+    hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("duration"));
   h = static_type_hash(null<Rep>(), h);
   h = static_type_hash(null<Period>(), h);
@@ -145,8 +147,8 @@ constexpr auto static_type_hash(std::chrono::duration<Rep, Period> const*,
 }
 
 template <typename A, typename B, std::size_t NMaxTypes>
-constexpr auto static_type_hash(std::pair<A, B> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    std::pair<A, B> const*, hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("pair"));
   h = static_type_hash(null<A>(), h);
   h = static_type_hash(null<B>(), h);
@@ -154,8 +156,9 @@ constexpr auto static_type_hash(std::pair<A, B> const*,
 }
 
 template <typename Clock, typename Duration, std::size_t NMaxTypes>
-constexpr auto static_type_hash(std::chrono::time_point<Clock, Duration> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    std::chrono::time_point<Clock, Duration> const*,
+    hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("timepoint"));
   h = static_type_hash(null<Duration>(), h);
   h = static_type_hash(null<Clock>(), h);
@@ -163,15 +166,15 @@ constexpr auto static_type_hash(std::chrono::time_point<Clock, Duration> const*,
 }
 
 template <typename T, std::size_t Size, std::size_t NMaxTypes>
-constexpr auto static_type_hash(array<T, Size> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    array<T, Size> const*, hash_data<NMaxTypes> h) noexcept {
   h = static_type_hash(null<T>(), h);
   return h.combine(hash("array")).combine(Size);
 }
 
 template <typename T, template <typename> typename Ptr, bool Indexed,
           typename TemplateSizeType, std::size_t NMaxTypes>
-constexpr auto static_type_hash(
+constexpr hash_data<NMaxTypes> static_type_hash(
     basic_vector<T, Ptr, Indexed, TemplateSizeType> const*,
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("vector"));
@@ -179,15 +182,15 @@ constexpr auto static_type_hash(
 }
 
 template <typename T, typename Ptr, std::size_t NMaxTypes>
-constexpr auto static_type_hash(basic_unique_ptr<T, Ptr> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    basic_unique_ptr<T, Ptr> const*, hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("unique_ptr"));
   return static_type_hash(null<T>(), h);
 }
 
 template <typename T, template <typename> typename Ptr, typename GetKey,
           typename GetValue, typename Hash, typename Eq, std::size_t NMaxTypes>
-constexpr auto static_type_hash(
+constexpr hash_data<NMaxTypes> static_type_hash(
     hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq> const*,
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("hash_storage"));
@@ -195,55 +198,55 @@ constexpr auto static_type_hash(
 }
 
 template <std::size_t NMaxTypes, typename... T>
-constexpr auto static_type_hash(variant<T...> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    variant<T...> const*, hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("variant"));
   ((h = static_type_hash(null<T>(), h)), ...);
   return h;
 }
 
 template <std::size_t NMaxTypes, typename... T>
-constexpr auto static_type_hash(tuple<T...> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    tuple<T...> const*, hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("tuple"));
   ((h = static_type_hash(null<T>(), h)), ...);
   return h;
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
-constexpr auto static_type_hash(generic_string<Ptr> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    generic_string<Ptr> const*, hash_data<NMaxTypes> h) noexcept {
   return h.combine(hash("string"));
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
-constexpr auto static_type_hash(basic_string<Ptr> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    basic_string<Ptr> const*, hash_data<NMaxTypes> h) noexcept {
   return h.combine(hash("string"));
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
-constexpr auto static_type_hash(basic_string_view<Ptr> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    basic_string_view<Ptr> const*, hash_data<NMaxTypes> h) noexcept {
   return h.combine(hash("string"));
 }
 
 template <typename T, std::size_t NMaxTypes>
-constexpr auto static_type_hash(indexed<T> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    indexed<T> const*, hash_data<NMaxTypes> h) noexcept {
   return static_type_hash(null<T>(), h);
 }
 
 template <typename T, typename Tag, std::size_t NMaxTypes>
-constexpr auto static_type_hash(strong<T, Tag> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    strong<T, Tag> const*, hash_data<NMaxTypes> h) noexcept {
   h = static_type_hash(null<T>(), h);
   return h;
 }
 
 template <typename T, std::size_t NMaxTypes>
-constexpr auto static_type_hash(optional<T> const*,
-                                hash_data<NMaxTypes> h) noexcept {
+constexpr hash_data<NMaxTypes> static_type_hash(
+    optional<T> const*, hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("optional"));
   h = static_type_hash(null<T>(), h);
   return h;
@@ -251,7 +254,7 @@ constexpr auto static_type_hash(optional<T> const*,
 
 template <typename T, typename SizeType, template <typename> typename Vec,
           std::size_t Log2MaxEntriesPerBucket, std::size_t NMaxTypes>
-constexpr auto static_type_hash(
+constexpr hash_data<NMaxTypes> static_type_hash(
     dynamic_fws_multimap_base<T, SizeType, Vec, Log2MaxEntriesPerBucket> const*,
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("dynamic_fws_multimap"));
@@ -268,7 +271,7 @@ constexpr hash_t static_type_hash() noexcept {
 template <typename DataType, std::uint32_t Dims, typename NumType,
           unsigned MaxItems, typename SizeType, std::size_t NMaxTypes,
           template <typename, typename...> typename VectorType>
-constexpr auto static_type_hash(
+constexpr hash_data<NMaxTypes> static_type_hash(
     typename basic_rtree<DataType, VectorType, Dims, NumType, MaxItems,
                          SizeType>::node const*,
     hash_data<NMaxTypes> h) noexcept {
-- 
2.43.0


From 7a7209b3bca35c9a2cb20c5b722dc7931264635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 66/84] fix: static type hash distinguishes arrays of
 containers from containers of arrays

---
 include/cista/type_hash/static_type_hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index 6949ece..96e9907 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -168,8 +168,8 @@ constexpr hash_data<NMaxTypes> static_type_hash(
 template <typename T, std::size_t Size, std::size_t NMaxTypes>
 constexpr hash_data<NMaxTypes> static_type_hash(
     array<T, Size> const*, hash_data<NMaxTypes> h) noexcept {
-  h = static_type_hash(null<T>(), h);
-  return h.combine(hash("array")).combine(Size);
+  h = h.combine(hash("array")).combine(Size);
+  return static_type_hash(null<T>(), h);
 }
 
 template <typename T, template <typename> typename Ptr, bool Indexed,
-- 
2.43.0


From 2ae392176d279cf34adfe4f1234537869acb6934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 67/84] fix: static type hash distinguishes duration units and
 clocks

---
 include/cista/type_hash/static_type_hash.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index 96e9907..49a5157 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -142,8 +142,7 @@ constexpr hash_data<NMaxTypes> static_type_hash(
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("duration"));
   h = static_type_hash(null<Rep>(), h);
-  h = static_type_hash(null<Period>(), h);
-  return h;
+  return h.combine(hash(type_str<Period>()));
 }
 
 template <typename A, typename B, std::size_t NMaxTypes>
@@ -161,8 +160,7 @@ constexpr hash_data<NMaxTypes> static_type_hash(
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("timepoint"));
   h = static_type_hash(null<Duration>(), h);
-  h = static_type_hash(null<Clock>(), h);
-  return h;
+  return h.combine(hash(type_str<Clock>()));
 }
 
 template <typename T, std::size_t Size, std::size_t NMaxTypes>
-- 
2.43.0


From 043d8a573102d178e343497b1289fb1f5b3cbaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 68/84] fix: type hash distinguishes strings by character width

---
 include/cista/type_hash/static_type_hash.h | 15 ++++++++++++---
 include/cista/type_hash/type_hash.h        | 12 +++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index 49a5157..b4bd073 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -214,19 +214,28 @@ constexpr hash_data<NMaxTypes> static_type_hash(
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr hash_data<NMaxTypes> static_type_hash(
     generic_string<Ptr> const*, hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  using CharT = typename generic_string<Ptr>::CharT;
+  h = h.combine(hash("string"));
+  return sizeof(CharT) == 1U ? h
+                             : h.combine(hash("char")).combine(sizeof(CharT));
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr hash_data<NMaxTypes> static_type_hash(
     basic_string<Ptr> const*, hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  using CharT = typename basic_string<Ptr>::CharT;
+  h = h.combine(hash("string"));
+  return sizeof(CharT) == 1U ? h
+                             : h.combine(hash("char")).combine(sizeof(CharT));
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr hash_data<NMaxTypes> static_type_hash(
     basic_string_view<Ptr> const*, hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  using CharT = typename basic_string_view<Ptr>::CharT;
+  h = h.combine(hash("string"));
+  return sizeof(CharT) == 1U ? h
+                             : h.combine(hash("char")).combine(sizeof(CharT));
 }
 
 template <typename T, std::size_t NMaxTypes>
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 886026b..172b1c0 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -130,19 +130,25 @@ hash_t type_hash(tuple<T...> const&, hash_t h,
 template <typename Ptr>
 hash_t type_hash(generic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  using CharT = typename generic_string<Ptr>::CharT;
+  h = hash_combine(h, hash("string"));
+  return sizeof(CharT) == 1U ? h : hash_combine(h, hash("char"), sizeof(CharT));
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  using CharT = typename basic_string<Ptr>::CharT;
+  h = hash_combine(h, hash("string"));
+  return sizeof(CharT) == 1U ? h : hash_combine(h, hash("char"), sizeof(CharT));
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string_view<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  using CharT = typename basic_string_view<Ptr>::CharT;
+  h = hash_combine(h, hash("string"));
+  return sizeof(CharT) == 1U ? h : hash_combine(h, hash("char"), sizeof(CharT));
 }
 
 template <typename T>
-- 
2.43.0


From 537f817f3eebd6f4ca825fd3812c8986b42cca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 69/84] fix: type hash distinguishes vectors by the width of
 their size

---
 include/cista/type_hash/static_type_hash.h | 3 +++
 include/cista/type_hash/type_hash.h        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index b4bd073..199acab 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -176,6 +176,9 @@ constexpr hash_data<NMaxTypes> static_type_hash(
     basic_vector<T, Ptr, Indexed, TemplateSizeType> const*,
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = h.combine(hash("size")).combine(sizeof(TemplateSizeType));
+  }
   return static_type_hash(null<T>(), h);
 }
 
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 172b1c0..77d7912 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -93,6 +93,9 @@ template <typename T, template <typename> typename Ptr, bool Indexed,
 hash_t type_hash(basic_vector<T, Ptr, Indexed, TemplateSizeType> const&,
                  hash_t h, std::map<hash_t, unsigned>& done) noexcept {
   h = hash_combine(h, hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = hash_combine(h, hash("size"), sizeof(TemplateSizeType));
+  }
   return type_hash(T{}, h, done);
 }
 
-- 
2.43.0


From c13d3531f5657c03494746ea38e6604adddd7ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:42 +0000
Subject: [PATCH 70/84] fix: mode::CAST takes headers of the image into account

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index e607e91..6dbf4c2 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1275,7 +1275,7 @@ template <typename T, mode const Mode = mode::NONE>
 T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
   if constexpr (is_mode_enabled(Mode, mode::CAST)) {
     CISTA_UNUSED_PARAM(to)
-    return reinterpret_cast<T*>(from);
+    return reinterpret_cast<T*>(from + root_start<T>(Mode));
   } else {
     check<T, Mode>(from, to);
     auto const el = reinterpret_cast<T*>(from + root_start<T>(Mode));
-- 
2.43.0


From 4625e2d4427deabd828124176bf2538e621fef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 71/84] fix: file is closed if determining its size fails

---
 include/cista/targets/file.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index ef75941..128cefe 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -219,10 +219,11 @@ namespace cista {
 struct file {
   file() = default;
 
-  file(char const* path, char const* mode)
-      : f_{std::fopen(path, mode)}, size_{size()} {
+  file(char const* path, char const* mode) : file{} {
+    f_ = std::fopen(path, mode);
     verify_str(f_ != nullptr, std::string{"unable to open file: "} + path +
                                   " [mode=" + mode + "]");
+    size_ = size();
   }
 
   ~file() {
-- 
2.43.0


From 2e046940c0c41d32c5b9b8fd5e9f983b0f77fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 72/84] fix: file::size includes buffered writes

---
 include/cista/targets/file.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 128cefe..6818b07 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -265,6 +265,7 @@ struct file {
     if (f_ == nullptr) {
       return 0U;
     }
+    flush();  // size includes everything written so far
     struct stat s;
     verify(fstat(fd(), &s) != -1, "fstat error");
     return static_cast<std::size_t>(s.st_size);
@@ -329,6 +330,10 @@ struct file {
     return static_cast<offset_t>(curr_offset);
   }
 
+  void flush() const {
+    verify(f_ == nullptr || std::fflush(f_) == 0, "flush error");
+  }
+
   FILE* f_{nullptr};
   std::size_t size_{0U};
 };
-- 
2.43.0


From d99a067936873e9392f6ec4c7365efbe172d408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:03 +0000
Subject: [PATCH 73/84] fix: mmap keeps its content if growing fails

---
 include/cista/mmap.h | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index fc78612..400c0c3 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -40,7 +40,7 @@ struct mmap {
         prot_{prot},
         size_{f_.size()},
         used_size_{f_.size()},
-        addr_{size_ == 0U ? nullptr : map()} {}
+        addr_{size_ == 0U ? nullptr : map(size_)} {}
 
   ~mmap() { close(); }
 
@@ -132,7 +132,7 @@ private:
       unmap();
       size_ = used_size_;
       if (size_ != f_.size()) {
-        resize_file();
+        resize_file(size_);
       }
     }
   }
@@ -163,11 +163,11 @@ private:
 #endif
   }
 
-  void* map() {
+  void* map(std::size_t const size) {
 #ifdef _WIN32
-    auto const size_low = static_cast<DWORD>(size_);
+    auto const size_low = static_cast<DWORD>(size);
 #ifdef _WIN64
-    auto const size_high = static_cast<DWORD>(size_ >> 32U);
+    auto const size_high = static_cast<DWORD>(size >> 32U);
 #else
     auto const size_high = static_cast<DWORD>(0U);
 #endif
@@ -179,13 +179,13 @@ private:
 
     auto const addr = ::MapViewOfFile(
         fm, prot_ == protection::READ ? FILE_MAP_READ : FILE_MAP_WRITE, OFFSET,
-        OFFSET, size_);
+        OFFSET, size);
     verify(addr != nullptr, "map error");
 
     return addr;
 #else
     auto const addr =
-        ::mmap(nullptr, size_,
+        ::mmap(nullptr, size,
                prot_ == protection::READ ? PROT_READ : PROT_READ | PROT_WRITE,
                MAP_SHARED, f_.fd(), OFFSET);
     verify(addr != MAP_FAILED, "map error");
@@ -193,7 +193,7 @@ private:
 #endif
   }
 
-  void resize_file() {
+  void resize_file(std::size_t const new_size) {
     if (prot_ == protection::READ) {
       return;
     }
@@ -203,12 +203,12 @@ private:
     verify(::GetFileSizeEx(f_.f_, &Size), "resize: get file size error");
 
     LARGE_INTEGER Distance = {0};
-    Distance.QuadPart = size_ - Size.QuadPart;
+    Distance.QuadPart = new_size - Size.QuadPart;
     verify(::SetFilePointerEx(f_.f_, Distance, nullptr, FILE_END),
            "resize error");
     verify(::SetEndOfFile(f_.f_), "resize set eof error");
 #else
-    verify(::ftruncate(f_.fd(), static_cast<off_t>(size_)) == 0,
+    verify(::ftruncate(f_.fd(), static_cast<off_t>(new_size)) == 0,
            "resize error");
 #endif
   }
@@ -218,10 +218,19 @@ private:
       return;
     }
 
+#ifdef _WIN32
     unmap();
     size_ = new_size;
-    resize_file();
-    addr_ = map();
+    resize_file(new_size);
+    addr_ = map(new_size);
+#else
+    // The current mapping stays in place until the new one exists.
+    resize_file(new_size);
+    auto const new_addr = map(new_size);
+    unmap();
+    size_ = new_size;
+    addr_ = new_addr;
+#endif
   }
 
   file f_;
-- 
2.43.0


From 91b6a7ca5aba7de837bd9c20f5cae75c66900dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:40 +0000
Subject: [PATCH 74/84] fix: errors while closing a mmap are reported by
 close/write, not by the destructor

---
 include/cista/io.h   |  1 +
 include/cista/mmap.h | 32 +++++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/cista/io.h b/include/cista/io.h
index 431fd5a..2639ff5 100644
--- a/include/cista/io.h
+++ b/include/cista/io.h
@@ -22,6 +22,7 @@ void write(std::filesystem::path const& p, T const& w) {
       cista::mmap{p.generic_string().c_str(), cista::mmap::protection::WRITE};
   auto writer = cista::buf<cista::mmap>(std::move(mmap));
   cista::serialize<Mode>(writer, w);
+  writer.buf_.close();
 }
 
 template <mode Mode = kDefaultMode, typename T>
diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index 400c0c3..6c3dc5b 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -42,7 +42,18 @@ struct mmap {
         used_size_{f_.size()},
         addr_{size_ == 0U ? nullptr : map(size_)} {}
 
-  ~mmap() { close(); }
+  ~mmap() {
+    // Errors cannot be reported here, call close() to see them.
+#if !defined(__cpp_exceptions) || __cpp_exceptions < 199711L
+    close();
+#else
+    try {
+      close();
+    } catch (...) {
+      unmap();
+    }
+#endif
+  }
 
   mmap(mmap const&) = delete;
   mmap& operator=(mmap const&) = delete;
@@ -125,18 +136,21 @@ struct mmap {
     return data()[i];
   }
 
-private:
+  // If this throws, the mapping is still open.
   void close() {
-    if (addr_ != nullptr) {
-      sync();
-      unmap();
-      size_ = used_size_;
-      if (size_ != f_.size()) {
-        resize_file(size_);
-      }
+    sync();
+#ifdef _WIN32
+    unmap();
+#endif
+    if (prot_ != protection::READ && used_size_ != f_.size()) {
+      resize_file(used_size_);
     }
+    unmap();
+    f_ = file{};
+    release();
   }
 
+private:
   void release() noexcept {
     size_ = 0U;
     used_size_ = 0U;
-- 
2.43.0


From 09d674df2a71f737ac3d2ee14f4af20ce4c90f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:03 +0000
Subject: [PATCH 75/84] fix: serialize to a file reports errors of buffered
 writes

---
 include/cista/serialization.h | 4 ++++
 include/cista/targets/file.h  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 6dbf4c2..20ad5f1 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -529,6 +529,10 @@ void serialize(Target& t, T& value) {
         c.checksum(integrity_offset + static_cast<offset_t>(sizeof(hash_t)));
     c.write(integrity_offset, convert_endian<Mode>(csum));
   }
+
+  if constexpr (std::is_same_v<Target, file>) {
+    t.flush();  // report errors of buffered writes
+  }
 }
 
 template <mode const Mode = mode::NONE, typename T>
diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 6818b07..c9f318b 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -204,6 +204,8 @@ struct file {
     return offset;
   }
 
+  void flush() const {}  // not buffered
+
   HANDLE f_{nullptr};
   std::size_t size_{0U};
 };
-- 
2.43.0


From deb2ac447f88b57190097e89955b292c7d4734e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 76/84] fix: an error while computing the checksum of a file
 target does not terminate

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 20ad5f1..13c9f62 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -123,7 +123,7 @@ struct serialization_context {
                : std::nullopt;
   }
 
-  std::uint64_t checksum(offset_t const from) const noexcept {
+  std::uint64_t checksum(offset_t const from) const {
     return t_.checksum(from);
   }
 
-- 
2.43.0


From d47fa08413492d30c77e5f09ac7d519cdcf848bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:41 +0000
Subject: [PATCH 77/84] fix: wrapped destroys values it holds, reset of a
 mapped value does not write to it

---
 include/cista/memory_holder.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/cista/memory_holder.h b/include/cista/memory_holder.h
index 7bb0553..e6619d7 100755
--- a/include/cista/memory_holder.h
+++ b/include/cista/memory_holder.h
@@ -19,11 +19,26 @@ struct wrapped {
   }
   explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
 
+  wrapped(wrapped&&) = default;
+  wrapped& operator=(wrapped&& o) {
+    if (this != &o) {
+      reset();
+      mem_ = std::move(o.mem_);
+      el_ = std::move(o.el_);
+    }
+    return *this;
+  }
+
+  ~wrapped() { reset(); }
+
   void reset() {
     if (el_.self_allocated_) {
       el_.reset();
     } else if (el_ != nullptr) {
-      el_->~T();
+      // Destroying a mapped value would write to the file.
+      if (!std::holds_alternative<buf<mmap>>(mem_)) {
+        el_->~T();
+      }
       el_ = nullptr;
     }
     if (std::holds_alternative<buffer>(mem_)) {
-- 
2.43.0


From 0a3925f7b08275bce273f99e84c5b98f2675a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:05 +0000
Subject: [PATCH 78/84] fix: vector stays valid and leaks nothing if
 constructing an element throws

---
 include/cista/containers/vector.h | 79 ++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 43c143c..788e403 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -40,26 +40,30 @@ struct basic_vector {
   explicit basic_vector(allocator_type const&) noexcept {}
   basic_vector() noexcept = default;
 
+  // Delegating constructors: the destructor runs if filling the vector throws.
   explicit basic_vector(size_type const size,
-                        Allocator const& alloc = Allocator{}) {
+                        Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     resize(size);
   }
 
   explicit basic_vector(size_type const size, T init,
-                        Allocator const& alloc = Allocator{}) {
+                        Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     resize(size, std::move(init));
   }
 
   basic_vector(std::initializer_list<T> init,
-               Allocator const& alloc = Allocator{}) {
+               Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     set(init.begin(), init.end());
   }
 
   template <typename It>
-  basic_vector(It begin_it, It end_it) {
+  basic_vector(It begin_it, It end_it) : basic_vector() {
     set(begin_it, end_it);
   }
 
@@ -72,7 +76,8 @@ struct basic_vector {
     o.reset();
   }
 
-  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{}) {
+  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     set(o);
   }
@@ -182,9 +187,8 @@ struct basic_vector {
     auto copy_target = el_;
     for (; copy_source != end_it; ++copy_source, ++copy_target) {
       new (copy_target) T{std::forward<decltype(*copy_source)>(*copy_source)};
+      ++used_size_;
     }
-
-    used_size_ = static_cast<size_type>(range_size);
   }
 
   void set(basic_vector const& arr) {
@@ -266,6 +270,18 @@ struct basic_vector {
     reserve(used_size_ + new_count);
     pos = begin() + pos_idx;
 
+    if constexpr (!std::is_nothrow_constructible_v<T, decltype(*first)> ||
+                  !std::is_nothrow_assignable_v<T&, decltype(*first)>) {
+      // Do not leave a gap behind if constructing an element throws.
+      auto const old_size = used_size_;
+      for (; !(first == last); ++first) {
+        new (el_ + used_size_) T(std::forward<decltype(*first)>(*first));
+        ++used_size_;
+      }
+      std::rotate(pos, begin() + old_size, end());
+      return pos;
+    }
+
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
          !(src_last == pos - 1); --src_last, --dest_last) {
       if (dest_last >= end()) {
@@ -288,8 +304,8 @@ struct basic_vector {
     return pos;
   }
 
-  template <class It, typename = typename std::iterator_traits<
-                          It>::iterator_category>
+  template <class It,
+            typename = typename std::iterator_traits<It>::iterator_category>
   T* insert(T* pos, It first, It last) {
     return insert(pos, first, last,
                   typename std::iterator_traits<It>::iterator_category());
@@ -332,8 +348,9 @@ struct basic_vector {
 
   void resize(size_type const size) {
     reserve(size);
-    for (auto i = used_size_; i < size; ++i) {
-      new (el_ + i) T{};
+    while (used_size_ < size) {
+      new (el_ + used_size_) T{};
+      ++used_size_;
     }
     for (auto i = size; i < used_size_; ++i) {
       el_[i].~T();
@@ -343,8 +360,9 @@ struct basic_vector {
 
   void resize(size_type const size, T init) {
     reserve(size);
-    for (auto i = used_size_; i < size; ++i) {
-      new (el_ + i) T{init};
+    while (used_size_ < size) {
+      new (el_ + used_size_) T{init};
+      ++used_size_;
     }
     for (auto i = size; i < used_size_; ++i) {
       el_[i].~T();
@@ -381,17 +399,22 @@ struct basic_vector {
     }
 
     if (size() != 0) {
+      auto move_target = mem_buf;
       try {
-        auto move_target = mem_buf;
         for (auto& el : *this) {
-          new (move_target++) T(std::move(el));
-        }
-
-        for (auto& el : *this) {
-          el.~T();
+          new (move_target) T(std::move(el));
+          ++move_target;
         }
       } catch (...) {
-        assert(0);
+        while (move_target != mem_buf) {
+          (--move_target)->~T();
+        }
+        std::free(mem_buf);  // NOLINT
+        throw;
+      }
+
+      for (auto& el : *this) {
+        el.~T();
       }
     }
 
@@ -488,8 +511,8 @@ template <typename Key, typename Value>
 using vector_map = basic_vector<Value, ptr, false, Key>;
 
 template <typename It, typename UnaryOperation>
-auto to_vec(It s, It e, UnaryOperation&& op)
-    -> vector<decay_t<decltype(op(*s))>> {
+auto to_vec(It s, It e,
+            UnaryOperation&& op) -> vector<decay_t<decltype(op(*s))>> {
   vector<decay_t<decltype(op(*s))>> v;
   v.reserve(static_cast<typename decltype(v)::size_type>(std::distance(s, e)));
   std::transform(s, e, std::back_inserter(v), op);
@@ -497,8 +520,8 @@ auto to_vec(It s, It e, UnaryOperation&& op)
 }
 
 template <typename Container, typename UnaryOperation>
-auto to_vec(Container const& c, UnaryOperation&& op)
-    -> vector<decltype(op(*std::begin(c)))> {
+auto to_vec(Container const& c,
+            UnaryOperation&& op) -> vector<decltype(op(*std::begin(c)))> {
   vector<decltype(op(*std::begin(c)))> v;
   v.reserve(static_cast<typename decltype(v)::size_type>(
       std::distance(std::begin(c), std::end(c))));
@@ -557,8 +580,8 @@ template <typename Key, typename Value>
 using vector_map = basic_vector<Value, ptr, false, Key>;
 
 template <typename It, typename UnaryOperation>
-auto to_vec(It s, It e, UnaryOperation&& op)
-    -> vector<decay_t<decltype(op(*s))>> {
+auto to_vec(It s, It e,
+            UnaryOperation&& op) -> vector<decay_t<decltype(op(*s))>> {
   vector<decay_t<decltype(op(*s))>> v;
   v.reserve(static_cast<typename decltype(v)::size_type>(std::distance(s, e)));
   std::transform(s, e, std::back_inserter(v), op);
@@ -566,8 +589,8 @@ auto to_vec(It s, It e, UnaryOperation&& op)
 }
 
 template <typename Container, typename UnaryOperation>
-auto to_vec(Container&& c, UnaryOperation&& op)
-    -> vector<decltype(op(*std::begin(c)))> {
+auto to_vec(Container&& c,
+            UnaryOperation&& op) -> vector<decltype(op(*std::begin(c)))> {
   vector<decltype(op(*std::begin(c)))> v;
   v.reserve(static_cast<typename decltype(v)::size_type>(c.size()));
   std::transform(std::begin(c), std::end(c), std::back_inserter(v), op);
-- 
2.43.0


From 1a7d6ac41f7b085fac3f8b0133d7f69534449d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 79/84] fix: hash_storage stays valid if an allocation or
 constructing an entry fails

---
 include/cista/containers/hash_storage.h | 84 +++++++++++++++++--------
 1 file changed, 59 insertions(+), 25 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 57f5565..b2f8e2d 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -260,7 +260,8 @@ struct hash_storage {
 
   constexpr hash_storage() = default;
 
-  hash_storage(std::initializer_list<T> init) {
+  // Delegating constructors: the destructor runs if inserting throws.
+  hash_storage(std::initializer_list<T> init) : hash_storage() {
     insert(init.begin(), init.end());
   }
 
@@ -274,7 +275,7 @@ struct hash_storage {
     other.reset();
   }
 
-  hash_storage(hash_storage const& other) {
+  hash_storage(hash_storage const& other) : hash_storage() {
     if (other.size() != 0U) {
       for (const auto& v : other) {
         emplace(v);
@@ -320,7 +321,8 @@ struct hash_storage {
   mapped_type& bracket_operator_impl(Key&& key) {
     auto const res = find_or_prepare_insert(std::forward<Key>(key));
     if (res.second) {
-      new (entries_ + res.first) T{static_cast<key_type>(key), mapped_type{}};
+      construct(res.first,
+                [&] { return T{static_cast<key_type>(key), mapped_type{}}; });
     }
     return GetValue{}(entries_[res.first]);
   }
@@ -445,7 +447,7 @@ struct hash_storage {
     auto entry = T{std::forward<Args>(args)...};
     auto res = find_or_prepare_insert(GetKey()(entry));
     if (res.second) {
-      new (entries_ + res.first) T{std::move(entry)};
+      construct(res.first, [&] { return T{std::move(entry)}; });
     }
     return {iterator_at(res.first), res.second};
   }
@@ -551,6 +553,17 @@ struct hash_storage {
     return {prepare_insert(hash), true};
   }
 
+  // Constructs the entry for a prepared slot.
+  template <typename Fn>
+  void construct(size_type const i, Fn&& make_entry) {
+    try {
+      new (entries_ + i) T(make_entry());
+    } catch (...) {
+      erase_meta_only(iterator_at(i));
+      throw;
+    }
+  }
+
   find_info find_first_non_full(size_type const hash) const noexcept {
     for (auto seq = probe_seq{h1(hash), capacity_}; true; seq.next()) {
       auto const mask = group{ctrl_ + seq.offset_}.match_empty_or_deleted();
@@ -591,21 +604,23 @@ struct hash_storage {
     ctrl_[capacity_] = END;
   }
 
-  void initialize_entries() {
-    self_allocated_ = true;
-    auto const size = static_cast<size_type>(
-        capacity_ * sizeof(T) + (capacity_ + 1U + WIDTH) * sizeof(ctrl_t));
-    entries_ = reinterpret_cast<T*>(
-        CISTA_ALIGNED_ALLOC(ALIGNMENT, static_cast<std::size_t>(size)));
-    if (entries_ == nullptr) {
+  void initialize_entries(size_type const new_capacity) {
+    auto const size =
+        static_cast<size_type>(new_capacity * sizeof(T) +
+                               (new_capacity + 1U + WIDTH) * sizeof(ctrl_t));
+    auto const mem =
+        CISTA_ALIGNED_ALLOC(ALIGNMENT, static_cast<std::size_t>(size));
+    if (mem == nullptr) {
       throw_exception(std::bad_alloc{});
     }
 #if defined(CISTA_ZERO_OUT)
-    std::memset(entries_, 0, size);
+    std::memset(mem, 0, size);
 #endif
-    ctrl_ = reinterpret_cast<ctrl_t*>(
-        reinterpret_cast<std::uint8_t*>(ptr_cast(entries_)) +
-        capacity_ * sizeof(T));
+    self_allocated_ = true;
+    capacity_ = new_capacity;
+    entries_ = reinterpret_cast<T*>(mem);
+    ctrl_ = reinterpret_cast<ctrl_t*>(reinterpret_cast<std::uint8_t*>(mem) +
+                                      new_capacity * sizeof(T));
     reset_ctrl();
     reset_growth_left();
   }
@@ -614,18 +629,38 @@ struct hash_storage {
     auto const old_ctrl = ctrl_;
     auto const old_entries = entries_;
     auto const old_capacity = capacity_;
+    auto const old_growth_left = growth_left_;
     auto const old_self_allocated = self_allocated_;
 
-    capacity_ = new_capacity;
-    initialize_entries();
+    initialize_entries(new_capacity);
+
+    try {
+      for (size_type i = 0U; i != old_capacity; ++i) {
+        if (is_full(old_ctrl[i])) {
+          auto const hash = compute_hash(GetKey()(old_entries[i]));
+          auto const target = find_first_non_full(hash);
+          auto const new_index = target.offset_;
+          new (entries_ + new_index) T{std::move(old_entries[i])};
+          set_ctrl(new_index, h2(hash));
+        }
+      }
+    } catch (...) {
+      for (size_type i = 0U; i != new_capacity; ++i) {
+        if (is_full(ctrl_[i])) {
+          entries_[i].~T();
+        }
+      }
+      CISTA_ALIGNED_FREE(ALIGNMENT, entries_);
+      entries_ = old_entries;
+      ctrl_ = old_ctrl;
+      capacity_ = old_capacity;
+      growth_left_ = old_growth_left;
+      self_allocated_ = old_self_allocated;
+      throw;
+    }
 
     for (size_type i = 0U; i != old_capacity; ++i) {
       if (is_full(old_ctrl[i])) {
-        auto const hash = compute_hash(GetKey()(old_entries[i]));
-        auto const target = find_first_non_full(hash);
-        auto const new_index = target.offset_;
-        set_ctrl(new_index, h2(hash));
-        new (entries_ + new_index) T{std::move(old_entries[i])};
         old_entries[i].~T();
       }
     }
@@ -684,9 +719,8 @@ struct hash_storage {
 template <typename T, template <typename> typename Ptr, typename GetKey,
           typename GetValue, typename Hash, typename Eq>
 struct hashing<hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>> {
-  hash_t operator()(
-      hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq> const& el,
-      hash_t const seed = BASE_HASH) const {
+  hash_t operator()(hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq> const& el,
+                    hash_t const seed = BASE_HASH) const {
     auto sum = hash_t{0U};
     for (auto const& entry : el) {
       sum += hashing<T>{}(entry, BASE_HASH);
-- 
2.43.0


From 2b976b269499206188f94ef6323b9088096948e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 80/84] fix: vecvec does not mix elements of a failed
 emplace_back into the next bucket

---
 include/cista/containers/vecvec.h | 57 +++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index f7ab26c..ada9c5f 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -72,8 +72,10 @@ struct basic_vecvec {
 
     template <typename Args>
     void push_back(Args&& args) {
-      map_->data_.insert(std::next(std::begin(map_->data_), bucket_end_idx()),
-                         std::forward<Args>(args));
+      map_->restore_on_error([&] {
+        map_->data_.insert(std::next(std::begin(map_->data_), bucket_end_idx()),
+                           std::forward<Args>(args));
+      });
       for (auto i = i_ + 1; i != map_->bucket_starts_.size(); ++i) {
         ++map_->bucket_starts_[i];
       }
@@ -83,10 +85,12 @@ struct basic_vecvec {
       verify(n >= size(), "bucket::grow: new size < old size");
       auto const growth = n - size();
 
-      map_->data_.insert(
-          std::next(std::begin(map_->data_), bucket_end_idx()),
-          static_cast<typename decltype(map_->data_)::size_type>(growth),
-          value);
+      map_->restore_on_error([&] {
+        map_->data_.insert(
+            std::next(std::begin(map_->data_), bucket_end_idx()),
+            static_cast<typename decltype(map_->data_)::size_type>(growth),
+            value);
+      });
       for (auto i = i_ + 1; i != map_->bucket_starts_.size(); ++i) {
         map_->bucket_starts_[i] += growth;
       }
@@ -370,16 +374,20 @@ struct basic_vecvec {
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
-    append(std::forward<Container>(bucket));
-    bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    restore_on_error([&] {
+      append(std::forward<Container>(bucket));
+      bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    });
   }
 
   bucket add_back_sized(std::size_t const bucket_size) {
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
-    data_.resize(data_.size() + bucket_size);
-    bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    restore_on_error([&] {
+      data_.resize(data_.size() + bucket_size);
+      bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    });
     return at(Key{size() - 1U});
   }
 
@@ -389,11 +397,12 @@ struct basic_vecvec {
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
-    bucket_starts_.emplace_back(
-        static_cast<index_value_type>(data_.size() + x.size()));
-    data_.insert(std::end(data_),  //
-                 std::make_move_iterator(std::begin(x)),
-                 std::make_move_iterator(std::end(x)));
+    restore_on_error([&] {
+      data_.insert(std::end(data_),  //
+                   std::make_move_iterator(std::begin(x)),
+                   std::make_move_iterator(std::end(x)));
+      bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    });
   }
 
   template <typename T = data_value_type,
@@ -462,6 +471,24 @@ struct basic_vecvec {
     }
   }
 
+  // Elements added by a failed fn must not become part of the next bucket.
+  template <typename Fn>
+  void restore_on_error(Fn&& fn) {
+    auto const old_size = data_.size();
+    try {
+      fn();
+    } catch (...) {
+      if constexpr (std::is_default_constructible_v<data_value_type>) {
+        data_.resize(old_size);
+      } else {
+        while (data_.size() > old_size) {
+          data_.pop_back();
+        }
+      }
+      throw;
+    }
+  }
+
   DataVec data_;
   IndexVec bucket_starts_;
 };
-- 
2.43.0


From 25b36e7c86b9e6f3e5b1d1f19d259475e20881b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 81/84] fix: nvec keeps its content if adding an entry fails

---
 include/cista/containers/nvec.h | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index af1c3b1..274b04f 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -475,12 +475,33 @@ struct basic_nvec {
 
   template <typename Container>
   void emplace_back(Container&& bucket) {
-    if (index_[0].size() == 0U) {
-      for (auto& i : index_) {
+    for (auto& i : index_) {
+      if (i.size() == 0U) {
         i.push_back(0U);
       }
     }
-    add<N - 1>(std::forward<Container>(bucket));
+
+    auto old_sizes = array<std::size_t, N>{};
+    for (auto i = std::size_t{0U}; i != N; ++i) {
+      old_sizes[i] = index_[i].size();
+    }
+    auto const old_data_size = data_.size();
+    try {
+      add<N - 1>(std::forward<Container>(bucket));
+    } catch (...) {
+      for (auto i = std::size_t{0U}; i != N; ++i) {
+        index_[i].resize(
+            static_cast<typename IndexVec::size_type>(old_sizes[i]));
+      }
+      if constexpr (std::is_default_constructible_v<data_value_type>) {
+        data_.resize(old_data_size);
+      } else {
+        while (data_.size() > old_data_size) {
+          data_.pop_back();
+        }
+      }
+      throw;
+    }
   }
 
   iterator operator[](Key const k) { return begin() + to_idx(k); }
-- 
2.43.0


From b3fecd7de1d495ac01fe8fd1996650052f0932cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 82/84] fix: bitvec keeps size and blocks consistent if copy
 assignment fails

---
 include/cista/containers/bitvec.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index a8daabc..18257ef 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -37,6 +37,15 @@ struct basic_bitvec {
   constexpr basic_bitvec(Vec&& v, size_type const size)
       : size_{size},  // inaccurate for loading mmap vector
         blocks_{std::move(v)} {}
+  basic_bitvec(basic_bitvec const&) = default;
+  basic_bitvec(basic_bitvec&&) = default;
+  basic_bitvec& operator=(basic_bitvec const& o) {
+    blocks_ = o.blocks_;  // may throw
+    size_ = o.size_;
+    return *this;
+  }
+  basic_bitvec& operator=(basic_bitvec&&) = default;
+
   static constexpr basic_bitvec max(std::size_t const size) {
     basic_bitvec ret;
     ret.resize(size);
-- 
2.43.0


From b37bfcec8647e75371efa1c4b878adb21e9f3429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 83/84] fix: mutable_fws_multimap: a failed erase keeps the
 bucket and the element count

---
 include/cista/containers/mutable_fws_multimap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 59b6bc8..4dc7439 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -428,8 +428,9 @@ struct dynamic_fws_multimap_base {
 
   void erase(access_t const i) {
     if (to_idx(i) < index_.size()) {
-      element_count_ -= index_[to_idx(i)].size_;
+      auto const erased = index_[to_idx(i)].size_;
       release_bucket(index_[to_idx(i)]);
+      element_count_ -= erased;
     }
   }
 
@@ -572,8 +573,10 @@ struct dynamic_fws_multimap_base {
     if (bucket.capacity_ != 0U) {
       auto const order = get_order(bucket.capacity_);
       assert(order <= Log2MaxEntriesPerBucket);
+      auto free_bucket = index_type{bucket};
+      free_bucket.size_ = size_type{0U};
+      free_buckets_[to_idx(order)].push_back(free_bucket);  // NOLINT
       bucket.size_ = size_type{0U};
-      free_buckets_[to_idx(order)].push_back(index_type{bucket});  // NOLINT
       bucket.capacity_ = size_type{0U};
     }
   }
-- 
2.43.0


From 24f6f6fbda0a50bcb140c1ec99d94876ecef988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 84/84] fix: keep the line endings of variant.h and
 memory_holder.h

---
 include/cista/containers/variant.h | 994 ++++++++++++++---------------
 include/cista/memory_holder.h      | 144 ++---
 2 files changed, 569 insertions(+), 569 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 1701091..8fe24e9 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,497 +1,497 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant  const& o) {
-    if (!o.valid()) {
-      return clear();
-    }
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant && o) {
-    if (!o.valid()) {
-      return clear();
-    }
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
-                                     std::decay_t<Arg>>) {
-          el = std::forward<Arg>(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = NO_VALUE;
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = NO_VALUE;
-    auto& el = *(new (&storage_) std::decay_t<Arg>{
-        std::forward<CtorArgs>(ctor_args)...});
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return el;
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = NO_VALUE;
-    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-    idx_ = I;
-    return el;
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  variant& clear() {
-    destruct();
-    idx_ = NO_VALUE;
-    return *this;
-  }
-
-  void swap(variant& o) {
-    if (!valid() && !o.valid()) {
-      return;
-    }
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), idx,
-                               std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    if (!valid()) {
-      return hashing<std::size_t>{}(index(), BASE_HASH);
-    }
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      return clear();
+    }
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      return clear();
+    }
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = NO_VALUE;
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_) std::decay_t<Arg>{
+        std::forward<CtorArgs>(ctor_args)...});
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return el;
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+    idx_ = I;
+    return el;
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  variant& clear() {
+    destruct();
+    idx_ = NO_VALUE;
+    return *this;
+  }
+
+  void swap(variant& o) {
+    if (!valid() && !o.valid()) {
+      return;
+    }
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 15U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    if (!valid()) {
+      return hashing<std::size_t>{}(index(), BASE_HASH);
+    }
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
diff --git a/include/cista/memory_holder.h b/include/cista/memory_holder.h
index e6619d7..0b90987 100755
--- a/include/cista/memory_holder.h
+++ b/include/cista/memory_holder.h
@@ -1,72 +1,72 @@
-#pragma once
-
-#include <variant>
-
-#include "cista/buffer.h"
-#include "cista/containers/unique_ptr.h"
-#include "cista/mmap.h"
-#include "cista/targets/buf.h"
-
-namespace cista {
-
-using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
-
-template <typename T>
-struct wrapped {
-  wrapped() = default;
-  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
-    el_.self_allocated_ = false;
-  }
-  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
-
-  wrapped(wrapped&&) = default;
-  wrapped& operator=(wrapped&& o) {
-    if (this != &o) {
-      reset();
-      mem_ = std::move(o.mem_);
-      el_ = std::move(o.el_);
-    }
-    return *this;
-  }
-
-  ~wrapped() { reset(); }
-
-  void reset() {
-    if (el_.self_allocated_) {
-      el_.reset();
-    } else if (el_ != nullptr) {
-      // Destroying a mapped value would write to the file.
-      if (!std::holds_alternative<buf<mmap>>(mem_)) {
-        el_->~T();
-      }
-      el_ = nullptr;
-    }
-    if (std::holds_alternative<buffer>(mem_)) {
-      std::get<buffer>(mem_) = buffer{};
-    } else if (std::holds_alternative<byte_buf>(mem_)) {
-      std::get<byte_buf>(mem_) = byte_buf{};
-    }
-  }
-
-  friend bool operator==(wrapped const& x, std::nullptr_t) {
-    return x.el_ == nullptr;
-  }
-
-  operator bool() const { return el_.get() != nullptr; }
-  T* get() const noexcept { return el_.get(); }
-  T* operator->() noexcept { return el_.get(); }
-  T const* operator->() const noexcept { return el_.get(); }
-  T& operator*() noexcept { return *el_; }
-  T const& operator*() const noexcept { return *el_; }
-
-  memory_holder mem_;
-  raw::unique_ptr<T> el_;
-};
-
-template <typename T>
-wrapped(memory_holder, T*) -> wrapped<T>;
-
-template <typename T>
-wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
-
-}  // namespace cista
+#pragma once
+
+#include <variant>
+
+#include "cista/buffer.h"
+#include "cista/containers/unique_ptr.h"
+#include "cista/mmap.h"
+#include "cista/targets/buf.h"
+
+namespace cista {
+
+using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
+
+template <typename T>
+struct wrapped {
+  wrapped() = default;
+  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
+    el_.self_allocated_ = false;
+  }
+  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
+
+  wrapped(wrapped&&) = default;
+  wrapped& operator=(wrapped&& o) {
+    if (this != &o) {
+      reset();
+      mem_ = std::move(o.mem_);
+      el_ = std::move(o.el_);
+    }
+    return *this;
+  }
+
+  ~wrapped() { reset(); }
+
+  void reset() {
+    if (el_.self_allocated_) {
+      el_.reset();
+    } else if (el_ != nullptr) {
+      // Destroying a mapped value would write to the file.
+      if (!std::holds_alternative<buf<mmap>>(mem_)) {
+        el_->~T();
+      }
+      el_ = nullptr;
+    }
+    if (std::holds_alternative<buffer>(mem_)) {
+      std::get<buffer>(mem_) = buffer{};
+    } else if (std::holds_alternative<byte_buf>(mem_)) {
+      std::get<byte_buf>(mem_) = byte_buf{};
+    }
+  }
+
+  friend bool operator==(wrapped const& x, std::nullptr_t) {
+    return x.el_ == nullptr;
+  }
+
+  operator bool() const { return el_.get() != nullptr; }
+  T* get() const noexcept { return el_.get(); }
+  T* operator->() noexcept { return el_.get(); }
+  T const* operator->() const noexcept { return el_.get(); }
+  T& operator*() noexcept { return *el_; }
+  T const& operator*() const noexcept { return *el_; }
+
+  memory_holder mem_;
+  raw::unique_ptr<T> el_;
+};
+
+template <typename T>
+wrapped(memory_holder, T*) -> wrapped<T>;
+
+template <typename T>
+wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
+
+}  // namespace cista
-- 
2.43.0

