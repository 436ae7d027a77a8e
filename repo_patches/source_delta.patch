From a51ad69c80f6ecb2c076923286ef17137204e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 001/111] fix: vector insert/erase return the position of the
 change

insert() returned the position after the inserted elements and range erase()
always returned end().
---
 include/cista/containers/vector.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 6e592fc..724ed68 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -220,7 +220,8 @@ struct basic_vector {
     new (el_ + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <typename El>
@@ -234,7 +235,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -248,7 +250,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
@@ -401,7 +404,7 @@ struct basic_vector {
       }
       used_size_ -= static_cast<size_type>(std::distance(new_end, end()));
     }
-    return end();
+    return first;
   }
 
   bool contains(T const* el) const noexcept {
-- 
2.43.0


From 699e0e87af772a08fa5971e4651a2b133194bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 002/111] fix: vector destroys elements it overwrites or drops

set() (and thereby copy assignment) constructed over live elements and
resize() to a smaller size forgot the elements at the end.
---
 include/cista/containers/vector.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 724ed68..dce640f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -175,6 +175,7 @@ struct basic_vector {
         range_size >= 0 && range_size <= std::numeric_limits<size_type>::max(),
         "cista::vector::set: invalid range");
 
+    clear();
     reserve(static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
@@ -320,6 +321,9 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{};
     }
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     used_size_ = size;
   }
 
@@ -328,6 +332,9 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{init};
     }
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     used_size_ = size;
   }
 
-- 
2.43.0


From fdb2318557efdf08b5cdb9d86d978eec493afa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 003/111] fix: vector insert of an empty range does not
 self-move elements

---
 include/cista/containers/vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index dce640f..fe1d9a3 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -262,6 +262,10 @@ struct basic_vector {
       return begin();
     }
 
+    if (first == last) {
+      return pos;  // No elements to shift (would self-move-assign).
+    }
+
     auto const pos_idx = pos - begin();
     auto const new_count = static_cast<size_type>(std::distance(first, last));
     reserve(used_size_ + new_count);
-- 
2.43.0


From 2a154994399a3b172d3aed3ea265e597291ce4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 004/111] fix: vector growth keeps arguments that refer to own
 elements alive

push_back(v[0]) & co. read the element from storage that was already freed.
---
 include/cista/containers/vector.h | 35 ++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index fe1d9a3..019b47f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -217,9 +217,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
-    new (el_ + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg>(el));
 
     std::rotate(begin() + old_offset, begin() + old_size, end());
     return begin() + old_offset;
@@ -230,9 +228,10 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
+    auto const copy = T{value};  // value can refer to an element of this vector
     reserve(used_size_ + count);
     for (auto i = size_type{0U}; i < count; ++i) {
-      new (el_ + used_size_) T{value};
+      new (el_ + used_size_) T{copy};
       ++used_size_;
     }
 
@@ -300,21 +299,37 @@ struct basic_vector {
   }
 
   void push_back(T const& el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T(el);
+    if (used_size_ == allocated_size_) {
+      auto copy = T(el);  // el can refer to an element of this vector
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(copy));
+    } else {
+      new (el_ + used_size_) T(el);
+    }
     ++used_size_;
   }
 
   void push_back(T&& el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T(std::move(el));
+    if (used_size_ == allocated_size_) {
+      auto moved = T(std::move(el));  // el can be an element of this vector
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(moved));
+    } else {
+      new (el_ + used_size_) T(std::move(el));
+    }
     ++used_size_;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T{std::forward<Args>(el)...};
+    if (used_size_ == allocated_size_) {
+      // Arguments can refer to elements of this vector.
+      auto tmp = T{std::forward<Args>(el)...};
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T{std::forward<Args>(el)...};
+    }
     T* ptr = el_ + used_size_;
     ++used_size_;
     return *ptr;
-- 
2.43.0


From 90647a926a462b2685d18fb4cf551c1c7ecfa7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 005/111] fix: vector growth beyond the largest power of two of
 its size type

The next power of two wrapped to zero, zero bytes were allocated and the
elements were moved out of bounds (e.g. 129 elements with a 8bit size type).
---
 include/cista/containers/vector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 019b47f..b3ac61c 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -379,6 +379,9 @@ struct basic_vector {
     }
 
     auto next_size = next_power_of_two(new_size);
+    if (next_size < new_size) {  // Next power of two is not representable.
+      next_size = std::numeric_limits<size_type>::max();
+    }
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
     auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
     if (mem_buf == nullptr) {
-- 
2.43.0


From cc6241e86ca4edd3fcbe7a1ce573d2879436c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 006/111] fix: hash_storage move assignment releases the
 overwritten entries

---
 include/cista/containers/hash_storage.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 753c675..aba85fa 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -284,6 +284,13 @@ struct hash_storage {
     if (&other == this) {
       return *this;
     }
+    // Not yet constructed members of unions are assigned to as well.
+    if (entries_ != nullptr &&
+        reinterpret_cast<std::uintptr_t>(ptr_cast(ctrl_)) ==
+            reinterpret_cast<std::uintptr_t>(ptr_cast(entries_)) +
+                capacity_ * sizeof(T)) {
+      clear();
+    }
     entries_ = other.entries_;
     ctrl_ = other.ctrl_;
     size_ = other.size_;
-- 
2.43.0


From 419e6d8defec5f99b3a4459397a230d36410ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 007/111] fix: hash_storage rehash of an empty table leaked its
 allocation

---
 include/cista/containers/hash_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index aba85fa..52ae3d1 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -653,7 +653,11 @@ struct hash_storage {
     self_allocated_ = false;
   }
 
-  void rehash() { resize(capacity_); }
+  void rehash() {
+    if (capacity_ != 0U) {
+      resize(capacity_);
+    }
+  }
 
   iterator iterator_at(size_type const i) noexcept {
     return {ctrl_ + i, entries_ + i};
-- 
2.43.0


From ab9dbd70efb1653b629498ba6441a9357780d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 008/111] fix: hash_storage operator[] with a key stored in the
 table itself

map[map.at(x)] read the key from entries that growing had already freed. If
copying the key threw, a slot without entry was left behind.
---
 include/cista/containers/hash_storage.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 52ae3d1..ad6e5bc 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -323,11 +323,12 @@ struct hash_storage {
   // --- operator[]
   template <typename Key>
   mapped_type& bracket_operator_impl(Key&& key) {
-    auto const res = find_or_prepare_insert(std::forward<Key>(key));
-    if (res.second) {
-      new (entries_ + res.first) T{static_cast<key_type>(key), mapped_type{}};
+    auto it = find(key);
+    if (it == end()) {
+      // Copies the key first: it can refer to an entry that moves on growth.
+      it = emplace(static_cast<key_type>(key), mapped_type{}).first;
     }
-    return GetValue{}(entries_[res.first]);
+    return GetValue{}(*it);
   }
 
   template <typename Key>
-- 
2.43.0


From f25664e590b40f1114174913ad308c36afdd0139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 009/111] fix: hash_storage stays intact if growing fails to
 allocate

The capacity was already raised and the entries pointer lost.
---
 include/cista/containers/hash_storage.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index ad6e5bc..e39e0c0 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -597,15 +597,18 @@ struct hash_storage {
     ctrl_[capacity_] = END;
   }
 
-  void initialize_entries() {
-    self_allocated_ = true;
-    auto const size = static_cast<size_type>(
-        capacity_ * sizeof(T) + (capacity_ + 1U + WIDTH) * sizeof(ctrl_t));
-    entries_ = reinterpret_cast<T*>(
+  void initialize_entries(size_type const new_capacity) {
+    auto const size =
+        static_cast<size_type>(new_capacity * sizeof(T) +
+                               (new_capacity + 1U + WIDTH) * sizeof(ctrl_t));
+    auto const mem = reinterpret_cast<T*>(
         CISTA_ALIGNED_ALLOC(ALIGNMENT, static_cast<std::size_t>(size)));
-    if (entries_ == nullptr) {
+    if (mem == nullptr) {
       throw_exception(std::bad_alloc{});
     }
+    entries_ = mem;
+    capacity_ = new_capacity;
+    self_allocated_ = true;
 #if defined(CISTA_ZERO_OUT)
     std::memset(entries_, 0, size);
 #endif
@@ -622,8 +625,7 @@ struct hash_storage {
     auto const old_capacity = capacity_;
     auto const old_self_allocated = self_allocated_;
 
-    capacity_ = new_capacity;
-    initialize_entries();
+    initialize_entries(new_capacity);
 
     for (size_type i = 0U; i != old_capacity; ++i) {
       if (is_full(old_ctrl[i])) {
-- 
2.43.0


From 1723c9c7f3dcc8d8975c4da2b7f57055c150db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 010/111] fix: string assignment from (a part of) itself

---
 include/cista/containers/string.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 8334af5..9fce5ea 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -96,24 +96,27 @@ struct generic_string {
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
   void set_owning(CharT const* str, msize_t const len) {
-    reset();
     if (str == nullptr || len == 0U) {
+      reset();
       return;
     }
-    s_.is_short_ = (len <= short_length_limit);
-    if (s_.is_short_) {
-      std::memcpy(s_.s_, str, len * sizeof(CharT));
-      for (auto i = len; i < short_length_limit; ++i) {
-        s_.s_[i] = 0;
-      }
+    // The source may be (a part of) this string: copy before releasing it.
+    if (len <= short_length_limit) {
+      CharT copy[short_length_limit]{0};
+      std::memcpy(copy, str, len * sizeof(CharT));
+      reset();
+      s_.is_short_ = true;
+      std::memcpy(s_.s_, copy, sizeof(copy));
     } else {
-      h_.ptr_ = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
-      if (h_.ptr_ == nullptr) {
+      auto const mem = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
+      if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
+      std::memcpy(mem, str, len * sizeof(CharT));
+      reset();
+      h_.ptr_ = mem;
       h_.size_ = len;
       h_.self_allocated_ = true;
-      std::memcpy(data(), str, len * sizeof(CharT));
     }
   }
 
@@ -128,8 +131,8 @@ struct generic_string {
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
 
   void set_non_owning(CharT const* str, msize_t const len) {
-    reset();
     if (str == nullptr || len == 0U) {
+      reset();
       return;
     }
 
@@ -137,6 +140,7 @@ struct generic_string {
       return set_owning(str, len);
     }
 
+    reset();
     h_.is_short_ = false;
     h_.self_allocated_ = false;
     h_.ptr_ = str;
-- 
2.43.0


From 2bb39cb6a27dd77839bddb5c6d1595c760ef5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 011/111] fix: cstring assignment from (a part of) itself

---
 include/cista/containers/cstring.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 1a6d26d..cbc5211 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -84,17 +84,20 @@ struct generic_cstring {
 
   void set_owning(char const* str, msize_t const len) {
     assert(str != nullptr || len == 0U);
-    reset();
-    if (len == 0U) {
-      return;
-    }
-    s_.remaining_ = static_cast<int8_t>(
-        std::max(static_cast<int32_t>(short_length_limit - len), -1));
-    if (is_short()) {
-      std::memcpy(s_.s_, str, len);
+    // The source may be (a part of) this string: copy before releasing it.
+    if (len <= short_length_limit) {
+      auto copy = stack{};
+      if (len != 0U) {
+        std::memcpy(copy.s_, str, len);
+      }
+      copy.remaining_ = static_cast<int8_t>(short_length_limit - len);
+      reset();
+      s_ = copy;
     } else {
-      h_ = heap(len, owning);
-      std::memcpy(data(), str, len);
+      auto copy = heap(len, owning);
+      std::memcpy(const_cast<char*>(ptr_cast(copy.ptr_)), str, len);
+      reset();
+      h_ = copy;
     }
   }
 
-- 
2.43.0


From a6f94c036b603eca965615c987b533c3239f08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 012/111] fix: cstring move assignment releases the target and
 empties the source

---
 include/cista/containers/cstring.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index cbc5211..991cf4b 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -120,16 +120,22 @@ struct generic_cstring {
   }
 
   void move_from(generic_cstring&& s) noexcept {
-    std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
-    if constexpr (std::is_pointer_v<Ptr>) {
-      std::memset(static_cast<void*>(&s), 0, sizeof(*this));
-    } else if (!s.is_short()) {
-      h_.ptr_ = s.h_.ptr_;
-      s.s_ = stack{};
+    if (&s == this) {
+      return;
+    }
+    reset();
+    if (s.is_short()) {
+      s_ = s.s_;
+    } else {
+      h_ = s.h_;
     }
+    s.s_ = stack{};
   }
 
   void copy_from(generic_cstring const& s) {
+    if (&s == this) {
+      return;
+    }
     reset();
     if (s.is_short()) {
       std::memcpy(static_cast<void*>(this), &s, sizeof(s));
-- 
2.43.0


From 5b9983ea9f2bd2acff853079e1b3b10a7a5760c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 013/111] fix: cstring construction from a pointer and a
 length, copying generic_cstring

---
 include/cista/containers/cstring.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 991cf4b..a62a83f 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -45,6 +45,24 @@ struct generic_cstring {
   }
   generic_cstring(char const* s, owning_t const) { set_owning(s); }
   generic_cstring(char const* s, non_owning_t const) { set_non_owning(s); }
+  generic_cstring(char const* s, msize_t const len, owning_t const) {
+    set_owning(s, len);
+  }
+  generic_cstring(char const* s, msize_t const len, non_owning_t const) {
+    set_non_owning(s, len);
+  }
+
+  generic_cstring(generic_cstring&& o) noexcept { move_from(std::move(o)); }
+  generic_cstring(generic_cstring const& o) { copy_from(o); }
+
+  generic_cstring& operator=(generic_cstring&& o) noexcept {
+    move_from(std::move(o));
+    return *this;
+  }
+  generic_cstring& operator=(generic_cstring const& o) {
+    copy_from(o);
+    return *this;
+  }
 
   char* begin() noexcept { return data(); }
   char* end() noexcept { return data() + size(); }
-- 
2.43.0


From d90a777637db89a27642bed1188f6b76afb66ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 014/111] fix: string erase of nothing on an empty string

---
 include/cista/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 9fce5ea..725e225 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -356,6 +356,9 @@ struct generic_string {
   }
 
   generic_string& erase(msize_t const pos, msize_t const n) {
+    if (n == 0U) {
+      return *this;
+    }
     if (!is_short() && !h_.self_allocated_) {
       set_owning(view());
     }
-- 
2.43.0


From 89618274ae2742d469d883fd73199d27aad4f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 015/111] fix: unique_ptr reset of a non-owned pointer, self
 move assignment

---
 include/cista/containers/unique_ptr.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index c490a6b..608fffc 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -28,6 +28,9 @@ struct basic_unique_ptr {
   }
 
   basic_unique_ptr& operator=(basic_unique_ptr&& o) noexcept {
+    if (&o == this) {
+      return *this;
+    }
     reset();
     el_ = o.el_;
     self_allocated_ = o.self_allocated_;
@@ -47,9 +50,9 @@ struct basic_unique_ptr {
   void reset() {
     if (self_allocated_ && el_ != nullptr) {
       delete el_;
-      el_ = nullptr;
-      self_allocated_ = false;
     }
+    el_ = nullptr;
+    self_allocated_ = false;
   }
 
   explicit operator bool() const noexcept { return el_ != nullptr; }
-- 
2.43.0


From 6ef98b82339e78a30f2368a148cb1ff534a1a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 016/111] fix: optional destroys its value and copies as an
 optional

---
 include/cista/containers/optional.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index a9d5df5..3f25d15 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -12,15 +12,19 @@ template <typename T>
 struct optional {
   optional() = default;
 
-  template <typename... Ts>
+  template <typename... Ts,
+            typename = std::enable_if_t<
+                (sizeof...(Ts) != 0U) &&
+                (!std::is_same_v<std::decay_t<Ts>, optional> && ...)>>
   optional(Ts&&... t) noexcept(std::is_nothrow_constructible_v<T, Ts...>) {
     new (&storage_[0]) T{std::forward<Ts>(t)...};
     valid_ = true;
   }
 
-  template <typename... Ts>
   optional(std::nullopt_t) noexcept {}
 
+  ~optional() { reset(); }
+
   optional(optional const& other) { copy(other); }
   optional& operator=(optional const& other) { return copy(other); }
 
@@ -29,7 +33,18 @@ struct optional {
     return move(std::forward<optional>(other));
   }
 
+  void reset() noexcept {
+    if (valid_) {
+      valid_ = false;
+      value_ptr()->~T();
+    }
+  }
+
   optional& copy(optional const& other) {
+    if (&other == this) {
+      return *this;
+    }
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T{other.value()};
     }
@@ -40,6 +55,10 @@ struct optional {
   }
 
   optional& move(optional&& other) {
+    if (&other == this) {
+      return *this;
+    }
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T(std::move(other.value()));
     }
@@ -63,6 +82,8 @@ struct optional {
     return *reinterpret_cast<T*>(&storage_[0]);
   }
 
+  T* value_ptr() noexcept { return reinterpret_cast<T*>(&storage_[0]); }
+
   bool has_value() const noexcept { return valid_; }
   operator bool() const noexcept { return valid_; }
 
-- 
2.43.0


From 2a76553b5e88b20860a26ddf3c912f7128d24261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 017/111] fix: variant assignment of an lvalue holding the same
 alternative was ignored

---
 include/cista/containers/variant.h | 897 +++++++++++++++--------------
 1 file changed, 449 insertions(+), 448 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index b035975..5a3fb1c 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,448 +1,449 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant&& o) {
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *(new (&storage_)
+                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = I;
+    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 15U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
-- 
2.43.0


From 7ef69cd121eb0cacfb7e03017939783151e42b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 018/111] fix: variant visitation with 16 or more alternatives

---
 include/cista/containers/variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 5a3fb1c..203c032 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -325,7 +325,8 @@ struct variant {
     }
 
     if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
     }
 
 #ifndef _MSC_VER
-- 
2.43.0


From 0af7f594bc41b57ed1e707fe0c6d3023b49b4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 019/111] fix: copying, comparing and hashing variants without
 a value

---
 include/cista/containers/variant.h | 40 ++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 203c032..6fd6fa2 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -82,12 +82,18 @@ struct variant {
   }
 
   variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::forward<decltype(el)>(el));
     });
   }
   variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::move(el));
@@ -95,9 +101,19 @@ struct variant {
   }
 
   variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply([&](auto&& el) -> variant& { return *this = el; });
   }
   variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply(
         [&](auto&& el) -> variant& { return *this = std::move(el); });
   }
@@ -132,6 +148,9 @@ struct variant {
   constexpr operator bool() const noexcept { return valid(); }
 
   friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
                        a.idx_, a, b)
@@ -139,6 +158,9 @@ struct variant {
   }
 
   friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
                        a.idx_, a, b)
@@ -146,6 +168,9 @@ struct variant {
   }
 
   friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                        a, b)
@@ -153,6 +178,9 @@ struct variant {
   }
 
   friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
                        a, b)
@@ -160,6 +188,9 @@ struct variant {
   }
 
   friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
                        a.idx_, a, b)
@@ -167,6 +198,9 @@ struct variant {
   }
 
   friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
                        a.idx_, a, b)
@@ -195,6 +229,9 @@ struct variant {
 
   void swap(variant& o) {
     if (idx_ == o.idx_) {
+      if (!valid()) {
+        return;
+      }
       apply(
           [](auto&& a, auto&& b) {
             using std::swap;
@@ -347,6 +384,9 @@ struct variant {
   }
 
   hash_t hash() const noexcept {
+    if (!valid()) {
+      return BASE_HASH;
+    }
     return apply([&](auto&& val) {
       auto const idx = index();
       auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-- 
2.43.0


From f3a5901dce365ac6a1c42876676182aa133507fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 020/111] fix: variant holds no value if constructing the new
 one throws

---
 include/cista/containers/variant.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 6fd6fa2..060b120 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -132,8 +132,9 @@ struct variant {
       return *this;
     }
     destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    idx_ = NO_VALUE;
     new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
     return *this;
   }
 #if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
@@ -211,18 +212,22 @@ struct variant {
   Arg& emplace(CtorArgs&&... ctor_args) {
     static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
     destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_)
+                     std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
     idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+    return el;
   }
 
   template <std::size_t I, typename... CtorArgs>
   type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
     static_assert(I < sizeof...(T));
     destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
         std::forward<CtorArgs>(ctor_args)...});
+    idx_ = I;
+    return el;
   }
 
   constexpr std::size_t index() const noexcept { return idx_; }
-- 
2.43.0


From 32cecd9fdbffec957b88ce7cde02f2992a9754af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 021/111] fix: hashing of floating point values outside of the
 integer range

---
 include/cista/hash.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/cista/hash.h b/include/cista/hash.h
index 04b647e..626f82c 100644
--- a/include/cista/hash.h
+++ b/include/cista/hash.h
@@ -2,6 +2,7 @@
 
 #include <cinttypes>
 #include <string_view>
+#include <type_traits>
 
 namespace cista {
 
@@ -112,12 +113,26 @@ using hash_t = std::uint64_t;
 
 constexpr auto const BASE_HASH = 14695981039346656037ULL;
 
+// Floating point values outside of the range of hash_t cannot be cast to it.
+template <typename T>
+constexpr hash_t to_hash_t(T const val) noexcept {
+  if constexpr (std::is_floating_point_v<T>) {
+    if (val >= T{0} && val < static_cast<T>(18446744073709551616.0)) {
+      return static_cast<hash_t>(val);
+    } else if (val < T{0} && val >= static_cast<T>(-9223372036854775808.0)) {
+      return static_cast<hash_t>(static_cast<std::int64_t>(val));
+    } else {
+      return 0x8000000000000000ULL;
+    }
+  } else {
+    return static_cast<hash_t>(val);
+  }
+}
+
 template <typename... Args>
 constexpr hash_t hash_combine(hash_t h, Args... val) noexcept {
   constexpr hash_t fnv_prime = 1099511628211ULL;
-  auto fnv = [&](auto arg) noexcept {
-    h = (h ^ static_cast<hash_t>(arg)) * fnv_prime;
-  };
+  auto fnv = [&](auto arg) noexcept { h = (h ^ to_hash_t(arg)) * fnv_prime; };
   ((fnv(val)), ...);
   return h;
 }
-- 
2.43.0


From a513da126382dfafadd0b779987f05798160b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 022/111] fix: equal floating point zeros hash equal with every
 hash function

---
 include/cista/hashing.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index 9607548..e76a76b 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -106,6 +106,9 @@ struct hashing {
       return el.size() == 0U
                  ? seed
                  : hash(std::string_view{&(*begin(el)), el.size()}, seed);
+    } else if constexpr (std::is_floating_point_v<Type>) {
+      // 0.0 == -0.0: equal values, different bytes
+      return hash_combine(seed, el == Type{0} ? Type{0} : el);
     } else if constexpr (std::is_scalar_v<Type>) {
       return hash_combine(seed, el);
     } else if constexpr (has_std_hash_v<Type>) {
-- 
2.43.0


From 909a2ef5800beb4545d09e59222d71c7a45b7594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 023/111] fix: fetch_max never stored a larger value

---
 include/cista/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 5d1855b..731857f 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -47,7 +47,7 @@ inline std::int16_t fetch_max(std::int16_t& block, std::int16_t const val) {
   // UB due to aliasing but `std::atomic_ref` is not there yet.
   auto const a = reinterpret_cast<std::atomic_int16_t*>(&block);
   auto old = a->load();
-  if (old > val) {
+  if (old < val) {
     while (!a->compare_exchange_weak(old, std::max(old, val),
                                      std::memory_order_release,
                                      std::memory_order_relaxed)) {
-- 
2.43.0


From 571e028ba3e0538405399acd8651a3241da9773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 024/111] fix: fetch_or/fetch_and return the previous value in
 every configuration

---
 include/cista/atomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 731857f..95fcc25 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -16,7 +16,7 @@ inline std::uint64_t fetch_or(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_or(mask);
 #else
-  return __atomic_or_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_or(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
@@ -26,7 +26,7 @@ inline std::uint64_t fetch_and(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_and(mask);
 #else
-  return __atomic_and_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_and(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
-- 
2.43.0


From 99fe0971feced56138383fc084582578776bfd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 025/111] fix: bitset keeps the bits beyond its width clear
 (hash/equal_to)

---
 include/cista/containers/bitset.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitset.h b/include/cista/containers/bitset.h
index bb0447a..e3f2c6a 100644
--- a/include/cista/containers/bitset.h
+++ b/include/cista/containers/bitset.h
@@ -29,6 +29,7 @@ struct bitset {
     for (auto& b : ret.blocks_) {
       b = std::numeric_limits<block_t>::max();
     }
+    ret.blocks_[num_blocks - 1U] = ret.sanitized_last_block();
     return ret;
   }
 
@@ -86,7 +87,7 @@ struct bitset {
 
   bool none() const noexcept { return !any(); }
 
-  block_t sanitized_last_block() const noexcept {
+  constexpr block_t sanitized_last_block() const noexcept {
     if constexpr ((Size % bits_per_block) != 0U) {
       return blocks_[num_blocks - 1U] &
              ~((~block_t{0U}) << (Size % bits_per_block));
@@ -195,6 +196,7 @@ struct bitset {
     for (auto& b : copy.blocks_) {
       b = ~b;
     }
+    copy.blocks_[num_blocks - 1U] = copy.sanitized_last_block();
     return copy;
   }
 
@@ -267,6 +269,7 @@ struct bitset {
 
     if constexpr (num_blocks == 1U) {
       blocks_[0U] <<= shift;
+      blocks_[0U] = sanitized_last_block();
       return *this;
     } else {
       if (shift == 0U) {
@@ -292,6 +295,7 @@ struct bitset {
       for (auto i = 0U; i != shift_blocks; ++i) {
         blocks_[i] = 0U;
       }
+      blocks_[num_blocks - 1U] = sanitized_last_block();
 
       return *this;
     }
-- 
2.43.0


From 99de7daf446a4b03d588ff899e1add83ad576b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 026/111] fix: bitvec reset (and shift by its size) keeps size
 and storage consistent

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ac79f1e..a387b05 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -120,7 +120,7 @@ struct basic_bitvec {
     }
   }
 
-  void reset() noexcept { blocks_ = {}; }
+  void reset() noexcept { zero_out(); }
 
   bool operator[](Key const i) const noexcept { return test(i); }
 
-- 
2.43.0


From 167029775b8e69f29fb88fac7d073787f0c769c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 027/111] fix: bitvec next_set_bit does not report bits beyond
 the size

---
 include/cista/containers/bitvec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index a387b05..496a88a 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -172,7 +172,9 @@ struct basic_bitvec {
     }
 
     auto const first_block_idx = i / bits_per_block;
-    auto const first_block = blocks_[first_block_idx];
+    auto const first_block = first_block_idx + 1U == blocks_.size()
+                                 ? sanitized_last_block()
+                                 : blocks_[first_block_idx];
     if (first_block != 0U) {
       auto const first_bit = i % bits_per_block;
       auto const n = std::min(size(), bits_per_block);
-- 
2.43.0


From 7be5895df8f86611915ed1e64b508b5b80d816c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 028/111] fix: bitvec keeps the bits beyond its size clear
 (hash/equal_to)

---
 include/cista/containers/bitvec.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index 496a88a..9a2c814 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -41,6 +41,7 @@ struct basic_bitvec {
     for (auto& b : ret.blocks_) {
       b = std::numeric_limits<block_t>::max();
     }
+    ret.clear_unused_bits();
     return ret;
   }
 
@@ -61,6 +62,13 @@ struct basic_bitvec {
     for (auto& b : blocks_) {
       b = ~block_t{0};
     }
+    clear_unused_bits();
+  }
+
+  constexpr void clear_unused_bits() {
+    if (!empty()) {
+      blocks_[blocks_.size() - 1] = sanitized_last_block();
+    }
   }
 
   void resize(size_type const new_size) {
@@ -74,6 +82,7 @@ struct basic_bitvec {
     }
     blocks_.resize(num_blocks(new_size));
     size_ = new_size;
+    clear_unused_bits();
   }
 
   void set(std::string_view s) {
@@ -359,6 +368,7 @@ struct basic_bitvec {
     for (auto& b : copy.blocks_) {
       b = ~b;
     }
+    copy.clear_unused_bits();
     return copy;
   }
 
@@ -434,6 +444,7 @@ struct basic_bitvec {
 
     if (blocks_.size() == 1U) {
       blocks_[0] <<= shift;
+      clear_unused_bits();
       return *this;
     } else {
       if (shift == 0U) {
@@ -459,6 +470,7 @@ struct basic_bitvec {
       for (auto i = 0U; i != shift_blocks; ++i) {
         blocks_[i] = 0U;
       }
+      clear_unused_bits();
 
       return *this;
     }
-- 
2.43.0


From 8c27a2c03c60019da7ae3b8d438d9c9e99be3779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 029/111] fix: characters of wide strings are aligned in the
 image

---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 559960d..54baafc 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -224,7 +224,8 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
       (origin->h_.ptr_ == nullptr)
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
-                    origin->size() * sizeof(typename Type::CharT));
+                    origin->size() * sizeof(typename Type::CharT),
+                    std::alignment_of_v<typename Type::CharT>);
   if (start != NULLPTR_OFFSET) {
     str_convert_endian(c, start, origin->data(),
                        static_cast<offset_t>(origin->size()));
-- 
2.43.0


From 16f0c90284a0bb0bf506471c5ea426aa48c37c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 030/111] fix: hash tables with deleted entries were rejected
 by the check

Entries that were erased without becoming empty (tombstones) count towards
the load: size + deleted + growth_left = capacity_to_growth(capacity). The
check required more growth_left than such a table has, and put no upper bound
on it.
---
 include/cista/serialization.h | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 54baafc..01ca315 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -964,28 +964,22 @@ void check_state(Ctx const& c,
             "hash storage: ctrl bytes must be empty or deleted or full");
 
   using st_t = typename Type::size_type;
-  auto [total_empty, total_full, total_deleted, total_growth_left] =
-      std::accumulate(
-          ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
-          std::tuple{st_t{0U}, st_t{0U}, st_t{0U}, st_t{0}},
-          [&](std::tuple<st_t, st_t, st_t, st_t> const acc,
-              typename Type::ctrl_t const& ctrl) {
-            auto const [empty, full, deleted, growth_left] = acc;
-            return std::tuple{
-                Type::is_empty(ctrl) ? empty + 1 : empty,
-                Type::is_full(ctrl) ? full + 1 : full,
-                Type::is_deleted(ctrl) ? deleted + 1 : deleted,
-                (Type::is_empty(ctrl) && el->was_never_full(static_cast<st_t>(
-                                             &ctrl - el->ctrl_))
-                     ? growth_left + 1
-                     : growth_left)};
-          });
+  auto [total_empty, total_full, total_deleted] = std::accumulate(
+      ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
+      std::tuple{st_t{0U}, st_t{0U}, st_t{0U}},
+      [&](std::tuple<st_t, st_t, st_t> const acc,
+          typename Type::ctrl_t const& ctrl) {
+        auto const [empty, full, deleted] = acc;
+        return std::tuple{Type::is_empty(ctrl) ? empty + 1 : empty,
+                          Type::is_full(ctrl) ? full + 1 : full,
+                          Type::is_deleted(ctrl) ? deleted + 1 : deleted};
+      });
 
   c.require(el->size_ == total_full, "hash storage: size");
   c.require(total_empty + total_full + total_deleted == el->capacity_,
             "hash storage: empty + full + deleted = capacity");
-  c.require(std::min(Type::capacity_to_growth(el->capacity_) - el->size_,
-                     total_growth_left) <= el->growth_left_,
+  c.require(checked_addition(el->size_, total_deleted, el->growth_left_) <=
+                Type::capacity_to_growth(el->capacity_),
             "hash storage: growth left");
 }
 
-- 
2.43.0


From 91d95db8e7a4f7dbb421a21128d8cfbf1fad5f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 031/111] fix: root objects aligned to more than 8 bytes behind
 a header

serialize aligns the root object, deserialize expected it right after the
version/integrity header.
---
 include/cista/serialization.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 01ca315..22e5040 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -479,6 +479,13 @@ constexpr offset_t data_start(mode const m) noexcept {
   return start;
 }
 
+template <typename T>
+constexpr offset_t root_start(mode const m) noexcept {
+  constexpr auto const alignment =
+      static_cast<offset_t>(std::alignment_of_v<decay_t<T>>);
+  return (data_start(m) + alignment - 1) / alignment * alignment;
+}
+
 template <mode const Mode = mode::NONE, typename Target, typename T>
 void serialize(Target& t, T& value) {
   serialization_context<Target, Mode> c{t};
@@ -1063,7 +1070,7 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
     return reinterpret_cast<T*>(from);
   } else {
     check<T, Mode>(from, to);
-    auto const el = reinterpret_cast<T*>(from + data_start(Mode));
+    auto const el = reinterpret_cast<T*>(from + root_start<T>(Mode));
 
     deserialization_context<Mode> c{from, to};
     deserialize(c, el);
-- 
2.43.0


From e96acaa5b3444cf91a1408d90b717243c63c45eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 032/111] fix: alignment in the image does not depend on the
 buffer's address

---
 include/cista/targets/buf.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index 3a37a89..05e34e3 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -40,14 +40,9 @@ struct buf {
                  std::size_t alignment = 0U) {
     auto start = static_cast<offset_t>(size());
     if (alignment > 1U && buf_.size() != 0U) {
-      auto unaligned_ptr = static_cast<void*>(addr(start));
-      auto space = std::numeric_limits<std::size_t>::max();
-      auto const aligned_ptr =
-          std::align(alignment, num_bytes, unaligned_ptr, space);
-      auto const new_offset = static_cast<offset_t>(
-          aligned_ptr ? static_cast<std::uint8_t*>(aligned_ptr) - base() : 0U);
-      auto const adjustment = static_cast<offset_t>(new_offset - start);
-      start += adjustment;
+      // Relative to the start of the image (not to its current address).
+      auto const a = static_cast<offset_t>(alignment);
+      start = (start + a - 1) / a * a;
     }
 
     auto const space_left =
-- 
2.43.0


From 802642b1abfe125e0908082f8a3a8b7a0d6f7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 033/111] fix: vector reserve of more bytes than addressable
 wrapped around

---
 include/cista/containers/vector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index b3ac61c..3f0291d 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <algorithm>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <type_traits>
@@ -382,6 +383,10 @@ struct basic_vector {
     if (next_size < new_size) {  // Next power of two is not representable.
       next_size = std::numeric_limits<size_type>::max();
     }
+    if (static_cast<std::size_t>(next_size) >
+        std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+      throw_exception(std::bad_alloc());
+    }
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
     auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
     if (mem_buf == nullptr) {
-- 
2.43.0


From 55e07c2c9526b1633aa5dbc42ccd75dfb42e37ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 034/111] fix: vector storage of over-aligned element types

---
 include/cista/containers/vector.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 3f0291d..2aa465d 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -2,6 +2,7 @@
 
 #include <cassert>
 #include <cinttypes>
+#include <cstddef>
 #include <cstdlib>
 #include <cstring>
 #include <algorithm>
@@ -11,6 +12,7 @@
 #include <type_traits>
 #include <vector>
 
+#include "cista/aligned_alloc.h"
 #include "cista/allocator.h"
 #include "cista/containers/ptr.h"
 #include "cista/exception.h"
@@ -108,7 +110,7 @@ struct basic_vector {
       el.~T();
     }
 
-    std::free(el_);  // NOLINT
+    free_bytes(el_);
     reset();
   }
 
@@ -372,6 +374,22 @@ struct basic_vector {
     used_size_ = 0;
   }
 
+  static void* allocate_bytes(std::size_t const num_bytes) {
+    if constexpr (alignof(T) > alignof(std::max_align_t)) {
+      return CISTA_ALIGNED_ALLOC(alignof(T), num_bytes);
+    } else {
+      return std::malloc(num_bytes);  // NOLINT
+    }
+  }
+
+  static void free_bytes(T* ptr) {
+    if constexpr (alignof(T) > alignof(std::max_align_t)) {
+      CISTA_ALIGNED_FREE(alignof(T), ptr);
+    } else {
+      std::free(ptr);  // NOLINT
+    }
+  }
+
   void reserve(size_type new_size) {
     new_size = std::max(allocated_size_, new_size);
 
@@ -388,7 +406,7 @@ struct basic_vector {
       throw_exception(std::bad_alloc());
     }
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
-    auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
+    auto mem_buf = static_cast<T*>(allocate_bytes(num_bytes));
     if (mem_buf == nullptr) {
       throw_exception(std::bad_alloc());
     }
@@ -411,7 +429,7 @@ struct basic_vector {
     auto free_me = el_;
     el_ = mem_buf;
     if (self_allocated_) {
-      std::free(free_me);  // NOLINT
+      free_bytes(free_me);
     }
 
     self_allocated_ = true;
-- 
2.43.0


From 2346496f195361ee168e3693a3787e84526d714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 035/111] fix: floating point and enum values are converted to
 the image endianness

---
 include/cista/serialization.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 22e5040..ea329c4 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -133,6 +133,12 @@ struct serialization_context {
   Target& t_;
 };
 
+template <typename T>
+constexpr bool is_endian_dependent() noexcept {
+  return (std::numeric_limits<T>::is_integer || std::is_floating_point_v<T> ||
+          std::is_enum_v<T>)&&sizeof(T) <= 8U;
+}
+
 template <typename Ctx, typename T>
 void serialize(Ctx& c, T const* origin, offset_t const pos) {
   using Type = decay_t<T>;
@@ -152,7 +158,7 @@ void serialize(Ctx& c, T const* origin, offset_t const pos) {
                                 reinterpret_cast<intptr_t>(origin));
       serialize(c, member, pos + member_offset);
     });
-  } else if constexpr (std::numeric_limits<Type>::is_integer) {
+  } else if constexpr (is_endian_dependent<Type>()) {
     c.write(pos, convert_endian<Ctx::MODE>(*origin));
   } else {
     CISTA_UNUSED_PARAM(origin)
@@ -703,7 +709,7 @@ void convert_endian_and_ptr(Ctx const& c, T* el) {
   using Type = decay_t<T>;
   if constexpr (std::is_pointer_v<Type>) {
     c.deserialize_ptr(el);
-  } else if constexpr (std::numeric_limits<Type>::is_integer) {
+  } else if constexpr (is_endian_dependent<Type>()) {
     c.convert_endian(*el);
   } else {
     CISTA_UNUSED_PARAM(c)
-- 
2.43.0


From abfca33243e057a145fbfdf08fce641a4fda9f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 036/111] fix: variant index was not converted from the image
 endianness

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index ea329c4..beb6eb7 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1021,7 +1021,7 @@ void recurse(Ctx&, array<T, Size>* el, Fn&& fn) {
 }
 
 // --- VARIANT<T...> ---
-template <typename Ctx, typename Fn, typename... T>
+template <typename Ctx, typename... T>
 void convert_endian_and_ptr(Ctx const& c, variant<T...>* el) {
   c.convert_endian(el->idx_);
 }
-- 
2.43.0


From 83c89e66cff6c1bbd019dae1be30d1cf7bc2dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 037/111] fix: cstring data is converted and checked on
 deserialization

---
 include/cista/serialization.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index beb6eb7..190d6fb 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -892,6 +892,32 @@ void recurse(Ctx& c, basic_string_view<Ptr>* el, Fn&& fn) {
   recurse(c, static_cast<generic_string<Ptr>*>(el), fn);
 }
 
+// --- CSTRING ---
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, basic_cstring<Ptr>* el) {
+  if (!el->is_short()) {
+    deserialize(c, &el->h_.ptr_);
+    c.convert_endian(el->h_.size_);
+  }
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, basic_cstring<Ptr>* el) {
+  using Type = basic_cstring<Ptr>;
+  if (el->is_short()) {
+    c.require(static_cast<typename Type::msize_t>(el->s_.remaining_) <=
+                  Type::short_length_limit,
+              "cstring short length");
+  } else {
+    c.require(el->h_.ptr_ != nullptr, "cstring: heap data must be set");
+    c.check_ptr(el->h_.ptr_,
+                checked_addition(static_cast<std::size_t>(el->h_.size_), 1U));
+    c.check_bool(el->h_.self_allocated_);
+    c.require(!el->h_.self_allocated_, "cstring self-allocated");
+  }
+  c.require(el->data()[el->size()] == '\0', "cstring termination");
+}
+
 // --- UNIQUE_PTR<T> ---
 template <typename Ctx, typename T, typename Ptr>
 void convert_endian_and_ptr(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
-- 
2.43.0


From a16e4001480eddee85841a8713d5acb34bdecb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 038/111] fix: bitvec size is converted and checked on
 deserialization

---
 include/cista/serialization.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 190d6fb..c3c2d83 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -405,6 +405,15 @@ void serialize(Ctx& c, bitset<Size> const* origin, offset_t const pos) {
   serialize(c, &origin->blocks_, pos);
 }
 
+template <typename Ctx, typename Vec, typename Key>
+void serialize(Ctx& c, basic_bitvec<Vec, Key> const* origin,
+               offset_t const pos) {
+  using Type = basic_bitvec<Vec, Key>;
+  c.write(pos + cista_member_offset(Type, size_),
+          convert_endian<Ctx::MODE>(origin->size_));
+  serialize(c, &origin->blocks_, pos + cista_member_offset(Type, blocks_));
+}
+
 template <typename Ctx, typename T, std::size_t Size>
 void serialize(Ctx& c, array<T, Size> const* origin, offset_t const pos) {
   auto const size =
@@ -1038,6 +1047,20 @@ void recurse(Ctx&, bitset<Size>* el, Fn&& fn) {
   fn(&el->blocks_);
 }
 
+// --- BITVEC ---
+template <typename Ctx, typename Vec, typename Key>
+void convert_endian_and_ptr(Ctx const& c, basic_bitvec<Vec, Key>* el) {
+  c.convert_endian(el->size_);
+}
+
+template <typename Ctx, typename Vec, typename Key, typename Fn>
+void recurse(Ctx& c, basic_bitvec<Vec, Key>* el, Fn&& fn) {
+  using Type = basic_bitvec<Vec, Key>;
+  fn(&el->blocks_);
+  c.require(Type::num_blocks(el->size_) <= el->blocks_.size(),
+            "bitvec: number of blocks");
+}
+
 // --- ARRAY<T> ---
 template <typename Ctx, typename T, std::size_t Size, typename Fn>
 void recurse(Ctx&, array<T, Size>* el, Fn&& fn) {
-- 
2.43.0


From b3c6df20f99b50db635965e52ed0cd92e450d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 039/111] fix: values of bool members are checked on
 deserialization

---
 include/cista/serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index c3c2d83..aec09fc 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -731,6 +731,8 @@ void check_state(Ctx const& c, T* el) {
   using Type = decay_t<T>;
   if constexpr (std::is_pointer_v<Type> && !std::is_same_v<Type, void*>) {
     c.check_ptr(*el);
+  } else if constexpr (std::is_same_v<Type, bool>) {
+    c.check_bool(*el);
   } else {
     CISTA_UNUSED_PARAM(c)
     CISTA_UNUSED_PARAM(el)
-- 
2.43.0


From 11d2ae8faa16012a2f0006f8455241ade55d80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 040/111] fix: hash table lookup relies on unchecked capacity
 and cloned control bytes

---
 include/cista/serialization.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index aec09fc..dd2cc3e 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1013,6 +1013,14 @@ void check_state(Ctx const& c,
                         }),
             "hash storage: ctrl bytes must be empty or deleted or full");
 
+  c.require((el->capacity_ & (el->capacity_ + 1U)) == 0U,
+            "hash storage: capacity is no power of two minus one");
+  for (auto i = typename Type::size_type{0U}; i != Type::WIDTH; ++i) {
+    c.require(el->ctrl_[el->capacity_ + 1U + i] ==
+                  (i < el->capacity_ ? el->ctrl_[i] : Type::EMPTY),
+              "hash storage: cloned ctrl bytes");
+  }
+
   using st_t = typename Type::size_type;
   auto [total_empty, total_full, total_deleted] = std::accumulate(
       ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
-- 
2.43.0


From ce198cf217173d598a88faa75674dd96777478fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 041/111] fix: unchecked deserialization of an image of unknown
 size always threw

---
 include/cista/serialization.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index dd2cc3e..f23b543 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -689,7 +689,10 @@ struct deep_check_context : public deserialization_context<Mode> {
 
 template <typename T, mode const Mode = mode::NONE>
 void check(std::uint8_t const* const from, std::uint8_t const* const to) {
-  verify(to - from > data_start(Mode), "invalid range");
+  if (is_mode_disabled(Mode, mode::UNCHECKED) ||
+      is_mode_enabled(Mode, mode::WITH_INTEGRITY) || to != nullptr) {
+    verify(to - from > data_start(Mode), "invalid range");
+  }
 
   if constexpr ((Mode & mode::WITH_VERSION) == mode::WITH_VERSION) {
     verify(convert_endian<Mode>(*reinterpret_cast<hash_t const*>(from)) ==
-- 
2.43.0


From da37044fd77f2c8e06c30162a7ae4cf954b74b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 042/111] fix: type_hash told types apart by their
 canonicalized name

---
 include/cista/type_hash/type_hash.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 886026b..00e8991 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -17,6 +17,19 @@ hash_t type2str_hash() noexcept {
   return hash_combine(hash(canonical_type_str<decay_t<T>>()), sizeof(T));
 }
 
+// Identifies a type while hashing (different types can have the same name once
+// canonicalized). Constness of the pointee makes no difference.
+template <typename T>
+struct type_id {
+  inline static char id_{};
+};
+
+template <typename T>
+struct type_id<T const*> : type_id<T*> {};
+
+template <typename T>
+struct type_id<offset_ptr<T const>> : type_id<offset_ptr<T>> {};
+
 template <typename T>
 hash_t type_hash(T const&, hash_t, std::map<hash_t, unsigned>&) noexcept;
 
@@ -51,9 +64,9 @@ hash_t type_hash(T const& el, hash_t h,
                  std::map<hash_t, unsigned>& done) noexcept {
   using Type = decay_t<T>;
 
-  auto const base_hash = type2str_hash<Type>();
   auto [it, inserted] =
-      done.try_emplace(base_hash, static_cast<unsigned>(done.size()));
+      done.try_emplace(reinterpret_cast<std::uintptr_t>(&type_id<Type>::id_),
+                       static_cast<unsigned>(done.size()));
   if (!inserted) {
     return hash_combine(h, it->second);
   }
-- 
2.43.0


From 15fd2f859109161bf1b754de2c2468a961792e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 043/111] fix: type hashes do not tell vectors of different
 size types apart

---
 include/cista/type_hash/static_type_hash.h | 3 +++
 include/cista/type_hash/type_hash.h        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index e396a3b..ab9a99c 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -175,6 +175,9 @@ constexpr auto static_type_hash(
     basic_vector<T, Ptr, Indexed, TemplateSizeType> const*,
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = h.combine(sizeof(TemplateSizeType));
+  }
   return static_type_hash(null<T>(), h);
 }
 
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 00e8991..1abc8fc 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -106,6 +106,9 @@ template <typename T, template <typename> typename Ptr, bool Indexed,
 hash_t type_hash(basic_vector<T, Ptr, Indexed, TemplateSizeType> const&,
                  hash_t h, std::map<hash_t, unsigned>& done) noexcept {
   h = hash_combine(h, hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = hash_combine(h, sizeof(TemplateSizeType));
+  }
   return type_hash(T{}, h, done);
 }
 
-- 
2.43.0


From e9e1324cbffe88a8ae6c8f2b3bf07ff5db5924e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 044/111] fix: type hashes do not tell strings of different
 character types apart

---
 include/cista/type_hash/static_type_hash.h | 12 +++++++++---
 include/cista/type_hash/type_hash.h        | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index ab9a99c..af73851 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -213,22 +213,28 @@ constexpr auto static_type_hash(tuple<T...> const*,
   return h;
 }
 
+template <typename CharT, std::size_t NMaxTypes>
+constexpr auto static_string_type_hash(hash_data<NMaxTypes> h) noexcept {
+  h = h.combine(hash("string"));
+  return sizeof(CharT) == 1U ? h : h.combine(sizeof(CharT));
+}
+
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(generic_string<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  return static_string_type_hash<remove_pointer_t<Ptr>>(h);
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(basic_string<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  return static_string_type_hash<remove_pointer_t<Ptr>>(h);
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(basic_string_view<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  return static_string_type_hash<remove_pointer_t<Ptr>>(h);
 }
 
 template <typename T, std::size_t NMaxTypes>
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 1abc8fc..51ab771 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -143,22 +143,28 @@ hash_t type_hash(tuple<T...> const&, hash_t h,
   return h;
 }
 
+template <typename CharT>
+hash_t string_type_hash(hash_t h) noexcept {
+  h = hash_combine(h, hash("string"));
+  return sizeof(CharT) == 1U ? h : hash_combine(h, sizeof(CharT));
+}
+
 template <typename Ptr>
 hash_t type_hash(generic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  return string_type_hash<remove_pointer_t<Ptr>>(h);
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  return string_type_hash<remove_pointer_t<Ptr>>(h);
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string_view<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  return string_type_hash<remove_pointer_t<Ptr>>(h);
 }
 
 template <typename T>
-- 
2.43.0


From 5ad4254eb2b59b8ac474691cdf1ce02e7c69e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 045/111] fix: file move assignment leaks the stream it
 replaces

---
 include/cista/targets/file.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 1b8d599..b2c5b2d 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -227,6 +227,12 @@ struct file {
   }
 
   file& operator=(file&& o) {
+    if (&o == this) {
+      return *this;
+    }
+    if (f_ != nullptr) {
+      std::fclose(f_);
+    }
     f_ = o.f_;
     size_ = o.size_;
     o.f_ = nullptr;
-- 
2.43.0


From 7912b06e02aebc8ca6d67e1d301e583d452d7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 046/111] fix: file::content and file::size ignore buffered
 writes and the position

---
 include/cista/targets/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index b2c5b2d..b922163 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -250,6 +250,7 @@ struct file {
     if (f_ == nullptr) {
       return 0U;
     }
+    verify(std::fflush(f_) == 0, "flush error");
     struct stat s;
     verify(fstat(fd(), &s) != -1, "fstat error");
     return static_cast<std::size_t>(s.st_size);
@@ -257,6 +258,7 @@ struct file {
 
   buffer content() {
     auto b = buffer(size());
+    verify(!std::fseek(f_, 0L, SEEK_SET), "fseek error");
     verify(std::fread(b.data(), 1U, b.size(), f_) == b.size(), "read error");
     return b;
   }
-- 
2.43.0


From 213c3dce095ae87ead79a0f4b8a7e7d28a0845bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 047/111] fix: updates beyond the end of a target are not
 refused

---
 include/cista/targets/buf.h  | 3 ++-
 include/cista/targets/file.h | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index 05e34e3..e3e5d3c 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -32,7 +32,8 @@ struct buf {
 
   template <typename T>
   void write(std::size_t const pos, T const& val) {
-    verify(buf_.size() >= pos + serialized_size<T>(), "out of bounds write");
+    verify(pos <= buf_.size() && buf_.size() - pos >= serialized_size<T>(),
+           "out of bounds write");
     std::memcpy(&buf_[pos], &val, serialized_size<T>());
   }
 
diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index b922163..2895bbc 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -280,6 +280,8 @@ struct file {
 
   template <typename T>
   void write(std::size_t const pos, T const& val) {
+    verify(pos <= size_ && size_ - pos >= serialized_size<T>(),
+           "out of bounds write");
     verify(!std::fseek(f_, static_cast<long>(pos), SEEK_SET), "seek error");
     verify(std::fwrite(reinterpret_cast<std::uint8_t const*>(&val), 1U,
                        serialized_size<T>(), f_) == serialized_size<T>(),
-- 
2.43.0


From 06282d39a17e8dd97a338a45ec6e462a2840b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 048/111] fix: empty aligned write to a file leaves its size
 and position wrong

---
 include/cista/targets/file.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 2895bbc..d71e94e 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -291,8 +291,6 @@ struct file {
   offset_t write(void const* ptr, std::size_t const size,
                  std::size_t alignment) {
     auto curr_offset = size_;
-    auto seek_offset = long{0};
-    auto seek_whence = int{SEEK_END};
     if (alignment > 1U) {
       auto unaligned_ptr = reinterpret_cast<void*>(size_);
       auto space = std::numeric_limits<std::size_t>::max();
@@ -301,10 +299,11 @@ struct file {
       if (aligned_ptr != nullptr) {
         curr_offset = reinterpret_cast<std::uintptr_t>(aligned_ptr);
       }
-      seek_offset = static_cast<long>(curr_offset);
-      seek_whence = SEEK_SET;
     }
-    verify(!std::fseek(f_, seek_offset, seek_whence), "seek error");
+    verify(!std::fseek(f_, static_cast<long>(size_), SEEK_SET), "seek error");
+    for (auto i = size_; i != curr_offset; ++i) {
+      verify(std::fputc(0, f_) == 0, "write error");
+    }
     verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
     size_ = curr_offset + size;
     return static_cast<offset_t>(curr_offset);
-- 
2.43.0


From fa2a882c925732af2e945eaa04e859585e1257ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 049/111] fix: checksum of a file larger than one block differs
 from that of its bytes

---
 include/cista/targets/file.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index d71e94e..a1104d6 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -264,10 +264,18 @@ struct file {
   }
 
   std::uint64_t checksum(offset_t const start = 0) const {
-    constexpr auto const block_size =
-        static_cast<std::size_t>(512U * 1024U);  // 512kB
     verify(size_ >= static_cast<std::size_t>(start), "invalid checksum offset");
     verify(!std::fseek(f_, static_cast<long>(start), SEEK_SET), "fseek error");
+#if defined(CISTA_XXH3) || defined(CISTA_WYHASH) || \
+    defined(CISTA_WYHASH_FASTEST)
+    // The hash of a range cannot be computed block by block.
+    auto b = buffer{size_ - static_cast<std::size_t>(start)};
+    verify(std::fread(b.data(), 1U, b.size(), f_) == b.size(), "invalid read");
+    return hash(
+        std::string_view{reinterpret_cast<char const*>(b.data()), b.size()});
+#else
+    constexpr auto const block_size =
+        static_cast<std::size_t>(512U * 1024U);  // 512kB
     auto c = BASE_HASH;
     char buf[block_size];
     chunk(block_size, size_ - static_cast<std::size_t>(start),
@@ -276,6 +284,7 @@ struct file {
             c = hash(std::string_view{buf, s}, c);
           });
     return c;
+#endif
   }
 
   template <typename T>
-- 
2.43.0


From e6f36ba27dc2bcd9dfc98cf14777ad918f0921a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 050/111] fix: padding written to a reused memory mapped buffer
 is not zero

---
 include/cista/targets/buf.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index e3e5d3c..a8d42c1 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -46,6 +46,7 @@ struct buf {
       start = (start + a - 1) / a * a;
     }
 
+    auto const padding = static_cast<std::size_t>(start) - size();
     auto const space_left =
         static_cast<int64_t>(buf_.size()) - static_cast<int64_t>(start);
     if (space_left < static_cast<int64_t>(num_bytes)) {
@@ -53,6 +54,9 @@ struct buf {
           static_cast<int64_t>(num_bytes) - space_left);
       buf_.resize(buf_.size() + missing);
     }
+    if (padding != 0U) {
+      std::memset(addr(start) - padding, 0, padding);
+    }
     std::memcpy(addr(start), ptr, num_bytes);
 
     return start;
-- 
2.43.0


From 66b24b7cae2caa2595e8f240dd0cac83c885bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 051/111] fix: mmap leaks mappings when closed, assigned and
 default constructed

---
 include/cista/mmap.h | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index c6b40d2..fa6b351 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -38,14 +38,7 @@ struct mmap {
         addr_{size_ == 0U ? nullptr : map()} {}
 
   ~mmap() {
-    if (addr_ != nullptr) {
-      sync();
-      size_ = used_size_;
-      unmap();
-      if (size_ != f_.size()) {
-        resize_file();
-      }
-    }
+    close();
   }
 
   mmap(mmap const&) = delete;
@@ -61,9 +54,14 @@ struct mmap {
     file_mapping_ = o.file_mapping_;
 #endif
     o.addr_ = nullptr;
+    o.size_ = o.used_size_ = 0U;
   }
 
   mmap& operator=(mmap&& o) {
+    if (&o == this) {
+      return *this;
+    }
+    close();
     f_ = std::move(o.f_);
     prot_ = o.prot_;
     size_ = o.size_;
@@ -73,6 +71,7 @@ struct mmap {
     file_mapping_ = o.file_mapping_;
 #endif
     o.addr_ = nullptr;
+    o.size_ = o.used_size_ = 0U;
     return *this;
   }
 
@@ -126,6 +125,17 @@ struct mmap {
   }
 
 private:
+  void close() {
+    if (addr_ != nullptr) {
+      sync();
+      unmap();
+      size_ = used_size_;
+      if (size_ != f_.size()) {
+        resize_file();
+      }
+    }
+  }
+
   void unmap() {
 #ifdef _WIN32
     if (addr_ != nullptr) {
@@ -205,12 +215,12 @@ private:
   }
 
   file f_;
-  protection prot_;
-  std::size_t size_;
-  std::size_t used_size_;
-  void* addr_;
+  protection prot_{protection::READ};
+  std::size_t size_{0U};
+  std::size_t used_size_{0U};
+  void* addr_{nullptr};
 #ifdef _WIN32
-  HANDLE file_mapping_;
+  HANDLE file_mapping_{nullptr};
 #endif
 };
 
-- 
2.43.0


From 9f184d3ea562346e01bb97c193d472b0d41634b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 052/111] fix: mmap loses its contents if growing fails

---
 include/cista/mmap.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index fa6b351..431dc96 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -208,10 +208,28 @@ private:
       return;
     }
 
+#ifdef _WIN32
     unmap();
     size_ = new_size;
     resize_file();
     addr_ = map();
+#else
+    // The current mapping is given up only once the new one exists.
+    auto const old_size = size_;
+    verify(::ftruncate(f_.fd(), static_cast<off_t>(new_size)) == 0,
+           "resize error");
+    auto const addr = ::mmap(nullptr, new_size, PROT_READ | PROT_WRITE,
+                             MAP_SHARED, f_.fd(), OFFSET);
+    if (addr == MAP_FAILED) {
+      auto const restored =
+          ::ftruncate(f_.fd(), static_cast<off_t>(old_size)) == 0;
+      verify(restored, "map error, resize error");
+      verify(false, "map error");
+    }
+    unmap();
+    size_ = new_size;
+    addr_ = addr;
+#endif
   }
 
   file f_;
-- 
2.43.0


From 4757a7f9216ef15166ce06347eb9ac21382c9886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 053/111] fix: mmap_vec: reserved space ends up in the file,
 aliasing arguments, insert position

---
 include/cista/containers/mmap_vec.h | 42 ++++++++++++++++-------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 8fcbc61..59c973b 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -27,16 +27,15 @@ struct basic_mmap_vec {
         used_size_{static_cast<size_type>(mmap_.size() / sizeof(T))} {}
 
   void push_back(T const& t) {
-    ++used_size_;
-    mmap_.resize(sizeof(T) * used_size_);
-    (*this)[Key{used_size_ - 1U}] = t;
+    emplace_back(t);
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
-    new (data() + used_size_) T{std::forward<Args>(el)...};
-    T* ptr = data() + used_size_;
+    // (the arguments may refer to elements, which can move)
+    auto const copy = T{std::forward<Args>(el)...};
+    grow(used_size_ + 1U);
+    T* ptr = new (data() + used_size_) T{copy};
     ++used_size_;
     return *ptr;
   }
@@ -72,10 +71,12 @@ struct basic_mmap_vec {
     return begin()[to_idx(index)];
   }
 
-  void reserve(size_type const size) { mmap_.resize(size * sizeof(T)); }
+  void reserve(size_type const size) {
+    mmap_.reserve(static_cast<std::size_t>(size) * sizeof(T));
+  }
 
   void resize(size_type const size) {
-    mmap_.resize(size * sizeof(T));
+    grow(size);
     for (auto i = used_size_; i < size; ++i) {
       new (data() + i) T{};
     }
@@ -93,7 +94,7 @@ struct basic_mmap_vec {
                    static_cast<diff_t>(std::numeric_limits<size_type>::max()),
            "cista::vector::set: invalid range");
 
-    reserve(static_cast<size_type>(range_size));
+    grow(static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
     auto copy_target = data();
@@ -109,11 +110,10 @@ struct basic_mmap_vec {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
-    new (data() + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg>(el));
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -122,12 +122,11 @@ struct basic_mmap_vec {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
-      new (data() + used_size_) T{std::forward<decltype(*first)>(*first)};
-      ++used_size_;
+      emplace_back(std::forward<decltype(*first)>(*first));
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
@@ -139,7 +138,7 @@ struct basic_mmap_vec {
 
     auto const pos_idx = pos - begin();
     auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    grow(used_size_ + new_count);
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
@@ -170,6 +169,13 @@ struct basic_mmap_vec {
                   typename std::iterator_traits<It>::iterator_category());
   }
 
+private:
+  // The used size of the mapping is what the file is cut to when it is closed.
+  void grow(size_type const size) {
+    mmap_.resize(static_cast<std::size_t>(size) * sizeof(T));
+  }
+
+public:
   cista::mmap mmap_;
   size_type used_size_{0U};
 };
-- 
2.43.0


From 280fd3de1da84afd53bfad131b9a8bd6a86e04b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 054/111] fix: buf accesses elements beyond its end for empty
 blocks and ranges

---
 include/cista/targets/buf.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index a8d42c1..f6fe4eb 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -25,6 +25,9 @@ struct buf {
   std::uint8_t* base() noexcept { return &buf_[0U]; }
 
   std::uint64_t checksum(offset_t const start = 0U) const noexcept {
+    if (static_cast<std::size_t>(start) >= buf_.size()) {
+      return hash(std::string_view{});
+    }
     return hash(std::string_view{
         reinterpret_cast<char const*>(&buf_[static_cast<std::size_t>(start)]),
         buf_.size() - static_cast<std::size_t>(start)});
@@ -55,9 +58,11 @@ struct buf {
       buf_.resize(buf_.size() + missing);
     }
     if (padding != 0U) {
-      std::memset(addr(start) - padding, 0, padding);
+      std::memset(addr(start - static_cast<offset_t>(padding)), 0, padding);
+    }
+    if (num_bytes != 0U) {
+      std::memcpy(addr(start), ptr, num_bytes);
     }
-    std::memcpy(addr(start), ptr, num_bytes);
 
     return start;
   }
-- 
2.43.0


From eeb0069b78f179435cd15977207bcf6fb76eeb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 055/111] fix: relative pointers of hostile images were added
 up before the overflow check

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index f23b543..5cb7780 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -626,7 +626,7 @@ struct deserialization_context {
   template <typename T>
   void check_ptr(offset_ptr<T> const& el,
                  std::size_t const size = type_size<T>()) const {
-    if (el != nullptr) {
+    if (el.offset_ != NULLPTR_OFFSET) {
       checked_addition(el.offset_, reinterpret_cast<offset_t>(&el));
       check_ptr(el.get(), size);
     }
-- 
2.43.0


From 156e6c6605424bb4184731f05ee2a4fc5fe8d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 056/111] fix: hostile images with cyclic or shared ownership
 were read forever

---
 include/cista/serialization.h | 39 ++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 5cb7780..b925876 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -592,7 +592,8 @@ struct deserialization_context {
 
   deserialization_context(std::uint8_t const* from, std::uint8_t const* to)
       : from_{reinterpret_cast<intptr_t>(from)},
-        to_{reinterpret_cast<intptr_t>(to)} {}
+        to_{reinterpret_cast<intptr_t>(to)},
+        owned_limit_{static_cast<std::size_t>(to_ - from_)} {}
 
   template <typename T>
   void convert_endian(T& el) const {
@@ -657,6 +658,17 @@ struct deserialization_context {
     }
   }
 
+  // Owned storage is visited once. As it does not overlap in an intact buffer,
+  // its total size is bounded. Cyclic or shared ownership is not.
+  template <typename T>
+  bool visit_owned(T const*, std::size_t const size) const {
+    if (to_ != 0U) {
+      require(size <= owned_limit_, "owned storage exceeds buffer");
+      owned_limit_ -= size;
+    }
+    return true;
+  }
+
   static void check_bool(bool const& b) {
     auto const val = *reinterpret_cast<std::uint8_t const*>(&b);
     verify(val <= 1U, "valid bool");
@@ -671,6 +683,7 @@ struct deserialization_context {
   }
 
   intptr_t from_, to_;
+  std::size_t mutable owned_limit_;
 };
 
 template <mode Mode>
@@ -684,7 +697,15 @@ struct deep_check_context : public deserialization_context<Mode> {
     return checked_.emplace(type_hash<T>(), static_cast<void const*>(v)).second;
   }
 
+  // Pointers may lead to the same object several times.
+  template <typename T>
+  bool visit_owned(T const* v, std::size_t) const {
+    return visited_.emplace(&type_id<T>::id_, static_cast<void const*>(v))
+        .second;
+  }
+
   std::set<std::pair<hash_t, void const*>> mutable checked_;
+  std::set<std::pair<void const*, void const*>> mutable visited_;
 };
 
 template <typename T, mode const Mode = mode::NONE>
@@ -835,8 +856,12 @@ void check_state(Ctx const& c,
 
 template <typename Ctx, typename T, template <typename> typename Ptr,
           bool Indexed, typename TemplateSizeType, typename Fn>
-void recurse(Ctx&, basic_vector<T, Ptr, Indexed, TemplateSizeType>* el,
+void recurse(Ctx& c, basic_vector<T, Ptr, Indexed, TemplateSizeType>* el,
              Fn&& fn) {
+  if (el->empty() ||
+      !c.visit_owned(el, static_cast<std::size_t>(el->size()) * sizeof(T))) {
+    return;
+  }
   for (auto& m : *el) {  // NOLINT(clang-analyzer-core.NullDereference)
     fn(&m);
   }
@@ -945,8 +970,8 @@ void check_state(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
 }
 
 template <typename Ctx, typename T, typename Ptr, typename Fn>
-void recurse(Ctx&, basic_unique_ptr<T, Ptr>* el, Fn&& fn) {
-  if (el->el_ != nullptr) {
+void recurse(Ctx& c, basic_unique_ptr<T, Ptr>* el, Fn&& fn) {
+  if (el->el_ != nullptr && c.visit_owned(el, sizeof(T))) {
     fn(static_cast<T*>(el->el_));
   }
 }
@@ -1047,8 +1072,12 @@ void check_state(Ctx const& c,
 template <typename Ctx, typename T, template <typename> typename Ptr,
           typename GetKey, typename GetValue, typename Hash, typename Eq,
           typename Fn>
-void recurse(Ctx&, hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>* el,
+void recurse(Ctx& c, hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>* el,
              Fn&& fn) {
+  if (el->empty() ||
+      !c.visit_owned(el, static_cast<std::size_t>(el->capacity_) * sizeof(T))) {
+    return;
+  }
   for (auto& m : *el) {
     fn(&m);
   }
-- 
2.43.0


From cea5cacdb727130324d1390f34c111c6b3acb291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 057/111] fix: stored indices of hostile images were not
 checked

---
 include/cista/serialization.h | 90 ++++++++++++++++++++++++++++++++++-
 1 file changed, 89 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index b925876..2da0bd9 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -11,6 +11,7 @@
 #include "cista/aligned_alloc.h"
 #include "cista/cista_member_offset.h"
 #include "cista/containers.h"
+#include "cista/containers/flat_matrix.h"
 #include "cista/decay.h"
 #include "cista/endian/conversion.h"
 #include "cista/hash.h"
@@ -976,18 +977,105 @@ void recurse(Ctx& c, basic_unique_ptr<T, Ptr>* el, Fn&& fn) {
   }
 }
 
+// --- CONTAINERS ADDRESSING THEIR ELEMENTS BY INDEX ---
+template <typename Ctx, typename IndexVec>
+void check_starts(Ctx const& c, IndexVec const& starts,
+                  std::size_t const size) {
+  if constexpr (is_mode_disabled(Ctx::MODE, mode::UNCHECKED)) {
+    c.require(std::is_sorted(starts.begin(), starts.end()),
+              "bucket starts not ascending");
+    c.require(
+        starts.empty() || static_cast<std::size_t>(to_idx(starts.back())) <= size,
+        "bucket exceeds data");
+  }
+}
+
+// --- VECVEC<K, V> ---
+template <typename Ctx, typename K, typename DataVec, typename IndexVec,
+          typename Fn>
+void recurse(Ctx& c, basic_vecvec<K, DataVec, IndexVec>* el, Fn&& fn) {
+  fn(&el->data_);
+  fn(&el->bucket_starts_);
+  check_starts(c, el->bucket_starts_, el->data_.size());
+}
+
+// --- NVEC<K, V, N> ---
+template <typename Ctx, typename K, typename DataVec, typename IndexVec,
+          std::size_t N, typename SizeType, typename Fn>
+void recurse(Ctx& c, basic_nvec<K, DataVec, IndexVec, N, SizeType>* el,
+             Fn&& fn) {
+  fn(&el->index_);
+  fn(&el->data_);
+  check_starts(c, el->index_[0U], el->data_.size());
+  for (auto i = std::size_t{1U}; i != N; ++i) {
+    c.require(el->index_[i - 1U].empty() == el->index_[i].empty(),
+              "nvec: index missing");
+    check_starts(
+        c, el->index_[i],
+        el->index_[i].empty() ? 0U : el->index_[i - 1U].size() - 1U);
+  }
+}
+
+// --- FWS_MULTIMAP<K, V> ---
+template <typename Ctx, typename DataVec, typename IndexVec, typename Fn>
+void recurse(Ctx& c, fws_multimap<DataVec, IndexVec>* el, Fn&& fn) {
+  fn(&el->data_);
+  fn(&el->index_);
+  fn(&el->current_start_);
+  fn(&el->complete_);
+  check_starts(c, el->index_, el->data_.size());
+  c.require(!el->complete_ || !el->index_.empty(),
+            "fws_multimap: complete without index");
+}
+
 // --- MUTABLE_FWS_MULTIMAP<T> ---
 template <typename Ctx, typename T, typename SizeType,
           template <typename> typename Vec, std::size_t Log2MaxEntriesPerBucket,
           typename Fn>
 void recurse(
-    Ctx&,
+    Ctx& c,
     dynamic_fws_multimap_base<T, SizeType, Vec, Log2MaxEntriesPerBucket>* el,
     Fn&& fn) {
   fn(&el->index_);
   fn(&el->data_);
   fn(&el->free_buckets_);
   fn(&el->element_count_);
+  if constexpr (is_mode_disabled(Ctx::MODE, mode::UNCHECKED)) {
+    for (auto const& b : el->index_) {
+      c.require(b.size_ <= b.capacity_ && b.begin_ <= el->data_.size() &&
+                    b.capacity_ <= el->data_.size() - b.begin_,
+                "mutable_fws_multimap: bucket exceeds data");
+    }
+  }
+}
+
+// --- PAGED_VECVEC<Index, Paged, Key> ---
+template <typename Ctx, typename Index, typename Paged, typename Key,
+          typename Fn>
+void recurse(Ctx& c, paged_vecvec<Index, Paged, Key>* el, Fn&& fn) {
+  fn(&el->paged_);
+  fn(&el->idx_);
+  if constexpr (is_mode_disabled(Ctx::MODE, mode::UNCHECKED)) {
+    auto const size = el->paged_.data_.size();
+    for (auto const& p : el->idx_) {
+      c.require(p.size_ <= p.capacity_ && p.start_ <= size &&
+                    p.capacity_ <= size - p.start_ &&
+                    (p.start_ < size || size == 0U),
+                "paged_vecvec: page exceeds data");
+    }
+  }
+}
+
+// --- FLAT_MATRIX<T> ---
+template <typename Ctx, typename Vector, typename Fn>
+void recurse(Ctx& c, base_flat_matrix<Vector>* el, Fn&& fn) {
+  fn(&el->n_rows_);
+  fn(&el->n_columns_);
+  fn(&el->entries_);
+  c.require(checked_multiplication(static_cast<std::size_t>(el->n_rows_),
+                                   static_cast<std::size_t>(el->n_columns_)) <=
+                static_cast<std::size_t>(el->entries_.size()),
+            "flat_matrix: dimensions exceed entries");
 }
 
 // --- HASH_STORAGE<T> ---
-- 
2.43.0


From 9466ead5fd6753299982f18716f6eb9668a2ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 058/111] fix: overlapping objects of hostile images were
 changed after their check

---
 include/cista/serialization.h | 37 ++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 2da0bd9..d3e44b1 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -599,6 +599,7 @@ struct deserialization_context {
   template <typename T>
   void convert_endian(T& el) const {
     if constexpr (endian_conversion_necessary<MODE>()) {
+      converted_ = true;
       el = ::cista::convert_endian<MODE>(el);
     }
   }
@@ -609,6 +610,7 @@ struct deserialization_context {
         reinterpret_cast<offset_t>(::cista::convert_endian<MODE>(*ptr));
     static_assert(is_mode_disabled(MODE, mode::_CONST),
                   "raw pointer deserialize is not const");
+    converted_ = true;
     *ptr = offset == NULLPTR_OFFSET
                ? nullptr
                : reinterpret_cast<Ptr*>(
@@ -685,6 +687,18 @@ struct deserialization_context {
 
   intptr_t from_, to_;
   std::size_t mutable owned_limit_;
+  bool mutable converted_{false};
+};
+
+// Nothing is converted, pointers are not followed.
+template <mode Mode>
+struct recheck_context : public deserialization_context<Mode> {
+  using deserialization_context<Mode>::deserialization_context;
+
+  template <typename T>
+  static bool add_checked(T const*) {
+    return false;
+  }
 };
 
 template <mode Mode>
@@ -981,7 +995,7 @@ void recurse(Ctx& c, basic_unique_ptr<T, Ptr>* el, Fn&& fn) {
 template <typename Ctx, typename IndexVec>
 void check_starts(Ctx const& c, IndexVec const& starts,
                   std::size_t const size) {
-  if constexpr (is_mode_disabled(Ctx::MODE, mode::UNCHECKED)) {
+  if (is_mode_disabled(Ctx::MODE, mode::UNCHECKED) && !c.converted_) {
     c.require(std::is_sorted(starts.begin(), starts.end()),
               "bucket starts not ascending");
     c.require(
@@ -1040,7 +1054,7 @@ void recurse(
   fn(&el->data_);
   fn(&el->free_buckets_);
   fn(&el->element_count_);
-  if constexpr (is_mode_disabled(Ctx::MODE, mode::UNCHECKED)) {
+  if (is_mode_disabled(Ctx::MODE, mode::UNCHECKED) && !c.converted_) {
     for (auto const& b : el->index_) {
       c.require(b.size_ <= b.capacity_ && b.begin_ <= el->data_.size() &&
                     b.capacity_ <= el->data_.size() - b.begin_,
@@ -1055,7 +1069,7 @@ template <typename Ctx, typename Index, typename Paged, typename Key,
 void recurse(Ctx& c, paged_vecvec<Index, Paged, Key>* el, Fn&& fn) {
   fn(&el->paged_);
   fn(&el->idx_);
-  if constexpr (is_mode_disabled(Ctx::MODE, mode::UNCHECKED)) {
+  if (is_mode_disabled(Ctx::MODE, mode::UNCHECKED) && !c.converted_) {
     auto const size = el->paged_.data_.size();
     for (auto const& p : el->idx_) {
       c.require(p.size_ <= p.capacity_ && p.start_ <= size &&
@@ -1162,12 +1176,18 @@ template <typename Ctx, typename T, template <typename> typename Ptr,
           typename Fn>
 void recurse(Ctx& c, hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>* el,
              Fn&& fn) {
+  using Type = decay_t<remove_pointer_t<decltype(el)>>;
   if (el->empty() ||
       !c.visit_owned(el, static_cast<std::size_t>(el->capacity_) * sizeof(T))) {
     return;
   }
-  for (auto& m : *el) {
-    fn(&m);
+  auto const entries = ptr_cast(el->entries_);
+  auto const ctrl = ptr_cast(el->ctrl_);
+  auto const capacity = el->capacity_;
+  for (auto i = decltype(el->capacity_){0U}; i != capacity; ++i) {
+    if (Type::is_full(ctrl[i])) {
+      fn(entries + i);
+    }
   }
 }
 
@@ -1263,6 +1283,13 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
     if constexpr ((Mode & mode::DEEP_CHECK) == mode::DEEP_CHECK) {
       deep_check_context<Mode | mode::_PHASE_II> c1{from, to};
       deserialize(c1, el);
+    } else if constexpr (is_mode_disabled(Mode, mode::UNCHECKED)) {
+      // Objects overlapping in a hostile buffer can be changed by conversion
+      // after they have been checked.
+      if (c.converted_) {
+        recheck_context<Mode | mode::_PHASE_II> c1{from, to};
+        deserialize(c1, el);
+      }
     }
 
     return el;
-- 
2.43.0


From 5428f1321f5d00fd5d385a810f1e7eff2dca9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 059/111] fix: unchecked bool members were loaded to convert
 their endianness

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index d3e44b1..6041156 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -598,7 +598,7 @@ struct deserialization_context {
 
   template <typename T>
   void convert_endian(T& el) const {
-    if constexpr (endian_conversion_necessary<MODE>()) {
+    if constexpr (endian_conversion_necessary<MODE>() && sizeof(T) > 1U) {
       converted_ = true;
       el = ::cista::convert_endian<MODE>(el);
     }
-- 
2.43.0


From 2fd5077f0903e2e32080cf87257a99976f5cfdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 060/111] fix: node indices of hostile spatial indexes were not
 checked

---
 include/cista/containers/rtree.h | 37 ++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index de74b0b..fcc85a6 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -2,6 +2,7 @@
 
 #include <cinttypes>
 #include <filesystem>
+#include <vector>
 
 #include "cista/cista_member_offset.h"
 #include "cista/containers/array.h"
@@ -9,6 +10,7 @@
 #include "cista/containers/vector.h"
 #include "cista/endian/conversion.h"
 #include "cista/io.h"
+#include "cista/mode.h"
 
 namespace cista {
 
@@ -615,6 +617,41 @@ struct basic_rtree {
     m_.free_list_ = node_id;
   }
 
+  bool is_intact() const {
+    auto n_visited = std::size_t{0U};
+    auto todo = std::vector<node_idx_t>{};
+    if (m_.root_ != node_idx_t::invalid()) {
+      todo.emplace_back(m_.root_);
+    }
+    while (!todo.empty()) {
+      auto const idx = todo.back();
+      todo.pop_back();
+      if (to_idx(idx) >= nodes_.size() || ++n_visited > nodes_.size()) {
+        return false;
+      }
+      auto const& n = get_node(idx);
+      if (n.count_ > MaxItems ||
+          (n.kind_ != kind::kLeaf && n.kind_ != kind::kBranch)) {
+        return false;
+      }
+      if (n.kind_ == kind::kBranch) {
+        for (auto i = 0U; i != n.count_; ++i) {
+          todo.emplace_back(n.children_[i]);
+        }
+      }
+    }
+    return true;
+  }
+
+  template <typename Ctx, typename Fn>
+  friend void recurse(Ctx& c, basic_rtree* el, Fn&& fn) {
+    fn(&el->m_);
+    fn(&el->nodes_);
+    if (is_mode_disabled(Ctx::MODE, mode::UNCHECKED) && !c.converted_) {
+      c.require(el->is_intact(), "rtree: broken tree");
+    }
+  }
+
   void write_meta(std::filesystem::path const& p) { write(p, m_); }
   void read_meta(std::filesystem::path const& p) { m_ = *read<meta>(p); }
 
-- 
2.43.0


From 29a147d79384dc31320f45fe059a00e7799cce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 061/111] fix: vecvec::at accepts the index one past the last
 bucket

---
 include/cista/containers/vecvec.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e649847..1333cd4 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -334,14 +334,12 @@ struct basic_vecvec {
   }
 
   CISTA_CUDA_COMPAT const_bucket at(Key const i) const {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
   CISTA_CUDA_COMPAT bucket at(Key const i) {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
-- 
2.43.0


From 7f18fc6b3f386cae9c6cfdf85024e0c939b81cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 062/111] fix: vecvec::resize keeps the elements of removed
 buckets

---
 include/cista/containers/vecvec.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 1333cd4..3cfa822 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -407,6 +407,7 @@ struct basic_vecvec {
     for (auto i = old_size; i < new_size + 1U; ++i) {
       bucket_starts_[i] = data_.size();
     }
+    data_.resize(bucket_starts_.back());
   }
 
   CISTA_CUDA_COMPAT
-- 
2.43.0


From 433cef71c38ba3eb139945d4f1bc9a920ca637a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 063/111] fix: vecvec without buckets claims not to be empty
 after resize(0)

---
 include/cista/containers/vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 3cfa822..ac7e13d 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -350,9 +350,9 @@ struct basic_vecvec {
   CISTA_CUDA_COMPAT const_bucket back() const { return at(Key{size() - 1}); }
 
   CISTA_CUDA_COMPAT index_value_type size() const {
-    return empty() ? 0U : bucket_starts_.size() - 1;
+    return bucket_starts_.empty() ? 0U : bucket_starts_.size() - 1;
   }
-  CISTA_CUDA_COMPAT bool empty() const { return bucket_starts_.empty(); }
+  CISTA_CUDA_COMPAT bool empty() const { return size() == 0U; }
 
   void clear() {
     bucket_starts_.clear();
-- 
2.43.0


From 6264b34407516d3672c329b9bf792e5f306c1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 064/111] fix: data() of an empty vecvec bucket accesses its
 first element

---
 include/cista/containers/vecvec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index ac7e13d..285f449 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -31,7 +31,9 @@ struct basic_vecvec {
     CISTA_CUDA_COMPAT bucket(basic_vecvec* map, index_value_type const i)
         : map_{map}, i_{to_idx(i)} {}
 
-    friend CISTA_CUDA_COMPAT data_value_type* data(bucket b) { return &b[0]; }
+    friend CISTA_CUDA_COMPAT data_value_type* data(bucket b) {
+      return b.empty() ? nullptr : &b[0];
+    }
     friend CISTA_CUDA_COMPAT index_value_type size(bucket b) {
       return b.size();
     }
-- 
2.43.0


From e45dc47360d52c246d5719a4884d22326ef01e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 065/111] fix: negative distances between bucket iterators are
 wrong

---
 include/cista/containers/nvec.h         | 6 ++++--
 include/cista/containers/paged_vecvec.h | 6 ++++--
 include/cista/containers/vecvec.h       | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 82aa930..bdaecd4 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -111,7 +111,8 @@ struct const_bucket final {
                                    const_bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
@@ -247,7 +248,8 @@ struct bucket final {
   friend difference_type operator-(bucket const& a, bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 4c8a98d..ea4875b 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -110,7 +110,8 @@ struct paged_vecvec {
     friend difference_type operator-(const_bucket const& a,
                                      const_bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
@@ -250,7 +251,8 @@ struct paged_vecvec {
     }
     friend difference_type operator-(bucket const& a, bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 285f449..8a0df29 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -172,7 +172,8 @@ struct basic_vecvec {
     CISTA_CUDA_COMPAT friend difference_type operator-(bucket const& a,
                                                        bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
@@ -306,7 +307,8 @@ struct basic_vecvec {
     friend CISTA_CUDA_COMPAT difference_type operator-(const_bucket const& a,
                                                        const_bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
-- 
2.43.0


From 4df20d128772babd7ebe127ec48b1c50525f4ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 066/111] fix: fws_multimap iterator minus n advances

---
 include/cista/containers/fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 566e108..8f61be9 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -91,7 +91,7 @@ struct fws_multimap_iterator {
   }
 
   fws_multimap_iterator operator-(int const n) const {
-    return {map_, index_ + static_cast<index_t>(n)};
+    return {map_, index_ - static_cast<index_t>(n)};
   }
 
   int operator-(fws_multimap_iterator const& o) const {
-- 
2.43.0


From 1b6959f2ca90f19f8ab47fff0afa0cd2790f1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 067/111] fix: iterating an fws_multimap without keys leaves
 its index

---
 include/cista/containers/fws_multimap.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 8f61be9..21297ae 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -182,7 +182,9 @@ struct fws_multimap {
   }
 
   iterator begin() const { return {*this, 0}; }
-  iterator end() const { return {*this, index_.size() - 1}; }
+  iterator end() const {
+    return {*this, index_.empty() ? index_.size() : index_.size() - 1};
+  }
 
   iterator cbegin() const { return begin(); }
   iterator cend() const { return end(); }
-- 
2.43.0


From 892da140b3994331bcee0d7f187a64bbe91445d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 068/111] fix: iterating a flat_matrix row does not compile

---
 include/cista/containers/flat_matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 411a062..616e6ad 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -18,16 +18,16 @@ struct base_flat_matrix {
     using const_iterator = typename Vector::const_iterator;
 
     const_iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     const_iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     iterator begin() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend const_iterator begin(row const& r) { return r.begin(); }
     friend const_iterator end(row const& r) { return r.end(); }
@@ -51,10 +51,10 @@ struct base_flat_matrix {
     using iterator = typename Vector::const_iterator;
 
     iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend iterator begin(const_row const& r) { return r.begin(); }
     friend iterator end(const_row const& r) { return r.end(); }
-- 
2.43.0


From b42498d86a28d0d7b9e50439234f93eb54f7c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 069/111] fix: vecvec::emplace_back empties the elements of
 named containers and buckets

---
 include/cista/containers/vecvec.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 8a0df29..e9a550f 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -3,6 +3,7 @@
 #include <cassert>
 #include <iterator>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include "cista/const_iterator.h"
@@ -370,9 +371,19 @@ struct basic_vecvec {
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
-    data_.insert(std::end(data_),  //
-                 std::make_move_iterator(std::begin(bucket)),
-                 std::make_move_iterator(std::end(bucket)));
+    // Only a temporary that owns its elements (propagates const to them) is
+    // moved from. Others (named containers, views, buckets) stay unchanged.
+    using ref_t = decltype(*std::begin(bucket));
+    using const_ref_t = decltype(*std::begin(std::as_const(bucket)));
+    if constexpr (std::is_constructible_v<data_value_type, ref_t> &&
+                  (std::is_lvalue_reference_v<Container> ||
+                   std::is_same_v<ref_t, const_ref_t>)) {
+      data_.insert(std::end(data_), std::begin(bucket), std::end(bucket));
+    } else {
+      data_.insert(std::end(data_),  //
+                   std::make_move_iterator(std::begin(bucket)),
+                   std::make_move_iterator(std::end(bucket)));
+    }
     bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
   }
 
-- 
2.43.0


From 37ef0594b65e07495f3b17f2f91fdf89f211f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 070/111] fix: nvec::emplace_back empties the elements of named
 containers

---
 include/cista/containers/nvec.h | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index bdaecd4..8aa2e04 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -1,7 +1,10 @@
 #pragma once
 
 #include <cinttypes>
+#include <iterator>
 #include <string_view>
+#include <type_traits>
+#include <utility>
 
 #include "cista/containers/array.h"
 #include "cista/containers/vector.h"
@@ -476,7 +479,7 @@ struct basic_nvec {
         i.push_back(0U);
       }
     }
-    add<N - 1>(bucket);
+    add<N - 1>(std::forward<Container>(bucket));
   }
 
   iterator operator[](Key const k) { return begin() + to_idx(k); }
@@ -543,13 +546,31 @@ struct basic_nvec {
   void add(Container&& c) {
     if constexpr (L == 0) {
       index_[0].push_back(static_cast<size_type>(data_.size() + c.size()));
-      data_.insert(std::end(data_), std::make_move_iterator(std::begin(c)),
-                   std::make_move_iterator(std::end(c)));
+      // Only a temporary that owns its elements (propagates const to them) is
+      // moved from.
+      using ref_t = decltype(*std::begin(c));
+      using const_ref_t = decltype(*std::begin(std::as_const(c)));
+      if constexpr (std::is_constructible_v<data_value_type, ref_t> &&
+                    (std::is_lvalue_reference_v<Container> ||
+                     std::is_same_v<ref_t, const_ref_t>)) {
+        data_.insert(std::end(data_), std::begin(c), std::end(c));
+      } else {
+        data_.insert(std::end(data_), std::make_move_iterator(std::begin(c)),
+                     std::make_move_iterator(std::end(c)));
+      }
     } else {
       index_[L].push_back(
           static_cast<size_type>(index_[L - 1].size() + c.size() - 1U));
+      using ref_t = decltype(*std::begin(c));
+      using const_ref_t = decltype(*std::begin(std::as_const(c)));
       for (auto&& x : c) {
-        add<L - 1>(x);
+        if constexpr (std::is_lvalue_reference_v<Container> ||
+                      (std::is_lvalue_reference_v<ref_t> &&
+                       std::is_same_v<ref_t, const_ref_t>)) {
+          add<L - 1>(x);
+        } else {
+          add<L - 1>(std::move(x));
+        }
       }
     }
   }
-- 
2.43.0


From 8e957350de8059bbf561648d45abe17836aeca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 071/111] fix: nvec at() and size() check and resolve indices
 at the wrong level

---
 include/cista/containers/nvec.h | 56 ++++++++++++---------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 8aa2e04..1bfe425 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -491,55 +491,41 @@ struct basic_nvec {
 
   template <typename... Indices>
   size_type size(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    if (sizeof...(Indices) == 0U) {
-      return get_size<N - sizeof...(Indices) - 1>(first);
-    } else {
-      return get_size<N - sizeof...(Indices) - 1>(index_[I][first], rest...);
-    }
+    static_assert(sizeof...(Indices) < N);
+    verify(to_idx(first) < size(), "nvec::size: index out of range");
+    return get_size<N - 1U>(to_idx(first), rest...);
   }
 
   template <typename... Indices>
   bucket_t at(Key const first, Indices... rest) {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return {&data_, &index_[0], get_index<N - 1U>(to_idx(first), rest...)};
   }
 
   template <typename... Indices>
   const_bucket_t at(Key const first, Indices... rest) const {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return {&data_, &index_[0], get_index<N - 1U>(to_idx(first), rest...)};
   }
 
   auto cista_members() noexcept { return std::tie(index_, data_); }
 
-  template <typename... Rest>
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i, Rest... rest) {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
-  }
-
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i) {
-    return {&data_, &index_[0], bucket_start + i};
-  }
-
-  template <typename... Rest>
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i, Rest... rest) const {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+  // Position of entry j (rest...) of entry i at level L.
+  template <std::size_t L, typename... Rest>
+  index_value_type get_index(index_value_type const i, index_value_type const j,
+                             Rest... rest) const {
+    verify(j < get_size<L>(i), "nvec::at: index out of range");
+    return get_index<L - 1U>(static_cast<index_value_type>(index_[L][i] + j),
+                             rest...);
   }
 
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i) const {
-    return {&data_, &index_[0], bucket_start + i};
+  template <std::size_t L>
+  index_value_type get_index(index_value_type const i) const {
+    return i;
   }
 
   template <std::size_t L, typename Container>
@@ -578,11 +564,9 @@ struct basic_nvec {
   template <std::size_t L, typename... Rest>
   size_type get_size(index_value_type const i, index_value_type const j,
                      Rest... rest) const {
-    if constexpr (sizeof...(Rest) == 0U) {
-      return index_[L][i + j + 1] - index_[L][i + j];
-    } else {
-      return get_size<L>(index_[L][i + j], rest...);
-    }
+    verify(j < get_size<L>(i), "nvec::size: index out of range");
+    return get_size<L - 1U>(static_cast<index_value_type>(index_[L][i] + j),
+                            rest...);
   }
 
   template <std::size_t L>
-- 
2.43.0


From 756cadd0b01d15ee31ffacdee45af691c0e72069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 072/111] fix: flat_matrix dimensions whose product overflows
 give too little storage

---
 include/cista/containers/flat_matrix.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 616e6ad..07dbeba 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <cinttypes>
+#include <limits>
 
 #include "cista/containers/vector.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -94,9 +96,19 @@ struct base_flat_matrix {
   }
 
   void resize(size_type const n_rows, size_t const n_columns) {
+    entries_.resize(get_size(n_rows, n_columns));
     n_rows_ = n_rows;
-    n_columns_ = n_columns;
-    entries_.resize(n_rows * n_columns);
+    n_columns_ = static_cast<size_type>(n_columns);
+  }
+
+  static size_type get_size(std::size_t const n_rows,
+                            std::size_t const n_columns) {
+    verify(n_columns == 0U ||
+               n_rows <= std::numeric_limits<size_type>::max() / n_columns,
+           "flat_matrix: too many entries");
+    verify(n_columns <= std::numeric_limits<size_type>::max(),
+           "flat_matrix: too many columns");
+    return static_cast<size_type>(n_rows * n_columns);
   }
 
   void reset(value_type const& t) {
@@ -117,7 +129,7 @@ inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
   auto v = vector<T>{};
-  v.resize(n_rows * n_columns, init);
+  v.resize(flat_matrix<T>::get_size(n_rows, n_columns), init);
   return {n_rows, n_columns, std::move(v)};
 }
 
@@ -133,7 +145,7 @@ inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
   auto v = vector<T>{};
-  v.resize(n_rows * n_columns, init);
+  v.resize(flat_matrix<T>::get_size(n_rows, n_columns), init);
   return {n_rows, n_columns, std::move(v)};
 }
 
-- 
2.43.0


From 4c49cc4a1210085ca84933f33ab4c7d06bb7598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 073/111] fix: decrementing a mutable_fws_multimap iterator
 advances it

---
 include/cista/containers/mutable_fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 1713ce0..e8545eb 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -318,7 +318,7 @@ struct dynamic_fws_multimap_base {
     }
 
     bucket_iterator& operator--() {
-      ++index_;
+      --index_;
       return *this;
     }
 
-- 
2.43.0


From 03ef4082d574a6ca1f8b87141efb7176c301c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 074/111] fix: erasing a bucket keeps counting its elements

---
 include/cista/containers/mutable_fws_multimap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index e8545eb..035fb81 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -431,6 +431,8 @@ struct dynamic_fws_multimap_base {
 
   void erase(access_t const i) {
     if (to_idx(i) < index_.size()) {
+      element_count_ -= index_[to_idx(i)].size_;
+      index_[to_idx(i)].size_ = size_type{0U};
       release_bucket(index_[to_idx(i)]);
     }
   }
-- 
2.43.0


From 02ffd47cffc119644a812854bb341df07f0e02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 075/111] fix: bucket erase does not return the position after
 the erased elements

---
 include/cista/containers/mutable_fws_multimap.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 035fb81..50f93ae 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -205,6 +205,7 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator erase(iterator pos) {
+      auto const result = pos;
       auto last = std::prev(end());
       while (pos < last) {
         std::swap(*pos, *std::next(pos));
@@ -213,7 +214,7 @@ struct dynamic_fws_multimap_base {
       (*pos).~T();
       --get_index().size_;
       --mutable_mm().element_count_;
-      return end();
+      return result;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
@@ -227,7 +228,7 @@ struct dynamic_fws_multimap_base {
         get_index().size_ -= count;
         mutable_mm().element_count_ -= count;
       }
-      return end();
+      return first;
     }
 
   protected:
-- 
2.43.0


From 5f4cc6730ba7ed64977e3303728c86e2536ef869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 076/111] fix: adding an own element to a mutable_fws_multimap
 bucket reads freed memory

---
 include/cista/containers/mutable_fws_multimap.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 50f93ae..4993be2 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -145,15 +145,17 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type const& val) {
+      auto const copy = value_type(val);  // val can be an own element
       auto insert_it = prepare_insert(it);
-      *insert_it = val;
+      *insert_it = copy;
       return insert_it;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type&& val) {
+      auto copy = value_type(std::move(val));  // val can be an own element
       auto insert_it = prepare_insert(it);
-      *insert_it = std::move(val);
+      *insert_it = std::move(copy);
       return insert_it;
     }
 
@@ -603,8 +605,9 @@ struct dynamic_fws_multimap_base {
   }
 
   size_type push_back_entry(size_type const map_index, value_type const& val) {
+    auto const copy = value_type(val);  // val can be an own element
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = val;
+    data_[data_index] = copy;
     ++element_count_;
     return data_index;
   }
@@ -612,8 +615,9 @@ struct dynamic_fws_multimap_base {
   template <typename... Args>
   size_type emplace_back_entry(size_type const i, Args&&... args) {
     auto const map_index = to_idx(i);
+    auto entry = value_type{std::forward<Args>(args)...};
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = value_type{std::forward<Args>(args)...};
+    data_[data_index] = std::move(entry);
     ++element_count_;
     return data_index;
   }
-- 
2.43.0


From 8227cd392c6b4bac48ebf3fa34c7e457f74d4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 077/111] fix: at() of a non-const paged_vecvec const_bucket
 does not compile

---
 include/cista/containers/paged_vecvec.h | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index ea4875b..59f6b68 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -50,11 +50,6 @@ struct paged_vecvec {
       return *(begin() + i);
     }
 
-    value_type& at(std::size_t const i) {
-      verify(i < size(), "paged_vecvec: const_bucket::at: index out of range");
-      return *(begin() + i);
-    }
-
     value_type const& front() const {
       assert(!empty());
       return (*this)[0];
-- 
2.43.0


From da789767c0e611562ad552cf15f1f52589b8d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 078/111] fix: iterating an empty paged_vecvec throws

---
 include/cista/containers/paged_vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 59f6b68..b76623b 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -294,9 +294,9 @@ struct paged_vecvec {
   base_t<Key> size() const { return idx_.size(); }
   bool empty() const { return idx_.empty(); }
 
-  bucket begin() { return front(); }
+  bucket begin() { return operator[](Key{0}); }
   bucket end() { return operator[](Key{size()}); }
-  const_bucket begin() const { return front(); }
+  const_bucket begin() const { return operator[](Key{0}); }
   const_bucket end() const { return operator[](Key{size()}); }
 
   friend bucket begin(paged_vecvec& m) { return m.begin(); }
-- 
2.43.0


From bc59b6dfaae6bde1025f68bcef465a3ecbcfc569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 079/111] fix: paged_vecvec push_back of an own element reads
 freed memory

---
 include/cista/containers/paged_vecvec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index b76623b..0aa3233 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -152,9 +152,10 @@ struct paged_vecvec {
     }
 
     void push_back(data_value_type const& x) {
+      auto const copy = x;  // x can be an own element
       auto& p = pv_->page(i_);
       p = pv_->paged_.resize_page(p, p.size_ + 1U);
-      (*this)[size() - 1U] = x;
+      (*this)[size() - 1U] = copy;
     }
 
     template <typename Arg>
-- 
2.43.0


From c9743632bf4d830fa9c65d6f67d8bd3191081f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 080/111] fix: paged_vecvec bucket insert does not return the
 inserted element

---
 include/cista/containers/paged_vecvec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 0aa3233..233bd63 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -163,7 +163,8 @@ struct paged_vecvec {
       auto const old_offset = std::distance(begin(), it);
       auto const old_size = size();
       push_back(data_value_type{el});
-      return std::rotate(begin() + old_offset, begin() + old_size, end());
+      std::rotate(begin() + old_offset, begin() + old_size, end());
+      return begin() + old_offset;
     }
 
     template <typename T = std::decay_t<data_value_type>,
-- 
2.43.0


From 678b8fe85cbc00e0876f48eef86c8c72fbcb4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 081/111] fix: paged_vecvec writes buckets of 2^16 and more
 elements beyond their page

---
 include/cista/containers/paged_vecvec.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 233bd63..7f8f4f5 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -1,6 +1,10 @@
 #pragma once
 
+#include <algorithm>
+#include <limits>
+
 #include "cista/strong.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -310,8 +314,7 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(get_page_size(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.emplace_back(p);
   }
@@ -334,12 +337,18 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void insert(Key const& k, Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(get_page_size(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.insert(idx_.begin() + to_idx(k), p);
   }
 
+  static typename Paged::page_size_type get_page_size(std::size_t const size) {
+    using page_size_t = typename Paged::page_size_type;
+    verify(size <= std::numeric_limits<page_size_t>::max(),
+           "paged_vecvec: bucket size > max page size");
+    return static_cast<page_size_t>(size);
+  }
+
   void resize(size_type const size) {
     for (auto i = size; i < idx_.size(); ++i) {
       paged_.free_page(idx_[i]);
-- 
2.43.0


From 8e969d4f01b5c965d49782ede58d65852659995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 082/111] fix: paged_vecvec copies ranges of other types and
 layouts bytewise

---
 include/cista/containers/paged.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 2866266..b4d4dc9 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -2,6 +2,7 @@
 
 #include <cinttypes>
 #include <cstring>
+#include <algorithm>
 #include <limits>
 
 #include "cista/bit_counting.h"
@@ -116,10 +117,7 @@ struct paged {
 
   template <typename ItA, typename ItB>
   void copy(page_t const& to, ItA begin, ItB end) {
-    auto const n = static_cast<std::size_t>(std::distance(begin, end));
-    if (n != 0U) {
-      std::memcpy(data(to), &*begin, n * sizeof(value_type));
-    }
+    std::copy(begin, end, data(to));
   }
 
   void clear() {
-- 
2.43.0


From 17f1263fd27570f739035b48ec96e0e0bbf38e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 083/111] fix: image of a string whose characters were all
 erased was rejected

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 6041156..a3fcd05 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -228,7 +228,7 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
   }
 
   auto const start =
-      (origin->h_.ptr_ == nullptr)
+      (origin->h_.ptr_ == nullptr || origin->h_.size_ == 0U)
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
                     origin->size() * sizeof(typename Type::CharT),
-- 
2.43.0


From 397eeba2c12185cc5cfe0b3c20b5155833218342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 084/111] fix: rtree: path hints were written past their array
 in trees of more than 16 levels

---
 include/cista/containers/rtree.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index fcc85a6..6f016a9 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -382,7 +382,7 @@ struct basic_rtree {
 
   std::uint32_t node_choose(node const& search_node, rect const& search_rect,
                             std::uint32_t const depth) {
-    auto const h = m_.path_hint_[depth];
+    auto const h = get_path_hint(depth);
     if (h < search_node.count_) {
       if (search_node.rects_[h].contains(search_rect)) {
         return h;
@@ -392,17 +392,28 @@ struct basic_rtree {
     // Take a quick look for the first node that contain the rect.
     for (auto i = 0U; i != search_node.count_; ++i) {
       if (search_node.rects_[i].contains(search_rect)) {
-        m_.path_hint_[depth] = i;
+        set_path_hint(depth, i);
         return i;
       }
     }
 
     // Fallback to using che "choose least enlargment" algorithm.
     auto const i = search_node.choose_least_enlargement(search_rect);
-    m_.path_hint_[depth] = i;
+    set_path_hint(depth, i);
     return i;
   }
 
+  // There are hints for the upper levels only.
+  std::uint32_t get_path_hint(std::uint32_t const depth) const {
+    return depth < m_.path_hint_.size() ? m_.path_hint_[depth] : 0U;
+  }
+
+  void set_path_hint(std::uint32_t const depth, std::uint32_t const hint) {
+    if (depth < m_.path_hint_.size()) {
+      m_.path_hint_[depth] = hint;
+    }
+  }
+
   node& get_node(node_idx_t const node_id) { return nodes_[node_id]; }
   node const& get_node(node_idx_t const node_id) const {
     return nodes_[node_id];
@@ -504,7 +515,7 @@ struct basic_rtree {
       return;
     }
 
-    auto h = m_.path_hint_[depth];
+    auto h = get_path_hint(depth);
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
@@ -539,7 +550,7 @@ struct basic_rtree {
         shrunk = true;
         return;
       }
-      m_.path_hint_[depth] = h;
+      set_path_hint(depth, h);
       if (shrunk) {
         shrunk = !delete_node.rects_[h].equals(crect);
         if (shrunk) {
-- 
2.43.0


From 1a3db31156dce308db05fe58dcaec2d484fb7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 085/111] fix: rtree: deleting searched the hinted child twice
 per level (exponential in the height)

---
 include/cista/containers/rtree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index 6f016a9..d94ea03 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -516,6 +516,7 @@ struct basic_rtree {
     }
 
     auto h = get_path_hint(depth);
+    auto const hinted = h;
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
@@ -528,7 +529,8 @@ struct basic_rtree {
     }
     h = 0;
     for (; h < delete_node.count_; h++) {
-      if (!delete_node.rects_[h].contains(input_rect)) {
+      // (searching the hinted child again would double the work on each level)
+      if (h == hinted || !delete_node.rects_[h].contains(input_rect)) {
         continue;
       }
       crect = delete_node.rects_[h];
-- 
2.43.0


From b97f596edc6bec46610d61ce1afcfcc2883dc710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 086/111] fix: empty string literals did not hash like empty
 strings

hashing<> of an empty string returns the seed, but of an empty char array
or char const* the hash of no bytes, which is something else for XXH3 and
wyhash: find("") missed the empty string.
---
 include/cista/hashing.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index e76a76b..e878516 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -99,7 +99,9 @@ struct hashing {
     } else if constexpr (is_pointer_v<Type>) {
       return hash_combine(seed, reinterpret_cast<intptr_t>(ptr_cast(el)));
     } else if constexpr (is_char_array_v<Type>) {
-      return hash(std::string_view{el, sizeof(el) - 1U}, seed);
+      return sizeof(el) == 1U
+                 ? seed
+                 : hash(std::string_view{el, sizeof(el) - 1U}, seed);
     } else if constexpr (is_string_like_v<Type>) {
       using std::begin;
       using std::end;
@@ -206,7 +208,8 @@ struct hashing<std::variant<Args...>> {
 template <>
 struct hashing<char const*> {
   hash_t operator()(char const* el, hash_t const seed = BASE_HASH) {
-    return hash(std::string_view{el}, seed);
+    auto const s = std::string_view{el};
+    return s.empty() ? seed : hash(s, seed);
   }
 };
 
-- 
2.43.0


From d3c514180eb443eed7f6a37bfa658544460446e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 087/111] fix: numbers of another type than the key were not
 found

Except for FNV-1a, a number is hashed by its bytes. The hash of an int
thus differed from the hash of the equal std::uint64_t key.
---
 include/cista/hashing.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index e878516..9865ea6 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -86,9 +86,16 @@ struct hashing {
   }
 
   template <typename T1>
-  static constexpr hashing<T1> create() noexcept {
+  static constexpr auto create() noexcept {
     static_assert(is_hash_equivalent<T, T1>(), "Incompatible types");
-    return hashing<T1>{};
+    if constexpr (std::is_arithmetic_v<T> &&
+                  (std::is_integral_v<T1> || std::is_enum_v<T1> ||
+                   std::is_floating_point_v<T>)) {
+      // Equal numbers of different types consist of different bytes.
+      return hashing<T>{};
+    } else {
+      return hashing<T1>{};
+    }
   }
 
   constexpr hash_t operator()(T const& el,
-- 
2.43.0


From 4ce7f83e63be4a3e3cfefdfc48cb5eb2ac6287d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 088/111] fix: build_hash did not use the specializations of
 hashing

decltype(args) is a reference: char const* was hashed by address, pairs,
tuples, variants and durations did not compile.
---
 include/cista/hashing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index 9865ea6..e3f63a2 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -223,7 +223,7 @@ struct hashing<char const*> {
 template <typename... Args>
 hash_t build_hash(Args const&... args) {
   hash_t h = BASE_HASH;
-  ((h = hashing<decltype(args)>{}(args, h)), ...);
+  ((h = hashing<decay_t<decltype(args)>>{}(args, h)), ...);
   return h;
 }
 
-- 
2.43.0


From 15acdd79647b11244ab9e9e153a1e11548f2347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 089/111] fix: equal hash sets and maps hashed and compared as
 different

hashing<> and equal_to<> went through the elements in storage order, which
depends on the history and capacity of the table: a set or map used as key
or as member of a key could not be found.
---
 include/cista/containers/hash_storage.h | 16 ++++++++++++++--
 include/cista/equal_to.h                |  6 +++++-
 include/cista/hashing.h                 |  6 ++++++
 include/cista/type_traits.h             |  7 +++++++
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index e39e0c0..d581170 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -14,6 +14,7 @@
 #include "cista/decay.h"
 #include "cista/exception.h"
 #include "cista/hash.h"
+#include "cista/type_traits.h"
 
 namespace cista {
 
@@ -669,23 +670,34 @@ struct hash_storage {
     return {ctrl_ + i, entries_ + i};
   }
 
-  bool operator==(hash_storage const& b) const noexcept {
+  template <typename ValueEq>
+  bool is_equal(hash_storage const& b, ValueEq&& value_eq) const {
     if (size() != b.size()) {
       return false;
     }
     for (auto const& el : *this) {
       auto const it = b.find(GetKey()(el));
-      if (it == b.end() || GetValue()(el) != GetValue()(*it)) {
+      if (it == b.end() || !value_eq(GetValue()(el), GetValue()(*it))) {
         return false;
       }
     }
     return true;
   }
 
+  bool operator==(hash_storage const& b) const noexcept {
+    return is_equal(
+        b, [](auto const& x, auto const& y) { return !(x != y); });
+  }
+
   Ptr<T> entries_{nullptr};
   Ptr<ctrl_t> ctrl_{empty_group()};
   size_type size_{0U}, capacity_{0U}, growth_left_{0U};
   bool self_allocated_{false};
 };
 
+template <typename T, template <typename> typename Ptr, typename GetKey,
+          typename GetValue, typename Hash, typename Eq>
+struct is_unordered_helper<hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>>
+    : std::true_type {};
+
 }  // namespace cista
diff --git a/include/cista/equal_to.h b/include/cista/equal_to.h
index b8210ef..f23c551 100644
--- a/include/cista/equal_to.h
+++ b/include/cista/equal_to.h
@@ -7,6 +7,7 @@
 #include "cista/decay.h"
 #include "cista/is_iterable.h"
 #include "cista/reflection/to_tuple.h"
+#include "cista/type_traits.h"
 
 namespace cista {
 
@@ -50,7 +51,10 @@ struct equal_to {
   constexpr bool operator()(T const& a, T1 const& b) const {
     using Type = decay_t<T>;
     using Type1 = decay_t<T1>;
-    if constexpr (is_iterable_v<Type> && is_iterable_v<Type1>) {
+    if constexpr (std::is_same_v<Type, Type1> && is_unordered_v<Type>) {
+      return a.is_equal(
+          b, [](auto&& x, auto&& y) { return equal_to<decltype(x)>{}(x, y); });
+    } else if constexpr (is_iterable_v<Type> && is_iterable_v<Type1>) {
       using std::begin;
       using std::end;
       auto const eq = std::equal(
diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index e3f63a2..59039e7 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -122,6 +122,12 @@ struct hashing {
       return hash_combine(seed, el);
     } else if constexpr (has_std_hash_v<Type>) {
       return hash_combine(std::hash<Type>()(el), seed);
+    } else if constexpr (is_unordered_v<Type>) {
+      auto sum = hash_t{0U};
+      for (auto const& v : el) {
+        sum += hashing<std::decay_t<decltype(v)>>()(v);
+      }
+      return el.empty() ? seed : hash_combine(seed, sum);
     } else if constexpr (is_iterable_v<Type>) {
       auto h = seed;
       for (auto const& v : el) {
diff --git a/include/cista/type_traits.h b/include/cista/type_traits.h
index aa7bcf3..731bf24 100644
--- a/include/cista/type_traits.h
+++ b/include/cista/type_traits.h
@@ -22,4 +22,11 @@ struct is_string_helper : std::false_type {};
 template <class T>
 constexpr bool is_string_v = is_string_helper<std::remove_cv_t<T>>::value;
 
+// Types where equality is not the equality of all elements or members in order.
+template <typename T>
+struct is_unordered_helper : std::false_type {};
+
+template <typename T>
+constexpr bool is_unordered_v = is_unordered_helper<T>::value;
+
 }  // namespace cista
\ No newline at end of file
-- 
2.43.0


From da14087f24ffe5320a3c45ac886e9424cda28013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 090/111] fix: bit vectors of different sizes compared equal by
 equal_to

Only the blocks were compared.
---
 include/cista/containers/bitvec.h | 4 ++++
 include/cista/equal_to.h          | 3 +++
 include/cista/type_traits.h       | 6 ++++++
 3 files changed, 13 insertions(+)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index 9a2c814..f2b8e86 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -16,6 +16,7 @@
 #include "cista/bit_counting.h"
 #include "cista/containers/vector.h"
 #include "cista/strong.h"
+#include "cista/type_traits.h"
 
 namespace cista {
 
@@ -496,6 +497,9 @@ struct basic_bitvec {
   Vec blocks_;
 };
 
+template <typename Vec, typename Key>
+struct is_own_equality_helper<basic_bitvec<Vec, Key>> : std::true_type {};
+
 namespace offset {
 using bitvec = basic_bitvec<vector<std::uint64_t>>;
 }
diff --git a/include/cista/equal_to.h b/include/cista/equal_to.h
index f23c551..e91df7a 100644
--- a/include/cista/equal_to.h
+++ b/include/cista/equal_to.h
@@ -54,6 +54,9 @@ struct equal_to {
     if constexpr (std::is_same_v<Type, Type1> && is_unordered_v<Type>) {
       return a.is_equal(
           b, [](auto&& x, auto&& y) { return equal_to<decltype(x)>{}(x, y); });
+    } else if constexpr (std::is_same_v<Type, Type1> &&
+                         is_own_equality_v<Type>) {
+      return a == b;
     } else if constexpr (is_iterable_v<Type> && is_iterable_v<Type1>) {
       using std::begin;
       using std::end;
diff --git a/include/cista/type_traits.h b/include/cista/type_traits.h
index 731bf24..335e230 100644
--- a/include/cista/type_traits.h
+++ b/include/cista/type_traits.h
@@ -26,6 +26,12 @@ constexpr bool is_string_v = is_string_helper<std::remove_cv_t<T>>::value;
 template <typename T>
 struct is_unordered_helper : std::false_type {};
 
+template <typename T>
+struct is_own_equality_helper : std::false_type {};
+
+template <typename T>
+constexpr bool is_own_equality_v = is_own_equality_helper<T>::value;
+
 template <typename T>
 constexpr bool is_unordered_v = is_unordered_helper<T>::value;
 
-- 
2.43.0


From 192455b3166eb4eab8702561e3996123830a1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 091/111] fix: p++ and p-- left relative pointers where they
 were

They returned the neighbouring position instead of moving there and
returning the previous one.
---
 include/cista/containers/offset_ptr.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index a8e699f..9a8f909 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -104,8 +104,17 @@ struct offset_ptr {
     return *this;
   }
 
-  offset_ptr operator++(int) const noexcept { return offset_ptr{get() + 1}; }
-  offset_ptr operator--(int) const noexcept { return offset_ptr{get() - 1}; }
+  offset_ptr operator++(int) noexcept {
+    auto const old = *this;
+    ++*this;
+    return old;
+  }
+
+  offset_ptr operator--(int) noexcept {
+    auto const old = *this;
+    --*this;
+    return old;
+  }
 
   offset_t offset_{NULLPTR_OFFSET};
 };
-- 
2.43.0


From ba8c56fa30cd039db16b97f19d5a37555732fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 092/111] fix: all non-null relative void pointers compared
 equal

Only the implicit conversion to bool was available for the comparison.
---
 include/cista/containers/offset_ptr.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index 9a8f909..9cc65d7 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -161,6 +161,24 @@ struct offset_ptr<T, std::enable_if_t<std::is_same_v<void, T>>> {
     return ptr;
   }
 
+  friend bool operator==(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() == b.get();
+  }
+  friend bool operator!=(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() != b.get();
+  }
+  friend bool operator<(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() < b.get();
+  }
+  friend bool operator<=(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() <= b.get();
+  }
+  friend bool operator>(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() > b.get();
+  }
+  friend bool operator>=(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() >= b.get();
+  }
   friend bool operator==(std::nullptr_t, offset_ptr const& o) noexcept {
     return o.offset_ == NULLPTR_OFFSET;
   }
-- 
2.43.0


From 9ab645e0ebe47f9d283770c580c54ea5181d6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 093/111] fix: mmap_vec growing beyond the range of its size
 type lost all elements

---
 include/cista/containers/mmap_vec.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 59c973b..6403f95 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -34,7 +34,7 @@ struct basic_mmap_vec {
   T& emplace_back(Args&&... el) {
     // (the arguments may refer to elements, which can move)
     auto const copy = T{std::forward<Args>(el)...};
-    grow(used_size_ + 1U);
+    grow(std::size_t{used_size_} + 1U);
     T* ptr = new (data() + used_size_) T{copy};
     ++used_size_;
     return *ptr;
@@ -137,7 +137,7 @@ struct basic_mmap_vec {
     }
 
     auto const pos_idx = pos - begin();
-    auto const new_count = static_cast<size_type>(std::distance(first, last));
+    auto const new_count = static_cast<std::size_t>(std::distance(first, last));
     grow(used_size_ + new_count);
     pos = begin() + pos_idx;
 
@@ -158,7 +158,7 @@ struct basic_mmap_vec {
       }
     }
 
-    used_size_ += new_count;
+    used_size_ = static_cast<size_type>(used_size_ + new_count);
 
     return pos;
   }
@@ -171,8 +171,10 @@ struct basic_mmap_vec {
 
 private:
   // The used size of the mapping is what the file is cut to when it is closed.
-  void grow(size_type const size) {
-    mmap_.resize(static_cast<std::size_t>(size) * sizeof(T));
+  void grow(std::size_t const size) {
+    verify(size <= std::numeric_limits<size_type>::max(),
+           "mmap_vec: size exceeds the range of its size type");
+    mmap_.resize(size * sizeof(T));
   }
 
 public:
-- 
2.43.0


From 381ac97a744f81b2254a6e2030cb2562f3d9ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 094/111] fix: wrapped::reset left a dangling value, destroyed
 it twice if owned or crashed if mapped

---
 include/cista/memory_holder.h | 105 +++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 52 deletions(-)

diff --git a/include/cista/memory_holder.h b/include/cista/memory_holder.h
index 840c375..3fd9358 100755
--- a/include/cista/memory_holder.h
+++ b/include/cista/memory_holder.h
@@ -1,52 +1,53 @@
-#pragma once
-
-#include <variant>
-
-#include "cista/buffer.h"
-#include "cista/containers/unique_ptr.h"
-#include "cista/mmap.h"
-#include "cista/targets/buf.h"
-
-namespace cista {
-
-using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
-
-template <typename T>
-struct wrapped {
-  wrapped() = default;
-  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
-    el_.self_allocated_ = false;
-  }
-  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
-
-  void reset() {
-    el_->~T();
-    if (std::holds_alternative<buffer>(mem_)) {
-      std::get<buffer>(mem_) = buffer{};
-    } else if (std::holds_alternative<byte_buf>(mem_)) {
-      std::get<byte_buf>(mem_) = byte_buf{};
-    }
-  }
-
-  friend bool operator==(wrapped const& x, std::nullptr_t) {
-    return x.el_ == nullptr;
-  }
-
-  operator bool() const { return el_.get() != nullptr; }
-  T* get() const noexcept { return el_.get(); }
-  T* operator->() noexcept { return el_.get(); }
-  T const* operator->() const noexcept { return el_.get(); }
-  T& operator*() noexcept { return *el_; }
-  T const& operator*() const noexcept { return *el_; }
-
-  memory_holder mem_;
-  raw::unique_ptr<T> el_;
-};
-
-template <typename T>
-wrapped(memory_holder, T*) -> wrapped<T>;
-
-template <typename T>
-wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
-
-}  // namespace cista
+#pragma once
+
+#include <variant>
+
+#include "cista/buffer.h"
+#include "cista/containers/unique_ptr.h"
+#include "cista/mmap.h"
+#include "cista/targets/buf.h"
+
+namespace cista {
+
+using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
+
+template <typename T>
+struct wrapped {
+  wrapped() = default;
+  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
+    el_.self_allocated_ = false;
+  }
+  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
+
+  void reset() {
+    // A mapped value is not destroyed: the mapping can be read-only.
+    if (el_ != nullptr && !el_.self_allocated_ &&
+        !std::holds_alternative<buf<mmap>>(mem_)) {
+      el_->~T();
+    }
+    el_.reset();
+    mem_ = memory_holder{};
+  }
+
+  friend bool operator==(wrapped const& x, std::nullptr_t) {
+    return x.el_ == nullptr;
+  }
+
+  operator bool() const { return el_.get() != nullptr; }
+  T* get() const noexcept { return el_.get(); }
+  T* operator->() noexcept { return el_.get(); }
+  T const* operator->() const noexcept { return el_.get(); }
+  T& operator*() noexcept { return *el_; }
+  T const& operator*() const noexcept { return *el_; }
+
+  memory_holder mem_;
+  raw::unique_ptr<T> el_;
+};
+
+template <typename T>
+wrapped(memory_holder, T*) -> wrapped<T>;
+
+template <typename T>
+wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
+
+}  // namespace cista
-- 
2.43.0


From 985afa714042edff3808e60ee2449b5a43e9ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 095/111] fix: deserializing an empty container accessed its
 first byte

---
 include/cista/serialization.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index a3fcd05..7274d7c 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1320,12 +1320,13 @@ T* deserialize(CharT* from, CharT* to = nullptr) {
 
 template <typename T, mode const Mode = mode::NONE>
 T const* deserialize(std::string_view c) {
-  return deserialize<T const, Mode>(&c[0], &c[0] + c.size());
+  return deserialize<T const, Mode>(c.data(), c.data() + c.size());
 }
 
 template <typename T, mode const Mode = mode::NONE, typename Container>
 auto deserialize(Container& c) {
-  return deserialize<T, Mode>(&c[0], &c[0] + c.size());
+  auto* const from = c.size() == 0U ? nullptr : &c[0];
+  return deserialize<T, Mode>(from, from + c.size());
 }
 
 template <typename T, mode const Mode = mode::NONE>
@@ -1335,7 +1336,8 @@ T* unchecked_deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
 
 template <typename T, mode const Mode = mode::NONE, typename Container>
 T* unchecked_deserialize(Container& c) {
-  return unchecked_deserialize<T, Mode>(&c[0], &c[0] + c.size());
+  auto* const from = c.size() == 0U ? nullptr : &c[0];
+  return unchecked_deserialize<T, Mode>(from, from + c.size());
 }
 
 template <typename T, mode const Mode = mode::NONE>
-- 
2.43.0


From 8ee64dd1f9d850211ce3b30caaf0ea9ba82ce08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 096/111] fix: vector leaked its storage and elements if
 creating one of several elements failed

---
 include/cista/containers/vector.h | 61 +++++++++++++------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 2aa465d..8909df4 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -44,25 +44,28 @@ struct basic_vector {
   basic_vector() noexcept = default;
 
   explicit basic_vector(size_type const size,
-                        Allocator const& alloc = Allocator{}) {
+                        Allocator const& alloc = Allocator{})
+      : basic_vector() {  // Destroyed if adding an element fails.
     CISTA_UNUSED_PARAM(alloc)
     resize(size);
   }
 
   explicit basic_vector(size_type const size, T init,
-                        Allocator const& alloc = Allocator{}) {
+                        Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     resize(size, std::move(init));
   }
 
   basic_vector(std::initializer_list<T> init,
-               Allocator const& alloc = Allocator{}) {
+               Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     set(init.begin(), init.end());
   }
 
   template <typename It>
-  basic_vector(It begin_it, It end_it) {
+  basic_vector(It begin_it, It end_it) : basic_vector() {
     set(begin_it, end_it);
   }
 
@@ -75,7 +78,8 @@ struct basic_vector {
     o.reset();
   }
 
-  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{}) {
+  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     set(o);
   }
@@ -181,13 +185,11 @@ struct basic_vector {
     clear();
     reserve(static_cast<size_type>(range_size));
 
-    auto copy_source = begin_it;
-    auto copy_target = el_;
-    for (; copy_source != end_it; ++copy_source, ++copy_target) {
-      new (copy_target) T{std::forward<decltype(*copy_source)>(*copy_source)};
+    for (auto copy_source = begin_it; copy_source != end_it; ++copy_source) {
+      new (el_ + used_size_)
+          T{std::forward<decltype(*copy_source)>(*copy_source)};
+      ++used_size_;
     }
-
-    used_size_ = static_cast<size_type>(range_size);
   }
 
   void set(basic_vector const& arr) {
@@ -268,31 +270,18 @@ struct basic_vector {
       return pos;  // No elements to shift (would self-move-assign).
     }
 
-    auto const pos_idx = pos - begin();
+    auto const old_offset = std::distance(begin(), pos);
+    auto const old_size = used_size_;
     auto const new_count = static_cast<size_type>(std::distance(first, last));
     reserve(used_size_ + new_count);
-    pos = begin() + pos_idx;
-
-    for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
-         !(src_last == pos - 1); --src_last, --dest_last) {
-      if (dest_last >= end()) {
-        new (dest_last) T(std::move(*src_last));
-      } else {
-        *dest_last = std::move(*src_last);
-      }
-    }
 
-    for (auto insert_ptr = pos; !(first == last); ++first, ++insert_ptr) {
-      if (insert_ptr >= end()) {
-        new (insert_ptr) T(std::forward<decltype(*first)>(*first));
-      } else {
-        *insert_ptr = std::forward<decltype(*first)>(*first);
-      }
+    for (; !(first == last); ++first) {
+      new (el_ + used_size_) T(std::forward<decltype(*first)>(*first));
+      ++used_size_;
     }
 
-    used_size_ += new_count;
-
-    return pos;
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class It>
@@ -340,8 +329,9 @@ struct basic_vector {
 
   void resize(size_type const size) {
     reserve(size);
-    for (auto i = used_size_; i < size; ++i) {
-      new (el_ + i) T{};
+    while (used_size_ < size) {
+      new (el_ + used_size_) T{};
+      ++used_size_;
     }
     for (auto i = size; i < used_size_; ++i) {
       el_[i].~T();
@@ -351,8 +341,9 @@ struct basic_vector {
 
   void resize(size_type const size, T init) {
     reserve(size);
-    for (auto i = used_size_; i < size; ++i) {
-      new (el_ + i) T{init};
+    while (used_size_ < size) {
+      new (el_ + used_size_) T{init};
+      ++used_size_;
     }
     for (auto i = size; i < used_size_; ++i) {
       el_[i].~T();
-- 
2.43.0


From 462cff1983be09217f5a18f15ca20064a5630635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 097/111] fix: hash_storage leaked what it held if copying an
 entry failed in a constructor

---
 include/cista/containers/hash_storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index d581170..8b74a36 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -259,7 +259,7 @@ struct hash_storage {
 
   constexpr hash_storage() = default;
 
-  hash_storage(std::initializer_list<T> init) {
+  hash_storage(std::initializer_list<T> init) : hash_storage() {
     insert(init.begin(), init.end());
   }
 
@@ -273,7 +273,7 @@ struct hash_storage {
     other.reset();
   }
 
-  hash_storage(hash_storage const& other) {
+  hash_storage(hash_storage const& other) : hash_storage() {
     if (other.size() != 0U) {
       for (const auto& v : other) {
         emplace(v);
-- 
2.43.0


From af333be4d771ff9420d5c4c4610240be20f2bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 098/111] fix: tuple did not destroy its constructed members if
 constructing another one failed

---
 include/cista/containers/tuple.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/tuple.h b/include/cista/containers/tuple.h
index 12ee6db..ed9f546 100644
--- a/include/cista/containers/tuple.h
+++ b/include/cista/containers/tuple.h
@@ -127,6 +127,25 @@ struct tuple {
 
   ~tuple() { destruct(Indices); }
 
+  // Destroys what has been constructed if constructing a member throws.
+  struct construction_guard {
+    explicit construction_guard(tuple& t) : t_{t} {}
+    construction_guard(construction_guard const&) = delete;
+    construction_guard& operator=(construction_guard const&) = delete;
+    ~construction_guard() {
+      if (n_ != sizeof...(Ts)) {
+        t_.destruct_first(n_, Indices);
+      }
+    }
+    tuple& t_;
+    std::size_t n_{0U};
+  };
+
+  template <std::size_t... Is>
+  void destruct_first(std::size_t const n, seq_t<Is...>) {
+    ((Is < n ? destruct(get<Is>(*this)) : void()), ...);
+  }
+
   template <std::size_t... Is>
   constexpr void move_construct_from_args(seq_t<Is...>, Ts&&... args) {
     (new (get_ptr<Is>())
@@ -135,13 +154,17 @@ struct tuple {
   }
 
   template <std::size_t... Is>
-  constexpr void default_construct(seq_t<Is...>) {
-    ((new (get_ptr<Is>()) tuple_element_t<Is, Ts...>{}), ...);
+  void default_construct(seq_t<Is...>) {
+    auto guard = construction_guard{*this};
+    ((new (get_ptr<Is>()) tuple_element_t<Is, Ts...>{}, ++guard.n_), ...);
   }
 
   template <typename From, std::size_t... Is>
-  constexpr void copy_construct(From const& from, seq_t<Is...>) {
-    (new (get_ptr<Is>()) tuple_element_t<Is, Ts...>(get<Is>(from)), ...);
+  void copy_construct(From const& from, seq_t<Is...>) {
+    auto guard = construction_guard{*this};
+    ((new (get_ptr<Is>()) tuple_element_t<Is, Ts...>(get<Is>(from)),
+      ++guard.n_),
+     ...);
   }
 
   template <typename From, std::size_t... Is>
-- 
2.43.0


From 8c3089ab5fa7a89bd953d56cd7c980b8498d6f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 099/111] fix: file left its stream open if opening failed
 halfway

---
 include/cista/targets/file.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index a1104d6..22c2f45 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -206,9 +206,13 @@ struct file {
   file() = default;
 
   file(char const* path, char const* mode)
-      : f_{std::fopen(path, mode)}, size_{size()} {
-    verify_str(f_ != nullptr, std::string{"unable to open file: "} + path +
-                                  " [mode=" + mode + "]");
+      : file() {  // The destructor closes the file if opening fails halfway.
+    f_ = std::fopen(path, mode);
+    if (f_ == nullptr) {
+      throw_exception(cista_exception{std::string{"unable to open file: "} +
+                                      path + " [mode=" + mode + "]"});
+    }
+    size_ = size();
   }
 
   ~file() {
-- 
2.43.0


From 48ed14cbf3c927a4d1fdf4a7e05e7a2e09a540e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 100/111] fix: a read error while computing the checksum of a
 file terminated the program

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 7274d7c..460996e 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -124,7 +124,7 @@ struct serialization_context {
                : std::nullopt;
   }
 
-  std::uint64_t checksum(offset_t const from) const noexcept {
+  std::uint64_t checksum(offset_t const from) const {
     return t_.checksum(from);
   }
 
-- 
2.43.0


From 06da253e9df3f5c345fff5071705a9a4c7492cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 101/111] fix: running out of memory while computing a type
 hash terminated the program

---
 include/cista/type_hash/type_hash.h | 38 ++++++++++++++---------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 51ab771..e07c498 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -31,11 +31,11 @@ template <typename T>
 struct type_id<offset_ptr<T const>> : type_id<offset_ptr<T>> {};
 
 template <typename T>
-hash_t type_hash(T const&, hash_t, std::map<hash_t, unsigned>&) noexcept;
+hash_t type_hash(T const&, hash_t, std::map<hash_t, unsigned>&);
 
 template <typename Rep, typename Period>
 hash_t type_hash(std::chrono::duration<Rep, Period> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("duration"));
   h = type_hash(Rep{}, h, done);
   h = hash_combine(hash(canonical_type_str<Period>()), h);
@@ -44,7 +44,7 @@ hash_t type_hash(std::chrono::duration<Rep, Period> const&, hash_t h,
 
 template <typename Clock, typename Duration>
 hash_t type_hash(std::chrono::time_point<Clock, Duration> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("timepoint"));
   h = type_hash(Duration{}, h, done);
   h = hash_combine(hash(canonical_type_str<Clock>()), h);
@@ -53,7 +53,7 @@ hash_t type_hash(std::chrono::time_point<Clock, Duration> const&, hash_t h,
 
 template <typename T, std::size_t Size>
 hash_t type_hash(array<T, Size> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("array"));
   h = hash_combine(h, Size);
   return type_hash(T{}, h, done);
@@ -61,7 +61,7 @@ hash_t type_hash(array<T, Size> const&, hash_t h,
 
 template <typename T>
 hash_t type_hash(T const& el, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   using Type = decay_t<T>;
 
   auto [it, inserted] =
@@ -86,7 +86,7 @@ hash_t type_hash(T const& el, hash_t h,
   } else {
     static_assert(to_tuple_works_v<Type>, "Please implement custom type hash.");
     h = hash_combine(h, hash("struct"));
-    for_each_field(el, [&](auto const& member) noexcept {
+    for_each_field(el, [&](auto const& member) {
       h = type_hash(member, h, done);
     });
     return h;
@@ -95,7 +95,7 @@ hash_t type_hash(T const& el, hash_t h,
 
 template <typename A, typename B>
 hash_t type_hash(pair<A, B> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   h = type_hash(A{}, h, done);
   h = type_hash(B{}, h, done);
   return hash_combine(h, hash("pair"));
@@ -104,7 +104,7 @@ hash_t type_hash(pair<A, B> const&, hash_t h,
 template <typename T, template <typename> typename Ptr, bool Indexed,
           typename TemplateSizeType>
 hash_t type_hash(basic_vector<T, Ptr, Indexed, TemplateSizeType> const&,
-                 hash_t h, std::map<hash_t, unsigned>& done) noexcept {
+                 hash_t h, std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("vector"));
   if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
     h = hash_combine(h, sizeof(TemplateSizeType));
@@ -114,7 +114,7 @@ hash_t type_hash(basic_vector<T, Ptr, Indexed, TemplateSizeType> const&,
 
 template <typename T, typename Ptr>
 hash_t type_hash(basic_unique_ptr<T, Ptr> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("unique_ptr"));
   return type_hash(T{}, h, done);
 }
@@ -122,14 +122,14 @@ hash_t type_hash(basic_unique_ptr<T, Ptr> const&, hash_t h,
 template <typename T, template <typename> typename Ptr, typename GetKey,
           typename GetValue, typename Hash, typename Eq>
 hash_t type_hash(hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq> const&,
-                 hash_t h, std::map<hash_t, unsigned>& done) noexcept {
+                 hash_t h, std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("hash_storage"));
   return type_hash(T{}, h, done);
 }
 
 template <typename... T>
 hash_t type_hash(variant<T...> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("variant"));
   ((h = type_hash(T{}, h, done)), ...);
   return h;
@@ -137,7 +137,7 @@ hash_t type_hash(variant<T...> const&, hash_t h,
 
 template <typename... T>
 hash_t type_hash(tuple<T...> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("tuple"));
   ((h = type_hash(T{}, h, done)), ...);
   return h;
@@ -151,31 +151,31 @@ hash_t string_type_hash(hash_t h) noexcept {
 
 template <typename Ptr>
 hash_t type_hash(generic_string<Ptr> const&, hash_t h,
-                 std::map<hash_t, unsigned>&) noexcept {
+                 std::map<hash_t, unsigned>&) {
   return string_type_hash<remove_pointer_t<Ptr>>(h);
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string<Ptr> const&, hash_t h,
-                 std::map<hash_t, unsigned>&) noexcept {
+                 std::map<hash_t, unsigned>&) {
   return string_type_hash<remove_pointer_t<Ptr>>(h);
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string_view<Ptr> const&, hash_t h,
-                 std::map<hash_t, unsigned>&) noexcept {
+                 std::map<hash_t, unsigned>&) {
   return string_type_hash<remove_pointer_t<Ptr>>(h);
 }
 
 template <typename T>
 hash_t type_hash(indexed<T> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   return type_hash(T{}, h, done);
 }
 
 template <typename T, typename Tag>
 hash_t type_hash(strong<T, Tag> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("strong"));
   h = type_hash(T{}, h, done);
   h = hash_combine(hash(canonical_type_str<Tag>()), h);
@@ -184,7 +184,7 @@ hash_t type_hash(strong<T, Tag> const&, hash_t h,
 
 template <typename T>
 hash_t type_hash(optional<T> const&, hash_t h,
-                 std::map<hash_t, unsigned>& done) noexcept {
+                 std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("optional"));
   h = type_hash(T{}, h, done);
   return h;
@@ -194,7 +194,7 @@ template <typename T, typename SizeType, template <typename> typename Vec,
           std::size_t Log2MaxEntriesPerBucket>
 hash_t type_hash(
     dynamic_fws_multimap_base<T, SizeType, Vec, Log2MaxEntriesPerBucket> const&,
-    hash_t h, std::map<hash_t, unsigned>& done) noexcept {
+    hash_t h, std::map<hash_t, unsigned>& done) {
   h = hash_combine(h, hash("dynamic_fws_multimap"));
   h = type_hash(Vec<SizeType>{}, h, done);
   h = type_hash(Vec<T>{}, h, done);
-- 
2.43.0


From 789be045fd0adadafd9146dea4c827401c8ac176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 102/111] fix: growing a mmap to a size beyond the largest
 power of two lost its contents

---
 include/cista/mmap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index 431dc96..573f0ba 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -208,6 +208,9 @@ private:
       return;
     }
 
+    // The next power of two of a huge size overflows.
+    verify(new_size > size_, "resize error");
+
 #ifdef _WIN32
     unmap();
     size_ = new_size;
-- 
2.43.0


From 7f0eb9cbe1ca7c87323da10be8ac10d4fbbaca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 103/111] fix: equal std::unordered containers were hashed and
 compared as different

---
 include/cista/equal_to.h    |  3 ++-
 include/cista/hashing.h     |  2 +-
 include/cista/type_traits.h | 12 ++++++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/cista/equal_to.h b/include/cista/equal_to.h
index e91df7a..518ce7d 100644
--- a/include/cista/equal_to.h
+++ b/include/cista/equal_to.h
@@ -55,7 +55,8 @@ struct equal_to {
       return a.is_equal(
           b, [](auto&& x, auto&& y) { return equal_to<decltype(x)>{}(x, y); });
     } else if constexpr (std::is_same_v<Type, Type1> &&
-                         is_own_equality_v<Type>) {
+                         (is_own_equality_v<Type> ||
+                          is_std_unordered_v<Type>)) {
       return a == b;
     } else if constexpr (is_iterable_v<Type> && is_iterable_v<Type1>) {
       using std::begin;
diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index 59039e7..d9adff8 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -122,7 +122,7 @@ struct hashing {
       return hash_combine(seed, el);
     } else if constexpr (has_std_hash_v<Type>) {
       return hash_combine(std::hash<Type>()(el), seed);
-    } else if constexpr (is_unordered_v<Type>) {
+    } else if constexpr (is_unordered_v<Type> || is_std_unordered_v<Type>) {
       auto sum = hash_t{0U};
       for (auto const& v : el) {
         sum += hashing<std::decay_t<decltype(v)>>()(v);
diff --git a/include/cista/type_traits.h b/include/cista/type_traits.h
index 335e230..4c85065 100644
--- a/include/cista/type_traits.h
+++ b/include/cista/type_traits.h
@@ -29,6 +29,18 @@ struct is_unordered_helper : std::false_type {};
 template <typename T>
 struct is_own_equality_helper : std::false_type {};
 
+// std::unordered_(multi)set, std::unordered_(multi)map
+template <typename T, typename = void>
+struct is_std_unordered_helper : std::false_type {};
+
+template <typename T>
+struct is_std_unordered_helper<
+    T, std::void_t<typename T::hasher, typename T::key_equal,
+                   typename T::local_iterator>> : std::true_type {};
+
+template <typename T>
+constexpr bool is_std_unordered_v = is_std_unordered_helper<T>::value;
+
 template <typename T>
 constexpr bool is_own_equality_v = is_own_equality_helper<T>::value;
 
-- 
2.43.0


From 0d0e911e3011d6af0a9c30fb025add4c4b269505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 104/111] fix: variant.h and memory_holder.h keep their line
 endings

Earlier repairs had converted them, which made every line look changed.
---
 include/cista/containers/variant.h | 990 ++++++++++++++---------------
 include/cista/memory_holder.h      | 106 +--
 2 files changed, 548 insertions(+), 548 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 060b120..0ebba8c 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,495 +1,495 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    if (!o.valid()) {
-      destruct();
-      idx_ = NO_VALUE;
-      return *this;
-    }
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant&& o) {
-    if (!o.valid()) {
-      destruct();
-      idx_ = NO_VALUE;
-      return *this;
-    }
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
-                                     std::decay_t<Arg>>) {
-          el = std::forward<Arg>(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = NO_VALUE;
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = NO_VALUE;
-    auto& el = *(new (&storage_)
-                     std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return el;
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = NO_VALUE;
-    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-    idx_ = I;
-    return el;
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (idx_ == o.idx_) {
-      if (!valid()) {
-        return;
-      }
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), idx,
-                               std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    if (!valid()) {
-      return BASE_HASH;
-    }
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = NO_VALUE;
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_)
+                     std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return el;
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+    idx_ = I;
+    return el;
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (idx_ == o.idx_) {
+      if (!valid()) {
+        return;
+      }
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 15U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    if (!valid()) {
+      return BASE_HASH;
+    }
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
diff --git a/include/cista/memory_holder.h b/include/cista/memory_holder.h
index 3fd9358..f69f040 100755
--- a/include/cista/memory_holder.h
+++ b/include/cista/memory_holder.h
@@ -1,53 +1,53 @@
-#pragma once
-
-#include <variant>
-
-#include "cista/buffer.h"
-#include "cista/containers/unique_ptr.h"
-#include "cista/mmap.h"
-#include "cista/targets/buf.h"
-
-namespace cista {
-
-using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
-
-template <typename T>
-struct wrapped {
-  wrapped() = default;
-  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
-    el_.self_allocated_ = false;
-  }
-  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
-
-  void reset() {
-    // A mapped value is not destroyed: the mapping can be read-only.
-    if (el_ != nullptr && !el_.self_allocated_ &&
-        !std::holds_alternative<buf<mmap>>(mem_)) {
-      el_->~T();
-    }
-    el_.reset();
-    mem_ = memory_holder{};
-  }
-
-  friend bool operator==(wrapped const& x, std::nullptr_t) {
-    return x.el_ == nullptr;
-  }
-
-  operator bool() const { return el_.get() != nullptr; }
-  T* get() const noexcept { return el_.get(); }
-  T* operator->() noexcept { return el_.get(); }
-  T const* operator->() const noexcept { return el_.get(); }
-  T& operator*() noexcept { return *el_; }
-  T const& operator*() const noexcept { return *el_; }
-
-  memory_holder mem_;
-  raw::unique_ptr<T> el_;
-};
-
-template <typename T>
-wrapped(memory_holder, T*) -> wrapped<T>;
-
-template <typename T>
-wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
-
-}  // namespace cista
+#pragma once
+
+#include <variant>
+
+#include "cista/buffer.h"
+#include "cista/containers/unique_ptr.h"
+#include "cista/mmap.h"
+#include "cista/targets/buf.h"
+
+namespace cista {
+
+using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
+
+template <typename T>
+struct wrapped {
+  wrapped() = default;
+  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
+    el_.self_allocated_ = false;
+  }
+  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
+
+  void reset() {
+    // A mapped value is not destroyed: the mapping can be read-only.
+    if (el_ != nullptr && !el_.self_allocated_ &&
+        !std::holds_alternative<buf<mmap>>(mem_)) {
+      el_->~T();
+    }
+    el_.reset();
+    mem_ = memory_holder{};
+  }
+
+  friend bool operator==(wrapped const& x, std::nullptr_t) {
+    return x.el_ == nullptr;
+  }
+
+  operator bool() const { return el_.get() != nullptr; }
+  T* get() const noexcept { return el_.get(); }
+  T* operator->() noexcept { return el_.get(); }
+  T const* operator->() const noexcept { return el_.get(); }
+  T& operator*() noexcept { return *el_; }
+  T const& operator*() const noexcept { return *el_; }
+
+  memory_holder mem_;
+  raw::unique_ptr<T> el_;
+};
+
+template <typename T>
+wrapped(memory_holder, T*) -> wrapped<T>;
+
+template <typename T>
+wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
+
+}  // namespace cista
-- 
2.43.0


From 2a1a6d3366bec6b758af40d4b7a5b9977e8396a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 105/111] fix: a unique_ptr assigned from one its target owns
 used freed memory

---
 include/cista/containers/unique_ptr.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index 608fffc..1edebc5 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -31,11 +31,14 @@ struct basic_unique_ptr {
     if (&o == this) {
       return *this;
     }
-    reset();
-    el_ = o.el_;
-    self_allocated_ = o.self_allocated_;
+    // The current target can own o. Its deletion must not be noticed here.
+    T* const el = o.el_;
+    auto const self_allocated = o.self_allocated_;
     o.el_ = nullptr;
     o.self_allocated_ = false;
+    reset();
+    el_ = el;
+    self_allocated_ = self_allocated;
     return *this;
   }
 
-- 
2.43.0


From a1e2b5a7aea3bfdc62e49715bfaf8fdea3688854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 106/111] fix: appending a bucket of the same vecvec or nvec
 read freed elements

---
 include/cista/containers/nvec.h   | 17 ++++++++++++++---
 include/cista/containers/vecvec.h | 18 +++++++++++++++---
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 1bfe425..a98b0dd 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -536,9 +536,20 @@ struct basic_nvec {
       // moved from.
       using ref_t = decltype(*std::begin(c));
       using const_ref_t = decltype(*std::begin(std::as_const(c)));
-      if constexpr (std::is_constructible_v<data_value_type, ref_t> &&
-                    (std::is_lvalue_reference_v<Container> ||
-                     std::is_same_v<ref_t, const_ref_t>)) {
+      if constexpr (std::is_same_v<std::decay_t<Container>, bucket_t> ||
+                    std::is_same_v<std::decay_t<Container>, const_bucket_t>) {
+        // A bucket of this container refers to elements that move with growth.
+        auto const bucket_size = c.size();
+        for (auto i = std::size_t{0U}; i != bucket_size; ++i) {
+          if constexpr (std::is_constructible_v<data_value_type, ref_t>) {
+            data_.push_back(std::as_const(c)[i]);
+          } else {
+            data_.push_back(std::move(c[i]));
+          }
+        }
+      } else if constexpr (std::is_constructible_v<data_value_type, ref_t> &&
+                           (std::is_lvalue_reference_v<Container> ||
+                            std::is_same_v<ref_t, const_ref_t>)) {
         data_.insert(std::end(data_), std::begin(c), std::end(c));
       } else {
         data_.insert(std::end(data_), std::make_move_iterator(std::begin(c)),
diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e9a550f..5f1588c 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -375,9 +375,21 @@ struct basic_vecvec {
     // moved from. Others (named containers, views, buckets) stay unchanged.
     using ref_t = decltype(*std::begin(bucket));
     using const_ref_t = decltype(*std::begin(std::as_const(bucket)));
-    if constexpr (std::is_constructible_v<data_value_type, ref_t> &&
-                  (std::is_lvalue_reference_v<Container> ||
-                   std::is_same_v<ref_t, const_ref_t>)) {
+    if constexpr (std::is_same_v<std::decay_t<Container>,
+                                 typename basic_vecvec::bucket> ||
+                  std::is_same_v<std::decay_t<Container>, const_bucket>) {
+      // A bucket of this container refers to elements that move with growth.
+      auto const bucket_size = bucket.size();
+      for (auto i = std::size_t{0U}; i != bucket_size; ++i) {
+        if constexpr (std::is_constructible_v<data_value_type, ref_t>) {
+          data_.push_back(std::as_const(bucket)[i]);
+        } else {
+          data_.push_back(std::move(bucket[i]));
+        }
+      }
+    } else if constexpr (std::is_constructible_v<data_value_type, ref_t> &&
+                         (std::is_lvalue_reference_v<Container> ||
+                          std::is_same_v<ref_t, const_ref_t>)) {
       data_.insert(std::end(data_), std::begin(bucket), std::end(bucket));
     } else {
       data_.insert(std::end(data_),  //
-- 
2.43.0


From 83fa9b77d5f9b0fe08e8844dddc0b442fa6e2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:23 +0000
Subject: [PATCH 107/111] fix: string erase beyond the end wrote outside of the
 string

---
 include/cista/containers/string.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 725e225..1fe460c 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -3,6 +3,7 @@
 #include <cinttypes>
 #include <cstring>
 
+#include <algorithm>
 #include <ostream>
 #include <string>
 #include <string_view>
@@ -355,7 +356,8 @@ struct generic_string {
     return h_.size_;
   }
 
-  generic_string& erase(msize_t const pos, msize_t const n) {
+  generic_string& erase(msize_t const pos, msize_t const count) {
+    auto const n = std::min(count, size() - pos);  // at most the rest
     if (n == 0U) {
       return *this;
     }
-- 
2.43.0


From 72f8dc1ab33ea3feafadbcd61dd6590da86f484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:36 +0000
Subject: [PATCH 108/111] fix: the uniter repeated an input that an earlier
 input includes

---
 tools/uniter/uniter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/uniter/uniter.cc b/tools/uniter/uniter.cc
index 63cb908..c60722c 100644
--- a/tools/uniter/uniter.cc
+++ b/tools/uniter/uniter.cc
@@ -62,6 +62,8 @@ int main(int argc, char const** argv) {
   std::cout << "#pragma once\n\n";
   std::set<std::string> included;
   for (int i = 3; i < argc; ++i) {
-    write_file(include_path, argv[i], included);
+    if (included.insert(argv[i]).second) {
+      write_file(include_path, argv[i], included);
+    }
   }
 }
\ No newline at end of file
-- 
2.43.0


From 2b525ee464baee19b2578ec7b7f66cebb4e46997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:36 +0000
Subject: [PATCH 109/111] fix: the uniter lost an include followed by a comment
 with a quote

---
 tools/uniter/uniter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/uniter/uniter.cc b/tools/uniter/uniter.cc
index c60722c..e65e2e7 100644
--- a/tools/uniter/uniter.cc
+++ b/tools/uniter/uniter.cc
@@ -17,7 +17,7 @@ void write_file(std::string const& include_path, std::string const& path,
       constexpr auto const include_start = R"(#include ")";
       auto const include_start_len = std::strlen(include_start);
       if (starts_with(line, include_start)) {
-        auto const include_end = line.find_last_of("\"");
+        auto const include_end = line.find('"', include_start_len);
         auto const include_file =
             line.substr(include_start_len, include_end - include_start_len);
 
-- 
2.43.0


From 055650b92aa873edccac2d3d6b05847e8ddb7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:36 +0000
Subject: [PATCH 110/111] fix: the single header lost includes of headers
 outside of the include path

---
 tools/uniter/uniter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/uniter/uniter.cc b/tools/uniter/uniter.cc
index e65e2e7..fe80f90 100644
--- a/tools/uniter/uniter.cc
+++ b/tools/uniter/uniter.cc
@@ -25,8 +25,9 @@ void write_file(std::string const& include_path, std::string const& path,
         if (included.insert(path).second) {
           try {
             write_file(include_path, path, included);
-          } catch (std::exception const& e) {
-            std::cout << "// " << path << ": " << e.what() << "\n";
+          } catch (std::exception const&) {
+            included.erase(path);
+            std::cout << line << "\n";
           }
         }
       } else if (starts_with(line, "#pragma once")) {
-- 
2.43.0


From 1af5036a3399978f2e2a9e5a2235fbe12fcee267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:36 +0000
Subject: [PATCH 111/111] fix: generated reflection headers treated unions as
 reflectable

---
 tools/to_tuple_generator/to_tuple_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/to_tuple_generator/to_tuple_generator.cc b/tools/to_tuple_generator/to_tuple_generator.cc
index 7179cf6..d45d8cb 100644
--- a/tools/to_tuple_generator/to_tuple_generator.cc
+++ b/tools/to_tuple_generator/to_tuple_generator.cc
@@ -82,7 +82,7 @@ inline constexpr auto to_tuple_works_v =
 #if !defined(_MSC_VER) || defined(NDEBUG)
        std::is_standard_layout_v < T>&&
 #endif
-       !std::is_polymorphic_v<T>);
+       !std::is_polymorphic_v<T> && !std::is_union_v<T>);
 
 template <typename T,
           std::enable_if_t<detail::has_cista_members_v<T> && std::is_const_v<T>,
-- 
2.43.0

