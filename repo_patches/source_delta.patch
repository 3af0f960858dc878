From f7b1caec2e213d72b8bc12a1317997e14815da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 01/43] fix: let iterable aggregates such as std::array be
 serialized

std::array is both an iterable of static size and a bindable aggregate, so
two overloads of the encoder and decoder applied and no array compiled.
---
 src/arpc/binary_codecs.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3fd1c52..3d0e41f 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -102,8 +102,9 @@ class binary_encoder {
   // Tuples, pairs and bindable aggregates.
   template <typename T>
   std::enable_if_t<
-      (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+      (mpt::is_tuple_v<T> || traits::is_bindable_aggregate_v<T>)&&!traits::
+              can_be_serialized_v<T> &&
+          !traits::is_const_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_saver(), *this);
@@ -466,8 +467,9 @@ class binary_decoder {
   // Tuples, pairs and bindable aggregates.
   template <typename T>
   std::enable_if_t<
-      (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+      (mpt::is_tuple_v<T> || traits::is_bindable_aggregate_v<T>)&&!traits::
+              can_be_serialized_v<T> &&
+          !traits::is_const_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_loader(), *this);
-- 
2.43.0


From 1df2c0ad3362a185b90b64c750b4ace0b486130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 02/43] fix: read multi-byte sizes and ids in the order they
 are written

write_variant emits the least significant group first, but read_variant
assembled the groups most significant first, so every size or id above 127
was misread. Reject integers that do not fit instead of dropping bits.
---
 src/arpc/binary_codecs.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3d0e41f..fcf8b9e 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -26,6 +26,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -596,11 +597,17 @@ class binary_decoder {
   // For convenience, this is always represented in little endian format.
   std::size_t read_variant() {
     std::size_t l = 0;
+    int shift = 0;
     uint8_t o;
     do {
       (*this)(o);
-      l <<= 7;
-      l |= (static_cast<std::size_t>(o) & 0x7f);
+      const std::size_t group = static_cast<std::size_t>(o) & 0x7f;
+      if (shift >= std::numeric_limits<std::size_t>::digits ||
+          ((group << shift) >> shift) != group) {
+        throw errors::data_mismatch("Integer too large in stream");
+      }
+      l |= group << shift;
+      shift += 7;
     } while ((o & 0x80) != 0);
     return l;
   }
-- 
2.43.0


From 65e0fd4e062853dcd15f1af7231f0dde2f93821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 03/43] fix: reject bytes other than 0 and 1 when reading
 booleans

---
 src/arpc/binary_codecs.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index fcf8b9e..153f069 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -393,6 +393,16 @@ class binary_decoder {
     (*this)(o, tags...);
   }
 
+  // Booleans; any byte other than 0 or 1 isn't a valid representation.
+  void operator()(bool& v) {
+    std::uint8_t o;
+    (*this)(o);
+    if (o > 1) {
+      throw errors::data_mismatch("Wrong boolean value in stream");
+    }
+    v = (o != 0);
+  }
+
   // Serializable scalar.
   template <typename T>
   std::enable_if_t<traits::is_bit_transferrable_scalar_v<T>, void> operator()(
@@ -743,14 +753,19 @@ class binary_decoder {
   // contiguous
   // memory.
   template <typename T>
-  std::enable_if_t<traits::is_bit_transferrable_scalar_v<T>, void>
+  std::enable_if_t<traits::is_bit_transferrable_scalar_v<T> &&
+                       !std::is_same_v<T, bool>,
+                   void>
   read_sequence(T* p, std::size_t l) {
     read_block(p, l);
   }
 
-  // For non-trivial objects, call the whole serialization machinery.
+  // For non-trivial objects (and booleans, which need to be validated), call
+  // the whole serialization machinery.
   template <typename T>
-  std::enable_if_t<!traits::is_bit_transferrable_scalar_v<T>, void>
+  std::enable_if_t<!traits::is_bit_transferrable_scalar_v<T> ||
+                       std::is_same_v<T, bool>,
+                   void>
   read_sequence(T* p, std::size_t l) {
     while (l-- > 0) {
       (*this)(*p++);
-- 
2.43.0


From 987cc03774f7252225fef6999234e71a12b674d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 04/43] fix: don't allocate memory for sizes that haven't been
 backed by data

---
 src/arpc/binary_codecs.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 153f069..31f9bba 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -22,6 +22,7 @@
 #ifndef ARPC_BINARY_CODECS_H_
 #define ARPC_BINARY_CODECS_H_
 
+#include <algorithm>
 #include <chrono>
 #include <cstddef>
 #include <cstdint>
@@ -433,9 +434,17 @@ class binary_decoder {
       void>
   operator()(T& sequence) {
     std::size_t l = read_size();
-    // No need to reserve as we are setting the size directly.
-    sequence.resize(l);
-    read_sequence(std::data(sequence), l);
+    // No need to reserve as we are setting the size directly. The size can't be
+    // trusted until the data arrives, so grow the sequence block by block.
+    std::size_t pos = 0;
+    sequence.resize(0);
+    while (pos < l) {
+      const std::size_t n =
+          std::min(l - pos, max_untrusted_size<typename T::value_type>);
+      sequence.resize(pos + n);
+      read_sequence(std::data(sequence) + pos, n);
+      pos += n;
+    }
   }
 
   // Containers where we need to read elements one by one and push_back them.
@@ -736,11 +745,17 @@ class binary_decoder {
   std::enable_if_t<!traits::has_custom_serialization_v<T>, void> invoke_load(
       T& o) {}
 
+  // How many elements to make room for before having read any of their data.
+  template <typename T>
+  static constexpr std::size_t max_untrusted_size =
+      std::max<std::size_t>(1, 4096 / sizeof(T));
+
   // Reserve space in a container that supports a reserve method.
   template <typename T>
   std::enable_if_t<traits::can_reserve_capacity_v<T>, void> maybe_reserve(
       T& t, typename T::size_type l) {
-    t.reserve(l);
+    t.reserve(
+        std::min<std::size_t>(l, max_untrusted_size<typename T::value_type>));
   }
 
   template <typename T>
-- 
2.43.0


From 77ee9911fb6f04a7bcc4cf41036b4dc0fdf8d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 05/43] fix: keep shared objects alive while the encoder tracks
 their addresses

---
 src/arpc/binary_codecs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 31f9bba..83aedba 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -167,6 +167,8 @@ class binary_encoder {
     bool first_time = false;
     if (it == shared_object_map_.end()) {
       std::size_t next_object_id = shared_object_map_.size();
+      // Keep the object alive so that its address isn't reused by another one.
+      shared_objects_.emplace_back(p);
       it = shared_object_map_.emplace(p.get(), next_object_id).first;
       first_time = true;
     }
@@ -347,6 +349,7 @@ class binary_encoder {
   // speed.
   arpc::flat_map<std::string_view, seen_class_info> class_info_map_;
   arpc::flat_map<const void*, std::size_t> shared_object_map_ = {{nullptr, 0}};
+  std::vector<std::shared_ptr<const void>> shared_objects_;
 
  protected:
   output_stream& out_;
-- 
2.43.0


From 623a0a94b20484eb746fa53e4019764cae085ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 06/43] fix: identify shared dynamic objects by their root
 class subobject

---
 src/arpc/binary_codecs.h | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 83aedba..76a86ad 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -163,13 +163,14 @@ class binary_encoder {
       return;
     }
 
-    auto it = shared_object_map_.find(p.get());
+    const void* address = get_object_address(p.get());
+    auto it = shared_object_map_.find(address);
     bool first_time = false;
     if (it == shared_object_map_.end()) {
       std::size_t next_object_id = shared_object_map_.size();
       // Keep the object alive so that its address isn't reused by another one.
       shared_objects_.emplace_back(p);
-      it = shared_object_map_.emplace(p.get(), next_object_id).first;
+      it = shared_object_map_.emplace(address, next_object_id).first;
       first_time = true;
     }
     write_variant(it->second);
@@ -192,6 +193,16 @@ class binary_encoder {
         encoder_function;
   };
 
+  // Address identifying an object, whatever the type of the pointer to it.
+  template <typename T>
+  static const void* get_object_address(const T* p) {
+    if constexpr (is_dynamic_v<T>) {
+      return static_cast<const ::arpc::dynamic_base_class*>(p);
+    } else {
+      return p;
+    }
+  }
+
   // Save potentially short integers in a compact form.
   //
   // Use the highest bit in each byte to determine whether more bytes come
@@ -364,7 +375,12 @@ class binary_decoder {
     explicit update_pointer(std::shared_ptr<void>& ptr) : ptr_(ptr) {}
     template <typename T>
     void operator()(const std::shared_ptr<T>& ptr) {
-      ptr_ = ptr;
+      // Dynamic objects are always referred to through their root class.
+      if constexpr (is_dynamic_v<T>) {
+        ptr_ = std::shared_ptr<::arpc::dynamic_base_class>(ptr);
+      } else {
+        ptr_ = ptr;
+      }
     }
 
    private:
@@ -583,14 +599,22 @@ class binary_decoder {
       load_object_reference(p, update_pointer(object_info.ptr));
     } else {
       // Check for type compatibility.
-      if (object_info.type_id != registry::get_type_id<T>() ||
+      if (object_info.ptr == nullptr ||
+          object_info.type_id != registry::get_type_id<T>() ||
           !registry::check_dynamic_compatibility<T>(object_info.ptr.get())) {
-        // We recorded an incompatible type when we saw this object before,
-        // or the object's dynamic type can't be stored in this pointer.
+        // We failed to read the object or recorded an incompatible type when we
+        // saw it before, or the object's dynamic type can't be stored in this
+        // pointer.
         throw errors::data_mismatch("Data shared among incompatible pointers");
       }
       // Cast the object reference we already had.
-      p = std::static_pointer_cast<T>(object_info.ptr);
+      if constexpr (is_dynamic_v<T>) {
+        p = std::static_pointer_cast<T>(
+            std::static_pointer_cast<::arpc::dynamic_base_class>(
+                object_info.ptr));
+      } else {
+        p = std::static_pointer_cast<T>(object_info.ptr);
+      }
     }
   }
 
-- 
2.43.0


From a9a90beee1a7e22f8c7c1394658078cb7a3ae0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:03 +0000
Subject: [PATCH 07/43] fix: reject empty COBS data and data cut after a full
 block

---
 src/arpc/packet_codecs.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arpc/packet_codecs.cpp b/src/arpc/packet_codecs.cpp
index cf108c5..3a44be7 100644
--- a/src/arpc/packet_codecs.cpp
+++ b/src/arpc/packet_codecs.cpp
@@ -121,8 +121,10 @@ void cobs_codec::encode(std::string& data) {
 void cobs_codec::decode(std::string& data) {
   auto src = data.begin();
   auto dst = data.begin();
+  // Valid data always ends in a block that isn't full.
+  std::size_t count = 254;
   while (src < data.end()) {
-    std::size_t count = static_cast<std::uint8_t>(*src++) - 1;
+    count = static_cast<std::uint8_t>(*src++) - 1;
     for (std::size_t i = 0; i < count; i++) {
       if (src >= data.end()) {
         throw errors::data_mismatch("Truncated COBS-encoded data");
@@ -133,6 +135,9 @@ void cobs_codec::decode(std::string& data) {
       *dst++ = '\0';
     }
   }
+  if (count == 254) {
+    throw errors::data_mismatch("Truncated COBS-encoded data");
+  }
   data.resize((dst - data.begin()) - 1);
 }
 }  // namespace arpc
-- 
2.43.0


From 0fbcf431d3006821c0494970f9b0178f0df61791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 08/43] fix: keep the first of equivalent elements when
 building flat containers

---
 src/arpc/container/detail/flat_tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index e49787e..ce598ea 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -175,7 +175,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
     underlying_container::operator=(ilist);
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -191,7 +191,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   flat_tree(InputIt first, InputIt last, const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(first, last, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -211,7 +211,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(init, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
-- 
2.43.0


From fcf228d1a26747c7f985f1de03e73b9025cdcea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 09/43] fix: let emplace_hint be used on flat sets and maps

---
 src/arpc/container/detail/flat_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index ce598ea..90bce52 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -297,7 +297,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   template <class... Args>
   iterator emplace_hint(const_iterator hint, Args&&... args) {
-    return insert(std::move(value_type(std::forward<Args>(args)...)));
+    return insert(hint, std::move(value_type(std::forward<Args>(args)...)));
   }
 
   // erase
-- 
2.43.0


From 1645f779c9f1af70794b2ba2365492f9161351e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 10/43] fix: carry the comparator when copying, moving and
 swapping flat containers

---
 src/arpc/container/detail/flat_tree.h | 28 ++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 90bce52..a8ae45f 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -162,15 +162,23 @@ class flat_tree : protected std::vector<Value, Allocator> {
   using underlying_container::data;
 
   // swap.
-  void swap(flat_tree& other) { underlying_container::swap(other); }
+  void swap(flat_tree& other) {
+    underlying_container::swap(other);
+    std::swap(comp_, other.comp_);
+    std::swap(eq_, other.eq_);
+  }
 
   // Assignment.
   flat_tree& operator=(const flat_tree& other) {
     underlying_container::operator=(other);
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(flat_tree&& other) {
     underlying_container::operator=(std::forward<flat_tree>(other));
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
@@ -197,16 +205,22 @@ class flat_tree : protected std::vector<Value, Allocator> {
     }
   }
   flat_tree(const flat_tree& other)
-      : underlying_container(static_cast<const underlying_container&>(other)) {}
+      : underlying_container(static_cast<const underlying_container&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(const flat_tree& other, const Allocator& alloc)
       : underlying_container(static_cast<const underlying_container&>(other),
-                             alloc) {}
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other)
-      : underlying_container(static_cast<const underlying_container&&>(other)) {
-  }
+      : underlying_container(static_cast<underlying_container&&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other, const Allocator& alloc)
-      : underlying_container(static_cast<const underlying_container&&>(other),
-                             alloc) {}
+      : underlying_container(static_cast<underlying_container&&>(other), alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(std::initializer_list<value_type> init,
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
-- 
2.43.0


From 1e7664695297d36b2a67ecd04a69f31ef46f5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 11/43] fix: order lists assigned to flat containers by the
 container's own rule

---
 src/arpc/container/flat_map.h | 8 ++++++++
 src/arpc/container/flat_set.h | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/arpc/container/flat_map.h b/src/arpc/container/flat_map.h
index 06a7624..181403b 100644
--- a/src/arpc/container/flat_map.h
+++ b/src/arpc/container/flat_map.h
@@ -49,6 +49,10 @@ class flat_map : public detail::flat_tree<Key, false, std::pair<Key, T>,
   using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
 
+  // Assignment from an initializer list.
+  using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
+
   // operator []
   T& operator[](const Key& key) {
     auto it = this->lower_bound(key);
@@ -101,6 +105,10 @@ class flat_multimap : public detail::flat_tree<Key, true, std::pair<Key, T>,
   // Inherit constructors.
   using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+
+  // Assignment from an initializer list.
+  using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 };
 
 }  // namespace arpc
diff --git a/src/arpc/container/flat_set.h b/src/arpc/container/flat_set.h
index 59b9cae..ff2486b 100644
--- a/src/arpc/container/flat_set.h
+++ b/src/arpc/container/flat_set.h
@@ -41,6 +41,9 @@ class flat_set : public detail::flat_tree<Key, false, Key, Compare, Allocator> {
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, false, Key, Compare, Allocator>::flat_tree;
+
+  // Assignment from an initializer list.
+  using detail::flat_tree<Key, false, Key, Compare, Allocator>::operator=;
 };
 
 /// \brief `std::vector`-backed replacement for `std::multiset`.
@@ -57,6 +60,9 @@ class flat_multiset
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, true, Key, Compare, Allocator>::flat_tree;
+
+  // Assignment from an initializer list.
+  using detail::flat_tree<Key, true, Key, Compare, Allocator>::operator=;
 };
 
 }  // namespace arpc
-- 
2.43.0


From 4794cbc485f8f6f56be4acd205ff08ea52dba7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:18 +0000
Subject: [PATCH 12/43] fix: free socket addresses as the type they were
 allocated as

---
 src/arpc/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index 16aebb0..10289b3 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -108,7 +108,7 @@ address::address(address&& other)
 
 address::~address() {
   assert(ai_next == this);
-  delete ai_addr;
+  delete reinterpret_cast<struct sockaddr_storage*>(ai_addr);
 }
 
 int& address::family() { return ai_family; }
-- 
2.43.0


From 8c3cd4ab34a8f3188fb72e7fbb64da8ce2400adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 13/43] fix: don't move from lvalues when constructing result
 holders

---
 src/arpc/result_holder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/result_holder.h b/src/arpc/result_holder.h
index 7da2c6d..274103c 100644
--- a/src/arpc/result_holder.h
+++ b/src/arpc/result_holder.h
@@ -76,7 +76,7 @@ class result_holder : public serializable<result_holder<T>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
   template <typename U>
-  explicit result_holder(U&& u) : value_(std::move(u)) {}
+  explicit result_holder(U&& u) : value_(std::forward<U>(u)) {}
 
   template <typename U>
   void set_value(U&& u) {
-- 
2.43.0


From 3a88e7d04eb214f659fd733108a2da26cbf83e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 14/43] fix: report failed input streams when reading blocks
 too

---
 src/arpc/iostream_adapters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arpc/iostream_adapters.cpp b/src/arpc/iostream_adapters.cpp
index 726d932..03a29f8 100644
--- a/src/arpc/iostream_adapters.cpp
+++ b/src/arpc/iostream_adapters.cpp
@@ -28,7 +28,8 @@ istream_input_stream::istream_input_stream(std::istream& is) : is_(is) {}
 
 std::size_t istream_input_stream::read(char* p, std::size_t l) {
   is_.read(p, l);
-  if (is_.bad()) throw errors::io_error("Bad input stream");
+  if (is_.bad() || (is_.fail() && !is_.eof()))
+    throw errors::io_error("Bad input stream");
   return static_cast<std::size_t>(is_.gcount());
 }
 
-- 
2.43.0


From 16aeaf9d6302ae0a43bdab176fc6b003ec776342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 15/43] fix: report failures to flush output streams

---
 src/arpc/iostream_adapters.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/iostream_adapters.cpp b/src/arpc/iostream_adapters.cpp
index 03a29f8..2023310 100644
--- a/src/arpc/iostream_adapters.cpp
+++ b/src/arpc/iostream_adapters.cpp
@@ -44,7 +44,7 @@ char istream_input_stream::getc() {
 
 ostream_output_stream::ostream_output_stream(std::ostream& os) : os_(os) {}
 
-ostream_output_stream::~ostream_output_stream() { flush(); }
+ostream_output_stream::~ostream_output_stream() { os_.flush(); }
 
 void ostream_output_stream::write(const char* p, std::size_t l) {
   if (!os_.write(p, l)) throw errors::io_error("Bad output stream");
@@ -54,6 +54,8 @@ void ostream_output_stream::putc(char c) {
   if (!os_.put(c)) throw errors::io_error("Bad output stream");
 }
 
-void ostream_output_stream::flush() { os_.flush(); }
+void ostream_output_stream::flush() {
+  if (!os_.flush()) throw errors::io_error("Bad output stream");
+}
 
 }  // namespace arpc
-- 
2.43.0


From 26c903453187412f28e836278bf591529e1bab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 16/43] fix: declare the size of named enumerations as valid
 C++

---
 src/arpc/enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/enum.h b/src/arpc/enum.h
index db42cb9..aa43cb4 100644
--- a/src/arpc/enum.h
+++ b/src/arpc/enum.h
@@ -65,7 +65,7 @@ struct enum_names {
     ARPC_FOREACH(ARPC_ENUM_ENTRY_IN_BODY, ARPC_ENUM_ENTRY_SEP, __VA_ARGS__)  \
   };                                                                         \
   template <>                                                                \
-  const std::size_t::arpc::enum_names<NAME>::size =                          \
+  const std::size_t arpc::enum_names<NAME>::size =                           \
       ARPC_ARG_COUNT(__VA_ARGS__);                                           \
   template <>                                                                \
   const char* ::arpc::enum_names<NAME>::unknown_name = UNKNOWN_NAME;         \
-- 
2.43.0


From fd96f0fa8035d33da0af076eda05a76cae2f8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:49 +0000
Subject: [PATCH 17/43] fix: tell clock periods with equal differences apart in
 type hashes

---
 src/arpc/type_hash.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/arpc/type_hash.h b/src/arpc/type_hash.h
index dc9a67a..a099cfa 100644
--- a/src/arpc/type_hash.h
+++ b/src/arpc/type_hash.h
@@ -91,6 +91,19 @@ constexpr type_hash_t type_hash_leaf(type_family type, bool is_signed,
       (static_cast<std::uint32_t>(size) << detail::SIZE_OFFSET)};
 }
 
+// Hash of a clock period. The difference between both terms identifies whole
+// multiples and fractions of a second, other periods need the terms as well.
+constexpr type_hash_t type_hash_period(type_family type, std::intmax_t num,
+                                       std::intmax_t denom) {
+  const bool fraction = denom > num;
+  const std::intmax_t lesser = fraction ? num : denom;
+  const type_hash_t leaf =
+      type_hash_leaf(type, fraction, fraction ? (denom - num) : (num - denom));
+  return (lesser == 1)
+             ? leaf
+             : type_hash_add(leaf, static_cast<type_hash_t>(lesser));
+}
+
 template <typename T, typename Seen = mpt::pack<>>
 struct type_hash;
 
@@ -216,18 +229,14 @@ struct new_type_hash<std::optional<T>, Seen> {
 template <typename Rep, std::intmax_t num, std::intmax_t denom, typename Seen>
 struct new_type_hash<std::chrono::duration<Rep, std::ratio<num, denom>>, Seen> {
   static constexpr type_hash_t value =
-      type_hash_leaf(detail::type_family::DURATION, denom > num,
-                     (denom > num) ? (denom - num) : (num - denom));
+      type_hash_period(detail::type_family::DURATION, num, denom);
 };
 
 template <typename Clock, typename Duration, typename Seen>
 struct new_type_hash<std::chrono::time_point<Clock, Duration>, Seen> {
   static constexpr type_hash_t value =
-      type_hash_leaf(detail::type_family::TIME_POINT,
-                     Duration::period::den > Duration::period::num,
-                     (Duration::period::den > Duration::period::num)
-                         ? (Duration::period::den - Duration::period::num)
-                         : (Duration::period::num - Duration::period::den));
+      type_hash_period(detail::type_family::TIME_POINT, Duration::period::num,
+                       Duration::period::den);
 };
 
 template <typename T, typename Seen, typename Deleter>
-- 
2.43.0


From 7964554eda18d2c9134063452af99fb8bcfddddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 18/43] fix: synchronize usage_lock's pointer and keep it alive
 until notified

---
 src/arpc/usage_lock.h | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index 333d069..3594e91 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -23,6 +23,7 @@
 #define ARPC_USAGE_LOCK_H_
 
 #include <condition_variable>
+#include <cstddef>
 #include <memory>
 #include <mutex>
 #include <string_view>
@@ -45,40 +46,51 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset(ptr, [this](T*) {
-      {
-        std::scoped_lock lock(mu_);
-        done_ = true;
-      }
+    {
+      std::scoped_lock lock(mu_);
+      ++armed_;
+    }
+    replace(std::shared_ptr<T>(ptr, [this](T*) {
+      // Notify with the lock held: as soon as it is released, a waiting drop()
+      // may return and this object be destroyed.
+      std::scoped_lock lock(mu_);
+      --armed_;
       done_cond_.notify_all();
-    });
-    std::scoped_lock lock(mu_);
-    done_ = false;
+    }));
   }
 
   void drop() {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset();
+    replace(nullptr);
     std::unique_lock lock(mu_);
-    done_cond_.wait(lock, [this]() { return done_; });
+    done_cond_.wait(lock, [this]() { return !armed_; });
   }
 
   auto get() {
-    auto res = ptr_;
+    auto res = get_or_null();
     if (!res) {
       throw E(message_);
     }
     return res;
   }
 
-  auto get_or_null() { return ptr_; }
+  auto get_or_null() {
+    std::scoped_lock lock(mu_);
+    return ptr_;
+  }
 
  private:
+  // The previous reference is released after the lock, which its deleter takes.
+  void replace(std::shared_ptr<T> ptr) {
+    std::scoped_lock lock(mu_);
+    ptr_.swap(ptr);
+  }
+
   const char* const message_;
   std::shared_ptr<T> ptr_;
   std::mutex mu_, arm_drop_mu_;
   std::condition_variable done_cond_;
-  bool done_ = true;
+  std::size_t armed_ = 0;  // Objects that still have users.
 };
 
 }  // namespace arpc
-- 
2.43.0


From 3c7538ea65b4cdd26963de127344756166ada24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 19/43] fix: make select() compile: static sizes from types,
 as_tuple of rvalues

---
 src/arpc/mpt.h    |  8 ++++----
 src/arpc/select.h | 15 +++++----------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index ab703c1..362945c 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -465,11 +465,11 @@ constexpr decltype(auto) as_tuple(std::tuple<T...>& t) {
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(const std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a a pair value into a tuple value.
@@ -486,11 +486,11 @@ constexpr decltype(auto) as_tuple(std::pair<U, V>& t) {
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(const std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a tuple value into a `pack` value.
diff --git a/src/arpc/select.h b/src/arpc/select.h
index 6c9209f..69617e3 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -199,14 +199,9 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
 }
 
 template <typename... Args>
-constexpr bool select_inputs_have_static_size(const std::tuple<Args...>& awaitables) {
-  return (... && select_input<Args>::has_static_size);
-}
+inline constexpr bool select_inputs_have_static_size_v =
+    (... && select_input<Args>::has_static_size);
 
-template <typename... Args>
-constexpr std::size_t select_inputs_static_size(const std::tuple<Args...>& awaitables) {
-  return (0 + ... + select_input<Args>::static_size);
-}
 template <typename... Args, std::size_t... ints>
 std::tuple<typename select_input<Args>::result_type...> make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
@@ -226,9 +221,9 @@ void make_select_pollfds_helper(const std::tuple<Args...>& awaitables, pollfd* f
 
 template <typename... Args>
 auto make_select_pollfds(const std::tuple<Args...>& awaitables) {
-  if constexpr (select_inputs_have_static_size(awaitables)) {
-    constexpr std::size_t size = pollfds_index<sizeof...(Args)>(awaitables);
-    std::array<pollfd, size> res;
+  if constexpr (select_inputs_have_static_size_v<Args...>) {
+    // Every input takes exactly one entry.
+    std::array<pollfd, sizeof...(Args)> res;
     make_select_pollfds_helper(awaitables, res.data(), mpt::make_index_sequence<sizeof...(Args)>{});
     return res;
   } else {
-- 
2.43.0


From 82d2836a8af3374405462011809d0ab352efb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 20/43] fix: setting or resetting a flag is not a cancellation
 point

---
 src/arpc/flag.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arpc/flag.cpp b/src/arpc/flag.cpp
index e675b80..61a1940 100644
--- a/src/arpc/flag.cpp
+++ b/src/arpc/flag.cpp
@@ -35,7 +35,8 @@ flag::flag() {
 void flag::set() {
   std::scoped_lock lock(mu_);
   if (!set_) {
-    pipe_[1].write("*", 1);
+    // Not a cancellation point: flags implement cancellation.
+    pipe_[1].maybe_write("*", 1);
     set_ = true;
   }
 }
@@ -44,7 +45,7 @@ void flag::reset() {
   std::scoped_lock lock(mu_);
   if (set_) {
     char c;
-    pipe_[0].read(&c, 1);
+    pipe_[0].maybe_read(&c, 1);
     set_ = false;
   }
 }
-- 
2.43.0


From 4b229c5df7cfe18c2c8b251e1c47993364fbbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 21/43] fix: select() keeps timers across spurious wake-ups,
 survives signals and long timeouts, has no effects when interrupted

---
 src/arpc/select.h | 133 +++++++++++++++++++++++-----------------------
 1 file changed, 66 insertions(+), 67 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 69617e3..20be4c0 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -29,9 +29,11 @@
 #endif  // ESP_PLATFORM
 #include <algorithm>
 #include <array>
+#include <cerrno>
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -46,15 +48,27 @@ namespace arpc {
 
 namespace detail {
 
+// Time left until an awaitable's timer triggers, or a negative value if it has none.
+// Timeouts run from the start of the select, polling intervals from the last evaluation.
+template <typename T>
+std::chrono::milliseconds remaining_timeout(const awaitable<T>& a,
+                                            std::chrono::milliseconds elapsed) {
+  auto timeout = a.timeout();
+  if (timeout >= std::chrono::milliseconds::zero() && !a.for_polling()) {
+    timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
+  }
+  return timeout;
+}
+
 template <typename A>
 result_holder<typename A::return_type> make_one_select_result(A& a, const pollfd& fd,
                                                               bool was_timeout,
                                                               std::chrono::milliseconds min_timeout,
-                                                              bool min_timeout_is_polling) {
+                                                              std::chrono::milliseconds elapsed) {
   bool active;
   if (was_timeout) {
-    active = (a.timeout() >= std::chrono::milliseconds::zero() &&
-              (a.timeout() <= min_timeout || (min_timeout_is_polling && a.for_polling())));
+    auto timeout = remaining_timeout(a, elapsed);
+    active = (timeout >= std::chrono::milliseconds::zero() && timeout <= min_timeout);
   } else {
     active = (fd.revents != 0);
   }
@@ -97,21 +111,12 @@ struct select_input_helper<awaitable<T>> {
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
                                  std::chrono::milliseconds min_timeout,
-                                 bool min_timeout_is_polling) {
-    return make_one_select_result(a, *fd, was_timeout, min_timeout, min_timeout_is_polling);
+                                 std::chrono::milliseconds elapsed) {
+    return make_one_select_result(a, *fd, was_timeout, min_timeout, elapsed);
   }
   static void fill_fds(const awaitable<T>& a, pollfd* fds) { *fds = make_pollfd(a); }
   static auto timeout_info(const awaitable<T>& a, std::chrono::milliseconds elapsed) {
-    auto timeout = a.timeout();
-    bool is_polling = a.for_polling();
-
-    if (timeout >= std::chrono::milliseconds::zero()) {
-      if (is_polling) {
-        timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-      }
-    }
-
-    return std::pair(timeout, is_polling);
+    return remaining_timeout(a, elapsed);
   }
 };
 
@@ -122,12 +127,11 @@ struct select_input_helper<std::vector<awaitable<T>>> {
   static constexpr std::size_t size(const std::vector<awaitable<T>>& v) { return v.size(); }
   static result_type make_result(std::vector<awaitable<T>>& v, const pollfd* fd, bool was_timeout,
                                  std::chrono::milliseconds min_timeout,
-                                 bool min_timeout_is_polling) {
+                                 std::chrono::milliseconds elapsed) {
     result_type res;
     res.reserve(v.size());
     for (auto& a : v) {
-      res.push_back(
-          make_one_select_result(a, *fd++, was_timeout, min_timeout, min_timeout_is_polling));
+      res.push_back(make_one_select_result(a, *fd++, was_timeout, min_timeout, elapsed));
     }
     return res;
   }
@@ -138,24 +142,16 @@ struct select_input_helper<std::vector<awaitable<T>>> {
   }
   static auto timeout_info(const std::vector<awaitable<T>>& v, std::chrono::milliseconds elapsed) {
     auto min_timeout = std::chrono::milliseconds(-1);
-    bool min_timeout_is_polling = false;
 
     for (const auto& a : v) {
-      auto timeout = a.timeout();
-      bool is_polling = a.for_polling();
-
-      if (timeout >= std::chrono::milliseconds::zero()) {
-        if (is_polling) {
-          timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-        }
-        if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
-          min_timeout = timeout;
-          min_timeout_is_polling = is_polling;
-        }
+      auto timeout = remaining_timeout(a, elapsed);
+      if (timeout >= std::chrono::milliseconds::zero() &&
+          (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout)) {
+        min_timeout = timeout;
       }
     }
 
-    return std::pair(min_timeout, min_timeout_is_polling);
+    return min_timeout;
   }
 };
 
@@ -203,13 +199,14 @@ inline constexpr bool select_inputs_have_static_size_v =
     (... && select_input<Args>::has_static_size);
 
 template <typename... Args, std::size_t... ints>
-std::tuple<typename select_input<Args>::result_type...> make_select_result(
-    std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
-    std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
-    mpt::index_sequence<ints...>) {
-  return {std::move(select_input<Args>::make_result(
-      mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
-      min_timeout, min_timeout_is_polling))...};
+auto make_select_result(std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
+                        std::chrono::milliseconds min_timeout, std::chrono::milliseconds elapsed,
+                        mpt::index_sequence<ints...>) {
+  return std::tuple<
+      typename select_input<std::tuple_element_t<ints, std::tuple<Args...>>>::result_type...>{
+      select_input<std::tuple_element_t<ints, std::tuple<Args...>>>::make_result(
+          mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
+          min_timeout, elapsed)...};
 }
 
 template <typename... Args, std::size_t... ints>
@@ -249,42 +246,44 @@ template <typename... Args>
   auto last = std::chrono::steady_clock::now();
 
   do {
-    // Find whether we have a timeout to apply, and whether it's a polling one.
-    auto [min_timeout, min_timeout_is_polling] = mpt::accumulate(
-        std::pair(std::chrono::milliseconds(-1), false), a, [elapsed](auto prev, const auto& a) {
-          auto& [min_timeout, min_timeout_is_polling] = prev;
-          auto [timeout, is_polling] = detail::select_input<decltype(a)>::timeout_info(a, elapsed);
-
-          if (timeout >= std::chrono::milliseconds::zero()) {
-            if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
-              min_timeout = timeout;
-              min_timeout_is_polling = is_polling;
-            }
+    // Find whether we have a timeout to apply.
+    auto min_timeout = mpt::accumulate(
+        std::chrono::milliseconds(-1), a, [elapsed](auto min_timeout, const auto& a) {
+          auto timeout = detail::select_input<decltype(a)>::timeout_info(a, elapsed);
+
+          if (timeout >= std::chrono::milliseconds::zero() &&
+              (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout)) {
+            min_timeout = timeout;
           }
 
-          return std::pair(min_timeout, min_timeout_is_polling);
+          return min_timeout;
         });
+    // Longer waits than poll can express are made of several polls.
+    min_timeout = std::min(min_timeout,
+                           std::chrono::milliseconds(std::numeric_limits<int>::max()));
 
     auto fds(detail::make_select_pollfds(a));
 
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
-    if (pres < 0) throw_io_error("Error in select");
-
-    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
-                                        min_timeout_is_polling, mpt::make_index_sequence<n>{}));
-
-    bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
-      return so_far || detail::select_output<decltype(val)>::is_active(val);
-    });
-    if (active) {
-      auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
-      if (cancelled) {
-        *cancelled;
-      }
-      if (deadline_exceeded) {
-        *deadline_exceeded;
-      }
-      return mpt::range<0, n - 2>(std::move(res));
+    if (pres < 0 && errno != EINTR) throw_io_error("Error in select");
+
+    if (pres >= 0) {
+      // The context goes first, so that an interrupted select has no side effects.
+      auto context_fds = fds.data() + fds.size() - 2;
+      auto cancelled = detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0,
+                                                      min_timeout, elapsed);
+      if (cancelled) *cancelled;
+      auto deadline_exceeded = detail::make_one_select_result(
+          mpt::at<n - 1>(a), context_fds[1], pres == 0, min_timeout, elapsed);
+      if (deadline_exceeded) *deadline_exceeded;
+
+      auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout, elapsed,
+                                          mpt::make_index_sequence<n - 2>{}));
+
+      bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
+        return so_far || detail::select_output<decltype(val)>::is_active(val);
+      });
+      if (active) return res;
     }
 
     auto now = std::chrono::steady_clock::now();
-- 
2.43.0


From 947bfc31e9ef4dbe4ee923df7b078420d4800dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 22/43] fix: queue<T>::empty() tells whether the queue is
 empty, not the opposite

---
 src/arpc/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index d9bfa59..b976658 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -50,7 +50,7 @@ class queue {
   size_type capacity() const { return max_size_; }
   bool empty() const {
     std::scoped_lock lock(mu_);
-    return data_.empty() == 0;
+    return data_.empty();
   }
   bool full() const {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From 033639bda34e669b2012d9143af1d9cf1b502c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 23/43] fix: make future::except() compile

---
 src/arpc/future.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 0849b69..29069bf 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -167,7 +167,7 @@ class future {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(std::move(get_fn_), std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -254,7 +254,7 @@ class future<void> {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(std::move(get_fn_), std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
-- 
2.43.0


From cb8194bffbaa4bf57efd6152dcf93a96cdffa260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 24/43] fix: setting a promise from a result holder completes
 its future

---
 src/arpc/future.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 29069bf..eb719aa 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -75,7 +75,15 @@ class future_state : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    if (!result_) {
+      result_.set_exception(
+          std::make_exception_ptr(errors::invalid_state("Empty result")));
+    }
+    set_.set();
+  }
 
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
@@ -107,7 +115,15 @@ class future_state<void> : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    if (!result_) {
+      result_.set_exception(
+          std::make_exception_ptr(errors::invalid_state("Empty result")));
+    }
+    set_.set();
+  }
 
   void maybe_get() {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From 12d3f47ef3715e10d8dade7eda848766a2132e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 25/43] fix: assigning over an unresolved promise breaks it
 instead of forgetting its future

---
 src/arpc/future.h | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index eb719aa..6acf0f4 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -324,7 +324,14 @@ class promise {
   using value_type = T;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    if (this != &other) {
+      abandon();
+      state_ = std::move(other.state_);
+      future_ = std::move(other.future_);
+    }
+    return *this;
+  }
 
   promise()
       : state_(
@@ -332,12 +339,7 @@ class promise {
             [](detail::future_state_base* state) { state->release_writer(); }),
         future_(state_.get()) {}
 
-  ~promise() {
-    if (state_) {
-      state()->set_exception(
-          std::make_exception_ptr(errors::invalid_state("Broken promise")));
-    }
-  }
+  ~promise() { abandon(); }
 
   future<value_type> get_future() { return std::move(future_); }
 
@@ -357,6 +359,13 @@ class promise {
       std::unique_ptr<detail::future_state<value_type>,
                       typename detail::future_state<value_type>::releaser>;
 
+  void abandon() {
+    if (state_) {
+      state()->set_exception(
+          std::make_exception_ptr(errors::invalid_state("Broken promise")));
+    }
+  }
+
   pointer_type state() {
     if (!state_) throw errors::invalid_state("Promise already set");
     return std::move(state_);
@@ -372,7 +381,14 @@ class promise<void> {
   using value_type = void;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    if (this != &other) {
+      abandon();
+      state_ = std::move(other.state_);
+      future_ = std::move(other.future_);
+    }
+    return *this;
+  }
 
   promise()
       : state_(
@@ -380,12 +396,7 @@ class promise<void> {
             [](detail::future_state_base* state) { state->release_writer(); }),
         future_(state_.get()) {}
 
-  ~promise() {
-    if (state_) {
-      state()->set_exception(
-          std::make_exception_ptr(errors::invalid_state("Broken promise")));
-    }
-  }
+  ~promise() { abandon(); }
 
   future<value_type> get_future() { return std::move(future_); }
 
@@ -398,6 +409,13 @@ class promise<void> {
       std::unique_ptr<detail::future_state<value_type>,
                       typename detail::future_state<value_type>::releaser>;
 
+  void abandon() {
+    if (state_) {
+      state()->set_exception(
+          std::make_exception_ptr(errors::invalid_state("Broken promise")));
+    }
+  }
+
   pointer_type state() {
     if (!state_) throw errors::invalid_state("Promise already set");
     return std::move(state_);
-- 
2.43.0


From 1061ded892b07054d84eadae43a87c3685284355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 26/43] fix: synchronize context data, and keep a context alive
 until its last child has detached

---
 src/arpc/context.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index c79ec83..e43e7ba 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -43,6 +43,7 @@ context::context(context& parent, bool set_current, bool shield)
     if (!shield) {
       parent_->add_child(this);
     }
+    std::scoped_lock lock(parent_->data_mu_);
     deadline_ = parent_->deadline_;
     data_ = parent_->data_;
   }
@@ -78,10 +79,9 @@ void context::add_child(context* child) {
 }
 
 void context::remove_child(context* child) {
-  {
-    std::scoped_lock lock(children_mu_);
-    children_.erase(child);
-  }
+  std::scoped_lock lock(children_mu_);
+  children_.erase(child);
+  // Notify with the lock held: the parent may go away as soon as it is released.
   child_detached_.notify_one();
 }
 
@@ -145,18 +145,17 @@ void context::reset_all() {
 
 std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
   std::vector<std::shared_ptr<const dynamic_base_class>> res;
+  std::scoped_lock lock(data_mu_);
   res.reserve(data_.size());
-  {
-    std::scoped_lock lock(data_mu_);
-    for (auto it : data_) {
-      res.push_back(it.second);
-    }
+  for (auto it : data_) {
+    res.push_back(it.second);
   }
   return res;
 }
 
 void context::set_data(
     std::vector<std::shared_ptr<dynamic_base_class>>&& new_data) {
+  std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
     data_[it->portable_class_name()] =
-- 
2.43.0


From b7d3c93e6aa5b512707d5ec49a35d897ce8fa04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 27/43] fix: refuse null context data instead of dereferencing
 it

---
 src/arpc/context.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index e43e7ba..574b805 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -157,9 +157,10 @@ void context::set_data(
     std::vector<std::shared_ptr<dynamic_base_class>>&& new_data) {
   std::scoped_lock lock(data_mu_);
   data_.clear();
-  for (auto it : new_data) {
-    data_[it->portable_class_name()] =
-        std::static_pointer_cast<const dynamic_base_class>(std::move(it));
+  for (auto& it : new_data) {
+    if (!it) throw errors::data_mismatch("Null context data");
+    auto name = it->portable_class_name();
+    data_[name] = std::move(it);
   }
 }
 
-- 
2.43.0


From 1ba1e73ed9d409cd8a42af50781107122b99e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 28/43] fix: deadlines and timeouts of any length do not
 overflow

---
 src/arpc/context.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 574b805..07c5a08 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -20,6 +20,7 @@
 ///   under the License.
 
 #include "arpc/context.h"
+#include <algorithm>
 #include <utility>
 #include "arpc/errors.h"
 
@@ -27,6 +28,21 @@ namespace arpc {
 
 thread_local context* context::current_ = nullptr;
 
+namespace {
+// The current time, at the resolution (and with the range) of deadlines.
+context::time_point now() {
+  return std::chrono::time_point_cast<context::duration>(
+      std::chrono::system_clock::now());
+}
+
+context::duration time_left(context::time_point deadline) {
+  auto left = deadline.time_since_epoch();
+  auto elapsed = now().time_since_epoch();
+  if (left < context::duration::min() + elapsed) return context::duration::min();
+  return left - elapsed;
+}
+}  // namespace
+
 context& context::current() {
   if (!current_) return top();
   return *current_;
@@ -93,8 +109,7 @@ std::optional<context::time_point> context::deadline() const {
 std::optional<context::duration> context::deadline_left() const {
   std::scoped_lock lock(data_mu_);
   if (deadline_) {
-    return std::chrono::duration_cast<duration>(
-        *deadline_ - std::chrono::system_clock::now());
+    return time_left(*deadline_);
   } else {
     return std::nullopt;
   }
@@ -118,7 +133,8 @@ awaitable<void> context::wait_cancelled() {
 awaitable<void> context::wait_deadline() {
   std::scoped_lock lock(data_mu_);
   if (deadline_) {
-    return arpc::deadline(*deadline_).then([]() {
+    auto left = std::max(duration::zero(), time_left(*deadline_));
+    return arpc::timeout(left).then([]() {
       throw errors::deadline_exceeded("Deadline exceeded");
     });
   } else {
@@ -134,8 +150,9 @@ void context::set_deadline(time_point when) {
 }
 
 void context::set_timeout(duration timeout) {
-  set_deadline(std::chrono::time_point_cast<context::duration>(
-      std::chrono::system_clock::now() + timeout));
+  auto start = now();
+  set_deadline(timeout < time_point::max() - start ? start + timeout
+                                                   : time_point::max());
 }
 
 void context::reset_all() {
-- 
2.43.0


From 4802cd67338e6c844b3410649d4c1c2c2030df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 29/43] fix: reading zero bytes from a channel is not the end
 of the channel

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 429b324..912461c 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -90,7 +90,7 @@ std::size_t channel::read(void* buf, std::size_t len) {
 std::size_t channel::maybe_read(void* buf, std::size_t len) {
   auto num = ::read(fd_, buf, len);
   if (num < 0) throw_io_error("Error reading");
-  if (num == 0) throw errors::eof("End of channel");
+  if (num == 0 && len > 0) throw errors::eof("End of channel");
   return static_cast<std::size_t>(num);
 }
 
-- 
2.43.0


From 9030de9b407b3a07367ee246cb945a1192e809e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 30/43] fix: channel::linger sets SO_LINGER

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 912461c..06fed11 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -252,7 +252,7 @@ channel& channel::linger(bool do_linger, std::chrono::seconds linger_time) {
   struct linger value {
     do_linger, static_cast<int>(linger_time / std::chrono::seconds(1))
   };
-  if (::setsockopt(fd_, SOL_SOCKET, SO_REUSEPORT, &value, sizeof(value)))
+  if (::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &value, sizeof(value)))
     throw_io_error("Error setting linger");
   return *this;
 }
-- 
2.43.0


From d871ba955803fab503540b87bc3c08bbbfd4b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 31/43] fix: channel::accept truncated the peer's address to
 the size of the previous one

---
 src/arpc/channel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 06fed11..5baf1a5 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -207,6 +207,8 @@ channel channel::accept(address& addr) {
 }
 
 channel channel::maybe_accept(address& addr) {
+  // The peer's address may be longer than the one that was there.
+  addr.address_size() = sizeof(struct sockaddr_storage);
   channel c(::accept(fd_, addr.address_data(), &addr.address_size()));
   if (!c) throw_io_error("Accept error");
   return c;
-- 
2.43.0


From 8ea2b48b0dd78697da4863e31c117b3289f8ecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:36 +0000
Subject: [PATCH 32/43] fix: files were created with arbitrary permissions

---
 src/arpc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/file.cpp b/src/arpc/file.cpp
index 2c73c23..a50af12 100644
--- a/src/arpc/file.cpp
+++ b/src/arpc/file.cpp
@@ -37,7 +37,7 @@ channel file(const std::string& path, open_mode mode) {
       O_RDWR | O_CREAT | O_APPEND,    // APPEND
   };
   channel res(
-      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)]));
+      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)], 0666));
   if (!res) throw_io_error("Error opening file");
   return res;
 }
-- 
2.43.0


From 6321df6734621e41efdd1164fcf61079e0e80378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 33/43] fix: listener::accept lost connections when another one
 failed

---
 src/arpc/socket.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/arpc/socket.cpp b/src/arpc/socket.cpp
index 47da107..62907af 100644
--- a/src/arpc/socket.cpp
+++ b/src/arpc/socket.cpp
@@ -22,6 +22,7 @@
 #include "arpc/socket.h"
 #include <sys/socket.h>
 #include <sys/types.h>
+#include <exception>
 #include <utility>
 #include "arpc/address_resolver.h"
 #include "arpc/context.h"
@@ -93,13 +94,20 @@ channel listener::accept() {
       return res;
     }
     auto [res] = select(acceptors_);
+    std::exception_ptr error;
     for (auto& r : res) {
       if (r) {
-        auto s = std::move(r).value();
-        s.make_non_blocking(non_blocking_);
-        pending_.push_back(std::move(s));
+        try {
+          auto s = std::move(r).value();
+          s.make_non_blocking(non_blocking_);
+          pending_.push_back(std::move(s));
+        } catch (...) {
+          // The other connections were accepted already: don't lose them.
+          error = std::current_exception();
+        }
       }
     }
+    if (error && pending_.empty()) std::rethrow_exception(error);
   } while (true);
 }
 
-- 
2.43.0


From 0a8aaccc43719620e07ba132c9109eda6431da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:31 +0000
Subject: [PATCH 34/43] fix: thread_pool lost tasks when workers or other
 submitters raced with run()

---
 src/arpc/executor.cpp | 26 ++++++++++----------------
 src/arpc/executor.h   | 29 +++++++++++++----------------
 2 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/src/arpc/executor.cpp b/src/arpc/executor.cpp
index a4f194b..3772935 100644
--- a/src/arpc/executor.cpp
+++ b/src/arpc/executor.cpp
@@ -46,22 +46,16 @@ thread_pool::thread_pool(unsigned int num_worker_threads, int queue_size)
 
 void thread_pool::request_work(promise<fn_type> slot) {
   while (true) {
-    auto [have_pending_fn, have_slot_space] =
-        select(pending_.can_get(), slots_.can_put());
-    try {
-      std::scoped_lock lock(mu_);
-      if (have_pending_fn) {
-        *have_pending_fn;
-        slot.set_value(pending_.maybe_get());
-        return;
-      }
-      if (have_slot_space) {
-        *have_slot_space;
-        slots_.maybe_put(std::move(slot));
-        return;
-      }
-    } catch (const errors::try_again&) {
-      // Just try again.
+    select(pending_.can_get(), slots_.can_put());
+    std::scoped_lock lock(mu_);
+    // Look again with the lock held (see run()).
+    if (!pending_.empty()) {
+      slot.set_value(pending_.maybe_get());
+      return;
+    }
+    if (!slots_.full()) {
+      slots_.maybe_put(std::move(slot));
+      return;
     }
   }
 }
diff --git a/src/arpc/executor.h b/src/arpc/executor.h
index e80cecb..416060b 100644
--- a/src/arpc/executor.h
+++ b/src/arpc/executor.h
@@ -52,23 +52,20 @@ class thread_pool {
 
   template <typename F>
   void run(F&& f) {
+    // Move it just once: queueing may have to be tried several times.
+    fn_type fn(std::forward<F>(f));
     while (true) {
-      auto [have_slot, have_pending_space] =
-          select(slots_.can_get(), pending_.can_put());
-      try {
-        std::scoped_lock lock(mu_);
-        if (have_slot) {
-          *have_slot;
-          slots_.maybe_get().set_value(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-        if (have_pending_space) {
-          *have_pending_space;
-          pending_.maybe_put(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-      } catch (const errors::try_again&) {
-        // Just try again.
+      select(slots_.can_get(), pending_.can_put());
+      std::scoped_lock lock(mu_);
+      // Look again with the lock held: a slot may have been added meanwhile,
+      // and nobody would match it with a function left pending.
+      if (!slots_.empty()) {
+        slots_.maybe_get().set_value(std::move(fn));
+        return;
+      }
+      if (!pending_.full()) {
+        pending_.maybe_put(std::move(fn));
+        return;
       }
     }
   }
-- 
2.43.0


From 380ee3f5095019121b5204694bee5fd68534a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 35/43] fix: reconnectable_connection deadlocked reconnecting,
 or disconnecting while in use

---
 src/arpc/connection.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 98e56bc..87ef454 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -80,6 +80,8 @@ class reconnectable_connection : public connection {
     std::scoped_lock lock(mu_);
     auto ptr = connection_.get_or_null();
     if (!ptr || !ptr->connected()) {
+      if (ptr) ptr->disconnect();
+      ptr.reset();  // drop() waits until there are no users left.
       connection_.drop();
       connection_factory_();
       connection_.arm(&*connection_storage_);
@@ -88,6 +90,8 @@ class reconnectable_connection : public connection {
 
   void disconnect() override {
     std::scoped_lock lock(mu_);
+    // Interrupt the connection's users: drop() waits until there are none left.
+    if (auto ptr = connection_.get_or_null()) ptr->disconnect();
     connection_.drop();
     connection_storage_.reset();
   }
-- 
2.43.0


From 21eb171590cf31edd0a83dbbc7af8c483e5caa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 36/43] fix: channel_connection::read lost data followed by the
 end of the channel

---
 src/arpc/connection.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 8586d23..b9a2541 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -83,10 +83,13 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
     auto [read, closing] =
         select(channel_.async_read(data, size), closing_.async_wait());
     if (read) {
-      if (*read == 0) break;
-      size -= *read;
-      data += *read;
-      total_read += *read;
+      try {
+        size -= *read;
+        data += *read;
+        total_read += *read;
+      } catch (const errors::eof&) {
+        break;
+      }
     }
     if (closing)
       throw errors::io_error("Read interrupted by connection shutdown");
-- 
2.43.0


From 34f1a06a0d8cc52ab0888a2b6f5d7e23b51f8ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:07 +0000
Subject: [PATCH 37/43] fix: server connections were used after being removed
 or destroyed

The tasks in the pool that receive requests and send responses kept using a connection wrapper
that the reactor could remove, or that stop() destroyed, at the same time: they now share its
ownership. Starting to receive or send and failing to do so are decided under the lock, so that
connections are removed once, and only when nothing uses them.
---
 src/arpc/server.h | 72 +++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 8e1ef88..5e7c1b7 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -165,7 +165,8 @@ class server {
 
   using connection_key = std::size_t;
   using connection_type = typename ConnectionProducer::connection_type;
-  class connection_wrapper {
+  // Tasks running in the thread pool share the ownership of the wrapper.
+  class connection_wrapper : public std::enable_shared_from_this<connection_wrapper> {
    public:
     explicit connection_wrapper(server& server, connection_key key,
                                 std::unique_ptr<connection_type> connection)
@@ -184,10 +185,10 @@ class server {
         return can_receive_.async_wait();
       }
 
-      return connection_->data_available().then([this]() {
-        can_receive_.reset();
+      return connection_->data_available().then([this, self(this->shared_from_this())]() {
+        if (!start(failed_receive_, can_receive_)) return;
 
-        server_.pool_.run([this]() {
+        server_.pool_.run([this, self]() {
           try {
             auto request = connection_->receive();
             string_input_stream request_is(request);
@@ -231,10 +232,11 @@ class server {
         return can_send_.async_wait();
       }
 
-      return responses_.async_get().then([this](std::string response) {
-        can_send_.reset();
+      return responses_.async_get().then([this, self(this->shared_from_this())](
+                                             std::string response) {
+        if (!start(failed_send_, can_send_)) return;
 
-        server_.pool_.run([this, response(std::move(response))]() mutable {
+        server_.pool_.run([this, self, response(std::move(response))]() mutable {
           try {
             connection_->send(std::move(response));
 
@@ -247,7 +249,7 @@ class server {
     }
 
     awaitable<void> remove() {
-      return can_remove_.async_wait().then([this]() {
+      return can_remove_.async_wait().then([this, self(this->shared_from_this())]() {
         server_.acceptor_->return_connection(std::move(connection_));
         server_.connections_.erase(key_);
       });
@@ -255,41 +257,39 @@ class server {
 
     void add_response(std::string response) { responses_.put(std::move(response)); }
 
+    void disconnect() { connection_->disconnect(); }
+
    private:
+    // Claim the right to receive or send, unless the connection is done for.
+    bool start(const bool& failed, flag& can_start) {
+      std::scoped_lock lock(mu_);
+      if (failed) return false;
+      can_start.reset();
+      return true;
+    }
+
     void receive_done(bool failed = false) {
-      bool removed = false;
-      {
-        std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_receive_ = true;
-        }
-        if (failed_send_ || (can_send_ && failed)) {
-          failed_receive_ = true;
-          removed = true;
-        }
-        can_receive_.set();
+      std::scoped_lock lock(mu_);
+      if (failed) {
+        failed_receive_ = true;
       }
-      if (removed) {
+      if (failed_send_ || (can_send_ && failed)) {
+        failed_receive_ = failed_send_ = true;
         can_remove_.set();
       }
+      can_receive_.set();
     }
 
     void send_done(bool failed = false) {
-      bool removed = false;
-      {
-        std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_send_ = true;
-        }
-        if (failed_receive_ || (can_receive_ && failed)) {
-          failed_send_ = true;
-          removed = true;
-        }
-        can_send_.set();
+      std::scoped_lock lock(mu_);
+      if (failed) {
+        failed_send_ = true;
       }
-      if (removed) {
+      if (failed_receive_ || (can_receive_ && failed)) {
+        failed_receive_ = failed_send_ = true;
         can_remove_.set();
       }
+      can_send_.set();
     }
 
     server& server_;
@@ -301,7 +301,7 @@ class server {
     flag can_receive_, can_send_, can_remove_;
   };
 
-  using connection_map = flat_map<connection_key, std::unique_ptr<connection_wrapper>>;
+  using connection_map = flat_map<connection_key, std::shared_ptr<connection_wrapper>>;
 
   using request_key = std::pair<connection_key, rpc_defs::request_id_type>;
   using request_result = std::pair<request_key, std::string>;
@@ -522,7 +522,7 @@ class server {
             // Ensure we prevent connection counter cycle collisions.
           }
           connections_.insert(
-              {next_connection_key_, std::make_unique<connection_wrapper>(
+              {next_connection_key_, std::make_shared<connection_wrapper>(
                                          *this, next_connection_key_, std::move(new_connection))});
         });
   }
@@ -629,6 +629,10 @@ class server {
       reactor_.join();
     }
 
+    // Interrupt the tasks that are still using the connections.
+    for (auto& cit : connections_) {
+      cit.second->disconnect();
+    }
     connections_.clear();
 
     acceptor_.reset();
-- 
2.43.0


From d68ff6d912d1b1c74c1c6ac277a825c7a1adde8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:32 +0000
Subject: [PATCH 38/43] fix: a server whose pool has a bounded queue deadlocked
 under load

The workers receiving requests waited for room in the pool's queue, which only they could make.
They now execute the requests they receive themselves.
---
 src/arpc/server.h | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 5e7c1b7..5e33d6e 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -188,7 +188,8 @@ class server {
       return connection_->data_available().then([this, self(this->shared_from_this())]() {
         if (!start(failed_receive_, can_receive_)) return;
 
-        server_.pool_.run([this, self]() {
+        server_.pool_.run([this, self]() mutable {
+          std::optional<queued_request> queued;
           try {
             auto request = connection_->receive();
             string_input_stream request_is(request);
@@ -203,7 +204,7 @@ class server {
             switch (message_type) {
               case rpc_defs::message_type::REQUEST:
                 request.erase(0, request_is.pos());
-                server_.queue_request(request_key{key_, req_id}, request);
+                queued = server_.queue_request(request_key{key_, req_id}, std::move(request));
                 break;
               case rpc_defs::message_type::CANCEL_REQUEST:
                 server_.cancel_request(request_key{key_, req_id});
@@ -217,7 +218,13 @@ class server {
             receive_done();
           } catch (...) {
             receive_done(true);
+            return;
           }
+          // Execute the request in this same worker: waiting for room in the pool's queue could
+          // block all of the workers that have to make it.
+          auto& server = server_;
+          self.reset();
+          if (queued) server.execute_queued(std::move(*queued));
         });
       });
     }
@@ -305,6 +312,14 @@ class server {
 
   using request_key = std::pair<connection_key, rpc_defs::request_id_type>;
   using request_result = std::pair<request_key, std::string>;
+  // A request that has been registered, and is still to be executed.
+  struct queued_request {
+    request_key key;
+    std::string request;
+    promise<request_result> result;
+    // Kept by the request's wrapper until there is a result.
+    context* parent_context;
+  };
   class request_wrapper {
    public:
     explicit request_wrapper(server& server, future<request_result> result)
@@ -346,29 +361,32 @@ class server {
     requests_.erase(key);
   }
 
-  void queue_request(const request_key& key, std::string request) {
+  std::optional<queued_request> queue_request(const request_key& key, std::string request) {
     std::scoped_lock lock(requests_mu_);
 
     if (requests_.count(key) > 0) {
       // A previous request with the same key was already registered... dupe?
       // Just drop the new one.
-      return;
+      return std::nullopt;
     }
 
     promise<request_result> promise;
     auto wrapper_ptr = std::make_unique<request_wrapper>(*this, promise.get_future());
-
-    pool_.run([this, promise(std::move(promise)), key, request(std::move(request)),
-               &parent_context(wrapper_ptr->get_context())]() mutable {
-      try {
-        context ctx(parent_context);
-        promise.set_value(request_result{key, std::move(execute(key.second, std::move(request)))});
-      } catch (...) {
-        promise.set_exception(std::current_exception());
-      }
-    });
+    auto* parent_context = &wrapper_ptr->get_context();
 
     requests_.insert({key, std::move(wrapper_ptr)});
+
+    return queued_request{key, std::move(request), std::move(promise), parent_context};
+  }
+
+  void execute_queued(queued_request queued) {
+    try {
+      context ctx(*queued.parent_context);
+      queued.result.set_value(
+          request_result{queued.key, execute(queued.key.second, std::move(queued.request))});
+    } catch (...) {
+      queued.result.set_exception(std::current_exception());
+    }
   }
 
   template <typename Interface>
-- 
2.43.0


From 4b53f3393e2121161d41ac9093c6909169c25f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:09 +0000
Subject: [PATCH 39/43] fix: a server stopped accepting, or terminated, after a
 connection that could not be accepted

An I/O error accepting one connection escaped the acceptor's thread, and stopping it while it waited
for a connection lost one of the connections allowed after starting again.
---
 src/arpc/server.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 5e33d6e..9c709a6 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -53,6 +53,7 @@
 #include "arpc/thread.h"
 #include "arpc/type_hash.h"
 #include "arpc/usage_lock.h"
+#include "arpc/wait.h"
 
 namespace arpc {
 
@@ -108,7 +109,17 @@ class connection_producer {
   void produce() {
     while (true) {
       connections_given_.put();
-      output_.put(factory_());
+      try {
+        output_.put(factory_());
+        continue;
+      } catch (const errors::io_error&) {
+        // This connection was lost, or there are no resources for it now: there will be others.
+        connections_given_.maybe_get();
+      } catch (...) {
+        connections_given_.maybe_get();
+        throw;
+      }
+      select(timeout(std::chrono::milliseconds(10)));
     }
   }
 
-- 
2.43.0


From eca8fc8e40b1e071ba23183960fcd225ce78d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:57 +0000
Subject: [PATCH 40/43] fix: future::get waited forever for a future holding a
 try_again error

select() takes a reaction throwing try_again as not being ready yet, so that calls to remote methods
that threw it never returned.
---
 src/arpc/future.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 6acf0f4..0375f02 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -176,8 +176,9 @@ class future {
   }
 
   value_type get() {
-    auto [res] = select(async_get());
-    return std::move(*res);
+    // Not select(async_get()), which would take a try_again error as not being ready.
+    select(can_get());
+    return maybe_get();
   }
 
   template <typename E, typename CGF>
@@ -263,8 +264,9 @@ class future<void> {
   }
 
   value_type get() {
-    auto [res] = select(async_get());
-    *res;
+    // Not select(async_get()), which would take a try_again error as not being ready.
+    select(can_get());
+    maybe_get();
   }
 
   template <typename E, typename CGF>
-- 
2.43.0


From 64302cfa37a24e54b6956f8b26b6ee13c794ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:57 +0000
Subject: [PATCH 41/43] fix: cancelled calls are abandoned, and the server is
 told

Abandoning the request waited for a mutex, which throws in a cancelled context: the cancellation was
not sent and the request stayed pending. Requests whose deadline is exactly now time out as well,
instead of waking up their handler again.
---
 src/arpc/client.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index c6208f0..904cdae 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -221,7 +222,7 @@ class client_connection {
     auto now = std::chrono::system_clock::now();
     auto it = pending_.begin();
     while (it != pending_.end()) {
-      if (it->second.deadline && *(it->second.deadline) < now) {
+      if (it->second.deadline && *(it->second.deadline) <= now) {
         it->second.result.set_exception(std::make_exception_ptr(
             errors::deadline_exceeded("Request timed out")));
         it = pending_.erase(it);
@@ -404,7 +405,9 @@ class client_connection {
     }
   }
 
-  mutex pending_mu_, sending_mu_;
+  // Not interruptible: requests are also abandoned from cancelled contexts.
+  std::mutex pending_mu_;
+  mutex sending_mu_;
   rpc_defs::request_id_type sequence_;
   flag ready_;
   connection_type connection_;
-- 
2.43.0


From 8f400ba11a78ed227ed147ac45d685282f989378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:43 +0000
Subject: [PATCH 42/43] fix: select no longer lets a descriptor that stays
 ready starve expired timers

A descriptor whose reaction keeps asking to try again made every poll return
before the timers, and the context's deadline, were looked at.
---
 src/arpc/select.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 20be4c0..9c37d91 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -267,23 +267,30 @@ template <typename... Args>
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
     if (pres < 0 && errno != EINTR) throw_io_error("Error in select");
 
-    if (pres >= 0) {
+    // The timers that had expired get their turn after what was ready, lest a descriptor that stays
+    // ready, but has nothing to report, starves them.
+    bool was_timeout = pres == 0;
+    bool look_again = pres >= 0;
+    while (look_again) {
       // The context goes first, so that an interrupted select has no side effects.
       auto context_fds = fds.data() + fds.size() - 2;
-      auto cancelled = detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0,
+      auto cancelled = detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], was_timeout,
                                                       min_timeout, elapsed);
       if (cancelled) *cancelled;
       auto deadline_exceeded = detail::make_one_select_result(
-          mpt::at<n - 1>(a), context_fds[1], pres == 0, min_timeout, elapsed);
+          mpt::at<n - 1>(a), context_fds[1], was_timeout, min_timeout, elapsed);
       if (deadline_exceeded) *deadline_exceeded;
 
-      auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout, elapsed,
+      auto res(detail::make_select_result(a, fds.data(), was_timeout, min_timeout, elapsed,
                                           mpt::make_index_sequence<n - 2>{}));
 
       bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
         return so_far || detail::select_output<decltype(val)>::is_active(val);
       });
       if (active) return res;
+
+      look_again = !was_timeout && min_timeout == std::chrono::milliseconds::zero();
+      was_timeout = true;
     }
 
     auto now = std::chrono::steady_clock::now();
-- 
2.43.0


From f4189dcfe338845229782b7f8ad75f150428d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:05 +0000
Subject: [PATCH 43/43] fix: select's timers count all of the time that passes

Each wake-up lost a fraction of a millisecond, so that timers expired late, or
never with wake-ups more often than every millisecond.
---
 src/arpc/select.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 9c37d91..a77dfc2 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -243,7 +243,7 @@ template <typename... Args>
                                                                  current_context.wait_deadline());
 
   std::chrono::milliseconds elapsed = std::chrono::milliseconds::zero();
-  auto last = std::chrono::steady_clock::now();
+  const auto start = std::chrono::steady_clock::now();
 
   do {
     // Find whether we have a timeout to apply.
@@ -293,9 +293,9 @@ template <typename... Args>
       was_timeout = true;
     }
 
-    auto now = std::chrono::steady_clock::now();
-    elapsed += std::chrono::duration_cast<std::chrono::milliseconds>(now - last);
-    last = now;
+    // Not a sum of intervals, which would lose a fraction of each.
+    elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(
+        std::chrono::steady_clock::now() - start);
   } while (true);
 }
 
-- 
2.43.0

