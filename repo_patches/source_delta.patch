From 56bf811496ffcfd0ef769c0602cc72c77473b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 01/47] fix: accessor's exist() was inverted for preplaced
 fields

is_present(), operator bool and removal of preplaced fields treated
null fields as present and vice versa.
---
 fast_positive/tuples/details/getter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 725e281..83d8bdc 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -211,7 +211,7 @@ public:
 
   cxx11_constexpr bool exist() const cxx11_noexcept {
     return token_.is_preplaced()
-               ? static_cast<const field_preplaced *>(field_)->is_null(
+               ? !static_cast<const field_preplaced *>(field_)->is_null(
                      token_.tag())
                : field_ != nullptr;
   }
-- 
2.43.0


From e113ae8563d777457163638bfaf43538146dc865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 02/47] fix: sorting of the index doubled its size and lost
 fields

The vector was constructed with index_size() zeroed items and then filled
by emplace_back(), so the rebuilt index overran its space.
---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index c8b921f..d13ab2d 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -920,7 +920,8 @@ bool gear::sort(onstack_allocation_arena &onstack_arena) {
     return false;
   }
 
-  sort_vector vector(index_size(), onstack_arena);
+  sort_vector vector(onstack_arena);
+  vector.reserve(index_size());
   const unit_t *const basis = &area_[head_];
   /* заполняем вектор */
   for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
-- 
2.43.0


From ef1b2db197676d5b21df41619d0b62c7ec3f5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 03/47] fix: compactification used absent payload of empty
 preplaced fields

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index d13ab2d..ebf304c 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -832,7 +832,8 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           const field_preplaced *const preplaced =
               erthink::constexpr_pointer_cast<const field_preplaced *>(
                   begin_data_bytes() + ident.preplaced_offset());
-          vector.emplace_back(basis, ident.type(), preplaced);
+          if (preplaced->relative.have_payload())
+            vector.emplace_back(basis, ident.type(), preplaced);
         }
       }
     }
-- 
2.43.0


From b4d992060a054c91ac1f3781a301ce9d97f728f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 04/47] fix: partially reused hole was shifted by a wrong
 distance

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index ebf304c..7ec6c73 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -297,7 +297,7 @@ field_loose *gear::alloc_loose(const tag_t tag, unsigned units) {
   field_loose *loose = index_alloc(units);
   loose->genus_and_id = uint16_t(tag);
   loose->relative.set_payload(hole->hole_begin());
-  hole->relative.add_delta(excess);
+  hole->relative.add_delta(units);
   hole->hole_set_units(excess);
   junk_.volume -= uint16_t(units);
   mark_unsorted();
-- 
2.43.0


From 4e0e6085a3d957e04add9f3c787d83454ca393fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:45 +0000
Subject: [PATCH 05/47] fix: failed release of a data chunk left the junk
 counter increased

---
 src/gear.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 7ec6c73..6d6e681 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -389,6 +389,14 @@ gear::release_data(relative_payload *chunk, unsigned units,
     return nullptr;
   }
 
+  if (hole0 == nullptr && before_after.first == nullptr &&
+      before_after.second == nullptr) {
+    /* не нашлось соседних дырок для объединения с куском,
+     * (!) тут может выскочить исключение, до изменения счетчиков */
+    hole0 = index_alloc(0);
+    junk_.count += 1;
+  }
+
   /* добавляем в счетчики, чтобы прошли проверки внутри merge и trim */
   junk_.volume += uint16_t(units);
 
@@ -413,10 +421,6 @@ gear::release_data(relative_payload *chunk, unsigned units,
     /* не нашлось соседних дырок для объединения с куском */
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
-    if (hole0 == nullptr) {
-      hole0 = index_alloc(0);
-      junk_.count += 1;
-    }
     hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
     return hole0;
-- 
2.43.0


From 57c7185acf75ffeee7e00ae6c9eef3da16bd8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:45 +0000
Subject: [PATCH 06/47] fix: hole adjacent to the end of data was not returned
 to unallocated space

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 6d6e681..5000118 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -592,7 +592,7 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       junk_.volume += uint16_t(have - needed);
 
       /* если дырка примыкает к концу данных, то её нужно "испарить" */
-      if (chunk == end_data_units()) {
+      if (chunk + have == end_data_units()) {
         /* возвращем место в нераспределенное */
         tail_ -= have;
         junk_.volume -= uint16_t(have);
-- 
2.43.0


From 7af72c5739807bfa21d269b9837205056ead4903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:43 +0000
Subject: [PATCH 07/47] fix: over-read of the source while storing an ip_net_t
 value

---
 fast_positive/tuples/details/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/meta.h b/fast_positive/tuples/details/meta.h
index 9a367a3..f6eb797 100644
--- a/fast_positive/tuples/details/meta.h
+++ b/fast_positive/tuples/details/meta.h
@@ -241,7 +241,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
   static void write(details::field_preplaced *preplaced,
                     return_type value) cxx11_noexcept {
     static_assert(sizeof(value_type) <= preplaced_bytes, "WTF?");
-    std::memcpy(preplaced->bytes, &value, preplaced_bytes);
+    std::memcpy(preplaced->bytes, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(preplaced->bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
@@ -267,7 +267,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
 #endif /* GNU C >= 10.x */
 
     static_assert(sizeof(ptr->fixed) >= preplaced_bytes, "WTF?");
-    std::memcpy(&ptr->fixed.words, &value, preplaced_bytes);
+    std::memcpy(&ptr->fixed.words, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(ptr->fixed.bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
-- 
2.43.0


From d270b177a801d59b2e5fd6f98cb910c4569bd95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:11 +0000
Subject: [PATCH 08/47] fix: postfix increment/decrement of iterators did not
 advance them

...and returned an advanced copy, moreover in the opposite direction for
loose_iterator_ro.
---
 fast_positive/tuples/details/getter.h |  6 +++---
 fast_positive/tuples/details/ro.h     | 28 +++++++++++++++------------
 fast_positive/tuples/details/rw.h     |  6 +++---
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 83d8bdc..5d857d2 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -492,9 +492,9 @@ public:
                             detent_, accessor::token_.tag());
     return *this;
   }
-  collection_iterator_ro operator++(int) const cxx11_noexcept {
-    collection_iterator_ro iterator(*this);
-    ++iterator;
+  collection_iterator_ro operator++(int) cxx11_noexcept {
+    const collection_iterator_ro iterator(*this);
+    ++*this;
     return iterator;
   }
   cxx11_constexpr const accessor &operator*() const cxx11_noexcept {
diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 9d5143e..1a966ec 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -182,17 +182,19 @@ public:
     --field_;
     return *this;
   }
-  loose_iterator_ro operator++(int) const cxx11_noexcept {
-    loose_iterator_ro iterator(*this);
-    return --iterator;
+  loose_iterator_ro operator++(int) cxx11_noexcept {
+    const loose_iterator_ro iterator(*this);
+    ++*this;
+    return iterator;
   }
   loose_iterator_ro &operator--() cxx11_noexcept {
     ++field_;
     return *this;
   }
-  loose_iterator_ro operator--(int) const cxx11_noexcept {
-    loose_iterator_ro iterator(*this);
-    return ++iterator;
+  loose_iterator_ro operator--(int) cxx11_noexcept {
+    const loose_iterator_ro iterator(*this);
+    --*this;
+    return iterator;
   }
   loose_iterator_ro &operator+=(const difference_type shift) cxx11_noexcept {
     field_ -= shift;
@@ -504,14 +506,16 @@ public:
   }
 
   field_iterator_ro &operator++();
-  field_iterator_ro operator++(int) const {
-    field_iterator_ro iterator(*this);
-    return ++iterator;
+  field_iterator_ro operator++(int) {
+    const field_iterator_ro iterator(*this);
+    ++*this;
+    return iterator;
   }
   field_iterator_ro &operator--();
-  field_iterator_ro operator--(int) const {
-    field_iterator_ro iterator(*this);
-    return --iterator;
+  field_iterator_ro operator--(int) {
+    const field_iterator_ro iterator(*this);
+    --*this;
+    return iterator;
   }
 };
 
diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 5590fdb..d44c307 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -924,9 +924,9 @@ public:
                accessor::tuple_->end_index(), accessor::token_.tag());
       return *this;
     }
-    collection_iterator_rw operator++(int) const cxx11_noexcept {
-      collection_iterator_rw iterator(*this);
-      ++iterator;
+    collection_iterator_rw operator++(int) cxx11_noexcept {
+      const collection_iterator_rw iterator(*this);
+      ++*this;
       return iterator;
     }
     cxx14_constexpr accessor operator*() const cxx11_noexcept {
-- 
2.43.0


From b25b3342456552ec7d774c6edfeafa6a3e308cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:14 +0000
Subject: [PATCH 09/47] fix: subscript of loose_iterator_ro used the type of
 another field

---
 fast_positive/tuples/details/ro.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 1a966ec..c1a123c 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -87,7 +87,7 @@ public:
            - is_discernible_null: не имеет значения, ибо точно знаем что
              loose-поле есть.
            - is_rangechecking/is_saturated: не нужен при чтении. */
-        field_token(false, false, false));
+        token((field_ - index)->genus_and_id, false, false, false));
   }
   cxx14_constexpr dynamic_accessor_ro operator*() const cxx11_noexcept {
     return operator[](0);
-- 
2.43.0


From c0488c9aeaabc06e61e92ce610c2c218123c53c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:26 +0000
Subject: [PATCH 10/47] fix: netto_size() mixed units with bytes

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index d44c307..ad0e57c 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1128,7 +1128,7 @@ public: //----------------------------------------------------------------------
     return units2bytes(tail_ - head_ + /* header */ 1);
   }
   __pure_function std::size_t netto_size() const cxx11_noexcept {
-    return brutto_size() - junk_units();
+    return brutto_size() - junk_bytes();
   }
   __pure_function std::size_t capacity() const cxx11_noexcept {
     return units2bytes(end_);
-- 
2.43.0


From 390ef1cddf514e67f66632a2ab916c178d7433a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:26 +0000
Subject: [PATCH 11/47] fix: inverted dont_optimize flag of take_weak() and
 take_managed_clone()

---
 fast_positive/tuples.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 6f85a16..a10c82c 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -850,8 +850,8 @@ public:
 
   /* возвращает пару, во втором элементе признак инвалидации итераторов */
   std::pair<tuple_ro_weak, bool> take_weak(bool dont_optimize = false) {
-    return dont_optimize ? take_weak_optimized()
-                         : std::make_pair(take_weak_asis(), false);
+    return dont_optimize ? std::make_pair(take_weak_asis(), false)
+                         : take_weak_optimized();
   }
 
   tuple_ro_managed move_to_ro(bool dont_optimize = false) {
@@ -887,10 +887,9 @@ public:
       bool dont_optimize = false, bool hollow_if_empty = false,
       const hippeus::buffer_tag &allot_tag = default_buffer_allot()) {
     return dont_optimize
-               ? take_managed_clone_optimized(hollow_if_empty, allot_tag)
-               : std::make_pair(
-                     take_managed_clone_asis(hollow_if_empty, allot_tag),
-                     false);
+               ? std::make_pair(
+                     take_managed_clone_asis(hollow_if_empty, allot_tag), false)
+               : take_managed_clone_optimized(hollow_if_empty, allot_tag);
   }
 
   __pure_function static cxx11_constexpr size_t estimate_required_space(
-- 
2.43.0


From 98ec9712447a579ff38fb46160a9ba0687a1feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:08 +0000
Subject: [PATCH 12/47] fix: cloning of a checked r/o tuple inverted validation
 and lost holes

By the comment, validation is required when a schema is given. The holes
of a non-validated source were not accounted in the basis r/w form.
---
 src/managed.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 928b566..d0957ec 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -470,13 +470,21 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
       /* если схема не задана, то считаем что необходимые проверки были
          сделаны при создании tuple_ro_weak, иначе выполняем повторную
          проверку для исключения несоответствия схеме */
-      schema == nullptr);
+      schema != nullptr);
   if (wanna_validation)
     return tuple_ro_managed(tuple_rw_fixed(
         src.data(), src.size(),
         /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
 
-  const details::audit_holes_info &holes_info = {0, 0};
+  /* дырки в индексе должны быть учтены, ибо опорный экземпляр
+   * details::tuple_rw может быть преобразован в R/W-форму */
+  details::audit_holes_info holes_info = {0, 0};
+  const details::tuple_ro *const impl = src.get_impl();
+  for (auto loose = impl->begin_index(); loose < impl->end_index(); ++loose)
+    if (loose->is_hole()) {
+      holes_info.count += 1;
+      holes_info.volume += uint16_t(loose->hole_get_units());
+    }
   return tuple_ro_managed(tuple_rw_fixed(
       holes_info, src,
       /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
-- 
2.43.0


From 8a1d2ab926b67a9b55718001128a97756c869645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:49 +0000
Subject: [PATCH 13/47] fix: wrong length of varbinary values not multiple of
 four bytes

---
 fast_positive/tuples/details/field.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 5a05fb2..235b1b3 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -121,7 +121,8 @@ union stretchy_value_varbin {
     static_assert(8 - genus_bitness == 3, "Oops");
     const std::size_t tailbytes = reserved14_tailbytes & 3;
     constexpr_assert(brutto_units > 1 || tailbytes == 0);
-    return units2bytes(brutto_units) - 4 + tailbytes;
+    /* остаток задаёт количество использованных байт в последнем юните */
+    return units2bytes(brutto_units) - 4 - ((4 - tailbytes) & 3);
   }
 
   static std::size_t estimate_space(const string_view &value) {
-- 
2.43.0


From e0f2b427415ebed20db14fedc14107adc37c50a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:34 +0000
Subject: [PATCH 14/47] fix: lookup of a schema token by loose field missed
 some fields

---
 src/schema.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index e1b30cf..0bac837 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -432,6 +432,10 @@ schema::by_loose(const details::field_loose *field) const cxx11_noexcept {
       ++iter;
       __fallthrough /* fall through */;
     case 0:
+      /* искомый может быть последним из отброшенных, т.е. middle-элементом */
+      if (iter != sorted_tokens_.end() &&
+          details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
+        return *iter;
       break;
     default:
       assert(false);
-- 
2.43.0


From e9f3677263d501401bfaa8cd73a3cec3c15cfea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:34 +0000
Subject: [PATCH 15/47] fix: inserting a datetime into collection of t32-type
 was refused

---
 src/rw.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index 374d3de..de829e4 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -226,7 +226,6 @@ HERE_GENUS_CASE(uint64_t, u64, u64)
 HERE_GENUS_CASE(float, f32, f32)
 HERE_GENUS_CASE(double, f64, f64)
 HERE_GENUS_CASE(decimal64, decimal, d64)
-HERE_GENUS_CASE(datetime_t, datetime, t64)
 HERE_GENUS_CASE(binary96_t &, bin96, bin96)
 HERE_GENUS_CASE(binary128_t &, bin128, bin128)
 HERE_GENUS_CASE(binary160_t &, bin160, bin160)
@@ -241,6 +240,15 @@ HERE_GENUS_CASE(mac_address_t, mac_address, mac)
 HERE_GENUS_CASE(ip_net_t &, ip_net, ipnet)
 #undef HERE_GENUS_CASE
 
+FPTU_API dynamic_collection_iterator_rw
+tuple_rw::insert_datetime(const token &ident, const datetime_t value) {
+  field_loose *field =
+      unlikely(ident.type() == genus::t32)
+          ? append_field<token, genus::t32>(value.utc_seconds(), ident)
+          : append_field<token, genus::t64>(value, ident);
+  return dynamic_collection_iterator_rw(this, field, ident);
+}
+
 FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_uuid(const token &ident, const uuid_t &value) {
   field_loose *field = append_field<token, genus::bin128>(value.bin128, ident);
-- 
2.43.0


From 0f479b1ee40187e201e32ec308e030405b51e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:31 +0000
Subject: [PATCH 16/47] fix: AVX scan read two bytes beyond the index

Reading of the 32 bytes shifted by two went beyond the end of index, that is
a segmentation fault when a tuple is adjacent to an unmapped page. Moreover
the comparison of tags as floats depends on the denormals-are-zeros mode.
---
 src/scan_AVX.cxx | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/scan_AVX.cxx b/src/scan_AVX.cxx
index 55c768b..9edce13 100644
--- a/src/scan_AVX.cxx
+++ b/src/scan_AVX.cxx
@@ -33,22 +33,25 @@ namespace fptu {
 namespace details {
 
 #if __SANITIZE_ADDRESS__
-static __m256i __attribute__((no_sanitize_address, noinline))
-bypass_asan_read_m256(const void *src) {
-  return _mm256_loadu_si256((const __m256i *)src);
+static __m128i __attribute__((no_sanitize_address, noinline))
+bypass_asan_read_m128(const void *src) {
+  return _mm_loadu_si128((const __m128i *)src);
 }
-#define _mm256_loadu_si256(ptr) bypass_asan_read_m256(ptr)
+#define _mm_loadu_si128(ptr) bypass_asan_read_m128(ptr)
 #endif
 
-static __always_inline unsigned cmp2mask(const __m256 pattern,
+static __always_inline unsigned cmp2mask_x4(const __m128i pattern,
+                                            const field_loose *scan) {
+  const __m128i odd = _mm_set1_epi32(int(0xffff0000u));
+  return _mm_movemask_ps(_mm_castsi128_ps(_mm_cmpeq_epi32(
+      pattern, _mm_and_si128(odd, _mm_loadu_si128((const __m128i *)scan)))));
+}
+
+/* LY: there are no 256-bit integer comparisons in AVX, whereas the comparison
+ * of floating-point numbers is affected by the denormals-are-zeros mode */
+static __always_inline unsigned cmp2mask(const __m128i pattern,
                                          const field_loose *scan) {
-  const char *ptr = (const char *)scan + 2;
-  const __m256 even = _mm256_castsi256_ps(_mm256_set1_epi32(0x0000ffffu));
-  return _mm256_movemask_ps(_mm256_cmp_ps(
-      pattern,
-      _mm256_and_ps(
-          even, _mm256_castsi256_ps(_mm256_loadu_si256((const __m256i *)ptr))),
-      _CMP_EQ_OQ));
+  return cmp2mask_x4(pattern, scan) + (cmp2mask_x4(pattern, scan + 4) << 4);
 }
 
 static __always_inline bool mask2ptr(unsigned mask, const field_loose *&ptr) {
@@ -80,14 +83,7 @@ __hot const field_loose *fptu_scan_AVX(const field_loose *begin,
   const ptrdiff_t bytes = (char *)end - (char *)begin;
   assert(bytes % 4 == 0);
 
-  const __m256 pattern =
-#if 1 /* LY: avoid store to temporary on the stack */
-      _mm256_permute2f128_ps(_mm256_castps128_ps256(_mm_castsi128_ps(
-                                 _mm_set1_epi32(genus_and_id))),
-                             _mm256_undefined_ps(), 0);
-#else
-      _mm256_castsi256_ps(_mm256_set1_epi32(genus_and_id));
-#endif
+  const __m128i pattern = _mm_set1_epi32(int(uint32_t(genus_and_id) << 16));
   const field_loose *scan = begin;
 
   if (unlikely(bytes < 8 * 4)) {
-- 
2.43.0


From 745bd0f8ee275bb3bc77025552d3ed4d075a6599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:40 +0000
Subject: [PATCH 17/47] fix: audit of a tuple read lengths of fields beyond the
 tuple's end

The length of a variable-size field was read before checking that its first
unit belongs to the tuple. Also the zero size and non-zero tail of an empty
varbinary were not rejected.
---
 src/audit.cxx | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index f09b189..488f773 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -97,6 +97,10 @@ public:
                           const unit_t *begin_payload,
                           const unit_t *end_payload);
 
+  const char *check_stretchy(const genus type, const relative_payload *payload,
+                             const unit_t *begin_payload,
+                             const unit_t *end_payload);
+
   const char *check_loose(const field_loose *loose, const unit_t *begin_payload,
                           const unit_t *end_payload);
 };
@@ -188,6 +192,25 @@ const char *auditor::check_chunk(const unit_t *chunk_begin,
   return nullptr;
 }
 
+const char *auditor::check_stretchy(const genus type,
+                                    const relative_payload *payload,
+                                    const unit_t *begin_payload,
+                                    const unit_t *end_payload) {
+  /* the first unit holds the length and must be checked before reading */
+  if (unlikely(payload->flat < begin_payload))
+    return AUDIT_FAILURE("chunk_begin < begin_payload");
+  if (unlikely(payload->flat >= end_payload))
+    return AUDIT_FAILURE("chunk_begin >= end_payload");
+  const std::size_t units = payload->stretchy.brutto_units(type);
+  if (unlikely(units < 1))
+    return AUDIT_FAILURE("stretchy.brutto_units < 1");
+  if (type == genus::varbin &&
+      unlikely(units < 2 &&
+               (payload->stretchy.varbin.reserved14_tailbytes & 3) != 0))
+    return AUDIT_FAILURE("varbin.tailbytes of empty value");
+  return check_chunk(payload->flat, units, begin_payload, end_payload);
+}
+
 const char *auditor::check_loose(const field_loose *loose,
                                  const unit_t *begin_payload,
                                  const unit_t *end_payload) {
@@ -218,9 +241,8 @@ const char *auditor::check_loose(const field_loose *loose,
 
   /* stretchy */
   if (loose->relative.have_payload())
-    return check_chunk(loose->relative.payload()->flat,
-                       loose->relative.payload()->stretchy.brutto_units(type),
-                       begin_payload, end_payload);
+    return check_stretchy(type, loose->relative.payload(), begin_payload,
+                          end_payload);
   return nullptr;
 }
 } // namespace
@@ -286,10 +308,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
 
       if (!target->relative.have_payload())
         continue;
-      const auto payload = target->relative.payload();
-      trouble = validator.check_chunk(
-          payload->flat, payload->stretchy.brutto_units(field_token.type()),
-          payload_begin, payload_end);
+      trouble = validator.check_stretchy(field_token.type(),
+                                         target->relative.payload(),
+                                         payload_begin, payload_end);
       if (unlikely(trouble))
         return AUDIT_FAILURE(trouble);
     }
-- 
2.43.0


From 94af13f38f3c1b785bdac8738732b468d9ce0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:57 +0000
Subject: [PATCH 18/47] fix: compactification damaged loose fields without
 payload

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 5000118..66a1555 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -784,7 +784,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           !is_inplaced(src->type()) && src->relative.have_payload();
       if (src != dst) {
         dst->loose_header = src->loose_header;
-        if (!is_inplaced(src->type()))
+        if (!is_inplaced(src->type()) && dst->relative.have_payload())
           dst->relative.sub_delta(dst - src);
       }
       --dst;
-- 
2.43.0


From ad617b8e9febe4330b2000ab3dd7f10834eb1f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:08 +0000
Subject: [PATCH 19/47] fix: audit accepted a tuple with unaccounted space

---
 src/audit.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/audit.cxx b/src/audit.cxx
index 488f773..b57a390 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -316,6 +316,10 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
     }
   }
 
+  if (validator.map_empty() &&
+      unlikely(bytes2units(payload_bytes) != bytes2units(preplaced_bytes)))
+    return AUDIT_FAILURE("lose space at the end of tuple");
+
   if (!validator.map_empty()) {
     const auto map_begin = validator.map_begin();
     if (unlikely(tuple_have_preplaced != (map_begin > 0)))
-- 
2.43.0


From dd06d8fb18a7a7307fa1ab8742a2f7d4a6b95d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:08 +0000
Subject: [PATCH 20/47] fix: audit refused a tuple of the largest size

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index b57a390..efda412 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -383,7 +383,7 @@ tuple_ro::inline_lite_checkup(const void *ptr,
 
   if (unlikely(bytes < sizeof(unit_t)))
     return AUDIT_FAILURE("hollow tuple (too short)");
-  if (unlikely(bytes > fptu::max_tuple_bytes_netto))
+  if (unlikely(bytes > fptu::max_tuple_bytes_brutto))
     return AUDIT_FAILURE("tuple too large");
   if (unlikely(bytes % sizeof(unit_t)))
     return AUDIT_FAILURE("odd tuple size");
-- 
2.43.0


From 3723470e15fa69e9728803d67e5b4f7fc55fb058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:05 +0000
Subject: [PATCH 21/47] fix: taking an absent nested tuple as managed one was
 an error

---
 fast_positive/tuples.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index a10c82c..6bd9fc4 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -585,7 +585,8 @@ public:
   template <typename TOKEN>
   __pure_function inline tuple_ro_managed
   get_nested_managed(const TOKEN &ident) const {
-    return tuple_ro_managed(get_impl()->get_nested(ident), get_buffer());
+    const auto nested = get_impl()->get_nested(ident);
+    return tuple_ro_managed(nested, nested ? get_buffer() : nullptr);
   }
 };
 
@@ -665,7 +666,8 @@ public:
   template <typename TOKEN>
   __pure_function inline tuple_ro_managed
   get_nested_managed(const TOKEN &ident) const {
-    return tuple_ro_managed(get_impl()->get_nested(ident), get_buffer());
+    const auto nested = get_impl()->get_nested(ident);
+    return tuple_ro_managed(nested, nested ? get_buffer() : nullptr);
   }
 
 #define HERE_CRTP_MAKE(VALUE_TYPE, NAME)                                       \
-- 
2.43.0


From 6f21fda6460b23139fd692fe34cfdc6dc65060bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:05 +0000
Subject: [PATCH 22/47] fix: managed clone without a schema spoiled tuples with
 preplaced fields

---
 src/managed.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/managed.cxx b/src/managed.cxx
index d0957ec..0eb51ee 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -476,6 +476,17 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
         src.data(), src.size(),
         /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
 
+  if (unlikely(!schema && src.have_preplaced())) {
+    /* Без схемы невозможна R/W-форма кортежа с preplaced-полями, поэтому
+     * копируем данные без создания опорного экземпляра details::tuple_rw. */
+    hippeus::buffer_ptr buffer(
+        hippeus::buffer::borrow(allot_tag, src.size(), true));
+    std::memcpy(buffer->data(), src.data(), src.size());
+    return tuple_ro_managed(
+        erthink::constexpr_pointer_cast<const impl *>(buffer->data()),
+        buffer.get());
+  }
+
   /* дырки в индексе должны быть учтены, ибо опорный экземпляр
    * details::tuple_rw может быть преобразован в R/W-форму */
   details::audit_holes_info holes_info = {0, 0};
-- 
2.43.0


From 6dae0f487bc839336c07e928cb8b3bf6bf9beeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:36 +0000
Subject: [PATCH 23/47] fix: growth of a tuple without a buffer took a wrong
 size of the memory

The number of units in the re-allocated memory was computed as the remainder
instead of the quotient.
---
 src/autogrowth.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 88634e8..d395f14 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -144,7 +144,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
     pimpl_->end_ = unsigned(std::min(
         ptrdiff_t(max_tuple_units_netto),
         erthink::constexpr_pointer_cast<details::unit_t *>(new_legacy_buffer) +
-            growth_space % fundamentals::unit_size - pimpl_->area_));
+            growth_space / fundamentals::unit_size - pimpl_->area_));
     debug_check();
 
     /* Память перевыделенна. Теперь должно быть достаточно места для данных, но
-- 
2.43.0


From 311e61ea64d50a8542ad6871850f1f85e48dca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:49 +0000
Subject: [PATCH 24/47] fix: growth of a tuple could exceed the limit of fields

An index could get more than max_fields slots, so the 8192nd field spoiled the
header of the serialized form. Near the limit of the size the room for the
index was taken at the expense of the room needed for data.
---
 src/autogrowth.cxx | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index d395f14..3e3ca5e 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -29,7 +29,9 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
   size_t allocated_units = pimpl_->tail_ - pimpl_->head_;
   size_t unallocated_units = pimpl_->end_ - allocated_units;
   if (unlikely(allocated_units - junk_units + wanna_units >= UINT16_MAX ||
-               wanna.index_space > fundamentals::max_fields ||
+               pimpl_->pivot_ - pimpl_->head_ - pimpl_->junk_.count +
+                       wanna.index_space >
+                   fundamentals::max_fields ||
                wanna.data_space > fundamentals::max_tuple_bytes_netto)) {
     /* Запрос превышает максимальный размер. Чтобы не искажать картину бросаем
      * исключение не изменяя кортеж. */
@@ -55,11 +57,14 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
        * переместить "с запасом", распределяя свободное место пропорционально
        * актуальным размерам индекса (с учетом приращения) и данных. При этом
        * выполняем ceil-округление для места резервируемого под индекс. */
-      const ptrdiff_t reserve =
+      const size_t index_room =
+          fundamentals::max_fields - (pimpl_->pivot_ - pimpl_->head_);
+      const ptrdiff_t reserve = std::min(
+          index_room,
           std::max(wanna.index_space,
                    std::min((unallocated_units * index_used + whole_used - 1) /
                                 whole_used,
-                            unallocated_units - wanna.data_space));
+                            unallocated_units - wanna.data_space)));
       shift = reserve - pimpl_->head_;
     } else if (wanna.data_space > pimpl_->end_ - pimpl_->tail_) {
       /* Недостаточно места для данных, перемещаем всё вперед. Пытаемся
@@ -100,9 +105,11 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
    * будет размером из "линейки масштабов". */
 
   if (allocated_units + wanna_units >= UINT16_MAX ||
+      pimpl_->pivot_ - pimpl_->head_ + wanna.index_space >
+          fundamentals::max_fields ||
       junk_units + junk_units > allocated_units) {
     /* Без компактификации расширение на запрошенное место превысит предел
-     * размера кортежа.
+     * размера кортежа либо его индекса.
      * Либо если в кортеже много (половина или больше) дырок, то перед
      * копированием выгоднее выполнить компактификацию. */
     pimpl_->compactify();
@@ -120,9 +127,13 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
           : details::units2bytes(data_capacity_units + 42));
 
   /* Место под индекс: удваиваем если не хватило или использовано хотя-бы на
-   * половину, иначе оставляем как есть. */
+   * половину, иначе оставляем как есть. Но не в ущерб месту под данные, когда
+   * кортеж близок к предельному размеру. */
   const size_t growth_index =
-      std::min(size_t(fundamentals::max_fields),
+      std::min(std::min(size_t(fundamentals::max_fields),
+                        size_t(fundamentals::max_tuple_units_netto) -
+                            (pimpl_->tail_ - pimpl_->pivot_) -
+                            wanna.data_space),
                (wanna.index_space > pimpl_->head_space() ||
                 pimpl_->head_ + pimpl_->head_ < pimpl_->pivot_)
                    ? (wanna.index_space + pimpl_->pivot_) * 2
@@ -151,9 +162,9 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
      * для расширения места под индекс потроха кортежа нужно передвинуть. */
     assert(wanna.data_space >= pimpl_->end_ - pimpl_->tail_);
     assert(wanna_units >= pimpl_->end_ - pimpl_->tail_ + pimpl_->head_);
-    if (growth_index > pimpl_->pivot_) {
-      /* Недостаточно места для индекса, перемещаем всё назад */
-      const ptrdiff_t shift = growth_index - pimpl_->pivot_;
+    if (growth_index != pimpl_->pivot_) {
+      /* Перемещаем всё, отводя под индекс рассчитанное место */
+      const ptrdiff_t shift = ptrdiff_t(growth_index) - pimpl_->pivot_;
 
       assert(ptrdiff_t(pimpl_->tail_) + shift <= ptrdiff_t(pimpl_->end_));
       auto src = &pimpl_->area_[pimpl_->head_];
-- 
2.43.0


From 369051502c689cb9cbf8d6215cd38a29277414f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:49 +0000
Subject: [PATCH 25/47] fix: growth near the limit of size was refused if a
 schema has preplaced fields

Preplaced fields were counted twice in the estimation of the required space.
---
 fast_positive/tuples/details/rw.h | 5 +++--
 src/autogrowth.cxx                | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index ad0e57c..9a33a8e 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1154,8 +1154,9 @@ public: //----------------------------------------------------------------------
     const std::size_t preplaced_bytes = schema ? schema->preplaced_bytes() : 0;
     if (unlikely(preplaced_bytes > fundamentals::max_tuple_bytes_netto))
       throw_invalid_schema();
-    if (unlikely(data_bytes >
-                     fundamentals::max_tuple_bytes_netto - preplaced_bytes ||
+    if (unlikely(data_bytes > fundamentals::max_tuple_bytes_netto -
+                                  (dont_account_preplaced ? 0
+                                                          : preplaced_bytes) ||
                  items > fundamentals::max_fields))
       throw_tuple_too_large();
 
diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 3e3ca5e..d945044 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -140,7 +140,8 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
                    : pimpl_->pivot_);
 
   size_t growth_space = details::tuple_rw::estimate_required_space(
-      growth_index, growth_data, pimpl_->schema_);
+      growth_index, growth_data, pimpl_->schema_,
+      /* preplaced-поля уже учтены, ибо они часть данных */ true);
   hippeus::buffer *old_buffer = pimpl_->get_buffer();
   if (unlikely(!old_buffer)) {
     /* Буфера нет (buffer_offset_ равен нулю). Кортеж был создан через
-- 
2.43.0


From 64119a178688b6cb427f77cc1f720a8272e036cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:49 +0000
Subject: [PATCH 26/47] fix: validation aborted on a tuple with all fields and
 stretchy preplaced ones

A map of used space may have more items than max_fields, since preplaced
fields of variable size have payload too.
---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index efda412..adefc0f 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -88,7 +88,7 @@ public:
   auditor(onstack_allocation_arena &area, std::size_t limit)
       : map_(area), holes_count_(0), holes_volume_(0) {
     static_assert(sizeof(interval) == 2 * sizeof(offset), "WTF?");
-    FPTU_ENSURE(limit <= fptu::max_fields);
+    FPTU_ENSURE(limit <= fptu::max_tuple_units_netto);
     map_.reserve(limit);
   }
 
-- 
2.43.0


From e77e0a60d8f879bb3b3677e554786022423463e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:49 +0000
Subject: [PATCH 27/47] fix: erasing or resizing of long fields corrupted a
 tuple

The length of a hole is limited by 11 bits, but longer chunks were turned
into holes, and adjacent holes were merged beyond this limit: the length was
truncated and the descriptor of the hole became an arbitrary field. Now the
data behind such chunk is moved instead of making the hole.
---
 src/gear.cxx | 81 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 80 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 66a1555..3fd3450 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -59,6 +59,15 @@ class gear : public tuple_rw {
   void mark_sorted() cxx11_noexcept { /* TODO */
   }
 
+  /* Размер дыры хранится на месте идентификатора поля, т.е. ограничен. Поэтому
+   * нельзя накапливать дыры, которые после объединения превысят этот предел. */
+  cxx11_constexpr bool
+  is_hole_too_large(const unsigned units) const cxx11_noexcept {
+    return junk_.volume + units > tag_bits::max_ident;
+  }
+
+  void shift_data(unit_t *from, const ptrdiff_t delta) cxx11_noexcept;
+  void close_gap(unit_t *chunk, const unsigned units) cxx11_noexcept;
   inline void trim_hole(const field_loose *hole) cxx11_noexcept;
   inline unit_t *tail_alloc(unsigned units);
   inline field_loose *index_alloc(size_t notify_data_space);
@@ -84,6 +93,8 @@ class gear : public tuple_rw {
                field_loose *hole0);
   void release_data(relative_payload *chunk, unsigned units) {
     assert(units > 0);
+    if (unlikely(is_hole_too_large(units)))
+      return close_gap(chunk->flat, units);
     release_data(chunk, units,
                  lookup_adjacent_holes(chunk->flat, chunk->flat + units),
                  nullptr);
@@ -115,7 +126,7 @@ static cxx14_constexpr field_loose *best_fit(unsigned units, field_loose *left,
 
 template <gear::hole_search_mode MODE>
 __pure_function field_loose *gear::lookup_hole(unsigned units) cxx11_noexcept {
-  if (junk_.count < 1 || junk_.volume < units)
+  if (junk_.count < 1 || junk_.volume < units || units > tag_bits::max_ident)
     return nullptr;
 
   if_constexpr(MODE == hole_search_mode::exactly_size) return const_cast<
@@ -206,6 +217,59 @@ void gear::trim_hole(const field_loose *hole) cxx11_noexcept {
   }
 }
 
+/* Сдвигает данные от указанного места до конца и корректирует ссылки на них */
+void gear::shift_data(unit_t *from, const ptrdiff_t delta) cxx11_noexcept {
+  assert(from >= begin_data_units() && from <= end_data_units());
+  std::memmove(from + delta, from,
+               units2bytes(std::size_t(end_data_units() - from)));
+  tail_ += int(delta);
+
+  for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
+    if ((loose->is_hole() || !is_inplaced(loose->type())) &&
+        loose->relative.have_payload() &&
+        loose->relative.payload()->flat >= from)
+      loose->relative.add_delta(delta);
+
+  if (schema_) {
+    for (const token &ident : schema_->tokens()) {
+      if (!ident.is_preplaced())
+        break;
+      if (!is_fixed_size(ident.type())) {
+        field_preplaced *const preplaced = const_cast<field_preplaced *>(
+            erthink::constexpr_pointer_cast<const field_preplaced *>(
+                begin_data_bytes() + ident.preplaced_offset()));
+        if (preplaced->relative.have_payload() &&
+            preplaced->relative.payload()->flat >= from)
+          preplaced->relative.add_delta(delta);
+      }
+    }
+  }
+}
+
+/* Освобождает кусок данных, для которого нельзя сделать дыру: подвигает
+ * последующие данные на его место. */
+void gear::close_gap(unit_t *chunk, const unsigned units) cxx11_noexcept {
+  const auto before_after = lookup_adjacent_holes(chunk, chunk + units);
+  shift_data(chunk + units, -ptrdiff_t(units));
+
+  field_loose *const before = before_after.first;
+  if (!before)
+    return;
+  if (before_after.second) {
+    /* дыры сомкнулись */
+    if (before->hole_get_units() + before_after.second->hole_get_units() <=
+        tag_bits::max_ident)
+      merge_holes(before, before_after.second);
+  } else if (before->hole_end() == end_data_units()) {
+    /* дыра теперь примыкает к концу данных */
+    tail_ -= before->hole_get_units();
+    junk_.volume -= uint16_t(before->hole_get_units());
+    before->hole_purge();
+    if (before == begin_index())
+      trim_hole(before);
+  }
+}
+
 unit_t *gear::tail_alloc(unsigned units) {
   const std::size_t avail = tail_space_units();
   if (unlikely(avail < units))
@@ -330,6 +394,12 @@ field_loose *gear::merge_holes(field_loose *first,
 
 void gear::release_loose(field_loose *loose, unsigned units) {
   junk_.count += 1;
+  if (unlikely(units && is_hole_too_large(units))) {
+    unit_t *const chunk = loose->relative.payload()->flat;
+    loose->hole_purge();
+    close_gap(chunk, units);
+    units = 0;
+  }
   if (units) {
     /* дыра с данными, т.е. НЕ только в индексе */
     loose->hole_set_units(units);
@@ -459,6 +529,15 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
    *     и первая в опасных случаях (при нехватке места).
    */
 
+  if (unlikely(is_hole_too_large(have))) {
+    /* Освобождаемое место нельзя оформить дырой, поэтому изменяем размер на
+     * месте, двигая последующие данные. */
+    if (have < needed && unlikely(tail_space_units() < needed - have))
+      throw_insufficient_space(0, needed - have);
+    shift_data(ref.payload()->flat + have, ptrdiff_t(needed) - have);
+    return ref.payload();
+  }
+
   if (junk_.volume == 0) {
     /* Если в кортеже нет зазоров/дыр, то возможны только три случая, которые
      * можно обработать по-быстрому без поиска и других лишних действий. */
-- 
2.43.0


From c8e10b2923f1c071ab23e900b9ec4e5698533fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:21 +0000
Subject: [PATCH 28/47] fix: growth of a tuple forgot about the holes

The counters of holes were not carried to the new buffer, so the holes were
never reused, compaction did not remove them and the tuple was not valid.
---
 src/autogrowth.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index d945044..392f9ab 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -200,6 +200,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
 
   new_tuple->head_ = new_tuple->pivot_ - (pimpl_->pivot_ - pimpl_->head_);
   new_tuple->tail_ = new_tuple->pivot_ + (pimpl_->tail_ - pimpl_->pivot_);
+  new_tuple->junk_ = pimpl_->junk_;
   std::memcpy(static_cast<void *>(new_tuple->begin_index()),
               pimpl_->begin_index(),
               details::units2bytes(pimpl_->tail_ - pimpl_->head_));
-- 
2.43.0


From 94cc9e7d937667411bcbc53d392ec69c948c59e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:01 +0000
Subject: [PATCH 29/47] fix: define tuple_rw_managed::set_number() and
 insert_number()

They were declared but not defined, so any use failed to link.
---
 src/autogrowth.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 392f9ab..0ea2fff 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -277,6 +277,12 @@ HERE_THUNK_MAKE(uint64_t, integer)
 HERE_THUNK_MAKE(int64_t, unsigned)
 HERE_THUNK_MAKE(uint64_t, unsigned)
 HERE_THUNK_MAKE(double, float)
+HERE_THUNK_MAKE(int32_t, number)
+HERE_THUNK_MAKE(uint32_t, number)
+HERE_THUNK_MAKE(int64_t, number)
+HERE_THUNK_MAKE(uint64_t, number)
+HERE_THUNK_MAKE(float, number)
+HERE_THUNK_MAKE(double, number)
 #undef HERE_THUNK_MAKE
 
 bool tuple_rw_managed::erase(const dynamic_collection_iterator_rw &it) {
-- 
2.43.0


From 90ddfd02815d67d25eaf4b16869be8f5fde5a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:01 +0000
Subject: [PATCH 30/47] fix: keep the infinity and NaN checks working under
 -ffast-math

-ffast-math implies -ffinite-math-only, so std::isinf() and std::isnan() were folded to false inside the library: set_float()/set_number() refused infinity for f32 and accepted NaN for integers.
---
 src/CMakeLists.txt | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 65d3728..a5056f2 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -224,7 +224,9 @@ else()
 endif()
 
 if(CC_HAS_FASTMATH)
-  target_compile_options(${fptu_target} PRIVATE "-ffast-math")
+  # the infinity and NaN are values of the f32/f64 fields, std::isinf() and
+  # std::isnan() must work
+  target_compile_options(${fptu_target} PRIVATE "-ffast-math" "-fno-finite-math-only")
 endif()
 
 if(BUILD_FOR_NATIVE_CPU AND CC_HAS_ARCH_NATIVE)
-- 
2.43.0


From 53a3f094bee6270ff8b1e4e19cd6a65db6417fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:01 +0000
Subject: [PATCH 31/47] fix: get_int128()/get_uint128() misaligned read and a
 dangling reference

The bin128 payload is aligned to 4 bytes only, and the tuple-level getters returned a reference to a temporary.
---
 fast_positive/tuples.h                |  8 ++++----
 fast_positive/tuples/details/getter.h | 18 +++++++++++-------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 6bd9fc4..a8695ba 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -270,8 +270,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
@@ -637,8 +637,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 5d857d2..83c4102 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -414,16 +414,20 @@ public:
   }
 
   cxx14_constexpr int128_t get_int128() const {
-    if (type() == bin128)
-      return *erthink::constexpr_pointer_cast<const int128_t *>(&get<bin128>());
-    else
+    if (type() == bin128) {
+      // the payload is aligned to 4 bytes, but int128_t requires 16
+      int128_t value = 0;
+      std::memcpy(&value, &get<bin128>(), sizeof(value));
+      return value;
+    } else
       return int128_t(get_integer());
   }
   cxx14_constexpr uint128_t get_uint128() const {
-    if (type() == bin128)
-      return *erthink::constexpr_pointer_cast<const uint128_t *>(
-          &get<bin128>());
-    else
+    if (type() == bin128) {
+      uint128_t value = 0;
+      std::memcpy(&value, &get<bin128>(), sizeof(value));
+      return value;
+    } else
       return uint128_t(get_unsigned());
   }
 };
-- 
2.43.0


From e72aab7b3f07bc4dcec1d4f8fac915b6a0b03ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:22 +0000
Subject: [PATCH 32/47] fix: set_unsigned()/insert_unsigned() from a signed
 value

They delegated to set_integer()/insert_integer() and so always failed with type_mismatch.
---
 fast_positive/tuples/details/rw.h | 2 +-
 src/rw.cxx                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 9a33a8e..a956b70 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -524,7 +524,7 @@ public:
     void set_unsigned(const int64_t value) {
       if (unlikely(value < 0))
         throw_value_range();
-      return set_integer(static_cast<uint64_t>(value));
+      return set_unsigned(static_cast<uint64_t>(value));
     }
 
     void set_int128(const int128_t &value) {
diff --git a/src/rw.cxx b/src/rw.cxx
index de829e4..e4cf793 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -323,7 +323,7 @@ FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_unsigned(const token &ident, const int64_t value) {
   if (unlikely(value < 0))
     throw_value_range();
-  return insert_integer(ident, static_cast<uint64_t>(value));
+  return insert_unsigned(ident, static_cast<uint64_t>(value));
 }
 
 FPTU_API dynamic_collection_iterator_rw
-- 
2.43.0


From 52d44e41f5545beacacb61a685c06502436b2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:22 +0000
Subject: [PATCH 33/47] fix: set/insert_int128() and uint128 silently truncated
 the value

An int128 that does not fit in 64 bits is out of range for a narrower field.
---
 fast_positive/tuples/details/rw.h | 4 ++++
 src/rw.cxx                        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index a956b70..e6c9509 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -531,6 +531,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != int128_t(int64_t(value))))
+        throw_value_range();
       return set_integer(int64_t(value));
     }
 
@@ -538,6 +540,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != uint128_t(uint64_t(value))))
+        throw_value_range();
       return set_unsigned(uint64_t(value));
     }
 
diff --git a/src/rw.cxx b/src/rw.cxx
index e4cf793..4b32acd 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -331,6 +331,8 @@ tuple_rw::insert_int128(const token &ident, const int128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != int128_t(int64_t(value))))
+    throw_value_range();
   return insert_integer(ident, int64_t(value));
 }
 
@@ -339,6 +341,8 @@ tuple_rw::insert_uint128(const token &ident, const uint128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != uint128_t(uint64_t(value))))
+    throw_value_range();
   return insert_unsigned(ident, uint64_t(value));
 }
 
-- 
2.43.0


From 38dfa2b2a74e38c5b743e76e75bcd6c01afaf304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 34/47] fix: import of a preplaced field inside the already
 covered area

schema_impl::add_definition() with renominate=false underflowed
reserve() (std::length_error) and appended the initial value at the end
of the image instead of placing it at the field's offset.
---
 src/schema.cxx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 0bac837..9ffc36c 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -148,8 +148,9 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
         throw_schema_definition_error(
             "preplaced field is overlapped by another");
     }
-    preplaced_image_.reserve(ident.preplaced_offset() + ident.preplaced_size() -
-                             preplaced_image_.size());
+    preplaced_image_.reserve(
+        std::max(preplaced_image_.size(),
+                 ident.preplaced_offset() + ident.preplaced_size()));
   }
   sorted_tokens_.reserve(sorted_tokens_.size() + 1);
   name2token_.reserve(name2token_.size() + 1);
@@ -157,14 +158,15 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
 
   try {
     if (ident.is_preplaced()) {
-      if (ident.preplaced_offset() > ptrdiff_t(preplaced_image_.size()))
-        preplaced_image_.append(
-            ident.preplaced_offset() - preplaced_image_.size(), '\0');
+      const std::size_t end = ident.preplaced_offset() + ident.preplaced_size();
+      if (end > preplaced_image_.size())
+        preplaced_image_.resize(end, '\0');
       if (initial_value)
-        preplaced_image_.append(static_cast<const char *>(initial_value),
-                                ident.preplaced_size());
+        preplaced_image_.replace(ident.preplaced_offset(),
+                                 ident.preplaced_size(),
+                                 static_cast<const char *>(initial_value),
+                                 ident.preplaced_size());
       else {
-        preplaced_image_.append(ident.preplaced_size(), '\0');
         const auto initial_value_ptr =
             erthink::constexpr_pointer_cast<details::field_preplaced *>(
                 const_cast<char *>(preplaced_image_.data()) +
-- 
2.43.0


From 0faa8855fb6d889651555b9f6b1e91ab445ca6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 35/47] fix: fptu_field_as_iovec() gave sizes in units and
 stretchy headers

---
 src/compat_field.cxx | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 84b498c..464fa2b 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -41,15 +41,21 @@ struct iovec fptu_field_as_iovec(const fptu_field *pf) cxx11_noexcept {
   if (likely(pf)) {
     const auto type = pf->type();
     if (fptu::details::is_inplaced(type))
-      return fptu::iovec(&pf->inplaced, fptu::details::loose_units(type));
+      return fptu::iovec(&pf->inplaced, fptu::details::preplaced_bytes(type));
 
     if (fptu::details::is_fixed_size(type))
       return fptu::iovec(pf->relative.payload(),
-                         fptu::details::loose_units(type));
+                         fptu::details::preplaced_bytes(type));
 
-    if (pf->relative.have_payload())
-      return fptu::iovec(pf->relative.payload(),
-                         pf->relative.payload()->stretchy.length(type));
+    if (pf->relative.have_payload()) {
+      const auto payload = pf->relative.payload();
+      const void *data = payload;
+      if (type == fptu::genus::text)
+        data = payload->stretchy.string.begin();
+      else if (type == fptu::genus::varbin)
+        data = payload->stretchy.varbin.begin();
+      return fptu::iovec(data, payload->stretchy.length(type));
+    }
   }
   return fptu::iovec(nullptr, 0);
 }
-- 
2.43.0


From 17f3f5284ce06c288126e0d6591ddc08076f098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 36/47] fix: fptu_upsert_nested() always failed by a type
 mismatch

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 790afc6..b2d84b1 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -335,7 +335,7 @@ fptu_error fptu_upsert_opaque_iov(fptu_rw *pt, unsigned column,
 fptu_error fptu_upsert_nested(fptu_rw *pt, unsigned column,
                               fptu_ro ro) cxx11_noexcept {
   try {
-    const fptu::token id(fptu::genus::varbin, column, false, true, false);
+    const fptu::token id(fptu::genus::nested, column, false, true, false);
     pt->set_nested(id, fptu::details::tuple_ro::make_from_buffer(
                            ro.sys.iov_base, ro.sys.iov_len, nullptr, false));
     return FPTU_OK;
-- 
2.43.0


From 7ffd3dce1aed6f4de008826ac8a0438bbb338d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 37/47] fix: fptu_insert_96/128/160/256() silently skipped an
 all-zeros value

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index b2d84b1..759f17d 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -373,7 +373,7 @@ FPTU_INSERT_IMPL(datetime, datetime, t64, fptu_datetime_t)
   fptu_error fptu_insert_##BITS(fptu_rw *pt, unsigned column,                  \
                                 const void *data) cxx11_noexcept {             \
     try {                                                                      \
-      const fptu::token id(fptu::genus::bin##BITS, column, true);              \
+      const fptu::token id(fptu::genus::bin##BITS, column, true, true, false); \
       pt->insert_bin##BITS(                                                    \
           id,                                                                  \
           *erthink::constexpr_pointer_cast<const fptu::binary##BITS##_t *>(    \
-- 
2.43.0


From cc08f260540debcef81420198cee3f65b0419862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 38/47] fix: fptu_field_column() of a removed field isn't
 negative

---
 src/compat_field.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 464fa2b..d95fac1 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -27,7 +27,7 @@ fptu_type fptu_field_type(const fptu_field *pf) cxx11_noexcept {
   return pf ? pf->legacy_type() : fptu_null;
 }
 int fptu_field_column(const fptu_field *pf) cxx11_noexcept {
-  return pf ? pf->colnum() : -1;
+  return (pf && !pf->is_hole()) ? int(pf->colnum()) : -1;
 }
 
 void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
-- 
2.43.0


From 7aae9cf830bf485fc4fff48bbc1e8bf7b7228df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 39/47] fix: fptu_get_cstr() didn't set error to FPTU_OK on
 success

---
 src/compat_ro.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 304f300..ca004fe 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -125,8 +125,11 @@ FPTU_GET_IMPL(256)
 const char *fptu_get_cstr(fptu_ro ro, unsigned column,
                           int *error) cxx11_noexcept {
   const fptu_field *pf = fptu::lookup(ro, column, fptu_cstr);
-  if (pf)
+  if (pf) {
+    if (error)
+      *error = FPTU_OK;
     return fptu_field_cstr(pf);
+  }
   fptu_set_error(FPTU_ENOFIELD, "fptu: no such field");
   if (error)
     *error = FPTU_ENOFIELD;
-- 
2.43.0


From 8fac1f96b7b5b0cc838f19b36507b198ae7a20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 40/47] fix: fptu_fetch() lost the junk of a tuple with removed
 fields

---
 src/compat_rw.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 759f17d..778d544 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -148,8 +148,18 @@ fptu_rw *fptu_fetch(fptu_ro ro, void *buffer_space, std::size_t buffer_bytes,
     const fptu::details::tuple_ro *tuple_ro =
         static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
 
+    /* без проверки корректности, но с учетом имеющихся "дырок", так как от
+     * этого зависят и fptu_junkspace(), и последующая дефрагментация */
+    fptu::details::audit_holes_info holes_info = {0, 0};
+    for (auto pf = fptu_begin_ro(ro); pf != fptu_end_ro(ro); ++pf) {
+      if (pf->is_hole()) {
+        holes_info.count += 1;
+        holes_info.volume += uint16_t(pf->hole_get_units());
+      }
+    }
+
     const auto tuple_rw = fptu::details::tuple_rw::fetch_legacy(
-        {0, 0}, tuple_ro, buffer_space, buffer_bytes, more_items);
+        holes_info, tuple_ro, buffer_space, buffer_bytes, more_items);
     return static_cast<fptu_rw *>(tuple_rw);
   } catch (const std::exception &e) {
     fptu_set_error(e);
-- 
2.43.0


From 0b3652df01a1f53582e28524cd6ff38075ddcb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 41/47] fix: reset() of a tuple without slots for loose fields

A tuple created with items_limit=0 is valid, but reset() and fptu_clear()
took it for a corrupted one and refused.
---
 src/rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index 4b32acd..a77f0b4 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -620,7 +620,7 @@ tuple_rw::insert_number(const token &ident, const double value) {
 
 void tuple_rw::reset() {
   /* sanity check for corruption */
-  if (unlikely(pivot_ < 1 || pivot_ > fptu::max_fields || pivot_ > end_ ||
+  if (unlikely(pivot_ > fptu::max_fields || pivot_ > end_ ||
                end_ > bytes2units(fptu::buffer_limit)))
     throw_tuple_bad(this);
 
-- 
2.43.0


From 29521aa7590a3387fc2d71fa13303fe57bbcef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 42/47] fix: i2a() of the least integer

branchless_abs added the sign to the least value in signed math, i.e.
with an overflow. With optimization GCC turned i2a(INT64_MIN) into "-0".
---
 fast_positive/erthink/erthink_misc.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fast_positive/erthink/erthink_misc.h b/fast_positive/erthink/erthink_misc.h
index 60051e7..4430b8a 100644
--- a/fast_positive/erthink/erthink_misc.h
+++ b/fast_positive/erthink/erthink_misc.h
@@ -45,8 +45,10 @@ template <typename T> struct branchless_abs {
   cxx11_constexpr branchless_abs(const T value)
       : expanded_sign(signed_type(value) >>
                       (sizeof(signed_type) * CHAR_BIT - 1)),
-        unsigned_abs(unsigned_type((signed_type(value) + expanded_sign) ^
-                                   expanded_sign)) {
+        /* using unsigned math to avoid UB (overflow) for the least value */
+        unsigned_abs(unsigned_type(
+            (unsigned_type(value) + unsigned_type(expanded_sign)) ^
+            unsigned_type(expanded_sign))) {
     static_assert(((INT32_MIN >> 5) >> 29) == -1,
                   "requires arithmetic shift with sign expansion");
   }
-- 
2.43.0


From 79980def025ba2cef60f0b6090b67cf4db86af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 43/47] fix: shodan_printer produced "5.e-324"

The zero after the dot is intended for a single-digit mantissa, but the
condition was never true, so the text was not a valid JSON/ECMAScript
number.
---
 fast_positive/erthink/erthink_d2a.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/erthink/erthink_d2a.h b/fast_positive/erthink/erthink_d2a.h
index a45eb7c..8a010a9 100644
--- a/fast_positive/erthink/erthink_d2a.h
+++ b/fast_positive/erthink/erthink_d2a.h
@@ -676,7 +676,7 @@ struct shodan_printer : public ieee754_default_printer<accurate> {
       inherited::begin[1] = '.';
       // strive branchless
       inherited::end[0] = '0';
-      inherited::end += (inherited::end == inherited::begin);
+      inherited::end += (inherited::end == inherited::begin + 2);
       inherited::exponenta(canon_exp);
     }
   }
-- 
2.43.0


From 62145afc5e0a7f58e85edbbed3f6d21aed7a19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 44/47] fix: members of variable length of native structures
 were misplaced

A preplaced field of variable length takes a unit and refers to its data in
units, but the C++ types for such members had the size of 2 bytes and no
alignment. So the neighbours overlapped and the data were corrupted.
---
 fast_positive/tuples/details/field.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 235b1b3..9ac0fcb 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -461,7 +461,9 @@ cxx11_constexpr const void *stretchy_value_tuple::pivot() const cxx11_noexcept {
   return begin_index() + index_size();
 }
 
-class preplaced_stretchy_value : protected relative_offset {
+/* Место preplaced-поля переменной длины занимает целый юнит, а смещение до
+ * данных отсчитывается в юнитах, поэтому необходимо выравнивание. */
+class alignas(unit_t) preplaced_stretchy_value : protected relative_offset {
 public:
   cxx11_constexpr bool nil() const cxx11_noexcept {
     return !relative_offset::have_payload();
-- 
2.43.0


From 21532c10f294e62a5b45aa60e66d0b44b823a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 45/47] fix: schema accepted unaligned preplaced fields of
 variable length

Data of such a field is referred relative to the field itself in units, so an
unaligned one produced malformed tuples.
---
 src/schema.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index 9ffc36c..1031ec7 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -130,6 +130,12 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
         "fptu: field with corresponding token already exists");
 
   if (ident.is_preplaced()) {
+    /* данные полей переменной длины адресуются относительно самих полей
+     * с точностью до юнита, поэтому такие поля должны быть выровнены */
+    if (unlikely(ident.is_stretchy() &&
+                 ident.preplaced_offset() % fundamentals::unit_size != 0))
+      throw_schema_definition_error("preplaced stretchy field is unaligned");
+
     /* проверяем перекрытие полей, которые могут быть при слиянии
      * схем с renominate == FALSE */
     for (const auto &scan : sorted_tokens_) {
-- 
2.43.0


From 57564cc6ced17a17d383dea51e42bdfc48406450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 46/47] fix: erase() by a static token could not be compiled

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index e6c9509..e8466fc 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1087,7 +1087,7 @@ public: //----------------------------------------------------------------------
   FPTU_TEMPLATE_FOR_STATIC_TOKEN
   bool erase(const TOKEN &ident) {
     return likely(!ident.is_collection()) ? remove(ident)
-                                          : erase(collection(ident)) > 0;
+                                          : erase(fptu::token(ident));
   }
   bool erase(const token &ident);
   __pure_function const char *audit() const cxx11_noexcept {
-- 
2.43.0


From ad372583a984fb2dc1623d64d55a12a3259278bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 47/47] fix: erase() by a static token might be optimized out

tuple_rw::remove() modifies the tuple but was declared as a pure function, so
without inlining the compiler dropped the call if the result is not used.
---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index e8466fc..40489e9 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1039,7 +1039,7 @@ private:
     return accessor_rw<TOKEN>(this, static_cast<field_loose *>(nullptr), token);
   }
 
-  template <typename TOKEN> __pure_function bool remove(const TOKEN &token) {
+  template <typename TOKEN> bool remove(const TOKEN &token) {
     accessor_rw<TOKEN> accessor(
         this, crtp_getter::template at<TOKEN, true>(*this, token));
     if (accessor.exist()) {
-- 
2.43.0

