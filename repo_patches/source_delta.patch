From b3dae5c43231e16c356230b2bff122b3a668e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 001/136] fix: bl_array_assign_data must allocate for the
 assigned size, not the old size

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 5ecfb55..4a91ba6 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -883,7 +883,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     if (BL_UNLIKELY(n > maximum_capacity_table[array_type]))
       return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
-    BLObjectImplSize impl_size = impl_size_from_capacity(u.size, item_size);
+    BLObjectImplSize impl_size = impl_size_from_capacity(n, item_size);
     BLArrayCore newO;
     BL_PROPAGATE(init_dynamic(&newO, array_type, n, impl_size));
 
-- 
2.43.0


From 1ba09490dd2391d803d92d21a40bfec71a75a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 002/136] fix: bl_array_assign_data must initialize objects
 past the old size

---
 blend2d/core/array.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 4a91ba6..bfcc418 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -902,7 +902,10 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     const uint8_t* src = static_cast<const uint8_t*>(items);
 
     assign_content_objects(u.data, src, replace_size * item_size);
-    release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
+    if (n > replace_size)
+      init_content_objects(u.data + replace_size * item_size, src + replace_size * item_size, (n - replace_size) * item_size);
+    else
+      release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
 
     return BL_SUCCESS;
   }
-- 
2.43.0


From 2653838908b408ebd3822b2761dcb2482f621b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 003/136] fix: bl_array_resize must release the truncated
 objects, not the first ones

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index bfcc418..6b94035 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -577,7 +577,7 @@ BL_API_IMPL BLResult bl_array_resize(BLArrayCore* self, size_t n, const void* fi
     }
     else {
       set_size(self, n);
-      release_content_by_type(u.data, (u.size - n) * item_size, array_type);
+      release_content_by_type(u.data + n * item_size, (u.size - n) * item_size, array_type);
       return BL_SUCCESS;
     }
   }
-- 
2.43.0


From 48c0119ce8afc5b254c4b8632a5213f5d95cf970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 004/136] fix: bl_array_replace_data must check capacity and
 overlap with the whole content

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 6b94035..e8d49bb 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -1201,7 +1201,7 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
     const uint8_t* items_ptr = static_cast<const uint8_t*>(items);
     const uint8_t* items_end = items_ptr + item_size * n;
 
-    if (BL_LIKELY(items_ptr >= u.data + u.size * n || items_end <= u.data)) {
+    if (BL_LIKELY(size_after <= u.capacity && (items_ptr >= u.data + u.size * item_size || items_end <= u.data))) {
       // Non-overlaping case (the expected one).
       if (range_size == n) {
         assign_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
-- 
2.43.0


From 2c2eba460cb802c6cf7c96afba4063df06ef17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 005/136] fix: bl_array_replace_data must move the tail after
 the replacement

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index e8d49bb..6c12dc6 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -1208,7 +1208,7 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
       }
       else {
         release_content_by_type(u.data + index * item_size, range_size * item_size, array_type);
-        memmove(u.data + (index + range_size) * item_size, u.data + end * item_size, tail_size * item_size);
+        memmove(u.data + (index + n) * item_size, u.data + end * item_size, tail_size * item_size);
         init_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
         set_size(self, size_after);
       }
-- 
2.43.0


From dd51267d432fa2e77dd1a5812747f86b5eadb0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 006/136] fix: bl_array_modify_op must release the replaced
 objects when assigning

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 6c12dc6..50c6359 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -761,7 +761,7 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
     BL_PROPAGATE(init_dynamic(&newO, array_type, size_after, impl_size));
 
     uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
-    if (self->_d.is_dynamic_object() && bl::ObjectInternal::is_impl_mutable(self->_d.impl)) {
+    if (index && self->_d.is_dynamic_object() && bl::ObjectInternal::is_impl_mutable(self->_d.impl)) {
       // Use memcpy() instead of weak copying if the original data is gonna be destroyed.
       memcpy(dst, u.data, index * item_size);
       // We have to patch the source Impl as release_instance() as we have moved the content.
-- 
2.43.0


From 28e80927bd73f480f6bb02f367e39142f2105d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 007/136] fix: bl_array_modify_op must refuse sizes above the
 maximum capacity

---
 blend2d/core/array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 50c6359..749c39f 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -741,6 +741,9 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
     }
   }
 
+  if (BL_UNLIKELY(size_after > maximum_capacity_table[array_type]))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   // The container is either immutable or doesn't have the capacity required.
   BLArrayCore newO;
   size_t sso_capacity = sso_capacity_table[array_type];
-- 
2.43.0


From fa914514cde930063fc29aac199dab772d47198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 008/136] fix: string assignment that fits inline must build
 the new object, not overwrite self

---
 blend2d/core/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 92beef7..446d229 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -119,8 +119,8 @@ static BLResult modify_and_copy(BLStringCore* self, BLModifyOp op, const char* s
     char* dst = nullptr;
 
     if (size_after <= BLString::kSSOCapacity && !bl_modify_op_does_grow(op)) {
-      init_sso(self, size_after);
-      dst = self->_d.char_data;
+      init_sso(&newO, size_after);
+      dst = newO._d.char_data;
     }
     else {
       BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
-- 
2.43.0


From 87ff9617245658552fb8f9ad91d64dd2bffadf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 009/136] fix: bl_string_reserve must refuse sizes above the
 maximum size

---
 blend2d/core/string.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 446d229..b79a405 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -390,6 +390,9 @@ BL_API_IMPL BLResult bl_string_reserve(BLStringCore* self, size_t n) noexcept {
   if ((n | immutable_mask) <= u.capacity)
     return BL_SUCCESS;
 
+  if (BL_UNLIKELY(n > get_maximum_size()))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   BLStringCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size_from_capacity(bl_max(u.size, n)), u.size));
 
-- 
2.43.0


From c9d6b00ba1e222ebd729814a348528d669fe3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 010/136] fix: modifying a shared bit array must keep its
 content

---
 blend2d/core/bitarray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c6da037..fcc0fd2 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -96,12 +96,15 @@ static BL_NOINLINE BLResult make_mutable_for_modify_op(BLBitArrayCore* self, siz
     BLBitArrayCore newO;
     if (size <= kSSOBitCapacity) {
       init_sso(&newO, size);
+      MemOps::copy_forward_inline_t(newO._d.u32_data, self_impl->data(), word_count_from_bit_count(size));
 
       *out = BitData{self->_d.u32_data, size};
       return replace_instance(self, &newO);
     }
 
     BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count_from_bit_count(size)), size));
+    MemOps::copy_forward_inline_t(get_impl(&newO)->data(), self_impl->data(), word_count_from_bit_count(size));
+
     *out = BitData{get_impl(&newO)->data(), size};
     return replace_instance(self, &newO);
   }
-- 
2.43.0


From 8cf5a5e7344611bdbac8c8522fdcacff2f7095b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 011/136] fix: bl_bit_array_assign_words must not overflow
 inline storage and must set the size

---
 blend2d/core/bitarray.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index fcc0fd2..ba44fe3 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -329,7 +329,13 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
     size_t capacity_in_words = word_count_from_bit_count(self_impl->capacity);
     size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
-    if ((word_count | immutable_msk) > capacity_in_words) {
+    if ((word_count | immutable_msk) <= capacity_in_words) {
+      bl::MemOps::copy_forward_inline_t(self_impl->data(), word_data, word_count);
+      self_impl->size = uint32_t(bit_count_from_word_count(word_count));
+      return BL_SUCCESS;
+    }
+
+    if (word_count <= kSSOWordCapacity) {
       BLBitArrayCore newO;
       init_sso(&newO, size_t(word_count) * bl::BitArrayOps::kNumBits);
       bl::MemOps::copy_forward_inline_t(newO._d.u32_data, word_data, word_count);
@@ -338,8 +344,11 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
     }
   }
 
+  if (BL_UNLIKELY(size_t(word_count) > size_t(UINT32_MAX) / bl::BitArrayOps::kNumBits))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   BLBitArrayCore newO;
-  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count)));
+  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), size_t(word_count) * bl::BitArrayOps::kNumBits));
 
   BLBitArrayImpl* new_impl = get_impl(&newO);
   bl::MemOps::copy_forward_inline_t(new_impl->data(), word_data, word_count);
-- 
2.43.0


From 1e522355dcd58c89b47ac805a7daacddc936df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 012/136] fix: bl_bit_array_reserve must allocate at least the
 current size

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index ba44fe3..c92fbc5 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -718,7 +718,7 @@ BL_API_IMPL BLResult bl_bit_array_reserve(BLBitArrayCore* self, uint32_t n_bits)
     d = BitData{self_impl->data(), self_impl->size};
   }
 
-  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(n_bits));
+  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(bl_max<size_t>(n_bits, d.size)));
   BLBitArrayCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size, d.size));
 
-- 
2.43.0


From c1fae8718e55243f21ff0bd74b8b20bfcac075b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 013/136] fix: bl_bit_array_has_bits_in_range must not read the
 word past the range

---
 blend2d/core/bitarray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c92fbc5..4332102 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -463,7 +463,7 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
     return false;
 
   size_t start_word = word_index_of(start);
-  size_t end_word = word_index_of(end);
+  size_t end_word = word_index_of(end - 1u);
 
   if (start_word == end_word) {
     // Special case - the range is within a single BitWord.
@@ -479,7 +479,7 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
     if (d.data[i])
       return true;
 
-  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask(end & bl::BitArrayOps::kBitMask);
+  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask(((end - 1u) & bl::BitArrayOps::kBitMask) + 1u);
   return (d.data[end_word] & end_mask) != 0u;
 }
 
-- 
2.43.0


From 3aa66b0808007655a7cb486a0db17fdfeaca0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 014/136] fix: growing a bit array by bl_bit_array_resize must
 zero the new words

---
 blend2d/core/bitarray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 4332102..5d87016 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -686,6 +686,7 @@ BL_API_IMPL BLResult bl_bit_array_resize(BLBitArrayCore* self, uint32_t n_bits)
   size_t word_count = word_count_from_bit_count(bit_count);
 
   bl::MemOps::copy_forward_inline_t(dst, d.data, word_count);
+  bl::MemOps::fill_inline_t(dst + word_count, uint32_t(0), word_count_from_bit_count(n_bits) - word_count);
   uint32_t last_word_bit_count = uint32_t(bit_count & bl::BitArrayOps::kBitMask);
 
   if (last_word_bit_count)
-- 
2.43.0


From 5517e34ca059cf45ebf1bc98073cd178e3965013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 015/136] fix: appending to a bit array must refuse sizes above
 the maximum

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 5d87016..c655e64 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -156,7 +156,7 @@ static BL_NOINLINE BLResult make_mutable_for_append_op(BLBitArrayCore* self, siz
   OverflowFlag of{};
   size_t new_size = IntOps::add_overflow(d.size, append_bit_count, &of);
 
-  if (BL_UNLIKELY(of))
+  if (BL_UNLIKELY(of || new_size > size_t(UINT32_MAX)))
     return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
   size_t old_word_count = word_count_from_bit_count(d.size);
-- 
2.43.0


From 0e9a6c84710be9147518c1af4249a77b89cd9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 016/136] fix: combining zero words with a bit array must do
 nothing

---
 blend2d/core/bitarray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c655e64..db9980f 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -182,6 +182,9 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
   size_t bit_end = bit_index + bl_min(bit_index_of(word_count), d.size - bit_index);
   size_t bit_count = bit_end - bit_index;
 
+  if (bit_count == 0u)
+    return BL_SUCCESS;
+
   size_t word_index = word_index_of(bit_index);
   uint32_t* dst = d.data + word_index;
   uint32_t bit_shift = uint32_t(bit_index & BitArrayOps::kBitMask);
-- 
2.43.0


From a5cd9901328ce41891748cee34ca200a8413d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 017/136] fix: combining unaligned words with a bit array must
 use the last word when its bits are needed

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index db9980f..ee1a85e 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -234,7 +234,7 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
     return BL_SUCCESS;
 
   uint32_t last_word_bits = BitArrayOps::shift_to_start(w, bit_shift_inv);
-  if (bit_shift_inv < bit_count)
+  if (bit_shift < bit_count)
     last_word_bits |= BitArrayOps::shift_to_end(word_data[i], bit_shift);
 
   dst[i] = BitOp::op_masked(dst[i], last_word_bits, BitArrayOps::non_zero_start_mask(bit_count));
-- 
2.43.0


From 9af55477e0efb309c162672d29823571e946ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 018/136] fix: BLBitArray::reserve must not resize the bit
 array

---
 blend2d/core/bitarray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.h b/blend2d/core/bitarray.h
index 5fa6406..e705716 100644
--- a/blend2d/core/bitarray.h
+++ b/blend2d/core/bitarray.h
@@ -265,7 +265,7 @@ public:
   BL_INLINE_NODEBUG BLResult resize(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
 
   //! Reserves `n_bits` in the BitArray (capacity would match `n_bits`) without changing its size.
-  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
+  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_reserve(this, n_bits); }
 
   //! Shrinks the capacity of the BitArray to match the actual content with the intention to save memory.
   BL_INLINE_NODEBUG BLResult shrink() noexcept { return bl_bit_array_shrink(this); }
-- 
2.43.0


From 46adfa7140c00f05739da6165fe8b4e11756dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 019/136] fix: bl_bit_set_assign_words must not process a
 trailing segment consumed by the leading one

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index d7fc868..4bd5cdc 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1440,7 +1440,7 @@ BL_API_IMPL BLResult bl_bit_set_assign_words(BLBitSetCore* self, uint32_t start_
     }
 
     // Trailing segment requires special handling, if it doesn't end on a segment boundary.
-    if (word_index != word_index_end) {
+    if (word_index < word_index_end) {
       init_dense_segment(*dst_segment, word_index);
       bl::MemOps::copy_forward_inline_t(dst_segment->data(), word_data, (size_t)(word_index_end - word_index));
 
-- 
2.43.0


From 0cb38b86a140a305a3dc11ad68ce90ff80f99439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 020/136] fix: bl_bit_set_clear_range must not process a
 segment of a range twice nor continue past the range

---
 blend2d/core/bitset.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 4bd5cdc..2abeb89 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3388,11 +3388,12 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
     if (range_start_word < segment_start_word) {
       range_start_word = segment_start_word;
       range_start_bit = bit_index_of(range_start_word);
-
-      if (range_start_word > range_last_word)
-        break;
     }
 
+    // Nothing else to clear - the range ends before this segment.
+    if (range_start_word > range_last_word)
+      break;
+
     // If the range to clear completely overlaps this segment, remove it.
     if (range_last_word >= segment_end_word && range_start_bit == segment.start_bit())
       continue;
@@ -3446,6 +3447,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
         bl::BitSetOps::bit_array_clear(inserter.current().data(), dense_range_index, dense_range_count);
         inserter.advance();
 
+        segment_start_word += kSegmentWordCount;
         range_start_word = segment_start_word;
         range_start_bit = bit_index_of(range_start_word);
 
@@ -3455,7 +3457,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
       }
 
       // Handle the intersection with the end of the range to clear (if any), if it's not at the segment boundary.
-      segment_start_word = word_index_of(align_bit_down_to_segment(range_end_bit));
+      segment_start_word = bl_max(segment_start_word, word_index_of(align_bit_down_to_segment(range_end_bit)));
       if (segment_start_word >= segment_end_word)
         continue;
 
-- 
2.43.0


From e3fc436f73c550fef842231a950d045caab12b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 021/136] fix: bl_bit_set_add_words in inline mode must not
 overflow nor misplace words

---
 blend2d/core/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 2abeb89..837b87d 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2865,12 +2865,12 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
 
       if (start_word < sso_word_index) {
         uint32_t distance = sso_word_index - start_word;
-        if (distance + sso_word_count <= kSSOWordCount) {
+        if (bl_max(word_count, distance + sso_word_count) <= kSSOWordCount) {
           BLBitSetCore tmp;
           init_sso_dense(&tmp, start_word);
 
           bl::MemOps::copy_forward_inline_t(tmp._d.u32_data, word_data, word_count);
-          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data, self->_d.u32_data + distance, sso_word_count);
+          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data + distance, self->_d.u32_data, sso_word_count);
 
           self->_d = tmp._d;
           return BL_SUCCESS;
-- 
2.43.0


From 622d782e65e04bd7d9947d1dfd384b1d6d915d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 022/136] fix: moving the start of a range segment must keep it
 a range

---
 blend2d/core/bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.h b/blend2d/core/bitset.h
index e381243..0a9680d 100644
--- a/blend2d/core/bitset.h
+++ b/blend2d/core/bitset.h
@@ -61,7 +61,7 @@ struct BLBitSetSegment {
   BL_INLINE_NODEBUG uint32_t _dense_start_word() const noexcept { return _start_word; }
   BL_INLINE_NODEBUG uint32_t _dense_end_word() const noexcept { return _start_word + BL_BIT_SET_SEGMENT_WORD_COUNT; }
 
-  BL_INLINE_NODEBUG void _set_range_start_word(uint32_t index) noexcept { _start_word = index; }
+  BL_INLINE_NODEBUG void _set_range_start_word(uint32_t index) noexcept { _start_word = index | uint32_t(BL_BIT_SET_RANGE_MASK); }
   BL_INLINE_NODEBUG void _set_range_end_word(uint32_t index) noexcept { _data[0] = index; }
 
   BL_INLINE_NODEBUG uint32_t start_word() const noexcept { return _start_word & ~BL_BIT_SET_RANGE_MASK; }
-- 
2.43.0


From dd38dc18b3c7e5c4fac566a9ac0df72bb9e69831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 023/136] fix: bl_bit_set_add_words must advance past a range
 it has merged with

---
 blend2d/core/bitset.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 837b87d..58e875f 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3054,10 +3054,12 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
       }
 
       // Create a Range segment if two or more full segments are next to each other.
-      if (initial_word_index - word_index > kSegmentWordCount) {
+      if (word_index - initial_word_index > kSegmentWordCount) {
         if (next) {
           if (next->all_ones() && word_index >= next->start_word()) {
             next->_set_range_start_word(initial_word_index);
+            if (word_index == next->end_word())
+              segment_index++;
             continue;
           }
 
-- 
2.43.0


From 7e7252486f1ed24375d2673ba4de3c9168e2128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 024/136] fix: bl_bit_set_add_range before an inline window
 must check that the result fits inline

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 58e875f..2efdf72 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2630,7 +2630,7 @@ BL_API_IMPL BLResult bl_bit_set_add_range(BLBitSetCore* self, uint32_t range_sta
         // necessary.
         uint32_t n = get_sso_word_count_from_data(self->_d.u32_data, info.word_count());
 
-        if ((range_last_word - range_start_word) < kSSOWordCount && range_last_word < iStartWord + n) {
+        if (bl_max(range_last_word + 1u, iStartWord + n) - range_start_word <= kSSOWordCount) {
           uint32_t tmp[kSSOWordCount];
           bl::MemOps::copy_forward_inline_t(tmp, self->_d.u32_data, kSSOWordCount);
 
-- 
2.43.0


From 4dee9fd2725cf28b91c874d83f384cfbeffed89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 025/136] fix: bl_bit_set_add_range must not insert a dense
 segment below a range that covers it

---
 blend2d/core/bitset.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 2efdf72..6d169c9 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2790,8 +2790,7 @@ InitRange:
   if (segment_index < segment_count) {
     BLBitSetSegment& next = segment_data[segment_index];
     if (next.all_ones() && next.start_word() <= inserter.prev().start_word()) {
-      init_range_segment(inserter.current(), inserter.prev().start_word(), next.end_word());
-      inserter.advance();
+      init_range_segment(inserter.prev(), inserter.prev().start_word(), next.end_word());
       segment_index++;
     }
   }
-- 
2.43.0


From acb739c7d457bd52fd4b7e21823e5eb12f6aa639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 026/136] fix: segment count of a bit set range must count both
 the range and the partial segments

---
 blend2d/core/bitset.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 6d169c9..4fd24ba 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -846,14 +846,16 @@ static BL_INLINE uint32_t segment_count_from_range(uint32_t start_bit, uint32_t
   uint32_t start_segment_id = start_bit / kSegmentBitCount;
   uint32_t last_segment_id = last_bit / kSegmentBitCount;
 
-  uint32_t max_segments = bl_min<uint32_t>(last_segment_id - start_segment_id + 1, 3);
-  uint32_t collapsed = uint32_t(is_bit_aligned_to_segment(start_bit)) +
-                       uint32_t(is_bit_aligned_to_segment(end_bit  )) ;
+  // Special case - the range spans across a single segment.
+  if (start_segment_id == last_segment_id)
+    return 1;
 
-  if (collapsed >= max_segments)
-    collapsed = max_segments - 1;
+  // Segments that are not filled entirely are dense, all segments between these collapse into a single range segment.
+  uint32_t leading = uint32_t(!is_bit_aligned_to_segment(start_bit));
+  uint32_t trailing = uint32_t(!is_bit_aligned_to_segment(end_bit));
+  uint32_t middle = uint32_t(last_segment_id - start_segment_id + 1 > leading + trailing);
 
-  return max_segments - collapsed;
+  return leading + middle + trailing;
 }
 
 static BL_NOINLINE uint32_t init_segments_from_range(BLBitSetSegment* dst, uint32_t start_bit, uint32_t end_bit) noexcept {
-- 
2.43.0


From a58717deed50b2bb195f9aafe378b46c3307202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 027/136] fix: inline bit set words spanning two segments must
 produce two segments

---
 blend2d/core/bitset.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 4fd24ba..28c5653 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -907,6 +907,7 @@ static BL_NOINLINE uint32_t init_segments_from_dense_data(BLBitSetSegment* dst,
     do {
       dst->_data[i] = *words++;
     } while(++i != n);
+    dst++;
   }
 
   return last_segment_id - first_segment_id + 1u;
-- 
2.43.0


From 0c3ac5912065c8d3d9ce33889413778510d76006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 028/136] fix: bl_bit_set_get_range of an empty bit set must
 return false

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 28c5653..82cc3cf 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1801,7 +1801,7 @@ BL_API_IMPL bool bl_bit_set_get_range(const BLBitSetCore* self, uint32_t* start_
       Range range = get_sso_range(self);
       *start_out = range.start;
       *end_out = range.end;
-      return true;
+      return !range.is_empty();
     }
     else {
       SSODenseInfo info = get_sso_dense_info(self);
-- 
2.43.0


From 578c8e429d7030ccf221c8c32a103fe026ecf9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 029/136] fix: chopping an inline bit set to a range outside of
 it must make it empty

---
 blend2d/core/bitset.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 82cc3cf..fa86ba2 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2328,6 +2328,9 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
       uint32_t tmp[kSSOWordCount + 2];
       SSODenseInfo info = chop_sso_dense_data(self, tmp, start_bit, end_bit);
 
+      if (!info.word_count())
+        return init_sso_empty(self);
+
       uint32_t i = 0;
       BL_NOUNROLL
       while (tmp[i] == 0)
-- 
2.43.0


From f978136a78250d27917371bea4210ee0027fa561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 030/136] fix: chopping a shared bit set must keep the content
 within the range

---
 blend2d/core/bitset.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index fa86ba2..3fc89f0 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2379,6 +2379,14 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
     BLBitSetCore tmp;
     BL_PROPAGATE(init_dynamic(&tmp, impl_size_from_capacity(final_count)));
 
+    BLBitSetImpl* tmp_impl = get_impl(&tmp);
+    BLBitSetSegment* tmp_data = tmp_impl->segment_data();
+
+    bl::MemOps::copy_forward_inline_t(tmp_data, chopped.leading_data(), chopped.leading_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count(), segment_data + chopped.middle_index(), chopped.middle_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count() + chopped.middle_count(), chopped.trailing_data(), chopped.trailing_count());
+
+    tmp_impl->segment_count = final_count;
     return replace_instance(self, &tmp);
   }
 }
-- 
2.43.0


From 8ddea5c1c5bf64c5df5ac0b238d952a8ee43b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 031/136] fix: shrinking a bit set must test all segments when
 looking for a range

---
 blend2d/core/bitset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 3fc89f0..cc6c4de 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2158,16 +2158,16 @@ static bool test_segments_for_range(const BLBitSetSegment* segment_data, uint32_
   Range range{};
 
   for (uint32_t i = 0; i < segment_count; i++) {
-    uint32_t start_word = segment_data->start_word();
-    uint32_t end_word = segment_data->end_word();
+    uint32_t start_word = segment_data[i].start_word();
+    uint32_t end_word = segment_data[i].end_word();
 
     Range local;
 
-    if (segment_data->all_ones()) {
+    if (segment_data[i].all_ones()) {
       local.reset(start_word * BitSetOps::kNumBits, end_word * BitSetOps::kNumBits);
     }
     else {
-      PreciseDataAnalysis pa = precise_data_analysis(start_word, segment_data->data(), kSegmentWordCount);
+      PreciseDataAnalysis pa = precise_data_analysis(start_word, segment_data[i].data(), kSegmentWordCount);
       if (!pa.is_range())
         return false;
       local.reset(pa.start, pa.end);
-- 
2.43.0


From a7cf86ff405cf7cdf5636fb116654839f827c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 032/136] fix: shrinking a bit set must not use data of range
 segments

---
 blend2d/core/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index cc6c4de..19c1808 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2226,8 +2226,8 @@ static BLResult optimize_internal(BLBitSetCore* self, bool shrink) noexcept {
       return replace_instance(self, &tmp);
     }
 
-    // Try SSO dense representation.
-    if (optimized_segment_count <= 2) {
+    // Try SSO dense representation (range segments have no data and would never fit).
+    if (optimized_segment_count <= 2 && !optimized_segment_data[0].all_ones() && !optimized_segment_data[optimized_segment_count - 1].all_ones()) {
       if (optimized_segment_count == 1 || optimized_segment_data[0].end_word() == optimized_segment_data[1].start_word()) {
         uint32_t optimized_word_data[kSegmentWordCount * 2];
         bl::MemOps::copy_forward_inline_t(optimized_word_data, optimized_segment_data[0].data(), kSegmentWordCount);
-- 
2.43.0


From 5d0b4f5ebbb9a80d6112e041a534d6b8beb43345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 033/136] fix: clearing a bit of an inline range in the last
 word must not place the inline data past the last word

---
 blend2d/core/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 19c1808..9999c1b 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3165,12 +3165,12 @@ BL_API_IMPL BLResult bl_bit_set_clear_bit(BLBitSetCore* self, uint32_t bit_index
 
       // We know that the bit_index is somewhere inside the SSO range, but not at the start/end. If the range can
       // be represented as a dense SSO BitSet then it's guaranteed that the result would also fit in SSO storage.
-      uint32_t first_word = word_index_of(rSSO.start);
+      uint32_t first_word = bl_min<uint32_t>(word_index_of(rSSO.start), kSSOLastWord);
       uint32_t last_word = word_index_of(rSSO.end - 1u);
 
       if (last_word - first_word < kSSOWordCount) {
         init_sso_dense(self, first_word);
-        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
+        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start - bit_index_of(first_word), rSSO.size());
         bl::BitSetOps::bit_array_clear_bit(self->_d.u32_data, bit_index - bit_index_of(first_word));
         return BL_SUCCESS;
       }
-- 
2.43.0


From 9e5ca6f066a34a1e7d2c33011f2c5eacf42c130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 034/136] fix: path add_geometry(polygon) in CCW direction
 reads past the point array

---
 blend2d/core/path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index b7af701..c048c23 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1621,7 +1621,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
@@ -1640,7 +1640,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
-- 
2.43.0


From adce569adf3d952ca2af8ab88c3098c46fd82ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 035/136] fix: path add_geometry(array of boxes or rects) in
 CCW direction reads past the array

---
 blend2d/core/path.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index c048c23..d9777be 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1662,7 +1662,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += n / 5u - 1u;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1684,7 +1684,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += n / 5u - 1u;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1711,7 +1711,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += n / 5u - 1u;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1743,7 +1743,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += n / 5u - 1u;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
-- 
2.43.0


From 35bd8b2b15615d407aa80df73035ad21d0a27bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 036/136] fix: path control box includes the weight of a conic
 instead of its control point

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index d9777be..a4449a3 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -654,7 +654,7 @@ public:
             Geometry::get_conic_extrema_points(vtx_data - 4, extrema);
             Geometry::bound(bounding_box, extrema[0]);
             Geometry::bound(bounding_box, extrema[1]);
-            Geometry::bound(control_box, vtx_data[-2]);
+            Geometry::bound(control_box, vtx_data[-3]);
           }
           break;
         }
-- 
2.43.0


From 196d5c8f1522a288b9b0c6ce988e3cbd6845ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 037/136] fix: path closest vertex rejects by the control box
 only when that is not available

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index a4449a3..8c614cd 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2399,7 +2399,7 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
     // This code-path can be used to skip the whole path if the given point is
     // too far. We need 'max_distance' to be specified and also bounding-box to
     // be available.
-    if (ensure_info(self_impl) != BL_SUCCESS) {
+    if (ensure_info(self_impl) == BL_SUCCESS) {
       // If the given point is outside of the path bounding-box extended by
       // `max_distance` then there is no matching vertex to possibly return.
       const BLBox& b_box = self_impl->control_box;
-- 
2.43.0


From 8e8bd41c1ffdc46673020179cfe5f60607a5216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 038/136] fix: reversing a path with conics puts the weight
 before the control point

---
 blend2d/core/path.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 8c614cd..0dc04f7 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -845,6 +845,20 @@ static BLResult copy_content_reversed(PathAppender& dst, PathIterator src, BLPat
         if (cmd == BL_PATH_CMD_CLOSE)
           break;
 
+        // The weight of a conic must still follow its control point.
+        if (cmd == BL_PATH_CMD_WEIGHT) {
+          BLPoint weight = src.vtx[0];
+          src--;
+
+          if (src.at_end() || src.cmd[0] != BL_PATH_CMD_CONIC)
+            return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
+          dst.add_vertex(BL_PATH_CMD_CONIC, src.vtx[0]);
+          dst.add_vertex(BL_PATH_CMD_WEIGHT, weight);
+          src--;
+          continue;
+        }
+
         dst.add_vertex(src.cmd[0], src.vtx[0]);
         src--;
       }
-- 
2.43.0


From 37c5d5ef3c0166cb9df27f250239f99ed1191bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 039/136] fix: transforming a path changes weights of its
 conics

---
 blend2d/core/path.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 0dc04f7..035d52f 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -874,6 +874,29 @@ static BLResult copy_content_reversed(PathAppender& dst, PathIterator src, BLPat
   }
 }
 
+// Maps all points, but not weights of conics, which are stored as vertices, but are not points.
+static BLResult map_vertices(const BLMatrix2D* transform, uint32_t transform_type, const uint8_t* cmd_data, BLPoint* vtx_dst, const BLPoint* vtx_src, size_t n) noexcept {
+  BLMapPointDArrayFunc map_func = TransformInternal::map_pointd_array_funcs[transform_type];
+  size_t i = 0;
+
+  while (i < n) {
+    const uint8_t* next = static_cast<const uint8_t*>(memchr(cmd_data + i, BL_PATH_CMD_WEIGHT, n - i));
+    size_t end = next ? size_t(next - cmd_data) : n;
+
+    if (end != i)
+      BL_PROPAGATE(map_func(transform, vtx_dst + i, vtx_src + i, end - i));
+
+    if (end != n) {
+      vtx_dst[end] = vtx_src[end];
+      end++;
+    }
+
+    i = end;
+  }
+
+  return BL_SUCCESS;
+}
+
 static BLResult append_transformed_path_with_type(BLPathCore* self, const BLPathCore* other, const BLRange* range, const BLMatrix2D* transform, uint32_t transform_type) noexcept {
   BL_ASSERT(self->_d.is_path());
   BL_ASSERT(other->_d.is_path());
@@ -892,7 +915,7 @@ static BLResult append_transformed_path_with_type(BLPathCore* self, const BLPath
   other_impl = get_impl(other);
 
   memcpy(cmd_data, other_impl->command_data + start, n);
-  return TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, other_impl->vertex_data + start, n);
+  return map_vertices(transform, transform_type, cmd_data, vtx_data, other_impl->vertex_data + start, n);
 }
 
 } // {PathInternal}
@@ -1797,7 +1820,10 @@ AddBoxD:
 
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLPoint* vtx_data = self_impl->vertex_data + initial_size;
-  return bl_matrix2d_map_pointd_array(m, vtx_data, vtx_data, self_impl->size - initial_size);
+  size_t vtx_count = self_impl->size - initial_size;
+
+  BLTransformType transform_type = (vtx_count >= BL_MATRIX_TYPE_MINIMUM_SIZE) ? m->type() : BL_TRANSFORM_TYPE_AFFINE;
+  return map_vertices(m, transform_type, self_impl->command_data + initial_size, vtx_data, vtx_data, vtx_count);
 }
 
 BL_API_IMPL BLResult bl_path_add_path(BLPathCore* self, const BLPathCore* other, const BLRange* range) noexcept {
@@ -1856,7 +1882,7 @@ BL_API_IMPL BLResult bl_path_add_transformed_path(BLPathCore* self, const BLPath
   BLTransformType transform_type = (n >= BL_MATRIX_TYPE_MINIMUM_SIZE) ? transform->type() : BL_TRANSFORM_TYPE_AFFINE;
 
   memcpy(cmd_data, other_impl->command_data + start, n);
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, other_impl->vertex_data + start, n);
+  return map_vertices(transform, transform_type, cmd_data, vtx_data, other_impl->vertex_data + start, n);
 }
 
 BL_API_IMPL BLResult bl_path_add_reversed_path(BLPathCore* self, const BLPathCore* other, const BLRange* range, BLPathReverseMode reverse_mode) noexcept {
@@ -2119,7 +2145,7 @@ static BLResult transform_with_type(BLPathCore* self, const BLRange* range, cons
   self_impl = get_impl(self);
 
   BLPoint* vtx_data = self_impl->vertex_data + start;
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, vtx_data, n);
+  return map_vertices(transform, transform_type, self_impl->command_data + start, vtx_data, vtx_data, n);
 }
 
 } // {PathInternal}
@@ -2150,7 +2176,7 @@ BL_API_IMPL BLResult bl_path_transform(BLPathCore* self, const BLRange* range, c
   BLTransformType transform_type = (n >= BL_MATRIX_TYPE_MINIMUM_SIZE) ? m->type() : BL_TRANSFORM_TYPE_AFFINE;
 
   BLPoint* vtx_data = self_impl->vertex_data + start;
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](m, vtx_data, vtx_data, n);
+  return map_vertices(m, transform_type, self_impl->command_data + start, vtx_data, vtx_data, n);
 }
 
 BL_API_IMPL BLResult bl_path_fit_to(BLPathCore* self, const BLRange* range, const BLRect* rect, uint32_t fit_flags) noexcept {
-- 
2.43.0


From e7b724e01e299b6d96ca2627945a6756a3a24d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 040/136] fix: adding a path to itself reversed by add_geometry
 reads vertices not initialized yet

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 035d52f..463f2b1 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1800,7 +1800,7 @@ AddBoxD:
       BL_ASSERT(dir != BL_GEOMETRY_DIRECTION_CW);
 
       const BLPathPrivateImpl* other_impl = get_impl(static_cast<const BLPath*>(geometry_data));
-      BLResult result = copy_content_reversed(appender, bl::PathIterator(other_impl->view), BL_PATH_REVERSE_MODE_COMPLETE);
+      BLResult result = copy_content_reversed(appender, bl::PathIterator(other_impl->command_data, other_impl->vertex_data, n), BL_PATH_REVERSE_MODE_COMPLETE);
 
       if (result != BL_SUCCESS) {
         set_size(self, initial_size);
-- 
2.43.0


From a99eff81bcc3fc2a80643f4e36c3af8204075b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 041/136] fix: clearing a path keeps its previous control and
 bounding boxes

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 463f2b1..726db74 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -352,7 +352,7 @@ BL_API_IMPL BLResult bl_path_clear(BLPathCore* self) noexcept {
     return replace_instance(self, static_cast<BLPathCore*>(&bl_object_defaults[BL_OBJECT_TYPE_PATH]));
 
   self_impl->size = 0;
-  self_impl->flags = 0;
+  self_impl->flags = BL_PATH_FLAG_DIRTY;
   return BL_SUCCESS;
 }
 
-- 
2.43.0


From 1379a471c586df3bad5677495b49f98b7ae2ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 042/136] fix: assigning an unsorted array of gradient stops
 loses the last one

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ba5fd61..4154d2e 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -156,7 +156,7 @@ static BL_NOINLINE size_t copy_unsafe_stops(BLGradientStop* dst, const BLGradien
   double prev1 = -1.0; // Dummy, cannot be within [0..1] range.
   double prev2 = -1.0;
 
-  for (size_t i = 0; i < n - 1u; i++) {
+  for (size_t i = 0; i < n; i++) {
     double offset = stops[i].offset;
     BLRgba64 rgba = src[size_t(stops[i].index)].rgba;
 
-- 
2.43.0


From f52cd844359bc084613fcc115a4e7988567596e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 043/136] fix: removing stops of a shared gradient loses all
 stops

---
 blend2d/core/gradient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 4154d2e..05995eb 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -874,6 +874,7 @@ BL_API_IMPL BLResult bl_gradient_remove_stops_by_index(BLGradientCore* self, siz
     BLGradientStop* new_stops = new_impl->stops;
     copy_stops(new_stops, stops, index);
     copy_stops(new_stops + index, stops + end, shifted_count);
+    new_impl->size = after_count;
     return replace_instance(self, &newO);
   }
   else {
-- 
2.43.0


From 86dd653089d31f1265153a355c318c7b6a43177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 044/136] fix: reserving less than the size of a shared
 gradient writes past the new storage

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 05995eb..8134751 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -565,7 +565,7 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
 
   BLGradientCore newO;
 
-  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(n), BLObjectImplSize(kInitialImplSize));
+  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(bl_max(n, self_impl->size)), BLObjectImplSize(kInitialImplSize));
   BL_PROPAGATE(alloc_impl(&newO, impl_size, self_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &self_impl->transform));
 
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From 92b3ba1466e401be3b468b4d1d72b7ceb13e7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 045/136] fix: deep copy of a gradient drops values its type
 does not use

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 8134751..009a395 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -368,7 +368,7 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   const BLGradientPrivateImpl* other_impl = get_impl(other);
 
   BLGradientCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, value_count_table[get_gradient_type(other)], &other_impl->transform));
+  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &other_impl->transform));
 
   newO._d.info.set_fields(fields);
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From fd92386041f3f274b920c2a6405e171901a1dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 046/136] fix: replacing a gradient stop with an invalid offset
 removes the stop

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 009a395..3da796d 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -920,7 +920,7 @@ BL_API_IMPL BLResult bl_gradient_replace_stop_rgba64(BLGradientCore* self, size_
   using namespace bl::GradientInternal;
   BL_ASSERT(self->_d.is_gradient());
 
-  if (BL_UNLIKELY(index >= get_size(self)))
+  if (BL_UNLIKELY(index >= get_size(self) || !(offset >= 0.0 && offset <= 1.0)))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   BL_PROPAGATE(make_mutable(self, false));
-- 
2.43.0


From 7b7475747ddbe0e9ab7464b919e9e799e2532766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 047/136] fix: gradient equality ignores values

---
 blend2d/core/gradient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 3da796d..278454b 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1016,6 +1016,10 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
 
   size_t size = a_impl->size;
   unsigned eq = unsigned(a_impl->transform == b_impl->transform) & unsigned(size == b_impl->size);
+
+  for (size_t i = 0; i < value_count_table[get_gradient_type(a)]; i++)
+    eq &= unsigned(a_impl->values[i] == b_impl->values[i]);
+
   return eq && memcmp(a_impl->stops, b_impl->stops, size * sizeof(BLGradientStop)) == 0;
 }
 
-- 
2.43.0


From 67bee177981b7dc9ee7e8ab25fae35fed5909a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 048/136] fix: gradient equality compares storage flags

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 278454b..1798cce 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1008,7 +1008,7 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
   const BLGradientPrivateImpl* a_impl = get_impl(a);
   const BLGradientPrivateImpl* b_impl = get_impl(b);
 
-  if (a->_d.info != b->_d.info)
+  if (get_gradient_type(a) != get_gradient_type(b) || get_extend_mode(a) != get_extend_mode(b))
     return false;
 
   if (a_impl == b_impl)
-- 
2.43.0


From 2c47994814f4a5dd1ce2fbd6f8a62956e7422e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 049/136] fix: font feature settings keep values above 15 out
 of the SSO storage

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 7ccd6f2..a2cceb0 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -525,7 +525,7 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
           return BL_SUCCESS;
         }
       }
-      else if (value <= kSSOFatFeatureTagBitMask) {
+      else if (value <= kSSOFatFeatureValueBitMask) {
         uint32_t index;
         if (find_sso_fat_tag(self, feature_id, &index)) {
           update_sso_fat_value(self, index, value);
-- 
2.43.0


From 71f506f604f02542c12625fbf5cc6788d9433720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 050/136] fix: removing a font feature keeps values of the
 features after it

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index a2cceb0..d597e9f 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -114,7 +114,7 @@ static BL_INLINE void remove_sso_fat_tag(BLFontFeatureSettingsCore* self, uint32
   uint32_t vals_lsb_mask = ((1u << val_offset) - 1u);
 
   tags = (tags & tags_lsb_mask) | ((tags >> kSSOFatFeatureTagBitCount) & ~tags_lsb_mask) | (kSSOInvalidFatFeatureId << ((kSSOFatFeatureCount - 1) * kSSOFatFeatureTagBitCount));
-  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~tags_lsb_mask);
+  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~vals_lsb_mask);
 
   self->_d.u32_data[2] = tags;
   self->_d.info.bits = ((self->_d.info.bits & ~kValueDataMask) - (1u << BL_OBJECT_INFO_A_SHIFT)) | (vals & kValueDataMask);
-- 
2.43.0


From 1d3b97103a43b28bbe09674baa1a8ad97d00b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 051/136] fix: font feature settings has_value() looks up
 non-boolean features by their id

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index d597e9f..b89c946 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -467,7 +467,7 @@ BL_API_IMPL bool bl_font_feature_settings_has_value(const BLFontFeatureSettingsC
     }
     else {
       uint32_t dummy_index;
-      return find_sso_fat_tag(self, feature_info.bit_id, &dummy_index);
+      return find_sso_fat_tag(self, id, &dummy_index);
     }
   }
 
-- 
2.43.0


From b20812cf37e91e52775cfd701d575bbd2e583051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 052/136] fix: boolean font features refuse values above 1 in
 dynamic settings as well

---
 blend2d/core/fontfeaturesettings.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index b89c946..0072716 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -503,6 +503,10 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
   uint32_t feature_id = bl::FontTagData::feature_tag_to_id(feature_tag);
   bool can_modify = true;
 
+  // Boolean features only accept 0 and 1, regardless of how the settings are stored.
+  if (feature_id != bl::FontTagData::kInvalidId && bl::FontTagData::feature_info_table[feature_id].has_bit_id() && value > 1u)
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   // SSO Mode
   // --------
 
@@ -512,9 +516,6 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
     if (feature_id != bl::FontTagData::kInvalidId) {
       FeatureInfo feature_info = bl::FontTagData::feature_info_table[feature_id];
       if (feature_info.has_bit_id()) {
-        if (value > 1u)
-          return bl_make_error(BL_ERROR_INVALID_VALUE);
-
         uint32_t feature_bit_id = feature_info.bit_id;
         if (has_sso_bit_tag(self, feature_bit_id)) {
           update_sso_bit_value(self, feature_bit_id, value);
-- 
2.43.0


From c674bfee7ac5838ced6b8ae654e14209cde0b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 053/136] fix: refuse an invalid style slot instead of writing
 outside the context state

---
 blend2d/raster/rastercontext.cpp | 48 ++++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 342c53a..9ea8b64 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -496,10 +496,6 @@ static BL_INLINE bool init_non_solid_fetch_data(
 // bl::RasterEngine - ContextImpl - Frontend - Fill & Stroke Style
 // ===============================================================
 
-static BL_INLINE_NODEBUG uint32_t restricted_index_from_slot(BLContextStyleSlot slot) noexcept {
-  return bl_min<uint32_t>(slot, uint32_t(BL_CONTEXT_STYLE_SLOT_MAX_VALUE) + 1);
-}
-
 static BLResult BL_CDECL get_style_impl(const BLContextImpl* base_impl, BLContextStyleSlot slot, bool transformed, BLVarCore* var_out) noexcept {
   const BLRasterContextImpl* ctx_impl = static_cast<const BLRasterContextImpl*>(base_impl);
 
@@ -544,14 +540,15 @@ static BLResult BL_CDECL get_style_impl(const BLContextImpl* base_impl, BLContex
 
 static BLResult BL_CDECL disable_style_impl(BLContextImpl* base_impl, BLContextStyleSlot slot) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
-  if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
+  if (bl_test_flag(context_flags, style_flags))
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
-  }
 
   ctx_impl->context_flags = (context_flags & ~style_flags) | ContextFlags::kNoBaseStyle << slot;
   ctx_impl->internal_state.style_type[slot] = uint8_t(BL_OBJECT_TYPE_NULL);
@@ -560,14 +557,15 @@ static BLResult BL_CDECL disable_style_impl(BLContextImpl* base_impl, BLContextS
 
 static BLResult BL_CDECL set_style_rgba32_impl(BLContextImpl* base_impl, BLContextStyleSlot slot, uint32_t rgba32) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
-  if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
+  if (bl_test_flag(context_flags, style_flags))
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
-  }
 
   StyleData& style = ctx_impl->internal_state.style[slot];
   style.solid.original.rgba32.value = rgba32;
@@ -587,14 +585,15 @@ static BLResult BL_CDECL set_style_rgba32_impl(BLContextImpl* base_impl, BLConte
 
 static BLResult BL_CDECL set_style_rgba64_impl(BLContextImpl* base_impl, BLContextStyleSlot slot, uint64_t rgba64) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
-  if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
+  if (bl_test_flag(context_flags, style_flags))
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
-  }
 
   StyleData& style = ctx_impl->internal_state.style[slot];
   style.solid.original.rgba64.value = rgba64;
@@ -615,18 +614,19 @@ static BLResult BL_CDECL set_style_rgba64_impl(BLContextImpl* base_impl, BLConte
 
 static BLResult BL_CDECL set_style_rgba_impl(BLContextImpl* base_impl, BLContextStyleSlot slot, const BLRgba* rgba) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
   BLRgba norm = bl_clamp(*rgba, BLRgba(0.0f, 0.0f, 0.0f, 0.0f), BLRgba(1.0f, 1.0f, 1.0f, 1.0f));
   if (!RgbaInternal::is_valid(*rgba))
     return disable_style_impl(base_impl, slot);
 
-  if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
+  if (bl_test_flag(context_flags, style_flags))
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
-  }
 
   StyleData& style = ctx_impl->internal_state.style[slot];
   style.solid.original.rgba = norm;
-- 
2.43.0


From 0a6f003bb2592c79181cd6c8f047d7ada8097178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 054/136] fix: stroke caps and join are restored to what they
 were when the state was saved

---
 blend2d/raster/rastercontext.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 9ea8b64..98dc826 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2082,7 +2082,7 @@ static BLResult BL_CDECL set_stroke_cap_impl(BLContextImpl* base_impl, BLStrokeC
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.caps[position] = uint8_t(stroke_cap);
   return BL_SUCCESS;
@@ -2095,7 +2095,7 @@ static BLResult BL_CDECL set_stroke_caps_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   for (uint32_t i = 0; i <= BL_STROKE_CAP_POSITION_MAX_VALUE; i++)
     ctx_impl->internal_state.stroke_options.caps[i] = uint8_t(stroke_cap);
@@ -2109,7 +2109,7 @@ static BLResult BL_CDECL set_stroke_join_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.join = uint8_t(stroke_join);
   return BL_SUCCESS;
-- 
2.43.0


From a241007591c26d5397e3571f59d5b81e3b5191ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 055/136] fix: swapping styles retains the saved stroke style,
 not one it does not have

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 98dc826..ee48a6d 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1965,7 +1965,7 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
 
     if (bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
       ctx_impl->saved_state->style[kStrokeSlot].copy_from(state.style[kStrokeSlot]);
-      if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataStroke))
         state.style[kStrokeSlot].get_render_fetch_data()->ref_count++;
     }
 
-- 
2.43.0


From 7c7a29f0f64d84961e1435afea1c95b17662381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 056/136] fix: object type predicates compare the whole type,
 not a subset of its bits

---
 blend2d/core/object.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/object.h b/blend2d/core/object.h
index e5e0be5..cc1bd78 100644
--- a/blend2d/core/object.h
+++ b/blend2d/core/object.h
@@ -504,7 +504,7 @@ struct BLObjectInfo {
 
   //! Tests whether BLObjectInfo describes a valid BLObject of the given `type`.
   BL_INLINE_CONSTEXPR bool check_object_signature_and_raw_type(BLObjectType type) const noexcept {
-    return has_object_signature_and_flags(uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
+    return has_object_signature_and_flags(BL_OBJECT_INFO_TYPE_MASK, uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
   }
 
   //! \}
-- 
2.43.0


From 94cfb50a122212edc272894c170c1eb7b8bc4982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 057/136] fix: swapping styles swaps the flags of the two slots
 and leaves unrelated flags alone

---
 blend2d/raster/rastercontext.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index ee48a6d..ef591ef 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1977,8 +1977,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     state.style[kFillSlot].swap(state.style[kStrokeSlot]);
     BLInternal::swap(state.style_type[kFillSlot], state.style_type[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeStyle | ContextFlags::kFetchDataFillAndStroke;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillStyle | ContextFlags::kFetchDataFill;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeStyle | ContextFlags::kFetchDataStroke;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags >> 1) & kFillFlags) | ((context_flags << 1) & kStrokeFlags);
   }
 
   // Swap fill and stroke alphas.
@@ -1986,8 +1987,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     BLInternal::swap(state.style_alpha[kFillSlot], state.style_alpha[kStrokeSlot]);
     BLInternal::swap(state.styleAlphaI[kFillSlot], state.styleAlphaI[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeAlpha;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillAlpha;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeAlpha;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags >> 1) & kFillFlags) | ((context_flags << 1) & kStrokeFlags);
   }
 
   ctx_impl->context_flags = context_flags;
-- 
2.43.0


From 108afcb160cce45447975faf073dbf12056409bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 058/136] fix: a context destroyed with saved states releases
 the styles each state owns

---
 blend2d/raster/rastercontext.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index ef591ef..6828e51 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1588,7 +1588,7 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
   // NOTE: No need to handle parts of states that don't use dynamically allocated memory.
   ContextFlags context_flags = ctx_impl->context_flags;
   do {
-    if ((context_flags & (ContextFlags::kFetchDataFill | ContextFlags::kWeakStateFillStyle)) == ContextFlags::kFetchDataFill) {
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateFillStyle) && bl_test_flag(saved_state->prev_context_flags, ContextFlags::kFetchDataFill)) {
       constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_FILL;
       if (saved_state->style[kSlot].has_fetch_data()) {
         RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
@@ -1596,7 +1596,7 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
       }
     }
 
-    if ((context_flags & (ContextFlags::kFetchDataStroke | ContextFlags::kWeakStateStrokeStyle)) == ContextFlags::kFetchDataStroke) {
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle) && bl_test_flag(saved_state->prev_context_flags, ContextFlags::kFetchDataStroke)) {
       constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_STROKE;
       if (saved_state->style[kSlot].has_fetch_data()) {
         RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
@@ -4454,11 +4454,12 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   // Release all states.
   //
   // Important as the user doesn't have to restore all states, in that case we basically need to iterate
-  // over all of them and release resources they hold.
+  // over all of them and release resources they hold. Current styles are described by the current flags,
+  // which `discard_states()` replaces by the flags of the first saved state.
+  ContextFlags context_flags = ctx_impl->context_flags;
   discard_states(ctx_impl, nullptr);
   bl_call_dtor(ctx_impl->internal_state.stroke_options);
 
-  ContextFlags context_flags = ctx_impl->context_flags;
   if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
     destroy_valid_style(ctx_impl, &ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_FILL]);
 
-- 
2.43.0


From abcdd196234bd18c5afc7eae09ea45536871dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 059/136] fix: a line through a corner of the clip box isn't
 dropped because of rounding

---
 blend2d/raster/edgebuilder_p.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/blend2d/raster/edgebuilder_p.h b/blend2d/raster/edgebuilder_p.h
index 36f359f..09b27e1 100644
--- a/blend2d/raster/edgebuilder_p.h
+++ b/blend2d/raster/edgebuilder_p.h
@@ -1438,6 +1438,7 @@ RestartClipLoop:
         p.x = _clip_box_d.x1;
         p.y = _clip_box_d.y1;
 
+        uint32_t a_flags_x = a_flags;
         switch (a_flags) {
           case kClipFlagNone:
             p = a;
@@ -1459,6 +1460,13 @@ RestartClipLoop:
             p.y = _clip_box_d.y0;
             p.x = a.x + (p.y - a.y) * d.x / d.y;
 
+            // A line that passes through a corner can be rounded to a point that's before the border it has already
+            // crossed, which must not be mistaken for a line that never enters the ClipBox.
+            if (a_flags_x & kClipFlagX0)
+              p.x = bl_max(p.x, _clip_box_d.x0);
+            else if (a_flags_x & kClipFlagX1)
+              p.x = bl_min(p.x, _clip_box_d.x1);
+
             a_flags = bl_clip_calc_x_flags(p, _clip_box_d);
             break;
 
@@ -1478,6 +1486,13 @@ RestartClipLoop:
             p.y = _clip_box_d.y1;
             p.x = a.x + (p.y - a.y) * d.x / d.y;
 
+            // A line that passes through a corner can be rounded to a point that's before the border it has already
+            // crossed, which must not be mistaken for a line that never enters the ClipBox.
+            if (a_flags_x & kClipFlagX0)
+              p.x = bl_max(p.x, _clip_box_d.x0);
+            else if (a_flags_x & kClipFlagX1)
+              p.x = bl_min(p.x, _clip_box_d.x1);
+
             a_flags = bl_clip_calc_x_flags(p, _clip_box_d);
             break;
 
-- 
2.43.0


From 7c0384b25466a64d28f3d8494be83b94dd1b6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 060/136] fix: a steep line that leaves a pixel column at the
 end of a scanline isn't rasterized as if it left it at the start

---
 blend2d/raster/analyticrasterizer_p.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/analyticrasterizer_p.h b/blend2d/raster/analyticrasterizer_p.h
index c018079..d55110c 100644
--- a/blend2d/raster/analyticrasterizer_p.h
+++ b/blend2d/raster/analyticrasterizer_p.h
@@ -99,6 +99,16 @@ static BL_INLINE void acc_err_multi_step(AccT& acc, IterT& iter, const IterT& st
   iter = IterT(i);
 }
 
+//! Returns the vertical position in the current scanline at which a steep line crosses a cell boundary.
+//!
+//! The position is accumulated, thus the start and the end of a scanline are indistinguishable after the accumulator
+//! has been masked. A crossing that was rounded to either of them is disambiguated by `dist`, which is a distance to
+//! the boundary at the beginning of the scanline, and `step`, which is a distance advanced by the scanline.
+static BL_INLINE int y_in_scanline(int y_acc, int fy1, int dist, int step) noexcept {
+  int y = y_acc & int(Pipeline::A8Info::kMask);
+  return (y == 0 && fy1 == int(Pipeline::A8Info::kScale) && dist * 2 > step) ? int(Pipeline::A8Info::kScale) : y;
+}
+
 } // {AnalyticUtils}
 
 //! Analytic rasterizer state.
@@ -468,6 +478,7 @@ struct AnalyticRasterizer : public AnalyticState {
     BL_ASSERT(uint32_t(_ey0) >= _band_offset);
 
     using AnalyticUtils::acc_err_step;
+    using AnalyticUtils::y_in_scanline;
 
     // Adjust `_ey1_end` in case the line crosses the current band and banding is enabled.
     int _ey1_end = _ey1;
@@ -592,15 +603,17 @@ struct AnalyticRasterizer : public AnalyticState {
           if (_fx0 < 0) {
             _ex0--;
             _fx0 += A8Info::kScale;
-            _yDlt &= A8Info::kMask;
 
             if (!area) {
               area = A8Info::kScale;
+              _yDlt &= A8Info::kMask;
               acc_err_step(_yDlt, _yErr, _yRem, _dx);
               _yDlt += _yLift;
               goto VertRightToLeftSingleFirstOrLast;
             }
 
+            _yDlt = y_in_scanline(_yDlt, _fy1, int(area), _xDlt);
+
             bit_set<OPTIONS>(bit_ptr, unsigned(_ex0 + 0) / BL_PIPE_PIXELS_PER_ONE_BIT);
             bit_set<OPTIONS>(bit_ptr, unsigned(_ex0 + 1) / BL_PIPE_PIXELS_PER_ONE_BIT);
             cov0 = apply_sign_mask(uint32_t(_yDlt - _fy0));
@@ -652,15 +665,17 @@ VertRightToLeftSingleFirstOrLast:
             if (_fx0 < 0) {
               _ex0--;
               _fx0 += A8Info::kScale;
-              _yDlt &= A8Info::kMask;
 
               if (!area) {
                 area = A8Info::kScale;
+                _yDlt &= A8Info::kMask;
                 acc_err_step(_yDlt, _yErr, _yRem, _dx);
                 _yDlt += _yLift;
                 goto VertRightToLeftSingleInLoop;
               }
 
+              _yDlt = y_in_scanline(_yDlt, int(A8Info::kScale), int(area), _xDlt);
+
               bit_set<OPTIONS>(bit_ptr, unsigned(_ex0 + 0) / BL_PIPE_PIXELS_PER_ONE_BIT);
               bit_set<OPTIONS>(bit_ptr, unsigned(_ex0 + 1) / BL_PIPE_PIXELS_PER_ONE_BIT);
               bit_ptr = PtrOps::offset(bit_ptr, bit_stride<OPTIONS>());
@@ -755,7 +770,7 @@ VertRightToLeftSingleInLoop:
           else {
             _ex0++;
             _fx0 &= A8Info::kMask;
-            _yDlt &= A8Info::kMask;
+            _yDlt = y_in_scanline(_yDlt, _fy1, int(A8Info::kScale - area), _xDlt);
             bit_set<OPTIONS>(bit_ptr, unsigned(_ex0) / BL_PIPE_PIXELS_PER_ONE_BIT);
 
             cov0 = apply_sign_mask(uint32_t(_yDlt - _fy0));
@@ -814,7 +829,7 @@ VertRightToLeftSingleInLoop:
             }
             else {
               _fx0 &= A8Info::kMask;
-              _yDlt &= A8Info::kMask;
+              _yDlt = y_in_scanline(_yDlt, int(A8Info::kScale), int(A8Info::kScale - area), _xDlt);
 
               cov0 = apply_sign_mask(uint32_t(_yDlt));
               cov1 = cov0 * (area + A8Info::kScale);
-- 
2.43.0


From fd292804e82f58056a531114c7690f076666a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 061/136] fix: path hit testing at the height of a curve's end
 point uses that point

---
 blend2d/core/path.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 726db74..45d45ef 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2610,11 +2610,11 @@ OnLine:
               if (bl::Math::quad_roots(ti, qc.a.y, qc.b.y, qc.c.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = (qc.a.x * ti[0] + qc.b.x) * ti[0] + qc.c.x;
               }
-              else if (pt.y - min_y < max_y - pt.y) {
-                ix = p[0].x;
+              else if (bl_abs(pt.y - spline_ptr[0].y) < bl_abs(pt.y - spline_ptr[2].y)) {
+                ix = spline_ptr[0].x;
               }
               else {
-                ix = p[2].x;
+                ix = spline_ptr[2].x;
               }
 
               if (pt.x >= ix)
@@ -2679,7 +2679,7 @@ OnLine:
               if (bl::Math::cubic_roots(ti, cc.a.y, cc.b.y, cc.c.y, cc.d.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = ((cc.a.x * ti[0] + cc.b.x) * ti[0] + cc.c.x) * ti[0] + cc.d.x;
               }
-              else if (pt.y - min_y < max_y - pt.y) {
+              else if (bl_abs(pt.y - spline_ptr[0].y) < bl_abs(pt.y - spline_ptr[3].y)) {
                 ix = spline_ptr[0].x;
               }
               else {
-- 
2.43.0


From 61af9d99faab00a598a512b638391a2f454ebf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 062/136] fix: root of a cubic whose cubic term is only a
 rounding error is lost, path hit testing fails

---
 blend2d/support/math.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/support/math.cpp b/blend2d/support/math.cpp
index ae748da..8122789 100644
--- a/blend2d/support/math.cpp
+++ b/blend2d/support/math.cpp
@@ -31,7 +31,8 @@ size_t cubic_roots(double* dst, const double* poly, double t_min, double t_max)
   double b = poly[2];
   double c = poly[3];
 
-  if (norm == 0.0)
+  // A negligible cubic term (mostly a rounding error) would make the normalized form below numerically unstable.
+  if (bl_abs(norm) <= bl_max(bl_abs(a), bl_abs(b)) * 1e-7)
     return quad_roots(dst, a, b, c, t_min, t_max);
 
   // Convert to a normalized form `x^3 + Ax^2 + Bx + C == 0`.
-- 
2.43.0


From d3691e587b773ca13d0545322b1da618966c1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 063/136] fix: apply the global alpha to mask fills executed by
 asynchronous rendering

---
 blend2d/raster/rendercommandprocasync_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rendercommandprocasync_p.h b/blend2d/raster/rendercommandprocasync_p.h
index fbf204c..9eba535 100644
--- a/blend2d/raster/rendercommandprocasync_p.h
+++ b/blend2d/raster/rendercommandprocasync_p.h
@@ -213,7 +213,7 @@ static CommandStatus fillBoxMaskA(ProcData& proc_data, const RenderCommand& comm
     const uint8_t* mask_data = (static_cast<const uint8_t*>(mask_impl->pixel_data) + intptr_t(maskY) * mask_impl->stride) + maskX * (mask_impl->depth / 8u);
 
     Pipeline::MaskCommand mask_commands[2];
-    Pipeline::MaskCommandType vMaskCmd = command.alpha() >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithoutGA : Pipeline::MaskCommandType::kVMaskA8WithGA;
+    Pipeline::MaskCommandType vMaskCmd = command.alpha() >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithGA : Pipeline::MaskCommandType::kVMaskA8WithoutGA;
 
     mask_commands[0].init_vmask(vMaskCmd, uint32_t(box_i.x0), uint32_t(box_i.x1), mask_data, mask_impl->stride);
     mask_commands[1].init_repeat();
-- 
2.43.0


From 8f2da86d23c03599f857cf8a79e6bd27e8e20025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 064/136] fix: mask fills with an explicit style do not depend
 on the context's fill style

---
 blend2d/raster/rastercontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 6828e51..25d13e9 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3701,7 +3701,7 @@ static BLResult BL_CDECL fill_mask_d_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 }
 
@@ -3715,7 +3715,7 @@ static BLResult BL_CDECL fill_mask_d_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
@@ -3761,7 +3761,7 @@ static BLResult BL_CDECL fill_mask_i_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 }
 
@@ -3783,7 +3783,7 @@ static BLResult BL_CDECL fill_mask_i_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
-- 
2.43.0


From eb20a708b91908f615b997e3d1ae56ac8c55e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 065/136] fix: operations with an explicit color honor
 composition operators that override the source color

---
 blend2d/raster/rastercontext.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 25d13e9..0fae048 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1417,7 +1417,9 @@ static BL_INLINE void prepare_non_solid_fetch(BLRasterContextImpl* ctx_impl, Dis
                                                                                  \
   DispatchInfo di;                                                               \
   di.init(resolved.signature, ctx_impl->internal_state.styleAlphaI[Slot]);            \
-  DispatchStyle ds{&solid}
+  DispatchStyle ds{&solid};                                                      \
+  if (resolved.flags != ContextFlags::kNoFlagsSet)                               \
+    ds.fetch_data = ctx_impl->solid_fetch_data_override_table[size_t(resolved.flags)]
 
 // Resolves an operation that uses explicit style (fill or stroke).
 #define BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(NopFlags, Slot, Style, Bail)        \
-- 
2.43.0


From fdb1e8015f426fdd2032106498b954d09d4926aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 066/136] fix: division by zero when blitting an image area of
 zero height with a scaling transformation

---
 blend2d/pipeline/pipedefs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/pipeline/pipedefs.cpp b/blend2d/pipeline/pipedefs.cpp
index 3d4b1b8..f4c100a 100644
--- a/blend2d/pipeline/pipedefs.cpp
+++ b/blend2d/pipeline/pipedefs.cpp
@@ -170,7 +170,7 @@ Signature init_pattern_affine(FetchData::Pattern& fetch_data, BLExtendMode exten
   int tw = int(fetch_data.src.size.w);
   int th = int(fetch_data.src.size.h);
 
-  if (BL_UNLIKELY(tw == 0)) {
+  if (BL_UNLIKELY(tw == 0 || th == 0)) {
     return Signature::from_pending_flag(1);
   }
 
-- 
2.43.0


From a35d448f6d23afa76a7f7de9f491dd7d9048efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 067/136] fix: non-finite and huge coordinates render outside
 of the clip box or leave stale edges behind

---
 blend2d/raster/edgebuilder_p.h | 39 +++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/edgebuilder_p.h b/blend2d/raster/edgebuilder_p.h
index 09b27e1..71e507d 100644
--- a/blend2d/raster/edgebuilder_p.h
+++ b/blend2d/raster/edgebuilder_p.h
@@ -55,6 +55,16 @@ static BL_INLINE uint32_t bl_clip_calc_x_flags(const BLPoint& pt, const BLBox& b
 static BL_INLINE uint32_t bl_clip_calc_y_flags(const BLPoint& pt, const BLBox& box) noexcept { return bl_clip_calc_y0_flags(pt, box) | bl_clip_calc_y1_flags(pt, box); }
 static BL_INLINE uint32_t bl_clip_calc_xy_flags(const BLPoint& pt, const BLBox& box) noexcept { return bl_clip_calc_x_flags(pt, box) | bl_clip_calc_y_flags(pt, box); }
 
+//! Maximum absolute value of a curve coordinate - curves that are larger cannot be split and clipped by using double
+//! precision without leaving the clip box.
+static constexpr double kClipMaxCurveCoord = 1e15;
+
+//! Tests whether all points of a curve are within a range that can be clipped (NaN and Inf are never within the range).
+template<typename... Args>
+static BL_INLINE bool bl_clip_is_curve_valid(const Args&... pts) noexcept {
+  return ((bl_abs(pts.x) <= kClipMaxCurveCoord && bl_abs(pts.y) <= kClipMaxCurveCoord) && ...);
+}
+
 //! \name Edge Transformations
 //! \{
 
@@ -1166,6 +1176,7 @@ DescendingLineLoopA:
                 b_flags = bl_clip_calc_xy_flags(a, _clip_box_d);
                 if (b_flags) {
                   descending_close();
+                  _bbox_i.y1 = bl_max(_bbox_i.y1, fy1);
                   BLInternal::swap(a, b);
                   goto BeforeClipEndPoint;
                 }
@@ -1233,6 +1244,7 @@ AscendingLineLoopA:
                 b_flags = bl_clip_calc_xy_flags(a, _clip_box_d);
                 if (b_flags) {
                   ascending_close();
+                  _bbox_i.y0 = bl_min(_bbox_i.y0, fy1);
                   BLInternal::swap(a, b);
                   goto BeforeClipEndPoint;
                 }
@@ -1341,7 +1353,7 @@ RestartClipLoop:
         else if (a_flags & kClipFlagY1) {
           // Quickly skip all lines that are out of ClipBox or at its border.
           for (;;) {
-            if (_clip_box_d.y1 > b.y) break;               // ...................
+            if (!(b.y >= _clip_box_d.y1)) break;           // ...................
             a = b;                                       // .                 .
             if (!source.maybe_next_line_to(b)) {            // .                 .
               a_flags = bl_clip_calc_x_flags(a, _clip_box_d) |  // .                 .
@@ -1435,6 +1447,9 @@ RestartClipLoop:
 
         // The start point of the line requires clipping.
         d = b - a;
+        if (BL_UNLIKELY(Math::is_nan(d)))
+          return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
         p.x = _clip_box_d.x1;
         p.y = _clip_box_d.y1;
 
@@ -1511,6 +1526,9 @@ RestartClipLoop:
             return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
         }
 
+        if (BL_UNLIKELY(Math::is_nan(p)))
+          return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
         if (a_flags) {
           borY1 = bl_clamp(b.y, _clip_box_d.y0, _clip_box_d.y1);
           if (p.x <= _clip_box_d.x0)
@@ -1601,6 +1619,13 @@ RestartClipLoop:
             return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
         }
 
+        if (BL_UNLIKELY(Math::is_nan(q)))
+          return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
+        // The intersection can be outside of ClipBox because of rounding if the coordinates are huge.
+        q.x = bl_clamp(q.x, _clip_box_d.x0, _clip_box_d.x1);
+        q.y = bl_clamp(q.y, _clip_box_d.y0, _clip_box_d.y1);
+
         BL_PROPAGATE(add_line_segment(p.x, p.y, q.x, q.y));
         double clippedBY = bl_clamp(b.y, _clip_box_d.y0, _clip_box_d.y1);
 
@@ -1648,6 +1673,10 @@ RestartClipLoop:
       uint32_t p2_flags = bl_clip_calc_xy_flags(p2, _clip_box_d);
       uint32_t common_flags = p0_flags & p1_flags & p2_flags;
 
+      // Curves that are not within the ClipBox can be invalid.
+      if ((p0_flags | p1_flags | p2_flags) && BL_UNLIKELY(!bl_clip_is_curve_valid(p0, p1, p2)))
+        return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
       // Fast reject.
       if (common_flags) {
         uint32_t end = 0;
@@ -1789,6 +1818,10 @@ RestartClipLoop:
       uint32_t p3_flags = bl_clip_calc_xy_flags(p3, _clip_box_d);
       uint32_t common_flags = p0_flags & p1_flags & p2_flags & p3_flags;
 
+      // Curves that are not within the ClipBox can be invalid.
+      if ((p0_flags | p1_flags | p2_flags | p3_flags) && BL_UNLIKELY(!bl_clip_is_curve_valid(p0, p1, p2, p3)))
+        return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
       // Fast reject.
       if (common_flags) {
         uint32_t end = 0;
@@ -1927,6 +1960,10 @@ RestartClipLoop:
       uint32_t p2_flags = bl_clip_calc_xy_flags(p2, _clip_box_d);
       uint32_t common_flags = p0_flags & p1_flags & p2_flags;
 
+      // Curves that are not within the ClipBox can be invalid.
+      if ((p0_flags | p1_flags | p2_flags) && BL_UNLIKELY(!bl_clip_is_curve_valid(p0, p1, p2)))
+        return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
       // Fast reject.
       if (common_flags) {
         uint32_t end = 0;
-- 
2.43.0


From 15e05e958997fd914853018e12174d4f78f9ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 068/136] fix: asynchronous rendering restores both clip boxes
 of the edge builder used by the user thread

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 0fae048..53a1960 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -192,7 +192,7 @@ public:
   BLBox _clip_box_d;
 
   BL_INLINE_NODEBUG void save(const WorkData& work_data) noexcept { _clip_box_d = work_data.edge_builder._clip_box_d; }
-  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept { work_data.edge_builder._clip_box_d = _clip_box_d; }
+  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept { work_data.edge_builder.set_clip_box(_clip_box_d); }
 };
 
 // bl::RasterEngine - ContextImpl - Internals - Core State
-- 
2.43.0


From 0eb708aed634bb7156cbaac9e924e48d012c8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 069/136] fix: asynchronous rendering restores the flatten
 tolerance of the edge builder used by the user thread

---
 blend2d/raster/rastercontext.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 53a1960..5a09340 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -190,9 +190,17 @@ public:
 class SyncWorkState {
 public:
   BLBox _clip_box_d;
+  double _flatten_tolerance_sq;
 
-  BL_INLINE_NODEBUG void save(const WorkData& work_data) noexcept { _clip_box_d = work_data.edge_builder._clip_box_d; }
-  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept { work_data.edge_builder.set_clip_box(_clip_box_d); }
+  BL_INLINE_NODEBUG void save(const WorkData& work_data) noexcept {
+    _clip_box_d = work_data.edge_builder._clip_box_d;
+    _flatten_tolerance_sq = work_data.edge_builder._flatten_tolerance_sq;
+  }
+
+  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept {
+    work_data.edge_builder.set_clip_box(_clip_box_d);
+    work_data.edge_builder.set_flatten_tolerance_sq(_flatten_tolerance_sq);
+  }
 };
 
 // bl::RasterEngine - ContextImpl - Internals - Core State
-- 
2.43.0


From c80405c3c86784562c80dee579c9039f99fb3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 070/136] fix: restoring an arena frees memory that was
 allocated from the end of its block before the state was saved

---
 blend2d/support/arenaallocator_p.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/blend2d/support/arenaallocator_p.h b/blend2d/support/arenaallocator_p.h
index f6628b7..6b87f7e 100644
--- a/blend2d/support/arenaallocator_p.h
+++ b/blend2d/support/arenaallocator_p.h
@@ -50,7 +50,11 @@ public:
     }
   };
 
-  typedef uint8_t* StatePtr;
+  //! State of the arena allocator, both ends of the current block must be saved as memory can be allocated from both.
+  struct StatePtr {
+    uint8_t* ptr;
+    uint8_t* end;
+  };
 
   static inline constexpr size_t kMinBlockSize = 1024; // Safe bet - it must be greater than `kMaxAlignment`.
   static inline constexpr size_t kMaxBlockSize = size_t(1) << (sizeof(size_t) * 8 - 1);
@@ -369,20 +373,25 @@ public:
   //! Stores the current state to `state`.
   [[nodiscard]]
   BL_INLINE StatePtr save_state() noexcept {
-    return _ptr;
+    return StatePtr{_ptr, _end};
   }
 
   //! Restores the state of `ArenaAllocator` from the previously saved `state`.
-  BL_INLINE void restore_state(StatePtr p) noexcept {
+  BL_INLINE void restore_state(const StatePtr& state) noexcept {
     Block* block = _block;
     size_t alignment = block_alignment();
 
-    while (p < block->data() || p >= block->end()) {
+    uint8_t* p = state.ptr;
+    uint8_t* end = state.end;
+
+    // The saved pointer can be equal to the end of the block in case the block was full.
+    while (p < block->data() || p > block->end()) {
       if (!block->prev) {
         // Special case - can happen in case that the allocator didn't have allocated any block when `save_state()`
         // was called. In that case we won't restore to the shared null block, instead we restore to the first block
         // the allocator has.
         p = IntOps::align_up(block->data(), alignment);
+        end = block->end();
         break;
       }
       block = block->prev;
@@ -390,7 +399,7 @@ public:
 
     _block = block;
     _ptr = p;
-    _end = block->end();
+    _end = end;
   }
 
   //! \}
-- 
2.43.0


From 5ff0a43c783730238783d67a6cae873a2e926f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 071/136] fix: asynchronous mask fills never release the mask
 image

---
 blend2d/raster/rastercontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 5a09340..80d8bdd 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3182,6 +3182,8 @@ BL_NOINLINE BLResult fill_clipped_box_masked_a<kAsync>(
 
   return enqueue_command(ctx_impl, command, qy0, ds.fetch_data, [&](RenderCommand* command) noexcept {
     ObjectInternal::retain_impl<RCMode::kMaybe>(command->_payload.box_mask_a.mask_image_i.ptr);
+    command->add_flags(RenderCommandFlags::kRetainsMaskImageData);
+    ctx_impl->worker_mgr()._command_appender.mark_fetch_data();
   });
 }
 
-- 
2.43.0


From c7366c67a39fcab2a9db237de4c2216a2a32fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 072/136] fix: asynchronous strokes ignore changes of
 approximation options

---
 blend2d/raster/rastercontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 80d8bdd..f7a1bf8 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1699,7 +1699,7 @@ static BLResult BL_CDECL restore_impl(BLContextImpl* base_impl, const BLContextC
       on_after_flatten_tolerance_changed(ctx_impl);
       on_after_offset_parameter_changed(ctx_impl);
 
-      context_flags_to_keep &= ~ContextFlags::kSharedStateFill;
+      context_flags_to_keep &= ~(ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
     }
 
     if (!bl_test_flag(current_flags, ContextFlags::kWeakStateClip)) {
@@ -1870,7 +1870,7 @@ static BLResult BL_CDECL set_flatten_mode_impl(BLContextImpl* base_impl, BLFlatt
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kWeakStateConfig;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.approximation_options.flatten_mode = uint8_t(mode);
   return BL_SUCCESS;
@@ -1883,7 +1883,7 @@ static BLResult BL_CDECL set_flatten_tolerance_impl(BLContextImpl* base_impl, do
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill);
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
 
   tolerance = bl_clamp(tolerance, ContextInternal::kMinimumTolerance, ContextInternal::kMaximumTolerance);
   BL_ASSERT(Math::is_finite(tolerance));
@@ -1910,7 +1910,7 @@ static BLResult BL_CDECL set_approximation_options_impl(BLContextImpl* base_impl
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill);
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
 
   BLApproximationOptions& dst = ctx_impl->internal_state.approximation_options;
   dst.flatten_mode = uint8_t(flatten_mode);
-- 
2.43.0


From 70919d1ec59e917950c8151300d51cc97d7c69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 073/136] fix: a destroyed context releases the dash array it
 holds

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index f7a1bf8..78f9194 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -4470,7 +4470,7 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   // which `discard_states()` replaces by the flags of the first saved state.
   ContextFlags context_flags = ctx_impl->context_flags;
   discard_states(ctx_impl, nullptr);
-  bl_call_dtor(ctx_impl->internal_state.stroke_options);
+  bl_call_dtor(ctx_impl->internal_state.stroke_options.dcast());
 
   if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
     destroy_valid_style(ctx_impl, &ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_FILL]);
-- 
2.43.0


From 5f44e9374cb4ca1ad7719d87053f4a80ff699f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 074/136] fix: asynchronous strokes never release their dash
 array

---
 blend2d/raster/rastercontext.cpp | 18 +++++++++++++++++-
 blend2d/raster/statedata_p.h     |  2 ++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 78f9194..4c27752 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1026,6 +1026,18 @@ static BL_INLINE void release_batch_fetch_data(BLRasterContextImpl* ctx_impl, Re
   }
 }
 
+// The list starts at `ctx_impl->shared_stroke_state`, which always refers to the last created state of the batch.
+static BL_INLINE void release_shared_stroke_states(BLRasterContextImpl* ctx_impl) noexcept {
+  SharedBaseStrokeState* state = ctx_impl->shared_stroke_state;
+  ctx_impl->shared_stroke_state = nullptr;
+
+  while (state) {
+    SharedBaseStrokeState* prev = state->prev;
+    bl_call_dtor(*state);
+    state = prev;
+  }
+}
+
 static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) noexcept {
   WorkerManager& mgr = ctx_impl->worker_mgr();
   if (mgr.has_pending_commands()) {
@@ -1066,6 +1078,7 @@ static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) no
     }
 
     release_batch_fetch_data(ctx_impl, batch->_command_list.first());
+    release_shared_stroke_states(ctx_impl);
 
     mgr._allocator.clear();
     mgr.init_first_batch();
@@ -1073,7 +1086,6 @@ static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) no
     ctx_impl->sync_work_data.start_over();
     ctx_impl->context_flags &= ~ContextFlags::kSharedStateAllFlags;
     ctx_impl->shared_fill_state = nullptr;
-    ctx_impl->shared_stroke_state = nullptr;
   }
 
   return BL_SUCCESS;
@@ -2378,6 +2390,7 @@ static BL_INLINE SharedBaseStrokeState* get_shared_stroke_state(BLRasterContextI
     shared_stroke_state = ctx_impl->worker_mgr().allocate_from_shared_data_pool<SharedBaseStrokeState>(state_size);
 
     bl_call_ctor(*shared_stroke_state, ctx_impl->stroke_options(), ctx_impl->approximation_options());
+    shared_stroke_state->prev = ctx_impl->shared_stroke_state;
 
     if (transform_order != BL_STROKE_TRANSFORM_ORDER_AFTER) {
       const BLMatrix2D& ut = ctx_impl->user_transform();
@@ -4454,6 +4467,9 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
 
   flush_impl(ctx_impl, BL_CONTEXT_FLUSH_SYNC);
 
+  // Release shared states that were created, but are not used by any command.
+  release_shared_stroke_states(ctx_impl);
+
   // Release Threads/WorkerContexts used by asynchronous rendering.
   if (ctx_impl->worker_mgr_initialized)
     ctx_impl->worker_mgr->reset();
diff --git a/blend2d/raster/statedata_p.h b/blend2d/raster/statedata_p.h
index deb8b40..965250d 100644
--- a/blend2d/raster/statedata_p.h
+++ b/blend2d/raster/statedata_p.h
@@ -152,6 +152,8 @@ struct SharedFillState {
 struct SharedBaseStrokeState {
   BLStrokeOptions stroke_options;
   BLApproximationOptions approximation_options;
+  //! Previously created state of the same batch (states own their dash arrays, which must be released).
+  SharedBaseStrokeState* prev {};
 
   BL_INLINE explicit SharedBaseStrokeState(const BLStrokeOptions& stroke_options, const BLApproximationOptions& approximation_options) noexcept
     : stroke_options(stroke_options),
-- 
2.43.0


From 3cba5a9460530bde3d13e77114e237879721b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 075/136] verification hooks: events of asynchronous rendering,
 guarded by BL_VERIF_HOOKS

---
 blend2d/raster/rastercontext.cpp          |  4 +++
 blend2d/raster/rendercommandprocasync_p.h |  3 ++
 blend2d/raster/renderqueue_p.h            |  2 ++
 blend2d/raster/workermanager_p.h          |  2 ++
 blend2d/raster/workerproc.cpp             |  6 ++++
 blend2d/threading/verifhooks_p.h          | 41 +++++++++++++++++++++++
 6 files changed, 58 insertions(+)
 create mode 100644 blend2d/threading/verifhooks_p.h

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 4c27752..7aa40a0 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -30,6 +30,7 @@
 #include <blend2d/support/stringops_p.h>
 #include <blend2d/support/traits_p.h>
 #include <blend2d/support/zeroallocator_p.h>
+#include <blend2d/threading/verifhooks_p.h>
 
 #ifndef BL_BUILD_NO_JIT
   #include <blend2d/pipeline/jit/pipegenruntime_p.h>
@@ -1053,6 +1054,8 @@ static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) no
       work_data->init_context_data(ctx_impl->dst_data, ctx_impl->sync_work_data.ctx_data.pixel_origin);
     }
 
+    BL_VERIF_EVENT(FLUSH_BEGIN, batch, synchronization, sizeof(*synchronization), thread_count, batch->band_count());
+
     // Just to make sure that all the changes are visible to the threads.
     synchronization->before_start(thread_count, batch->job_count() > 0);
 
@@ -1077,6 +1080,7 @@ static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) no
       ctx_impl->sync_work_data._accumulated_error_flags |= bl_atomic_fetch_relaxed(&batch->_accumulated_error_flags);
     }
 
+    BL_VERIF_EVENT(FLUSH_END, batch);
     release_batch_fetch_data(ctx_impl, batch->_command_list.first());
     release_shared_stroke_states(ctx_impl);
 
diff --git a/blend2d/raster/rendercommandprocasync_p.h b/blend2d/raster/rendercommandprocasync_p.h
index 9eba535..188eb9e 100644
--- a/blend2d/raster/rendercommandprocasync_p.h
+++ b/blend2d/raster/rendercommandprocasync_p.h
@@ -12,6 +12,7 @@
 #include <blend2d/raster/workdata_p.h>
 #include <blend2d/support/bitops_p.h>
 #include <blend2d/support/intops_p.h>
+#include <blend2d/threading/verifhooks_p.h>
 
 //! \cond INTERNAL
 //! \addtogroup blend2d_raster_engine_impl
@@ -470,6 +471,8 @@ SaveState:
 }
 
 static CommandStatus process_command(ProcData& proc_data, const RenderCommand& command, int32_t prevBandFy1, int32_t nextBandFy0) noexcept {
+  BL_VERIF_EVENT(COMMAND, &command, proc_data.work_data());
+
   switch (command.type()) {
     case RenderCommandType::kFillBoxA:
       return fill_box_a(proc_data, command);
diff --git a/blend2d/raster/renderqueue_p.h b/blend2d/raster/renderqueue_p.h
index 66f5f1d..1ac14c1 100644
--- a/blend2d/raster/renderqueue_p.h
+++ b/blend2d/raster/renderqueue_p.h
@@ -9,6 +9,7 @@
 #include <blend2d/raster/rendercommand_p.h>
 #include <blend2d/support/arenalist_p.h>
 #include <blend2d/support/fixedbitarray_p.h>
+#include <blend2d/threading/verifhooks_p.h>
 
 //! \cond INTERNAL
 //! \addtogroup blend2d_raster_engine_impl
@@ -233,6 +234,7 @@ public:
   //! only used by command queue, other queues should use `append()`.
   BL_INLINE void advance() noexcept {
     BL_ASSERT(!full());
+    BL_VERIF_EVENT(COMMAND_ADD, current_command());
     _index++;
   }
 
diff --git a/blend2d/raster/workermanager_p.h b/blend2d/raster/workermanager_p.h
index 3fcff36..8af69a0 100644
--- a/blend2d/raster/workermanager_p.h
+++ b/blend2d/raster/workermanager_p.h
@@ -25,6 +25,7 @@
 #include <blend2d/threading/mutex_p.h>
 #include <blend2d/threading/thread_p.h>
 #include <blend2d/threading/threadpool_p.h>
+#include <blend2d/threading/verifhooks_p.h>
 
 //! \cond INTERNAL
 //! \addtogroup blend2d_raster_engine_impl
@@ -359,6 +360,7 @@ public:
 
   BL_INLINE void add_job(RenderJob* job) noexcept {
     BL_ASSERT(!is_job_queue_full());
+    BL_VERIF_EVENT(JOB_ADD, job);
     _job_appender.append(job);
   }
 
diff --git a/blend2d/raster/workerproc.cpp b/blend2d/raster/workerproc.cpp
index c24fdd6..205b41c 100644
--- a/blend2d/raster/workerproc.cpp
+++ b/blend2d/raster/workerproc.cpp
@@ -16,6 +16,7 @@
 #include <blend2d/simd/simd_p.h>
 #include <blend2d/support/bitops_p.h>
 #include <blend2d/support/intops_p.h>
+#include <blend2d/threading/verifhooks_p.h>
 
 namespace bl::RasterEngine {
 namespace WorkerProc {
@@ -56,7 +57,9 @@ static BL_NOINLINE void process_jobs(WorkData* work_data, RenderBatch* batch) no
     RenderJob* job = queue->at(job_index - queue_index);
     BL_ASSERT(job != nullptr);
 
+    BL_VERIF_EVENT(JOB_BEGIN, job, work_data);
     JobProc::process_job(work_data, job);
+    BL_VERIF_EVENT(JOB_END, job, work_data);
   }
 
   work_data->avoid_cache_line_sharing();
@@ -172,6 +175,7 @@ static void process_band(CommandProcAsync::ProcData& proc_data, uint32_t current
 
   RenderBatch* batch = proc_data.batch();
   WorkData* work_data = proc_data.work_data();
+  BL_VERIF_EVENT(BAND, batch, work_data, current_band_id);
 
   // Initialize the `proc_data` with the current band.
   proc_data.init_band(current_band_id, work_data->band_height(), fp_scale);
@@ -324,6 +328,7 @@ void process_work_data(WorkData* work_data, RenderBatch* batch) noexcept {
   // once we finish job processing other threads can still use data produced by such job, so even when we are done
   // we cannot really clear the allocator, we must wait until all threads are done with the current batch, and that
   // is basically only guaranteed when we enter the proc again (or by the rendering context once it finishes).
+  BL_VERIF_EVENT(WORK_BEGIN, batch, work_data);
   if (!work_data->is_sync())
     work_data->start_over();
 
@@ -349,6 +354,7 @@ void process_work_data(WorkData* work_data, RenderBatch* batch) noexcept {
 
   // Propagates accumulated error flags into the batch.
   finished(work_data, batch);
+  BL_VERIF_EVENT(WORK_END, batch, work_data);
 }
 
 // bl::RasterEngine::WorkerProc - WorkerThreadEntry
diff --git a/blend2d/threading/verifhooks_p.h b/blend2d/threading/verifhooks_p.h
new file mode 100644
index 0000000..5144e94
--- /dev/null
+++ b/blend2d/threading/verifhooks_p.h
@@ -0,0 +1,41 @@
+// This file is part of Blend2D project <https://blend2d.com>
+//
+// See blend2d.h or LICENSE.md for license and copyright information
+// SPDX-License-Identifier: Zlib
+
+#ifndef BLEND2D_THREADING_VERIFHOOKS_P_H_INCLUDED
+#define BLEND2D_THREADING_VERIFHOOKS_P_H_INCLUDED
+
+// Events reported to an external observer of asynchronous rendering, which is provided by the program that links with
+// a library compiled with BL_VERIF_HOOKS. Without it `BL_VERIF_EVENT()` expands to nothing.
+
+#if defined(BL_VERIF_HOOKS)
+
+enum BLVerifEvent : unsigned {
+  BL_VERIF_EVENT_JOB_ADD = 1,   // (job)                                  A job was added to the batch.
+  BL_VERIF_EVENT_COMMAND_ADD,   // (command)                              A command was added to the batch.
+  BL_VERIF_EVENT_FLUSH_BEGIN,   // (batch, synchronization, size of it, thread count, band count)
+  BL_VERIF_EVENT_FLUSH_END,     // (batch)
+  BL_VERIF_EVENT_WORK_BEGIN,    // (batch, work_data)
+  BL_VERIF_EVENT_WORK_END,      // (batch, work_data)
+  BL_VERIF_EVENT_JOB_BEGIN,     // (job, work_data)
+  BL_VERIF_EVENT_JOB_END,       // (job, work_data)
+  BL_VERIF_EVENT_BAND,          // (batch, work_data, band id)
+  BL_VERIF_EVENT_COMMAND        // (command, work_data) in the band last reported for work_data
+};
+
+extern "C" void bl_verif_event(unsigned what, const void* subject, const void* context, unsigned long v0, unsigned long v1, unsigned long v2) noexcept;
+
+static inline void bl_verif_event_impl(unsigned what, const void* subject, const void* context = nullptr, unsigned long v0 = 0, unsigned long v1 = 0, unsigned long v2 = 0) noexcept {
+  bl_verif_event(what, subject, context, v0, v1, v2);
+}
+
+#define BL_VERIF_EVENT(WHAT, ...) bl_verif_event_impl(BL_VERIF_EVENT_##WHAT, __VA_ARGS__)
+
+#else
+
+#define BL_VERIF_EVENT(WHAT, ...) ((void)0)
+
+#endif
+
+#endif // BLEND2D_THREADING_VERIFHOOKS_P_H_INCLUDED
-- 
2.43.0


From 3f984477bfe240d249ccd68e16ccfda5bacffad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 076/136] fix: releasing zero threads does not pool an
 uninitialized thread (all-or-nothing acquire that fails to create the first
 thread)

---
 blend2d/threading/threadpool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/threading/threadpool.cpp b/blend2d/threading/threadpool.cpp
index 71edf27..33f7b61 100644
--- a/blend2d/threading/threadpool.cpp
+++ b/blend2d/threading/threadpool.cpp
@@ -218,6 +218,9 @@ static uint32_t BL_CDECL bl_thread_pool_cleanup(BLThreadPool* self_, uint32_t th
 // ==============================
 
 static void bl_thread_pool_release_threads_internal(BLInternalThreadPool* self, BLThread** threads, uint32_t n) noexcept {
+  if (n == 0)
+    return;
+
   uint32_t i = 0;
   uint32_t bw_index = 0;
 
-- 
2.43.0


From 12864b54259c6172a302b0f04c70390c747c867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 077/136] fix: portable worker synchronization could be
 destroyed while the last worker thread was about to lock it

---
 blend2d/raster/workersynchronization.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/raster/workersynchronization.cpp b/blend2d/raster/workersynchronization.cpp
index 7a551ce..ef73e09 100644
--- a/blend2d/raster/workersynchronization.cpp
+++ b/blend2d/raster/workersynchronization.cpp
@@ -53,18 +53,18 @@ void WorkerSynchronization::wait_for_jobs_to_finish() noexcept {
 }
 
 void WorkerSynchronization::thread_done() noexcept {
-  uint32_t remaining_plus_one = bl_atomic_fetch_sub_strong(&_status.threads_running_count);
-
-  if (remaining_plus_one != 1)
-    return;
-
   if (use_futex()) {
+    if (bl_atomic_fetch_sub_strong(&_status.threads_running_count) != 1)
+      return;
+
     bl_atomic_fetch_add_strong(&_status.futex_bands_finished);
     Futex::wake_one(&_status.futex_bands_finished);
   }
   else {
+    // The counter must be decremented by the thread that holds the mutex - once it reaches zero the user thread could
+    // return from `wait_for_threads_to_finish()` and destroy the mutex.
     BLLockGuard<BLMutex> guard(_portable_data.mutex);
-    if (_status.waiting_for_completion) {
+    if (bl_atomic_fetch_sub_strong(&_status.threads_running_count) == 1 && _status.waiting_for_completion) {
       _portable_data.done_condition.signal();
     }
   }
-- 
2.43.0


From 9e0f5213a0f2840df73f1becd105fdb54c97cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:58 +0000
Subject: [PATCH 078/136] fix: portable worker synchronization initializes and
 destroys its mutex and condition variables once

---
 blend2d/raster/workersynchronization.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/blend2d/raster/workersynchronization.cpp b/blend2d/raster/workersynchronization.cpp
index ef73e09..8e103c3 100644
--- a/blend2d/raster/workersynchronization.cpp
+++ b/blend2d/raster/workersynchronization.cpp
@@ -14,17 +14,9 @@ WorkerSynchronization::WorkerSynchronization() noexcept
     _status{} {
 
   _header.use_futex = BL_FUTEX_ENABLED;
-
-  if (!use_futex()) {
-    bl_call_ctor(_portable_data);
-  }
 }
 
-WorkerSynchronization::~WorkerSynchronization() noexcept {
-  if (!use_futex()) {
-    bl_call_dtor(_portable_data);
-  }
-}
+WorkerSynchronization::~WorkerSynchronization() noexcept {}
 
 void WorkerSynchronization::wait_for_jobs_to_finish() noexcept {
   if (use_futex()) {
-- 
2.43.0


From d3cbdc4cdcade2964e37f4a090df4b55e2fb47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 079/136] fix: set_glyphs of a glyph buffer reads 32-bit glyph
 ids as if they were 16 bits apart

---
 blend2d/core/glyphbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index d528e41..d4c7e27 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -282,7 +282,7 @@ BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs(BLGlyphBufferCore* self, const u
   BL_PROPAGATE(bl_glyph_buffer_ensure_data(self, &d));
   BL_PROPAGATE(d->ensure_buffer(0, 0, size));
 
-  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint16_t)));
+  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint32_t)));
 }
 
 BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs_from_struct(BLGlyphBufferCore* self, const void* glyph_data, size_t size, size_t glyph_id_size, intptr_t glyph_id_advance) noexcept {
-- 
2.43.0


From 9b2dc8b1e9bfc8851e6c5c17a36d1556fbf0b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 080/136] fix: a glyph buffer never reports invalid text

---
 blend2d/core/glyphbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index d4c7e27..91eef46 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -125,6 +125,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   uint32_t* text_data = d->content;
   BLGlyphInfo* info_data = d->info_data;
 
+  d->flags = 0;
   while (reader.has_next()) {
     uint32_t uc;
     uint32_t cluster = uint32_t(reader.native_index(src));
@@ -142,7 +143,6 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   }
 
   d->size = (size_t)(text_data - d->content);
-  d->flags = 0;
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
-- 
2.43.0


From db7e09a585c8d84876e902947543c8b9d55b40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 081/136] fix: conversion of Latin-1 to UTF-8 that fits a small
 buffer reports what it converted

---
 blend2d/unicode/unicode.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blend2d/unicode/unicode.cpp b/blend2d/unicode/unicode.cpp
index 508a688..21e1522 100644
--- a/blend2d/unicode/unicode.cpp
+++ b/blend2d/unicode/unicode.cpp
@@ -195,19 +195,21 @@ BLResult convert_unicode(
         state.dst_index = writer.index(static_cast<char*>(dst));
       }
       else {
-        for (size_t i = 0; i < src_size_in_bytes; i++) {
+        size_t i = 0;
+        while (i < src_size_in_bytes) {
           uint32_t uc = src8[i];
           if (uc <= 0x7F)
             result = writer.write_byte(uc);
           else
             result = writer.write2_bytes(uc);
 
-          if (BL_UNLIKELY(result != BL_SUCCESS)) {
-            state.dst_index = writer.index(static_cast<char*>(dst));
-            state.src_index = i;
+          if (BL_UNLIKELY(result != BL_SUCCESS))
             break;
-          }
+          i++;
         }
+
+        state.dst_index = writer.index(static_cast<char*>(dst));
+        state.src_index = i;
       }
 
       break;
-- 
2.43.0


From 92db5466335bde469fbb49283dfd812b4b2a5ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 082/136] fix: conversion of UTF-16 and UTF-32 text reports a
 truncated last unit

---
 blend2d/unicode/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/unicode/unicode.cpp b/blend2d/unicode/unicode.cpp
index 21e1522..7cc430c 100644
--- a/blend2d/unicode/unicode.cpp
+++ b/blend2d/unicode/unicode.cpp
@@ -141,7 +141,7 @@ static BL_INLINE BLResult convert_unicode_impl(void* dst, size_t dst_size_in_byt
   state.dst_index = offset_of_ptr(dst, writer._ptr);
   state.src_index = offset_of_ptr(src, iter._ptr);
 
-  if (Iterator::kCharSize > 1 && result == BL_SUCCESS && !IntOps::is_aligned(state.src_index, Iterator::kCharSize))
+  if (Iterator::kCharSize > 1 && result == BL_SUCCESS && !IntOps::is_aligned(src_size_in_bytes, Iterator::kCharSize))
     return bl_make_error(BL_ERROR_DATA_TRUNCATED);
   else
     return result;
-- 
2.43.0


From ffb68dbd1e1bc833287ed9513da2dba6444eb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 083/136] fix: strict UTF-8 validation and conversion refuse
 encoded surrogates

---
 blend2d/unicode/unicode_p.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blend2d/unicode/unicode_p.h b/blend2d/unicode/unicode_p.h
index 437ad1e..ee3831d 100644
--- a/blend2d/unicode/unicode_p.h
+++ b/blend2d/unicode/unicode_p.h
@@ -290,6 +290,12 @@ public:
         if (BL_UNLIKELY((b1 | b2) > 0x3Fu || uc < 0x800u))
           goto InvalidString;
 
+        // Surrogates are not characters, they cannot be encoded by UTF-8.
+        if (bl_test_flag(kFlags, IOFlags::kStrict)) {
+          if (BL_UNLIKELY(is_surrogate(uc)))
+            goto InvalidString;
+        }
+
         // 3-Byte UTF-8 maps to one UTF-16 or UTF-32 code-point, so subtract 2.
         if (bl_test_flag(kFlags, IOFlags::kCalcIndex))
           _utf32_index_subtract += 2;
-- 
2.43.0


From 5b97ee26daf2f9268fbf9294000e1929f2e5b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 084/136] fix: UTF-16 text with a truncated last unit is
 reported as truncated, not as too long for the destination

---
 blend2d/unicode/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/unicode/unicode.cpp b/blend2d/unicode/unicode.cpp
index 7cc430c..0fe90c2 100644
--- a/blend2d/unicode/unicode.cpp
+++ b/blend2d/unicode/unicode.cpp
@@ -305,7 +305,7 @@ BLResult convert_unicode(
       memmove(dst, src, validated_size);
 
       // Prevent `BL_ERROR_DATA_TRUNCATED` in case there is not enough space in destination.
-      if (copy_size < src_size_in_bytes && (result == BL_SUCCESS || result == BL_ERROR_DATA_TRUNCATED))
+      if (copy_size < IntOps::align_down(src_size_in_bytes, 2) && (result == BL_SUCCESS || result == BL_ERROR_DATA_TRUNCATED))
         result = bl_make_error(BL_ERROR_NO_SPACE_LEFT);
 
       // Report `BL_ERROR_DATA_TRUNCATED` is everything went right, but the
-- 
2.43.0


From 53d4928ebbad25ee53019191100231f908220c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 085/136] fix: a file read in several steps stores each part
 after the previous one

---
 blend2d/core/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 13d3f15..45f9138 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -743,7 +743,7 @@ BL_API_IMPL BLResult bl_file_read(BLFileCore* self, void* buffer, size_t n, size
   size_t bytes_read = 0;
 
   for (;;) {
-    SignedSizeT result = read(fd, buffer, n - bytes_read);
+    SignedSizeT result = read(fd, static_cast<uint8_t*>(buffer) + bytes_read, n - bytes_read);
     if (result < 0) {
       int e = errno;
       *bytes_read_out = bytes_read;
-- 
2.43.0


From ed2a9d3bdc90b5a381e74abcb9a4e88020e2e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 086/136] fix: a file written in several steps continues with
 the bytes not written yet

---
 blend2d/core/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 45f9138..0cd127c 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -779,7 +779,7 @@ BL_API_IMPL BLResult bl_file_write(BLFileCore* self, const void* buffer, size_t
   size_t bytes_written = 0;
 
   for (;;) {
-    SignedSizeT result = write(fd, buffer, n - bytes_written);
+    SignedSizeT result = write(fd, static_cast<const uint8_t*>(buffer) + bytes_written, n - bytes_written);
     if (result < 0) {
       int e = errno;
       *bytes_written_out = bytes_written;
-- 
2.43.0


From a0be9d9ecad40a53918f1f234e36209ddf5102a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 087/136] fix: modified time of a file adds seconds to
 microseconds

---
 blend2d/core/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 0cd127c..9cb6d85 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -579,7 +579,7 @@ static BL_INLINE int64_t unix_micro_from_file_time(const T& t) noexcept {
 #if defined(BL_FS_STAT_MTIMESPEC)
 template<typename T>
 static BL_INLINE int64_t unix_micro_from_time_spec(const T& ts) noexcept {
-  return int64_t(uint64_t(ts.tv_sec) + (uint32_t(ts.tv_nsec) / 1000u));
+  return int64_t(ts.tv_sec) * 1000000 + int64_t(uint32_t(ts.tv_nsec) / 1000u);
 }
 #endif
 
-- 
2.43.0


From 756295c88882f21815117838c08a7a6792d000bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 088/136] fix: deflate decoder corrupts data that follow an
 uncompressed block decoded after a compressed one

---
 blend2d/compression/deflatedecoderutils_p.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/compression/deflatedecoderutils_p.h b/blend2d/compression/deflatedecoderutils_p.h
index 1d8197f..9dfc666 100644
--- a/blend2d/compression/deflatedecoderutils_p.h
+++ b/blend2d/compression/deflatedecoderutils_p.h
@@ -183,6 +183,8 @@ struct DecoderBits {
   BL_INLINE_NODEBUG void fix_length_after_fast_loop() noexcept {
     if constexpr (sizeof(BLBitWord) >= 8) {
       bit_length &= (IntOps::bit_size_of<BLBitWord>() - 1u);
+      // The word holds bits past `bit_length` that were refilled in advance - they will be refilled again.
+      bit_word &= (BLBitWord(1) << bit_length) - 1u;
     }
   }
 };
-- 
2.43.0


From 884f8646194d7997f3f37837b19ebcad38e8564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 089/136] fix: deflate decoder reads past its offset table when
 an invalid offset code is used

---
 blend2d/compression/deflatedecoderfastimpl_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/compression/deflatedecoderfastimpl_p.h b/blend2d/compression/deflatedecoderfastimpl_p.h
index 25e8e0b..66c1145 100644
--- a/blend2d/compression/deflatedecoderfastimpl_p.h
+++ b/blend2d/compression/deflatedecoderfastimpl_p.h
@@ -142,7 +142,7 @@ DecoderFastResult decode_impl(
       uint32_t offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
       if (BL_UNLIKELY(!DecoderUtils::is_off_or_len(entry))) {
-        entry = tables.offset_decode_table[offset];
+        entry = tables.offset_decode_table[offset & 0x7FFFu];
         offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
         if (BL_UNLIKELY(DecoderUtils::is_end_of_block(entry))) {
-- 
2.43.0


From 50b28b5fa60b0e810bc0fd537926bc6082df7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 090/136] fix: BMP run-length move past the last row writes
 outside of the image

---
 blend2d/codec/bmpcodec.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 9a638a7..e82496d 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -217,13 +217,13 @@ static BLResult decodeRLE4(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
@@ -314,13 +314,13 @@ static BLResult decodeRLE8(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
-- 
2.43.0


From d55a9ba604c53bee3c8822d19755ebe5e17d55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 091/136] fix: BMP run-length absolute run longer than the
 scanline is read again as commands

---
 blend2d/codec/bmpcodec.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index e82496d..1b2c713 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -154,6 +154,8 @@ static BLResult decodeRLE4(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         return bl_make_error(BL_ERROR_DATA_TRUNCATED);
       }
 
+      const uint8_t* run_end = p + req_bytes;
+
       for (x += i; i >= 4; i -= 4, dst_data += 16) {
         b0 = p[0];
         b1 = p[1]; p += 2;
@@ -181,6 +183,9 @@ static BLResult decodeRLE4(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
           }
         }
       }
+
+      // The run can be longer than the rest of the scanline.
+      p = run_end;
     }
     else {
       // RLE_SKIP (fill by a background pixel).
@@ -264,6 +269,8 @@ static BLResult decodeRLE8(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         return bl_make_error(BL_ERROR_DATA_TRUNCATED);
       }
 
+      const uint8_t* run_end = p + req_bytes;
+
       for (x += i; i >= 2; i -= 2, dst_data += 8) {
         b0 = p[0];
         b1 = p[1]; p += 2;
@@ -278,6 +285,9 @@ static BLResult decodeRLE8(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         MemOps::writeU32a(dst_data, pal[b0].value);
         dst_data += 4;
       }
+
+      // The run can be longer than the rest of the scanline.
+      p = run_end;
     }
     else {
       // RLE_SKIP (fill by a background pixel).
-- 
2.43.0


From 33b2ca80729d2a7585034029aa6ac8ecf9fcffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 092/136] fix: uncompressed BMP having a V2+ header without
 masks is rejected

---
 blend2d/codec/bmpcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 1b2c713..469d63b 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -526,6 +526,11 @@ static BLResult decoder_read_info_internal(BLBmpDecoderImpl* decoder_impl, const
     }
   }
 
+  // Uncompressed images that don't specify any masks use the default ones.
+  if (compression == kCompressionRGB && (decoder_impl->info.win.r_mask | decoder_impl->info.win.g_mask | decoder_impl->info.win.b_mask) == 0) {
+    has_bit_fields = false;
+  }
+
   if (has_bit_fields) {
     // BitFields provided by info header must be continuous and non-overlapping.
     if (!check_bit_masks(decoder_impl->info.win.masks, 4))
-- 
2.43.0


From a79c46048f310a71de1d8f53642272ef7ddf6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 093/136] fix: BMP having a V5 header is rejected

---
 blend2d/codec/bmpcodec_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/bmpcodec_p.h b/blend2d/codec/bmpcodec_p.h
index 78fd5f5..4b37ae2 100644
--- a/blend2d/codec/bmpcodec_p.h
+++ b/blend2d/codec/bmpcodec_p.h
@@ -26,7 +26,7 @@ static constexpr uint32_t kHeaderSizeWIN_V1 = 40;
 static constexpr uint32_t kHeaderSizeWIN_V2 = 52;
 static constexpr uint32_t kHeaderSizeWIN_V3 = 56;
 static constexpr uint32_t kHeaderSizeWIN_V4 = 108;
-static constexpr uint32_t kHeaderSizeWIN_V5 = 12;
+static constexpr uint32_t kHeaderSizeWIN_V5 = 124;
 
 static constexpr uint32_t kCompressionRGB = 0;
 static constexpr uint32_t kCompressionRLE8 = 1;
-- 
2.43.0


From 8c2eb8d034924fb92926bacc932a0815f2cad274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 094/136] fix: PNG decoder reads past the end of input that
 ends right after the header

---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 66cfb7f..5dc335b 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -929,7 +929,7 @@ static BLResult decoder_read_info_internal(BLPngDecoderImpl* decoder_impl, const
     return bl_make_error(BL_ERROR_INVALID_SIGNATURE);
   }
 
-  ChunkReader chunk_reader(p + kPngSignatureSize, p + size - kPngSignatureSize);
+  ChunkReader chunk_reader(p + kPngSignatureSize, p + size);
 
   // Already verified by `kMinSize_PNG` check - so it must be true.
   BL_ASSERT(chunk_reader.has_chunk());
-- 
2.43.0


From 706f08bdbbed29b22f6afdc8b1d3070df3aa2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 095/136] fix: PNG decoder calculates a wrong size of pixel
 data of large images

---
 blend2d/codec/pngcodec.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 5dc335b..f45c405 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -155,10 +155,14 @@ static uint32_t calculate_interlace_steps(
     // five rows, some passes will be empty, decoders must handle this case.
     uint32_t used = sw != 0 && sh != 0;
 
-    // NOTE: No need to check for overflow at this point as we have already
-    // calculated the total BPL of the whole image, and since interlacing is
-    // splitting it into multiple images, it can't overflow the base size.
-    uint32_t bpl = ((sw * sample_depth + 7) / 8) * sample_count + 1;
+    // Image dimensions are not limited at this point, so the size of a single
+    // step (and even a single scanline) may not fit into 32 bits.
+    uint64_t bpl64 = ((uint64_t(sw) * sample_depth + 7u) / 8u) * sample_count + 1u;
+    if (BL_UNLIKELY(bpl64 > 0xFFFFFFFFu || bpl64 * sh > 0xFFFFFFFFu)) {
+      return 0;
+    }
+
+    uint32_t bpl = uint32_t(bpl64);
     uint32_t size = used ? bpl * sh : uint32_t(0);
 
     dst->used = used;
-- 
2.43.0


From 63d44b00f52c43515433c828404e96a26c0ce8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 096/136] fix: interlaced 2-bit PNG images are decoded wrong at
 the end of scanlines

---
 blend2d/codec/pngcodec.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index f45c405..345716f 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -464,7 +464,7 @@ static void deinterlace_bits(
           a = uint32_t(*d2++);
           b = 0;
 
-          if (x >=  3) a  = (uint32_t(*d3++) << 8);
+          if (x >=  3) a += (uint32_t(*d3++) << 8);
           if (x >=  2) b  = (uint32_t(*d5++)     );
           if (x >= 10) b += (uint32_t(*d5++) << 8);
 
@@ -510,10 +510,10 @@ static void deinterlace_bits(
           if (x >= 2)
             b = uint32_t(*d5++);
 
-          tmp_data[0] = combineByte2bpp(a     , b >> 10, b >> 4, b >> 12);
+          tmp_data[0] = combineByte2bpp(a     , b >> 2, a >> 2, b >> 4);
           if (x <=  4) break;
 
-          tmp_data[1] = combineByte2bpp(a >> 8, b >>  6, b >> 2, b >>  8);
+          tmp_data[1] = combineByte2bpp(a << 4, b << 2, a << 2, b     );
           break;
         }
       }
-- 
2.43.0


From 280536260de213484a4d61b315ef14533de675d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 097/136] fix: interlaced 4-bit PNG images having a scanline of
 8n+5 pixels are decoded wrong

---
 blend2d/codec/pngcodec.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 345716f..aea15e4 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -620,7 +620,9 @@ static void deinterlace_bits(
           tmp_data[1] = combineByte4bpp(a >> 8, b);
           if (x <= 4) break;
 
-          b = uint32_t(*d5++);
+          b = 0;
+          if (x >= 6) b  = (uint32_t(*d5++)     );
+
           tmp_data[2] = combineByte4bpp(a << 4, b >> 4);
           if (x <= 6) break;
 
-- 
2.43.0


From 117bfc7a6002a8991e54a6f4475ef2f8f7f1585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 098/136] fix: APNG decoder restores pixels that were never
 saved after the first frame

---
 blend2d/codec/pngcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index aea15e4..8db9cfa 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1479,6 +1479,11 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
   BLImageData image_data;
 
   if (decoder_impl->frame_index == 0u) {
+    // There is nothing to restore after the first frame, APNG specification says to use the background instead.
+    if (decoder_impl->frame_ctrl.dispose_op == kAPNGDisposeOpPrevious) {
+      decoder_impl->frame_ctrl.dispose_op = kAPNGDisposeOpBackground;
+    }
+
     BL_PROPAGATE(image_out->create(int(w), int(h), BLFormat(decoder_impl->output_format)));
   }
   else {
-- 
2.43.0


From 445346700f8233abfe268e6b38d7475fe6a0641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 099/136] fix: PNG encoder appends to the output that other
 encoders replace

---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 8db9cfa..bebc063 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1946,7 +1946,7 @@ static BLResult BL_CDECL encoder_write_frame_impl(BLImageEncoderImpl* impl, BLAr
 
   size_t reserve_bytes = kPngSignatureSize + ihdr_size + idat_size + iend_size;
   uint8_t* output_data;
-  BL_PROPAGATE(buf.modify_op(BL_MODIFY_OP_APPEND_FIT, reserve_bytes, &output_data));
+  BL_PROPAGATE(buf.modify_op(BL_MODIFY_OP_ASSIGN_FIT, reserve_bytes, &output_data));
 
   // Prepare output buffer and chunk writer.
   OutputBuffer output(output_data, reserve_bytes);
-- 
2.43.0


From b85cbeb3c64bb175e9d633aa64f9c4d8407c6aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 100/136] fix: APNG decoder never initializes and releases the
 buffer of saved pixels

---
 blend2d/codec/pngcodec_p.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/codec/pngcodec_p.h b/blend2d/codec/pngcodec_p.h
index b702121..6af7fe2 100644
--- a/blend2d/codec/pngcodec_p.h
+++ b/blend2d/codec/pngcodec_p.h
@@ -139,10 +139,12 @@ struct BLPngDecoderImpl : public BLImageDecoderImpl {
     BLImageDecoderImpl::ctor(virt_, codec_);
     bl_call_ctor(png_pixel_data);
     bl_call_ctor(pixel_converter);
+    bl_call_ctor(previous_pixel_buffer);
   }
 
   //! Explicit destructor that destructs this Impl.
   BL_INLINE void dtor() noexcept {
+    bl_call_dtor(previous_pixel_buffer);
     bl_call_dtor(pixel_converter);
     bl_call_dtor(png_pixel_data);
     BLImageDecoderImpl::dtor();
-- 
2.43.0


From 3c0508c53527350e6efa24d8091da8f1d670f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 101/136] fix: PNG decoder uses an uninitialized palette when
 an indexed image has none

---
 blend2d/codec/pngcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index bebc063..eaf8a03 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1240,6 +1240,11 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
     png_fmt.palette = decoder_impl->palette_data;
   }
   else if (decoder_impl->color_type == kColorType3_PAL) {
+    // The palette is not optional if the image is indexed.
+    if (!decoder_impl->has_flag(DecoderStatusFlags::kRead_PLTE)) {
+      return bl_make_error(BL_ERROR_PNG_INVALID_PLTE);
+    }
+
     png_fmt.add_flags(BLFormatFlags(BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_INDEXED));
     png_fmt.palette = decoder_impl->palette_data;
   }
-- 
2.43.0


From 8eb9c81b6ef2569bf8f95388abc9104b7c564bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 102/136] fix: APNG frame that ends with a chunk having no
 pixel data breaks decoding of the next frame

---
 blend2d/codec/pngcodec.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index eaf8a03..1b7878d 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1461,6 +1461,15 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
     }
   }
 
+  // The data of the frame can continue (a zlib checksum, for example) even if all pixels have been already decoded.
+  while (chunk_reader.has_chunk() && chunk_reader.read_chunk_tag() == frame_tag) {
+    uint32_t chunk_size = chunk_reader.read_chunk_size();
+    if (!chunk_reader.has_chunk_with_size(chunk_size)) {
+      break;
+    }
+    chunk_reader.advance(size_t(kPngChunkBaseSize) + chunk_size);
+  }
+
   decoder_impl->clear_flag(DecoderStatusFlags::kRead_fcTL);
   decoder_impl->buffer_index = PtrOps::byte_offset(input, chunk_reader.ptr);
 
-- 
2.43.0


From e7dc69bc3a44ef6c20817322dfacc4b453ec0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 103/136] fix: multi-step pixel converter never initializes its
 second step

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 3335efa..b59e3a1 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2204,7 +2204,7 @@ static BLResult bl_pixel_converter_init_multi_step_internal(BLPixelConverterCore
 
   memset(ctx, 0, sizeof(*ctx));
   if ((result = bl_pixel_converter_init_internal(&ctx->first, intermediate, si, custom_flags)) != BL_SUCCESS ||
-      (result = bl_pixel_converter_init_internal(&ctx->first, di, intermediate, custom_flags)) != BL_SUCCESS) {
+      (result = bl_pixel_converter_init_internal(&ctx->second, di, intermediate, custom_flags)) != BL_SUCCESS) {
     bl_pixel_converter_reset(&ctx->first);
     bl_pixel_converter_reset(&ctx->second);
     free(ctx);
-- 
2.43.0


From ec4169583f9a42c333ce4e417a969edba2028731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 104/136] fix: pixel converter of an indexed format converts
 its palette by a partially uninitialized converter

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index b59e3a1..29c187c 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1521,7 +1521,7 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
   // We need a temporary pixel converter to convert the palette to the destination pixel format. This operation should
   // not allocate any memory as the converter will convert native pixel format (BLRgba32) into a possibly non-native
   // one although a native pixel format is used most of the time.
-  BLPixelConverterCore pal_cvt;
+  BLPixelConverterCore pal_cvt {};
   BL_PROPAGATE(bl_pixel_converter_init_internal(&pal_cvt, di, palette_format_info, BL_PIXEL_CONVERTER_CREATE_NO_FLAGS));
 
   // If the source depth is 8 bits it means that we either use the source format's palette or make a copy of it
-- 
2.43.0


From f7a6c80d18ba5b3f73d2aaeb47da9745d56398cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 105/136] fix: byte-swapped pixel formats having components
 smaller than a byte are sanitized wrong

---
 blend2d/core/format.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/format.cpp b/blend2d/core/format.cpp
index 21d4957..f9f1e02 100644
--- a/blend2d/core/format.cpp
+++ b/blend2d/core/format.cpp
@@ -196,7 +196,8 @@ BL_API_IMPL BLResult bl_format_info_sanitize(BLFormatInfo* self) noexcept {
         uint32_t size = f.sizes[i];
         if (!size)
           continue;
-        f.shifts[i] = uint8_t(f.depth - f.shifts[i] - size);
+        // Only the position of the byte changes, bits inside of the byte stay in place.
+        f.shifts[i] = uint8_t((f.depth - 8u - (f.shifts[i] & ~7u)) + (f.shifts[i] & 7u));
       }
 
       flags &= ~FormatFlagsExt::kByteSwap;
-- 
2.43.0


From da30ef68f800dee6d488040480a4a9d6032392cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 106/136] fix: indexed pixel converter replaces some palette
 colors by all ones

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 29c187c..ea09e35 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -633,7 +633,7 @@ static BLResult BL_CDECL bl_convert_any_from_indexed1(
   uint32_t c0 = PixelAccess::fetchA(d.embedded.table8 + 0 * kPixelSize);
   uint32_t cm = PixelAccess::fetchA(d.embedded.table8 + 1 * kPixelSize) ^ c0; // XOR mask.
 
-  if (c0 == 0 && cm == (0xFFFFFFFFu >> (32 - kPixelSize))) {
+  if (c0 == 0 && cm == (0xFFFFFFFFu >> (32 - kPixelSize * 8))) {
     // Special case for zeros and all ones.
     for (uint32_t y = h; y != 0; y--) {
       const uint8_t* src_data = src_line;
-- 
2.43.0


From 62938284b051f37dc19eb6e432dc72172dcd5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 107/136] fix: conversion of ARGB pixels to XRGB pixels of a
 different layout ignores alpha

---
 blend2d/core/pixelconverter.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index ea09e35..c3f8816 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1811,10 +1811,18 @@ static BLResult bl_pixel_converter_init_simple(BLPixelConverterCore* self, const
         //   PRGB32 <- ARGB32 - Shuffle with premultiply
         //   XRGB32 <- ARGB32 - Shuffle with premultiply
         if (((di.flags & kP) || !(di.flags & kA)) && (si.flags & (kA | kP)) == kA) {
-          uint32_t a_shift = di.shifts[3];
-
+          // The destination alpha is needed even when it's not stored - it's then replaced by the fill-mask.
+          BLFormatInfo da = di;
           BLPixelConverterData::ShufbData& d = bl_pixel_converter_get_data(self)->shufb_data;
-          bl_pixel_converter_calc_pshufb_predicate_32_from_32(d.shufb_predicate, di, si);
+
+          if (!(di.flags & kA)) {
+            d.fill_mask = bl_pixel_converter_calc_fill_mask32(di);
+            da.sizes[3] = 8;
+            da.shifts[3] = uint8_t(bl::IntOps::ctz(d.fill_mask));
+          }
+
+          uint32_t a_shift = da.shifts[3];
+          bl_pixel_converter_calc_pshufb_predicate_32_from_32(d.shufb_predicate, da, si);
 
 #ifdef BL_BUILD_OPT_AVX2
           if (bl_runtime_has_avx2(&bl_runtime_context)) {
-- 
2.43.0


From 256acea38c37ecd006829a6b2d2170ef81ae5c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 108/136] fix: conversion of foreign pixels to ARGB32 produces
 premultiplied pixels

---
 blend2d/core/pixelconverter.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index c3f8816..875b901 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1944,6 +1944,7 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
   bool isSrcRGBA           = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
   bool is_src_premultiplied  = (si.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
   bool hasSrcHostBO        = (si.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
+  bool is_dst_straight       = (di.flags & (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_PREMULTIPLIED)) == BL_FORMAT_FLAG_ALPHA;
 
   if (!isSrcRGBA)
     d.fill_mask = 0xFF000000u;
@@ -1994,7 +1995,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
   switch (si.depth) {
     case 16:
       // TODO:
-      if (is_src_premultiplied)
+      if (is_src_premultiplied && is_dst_straight)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
+      else if (is_src_premultiplied || (isSrcRGBA && is_dst_straight))
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
       else if (isSrcRGBA)
@@ -2006,7 +2010,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 24:
-      if (is_src_premultiplied)
+      if (is_src_premultiplied && is_dst_straight)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
+      else if (is_src_premultiplied || (isSrcRGBA && is_dst_straight))
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
       else if (isSrcRGBA)
@@ -2018,7 +2025,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 32:
-      if (is_src_premultiplied)
+      if (is_src_premultiplied && is_dst_straight)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
+      else if (is_src_premultiplied || (isSrcRGBA && is_dst_straight))
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
       else if (isSrcRGBA)
-- 
2.43.0


From f87b78bccada278eb4f70a9cdca437ae9f0e26ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 109/136] fix: conversion of native pixels to foreign pixels
 assumes premultiplied source having alpha

---
 blend2d/core/pixelconverter.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 875b901..062020c 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2069,6 +2069,17 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
     bool is_dst_premultiplied = (di.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
     bool hasDstHostBO       = (di.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
 
+    bool isSrcRGBA          = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+    bool is_src_straight      = isSrcRGBA && (si.flags & BL_FORMAT_FLAG_PREMULTIPLIED) == 0;
+    bool is_dst_straight      = isDstRGBA && !is_dst_premultiplied;
+
+    // The pixels have to be premultiplied first, which is done by a multi-step converter.
+    if (is_src_straight && !is_dst_straight)
+      return BL_RESULT_NOTHING;
+
+    // Pixels are stored as they are if both formats store alpha the same way.
+    bool is_same_alpha        = is_dst_premultiplied || is_src_straight;
+
     for (uint32_t i = 0; i < 4; i++) {
       uint32_t mask = 0;
       uint32_t size = di.sizes[i];
@@ -2083,13 +2094,17 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
       d.shifts[i] = uint8_t(shift);
     }
 
+    // The alpha of the source is undefined, so the destination would be fully opaque.
+    if (!isSrcRGBA)
+      d.fill_mask = d.masks[3];
+
     BLPixelConverterFunc func = nullptr;
     switch (di.depth) {
       case 16:
-        if (is_dst_premultiplied)
+        if (isSrcRGBA && is_same_alpha)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
-        else if (isDstRGBA)
+        else if (isSrcRGBA && isDstRGBA)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
         else
@@ -2098,10 +2113,10 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
         break;
 
       case 24:
-        if (is_dst_premultiplied)
+        if (isSrcRGBA && is_same_alpha)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
-        else if (isDstRGBA)
+        else if (isSrcRGBA && isDstRGBA)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
         else
@@ -2110,10 +2125,10 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
         break;
 
       case 32:
-        if (is_dst_premultiplied)
+        if (isSrcRGBA && is_same_alpha)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
-        else if (isDstRGBA)
+        else if (isSrcRGBA && isDstRGBA)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
         else
-- 
2.43.0


From 9e561ec655760bb50dc245489a3673e775a1a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:15 +0000
Subject: [PATCH 110/136] fix: pixel converter of an indexed format writes to a
 palette that is not alterable

---
 blend2d/core/pixelconverter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 062020c..7d1392e 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1531,8 +1531,12 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
   uint32_t palette_size_in_bytes = palette_size * (di.depth / 8u);
   uint32_t internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED;
 
+  // The palette passed by the user can only be used as is, unless the user allows to alter it.
+  bool usable_palette = (pal_cvt.internal_flags & BL_PIXEL_CONVERTER_INTERNAL_FLAG_RAW_COPY) != 0 &&
+                        bl_pixel_converter_get_data(&pal_cvt)->mem_copy_data.fill_mask == 0;
+
   if (palette_size_in_bytes > sizeof(d.embedded.table8)) {
-    if (dont_copy_palette && ((pal_cvt.internal_flags & BL_PIXEL_CONVERTER_INTERNAL_FLAG_RAW_COPY) || alterable_palette)) {
+    if (dont_copy_palette && (usable_palette || alterable_palette)) {
       palette = si.palette;
       d.dynamic.table = palette;
     }
@@ -1550,7 +1554,8 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
     palette = d.embedded.table8;
   }
 
-  pal_cvt.convert_func(&pal_cvt, static_cast<uint8_t*>(palette), 0, reinterpret_cast<const uint8_t*>(si.palette), 0, palette_size, 1, nullptr);
+  if (palette != si.palette || !usable_palette)
+    pal_cvt.convert_func(&pal_cvt, static_cast<uint8_t*>(palette), 0, reinterpret_cast<const uint8_t*>(si.palette), 0, palette_size, 1, nullptr);
   bl_pixel_converter_reset(&pal_cvt);
 
   BLPixelConverterFunc func = nullptr;
-- 
2.43.0


From 262e083c1253928af6003eea981205ddca82ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 111/136] fix: copy of byte-swapped 32-bit pixels sets bits of
 other components

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 7d1392e..141bf8e 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1727,7 +1727,7 @@ static BLResult bl_pixel_converter_init_simple(BLPixelConverterCore* self, const
       // Memory copy.
       if (di.flags == si.flags) {
         // Don't copy undefined bytes in 8888 formats, it's better to set them to 0xFF.
-        if (depth == 32 && !(di.flags & BL_FORMAT_FLAG_ALPHA) && (di.flags & BL_FORMAT_FLAG_UNDEFINED_BITS))
+        if (depth == 32 && !(di.flags & (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_BYTE_SWAP)) && (di.flags & BL_FORMAT_FLAG_UNDEFINED_BITS))
           return bl_pixel_converter_init_copy_8888_with_fill_mask(self, di, si);
 
         BLPixelConverterData::MemCopyData& d = bl_pixel_converter_get_data(self)->mem_copy_data;
-- 
2.43.0


From 4a97ac05015c4c91367c4d1e35af9c301541345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 112/136] fix: formatting a string destroys its content when
 out of memory

---
 blend2d/core/string.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index b79a405..f747c7d 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -645,13 +645,16 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
   va_list ap_copy;
   va_copy(ap_copy, ap);
 
-  if ((remaining & mutable_msk) >= 64) {
+  // Only append operation can format in-place as a failure (such as out of memory) must not change the existing content.
+  if ((remaining & mutable_msk) >= 64 && bl_modify_op_is_append(op)) {
     // vsnprintf() expects null terminator to be included in the size of the buffer.
     char* dst = u.data;
     fmt_result = vsnprintf(dst + index, remaining + 1, fmt, ap);
 
-    if (BL_UNLIKELY(fmt_result < 0))
+    if (BL_UNLIKELY(fmt_result < 0)) {
+      dst[index] = '\0';
       return bl_make_error(BL_ERROR_INVALID_VALUE);
+    }
 
     output_size = size_t(unsigned(fmt_result));
     if (BL_LIKELY(output_size <= remaining)) {
@@ -661,6 +664,9 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
       set_size(self, index + output_size);
       return BL_SUCCESS;
     }
+
+    // The formatted text didn't fit - restore the null terminator.
+    dst[index] = '\0';
   }
   else {
     fmt_result = vsnprintf(buf, BL_ARRAY_SIZE(buf), fmt, ap);
-- 
2.43.0


From 4be1500886b82e491249c4688606027d8ffb4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 113/136] fix: path and gradient sizes that overflow are not
 refused

---
 blend2d/core/gradient.cpp |  3 +++
 blend2d/core/path.cpp     | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 1798cce..1ffb68e 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -563,6 +563,9 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
   if ((n | immutable_msk) <= self_impl->capacity)
     return BL_SUCCESS;
 
+  if (BL_UNLIKELY(n > capacity_from_impl_size(BLObjectImplSize(BL_OBJECT_IMPL_MAX_SIZE))))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   BLGradientCore newO;
 
   BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(bl_max(n, self_impl->size)), BLObjectImplSize(kInitialImplSize));
diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 45d45ef..c02d75f 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -71,6 +71,10 @@ static BLObjectImplSize expand_impl_size_with_modify_op(BLObjectImplSize impl_si
     return impl_size;
 }
 
+static BL_INLINE constexpr size_t get_maximum_size() noexcept {
+  return capacity_from_impl_size(BLObjectImplSize(BL_OBJECT_IMPL_MAX_SIZE));
+}
+
 static BL_INLINE size_t get_size(const BLPathCore* self) noexcept {
   return get_impl(self)->size;
 }
@@ -385,8 +389,12 @@ BL_API_IMPL BLResult bl_path_reserve(BLPathCore* self, size_t n) noexcept {
   BLPathPrivateImpl* self_impl = get_impl(self);
   size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
-  if ((n | immutable_msk) > self_impl->capacity)
+  if ((n | immutable_msk) > self_impl->capacity) {
+    if (BL_UNLIKELY(n > get_maximum_size()))
+      return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
     return realloc_path(self, impl_size_from_capacity(bl_max(n, self_impl->size)));
+  }
 
   return BL_SUCCESS;
 }
@@ -406,6 +414,9 @@ BL_API_IMPL BLResult bl_path_modify_op(BLPathCore* self, BLModifyOp op, size_t n
     *cmd_data_out = nullptr;
     *vtx_data_out = nullptr;
 
+    if (BL_UNLIKELY(n > get_maximum_size() - index))
+      return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
     BLPathCore newO;
     BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
     BL_PROPAGATE(alloc_impl(&newO, size_after, impl_size));
-- 
2.43.0


From d987ddb6ad36029df4ff167cf18456604beb8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 114/136] fix: conversion of a string variant to bool returns
 the value as a result code

---
 blend2d/core/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 8dda62c..c21d5f1 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -217,7 +217,8 @@ BL_API_IMPL BLResult bl_var_to_bool(const BLUnknown* self, bool* out) noexcept {
     }
 
     case BL_OBJECT_TYPE_STRING: {
-      return !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      *out = !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      return BL_SUCCESS;
     }
 
     default: {
-- 
2.43.0


From c1c617febab406aa61c96b853a0d00977d37db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 115/136] fix: any two variants that hold a double compare
 equal

---
 blend2d/core/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index c21d5f1..48402c0 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -680,7 +680,7 @@ BL_API_IMPL bool bl_var_equals(const BLUnknown* a, const BLUnknown* b) noexcept
       return false;
 
     case BL_OBJECT_TYPE_DOUBLE:
-      return a_d.f64_data[0] == a_d.f64_data[0];
+      return a_d.f64_data[0] == b_d.f64_data[0];
 
     case BL_OBJECT_TYPE_STRING:
       return bl_string_equals(static_cast<const BLStringCore*>(a), static_cast<const BLStringCore*>(b));
-- 
2.43.0


From 7121f79a92ba2596a74aca3e6d0a1113330de940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 116/136] fix: conversion of 2^63 and 2^64 to a 64-bit integer
 does not saturate

---
 blend2d/core/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 48402c0..556fecd 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -341,7 +341,7 @@ BL_API_IMPL BLResult bl_var_to_int64(const BLUnknown* self, int64_t* out) noexce
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(INT64_MAX)) {
+      if (f >= double(INT64_MAX)) {
         *out = INT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
@@ -479,7 +479,7 @@ BL_API_IMPL BLResult bl_var_to_uint64(const BLUnknown* self, uint64_t* out) noex
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(UINT64_MAX)) {
+      if (f >= double(UINT64_MAX)) {
         *out = UINT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
-- 
2.43.0


From 8523a7f9abbd7d6fbf69d401e06f437b2cafb0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 117/136] fix: a variant made of a color with negative alpha is
 treated as an object

---
 blend2d/core/var.h   | 2 +-
 blend2d/core/var_p.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.h b/blend2d/core/var.h
index 83b88e4..34e9765 100644
--- a/blend2d/core/var.h
+++ b/blend2d/core/var.h
@@ -175,7 +175,7 @@ struct VarOps<BLRgba, kTypeCategoryStruct> {
     uint32_t r = bl_bit_cast<uint32_t>(value.r);
     uint32_t g = bl_bit_cast<uint32_t>(value.g);
     uint32_t b = bl_bit_cast<uint32_t>(value.b);
-    uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(value.a), 0);
+    uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(value.a), 0));
     self->_d.init_u32x4(r, g, b, a);
   }
 
diff --git a/blend2d/core/var_p.h b/blend2d/core/var_p.h
index 84f17ab..b3664ed 100644
--- a/blend2d/core/var_p.h
+++ b/blend2d/core/var_p.h
@@ -28,7 +28,7 @@ static BL_INLINE BLResult init_rgba(BLObjectCore* self, const BLRgba* rgba) noex
   uint32_t r = bl_bit_cast<uint32_t>(rgba->r);
   uint32_t g = bl_bit_cast<uint32_t>(rgba->g);
   uint32_t b = bl_bit_cast<uint32_t>(rgba->b);
-  uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(rgba->a), 0);
+  uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(rgba->a), 0));
 
   self->_d.init_u32x4(r, g, b, a);
   return BL_SUCCESS;
-- 
2.43.0


From 9d2587d46cfa86b7dd27a836b9c42b14e971f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 118/136] fix: default variants of null, numbers and colors are
 all transparent black

---
 blend2d/core/runtime.cpp |  1 +
 blend2d/core/runtime_p.h |  1 +
 blend2d/core/var.cpp     | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/blend2d/core/runtime.cpp b/blend2d/core/runtime.cpp
index 5cc4e77..f13d2a9 100644
--- a/blend2d/core/runtime.cpp
+++ b/blend2d/core/runtime.cpp
@@ -278,6 +278,7 @@ BL_API_IMPL BLResult bl_runtime_init() noexcept {
 
   bl_compression_rt_init(rt);
   bl_pixel_ops_rt_init(rt);
+  bl_var_rt_init(rt);
   bl_bit_array_rt_init(rt);
   bl_bit_set_rt_init(rt);
   bl_array_rt_init(rt);
diff --git a/blend2d/core/runtime_p.h b/blend2d/core/runtime_p.h
index e77468f..0dc1cda 100644
--- a/blend2d/core/runtime_p.h
+++ b/blend2d/core/runtime_p.h
@@ -205,6 +205,7 @@ BL_HIDDEN void bl_zero_allocator_rt_init(BLRuntimeContext* rt) noexcept;
 
 BL_HIDDEN void bl_compression_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_pixel_ops_rt_init(BLRuntimeContext* rt) noexcept;
+BL_HIDDEN void bl_var_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_bit_array_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_bit_set_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_array_rt_init(BLRuntimeContext* rt) noexcept;
diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 556fecd..a4e1a8d 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -875,3 +875,22 @@ BL_API_IMPL bool bl_var_strict_equals(const BLUnknown* a, const BLUnknown* b) no
 
   return a_d == b_d;
 }
+
+// bl::Var - Runtime Registration
+// ==============================
+
+void bl_var_rt_init(BLRuntimeContext* rt) noexcept {
+  bl_unused(rt);
+
+  // Initialize defaults of value types - other types that are not registered by their own handlers default to NULL.
+  for (uint32_t type = 0; type <= BL_OBJECT_TYPE_MAX_VALUE; type++)
+    bl_object_defaults[type]._d.init_null();
+
+  bl_object_defaults[BL_OBJECT_TYPE_RGBA]._d.init_u32x4(0, 0, 0, 0);
+  bl_object_defaults[BL_OBJECT_TYPE_RGBA32]._d.init_rgba32(0);
+  bl_object_defaults[BL_OBJECT_TYPE_RGBA64]._d.init_rgba64(0);
+  bl_object_defaults[BL_OBJECT_TYPE_BOOL]._d.init_bool(false);
+  bl_object_defaults[BL_OBJECT_TYPE_INT64]._d.init_int64(0);
+  bl_object_defaults[BL_OBJECT_TYPE_UINT64]._d.init_uint64(0);
+  bl_object_defaults[BL_OBJECT_TYPE_DOUBLE]._d.init_double(0.0);
+}
-- 
2.43.0


From d49ea0a2ae6617e43dc75b89fc11e9c1e308aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:23 +0000
Subject: [PATCH 119/136] fix: items of an array of objects are not released
 with the array

---
 blend2d/core/array.cpp  |  4 +++-
 blend2d/core/array_p.h  | 10 +++++-----
 blend2d/core/object.cpp |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 749c39f..2afad06 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -302,9 +302,11 @@ static BL_NOINLINE BLResult realloc_to_dynamic(BLArrayCore* self, BLObjectType a
   return replace_instance(self, &newO);
 }
 
-BLResult free_impl(BLArrayImpl* impl) noexcept {
+BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
   if (ObjectInternal::is_impl_external(impl))
     ObjectInternal::call_external_destroy_func(impl, impl->data);
+  else
+    release_content_by_type(impl->data, impl->size * item_size_from_array_type(array_type), array_type);
   return ObjectInternal::free_impl(impl);
 }
 
diff --git a/blend2d/core/array_p.h b/blend2d/core/array_p.h
index 410c40a..adea4df 100644
--- a/blend2d/core/array_p.h
+++ b/blend2d/core/array_p.h
@@ -23,11 +23,11 @@ static BL_INLINE bool is_impl_mutable(const BLArrayImpl* impl) noexcept {
   return ObjectInternal::is_impl_mutable(impl);
 }
 
-BL_HIDDEN BLResult free_impl(BLArrayImpl* impl) noexcept;
+BL_HIDDEN BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept;
 
 template<RCMode kRCMode>
-static BL_INLINE BLResult release_impl(BLArrayImpl* impl) noexcept {
-  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl) : BLResult(BL_SUCCESS);
+static BL_INLINE BLResult release_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
+  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl, array_type) : BLResult(BL_SUCCESS);
 }
 
 //! \}
@@ -56,7 +56,7 @@ static BL_INLINE BLResult retain_instance(const BLArrayCore* self, size_t n = 1)
 }
 
 static BL_INLINE BLResult release_instance(BLArrayCore* self) noexcept {
-  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self)) : BLResult(BL_SUCCESS);
+  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self), self->_d.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore* other) noexcept {
@@ -65,7 +65,7 @@ static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore*
   BLObjectInfo info = self->_d.info;
 
   self->_d = other->_d;
-  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl)) : BLResult(BL_SUCCESS);
+  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl), info.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 //! \}
diff --git a/blend2d/core/object.cpp b/blend2d/core/object.cpp
index aca6a10..e1a5c62 100644
--- a/blend2d/core/object.cpp
+++ b/blend2d/core/object.cpp
@@ -148,7 +148,7 @@ BLResult bl_object_destroy_unknown_impl(BLObjectImpl* impl, BLObjectInfo info) n
     case BL_OBJECT_TYPE_ARRAY_STRUCT_20:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_24:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_32:
-      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl));
+      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl), type);
 
     case BL_OBJECT_TYPE_BIT_SET:
       // NOTE: It's guaranteed that this BitSet is dynamic, so we don't have to correct the type.
-- 
2.43.0


From 2bd7d841554bc59db22b69de64140f58befa8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:22 +0000
Subject: [PATCH 120/136] fix: reference count is wrong when an external image
 is reused with another access mode

---
 blend2d/core/object_p.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index 59191c8..b49eda3 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -331,6 +331,7 @@ static BL_INLINE void init_ref_count_to_base(BLObjectImpl* impl, bool immutable)
 
   BLObjectImplHeader* header = get_impl_header(impl);
   header->flags = (header->flags & ~BLObjectImplHeader::kImmutableFlag) | ri_flags;
+  header->ref_count = ri_flags;
 }
 
 //! Returns a reference count of `impl`.
-- 
2.43.0


From 7e5d6b0947f1728cb1505f0695f41e168abe3baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:22 +0000
Subject: [PATCH 121/136] fix: information about an invalid pixel format is
 read out of bounds

---
 blend2d/core/image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index 484c3bb..4944ba6 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -71,10 +71,13 @@ static BL_INLINE BLResultT<intptr_t> calc_stride_from_create_params(int w, int h
 
 // Make sure that the external image won't cause any kind of overflow in rasterization and texture fetching.
 static BL_INLINE BLResult check_create_from_data_params(int w, int h, BLFormat format, intptr_t stride) noexcept {
+  if (BL_UNLIKELY(!check_size_and_format(w, h, format)))
+    return BL_ERROR_INVALID_VALUE;
+
   uint32_t minimum_stride = stride_for_width(uint32_t(w), bl_format_info[format].depth);
   uintptr_t bytes_per_line = uintptr_t(bl_abs(stride));
 
-  if (BL_UNLIKELY(!check_size_and_format(w, h, format) || bytes_per_line < minimum_stride))
+  if (BL_UNLIKELY(bytes_per_line < minimum_stride))
     return BL_ERROR_INVALID_VALUE;
 
   // Make sure that the image height multiplied by stride is not greater than 2^31 - this makes sure that we
-- 
2.43.0


From efce020e8d0dddad3df2afad121b722d863def39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:42 +0000
Subject: [PATCH 122/136] fix: kerning tables of formats 2 and 3 are read as
 format 0

---
 blend2d/opentype/otkern_p.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otkern_p.h b/blend2d/opentype/otkern_p.h
index caf73c8..7584fba 100644
--- a/blend2d/opentype/otkern_p.h
+++ b/blend2d/opentype/otkern_p.h
@@ -173,11 +173,11 @@ struct KernGroup {
   }
 
   static BL_INLINE KernGroup make_referenced(uint32_t format, uint32_t flags, uintptr_t data_offset, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6), { data_offset } };
+    return KernGroup { flags | (format << 4) | (size_t(data_size) << 6), { data_offset } };
   }
 
   static BL_INLINE KernGroup make_synthesized(uint32_t format, uint32_t flags, void* data_ptr, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
+    return KernGroup { flags | (format << 4) | (size_t(data_size) << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
   }
 };
 
-- 
2.43.0


From 607316b76209632a2109aedf577322b32fc9c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:42 +0000
Subject: [PATCH 123/136] fix: kerning format 3 is only applied when its table
 is truncated

---
 blend2d/opentype/otkern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index fa1a0b7..dad4e07 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -295,7 +295,7 @@ static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, cons
   uint32_t right_class_count = sub_table->right_class_count();
 
   uint32_t required_size = ot_face_impl->kern.header_size + uint32_t(sizeof(Format3)) + kern_value_count * 2u + glyph_count * 2u + left_class_count * right_class_count;
-  if (BL_UNLIKELY(required_size < data_size))
+  if (BL_UNLIKELY(required_size > data_size))
     return 0;
 
   const FWord* value_table = PtrOps::offset<const FWord>(sub_table, sizeof(Format3));
-- 
2.43.0


From d56f423405635bc56dd597600f30f66e005c1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:42 +0000
Subject: [PATCH 124/136] fix: character maps of format 6 are refused

---
 blend2d/opentype/otcmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index b757479..2643ae3 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -446,7 +446,7 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
       if (!count || first + count > 0xFFFFu)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
-      if (length < sizeof(CMapTable::Format10) + count * 2u)
+      if (length < sizeof(CMapTable::Format6) + count * 2u)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       format_out = format;
-- 
2.43.0


From 049142d700afe338e990614997dedb9de5244a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:42 +0000
Subject: [PATCH 125/136] fix: missing glyphs of character map format 4 are
 mapped to other glyphs

---
 blend2d/opentype/otcmap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index 2643ae3..43eecac 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -133,6 +133,10 @@ NewMatch:
             goto UndefinedGlyph;
 
           uc = PtrOps::offset(match, raw_offset)->value();
+
+          // Zero means a missing glyph, in that case the delta is not applied.
+          if (uc == 0)
+            goto UndefinedGlyph;
         }
 
         uc += PtrOps::offset(match, id_delta_array_offset)->value();
-- 
2.43.0


From caa52c16afdea2f77273de3ab4e7deede6334070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:42 +0000
Subject: [PATCH 126/136] fix: character map of format 12 without groups is
 read out of bounds

---
 blend2d/opentype/otcmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index 43eecac..014b411 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -507,7 +507,7 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       uint32_t count = sub_table->groups.count();
-      if (count > Unicode::kCharMax || length < sizeof(CMapTable::Format12_13) + count * sizeof(CMapTable::Group))
+      if (!count || count > Unicode::kCharMax || length < sizeof(CMapTable::Format12_13) + count * sizeof(CMapTable::Group))
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       const CMapTable::Group* group_array = sub_table->groups.array();
-- 
2.43.0


From d0418a0208e1aab2cd54a6c209d1b8da0e74dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:42 +0000
Subject: [PATCH 127/136] fix: faces of a family are not found if the letter
 case differs

---
 blend2d/core/fontmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontmanager.cpp b/blend2d/core/fontmanager.cpp
index bfc7c06..36e899b 100644
--- a/blend2d/core/fontmanager.cpp
+++ b/blend2d/core/fontmanager.cpp
@@ -442,7 +442,7 @@ BL_API_IMPL BLResult bl_font_manager_query_faces_by_family_name(const BLFontMana
     BLFontManagerPrivateImpl::FamiliesMapNode* candidate = nullptr;
 
     if (prepare_query(self_impl, name, name_size, &query)) {
-      BLFontManagerPrivateImpl::FamiliesMapNode* node = self_impl->families_map.get(query);
+      BLFontManagerPrivateImpl::FamiliesMapNode* node = self_impl->families_map.nodes_by_hash_code(query.hash_code());
       while (node) {
         uint32_t family_diff = calc_family_name_diff(node->family_name.view(), query.name());
         if (candidate_diff > family_diff) {
-- 
2.43.0


From 864240698b9982128eda857c907173187e95a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:42 +0000
Subject: [PATCH 128/136] fix: faces that only differ in stretch are not added
 to a font manager

---
 blend2d/core/fontmanager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/fontmanager.cpp b/blend2d/core/fontmanager.cpp
index 36e899b..7798df2 100644
--- a/blend2d/core/fontmanager.cpp
+++ b/blend2d/core/fontmanager.cpp
@@ -66,9 +66,11 @@ static BL_INLINE size_t index_of_face(const BLFontFace* array, size_t size, BLFo
 static BL_INLINE uint32_t calc_face_order(const BLFontFaceImpl* face_impl) noexcept {
   uint32_t style = face_impl->style;
   uint32_t weight = face_impl->weight;
+  uint32_t stretch = face_impl->stretch;
 
   return (style << kQueryDiffStyleValueShift) |
-         (weight << kQueryDiffWeightValueShift);
+         (weight << kQueryDiffWeightValueShift) |
+         (stretch << kQueryDiffStretchValueShift);
 }
 
 static BL_INLINE size_t index_for_insertion(const BLFontFace* array, size_t size, BLFontFaceImpl* face_impl) noexcept {
-- 
2.43.0


From 0e379097f454ceb6b3f965453041f2f972c3c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 129/136] fix: glyphs of a font without advances are positioned
 by uninitialized memory

---
 blend2d/core/font.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index 89a4002..160e6e9 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -469,7 +469,7 @@ BL_API_IMPL BLResult bl_font_position_glyphs(const BLFontCore* self, BLGlyphBuff
 
   if (!(gb_impl->flags & BL_GLYPH_BUFFER_GLYPH_ADVANCES)) {
     BL_PROPAGATE(gb_impl->ensure_placement());
-    face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size);
+    BL_PROPAGATE(face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size));
     gb_impl->glyph_run.placement_type = uint8_t(BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET);
     gb_impl->flags |= BL_GLYPH_BUFFER_GLYPH_ADVANCES;
   }
-- 
2.43.0


From a7695baefaee1dd0a413adccc55cffd465c5a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:16 +0000
Subject: [PATCH 130/136] fix: cross-stream and variation kerning values are
 added to advances

---
 blend2d/opentype/otkern.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index dad4e07..b60f158 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -488,6 +488,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
     uint32_t length = 0;
     uint32_t format = 0;
     uint32_t coverage = 0;
+    bool has_variation = false;
 
     trace.info("Group #%u\n", group_index);
     trace.indent();
@@ -525,6 +526,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
       uint32_t mac_coverage = group->coverage();
       if ((mac_coverage & MacGroupHeader::kCoverageVertical   ) == 0) coverage |= WinGroupHeader::kCoverageHorizontal;
       if ((mac_coverage & MacGroupHeader::kCoverageCrossStream) != 0) coverage |= WinGroupHeader::kCoverageCrossStream;
+      has_variation = (mac_coverage & MacGroupHeader::kCoverageVariation) != 0;
     }
 
     if (length < header_size) {
@@ -556,7 +558,10 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
     trace.info("Coverage: %u\n", coverage);
     trace.info("Orientation: %s\n", orientation == BL_ORIENTATION_HORIZONTAL ? "Horizontal" : "Vertical");
 
-    if (format < BL_ARRAY_SIZE(min_kern_sub_table_size) && length >= min_kern_sub_table_size[format]) {
+    // Cross-stream values don't adjust advances and variation values only apply to an instance of a variable font.
+    bool is_advance_kern = (coverage & WinGroupHeader::kCoverageCrossStream) == 0 && !has_variation;
+
+    if (is_advance_kern && format < BL_ARRAY_SIZE(min_kern_sub_table_size) && length >= min_kern_sub_table_size[format]) {
       KernCollection& collection = ot_face_impl->kern.collection[orientation];
       switch (format) {
         // Kern SubTable Format 0 - Ordered list of kerning pairs.
-- 
2.43.0


From b044e934afad5afd764b053950b7fd4a891ec219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:08 +0000
Subject: [PATCH 131/136] fix: DST_IN with a fully transparent source clears
 XRGB32 destinations

---
 blend2d/core/compopsimplifyimpl_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/compopsimplifyimpl_p.h b/blend2d/core/compopsimplifyimpl_p.h
index 9563f52..4e7e751 100644
--- a/blend2d/core/compopsimplifyimpl_p.h
+++ b/blend2d/core/compopsimplifyimpl_p.h
@@ -239,7 +239,7 @@ struct CompOpSimplifyInfoImpl {
            d == Fmt::kPRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
            d == Fmt::kXRGB32 && s == Fmt::kPRGB32 ? dst_in(Fmt::kPRGB32, Fmt::kPRGB32) :
-           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? dst_in(Fmt::kPRGB32, Fmt::kFRGB32) :
+           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? clear(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kXRGB32 ? dst_copy(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
-- 
2.43.0


From d73c5facbc3442d7798e37776a5b7c03c57a32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 132/136] fix: vertical scaling of narrow A8 images does not
 run past the end of a row

---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 6429df3..f0a48de 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -640,7 +640,7 @@ static void BL_CDECL bl_image_scale_vert_bytes(const ImageScaleContext::Data* d,
 
       if (((intptr_t)dp & 0x7) == 0)
         goto BoundLarge;
-      i = 8u - uint32_t((uintptr_t)dp & 0x7u);
+      i = bl_min<uint32_t>(8u - uint32_t((uintptr_t)dp & 0x7u), x);
 
 BoundSmall:
       x -= i;
@@ -718,7 +718,7 @@ BoundLarge:
 
       if (((size_t)dp & 0x3) == 0)
         goto UnboundLarge;
-      i = 4u - uint32_t((uintptr_t)dp & 0x3u);
+      i = bl_min<uint32_t>(4u - uint32_t((uintptr_t)dp & 0x3u), x);
 
 UnboundSmall:
       x -= i;
-- 
2.43.0


From 313ea6b618af7d127f3cd81941c3e66b74221631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 133/136] fix: image scaling reports that memory for its
 weights could not be allocated

---
 blend2d/core/imagescale.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index f0a48de..feda422 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -891,10 +891,8 @@ BLResult ImageScaleContext::create(const BLSizeI& to, const BLSizeI& from, uint3
 
   // Built-in filters will probably never fail, however, custom filters can and
   // it wouldn't be safe to just continue.
-  image_scale_ops.weights(d, kDirHorz, filter_func);
-  image_scale_ops.weights(d, kDirVert, filter_func);
-
-  return BL_SUCCESS;
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirHorz, filter_func));
+  return image_scale_ops.weights(d, kDirVert, filter_func);
 }
 
 // bl::ImageScale - Process
-- 
2.43.0


From 6397f922883ebef7cd576a4f2c6d81e16d31188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:09 +0000
Subject: [PATCH 134/136] fix: malformed lists of a font's layout tables are no
 longer read past the font data

---
 blend2d/opentype/otlayout.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index b476c5a..e95c1e1 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3570,12 +3570,22 @@ static BLResult initGSubGPos(OTFaceImpl* ot_face_impl, Table<GSubGPosTable> tabl
     if (BL_UNLIKELY(!offset_range.contains(feature_list_offset))) {
       return BL_SUCCESS;
     }
+
+    Table<Array16<TagRef16>> list(table.sub_table_unchecked(feature_list_offset));
+    if (BL_UNLIKELY(!list.fits(2u + list->count() * uint32_t(sizeof(TagRef16))))) {
+      return BL_SUCCESS;
+    }
   }
 
   if (script_list_offset) {
     if (BL_UNLIKELY(!offset_range.contains(script_list_offset))) {
       return BL_SUCCESS;
     }
+
+    Table<Array16<TagRef16>> list(table.sub_table_unchecked(script_list_offset));
+    if (BL_UNLIKELY(!list.fits(2u + list->count() * uint32_t(sizeof(TagRef16))))) {
+      return BL_SUCCESS;
+    }
   }
 
   LayoutData::GSubGPos& d = ot_face_impl->layout.kinds[size_t(lookup_kind)];
@@ -3648,7 +3658,7 @@ static Table<GSubGPosTable::ScriptTable> find_script_in_script_list(Table<Array1
     for (uint32_t i = 0; i < script_count; i++) {
       BLTag record_tag = script_list_array[i].tag();
       if (record_tag == script_tag || record_tag == default_script_tag) {
-        table_out = script_list_offsets.sub_table_unchecked(script_list_array[i].offset());
+        table_out = script_list_offsets.sub_table(script_list_array[i].offset());
         if (record_tag == script_tag) {
           break;
         }
@@ -3681,7 +3691,7 @@ static BL_INLINE void populate_gsub_gpoos_lookup_bits(
       BLTag feature_tag = feature_list_offsets->array()[feature_index].tag();
       if (FontFeatureSettingsInternal::is_feature_enabled_for_plan<kSSO>(&settings, feature_tag)) {
         uint32_t feature_offset = feature_list_offsets->array()[feature_index].offset();
-        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table_unchecked(feature_offset));
+        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table(feature_offset));
 
         // Don't use a feature if its offset is out of bounds.
         if (BL_LIKELY(blFontTableFitsT<GSubGPosTable::FeatureTable>(feature_table))) {
@@ -3748,7 +3758,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
     return BL_SUCCESS;
   }
 
-  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table_unchecked(lang_sys_offset));
+  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table(lang_sys_offset));
   if (BL_UNLIKELY(!blFontTableFitsT<GSubGPosTable::LangSysTable>(lang_sys_table))) {
     return BL_SUCCESS;
   }
@@ -3761,7 +3771,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
   }
 
   uint32_t feature_count = feature_list_offsets->count();
-  if (feature_list_offsets.size < 2u + feature_count * 2u) {
+  if (feature_list_offsets.size < 2u + feature_count * uint32_t(sizeof(TagRef16))) {
     return BL_SUCCESS;
   }
 
-- 
2.43.0


From a96bb1386b6f274081b9ef6df885f268da39acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:09 +0000
Subject: [PATCH 135/136] fix: font faces find script and feature tags that are
 not in the tag database

---
 blend2d/core/fonttagset_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fonttagset_p.h b/blend2d/core/fonttagset_p.h
index c5889f5..acd6834 100644
--- a/blend2d/core/fonttagset_p.h
+++ b/blend2d/core/fonttagset_p.h
@@ -42,7 +42,7 @@ public:
     if (id != kInvalidId)
       return known_tags.bit_at(id);
 
-    size_t index = lower_bound(unknown_tags.data(), unknown_tags.size(), id);
+    size_t index = lower_bound(unknown_tags.data(), unknown_tags.size(), tag);
     return index < unknown_tags.size() && unknown_tags[index] == tag;
   }
 
-- 
2.43.0


From b050173c8dd057dd394be5950ab36c1fa1f1d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:04 +0000
Subject: [PATCH 136/136] fix: multiple substitution validates its sequences
 and expands them

---
 blend2d/opentype/otlayout.cpp        | 41 ++++++++++++++++++++--------
 blend2d/opentype/otlayoutcontext_p.h |  2 ++
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index e95c1e1..8b3dc90 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1536,7 +1536,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
     uint32_t sequence_length = sequence->count();
     uint32_t sequence_table_size = 2u + sequence_length * 2u;
 
-    if (sequence.fits(sequence_table_size))
+    if (!sequence.fits(sequence_table_size))
       return validator.fail("%s.sequence[%u] is truncated (size=%u, required=%u)", table_name, i, sequence.size, sequence_table_size);
   }
 
@@ -1589,13 +1589,32 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type2_format1(GSubConte
   if (!replaced_glyph_count)
     return BL_SUCCESS;
 
+  // Remove glyphs that are replaced by empty sequences first - the remaining sequences never make the buffer smaller,
+  // which means that they can be expanded in-place from the end to the beginning.
+  size_t size_before = 0;
+  for (size_t i = 0; i < ctx.size(); i++) {
+    BLGlyphId glyph_id = ctx.glyph_data()[i];
+    if ((glyph_id & kSequenceMarker) && MemOps::readU16uBE(table.data + (glyph_id & ~kSequenceMarker)) == 0u) {
+      continue;
+    }
+
+    ctx.glyph_data()[size_before] = glyph_id;
+    ctx.info_data()[size_before] = ctx.info_data()[i];
+    size_before++;
+  }
+
+  size_t size_after = ctx.size() - replaced_glyph_count + replaced_sequence_size;
+  ctx.truncate(size_before);
+
+  if (!size_before)
+    return BL_SUCCESS;
+
   // We could be only processing a range withing the work buffer, thus it's not safe to reuse `glyph_in_ptr`.
-  glyph_in_ptr = ctx.glyph_data() + ctx.size();
+  glyph_in_ptr = ctx.glyph_data() + size_before;
 
   BLGlyphId* glyph_in_start = ctx.glyph_data();
-  BLGlyphInfo* info_in_ptr = ctx.info_data() + ctx.size();
+  BLGlyphInfo* info_in_ptr = ctx.info_data() + size_before;
 
-  size_t size_after = ctx.size() - replaced_glyph_count + replaced_sequence_size;
   BL_PROPAGATE(ctx.ensure_work_buffer(size_after));
 
   BLGlyphId* glyph_out_ptr = ctx.glyph_data() + size_after;
@@ -1604,23 +1623,23 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type2_format1(GSubConte
   // Second loop applies all matches that were found and marked.
   do {
     BLGlyphId glyph_id = *--glyph_in_ptr;
-    *--glyph_out_ptr = glyph_id;
-    *--info_out_ptr = *--info_in_ptr;
+    BLGlyphInfo glyph_info = *--info_in_ptr;
 
     if (glyph_id & kSequenceMarker) {
       size_t sequence_offset = glyph_id & ~kSequenceMarker;
       size_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
       const UInt16* sequence_data = table.data_as<UInt16>(sequence_offset + 2u);
 
-      glyph_out_ptr -= sequence_length;
-      info_out_ptr -= sequence_length;
-
       while (sequence_length) {
         sequence_length--;
-        glyph_out_ptr[sequence_length] = sequence_data[sequence_length].value();
-        info_out_ptr[sequence_length] = *info_in_ptr;
+        *--glyph_out_ptr = sequence_data[sequence_length].value();
+        *--info_out_ptr = glyph_info;
       }
     }
+    else {
+      *--glyph_out_ptr = glyph_id;
+      *--info_out_ptr = glyph_info;
+    }
   } while (glyph_in_ptr != glyph_in_start);
 
   BL_ASSERT(glyph_out_ptr == ctx.glyph_data());
diff --git a/blend2d/opentype/otlayoutcontext_p.h b/blend2d/opentype/otlayoutcontext_p.h
index a04a0c6..bb48d25 100644
--- a/blend2d/opentype/otlayoutcontext_p.h
+++ b/blend2d/opentype/otlayoutcontext_p.h
@@ -190,6 +190,8 @@ struct GSubContextPrimary : public GSubContext {
   }
 
   BL_INLINE void done() noexcept {
+    _gbd->content = _work_buffer.glyph_data;
+    _gbd->info_data = _work_buffer.info_data;
     _gbd->size = _work_buffer.size;
   }
 
-- 
2.43.0

