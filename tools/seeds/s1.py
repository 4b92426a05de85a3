SEEDS = [
dict(id="array-insert-shared-move", property="C01",
 edits=[("blend2d/core/array.cpp", '''    uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
    if (!immutable_msk) {
      set_size(self, 0);
      memcpy(dst, u.data, index * item_size);
      memcpy(dst + end_index * item_size, u.data + index * item_size, (u.size - index) * item_size);
    }
    else {
      init_content_by_type(dst, u.data, index * item_size, array_type);
      init_content_by_type(dst + end_index * item_size, u.data + index * item_size, (u.size - index) * item_size, array_type);
    }

    init_content_by_type(dst + index * item_size, items, n * item_size, array_type);
''', '''    uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
    if (!immutable_msk || (!self->_d.sso() && !is_array_type_object_based(array_type))) {
      set_size(self, 0);
      memcpy(dst, u.data, index * item_size);
      memcpy(dst + end_index * item_size, u.data + index * item_size, (u.size - index) * item_size);
    }
    else {
      init_content_by_type(dst, u.data, index * item_size, array_type);
      init_content_by_type(dst + end_index * item_size, u.data + index * item_size, (u.size - index) * item_size, array_type);
    }

    init_content_by_type(dst + index * item_size, items, n * item_size, array_type);
''')],
 needs="insert_data into an array whose storage is shared with another array", breaks="the other array loses its content",
 demo='''
int main() {
  BLArray<uint32_t> a; for (uint32_t i = 0; i < 40; i++) a.append(i);
  BLArray<uint32_t> b(a); uint32_t x[2] = {7, 8};
  REQUIRE(b.insert_data(3, x, 2) == BL_SUCCESS);
  REQUIRE(a.size() == 40); for (uint32_t i = 0; i < 40; i++) REQUIRE(a[i] == i);
  REQUIRE(b.size() == 42 && b[3] == 7 && b[4] == 8 && b[5] == 3);
  return 0;
}
'''),
dict(id="string-compare-embedded-zero", property="C02",
 edits=[("blend2d/core/string.cpp", "      if (b == 0)\n        c = 1;\n", "      if (b == 0 && a != 0)\n        c = 1;\n")],
 needs="comparing a string with an embedded zero byte against zero-terminated data ending there", breaks="comparison runs past the terminator",
 demo='''
int main() {
  BLString s; s.assign("ab\\0cd", 5);
  char z[8] = {'a', 'b', 0, 'c', 'd', 0, 0, 0};
  REQUIRE(s.compare(z) > 0);
  char y[8] = {'a', 'b', 0, 'x', 0, 0, 0, 0};
  REQUIRE(s.compare(y) > 0);
  return 0;
}
'''),
dict(id="bitarray-resize-stale-bits", property="C04",
 edits=[("blend2d/core/bitarray.cpp", "  if (last_word_bit_count)\n    dst[word_count - 1] &= bl::BitArrayOps::non_zero_start_mask(last_word_bit_count);\n\n  return replace_instance(self, &newO);",
  "  if (last_word_bit_count && n_bits >= d.size)\n    dst[word_count - 1] &= bl::BitArrayOps::non_zero_start_mask(last_word_bit_count);\n\n  return replace_instance(self, &newO);")],
 needs="truncating a shared bit array in the middle of a word, then appending zero bits", breaks="bits past the size stay set and reappear",
 demo='''
int main() {
  BLBitArray a; a.resize(400); a.fill_range(0, 400);
  BLBitArray b(a); REQUIRE(b.resize(210) == BL_SUCCESS);
  for (int i = 0; i < 8; i++) b.append_bit(false);
  REQUIRE(b.size() == 218 && b.cardinality() == 210 && !b.has_bit(212));
  return 0;
}
'''),
dict(id="bitset-assign-deep-stale-cardinality", property="C05",
 edits=[("blend2d/core/bitset.cpp", "      self_impl->segment_count = segment_count;\n      reset_cached_cardinality(self);\n      return BL_SUCCESS;\n",
 "      if (self_impl->segment_count != segment_count)\n        reset_cached_cardinality(self);\n      self_impl->segment_count = segment_count;\n      return BL_SUCCESS;\n")],
 needs="cardinality queried, then a deep copy of a set with the same number of segments into the same storage", breaks="cardinality is stale",
 demo='''
int main() {
  BLBitSet a, b; for (uint32_t i = 0; i < 2000; i += 3) a.add_bit(i);
  for (uint32_t i = 0; i < 2000; i += 7) b.add_bit(i);
  REQUIRE(a.cardinality() == 667);
  REQUIRE(a.assign_deep(b) == BL_SUCCESS);
  REQUIRE(a.equals(b) && a.cardinality() == 286);
  return 0;
}
'''),
]
