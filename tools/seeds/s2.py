SEEDS = [
dict(id="path-remove-keeps-clean-flags", property="C06",
 edits=[("blend2d/core/path.cpp", "    self_impl->size = size_after;\n    self_impl->flags = BL_PATH_FLAG_DIRTY;", "    self_impl->size = size_after;\n    self_impl->flags |= BL_PATH_FLAG_DIRTY & self_impl->flags;")],
 needs="asking for the bounding box, removing vertices in place, then asking again", breaks="the bounding box of the removed vertices is reported",
 demo='''
int main() {
  BLPath p; p.move_to(0, 0); p.line_to(10, 10); p.line_to(500, 20); p.line_to(3, 4);
  BLBox b; REQUIRE(p.get_bounding_box(&b) == BL_SUCCESS && b.x1 == 500);
  REQUIRE(p.remove_range(BLRange{2, 3}) == BL_SUCCESS && p.size() == 3);
  REQUIRE(p.get_bounding_box(&b) == BL_SUCCESS);
  REQUIRE(b.x1 == 10 && b.y1 == 10);
  return 0;
}
'''),
dict(id="gradient-remove-offsets-duplicates", property="C07",
 edits=[("blend2d/core/gradient.cpp", "for (b = a; b < size && stops[b].offset <= offset_max; b++) continue;", "for (b = a; b < size && (stops[b].offset < offset_max || (stops[b].offset == offset_max && b == a)); b++) continue;")],
 needs="two stops at the upper end of the removed range", breaks="one of them stays",
 demo='''
int main() {
  BLGradient g; g.add_stop(0.0, BLRgba32(1)); g.add_stop(0.25, BLRgba32(2)); g.add_stop(0.5, BLRgba32(3)); g.add_stop(0.5, BLRgba32(4)); g.add_stop(1.0, BLRgba32(5));
  REQUIRE(g.remove_stops_by_offset(0.2, 0.5) == BL_SUCCESS);
  REQUIRE(g.size() == 2 && g.stops()[0].offset == 0.0 && g.stops()[1].offset == 1.0);
  return 0;
}
'''),
dict(id="gradient-shared-remove-loses-value", property="C07",
 edits=[("blend2d/core/gradient.cpp", "    BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(after_count), self_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &self_impl->transform));",
   "    BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(after_count), self_impl->values, BL_GRADIENT_VALUE_MAX_VALUE, &self_impl->transform));")],
 needs="removing a stop of a radial gradient that is shared with another one", breaks="the last geometry value is lost in the copy",
 demo='''
int main() {
  BLGradient g(BLRadialGradientValues(1, 2, 3, 4, 5, 6)); for (int i = 0; i < 5; i++) g.add_stop(i / 4.0, BLRgba32(0xFF000000u + i));
  BLGradient h(g); REQUIRE(h.remove_stop(2) == BL_SUCCESS && h.size() == 4 && g.size() == 5);
  for (size_t i = 0; i < 6; i++) REQUIRE(bl_gradient_get_value(&h, i) == double(i + 1) && bl_gradient_get_value(&g, i) == double(i + 1));
  return 0;
}
'''),
dict(id="variation-inline-remove-many", property="C08",
 edits=[("blend2d/core/fontvariationsettings.cpp", "uint32_t tags_after_index_mask = ((1u << (nTagsAfterIndex * kSSOTagBitSize)) - 1u) << bit_index;", "uint32_t tags_after_index_mask = ((1u << (bl_min<size_t>(nTagsAfterIndex, 1u) * kSSOTagBitSize)) - 1u) << bit_index;")],
 needs="removing the first of three inline font variations", breaks="a remaining one is lost",
 demo='''
int main() {
  BLTag t[4] = {BL_MAKE_TAG('i','t','a','l'), BL_MAKE_TAG('o','p','s','z'), BL_MAKE_TAG('w','d','t','h'), BL_MAKE_TAG('w','g','h','t')};
  for (int n = 1; n <= 4; n++) for (int k = 0; k < n; k++) {
    BLFontVariationSettings s, f; for (int i = 0; i < n; i++) s.set_value(t[i], float(i + 1)); for (int i = 0; i < n; i++) if (i != k) f.set_value(t[i], float(i + 1));
    REQUIRE(s.remove_value(t[k]) == BL_SUCCESS && s.size() == size_t(n - 1) && s.equals(f) && f.equals(s));
    BLFontVariationSettingsView v, u; s.get_view(&v); f.get_view(&u); REQUIRE(v.size == u.size); for (size_t i = 0; i < v.size; i++) REQUIRE(v.data[i].tag == u.data[i].tag && v.data[i].value == u.data[i].value);
    for (int i = 0; i < n; i++) { REQUIRE(s.has_value(t[i]) == (i != k)); if (i != k) REQUIRE(s.get_value(t[i]) == float(i + 1)); } }
  return 0;
}
'''),
dict(id="feature-inline-update-last", property="C08",
 edits=[("blend2d/core/fontfeaturesettings.cpp", "self->_d.info.bits = (self->_d.info.bits & ~mask) | value << value_offset;", "self->_d.info.bits = (index == kSSOFatFeatureCount - 1u ? self->_d.info.bits : (self->_d.info.bits & ~mask)) | value << value_offset;")],
 needs="changing the value of the last of the inline features that hold more than one bit", breaks="bits of the old value stay",
 demo='''
int main() {
  BLFontFeatureSettings s; const char* t[] = {"aalt", "cv01", "cv02", "cv03", "cv04", "cv05", "cv06", "salt", "swsh", "ornm", "nalt"};
  for (int n = 1; n <= 11; n++) { BLFontFeatureSettings f;
    for (int i = 0; i < n; i++) f.set_value(BL_MAKE_TAG(t[i][0], t[i][1], t[i][2], t[i][3]), 2);
    for (int i = 0; i < n; i++) { BLTag x = BL_MAKE_TAG(t[i][0], t[i][1], t[i][2], t[i][3]); REQUIRE(f.set_value(x, 5) == BL_SUCCESS && f.get_value(x) == 5); } }
  return 0;
}
'''),
dict(id="var-double-int-rounding", property="C09",
 edits=[("blend2d/core/var.cpp", "return double(d.i64_data[0]) == value && int64_t(double(d.i64_data[0])) == d.i64_data[0];", "return double(d.i64_data[0]) == value;")],
 needs="an integer above 2^53 compared with the double it rounds to", breaks="different numbers are equal",
 demo='''
int main() {
  BLVar v(int64_t(9007199254740993)); REQUIRE(!v.equals(9007199254740992.0));
  BLVar w(int64_t(9007199254740992)); REQUIRE(w.equals(9007199254740992.0));
  return 0;
}
'''),
dict(id="image-create-reuses-external", property="C10",
 edits=[("blend2d/core/image.cpp", "if (bl::ObjectInternal::is_impl_mutable(self_impl) && !bl::ObjectInternal::is_impl_external(self_impl))", "if (bl::ObjectInternal::is_impl_mutable(self_impl))")],
 needs="creating an image of the same size in a handle that refers to the caller's memory", breaks="the new image still writes to memory of the caller",
 demo='''
static int freed = 0; static void BL_CDECL on_free(void*, void*, void*) noexcept { freed++; }
int main() {
  static uint32_t px[16]; for (auto& p : px) p = 0xFF112233u;
  BLImage im; REQUIRE(im.create_from_data(4, 4, BL_FORMAT_PRGB32, px, 16, BL_DATA_ACCESS_RW, on_free, nullptr) == BL_SUCCESS);
  REQUIRE(im.create(4, 4, BL_FORMAT_PRGB32) == BL_SUCCESS);
  BLImageData d; REQUIRE(im.make_mutable(&d) == BL_SUCCESS); for (int y = 0; y < 4; y++) memset((uint8_t*)d.pixel_data + y * d.stride, 0, 16);
  for (auto p : px) REQUIRE(p == 0xFF112233u);
  REQUIRE(freed == 1);
  return 0;
}
'''),
dict(id="file-write-error-count", property="C25",
 edits=[("blend2d/core/filesystem.cpp", "      *bytes_written_out = bytes_written;\n", "      *bytes_written_out = bytes_written == n ? bytes_written : 0;\n")],
 needs="a write that fails after a part of it was written", breaks="the part that was written is not reported",
 demo='''
#include <sys/resource.h>
#include <signal.h>
int main(int, char** argv) {
  signal(SIGXFSZ, SIG_IGN); rlimit r{1000, 1000}; REQUIRE(setrlimit(RLIMIT_FSIZE, &r) == 0);
  std::string n = std::string(argv[1]) + "/f"; std::vector<char> d(4000, 'x');
  BLFile f; REQUIRE(f.open(n.c_str(), BLFileOpenFlags(BL_FILE_OPEN_RW | BL_FILE_OPEN_CREATE)) == BL_SUCCESS);
  size_t k = 77; BLResult e = f.write(d.data(), d.size(), &k);
  REQUIRE(e != BL_SUCCESS && k == 1000);
  return 0;
}
'''),
dict(id="read-file-keeps-old-content", property="C25",
 edits=[("blend2d/core/filesystem.cpp", "  dst.clear();\n\n", "\n")],
 needs="reading a file that does not exist into an array that holds something", breaks="the old content stays",
 demo='''
int main(int, char** argv) {
  BLArray<uint8_t> d; d.append(uint8_t(1)); d.append(uint8_t(2));
  REQUIRE(BLFileSystem::read_file((std::string(argv[1]) + "/none").c_str(), d) != BL_SUCCESS);
  REQUIRE(d.size() == 0);
  return 0;
}
'''),
dict(id="utf8-overlong-four", property="C24",
 edits=[("blend2d/unicode/unicode_p.h", "uc < 0x010000u || uc > kCharMax", "uc < 0x00F000u || uc > kCharMax")],
 needs="an overlong four byte form of U+F000..U+FFFF", breaks="ill-formed text is accepted",
 demo='''
int main() {
  const char good[] = "\\xF0\\x90\\x80\\x80", bad[] = "\\xF0\\x8F\\xBF\\xBD";
  BLGlyphBuffer b; REQUIRE(b.set_utf8_text(good, 4) == BL_SUCCESS && b.size() == 1 && !(b.flags() & BL_GLYPH_RUN_FLAG_INVALID_TEXT));
  REQUIRE(b.set_utf8_text(bad, 4) == BL_SUCCESS && (b.flags() & BL_GLYPH_RUN_FLAG_INVALID_TEXT));
  return 0;
}
'''),
dict(id="qoi-second-index-channels", property="C19",
 edits=[("blend2d/codec/qoicodec.cpp", "          unpacked_pixel = unpacked_table[hbyte1];\n", "")],
 needs="two index operations in a row followed by a difference", breaks="the difference is applied to a stale pixel",
 demo='''
int main() {
  auto hash = [](int r, int g, int b, int a) { return uint8_t((r * 3 + g * 5 + b * 7 + a * 11) % 64); };
  std::vector<uint8_t> d = {'q','o','i','f', 0,0,0,6, 0,0,0,1, 4, 0};
  auto rgba = [&](int r, int g, int b, int a) { for (int v : {255, r, g, b, a}) d.push_back(uint8_t(v)); };
  rgba(10, 20, 30, 255); rgba(100, 110, 120, 255); rgba(7, 9, 11, 255);
  d.push_back(hash(10, 20, 30, 255)); d.push_back(hash(100, 110, 120, 255)); d.push_back(0x40 | 3 << 4 | 2 << 2 | 2); // one more red
  for (int i = 0; i < 7; i++) d.push_back(0); d.push_back(1);
  BLImage im; REQUIRE(im.read_from_data(d.data(), d.size()) == BL_SUCCESS); BLImageData x; im.get_data(&x);
  const uint32_t* p = (const uint32_t*)x.pixel_data;
  REQUIRE(p[3] == 0xFF0A141Eu && p[4] == 0xFF646E78u && p[5] == 0xFF656E78u);
  return 0;
}
'''),
dict(id="png-seek-reads-control-again", property="C19", skip=True, edits=[], needs="", breaks="", demo=""),
dict(id="cmap4-stale-segment", property="C32", files=["ttf.h"],
 edits=[("blend2d/opentype/otcmap.cpp", '''        if (++ptr == end)
          goto Done;

        uc = ptr[0];
        if (uc < uc_first || uc > uc_last)
          goto NewMatch;
      }
    }
    else {
UndefinedGlyph:
      if (!undefined_count)
        state->undefined_first = (size_t)(ptr - content);

      *ptr++ = 0;
      undefined_count++;
    }
  }

Done:
  state->glyph_count = (size_t)(ptr - content);
  state->undefined_count = undefined_count;

  return BL_SUCCESS;
}

// bl::OpenType::CMapImpl - Format6
''', '''        if (++ptr == end)
          goto Done;

        uc = ptr[0];
        if (uc > uc_last)
          goto NewMatch;
      }
    }
    else {
UndefinedGlyph:
      if (!undefined_count)
        state->undefined_first = (size_t)(ptr - content);

      *ptr++ = 0;
      undefined_count++;
    }
  }

Done:
  state->glyph_count = (size_t)(ptr - content);
  state->undefined_count = undefined_count;

  return BL_SUCCESS;
}

// bl::OpenType::CMapImpl - Format6
''')],
 needs="a character of an earlier segment right after one of a later segment with another delta", breaks="the delta of the later segment is applied to it",
 demo='''
#include "ttf.h"
int main() {
  ttf::Tables t = ttf::basic(30, "T", 400, 5, 0); ttf::W w;
  // segments a..c -> 1..3 and p..r -> 10..12
  w.u16(0).u16(1).u16(3).u16(1).u32(12).u16(4).u16(40).u16(0).u16(6).u16(4).u16(1).u16(2).u16('c').u16('r').u16(0xFFFF).u16(0).u16('a').u16('p').u16(0xFFFF);
  w.u16(uint32_t(1 - 'a')).u16(uint32_t(10 - 'p')).u16(1).u16(0).u16(0).u16(0); t["cmap"] = w.b;
  ttf::Bytes f = ttf::build(t); BLFontData d; REQUIRE(d.create_from_data(f.data(), f.size()) == BL_SUCCESS);
  BLFontFace face; REQUIRE(face.create_from_data(d, 0) == BL_SUCCESS); BLFont font; REQUIRE(font.create_from_face(face, 10.0f) == BL_SUCCESS);
  BLGlyphBuffer b; b.set_utf8_text("pbaq"); REQUIRE(font.map_text_to_glyphs(b) == BL_SUCCESS && b.size() == 4);
  uint32_t want[4] = {10, 2, 1, 11}; for (int i = 0; i < 4; i++) REQUIRE(b.content()[i] == want[i]);
  return 0;
}
'''),
]
SEEDS = [s for s in SEEDS if not s.get('skip')]
