// C24: text encodings. Glyph buffer text and glyph ids, strict validation and conversion.
#include "vh.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/unicode/unicode_p.h>
using namespace vh;
static const uint32_t te[4] = {BL_TEXT_ENCODING_LATIN1, BL_TEXT_ENCODING_UTF8, BL_TEXT_ENCODING_UTF16, BL_TEXT_ENCODING_UTF32};
static const int usz[4] = {1, 1, 2, 4};
typedef std::vector<uint32_t> Units;
static std::string units(const uint8_t* p, size_t n, int enc) {
  J j = J::arr();
  for (size_t i = 0; i < n; i++) {
    if (enc <= 1) j.addi(p[i]); else if (enc == 2) { uint16_t v; memcpy(&v, p + 2 * i, 2); j.addi(v); }
    else { uint32_t v; memcpy(&v, p + 4 * i, 4); J q = J::arr(); q.addi(v & 0xFFFF).addi(v >> 16); j.add(q.done()); }
  }
  return j.done();
}
static void put(std::vector<uint8_t>& o, int enc, uint32_t v) { for (int i = 0; i < usz[enc]; i++) o.push_back(uint8_t(v >> (8 * i))); }
static void enc_char(std::vector<uint8_t>& o, int enc, uint32_t c) {
  if (enc == 0) put(o, 0, c & 255);
  else if (enc == 1) { if (c < 0x80) put(o, 1, c); else if (c < 0x800) { put(o, 1, 0xC0 | c >> 6); put(o, 1, 0x80 | (c & 63)); } else if (c < 0x10000) { put(o, 1, 0xE0 | c >> 12); put(o, 1, 0x80 | ((c >> 6) & 63)); put(o, 1, 0x80 | (c & 63)); } else { put(o, 1, 0xF0 | c >> 18); put(o, 1, 0x80 | ((c >> 12) & 63)); put(o, 1, 0x80 | ((c >> 6) & 63)); put(o, 1, 0x80 | (c & 63)); } }
  else if (enc == 2) { if (c < 0x10000) put(o, 2, c); else { c -= 0x10000; put(o, 2, 0xD800 | c >> 10); put(o, 2, 0xDC00 | (c & 1023)); } }
  else put(o, 3, c);
}
static uint32_t some_char(Rng& g) {
  switch (g.below(8)) {
    case 0: { static const uint32_t e[] = {0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0xFFFD, 0xFEFF, 0xFF, 0x100, 0xFFFE, 0x1FFFF, 0xFFFFF, 0x100000}; return e[g.below(17)]; }
    case 1: return g.below(0x80) + (g.chance(50) ? 1 : 0); case 2: return 0x80 + g.below(0x780); case 3: return 0x800 + g.below(0xD000); case 4: return 0xE000 + g.below(0x2000);
    case 5: return 0x10000 + g.below(0x100000); case 6: return 'a' + g.below(26); default: return 0xC0 + g.below(64);
  }
}
static std::vector<uint8_t> some_text(Rng& g, int enc, int max, int bad) {
  std::vector<uint8_t> o; int n = int(g.below(unsigned(max) + 1));
  for (int i = 0; i < n; i++) {
    if (!g.chance(unsigned(bad))) { enc_char(o, enc, some_char(g)); continue; }
    std::vector<uint8_t> q; enc_char(q, enc, some_char(g));
    switch (g.below(6)) {
      case 0: q.resize(size_t(usz[enc]) * g.below(unsigned(q.size()) / usz[enc] + 1)); break;                       // cut
      case 1: q[g.below(unsigned(q.size()))] = uint8_t(g.next()); break;
      case 2: { static const int e[] = {0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF, 0xA0, 0x90, 0x8F, 0x9F}; if (enc == 1) { q.clear(); for (int k = int(g.below(4)); k >= 0; k--) put(q, 1, e[g.below(18)]); } else if (enc == 2) { q.clear(); put(q, 2, 0xD800 + g.below(0x800)); } else if (enc == 3) { q.clear(); static const uint32_t z[] = {0x110000, 0xD800, 0xDFFF, 0xDBFF, 0xDC00, 0xFFFFFFFF, 0x80000000, 0x200000, 0x10FFFF}; put(q, 3, z[g.below(9)]); } break; }
      case 3: q.clear(); enc_char(q, enc, 0xD800 + g.below(0x800)); break;                                          // a surrogate encoded as if it was a character
      case 4: if (enc == 1) { q.clear(); int n = 2 + int(g.below(3)); uint32_t lim = n == 2 ? 0x80u : n == 3 ? 0x800u : 0x10000u, w = g.below(10), c = w < 4 ? lim - 1 - g.below(64) : w < 8 ? lim - 1 - g.below(1u << (1 + g.below(n == 2 ? 7 : n == 3 ? 11 : 16))) : w < 9 ? g.below(lim) : lim + g.below(64); if (n == 4 && g.chance(20)) c = 0x10FFFF + 1 + g.below(1u << (1 + g.below(19)));
        put(q, 1, (n == 2 ? 0xC0u : n == 3 ? 0xE0u : 0xF0u) | (c >> (6 * (n - 1)))); for (int i = n - 2; i >= 0; i--) put(q, 1, 0x80 | ((c >> (6 * i)) & 63)); } break; // overlong
      default: if (enc == 1) { q.clear(); put(q, 1, 0xF4); put(q, 1, 0x80 | g.below(64)); put(q, 1, 0x80 | g.below(64)); put(q, 1, 0x80 | g.below(64)); } break;
    }
    o.insert(o.end(), q.begin(), q.end());
  }
  if (g.chance(15) && !o.empty()) o.resize(o.size() - std::min<size_t>(o.size(), size_t(usz[enc]) * (1 + g.below(3))));
  return o;
}
static int code(BLResult r) { return r == BL_SUCCESS ? 0 : r == BL_ERROR_INVALID_STRING ? 1 : r == BL_ERROR_DATA_TRUNCATED ? 2 : r == BL_ERROR_NO_SPACE_LEFT ? 3 : r == BL_ERROR_INVALID_VALUE ? 4 : 100 + int(r & 0xFFF); }
static void buffer(J& j, const BLGlyphBuffer& b) {
  J c = J::arr(), x = J::arr(); bool more = b.is_empty() != (b.size() == 0) || b.glyph_run().size != b.size();
  for (size_t i = 0; i < b.size(); i++) { c.addi(b.content()[i]); x.addi(b.info_data()[i].cluster); if (b.info_data()[i].reserved) more = true; }
  j.raw("c", c.done()).raw("x", x.done()).i("bad", (b.flags() & BL_GLYPH_RUN_FLAG_INVALID_TEXT) != 0).i("ucs", (b.flags() & BL_GLYPH_RUN_FLAG_UCS4_CONTENT) != 0).i("more", more || (b.flags() & ~uint32_t(BL_GLYPH_RUN_FLAG_INVALID_TEXT | BL_GLYPH_RUN_FLAG_UCS4_CONTENT)) != 0);
}
int main(int argc, char** argv) {
  Args a(argc, argv); TraceFile tf(a.out);
  for (int n = 0; n < a.n; n++) {
    Rng g(a.seed * 7919 + n); BLGlyphBuffer gb; tf.begin();
    for (int e = 0; e < a.len; e++) {
      J j = J::obj(); int enc = int(g.below(4)), bad = g.pick({0, 0, 5, 30, 80}), max = g.pick({3, 8, 24, 24, 200}); if (max == 200 && !g.chance(20)) max = 40;
      switch (g.below(8)) {
        case 0: case 1: case 2: {
          std::vector<uint8_t> s = some_text(g, enc, max, bad); size_t cnt = s.size() / usz[enc]; bool zt = g.chance(30);
          // exact allocations so that reading past the end is seen by the address sanitizer
          std::vector<uint8_t> m(s); if (zt) for (int i = 0; i < usz[enc]; i++) m.push_back(0); m.shrink_to_fit(); uint8_t* p = (uint8_t*)malloc(m.size() + 1); memcpy(p, m.data(), m.size());
          size_t size = zt ? SIZE_MAX : cnt; BLResult r;
          where("text enc " + std::to_string(enc) + units(p, cnt, enc));
          if (g.chance(30)) { gb.reset(); }
          switch (enc) { case 0: r = gb.set_latin1_text((const char*)p, size); break; case 1: r = g.chance(50) ? gb.set_utf8_text((const char*)p, size) : gb.set_utf8_text(p, size); break; case 2: r = gb.set_utf16_text((const uint16_t*)p, size); break; default: r = g.chance(70) ? gb.set_utf32_text((const uint32_t*)p, size) : gb.set_wchar_text((const wchar_t*)p, size); break; }
          j.str("op", "text").i("enc", enc).i("zt", zt).raw("u", units(p, cnt, enc)).i("rc", code(r)); memset(p, 0xAA, m.size()); free(p); buffer(j, gb); break; }
        case 3: {
          int cnt = int(g.below(unsigned(max) + 1)), sz = g.chance(50) ? 4 : 2; if (g.chance(5)) { gb.reset(); cnt = 64 * (1 + int(g.below(8))) + g.pick({-1, 0, 0, 1}); } std::vector<uint32_t> ids(size_t(cnt) + 1); for (auto& v : ids) v = g.chance(50) ? g.below(0x10000) : g.below(300); BLResult r;
          if (sz == 4 && g.chance(50)) r = gb.set_glyphs(ids.data(), size_t(cnt));
          else { int stride = g.chance(30) ? -int(sz) : g.pick({sz, sz * 2, 12, 7}); size_t base = stride < 0 ? size_t(cnt) * size_t(-stride) : 0; std::vector<uint8_t> m(size_t(std::abs(stride)) * size_t(cnt + 1) + 16, 0xEE); for (int i = 0; i < cnt; i++) memcpy(m.data() + intptr_t(base) + intptr_t(i) * stride, &ids[size_t(i)], size_t(sz)); r = gb.set_glyphs_from_struct(m.data() + base, size_t(cnt), size_t(sz), stride); }
          j.str("op", "ids").i("rc", code(r)); J gi = J::arr(); for (int i = 0; i < cnt; i++) gi.addi(ids[size_t(i)]); j.raw("g", gi.done()); buffer(j, gb); break; }
        case 4: case 5: {
          std::vector<uint8_t> s = some_text(g, enc, max, bad); size_t cnt = s.size() / usz[enc]; int trail = 0; if (usz[enc] > 1 && g.chance(15)) { trail = 1 + int(g.below(unsigned(usz[enc]) - 1)); for (int i = 0; i < trail; i++) s.push_back(uint8_t(g.next())); }
          bl::Unicode::ValidationState st; uint8_t* q = (uint8_t*)malloc(s.size() + 2); uint8_t* p = q + (g.chance(30) ? 1 : 0); memcpy(p, s.data(), s.size());
          where("val enc " + std::to_string(enc) + units(p, cnt, enc));
          BLResult r = bl::Unicode::bl_validate_unicode(p, s.size(), BLTextEncoding(te[enc]), st);
          j.str("op", "val").i("enc", enc).raw("u", units(p, cnt, enc)).i("trail", trail).i("rc", code(r)).ints("n", std::vector<size_t>{st.utf8_index, st.utf16_index, st.utf32_index}); free(q); break; }
        default: {
          int denc = int(g.below(4)); std::vector<uint8_t> s = some_text(g, enc, max, bad); size_t cnt = s.size() / usz[enc]; int trail = 0; if (usz[enc] > 1 && g.chance(15)) { trail = 1 + int(g.below(unsigned(usz[enc]) - 1)); for (int i = 0; i < trail; i++) s.push_back(uint8_t(g.next())); }
          uint8_t* q = (uint8_t*)malloc(s.size() + 2); uint8_t* p = q + (g.chance(30) ? 1 : 0); memcpy(p, s.data(), s.size());
          size_t cap = g.chance(50) ? cnt * 4 + 4 : g.below(unsigned(cnt) * 2 + 2); size_t dcap = cap * usz[denc] + (g.chance(30) ? g.below(unsigned(usz[denc])) : 0); int mis = g.chance(30) ? 1 : 0;
          std::vector<uint8_t> d(dcap + 32 + mis, 0xCD); bl::Unicode::ConversionState st;
          where("conv enc " + std::to_string(enc) + "->" + std::to_string(denc) + " cap " + std::to_string(dcap) + units(p, cnt, enc));
          BLResult r = bl::Unicode::convert_unicode(d.data() + 8 + mis, dcap, te[denc], p, s.size(), te[enc], st);
          bool guard = st.dst_index <= dcap && st.dst_index % usz[denc] == 0 && st.src_index % usz[enc] == 0; for (int i = 0; i < 8 + mis; i++) guard &= d[size_t(i)] == 0xCD; for (size_t i = 8 + mis + dcap; i < d.size(); i++) guard &= d[i] == 0xCD;
          if (st.dst_index > dcap) st.dst_index = 0;
          j.str("op", "conv").i("enc", enc).i("denc", denc).i("cap", (long long)cap).raw("u", units(p, cnt, enc)).i("trail", trail).i("rc", code(r)).i("si", (long long)(st.src_index / usz[enc])).raw("out", units(d.data() + 8 + mis, st.dst_index / usz[denc], denc)).i("guard", guard); free(q); break; }
      }
      tf.ev(j.done());
    }
    tf.end();
  }
}
