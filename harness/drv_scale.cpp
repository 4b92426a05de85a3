// C33: image scaling.  Sources are library images, shared images, parts of larger user memory (any stride, also negative); the
// destination is another image, the source itself or an image that shares the source's pixels.
#include <initializer_list>
#include <blend2d/blend2d.h>
#include "vh.h"
using namespace vh;
static std::string rows(const BLImage& im) {
  BLImageData d; im.get_data(&d); J r = J::arr();
  for (int y = 0; y < d.size.h; y++) { J row = J::arr(); for (int x = 0; x < d.size.w; x++) { const uint8_t* p = (const uint8_t*)d.pixel_data + y * d.stride; J q = J::arr();
    if (d.format == BL_FORMAT_A8) q.addi(p[x]); else { uint32_t v; memcpy(&v, p + x * 4, 4); if (d.format == BL_FORMAT_XRGB32) v |= 0xFF000000u; q.addi(v >> 24).addi((v >> 16) & 255).addi((v >> 8) & 255).addi(v & 255); } row.add(q.done()); } r.add(row.done()); }
  return r.done();
}
static void paint(Rng& g, BLImage& im) {
  BLImageData d; if (im.make_mutable(&d) != BL_SUCCESS) abort(); int style = int(g.below(6)); uint32_t base = uint32_t(g.next()) | 0x80000000u, span = 1 + g.below(style == 1 ? 12 : 60); int sx = int(g.below(5)), sy = int(g.below(5));
  for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) { uint32_t c[4];
    for (int i = 0; i < 4; i++) { uint32_t b = (base >> (8 * i)) & 255; c[i] = style == 0 ? b : style == 1 ? std::min(255u, b + g.below(span)) : style == 2 ? std::min(255u, uint32_t(x * sx + y * sy + int(b) / 4)) : style == 3 ? (((x + y) & 1) ? 255u : 0u) : style == 4 ? g.below(256) : ((x == d.size.w / 2) != (y == d.size.h / 2) ? 255u : uint32_t(10 * i)); }
    uint8_t* p = (uint8_t*)d.pixel_data + y * d.stride; uint32_t a = c[3];
    if (d.format == BL_FORMAT_A8) p[x] = uint8_t(a); else { if (d.format == BL_FORMAT_PRGB32) for (int i = 0; i < 3; i++) c[i] = std::min(c[i], a); uint32_t v = a << 24 | c[2] << 16 | c[1] << 8 | c[0]; memcpy(p + x * 4, &v, 4); } }
}
int main(int argc, char** argv) {
  Args a(argc, argv); TraceFile tf(a.out); install_crash_handler(); uint32_t big = a.extra ? uint32_t(a.extra) : 7;
  for (int n = 0; n < a.n; n++) {
    Rng g(a.seed * 7919 + uint64_t(n)); tf.begin();
    for (int e = 0; e < a.len; e++) {
      where("trace " + std::to_string(n + 1) + " event " + std::to_string(e + 1));
      uint32_t f = uint32_t(g.pick({1, 1, 2, 3, 3})); int w = 1 + int(g.below(g.chance(20) ? 2 * big : big)), h = 1 + int(g.below(big)), bpp = f == 3 ? 1 : 4; if (g.chance(10)) w = 1 + int(g.below(2));
      std::vector<uint8_t> mem; BLImage src; bool user = g.chance(30);
      if (user) { intptr_t stride = w * bpp + (g.chance(50) ? int(g.below(9)) * (bpp == 4 ? 4 : 1) : 0); mem.assign(size_t(stride) * size_t(h) + 64, 0x5A); bool neg = g.chance(40); uint8_t* p = mem.data() + 16 + (bpp == 1 ? g.below(4) : 0) + (neg ? stride * (h - 1) : 0); if (src.create_from_data(w, h, BLFormat(f), p, neg ? -stride : stride) != BL_SUCCESS) abort(); }
      else if (src.create(w, h, BLFormat(f)) != BL_SUCCESS) abort();
      paint(g, src); std::vector<uint8_t> memWas = mem; std::string before = rows(src);
      if (g.chance(3)) src.reset(); bool empty = src.is_empty();
      int tw = 1 + int(g.below(g.chance(30) ? 2 * big : big)), th = 1 + int(g.below(big)); if (g.chance(15)) tw = w; if (g.chance(15)) th = h; if (g.chance(10)) tw = 1 + int(g.below(4)); if (g.chance(4)) tw = g.pick({0, -1, 70000}); if (g.chance(4)) th = g.pick({0, -5, 70000});
      uint32_t flt = g.chance(4) ? uint32_t(g.pick({0, 5, 77})) : 1 + g.below(4); int alias = int(g.below(4)); // 0: other image, 1: empty image, 2: the source itself, 3: sharing the source's pixels
      BLImage other; if (alias == 0) { int ow = g.chance(50) ? tw : 1 + int(g.below(9)), oh = g.chance(50) ? th : 3; if (ow < 1 || ow > 60) ow = 2; if (oh < 1 || oh > 60) oh = 2; other.create(ow, oh, g.chance(60) ? BLFormat(f) : BLFormat(1 + g.below(3))); paint(g, other); } else if (alias == 3) other = src;
      BLImage& dst = alias == 2 ? src : other; BLImage keep = g.chance(30) ? src : BLImage(); bool kept0 = keep.is_empty(); std::string dwas = rows(dst); BLSizeI ds = dst.size(); uint32_t df = dst.format();
      BLResult rc = BLImage::scale(dst, src, BLSizeI(tw, th), BLImageScaleFilter(flt));
      bool same = alias == 2 || empty || rows(src) == before; if (!kept0 && rows(keep) != before) same = false; if (mem != memWas) same = false; if (alias == 2 && user && mem != memWas) same = false;
      bool unch = dst.size() == ds && uint32_t(dst.format()) == df && rows(dst) == dwas;
      bool huge = tw > 65535 || th > 65535; if (rc != BL_SUCCESS || empty) tf.ev(J::obj().str("op", "none").i("rc", rc).b("empty", empty).b("none", dst.is_empty()).b("unch", unch).b("same", same).i("tw", tw).i("th", th).i("flt", flt).b("huge", huge).done());
      else tf.ev(J::obj().str("op", "scale").i("rc", rc).i("f", f).i("df", dst.format()).i("w", w).i("h", h).i("tw", tw).i("th", th).i("dw", dst.width()).i("dh", dst.height()).i("flt", flt).b("same", same).raw("s", before).raw("d", dst.width() <= 60 && dst.height() <= 60 ? rows(dst) : "[]").done());
    }
    tf.end();
  }
  return 0;
}
