// C15: composition operators.  Every event draws one source over random pixels with one operator and records every pixel
// of the destination before and after, the premultiplied source that covers it and the mask (0 outside the drawn area).
#include <initializer_list>
#include <blend2d/blend2d.h>
#include "vh.h"
using namespace vh;
static uint32_t premul(Rng& g) {
  uint32_t a = g.chance(25) ? 0 : g.chance(33) ? 255 : g.below(256), c[3]; int st = g.below(4);
  for (auto& x : c) x = st == 0 ? a : st == 1 ? 0 : g.below(a + 1);
  return a << 24 | c[0] << 16 | c[1] << 8 | c[2];
}
static uint32_t load(uint32_t f, const uint8_t* p, int x) {
  if (f == BL_FORMAT_A8) return p[x] * 0x01010101u;
  uint32_t v; memcpy(&v, p + x * 4, 4); return f == BL_FORMAT_XRGB32 ? v | 0xFF000000u : v;
}
static void noise(Rng& g, BLImage& im, int fixed = -1) {
  BLImageData d; if (im.make_mutable(&d) != BL_SUCCESS) abort();
  uint32_t one = premul(g);
  for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) {
    uint8_t* p = (uint8_t*)d.pixel_data + y * d.stride; uint32_t v = g.chance(15) || fixed < 0 ? premul(g) : one;
    if (d.format == BL_FORMAT_A8) p[x] = uint8_t(v >> 24);
    else { if (d.format == BL_FORMAT_XRGB32) v = g.next() & 0xFFFFFF; if (d.format == BL_FORMAT_XRGB32 && g.chance(50)) v |= uint32_t(g.below(256)) << 24; memcpy(p + x * 4, &v, 4); } }
}
static std::vector<uint32_t> pixels(const BLImage& im) {
  BLImageData d; im.get_data(&d); std::vector<uint32_t> r;
  for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) r.push_back(load(d.format, (const uint8_t*)d.pixel_data + y * d.stride, x));
  return r;
}
static void add(J& j, uint32_t v) { j.addi(v >> 24).addi((v >> 16) & 255).addi((v >> 8) & 255).addi(v & 255); }
int main(int argc, char** argv) {
  Args a(argc, argv); TraceFile tf(a.out); install_crash_handler();
  for (int t = 0; t < a.n; t++) {
    Rng g(a.seed * 1000003u + uint32_t(t)); tf.begin();
    for (int k = 0; k < a.len; k++) {
      uint32_t op = g.below(29), df = uint32_t(g.pick({1, 1, 2, 2, 3})), w = 1 + g.below(g.chance(30) ? 40 : 12), h = 1 + g.below(w > 12 ? 1 : 3);
      if (g.chance(20)) op = g.below(2);
      BLImage dst{int(w), int(h), BLFormat(df)}, src, msk; noise(g, dst, g.chance(50) ? 1 : -1);
      uint32_t kind = g.below(6), draw = g.below(4), sf = uint32_t(g.pick({1, 1, 2, 3})); // kind: 0..2 solid, 3 gradient, 4..5 image
      if (draw == 2) kind = 4;
      std::vector<uint32_t> sp(w * h), pre = pixels(dst); std::vector<int> m(w * h, 0); int ga = g.chance(50) ? 255 : g.chance(15) ? 0 : int(g.below(256)), sa = g.chance(70) ? 255 : g.chance(15) ? 0 : int(g.below(256));
      if (draw == 2) sa = 255;
      BLContext c(dst); c.set_comp_op(BLCompOp(op)); c.set_global_alpha(ga / 255.0); c.set_fill_alpha(sa / 255.0);
      int alpha = int((ga * sa + 127) / 255); int rough = (ga != 255) || (sa != 255);
      if (kind <= 3) {
        uint32_t q = g.chance(25) ? 0u : g.chance(40) ? 255u : g.below(256), v = q << 24 | (g.next() & 0xFFFFFF); if (g.chance(30)) v &= 0xFF000000u; if (g.chance(20)) v |= 0xFFFFFF;
        if (kind == 3) { BLGradient gr(BLLinearGradientValues(0, 0, double(w), 0)); gr.add_stop(0, BLRgba32(v)); gr.add_stop(1, BLRgba32(v)); c.set_fill_style(gr); }
        else if (kind == 2) { BLRgba64 x; x.reset(BLRgba32(v)); c.set_fill_style(x); }
        else c.set_fill_style(BLRgba32(v));
        uint32_t r = q << 24; for (int s = 0; s < 24; s += 8) { uint32_t x = ((v >> s) & 255) * q; r |= ((x + 127) / 255) << s; }
        for (auto& x : sp) x = r;
        if (q != 255) rough = 1;
      } else {
        if (src.create(int(w), int(h), BLFormat(sf)) != BL_SUCCESS) abort(); noise(g, src, g.chance(30) ? 1 : -1); sp = pixels(src);
        if (draw != 2) { BLPattern p(src, BL_EXTEND_MODE_REPEAT); c.set_fill_style(p); }
      }
      BLResult rc; int x0 = 0, y0 = 0, x1 = int(w), y1 = int(h);
      if (draw == 1 || draw == 2) { x0 = int(g.below(w)); x1 = x0 + 1 + int(g.below(w - uint32_t(x0))); y0 = int(g.below(h)); y1 = y0 + 1 + int(g.below(h - uint32_t(y0))); if (g.chance(30)) { x0 = y0 = 0; x1 = int(w); y1 = int(h); } }
      for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) m[size_t(y) * w + size_t(x)] = alpha;
      if (draw == 0) rc = c.fill_all();
      else if (draw == 1) rc = c.fill_rect(BLRectI(x0, y0, x1 - x0, y1 - y0));
      else if (draw == 2) rc = c.blit_image(BLPointI(x0, y0), src, BLRectI(x0, y0, x1 - x0, y1 - y0));
      else {
        if (msk.create(int(w), int(h), BL_FORMAT_A8) != BL_SUCCESS) abort(); noise(g, msk); auto mp = pixels(msk);
        for (size_t i = 0; i < m.size(); i++) m[i] = int((uint32_t(alpha) * (mp[i] & 255) + 127) / 255);
        rough = 1; rc = c.fill_mask(BLPointI(0, 0), msk);
      }
      BLResult er = c.end(); auto post = pixels(dst);
      J px = J::arr(); for (size_t i = 0; i < m.size(); i++) { J q = J::arr(); add(q, pre[i]); add(q, sp[i]); add(q, post[i]); q.addi(m[i]); px.add(q.done()); }
      tf.ev(J::obj().i("op", op).i("df", df).i("kind", kind).i("sf", kind > 3 ? sf : 0).i("draw", draw).i("rough", rough).i("rc", rc).i("erc", er).raw("px", px.done()).done());
    }
    tf.end();
  }
  return 0;
}
