// C13-C16: histories of pixel-aligned drawing on small canvases; the pixels are read back and compared with the specification.
#include "vh.h"
#include "dbgmalloc.h"
#include "anydraw.h"
#include <math.h>
using namespace vh;
typedef std::vector<long> L;
static const long HUGE_C = 1000000;
static long cl(int64_t v) { return v < -HUGE_C ? -HUGE_C : v > HUGE_C ? HUGE_C : long(v); }
// An image over memory of our own, with guard bytes around every row.
struct Canvas {
  uint32_t f = 0; int w = 0, h = 0; size_t stride = 0; int gl = 0; bool flip = false; std::vector<uint8_t> mem; BLImage im;
  int bpp() const { return f == BL_FORMAT_A8 ? 1 : 4; }
  uint8_t* row(int y) { return mem.data() + stride * size_t(2 + (flip ? h - 1 - y : y)) + gl; }
  void make(Rng& g, uint32_t f_, int w_, int h_) {
    f = f_; w = w_; h = h_; gl = bpp() == 1 ? int(g.below(16)) : 4 * int(g.below(4)); stride = size_t(w * bpp() + gl + (bpp() == 1 ? g.below(9) : 4 * g.below(4))); flip = false; mem.assign(stride * size_t(h + 4), 0xA5);
    im.reset(); im.create_from_data(w, h, BLFormat(f), row(0), intptr_t(stride), BL_DATA_ACCESS_RW);
  }
  long guard() { long n = 0; for (size_t i = 0; i < mem.size(); i++) { size_t y = i / stride, x = i % stride; bool in = y >= 2 && y < size_t(h + 2) && x >= size_t(gl) && x < size_t(gl + w * bpp()); if (!in && mem[i] != 0xA5) n++; } return n; }
};
static long get(uint32_t f, const uint8_t* p, int x) { if (f == BL_FORMAT_A8) return p[x]; uint32_t v; memcpy(&v, p + x * 4, 4); if (f == BL_FORMAT_XRGB32) v |= 0xFF000000u; return long(int32_t(v)); }
static void put(uint32_t f, uint8_t* p, int x, uint32_t v) { if (f == BL_FORMAT_A8) p[x] = uint8_t(v >> 24); else memcpy(p + x * 4, &v, 4); }
static uint32_t rnd_px(Rng& g, uint32_t f, int kind) {
  uint32_t a = kind == 0 ? 255 : kind == 1 ? 0 : kind == 2 ? (g.chance(50) ? 255 : 0) : g.below(256);
  if (f == BL_FORMAT_XRGB32) a = 255;
  uint32_t c[3]; for (uint32_t& v : c) { v = g.chance(20) ? (g.chance(50) ? 255 : 0) : g.below(256); v = v * a / 255; }
  uint32_t x = f == BL_FORMAT_XRGB32 ? g.below(256) : a; // the unused byte is arbitrary
  return x << 24 | c[0] << 16 | c[1] << 8 | c[2];
}
struct Src { BLImage im; int w = 0, h = 0; uint32_t f = 0; L px; };
static void paint(Rng& g, uint32_t f, int w, int h, uint8_t* p0, intptr_t stride, L& px) {
  px.clear(); int kind = g.below(6); uint32_t flat = rnd_px(g, f, kind); bool isflat = g.chance(15);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = isflat ? flat : rnd_px(g, f, kind); put(f, p0 + y * stride, x, v); px.push_back(get(f, p0 + y * stride, x)); }
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init();
  bool M13 = a.mode == "clip", M15 = a.mode == "comp", M16 = a.mode == "mt";
  for (int t = 0; t < a.n; t++) {
    tf.begin();
    uint32_t f = g.pick({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); int w, h;
    if (M16) { w = 1 + g.below(16); h = 1 + g.below(40); } else if (g.chance(15)) { w = 40 + g.below(60); h = 1 + g.below(3); } else { w = 1 + g.below(20); h = 1 + g.below(8); }
    Canvas cv; cv.make(g, f, w, h); L px0; paint(g, f, w, h, cv.row(0), intptr_t(cv.stride), px0);
    BLContextCreateInfo ci{}; ci.thread_count = M16 ? 1 + g.below(4) : g.chance(15) ? 1 + g.below(3) : 0;
    BLContext c; BLResult br = c.begin(cv.im, ci);
    { J j = J::obj(); j.str("op", "new").i("f", f).i("w", w).i("h", h).i("thr", ci.thread_count).ints("px", px0).b("ok", br == BL_SUCCESS); tf.ev(j.done()); }
    Src src[3];
    auto setimg = [&](int k) {
      Src& s = src[k]; uint32_t nf = g.pick({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); if (k == 2) nf = BL_FORMAT_A8;
      bool keep = s.w && g.chance(50); BLResult r = 0;
      if (!keep) { int sw = 1 + g.below(g.chance(20) ? 30 : 8), sh = 1 + g.below(7); if (g.chance(10)) { sw = 8; sh = 8; } s.im = BLImage(); r = s.im.create(sw, sh, BLFormat(nf)); s.w = sw; s.h = sh; s.f = nf; }
      BLImageData d; if (!r) r = s.im.make_mutable(&d); if (!r) paint(g, s.f, s.w, s.h, (uint8_t*)d.pixel_data, d.stride, s.px);
      J j = J::obj(); j.str("op", "img").i("k", k + 1).i("f", s.f).i("w", s.w).i("h", s.h).ints("px", s.px).b("ok", r == BL_SUCCESS); tf.ev(j.done());
    };
    for (int k = 0; k < 3; k++) setimg(k);
    auto rect_in = [&](int W, int H) { int x = g.range(-2, W), y = g.range(-2, H), rw = g.chance(30) ? W + 4 : g.range(0, W + 2), rh = g.chance(30) ? H + 4 : g.range(0, H + 2); return BLRectI(x, y, rw, rh); };
    // a user rectangle that maps near the canvas
    auto user = [&](double dx, double dy) { BLMatrix2D m = c.final_transform(), inv; BLPoint p(dx, dy); if (BLMatrix2D::invert(inv, m) == BL_SUCCESS) p = inv.map_point(p); return BLPointI(int(floor(p.x)), int(floor(p.y))); };
    auto user_rect = [&]() { BLRectI r = rect_in(w, h); BLPointI p = user(r.x, r.y), q = user(r.x + r.w, r.y + r.h); if (g.chance(6)) { p = BLPointI(g.pick({INT32_MIN, INT32_MIN + 3, -1000000000, -70000}), g.pick({INT32_MIN, -2, -1000000})); q = g.chance(50) ? BLPointI(INT32_MAX - 1, 1000000000) : BLPointI(0, 0); }
      int64_t x0 = std::min(p.x, q.x), x1 = std::max(p.x, q.x), y0 = std::min(p.y, q.y), y1 = std::max(p.y, q.y); x1 = std::min<int64_t>(x1, x0 + INT32_MAX); y1 = std::min<int64_t>(y1, y0 + INT32_MAX); if (g.chance(2)) { x1 = x0 - g.below(3); } return BLRectI(int(x0), int(y0), int(x1 - x0), int(y1 - y0)); };
    auto shp = [&](const BLRectI& r, int d) { return L{cl(r.x), cl(r.y), cl(int64_t(r.x) + r.w), cl(int64_t(r.y) + r.h), d}; };
    auto pos = [](const BLRectI& r) { return r.w > 0 && r.h > 0; };
    auto shapes_json = [&](const std::vector<L>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += '['; for (size_t k = 0; k < v[i].size(); k++) { if (k) s += ','; s += std::to_string(v[i][k]); } s += ']'; } return s + "]"; };
    auto matj = [&](const BLMatrix2D& m) { return L{long(m.m00), long(m.m01), long(m.m10), long(m.m11), long(m.m20), long(m.m21)}; };
    bool nearest = false;
    auto rnd_mat = [&](bool big) { BLMatrix2D m; int kind = g.below(10); int tx = g.range(-8, 12), ty = g.range(-6, 8); if (!big || kind < 6) m = BLMatrix2D(1, 0, 0, 1, tx, ty); else { double s = g.pick({1, 1, 2, 3}), u = g.pick({1, 1, 2}); if (g.chance(40)) s = -s; if (g.chance(40)) u = -u; if (g.chance(50)) m = BLMatrix2D(s, 0, 0, u, tx, ty); else m = BLMatrix2D(0, s, u, 0, tx, ty); } return m; };
    struct St { BLVar v; std::string js; };
    auto rnd_style = [&](bool explicit_) { St s; int kind = M15 ? g.below(9) : g.below(10);
      if (kind == 0 && !explicit_) { s.v = BLVar(); s.js = "{\"t\":0}"; }
      else if (kind < 6) { uint32_t A = g.chance(35) ? 255 : g.chance(10) ? 0 : g.below(256), R = g.below(256), G = g.below(256), B = g.chance(30) ? 255 : g.below(256); s.v = BLRgba32(R, G, B, A); J j = J::obj(); j.i("t", 1).ints("c", L{long(A), long(R), long(G), long(B)}); s.js = j.done(); }
      else { int k = g.below(2); Src& q = src[k]; BLRectI ar(0, 0, q.w, q.h); if (g.chance(40)) { ar.x = g.below(q.w); ar.y = g.below(q.h); ar.w = 1 + g.below(q.w - ar.x); ar.h = 1 + g.below(q.h - ar.y); } int ext = g.below(9); BLMatrix2D m = g.chance(30) ? BLMatrix2D::make_identity() : rnd_mat(nearest && g.chance(60)); BLPattern p; p.create(q.im, ar, BLExtendMode(ext), m);
        s.v = p; J j = J::obj(); j.i("t", 2).i("k", k + 1).ints("area", L{ar.x, ar.y, ar.w, ar.h}).i("ext", ext).ints("m", matj(m)); s.js = j.done(); }
      return s; };
    int ops = a.len / 2 + g.below(a.len), pending = 0; int copy_bias = g.below(3);
    auto emit = [&](J& j, BLResult r) { j.b("ok", r == BL_SUCCESS); tf.ev(j.done()); };
    auto dump = [&](const char* nm) { c.flush(BL_CONTEXT_FLUSH_SYNC); L px; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) px.push_back(get(f, cv.row(y), x)); J j = J::obj(); j.str("op", nm).ints("px", px).i("guard", cv.guard()); return j; };
    int saves = 0;
    for (int e = 0; e < ops; e++) {
      where("trace " + std::to_string(t + 1) + " step " + std::to_string(e)); J j = J::obj(); BLResult r = 0;
      int k = g.below(100);
      if (M13 && g.chance(25)) k = 27 + g.below(5); else if (M15 && g.chance(20)) k = g.below(8);
      if (k < 5) { int v = g.chance(M15 ? 45 : 12) ? g.below(29) : g.chance(25) ? 11 : (copy_bias == 0 || g.chance(30)) ? 1 : 0; j.str("op", "comp").i("v", v); r = c.set_comp_op(BLCompOp(v)); emit(j, r); }
      else if (k < 8) { int v = g.chance(35) ? 255 : g.chance(10) ? 0 : g.below(256); bool ga = g.chance(50); j.str("op", ga ? "ga" : "fa").i("v", v); r = ga ? c.set_global_alpha(v / 255.0) : c.set_fill_alpha(v / 255.0); emit(j, r); }
      else if (k < 10) { int v = g.below(2); j.str("op", "rule").i("v", v); r = c.set_fill_rule(BLFillRule(v)); emit(j, r); }
      else if (k < 17) { St s = rnd_style(false); j.str("op", "style").raw("s", s.js); int mode = g.below(5); if (mode > 2) mode = 0; j.i("mode", mode); r = mode ? c.set_fill_style(s.v, BLContextStyleTransformMode(mode)) : c.set_fill_style(s.v); emit(j, r); }
      else if (k < 22) { bool rst = g.chance(25); BLMatrix2D m = rst ? BLMatrix2D() : rnd_mat(g.chance(40)); if (rst) { j.str("op", "rmat"); r = c.reset_transform(); } else { if (fabs(c.final_transform().m20) > 4000 || fabs(c.final_transform().m21) > 4000 || fabs(c.final_transform().m00 + c.final_transform().m01) > 6 || fabs(c.final_transform().m11 + c.final_transform().m10) > 6) { c.reset_transform(); J q = J::obj(); q.str("op", "rmat"); emit(q, 0); }
          j.str("op", "mat").ints("m", matj(m)); r = c.apply_transform(m); } emit(j, r); }
      else if (k < 23) { j.str("op", "tometa"); r = c.user_to_meta(); emit(j, r); }
      else if (k < 25) { nearest = g.chance(70); j.str("op", "quality").b("v", nearest); r = c.set_pattern_quality(nearest ? BL_PATTERN_QUALITY_NEAREST : BL_PATTERN_QUALITY_BILINEAR); emit(j, r); }
      else if (k < 30) { BLRectI q = user_rect(); if (!pos(q) && g.chance(70)) { q.w = 1 + g.below(9); q.h = 1 + g.below(5); } bool dbl = g.chance(40) && pos(q); j.str("op", "clip").ints("v", shp(q, 1)); r = dbl ? c.clip_to_rect(BLRect(q.x, q.y, q.w, q.h)) : c.clip_to_rect(q); emit(j, r); }
      else if (k < 32) { j.str("op", "unclip"); r = c.restore_clipping(); emit(j, r); }
      else if (k < 34) { if (saves < 8) { j.str("op", "save"); r = c.save(); saves++; emit(j, r); } }
      else if (k < 36) { j.str("op", "restore"); r = c.restore(); if (!r) saves--; emit(j, r); }
      else if (k < 40) setimg(g.below(3));
      else if (k < 70 || (k < 72 && !M13)) { // fills
        std::vector<L> sh; bool ex = g.chance(30); St s; if (ex) s = rnd_style(true); else s.js = "{\"t\":9}";
        int how = g.below(10); const BLVar& v = s.v; bool rgba = ex && v.is_rgba32() && g.chance(50); BLRgba32 col = rgba ? v.as<BLRgba32>() : BLRgba32(0);
        #define DRAW(CALL, ...) (rgba ? c.CALL(__VA_ARGS__, col) : ex ? c.CALL(__VA_ARGS__, v) : c.CALL(__VA_ARGS__))
        BLRectI q = user_rect();
        if (how == 0) { sh = {{0, 0, 0, 0, 0}}; r = rgba ? c.fill_all(col) : ex ? c.fill_all(v) : c.fill_all(); }
        else if (how < 3) { sh = {shp(q, 1)}; r = DRAW(fill_rect, q); }
        else if (how == 3) { if (!pos(q)) q = BLRectI(0, 0, 0, 0); sh = {shp(q, 1)}; r = DRAW(fill_rect, BLRect(q.x, q.y, q.w, q.h)); }
        else if (how == 4) { BLBoxI b(q.x, q.y, q.x + std::max(0, std::min(q.w, 1000)), q.y + std::max(0, std::min(q.h, 1000))); sh = {{cl(b.x0), cl(b.y0), cl(b.x1), cl(b.y1), 1}}; r = g.chance(50) ? DRAW(fill_box, b) : DRAW(fill_box, BLBox(b.x0, b.y0, b.x1, b.y1)); }
        else if (how < 7) { int n = 1 + g.below(4); std::vector<BLRectI> ri; std::vector<BLRect> rd; std::vector<BLBoxI> bi; std::vector<BLBox> bd; bool sep = how == 6 && g.chance(30); (void)sep;
          for (int i = 0; i < n; i++) { q = user_rect(); if (!pos(q) || labs(q.x) > 60000 || labs(q.y) > 60000 || q.w > 100000 || q.h > 100000) continue; ri.push_back(q); rd.push_back(BLRect(q.x, q.y, q.w, q.h)); bi.push_back(BLBoxI(q.x, q.y, q.x + q.w, q.y + q.h)); bd.push_back(BLBox(q.x, q.y, q.x + q.w, q.y + q.h)); sh.push_back(shp(q, 1)); }
          int m = g.below(4); BLArrayView<BLRectI> vri{ri.data(), ri.size()}; BLArrayView<BLRect> vrd{rd.data(), rd.size()}; BLArrayView<BLBoxI> vbi{bi.data(), bi.size()}; BLArrayView<BLBox> vbd{bd.data(), bd.size()};
          r = m == 0 ? DRAW(fill_rect_array, vri) : m == 1 ? DRAW(fill_rect_array, vrd) : m == 2 ? DRAW(fill_box_array, vbi) : DRAW(fill_box_array, vbd); }
        else if (how == 7) { q = user_rect(); if (!pos(q) || labs(q.x) > 60000 || labs(q.y) > 60000 || q.w > 100000 || q.h > 100000) q = BLRectI(0, 0, 2, 2); BLPointI p[4] = {{q.x, q.y}, {q.x + q.w, q.y}, {q.x + q.w, q.y + q.h}, {q.x, q.y + q.h}}; int st = g.below(4); BLPointI p2[4]; BLPoint p3[4]; bool rev = g.chance(50); for (int i = 0; i < 4; i++) { p2[i] = p[(rev ? 7 - i + st : i + st) % 4]; p3[i] = BLPoint(p2[i].x, p2[i].y); } sh = {shp(q, 1)}; if (g.chance(50)) r = DRAW(fill_polygon, p2, size_t(4)); else r = DRAW(fill_polygon, p3, size_t(4)); }
        else { BLPath p; int n = 1 + g.below(4); for (int i = 0; i < n; i++) { q = user_rect(); if (!pos(q) || labs(q.x) > 60000 || labs(q.y) > 60000 || q.w > 100000 || q.h > 100000) continue; int d = g.below(2); p.add_rect(BLRect(q.x, q.y, q.w, q.h), d ? BL_GEOMETRY_DIRECTION_CCW : BL_GEOMETRY_DIRECTION_CW); sh.push_back(shp(q, d ? -1 : 1)); }
          if (g.chance(30)) { int ox = g.range(-5, 5), oy = g.range(-4, 4); for (auto& b : sh) { b[0] += ox; b[2] += ox; b[1] += oy; b[3] += oy; } r = DRAW(fill_path, BLPoint(ox, oy), p); } else r = g.chance(50) ? DRAW(fill_path, p) : DRAW(fill_geometry, BL_GEOMETRY_TYPE_PATH, (const void*)&p); }
        j.str("op", "fill").i("how", how).raw("sh", shapes_json(sh)).raw("s", s.js); emit(j, r); pending++;
      }
      else if (k < 74) { bool all = g.chance(30); BLRectI q = user_rect(); j.str("op", "clear"); if (all) { j.raw("sh", "[[0,0,0,0,0]]"); r = c.clear_all(); } else { j.raw("sh", shapes_json({shp(q, 1)})); r = !pos(q) || g.chance(50) ? c.clear_rect(q) : c.clear_rect(BLRect(q.x, q.y, q.w, q.h)); } emit(j, r); pending++; }
      else if (k < 90) { // blits and mask fills
        bool mask = k < 80; int s = mask ? 2 : g.below(3); Src& q = src[s]; bool has = g.chance(60); BLRectI ar(0, 0, q.w, q.h); if (has) { if (g.chance(85)) { ar.x = g.below(q.w); ar.y = g.below(q.h); ar.w = 1 + g.below(q.w - ar.x); ar.h = 1 + g.below(q.h - ar.y); } else { ar = BLRectI(g.range(-2, q.w), g.range(-2, q.h), g.range(0, q.w + 2), g.range(0, q.h + 2)); if (g.chance(20)) ar.w = INT32_MAX; if (g.chance(10)) ar.y = INT32_MIN; } }
        BLPointI o = user(g.range(-6, w), g.range(-4, h)); if (g.chance(3)) o.x = g.pick({INT32_MAX, INT32_MIN, INT32_MAX - 3, INT32_MAX - int(c.final_transform().m20)}); if (g.chance(3)) o.y = g.pick({INT32_MAX, INT32_MIN, INT32_MAX - 3, INT32_MAX - int(c.final_transform().m21)});
        bool ok_area = ar.x >= 0 && ar.y >= 0 && ar.w > 0 && ar.h > 0 && int64_t(ar.x) + ar.w <= q.w && int64_t(ar.y) + ar.h <= q.h; bool area_null = ar.w == 0 || ar.h == 0; (void)area_null;
        J b = J::obj(); b.str("op", mask ? "mask" : "blit").i("k", s + 1).ints("o", L{cl(o.x), cl(o.y)}).ints("area", L{cl(ar.x), cl(ar.y), cl(ar.w), cl(ar.h)}).b("valid", ok_area);
        if (mask) { bool ex = g.chance(30); St st; if (ex) st = rnd_style(true); else st.js = "{\"t\":9}"; b.raw("s", st.js); const BLVar& v = st.v; bool dbl = g.chance(40); BLPoint od(o.x, o.y);
          bool rgba = ex && v.is_rgba32() && g.chance(50); BLRgba32 col = rgba ? v.as<BLRgba32>() : BLRgba32(0);
          if (!has) r = dbl ? DRAW(fill_mask, od, q.im) : DRAW(fill_mask, o, q.im); else r = dbl ? DRAW(fill_mask, od, q.im, ar) : DRAW(fill_mask, o, q.im, ar);
          b.i("sx", 1).i("sy", 1); }
        else if (nearest && g.chance(35) && ok_area && labs(o.x) < 100000 && labs(o.y) < 100000) { int sx = 1 + g.below(3), sy = 1 + g.below(3); BLRectI d(o.x, o.y, ar.w * sx, ar.h * sy); b.i("sx", sx).i("sy", sy); if (!has) r = g.chance(50) ? c.blit_image(d, q.im) : c.blit_image(BLRect(d.x, d.y, d.w, d.h), q.im); else r = g.chance(50) ? c.blit_image(d, q.im, ar) : c.blit_image(BLRect(d.x, d.y, d.w, d.h), q.im, ar); }
        else { bool dbl = g.chance(40); BLPoint od(o.x, o.y); b.i("sx", 1).i("sy", 1); if (!has) r = dbl ? c.blit_image(od, q.im) : c.blit_image(o, q.im); else r = dbl ? c.blit_image(od, q.im, ar) : c.blit_image(o, q.im, ar); }
        j = b; emit(j, r); pending++;
      }
      else if (k < 93 || M13) { // any drawing: seen through the clip only
        if (pending) { J q = dump("check"); emit(q, 0); pending = 0; }
        uint64_t seed = g.next(); Rng q(seed); int nd = 1 + g.below(3); std::string names; c.save(); for (int i = 0; i < nd; i++) { const char* nm = anydraw(c, q, w, h); names += nm; names += ' '; where(std::string("any ") + nm); } c.restore(); J d = dump("any"); d.str("what", names).str("seed", std::to_string(seed)); emit(d, 0);
      }
      if (pending && (g.chance(M15 ? 90 : 55) || e + 1 >= ops)) { J q = dump("check"); emit(q, 0); pending = 0; }
    }
    BLResult er = c.end(); { J q = J::obj(); L px; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) px.push_back(get(f, cv.row(y), x)); q.str("op", "check").ints("px", px).i("guard", cv.guard()); emit(q, er); }
    tf.end();
  }
}
