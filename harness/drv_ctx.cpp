// C11: histories of context state operations; the state is read back after each of them, drawing probes compare with a
// context whose state was set directly.
#include "vh.h"
#include "dbgmalloc.h"
#include <math.h>
using namespace vh;
static const int W = 40, H = 40;
static long q64(double v) { return v != v ? -999999999 : fabs(v) < 1e7 ? long(floor(v * 64 + 0.5)) : 1073741823; }
static long q1k(double v) { return v != v ? -999999999 : fabs(v) < 1e6 ? long(floor(v * 1024 + 0.5)) : 1073741823; }
static std::vector<long> mat(const BLMatrix2D& m) { return {q64(m.m00), q64(m.m01), q64(m.m10), q64(m.m11), q64(m.m20), q64(m.m21)}; }
static std::string ints(const std::vector<long>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ','; r += std::to_string(v[i]); } return r + "]"; }
struct StyleObj { BLVar v; int gq, pq; };
static std::vector<StyleObj> objs; // every gradient/pattern ever set, with the quality hints in effect
static int find_obj(const BLVarCore& v) { for (size_t i = 0; i < objs.size(); i++) if (objs[i].v._d.impl == v._d.impl && objs[i].v._d.info.bits == v._d.info.bits) return int(i) + 1; return 0; }
static std::vector<long> style_of(BLContext& c, BLContextStyleSlot slot) {
  BLVar v; if (c.get_style(slot, v) != BL_SUCCESS) return {99};
  std::vector<long> r;
  if (v.is_rgba32()) { auto x = v.as<BLRgba32>(); r = {1, long(x.a()), long(x.r()), long(x.g()), long(x.b())}; }
  else if (v.is_rgba64()) { auto x = v.as<BLRgba64>(); r = {2, long(x.a()), long(x.r()), long(x.g()), long(x.b())}; }
  else if (v.is_rgba()) { auto x = v.as<BLRgba>(); r = {3, q1k(x.a), q1k(x.r), q1k(x.g), q1k(x.b)}; }
  else if (v.is_null()) r = {0};
  else { int id = find_obj(v); BLVar w; BLMatrix2D m(0, 0, 0, 0, 0, 0); c.get_transformed_style(slot, w); if (w.is_gradient()) m = w.as<BLGradient>().transform(); else if (w.is_pattern()) m = w.as<BLPattern>().transform(); r = {9, id}; for (long x : mat(m)) r.push_back(x); }
  long t = r[0] == 9 ? (v.is_gradient() ? BL_OBJECT_TYPE_GRADIENT : BL_OBJECT_TYPE_PATTERN) : v.type(); if (c.style_type(slot) != BLObjectType(t)) r.push_back(-77);
  return r;
}
static std::string dump(BLContext& c) {
  J j = J::obj(); if (c.context_type() == BL_CONTEXT_TYPE_NONE) return j.b("on", false).done();
  BLStrokeOptions so = c.stroke_options(); std::vector<long> st = {q64(so.width), q64(so.miter_limit), so.start_cap, so.end_cap, so.join, so.transform_order, q64(so.dash_offset)}, da;
  bool same = c.stroke_width() == so.width && c.stroke_miter_limit() == so.miter_limit && c.stroke_start_cap() == so.start_cap && c.stroke_end_cap() == so.end_cap && c.stroke_join() == so.join && c.stroke_transform_order() == so.transform_order && c.stroke_dash_offset() == so.dash_offset && c.stroke_dash_array().equals(so.dash_array);
  for (double d : so.dash_array) da.push_back(q64(d));
  BLApproximationOptions ap = c.approximation_options(); same = same && c.flatten_mode() == ap.flatten_mode && c.flatten_tolerance() == ap.flatten_tolerance;
  BLMatrix2D f2 = c.user_transform(); BLContextHints h = c.hints();
  j.b("on", true).i("op", c.comp_op()).i("rule", c.fill_rule()).ints("hint", std::vector<long>{h.rendering_quality, h.gradient_quality, h.pattern_quality}).i("ga", q1k(c.global_alpha()))
   .ints("sa", std::vector<long>{q1k(c.style_alpha(BL_CONTEXT_STYLE_SLOT_FILL)), q1k(c.style_alpha(BL_CONTEXT_STYLE_SLOT_STROKE))}).ints("stroke", st).ints("dash", da)
   .ints("appr", std::vector<long>{ap.flatten_mode, q1k(ap.flatten_tolerance), ap.offset_mode, q1k(ap.offset_parameter)}).ints("user", mat(f2)).ints("meta", mat(c.meta_transform())).ints("fin", mat(c.final_transform()))
   .raw("style", "[" + ints(style_of(c, BL_CONTEXT_STYLE_SLOT_FILL)) + "," + ints(style_of(c, BL_CONTEXT_STYLE_SLOT_STROKE)) + "]").i("saved", c.saved_state_count()).b("same", same && c.target_width() == W && c.target_height() == H);
  return j.done();
}
static void paint_bg(BLImage& im) { BLImageData d; im.make_mutable(&d); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) ((uint32_t*)((uint8_t*)d.pixel_data + y * d.stride))[x] = ((x / 5 + y / 3) & 1) ? 0xFF204060u : 0x80604020u; }
static void shapes(BLContext& c, int kind) {
  if (kind & 1) { BLPath p; p.move_to(3, 2); p.line_to(30, 20); p.line_to(8, 33); p.line_to(25, 3); p.line_to(28, 31); p.close(); p.add_circle(BLCircle(15, 15, 11)); c.fill_path(p); }
  if (kind & 2) { BLPath p; p.move_to(4, 30); p.cubic_to(10, -10, 20, 50, 35, 10); p.line_to(20, 8); p.close(); c.stroke_path(p); }
  if (kind & 4) c.fill_rect(BLRect(5.25, 6.5, 14, 12)); if (kind & 8) c.stroke_line(2, 5, 33, 18.5);
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init();
  BLImage pat(5, 4, BL_FORMAT_PRGB32); { BLImageData d; pat.make_mutable(&d); for (int i = 0; i < 20; i++) ((uint32_t*)((uint8_t*)d.pixel_data + (i / 5) * d.stride))[i % 5] = 0xFF000000u | (i * 0x0C0805); }
  { BLImage w(8, 8, BL_FORMAT_PRGB32); BLContextCreateInfo wi{}; wi.thread_count = 4; BLContext c(w, wi); c.fill_all(BLRgba32(~0u)); shapes(c, 15); }
  dm::counting = 1;
  for (int t = 0; t < a.n; t++) {
    long live0 = dm::live.load(); int id = 0;
    tf.begin(); { BLImage im(W, H, BL_FORMAT_PRGB32), im2(W, H, BL_FORMAT_PRGB32); BLContext c; std::vector<BLContextCookie> cookies; BLContextCreateInfo ci{}; ci.thread_count = g.chance(25) ? 1 + g.below(3) : 0; int lim = g.chance(20) ? 1 + int(g.below(4)) : 4096; ci.saved_state_limit = lim;
      BLContextCookie foreign; { BLContext o; BLImage oi(4, 4, BL_FORMAT_PRGB32); o.begin(oi); o.save(foreign); cookies.push_back(foreign); cookies.push_back(BLContextCookie()); o.end(); }
      auto val = [&]() { return double(g.range(-40, 80)) / 4; };
      int focus = g.below(7), L = a.len / 2 + g.below(a.len); bool on = false;
      auto emit = [&](J& j, BLResult r) { j.b("ok", r == BL_SUCCESS).raw("st", dump(c)).i("bad", dm::bad.load()); tf.ev(j.done()); };
      for (int e = 0; e < L; e++) {
        BLResult r = 0; J j = J::obj(); auto slot = BLContextStyleSlot(g.chance(96) ? g.below(2) : 2 + g.below(3));
        auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm); return j.str("op", nm); };
        if (!on || g.below(120) == 0) { if (on) { base("end"); LIB(c.end()); on = false; } else { base("begin").i("lim", lim); r = LIB(c.begin(im, ci)); on = r == BL_SUCCESS; } emit(j, r); continue; }
        // the clip is seen by what an opaque fill reaches
        if (g.chance(12) || e == L - 1) {
          if (int(c.saved_state_count()) >= lim) { e += e == L - 1; continue; }
          BLImageData d; LIB(c.flush(BL_CONTEXT_FLUSH_SYNC)); im.get_data(&d); for (int y = 0; y < H; y++) memset((uint8_t*)d.pixel_data + y * d.stride, 0, W * 4);
          c.save(); c.set_comp_op(BL_COMP_OP_SRC_OVER); c.set_global_alpha(1); c.set_fill_alpha(1); if (g.chance(50)) { c.set_fill_style(BLRgba32(0xFFFFFFFFu)); LIB(c.fill_all()); } else LIB(c.fill_all(BLRgba32(0xFFFFFFFFu))); c.restore(); LIB(c.flush(BL_CONTEXT_FLUSH_SYNC));
          auto px = [&](int x, int y) { return ((uint32_t*)((uint8_t*)d.pixel_data + y * d.stride))[x] >> 24; };
          int x0 = W, y0 = H, x1 = 0, y1 = 0; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (px(x, y)) { x0 = std::min(x0, x); y0 = std::min(y0, y); x1 = std::max(x1, x + 1); y1 = std::max(y1, y + 1); }
          std::vector<long> box, al; if (x1 > x0) { box = {x0, y0, x1, y1}; for (int x = x0; x < x1; x++) al.push_back(px(x, (y0 + y1) / 2)); for (int y = y0; y < y1; y++) al.push_back(px((x0 + x1) / 2, y)); }
          base("clipis").ints("box", box).ints("al", al); emit(j, 0);
          // drawing with this state gives what a context with directly set state gives, inside the clip
          if (g.chance(60)) {
            std::vector<uint8_t> cover(W * H); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) cover[y * W + x] = uint8_t(px(x, y));
            int kind = 1 + g.below(15); paint_bg(im); LIB(shapes(c, kind)); LIB(c.flush(BL_CONTEXT_FLUSH_SYNC)); std::vector<uint32_t> got(W * H); for (int y = 0; y < H; y++) memcpy(&got[y * W], (uint8_t*)d.pixel_data + y * d.stride, W * 4);
            paint_bg(im2); BLContextCreateInfo ci2{}; ci2.thread_count = g.chance(20) ? 2 : 0; BLContext f; LIB(f.begin(im2, ci2));
            f.apply_transform(c.meta_transform()); f.user_to_meta(); f.apply_transform(c.user_transform()); f.set_comp_op(c.comp_op()); f.set_fill_rule(c.fill_rule()); f.set_global_alpha(c.global_alpha());
            f.set_approximation_options(c.approximation_options()); f.set_stroke_options(c.stroke_options());
            for (int s = 0; s < 2; s++) { auto sl = BLContextStyleSlot(s); BLVar v, w; c.get_style(sl, v); int o = v.is_gradient() || v.is_pattern() ? find_obj(v) : 0; if (o) { c.get_transformed_style(sl, w); f.set_gradient_quality(BLGradientQuality(objs[o - 1].gq)); f.set_pattern_quality(BLPatternQuality(objs[o - 1].pq)); LIB(f.set_style(sl, w, BL_CONTEXT_STYLE_TRANSFORM_MODE_NONE)); } else LIB(f.set_style(sl, v)); f.set_style_alpha(sl, c.style_alpha(sl)); }
            f.set_hints(c.hints()); LIB(shapes(f, kind)); LIB(f.end()); BLImageData d2; im2.get_data(&d2); int diff = 0, out = 0, dx = -1, dy = -1; BLImage bgi(W, H, BL_FORMAT_PRGB32); paint_bg(bgi); BLImageData d3; bgi.get_data(&d3);
            for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t n = ((uint32_t*)((uint8_t*)d2.pixel_data + y * d2.stride))[x], b = ((uint32_t*)((uint8_t*)d3.pixel_data + y * d3.stride))[x]; if (cover[y * W + x] == 255 && n != got[y * W + x]) { uint32_t m = got[y * W + x]; for (int q = 0; q < 32; q += 8) { int d4 = abs(int((n >> q) & 255) - int((m >> q) & 255)); if (d4 > diff) { diff = d4; dx = x; dy = y; } } } if (cover[y * W + x] == 0 && b != got[y * W + x]) { out++; } }
            J k = J::obj(); k.str("op", "drawn").i("diff", diff).i("out", out).i("kind", kind).i("x", dx).i("y", dy); emit(k, 0);
          }
          continue;
        }
        int k = g.chance(45) ? focus * 4 + g.below(4) : g.below(28); if (g.chance(22)) k = 28 + g.below(4);
        switch (k) {
          case 0: { int v = g.chance(92) ? g.below(29) : 29 + g.below(40); base("compop").i("v", v); r = LIB(c.set_comp_op(BLCompOp(v))); break; }
          case 1: { int v = g.chance(90) ? g.below(2) : 2 + g.below(9); base("rule").i("v", v); r = LIB(c.set_fill_rule(BLFillRule(v))); break; }
          case 2: { double v = g.chance(88) ? g.below(17) / 16.0 : g.chance(50) ? -1.5 : g.chance(50) ? 2.5 : double(NAN); base("galpha").i("v", q1k(v)).b("nan", v != v); r = LIB(c.set_global_alpha(v)); break; }
          case 3: { double v = g.chance(88) ? g.below(17) / 16.0 : g.chance(50) ? -1.5 : g.chance(50) ? 2.5 : double(NAN); base("salpha").i("s", slot + 1).i("v", q1k(v)).b("nan", v != v); r = LIB(c.set_style_alpha(slot, v)); break; }
          case 4: { uint32_t v = uint32_t(g.next()); if (g.chance(50)) v |= 0xFF000000u; BLRgba32 x(v); base("style").i("s", slot + 1).ints("v", std::vector<long>{1, long(x.a()), long(x.r()), long(x.g()), long(x.b())}); r = LIB(c.set_style(slot, x)); break; }
          case 5: { BLRgba64 x(uint32_t(g.below(65536)), uint32_t(g.below(65536)), uint32_t(g.below(65536)), uint32_t(g.below(65536))); base("style").i("s", slot + 1).ints("v", std::vector<long>{2, long(x.a()), long(x.r()), long(x.g()), long(x.b())}); r = LIB(c.set_style(slot, x)); break; }
          case 6: { auto f = [&]() { return g.chance(90) ? g.below(17) / 16.0f : g.chance(50) ? -0.5f : g.chance(60) ? 1.75f : NAN; }; BLRgba x(f(), f(), f(), f()); bool nan = x.r != x.r || x.g != x.g || x.b != x.b || x.a != x.a; auto cl = [](float v) { return v < 0 ? 0.f : v > 1 ? 1.f : v; };
            base("style").i("s", slot + 1).ints("v", nan ? std::vector<long>{0} : std::vector<long>{3, q1k(cl(x.a)), q1k(cl(x.r)), q1k(cl(x.g)), q1k(cl(x.b))}); r = LIB(c.set_style(slot, x)); break; }
          case 7: base("style").i("s", slot + 1).ints("v", std::vector<long>{0}); r = g.chance(50) ? LIB(c.disable_style(slot)) : LIB(c.set_style(slot, BLVar())); break;
          case 8: case 9: case 10: { // gradient or pattern with its own transformation
            BLMatrix2D m(1, 0, 0, 1, 0, 0); bool xf = g.chance(60); if (xf) m.reset(g.range(-2, 2), g.range(-1, 1), g.range(-1, 1), g.range(-2, 2), g.range(-20, 20) / 4.0, g.range(-20, 20) / 4.0); BLVar v; auto mode = BLContextStyleTransformMode(g.below(3));
            if (g.chance(60)) { BLGradient gr(BLLinearGradientValues(g.below(10), g.below(10), 10 + g.below(20), 10 + g.below(20))); gr.set_extend_mode(BLExtendMode(g.below(3))); int n = g.chance(90) ? 2 + g.below(3) : g.below(2); for (int i = 0; i < n; i++) gr.add_stop(i / 4.0, BLRgba32(uint32_t(g.next()))); if (g.chance(25)) { gr.set_type(BL_GRADIENT_TYPE_RADIAL); gr.set_values(BLRadialGradientValues(12, 12, 9, 9, 14)); } else if (g.chance(25)) { gr.set_type(BL_GRADIENT_TYPE_CONIC); gr.set_values(BLConicGradientValues(12, 12, 1, 1)); } if (xf) gr.set_transform(m); v = gr; }
            else { BLPattern p(pat); p.set_extend_mode(BLExtendMode(g.below(9))); if (g.chance(30)) p.set_area(BLRectI(1, 1, 3, 2)); if (xf) p.set_transform(m); v = p; }
            objs.push_back(StyleObj{v, c.hints().gradient_quality, c.hints().pattern_quality}); id = int(objs.size());
            base("object").i("s", slot + 1).i("id", id).ints("m", mat(m)).i("mode", mode); r = LIB(c.set_style(slot, v, mode)); if (mode == 0 && r == BL_SUCCESS && g.chance(30)) r = LIB(c.set_style(slot, v)); break; }
          case 11: { int v = g.chance(90) ? g.below(2) : 2 + g.below(5); base("swap").i("v", v); r = LIB(c.swap_styles(BLContextStyleSwapMode(v))); break; }
          case 12: { int i = g.below(4), v = i == 1 || i == 2 ? g.below(3) : g.chance(70) ? 0 : g.below(3); base("hint").i("i", i).i("v", v); r = LIB(c.set_hint(BLContextHint(i), v)); break; }
          case 13: { BLContextHints h; h.reset(); int q[3] = {g.chance(80) ? 0 : int(g.below(3)), int(g.below(3)), int(g.below(3))}; h.rendering_quality = q[0]; h.gradient_quality = q[1]; h.pattern_quality = q[2]; base("hints").ints("v", std::vector<long>{q[0], q[1], q[2]}); r = LIB(c.set_hints(h)); break; }
          case 14: { int v = g.chance(85) ? g.below(2) : 2 + g.below(3); base("fmode").i("v", v); r = LIB(c.set_flatten_mode(BLFlattenMode(v))); break; }
          case 15: { static const double tv[] = {-1, 0, 1.0 / 64, 0.125, 0.25, 0.375, 0.5, 0.75, 100}; if (g.chance(50)) { double v = g.chance(90) ? tv[g.below(9)] : double(NAN); base("ftol").i("v", q1k(v)).b("nan", v != v); r = LIB(c.set_flatten_tolerance(v)); }
            else { BLApproximationOptions ap = c.approximation_options(); double v = tv[g.below(9)], o = g.chance(90) ? g.below(8) / 8.0 : double(NAN); ap.flatten_mode = uint8_t(g.chance(90) ? g.below(2) : 3); ap.offset_mode = uint8_t(g.chance(90) ? g.below(2) : 7); ap.flatten_tolerance = v; ap.offset_parameter = o; base("appr").ints("v", std::vector<long>{ap.flatten_mode, q1k(v), ap.offset_mode, q1k(o)}).b("nan", o != o); r = LIB(c.set_approximation_options(ap)); } break; }
          case 16: { double v = g.below(40) / 4.0; int w = g.below(3); base("snum").i("i", w == 0 ? 1 : w == 1 ? 2 : 7).i("v", q64(v)); r = w == 0 ? LIB(c.set_stroke_width(v)) : w == 1 ? LIB(c.set_stroke_miter_limit(v)) : LIB(c.set_stroke_dash_offset(v)); break; }
          case 17: { int v = g.chance(90) ? g.below(6) : 6 + g.below(9), p = g.chance(95) ? g.below(2) : 2; if (g.chance(50)) { base("cap").i("p", p).i("v", v); r = p == 0 && g.chance(50) ? LIB(c.set_stroke_start_cap(BLStrokeCap(v))) : LIB(c.set_stroke_cap(BLStrokeCapPosition(p), BLStrokeCap(v))); } else { base("caps").i("v", v); r = LIB(c.set_stroke_caps(BLStrokeCap(v))); } break; }
          case 18: { int v = g.chance(90) ? g.below(5) : 5 + g.below(9); if (g.chance(60)) { base("join").i("v", v); r = LIB(c.set_stroke_join(BLStrokeJoin(v))); } else { v = g.chance(90) ? g.below(2) : 2; base("order").i("v", v); r = LIB(c.set_stroke_transform_order(BLStrokeTransformOrder(v))); } break; }
          case 19: { BLArray<double> da; int n = g.below(g.chance(70) ? 4 : 30); std::vector<long> l; for (int i = 0; i < n; i++) { double v = 1 + g.below(40) / 4.0; da.append(v); l.push_back(q64(v)); }
            if (g.chance(60)) { base("dash").ints("v", l); r = LIB(c.set_stroke_dash_array(da)); }
            else { BLStrokeOptions so; so.width = g.below(40) / 4.0; so.miter_limit = g.below(40) / 4.0; so.start_cap = uint8_t(g.chance(95) ? g.below(6) : 9); so.end_cap = uint8_t(g.below(6)); so.join = uint8_t(g.chance(95) ? g.below(5) : 9); so.transform_order = uint8_t(g.below(2)); so.dash_offset = g.below(20) / 4.0; so.dash_array = da;
              base("sopts").ints("v", std::vector<long>{q64(so.width), q64(so.miter_limit), so.start_cap, so.end_cap, so.join, so.transform_order, q64(so.dash_offset)}).ints("d", l); r = LIB(c.set_stroke_options(so)); } break; }
          case 20: case 21: { BLMatrix2D f = c.final_transform(), u = c.user_transform(); int op = g.pick({0, 1, 2, 2, 2, 3, 8, 9}); auto big = [](const BLMatrix2D& m) { return fabs(m.m00) + fabs(m.m01) + fabs(m.m10) + fabs(m.m11) > 12 || fabs(m.m20) + fabs(m.m21) > 150; }; if (big(u) || big(f)) op = 0;
            double d[2] = {op == 3 || op == 9 ? double(g.pick({1, 2, -1, 1, 3})) : g.chance(70) ? double(g.range(-9, 12)) : val(), op == 3 || op == 9 ? double(g.pick({1, 2, -1, 1})) : g.chance(70) ? double(g.range(-9, 12)) : val()}; if ((op == 3 || op == 9) && g.chance(4)) d[0] = 0; BLMatrix2D m(g.range(-2, 2), g.range(-1, 1), g.range(-1, 1), g.range(-2, 2), val(), val());
            base("xform").i("k", op).ints("d", std::vector<long>{q64(d[0]), q64(d[1])}).ints("m", mat(m)); r = op == 0 ? LIB(c.reset_transform()) : op == 1 ? LIB(c.set_transform(m)) : op == 2 ? LIB(c.translate(d[0], d[1])) : op == 3 ? LIB(c.scale(d[0], d[1])) : op == 8 ? LIB(c.post_translate(d[0], d[1])) : LIB(c.post_scale(d[0], d[1])); break; }
          case 22: { BLMatrix2D f = c.final_transform(); if (fabs(f.m00) + fabs(f.m01) + fabs(f.m10) + fabs(f.m11) > 8 || fabs(f.m20) + fabs(f.m21) > 100) { e--; continue; } base("tometa"); r = LIB(c.user_to_meta()); break; }
          case 23: { BLMatrix2D m = c.user_transform(); if (fabs(m.m00) + fabs(m.m01) + fabs(m.m10) + fabs(m.m11) > 9) { e--; continue; } BLMatrix2D a2(g.range(-1, 1), g.range(-1, 1), g.range(-1, 1), g.range(-1, 1), val(), val()); bool post = g.chance(50); base("xform").i("k", post ? 13 : 7).ints("d", std::vector<long>{0, 0}).ints("m", mat(a2)); r = post ? LIB(c.post_transform(a2)) : LIB(c.apply_transform(a2)); break; }
          case 24: case 25: case 26: { int x = g.range(-10, 35), y = g.range(-10, 35), w = g.chance(97) ? g.range(1, 60) : 0, h = g.chance(97) ? g.range(1, 60) : 0;
            if (g.chance(60)) { base("clip").ints("v", std::vector<long>{x * 4, y * 4, w * 4, h * 4}); r = LIB(c.clip_to_rect(BLRectI(x, y, w, h))); } else { double f = g.chance(50) ? 0 : g.below(4) / 4.0, z = g.chance(50) ? 0 : g.below(4) / 4.0; base("clip").ints("v", std::vector<long>{long((x + f) * 4), long((y + z) * 4), w * 4, h * 4}); r = LIB(c.clip_to_rect(BLRect(x + f, y + z, w, h))); } break; }
          case 27: if (g.chance(35) && c.final_transform().type() <= BL_TRANSFORM_TYPE_TRANSLATE) { int far = g.below(2), side = g.below(4), q = g.below(1000); BLRectI R = !far ? BLRectI(-1000000000, -1000000000, 2000000000, 2000000000) : side == 0 ? BLRectI(INT32_MAX - q, 0, 20, 20) : side == 1 ? BLRectI(0, INT32_MAX - q, 20, 20) : side == 2 ? BLRectI(INT32_MIN + q, 0, 20, 20) : BLRectI(0, INT32_MIN + q, 20, 20);
            base("clipfar").b("out", far); r = LIB(c.clip_to_rect(R)); break; }
          base("unclip"); r = LIB(c.restore_clipping()); break;
          case 28: case 29: { if (g.chance(30)) { BLContextCookie ck{}; base("save").i("c", int(cookies.size()) + 1); r = LIB(c.save(ck)); cookies.push_back(ck); } else { base("save").i("c", 0); r = LIB(c.save()); } break; }
          default: { if (g.chance(30)) { int x = g.chance(85) && cookies.size() > 2 ? int(cookies.size()) - 1 - int(g.below(uint32_t(std::min<size_t>(cookies.size() - 2, 4)))) : int(g.below(uint32_t(cookies.size()))); base("restore").i("c", x + 1); r = LIB(c.restore(cookies[x])); } else { base("restore").i("c", 0); r = LIB(c.restore()); } break; }
        }
        emit(j, r);
      }
      LIB(c.reset()); }
    objs.clear(); dm::sweep();
    long live = dm::live.load() - live0;
    J j = J::obj(); j.str("op", "fin").i("live", live).i("bad", dm::bad.load()); tf.ev(j.done()); tf.end();
  }
}
