// Random drawing programs executed on two contexts (C16, C17).
#pragma once
#include "vh.h"
#include "anydraw.h"
#include <blend2d-testing/resources/abeezee_regular_ttf.h>
#include <math.h>
using namespace vh;
static uint64_t mix(uint64_t h, const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull; return h; }
static std::vector<long> rows(const BLImage& im) {
  BLImageData d; im.get_data(&d); std::vector<long> r; size_t n = size_t(im.width()) * im.depth() / 8; std::vector<uint8_t> b(n);
  for (int y = 0; y < im.height(); y++) { memcpy(b.data(), (uint8_t*)d.pixel_data + y * d.stride, n); if (im.format() == BL_FORMAT_XRGB32) for (size_t i = 3; i < n; i += 4) b[i] = 255; uint64_t h = mix(0xCBF29CE484222325ull, b.data(), n); r.push_back(long((h ^ h >> 31) & 0x3FFFFFFF)); }
  return r;
}
static long state_hash(const BLContext& c) {
  uint64_t h = 0xCBF29CE484222325ull; auto dbl = [&](double v) { h = mix(h, &v, 8); }; auto num = [&](uint64_t v) { h = mix(h, &v, 8); };
  auto m = [&](const BLMatrix2D& x) { for (double v : {x.m00, x.m01, x.m10, x.m11, x.m20, x.m21}) dbl(v); };
  m(c.user_transform()); m(c.meta_transform()); m(c.final_transform()); num(c.comp_op()); dbl(c.global_alpha()); dbl(c.fill_alpha()); dbl(c.stroke_alpha()); num(c.fill_rule()); num(c.pattern_quality());
  num(c.fill_style_type()); num(c.stroke_style_type()); dbl(c.stroke_width()); dbl(c.stroke_miter_limit()); num(c.stroke_join()); num(c.stroke_start_cap()); num(c.stroke_end_cap()); dbl(c.stroke_dash_offset()); num(c.stroke_dash_array().size()); num(c.stroke_transform_order()); dbl(c.flatten_tolerance()); num(c.saved_state_count());
  return long((h ^ h >> 31) & 0x3FFFFFFF);
}
struct Sources { BLImage im[3]; BLGradient gr[2]; BLPattern pt[2]; BLPath pa[2]; BLFont font; BLGlyphBuffer gb; BLArray<double> da; };
static void new_image(Rng& q, BLImage& im, bool keep) {
  if (!keep || im.is_empty()) { im.reset(); im.create(1 + q.below(12), 1 + q.below(12), BLFormat(q.pick({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}))); }
  BLImageData d; im.make_mutable(&d); bool op = q.chance(30);
  for (int y = 0; y < im.height(); y++) for (int x = 0; x < im.width(); x++) { uint8_t* p = (uint8_t*)d.pixel_data + y * d.stride; uint32_t a = op ? 255 : q.below(256); if (im.format() == BL_FORMAT_A8) p[x] = uint8_t(a); else { if (im.format() == BL_FORMAT_XRGB32) a = 255; ((uint32_t*)p)[x] = BLRgba32(q.below(a + 1), q.below(a + 1), q.below(a + 1), a).value; } }
}
static void new_gradient(Rng& q, BLGradient& g, int w, int h, bool keep) {
  auto X = [&]() { return double(q.range(-w, 2 * w)); }; auto Y = [&]() { return double(q.range(-h, 2 * h)); };
  if (!keep) { g.reset(); int k = q.below(3); if (k == 0) g.create(BLLinearGradientValues(X(), Y(), X(), Y())); else if (k == 1) g.create(BLRadialGradientValues(X(), Y(), X(), Y(), 1 + q.below(60))); else g.create(BLConicGradientValues(X(), Y(), q.below(7))); g.set_extend_mode(BLExtendMode(q.below(3))); }
  else g.reset_stops();
  int n = 1 + q.below(4); for (int i = 0; i < n; i++) g.add_stop(q.below(17) / 16.0, BLRgba32(uint32_t(q.next())));
}
static void new_pattern(Rng& q, BLPattern& p, const BLImage& im, bool keep) {
  BLMatrix2D m; m.reset(); if (q.chance(60)) m.translate(q.range(-30, 30) / 4.0, q.range(-30, 30) / 4.0); if (q.chance(30)) m.rotate(q.below(64) / 10.0);
  if (!keep) p.create(im, BLExtendMode(q.below(9)), m); else { p.set_transform(m); p.set_extend_mode(BLExtendMode(q.below(9))); if (q.chance(40)) p.set_area(BLRectI(0, 0, 1 + q.below(im.width()), 1 + q.below(im.height()))); }
}
static void new_dash(Rng& q, BLArray<double>& d, bool keep) { if (!keep) d.reset(); else d.clear(); int n = 1 + q.below(4); for (int i = 0; i < n; i++) d.append(double(1 + q.below(12))); }
// One step of the program: pure function of (q, S).
static const char* step(BLContext& c, Rng q, Sources& S, int w, int h, bool light) {
  auto I = [&]() { return BLRectI(q.range(-4, w), q.range(-4, h), 1 + q.below(w), 1 + q.below(h)); };
  auto P = [&]() { return BLPoint(q.range(-w, w) + q.below(8) / 8.0, q.range(-h, h) + q.below(8) / 8.0); };
  int k = q.below(light ? 60 : 100);
  if (k < 12) { if (q.chance(50)) c.fill_rect(I(), BLRgba32(uint32_t(q.next()))); else c.fill_rect(I()); return "fill_rect_i"; }
  if (k < 18) { BLRectI r = I(); BLRect d(r.x + 0.3, r.y + 0.7, r.w, r.h * 0.6); if (q.chance(50)) c.fill_rect(d, BLRgba32(uint32_t(q.next()))); else c.fill_rect(d); return "fill_rect_d"; }
  if (k < 24) { if (q.chance(50)) c.blit_image(BLPointI(q.range(-6, w), q.range(-6, h)), S.im[q.below(3)]); else c.blit_image(P(), S.im[q.below(3)]); return "blit"; }
  if (k < 28) { BLImage& im = S.im[q.below(3)]; if (im.format() == BL_FORMAT_A8) { if (q.chance(50)) c.fill_mask(BLPointI(q.range(-6, w), q.range(-6, h)), im); else c.fill_mask(P(), im, BLRgba32(uint32_t(q.next()))); } else c.blit_image(I(), im); return "mask"; }
  if (k < 32) { BLPath& p = S.pa[q.below(2)]; if (q.chance(60)) c.fill_path(P(), p); else c.fill_path(p, BLRgba32(uint32_t(q.next()))); return "fill_path"; }
  if (k < 36) { BLPath& p = S.pa[q.below(2)]; if (q.chance(60)) c.stroke_path(P(), p); else c.stroke_path(p, BLRgba32(uint32_t(q.next()))); return "stroke_path"; }
  if (k < 39) { int o = q.below(3); if (o == 0) c.set_fill_style(S.gr[q.below(2)]); else if (o == 1) c.set_fill_style(S.pt[q.below(2)], BLContextStyleTransformMode(q.below(3))); else c.set_fill_style(BLRgba32(uint32_t(q.next()))); return "fill_style"; }
  if (k < 41) { int o = q.below(3); if (o == 0) c.set_stroke_style(S.gr[q.below(2)], BLContextStyleTransformMode(q.below(3))); else if (o == 1) c.set_stroke_style(S.pt[q.below(2)]); else c.set_stroke_style(BLRgba32(uint32_t(q.next()))); return "stroke_style"; }
  if (k < 44) { c.fill_rect(I(), S.gr[q.below(2)]); return "fill_gr"; }
  if (k < 47) { c.fill_rect(I(), S.pt[q.below(2)]); return "fill_pt"; }
  if (k < 50) { if (c.saved_state_count() < 6) c.save(); return "save"; }
  if (k < 54) { c.restore(); return "restore"; }
  if (k < 56) { switch (q.below(8)) { case 0: c.set_comp_op(q.chance(60) ? BL_COMP_OP_SRC_OVER : BL_COMP_OP_SRC_COPY); break; case 1: c.set_global_alpha(q.below(9) / 8.0); break; case 2: c.set_fill_alpha(q.below(9) / 8.0); break; case 3: c.set_fill_rule(BLFillRule(q.below(2))); break; case 4: c.set_flatten_tolerance(0.05 + q.below(20) / 20.0); break; case 5: c.set_stroke_width(q.below(30) / 4.0); break; case 6: c.set_pattern_quality(BLPatternQuality(q.below(2))); break; default: { BLApproximationOptions o = c.approximation_options(); o.flatten_tolerance = 0.05 + q.below(8) / 10.0; o.offset_parameter = 0.2 + q.below(10) / 12.0; c.set_approximation_options(o); } } return "state"; }
  if (k < 58) { if (q.chance(60)) c.clip_to_rect(BLRectI(q.range(-2, w / 2), q.range(-2, h / 2), 1 + q.below(w), 1 + q.below(h))); else if (q.chance(50)) c.clip_to_rect(BLRect(q.below(w) / 2.0 + 0.3, q.below(h) / 2.0 + 0.4, q.below(w) + 0.9, q.below(h) + 0.2)); else c.restore_clipping(); return "clip"; }
  if (k < 60) { if (q.chance(60)) c.reset_transform(); else { c.rotate(q.below(63) / 10.0, w / 2.0, h / 2.0); if (q.chance(30)) c.scale(0.7 + q.below(5) / 8.0); if (q.chance(10)) c.user_to_meta(); } return "transform"; }
  if (k < 68) { c.translate(w / 4.0, h / 2.0); switch (q.below(5)) { case 0: c.fill_utf8_text(BLPoint(0, 0), S.font, "Twin"); break; case 1: c.stroke_utf8_text(P(), S.font, "ab", 2, BLRgba32(uint32_t(q.next()))); break; case 2: c.fill_glyph_run(BLPoint(1, 5), S.font, S.gb.glyph_run()); break; case 3: c.fill_utf8_text(BLPointI(2, 3), S.font, "Wg", 2, S.gr[0]); break; default: c.stroke_glyph_run(P(), S.font, S.gb.glyph_run()); } c.translate(-w / 4.0, -h / 2.0); return "text"; }
  if (k < 72) { if (q.chance(50)) c.clear_rect(I()); else if (q.chance(30)) c.clear_all(); else c.fill_all(BLRgba32(uint32_t(q.next()) | 0)); return "clear"; }
  if (k < 74) { if (q.chance(20)) c.set_stroke_dash_array(BLArray<double>()); else c.set_stroke_dash_array(S.da); c.set_stroke_dash_offset(q.below(10) / 2.0); return "dash"; }
  bool sv = q.chance(85); if (sv) c.save(); const char* r = anydraw(c, q, w, h); if (sv) c.restore(); return r;
}
