// Arbitrary drawing calls, as a function of a random stream: replayed identically on several contexts.
#pragma once
#include "vh.h"
#include <math.h>
namespace vh {
inline BLVar any_style(Rng& q, int w, int h) {
  int k = q.below(6); auto X = [&]() { return double(q.range(-w, 2 * w)) + q.below(8) / 8.0; }; auto Y = [&]() { return double(q.range(-h, 2 * h)) + q.below(8) / 8.0; };
  if (k < 2) return BLVar(BLRgba32(uint32_t(q.next())));
  if (k < 5) { BLGradient g; int n = q.below(5); for (int i = 0; i < n; i++) g.add_stop(q.below(17) / 16.0, BLRgba32(uint32_t(q.next()))); BLExtendMode em = BLExtendMode(q.below(3));
    if (k == 2) g.create(BLLinearGradientValues(X(), Y(), X(), Y())); else if (k == 3) g.create(BLRadialGradientValues(X(), Y(), X(), Y(), 1 + q.below(20), q.below(3))); else g.create(BLConicGradientValues(X(), Y(), q.below(7), 1 + q.below(3)));
    g.set_extend_mode(em); for (int i = 0; i < n; i++) g.add_stop(q.below(17) / 16.0, BLRgba32(uint32_t(q.next()))); return BLVar(g); }
  BLImage im(1 + q.below(7), 1 + q.below(7), q.pick({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}) == BL_FORMAT_A8 ? BL_FORMAT_A8 : BL_FORMAT_PRGB32); BLImageData d; im.make_mutable(&d);
  for (int y = 0; y < im.height(); y++) for (int x = 0; x < im.width(); x++) { uint8_t* p = (uint8_t*)d.pixel_data + y * d.stride; uint32_t a = q.below(256); if (im.format() == BL_FORMAT_A8) p[x] = uint8_t(a); else ((uint32_t*)p)[x] = BLRgba32(q.below(a + 1), q.below(a + 1), q.below(a + 1), a).value; }
  BLPattern p(im, BLExtendMode(q.below(9))); if (q.chance(60)) { p.translate(q.range(-30, 30) / 4.0, q.range(-30, 30) / 4.0); if (q.chance(50)) p.rotate(q.below(64) / 10.0); if (q.chance(50)) p.scale(0.25 + q.below(12) / 4.0, 0.25 + q.below(12) / 4.0); } return BLVar(p);
}
inline BLPath any_path(Rng& q, int w, int h) {
  BLPath p; int n = 1 + q.below(9); auto P = [&]() { return BLPoint(double(q.range(-w, 2 * w)) + q.below(16) / 16.0, double(q.range(-h, 2 * h)) + q.below(16) / 16.0); };
  p.move_to(P()); for (int i = 0; i < n; i++) switch (q.below(8)) { case 0: p.move_to(P()); break; case 1: p.quad_to(P(), P()); break; case 2: p.cubic_to(P(), P(), P()); break; case 3: p.conic_to(P(), P(), 0.25 + q.below(8) / 4.0); break; case 4: if (q.chance(30)) p.close(); else p.line_to(P()); break; case 5: p.arc_to(P(), BLPoint(1 + q.below(20), 1 + q.below(20)), q.below(6), q.below(7) - 3.0); break; default: p.line_to(P()); }
  if (q.chance(5)) p.line_to(1e30, -1e30); if (q.chance(5)) p.line_to(q.chance(50) ? NAN : INFINITY, 3); if (q.chance(50)) p.close(); return p;
}
// Any call may fail; the effect is what matters. State changes are undone by the caller.
inline const char* anydraw(BLContext& c, Rng& q, int w, int h) {
  if (q.chance(30)) { if (q.chance(60)) c.rotate(q.below(63) / 10.0, w / 2.0, h / 2.0); if (q.chance(40)) c.scale(0.3 + q.below(20) / 8.0); if (q.chance(30)) c.translate(q.range(-20, 20) / 3.0, q.range(-20, 20) / 3.0); if (q.chance(10)) c.skew(q.below(5) / 4.0, 0.1); }
  if (q.chance(40)) { c.set_fill_style(any_style(q, w, h)); } if (q.chance(40)) c.set_stroke_style(any_style(q, w, h)); if (q.chance(20)) c.set_fill_rule(BLFillRule(q.below(2)));
  if (q.chance(25)) { c.set_global_alpha(q.below(9) / 8.0); } if (q.chance(20)) c.set_comp_op(q.chance(50) ? BL_COMP_OP_SRC_COPY : BLCompOp(q.below(29))); if (q.chance(15)) c.set_pattern_quality(BLPatternQuality(q.below(2)));
  if (q.chance(50)) { c.set_stroke_width(q.below(40) / 4.0); c.set_stroke_caps(BLStrokeCap(q.below(6))); c.set_stroke_join(BLStrokeJoin(q.below(5))); if (q.chance(30)) c.set_stroke_transform_order(BLStrokeTransformOrder(q.below(2))); if (q.chance(15)) c.set_stroke_miter_limit(1 + q.below(20)); if (q.chance(15)) { BLArray<double> d; d.append(1 + q.below(9)); d.append(1 + q.below(9)); c.set_stroke_dash_array(d); } }
  BLVar st = any_style(q, w, h); bool ex = q.chance(35); auto X = [&]() { return double(q.range(-w, 2 * w)) + q.below(8) / 8.0; }; auto Y = [&]() { return double(q.range(-h, 2 * h)) + q.below(8) / 8.0; };
  auto fin = [&](auto&& fn, auto&& fx) { if (ex) fx(); else fn(); };
  switch (q.below(14)) {
    case 0: { BLRect r(X(), Y(), X(), Y()); fin([&] { c.fill_rect(r); }, [&] { c.fill_rect(r, st); }); return "rect"; }
    case 1: { BLPath p = any_path(q, w, h); fin([&] { c.fill_path(p); }, [&] { c.fill_path(p, st); }); return "path"; }
    case 2: { BLPath p = any_path(q, w, h); fin([&] { c.stroke_path(p); }, [&] { c.stroke_path(p, st); }); return "stroke"; }
    case 3: { BLCircle k(X(), Y(), q.below(20)); fin([&] { c.fill_circle(k); }, [&] { c.fill_circle(k, st); }); return "circle"; }
    case 4: { BLRoundRect k(X(), Y(), 1 + q.below(30), 1 + q.below(20), q.below(6), q.below(6)); fin([&] { c.fill_round_rect(k); }, [&] { c.stroke_round_rect(k, st); }); return "round"; }
    case 5: { BLLine k(X(), Y(), X(), Y()); fin([&] { c.stroke_line(k); }, [&] { c.stroke_line(k, st); }); return "line"; }
    case 6: { BLTriangle k(X(), Y(), X(), Y(), X(), Y()); fin([&] { c.fill_triangle(k); }, [&] { c.stroke_triangle(k, st); }); return "triangle"; }
    case 7: { fin([&] { c.fill_all(); }, [&] { c.fill_all(st); }); return "all"; }
    case 8: { BLRect r(X(), Y(), q.below(20), q.below(20)); if (q.chance(50)) c.clear_rect(r); else c.stroke_rect(r); return "clear"; }
    case 9: case 10: { BLImage im(1 + q.below(9), 1 + q.below(9), q.chance(70) ? BL_FORMAT_PRGB32 : BL_FORMAT_A8); BLImageData d; im.make_mutable(&d); for (int y = 0; y < im.height(); y++) for (int x = 0; x < im.width() * int(im.depth() / 8); x++) ((uint8_t*)d.pixel_data)[y * d.stride + x] = im.depth() == 8 ? uint8_t(q.below(256)) : (x & 3) == 3 ? 255 : uint8_t(q.below(256));
      int kind = q.below(4); if (kind == 0) c.blit_image(BLPoint(X(), Y()), im); else if (kind == 1) c.blit_image(BLRect(X(), Y(), q.below(30), q.below(30)), im); else if (kind == 2) c.blit_image(BLPoint(X(), Y()), im, BLRectI(0, 0, 1 + q.below(im.width()), 1 + q.below(im.height()))); else { BLImage m(1 + q.below(9), 1 + q.below(9), BL_FORMAT_A8); m.make_mutable(&d); for (int y = 0; y < m.height(); y++) for (int x = 0; x < m.width(); x++) ((uint8_t*)d.pixel_data)[y * d.stride + x] = uint8_t(q.below(256)); if (q.chance(60)) c.fill_mask(BLPointI(int(X()), int(Y())), m); else c.fill_mask(BLPoint(X(), Y()), m); }
      return "blit"; }
    case 11: { BLArc k(X(), Y(), q.below(20), q.below(20), q.below(7), q.below(14) - 7.0); if (q.chance(40)) c.fill_pie(k); else if (q.chance(50)) c.fill_chord(k); else c.stroke_arc(k); return "arc"; }
    case 12: { std::vector<BLPoint> p; int n = q.below(7); for (int i = 0; i < n; i++) p.push_back(BLPoint(X(), Y())); if (q.chance(50)) c.fill_polygon(p.data(), p.size()); else if (q.chance(50)) c.stroke_polyline(p.data(), p.size()); else c.stroke_polygon(p.data(), p.size()); return "poly"; }
    default: { BLEllipse k(X(), Y(), q.below(20), q.below(20)); fin([&] { c.fill_ellipse(k); }, [&] { c.stroke_ellipse(k, st); }); return "ellipse"; }
  }
}
} // namespace vh
