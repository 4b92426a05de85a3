// C34: strokes of axis-parallel polylines on the pixel grid: through contexts (synchronous and not), geometries, stroked paths.
#include <initializer_list>
#include <blend2d/blend2d.h>
#include "vh.h"
using namespace vh;
static std::string rows(const BLImage& im) {
  BLImageData d; im.get_data(&d); J r = J::arr();
  for (int y = 0; y < d.size.h; y++) { J row = J::arr(); const uint8_t* p = (const uint8_t*)d.pixel_data + y * d.stride; for (int x = 0; x < d.size.w; x++) row.addi(d.format == BL_FORMAT_A8 ? p[x] : p[x * 4 + 3]); r.add(row.done()); }
  return r.done();
}
static std::string ints(std::initializer_list<int> v) { J r = J::arr(); for (int x : v) r.addi(x); return r.done(); }
struct Sub { bool closed; std::vector<BLPointI> p; };
static Sub figure(Rng& g, int w, bool slope) {
  Sub s; if (slope) { s.closed = g.chance(35); int n = 2 + int(g.below(5)); for (int i = 0; i < n || s.p.size() < (s.closed ? 3u : 2u); i++) { BLPointI q(int(g.below(44)) - 4, int(g.below(40)) - 4); if (s.p.size() > 1 && g.chance(10)) { BLPointI b = s.p[s.p.size() - 2], c = s.p.back(); q = g.chance(50) ? b : BLPointI(2 * b.x - c.x, 2 * b.y - c.y); } /* turning back */ if (s.p.empty() || q != s.p.back()) s.p.push_back(q); if (g.chance(6)) s.p.push_back(q); } return s; }
  s.closed = g.chance(35); int x = int(g.below(24)) - 2, y = int(g.below(24)) - 2;
  if (s.closed) { // a rectangle or an L
    int a = w + int(g.below(10)), b = w + int(g.below(10)), c = w + int(g.below(8)), d = w + int(g.below(8));
    if (g.chance(50)) s.p = {{x, y}, {x + a, y}, {x + a, y + b}, {x, y + b}}; else s.p = {{x, y}, {x + a + c, y}, {x + a + c, y + b}, {x + a, y + b}, {x + a, y + b + d}, {x, y + b + d}};
    if (g.chance(50)) std::reverse(s.p.begin(), s.p.end()); std::rotate(s.p.begin(), s.p.begin() + g.below(uint32_t(s.p.size())), s.p.end());
    if (g.chance(30)) for (auto& q : s.p) q = {q.y, q.x}; if (g.chance(20)) s.p.push_back(s.p[0]);
    return s; }
  int dir = int(g.below(4)), n = 1 + int(g.below(5)); s.p.push_back({x, y});
  for (int i = 0; i < n; i++) { int l = w + int(g.below(12)); static const int dx[4] = {1, 0, -1, 0}, dy[4] = {0, 1, 0, -1}; x += dx[dir] * l; y += dy[dir] * l; s.p.push_back({x, y}); if (g.chance(8)) s.p.push_back({x, y}); if (g.chance(85)) dir = (dir + (g.chance(50) ? 1 : 3)) & 3; }
  return s;
}
int main(int argc, char** argv) {
  Args a(argc, argv); bool slope = a.mode == "slope"; TraceFile tf(a.out); install_crash_handler();
  for (int n = 0; n < a.n; n++) {
    Rng g(a.seed * 7919 + uint64_t(n)); tf.begin();
    for (int e = 0; e < a.len; e++) {
      where("trace " + std::to_string(n + 1) + " event " + std::to_string(e + 1));
      int W = 8 + int(g.below(30)), H = 8 + int(g.below(24)), w = 2 * (1 + int(g.below(g.chance(20) ? 7 : 3))); uint32_t f = g.chance(70) ? 3 : 1;
      if (slope) W = std::min(W, 36); int sx = slope ? 1 : g.chance(60) ? 1 : g.pick({2, 3, -1, -2}), sy = slope ? 1 : g.chance(60) ? 1 : g.pick({2, 3, -1, -2}), tx = slope || g.chance(50) ? 0 : int(g.below(20)) - 6, ty = slope || g.chance(50) ? 0 : int(g.below(20)) - 6; if (sx < 0) tx += W; if (sy < 0) ty += H;
      BLStrokeOptions so; so.width = w; so.join = uint8_t(g.below(5)); so.start_cap = uint8_t(g.below(6)); so.end_cap = uint8_t(g.below(6)); if (g.chance(30)) so.miter_limit = g.chance(50) ? 1.0 : 10.0; bool sharp = so.miter_limit < 1.2; bool before = g.chance(35); so.transform_order = before ? BL_STROKE_TRANSFORM_ORDER_BEFORE : BL_STROKE_TRANSFORM_ORDER_AFTER;
      int need = before ? w / std::min(std::abs(sx), std::abs(sy)) + 1 : w; need = a.extra ? a.extra : std::max(need, w); std::vector<Sub> subs; int k = g.chance(70) ? 1 : 1 + int(g.below(3)); for (int i = 0; i < k; i++) subs.push_back(figure(g, need, slope));
      if (slope && g.chance(60)) { so.join = BL_STROKE_JOIN_ROUND; so.set_caps(BL_STROKE_CAP_ROUND); } if (slope && so.miter_limit > 4) so.miter_limit = 4; int how = int(g.below(slope ? 5 : 6)); if (slope && how == 1) how = 0; // path, path drawn at an origin, polyline, polygon, add_stroked_path, rect or line
      BLPath p; for (auto& s : subs) { p.move_to(s.p[0].x, s.p[0].y); for (size_t i = 1; i < s.p.size(); i++) { int ck = int(g.below(10)); BLPoint q0(s.p[i - 1].x, s.p[i - 1].y), q1(s.p[i].x, s.p[i].y), u = q1 - q0;
          if (ck == 0) { double t = g.below(slope ? 1 : 5) / 4.0; p.quad_to(q0 + u * t, q1); } else if (ck == 1) { double t0 = g.below(5) / 4.0, t1 = g.below(5) / 4.0; if (slope) t0 = t1 = 0; p.cubic_to(q0 + u * std::min(t0, t1), q0 + u * std::max(t0, t1), q1); } // straight curves
          else if (ck < 6) p.line_to(s.p[i].x, s.p[i].y); else { BLPoint q(s.p[i].x, s.p[i].y); p.poly_to(&q, 1); } } if (s.closed) p.close(); }
      std::vector<BLPoint> v; for (auto& q : subs[0].p) v.push_back(BLPoint(q.x, q.y));
      BLImage im(W, H, BLFormat(f)); BLContext c; BLContextCreateInfo ci {}; if (g.chance(25)) ci.thread_count = 1 + g.below(3);
      if (c.begin(im, ci) != BL_SUCCESS) abort(); c.clear_all(); c.set_stroke_options(so); BLRgba32 col(0xFFFFFFFFu); if (g.chance(30)) c.set_fill_rule(BL_FILL_RULE_EVEN_ODD);
      BLMatrix2D m(sx, 0, 0, sy, tx, ty); c.set_transform(m); bool meta = g.chance(30); if (meta) c.user_to_meta(); // the stroke precedes the meta transformation in any order
      BLResult r; int ox = 0, oy = 0;
      if (how == 1) { ox = int(g.below(9)) - 3; oy = int(g.below(9)) - 3; r = c.stroke_path(BLPoint(ox, oy), p, col); for (auto& s : subs) for (auto& q : s.p) { q.x += ox; q.y += oy; } }
      else if (how == 2 && !subs[0].closed) { subs.resize(1); r = c.stroke_polyline(v.data(), v.size(), col); }
      else if (how == 3 && subs[0].closed) { subs.resize(1); r = c.stroke_polygon(v.data(), v.size(), col); }
      else if (how == 4 && !before) { BLPath q; r = q.add_stroked_path(p, so, bl_default_approximation_options); c.set_fill_rule(BL_FILL_RULE_NON_ZERO); if (!r) r = c.fill_path(q, col); }
      else if (how == 5) { int x = int(g.below(20)), y = int(g.below(20)), rw = need + int(g.below(12)), rh = need + int(g.below(12)); Sub s; if (g.chance(60)) { s = Sub{true, {{x, y}, {x + rw, y}, {x + rw, y + rh}, {x, y + rh}}}; r = g.chance(50) ? c.stroke_rect(BLRect(x, y, rw, rh), col) : c.stroke_geometry(BL_GEOMETRY_TYPE_RECTI, [&] { static BLRectI b; b = BLRectI(x, y, rw, rh); return &b; }(), col); } else { s = Sub{false, {{x, y}, {x, y + rh}}}; r = c.stroke_line(x, y, x, y + rh, col); } subs.assign(1, s); }
      else r = g.chance(50) ? c.stroke_path(p, col) : (c.set_stroke_style(col), c.stroke_path(p));
      int cx = 0, cy = 0, cr = 0; bool ring = slope && g.chance(15);
      if (ring) { cx = int(g.below(40)); cy = int(g.below(36)); cr = w / 2 + int(g.below(20)); c.flush(BL_CONTEXT_FLUSH_SYNC); c.clear_all(); BLCircle ci2(cx, cy, cr); if (g.chance(50)) r = c.stroke_circle(ci2, col); else { BLPath q; q.add_circle(ci2, BLMatrix2D(1, 0, 0, 1, 0, 0), g.chance(50) ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW); if (g.chance(50)) r = c.stroke_path(q, col); else { BLPath q2; r = q2.add_stroked_path(q, so, bl_default_approximation_options); c.set_fill_rule(BL_FILL_RULE_NON_ZERO); if (!r) r = c.fill_path(q2, col); } } }
      c.end();
      J ss = J::arr(); for (auto& s : subs) { J pp = J::arr(); for (auto& q : s.p) pp.add(ints({q.x, q.y})); ss.add(J::obj().b("c", s.closed).raw("p", pp.done()).done()); }
      tf.ev(J::obj().str("op", ring ? "ring" : slope ? "slope" : "grid").raw("circle", ints({cx, cy, cr})).i("how", how).i("rc", r).i("w", w).i("iw", W).i("ih", H).i("join", so.join).b("sharp", sharp).i("cap0", so.start_cap).i("cap1", so.end_cap).i("miter", int(so.miter_limit)).b("before", before && !meta).raw("m", ints({sx, sy, tx, ty})).raw("subs", ss.done()).raw("d", rows(im)).done());
    }
    tf.end();
  }
  return 0;
}
