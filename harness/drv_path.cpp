// C06: histories of path operations (mode hist, exact quarter-unit coordinates) and arcs (mode arc, coordinates in 1/64).
#include "vh.h"
#include "dbgmalloc.h"
#include <math.h>
using namespace vh;
static const int K = 3;
static BLPathCore P[K];
static const long NAN_V = 1073741824;
static double SC = 4.0;
static bool g_inexact;
static long q(double v) { if (std::isnan(v)) return NAN_V; double s = v * SC; if (!(fabs(s) < 1e9)) { return NAN_V - 1; } double r = floor(s + 0.5); if (r != s) g_inexact = true; return long(r); }
static size_t psize(const BLPathCore& p) { return bl_path_get_size(&p); }
static std::string dump(const BLPathCore& p) {
  std::string s = "["; size_t n = psize(p); const uint8_t* c = bl_path_get_command_data(&p); const BLPoint* v = bl_path_get_vertex_data(&p);
  if (n > 5000) return "[[-1,0,0]]";
  for (size_t i = 0; i < n; i++) { if (i) s += ','; s += "[" + std::to_string(c[i]) + "," + std::to_string(q(v[i].x)) + "," + std::to_string(q(v[i].y)) + "]"; }
  return s + "]";
}
static double extent(const BLPathCore& p) { double m = 0; size_t n = psize(p); const BLPoint* v = bl_path_get_vertex_data(&p); for (size_t i = 0; i < n; i++) { if (fabs(v[i].x) > m) m = fabs(v[i].x); if (fabs(v[i].y) > m) m = fabs(v[i].y); } return m; }
static void log_state(J& j) {
  std::string st = "["; std::vector<long> caps; for (int k = 0; k < K; k++) { if (k) st += ','; st += dump(P[k]); caps.push_back(long(std::min<size_t>(bl_path_get_capacity(&P[k]), 1000000))); }
  j.raw("st", st + "]").ints("cap", caps).i("bad", dm::bad.load());
}
static std::string pts(const std::vector<BLPoint>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += "[" + std::to_string(q(v[i].x)) + "," + std::to_string(q(v[i].y)) + "]"; } return s + "]"; }

static void hist(Args& a, Rng& g, TraceFile& tf) {
  for (int t = 0; t < a.n; t++) {
    for (int k = 0; k < K; k++) LIB(bl_path_init(&P[k]));
    long live0 = dm::live.load(); tf.begin();
    int spread = g.pick({4, 20, 100}); bool big = g.chance(15);
    auto co = [&]() { return double(g.range(-spread * 4, spread * 4)) / (g.chance(50) ? 4.0 : 1.0); };
    auto pt = [&]() { double x = co(), y = co(); return BLPoint(x, y); };
    auto ip = [&]() { double x = double(g.range(-spread, spread)), y = double(g.range(-spread, spread)); return BLPoint(x, y); };
    int L = a.len / 2 + g.below(a.len);
    for (int e = 0; e < L; e++) {
      int k = g.below(K), o = g.below(K); dm::arm(g); BLResult r = 0; J j = J::obj(); BLPathCore& X = P[k]; int n = int(psize(X)), on = int(psize(P[o]));
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm); return j.str("op", nm).i("s", k + 1); };
      int limit = big ? 120 : 30;
      BLGeometryDirection dir = g.chance(50) ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW; bool ccw = dir != BL_GEOMETRY_DIRECTION_CW;
      int lo = g.below(on + 2), hi = g.below(on + 3); if (g.chance(80) && lo > hi) std::swap(lo, hi); bool whole = g.chance(40);
      BLRange rg{size_t(lo), (hi > on && g.chance(50)) ? SIZE_MAX : size_t(hi)}; const BLRange* rp = whole ? nullptr : &rg; long la = whole ? 0 : lo, lb = whole ? on : std::min(hi, on);
      // transformation with small integer entries
      double mm[6]; for (int i = 0; i < 4; i++) mm[i] = double(g.range(-2, 2)); mm[4] = co(); mm[5] = co();
      switch (g.below(5)) { case 0: mm[0] = mm[3] = 1; mm[1] = mm[2] = 0; break; case 1: mm[1] = mm[2] = 0; break; case 2: mm[0] = mm[3] = 0; break; case 3: mm[0] = mm[3] = 1; mm[1] = mm[2] = 0; mm[4] = mm[5] = 0; break; }
      BLMatrix2D M(mm[0], mm[1], mm[2], mm[3], mm[4], mm[5]); std::vector<long> mi{long(mm[0]), long(mm[1]), long(mm[2]), long(mm[3]), q(mm[4]), q(mm[5])};
      bool useM = g.chance(40); std::vector<long> id{1, 0, 0, 1, 0, 0};
      if (n > limit && g.chance(70)) { base("clear"); r = g.chance(50) ? LIB(bl_path_clear(&X)) : LIB(bl_path_reset(&X)); }
      else switch (g.below(40)) {
        case 0: base("clear"); r = g.chance(60) ? LIB(bl_path_clear(&X)) : LIB(bl_path_reset(&X)); break;
        case 1: base("keep"); r = LIB(bl_path_shrink(&X)); break;
        case 2: if (g.chance(15)) { // sizes that cannot be represented
            size_t h = size_t(-1) / size_t(g.pick({1, 2, 4, 8, 16, 17, 17, 17, 18})) + size_t(g.below(40)) - 40; base("huge"); uint8_t* co_ = nullptr; BLPoint* vo = nullptr; r = g.chance(50) ? LIB(bl_path_reserve(&X, h)) : LIB(bl_path_modify_op(&X, BLModifyOp(g.below(4)), h, &co_, &vo)); break; }
          { int m = g.chance(50) ? int(g.below(40)) : n + int(g.below(5)); base("reserve").i("n", m); r = LIB(bl_path_reserve(&X, size_t(m))); break; }
        case 3: case 4: base("copy").i("o", o + 1); r = LIB(bl_path_assign_weak(&X, &P[o])); break;
        case 5: base("copy").i("o", o + 1); r = LIB(bl_path_assign_deep(&X, &P[o])); break;
        case 6: base("move").i("o", o + 1); if (g.chance(50) || k == o) r = LIB(bl_path_assign_move(&X, &P[o])); else { LIB(bl_path_destroy(&X)); r = LIB(bl_path_init_move(&X, &P[o])); } break;
        case 7: case 8: { BLPoint p = pt(); base("app").raw("c", "[[0," + std::to_string(q(p.x)) + "," + std::to_string(q(p.y)) + "]]"); r = LIB(bl_path_move_to(&X, p.x, p.y)); break; }
        case 9: case 10: { BLPoint p = pt(); base("app").raw("c", "[[1," + std::to_string(q(p.x)) + "," + std::to_string(q(p.y)) + "]]"); r = LIB(bl_path_line_to(&X, p.x, p.y)); break; }
        case 11: { std::vector<BLPoint> v; int m = g.below(6); for (int i = 0; i < m; i++) v.push_back(pt()); base("poly").raw("p", pts(v)); r = LIB(bl_path_poly_to(&X, v.data(), v.size())); break; }
        case 12: { BLPoint p = pt(), z = pt(); base("app").raw("c", "[[2," + std::to_string(q(p.x)) + "," + std::to_string(q(p.y)) + "],[1," + std::to_string(q(z.x)) + "," + std::to_string(q(z.y)) + "]]"); r = LIB(bl_path_quad_to(&X, p.x, p.y, z.x, z.y)); break; }
        case 13: { BLPoint p = pt(), z = pt(); double w = double(1 + g.below(12)) / 4; base("app").raw("c", "[[3," + std::to_string(q(p.x)) + "," + std::to_string(q(p.y)) + "],[6," + std::to_string(q(w)) + ",1073741824],[1," + std::to_string(q(z.x)) + "," + std::to_string(q(z.y)) + "]]"); r = LIB(bl_path_conic_to(&X, p.x, p.y, z.x, z.y, w)); break; }
        case 14: { BLPoint p = pt(), u = pt(), z = pt(); base("app").raw("c", "[[4," + std::to_string(q(p.x)) + "," + std::to_string(q(p.y)) + "],[4," + std::to_string(q(u.x)) + "," + std::to_string(q(u.y)) + "],[1," + std::to_string(q(z.x)) + "," + std::to_string(q(z.y)) + "]]"); r = LIB(bl_path_cubic_to(&X, p.x, p.y, u.x, u.y, z.x, z.y)); break; }
        case 15: { BLPoint z = pt(); base("squad").i("x", q(z.x)).i("y", q(z.y)); r = LIB(bl_path_smooth_quad_to(&X, z.x, z.y)); break; }
        case 16: { BLPoint p = pt(), z = pt(); base("scubic").i("x2", q(p.x)).i("y2", q(p.y)).i("x", q(z.x)).i("y", q(z.y)); r = LIB(bl_path_smooth_cubic_to(&X, p.x, p.y, z.x, z.y)); break; }
        case 17: case 18: base("app").raw("c", "[[5,1073741824,1073741824]]"); r = LIB(bl_path_close(&X)); break;
        case 19: { // replace a vertex
          int i = g.below(n + 1); BLPoint p = pt(); long c = g.chance(60) ? -1 : g.chance(80) ? long(g.below(2)) : g.pick({0, 1, 2, 3, 4, 5, 6, 7, 255});
          if (i < n && bl_path_get_command_data(&X)[i] == BL_PATH_CMD_WEIGHT) { c = -1; p = BLPoint(double(1 + g.below(12)) / 4, NAN); } else if (c == BL_PATH_CMD_WEIGHT) p = BLPoint(double(1 + g.below(12)) / 4, NAN);
          base("setv").i("i", i).i("c", c).i("x", q(p.x)).i("y", q(p.y)); r = LIB(bl_path_set_vertex_at(&X, size_t(i), c < 0 ? uint32_t(BL_PATH_CMD_PRESERVE) : uint32_t(c), p.x, p.y)); break; }
        case 20: case 21: { // box through any of the six interfaces
          BLPoint p = ip(), z = ip(); int api = g.below(8); if (api & 1) { p = pt(); z = pt(); }
          bool m = useM && api >= 4; base("box").raw("p", pts({p, z})).b("ccw", ccw).ints("m", m ? mi : id); const BLMatrix2D* mp = m ? &M : nullptr;
          BLBoxI bi(int(p.x), int(p.y), int(z.x), int(z.y)); BLBox bd(p.x, p.y, z.x, z.y); BLRectI ri(int(p.x), int(p.y), int(z.x - p.x), int(z.y - p.y)); BLRect rd(p.x, p.y, z.x - p.x, z.y - p.y);
          switch (api) { case 0: r = LIB(bl_path_add_box_i(&X, &bi, dir)); break; case 1: r = LIB(bl_path_add_box_d(&X, &bd, dir)); break; case 2: r = LIB(bl_path_add_rect_i(&X, &ri, dir)); break; case 3: r = LIB(bl_path_add_rect_d(&X, &rd, dir)); break;
            case 4: r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_BOXI, &bi, mp, dir)); break; case 5: r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_BOXD, &bd, mp, dir)); break; case 6: r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_RECTI, &ri, mp, dir)); break; default: r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_RECTD, &rd, mp, dir)); }
          break; }
        case 22: case 23: { // line, triangle, polyline, polygon
          int kind = g.below(4); std::vector<BLPoint> v; int m = kind == 0 ? 2 : kind == 1 ? 3 : int(g.below(6)); bool integral = g.chance(50) && kind >= 2; for (int i = 0; i < m; i++) v.push_back(integral ? ip() : pt());
          bool closed = kind == 1 || kind == 3; const BLMatrix2D* mp = useM ? &M : nullptr;
          base("figure").raw("p", pts(v)).b("ccw", ccw).b("closed", closed).ints("m", useM ? mi : id);
          // exact-size heap copies, so that an access outside of them is visible
          BLPoint* hp = (BLPoint*)malloc(v.size() * sizeof(BLPoint) + 1); BLPointI* hi_ = (BLPointI*)malloc(v.size() * sizeof(BLPointI) + 1); for (size_t i = 0; i < v.size(); i++) { hp[i] = v[i]; hi_[i] = BLPointI(int(v[i].x), int(v[i].y)); }
          BLArrayView<BLPoint> vd{hp, v.size()}; BLArrayView<BLPointI> vi{hi_, v.size()};
          r = kind == 0 ? LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_LINE, hp, mp, dir)) : kind == 1 ? LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_TRIANGLE, hp, mp, dir))
            : kind == 2 ? (integral ? LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_POLYLINEI, &vi, mp, dir)) : LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_POLYLINED, &vd, mp, dir)))
            : (integral ? LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_POLYGONI, &vi, mp, dir)) : LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_POLYGOND, &vd, mp, dir)));
          free(hp); free(hi_); break; }
        case 24: { // arrays of boxes (empty boxes are skipped)
          int m = g.below(5); std::vector<BLBoxI> bi; std::vector<BLBox> bd; std::vector<BLRectI> ri; std::vector<BLRect> rd; std::string ps = "[";
          for (int i = 0; i < m; i++) { BLPoint p = ip(), z = ip(); if (g.chance(80)) { if (p.x > z.x) std::swap(p.x, z.x); if (p.y > z.y) std::swap(p.y, z.y); } bi.push_back(BLBoxI(int(p.x), int(p.y), int(z.x), int(z.y))); bd.push_back(BLBox(p.x, p.y, z.x, z.y)); ri.push_back(BLRectI(int(p.x), int(p.y), int(z.x - p.x), int(z.y - p.y))); rd.push_back(BLRect(p.x, p.y, z.x - p.x, z.y - p.y)); if (i) ps += ','; ps += pts({p, z}); }
          base("boxes").raw("bs", ps + "]").b("ccw", ccw).ints("m", useM ? mi : id); const BLMatrix2D* mp = useM ? &M : nullptr;
          auto run = [&](BLGeometryType ty, const void* d, size_t isz) { void* h = malloc(m * isz + 1); memcpy(h, d, m * isz); BLArrayView<uint8_t> av{(uint8_t*)h, size_t(m)}; BLResult q2 = LIB(bl_path_add_geometry(&X, ty, &av, mp, dir)); free(h); return q2; };
          switch (g.below(4)) { case 0: r = run(BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXI, bi.data(), sizeof(BLBoxI)); break; case 1: r = run(BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXD, bd.data(), sizeof(BLBox)); break; case 2: r = run(BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTI, ri.data(), sizeof(BLRectI)); break; default: r = run(BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTD, rd.data(), sizeof(BLRect)); }
          break; }
        case 25: case 26: { if (on > limit) { e--; continue; } base("add").i("o", o + 1).i("a", la).i("b", lb).ints("m", id); r = LIB(bl_path_add_path(&X, &P[o], rp)); break; }
        case 27: { if (on > limit) { e--; continue; } BLPoint p = pt(); base("add").i("o", o + 1).i("a", la).i("b", lb).ints("m", std::vector<long>{1, 0, 0, 1, q(p.x), q(p.y)}); r = LIB(bl_path_add_translated_path(&X, &P[o], rp, &p)); break; }
        case 28: { if (on > limit || extent(P[o]) > 2e4) { e--; continue; } bool geo = g.chance(30); if (geo) la = 0, lb = on; base("add").i("o", o + 1).i("a", la).i("b", lb).ints("m", mi); r = geo ? LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_PATH, &P[o], &M, BL_GEOMETRY_DIRECTION_CW)) : LIB(bl_path_add_transformed_path(&X, &P[o], rp, &M)); break; }
        case 29: case 30: case 31: { if (on > limit || extent(P[o]) > 2e4) { e--; continue; } bool sep = g.chance(40); bool geo = g.chance(35); if (geo) sep = false, la = 0, lb = on; base("addrev").i("o", o + 1).i("a", la).i("b", lb).b("sep", sep).ints("m", geo && useM ? mi : id);
          r = geo ? LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_PATH, &P[o], useM ? &M : nullptr, BL_GEOMETRY_DIRECTION_CCW)) : LIB(bl_path_add_reversed_path(&X, &P[o], rp, sep ? BL_PATH_REVERSE_MODE_SEPARATE : BL_PATH_REVERSE_MODE_COMPLETE)); break; }
        case 32: { int x0 = g.below(n + 2), x1 = g.below(n + 3); if (g.chance(80) && x0 > x1) std::swap(x0, x1); BLRange rr{size_t(x0), size_t(x1)}; base("remove").i("a", x0).i("b", std::min(x1, n)); r = LIB(bl_path_remove_range(&X, &rr)); break; }
        case 33: case 34: { if (extent(X) > 2e4) { e--; continue; } int x0 = g.below(n + 2), x1 = g.below(n + 3); if (g.chance(80) && x0 > x1) std::swap(x0, x1); if (g.chance(30)) x0 = 0, x1 = n + 1; BLRange rr{size_t(x0), size_t(x1)}; bool tr = g.chance(40);
          if (tr) { BLPoint p = pt(); base("xform").i("a", x0).i("b", std::min(x1, n)).ints("m", std::vector<long>{1, 0, 0, 1, q(p.x), q(p.y)}); r = LIB(bl_path_translate(&X, &rr, &p)); }
          else { base("xform").i("a", x0).i("b", std::min(x1, n)).ints("m", mi); r = LIB(bl_path_transform(&X, &rr, &M)); } break; }
        case 35: { // scale and move so that the bounding box becomes the given rectangle (only when that is exact)
          BLBox b; if (bl_path_get_bounding_box(&X, &b) || n == 0) { e--; continue; } bool lines = true; for (int i = 0; i < n; i++) { int c = bl_path_get_command_data(&X)[i]; lines &= c == 0 || c == 1 || c == 5; } double w = b.x1 - b.x0, h = b.y1 - b.y0;
          auto p2 = [](double v) { if (v < 0.25 || v > 1024) return false; int x; return frexp(v, &x) == 0.5; }; if (!lines || !p2(w) || !p2(h) || extent(X) > 1000) { e--; continue; }
          BLRect fr(double(g.range(-50, 50)), double(g.range(-50, 50)), w * (1 << g.below(3)), h * (1 << g.below(3))); base("fit").raw("p", pts({BLPoint(fr.x, fr.y), BLPoint(fr.w, fr.h)})); r = LIB(bl_path_fit_to(&X, nullptr, &fr, 0)); break; }
        case 36: { if (extent(X) > 500) { e--; continue; } BLBox b{}, c{}; uint32_t fl = 0; BLResult r1 = bl_path_get_info_flags(&X, &fl), r2 = bl_path_get_bounding_box(&X, &b), r3 = bl_path_get_control_box(&X, &c);
          double os = SC; base("info").i("fl", long(fl)).b("i1", r1 == 0).b("i2", r2 == 0).b("i3", r3 == 0); j.ints("cb", std::vector<long>{q(c.x0), q(c.y0), q(c.x1), q(c.y1)}); SC = 64; j.ints("bb", std::vector<long>{q(b.x0), q(b.y0), q(b.x1), q(b.y1)}); SC = os; break; }
        case 37: { int i = g.below(n + 1); BLRange rr{7, 7}; BLResult r1 = bl_path_get_figure_range(&X, size_t(i), &rr); BLPoint p; BLResult r2 = bl_path_get_last_vertex(&X, &p);
          base("parts").i("i", i).b("fok", r1 == 0).i("fa", long(rr.start)).i("fb", long(rr.end)).b("lok", r2 == 0).i("lx", q(p.x)).i("ly", q(p.y)); break; }
        case 38: { if (extent(X) > 2000) { e--; continue; } BLPoint p = pt(); bool lim = g.chance(50); double md = double(1 + g.below(spread * 2)); size_t ix;
          if (n && g.chance(60)) { BLPoint v = bl_path_get_vertex_data(&X)[g.below(n)]; if (std::isfinite(v.x) && std::isfinite(v.y)) { p = BLPoint(v.x + double(g.range(-12, 12)) / 4, v.y + double(g.range(-12, 12)) / 4); md = double(1 + g.below(4)); } }
           double d; BLResult rr = bl_path_get_closest_vertex(&X, &p, lim ? md : 0.0, &ix, &d);
          base("closest").i("x", q(p.x)).i("y", q(p.y)).i("md", lim ? long(md * 4) : 0).b("found", ix != SIZE_MAX).i("ix", ix == SIZE_MAX ? -1 : long(ix)).i("d2", ix == SIZE_MAX ? 0 : long(floor(d * d * 16 + 0.5))).b("rok", rr == 0); break; }
        case 39: base("equals").i("o", o + 1).b("q", bl_path_equals(&X, &P[o])); break;
      }
      j.b("ok", r == BL_SUCCESS); dm::mark(j, r); log_state(j); tf.ev(j.done());
    }
    for (int k = 0; k < K; k++) LIB(bl_path_destroy(&P[k]));
    dm::sweep();
    J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load()); tf.ev(j.done()); tf.end();
  }
}

// Arcs: every vertex is logged relative to the centre, divided by the radii, in units of 1/4096.
static void arcs(Args& a, Rng& g, TraceFile& tf) {
  for (int t = 0; t < a.n; t++) {
    tf.begin(); BLPathCore& X = P[0]; LIB(bl_path_init(&X));
    for (int e = 0; e < a.len; e++) {
      bl_path_clear(&X); J j = J::obj(); BLResult r = 0;
      double cx = g.range(-200, 200), cy = g.range(-200, 200), rx = g.range(1, 300), ry = g.chance(50) ? rx : g.range(1, 300);
      BLGeometryDirection dir = g.chance(50) ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW; bool ccw = dir != BL_GEOMETRY_DIRECTION_CW;
      int sa = g.range(-24, 24), sw = g.range(-26, 26); double start = sa * 3.14159265358979323846 / 12, sweep = sw * 3.14159265358979323846 / 12; // multiples of 15 degrees
      int kind = g.below(8); const char* nm = "";
      auto norm = [&](size_t from) { std::string s = "["; size_t n = psize(X); const uint8_t* c = bl_path_get_command_data(&X); const BLPoint* v = bl_path_get_vertex_data(&X);
        for (size_t i = from; i < n; i++) { if (i > from) s += ','; if (c[i] == BL_PATH_CMD_WEIGHT) { s += "[6," + std::to_string(long(floor(v[i].x * 4096 + 0.5))) + ",0]"; continue; } auto z = [&](double d, double cc, double rr) { return std::isnan(d) ? NAN_V : long(floor((d - cc) / rr * 4096 + 0.5)); }; s += "[" + std::to_string(c[i]) + "," + std::to_string(z(v[i].x, cx, rx)) + "," + std::to_string(z(v[i].y, cy, ry)) + "]"; } return s + "]"; };
      BLArc arc(cx, cy, rx, ry, start, sweep);
      switch (kind) {
        case 0: nm = "ellipse"; if (rx == ry && g.chance(50)) { BLCircle c(cx, cy, rx); r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_CIRCLE, &c, nullptr, dir)); } else { BLEllipse c(cx, cy, rx, ry); r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_ELLIPSE, &c, nullptr, dir)); } sa = 0; sw = 24; break;
        case 1: nm = "arc"; r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_ARC, &arc, nullptr, dir)); break;
        case 2: nm = "chord"; r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_CHORD, &arc, nullptr, dir)); break;
        case 3: nm = "pie"; r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_PIE, &arc, nullptr, dir)); break;
        case 4: { nm = "arcto"; ccw = false; bool cur = g.chance(60), force = g.chance(30); if (cur) { bl_path_move_to(&X, cx, cy); if (g.chance(20)) bl_path_close(&X); } bool open = cur && bl_path_get_command_data(&X)[psize(X) - 1] != BL_PATH_CMD_CLOSE; size_t from = psize(X); r = LIB(bl_path_arc_to(&X, cx, cy, rx, ry, start, sweep, force)); j.b("join", open && !force).b("pre", from <= psize(X)); j.raw("v", norm(from)); break; }
        case 5: { nm = "round"; double w = g.range(1, 400), h = g.range(1, 400), qx = g.range(-60, 300), qy = g.range(-60, 300); BLRoundRect rr(cx, cy, w, h, qx, qy); r = LIB(bl_path_add_geometry(&X, BL_GEOMETRY_TYPE_ROUND_RECT, &rr, nullptr, dir));
          SC = 64; j.ints("q", std::vector<long>{q(cx), q(cy), q(w), q(h), q(qx), q(qy)}); j.raw("v", dump(X)); SC = 4; break; }
        case 6: { // elliptical arc between two points of a known circle (Pythagorean points), scaled by the radii
          static const int T[][2] = {{65,0},{63,16},{60,25},{56,33},{52,39},{39,52},{33,56},{25,60},{16,63}}; auto pp = [&](int& x, int& y) { auto& q2 = T[g.below(9)]; x = q2[0]; y = q2[1]; int rot = g.below(4); for (int i = 0; i < rot; i++) { int z = x; x = -y; y = z; } };
          int ax, ay, bx, by; pp(ax, ay); pp(bx, by); bool small = g.chance(20); if (small) { bx = -ax; by = -ay; } else if ((ax == bx && ay == by) || ax * by == ay * bx) { e--; continue; } // diameters only with radii that have to be scaled up
          bool sweepf = g.chance(50); long cr = long(ax) * by - long(ay) * bx; bool large = sweepf != (cr > 0); double kx = g.range(1, 4), ky = g.chance(50) ? kx : double(g.range(1, 4)); rx = 65 * kx; ry = 65 * ky;
          double dv = small ? double(2 << g.below(3)) : 1.0; int quarter = g.range(-3, 3); double phi = quarter * 1.57079632679489661923, px = (g.chance(30) ? -rx : rx) / dv, py = (g.chance(30) ? -ry : ry) / dv; if (quarter & 1) std::swap(px, py); if (small) large = g.chance(50); nm = "svgarc"; bl_path_move_to(&X, cx + ax * kx, cy + ay * ky); r = LIB(bl_path_elliptic_arc_to(&X, px, py, phi, large, sweepf, cx + bx * kx, cy + by * ky)); j.b("sweep", sweepf).ints("ab", std::vector<int>{ax, ay, bx, by}); j.raw("v", norm(0)); break; }
        case 7: { nm = "quadrant"; int c0 = sa & 3; static const int D[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; int c1 = (c0 + (sw < 0 ? 3 : 1)) & 3; sa = c0 * 6; sw = sw < 0 ? -6 : 6; ccw = false; bl_path_move_to(&X, cx + D[c0][0] * rx, cy + D[c0][1] * ry);
          r = LIB(bl_path_arc_quadrant_to(&X, cx + (D[c0][0] + D[c1][0]) * rx, cy + (D[c0][1] + D[c1][1]) * ry, cx + D[c1][0] * rx, cy + D[c1][1] * ry)); j.raw("v", norm(0)); break; }
      }
      if (kind < 4) j.raw("v", norm(0));
      where(nm); j.str("op", nm).b("ccw", ccw).i("sa", sa).i("sw", sw).b("ok", r == 0).i("bad", dm::bad.load()); tf.ev(j.done());
    }
    LIB(bl_path_destroy(&X)); tf.end();
  }
}
int main(int argc, char** argv) { Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); dm::counting = 1; dm::inject_p = a.extra; if (a.mode == "arc") arcs(a, g, tf); else hist(a, g, tf); if (g_inexact && a.mode != "arc") { } }
