// C12: matrices, and the transformations of gradients, patterns and contexts.
#include "vh.h"
#include "dbgmalloc.h"
#include <math.h>
using namespace vh;
static long q(double v) { return fabs(v) < 1e7 ? long(floor(v * 64 + 0.5)) : 1073741823; }
static std::vector<long> mat(const BLMatrix2D& m) { return {q(m.m00), q(m.m01), q(m.m10), q(m.m11), q(m.m20), q(m.m21)}; }
static std::string ints(const std::vector<long>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ','; r += std::to_string(v[i]); } return r + "]"; }
static bool onGrid(const BLMatrix2D& m, double lin, double tr) { const double v[6] = {m.m00, m.m01, m.m10, m.m11, m.m20, m.m21}; for (int i = 0; i < 6; i++) { double s = v[i] * 64; if (!(fabs(v[i]) <= (i < 4 ? lin : tr)) || fabs(s - floor(s + 0.5)) > 1e-6) return false; } return true; }
static bool exact(const BLMatrix2D& m) { const double v[6] = {m.m00, m.m01, m.m10, m.m11, m.m20, m.m21}; for (double x : v) if (x * 64 != floor(x * 64)) return false; return true; }
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init();
  const double PI = 3.14159265358979323846;
  for (int t = 0; t < a.n; t++) {
    BLMatrix2D M; M.reset(); BLGradientCore G; BLPatternCore P; BLImageCore im; BLContextCore C; bl_gradient_init(&G); bl_pattern_init(&P); bl_image_init_as(&im, 4, 4, BL_FORMAT_PRGB32);
    BLContextCreateInfo ci{}; ci.thread_count = g.chance(20) ? 1 : 0; bl_context_init_as(&C, &im, &ci);
    dm::counting = 1; tf.begin(); int L = a.len / 2 + g.below(a.len); bool frac = g.chance(40);
    auto get = [&](int s) { BLMatrix2D m; switch (s) { case 1: m = M; break; case 2: bl_gradient_get_transform(&G, &m); break; case 3: bl_pattern_get_transform(&P, &m); break; default: bl_context_get_user_transform(&C, &m); } return m; };
    auto entry = [&]() { double v = double(g.range(-2, 3)); return frac && g.chance(20) ? v / 2 : v; };
    auto tr = [&]() { return double(g.range(-200, 200)) / (frac ? 4 : 1); };
    for (int e = 0; e < L; e++) {
      J j = J::obj(); BLResult r = 0; int s = 1 + g.below(4);
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm); return j.str("op", nm).i("s", s); };
      switch (g.below(14)) {
        default: { // an operation
          int op = g.below(14); if (g.chance(6)) op = 14 + g.below(5); double d[3] = {0, 0, 0}; long ld[3] = {0, 0, 0}; BLMatrix2D m(entry(), entry(), entry(), entry(), tr(), tr());
          switch (g.below(6)) { case 0: m.m01 = m.m10 = 0; break; case 1: m.m00 = m.m11 = 0; break; case 2: m.m01 = m.m10 = 0; m.m00 = m.m11 = 1; break; case 3: m.reset(); break; }
          if (op == 2 || op == 8) { d[0] = tr(); d[1] = tr(); ld[0] = q(d[0]); ld[1] = q(d[1]); }
          if (op == 3 || op == 9) { d[0] = entry(); d[1] = entry(); ld[0] = q(d[0]); ld[1] = q(d[1]); }
          if (op == 4 || op == 10) for (int i = 0; i < 2; i++) { int k = g.range(-1, 1); d[i] = k * PI / 4; ld[i] = k * 64; }
          if (op == 5 || op == 6 || op == 11 || op == 12) { int k = g.range(-5, 5); d[0] = k * PI / 2; ld[0] = k; d[1] = tr(); d[2] = tr(); ld[1] = q(d[1]); ld[2] = q(d[2]); }
          const void* dp = (op == 1 || op == 7 || op == 13) ? (const void*)&m : (const void*)d;
          if (op > 13) { base("badop"); }
          else {
            BLMatrix2D z = get(s); bl_matrix2d_apply_op(&z, BLTransformOp(op), dp); // only to keep numbers small enough
            BLMatrix2D f = z, mm; bl_context_get_meta_transform(&C, &mm); if (s == 4) f.post_transform(mm);
            if (!onGrid(z, 60, 900) || !onGrid(f, 3000, 50000)) { op = 0; }
            base("apply").i("k", op).ints("d", std::vector<long>{ld[0], ld[1], ld[2]}).ints("m", mat(m));
          }
          BLTransformOp o = BLTransformOp(op);
          switch (s) { case 1: r = bl_matrix2d_apply_op(&M, o, dp); break; case 2: r = LIB(bl_gradient_apply_transform_op(&G, o, dp)); break; case 3: r = LIB(bl_pattern_apply_transform_op(&P, o, dp)); break; default: r = LIB(bl_context_apply_transform_op(&C, o, dp)); }
          break; }
        case 0: { BLMatrix2D mm, f; bl_context_get_meta_transform(&C, &mm); bl_context_get_final_transform(&C, &f); if (!onGrid(f, 60, 900)) { // start again
            s = 4; base("ctxreset"); bl_context_end(&C); bl_context_begin(&C, &im, &ci); }
          else { base("usermeta"); r = LIB(bl_context_user_to_meta(&C)); } break; }
        case 1: { s = 1; int op = g.pick({0, 2, 3, 4, 5}); double x = 0, y = 0; long lx = 0, ly = 0, lz = 0; if (op == 2) { x = tr(); y = tr(); lx = q(x); ly = q(y); r = bl_matrix2d_set_translation(&M, x, y); } else if (op == 3) { x = entry(); y = entry(); lx = q(x); ly = q(y); r = bl_matrix2d_set_scaling(&M, x, y); }
          else if (op == 4) { int k = g.range(-1, 1), h = g.range(-1, 1); lx = k * 64; ly = h * 64; r = bl_matrix2d_set_skewing(&M, k * PI / 4, h * PI / 4); } else if (op == 5) { int k = g.range(-4, 4); lx = k; x = tr(); y = tr(); ly = q(x); lz = q(y); r = bl_matrix2d_set_rotation(&M, k * PI / 2, x, y); } else r = bl_matrix2d_set_identity(&M);
          base("set").i("k", op).ints("d", std::vector<long>{lx, ly, lz}); break; }
        case 2: case 3: { s = 1; if (!onGrid(M, 8, 100)) { e--; continue; } BLMatrix2D src = get(g.chance(50) ? 1 : s), z; bool same = g.chance(30); if (same) { z = src; r = bl_matrix2d_invert(&z, &z); } else { z.reset(9, 9, 9, 9, 9, 9); r = bl_matrix2d_invert(&z, &src); }
          base("invert").ints("r", r ? mat(same ? src : BLMatrix2D(9, 9, 9, 9, 9, 9)) : mat(z)).b("kept", r && (same ? z == src : z == BLMatrix2D(9, 9, 9, 9, 9, 9))).b("exact", exact(src)); break; }
        case 4: case 5: { BLMatrix2D m = get(s); int n = g.pick({0, 1, 2, 3, 5, 15, 16, 17, 18, 19, 33}); bool inplace = g.chance(40); BLPoint src[40], dst[40]; std::string in = "[", out = "["; for (int i = 0; i < n + 1; i++) src[i] = BLPoint(g.range(-300, 300), g.range(-300, 300));
          for (int i = 0; i < n; i++) { if (i) in += ','; in += ints({q(src[i].x), q(src[i].y)}); } dst[n] = src[n] = BLPoint(5, 7);
          bool one = g.chance(15); if (one) inplace = false;
          if (one) { for (int i = 0; i < n; i++) dst[i] = m.map_point(src[i]); } else r = bl_matrix2d_map_pointd_array(&m, inplace ? src : dst, src, n);
          const BLPoint* res = inplace ? src : dst;
          for (int i = 0; i < n; i++) { if (i) out += ','; out += ints({q(res[i].x), q(res[i].y)}); }
          base("map").raw("in", in + "]").raw("out", out + "]").b("rest", res[n] == BLPoint(5, 7)); break; }
        case 6: { BLMatrix2D m = get(s); BLPoint p(g.range(-300, 300), g.range(-300, 300)); BLPoint v = m.map_vector(p); BLPoint pp = m.map_point(p); base("mapv").ints("p", std::vector<long>{q(p.x), q(p.y)}).ints("v", std::vector<long>{q(v.x), q(v.y)}).ints("w", std::vector<long>{q(pp.x), q(pp.y)}); break; }
      }
      BLMatrix2D mm, ff; bl_context_get_meta_transform(&C, &mm); bl_context_get_final_transform(&C, &ff); std::string st = "[", tt = "[";
      for (int k = 1; k <= 4; k++) { BLMatrix2D m = get(k); st += ints(mat(m)) + ","; if (k > 1) tt += ','; int ty = k == 1 || k == 4 ? m.type() : k == 2 ? bl_gradient_get_transform_type(&G) : bl_pattern_get_transform_type(&P); tt += std::to_string(exact(m) ? ty : -1); }
      st += ints(mat(mm)) + "," + ints(mat(ff)) + "]";
      j.b("ok", r == 0).raw("st", st).raw("tt", tt + "]").i("bad", dm::bad.load()); tf.ev(j.done());
    }
    bl_context_end(&C); bl_context_destroy(&C); bl_image_destroy(&im); bl_pattern_destroy(&P); bl_gradient_destroy(&G); tf.end();
  }
}
