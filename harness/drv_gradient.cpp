// C07: histories of gradient operations.
#include "vh.h"
#include "dbgmalloc.h"
#include <math.h>
using namespace vh;
static const int K = 3;
static BLGradientCore G[K];
static long q(double v) { return fabs(v) < 1e8 ? long(floor(v * 64 + 0.5)) : 1073741823; }
static std::string stop(const BLGradientStop& s) { return "[" + std::to_string(q(s.offset)) + "," + std::to_string(s.rgba.a()) + "," + std::to_string(s.rgba.r()) + "," + std::to_string(s.rgba.g()) + "," + std::to_string(s.rgba.b()) + "]"; }
static std::string stops(const BLGradientStop* s, size_t n) { std::string r = "["; for (size_t i = 0; i < n; i++) { if (i) r += ','; r += stop(s[i]); } return r + "]"; }
static std::vector<long> mat(const BLMatrix2D& m) { return {q(m.m00), q(m.m01), q(m.m10), q(m.m11), q(m.m20), q(m.m21)}; }
static std::string ints(const std::vector<long>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ','; r += std::to_string(v[i]); } return r + "]"; }
static std::string dump(const BLGradientCore& g) {
  J j = J::obj(); std::vector<long> v; for (int i = 0; i < 6; i++) v.push_back(q(bl_gradient_get_value(&g, i)));
  BLMatrix2D m; bl_gradient_get_transform(&g, &m); size_t n = bl_gradient_get_size(&g);
  j.i("type", bl_gradient_get_type(&g)).i("ext", bl_gradient_get_extend_mode(&g)).ints("val", v).ints("m", mat(m)).i("tt", bl_gradient_get_transform_type(&g)).raw("stops", n > 3000 ? "[]" : stops(bl_gradient_get_stops(&g), n)).b("room", bl_gradient_get_capacity(&g) >= n);
  return j.done();
}
static uint64_t render(const BLGradientCore* g) {
  BLImageCore im; bl_image_init_as(&im, 64, 3, BL_FORMAT_PRGB32); BLContextCore c; bl_context_init_as(&c, &im, nullptr); bl_context_clear_all(&c);
  BLRect r(0, 0, 64, 3); bl_context_fill_geometry_ext(&c, BL_GEOMETRY_TYPE_RECTD, &r, g); bl_context_end(&c); bl_context_destroy(&c);
  BLImageData d; bl_image_get_data(&im, &d); if (!d.pixel_data) return 0; /* allocation failed */ uint64_t h = 1469598103934665603ull; for (int y = 0; y < 3; y++) for (int x = 0; x < 256; x++) h = (h ^ ((uint8_t*)d.pixel_data)[y * d.stride + x]) * 1099511628211ull;
  bl_image_destroy(&im); return h;
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init();
  { BLGradientCore w; bl_gradient_init(&w); bl_gradient_add_stop_rgba32(&w, 0, 1); bl_gradient_add_stop_rgba32(&w, 1, ~0u); render(&w); bl_gradient_destroy(&w); }
  dm::counting = 1; dm::inject_p = a.extra;
  for (int t = 0; t < a.n; t++) {
    for (int k = 0; k < K; k++) LIB(bl_gradient_init(&G[k]));
    long live0 = dm::live.load(); tf.begin(); int script = 0, sk = 0;
    int grid = g.pick({1, 4, 8, 32}); bool many = g.chance(15); int L = a.len / 2 + g.below(a.len);
    auto off = [&]() { return double(g.below(grid + 1)) / grid; };
    auto anyoff = [&]() { return g.chance(93) ? off() : g.chance(50) ? -1.0 - g.below(3) : 1.0 + (1 + g.below(40)) / 8.0; };
    auto col = [&]() { return BLRgba64(uint32_t(g.below(65536)), uint32_t(g.below(65536)), uint32_t(g.below(65536)), g.chance(50) ? 65535u : uint32_t(g.below(65536))); };
    auto val = [&]() { return double(g.range(-64, 256)) / 4; };
    for (int e = 0; e < L; e++) {
      int k = g.below(K), o = g.below(K), opc = g.below(26);
      if (script) { // drawn, shared, edited and drawn again: the colours cached by the first drawing must not survive
        if (script == 3) { o = sk; k = (sk + 1 + g.below(K - 1)) % K; opc = 3; } else if (script == 2) { k = sk; opc = 7 + g.below(15); } else { k = sk; opc = 25; }
        script--; }
      dm::arm(g); BLResult r = 0; J j = J::obj(); BLGradientCore& X = G[k]; int n = int(bl_gradient_get_size(&X));
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm); return j.str("op", nm).i("s", k + 1); };
      auto list = [&](int m) { std::vector<BLGradientStop> v; double last = 0; bool sorted = g.chance(50); for (int i = 0; i < m; i++) { double f = sorted ? std::max(last, g.chance(60) ? last + 1.0 / grid : off()) : anyoff(); if (sorted && f > 1) f = 1; last = f; v.push_back(BLGradientStop(f, col())); } return v; };
      if (n > (many ? 60 : 12) && g.chance(60)) { base("clear"); r = LIB(bl_gradient_reset(&X)); }
      else switch (opc) {
        case 0: base("clear"); r = LIB(bl_gradient_reset(&X)); break;
        case 1: base("keep"); r = LIB(bl_gradient_shrink(&X)); break;
        case 2: if (g.chance(15)) { size_t h = size_t(-1) / size_t(g.pick({1, 2, 4, 8, 15, 16, 16, 16, 17})) + size_t(g.below(40)) - 40; base("huge"); r = LIB(bl_gradient_reserve(&X, h)); break; }
          { int m = g.chance(60) ? int(g.below(20)) : n + int(g.below(5)); base("keep").i("n", m); r = LIB(bl_gradient_reserve(&X, size_t(m))); if (!r && bl_gradient_get_capacity(&X) < size_t(m)) r = 1; break; }
        case 3: case 4: base("copy").i("o", o + 1); r = LIB(bl_gradient_assign_weak(&X, &G[o])); break;
        case 5: base("move").i("o", o + 1); r = LIB(bl_gradient_assign_move(&X, &G[o])); break;
        case 6: { int ty = g.below(3), ext = g.chance(90) ? g.below(3) : 3 + g.below(3); if (g.chance(5)) ty = 3 + g.below(4); double vv[6]; std::vector<long> vl; bool nov = g.chance(20); for (auto& x : vv) { x = nov ? 0 : val(); vl.push_back(q(x)); }
          auto v = list(g.below(many ? 50 : 7)); BLMatrix2D m(g.range(-2, 2), g.range(-2, 2), g.range(-2, 2), g.range(-2, 2), val(), val()); bool um = g.chance(50); if (!um) m.reset();
          base("create").i("type", ty).i("ext", ext).ints("val", vl).raw("new", stops(v.data(), v.size())).ints("m", mat(m)); const double* vp = nov ? nullptr : vv; const BLMatrix2D* mp = um ? &m : nullptr;
          r = LIB(bl_gradient_create(&X, BLGradientType(ty), vp, BLExtendMode(ext), v.data(), v.size(), mp)); break; }
        case 7: { int ty = g.chance(90) ? g.below(3) : 3 + g.below(3); base("type").i("v", ty); r = LIB(bl_gradient_set_type(&X, BLGradientType(ty))); break; }
        case 8: { int ty = g.chance(90) ? g.below(3) : 3 + g.below(6); base("ext").i("v", ty); r = LIB(bl_gradient_set_extend_mode(&X, BLExtendMode(ty))); break; }
        case 9: { int i = g.chance(90) ? g.below(6) : 6 + g.below(3); double v = val(); base("vals").i("i", i).ints("v", std::vector<long>{q(v)}); r = LIB(bl_gradient_set_value(&X, i, v)); break; }
        case 10: { int i = g.below(7), m = g.below(7); double v[8]; std::vector<long> vl; for (int x = 0; x < m; x++) vl.push_back(q(v[x] = val())); base("vals").i("i", i).ints("v", vl); r = LIB(bl_gradient_set_values(&X, i, v, m)); break; }
        case 11: base("assign").raw("new", "[]"); r = LIB(bl_gradient_reset_stops(&X)); break;
        case 12: { int m = g.below(many ? 50 : 7); auto v = list(m); base("assign").raw("new", stops(v.data(), v.size())); r = LIB(bl_gradient_assign_stops(&X, v.data(), v.size())); break; }
        case 13: { if (!n) { e--; continue; } int x0 = g.below(n), m = 1 + g.below(n - x0); const BLGradientStop* s = bl_gradient_get_stops(&X) + x0; base("assign").raw("new", stops(s, m)); r = LIB(bl_gradient_assign_stops(&X, s, m)); break; } // its own stops
        case 14: case 15: case 16: { double f = anyoff(); BLRgba64 c = col(); base("add"); if (g.chance(50)) { BLRgba32 c8(c); j.raw("new", stop(BLGradientStop(f, BLRgba64(c8)))); r = LIB(bl_gradient_add_stop_rgba32(&X, f, c8.value)); } else { j.raw("new", stop(BLGradientStop(f, c))); r = LIB(bl_gradient_add_stop_rgba64(&X, f, c.value)); } break; }
        case 17: { int i = g.below(n + 2); base("rmrange").i("a", i).i("b", i + 1); r = LIB(bl_gradient_remove_stop(&X, i)); break; }
        case 18: { int i = g.below(n + 2), b = g.below(n + 4); if (g.chance(80) && i > b) std::swap(i, b); base("rmrange").i("a", i).i("b", b); r = LIB(bl_gradient_remove_stops_by_index(&X, i, b)); break; }
        case 19: { double f = anyoff(); bool all = g.chance(50); base("rmoff").i("f", q(f)).b("all", all); r = LIB(bl_gradient_remove_stop_by_offset(&X, f, all)); break; }
        case 20: { double f = anyoff(), h = anyoff(); if (g.chance(80) && f > h) std::swap(f, h); base("rmoffs").i("f", q(f)).i("h", q(h)); r = LIB(bl_gradient_remove_stops_by_offset(&X, f, h)); break; }
        case 21: { int i = g.below(n + 1); double f = anyoff(); if (i < n && g.chance(30)) f = bl_gradient_get_stops(&X)[i].offset; BLRgba64 c = col(); base("replace").i("i", i); if (g.chance(50)) { BLRgba32 c8(c); j.raw("new", stop(BLGradientStop(f, BLRgba64(c8)))); r = LIB(bl_gradient_replace_stop_rgba32(&X, i, f, c8.value)); } else { j.raw("new", stop(BLGradientStop(f, c))); r = LIB(bl_gradient_replace_stop_rgba64(&X, i, f, c.value)); } break; }
        case 22: { double f = anyoff(); size_t i = bl_gradient_index_of_stop(&X, f); base("index").i("f", q(f)).i("r", i == SIZE_MAX ? -1 : long(i)); break; }
        case 23: { int op = g.pick({0, 1, 2, 3, 8, 9}); double d[2] = {op == 3 || op == 9 ? double(g.range(-2, 3)) : val(), op == 3 || op == 9 ? double(g.range(-2, 3)) : val()}; BLMatrix2D m(g.range(-2, 2), g.range(-2, 2), g.range(-2, 2), g.range(-2, 2), val(), val()); BLMatrix2D cur; bl_gradient_get_transform(&X, &cur); if (fabs(cur.m00) + fabs(cur.m11) + fabs(cur.m01) + fabs(cur.m10) > 60 || fabs(cur.m20) + fabs(cur.m21) > 30000) op = 0;
          base("xform").i("k", op).ints("d", std::vector<long>{q(d[0]), q(d[1])}).ints("m", mat(m)); r = LIB(bl_gradient_apply_transform_op(&X, BLTransformOp(op), op == 1 ? (const void*)&m : (const void*)d)); break; }
        case 24: { auto nz = [](const BLGradientCore& xc) { const BLGradient& x = *(const BLGradient*)&xc; bool r = false; BLMatrix2D m = x.transform(); for (double v : {m.m00, m.m01, m.m10, m.m11, m.m20, m.m21}) r = r || (v == 0 && std::signbit(v)); for (int i = 0; i < 6; i++) { double v = bl_gradient_get_value((const BLGradientCore*)&x, size_t(i)); r = r || (v == 0 && std::signbit(v)); } return r; }; base("equals").i("o", o + 1).b("nz", nz(X) || nz(G[o])).b("q", bl_gradient_equals(&X, &G[o])); break; }
        case 25: { // colours do not depend on the history: the same as of a gradient created at once
          BLGradientCore f; double v[6]; for (int i = 0; i < 6; i++) v[i] = bl_gradient_get_value(&X, i); BLMatrix2D m; bl_gradient_get_transform(&X, &m);
          LIB(bl_gradient_init_as(&f, bl_gradient_get_type(&X), v, bl_gradient_get_extend_mode(&X), nullptr, 0, &m)); for (int i = 0; i < n; i++) { auto& s = bl_gradient_get_stops(&X)[i]; LIB(bl_gradient_add_stop_rgba64(&f, s.offset, s.rgba.value)); }
          uint64_t h1 = LIB(render(&X)), h2 = LIB(render(&f)); LIB(bl_gradient_destroy(&f)); base("draw").b("same", h1 == h2); if (!script && g.chance(60)) { sk = k; script = 2 + g.below(2); } break; }
      }
      j.b("ok", r == BL_SUCCESS); dm::mark(j, r); std::string st = "["; for (int i = 0; i < K; i++) { if (i) st += ','; st += dump(G[i]); } j.raw("st", st + "]").i("bad", dm::bad.load()); tf.ev(j.done());
    }
    for (int k = 0; k < K; k++) LIB(bl_gradient_destroy(&G[k]));
    dm::sweep();
    J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load()); tf.ev(j.done()); tf.end();
  }
}
