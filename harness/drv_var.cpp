// C09 / C03: histories of variants holding numbers, colours and objects: assignment, copies, moves, in-place mutation of the
// held object, conversions, comparisons; properties of contexts and encoders (mode prop).
#include "vh.h"
#include "dbgmalloc.h"
#include <math.h>
using namespace vh;
static const int K = 4;
static BLVarCore S[K];
static int g_bad;
static std::string num(int sg, unsigned __int128 q4) { // quarters
  if (!q4) sg = 0; uint64_t f = uint64_t(q4 & 3); q4 >>= 2; uint64_t lo = uint64_t(q4 & 0x3FFFFF), mid = uint64_t((q4 >> 22) & 0x3FFFFF), hi = uint64_t(q4 >> 44);
  return "[" + std::to_string(sg) + "," + std::to_string(hi) + "," + std::to_string(mid) + "," + std::to_string(lo) + "," + std::to_string(f) + "]";
}
static std::string ni(int64_t v) { return num(v < 0 ? -1 : 1, (unsigned __int128)(v < 0 ? 0 - uint64_t(v) : uint64_t(v)) << 2); }
static std::string nu(uint64_t v) { return num(1, (unsigned __int128)v << 2); }
static const char* Z = "[0,0,0,0,0]";
static std::string val(int t, const char* k, const std::string& n, const std::string& c = "[]") { return "{\"t\":" + std::to_string(t) + ",\"k\":\"" + k + "\",\"n\":" + n + ",\"c\":" + c + "}"; }
static std::string nd(double v, std::string& k) {
  if (std::isnan(v)) { k = "nan"; return Z; } int sg = v < 0 ? -1 : 1;
  if (std::isinf(v)) { k = "inf"; return num(sg, 4); }
  double a = fabs(v); if (a >= 7e19) { k = "huge"; return num(sg, 4); }
  if (a > 0 && a < 0.25) { k = "tiny"; return num(sg, 4); }
  k = "num"; long double q = (long double)a * 4; if (floorl(q) != q) { k = "odd"; return num(sg, 4); } return num(sg, (unsigned __int128)q);
}
static std::string vd(double v) { std::string k, n = nd(v, k); return val(31, k.c_str(), n, (v == 0 && std::signbit(v)) ? "[1]" : "[]"); }
static std::string ints(std::initializer_list<long> l) { std::string s = "["; for (long x : l) { if (s.size() > 1) s += ','; s += std::to_string(x); } return s + "]"; }
static long fq(float f) { if (!(fabs(f) < 1e6)) return 99999999; return lround(double(f) * 1024); }
static std::string c32(uint32_t v) { return ints({long(v >> 16 & 255), long(v >> 8 & 255), long(v & 255), long(v >> 24)}); }
static std::string c64(uint64_t v) { return ints({long(v >> 32 & 0xFFFF), long(v >> 16 & 0xFFFF), long(v & 0xFFFF), long(v >> 48)}); }
static std::string cf(const BLRgba& c) { return ints({fq(c.r), fq(c.g), fq(c.b), fq(c.a)}); }
static std::string cf65535(const BLRgba& c) { auto q = [](float f) { return fabs(f) < 100 ? lround(double(f) * 65535 * 64) : -1L; }; return ints({q(c.r), q(c.g), q(c.b), q(c.a)}); }

// Objects that stand for a number 1..99 (0 is the default of the type).
static BLFontFaceCore g_face; static bool g_have_face; static BLImageCore g_img;
static const int kObj[] = {32, 38, 33, 10, 5, 4, 9, 26, 25, 17, 18, 16};
static const BLTag kF[] = {BL_MAKE_TAG('a','a','l','t'), BL_MAKE_TAG('s','s','0','1'), BL_MAKE_TAG('c','v','0','1'), BL_MAKE_TAG('c','v','0','2'), BL_MAKE_TAG('c','v','0','3'), BL_MAKE_TAG('c','v','0','4')};
static const BLTag kV[] = {BL_MAKE_TAG('w','g','h','t'), BL_MAKE_TAG('w','d','t','h'), BL_MAKE_TAG('x','a','a','a'), BL_MAKE_TAG('x','a','a','b')};
template<class T> static T* as(void* o) { return (T*)o; }
struct Text { char b[48]; size_t n; const char* data() const { return b; } size_t size() const { return n; } }; // no allocation
static Text text(int id) { Text s; s.n = size_t(snprintf(s.b, 48, "%d", id)); if (id % 3 == 0) { memset(s.b + s.n, 'x', 40 - s.n); s.n = 40; } return s; }
// Changes the object `o` of type t in place so that it stands for id.
static BLResult mutate(Rng& g, int t, BLObjectCore* o, int id, bool fresh) {
  BLResult r = 0; bool b = g.chance(50);
  switch (t) {
    case 32: { auto s = as<BLStringCore>(o); Text x = text(id); char* p; if (b && bl_string_get_size(s) == x.size()) { r = bl_string_make_mutable(s, &p); if (!r) memcpy(p, x.data(), x.size()); } else if (g.chance(50)) { r = bl_string_clear(s); if (!r) r = bl_string_apply_op_data(s, BL_MODIFY_OP_APPEND_GROW, x.data(), x.size()); } else r = bl_string_assign_data(s, x.data(), x.size()); break; }
    case 38: { auto a = as<BLArrayCore>(o); size_t n = size_t(id % 4 + 1); int v = id; void* p; r = bl_array_resize(a, n, &v); if (!r) r = bl_array_make_mutable(a, &p); if (!r) for (size_t i = 0; i < n; i++) ((int*)p)[i] = id; break; }
    case 33: { auto a = as<BLArrayCore>(o); BLStringCore s; Text x = text(id); if (bl_string_init_with_data(&s, x.data(), x.size())) return BL_ERROR_OUT_OF_MEMORY; if (bl_array_get_size(a) == 1 && b) { // through the item inside of the array
          void* p; r = bl_array_make_mutable(a, &p); if (!r) r = bl_string_assign_data((BLStringCore*)p, x.data(), x.size()); } else { r = bl_array_clear(a); if (!r) r = bl_array_append_item(a, &s); } bl_string_destroy(&s); break; }
    case 10: { auto p = as<BLPathCore>(o); if (b && bl_path_get_size(p) == 2) { r = bl_path_set_vertex_at(p, 0, BL_PATH_CMD_PRESERVE, id, 1); if (!r) r = bl_path_set_vertex_at(p, 1, BL_PATH_CMD_PRESERVE, 1, id); } else { r = bl_path_clear(p); if (!r) r = bl_path_move_to(p, id, 1); if (!r) r = bl_path_line_to(p, 1, id); } break; }
    case 5: { auto q = as<BLGradientCore>(o); r = bl_gradient_set_value(q, 0, id); if (!r) { if (b && bl_gradient_get_size(q) == 1) r = bl_gradient_replace_stop_rgba32(q, 0, 0.5, uint32_t(id)); else { bl_gradient_reset_stops(q); r = bl_gradient_add_stop_rgba32(q, 0.5, uint32_t(id)); } } if (!r) { BLMatrix2D m(1, 0, 0, 1, double(id), 0); r = bl_gradient_apply_transform_op(q, BL_TRANSFORM_OP_ASSIGN, &m); } break; }
    case 4: { auto p = as<BLPatternCore>(o); BLRectI a(0, 0, id, 1); BLImageCore im; bl_image_init(&im); bl_pattern_get_image(p, &im); int w = 0; { BLImageData d; if (!bl_image_get_data(&im, &d)) w = d.size.w; } bl_image_destroy(&im);
      if (w != 100 || b) r = bl_pattern_set_image(p, &g_img, &a); else r = bl_pattern_set_area(p, &a); if (!r) { BLMatrix2D m(1, 0, 0, 1, double(id), 0); r = bl_pattern_apply_transform_op(p, BL_TRANSFORM_OP_ASSIGN, &m); } break; }
    case 9: { auto im = as<BLImageCore>(o); BLImageData d; bl_image_get_data(im, &d); if (d.size.w != 8) { r = bl_image_create(im, 8, 1, BL_FORMAT_PRGB32); if (r) return r; }
      if (b) { r = bl_image_make_mutable(im, &d); if (!r) for (int i = 0; i < 8; i++) ((uint32_t*)d.pixel_data)[i] = 0xFF000000u | uint32_t(id); }
      else { BLContextCore c; r = bl_context_init_as(&c, im, nullptr); if (!r) { bl_context_set_comp_op(&c, BL_COMP_OP_SRC_COPY); r = bl_context_fill_all_rgba32(&c, 0xFF000000u | uint32_t(id)); bl_context_end(&c); } bl_context_destroy(&c); } break; }
    case 26: { auto s = as<BLBitSetCore>(o); if (b) { r = bl_bit_set_clear(s); if (!r) r = bl_bit_set_add_bit(s, uint32_t(id)); } else { r = bl_bit_set_add_range(s, 0, 5000); if (!r) r = bl_bit_set_clear_range(s, 0, uint32_t(id)); if (!r) r = bl_bit_set_clear_range(s, uint32_t(id) + 1, 5000); } if (!r && id % 2) r = bl_bit_set_add_range(s, 2000, 3000); else if (!r) r = bl_bit_set_clear_range(s, 1000, 5000); break; }
    case 25: { auto s = as<BLBitArrayCore>(o); r = bl_bit_array_resize(s, id % 2 ? 160 : 130); if (!r) r = bl_bit_array_clear_range(s, 0, 130); if (!r) r = bl_bit_array_set_bit(s, uint32_t(id)); break; }
    case 17: { auto s = as<BLFontFeatureSettingsCore>(o); int n = id % 3 ? 2 : 6; for (int i = 0; i < 6 && !r; i++) r = i < n ? bl_font_feature_settings_set_value(s, kF[i], uint32_t(id)) : bl_font_feature_settings_remove_value(s, kF[i]); break; }
    case 18: { auto s = as<BLFontVariationSettingsCore>(o); int n = id % 3 ? 1 : 4; for (int i = 0; i < 4 && !r; i++) r = i < n ? bl_font_variation_settings_set_value(s, kV[i], float(id)) : bl_font_variation_settings_remove_value(s, kV[i]); break; }
    case 16: { auto f = as<BLFontCore>(o); if (fresh || bl_font_get_size(f) == 0.0f || b) r = bl_font_create_from_face(f, &g_face, float(id)); else r = bl_font_set_size(f, float(id)); break; }
  }
  return r;
}
static int decode(int t, const void* o) {
  switch (t) {
    case 32: { auto s = (const BLStringCore*)o; size_t n = bl_string_get_size(s); if (!n) return 0; int id = atoi(bl_string_get_data(s)); Text x = text(id); return n == x.size() && !memcmp(bl_string_get_data(s), x.data(), n) ? id : -1; }
    case 38: { auto a = (const BLArrayCore*)o; size_t n = bl_array_get_size(a); if (!n) return 0; auto p = (const int*)bl_array_get_data(a); int id = p[0]; if (n != size_t(id % 4 + 1)) return -1; for (size_t i = 0; i < n; i++) if (p[i] != id) return -2; return id; }
    case 33: { auto a = (const BLArrayCore*)o; size_t n = bl_array_get_size(a); if (!n) return 0; if (n != 1) return -1; auto p = (const BLObjectCore*)bl_array_get_data(a); return p->_d.is_string() ? decode(32, p) : -2; }
    case 10: { auto p = (const BLPathCore*)o; size_t n = bl_path_get_size(p); if (!n) return 0; if (n != 2) return -1; auto v = bl_path_get_vertex_data(p); return v[0].x == v[1].y ? int(v[0].x) : -2; }
    case 5: { auto q = (const BLGradientCore*)o; size_t n = bl_gradient_get_size(q); int v = int(bl_gradient_get_value(q, 0)); BLMatrix2D m; bl_gradient_get_transform(q, &m); if (!n) return v == 0 && m.m20 == 0 ? 0 : -1; auto s = bl_gradient_get_stops(q); if (n != 1 || int(m.m20) != v) return -2; return int(BLRgba32(s[0].rgba).value) == v ? v : -3; }
    case 4: { auto p = (const BLPatternCore*)o; BLRectI a; bl_pattern_get_area(p, &a); BLMatrix2D m; bl_pattern_get_transform(p, &m); return int(m.m20) == a.w ? a.w : -1; }
    case 9: { auto im = (const BLImageCore*)o; BLImageData d; if (bl_image_get_data(im, &d)) return -1; if (d.size.w == 0) return 0; auto p = (const uint32_t*)d.pixel_data; for (int i = 1; i < 8; i++) if (p[i] != p[0]) return -2; return int(p[0] & 0xFFFFFF); }
    case 26: { auto s = (const BLBitSetCore*)o; uint32_t a, b; if (!bl_bit_set_get_range(s, &a, &b)) return 0; uint32_t c = bl_bit_set_get_cardinality(s); return c == (a % 2 ? 1001u : 1u) ? int(a) : -1; }
    case 25: { auto s = (const BLBitArrayCore*)o; uint32_t a, b, n = bl_bit_array_get_size(s); if (!n) return 0; if (!bl_bit_array_get_range(s, &a, &b)) return -1; return b == a + 1 && n == (a % 2 ? 160u : 130u) ? int(a) : -2; }
    case 17: { auto s = (const BLFontFeatureSettingsCore*)o; size_t n = bl_font_feature_settings_get_size(s); if (!n) return 0; uint32_t v = bl_font_feature_settings_get_value(s, kF[0]); if (n != (v % 3 ? 2u : 6u)) return -1; for (size_t i = 0; i < n; i++) if (bl_font_feature_settings_get_value(s, kF[i]) != v) return -2; return int(v); }
    case 18: { auto s = (const BLFontVariationSettingsCore*)o; size_t n = bl_font_variation_settings_get_size(s); if (!n) return 0; float v = bl_font_variation_settings_get_value(s, kV[0]); if (n != (int(v) % 3 ? 1u : 4u)) return -1; for (size_t i = 0; i < n; i++) if (bl_font_variation_settings_get_value(s, kV[i]) != v) return -2; return int(v); }
    case 16: { auto f = (const BLFontCore*)o; return int(bl_font_get_size(f)); }
  }
  return -9;
}
static std::string show(const BLVarCore* v) {
  int t = int(bl_var_get_type(v));
  switch (t) {
    case 3: return val(t, "x", Z);
    case 28: { bool b = false; if (bl_var_to_bool(v, &b)) g_bad++; return val(t, "num", ni(b)); }
    case 29: { int64_t x = 0; if (bl_var_to_int64(v, &x)) g_bad++; return val(t, "num", ni(x)); }
    case 30: { uint64_t x = 0; if (bl_var_to_uint64(v, &x)) g_bad++; return val(t, "num", nu(x)); }
    case 31: { double x = 0; if (bl_var_to_double(v, &x)) g_bad++; return vd(x); }
    case 0: { BLRgba c; if (bl_var_to_rgba(v, &c)) g_bad++; return val(t, "x", Z, cf(c)); }
    case 1: { uint32_t c = 0; if (bl_var_to_rgba32(v, &c)) g_bad++; return val(t, "x", Z, c32(c)); }
    case 2: { uint64_t c = 0; if (bl_var_to_rgba64(v, &c)) g_bad++; return val(t, "x", Z, c64(c)); }
    default: return val(t, "x", Z, ints({decode(t, v)}));
  }
}
static const char* rcname(BLResult r) { return r == 0 ? "ok" : r == BL_ERROR_OVERFLOW ? "overflow" : r == BL_ERROR_INVALID_CONVERSION ? "invalid" : r == BL_ERROR_INVALID_KEY ? "key" : r == BL_ERROR_OUT_OF_MEMORY ? "oom" : "other"; }
static int64_t pick_int(Rng& g) {
  static const int64_t k[] = {0, 1, -1, 2, 127, 255, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 9007199254740991ll, 9007199254740992ll, 9007199254740993ll, -9007199254740993ll, INT64_MAX, INT64_MIN, INT64_MAX - 511, INT64_MAX - 1023, 1ll << 62};
  int64_t v = g.chance(70) ? k[g.below(sizeof k / sizeof *k)] : g.chance(50) ? g.range(-5, 5) : int64_t(g.next() << g.below(3)) >> g.below(60); return v;
}
static uint64_t pick_uint(Rng& g) { static const uint64_t k[] = {UINT64_MAX, UINT64_MAX - 1023, UINT64_MAX - 2047, 1ull << 63, (1ull << 63) + 2048, (1ull << 63) + 1024, (1ull << 63) - 1}; return g.chance(30) ? k[g.below(7)] : g.chance(70) ? uint64_t(pick_int(g)) : g.next() >> g.below(60); }
static double pick_double(Rng& g) {
  static const double k[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.25, -0.75, 1.5, 2147483647.0, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.5, -2147483649.0, 4294967295.0, 4294967295.75, 4294967296.0, 9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0,
    -9223372036854777856.0, 18446744073709551616.0, 18446744073709549568.0, 9007199254740992.0, 1e300, -1e300, 1e-300, -1e-300, INFINITY, -INFINITY};
  if (g.chance(8)) return NAN; if (g.chance(60)) return k[g.below(sizeof k / sizeof *k)]; if (g.chance(50)) return g.range(-20, 20) / 4.0; return double(pick_int(g));
}
static uint64_t pick_c64(Rng& g) { auto c = [&]() -> uint64_t { return 257ull * (g.chance(30) ? 0 : g.chance(40) ? 255 : g.below(256)); }; uint64_t r = c(), gg = c(), b = c(), a = c(); return a << 48 | r << 32 | gg << 16 | b; }
static BLRgba pick_rgba(Rng& g) { auto c = [&]() { int w = g.below(10); return w < 2 ? 0.0f : w < 4 ? 1.0f : w == 4 ? g.range(-1000, -1) / 1024.0f : w == 5 ? g.range(1025, 2000) / 1024.0f : g.below(1025) / 1024.0f; }; float r = c(), gg = c(), b = c(), a = c(); return BLRgba(r, gg, b, a); }

// The same through the C++ class, whose constructors and assignments are inline code of their own.
template<class T> static bool cxx(Rng& g, BLVarCore& x, const T& v) {
  if (g.chance(60)) return false; dm::disarm(); BLVar& X = static_cast<BLVar&>(static_cast<BLVarCore&>(x));
  LIB([&] { switch (g.below(4)) { case 0: X = BLVar(v); break; case 1: { BLVar y(v); X = y; break; } case 2: X.assign(v); break; default: { BLVar y; y = v; BLVar z(std::move(y)); if (!y.is_null()) g_bad++; X = std::move(z); } } return 0; }()); return true;
}
static void hist(Args& a, Rng& g, TraceFile& tf, bool iso) {
  std::vector<int> objs(kObj, kObj + 12); if (!g_have_face) objs.pop_back();
  for (int t = 0; t < a.n; t++) {
    for (auto& v : S) LIB(bl_var_init_null(&v));
    long live0 = dm::live.load(); tf.begin(); int L = a.len / 2 + g.below(a.len);
    std::vector<int> use; for (int i = 0; i < 3; i++) use.push_back(g.pick(objs)); if (iso && g.chance(50)) use.resize(1);
    int pk = -1, po = 0;
    for (int e = 0; e < L; e++) {
      int k = g.below(K), o = g.below(K); bool pend = pk >= 0 && g.chance(70); if (pend) k = pk, o = po; pk = -1; dm::arm(g); BLResult r = 0; J j = J::obj(); BLVarCore& X = S[k]; int ty = int(bl_var_get_type(&X));
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm); return j.str("op", nm).i("s", k + 1); };
      auto assign = [&](const std::string& v) { base("assign").raw("v", v); };
      int op = g.below(iso ? 16 : 30); if (iso && op < 8) op = op < 4 ? 8 : 9;
      if (pend) op = 15; // two equal objects built separately must compare equal
      auto same = [&](int nt, int id) { if (g.chance(35)) for (int q = 0; q < K; q++) if (q != k && int(bl_var_get_type(&S[q])) == nt) { int d = decode(nt, &S[q]); if (d > 0) { pk = k; po = q; return d; } } return id; };
      switch (op) {
        case 0: { bool v = g.chance(50); assign(val(28, "num", ni(v))); r = cxx(g, X, v) ? 0 : LIB(bl_var_assign_bool(&X, v)); break; }
        case 1: { int64_t v = pick_int(g); if (v == int32_t(v) && g.chance(50)) { assign(val(29, "num", ni(v))); r = cxx(g, X, int32_t(v)) ? 0 : LIB(bl_var_assign_int32(&X, int32_t(v))); } else { assign(val(29, "num", ni(v))); r = cxx(g, X, v) ? 0 : LIB(bl_var_assign_int64(&X, v)); } break; }
        case 2: { uint64_t v = pick_uint(g); assign(val(30, "num", nu(v))); if (v == uint32_t(v) && g.chance(50)) r = LIB(bl_var_assign_uint32(&X, uint32_t(v))); else r = cxx(g, X, v) ? 0 : LIB(bl_var_assign_uint64(&X, v)); break; }
        case 3: case 4: { double v = pick_double(g); assign(vd(v)); r = cxx(g, X, v) ? 0 : LIB(bl_var_assign_double(&X, v)); break; }
        case 5: { BLRgba c = pick_rgba(g); assign(val(0, "x", Z, cf(c))); r = cxx(g, X, c) ? 0 : LIB(bl_var_assign_rgba(&X, &c)); break; }
        case 6: { uint64_t v = pick_c64(g); if (g.chance(50)) { uint32_t c = BLRgba32(BLRgba64(v)).value; assign(val(1, "x", Z, c32(c))); r = cxx(g, X, BLRgba32(c)) ? 0 : LIB(bl_var_assign_rgba32(&X, c)); } else { if (g.chance(50)) v = g.next() ; assign(val(2, "x", Z, c64(v))); r = cxx(g, X, BLRgba64(v)) ? 0 : LIB(bl_var_assign_rgba64(&X, v)); } break; }
        case 7: { assign(val(3, "x", Z)); r = g.chance(50) ? LIB(bl_var_reset(&X)) : LIB(bl_var_assign_null(&X)); break; }
        case 8: { int nt = g.pick(use); // a fresh object assigned to the variant
          int id = same(nt, 1 + g.below(99)); dm::disarm(); BLVarCore tmp; bl_var_init_type(&tmp, BLObjectType(nt)); if (LIB(mutate(g, nt, &tmp, id, true))) g_bad++; dm::arm(g); assign(val(nt, "x", Z, ints({id}))); r = g.chance(50) ? LIB(bl_var_assign_weak(&X, &tmp)) : LIB(bl_var_assign_move(&X, &tmp)); dm::disarm(); LIB(bl_var_destroy(&tmp)); break; }
        case 9: { bool isobj = false; for (int x : objs) isobj |= x == ty;
          if (!isobj) { int nt = g.pick(use), id = 1 + g.below(99); dm::disarm(); BLVarCore tmp; bl_var_init_type(&tmp, BLObjectType(nt)); if (LIB(mutate(g, nt, &tmp, id, true))) g_bad++; dm::arm(g); assign(val(nt, "x", Z, ints({id}))); r = LIB(bl_var_assign_move(&X, &tmp)); dm::disarm(); LIB(bl_var_destroy(&tmp)); break; }
          int id = same(ty, 1 + g.below(99)); base("mutate").i("id", id); r = LIB(mutate(g, ty, &X, id, false)); break; }
        case 10: case 11: base("copy").i("o", o + 1); if (k != o && g.chance(40)) { dm::disarm(); LIB(bl_var_destroy(&X)); r = LIB(bl_var_init_weak(&X, &S[o])); } else r = g.chance(50) ? LIB(bl_var_assign_weak(&X, &S[o])) : LIB(bl_object_assign_weak(&X, &S[o])); break;
        case 12: base("move").i("o", o + 1); if (k != o && g.chance(40)) { dm::disarm(); LIB(bl_var_destroy(&X)); r = LIB(bl_var_init_move(&X, &S[o])); } else r = g.chance(50) ? LIB(bl_var_assign_move(&X, &S[o])) : LIB(bl_object_assign_move(&X, &S[o])); break;
        case 13: { int nt = g.chance(20) ? g.pick({-1, 107, 127, 128, 1000, 6, 21}) : g.chance(50) ? g.pick(use) : g.pick({28, 29, 30, 31, 0, 1, 2, 3}); bool valid = nt >= 0 && nt <= int(BL_OBJECT_TYPE_MAX_VALUE); dm::disarm(); LIB(bl_var_destroy(&X)); base("inittype").i("ty", nt).b("valid", valid); r = LIB(bl_var_init_type(&X, BLObjectType(nt))); break; }
        case 14: if (g.chance(50)) { base("default"); r = LIB(bl_object_reset(&X)); } else { base("type"); j.b("ref", X.dcast().is_null() == (ty == 3) && X.dcast().is_bool() == (ty == 28) && X.dcast().is_double() == (ty == 31) && X.dcast().is_int64() == (ty == 29) && X.dcast().is_uint64() == (ty == 30) && X.dcast().is_string() == (ty == 32) && X.dcast().is_style() == (ty <= 5)
               && X.dcast().is_rgba() == (ty == 0) && X.dcast().is_rgba32() == (ty == 1) && X.dcast().is_rgba64() == (ty == 2) && X.dcast().is_path() == (ty == 10) && X.dcast().is_image() == (ty == 9) && X.dcast().is_array() == (ty == 33 || ty == 38) && X.dcast().is_bit_set() == (ty == 26) && X.dcast().is_bit_array() == (ty == 25) && X.dcast().is_font() == (ty == 16)
               && X.dcast().is_pattern() == (ty == 4) && X.dcast().is_gradient() == (ty == 5)); } break;
        case 15: case 16: case 17: { bool q = bl_var_equals(&X, &S[o]), s = bl_var_strict_equals(&X, &S[o]); base("equals").i("o", o + 1).b("q", q).b("st1", s); break; }
        case 18: case 19: { // conversions
          int w = g.below(6); BLResult rr;
          if (w == 0) { bool b = true; rr = bl_var_to_bool(&X, &b); base("tobool").raw("out", ni(b)); }
          else if (w == 1) { int32_t v = 77; rr = bl_var_to_int32(&X, &v); base("toint32").raw("out", ni(v)); }
          else if (w == 2) { int64_t v = 77; rr = bl_var_to_int64(&X, &v); base("toint64").raw("out", ni(v)); }
          else if (w == 3) { uint32_t v = 77; rr = bl_var_to_uint32(&X, &v); base("touint32").raw("out", nu(v)); }
          else if (w == 4) { uint64_t v = 77; rr = bl_var_to_uint64(&X, &v); base("touint64").raw("out", nu(v)); }
          else { double v = 77; rr = bl_var_to_double(&X, &v); base("todouble").raw("out", vd(v)); }
          j.str("rc", rcname(rr)); break; }
        case 20: case 21: { int w = g.below(3); BLResult rr; std::string o1 = "[]", o2 = "[]";
          if (w == 0) { BLRgba c(0, 0, 0, 0); rr = bl_var_to_rgba(&X, &c); if (!rr) o1 = cf(c), o2 = cf65535(c); base("torgba"); } else if (w == 1) { uint32_t c = 0; rr = bl_var_to_rgba32(&X, &c); if (!rr) o1 = c32(c); base("torgba32"); } else { uint64_t c = 0; rr = bl_var_to_rgba64(&X, &c); if (!rr) o1 = c64(c); base("torgba64"); }
          j.raw("out", o1).raw("out2", o2).b("rok", rr == 0); break; }
        default: { // comparison with a plain value
          int w = g.below(7); std::string v; bool q; static const uint32_t near = 0; (void)near;
          if (w == 0) { bool b = g.chance(50); v = val(28, "num", ni(b)); q = g.chance(50) ? X.dcast() == b : bl_var_equals_bool(&X, b); }
          else if (w == 1) { int64_t x = pick_int(g); double y; if (g.chance(60) && !bl_var_to_int64(&X, &x)) {} (void)y; v = val(29, "num", ni(x)); q = g.chance(50) ? X.dcast() == x : bl_var_equals_int64(&X, x); }
          else if (w == 2) { uint64_t x = pick_uint(g); if (g.chance(60)) bl_var_to_uint64(&X, &x); v = val(30, "num", nu(x)); q = g.chance(50) ? X.dcast() == x : bl_var_equals_uint64(&X, x); }
          else if (w == 3) { double x = pick_double(g); if (g.chance(60)) { double y; if (ty >= 28 && ty <= 31) { bl_var_to_double(&X, &y); std::string kk; nd(y, kk); if (kk != "odd") x = y; } } v = vd(x); q = g.chance(50) ? X.dcast() == x : bl_var_equals_double(&X, x); }
          else if (w == 4) { BLRgba c = pick_rgba(g); if (g.chance(60) && ty == 0) bl_var_to_rgba(&X, &c); v = val(0, "x", Z, cf(c)); q = bl_var_equals_rgba(&X, &c); }
          else if (w == 5) { uint32_t c = BLRgba32(BLRgba64(pick_c64(g))).value; if (g.chance(70)) bl_var_to_rgba32(&X, &c); v = val(1, "x", Z, c32(c)); q = g.chance(50) ? X.dcast() == BLRgba32(c) : bl_var_equals_rgba32(&X, c); }
          else { uint64_t c = pick_c64(g); if (g.chance(70) && ty != 0) bl_var_to_rgba64(&X, &c); v = val(2, "x", Z, c64(c)); q = g.chance(50) ? X.dcast() == BLRgba64(c) : bl_var_equals_rgba64(&X, c); }
          base("equalsv").raw("v", v).b("q", q).b("nul", bl_var_equals_null(&X)); break; }
      }
      j.b("ok", r == BL_SUCCESS); dm::mark(j, r); std::string st = "["; for (int i = 0; i < K; i++) { if (i) st += ','; st += show(&S[i]); } j.raw("st", st + "]").i("bad", dm::bad.load() + g_bad); tf.ev(j.done());
    }
    for (auto& v : S) LIB(bl_var_destroy(&v));
    dm::sweep(); J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load() + g_bad); tf.ev(j.done()); tf.end();
  }
}
// Properties: the PNG encoder's "compression" (0..12, larger values saturate), the context's read-only "thread_count" and "accumulated_error_flags".
static void prop(Args& a, Rng& g, TraceFile& tf) {
  for (int t = 0; t < a.n; t++) {
    BLObjectCore ob[4]; long live0 = dm::live.load(); BLImageCodecCore cd; bl_image_codec_init(&cd); BLArrayCore cs; bl_image_codec_array_init_built_in_codecs(&cs);
    bl_image_codec_find_by_name(&cd, "PNG", SIZE_MAX, &cs); LIB(bl_image_encoder_init(static_cast<BLImageEncoderCore*>((BLObjectCore*)&ob[0]))); LIB(bl_image_codec_create_encoder(&cd, (BLImageEncoderCore*)&ob[0]));
    BLImageCore im; bl_image_init_as(&im, 4, 4, BL_FORMAT_PRGB32); BLContextCreateInfo ci{}; LIB(bl_context_init_as((BLContextCore*)&ob[1], &im, &ci));
    bl_string_init((BLStringCore*)&ob[2]); LIB(bl_image_codec_create_encoder(&cd, (BLImageEncoderCore*)(bl_image_encoder_init((BLImageEncoderCore*)&ob[3]), &ob[3])));
    tf.begin(); int L = a.len / 2 + g.below(a.len);
    for (int e = 0; e < L; e++) {
      int s = g.below(4); const char* names[] = {"compression", "thread_count", "accumulated_error_flags", "compressio", "compressionx", "Compression", "", "unknown"};
      int ni_ = g.below(8); if (g.chance(50)) ni_ = s == 1 ? 1 + int(g.below(2)) : 0; std::string nm = names[ni_]; bool len = g.chance(50); std::string padded = nm + (len ? "zz" : ""); size_t n = len ? nm.size() : SIZE_MAX;
      BLResult r; J j = J::obj(); where("prop trace " + std::to_string(t + 1) + " " + nm);
      std::string v = val(3, "x", Z), out = "[0,0,0,0,0]"; BLUnknown* u = (BLUnknown*)&ob[s]; const char* p = padded.c_str(); bool set = g.chance(50); int w = g.below(8); std::string kind;
      if (set) {
        if (w == 0) { bool x = g.chance(50); v = val(28, "num", ni(x)); r = LIB(bl_object_set_property_bool(u, p, n, x)); }
        else if (w == 1) { int x = g.chance(70) ? g.range(-2, 20) : int(pick_int(g)); v = val(29, "num", ni(x)); r = LIB(bl_object_set_property_int32(u, p, n, x)); }
        else if (w == 2) { int64_t x = g.chance(50) ? g.range(-2, 20) : pick_int(g); v = val(29, "num", ni(x)); r = LIB(bl_object_set_property_int64(u, p, n, x)); }
        else if (w == 3) { uint32_t x = g.chance(70) ? g.below(20) : uint32_t(pick_uint(g)); v = val(30, "num", nu(x)); r = LIB(bl_object_set_property_uint32(u, p, n, x)); }
        else if (w == 4) { uint64_t x = g.chance(50) ? g.below(20) : pick_uint(g); v = val(30, "num", nu(x)); r = LIB(bl_object_set_property_uint64(u, p, n, x)); }
        else if (w == 5) { double x = g.chance(60) ? g.range(-8, 80) / 4.0 : pick_double(g); v = vd(x); r = LIB(bl_object_set_property_double(u, p, n, x)); }
        else { BLVarCore x; bl_var_init_null(&x); if (w == 6) { bl_var_assign_rgba32(&x, 5); v = val(1, "x", Z, c32(5)); } else { bl_var_assign_int64(&x, 3); v = val(29, "num", ni(3)); } r = LIB(bl_object_set_property(u, p, n, &x)); bl_var_destroy(&x); }
        kind = "var";
      } else {
        if (w == 0) { bool x = true; r = LIB(bl_object_get_property_bool(u, p, n, &x)); out = ni(x); kind = "bool"; }
        else if (w == 1) { int32_t x = 77; r = LIB(bl_object_get_property_int32(u, p, n, &x)); out = ni(x); kind = "int32"; }
        else if (w == 2) { int64_t x = 77; r = LIB(bl_object_get_property_int64(u, p, n, &x)); out = ni(x); kind = "int64"; }
        else if (w == 3) { uint32_t x = 77; r = LIB(bl_object_get_property_uint32(u, p, n, &x)); out = nu(x); kind = "uint32"; }
        else if (w == 4) { uint64_t x = 77; r = LIB(bl_object_get_property_uint64(u, p, n, &x)); out = nu(x); kind = "uint64"; }
        else if (w == 5) { double x = 77; r = LIB(bl_object_get_property_double(u, p, n, &x)); std::string kk; out = nd(x, kk); kind = "double"; }
        else { BLVarCore x; bl_var_init_int64(&x, 55); r = LIB(bl_object_get_property(u, p, n, &x)); uint64_t q = 0; if (!r) { if (bl_var_to_uint64(&x, &q)) g_bad++; } out = nu(q); kind = "var"; LIB(bl_var_destroy(&x)); }
      }
      j.str("op", set ? "set" : "get").i("s", s + 1).str("name", nm).raw("v", v).raw("out", out).str("kind", kind).str("rc", rcname(r));
      // everything readable afterwards
      uint64_t c1 = 99, c4 = 99, th = 99, er = 99; BLResult z = bl_object_get_property_uint64((BLUnknown*)&ob[0], "compression", 11, &c1) | bl_object_get_property_uint64((BLUnknown*)&ob[3], "compression", 11, &c4) | bl_object_get_property_uint64((BLUnknown*)&ob[1], "thread_count", SIZE_MAX, &th) | bl_object_get_property_uint64((BLUnknown*)&ob[1], "accumulated_error_flags", SIZE_MAX, &er);
      j.ints("st", std::vector<long>{long(c1), long(c4), long(th), long(er)}).i("bad", dm::bad.load() + g_bad + (z != 0)); tf.ev(j.done());
    }
    for (auto& x : ob) LIB(bl_var_destroy(&x)); bl_image_destroy(&im); bl_image_codec_destroy(&cd); bl_array_destroy(&cs);
    dm::sweep(); J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load() + g_bad); tf.ev(j.done()); tf.end();
  }
}
// Stroke options: not objects, but values with a shared dash array.
static void stroke(Args& a, Rng& g, TraceFile& tf) {
  BLStrokeOptionsCore so[K];
  auto put = [&](BLStrokeOptionsCore& o, int id) -> BLResult { o.width = id; o.miter_limit = id + 1; o.dash_offset = id + 2; o.hints = 0; o.join = uint8_t(id % 3);
    BLArrayCore& d = o.dash_array; size_t n = size_t(id % 4 + 1); void* p; if (!g.chance(50) || bl_array_get_size(&d) != n) { BLResult r = bl_array_clear(&d); for (size_t i = 0; i < n && !r; i++) r = bl_array_append_f64(&d, id); return r; }
    BLResult r = bl_array_make_mutable(&d, &p); if (!r) for (size_t i = 0; i < n; i++) ((double*)p)[i] = id; return r; };
  auto get = [&](BLStrokeOptionsCore& o) -> int { size_t n = bl_array_get_size(&o.dash_array); auto p = (const double*)bl_array_get_data(&o.dash_array); if (!n) return o.width == 1 && o.dash_offset == 0 && o.miter_limit == 4 && o.hints == 0 ? 0 : -1; int id = int(o.width); if (n != size_t(id % 4 + 1)) return -2; for (size_t i = 0; i < n; i++) if (p[i] != id) return -3; return o.miter_limit == id + 1 && o.dash_offset == id + 2 && o.join == id % 3 ? id : -4; };
  for (int t = 0; t < a.n; t++) {
    long live0 = dm::live.load(); tf.begin(); int L = a.len / 2 + g.below(a.len); for (auto& x : so) LIB(bl_stroke_options_init(&x)); int shown = 0;
    for (int e = 0; e < L + K; e++) {
      int k = g.below(K), o = g.below(K); J j = J::obj(); BLResult r = 0; int op = g.below(12); dm::disarm();
      if (e < K) { shown = e + 1; j.str("op", "inittype").i("s", e + 1).i("ty", 200).b("valid", true); }
      else if (op < 4) { int id = 1 + g.below(99); r = LIB(put(so[k], id)); if (g.chance(50)) j.str("op", "mutate").i("s", k + 1).i("id", id); else j.str("op", "assign").i("s", k + 1).raw("v", val(200, "x", Z, ints({id}))); }
      else if (op < 7) { j.str("op", "copy").i("s", k + 1).i("o", o + 1); if (k != o && g.chance(40)) { LIB(bl_stroke_options_destroy(&so[k])); r = LIB(bl_stroke_options_init_weak(&so[k], &so[o])); } else r = LIB(bl_stroke_options_assign_weak(&so[k], &so[o])); }
      else if (op < 9) { j.str("op", "move").i("s", k + 1).i("o", o + 1); if (k != o && g.chance(40)) { LIB(bl_stroke_options_destroy(&so[k])); r = LIB(bl_stroke_options_init_move(&so[k], &so[o])); } else r = LIB(bl_stroke_options_assign_move(&so[k], &so[o])); if (k != o) LIB(bl_stroke_options_reset(&so[o])); } // (moved-from options are unspecified)
      else if (op < 10) { j.str("op", "default").i("s", k + 1); r = LIB(bl_stroke_options_reset(&so[k])); }
      else { bool q = bl_stroke_options_equals(&so[k], &so[o]); j.str("op", "equals").i("s", k + 1).i("o", o + 1).b("q", q).b("st1", false); }
      where("stroke trace " + std::to_string(t + 1));
      j.b("ok", r == 0).b("ff", false).b("oom", false); std::string st = "["; for (int i = 0; i < K; i++) { if (i) st += ','; st += i < shown ? val(200, "x", Z, ints({get(so[i])})) : val(3, "x", Z); } j.raw("st", st + "]").i("bad", dm::bad.load()); tf.ev(j.done());
    }
    for (auto& x : so) LIB(bl_stroke_options_destroy(&x)); dm::sweep(); J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load()); tf.ev(j.done()); tf.end();
  }
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init();
  const char* root = getenv("VERIF_REPO"); std::string fp = std::string(root ? root : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf";
  bl_font_face_init(&g_face); g_have_face = bl_font_face_create_from_file(&g_face, fp.c_str(), BL_FILE_READ_NO_FLAGS) == BL_SUCCESS;
  bl_image_init_as(&g_img, 100, 1, BL_FORMAT_PRGB32);
  { BLVarCore w; bl_var_init_type(&w, BL_OBJECT_TYPE_IMAGE); for (int i = 0; i < 20; i++) mutate(g, 9, &w, 5, true); bl_var_destroy(&w); }
  dm::counting = 1; dm::inject_p = a.extra;
  if (a.mode == "prop") prop(a, g, tf); else if (a.mode == "stroke") stroke(a, g, tf); else hist(a, g, tf, a.mode == "iso");
  dm::counting = 0;
}
