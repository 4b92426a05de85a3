// C08: histories of font feature settings (--mode feat) and font variation settings (--mode var).
#include "vh.h"
#include "dbgmalloc.h"
#include <math.h>
using namespace vh;
static const int K = 3;
static BLTag T(const char* s) { return BL_MAKE_TAG(uint8_t(s[0]), uint8_t(s[1]), uint8_t(s[2]), uint8_t(s[3])); }
struct Tag { std::string name; BLTag tag; };
static std::vector<Tag> pool; // ordered by tag; traces use the index in this pool
static int index_of(BLTag t) { for (size_t i = 0; i < pool.size(); i++) if (pool[i].tag == t) return int(i); return -1; }
struct Feat {
  typedef BLFontFeatureSettingsCore C; typedef uint32_t V;
  static BLResult init(C* c) { return bl_font_feature_settings_init(c); } static BLResult destroy(C* c) { return bl_font_feature_settings_destroy(c); }
  static BLResult reset(C* c) { return bl_font_feature_settings_reset(c); } static BLResult clear(C* c) { return bl_font_feature_settings_clear(c); } static BLResult shrink(C* c) { return bl_font_feature_settings_shrink(c); }
  static BLResult weak(C* c, C* o) { return bl_font_feature_settings_assign_weak(c, o); } static BLResult move(C* c, C* o) { return bl_font_feature_settings_assign_move(c, o); }
  static BLResult iweak(C* c, C* o) { return bl_font_feature_settings_init_weak(c, o); } static BLResult imove(C* c, C* o) { return bl_font_feature_settings_init_move(c, o); }
  static BLResult set(C* c, BLTag t, V v) { return bl_font_feature_settings_set_value(c, t, v); } static BLResult remove(C* c, BLTag t) { return bl_font_feature_settings_remove_value(c, t); }
  static bool has(C* c, BLTag t) { return bl_font_feature_settings_has_value(c, t); } static bool eq(C* a, C* b) { return bl_font_feature_settings_equals(a, b); }
  static long get(C* c, BLTag t) { uint32_t v = bl_font_feature_settings_get_value(c, t); return v == BL_FONT_FEATURE_INVALID_VALUE ? -1000000 : long(v) * 4; }
  static size_t size(C* c) { return bl_font_feature_settings_get_size(c); } static size_t cap(C* c) { return bl_font_feature_settings_get_capacity(c); }
  static std::vector<long> view(C* c) { BLFontFeatureSettingsView v; bl_font_feature_settings_get_view(c, &v); std::vector<long> r; for (size_t i = 0; i < v.size; i++) { r.push_back(index_of(v.data[i].tag)); r.push_back(long(v.data[i].value > 70000 ? 70000 : v.data[i].value) * 4); } return r; }
  static V value(Rng& g) { return g.chance(45) ? g.below(2) : g.chance(50) ? g.below(16) : g.chance(40) ? 15 + g.below(4) : g.chance(50) ? g.below(300) : g.chance(90) ? g.below(65536) : 65534 + g.below(4); }
  static long log(V v) { return long(v) * 4; }
};
struct Var {
  typedef BLFontVariationSettingsCore C; typedef float V;
  static BLResult init(C* c) { return bl_font_variation_settings_init(c); } static BLResult destroy(C* c) { return bl_font_variation_settings_destroy(c); }
  static BLResult reset(C* c) { return bl_font_variation_settings_reset(c); } static BLResult clear(C* c) { return bl_font_variation_settings_clear(c); } static BLResult shrink(C* c) { return bl_font_variation_settings_shrink(c); }
  static BLResult weak(C* c, C* o) { return bl_font_variation_settings_assign_weak(c, o); } static BLResult move(C* c, C* o) { return bl_font_variation_settings_assign_move(c, o); }
  static BLResult iweak(C* c, C* o) { return bl_font_variation_settings_init_weak(c, o); } static BLResult imove(C* c, C* o) { return bl_font_variation_settings_init_move(c, o); }
  static BLResult set(C* c, BLTag t, V v) { return bl_font_variation_settings_set_value(c, t, v); } static BLResult remove(C* c, BLTag t) { return bl_font_variation_settings_remove_value(c, t); }
  static bool has(C* c, BLTag t) { return bl_font_variation_settings_has_value(c, t); } static bool eq(C* a, C* b) { return bl_font_variation_settings_equals(a, b); }
  static long q(float v) { return v != v ? -1000000 : long(floor(v * 4 + 0.5f)); }
  static long get(C* c, BLTag t) { return q(bl_font_variation_settings_get_value(c, t)); }
  static size_t size(C* c) { return bl_font_variation_settings_get_size(c); } static size_t cap(C* c) { return bl_font_variation_settings_get_capacity(c); }
  static std::vector<long> view(C* c) { BLFontVariationSettingsView v; bl_font_variation_settings_get_view(c, &v); std::vector<long> r; for (size_t i = 0; i < v.size; i++) { r.push_back(index_of(v.data[i].tag)); r.push_back(q(v.data[i].value)); } return r; }
  static V value(Rng& g) { return g.chance(50) ? g.below(5) / 4.0f : g.chance(40) ? -float(1 + g.below(20)) / 4 : g.chance(90) ? g.below(4000) / 4.0f : 65534 + g.below(4); }
  static long log(V v) { return q(v); }
};
template<class X> static void run(const Args& a, Rng& g, TraceFile& tf) {
  typename X::C S[K];
  for (int t = 0; t < a.n; t++) {
    for (auto& s : S) LIB(X::init(&s));
    long live0 = dm::live.load(); tf.begin(std::string("\"feat\":") + (a.mode != "var" ? "true" : "false"));
    std::vector<int> use; int m = 2 + g.below(g.chance(50) ? 6 : 40); for (int i = 0; i < m; i++) use.push_back(int(g.below(uint32_t(pool.size()))));
    bool small = g.chance(40), known = g.chance(50); int L = a.len / 2 + g.below(a.len);
    for (int e = 0; e < L; e++) {
      int k = g.below(K), o = g.below(K); dm::arm(g); BLResult r = 0; J j = J::obj(); auto& c = S[k];
      int ti = g.chance(90) ? g.pick(use) : int(g.below(uint32_t(pool.size()))); for (int z = 0; z < 6 && known && (pool[ti].name[0] < 'a' || pool[ti].name[0] > 'z'); z++) ti = g.pick(use);
      BLTag tag = pool[ti].tag;
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm); return j.str("op", nm).i("s", k + 1); };
      switch (g.below(20)) {
        case 0: if (!g.chance(30)) { e--; continue; } base("clear"); r = LIB(X::reset(&c)); break;
        case 1: if (!g.chance(50)) { e--; continue; } base("clear"); r = LIB(X::clear(&c)); break;
        case 2: base("keep"); r = LIB(X::shrink(&c)); break;
        case 3: case 4: base("copy").i("o", o + 1); if (k != o && g.chance(30)) { LIB(X::destroy(&c)); r = LIB(X::iweak(&c, &S[o])); } else r = LIB(X::weak(&c, &S[o])); break;
        case 5: base("move").i("o", o + 1); if (k != o && g.chance(30)) { LIB(X::destroy(&c)); r = LIB(X::imove(&c, &S[o])); } else r = LIB(X::move(&c, &S[o])); break;
        case 6: case 7: case 8: case 9: case 10: case 11: { auto v = small ? typename X::V(g.below(2)) : X::value(g); base("set").i("t", ti).str("name", pool[ti].name).i("v", X::log(v)); r = LIB(X::set(&c, tag, v)); break; }
        case 12: case 13: case 14: base("remove").i("t", ti); r = LIB(X::remove(&c, tag)); break;
        case 15: case 16: { // queries
          std::vector<long> q; for (int i = 0; i < 6; i++) { int x = i ? g.pick(use) : int(g.below(uint32_t(pool.size()))); q.push_back(x); q.push_back(X::has(&c, pool[x].tag)); q.push_back(X::get(&c, pool[x].tag)); } base("query").ints("q", q); break; }
        case 17: { // the same content set in another order, then compared
          typename X::C f; X::init(&f); auto v = X::view(&c); int n = int(v.size() / 2); std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i); for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[g.below(i + 1)]);
          bool okset = true; if (g.chance(50)) { LIB(X::set(&f, T("zzzz"), 1)); LIB(X::remove(&f, T("zzzz"))); }
          for (int i : ord) { typename X::V w = typename X::V(v[i * 2 + 1]) / 4; okset = okset && v[i * 2] >= 0 && LIB(X::set(&f, pool[v[i * 2]].tag, w)) == BL_SUCCESS; }
          bool q1 = X::eq(&c, &f), q2 = X::eq(&f, &c); LIB(X::destroy(&f)); base("rebuilt").b("okset", okset).b("q", q1 && q2); break; }
        default: base("equals").i("o", o + 1).b("q", X::eq(&c, &S[o])); break;
      }
      j.b("ok", r == BL_SUCCESS); dm::mark(j, r); std::string st = "[";
      for (int i = 0; i < K; i++) { if (i) st += ','; J d = J::obj(); d.ints("view", X::view(&S[i])).i("n", (long long)X::size(&S[i])).b("room", X::cap(&S[i]) >= X::size(&S[i])); st += d.done(); }
      j.raw("st", st + "]").i("bad", dm::bad.load()); tf.ev(j.done());
    }
    for (auto& s : S) LIB(X::destroy(&s));
    dm::sweep(); J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load()); tf.ev(j.done()); tf.end();
  }
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init(); bool feat = a.mode != "var";
  std::vector<std::string> names;
  auto add = [&](const char* s) { names.push_back(s); };
  if (feat) { for (const char* s : {"case", "clig", "cpct", "cpsp", "dlig", "dnom", "expt", "falt", "frac", "fwid", "halt", "hist", "hwid", "jalt", "kern", "liga", "lnum", "onum", "ordn", "palt", "pcap", "ruby", "smcp", "subs", "sups", "titl", "tnam", "tnum", "unic", "valt", "vkrn", "zero",
      "aalt", "abvf", "abvm", "afrc", "akhn", "calt", "ccmp", "cswh", "cv01", "cv09", "cv50", "cv99", "init", "locl", "mark", "nalt", "ornm", "rlig", "salt", "ss01", "ss07", "ss20", "swsh", "trad", "vrt2", "vert", "afrc", "hojo", "size"}) add(s); }
  else for (const char* s : {"ital", "opsz", "slnt", "wdth", "wght", "flip", "GRAD", "XTRA", "YTUC"}) add(s);
  for (const char* s : {"    ", "!aaa", "AAAA", "zzzy", "zzzz", "~~~~", "ab12", "zer~", "Kern", "wghs", "wghu", "ss21", "cv00"}) add(s);
  std::sort(names.begin(), names.end()); names.erase(std::unique(names.begin(), names.end()), names.end());
  for (auto& s : names) pool.push_back(Tag{s, T(s.c_str())});
  pool.push_back(Tag{"invalid", 0}); pool.push_back(Tag{"invalid", 0x7F616161u}); pool.push_back(Tag{"invalid", 0x61616180u}); pool.push_back(Tag{"invalid", 0xFFFFFFFFu}); pool.push_back(Tag{"invalid", 0x1F616161u}); pool.push_back(Tag{"invalid", 0x61E16161u});
  std::stable_sort(pool.begin(), pool.end(), [](const Tag& x, const Tag& y) { return x.tag < y.tag; });
  dm::counting = 1; dm::inject_p = a.extra;
  if (feat) run<Feat>(a, g, tf); else run<Var>(a, g, tf);
}
