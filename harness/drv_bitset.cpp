// Histories of bit set operations over the whole index space.  Sets are logged as maximal intervals, indexes biased
// by -2^31 so that they fit the signed 32-bit integers of TLC.
#include <array>
#include "vh.h"
#include "dbgmalloc.h"
using namespace vh;
static const int K = 3;
static BLBitSetCore S[K];
typedef std::vector<std::pair<uint64_t, uint64_t>> Iv;
static void push(Iv& v, uint64_t a, uint64_t b) { if (a >= b) return; if (!v.empty() && v.back().second == a) v.back().second = b; else v.push_back({a, b}); }
static void word(Iv& v, uint64_t base, uint32_t w) { for (int i = 0; i < 32; i++) if (w & (0x80000000u >> i)) push(v, base + i, base + i + 1); }
static int64_t bias(uint64_t x) { return int64_t(x) - 2147483648ll; }
static std::string starts(const Iv& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += std::to_string(bias(v[i].first)); } return s + "]"; }
static std::string ends(const Iv& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += std::to_string(bias(v[i].second)); } return s + "]"; }
static Iv decode(const BLBitSetCore* s, bool* good) {
  BLBitSetData d; bl_bit_set_get_data(s, &d); Iv v; uint64_t last = 0; *good = d.segment_count == bl_bit_set_get_segment_count(s);
  if (d.segment_count > 100000) { *good = false; return v; }
  for (uint32_t i = 0; i < d.segment_count; i++) { const BLBitSetSegment& g = d.segment_data[i]; uint64_t a = g.start_word(), b = g.end_word();
    if (a < last || b <= a || b > (1u << 27) || (a & 3) || (b & 3)) *good = false;
    last = b;
    if (g.all_ones()) push(v, a * 32, b * 32); else for (int k = 0; k < 4; k++) word(v, (a + k) * 32, g._data[k]); }
  if (!v.empty() && v.back().second == 0x100000000ull) *good = false;
  return v;
}
static void log_state(J& j) {
  std::string st = "[", en = "["; bool good = true;
  for (int k = 0; k < K; k++) { bool gd; Iv v = decode(&S[k], &gd); good &= gd; if (k) st += ',', en += ','; st += starts(v); en += ends(v); }
  j.raw("st", st + "]").raw("en", en + "]").b("wf", good).i("bad", dm::bad.load());
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); dm::counting = 1; dm::inject_p = a.extra;
  for (int t = 0; t < a.n; t++) {
    for (int k = 0; k < K; k++) LIB(bl_bit_set_init(&S[k]));
    long live0 = dm::live.load(); tf.begin();
    // the indexes of a trace cluster around a few anchors, so that operations meet
    std::vector<uint32_t> anchors; int na = 1 + g.below(3); int spread = g.pick({8, 70, 300, 900});
    for (int i = 0; i < na; i++) anchors.push_back(g.chance(30) ? 0 : g.chance(30) ? 0xFFFFFFFFu - g.below(400) : g.chance(50) ? g.below(4000) : uint32_t(g.next()));
    auto idx = [&]() -> uint32_t { uint32_t x = anchors[g.below(na)] ; int64_t d = g.range(-spread, spread); if (g.chance(40)) x = (x & ~127u), d = g.range(-3, 3) * (g.chance(50) ? 32 : g.chance(50) ? 1 : 128) + (g.chance(50) ? 0 : g.range(-1, 1)); int64_t y = int64_t(x) + d; if (y < 0) y = 0; if (y > 0xFFFFFFFFll) y = 0xFFFFFFFFll; return uint32_t(y); };
    int dens = g.pick({3, 50, 97});
    auto rw = [&]() { int w = g.below(6); uint32_t x = 0; if (w == 0) return 0u; if (w < 3) return 0xFFFFFFFFu; for (int b = 0; b < 32; b++) if (g.chance(dens)) x |= 1u << b; return x; };
    int L = a.len / 2 + g.below(a.len); bool cards = g.chance(50);
    for (int e = 0; e < L; e++) {
      int k = g.below(K), o = g.below(K); dm::arm(g); BLResult r = 0; J j = J::obj();
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm); return j.str("op", nm).i("s", k + 1); };
      uint32_t x = idx(), y = idx(); if (g.chance(92) && x > y) std::swap(x, y);
      switch (g.below(30)) {
        case 0: base("clear"); r = g.chance(50) ? LIB(bl_bit_set_clear(&S[k])) : LIB(bl_bit_set_reset(&S[k])); break;
        case 1: base("keep"); r = LIB(bl_bit_set_shrink(&S[k])); break;
        case 2: base("keep"); r = LIB(bl_bit_set_optimize(&S[k])); break;
        case 3: base("copy").i("o", o + 1); r = LIB(bl_bit_set_assign_weak(&S[k], &S[o])); break;
        case 4: base("copy").i("o", o + 1); r = LIB(bl_bit_set_assign_deep(&S[k], &S[o])); break;
        case 5: if (k == o) { e--; continue; } base("copy").i("o", o + 1); LIB(bl_bit_set_destroy(&S[k])); r = LIB(bl_bit_set_init_weak(&S[k], &S[o])); break;
        case 6: base("move").i("o", o + 1); if (g.chance(50) || k == o) r = LIB(bl_bit_set_assign_move(&S[k], &S[o])); else { LIB(bl_bit_set_destroy(&S[k])); r = LIB(bl_bit_set_init_move(&S[k], &S[o])); } break;
        case 7: case 8: base("assignrange").i("a", bias(x)).i("b", bias(y)); r = LIB(bl_bit_set_assign_range(&S[k], x, y)); break;
        case 9: case 10: case 11: base("addrange").i("a", bias(x)).i("b", bias(y)); r = LIB(bl_bit_set_add_range(&S[k], x, y)); break;
        case 12: case 13: case 14: base("clearrange").i("a", bias(x)).i("b", bias(y)); r = LIB(bl_bit_set_clear_range(&S[k], x, y)); break;
        case 15: case 16: case 17: base("addbit").i("a", bias(x)); r = LIB(bl_bit_set_add_bit(&S[k], x)); break;
        case 18: case 19: base("clearbit").i("a", bias(x)); r = LIB(bl_bit_set_clear_bit(&S[k], x)); break;
        case 20: base("chop").i("a", bias(x)).i("b", bias(y)); r = LIB(bl_bit_set_chop(&S[k], x, y)); break;
        case 21: case 22: case 23: { // words
          int wn = g.below(g.chance(80) ? 6 : 40); uint32_t sw = x / 32; if (g.chance(3)) sw = g.chance(50) ? 0xFFFFFFFFu : (1u << 27) + g.below(3);
          std::vector<uint32_t> w; uint32_t mode = g.below(4); for (int i = 0; i < wn; i++) w.push_back(mode == 0 ? 0xFFFFFFFFu : rw());
          if (wn && g.chance(60) && uint64_t(sw) + wn == (1u << 27)) w[wn - 1] &= ~1u;
          uint32_t* p = (uint32_t*)malloc(wn * 4 + 1); for (int i = 0; i < wn; i++) p[i] = w[i];
          bool fits = sw < (1u << 27) && uint64_t(sw) + wn <= (1u << 27); Iv v; if (fits) for (int i = 0; i < wn; i++) word(v, (uint64_t(sw) + i) * 32, w[i]);
          bool valid = fits && (v.empty() || v.back().second != 0x100000000ull); if (!valid) v.clear();
          bool add = g.chance(60); base(add ? "add" : "assign").b("valid", valid).raw("ws", starts(v)).raw("we", ends(v));
          r = add ? LIB(bl_bit_set_add_words(&S[k], sw, p, uint32_t(wn))) : LIB(bl_bit_set_assign_words(&S[k], sw, p, uint32_t(wn))); free(p); break; }
        case 24: { // builder
          Iv all; std::vector<std::pair<uint64_t, uint64_t>> parts; int m = 1 + g.below(12); bool small = g.chance(50);
          BLBitSetBuilderT<128> b1((BLBitSet*)&S[k]); BLBitSetBuilder b2((BLBitSet*)&S[k]);
          std::vector<std::array<uint64_t,2>> q; base("build");
          std::string ps = "["; bool f = true;
          for (int i = 0; i < m; i++) { uint32_t p = idx(), z = idx(); if (p > z) std::swap(p, z); if (p == 0xFFFFFFFFu) p--; bool one = g.chance(60); if (one) z = p + 1; else if (g.chance(50)) z = uint32_t(std::min<uint64_t>(0xFFFFFFFFu, uint64_t(p) + g.below(200)));
            if (!one && z < p) z = p;
            BLResult rr = one ? (small ? LIB(b1.add_bit(p)) : LIB(b2.add_bit(p))) : (small ? LIB(b1.add_range(p, z)) : LIB(b2.add_range(p, z))); r |= rr;
            if (p < z) { if (!f) ps += ','; f = false; ps += "[" + std::to_string(bias(p)) + "," + std::to_string(bias(z)) + "]"; } }
          r |= small ? LIB(b1.commit()) : LIB(b2.commit()); j.raw("parts", ps + "]"); break; }
        case 25: case 26: { uint32_t s0 = 0x80000000u, e0 = 0x80000000u; bool gr = bl_bit_set_get_range(&S[k], &s0, &e0); if (!gr) s0 = e0 = 0x80000000u;
          uint32_t c0 = bl_bit_set_get_cardinality(&S[k]), c1 = bl_bit_set_get_cardinality_in_range(&S[k], x, y), c2 = bl_bit_set_get_cardinality(&S[k]);
          base("query").i("a", bias(x)).i("b", bias(y)).ints("card", std::vector<long>{long(c0 >> 16), long(c0 & 65535)}).ints("cardr", std::vector<long>{long(c1 >> 16), long(c1 & 65535)}).b("same", c0 == c2)
            .b("has", bl_bit_set_has_bit(&S[k], x)).b("hasr", bl_bit_set_has_bits_in_range(&S[k], x, y)).b("gr", gr).i("rs", bias(s0)).i("re", bias(e0)).b("empty", bl_bit_set_is_empty(&S[k]));
          break; }
        case 27: case 28: { int c = bl_bit_set_compare(&S[k], &S[o]); base("relate").i("o", o + 1).b("eq", bl_bit_set_equals(&S[k], &S[o])).i("c", c < 0 ? -1 : c > 0).b("sub", bl_bit_set_subsumes(&S[k], &S[o])).b("isec", bl_bit_set_intersects(&S[k], &S[o])); break; }
        case 29: { // iteration (skipped when the set is too large to walk)
          bool gd; Iv d = decode(&S[k], &gd); uint64_t tot = 0; for (auto& p : d) tot += p.second - p.first; if (tot > 2000000 || !gd) { e--; continue; }
          Iv v; BLBitSetWordIterator it(S[k]); uint64_t last = 0; bool ord = true; long guard = 0; while (uint32_t w = it.next_word()) { ord &= it.bit_index() >= last && it.bit_index() == it.word_index() * 32; last = uint64_t(it.bit_index()) + 32; word(v, it.bit_index(), w); if (++guard > 1000000) { ord = false; break; } }
          base("iterate").b("ord", ord).raw("is", starts(v)).raw("ie", ends(v)); break; }
      }
      std::string cs = "["; if (cards && g.chance(60)) for (int q = 0; q < K; q++) { uint32_t c0 = bl_bit_set_get_cardinality(&S[q]); cs += (q ? ",[" : "[") + std::to_string(c0 >> 16) + "," + std::to_string(c0 & 65535) + "]"; }
      j.raw("cards", cs + "]").b("ok", r == BL_SUCCESS); dm::mark(j, r); log_state(j); tf.ev(j.done());
    }
    for (int k = 0; k < K; k++) LIB(bl_bit_set_destroy(&S[k]));
    dm::sweep();
    J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load()); tf.ev(j.done()); tf.end();
  }
}
