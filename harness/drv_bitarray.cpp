// Histories of bit array operations.
#include "vh.h"
#include "dbgmalloc.h"
using namespace vh;
static const int K = 3;
static BLBitArrayCore S[K];
static bool bit(const uint32_t* w, size_t i) { return (w[i / 32] >> (31 - i % 32)) & 1; }
static std::string bits(const uint32_t* w, size_t nwords) { std::string s = "["; bool f = true; for (size_t i = 0; i < nwords * 32; i++) if (bit(w, i)) { if (!f) s += ','; f = false; s += std::to_string(i); } return s + "]"; }
static void log_state(J& j) {
  std::string st = "["; std::vector<long> caps, sizes;
  for (int k = 0; k < K; k++) { size_t n = bl_bit_array_get_size(&S[k]); sizes.push_back(long(n)); caps.push_back(bl_bit_array_get_capacity(&S[k]));
    if (k) st += ','; st += n > 100000 ? "[-1]" : bits(bl_bit_array_get_data(&S[k]), (n + 31) / 32); }
  j.raw("st", st + "]").ints("n", sizes).ints("cap", caps).i("bad", dm::bad.load());
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); dm::counting = 1; dm::inject_p = a.extra;
  for (int t = 0; t < a.n; t++) {
    for (int k = 0; k < K; k++) LIB(bl_bit_array_init(&S[k]));
    long live0 = dm::live.load(); tf.begin();
    int maxw = g.pick({2, 3, 4, 7}), dens = g.pick({5, 50, 95});
    auto rw = [&]() { int w = g.below(4); uint32_t x = 0; if (w == 0) return 0u; if (w == 1) return 0xFFFFFFFFu; for (int b = 0; b < 32; b++) if (g.chance(dens)) x |= 1u << b; return x; };
    int L = a.len / 2 + g.below(a.len);
    for (int e = 0; e < L; e++) {
      int k = g.below(K), o = g.below(K); uint32_t n = bl_bit_array_get_size(&S[k]);
      auto idx = [&]() -> uint32_t { if (g.chance(3)) return 0xFFFFFFFFu; if (g.chance(35)) return uint32_t(std::max(0, int(g.below(n / 32 + 2) * 32) + g.range(-1, 1))); return g.below(n + 3); };
      int wn = g.below(g.chance(70) ? 3 : maxw + 2); std::vector<uint32_t> w; for (int i = 0; i < wn; i++) w.push_back(rw());
      uint32_t* wp = (uint32_t*)malloc(wn * 4 + 1); for (int i = 0; i < wn; i++) wp[i] = w[i];
      uint32_t i = idx(), i2 = idx(); if (g.chance(80) && i > i2) std::swap(i, i2);
      long li = i > 0x7FFFFFF0u ? 0x7FFFFFF0 : i, li2 = i2 > 0x7FFFFFF0u ? 0x7FFFFFF0 : i2;
      dm::arm(g); BLResult r = 0; J j = J::obj();
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm); return j.str("op", nm).i("s", k + 1); };
      auto W = [&](const char* nm) -> J& { return base(nm).i("i", li).i("wn", wn).raw("w", bits(wp, wn)); };
      bool v = g.chance(50); bool big = n > uint32_t(maxw * 32 + 64);
      switch (g.below(28)) {
        case 0: base("clear"); r = g.chance(50) ? LIB(bl_bit_array_clear(&S[k])) : LIB(bl_bit_array_reset(&S[k])); break;
        case 1: base("shrink"); r = LIB(bl_bit_array_shrink(&S[k])); break;
        case 2: { int m = g.chance(50) ? g.below(maxw * 40) : int(n) + g.range(-2, 40); if (m < 0) m = 0; base("reserve").i("m", m); r = g.chance(50) ? LIB(bl_bit_array_reserve(&S[k], uint32_t(m))) : LIB(S[k].dcast().reserve(uint32_t(m))); break; }
        case 3: case 4: { int m = g.chance(50) ? g.below(maxw * 32) : g.chance(50) ? int(g.below(maxw + 1) * 32) : std::max(0, int(n) + g.range(-35, 35)); base("resize").i("m", m); r = LIB(bl_bit_array_resize(&S[k], uint32_t(m))); break; }
        case 5: base("copy").i("o", o + 1); r = LIB(bl_bit_array_assign_weak(&S[k], &S[o])); break;
        case 6: case 7: if (k == o) { e--; free(wp); continue; } base("copy").i("o", o + 1); LIB(bl_bit_array_destroy(&S[k])); r = LIB(bl_bit_array_init_weak(&S[k], &S[o])); break;
        case 8: if (g.chance(50) || k == o) { base("move").i("o", o + 1); r = LIB(bl_bit_array_assign_move(&S[k], &S[o])); } else { base("move").i("o", o + 1); LIB(bl_bit_array_destroy(&S[k])); r = LIB(bl_bit_array_init_move(&S[k], &S[o])); } break;
        case 9: W("assignwords"); r = LIB(bl_bit_array_assign_words(&S[k], wp, uint32_t(wn))); break;
        case 10: base("setbit").i("i", li).b("v", true); r = LIB(bl_bit_array_set_bit(&S[k], i)); break;
        case 11: base("setbit").i("i", li).b("v", false); r = LIB(bl_bit_array_clear_bit(&S[k], i)); break;
        case 12: base("setbit").i("i", li).b("v", v); r = LIB(bl_bit_array_replace_bit(&S[k], i, v)); break;
        case 13: case 14: base("range").i("i", li).i("j", li2).b("v", true); r = LIB(bl_bit_array_fill_range(&S[k], i, i2)); break;
        case 15: base("range").i("i", li).i("j", li2).b("v", false); r = LIB(bl_bit_array_clear_range(&S[k], i, i2)); break;
        case 16: W("fillwords"); r = LIB(bl_bit_array_fill_words(&S[k], i, wp, uint32_t(wn))); break;
        case 17: if (wn == 1) { W("clearwords"); r = LIB(bl_bit_array_clear_word(&S[k], i, wp[0])); } else { W("clearwords"); r = LIB(bl_bit_array_clear_words(&S[k], i, wp, uint32_t(wn))); } break;
        case 18: case 19: if (wn == 1) { W("replacewords"); r = LIB(bl_bit_array_replace_word(&S[k], i, wp[0])); } else { W("replacewords"); r = LIB(bl_bit_array_replace_words(&S[k], i, wp, uint32_t(wn))); } break;
        case 20: case 21: if (big) { e--; free(wp); continue; } base("appendbit").b("v", v); r = LIB(bl_bit_array_append_bit(&S[k], v)); break;
        case 22: case 23: if (big) { e--; free(wp); continue; } if (wn == 1) { W("appendwords"); r = LIB(bl_bit_array_append_word(&S[k], wp[0])); } else { W("appendwords"); r = LIB(bl_bit_array_append_words(&S[k], wp, uint32_t(wn))); } break;
        case 24: { int m = g.chance(40) ? int(g.below(maxw + 1) * 32) : g.below(maxw * 32); int mw = (m + 31) / 32; std::vector<uint32_t> x; for (int q = 0; q < mw; q++) x.push_back(rw()); if (m & 31) x[mw - 1] &= ~0u << (32 - (m & 31));
          uint32_t* out = nullptr; base("replaceop").i("m", m).raw("w", bits(x.data(), mw)); r = LIB(bl_bit_array_replace_op(&S[k], uint32_t(m), &out)); bool z = true; if (!r) for (int q = 0; q < mw; q++) { z &= out[q] == 0; out[q] = x[q]; } j.b("z", z); break; }
        case 25: case 26: { uint32_t s0 = 77, e0 = 77; bool gr = bl_bit_array_get_range(&S[k], &s0, &e0);
          base("query").i("i", li).i("j", li2).i("card", bl_bit_array_get_cardinality(&S[k])).i("cardr", bl_bit_array_get_cardinality_in_range(&S[k], i, i2)).b("has", bl_bit_array_has_bit(&S[k], i)).b("hasr", bl_bit_array_has_bits_in_range(&S[k], i, i2)).b("gr", gr).i("rs", s0).i("re", e0).b("empty", bl_bit_array_is_empty(&S[k])).i("wc", bl_bit_array_get_word_count(&S[k])); break; }
        case 27: { int c = bl_bit_array_compare(&S[k], &S[o]); base("relate").i("o", o + 1).b("eq", bl_bit_array_equals(&S[k], &S[o])).i("c", c < 0 ? -1 : c > 0).b("sub", bl_bit_array_subsumes(&S[k], &S[o])).b("isec", bl_bit_array_intersects(&S[k], &S[o])); break; }
      }
      free(wp);
      j.b("ok", r == BL_SUCCESS); dm::mark(j, r); log_state(j); tf.ev(j.done());
    }
    for (int k = 0; k < K; k++) LIB(bl_bit_array_destroy(&S[k]));
    dm::sweep();
    J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load()); tf.ev(j.done()); tf.end();
  }
}
