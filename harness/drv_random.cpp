// C29: random generators.
#include "vh.h"
using namespace vh;
static std::string bytes(uint64_t v, int n = 8) { J j = J::arr(); for (int i = 0; i < n; i++) j.addi((v >> (8 * i)) & 255); return j.done(); }
// A seed for which the i-th word of the state is `x` (inverse of the mixing function).
static uint64_t unshift(uint64_t x, int s) { uint64_t r = x; for (int i = 0; i < 64 / s + 1; i++) r = x ^ (r >> s); return r; }
static uint64_t inv(uint64_t a) { uint64_t r = a; for (int i = 0; i < 6; i++) r *= 2 - a * r; return r; }
static uint64_t seed_for(uint64_t x, int i) { x = unshift(x, 31); x *= inv(0x94D049BB133111EBull); x = unshift(x, 27); x *= inv(0xBF58476D1CE4E5B9ull); x = unshift(x, 30); return x - 0x9E3779B97F4A7C15ull * uint64_t(i); }
int main(int argc, char** argv) {
  Args a(argc, argv); TraceFile tf(a.out);
  for (int n = 0; n < a.n; n++) {
    Rng g(a.seed * 7919 + n); BLRandom r[3]; tf.begin();
    auto seed = [&]() -> uint64_t { switch (g.below(6)) { case 0: return g.below(3); case 1: return uint64_t(-1) - g.below(3); case 2: return uint64_t(1) << g.below(64); case 3: return seed_for(0, 1 + int(g.below(2))); case 4: return seed_for(uint64_t(1) << g.below(64), 1 + int(g.below(2))); default: return g.next(); } };
    auto put = [&](J& j, int s) { j.raw("d0", bytes(r[s].data[0])).raw("d1", bytes(r[s].data[1])); tf.ev(j.done()); };
    for (int s = 0; s < 3; s++) { uint64_t v = seed(); if (s < 2) r[s].reset(v); else r[s] = BLRandom(v); J j = J::obj(); j.str("op", "seed").i("s", s + 1).raw("v", bytes(v)); put(j, s); }
    for (int e = 0; e < a.len; e++) {
      int s = int(g.below(3)); J j = J::obj(); 
      switch (g.below(9)) {
        case 0: case 1: { uint64_t v = r[s].next_uint64(); j.str("op", "u64").i("s", s + 1).raw("r", bytes(v)); break; }
        case 2: case 3: { uint32_t v = r[s].next_uint32(); j.str("op", "u32").i("s", s + 1).raw("r", bytes(v, 4)); break; }
        case 4: case 5: { double v = r[s].next_double(); double w = v * 4503599627370496.0; bool ok = w >= 0 && w < 4503599627370496.0 && w == double(uint64_t(w)); j.str("op", "f64").i("s", s + 1).raw("r", bytes(ok ? uint64_t(w) : 0)).i("exact", ok); break; }
        case 6: { int b = int(g.below(3)); r[s] = r[b]; j.str("op", "copy").i("s", s + 1).i("b", b + 1); break; }
        case 7: { int b = int(g.below(3)); bool q = g.chance(50) ? r[s].equals(r[b]) : (r[s] == r[b]); j.str("op", "eq").i("s", s + 1).i("b", b + 1).i("r", q); break; }
        default: if (g.chance(70)) { int k = 1 + int(g.below(5)); for (int i = 0; i < k; i++) { if (i % 3 == 0) r[s].next_double(); else if (i % 3 == 1) r[s].next_uint32(); else r[s].next_uint64(); } j.str("op", "skip").i("s", s + 1).i("n", k); }
                 else { uint64_t v = seed(); if (g.chance(50)) { r[s].next_uint64(); } r[s].reset(v); j.str("op", "seed").i("s", s + 1).raw("v", bytes(v)); } break;
      }
      put(j, s);
    }
    tf.end();
  }
}
