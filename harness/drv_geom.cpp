// C26: hit tests of paths at sample points.
#include "vh.h"
#include "dbgmalloc.h"
#include <math.h>
using namespace vh;
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init();
  for (int t = 0; t < a.n; t++) {
    tf.begin(); dm::sweep(); long live0 = dm::live.load();
    for (int e = 0; e < a.len; e++) {
      int curves = g.pick({0, 0, 0, 1, 2, 3}), range = g.pick({6, 20, 60}), nf = 1 + (g.chance(40) ? g.below(3) : 0); bool curved = false; long dev = 0;
      BLPath p; std::string fs = "["; std::vector<std::pair<int, int>> vs; auto pt = [&]() { std::pair<int, int> q(g.range(-range, range), g.range(-range, range)); if (vs.size() && g.chance(25)) q.first = vs[g.below(uint32_t(vs.size()))].first; if (vs.size() && g.chance(25)) q.second = vs[g.below(uint32_t(vs.size()))].second; if (vs.size() && g.chance(6)) q = vs.back(); vs.push_back(q); return q; };
      auto S = [](std::pair<int, int> q) { return "[" + std::to_string(q.first) + "," + std::to_string(q.second) + "]"; }; auto V = [](std::pair<int, int> q) { return BLPoint(q.first, q.second); };
      dm::sweep();
      for (int k = 0; k < nf; k++) {
        auto s = pt(), cur = s; int n = g.below(7); if (n == 6) n = 1 + g.below(14); bool closed = g.chance(60); std::string segs; p.move_to(V(s));
        for (int i = 0; i < n; i++) {
          if (i) segs += ','; int c = curves && g.chance(60) ? g.below(3) : 3; if (c == 1 && !(curves & 4)) c = 2;
          auto u = pt(), v = pt(), w = pt(); auto d2 = [&](std::pair<int, int> x, std::pair<int, int> y, std::pair<int, int> z) { return std::max(labs(x.first - 2 * y.first + z.first), labs(x.second - 2 * y.second + z.second)); };
          if (c == 0) { curved = true; dev = std::max(dev, d2(cur, u, v)); p.quad_to(V(u), V(v)); segs += "[2,0," + S(u) + "," + S(v) + "]"; cur = v; }
          else if (c == 1) { curved = true; int wt = g.pick({1, 2, 3, 4, 6}); dev = std::max(dev, 4 * d2(cur, u, v) + 4 * std::max(labs(u.first - cur.first) + labs(v.first - u.first), labs(u.second - cur.second) + labs(v.second - u.second))); p.conic_to(V(u), V(v), wt / 4.0); segs += "[3," + std::to_string(wt) + "," + S(u) + "," + S(v) + "]"; cur = v; }
          else if (c == 2) { curved = true; dev = std::max(dev, 3 * std::max(d2(cur, u, v), d2(u, v, w))); p.cubic_to(V(u), V(v), V(w)); segs += "[4,0," + S(u) + "," + S(v) + "," + S(w) + "]"; cur = w; }
          else { p.line_to(V(u)); segs += "[1,0," + S(u) + "]"; cur = u; }
        }
        if (closed) p.close(); if (k) fs += ','; fs += "[" + S(s) + ",[" + segs + "]," + (closed ? "true" : "false") + "]";
      }
      fs += "]"; int rule = g.below(2); std::vector<long> hit; std::string pts = "["; int np = 10;
      for (int i = 0; i < np; i++) { // points in 1/16 units; often exactly at the height of a vertex or inside the extents
        int x = g.range(-range * 16, range * 16), y = g.range(-range * 16, range * 16); if (g.chance(50)) y = vs[g.below(uint32_t(vs.size()))].second * 16; if (g.chance(25)) x = vs[g.below(uint32_t(vs.size()))].first * 16; if (g.chance(30)) { x = x / 16 * 16; y = y / 16 * 16; }
        BLPoint q(x / 16.0, y / 16.0); hit.push_back(p.hit_test(q, BLFillRule(rule))); if (i) pts += ','; pts += "[" + std::to_string(x) + "," + std::to_string(y) + "]"; }
      pts += "]"; J j = J::obj(); j.str("op", "hit").i("rule", rule).b("curved", curved).i("margin", dev * 16 * 2 / (8 * 256) + 1).raw("figs", fs).raw("pts", pts).ints("hit", hit); tf.ev(j.done());
    }
    dm::sweep(); J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load()); tf.ev(j.done()); tf.end();
  }
}
