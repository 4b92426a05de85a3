// C27/C13: fills of polygons; the alpha of every pixel is recorded together with the geometry.
#include "vh.h"
#include "dbgmalloc.h"
#include <math.h>
using namespace vh;
typedef std::vector<std::pair<int, int>> Fig; // 1/256 pixel
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init();
  for (int t = 0; t < a.n; t++) {
    tf.begin(); long live0 = 0; (void)live0;
    int kind = g.below(20), w, h;
    if (kind < 14) { w = 1 + g.below(14); h = 1 + g.below(14); } else if (kind < 17) { w = 200 + g.below(180); h = 1 + g.below(5); } else { w = 1 + g.below(6); h = 30 + g.below(130); }
    int ne = kind < 14 ? a.len : 3;
    for (int e = 0; e < ne; e++) {
      uint32_t fmt = g.pick({BL_FORMAT_A8, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32}); int bpp = fmt == BL_FORMAT_A8 ? 1 : 4, pad = g.below(3) * 4, gr = 2; size_t stride = size_t(w * bpp + 8 + pad);
      std::vector<uint8_t> mem(stride * size_t(h + 2 * gr), 0); uint8_t* px = mem.data() + stride * gr + 4;
      for (int y = -gr; y < h + gr; y++) for (size_t x = 0; x < stride; x++) { long k = long(x) - 4; if (y < 0 || y >= h || k < 0 || k >= w * bpp) mem[size_t(y + gr) * stride + x] = 0xA5; }
      BLImage im; im.create_from_data(w, h, BLFormat(fmt), px, intptr_t(stride), BL_DATA_ACCESS_RW);
      if (fmt == BL_FORMAT_XRGB32) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) px[size_t(y) * stride + x * 4 + 3] = 0xFF;
      // geometry
      std::vector<Fig> figs; int mode = g.below(10), grid = g.pick({1, 1, 16, 64, 128, 256, 256}); bool rect = mode < 4, box = mode == 4, diag = mode == 5 || mode == 6; bool far = (rect || box) && g.chance(25);
      int nf = box ? 1 : 1 + (g.chance(40) ? g.below(4) : 0);
      auto cx = [&]() { if (far && g.chance(30)) return g.range(-(1 << 20), 1 << 20) * 256; int lo = -w * 256 / 2 - 512, hi = w * 384 + 512; return (g.range(lo, hi) / grid) * grid; };
      auto cy = [&]() { if (far && g.chance(30)) return g.range(-(1 << 20), 1 << 20) * 256; int lo = -h * 256 / 2 - 512, hi = h * 384 + 512; return (g.range(lo, hi) / grid) * grid; };
      for (int k = 0; k < nf; k++) {
        Fig f; int n = 3 + g.below(5);
        if (box) { int x0 = cx(), y0 = cy(), x1 = cx(), y1 = cy(); if (x0 > x1) std::swap(x0, x1); if (y0 > y1) std::swap(y0, y1); f = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; }
        else if (rect) { int x = cx(), y = cy(), x0 = x, y0 = y; for (int i = 0; i < n; i++) { f.push_back({x, y}); if (i & 1) y = cy(); else x = cx(); if (g.chance(5)) f.push_back(f.back()); } f.push_back({x, y}); f.push_back(g.chance(50) ? std::make_pair(x, y0) : std::make_pair(x0, y)); }
        else if (diag) { int x = cx(), y = cy(), x0 = x, y0 = y; for (int i = 0; i < n; i++) { f.push_back({x, y}); int d = g.range(-std::min(w, h) * 256, std::min(w, h) * 256) / grid * grid; int nx = x + d + (g.chance(15) ? g.range(-1, 1) : 0), ny = y + (g.chance(50) ? d : -d); if (g.chance(30)) { if (g.chance(50)) nx = cx(); else ny = cy(); if (g.chance(50)) nx = x; } x = nx; y = ny; } (void)x0; (void)y0; }
        else for (int i = 0; i < n; i++) f.push_back({cx(), cy()});
        figs.push_back(f);
      }
      // keep products of edge extents within the specification's arithmetic
      bool big = false; for (auto& f : figs) for (size_t i = 0; i < f.size(); i++) { auto p = f[i], q = f[(i + 1) % f.size()]; double dx = fabs(double(p.first) - q.first), dy = fabs(double(p.second) - q.second); if (dx && dy && (dx * dy > 9e8 || dx > 120000)) big = true; }
      if (big) { e--; continue; }
      int rule = g.below(2); int clip[4] = {0, 0, w, h};
      // translated drawing
      int tx = 0, ty = 0, sc = 1; if (g.chance(40) && !far) { tx = g.range(-4000, 4000); ty = g.range(-4000, 4000); if (g.chance(30)) { tx = tx / 256 * 256; ty = ty / 256 * 256; } } if (g.chance(20) && !far) sc = g.pick({2, -1, 4, -2});
      bool threads = g.chance(12); BLContextCreateInfo ci{}; ci.thread_count = threads ? 1 + g.below(3) : 0;
      BLContext c; bool ok = c.begin(im, ci) == BL_SUCCESS;
      if (g.chance(45)) { int x0 = g.range(-2, w), y0 = g.range(-2, h), x1 = g.range(x0, w + 2), y1 = g.range(y0, h + 2); ok = ok && c.clip_to_rect(BLRectI(x0, y0, x1 - x0, y1 - y0)) == BL_SUCCESS; clip[0] = std::max(0, x0); clip[1] = std::max(0, y0); clip[2] = std::min(w, x1); clip[3] = std::min(h, y1); if (clip[0] >= clip[2] || clip[1] >= clip[3]) clip[0] = clip[1] = clip[2] = clip[3] = 0; }
      if (tx || ty) { if (g.chance(50)) c.translate(tx / 256.0, ty / 256.0); else c.apply_transform(BLMatrix2D(1, 0, 0, 1, tx / 256.0, ty / 256.0)); } if (sc != 1) c.scale(sc);
      auto X = [&](int x) { return (x - tx) / 256.0 / sc; }; auto Y = [&](int y) { return (y - ty) / 256.0 / sc; };
      c.set_fill_rule(BLFillRule(rule)); BLRgba32 white(0xFFFFFFFFu); if (g.chance(50)) c.set_comp_op(BL_COMP_OP_SRC_OVER); else if (fmt != BL_FORMAT_XRGB32) c.set_comp_op(BL_COMP_OP_SRC_COPY);
      int how = g.below(4); c.set_fill_style(white); 
      BLPath p; std::vector<BLPoint> pts; for (auto& f : figs) { for (size_t i = 0; i < f.size(); i++) { BLPoint v(X(f[i].first), Y(f[i].second)); pts.push_back(v); if (i == 0) p.move_to(v); else p.line_to(v); } if (g.chance(60)) p.close(); }
      if (box && how == 0) { auto& f = figs[0]; BLBox b(X(f[0].first), Y(f[0].second), X(f[2].first), Y(f[2].second)); ok = ok && (g.chance(50) && sc > 0 ? c.fill_rect(b.x0, b.y0, b.x1 - b.x0, b.y1 - b.y0) : c.fill_geometry(sc > 0 ? BL_GEOMETRY_TYPE_BOXD : BL_GEOMETRY_TYPE_PATH, sc > 0 ? (const void*)&b : (const void*)&p)) == BL_SUCCESS; }
      else if (figs.size() == 1 && how == 1) ok = ok && c.fill_polygon(pts.data(), pts.size()) == BL_SUCCESS;
      else if (figs.size() == 1 && how == 2 && sc == 1 && grid == 256 && !far && tx % 256 == 0 && ty % 256 == 0 && !diag) { std::vector<BLPointI> q; for (auto& v : pts) q.push_back(BLPointI(int(v.x), int(v.y))); ok = ok && c.fill_polygon(q.data(), q.size()) == BL_SUCCESS; }
      else if (how == 3) ok = ok && c.fill_path(p, white) == BL_SUCCESS;
      else if (g.chance(30)) { c.translate(3, -2); ok = ok && c.fill_path(BLPoint(-3, 2), p) == BL_SUCCESS; }
      else ok = ok && c.fill_path(p) == BL_SUCCESS;
      ok = ok && c.end() == BL_SUCCESS;
      std::string al = "["; long out = 0;
      for (int y = -gr; y < h + gr; y++) for (size_t x = 0; x < stride; x++) { long k = long(x) - 4; if (y < 0 || y >= h || k < 0 || k >= w * bpp) out += mem[size_t(y + gr) * stride + x] != 0xA5; }
      for (int y = 0; y < h; y++) { if (y) al += ','; al += '['; for (int x = 0; x < w; x++) { uint8_t* q = px + size_t(y) * stride + x * bpp; if (x) al += ','; al += std::to_string(q[0]); if (bpp == 4) { ok = ok && q[0] == q[1] && q[0] == q[2] && (fmt == BL_FORMAT_XRGB32 || q[3] == q[0]); } } al += ']'; }
      al += "]"; std::string fs = "["; for (size_t k = 0; k < figs.size(); k++) { if (k) fs += ','; fs += '['; for (size_t i = 0; i < figs[k].size(); i++) { if (i) fs += ','; fs += "[" + std::to_string(figs[k][i].first) + "," + std::to_string(figs[k][i].second) + "]"; } fs += ']'; } fs += "]";
      J j = J::obj(); j.str("op", "fill").i("w", w).i("h", h).i("rule", rule).ints("clip", std::vector<long>{clip[0], clip[1], clip[2], clip[3]}).b("ok", ok).i("out", out).i("fmt", fmt).i("how", how).i("thr", ci.thread_count).ints("tr", std::vector<long>{tx, ty, sc}).raw("figs", fs).raw("al", al); tf.ev(j.done());
    }
    tf.end();
  }
}
