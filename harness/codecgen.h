// Writes conforming PNG (APNG, CgBI), BMP and QOI files at random.
#pragma once
#include "deflategen.h"
namespace vh {
typedef std::vector<uint8_t> Bytes;
inline void be32(Bytes& d, uint32_t v) { for (int i = 3; i >= 0; i--) d.push_back(uint8_t(v >> (8 * i))); }
inline void be16(Bytes& d, uint32_t v) { d.push_back(uint8_t(v >> 8)); d.push_back(uint8_t(v)); }
inline void le32(Bytes& d, uint32_t v) { for (int i = 0; i < 4; i++) d.push_back(uint8_t(v >> (8 * i))); }
inline void le16(Bytes& d, uint32_t v) { d.push_back(uint8_t(v)); d.push_back(uint8_t(v >> 8)); }
inline uint32_t crc_of(const uint8_t* p, size_t n) { uint32_t c = ~0u; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return ~c; }
inline void chunk(Bytes& d, const char* tag, const Bytes& data) { be32(d, uint32_t(data.size())); size_t at = d.size(); d.insert(d.end(), tag, tag + 4); d.insert(d.end(), data.begin(), data.end()); be32(d, crc_of(d.data() + at, d.size() - at)); }
struct PngOpt { int type, depth, lace, w, h, pal, samples; bool cgbi; };
static const int kLace[7][4] = {{0,0,8,8},{4,0,8,8},{0,4,4,8},{2,0,4,4},{0,2,2,4},{1,0,2,2},{0,1,1,2}};
inline int png_sample(Rng& g, const PngOpt& o, int kind, int i) { int n = o.type == 3 ? o.pal : 1 << o.depth; return kind == 0 ? int(g.below(uint32_t(n))) : kind == 1 ? i / 3 % n : kind == 2 ? int(g.below(2)) * (n - 1) : int(g.below(uint32_t(std::min(n, 3)))); }
// The filtered data of a w by h image made up at random.
inline Bytes png_raw(Rng& g, const PngOpt& o, int w, int h) {
  Bytes raw; int bits = o.depth * o.samples, bpp = std::max(1, bits / 8), kind = int(g.below(4)), filt = int(g.below(8));
  for (int p = 0; p < (o.lace ? 7 : 1); p++) {
    int pw = w, ph = h; if (o.lace) { const int* L = kLace[p]; pw = w <= L[0] ? 0 : (w - L[0] + L[2] - 1) / L[2]; ph = h <= L[1] ? 0 : (h - L[1] + L[3] - 1) / L[3]; } if (!pw || !ph) continue;
    size_t n = size_t((pw * bits + 7) / 8); Bytes up(n, 0);
    for (int y = 0; y < ph; y++) {
      Bytes row(n, 0); int total = pw * o.samples; for (int i = 0; i < total; i++) { int v = png_sample(g, o, kind, i); if (o.depth == 8) row[size_t(i)] = uint8_t(v); else row[size_t(i * o.depth / 8)] |= uint8_t(v << (8 - o.depth - i * o.depth % 8)); }
      if (o.depth < 8 && (total * o.depth) % 8 && g.chance(50)) row[n - 1] |= uint8_t(g.next()) & uint8_t((1 << (8 - total * o.depth % 8)) - 1);
      int f = filt < 5 ? filt : int(g.below(5)); raw.push_back(uint8_t(f));
      for (size_t i = 0; i < n; i++) { int a = i >= size_t(bpp) ? row[i - size_t(bpp)] : 0, b = up[i], c = i >= size_t(bpp) ? up[i - size_t(bpp)] : 0, q = a + b - c, pa = abs(q - a), pb = abs(q - b), pc = abs(q - c);
        int pr = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : pa <= pb && pa <= pc ? a : pb <= pc ? b : c; raw.push_back(uint8_t(row[i] - pr)); }
      up = row; } }
  return raw;
}
inline Bytes png_pack(Rng& g, const PngOpt& o, const Bytes& raw) { Bytes out; Bytes z = random_deflate(g, 0, out, &raw, g.chance(50) ? 2000 : 150); return o.cgbi ? z : zlib_wrap(g, z, raw); }
inline void png_extra(Rng& g, Bytes& d) { static const char* names[] = {"tEXt", "gAMA", "pHYs", "tIME", "zzZz", "bKGD", "iCCP"}; while (g.chance(15)) { Bytes x(g.below(20)); for (auto& b : x) b = uint8_t(g.next()); chunk(d, names[g.below(7)], x); } }
inline void png_data(Rng& g, Bytes& d, const Bytes& z, const char* tag, uint32_t* seq, int zero) {
  size_t p = 0; do { size_t n = z.size() - p; if (g.chance(50)) n = g.below(uint32_t(n + 1)); if (n == 0 && !zero) n = std::min<size_t>(1, z.size() - p); Bytes x; if (seq) be32(x, (*seq)++); x.insert(x.end(), z.begin() + long(p), z.begin() + long(p + n)); chunk(d, tag, x); p += n; } while (p < z.size()); if (!seq && zero && g.chance(10)) chunk(d, tag, Bytes());
}
inline Bytes random_png(Rng& g, bool anim, int* frames = nullptr, int maxpx = 330) {
  PngOpt o; static const int types[][2] = {{0,1},{0,2},{0,4},{0,8},{2,8},{3,1},{3,2},{3,4},{3,8},{4,8},{6,8}}; int k = int(g.below(11)); o.type = types[k][0]; o.depth = types[k][1]; o.samples = o.type == 2 ? 3 : o.type == 4 ? 2 : o.type == 6 ? 4 : 1; o.lace = g.chance(45); o.cgbi = !anim && (o.type == 2 || o.type == 6) && g.chance(20);
  int mp = maxpx / (o.depth == 8 && !o.lace ? 1 : 1); o.w = 1 + int(g.below(g.chance(40) ? 70 : 20)); o.h = std::max(1, std::min(1 + int(g.below(20)), mp / o.w)); o.pal = o.type == 3 ? 1 + int(g.below(1u << o.depth)) : 0;
  Bytes d = {137, 80, 78, 71, 13, 10, 26, 10}, x; if (o.cgbi) chunk(d, "CgBI", {0x50, 0, 0x20, uint8_t(g.pick({2, 6}))});
  be32(x, uint32_t(o.w)); be32(x, uint32_t(o.h)); x.push_back(uint8_t(o.depth)); x.push_back(uint8_t(o.type)); x.push_back(0); x.push_back(0); x.push_back(uint8_t(o.lace)); chunk(d, "IHDR", x);
  png_extra(g, d); int nf = 2 + int(g.below(3)); if (anim) { x.clear(); be32(x, uint32_t(nf)); be32(x, g.below(3)); chunk(d, "acTL", x); png_extra(g, d); if (frames) *frames = nf; }
  int np = o.type == 3 ? o.pal : (o.type == 2 || o.type == 6) && g.chance(15) ? 1 + int(g.below(10)) : 0; if (np) { x.clear(); for (int i = 0; i < 3 * np; i++) x.push_back(uint8_t(g.next())); chunk(d, "PLTE", x); png_extra(g, d); }
  if (g.chance(40)) { x.clear(); if (o.type == 3) for (int i = 0, n = 1 + int(g.below(uint32_t(o.pal))); i < n; i++) x.push_back(uint8_t(g.pick({0, 255, 128, int(g.below(256))}))); else if (o.type == 0) be16(x, g.below(1u << o.depth)); else if (o.type == 2) for (int i = 0; i < 3; i++) be16(x, g.below(256)); if (!x.empty()) { chunk(d, "tRNS", x); png_extra(g, d); } }
  uint32_t seq = 0;
  for (int f = 0; f < (anim ? nf : 1); f++) {
    int w = o.w, h = o.h, X = 0, Y = 0; if (f) { w = 1 + int(g.below(uint32_t(o.w))); h = 1 + int(g.below(uint32_t(o.h))); X = int(g.below(uint32_t(o.w - w + 1))); Y = int(g.below(uint32_t(o.h - h + 1))); }
    if (anim) { x.clear(); be32(x, seq++); be32(x, uint32_t(w)); be32(x, uint32_t(h)); be32(x, uint32_t(X)); be32(x, uint32_t(Y)); be16(x, g.below(100)); be16(x, g.below(100)); x.push_back(uint8_t(g.below(3))); x.push_back(0); chunk(d, "fcTL", x); }
    Bytes z = png_pack(g, o, png_raw(g, o, w, h)); int zero = g.chance(20); if (f) png_data(g, d, z, "fdAT", &seq, zero); else png_data(g, d, z, "IDAT", nullptr, zero); png_extra(g, d); }
  chunk(d, "IEND", Bytes()); return d;
}
inline void random_masks(Rng& g, int depth, int n, uint32_t m[4]) {
  for (;;) { std::vector<int> cut; int total = 0, sz[4], gap[5]; for (int i = 0; i < n; i++) total += sz[i] = 1 + int(g.below(uint32_t(g.chance(50) ? depth / n : 9))); if (total > depth) continue; int left = depth - total; for (int i = 0; i <= n; i++) { gap[i] = int(g.below(uint32_t(left + 1))); if (g.chance(50)) gap[i] = 0; left -= gap[i]; }
    int ord[4] = {0, 1, 2, 3}; for (int i = n; i > 1; i--) std::swap(ord[i - 1], ord[g.below(uint32_t(i))]); int at = 0; m[3] = 0; for (int i = 0; i < n; i++) { at += gap[i]; m[ord[i]] = uint32_t(((1ull << sz[i]) - 1) << at); at += sz[i]; } return; }
}
inline Bytes random_bmp(Rng& g) {
  int hs = g.pick({12, 40, 40, 52, 56, 108, 124}), depth = hs == 12 ? g.pick({1, 4, 8, 24}) : g.pick({1, 4, 8, 8, 4, 16, 16, 24, 32, 32}), comp = 0, w = 1 + int(g.below(g.chance(30) ? 60 : 20)), h = std::max(1, std::min(1 + int(g.below(14)), 330 / w)); bool down = hs != 12 && g.chance(30); uint32_t m[4] = {0, 0, 0, 0}; int nm = 0;
  if (hs != 12 && (depth == 4 || depth == 8) && g.chance(50)) { comp = depth == 8 ? 1 : 2; down = false; }
  if (hs != 12 && (depth == 16 || depth == 32)) { if (g.chance(65)) { bool a = hs == 40 ? g.chance(40) : hs >= 56 && g.chance(50); comp = hs == 40 && a ? 6 : 3; nm = a ? 4 : 3; random_masks(g, depth, nm, m); } else if (hs >= 52 && g.chance(50)) { nm = 3; if (depth == 16) { m[0] = 31 << 10; m[1] = 31 << 5; m[2] = 31; } else { m[0] = 255 << 16; m[1] = 255 << 8; m[2] = 255; if (hs >= 56 && g.chance(50)) { m[3] = 0xFF000000u; nm = 4; } } } }
  else if (depth == 24 && hs >= 52 && g.chance(50)) { m[0] = 255 << 16; m[1] = 255 << 8; m[2] = 255; }
  Bytes body; size_t row = size_t((w * depth + 31) / 32 * 4); int kind = int(g.below(3)); int pal = depth <= 8 ? 1 << depth : 0; if (pal && g.chance(40)) pal = 1 + int(g.below(uint32_t(pal)));
  if (comp == 1 || comp == 2) { int x = 0, y = 0; bool d8 = comp == 1; auto val = [&]() { return d8 ? int(g.below(uint32_t(pal))) : int(g.below(uint32_t(pal))) * 16 + int(g.below(uint32_t(pal))); };
    for (;;) { int r = int(g.below(100)); if (x >= w && r < 60) r = 85; 
      if (r < 40) { int n = 1 + int(g.below(uint32_t(g.chance(90) && w > x ? w - x : 255))); body.push_back(uint8_t(n)); body.push_back(uint8_t(val())); x = std::min(w, x + n); }
      else if (r < 75) { int lim = g.chance(90) ? w - x : 40; if (lim < 3) continue; int n = 3 + int(g.below(uint32_t(std::min(lim, 255) - 2))); body.push_back(0); body.push_back(uint8_t(n)); int by = d8 ? n : (n + 1) / 2; for (int i = 0; i < by; i++) body.push_back(uint8_t(val())); if (by & 1) body.push_back(0); x = std::min(w, x + n); }
      else if (r < 85) { int dx = int(g.below(uint32_t(w - x + 1))), dy = int(g.below(uint32_t(std::min(h - y, 3) + 1))); body.push_back(0); body.push_back(2); body.push_back(uint8_t(dx)); body.push_back(uint8_t(dy)); x += dx; y += dy; if (y == h) { body.push_back(0); body.push_back(1); break; } }
      else if (r < 97) { body.push_back(0); body.push_back(0); x = 0; if (++y == h) { if (g.chance(80)) { body.push_back(0); body.push_back(1); } break; } }
      else { body.push_back(0); body.push_back(1); break; } } }
  else for (int y = 0; y < h; y++) { Bytes r(row, 0); size_t used = size_t((w * depth + 7) / 8); for (size_t i = 0; i < used; i++) r[i] = uint8_t(kind == 0 ? g.next() : kind == 1 ? (i * 37 + size_t(y)) : g.below(2) * 255); if (g.chance(30)) for (size_t i = used; i < row; i++) r[i] = uint8_t(g.next()); body.insert(body.end(), r.begin(), r.end()); }
  Bytes d; int entry = hs == 12 ? 3 : 4; size_t gap = g.chance(20) ? g.below(9) : 0; if (hs == 12 || (depth <= 8 && pal < (1 << depth))) gap = 0; size_t extra = (hs == 40 && comp == 3) ? 12 : (hs == 40 && comp == 6) ? 16 : 0; size_t off = 14 + size_t(hs) + extra + size_t(pal * entry) + gap; bool coded = comp == 1 || comp == 2; if (depth > 8 && g.chance(10)) off += 16;
  d.push_back('B'); d.push_back('M'); le32(d, uint32_t(off + body.size())); le32(d, 0); le32(d, uint32_t(off)); le32(d, uint32_t(hs));
  if (hs == 12) { le16(d, uint32_t(w)); le16(d, uint32_t(h)); le16(d, 1); le16(d, uint32_t(depth)); }
  else { le32(d, uint32_t(w)); le32(d, uint32_t(down ? -h : h)); le16(d, 1); le16(d, uint32_t(depth)); le32(d, uint32_t(comp)); le32(d, coded || g.chance(50) ? uint32_t(body.size()) : 0); le32(d, 2835); le32(d, 2835); le32(d, uint32_t(g.chance(50) ? pal : 0)); le32(d, 0); Bytes more; if (hs >= 52 || extra) for (int i = 0; i < (hs >= 56 || extra == 16 ? 4 : 3); i++) le32(more, m[i]); d.insert(d.end(), more.begin(), more.end()); while (d.size() < 14 + size_t(hs) + extra) d.push_back(uint8_t(g.next())); }
  for (int i = 0; i < pal; i++) { for (int k = 0; k < 3; k++) d.push_back(uint8_t(g.next())); if (entry == 4) d.push_back(uint8_t(g.chance(50) ? 0 : g.next())); }
  while (d.size() < off) d.push_back(uint8_t(g.next())); d.insert(d.end(), body.begin(), body.end()); if (g.chance(20)) for (int i = 0; i < 5; i++) d.push_back(uint8_t(g.next())); return d;
}
inline Bytes random_qoi(Rng& g) {
  int w = 1 + int(g.below(30)), h = std::max(1, std::min(1 + int(g.below(30)), 400 / w)), ch = g.pick({3, 4}); Bytes d = {'q', 'o', 'i', 'f'}; be32(d, uint32_t(w)); be32(d, uint32_t(h)); d.push_back(uint8_t(ch)); d.push_back(uint8_t(g.below(2)));
  struct Px { int c[4]; bool operator==(const Px& o) const { return !memcmp(c, o.c, sizeof c); } int hash() const { return (c[0] * 3 + c[1] * 5 + c[2] * 7 + c[3] * 11) % 64; } };
  Px tab[64]; memset(tab, 0, sizeof tab); Px p = {{0, 0, 0, 255}}; int n = w * h, i = 0; bool fuzzy = false; std::vector<Px> seen; int mode = int(g.below(4));
  auto put = [&](const Px& q, int run) { p = q; tab[q.hash()] = q; if (q.hash() == 53 && run == 0) fuzzy = false; seen.push_back(q); };
  while (i < n) {
    int r = int(g.below(100));
    if (r < 20) { int run = 1 + int(g.below(uint32_t(std::min(n - i, g.chance(20) ? 62 : 6)))); d.push_back(uint8_t(0xC0 | (run - 1))); if (i == 0) fuzzy = true; i += run; put(p, 1); continue; }
    if (r < 45) { int s = int(g.below(64)); if (!seen.empty() && g.chance(80)) s = seen[g.below(uint32_t(seen.size()))].hash(); if ((s == 53 && fuzzy) || tab[s].hash() != s || (ch == 3 && tab[s].c[3] != 255)) continue; d.push_back(uint8_t(s)); put(tab[s], 0); i++; continue; }
    if (r < 65) { int a[3]; for (int& x : a) x = int(g.below(4)); d.push_back(uint8_t(0x40 | a[0] << 4 | a[1] << 2 | a[2])); Px q = p; for (int k = 0; k < 3; k++) q.c[k] = (q.c[k] + a[k] - 2) & 255; put(q, 0); i++; continue; }
    if (r < 80) { int a = int(g.below(64)), b = int(g.below(16)), c = int(g.below(16)); d.push_back(uint8_t(0x80 | a)); d.push_back(uint8_t(b << 4 | c)); Px q = p; q.c[0] = (q.c[0] + a - 32 + b - 8) & 255; q.c[1] = (q.c[1] + a - 32) & 255; q.c[2] = (q.c[2] + a - 32 + c - 8) & 255; put(q, 0); i++; continue; }
    Px q = p; for (int k = 0; k < 3; k++) q.c[k] = mode == 0 ? int(g.below(3)) * 127 : int(g.below(256)); if (ch == 4 && g.chance(60)) { q.c[3] = g.pick({0, 255, int(g.below(256))}); d.push_back(255); for (int k = 0; k < 4; k++) d.push_back(uint8_t(q.c[k])); } else { d.push_back(254); for (int k = 0; k < 3; k++) d.push_back(uint8_t(q.c[k])); } put(q, 0); i++;
  }
  for (int k = 0; k < 7; k++) d.push_back(0); d.push_back(1); return d;
}
}
