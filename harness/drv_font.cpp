// C32: character maps, metrics and kerning of fonts made up on the spot; mode 'mut': damaged fonts.
#include "vh.h"
#include "ttf.h"
#include <algorithm>
#include <array>
#include <set>
using namespace vh; using ttf::W; using ttf::Bytes;
static int G;                                    // number of glyphs
static std::vector<uint32_t> pts;                // interesting characters
static int gid(Rng& g) { return g.chance(15) ? 0 : g.chance(90) ? int(g.below(unsigned(G))) : int(g.below(65536)); }
static void point(uint32_t c) { pts.push_back(c); pts.push_back(c + 1); if (c) pts.push_back(c - 1); }
static Bytes sub(Rng& g, int fmt) {
  W w;
  if (fmt == 0) { w.u16(0).u16(262).u16(0); int dense = int(g.below(100)); for (int i = 0; i < 256; i++) { int v = g.chance(dense) ? gid(g) & 255 : 0; w.u8(uint32_t(v)); } point(0); point(255); point(g.below(256)); for (int i = 0; i < 8; i++) pts.push_back(g.below(256)); }
  else if (fmt == 4) {
    struct S { uint32_t a, b, d; int off; }; std::vector<S> s; uint32_t c = g.chance(30) ? 0 : g.below(200); int n = int(g.below(9)); W arr;
    for (int i = 0; i < n && c < 0xFF00; i++) { S x; x.a = c; x.b = c + (g.chance(30) ? 0 : g.below(12)); x.d = g.chance(50) ? (g.below(unsigned(G)) - x.a) & 0xFFFF : g.chance(50) ? 0 : g.below(65536); x.off = g.chance(50) ? -1 : 0; if (x.off == 0) { if (arr.size() && g.chance(15)) { x.off = int(arr.size() / 2) - int(x.b - x.a) - 1; if (x.off < 0) x.off = 0; } else x.off = int(arr.size() / 2); while (int(arr.size() / 2) < x.off + int(x.b - x.a) + 1) arr.u16(uint32_t(g.chance(20) ? 0 : gid(g))); } s.push_back(x); point(x.a); point(x.b); c = x.b + (g.chance(40) ? 1 : 1 + g.below(g.chance(50) ? 5 : 9000)); }
    s.push_back({0xFFFF, 0xFFFF, 1, -1}); n = int(s.size()); if (g.chance(30)) arr.u16(7);
    w.u16(4).u16(uint32_t(16 + n * 8 + int(arr.size()))).u16(0).u16(uint32_t(n * 2)).u16(0).u16(0).u16(0); for (auto& x : s) w.u16(x.b); w.u16(0); for (auto& x : s) w.u16(x.a); for (auto& x : s) w.u16(x.d); for (int i = 0; i < n; i++) w.u16(s[size_t(i)].off < 0 ? 0 : uint32_t((n - i + s[size_t(i)].off) * 2)); w.raw(arr.b); }
  else if (fmt == 6) { uint32_t n = 1 + g.below(20), f = g.chance(20) ? 0 : g.below(65535 - n); w.u16(6).u16(10 + n * 2).u16(0).u16(f).u16(n); for (uint32_t i = 0; i < n; i++) w.u16(uint32_t(gid(g))); point(f); point(f + n - 1); for (int i = 0; i < 4; i++) pts.push_back(f + g.below(n)); }
  else if (fmt == 10) { uint32_t n = 1 + g.below(20), f = g.chance(20) ? 0 : g.chance(50) ? g.below(70000) : g.below(0x10FFFF - n); w.u16(10).u16(0).u32(20 + n * 2).u32(0).u32(f).u32(n); for (uint32_t i = 0; i < n; i++) w.u16(uint32_t(gid(g))); point(f); point(f + n - 1); for (int i = 0; i < 4; i++) pts.push_back(f + g.below(n)); }
  else if (fmt == 12 || fmt == 13) { W gr; uint32_t c = g.chance(30) ? 0 : g.below(0x3000), n = 0, m = 1 + g.below(9); for (; n < m && c < 0x10FF00; n++) { uint32_t b = c + (g.chance(30) ? 0 : g.below(g.chance(90) ? 12 : 3000)); uint32_t gl = g.chance(70) ? uint32_t(gid(g)) : g.below(60000); if (fmt == 12 && gl + b - c > 65535) gl = 1; gr.u32(c).u32(b).u32(gl); point(c); point(b); pts.push_back(c + g.below(b - c + 1)); c = b + (g.chance(40) ? 1 : 1 + g.below(g.chance(50) ? 5 : 0x60000)); } w.u16(uint32_t(fmt)).u16(0).u32(16 + uint32_t(gr.size())).u32(0).u32(n).raw(gr.b); }
  else if (fmt == 14) w.u16(14).u32(10).u32(0);
  else { w.u16(uint32_t(fmt)).u16(32).u16(0); for (int i = 0; i < 26; i++) w.u8(g.below(256)); }
  return w.b;
}
static Bytes cmap(Rng& g) {
  int ns = 1 + int(g.below(3)), nr = ns + int(g.below(3)); std::vector<Bytes> subs; static const std::vector<int> fmts = {0, 4, 4, 4, 6, 10, 12, 12, 13, 14, 2, 8};
  for (int i = 0; i < ns; i++) subs.push_back(sub(g, g.chance(5) ? int(g.below(16)) : g.pick(fmts)));
  W w; w.u16(0).u16(uint32_t(nr)); std::vector<uint32_t> off; uint32_t o = uint32_t(4 + nr * 8); for (auto& s : subs) { off.push_back(o); o += uint32_t(s.size()); if (g.chance(30)) o += 2; }
  for (int i = 0; i < nr; i++) { int p = g.chance(60) ? 3 : g.chance(70) ? 0 : g.chance(70) ? 1 : int(g.below(6)); uint32_t e = p == 3 ? g.pick(std::vector<uint32_t>{0, 1, 1, 10, 10, 3}) : p == 0 ? g.below(7) : p == 1 ? g.below(8) / 7 : g.below(3); w.u16(uint32_t(p)).u16(e).u32(i < ns ? off[size_t(i)] : g.pick(off)); }
  for (size_t i = 0; i < subs.size(); i++) { while (w.size() < off[i]) w.u8(0); w.raw(subs[i]); }
  return w.b;
}
static Bytes kern(Rng& g, std::vector<std::pair<int, int>>& known) {
  bool mac = g.chance(40); int nt = 1 + int(g.below(3)); W w; if (mac) w.u32(0x10000).u32(uint32_t(nt)); else w.u16(0).u16(uint32_t(nt));
  for (int t = 0; t < nt; t++) {
    int fmt = g.pick(std::vector<int>{0, 0, 0, 2, 3, 1}); W s; uint32_t H = mac ? 8 : 6; auto val = [&] { return uint32_t(g.chance(15) ? 0 : int(g.below(400)) - 200) & 0xFFFF; };
    if (fmt == 0) { std::set<std::pair<int, int>> ps; int n = g.chance(80) ? int(g.below(30)) : 40 + int(g.below(300)); for (int i = 0; i < n; i++) ps.insert({int(g.below(unsigned(G))), int(g.below(unsigned(G)))}); std::vector<std::pair<int, int>> v(ps.begin(), ps.end()); if (g.chance(35)) { int k = g.chance(50) ? 1 + int(g.below(4)) : int(v.size()); for (int i = 0; i < k && v.size() > 1; i++) std::swap(v[g.below(unsigned(v.size()))], v[g.below(unsigned(v.size()))]); } else if (g.chance(20) && v.size() > 2) std::rotate(v.begin(), v.begin() + long(g.below(unsigned(v.size()))), v.end()); s.u16(uint32_t(v.size())).u16(0).u16(0).u16(0); for (auto& p : v) { s.u16(uint32_t(p.first)).u16(uint32_t(p.second)).u16(val()); known.push_back(p); } }
    else if (fmt == 2) { uint32_t L = 1 + g.below(3), R = 2 + g.below(3), lf = g.below(unsigned(G)), ln = 1 + g.below(unsigned(G)), rf = g.below(unsigned(G)), rn = 1 + g.below(unsigned(G)); uint32_t lo = H + 8, ro = lo + 4 + ln * 2, ao = ro + 4 + rn * 2; s.u16(R * 2).u16(lo).u16(ro).u16(ao).u16(lf).u16(ln); for (uint32_t i = 0; i < ln; i++) s.u16(ao + g.below(L) * R * 2); s.u16(rf).u16(rn); for (uint32_t i = 0; i < rn; i++) s.u16(g.below(R) * 2); for (uint32_t i = 0; i < L * R; i++) s.u16(i % R == 0 ? 0 : val()); }
    else if (fmt == 3) { uint32_t n = 1 + g.below(unsigned(G)), V = 1 + g.below(6), L = 1 + g.below(4), R = 1 + g.below(4); s.u16(n).u8(V).u8(L).u8(R).u8(0); for (uint32_t i = 0; i < V; i++) s.u16(val()); for (uint32_t i = 0; i < n; i++) s.u8(g.below(L)); for (uint32_t i = 0; i < n; i++) s.u8(g.below(R)); for (uint32_t i = 0; i < L * R; i++) s.u8(g.below(V)); if (s.size() & 1) s.u8(0); }
    else s.zeros(10 + 2 * int(g.below(5)));
    bool vert = g.chance(10); uint32_t len = H + uint32_t(s.size());
    if (mac) w.u32(len).u8((vert ? 0x80 : 0) | (g.chance(10) ? 0x40 : 0) | (g.chance(10) ? 0x20 : 0)).u8(uint32_t(fmt)).u16(0); else w.u16(0).u16(len).u8(uint32_t(fmt)).u8((vert ? 0 : 1) | (g.chance(12) ? 8 : 0) | (g.chance(8) ? 2 : 0) | (g.chance(10) ? 4 : 0));
    w.raw(s.b);
  }
  return w.b;
}
// A layout table (GSUB or GPOS) with scripts and features, but no lookups.
static std::vector<uint32_t> pool;
static uint32_t tagof(const char* c) { return BL_MAKE_TAG(uint8_t(c[0]), uint8_t(c[1]), uint8_t(c[2]), uint8_t(c[3])); }
static uint32_t anytag(Rng& g) { static const char* const known[] = {"kern", "liga", "aalt", "smcp", "ss01", "cv99", "zero", "mark", "latn", "DFLT", "cyrl", "arab", "zyyy", "math"}; uint32_t t = 0; if (g.chance(45)) t = tagof(known[g.below(14)]); else if (!pool.empty() && g.chance(30)) t = g.pick(pool) + (g.chance(50) ? 1 : 0xFFFFFFFFu); else for (int i = 0; i < 4; i++) t = t * 256 + 32 + g.below(95); pool.push_back(t); return t; }
static Bytes coverage(Rng& g, const std::vector<uint32_t>& gl) { W w; std::vector<std::array<uint32_t, 2>> r; for (auto x : gl) if (!r.empty() && r.back()[1] + 1 == x) r.back()[1] = x; else r.push_back({x, x}); if (g.chance(50)) { w.u16(1).u16(uint32_t(gl.size())); for (auto x : gl) w.u16(x); } else { w.u16(2).u16(uint32_t(r.size())); uint32_t n = 0; for (auto& x : r) { w.u16(x[0]).u16(x[1]).u16(n); n += x[1] - x[0] + 1; } } return w.b; }
static Bytes subst(Rng& g, uint32_t type) {     // one lookup with one subtable: single, multiple, alternate or ligature substitution
  std::set<uint32_t> cs; int n = 1 + int(g.below(5)); for (int i = 0; i < n; i++) { uint32_t x = g.below(unsigned(G)); cs.insert(x); if (g.chance(40) && x + 1 < uint32_t(G)) cs.insert(x + 1); } std::vector<uint32_t> c(cs.begin(), cs.end()); Bytes cov = coverage(g, c); W s; auto out = [&] { return g.chance(90) ? g.below(unsigned(G)) : g.below(65536); }; uint32_t k = uint32_t(c.size());
  if (type == 1 && g.chance(50)) s.u16(1).u16(6).u16(g.chance(80) ? (g.below(7) - 3) & 0xFFFF : g.below(65536)).raw(cov);
  else if (type == 1) { s.u16(2).u16(6 + 2 * k).u16(k); for (uint32_t i = 0; i < k; i++) s.u16(out()); s.raw(cov); }
  else { W d; std::vector<uint32_t> o; uint32_t H = 6 + 2 * k; for (uint32_t i = 0; i < k; i++) { o.push_back(H + uint32_t(d.size())); W e;
      if (type == 4) { uint32_t m = 1 + g.below(3); W l; std::vector<uint32_t> lo; for (uint32_t q = 0; q < m; q++) { lo.push_back(2 + 2 * m + uint32_t(l.size())); uint32_t cc = 2 + g.below(3); l.u16(out()).u16(cc); for (uint32_t z = 1; z < cc; z++) l.u16(g.chance(60) ? g.pick(c) : g.below(unsigned(G))); } e.u16(m); for (auto x : lo) e.u16(x); e.raw(l.b); }
      else { uint32_t m = type == 3 ? 1 + g.below(3) : g.chance(20) ? 0 : 1 + g.below(4); e.u16(m); for (uint32_t q = 0; q < m; q++) e.u16(out()); }
      d.raw(e.b); }
    s.u16(1).u16(H + uint32_t(d.size())).u16(k); for (auto x : o) s.u16(x); s.raw(d.b).raw(cov); }
  W w; w.u16(type).u16(0).u16(1).u16(8).raw(s.b); return w.b;
}
static Bytes classes(Rng& g, uint32_t n) { W w; if (g.chance(50)) { uint32_t f = g.below(unsigned(G)), k = 1 + g.below(unsigned(G) - f); w.u16(1).u16(f).u16(k); for (uint32_t i = 0; i < k; i++) w.u16(g.below(n)); } else { W r; uint32_t k = 0; for (uint32_t x = g.below(3); x < uint32_t(G); k++) { uint32_t y = std::min(uint32_t(G) - 1, x + g.below(4)); r.u16(x).u16(y).u16(g.below(n)); x = y + 1 + g.below(3); } if (!k) { r.u16(0).u16(0).u16(0); k = 1; } w.u16(2).u16(k).raw(r.b); } return w.b; }
static Bytes adjust(Rng& g, uint32_t type) {     // one lookup with one subtable: single or pair adjustment
  std::set<uint32_t> cs; int n = 1 + int(g.below(8)); for (int i = 0; i < n; i++) { uint32_t x = g.below(unsigned(G)); cs.insert(x); if (g.chance(40) && x + 1 < uint32_t(G)) cs.insert(x + 1); } std::vector<uint32_t> c(cs.begin(), cs.end()); Bytes cov = coverage(g, c); W s; uint32_t k = uint32_t(c.size());
  uint32_t vf = g.chance(60) ? 4 : g.chance(80) ? 1 + g.below(15) : 1 + g.below(255); uint32_t vn = 0; for (int i = 0; i < 8; i++) vn += (vf >> i) & 1; auto val = [&](W& w) { for (int i = 0; i < 8; i++) if ((vf >> i) & 1) w.u16(i > 3 ? 0 : uint32_t(int(g.below(400)) - 200) & 0xFFFF); }; bool one = g.chance(50);
  if (type == 1 && one) { s.u16(1).u16(6 + 2 * vn).u16(vf); val(s); s.raw(cov); }
  else if (type == 1) { s.u16(2).u16(8 + 2 * vn * k).u16(vf).u16(k); for (uint32_t i = 0; i < k; i++) val(s); s.raw(cov); }
  else if (one) { W d; std::vector<uint32_t> o; uint32_t H = 10 + 2 * k; for (uint32_t i = 0; i < k; i++) { o.push_back(H + uint32_t(d.size())); std::set<uint32_t> r; int m = int(g.below(7)) + (g.chance(10) ? 20 : 0); for (int q = 0; q < m; q++) r.insert(g.below(unsigned(G))); d.u16(uint32_t(r.size())); for (auto x : r) { d.u16(x); val(d); } } s.u16(1).u16(H + uint32_t(d.size())).u16(vf).u16(0).u16(k); for (auto x : o) s.u16(x); s.raw(d.b).raw(cov); }
  else { uint32_t a = 1 + g.below(3), b = 1 + g.below(3); Bytes c1 = classes(g, a), c2 = classes(g, b); uint32_t H = 16 + 2 * vn * a * b; s.u16(2).u16(H).u16(vf).u16(0).u16(H + uint32_t(cov.size())).u16(H + uint32_t(cov.size() + c1.size())).u16(a).u16(b); for (uint32_t i = 0; i < a * b; i++) val(s); s.raw(cov).raw(c1).raw(c2); }
  W w; w.u16(type).u16(0).u16(1).u16(8).raw(s.b); return w.b;
}
static Bytes layout(Rng& g, bool gsub) {
  bool v11 = g.chance(20); uint32_t H = v11 ? 14 : 10; W w; auto tags = [&] { std::vector<uint32_t> v; int n = int(g.below(9)); for (int i = 0; i < n; i++) v.push_back(!v.empty() && g.chance(15) ? v.back() : anytag(g)); if (g.chance(80)) std::sort(v.begin(), v.end()); return v; };
  auto sc = tags(), fe = tags(); if (g.chance(60)) { sc.push_back(tagof(g.chance(50) ? "latn" : "DFLT")); std::sort(sc.begin(), sc.end()); } if (gsub) for (auto& x : fe) if (x == tagof("kern")) x = tagof("kerx"); uint32_t F = uint32_t(fe.size());
  bool nos = g.chance(10), nof = g.chance(10); uint32_t L = g.chance(gsub ? 75 : 60) ? 1 + g.below(4) : 0; if (L) nos = nof = false;
  std::vector<uint32_t> fi; for (uint32_t i = 0; i < F; i++) if (g.chance(80)) fi.push_back(i); uint32_t req = F && g.chance(20) ? g.below(F) : 0xFFFF;
  uint32_t ssize = 2 + uint32_t(sc.size()) * 6 + 10 + 2 * uint32_t(fi.size()); W fl; std::vector<uint32_t> fo; for (uint32_t i = 0; i < F; i++) { fo.push_back(2 + F * 6 + uint32_t(fl.size())); std::vector<uint32_t> li; for (uint32_t q = 0; q < L; q++) if (g.chance(45)) li.push_back(q); fl.u16(0).u16(uint32_t(li.size())); for (auto x : li) fl.u16(x); }
  uint32_t so = H, fo0 = H + ssize, lo = fo0 + 2 + F * 6 + uint32_t(fl.size());
  w.u32(v11 ? 0x10001 : 0x10000).u16(nos ? 0 : so).u16(nof ? 0 : fo0).u16(L ? lo : 0); if (v11) w.u32(0);
  w.u16(uint32_t(sc.size())); for (auto x : sc) w.u32(x).u16(2 + uint32_t(sc.size()) * 6); w.u16(4).u16(0).u16(0).u16(req).u16(uint32_t(fi.size())); for (auto x : fi) w.u16(x);
  w.u16(F); for (uint32_t i = 0; i < F; i++) w.u32(fe[i]).u16(fo[i]); w.raw(fl.b);
  if (L) { std::vector<Bytes> lk; uint32_t o = 2 + 2 * L; w.u16(L); for (uint32_t i = 0; i < L; i++) { lk.push_back(gsub ? subst(g, 1 + g.below(4)) : adjust(g, 1 + g.below(2))); w.u16(o); o += uint32_t(lk.back().size()); } for (auto& x : lk) w.raw(x); }
  else w.u16(0);
  return w.b;
}
static void mutate(Rng& g, Bytes& b) { int n = 1 + int(g.below(4)); for (int i = 0; i < n && !b.empty(); i++) { size_t p = g.chance(50) ? g.below(unsigned(std::min<size_t>(b.size(), 60))) : g.below(unsigned(b.size())); int k = int(g.below(6)); if (k == 0) b[p] ^= uint8_t(1 << g.below(8)); else if (k == 1) b[p] = uint8_t(g.below(256)); else if (k == 2) { b[p] = 0xFF; if (p + 1 < b.size()) b[p + 1] = uint8_t(0xFF - g.below(3)); } else if (k == 3) b[p] = 0; else if (k == 4) b[p] = uint8_t(b[p] + 1); else if (g.chance(40)) b.resize(p); else b[p] = uint8_t(b[p] - 1); } }
static std::string bytes(const Bytes& b) { J a = J::arr(); for (auto c : b) a.addi(c); return a.done(); }
template<class T> static std::string list(const T& v) { J a = J::arr(); for (auto x : v) a.addi((long long)x); return a.done(); }
static std::vector<uint32_t> text(Rng& g) { std::vector<uint32_t> t; int n = g.chance(10) ? 0 : 1 + int(g.below(30)); for (int i = 0; i < n; i++) { uint32_t c = i && g.chance(40) ? t.back() + 1 : g.chance(80) ? g.pick(pts) : g.below(g.chance(50) ? 0x300 : 0x110000); if (c > 0x10FFFF || c == 0xFFFF || c == 0x10FFFF || (c >= 0xD800 && c < 0xE000)) c = 65; t.push_back(c); } return t; }
static std::vector<uint32_t> content(const BLGlyphBuffer& b) { return std::vector<uint32_t>(b.content(), b.content() + b.size()); }
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init(); bool mut = a.mode == "mut";
  Bytes real; if (mut) { FILE* f = fopen((std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf").c_str(), "rb"); if (f) { uint8_t buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) real.insert(real.end(), buf, buf + n); fclose(f); } }
  for (int t = 0; t < a.n; t++) {
    where("trace " + std::to_string(t + 1)); pts = {65, 66, 0, 0x10FFFE, 0xFFFE, 0x10000}; G = 2 + int(g.below(30)); std::vector<std::pair<int, int>> known; auto T = ttf::basic(G, "F", 400, 5, 0); pool.clear(); bool kmut = false, lmut = false, mmut = false, cmut = false;
    int longs = g.chance(40) ? G : 1 + int(g.below(unsigned(G))); T["hhea"] = ttf::hhea(longs); { W w; for (int i = 0; i < longs; i++) w.u16(g.chance(10) ? g.below(65536) : g.below(2000)).u16(g.below(65536)); for (int i = longs; i < G; i++) w.u16(g.below(65536)); T["hmtx"] = w.b; }
    T["cmap"] = cmap(g); bool haskern = g.chance(80); if (haskern) T["kern"] = kern(g, known);
    { W gl, lo; lo.u16(0); for (int i = 0; i < G; i++) { if (g.chance(60)) { gl.u16(0).u16(g.below(65536)).u16(g.below(65536)).u16(g.below(65536)).u16(g.below(65536)); if (g.chance(30)) gl.zeros(2); } lo.u16(uint32_t(gl.size() / 2)); } if (gl.b.empty()) gl.zeros(4); T["glyf"] = gl.b; T["loca"] = lo.b; }
    if (g.chance(mut ? 60 : 25)) { mutate(g, T["cmap"]); cmut = true; } if (haskern && g.chance(mut ? 60 : 12)) { mutate(g, T["kern"]); kmut = true; } if (g.chance(mut ? 40 : 6)) { mutate(g, T[g.chance(50) ? "hhea" : "hmtx"]); mmut = true; } if (mut && g.chance(40)) { mutate(g, T[g.pick(std::vector<std::string>{"head", "maxp", "OS/2", "name", "glyf", "loca"})]); mmut = true; }
    if (g.chance(50)) T["GSUB"] = layout(g, true); if (g.chance(50)) T["GPOS"] = layout(g, false); for (auto n : {"GSUB", "GPOS"}) if (T.count(n) && g.chance(mut ? 60 : 15)) { lmut = true; if (g.chance(50)) mutate(g, T[n]); else { size_t p = T[n].size() > 14 ? 4 + 2 * g.below(unsigned(T[n].size() / 2 - 2)) : 4; T[n][p] = 0xFF; T[n][p + 1] = uint8_t(g.below(256)); } }
    if (g.chance(4)) T.erase("cmap"); if (g.chance(3)) { T.erase("hmtx"); mmut = true; }
    Bytes file = ttf::build(T); if (mut && !real.empty() && g.chance(40)) { file = real; for (uint32_t c = 32; c < 127; c++) pts.push_back(c);
      if (g.chance(60)) { auto u32 = [&](size_t o) { return size_t(file[o]) << 24 | size_t(file[o + 1]) << 16 | size_t(file[o + 2]) << 8 | file[o + 3]; }; std::vector<size_t> at; for (int i = 0; i < file[5]; i++) { size_t o = 12 + 16 * size_t(i); std::string n(file.begin() + long(o), file.begin() + long(o) + 4); if (n == "GSUB" || n == "GPOS" || n == "GDEF") { at.push_back(u32(o + 8)); at.push_back(u32(o + 12)); } } for (int m = int(g.below(10)); m > 0 && !at.empty(); m--) { size_t w = 2 * g.below(unsigned(at.size() / 2)); size_t p = at[w] + 2 * g.below(unsigned((g.chance(40) ? std::min<size_t>(at[w + 1], 120) : at[w + 1]) / 2)); if (p + 1 < file.size()) { int h = int(g.below(4)); if (h == 0) { file[p] = 0xFF; file[p + 1] = uint8_t(256 - 1 - g.below(4)); } else if (h == 1) { file[p] = 0; file[p + 1] = uint8_t(g.below(5)); } else if (h == 2) { file[p + 1] = uint8_t(g.below(256)); } else { file[p] = uint8_t(g.below(256)); file[p + 1] = uint8_t(g.below(256)); } } } }
      else { int k = int(g.below(30)); for (int i = 0; i < k; i++) file[g.chance(30) ? g.below(400) : g.below(unsigned(file.size()))] = uint8_t(g.chance(50) ? g.below(256) : 255); if (g.chance(20)) file.resize(g.below(unsigned(file.size()))); } kmut = mmut = cmut = lmut = true; } else if (mut && g.chance(20)) mutate(g, file);
    uint8_t* mem = (uint8_t*)malloc(file.size() + (file.empty())); memcpy(mem, file.data(), file.size()); Bytes before = file;
    BLFontData fd; BLFontFace ff; BLFont font; BLResult r = fd.create_from_data(mem, file.size()); if (r == BL_SUCCESS) r = ff.create_from_data(fd, 0); int upem = 0; if (r == BL_SUCCESS) { upem = ff.design_metrics().units_per_em; r = font.create_from_face(ff, float(upem ? upem : 1000)); }
    tf.begin(); { J j = J::obj(); auto get = [&](const char* n) { return bytes(T.count(n) ? T[n] : Bytes()); }; j.str("op", "init").b("ok", r == BL_SUCCESS).b("strict", !mut).i("glyphs", G).i("longs", longs).b("kmut", kmut).b("lmut", lmut).raw("gsub", mut ? "[]" : get("GSUB")).raw("gpos", mut ? "[]" : get("GPOS")).b("mmut", mmut).raw("cmap", mut ? "[]" : get("cmap")).raw("hmtx", mut ? "[]" : get("hmtx")).raw("kern", mut ? "[]" : get("kern")).raw("glyf", mut ? "[]" : get("glyf")).raw("loca", mut ? "[]" : get("loca")); tf.ev(j.done()); }
    if (r == BL_SUCCESS) for (int e = 0; e < a.len; e++) {
      where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 2)); int op = e == 1 ? 10 : int(g.below(10)); J j = J::obj();
      if (op < 5) { auto x = text(g); BLGlyphBuffer gb; gb.set_utf32_text(x.data(), x.size()); BLGlyphMappingState st{9, 9, 9}; BLResult r1 = font.map_text_to_glyphs(gb, st); std::vector<uint32_t> alone; for (auto c : x) { BLGlyphBuffer g1; g1.set_utf32_text(&c, 1); font.map_text_to_glyphs(g1); alone.push_back(g1.size() ? g1.content()[0] : 999999); } J cl = J::arr(); for (size_t i = 0; i < gb.size(); i++) cl.addi((long long)gb.info_data()[i].cluster); j.str("op", "map").raw("text", list(x)).i("rc", (long long)r1).raw("gl", list(content(gb))).raw("alone", list(alone)).i("n", (long long)st.glyph_count).i("undef", (long long)st.undefined_count).i("first", st.undefined_first == SIZE_MAX ? -1 : (long long)st.undefined_first).raw("cl", cl.done()); }
      else if (op < 8) { std::vector<uint32_t> x; if (g.chance(40)) x = text(g); bool gl = x.empty(); std::vector<uint32_t> ids; if (gl) { int n = int(g.below(24)); for (int i = 0; i < n; i++) { if (!known.empty() && g.chance(60)) { auto p = g.pick(known); ids.push_back(uint32_t(p.first)); ids.push_back(uint32_t(p.second)); } else ids.push_back(uint32_t(gid(g))); } }
        bool k = g.chance(75); BLFont f2 = font; std::set<uint32_t> on; { BLFontFeatureSettings fs; for (auto x : pool) if (x != tagof("kern")) { bool v = g.chance(70); if (fs.set_value(x, v) == BL_SUCCESS) { if (v) on.insert(x); else on.erase(x); } } fs.set_value(tagof("kern"), k); if (k) on.insert(tagof("kern")); f2.set_feature_settings(fs); } J onl = J::arr(); for (auto x : on) onl.addi((long long)int32_t(x ^ 0x80000000u)); BLGlyphBuffer gb; BLResult r1; if (gl) { gb.set_glyphs(ids.data(), ids.size()); r1 = f2.position_glyphs(gb); } else { gb.set_utf32_text(x.data(), x.size()); r1 = f2.shape(gb); } J adv = J::arr(), px = J::arr(), py = J::arr(), ay = J::arr(); if (r1 == BL_SUCCESS && gb.size()) for (size_t i = 0; i < gb.size(); i++) { auto& p = gb.placement_data()[i]; adv.addi(p.advance.x); ay.addi(p.advance.y); px.addi(p.placement.x); py.addi(p.placement.y); }
        j.str("op", "shape").b("isids", gl).raw("text", list(x)).raw("ids", list(ids)).b("kern", k).raw("on", onl.done()).i("rc", (long long)r1).raw("gl", list(content(gb))).raw("adv", adv.done()).raw("px", px.done()).raw("py", py.done()).raw("ay", ay.done()); if (r1 == BL_SUCCESS && gb.size()) { BLTextMetrics tm; BLResult r2 = f2.get_text_metrics(gb, tm); j.i("mrc", (long long)r2).i("madv", (long long)tm.advance.x); } else j.i("mrc", -1); std::vector<uint32_t> now = content(gb); std::vector<BLGlyphPlacement> bp(now.size() + 1); BLResult r3 = f2.get_glyph_advances(now.data(), 4, bp.data(), now.size()); J base = J::arr(); if (r3 == BL_SUCCESS) for (size_t i = 0; i < now.size(); i++) base.addi(bp[i].advance.x); j.i("arc", (long long)r3).raw("base", base.done()); }
      else if (op == 10) { BLArray<BLTag> ft, sc; BLResult r1 = ff.get_feature_tags(&ft), r2 = ff.get_script_tags(&sc); std::vector<uint32_t> q; for (int i = 0; i < 14; i++) q.push_back(g.chance(80) && !pool.empty() ? g.pick(pool) : anytag(g)); q.push_back(tagof("kern")); J hf = J::arr(), hs = J::arr(), fl = J::arr(), sl = J::arr(), ql = J::arr(); auto biased = [](uint32_t x) { return (long long)int32_t(x ^ 0x80000000u); }; for (size_t i = 0; i < ft.size(); i++) { fl.addi(biased(ft[i])); if (q.size() < 40) q.push_back(ft[i]); } for (size_t i = 0; i < sc.size(); i++) { sl.addi(biased(sc[i])); if (q.size() < 60) q.push_back(sc[i]); } for (auto x : q) { ql.addi(biased(x)); hf.addi(ff.has_feature_tag(x)); hs.addi(ff.has_script_tag(x)); } j.str("op", "tags").i("rc", (long long)(r1 | r2)).raw("feats", fl.done()).raw("scripts", sl.done()).raw("q", ql.done()).raw("hasf", hf.done()).raw("hass", hs.done()); }
      else if (op < 9) { std::vector<uint32_t> ids; int n = 1 + int(g.below(12)); for (int i = 0; i < n; i++) ids.push_back(g.chance(80) ? g.below(unsigned(G)) : g.below(65536)); std::vector<BLGlyphPlacement> p(ids.size()); BLResult r1 = font.get_glyph_advances(ids.data(), 4, p.data(), ids.size()); std::vector<BLBoxI> bx(ids.size()); BLResult r2 = font.get_glyph_bounds(ids.data(), 4, bx.data(), ids.size()); J adv = J::arr(), bo = J::arr(); for (size_t i = 0; i < ids.size(); i++) { adv.addi(r1 == BL_SUCCESS ? p[i].advance.x : -99999); bo.add(list(std::vector<int>{bx[i].x0, bx[i].y0, bx[i].x1, bx[i].y1})); } j.str("op", "metrics").raw("ids", list(ids)).i("rc", (long long)r1).i("brc", (long long)r2).raw("adv", adv.done()).raw("box", bo.done()); BLPath pa; if (mut) for (auto id : ids) font.get_glyph_outlines(id, pa); }
      else { BLBitSet bs; BLResult r1 = ff.get_character_coverage(&bs); std::vector<uint32_t> in; std::vector<uint32_t> q = text(g); std::vector<uint32_t> m; for (auto c : q) { in.push_back(bs.has_bit(c)); BLGlyphBuffer g1; g1.set_utf32_text(&c, 1); font.map_text_to_glyphs(g1); m.push_back(g1.content()[0]); } j.str("op", "cover").i("rc", (long long)r1).raw("text", list(q)).raw("in", list(in)).raw("alone", list(m)).i("card", (long long)std::min<size_t>(bs.cardinality(), 2000000)); }
      tf.ev(j.done());
    }
    { J j = J::obj(); j.str("op", "end").b("same", !memcmp(mem, before.data(), before.size())); tf.ev(j.done()); } tf.end(); font.reset(); ff.reset(); fd.reset(); free(mem);
  }
}
