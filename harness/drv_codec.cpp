// C19: image decoders and encoders. C20 (mode "mut"): damaged files, decoder histories.
#include "vh.h"
#include "codecgen.h"
using namespace vh;
static std::string bytes(const Bytes& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += std::to_string(int(v[i])); } return s + "]"; }
struct Res { int rc = 0, w = 0, h = 0, f = 0; Bytes px; bool operator<(const Res& o) const { return std::tie(rc, w, h, f, px) < std::tie(o.rc, o.w, o.h, o.f, o.px); } bool operator==(const Res& o) const { return !(*this < o) && !(o < *this); }
  std::string json() const { return "[" + std::to_string(rc) + "," + std::to_string(w) + "," + std::to_string(h) + "," + std::to_string(f) + "," + bytes(px) + "]"; } };
static Res take(BLResult rc, const BLImage& img) {
  Res r; r.rc = int(rc); if (rc) return r; BLImageData d; img.get_data(&d); r.w = d.size.w; r.h = d.size.h; r.f = int(d.format);
  for (int y = 0; y < r.h; y++) { const uint8_t* p = (const uint8_t*)d.pixel_data + intptr_t(y) * d.stride; if (r.f == BL_FORMAT_A8) r.px.insert(r.px.end(), p, p + r.w); else for (int x = 0; x < r.w; x++, p += 4) { uint32_t v; memcpy(&v, p, 4); r.px.push_back(uint8_t(v)); r.px.push_back(uint8_t(v >> 8)); r.px.push_back(uint8_t(v >> 16)); r.px.push_back(r.f == BL_FORMAT_XRGB32 ? 255 : uint8_t(v >> 24)); } }
  return r;
}
// A heap block of exactly the size of the data.
struct Exact { uint8_t* p; size_t n; Exact(const Bytes& d) : p(new uint8_t[d.size() ? d.size() : 1]), n(d.size()) { if (n) memcpy(p, d.data(), n); } Exact(const Exact&) = delete; ~Exact() { delete[] p; } };
static BLImage some_image(Rng& g) { BLImage i; int k = int(g.below(4)); if (k) { i.create(1 + int(g.below(30)), 1 + int(g.below(30)), BLFormat(g.pick({1, 2, 3}))); BLImageData d; i.make_mutable(&d); for (int y = 0; y < d.size.h; y++) memset((uint8_t*)d.pixel_data + y * d.stride, int(g.next() & 255), size_t(d.size.w)); } return i; }
static const char* kNames[] = {"PNG", "BMP", "QOI"};
static Res decode(Rng& g, const Bytes& d, int fmt, int how, BLImageDecoder& reuse, BLImageInfo& info) {
  Exact e(d); BLImage img = some_image(g), keep; if (g.chance(30)) keep = img; BLImageInfo inf {}; BLResult rc; BLImageDecoder dec; BLImageCodec c;
  if (how == 0) { rc = img.read_from_data(e.p, e.n); }
  else if (how == 1) { c.find_by_name(kNames[fmt]); c.create_decoder(&dec); rc = dec.read_info(inf, e.p, e.n); if (!rc) { info = inf; rc = dec.read_frame(img, e.p, e.n); } }
  else if (how == 2) { rc = c.find_by_data(e.p, e.n); if (!rc) { c.create_decoder(&dec); rc = dec.read_frame(img, e.p, e.n); if (!rc) { dec.read_info(inf, e.p, e.n); info = inf; } } }
  else { if (!reuse.is_valid()) { c.find_by_name(kNames[fmt]); c.create_decoder(&reuse); } else reuse.restart(); if (g.chance(50)) reuse.read_info(inf, e.p, e.n); rc = reuse.read_frame(img, e.p, e.n); }
  return take(rc, img);
}
static BLImage source_image(Rng& g, int maxpx, Bytes& px, int& f, std::vector<uint8_t>& mem) {
  f = g.pick({1, 2, 3}); int w = 1 + int(g.below(g.chance(30) ? 70 : 20)), h = std::max(1, std::min(1 + int(g.below(20)), maxpx / w)), kind = int(g.below(5)); size_t bpp = f == 3 ? 1 : 4; BLImage img;
  if (g.chance(40)) { size_t stride = size_t(w) * bpp + size_t(g.pick({0, 4, 12})); mem.assign(stride * size_t(h) + 64, 0x5A); uint8_t* base = (uint8_t*)((uintptr_t(mem.data()) + 15) & ~uintptr_t(15)); bool neg = g.chance(30); img.create_from_data(w, h, BLFormat(f), neg ? base + stride * size_t(h - 1) : base, neg ? -intptr_t(stride) : intptr_t(stride)); }
  else img.create(w, h, BLFormat(f));
  BLImageData d; img.make_mutable(&d); uint8_t last[4] = {0, 0, 0, 255};
  for (int y = 0; y < h; y++) { uint8_t* p = (uint8_t*)d.pixel_data + y * d.stride; for (int x = 0; x < w; x++, p += bpp) {
    if (f == 3) { *p = uint8_t(kind == 0 ? g.next() : kind == 1 ? x * 9 : kind == 2 ? 255 * int(g.below(2)) : g.chance(70) ? last[0] : g.next()); last[0] = *p; px.push_back(*p); continue; }
    uint8_t v[4]; int a = f == 2 ? 255 : kind == 2 ? g.pick({0, 255, 128, 1}) : kind == 3 ? 255 : int(g.below(256));
    if ((kind == 3 || kind == 4) && g.chance(70)) memcpy(v, last, 4); else { for (int k = 0; k < 3; k++) { int c = kind == 1 ? std::min(255, x * 7 + k * 30) : kind == 4 ? (last[k] + g.range(-3, 3)) & 255 : int(g.below(256)); v[k] = uint8_t(std::min(c, a)); } v[3] = uint8_t(a); }
    memcpy(last, v, 4); uint32_t q = uint32_t(v[0]) | uint32_t(v[1]) << 8 | uint32_t(v[2]) << 16 | uint32_t(f == 2 ? g.pick({255, 0, 77}) : v[3]) << 24; memcpy(p, &q, 4); if (f == 2) v[3] = 255; px.insert(px.end(), v, v + 4); } }
  return img;
}
static Bytes encode(Rng& g, const BLImage& img, int fmt, int& rc, int lvl) {
  BLImageCodec c; c.find_by_name(kNames[fmt]); BLArray<uint8_t> out; if (g.chance(30)) out.append(uint8_t(7)); if (g.chance(40) && lvl < 0) rc = int(img.write_to_data(out, c));
  else { BLImageEncoder enc; c.create_encoder(&enc); if (lvl >= 0) enc.set_property("compression", BLVar(lvl)); rc = int(enc.write_frame(out, img)); if (!rc && g.chance(30)) { Bytes first(out.data(), out.data() + out.size()); rc = int(enc.write_frame(out, img)); if (!rc && Bytes(out.data(), out.data() + out.size()) != first) rc = -1; } }
  return Bytes(out.data(), out.data() + out.size());
}
static Bytes make(Rng& g, int fmt, bool anim) { return fmt == 0 ? random_png(g, anim) : fmt == 1 ? random_bmp(g) : random_qoi(g); }
static uint32_t hash_of(const Res& r) { uint32_t h = 2166136261u; auto put = [&](uint32_t v) { h = (h ^ v) * 16777619u; }; put(uint32_t(r.w)); put(uint32_t(r.h)); put(uint32_t(r.f)); for (auto b : r.px) put(b); return (h >> 3) & 0xFFFFFF; }
static void damage(Rng& g, Bytes& d, int fmt) {
  int k = int(g.below(6)), n = int(d.size());
  if (fmt == 0 && n > 8 && g.chance(40)) { // damage to whole chunks and their fields
    struct C { size_t at, len; }; std::vector<C> cs, fc; auto rd = [&](size_t p) { return uint32_t(d[p]) << 24 | uint32_t(d[p + 1]) << 16 | uint32_t(d[p + 2]) << 8 | d[p + 3]; };
    for (size_t p = 8; p + 12 <= d.size();) { size_t len = rd(p); if (len > d.size() - p - 12) break; cs.push_back({p, len}); if (!memcmp(&d[p + 4], "fcTL", 4) || !memcmp(&d[p + 4], "IHDR", 4) || !memcmp(&d[p + 4], "acTL", 4)) fc.push_back({p, len}); p += 12 + len; }
    if (!cs.empty()) { C c = !fc.empty() && g.chance(60) ? g.pick(fc) : g.pick(cs); size_t end = c.at + 12 + c.len; int how = int(g.below(6)); Bytes ch(d.begin() + long(c.at), d.begin() + long(end));
      if (how < 3 && c.len >= 4) { size_t q = c.at + 8 + 4 * g.below(uint32_t(std::min<size_t>(c.len / 4, 7))); uint32_t v = rd(q), w = g.chance(50) ? v + uint32_t(g.range(-3, 3)) : g.pick({0u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, v << 1, v + 100, uint32_t(g.below(40))}); for (int i = 0; i < 4; i++) d[q + size_t(i)] = uint8_t(w >> (24 - 8 * i)); }
      else if (how == 3) d.insert(d.begin() + long(g.pick(cs).at), ch.begin(), ch.end());
      else if (how == 4) d.erase(d.begin() + long(c.at), d.begin() + long(end));
      else { size_t cut = g.below(uint32_t(std::min<size_t>(c.len, 9)) + 1); d.erase(d.begin() + long(c.at + 8 + c.len - cut), d.begin() + long(c.at + 8 + c.len)); uint32_t v = uint32_t(c.len - cut); for (int i = 0; i < 4; i++) d[c.at + size_t(i)] = uint8_t(v >> (24 - 8 * i)); }
      return; } }
  if (k == 0) d.resize(g.below(uint32_t(n + 1)));
  else if (k == 1) { int c = 1 + int(g.below(3)); while (c--) d[g.below(uint32_t(n))] = uint8_t(g.next()); }
  else if (k == 2) { int c = 1 + int(g.below(2)); while (c--) d[g.below(uint32_t(std::min(n, fmt == 0 ? 60 : 70)))] = uint8_t(g.pick({0, 255, 127, 128, 1, int(g.below(256))})); }
  else if (k == 3) { size_t a = g.below(uint32_t(n)), m = 1 + g.below(8); d.erase(d.begin() + long(a), d.begin() + long(std::min(a + m, d.size()))); }
  else if (k == 4) { size_t a = g.below(uint32_t(n)); Bytes x(1 + g.below(6)); for (auto& b : x) b = uint8_t(g.next()); d.insert(d.begin() + long(a), x.begin(), x.end()); }
  else if (k == 5 && fmt == 0) { size_t a = 16 + g.below(8); d[a] = uint8_t(g.pick({0, 1, 127, int(g.below(256))})); }
  else if (k == 5) { size_t a = fmt == 1 ? 18 + g.below(8) : 4 + g.below(8); if (a < d.size()) d[a] = uint8_t(g.next()); }
}
// One field of one frame of an animation takes another value near the limits, or a frame's data becomes (almost) empty.
static void frame_damage(Rng& g, Bytes& d) {
  auto rd = [&](size_t p) { return uint32_t(d[p]) << 24 | uint32_t(d[p + 1]) << 16 | uint32_t(d[p + 2]) << 8 | d[p + 3]; };
  auto wr = [&](size_t p, uint32_t w) { for (int i = 0; i < 4; i++) d[p + size_t(i)] = uint8_t(w >> (24 - 8 * i)); };
  std::vector<size_t> fc, fd; uint32_t w = d.size() > 24 ? rd(16) : 1, h = d.size() > 24 ? rd(20) : 1;
  for (size_t p = 8; p + 12 <= d.size();) { size_t len = rd(p); if (len > d.size() - p - 12) break; if (!memcmp(&d[p + 4], "fcTL", 4)) fc.push_back(p); if (!memcmp(&d[p + 4], "fdAT", 4)) fd.push_back(p); p += 12 + len; }
  if (!fd.empty() && g.chance(20)) { size_t p = g.pick(fd), len = rd(p), keep = g.below(7); if (keep < len) { d.erase(d.begin() + long(p + 8 + keep), d.begin() + long(p + 8 + len)); wr(p, uint32_t(keep)); } return; }
  if (fc.empty()) return;
  size_t p = g.pick(fc), q = p + 12 + 4 * g.below(4); uint32_t v = rd(q), lim = (q - p) % 8 == 4 ? w : h;
  switch (g.below(5)) { case 0: v += 1; break; case 1: v = lim; break; case 2: v = lim ? lim - 1 : 0; break; case 3: v = g.below(lim + 2); break; default: v = uint32_t(g.pick({0, 0x7FFFFFFF, -1, int(lim * 2), int(-int(v))})); }
  wr(q, v);
}
int main(int argc, char** argv) {
  Args a(argc, argv); TraceFile tf(a.out);
  for (int n = 0; n < a.n; n++) {
    Rng g(a.seed * 7919 + n); tf.begin(); BLImageDecoder reuse[3];
    for (int e = 0; e < a.len; e++) {
      where("event " + std::to_string(e)); J j = J::obj(); int fmt = int(g.below(3)); if (g.chance(30)) fmt = 0; j.str("fmt", fmt == 0 ? "png" : fmt == 1 ? "bmp" : "qoi");
      if (a.mode == "mut") {
        bool anim = fmt == 0 && g.chance(35); Bytes d = make(g, fmt, anim); int k = anim && g.chance(50) ? 0 : int(g.below(4)); if (anim && !k) frame_damage(g, d); while (k--) if (!d.empty()) damage(g, d, fmt);
        Exact ex(d); BLImageInfo i0 {}; BLImageCodec c; c.find_by_name(kNames[fmt]); int score = int(c.inspect_data(ex.p, ex.n)); BLImageDecoder d0; c.create_decoder(&d0); int ri = int(d0.read_info(i0, ex.p, ex.n)); BLImage im; Res r0 = take(d0.read_frame(im, ex.p, ex.n), im); bool multi = i0.frame_count > 1;
        int found = 0; { BLImageCodec f; if (!f.find_by_data(ex.p, ex.n)) found = f.name() == kNames[fmt] ? 1 : 2; }
        J st = J::arr(); BLImageDecoder& dec = reuse[fmt]; if (!dec.is_valid()) c.create_decoder(&dec); else dec.restart(); int steps = 2 + int(g.below(7)); BLImage cur = im;
        for (int s = 0; s < steps; s++) {
          int op = int(g.below(10)); J q = J::obj();
          if (op < 3) { BLImageInfo inf {}; Exact e2(d); int rc = int(dec.read_info(inf, e2.p, e2.n)); q.str("o", "info").i("rc", rc).i("same", inf.size == i0.size && inf.frame_count == i0.frame_count && inf.depth == i0.depth && inf.flags == i0.flags); }
          else if (op < 8) { BLImage im2 = multi && g.chance(75) ? cur : some_image(g), was = im2, was2; was2.assign_deep(im2); Exact e2(d); int rc = int(dec.read_frame(im2, e2.p, e2.n)); if (!rc) cur = im2; Res r = take(BLResult(rc), im2); Res b = take(BL_SUCCESS, was), b2 = take(BL_SUCCESS, was2), now = take(BL_SUCCESS, im2); q.str("o", "frame").i("rc", rc).i("hash", rc ? 0 : hash_of(r)).i("old", b == b2).i("kept", now == b || (now.w == i0.size.w && now.h == i0.size.h)).i("idx", int(dec.frame_index())); }
          else { int rc = int(dec.restart()); q.str("o", "restart").i("rc", rc); }
          st.add(q.done());
        }
        j.str("op", "mut").i("nomore", int(BL_ERROR_NO_MORE_DATA)).i("ri", ri).i("rc", r0.rc).i("hash", r0.rc ? 0 : hash_of(r0)).i("multi", multi).i("score", score).i("found", found).i("wok", r0.rc || (r0.w == i0.size.w && r0.h == i0.size.h)).raw("st", st.done());
      } else if (g.chance(12) && fmt == 0) {
        int nf = 0; Bytes d = random_png(g, true, &nf, 120); Exact ex(d); BLImageCodec c; c.find_by_data(ex.p, ex.n); BLImageDecoder dec; c.create_decoder(&dec); BLImageInfo inf {}; if (g.chance(50)) dec.read_info(inf, ex.p, ex.n); BLImage img; J fr = J::arr(); int rc = 0; int more = nf + 1 + int(g.below(3)); for (int i = 0; i < more && !rc; i++) { BLImage keep; if (g.chance(30)) keep = img; Res r = take(dec.read_frame(img, ex.p, ex.n), img); rc = r.rc; fr.add(bytes(r.px)); } dec.read_info(inf, ex.p, ex.n);
        j.str("op", "anim").i("rc", rc).i("nf", nf).i("w", inf.size.w).i("h", inf.size.h).i("fc", (long long)inf.frame_count).raw("d", bytes(d)).raw("fr", fr.done());
      } else if (g.chance(60)) {
        Bytes d = make(g, fmt, false); std::set<Res> rs; BLImageInfo inf {}; for (int how = 0; how < 4; how++) rs.insert(decode(g, d, fmt, how, reuse[fmt], inf)); J r = J::arr(); for (auto& x : rs) r.add(x.json());
        j.str("op", "dec").raw("d", bytes(d)).raw("rs", r.done()).i("w", inf.size.w).i("h", inf.size.h).i("fc", (long long)inf.frame_count);
      } else {
        Bytes px, mem; int f = 0; BLImage img = source_image(g, 300, px, f, mem); int rc = 0, lvl = fmt == 0 && g.chance(70) ? int(g.below(14)) : -1; Bytes d = encode(g, img, fmt, rc, lvl); std::set<Res> rs; BLImageInfo inf {}; for (int how = 0; how < 4; how++) rs.insert(decode(g, d, fmt, how, reuse[fmt], inf)); J r = J::arr(); for (auto& x : rs) r.add(x.json());
        j.str("op", "enc").i("rc", rc).i("lvl", lvl).i("f", f).i("w", img.width()).i("h", img.height()).raw("px", bytes(px)).raw("d", bytes(d)).raw("rs", r.done());
      }
      tf.ev(j.done());
    }
    tf.end();
  }
}
