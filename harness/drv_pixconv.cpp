// C23: pixel converters.  Two converter objects are created, copied, reset and used; every conversion records the
// formats' pixels before and after, the spec maps them.
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/core/format_p.h>
#include <sys/mman.h>
#include "vh.h"
#include "dbgmalloc.h"
using namespace vh;
struct Fmt { BLFormatInfo f{}; std::vector<uint32_t> pal; };
static uint32_t g_allfeat;
static std::string fj(const BLFormatInfo& f, const std::vector<uint32_t>& pal) {
  J j = J::obj(); j.i("depth", f.depth).i("flags", f.flags & 0xFFFF);
  if (f.flags & BL_FORMAT_FLAG_INDEXED) { std::vector<int> z(4, 0); j.ints("sz", z).ints("sh", z);
    J p = J::arr(); for (uint32_t c : pal) { J q = J::arr(); q.addi((c >> 16) & 255).addi((c >> 8) & 255).addi(c & 255).addi(c >> 24); p.add(q.done()); } j.raw("pal", p.done()); }
  else { j.ints("sz", std::vector<int>(f.sizes, f.sizes + 4)).ints("sh", std::vector<int>(f.shifts, f.shifts + 4)).raw("pal", "[]"); }
  return j.done();
}
static void comps(BLFormatInfo& f, std::initializer_list<int> sz, std::initializer_list<int> sh) { int i = 0; for (int x : sz) f.sizes[i++] = uint8_t(x); i = 0; for (int x : sh) f.shifts[i++] = uint8_t(x); }
static Fmt gen(Rng& g, bool src) {
  Fmt r; BLFormatInfo& f = r.f; int k = g.below(100); uint32_t fl = 0;
  if (k < 20) { int w = g.below(5); if (w < 3) { bl_format_info_query(&f, BLFormat(w == 0 ? BL_FORMAT_PRGB32 : w == 1 ? BL_FORMAT_XRGB32 : BL_FORMAT_A8)); return r; }
    bl_format_info_query(&f, BL_FORMAT_PRGB32); f.flags = BLFormatFlags(BL_FORMAT_FLAG_RGBA); return r; }
  if (k < 45) { // 8888
    int p[4] = {0, 8, 16, 24}; if (g.chance(60)) { for (int i = 3; i > 0; i--) std::swap(p[i], p[g.below(i + 1)]); if (g.chance(40)) { int q[4] = {p[0], p[1], p[2], p[3]}; (void)q; } }
    else { int t[4][4] = {{16, 8, 0, 24}, {0, 8, 16, 24}, {24, 16, 8, 0}, {8, 16, 24, 0}}; int w = g.below(4); for (int i = 0; i < 4; i++) p[i] = t[w][i]; }
    f.depth = 32; bool al = g.chance(65); comps(f, {8, 8, 8, al ? 8 : 0}, {p[0], p[1], p[2], al ? p[3] : 0});
    fl = al ? BL_FORMAT_FLAG_RGBA : BL_FORMAT_FLAG_RGB; if (al && g.chance(50)) fl |= BL_FORMAT_FLAG_PREMULTIPLIED; }
  else if (k < 53) { int p[3] = {0, 8, 16}; for (int i = 2; i > 0; i--) std::swap(p[i], p[g.below(i + 1)]); f.depth = 24; comps(f, {8, 8, 8, 0}, {p[0], p[1], p[2], 0}); fl = BL_FORMAT_FLAG_RGB; }
  else if (k < 76) { // any masks
    f.depth = uint32_t(g.pick({16, 16, 24, 32})); bool al = g.chance(60); int n = al ? 4 : 3, ord[4] = {0, 1, 2, 3}; for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[g.below(i + 1)]);
    int sz[4] = {0, 0, 0, 0}, tot = 0, mx = g.pick({4, 5, 6, 8, 8, 10, 16});
    static const int known[5][4] = {{5, 6, 5, 0}, {5, 5, 5, 0}, {5, 5, 5, 1}, {4, 4, 4, 4}, {10, 10, 10, 2}};
    if (g.chance(40)) { const int* q = known[g.below(5)]; for (int i = 0; i < 4; i++) sz[i] = q[i]; al = sz[3] != 0; n = al ? 4 : 3; if (n == 3) for (int i = 0; i < 3; i++) ord[i] = (i + g.below(1)); if (n == 3) { ord[0] = 0; ord[1] = 1; ord[2] = 2; if (g.chance(50)) std::swap(ord[0], ord[2]); } for (int i = 0; i < n; i++) tot += sz[i]; if (tot > int(f.depth)) f.depth = 32; }
    else { for (int i = 0; i < n; i++) { sz[i] = 1 + g.below(uint32_t(mx)); tot += sz[i]; } while (tot > int(f.depth)) { int i = g.below(uint32_t(n)); if (sz[i] > 1) { sz[i]--; tot--; } } }
    int slack = int(f.depth) - tot, pos = 0, sh[4] = {0, 0, 0, 0};
    for (int i = 0; i < n; i++) { int gap = g.chance(30) ? int(g.below(uint32_t(slack + 1))) : 0; slack -= gap; pos += gap; sh[ord[i]] = pos; pos += sz[ord[i]]; }
    comps(f, {sz[0], sz[1], sz[2], sz[3]}, {sh[0], sh[1], sh[2], sh[3]});
    fl = al ? BL_FORMAT_FLAG_RGBA : BL_FORMAT_FLAG_RGB; if (al && g.chance(50)) fl |= BL_FORMAT_FLAG_PREMULTIPLIED; }
  else if (k < 82) { int w = g.below(4); if (w == 0) { f.depth = 8; comps(f, {8, 8, 8, 0}, {0, 0, 0, 0}); fl = BL_FORMAT_FLAG_LUM; } else if (w == 1) { f.depth = 8; comps(f, {0, 0, 0, 8}, {0, 0, 0, 0}); fl = BL_FORMAT_FLAG_ALPHA; }
    else if (w == 2) { f.depth = 16; comps(f, {8, 8, 8, 8}, {0, 0, 0, 8}); fl = BL_FORMAT_FLAG_LUMA; } else { f.depth = uint32_t(g.pick({4, 8, 16})); comps(f, {0, 0, 0, 4}, {0, 0, 0, 0}); fl = BL_FORMAT_FLAG_ALPHA; } if (fl & 2 && g.chance(50)) fl |= BL_FORMAT_FLAG_PREMULTIPLIED; }
  else if (k < 95) { if (!src && g.chance(95)) return gen(g, src); // indexed
    f.depth = uint32_t(g.pick({1, 1, 2, 4, 8})); fl = BL_FORMAT_FLAG_INDEXED; int w = g.below(10); fl |= w < 4 ? BL_FORMAT_FLAG_RGB : w < 9 ? BL_FORMAT_FLAG_RGBA : BL_FORMAT_FLAG_ALPHA; if (g.chance(40)) fl |= BL_FORMAT_FLAG_PREMULTIPLIED;
    int style = g.below(4); for (uint32_t i = 0; i < (1u << f.depth); i++) { uint32_t a = g.pick({0, 1, 15, 255, 255, -1}); if (a > 255) a = g.below(256); uint32_t c[3]; for (int q = 0; q < 3; q++) { c[q] = style == 0 ? uint32_t(g.pick({0, 1, 3, 15, 255})) : g.below(256); }
      if (style == 1) c[0] = c[1] = c[2] = i ? 255 : 0; if (style == 2) { c[0] = c[1] = 0; c[2] = i * 15; }
      if ((fl & BL_FORMAT_FLAG_PREMULTIPLIED) && (fl & BL_FORMAT_FLAG_ALPHA)) for (auto& x : c) x = std::min(x, a);
      r.pal.push_back(a << 24 | c[0] << 16 | c[1] << 8 | c[2]); } }
  else { // something odd
    r = gen(g, src); if (r.f.flags & BL_FORMAT_FLAG_INDEXED) { if (g.chance(50)) r.f.depth = uint32_t(g.pick({3, 16, 5, 32})); else r.pal.clear(); if (!r.pal.empty() && r.f.depth > 8) r.pal.resize(1); return r; }
    switch (g.below(6)) { case 0: r.f.depth = uint32_t(g.pick({0, 3, 7, 12, 15, 17, 40, 64})); break; case 1: r.f.flags = BLFormatFlags(r.f.flags ^ (1u << g.below(3))); break; case 2: r.f.sizes[g.below(4)] = uint8_t(g.below(20)); break;
      case 3: r.f.shifts[g.below(4)] = uint8_t(g.below(40)); break; case 4: r.f.sizes[g.below(4)] = 0; break; default: r.f.depth = uint32_t(g.pick({8, 16, 24, 32})); } return r; }
  if (g.chance(15)) fl |= BL_FORMAT_FLAG_BYTE_SWAP;
  f.flags = BLFormatFlags(fl); return r;
}
struct Conv { BLPixelConverterCore pc; bool live = false; Fmt d, s; };
static Conv C[2];
static void put(std::vector<uint8_t>& row, size_t off, int bpp, const BLFormatInfo& f, const uint32_t v[4]) {
  uint64_t x = 0; for (int i = 0; i < 4; i++) if (f.sizes[i]) { uint32_t s = f.sizes[i]; uint32_t q = s <= 8 ? v[i] >> (8 - s) : ((v[i] * 257) >> (16 - s)); x |= uint64_t(q) << f.shifts[i]; }
  for (int b = 0; b < bpp; b++) row[off + size_t((f.flags & BL_FORMAT_FLAG_BYTE_SWAP) ? bpp - 1 - b : b)] |= uint8_t(x >> (8 * b));
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); dm::counting = 1;
  BLRuntimeContext* rt = &bl_runtime_context; g_allfeat = rt->system_info.cpu_features;
  size_t page = 4096; std::vector<uint8_t*> pages; for (int i = 0; i < 64; i++) { pages.push_back((uint8_t*)mmap(nullptr, page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); }
  for (int t = 0; t < a.n; t++) {
    uint32_t keep = 0xFFFFFFFFu; switch (g.below(5)) { case 0: keep = 0; break; case 1: keep = BL_RUNTIME_CPU_FEATURE_X86_SSE2; break; case 2: keep = BL_RUNTIME_CPU_FEATURE_X86_SSE2 | BL_RUNTIME_CPU_FEATURE_X86_SSE3 | BL_RUNTIME_CPU_FEATURE_X86_SSSE3; break; default: break; }
    rt->system_info.cpu_features = g_allfeat & keep; int pg = 0;
    for (auto& c : C) { LIB(bl_pixel_converter_init(&c.pc)); c.live = false; }
    long live0 = dm::live.load(); tf.begin(); bool stale[2] = {false, false};
    for (int e = 0; e < a.len; e++) {
      int k = g.below(2), o = 1 - k; J j = J::obj(); int w = g.below(12);
      where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1));
      if (w == 0) { BLResult r = LIB(bl_pixel_converter_reset(&C[k].pc)); C[k].live = false; j.str("op", "reset").i("k", k + 1).i("rc", r); }
      else if (w == 1) { int how = g.below(3); int src = how == 2 ? k : o; BLResult r = 0; if (how == 0 || how == 2) r = LIB(bl_pixel_converter_assign(&C[k].pc, &C[src].pc)); else { LIB(bl_pixel_converter_destroy(&C[k].pc)); r = LIB(bl_pixel_converter_init_weak(&C[k].pc, &C[o].pc)); }
        if (src != k) { C[k].live = C[o].live; C[k].d = C[o].d; C[k].s = C[o].s; } j.str("op", "assign").i("k", k + 1).i("o", src + 1).i("rc", r); }
      else if (w < 7) { Fmt d = gen(g, false), s = gen(g, true); if (g.chance(8)) s = d; uint32_t cf = g.chance(25) ? g.below(8) : 0; BLFormatInfo si = s.f, di = d.f;
        std::vector<uint32_t> palcopy = s.pal; static BLRgba32 dpal[256];
        if (di.flags & BL_FORMAT_FLAG_INDEXED) di.palette = d.pal.empty() ? nullptr : dpal;
        if (si.flags & BL_FORMAT_FLAG_INDEXED) { bool alter = (cf & 3) == 3; uint8_t* p = pages[pg++ % 64]; mprotect(p, page, PROT_READ | PROT_WRITE); memcpy(p, s.pal.data(), s.pal.size() * 4); if (!alter) mprotect(p, page, PROT_READ); si.palette = s.pal.empty() ? nullptr : (BLRgba32*)p; }
        std::string fd = fj(d.f, d.pal), fs = fj(s.f, s.pal);
        where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " create flags " + std::to_string(cf) + " dst " + fd + " src " + fs.substr(0, 600));
        BLResult r = LIB(bl_pixel_converter_create(&C[k].pc, &di, &si, BLPixelConverterCreateFlags(cf)));
        if (r == 0) { C[k].live = true; C[k].d = d; C[k].s = s; }
        // sanitised formats
        j.str("op", "create").i("k", k + 1).raw("df", fd).raw("sf", fs).i("cf", cf).i("dp", (di.flags & BL_FORMAT_FLAG_INDEXED) && di.palette ? 1 : 0).i("rc", r); }
      else {
        Conv& c = C[k]; int W = g.chance(70) ? g.below(24) : g.chance(90) ? g.below(80) : g.chance(80) ? 760 + g.below(20) : 1530 + g.below(20), H = W > 700 ? 1 + g.below(2) : g.below(4); if (g.chance(3) && W < 24) H = g.pick({30, 60});
        if (W > 700 && g.chance(70)) W = g.below(30); size_t gap = g.chance(60) ? 0 : g.below(9);
        int dd = c.live ? int(c.d.f.depth) : 32, sd = c.live ? int(c.s.f.depth) : 32; size_t dbpp = size_t(dd) / 8, drow = size_t(W) * dbpp + gap, srow = (size_t(W) * size_t(sd) + 7) / 8;
        size_t dpad = g.chance(50) ? 0 : g.below(20), spad = g.chance(50) ? 0 : g.below(20), da = g.chance(60) ? 0 : g.below(17), sa = g.chance(60) ? 0 : g.below(17);
        if (!(g.chance(20))) { if (dbpp == 4 || dbpp == 2) { dpad = dpad / dbpp * dbpp; } }
        size_t ds = drow + dpad, ss = srow + spad; int hh = std::max(H, 1);
        std::vector<uint8_t> S(64 + sa + ss * size_t(hh) + 64), D(64 + da + ds * size_t(hh) + 64), D0;
        for (auto& x : S) x = uint8_t(g.below(256)); for (auto& x : D) x = uint8_t(g.below(256)); D0 = D;
        if (c.live && !(c.s.f.flags & BL_FORMAT_FLAG_INDEXED) && sd >= 8 && (g.chance(60) || (c.s.f.flags & BL_FORMAT_FLAG_PREMULTIPLIED))) {
          bool noise = g.chance(50); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v[4]; v[3] = g.pick({0, 1, 128, 254, 255, -1}); if (v[3] > 255) v[3] = g.below(256); for (int i = 0; i < 3; i++) { v[i] = g.chance(30) ? uint32_t(g.pick({0, 255, 1, 254})) : g.below(256); if (c.s.f.flags & BL_FORMAT_FLAG_PREMULTIPLIED) { if (v[i] > v[3]) v[i] = v[3] ? g.below(v[3] + 1) : 0; } }
            if (c.s.f.flags & BL_FORMAT_FLAG_LUM) v[0] = v[1] = v[2]; size_t off = 64 + sa + ss * size_t(y) + size_t(x) * size_t(sd / 8); uint64_t und = ~0ull; for (int i = 0; i < 4; i++) und &= ~(((1ull << c.s.f.sizes[i]) - 1) << c.s.f.shifts[i]);
            for (int b = 0; b < sd / 8; b++) { int q = (c.s.f.flags & BL_FORMAT_FLAG_BYTE_SWAP) ? sd / 8 - 1 - b : b; S[off + size_t(b)] = noise ? uint8_t((und >> (8 * q)) & g.below(256)) : 0; } put(S, off, sd / 8, c.s.f, v); } }
        bool dneg = g.chance(25), sneg = g.chance(25); uint8_t* dp = D.data() + 64 + da; const uint8_t* sp = S.data() + 64 + sa; intptr_t dst = intptr_t(ds), sst = intptr_t(ss);
        if (dneg) { dp += ds * size_t(hh - 1); dst = -dst; } if (sneg) { sp += ss * size_t(hh - 1); sst = -sst; }
        BLPixelConverterOptions opt{}; opt.gap = gap; opt.origin.reset(g.range(-5, 500), g.range(-5, 500));
        where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " convert " + std::to_string(W) + "x" + std::to_string(H) + (c.live ? " dst " + fj(c.d.f, c.d.pal) + " src " + fj(c.s.f, c.s.pal).substr(0, 500) : std::string()));
        std::vector<uint8_t> S0 = S; BLResult r = LIB(bl_pixel_converter_convert(&c.pc, dp, dst, sp, sst, uint32_t(W), uint32_t(H), gap || g.chance(50) ? &opt : nullptr));
        bool guard = S0 == S; J sr = J::arr(), dr = J::arr(); std::vector<uint8_t> chk = D;
        for (int y = 0; y < H; y++) { const uint8_t* s = sp + sst * y; uint8_t* d = dp + dst * y; J x1 = J::arr(), x2 = J::arr(); for (size_t i = 0; i < srow; i++) x1.addi(s[i]); for (size_t i = 0; i < drow; i++) { x2.addi(d[i]); size_t at = size_t(d + i - D.data()); chk[at] = D0[at]; } sr.add(x1.done()); dr.add(x2.done()); }
        if (chk != D0) guard = false; if (r != 0 && D != D0) guard = false;
        j.str("op", "conv").i("k", k + 1).i("w", W).i("h", H).i("gap", gap).raw("src", sr.done()).raw("dst", dr.done()).b("guard", guard).i("rc", r); }
      tf.ev(j.i("bad", dm::bad.load()).done());
    }
    for (auto& c : C) LIB(bl_pixel_converter_destroy(&c.pc));
    J j = J::obj(); j.str("op", "end").i("leak", dm::live.load() - live0).i("bad", dm::bad.load()); tf.ev(j.done()); tf.end();
  }
}
