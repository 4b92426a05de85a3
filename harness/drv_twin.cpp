// C16: the same program on a synchronous and on a multithreaded context; row hashes of both images after every flush.
#include "vh.h"
#include "dbgmalloc.h"
#include "twinstep.h"
using namespace vh;
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init();
  // Debugging: TW_T=<trace> TW_KEEP=<steps> runs only the given steps of a trace.
  std::set<int> keep; int keep_t = getenv("TW_T") ? atoi(getenv("TW_T")) : 0; if (const char* k = getenv("TW_KEEP")) for (const char* p = k; *p;) { keep.insert(atoi(p)); while (*p && *p != ',') p++; if (*p) p++; }
  BLFontData fd; fd.create_from_data(resource_abeezee_regular_ttf, sizeof(resource_abeezee_regular_ttf)); BLFontFace face; face.create_from_data(fd, 0);
  for (int t = 0; t < a.n; t++) {
    int w = 8 + g.below(90), h; { int k = g.below(10); h = k < 4 ? 8 + g.below(60) : k < 8 ? 64 + g.below(250) : 400 + g.below(300); if (h > 350) w = 8 + g.below(20); }
    uint32_t f = g.pick({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); BLImage A(w, h, BLFormat(f)), B(w, h, BLFormat(f));
    { BLImageData d, d2; A.make_mutable(&d); B.make_mutable(&d2); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t al = f == BL_FORMAT_XRGB32 ? 255 : g.below(256); if (f == BL_FORMAT_A8) ((uint8_t*)d.pixel_data)[y * d.stride + x] = ((uint8_t*)d2.pixel_data)[y * d2.stride + x] = uint8_t(al); else ((uint32_t*)((uint8_t*)d.pixel_data + y * d.stride))[x] = ((uint32_t*)((uint8_t*)d2.pixel_data + y * d2.stride))[x] = BLRgba32(g.below(al + 1), g.below(al + 1), g.below(al + 1), al).value; } }
    BLContextCreateInfo ci{}; ci.thread_count = 1 + g.below(g.chance(15) ? 12 : 4); if (g.chance(10)) ci.command_queue_limit = 1 + g.below(700); if (g.chance(10)) ci.flags |= BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC;
    BLContext s, m; BLResult rs = s.begin(A), rm = m.begin(B, ci);
    tf.begin(); { J j = J::obj(); j.str("op", "new").i("w", w).i("h", h).i("f", f).i("thr", ci.thread_count).b("oks", rs == 0).b("okm", rm == 0).ints("rows", rows(B)).ints("ref", rows(A)); tf.ev(j.done()); }
    Sources S; for (BLImage& im : S.im) new_image(g, im, false); S.im[2].reset(); S.im[2].create(3, 5, BL_FORMAT_A8); new_image(g, S.im[2], true); for (auto& x : S.gr) new_gradient(g, x, w, h, false); for (auto& x : S.pt) new_pattern(g, x, S.im[g.below(2)], false); for (auto& x : S.pa) x = any_path(g, w, h); new_dash(g, S.da, false); S.font.create_from_face(face, 8 + g.below(40)); S.gb.set_utf8_text("Bl2d"); S.font.shape(S.gb);
    BLRgba32 c0(uint32_t(g.next())); s.set_fill_style(c0); m.set_fill_style(c0); BLStrokeCap cap = BLStrokeCap(g.below(6)); s.set_stroke_caps(cap); m.set_stroke_caps(cap);
    int ops = 3 + g.below(a.len); bool burst = a.extra ? g.chance(unsigned(a.extra)) : g.chance(8); if (burst) ops += 300 + g.below(1500); bool sync_only_end = g.chance(25), mutate = g.chance(80); unsigned pf = burst ? 1 : 3 + g.below(12); std::string names; long n = 0;
    for (int e = 0; e < ops; e++) {
      where("trace " + std::to_string(t + 1) + " step " + std::to_string(e)); Rng q(g.next()); bool light = burst && !g.chance(10);
      bool skip = keep_t == t + 1 && !keep.count(e);
      const char* nm = skip ? "" : step(s, q, S, w, h, light); where("trace " + std::to_string(t + 1) + " step " + std::to_string(e) + " mt " + nm); if (!skip) step(m, q, S, w, h, light); if (keep_t == t + 1 && !skip) fprintf(stderr, "%d:%s ", e, nm); n++; if (names.size() < 300) { names += nm; names += ' '; }
      if (mutate && g.chance(light ? 20 : 50)) { // sources change right after their use
        int k = g.below(10); bool keep = g.chance(60);
        if (k < 3) new_image(g, S.im[g.below(3)], keep); else if (k < 5) new_gradient(g, S.gr[g.below(2)], w, h, keep); else if (k < 7) new_pattern(g, S.pt[g.below(2)], S.im[g.below(3)], keep); else if (k < 8) { BLPath& p = S.pa[g.below(2)]; if (keep && p.size()) { p.translate(BLPoint(3, 2)); p.line_to(g.below(w), g.below(h)); } else { p.reset(); p = any_path(g, w, h); } } else if (k < 9) new_dash(g, S.da, keep); else { S.font.reset(); S.font.create_from_face(face, 6 + g.below(50)); S.gb.set_utf8_text(g.chance(50) ? "xyZ" : "Q"); S.font.shape(S.gb); } }
      if (!sync_only_end && g.chance(pf)) { m.flush(BL_CONTEXT_FLUSH_SYNC); J j = J::obj(); j.str("op", "sync").i("n", n).str("what", names).ints("rows", rows(B)).ints("ref", rows(A)).i("sm", state_hash(m)).i("ss", state_hash(s)).i("em", long(m.accumulated_error_flags())); tf.ev(j.done()); n = 0; names.clear(); }
      else if (g.chance(2)) m.flush(BL_CONTEXT_FLUSH_NO_FLAGS);
    }
    long sm = state_hash(m), ss = state_hash(s); s.end(); if (g.chance(80)) m.end(); else m.reset();
    std::vector<long> rc; for (BLImage& im : S.im) { bool pat = false; for (auto& p : S.pt) { BLImage x = p.get_image(); if (x._d.impl == im._d.impl) pat = true; } if (!pat) { BLImageData d; im.get_data(&d); const void* was = d.pixel_data; im.make_mutable(&d); rc.push_back(d.pixel_data == was); } }
    { const void* was = S.da.data(); S.da.replace(0, 1.0); rc.push_back(S.da.data() == was); }
    for (auto& x : S.gr) { const void* was = x.stops(); x.set_extend_mode(x.extend_mode() == BL_EXTEND_MODE_PAD ? BL_EXTEND_MODE_REPEAT : BL_EXTEND_MODE_PAD); rc.push_back(x.stops() == was); }
    for (auto& x : S.pa) if (x.size()) { const void* was = x.vertex_data(); x.translate(BLPoint(1, 1)); rc.push_back(x.vertex_data() == was); }
    { J j = J::obj(); j.str("op", "end").i("n", n).str("what", names).ints("rows", rows(B)).ints("ref", rows(A)).i("sm", sm).i("ss", ss).ints("own", rc); tf.ev(j.done()); }
    tf.end();
  }
}
