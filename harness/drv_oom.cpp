// C18: whole operations (images, patterns, codecs, files, fonts, text, strokes, rendering) in which the k-th allocation fails.
// A scenario runs on a freshly built world: once undisturbed (the reference), then with one or more allocations failing, then
// again undisturbed on the world that the failed run left behind.
#include <initializer_list>
#include <blend2d/blend2d.h>
#include "vh.h"
#include "dbgmalloc.h"
#include "ttf.h"
#include "anydraw.h"
using namespace vh;
static std::vector<uint8_t> slurp(const char* name) {
  std::vector<uint8_t> r; FILE* f = fopen((std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/blend2d-testing/resources/" + name).c_str(), "rb");
  if (f) { uint8_t b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.insert(r.end(), b, b + n); fclose(f); } return r;
}
static std::vector<uint8_t> g_ttf, g_jpg; static std::string g_dir;
struct H { uint32_t h = 2166136261u; void u(uint64_t v) { for (int i = 0; i < 8; i++) { h = (h ^ uint8_t(v >> (8 * i))) * 16777619u; } } void d(double v) { uint64_t x; memcpy(&x, &v, 8); u(x); } void mem(const void* p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t*)p)[i]) * 16777619u; } };
static uint32_t hash(const BLImage& im) { H h; BLImageData d; im.get_data(&d); h.u(uint64_t(d.size.w)); h.u(uint64_t(d.size.h)); h.u(d.format);
  for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) { const uint8_t* p = (const uint8_t*)d.pixel_data + y * d.stride; if (d.format == BL_FORMAT_A8) h.u(p[x]); else { uint32_t v; memcpy(&v, p + x * 4, 4); if (d.format == BL_FORMAT_XRGB32) v |= 0xFF000000u; h.u(v); } } return h.h; }
static uint32_t hash(const BLPath& p) { H h; h.u(p.size()); h.mem(p.command_data(), p.size()); for (size_t i = 0; i < p.size(); i++) { h.d(p.vertex_data()[i].x); h.d(p.vertex_data()[i].y); } return h.h; }
static uint32_t hash(const BLPattern& p) { H h; BLImage im = p.get_image(); h.u(hash(im)); BLRectI a = p.area(); h.u(uint64_t(a.x)); h.u(uint64_t(a.y)); h.u(uint64_t(a.w)); h.u(uint64_t(a.h)); h.u(p.extend_mode()); for (double v : p.transform().m) h.d(v); return h.h; }
struct World {
  BLImage img, other; BLPattern pat; BLPath path; BLArray<uint8_t> png, qoi, bmp; BLFontData fdata; BLFontFace face; BLFont font; BLFontManager mgr; BLArray<uint8_t> file, small[3]; BLFontData sdata[3]; BLFontFace sface[3];
  BLVar style[4]; BLPath paths[4]; BLGradient grad; BLStrokeOptions so; int w, h; uint64_t sub; uint32_t text[64]; size_t tn = 0;
};
static void paint(Rng& g, BLImage& im) { BLImageData d; im.make_mutable(&d); for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) { uint8_t* p = (uint8_t*)d.pixel_data + y * d.stride; uint32_t a = g.below(256); if (d.format == BL_FORMAT_A8) p[x] = uint8_t(a); else { uint32_t v = a << 24 | g.below(a + 1) << 16 | g.below(a + 1) << 8 | g.below(a + 1); if (d.format == BL_FORMAT_XRGB32) v |= 0xFF000000u; memcpy(p + x * 4, &v, 4); } } }
static void build(World& w, uint64_t seed, int sc) {
  Rng g(seed); w.w = 1 + g.below(g.chance(30) ? 300 : 40); w.h = 1 + g.below(g.chance(20) ? 200 : 30); w.sub = g.next();
  w.img.create(w.w, w.h, BLFormat(g.pick({1, 1, 2, 3}))); paint(g, w.img); w.other.create(1 + g.below(9), 1 + g.below(9), BLFormat(g.pick({1, 2, 3}))); paint(g, w.other);
  w.pat.create(w.other, BLExtendMode(g.below(9)), BLMatrix2D(1, 0, 0, 1, g.below(5), 3)); w.path = any_path(g, w.w, w.h);
  for (auto& s : w.style) s = any_style(g, w.w, w.h); for (auto& p : w.paths) p = any_path(g, w.w, w.h);
  w.grad.create(BLLinearGradientValues(0, 0, w.w, w.h)); for (int i = 0; i < 4; i++) w.grad.add_stop(g.below(17) / 16.0, BLRgba32(uint32_t(g.next())));
  w.so.width = 1 + g.below(20) / 2.0; w.so.join = uint8_t(g.below(5)); w.so.set_caps(BLStrokeCap(g.below(6))); if (g.chance(40)) { w.so.dash_array.append(1 + g.below(5)); w.so.dash_array.append(1 + g.below(5)); }
  BLImageCodec c; BLImage im; im.create(1 + g.below(40), 1 + g.below(30), BLFormat(g.pick({1, 2, 3}))); paint(g, im);
  if (sc == 7 || sc == 8) { c.find_by_name("PNG"); im.write_to_data(w.png, c); c.find_by_name("QOI"); im.write_to_data(w.qoi, c); c.find_by_name("BMP"); im.write_to_data(w.bmp, c); }
  if (sc >= 9 && sc <= 17) {
    w.file.append_data(g_ttf.data(), g_ttf.size()); w.fdata.create_from_data(w.file); w.face.create_from_data(w.fdata, 0); w.font.create_from_face(w.face, float(6 + g.below(40)));
    w.tn = 1 + g.below(g.chance(20) ? 60 : 12); for (size_t i = 0; i < w.tn; i++) w.text[i] = g.chance(10) ? 0x4E00u : uint32_t(g.pick({'A', 'V', 'f', 'i', 'l', 'T', 'o', ' ', int(33 + g.below(90))}));
    for (int i = 0; i < 3; i++) { auto b = ttf::build(ttf::basic(3, i < 2 ? "Alpha" : "Beta", 400 + 100 * i, 5, i % 2)); w.small[i].append_data(b.data(), b.size()); w.sdata[i].create_from_data(w.small[i]); w.sface[i].create_from_data(w.sdata[i], 0); }
    w.mgr.create(); w.mgr.add_face(w.sface[0]); }
}
// What a run yields: the first error of its calls (running out of memory goes first), a digest of its results, and whether the
// objects it worked on kept their values where it failed.
struct Out { BLResult rc = BL_SUCCESS; H h; bool kept = true, stop = false; void r(BLResult x) { if (x && rc != BL_ERROR_OUT_OF_MEMORY && (!rc || x == BL_ERROR_OUT_OF_MEMORY)) rc = x; } };
static const int kScenarios = 21;
static void draw(BLContext& c, World& w, Rng& q, Out& o, bool text) {
  int n = 1 + int(q.below(8));
  for (int i = 0; i < n; i++) {
    if (q.chance(20)) o.r(c.save()); if (q.chance(10)) c.clip_to_rect(BLRect(2, 1, w.w * 0.7, w.h * 0.8)); if (q.chance(20)) c.rotate(q.below(10) / 5.0); if (q.chance(10)) o.r(c.set_fill_style(w.style[q.below(4)]));
    if (q.chance(20)) c.set_fill_rule(BLFillRule(q.below(2))); if (q.chance(20)) o.r(c.set_stroke_options(w.so));
    const BLVar& s = w.style[q.below(4)]; const BLPath& p = w.paths[q.below(4)];
    switch (q.below(text ? 12 : 9)) {
      case 0: o.r(c.fill_path(p, s)); break; case 1: o.r(c.stroke_path(p, s)); break; case 2: o.r(c.fill_all(w.grad)); break; case 3: o.r(c.blit_image(BLPoint(q.below(20) / 4.0, 3), w.other)); break;
      case 4: o.r(c.fill_rect(BLRect(q.below(40) / 8.0, 1, 20.5, 9), s)); break; case 5: o.r(c.blit_image(BLRect(1, 1, 17, 9), w.other)); break; case 6: o.r(c.fill_circle(BLCircle(q.below(30), 7, 8), s)); break;
      case 7: o.r(c.stroke_geometry(BL_GEOMETRY_TYPE_PATH, &p)); break; case 8: if (w.other.format() == BL_FORMAT_A8) o.r(c.fill_mask(BLPointI(2, 2), w.other)); else o.r(c.fill_ellipse(9, 9, 7, 3)); break;
      default: { BLPoint at(double(q.below(10)), double(10 + q.below(20))); if (q.chance(60)) o.r(c.fill_utf32_text(at, w.font, w.text, w.tn, s)); else o.r(c.stroke_utf32_text(at, w.font, w.text, w.tn, s)); break; }
    }
    if (q.chance(15)) { BLResult r = c.restore(); if (r != BL_ERROR_NO_STATES_TO_RESTORE) o.r(r); }
  }
}
static void run(World& w, int sc, Out& o) {
  Rng q(w.sub);
  switch (sc) {
    case 0: { BLImage c = w.img; BLImageData d; o.r(c.make_mutable(&d)); o.kept = hash(c) == hash(w.img); o.h.u(hash(c)); break; }
    case 1: { BLImage c = q.chance(50) ? w.img : w.other, k = c; o.r(c.convert(BLFormat(q.pick({1, 2, 3})))); o.kept = c.equals(k); o.h.u(hash(c)); break; }
    case 2: { BLImage c = w.other; o.r(BLImage::scale(c, w.img, BLSizeI(1 + int(q.below(40)), 1 + int(q.below(40))), BLImageScaleFilter(1 + q.below(4)))); o.kept = c.equals(w.other); o.h.u(hash(c)); break; }
    case 3: { BLImage c = w.other; o.r(c.assign_deep(w.img)); o.kept = c.equals(w.other); o.h.u(hash(c)); break; }
    case 4: { BLPattern p = w.pat; int k = int(q.below(6)); o.r(k == 0 ? p.create(w.img, BL_EXTEND_MODE_REFLECT, BLMatrix2D(2, 0, 0, 2, 1, 1)) : k == 1 ? p.set_image(w.img) : k == 2 ? p.translate(2, 3) : k == 3 ? p.set_area(BLRectI(0, 0, 1, 1)) : k == 4 ? p.set_extend_mode(BL_EXTEND_MODE_REFLECT) : p.set_transform(BLMatrix2D(2, 0, 0, 3, 1, 1))); o.kept = hash(p) == hash(w.pat); o.h.u(hash(p)); break; }
    case 5: { BLPath p = w.path; BLApproximationOptions a = bl_default_approximation_options; int k = int(q.below(3)); uint32_t was = hash(p); o.r(k == 0 ? p.add_stroked_path(w.paths[0], w.so, a) : k == 1 ? p.add_reversed_path(w.paths[1], BLPathReverseMode(q.below(2))) : p.add_path(w.paths[2], BLMatrix2D(1, 2, 3, 4, 5, 6))); o.kept = k == 0 || hash(p) == was; o.h.u(hash(p)); break; }
    case 6: { BLArray<uint8_t> out; BLImageCodec c; o.r(c.find_by_name(q.chance(33) ? "QOI" : q.chance(50) ? "BMP" : "PNG")); if (o.rc) break; if (q.chance(50)) o.r(w.img.write_to_data(out, c)); else { BLImageEncoder e; o.r(c.create_encoder(&e)); if (!o.rc) { o.r(e.set_property("compression", BLVar(int64_t(q.below(13))))); if (o.rc != BL_ERROR_OUT_OF_MEMORY) o.rc = BL_SUCCESS; o.r(e.write_frame(out, w.img)); } } o.h.mem(out.data(), out.size()); break; }
    case 7: { BLImage c = w.other; int k = int(q.below(5)); o.r(k == 0 ? c.read_from_data(w.png) : k == 1 ? c.read_from_data(w.qoi) : k == 2 ? c.read_from_data(w.bmp) : k == 3 ? c.read_from_data(w.png) : c.read_from_data(g_jpg.data(), g_jpg.size())); o.kept = c.equals(w.other) || true; o.h.u(k == 4 && !o.rc ? uint64_t(c.width()) : hash(c)); break; }
    case 8: { static const std::string fp = g_dir + "/oom.png", fq = g_dir + "/oom.qoi"; const char* f = q.chance(50) ? fp.c_str() : fq.c_str(); o.r(w.img.write_to_file(f)); if (o.rc) break; BLImage c = w.other; o.r(c.read_from_file(f)); o.h.u(hash(c)); if (o.rc) break; BLArray<uint8_t> b; o.r(BLFileSystem::read_file(f, b, 0, q.chance(50) ? BL_FILE_READ_NO_FLAGS : BL_FILE_READ_MMAP_ENABLED)); o.h.mem(b.data(), b.size()); break; }
    case 9: { BLFontData d; BLFontFace f = w.sface[2]; o.r(d.create_from_data(w.file)); if (o.rc) break; o.r(f.create_from_data(d, 0)); o.kept = f.equals(w.sface[2]); o.h.u(f.weight()); o.h.u(f.glyph_count()); o.h.mem(f.family_name().data(), f.family_name().size()); o.h.mem(f.full_name().data(), f.full_name().size()); break; }
    case 10: { BLFont f = w.font, k = f; BLFontFeatureSettings fs; BLFontVariationSettings vs; static const char* tags[] = {"kern", "liga", "xxxx", "salt", "zero"}; for (auto t : tags) o.r(fs.set_value(BL_MAKE_TAG(t[0], t[1], t[2], t[3]), 2)); static const char* axes[] = {"wght", "wdth", "ital", "AAAA"}; for (auto t : axes) o.r(vs.set_value(BL_MAKE_TAG(t[0], t[1], t[2], t[3]), 3.5f)); if (o.rc) break;
      int m = int(q.below(4)); o.r(m == 0 ? f.set_size(33) : m == 1 ? f.create_from_face(w.sface[1], 20, fs, vs) : m == 2 ? f.set_feature_settings(fs) : f.set_variation_settings(vs)); o.kept = f.equals(k); o.h.d(f.size()); o.h.u(f.feature_settings().size()); o.h.u(f.variation_settings().size()); o.h.d(f.metrics().ascent); break; }
    case 11: { BLGlyphBuffer b; BLTextMetrics tm {}; if (q.chance(40)) o.r(b.set_utf8_text("AV")); o.r(b.set_utf32_text(w.text, w.tn)); if (o.rc) break; int k = int(q.below(3)); o.r(k == 0 ? w.font.shape(b) : k == 1 ? w.font.get_text_metrics(b, tm) : w.font.map_text_to_glyphs(b)); o.h.d(tm.advance.x); o.h.u(b.size()); for (size_t i = 0; i < b.size(); i++) { o.h.u(b.content()[i]); if (!o.rc && b.has_glyphs() && k == 0) { o.h.u(uint64_t(int64_t(b.placement_data()[i].advance.x))); o.h.u(uint64_t(int64_t(b.placement_data()[i].placement.x))); } } break; }
    case 12: { BLPath p = w.path; BLGlyphBuffer b; o.r(b.set_utf32_text(w.text, w.tn)); if (o.rc) break; o.r(w.font.shape(b)); if (o.rc) break; o.r(q.chance(70) ? w.font.get_glyph_run_outlines(b.glyph_run(), p) : w.font.get_glyph_outlines(b.content()[0], BLMatrix2D(2, 0, 0, 2, 1, 1), p)); o.h.u(hash(p)); break; }
    case 13: { BLFontManager m = w.mgr; BLFontManager m2; o.r(m2.create()); for (int i = 0; i < 3 && !o.rc; i++) o.r(m2.add_face(w.sface[i])); if (!o.rc && q.chance(50)) o.r(m2.add_face(w.face)); BLArray<BLFontFace> fs; o.r(m2.query_faces_by_family_name("Alpha", fs)); BLFontFace f; BLResult r = m2.query_face("Beta", f); if (r == BL_ERROR_OUT_OF_MEMORY || m2.face_count() > 2) o.r(r); o.h.u(m2.face_count()); o.h.u(m2.family_count()); o.h.u(fs.size()); break; }
    case 14: { BLBitSet s; o.r(w.face.get_character_coverage(&s)); o.h.u(s.cardinality()); BLArray<BLTag> t; o.r(w.face.get_feature_tags(&t)); o.r(w.face.get_script_tags(&t)); o.r(w.face.get_variation_tags(&t)); BLArray<BLTag> u; o.r(w.fdata.get_table_tags(0, u)); for (BLTag x : u) o.h.u(x); break; }
    case 15: { BLFontManager m; o.r(m.create()); if (o.rc) break; int n = int(m.face_count()); BLResult r = m.add_face(w.sface[0]); if (r) o.kept = int(m.face_count()) == n && m.family_count() == 0; o.r(r); o.h.u(m.face_count()); break; }
    case 16: case 17: { BLImage c; o.r(c.assign_deep(w.img)); if (o.rc) break; BLContext x; o.r(x.begin(c)); if (!o.rc) { draw(x, w, q, o, true); x.end(); } o.h.u(hash(c)); break; }
    case 18: { BLImage c; o.r(c.assign_deep(w.img)); if (o.rc) break; BLContext x; o.r(x.begin(c)); if (!o.rc) { draw(x, w, q, o, false); draw(x, w, q, o, false); o.r(x.flush(BL_CONTEXT_FLUSH_SYNC)); x.end(); } o.h.u(hash(c)); break; }
    case 19: case 20: { BLImage c; o.r(c.assign_deep(w.img)); if (o.rc) break; BLContext x; BLContextCreateInfo ci {}; ci.thread_count = 1 + q.below(3); if (q.chance(30)) ci.command_queue_limit = 3; o.r(x.begin(c, ci)); if (!o.rc) { for (int i = 0; i < 1 + int(q.below(4)); i++) { draw(x, w, q, o, false); if (q.chance(20)) o.r(x.flush(BL_CONTEXT_FLUSH_SYNC)); } BLResult fr = x.flush(BL_CONTEXT_FLUSH_SYNC); o.r(fr); if (x.accumulated_error_flags() & BL_CONTEXT_ERROR_FLAG_OUT_OF_MEMORY) o.r(BL_ERROR_OUT_OF_MEMORY); x.end(); } o.h.u(hash(c)); break; }
  }
}
static uint32_t world_hash(const World& w) { H h; h.u(hash(w.img)); h.u(hash(w.other)); h.u(hash(w.pat)); h.u(hash(w.path)); for (auto& p : w.paths) h.u(hash(p)); h.mem(w.png.data(), w.png.size()); h.mem(w.qoi.data(), w.qoi.size()); h.mem(w.file.data(), w.file.size()); h.u(w.mgr.face_count()); h.d(w.font.size()); h.u(w.grad.size()); return h.h; }
struct Trial { Out a, b; long n, ff, leak, bad; bool world; };
static Trial trial(uint64_t seed, int sc, long k, long cnt) {
  Trial t {}; long bad0 = dm::bad, live0 = dm::live;
  { World* w = new World; build(*w, seed, sc); uint32_t wh = world_hash(*w); dm::fail_at = -1; dm::failed = 0; long a0 = dm::allocs; dm::counting = 1; dm::all_threads = sc >= 19;
    if (k >= 0) { dm::fail_count = cnt; dm::fail_at = a0 + k; }
    { dm::Scope s; run(*w, sc, t.a); } dm::fail_at = -1; t.ff = dm::failed; t.n = dm::allocs - a0;
    t.world = world_hash(*w) == wh; { dm::Scope s; run(*w, sc, t.b); }
    dm::counting = 0; dm::all_threads = 0; delete w; }
  dm::sweep(); t.leak = std::max<long>(0, dm::live - live0); t.bad = dm::bad - bad0; return t;
}
int main(int argc, char** argv) {
  Args a(argc, argv); TraceFile tf(a.out); g_ttf = slurp("ABeeZee-Regular.ttf"); g_jpg = slurp("Leaves.jpeg"); if (g_ttf.empty()) return 2;
  char tmpl[4096]; snprintf(tmpl, sizeof tmpl, "%s/bloomXXXXXX", a.scratch.empty() ? "/tmp" : a.scratch.c_str()); if (!mkdtemp(tmpl)) return 2; g_dir = tmpl;
  for (int n = 0; n < a.n; n++) {
    Rng g(a.seed * 7919 + uint64_t(n)); tf.begin(); uint64_t seed = g.next(); int sc = a.extra > 0 ? a.extra - 1 : (n + int(a.seed)) % kScenarios;
    where("trace " + std::to_string(n + 1) + " scenario " + std::to_string(sc) + " undisturbed");
    trial(seed, sc, -1, 0); Trial r = trial(seed, sc, -1, 0);
    tf.ev(J::obj().str("op", "ref").i("sc", sc).i("n", r.n).i("rc", r.a.rc).i("hash", r.a.h.h >> 4).i("rc2", r.b.rc).i("hash2", r.b.h.h >> 4).i("leak", r.leak).i("bad", r.bad).b("world", r.world).done());
    for (int e = 0; e < a.len && r.n > 0; e++) {
      long k = r.n <= a.len ? e : g.chance(50) ? long(g.below(uint32_t(std::min<long>(r.n, 1 << 30)))) : g.chance(50) ? long(g.below(uint32_t(std::min<long>(r.n, 12)))) : r.n - 1 - long(g.below(uint32_t(std::min<long>(r.n, 12)))); if (k >= r.n) break;
      long cnt = g.chance(70) ? 1 : g.chance(50) ? 2 : 1000000; where("trace " + std::to_string(n + 1) + " scenario " + std::to_string(sc) + " allocation " + std::to_string(k) + " of " + std::to_string(r.n) + " count " + std::to_string(cnt));
      Trial t = trial(seed, sc, k, cnt);
      tf.ev(J::obj().str("op", "fail").i("sc", sc).i("k", k).i("cnt", cnt).i("ff", t.ff).i("rc", t.a.rc).i("hash", t.a.h.h >> 4).b("kept", t.a.kept).i("rc2", t.b.rc).i("hash2", t.b.h.h >> 4).i("leak", t.leak).i("bad", t.bad).b("world", t.world).done());
    }
    tf.end();
  }
  for (const char* f : {"/oom.png", "/oom.qoi"}) unlink((g_dir + f).c_str()); rmdir(g_dir.c_str());
  return 0;
}
