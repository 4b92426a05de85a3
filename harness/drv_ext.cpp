// C10: arrays, images and font data over memory of the caller, kept in pages of their own: read-only memory is mapped
// read-only, released memory becomes inaccessible. Slots 1..4 are handles, 5..6 hold an object indirectly (pattern, face).
#include "vh.h"
#include "dbgmalloc.h"
#include <sys/mman.h>
#include <pthread.h>
#include <atomic>
using namespace vh;
static const int K = 4, H = 6, NB = 6;
struct Block { uint8_t* base = nullptr; size_t pages = 0; uint8_t* data = nullptr; bool ro = false, cb = false, made = false; std::atomic<int> freed{0}; int kind = 0; size_t bytes = 0; };
static Block B[NB + 1]; static int nb; static std::atomic<int> g_bad{0}; static bool g_reuse;
static void protect(Block& b, int p) { if (mprotect(b.base, b.pages * 4096, p)) abort(); }
static void BL_CDECL on_destroy(void* impl, void* data, void* user) noexcept {
  Block* b = (Block*)user; if (b < B + 1 || b > B + NB || data != b->data || !impl) { g_bad++; return; }
  if (b->freed++ == 0) protect(*b, PROT_NONE); // from now on any access is an error
}
static Block& new_block(Rng& g, size_t bytes, bool ro) { Block& b = B[++nb]; b.pages = (bytes + 4095) / 4096; b.base = (uint8_t*)mmap(nullptr, b.pages * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); b.bytes = bytes; b.data = b.base + (g.chance(50) ? 0 : (b.pages * 4096 - bytes) & ~size_t(63)); b.ro = ro; b.freed = 0; b.made = false; b.cb = g.chance(85); return b; }
static int where_is(const void* p) { if (!p) return 0; for (int i = 1; i <= nb; i++) if (B[i].base && (const uint8_t*)p >= B[i].base && (const uint8_t*)p < B[i].base + B[i].pages * 4096) return i; return 0; }
struct St { int w, n, v; };
// ------------------------------------------------------------------------------------------------ arrays
struct ArrayKind {
  static constexpr const char* name = "array"; BLArrayCore a[H]; bool hold_ok = false;
  void init(int k) { bl_array_init(&a[k], BL_OBJECT_TYPE_ARRAY_INT32); }
  void destroy(int k) { bl_array_destroy(&a[k]); }
  St get(int k) { St s{0, 0, 0}; size_t n = bl_array_get_size(&a[k]); auto p = (const int*)bl_array_get_data(&a[k]); s.n = int(n); s.w = a[k]._d.sso() ? 0 : where_is(p); if (n) s.v = p[0]; for (size_t i = 0; i < n; i++) if (p[i] != s.v) s.v = -1; return s; }
  BLResult create(Rng& g, int k, bool valid, int& bi, int& n, int& v, bool& rw) {
    size_t cap = 1 + g.below(40); n = g.below(unsigned(cap) + 1); v = 1 + g.below(99); rw = g.chance(60); Block& b = new_block(g, cap * 4, !rw); bi = nb; for (int i = 0; i < int(cap); i++) ((int*)b.data)[i] = i < n ? v : -77; if (!n) v = 0; if (b.ro) protect(b, PROT_READ);
    BLDataAccessFlags f = rw ? BL_DATA_ACCESS_RW : BL_DATA_ACCESS_READ; size_t nn = size_t(n);
    if (!valid) switch (g.below(4)) { case 0: cap = 0; nn = 0; break; case 1: nn = cap + 1; break; case 2: f = BLDataAccessFlags(g.pick({0, 4, 8, 2 + 4})); break; default: cap = SIZE_MAX / 2; }
    return LIB(bl_array_assign_external_data(&a[k], b.data, nn, cap, f, b.cb ? on_destroy : nullptr, &b)); }
  BLResult weak(int k, int o) { return bl_array_assign_weak(&a[k], &a[o]); } BLResult weak_init(int k, int o) { return bl_array_init_weak(&a[k], &a[o]); }
  BLResult move(int k, int o) { return bl_array_assign_move(&a[k], &a[o]); } BLResult move_init(int k, int o) { return bl_array_init_move(&a[k], &a[o]); }
  BLResult deep(int k, int o) { return bl_array_assign_deep(&a[k], &a[o]); }
  BLResult reset(int k) { return bl_array_reset(&a[k]); }
  // Changes the object; n and v are the expected content.
  BLResult mutate(Rng& g, int k, St s, int& n, int& v, const char*& must) { BLArrayCore* x = &a[k]; void* p; must = "";
    int nv = 1 + g.below(99); n = s.n; v = s.v;
    switch (g.below(7)) {
      case 0: { v = s.n ? nv : 0; must = "stay"; BLResult r = LIB(bl_array_make_mutable(x, &p)); if (!r) for (int i = 0; i < n; i++) ((int*)p)[i] = v; return r; }
      case 1: { n++; v = s.n ? s.v : nv; return LIB(bl_array_append_u32(x, uint32_t(v))); }
      case 2: { size_t c = g.below(5); n += int(c); v = s.n ? s.v : c ? nv : 0; int f = v; return LIB(bl_array_resize(x, size_t(n), &f)); }
      case 3: { if (!n) return LIB(bl_array_shrink(x)); n--; if (!n) v = 0; return LIB(bl_array_remove_index(x, size_t(g.below(unsigned(n) + 1)))); }
      case 4: { n = 0; v = 0; return LIB(bl_array_clear(x)); }
      case 5: { std::vector<int> d(g.below(30) + 1, nv); n = int(d.size()); v = nv; return LIB(bl_array_assign_data(x, d.data(), d.size())); }
      default: { if (!n) { return LIB(bl_array_reserve(x, 3)); } std::vector<int> d(s.n, nv); v = nv; return LIB(bl_array_replace_data(x, 0, size_t(n), d.data(), d.size())); }
    } }
    bool reset_other(Rng&, int) { return false; }
  bool hold(Rng&, int, int) { return false; } void unhold(int) {}
};
// ------------------------------------------------------------------------------------------------ images (4 pixels wide, n rows)
struct ImageKind {
  static constexpr const char* name = "image"; BLImageCore a[K]; BLPatternCore pt[2]; bool hold_ok = true;
  void init(int k) { if (k < K) bl_image_init(&a[k]); else bl_pattern_init(&pt[k - K]); }
  void destroy(int k) { if (k < K) bl_image_destroy(&a[k]); else bl_pattern_destroy(&pt[k - K]); }
  St of(const BLImageCore* im) { St s{0, 0, 0}; BLImageData d; if (bl_image_get_data(im, &d) && d.size.h) { g_bad++; return s; } s.n = d.size.h; s.w = where_is(d.pixel_data); for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) { int p = int(((const uint32_t*)((const uint8_t*)d.pixel_data + y * d.stride))[x] & 0xFFFFFF); if (x == 0 && y == 0) s.v = p; else if (p != s.v) s.v = -1; } return s; }
  St get(int k) { if (k < K) return of(&a[k]); BLImageCore im; bl_image_init(&im); bl_pattern_get_image(&pt[k - K], &im); St s = of(&im); bl_image_destroy(&im); return s; }
  BLResult create(Rng& g, int k, bool valid, int& bi, int& n, int& v, bool& rw) {
    n = 1 + g.below(6); v = 1 + g.below(99); rw = g.chance(60); intptr_t stride = g.pick({16, 16, 32, 24}); int w = 4, h = n; Block& b = new_block(g, size_t(stride) * size_t(n), !rw); bi = nb;
    for (size_t i = 0; i < b.bytes / 4; i++) ((uint32_t*)b.data)[i] = 0xFF000000u | uint32_t(v); if (b.ro) protect(b, PROT_READ); if (g.chance(30)) { b.data += stride * (n - 1); stride = -stride; }
    BLDataAccessFlags f = rw ? BL_DATA_ACCESS_RW : BL_DATA_ACCESS_READ; BLFormat fm = g.chance(50) ? BL_FORMAT_PRGB32 : BL_FORMAT_XRGB32;
    if (!valid) switch (g.below(5)) { case 0: w = g.pick({0, -1}); break; case 1: h = g.pick({0, -5}); break; case 2: fm = BLFormat(g.pick({0, 4, 77})); break; case 3: stride = stride < 0 ? -15 : 15; break; default: w = 1 << 20; }
    if (g.chance(30)) { dm::disarm(); BLImageCore t; BLResult r = LIB(bl_image_init_as_from_data(&t, w, h, fm, b.data, stride, f, b.cb ? on_destroy : nullptr, &b)); if (r == BL_SUCCESS) LIB(bl_image_assign_move(&a[k], &t)); LIB(bl_image_destroy(&t)); return r; }
    return LIB(bl_image_create_from_data(&a[k], w, h, fm, b.data, stride, f, b.cb ? on_destroy : nullptr, &b)); }
  BLResult weak(int k, int o) { return bl_image_assign_weak(&a[k], &a[o]); } BLResult weak_init(int k, int o) { return bl_image_init_weak(&a[k], &a[o]); }
  BLResult move(int k, int o) { return bl_image_assign_move(&a[k], &a[o]); } BLResult move_init(int k, int o) { return bl_image_init_move(&a[k], &a[o]); }
  BLResult deep(int k, int o) { return bl_image_assign_deep(&a[k], &a[o]); }
  BLResult reset(int k) { return k < K ? bl_image_reset(&a[k]) : bl_pattern_reset(&pt[k - K]); }
  // The image goes away while a context still draws to it.
  bool reset_other(Rng& g, int k) { if (k >= K || g.chance(50)) return false; if (bl_image_is_empty_(k)) return false; dm::disarm(); BLContextCreateInfo ci{}; ci.thread_count = g.below(3); BLContextCore c, c2; bool two = g.chance(30);
    if (LIB(bl_context_init_as(&c, &a[k], &ci))) return false;
    if (two) { BLContextCreateInfo c0{}; LIB(bl_context_init_as(&c2, &a[k], &c0)); }
    LIB(bl_context_fill_all_rgba32(&c, 0xFF000001u)); BLImageCore t; if (g.chance(30)) { bl_image_init_move(&t, &a[k]); LIB(bl_image_destroy(&t)); } else if (g.chance(30)) { static uint32_t other[64]; for (auto& x : other) x = 0xFF000007u; LIB(bl_image_create_from_data(&a[k], 4, 4, BL_FORMAT_PRGB32, other, 16, BL_DATA_ACCESS_RW, nullptr, nullptr)); LIB(bl_context_fill_all_rgba32(&c, 0xFF000005u)); LIB(bl_context_flush(&c, BL_CONTEXT_FLUSH_SYNC)); for (auto x : other) if (x != 0xFF000007u) g_bad++; LIB(bl_image_reset(&a[k])); }
    else if (g.chance(20)) { LIB(bl_image_create(&a[k], 3, 3, BL_FORMAT_PRGB32)); LIB(bl_context_fill_all_rgba32(&c, 0xFF000005u)); LIB(bl_context_flush(&c, BL_CONTEXT_FLUSH_SYNC)); LIB(bl_image_reset(&a[k])); }
    else LIB(bl_image_reset(&a[k]));
    LIB(bl_context_fill_all_rgba32(&c, 0xFF000002u)); if (g.chance(50)) LIB(bl_context_flush(&c, BL_CONTEXT_FLUSH_SYNC));
    if (two) { LIB(bl_context_destroy(&c)); LIB(bl_context_fill_all_rgba32(&c2, 0xFF000003u)); LIB(bl_context_destroy(&c2)); return true; }
    if (g.chance(50)) LIB(bl_context_end(&c)); LIB(bl_context_destroy(&c)); return true; }
  bool bl_image_is_empty_(int k) { BLImageData d; bl_image_get_data(&a[k], &d); return d.size.h == 0; }
  BLResult mutate(Rng& g, int k, St s, int& n, int& v, const char*& must) { BLImageCore* x = &a[k]; n = s.n; v = s.v; int nv = 1 + g.below(99); must = "stay";
    switch (g.below(5)) {
      case 0: case 1: { BLImageData d; BLResult r = LIB(bl_image_make_mutable(x, &d)); if (r || !n) return n ? r : 0; v = nv; for (int y = 0; y < d.size.h; y++) for (int i = 0; i < d.size.w; i++) ((uint32_t*)((uint8_t*)d.pixel_data + y * d.stride))[i] = 0xFF000000u | uint32_t(v); return r; }
      case 2: { if (!n) return 0; v = nv; dm::disarm(); BLContextCreateInfo ci{}; ci.thread_count = g.below(3); BLContextCore c; BLResult r = LIB(bl_context_init_as(&c, x, &ci)); if (!r) r = LIB(bl_context_fill_all_rgba32(&c, 0xFF000000u | uint32_t(nv))); LIB(bl_context_destroy(&c)); return r; }
      case 3: { if (!n) return 0; must = "any"; return LIB(bl_image_convert(x, g.chance(50) ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32)); }
      default: { must = "own"; n = 1 + g.below(5); v = nv; dm::disarm(); BLResult r = LIB(bl_image_create(x, 4, n, BL_FORMAT_PRGB32)); BLImageData d; if (!r) r = LIB(bl_image_make_mutable(x, &d)); for (int i = 0; !r && i < d.size.h; i++) for (int q = 0; q < d.size.w; q++) ((uint32_t*)((uint8_t*)d.pixel_data + i * d.stride))[q] = 0xFF000000u | uint32_t(v); return r; }
    } }
  bool hold(Rng& g, int k, int o) { BLRectI all(0, 0, 0, 0); (void)all; if (g.chance(50)) return LIB(bl_pattern_set_image(&pt[k - K], &a[o], nullptr)) == 0; BLPatternCore t; LIB(bl_pattern_init_as(&t, &a[o], nullptr, BL_EXTEND_MODE_PAD, nullptr)); LIB(bl_pattern_assign_move(&pt[k - K], &t)); LIB(bl_pattern_destroy(&t)); return true; }
};
// ------------------------------------------------------------------------------------------------ font data (read-only, faces hold it)
static std::vector<uint8_t> g_font;
struct FontKind {
  static constexpr const char* name = "font"; BLFontDataCore a[K]; BLFontFaceCore fc[2]; BLFontCore fo[2]; bool hold_ok = true;
  void init(int k) { if (k < K) bl_font_data_init(&a[k]); else { bl_font_face_init(&fc[k - K]); bl_font_init(&fo[k - K]); } }
  void destroy(int k) { if (k < K) bl_font_data_destroy(&a[k]); else { bl_font_destroy(&fo[k - K]); bl_font_face_destroy(&fc[k - K]); } }
  St of(const BLFontDataCore* d) { St s{0, 0, 0}; BLFontTable t{}; BLTag tag = BL_MAKE_TAG('h', 'e', 'a', 'd'); if (!bl_font_data_get_tables(d, 0, &t, &tag, 1)) return s; s.w = where_is(t.data); s.n = int(t.size); s.v = t.data[0]; return s; }
  St get(int k) { if (k < K) return of(&a[k]); BLFontFace& f = (BLFontFace&)fc[k - K]; if (!f.is_valid()) { BLFont& q = (BLFont&)fo[k - K]; if (!q.is_valid()) return St{0, 0, 0}; BLFontData d = q.face().data(); return of(&d); } BLFontData d = f.data(); return of(&d); }
  BLResult create(Rng& g, int k, bool valid, int& bi, int& n, int& v, bool& rw) { rw = false; size_t sz = g_font.size(); Block& b = new_block(g, sz, true); bi = nb; memcpy(b.data, g_font.data(), sz); if (!valid) { if (g.chance(50)) sz = g.below(12); else memset(b.data, 0x55, 4); } protect(b, PROT_READ); n = 54; v = 0; return LIB(bl_font_data_create_from_data(&a[k], b.data, sz, b.cb ? on_destroy : nullptr, &b)); }
  BLResult weak(int k, int o) { return bl_font_data_assign_weak(&a[k], &a[o]); } BLResult weak_init(int k, int o) { return bl_font_data_init_weak(&a[k], &a[o]); }
  BLResult move(int k, int o) { return bl_font_data_assign_move(&a[k], &a[o]); } BLResult move_init(int k, int o) { return bl_font_data_init_move(&a[k], &a[o]); }
  BLResult deep(int k, int o) { return weak(k, o); }
  BLResult reset(int k) { if (k < K) return bl_font_data_reset(&a[k]); bl_font_reset(&fo[k - K]); return bl_font_face_reset(&fc[k - K]); }
  BLResult mutate(Rng& g, int k, St s, int& n, int& v, const char*& must) { must = "keep"; n = s.n; v = s.v; (void)k; (void)g; return 0; }
  bool reset_other(Rng&, int) { return false; }
  bool hold(Rng& g, int k, int o) { BLFontFaceCore* f = &fc[k - K]; if (bl_font_data_get_face_count(&a[o]) == 0) return false; if (LIB(bl_font_face_create_from_data(f, &a[o], 0))) return false; LIB(bl_font_reset(&fo[k - K])); if (g.chance(50)) { if (LIB(bl_font_create_from_face(&fo[k - K], f, 12.0f))) return false; if (g.chance(50)) LIB(bl_font_face_reset(f)); } return true; }
};
// ------------------------------------------------------------------------------------------------ histories
template<class T> struct Job { T* t; int k, iters; uint64_t seed; BLObjectCore mine; pthread_barrier_t* bar; };
template<class T> static void* worker(void* p) { auto* j = (Job<T>*)p; Rng g(j->seed); pthread_barrier_wait(j->bar);
  for (int i = 0; i < j->iters; i++) { BLVarCore x, y; bl_var_init_weak(&x, &j->mine); if (g.chance(30)) { bl_var_init_move(&y, &x); bl_var_destroy(&x); bl_var_destroy(&y); } else if (g.chance(30)) { bl_var_init_null(&y); bl_var_assign_weak(&y, &x); bl_var_destroy(&x); bl_var_assign_weak(&j->mine, &y); bl_var_destroy(&y); } else bl_var_destroy(&x); }
  bl_var_destroy(&j->mine); return nullptr; }
template<class T> static void run(Args& a, Rng& g, TraceFile& tf) {
  for (int t = 0; t < a.n; t++) {
    T o; nb = 0; for (int k = 0; k < H; k++) LIB((o.init(k), 0)); long live0 = dm::live.load(); tf.begin(); int L = a.len / 2 + g.below(a.len);
    for (int e = 0; e < L; e++) {
      int k = g.below(K), q = g.below(K); J j = J::obj(); BLResult r = 0; int op = g.below(20); dm::arm(g);
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + T::name + " " + nm); return j.str("op", nm).i("s", k + 1); };
      if (nb < NB && op < 5) { bool valid = g.chance(80); int b, n, v; bool rw; where("trace " + std::to_string(t + 1) + " create"); r = o.create(g, k, valid, b, n, v, rw); if (r == BL_SUCCESS) B[b].made = true; base("create").b("valid", valid).i("b", b).i("n", n).i("v", v).b("rw", rw).b("cb", B[b].cb); }
      else if (op < 8) { base("copy").i("o", q + 1); if (k != q && g.chance(40)) { dm::disarm(); LIB((o.destroy(k), 0)); r = LIB(o.weak_init(k, q)); } else r = LIB(o.weak(k, q)); }
      else if (op == 8) { base("move").i("o", q + 1); if (k != q && g.chance(40)) { dm::disarm(); LIB((o.destroy(k), 0)); r = LIB(o.move_init(k, q)); } else r = LIB(o.move(k, q)); }
      else if (op < 11) { int z = o.hold_ok ? int(g.below(H)) : k; k = z; base("reset"); if (o.reset_other(g, k)) {} else if (g.chance(40)) { LIB((o.destroy(k), 0)); o.init(k); } else r = LIB(o.reset(k)); }
      else if (op < 13 && o.hold_ok) { if constexpr (!std::is_same_v<T, ArrayKind>) { k = K + g.below(2); dm::disarm(); base("hold").i("o", q + 1); bool h = o.hold(g, k, q); j.b("held", h); } }
      else if (op == 13 && !std::is_same_v<T, FontKind>) { base("deep").i("o", q + 1); r = LIB(o.deep(k, q)); }
      else if (op == 14 && !dm::inject_p) { // several threads copy and release at once
        int nt = 2 + g.below(3); bool rel = g.chance(60); base("par").b("rel", rel); pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, unsigned(nt) + 1); std::vector<Job<T>> js((size_t(nt))); std::vector<pthread_t> th((size_t(nt)));
        for (int i = 0; i < nt; i++) { js[size_t(i)] = Job<T>{&o, k, int(g.below(150)), g.next(), {}, &bar}; bl_var_init_weak(&js[size_t(i)].mine, (const BLUnknown*)&o.a[k]); pthread_create(&th[size_t(i)], nullptr, worker<T>, &js[size_t(i)]); }
        pthread_barrier_wait(&bar); if (rel) r = LIB(o.reset(k)); for (auto& x : th) pthread_join(x, nullptr); pthread_barrier_destroy(&bar); }
      else { St s = o.get(k); int n, v; const char* must = ""; r = o.mutate(g, k, s, n, v, must); base("mutate").i("n", n).i("v", v).str("must", must); }
      j.b("ok", r == BL_SUCCESS); dm::mark(j, r); std::string st = "[", fr = "["; for (int i = 0; i < H; i++) { if (i >= K && !o.hold_ok) { st += ",[0,0,0]"; continue; } St s = o.get(i); if (i) st += ','; st += "[" + std::to_string(s.w) + "," + std::to_string(s.n) + "," + std::to_string(s.v) + "]"; }
      for (int i = 1; i <= NB; i++) { if (i > 1) fr += ','; fr += std::to_string(i <= nb ? B[i].freed.load() : 0); }
      j.raw("st", st + "]").raw("freed", fr + "]").i("bad", dm::bad.load() + g_bad); tf.ev(j.done());
    }
    for (int k = 0; k < H; k++) LIB((o.destroy(k), 0)); dm::sweep(); std::string fr = "["; for (int i = 1; i <= NB; i++) { if (i > 1) fr += ','; fr += std::to_string(i <= nb ? B[i].freed.load() : 0); }
    J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load() + g_bad).raw("freed", fr + "]"); tf.ev(j.done()); tf.end();
    for (int i = 1; i <= nb; i++) { munmap(B[i].base, B[i].pages * 4096); B[i].base = nullptr; }
  }
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init(); const char* root = getenv("VERIF_REPO"); std::string fp = std::string(root ? root : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf";
  { BLArray<uint8_t> d; if (BLFileSystem::read_file(fp.c_str(), d) == BL_SUCCESS) g_font.assign(d.begin(), d.end()); }
  { BLImage im(8, 8, BL_FORMAT_PRGB32); BLContextCreateInfo ci{}; for (uint32_t n : {0u, 1u, 2u}) { ci.thread_count = n; BLContext c(im, ci); c.fill_all(BLRgba32(1)); c.end(); } }
  dm::counting = 1; dm::inject_p = a.extra;
  if (a.mode == "image") run<ImageKind>(a, g, tf); else if (a.mode == "font") run<FontKind>(a, g, tf); else run<ArrayKind>(a, g, tf);
  dm::counting = 0; if (dm::bad.load() + g_bad) fprintf(stderr, "bad=%d (%s) g_bad=%d\n", int(dm::bad.load()), dm::last_bad, int(g_bad));
}
