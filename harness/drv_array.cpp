// C01: random and systematic histories of array operations; logs every call with its result and the content,
// capacity and size of every array afterwards.
#include "vh.h"
#include "dbgmalloc.h"
using namespace vh;

static const int K = 3;
static BLArrayCore A[K];
static BLObjectType TY;
static size_t ISZ;
static bool OBJ;

static const BLObjectType kTypes[] = {
  BL_OBJECT_TYPE_ARRAY_OBJECT, BL_OBJECT_TYPE_ARRAY_INT8, BL_OBJECT_TYPE_ARRAY_UINT8, BL_OBJECT_TYPE_ARRAY_INT16, BL_OBJECT_TYPE_ARRAY_UINT16,
  BL_OBJECT_TYPE_ARRAY_INT32, BL_OBJECT_TYPE_ARRAY_UINT32, BL_OBJECT_TYPE_ARRAY_INT64, BL_OBJECT_TYPE_ARRAY_UINT64, BL_OBJECT_TYPE_ARRAY_FLOAT32,
  BL_OBJECT_TYPE_ARRAY_FLOAT64, BL_OBJECT_TYPE_ARRAY_STRUCT_1, BL_OBJECT_TYPE_ARRAY_STRUCT_2, BL_OBJECT_TYPE_ARRAY_STRUCT_3, BL_OBJECT_TYPE_ARRAY_STRUCT_4,
  BL_OBJECT_TYPE_ARRAY_STRUCT_6, BL_OBJECT_TYPE_ARRAY_STRUCT_8, BL_OBJECT_TYPE_ARRAY_STRUCT_10, BL_OBJECT_TYPE_ARRAY_STRUCT_12, BL_OBJECT_TYPE_ARRAY_STRUCT_16,
  BL_OBJECT_TYPE_ARRAY_STRUCT_20, BL_OBJECT_TYPE_ARRAY_STRUCT_24, BL_OBJECT_TYPE_ARRAY_STRUCT_32 };

static void encode(void* dst, int v) { // raw bytes of a plain item
  if (TY == BL_OBJECT_TYPE_ARRAY_FLOAT32) { float f = float(v); memcpy(dst, &f, 4); return; }
  if (TY == BL_OBJECT_TYPE_ARRAY_FLOAT64) { double f = double(v); memcpy(dst, &f, 8); return; }
  for (size_t j = 0; j < ISZ; j++) ((uint8_t*)dst)[j] = uint8_t(v * 7 + j * 13 + 5);
}
static int decode(const void* src) {
  if (OBJ) {
    const BLObjectCore* o = (const BLObjectCore*)src;
    if (o->_d.is_string()) {
      BLStringCore* s = (BLStringCore*)o; size_t n = bl_string_get_size(s); const char* d = bl_string_get_data(s);
      int v = 0; size_t i = 0; while (i < n && d[i] >= '0' && d[i] <= '9') v = v * 10 + (d[i++] - '0');
      size_t want = (v % 3 == 0) ? 24 : i; if (n != want) return -2;
      for (; i < n; i++) if (d[i] != 'x') return -3;
      return v;
    }
    int64_t v = -4; if (bl_var_to_int64((const BLUnknown*)o, &v) != BL_SUCCESS) return -5; return int(v);
  }
  if (TY == BL_OBJECT_TYPE_ARRAY_FLOAT32) { float f; memcpy(&f, src, 4); return (f >= -1000 && f <= 1000) ? int(f) : -6; }
  if (TY == BL_OBJECT_TYPE_ARRAY_FLOAT64) { double f; memcpy(&f, src, 8); return (f >= -1000 && f <= 1000) ? int(f) : -6; }
  uint8_t b0 = *(const uint8_t*)src; int v = int(uint8_t((b0 - 5) * 183)); // 183 = 7^-1 mod 256
  bool zero = true; for (size_t j = 0; j < ISZ; j++) zero &= ((const uint8_t*)src)[j] == 0;
  if (zero) return 0 == v ? 0 : 1000; // 1000 stands for "all bytes zero"
  for (size_t j = 0; j < ISZ; j++) if (((const uint8_t*)src)[j] != uint8_t(v * 7 + j * 13 + 5)) return -7;
  return v;
}
// Zero-filled items (resize without a fill item) decode to this:
static int zero_code() { if (TY == BL_OBJECT_TYPE_ARRAY_FLOAT32 || TY == BL_OBJECT_TYPE_ARRAY_FLOAT64) return 0; uint8_t z[64] = {0}; return decode(z); }

static void obj_init(BLObjectCore* o, int v) {
  if (v % 5 == 4) { bl_var_init_int64(o, v); return; }
  std::string s = std::to_string(v); if (v % 3 == 0) s.append(24 - s.size(), 'x');
  // counted, but never failing
  long fa = dm::fail_at, d = fa - dm::allocs; dm::fail_at = -1; LIB(bl_string_init_with_data((BLStringCore*)o, s.data(), s.size())); if (fa >= 0) dm::fail_at = dm::allocs + d;
}
struct Items { // a temporary buffer of items
  std::vector<uint8_t> buf; size_t n;
  explicit Items(const std::vector<int>& v) : buf((v.size() + 1) * ISZ + 8), n(v.size()) {
    for (size_t i = 0; i < n; i++) { if (OBJ) obj_init((BLObjectCore*)at(i), v[i]); else encode(at(i), v[i]); }
  }
  void* at(size_t i) { return buf.data() + i * ISZ; }
  ~Items() { if (OBJ) for (size_t i = 0; i < n; i++) LIB(bl_var_destroy((BLUnknown*)at(i))); }
};
struct Ext { std::vector<uint8_t> orig; uint8_t* mem; size_t bytes; bool ro; int freed; };
static std::vector<Ext*> g_ext; static int g_ext_bad;
static void BL_CDECL ext_destroy(void* impl, void* data, void* user) noexcept { Ext* e = (Ext*)user; e->freed++; if (data != e->mem) g_ext_bad++; }

static std::vector<int> content(int k) { std::vector<int> r; size_t n = bl_array_get_size(&A[k]); const uint8_t* d = (const uint8_t*)bl_array_get_data(&A[k]); if (n > 100000) { r.push_back(-9); return r; } for (size_t i = 0; i < n; i++) r.push_back(decode(d + i * ISZ)); return r; }

static void log_state(J& j) {
  std::string st = "["; std::vector<long> caps;
  for (int k = 0; k < K; k++) { if (k) st += ','; st += '['; auto c = content(k); for (size_t i = 0; i < c.size(); i++) { if (i) st += ','; st += std::to_string(c[i]); } st += ']'; size_t cp = bl_array_get_capacity(&A[k]); caps.push_back(cp > 1000000 ? 1000000 : long(cp)); }
  st += ']';
  j.raw("st", st).ints("cap", caps).i("bad", dm::bad.load() + g_ext_bad);
}
static bool typed_append(int k, int v, BLResult& r) {
  uint8_t b[64]; encode(b, v);
  switch (TY) {
    case BL_OBJECT_TYPE_ARRAY_UINT8: case BL_OBJECT_TYPE_ARRAY_INT8: r = bl_array_append_u8(&A[k], b[0]); return true;
    case BL_OBJECT_TYPE_ARRAY_UINT16: case BL_OBJECT_TYPE_ARRAY_INT16: { uint16_t x; memcpy(&x, b, 2); r = bl_array_append_u16(&A[k], x); return true; }
    case BL_OBJECT_TYPE_ARRAY_UINT32: case BL_OBJECT_TYPE_ARRAY_INT32: { uint32_t x; memcpy(&x, b, 4); r = bl_array_append_u32(&A[k], x); return true; }
    case BL_OBJECT_TYPE_ARRAY_UINT64: case BL_OBJECT_TYPE_ARRAY_INT64: { uint64_t x; memcpy(&x, b, 8); r = bl_array_append_u64(&A[k], x); return true; }
    case BL_OBJECT_TYPE_ARRAY_FLOAT32: r = bl_array_append_f32(&A[k], float(v)); return true;
    case BL_OBJECT_TYPE_ARRAY_FLOAT64: r = bl_array_append_f64(&A[k], double(v)); return true;
    default: return false;
  }
}
static bool typed_insert(int k, size_t i, int v, BLResult& r) {
  uint8_t b[64]; encode(b, v);
  switch (TY) {
    case BL_OBJECT_TYPE_ARRAY_UINT8: case BL_OBJECT_TYPE_ARRAY_INT8: r = bl_array_insert_u8(&A[k], i, b[0]); return true;
    case BL_OBJECT_TYPE_ARRAY_UINT16: case BL_OBJECT_TYPE_ARRAY_INT16: { uint16_t x; memcpy(&x, b, 2); r = bl_array_insert_u16(&A[k], i, x); return true; }
    case BL_OBJECT_TYPE_ARRAY_UINT32: case BL_OBJECT_TYPE_ARRAY_INT32: { uint32_t x; memcpy(&x, b, 4); r = bl_array_insert_u32(&A[k], i, x); return true; }
    case BL_OBJECT_TYPE_ARRAY_UINT64: case BL_OBJECT_TYPE_ARRAY_INT64: { uint64_t x; memcpy(&x, b, 8); r = bl_array_insert_u64(&A[k], i, x); return true; }
    case BL_OBJECT_TYPE_ARRAY_FLOAT32: r = bl_array_insert_f32(&A[k], i, float(v)); return true;
    case BL_OBJECT_TYPE_ARRAY_FLOAT64: r = bl_array_insert_f64(&A[k], i, double(v)); return true;
    default: return false;
  }
}
static bool typed_replace(int k, size_t i, int v, BLResult& r) {
  uint8_t b[64]; encode(b, v);
  switch (TY) {
    case BL_OBJECT_TYPE_ARRAY_UINT8: case BL_OBJECT_TYPE_ARRAY_INT8: r = bl_array_replace_u8(&A[k], i, b[0]); return true;
    case BL_OBJECT_TYPE_ARRAY_UINT16: case BL_OBJECT_TYPE_ARRAY_INT16: { uint16_t x; memcpy(&x, b, 2); r = bl_array_replace_u16(&A[k], i, x); return true; }
    case BL_OBJECT_TYPE_ARRAY_UINT32: case BL_OBJECT_TYPE_ARRAY_INT32: { uint32_t x; memcpy(&x, b, 4); r = bl_array_replace_u32(&A[k], i, x); return true; }
    case BL_OBJECT_TYPE_ARRAY_UINT64: case BL_OBJECT_TYPE_ARRAY_INT64: { uint64_t x; memcpy(&x, b, 8); r = bl_array_replace_u64(&A[k], i, x); return true; }
    case BL_OBJECT_TYPE_ARRAY_FLOAT32: r = bl_array_replace_f32(&A[k], i, float(v)); return true;
    case BL_OBJECT_TYPE_ARRAY_FLOAT64: r = bl_array_replace_f64(&A[k], i, double(v)); return true;
    default: return false;
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Rng g(a.seed);
  TraceFile tf(a.out);
  dm::counting = 1; dm::inject_p = a.extra;
  const int NT = int(sizeof kTypes / sizeof *kTypes);
  for (int t = 0; t < a.n; t++) {
    TY = kTypes[(t % 3 == 0) ? 0 : (t / 3 + t % 3) % NT]; OBJ = TY == BL_OBJECT_TYPE_ARRAY_OBJECT;
    for (int k = 0; k < K; k++) LIB(bl_array_init(&A[k], TY));
    ISZ = bl_array_get_item_size(&A[0]);
    long live0 = dm::live.load();
    int zc = OBJ ? 0 : zero_code();
    tf.begin("\"ty\":" + std::to_string(int(TY)) + ",\"sz\":" + std::to_string(ISZ));
    int maxlen = g.pick({6, 20, 20, 70});
    int L = a.len / 2 + g.below(a.len);
    auto rv = [&](int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(g.range(1, 99)); return v; };
    for (int e = 0; e < L; e++) {
      int k = g.below(K), o = g.below(K);
      size_t n = bl_array_get_size(&A[k]);
      int sz = int(n);
      std::vector<int> vals = rv(g.chance(70) ? g.below(4) : g.below(maxlen));
      if (sz > maxlen * 2) vals.resize(0);
      int i = g.below(sz + 1), cnt = g.below(sz - i + 1);
      dm::arm(g); BLResult r = 0; J j = J::obj(); void* out = nullptr;
      int op = g.below(36);
      auto pre = [&](const char* nm) { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm + " type=" + std::to_string(int(TY))); };
      auto base = [&](const char* nm) -> J& { pre(nm); return j.str("op", nm).i("s", k + 1); };
      switch (op) {
        case 0: base("clear"); r = LIB(bl_array_clear(&A[k])); break;
        case 1: base("reset"); r = LIB(bl_array_reset(&A[k])); break;
        case 2: base("shrink"); r = LIB(bl_array_shrink(&A[k])); break;
        case 3: { int m = g.chance(50) ? g.below(maxlen * 2) : sz + int(g.below(4)); base("reserve").i("n", m); r = LIB(bl_array_reserve(&A[k], size_t(m))); break; }
        case 4: { int m = g.chance(50) ? g.below(maxlen) : std::max(0, sz + g.range(-3, 3)); 
          if (!OBJ && g.chance(30)) { base("resize").i("n", m).i("v", zc); r = LIB(bl_array_resize(&A[k], size_t(m), nullptr)); }
          else { std::vector<int> one = rv(1); Items it(one); base("resize").i("n", m).i("v", one[0]); r = LIB(bl_array_resize(&A[k], size_t(m), it.at(0))); } break; }
        case 5: base("nop"); r = LIB(bl_array_make_mutable(&A[k], &out)); { auto c = content(k); for (int q = 0; q < sz; q++) { (void)c; } if (!r && sz && out != bl_array_get_data(&A[k])) g_ext_bad++; } break;
        case 6: { // make mutable and overwrite one item in place
          if (!sz || i >= sz) { e--; continue; } int v = g.range(1, 99); base("put").i("i", i).i("v", v); r = LIB(bl_array_make_mutable(&A[k], &out));
          if (!r) { uint8_t* p = (uint8_t*)out + size_t(i) * ISZ; if (OBJ) { bl_var_destroy((BLUnknown*)p); obj_init((BLObjectCore*)p, v); } else encode(p, v); } break; }
        case 7: case 8: { BLModifyOp mo = BLModifyOp(g.below(4)); bool app = mo >= BL_MODIFY_OP_APPEND_FIT; base(app ? "append" : "assign").ints("v", vals);
          r = LIB(bl_array_modify_op(&A[k], mo, vals.size(), &out));
          if (!r) for (size_t q = 0; q < vals.size(); q++) { void* p = (uint8_t*)out + q * ISZ; if (OBJ) obj_init((BLObjectCore*)p, vals[q]); else encode(p, vals[q]); } break; }
        case 9: { base("insert").i("i", i).ints("v", vals); r = LIB(bl_array_insert_op(&A[k], size_t(i), vals.size(), &out));
          if (!r) for (size_t q = 0; q < vals.size(); q++) { void* p = (uint8_t*)out + q * ISZ; if (OBJ) obj_init((BLObjectCore*)p, vals[q]); else encode(p, vals[q]); } break; }
        case 10: base("move").i("o", o + 1); r = LIB(bl_array_assign_move(&A[k], &A[o])); break;
        case 11: case 12: case 13: base("copy").i("o", o + 1); r = LIB(bl_array_assign_weak(&A[k], &A[o])); break;
        case 14: base("copy").i("o", o + 1); r = LIB(bl_array_assign_deep(&A[k], &A[o])); break;
        case 15: { Items it(vals); base("assign").ints("v", vals); r = LIB(bl_array_assign_data(&A[k], it.at(0), vals.size())); break; }
        case 16: { base("assignself").i("i", i).i("n", cnt); r = LIB(bl_array_assign_data(&A[k], (const uint8_t*)bl_array_get_data(&A[k]) + size_t(i) * ISZ, size_t(cnt))); break; }
        case 17: { // external data (object arrays keep ownership of their items in library code, so plain types only)
          if (OBJ) { e--; continue; }
          Ext* x = new Ext(); int cap = int(vals.size()) + g.below(5); x->ro = g.chance(50); x->freed = 0; x->bytes = size_t(cap + 1) * ISZ; x->mem = (uint8_t*)malloc(x->bytes); memset(x->mem, 0x5A, x->bytes);
          for (size_t q = 0; q < vals.size(); q++) encode(x->mem + q * ISZ, vals[q]);
          x->orig.assign(x->mem, x->mem + x->bytes);
          bool inv = g.chance(10); size_t usecap = inv ? (vals.size() ? vals.size() - 1 : 0) : size_t(cap);
          base("external").ints("v", vals).i("cp", (long)usecap);
          r = LIB(bl_array_assign_external_data(&A[k], x->mem, vals.size(), usecap, x->ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, ext_destroy, x));
          if (r) { if (x->freed) g_ext_bad++; free(x->mem); delete x; } else g_ext.push_back(x);
          break; }
        case 18: { int v = g.range(1, 99); Items it({v}); base("append").ints("v", std::vector<int>{v}); r = LIB(bl_array_append_item(&A[k], it.at(0))); break; }
        case 19: { if (i >= sz) { e--; continue; } base("appendself").i("i", i).i("n", 1); r = LIB(bl_array_append_item(&A[k], (const uint8_t*)bl_array_get_data(&A[k]) + size_t(i) * ISZ)); break; }
        case 20: { Items it(vals); base("append").ints("v", vals); r = LIB(bl_array_append_data(&A[k], it.at(0), vals.size())); break; }
        case 21: { base("appendself").i("i", i).i("n", cnt); r = LIB(bl_array_append_data(&A[k], (const uint8_t*)bl_array_get_data(&A[k]) + size_t(i) * ISZ, size_t(cnt))); break; }
        case 22: { int v = g.range(1, 99); base("append").ints("v", std::vector<int>{v}); bool done; { dm::Scope s; done = typed_append(k, v, r); } if (!done) { Items it({v}); r = LIB(bl_array_append_item(&A[k], it.at(0))); } break; }
        case 23: { int v = g.range(1, 99); base("insert").i("i", i).ints("v", std::vector<int>{v}); bool done; { dm::Scope s; done = typed_insert(k, size_t(i), v, r); } if (!done) { Items it({v}); r = LIB(bl_array_insert_item(&A[k], size_t(i), it.at(0))); } break; }
        case 24: { Items it(vals); base("insert").i("i", i).ints("v", vals); r = LIB(bl_array_insert_data(&A[k], size_t(i), it.at(0), vals.size())); break; }
        case 25: { int at = g.below(sz + 1); base("insertself").i("at", at).i("i", i).i("n", cnt); r = LIB(bl_array_insert_data(&A[k], size_t(at), (const uint8_t*)bl_array_get_data(&A[k]) + size_t(i) * ISZ, size_t(cnt))); break; }
        case 26: { int v = g.range(1, 99); int at = g.chance(10) ? sz + int(g.below(3)) : i; base("replace1").i("i", at).i("v", v); bool done; { dm::Scope s; done = typed_replace(k, size_t(at), v, r); } if (!done) { Items it({v}); r = LIB(bl_array_replace_item(&A[k], size_t(at), it.at(0))); } break; }
        case 27: { int v = g.range(1, 99); int at = g.chance(10) ? sz + int(g.below(3)) : i; Items it({v}); base("replace1").i("i", at).i("v", v); r = LIB(bl_array_replace_item(&A[k], size_t(at), it.at(0))); break; }
        case 28: { if (i >= sz) { e--; continue; } int at = g.below(sz); base("replaceself1").i("i", at).i("j", i); r = LIB(bl_array_replace_item(&A[k], size_t(at), (const uint8_t*)bl_array_get_data(&A[k]) + size_t(i) * ISZ)); break; }
        case 29: case 30: { int rs = g.below(sz + 3), re = g.below(sz + 3); if (g.chance(60) && rs > re) std::swap(rs, re); Items it(vals); base("replace").i("i", rs).i("j", re).ints("v", vals); r = LIB(bl_array_replace_data(&A[k], size_t(rs), size_t(re), it.at(0), vals.size())); break; }
        case 31: { int rs = g.below(sz + 1), re = g.below(sz + 1); base("replaceself").i("i", rs).i("j", re).i("at", i).i("n", cnt); r = LIB(bl_array_replace_data(&A[k], size_t(rs), size_t(re), (const uint8_t*)bl_array_get_data(&A[k]) + size_t(i) * ISZ, size_t(cnt))); break; }
        case 32: { int at = g.below(sz + 2); base("remove").i("i", at).i("j", at + 1); r = LIB(bl_array_remove_index(&A[k], size_t(at))); break; }
        case 33: { int rs = g.below(sz + 3), re = g.below(sz + 3); if (g.chance(60) && rs > re) std::swap(rs, re); base("remove").i("i", rs).i("j", re); r = LIB(bl_array_remove_range(&A[k], size_t(rs), size_t(re))); break; }
        case 34: { bool q = LIB(bl_array_equals(&A[k], &A[o])); base("equals").i("o", o + 1).b("q", q); break; }
        case 35: { if (g.chance(50)) { size_t huge = SIZE_MAX / size_t(g.pick({1, 2, 3})) - 3; if (g.chance(50)) huge = SIZE_MAX / ISZ - size_t(g.below(20)); base("huge"); switch (g.below(4)) { case 0: r = LIB(bl_array_reserve(&A[k], huge)); break; case 1: r = LIB(bl_array_modify_op(&A[k], BLModifyOp(g.below(4)), huge, &out)); break; case 2: r = LIB(bl_array_insert_op(&A[k], size_t(i), huge, &out)); break; default: { Items it(rv(1)); r = LIB(bl_array_resize(&A[k], huge, it.at(0))); } } }
          else { // destroy and initialise again as a copy / by moving
            if (k == o) { e--; continue; } bool mv = g.chance(50); base(mv ? "move" : "copy").i("o", o + 1); LIB(bl_array_destroy(&A[k])); r = mv ? LIB(bl_array_init_move(&A[k], &A[o])) : LIB(bl_array_init_weak(&A[k], &A[o])); } break; }
      }
      j.b("ok", r == BL_SUCCESS); dm::mark(j, r);
      log_state(j);
      tf.ev(j.done());
    }
    // Destroy everything: no library allocation may remain, every external block released once and read-only memory intact.
    for (int k = 0; k < K; k++) LIB(bl_array_destroy(&A[k]));
    dm::sweep();
    int extbad = 0;
    for (Ext* x : g_ext) { if (x->freed != 1) extbad++; if (x->ro && memcmp(x->mem, x->orig.data(), x->bytes)) extbad++; free(x->mem); delete x; }
    g_ext.clear();
    J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load() + g_ext_bad + extbad); tf.ev(j.done());
    tf.end();
  }
  return 0;
}
