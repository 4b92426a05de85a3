// C02: histories of string operations.
#include "vh.h"
#include "dbgmalloc.h"
using namespace vh;
static const int K = 3;
static BLStringCore S[K];
static int g_bad;

static std::vector<int> content(int k) { std::vector<int> r; size_t n = bl_string_get_size(&S[k]); const char* d = bl_string_get_data(&S[k]); if (n > 1000000) { r.push_back(-9); return r; } for (size_t i = 0; i < n; i++) r.push_back((unsigned char)d[i]); return r; }
static void log_state(J& j) {
  std::string st = "["; std::vector<long> caps, term;
  for (int k = 0; k < K; k++) { if (k) st += ','; st += '['; auto c = content(k); for (size_t i = 0; i < c.size(); i++) { if (i) st += ','; st += std::to_string(c[i]); } st += ']';
    size_t cp = bl_string_get_capacity(&S[k]); caps.push_back(cp > 10000000 ? 10000000 : long(cp)); term.push_back((unsigned char)bl_string_get_data(&S[k])[bl_string_get_size(&S[k])]); }
  st += ']'; j.raw("st", st).ints("cap", caps).ints("term", term).i("bad", dm::bad.load() + g_bad);
}
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); dm::counting = 1; dm::inject_p = a.extra;
  for (int t = 0; t < a.n; t++) {
    for (int k = 0; k < K; k++) LIB(bl_string_init(&S[k]));
    long live0 = dm::live.load();
    tf.begin();
    int maxlen = g.pick({16, 16, 34, 34, 120}), alpha = g.pick({2, 5, 256});
    int L = a.len / 2 + g.below(a.len);
    auto rb = [&]() { int c = alpha == 256 ? g.below(256) : (alpha == 2 ? g.pick({'a', 200}) : g.pick({0, 'a', 'b', 127, 128, 255})); return c; };
    auto rv = [&](int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(rb()); return v; };
    for (int e = 0; e < L; e++) {
      int k = g.below(K), o = g.below(K); size_t n = bl_string_get_size(&S[k]); int sz = int(n);
      std::vector<int> vals = rv(g.chance(60) ? g.below(5) : g.below(maxlen)); if (sz > maxlen * 2) vals.resize(0);
      std::string vs; for (int x : vals) vs += char(x);
      bool zt = g.chance(30) && vs.find('\0') == std::string::npos; size_t vn = zt ? SIZE_MAX : vs.size();
      // exact-size heap copy so that over-reads hit the canary
      std::vector<char> vbuf(vs.begin(), vs.end()); vbuf.push_back(zt ? '\0' : 'Z'); const char* vp = vbuf.data();
      int i = g.below(sz + 1), cnt = g.below(sz - i + 1);
      BLModifyOp as = g.chance(50) ? BL_MODIFY_OP_ASSIGN_FIT : BL_MODIFY_OP_ASSIGN_GROW, ap = g.chance(50) ? BL_MODIFY_OP_APPEND_FIT : BL_MODIFY_OP_APPEND_GROW;
      bool app = g.chance(60); BLModifyOp mo = app ? ap : as; const char* mon = app ? "append" : "assign";
      dm::arm(g); BLResult r = 0; J j = J::obj(); char* out = nullptr;
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 1) + " " + nm); return j.str("op", nm).i("s", k + 1); };
      switch (g.below(30)) {
        case 0: base("clear"); r = LIB(bl_string_clear(&S[k])); break;
        case 1: base("reset"); r = LIB(bl_string_reset(&S[k])); break;
        case 2: base("shrink"); r = LIB(bl_string_shrink(&S[k])); break;
        case 3: { int m = g.chance(50) ? g.below(maxlen * 2) : sz + int(g.below(4)); base("reserve").i("n", m); r = LIB(bl_string_reserve(&S[k], size_t(m))); break; }
        case 4: { int m = g.chance(50) ? g.below(maxlen) : std::max(0, sz + g.range(-3, 3)); int c = rb(); base("resize").i("n", m).i("v", c); r = LIB(bl_string_resize(&S[k], size_t(m), char(c))); break; }
        case 5: { if (i >= sz) { e--; continue; } int c = rb(); base("put").i("i", i).i("v", c); r = LIB(bl_string_make_mutable(&S[k], &out)); if (!r) out[i] = char(c); break; }
        case 6: { base(mon).ints("v", vals); r = LIB(bl_string_modify_op(&S[k], mo, vals.size(), &out)); if (!r) memcpy(out, vp, vals.size()); break; }
        case 7: { base("insert").i("i", i).ints("v", vals); r = LIB(bl_string_insert_op(&S[k], size_t(i), vals.size(), &out)); if (!r) memcpy(out, vp, vals.size()); break; }
        case 8: base("move").i("o", o + 1); r = LIB(bl_string_assign_move(&S[k], &S[o])); break;
        case 9: case 10: case 11: base("copy").i("o", o + 1); r = LIB(bl_string_assign_weak(&S[k], &S[o])); break;
        case 12: base("copy").i("o", o + 1); r = LIB(bl_string_assign_deep(&S[k], &S[o])); break;
        case 13: base("assign").ints("v", vals); r = LIB(bl_string_assign_data(&S[k], vp, vn)); break;
        case 14: base("assignself").i("i", i).i("n", cnt); r = LIB(bl_string_assign_data(&S[k], bl_string_get_data(&S[k]) + i, size_t(cnt))); break;
        case 15: { int m = g.below(6), c = rb(); std::vector<int> v(size_t(m), c); base(mon).ints("v", v); r = LIB(bl_string_apply_op_char(&S[k], mo, char(c), size_t(m))); break; }
        case 16: base(mon).ints("v", vals); r = LIB(bl_string_apply_op_data(&S[k], mo, vp, vn)); break;
        case 17: base(app ? "appendself" : "assignself").i("i", i).i("n", cnt); r = LIB(bl_string_apply_op_data(&S[k], mo, bl_string_get_data(&S[k]) + i, size_t(cnt))); break;
        case 18: base(app ? "appendof" : "copy").i("o", o + 1); if (app && sz > maxlen * 2) { j = J::obj(); e--; continue; } r = LIB(bl_string_apply_op_string(&S[k], mo, &S[o])); break;
        case 19: { // formatted text: "<n>:<bytes>" without zero bytes
          std::string txt; for (char c : vs) if (c) txt += c; if (g.chance(4)) txt = std::string(1000 + g.below(60), 'q'); else if (a.extra && g.chance(50)) { if (g.chance(70)) dm::disarm(), bl_string_reserve(&S[k], size_t(sz) + 64 + g.below(20)), dm::arm(g); txt = std::string(60 + g.below(60), 'q'); } int num = g.range(-5, 1200);
          std::string full = std::to_string(num) + ":" + txt; std::vector<int> v; for (char c : full) v.push_back((unsigned char)c);
          base(mon).ints("v", v); r = LIB(bl_string_apply_op_format(&S[k], mo, "%d:%s", num, txt.c_str())); break; }
        case 20: { int m = g.below(6), c = rb(); std::vector<int> v(size_t(m), c); base("insert").i("i", i).ints("v", v); r = LIB(bl_string_insert_char(&S[k], size_t(i), char(c), size_t(m))); break; }
        case 21: base("insert").i("i", i).ints("v", vals); r = LIB(bl_string_insert_data(&S[k], size_t(i), vp, vn)); break;
        case 22: { int at = g.below(sz + 1); base("insertself").i("at", at).i("i", i).i("n", cnt); r = LIB(bl_string_insert_data(&S[k], size_t(at), bl_string_get_data(&S[k]) + i, size_t(cnt))); break; }
        case 23: { if (sz > maxlen * 2) { e--; continue; } base("insertof").i("i", i).i("o", o + 1); r = LIB(bl_string_insert_string(&S[k], size_t(i), &S[o])); break; }
        case 24: { int at = g.below(sz + 2); base("remove").i("i", at).i("j", at + 1); r = LIB(bl_string_remove_index(&S[k], size_t(at))); break; }
        case 25: { int rs = g.below(sz + 3), re = g.below(sz + 3); if (g.chance(60) && rs > re) std::swap(rs, re); base("remove").i("i", rs).i("j", re); r = LIB(bl_string_remove_range(&S[k], size_t(rs), size_t(re))); break; }
        case 26: { bool q = bl_string_equals(&S[k], &S[o]); int c = bl_string_compare(&S[k], &S[o]); base("compare").i("o", o + 1).b("q", q).i("c", c < 0 ? -1 : c > 0); break; }
        case 27: { // compare with a near copy of itself as data
          std::vector<int> v = content(k); if (g.chance(60) && !v.empty()) { if (g.chance(50)) v.resize(g.below(sz + 1)); else v[g.below(sz)] = rb(); } if (g.chance(20)) v.push_back(rb());
          std::vector<char> b; bool z = false; for (int x : v) { b.push_back(char(x)); z |= x == 0; } bool term = !z && g.chance(50); b.push_back(term ? '\0' : 'Y');
          bool q = bl_string_equals_data(&S[k], b.data(), term ? SIZE_MAX : v.size()); int c = bl_string_compare_data(&S[k], b.data(), term ? SIZE_MAX : v.size());
          base("comparedata").ints("v", v).b("q", q).i("c", c < 0 ? -1 : c > 0); break; }
        case 28: { int c = rb(), from = g.below(sz + 3); const BLString& s = reinterpret_cast<const BLString&>(S[k]); auto ix = [](size_t x) { return x == SIZE_MAX ? -1LL : (long long)x; };
          base("find").i("v", c).i("i", from).ints("q", std::vector<long long>{ix(s.index_of(char(c))), ix(s.index_of(char(c), size_t(from))), ix(s.last_index_of(char(c))), ix(s.last_index_of(char(c), size_t(from)))}); break; }
        case 29: { if (g.chance(40)) { size_t huge = g.chance(50) ? SIZE_MAX / 2 : SIZE_MAX - 3; base("huge"); switch (g.below(5)) { case 0: r = LIB(bl_string_reserve(&S[k], huge)); break; case 1: r = LIB(bl_string_modify_op(&S[k], mo, huge, &out)); break; case 2: r = LIB(bl_string_insert_op(&S[k], size_t(i), huge, &out)); break; case 3: r = LIB(bl_string_apply_op_char(&S[k], mo, 'a', huge)); break; default: r = LIB(bl_string_resize(&S[k], huge, 'a')); } }
          else { if (k == o) { e--; continue; } int w = g.below(3); base(w == 0 ? "move" : w == 1 ? "copy" : "assign").i("o", o + 1).ints("v", vals); dm::disarm(); LIB(bl_string_destroy(&S[k])); r = w == 0 ? LIB(bl_string_init_move(&S[k], &S[o])) : w == 1 ? LIB(bl_string_init_weak(&S[k], &S[o])) : LIB(bl_string_init_with_data(&S[k], vp, vn)); } break; }
      }
      j.b("ok", r == BL_SUCCESS); dm::mark(j, r); log_state(j); tf.ev(j.done());
    }
    for (int k = 0; k < K; k++) LIB(bl_string_destroy(&S[k]));
    dm::sweep();
    J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load() + g_bad); tf.ev(j.done());
    tf.end();
  }
}
