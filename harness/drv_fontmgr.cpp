// C31: histories of font managers: faces made up on the spot, queries by name and properties, additions by several threads.
#include "vh.h"
#include "dbgmalloc.h"
#include "ttf.h"
#include <pthread.h>
using namespace vh;
static const int K = 3;
struct Face { BLFontFaceCore f; std::string fam; int style, weight, stretch; std::vector<uint8_t> bytes; };
static std::vector<Face*> faces;
static int id_of(const BLFontFaceCore& f) { for (size_t i = 0; i < faces.size(); i++) if (faces[i]->f._d.impl == f._d.impl) return int(i) + 1; return ((const BLFontFace&)f).is_valid() ? -1 : 0; }
static std::string codes(const std::string& s) { J a = J::arr(); for (unsigned char c : s) a.addi(c); return a.done(); }
static std::string vary(Rng& g, std::string s) { for (auto& c : s) if (isalpha((unsigned char)c) && g.chance(30)) c = char(c ^ 32); return s; }
struct Q { std::string name; bool props; BLFontQueryProperties p; bool z; };
static Q query(Rng& g) { Q q{faces[g.below(unsigned(faces.size()))]->fam, g.chance(75), {}, g.chance(30)}; int r = int(g.below(10)); if (r < 4) q.name = vary(g, q.name); else if (r == 4 && !q.name.empty()) q.name.pop_back(); else if (r == 5) q.name += "x"; else if (r == 6) q.name = ""; else if (r == 7 && !q.name.empty()) q.name[g.below(unsigned(q.name.size()))] ^= char(1 << g.below(7));
  if (q.z) q.name = q.name.substr(0, q.name.find('\0')); Face* f = faces[g.below(unsigned(faces.size()))]; q.p.style = g.chance(40) ? uint32_t(f->style) : g.below(3); q.p.weight = g.chance(40) ? uint32_t(f->weight) : g.chance(80) ? 1 + g.below(1000) : 0; q.p.stretch = g.chance(40) ? uint32_t(f->stretch) : g.below(10); if (g.chance(8)) { int k = int(g.below(3)); if (k == 0) q.p.style = 3 + g.below(300); else if (k == 1) q.p.weight = 1001 + g.below(5000); else q.p.stretch = 10 + g.below(300); } return q; }
static BLResult ask(const BLFontManagerCore* m, const Q& q, BLFontFaceCore* out) { return bl_font_manager_query_face(m, q.name.data(), q.z ? SIZE_MAX : q.name.size(), q.props ? &q.p : nullptr, out); }
static std::string log(const Q& q) { J j = J::obj(); j.raw("name", codes(q.name)).b("props", q.props).i("style", q.p.style).i("weight", q.p.weight).i("stretch", q.p.stretch); return j.done(); }
struct Job { BLFontManagerCore m; std::vector<int> add; std::vector<Q> qs; std::vector<int> res; bool ok; pthread_barrier_t* bar; };
static void* worker(void* p) { auto* j = (Job*)p; pthread_barrier_wait(j->bar); j->ok = true; for (size_t i = 0; i < std::max(j->add.size(), j->qs.size()); i++) { if (i < j->add.size()) j->ok &= bl_font_manager_add_face(&j->m, &faces[size_t(j->add[i]) - 1]->f) == BL_SUCCESS; if (i < j->qs.size()) { BLFontFaceCore f; bl_font_face_init(&f); BLResult r = ask(&j->m, j->qs[i], &f); j->res.push_back(r == BL_SUCCESS ? id_of(f) : r == BL_ERROR_FONT_NO_MATCH ? 0 : -2); bl_font_face_destroy(&f); } } bl_font_manager_destroy(&j->m); return nullptr; }
int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); bl_runtime_init(); dm::counting = 1; dm::inject_p = a.extra;
  static const std::vector<std::string> stems = {"Sans", "sans", "SANS", "sAns", "Serif Pro", "serif pro", "Mono-9 @[", "mono-9 `{", "A", "a", "b", "Very Long Family Name That Does Not Fit Inline", "very long family name that does not fit inline"};
  for (int t = 0; t < a.n; t++) {
    dm::disarm(); bool one = g.chance(25); std::string onefam = g.pick(stems); int nf = 6 + int(g.below(20)) + (one ? 14 : 0), many = !one && g.chance(15) ? 60 : 0; std::vector<int> ws = {10, 100, 300, 400, 401, 500, 700, 900, 999};
    for (int i = 0; i < nf + many; i++) { Face* f = new Face; if (i && g.chance(25)) { Face* o = faces[g.below(unsigned(faces.size()))]; *f = *o; if (g.chance(40)) f->stretch = int(1 + g.below(9)); else if (g.chance(40)) f->weight = g.pick(ws); else if (g.chance(30)) f->fam = vary(g, f->fam); } else { f->fam = i >= nf ? "F" + std::to_string(i) : one && g.chance(80) ? vary(g, onefam) : g.pick(stems); f->style = int(g.below(3)); f->weight = g.pick(ws); f->stretch = g.chance(50) ? 5 : int(1 + g.below(9)); }
      f->bytes = ttf::build(ttf::basic(3, f->fam, f->weight, f->stretch, f->style)); BLFontDataCore d; bl_font_data_init(&d); bl_font_data_create_from_data(&d, f->bytes.data(), f->bytes.size(), nullptr, nullptr); bl_font_face_init(&f->f); if (bl_font_face_create_from_data(&f->f, &d, 0) != BL_SUCCESS) { fprintf(stderr, "font refused\n"); return 9; } bl_font_data_destroy(&d); faces.push_back(f); }
    long live0 = dm::live.load(); BLFontManagerCore m[K]; for (auto& x : m) bl_font_manager_init(&x);
    tf.begin(); { J j = J::obj(); J fs = J::arr(); for (auto* f : faces) { J o = J::obj(); const BLFontFaceImpl* im = ((BLFontFace&)f->f)._impl(); o.raw("fam", codes(f->fam)).i("style", f->style).i("weight", f->weight).i("stretch", f->stretch).b("seen", im->style == f->style && im->weight == f->weight && im->stretch == f->stretch && ((const BLString&)im->family_name).equals(f->fam.c_str())); fs.add(o.done()); } j.str("op", "init").raw("faces", fs.done()); tf.ev(j.done()); }
    int L = a.len / 2 + int(g.below(unsigned(a.len))) + (one ? a.len / 2 : 0);
    for (int e = 0; e < L; e++) {
      int k = int(g.below(K)), o = int(g.below(K)), op = int(g.below(24)); if (one && g.chance(60)) { k = 0; op = g.chance(75) ? 4 + 1 + int(g.below(8)) : 14 + int(g.below(8)); } J j = J::obj(); BLResult r = 0; dm::arm(g);
      auto base = [&](const char* nm) -> J& { where("trace " + std::to_string(t + 1) + " event " + std::to_string(e + 2) + " " + nm); return j.str("op", nm).i("s", k + 1); };
      if (op == 0) { base("create"); if (g.chance(50)) r = LIB(bl_font_manager_create(&m[k])); else { BLFontManagerCore n; r = LIB(bl_font_manager_init_new(&n)); if (r == BL_SUCCESS) LIB(bl_font_manager_assign_move(&m[k], &n)); LIB(bl_font_manager_destroy(&n)); } }
      else if (op == 1) { base("reset"); r = LIB(bl_font_manager_reset(&m[k])); }
      else if (op < 4) { base("copy").i("o", o + 1); r = LIB(bl_font_manager_assign_weak(&m[k], &m[o])); }
      else if (op == 4) { base("move").i("o", o + 1); r = LIB(bl_font_manager_assign_move(&m[k], &m[o])); }
      else if (op < 13) { int f = int(1 + g.below(unsigned(faces.size()))); base("add").i("f", f); r = LIB(bl_font_manager_add_face(&m[k], &faces[size_t(f) - 1]->f)); }
      else if (op == 13) { dm::disarm(); base("addnone"); BLFontFaceCore f; bl_font_face_init(&f); r = LIB(bl_font_manager_add_face(&m[k], &f)); bl_font_face_destroy(&f); }
      else if (op < 19) { Q q = query(g); base("query").raw("q", log(q)); BLFontFaceCore out; int was = g.chance(50) ? 0 : int(1 + g.below(unsigned(faces.size()))); bl_font_face_init(&out); if (was) bl_font_face_assign_weak(&out, &faces[size_t(was) - 1]->f); r = LIB(ask(&m[k], q, &out)); j.i("was", was).i("got", id_of(out)).b("nomatch", r == BL_ERROR_FONT_NO_MATCH).b("inv", r == BL_ERROR_INVALID_VALUE); bl_font_face_destroy(&out); }
      else if (op < 22) { Q q = query(g); base("faces").raw("name", codes(q.name)); BLArray<BLFontFace> out; if (g.chance(50)) out.append((const BLFontFace&)faces[0]->f); r = LIB(bl_font_manager_query_faces_by_family_name(&m[k], q.name.data(), q.z ? SIZE_MAX : q.name.size(), &out)); J l = J::arr(); for (auto& f : out) l.addi(id_of(f)); j.raw("got", l.done()).b("nomatch", r == BL_ERROR_FONT_NO_MATCH); if (g.chance(30)) out.clear(); }
      else if (dm::inject_p || !((BLFontManager&)m[k]).is_valid()) continue;
      else { int nt = 2 + int(g.below(3)); base("par"); pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, unsigned(nt)); std::vector<Job> js((size_t(nt))); std::vector<pthread_t> th((size_t(nt))); J al = J::arr(), ql = J::arr();
        for (auto& x : js) { x.bar = &bar; bl_font_manager_init_weak(&x.m, &m[k]); for (int i = int(g.below(8)); i > 0; i--) { x.add.push_back(int(1 + g.below(unsigned(faces.size())))); al.addi(x.add.back()); } for (int i = int(g.below(8)); i > 0; i--) x.qs.push_back(query(g)); }
        for (int i = 0; i < nt; i++) pthread_create(&th[size_t(i)], nullptr, worker, &js[size_t(i)]); bool ok = true;
        for (int i = 0; i < nt; i++) { pthread_join(th[size_t(i)], nullptr); auto& x = js[size_t(i)]; ok &= x.ok; for (size_t q = 0; q < x.qs.size(); q++) { J o2 = J::obj(); o2.raw("q", log(x.qs[q])).i("r", x.res[q]); ql.add(o2.done()); } } pthread_barrier_destroy(&bar); j.raw("adds", al.done()).raw("qs", ql.done()).b("allok", ok); }
      j.b("ok", r == BL_SUCCESS); dm::mark(j, r); dm::disarm(); J st = J::arr();
      for (int i = 0; i < K; i++) { J s = J::obj(); J h = J::arr(); for (size_t f = 0; f < faces.size(); f++) if (bl_font_manager_has_face(&m[i], &faces[f]->f)) h.addi((long long)f + 1); J eq = J::arr(); for (int q = 0; q < K; q++) if (bl_font_manager_equals(&m[i], &m[q])) eq.addi(q + 1); s.b("valid", ((BLFontManager&)m[i]).is_valid()).raw("held", h.done()).i("n", (long long)bl_font_manager_get_face_count(&m[i])).i("fams", (long long)bl_font_manager_get_family_count(&m[i])).raw("eq", eq.done()); st.add(s.done()); }
      j.raw("st", st.done()).i("bad", dm::bad.load()); tf.ev(j.done());
    }
    dm::disarm(); for (auto& x : m) LIB(bl_font_manager_destroy(&x)); dm::sweep(); { J j = J::obj(); j.str("op", "end").i("live", dm::live.load() - live0).i("bad", dm::bad.load()); tf.ev(j.done()); } tf.end();
    for (auto* f : faces) { bl_font_face_destroy(&f->f); delete f; } faces.clear();
  }
  dm::counting = 0;
}
