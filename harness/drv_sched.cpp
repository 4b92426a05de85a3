// C17: asynchronous rendering, thread pool and worker threads under a controlled scheduler (vsched.h). The build replaces
// the synchronisation primitives of the library by ones that ask the scheduler (harness/shadow).
// --mode batch: contexts in 1..3 user threads; --mode pool: thread pool; --mode thread: single worker threads.
#include "vsched_impl.h"
#include "twinstep.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/threading/thread_p.h>
#include <blend2d/threading/threadpool_p.h>
#include <blend2d/threading/verifhooks_p.h>
using namespace vh;
static TraceFile* TF; static int nev;
static void ev(const J& j) { J k = j; TF->ev(k.done()); nev++; }
static void stuck(const char* what) { J j = J::obj(); j.str("op", "stuck").str("what", what); TF->ev(j.done()); TF->end(); TF->~TraceFile(); _exit(0); }
static void rec(const J& j) { bool q = vs::quiet; vs::quiet = true; ev(j); vs::quiet = q; }

// ---- batch mode ----
struct CtxRec { int nj = 0, nc = 0; bool running = false; std::map<const void*, int> job, cmd; const char* sync = nullptr; size_t sync_size = 0; vs::Th* user = nullptr; };
static CtxRec C[8]; static thread_local int my_ctx;      // index of the context a user thread works with
struct Band { int c = 0, b = -1; std::vector<long> cmds; }; static std::map<int, Band> bands;
static std::map<const void*, int> wd_ctx;                // work data -> context
static bool batch_mode = false;
static void close_band() { auto it = bands.find(vs::me->id); if (it == bands.end()) return; J j = J::obj(); j.str("op", "cmds").i("c", it->second.c).i("w", vs::me->id).i("b", it->second.b).ints("ix", it->second.cmds); ev(j); bands.erase(it); }
static std::map<const void*, int> batch_ctx;
extern "C" void bl_verif_event(unsigned what, const void* s, const void* x, unsigned long v0, unsigned long v1, unsigned long v2) noexcept {
  if (!batch_mode || !vs::me) return;
  bool q = vs::quiet; vs::quiet = true; J j = J::obj();
  switch (what) {
    case BL_VERIF_EVENT_JOB_ADD: { CtxRec& c = C[my_ctx]; c.job[s] = ++c.nj; break; }
    case BL_VERIF_EVENT_COMMAND_ADD: { CtxRec& c = C[my_ctx]; c.cmd[s] = ++c.nc; break; }
    case BL_VERIF_EVENT_FLUSH_BEGIN: { CtxRec& c = C[my_ctx]; c.running = true; c.sync = (const char*)x; c.sync_size = v0; batch_ctx[s] = my_ctx; j.str("op", "flush").i("c", my_ctx).i("w", vs::me->id).i("nj", c.nj).i("nc", c.nc).i("thr", v1).i("nb", v2); ev(j); break; }
    case BL_VERIF_EVENT_FLUSH_END: { CtxRec& c = C[my_ctx]; c.running = false; c.nj = c.nc = 0; c.job.clear(); c.cmd.clear(); batch_ctx.erase(s); j.str("op", "ret").i("c", my_ctx); ev(j); break; }
    case BL_VERIF_EVENT_WORK_BEGIN: case BL_VERIF_EVENT_WORK_END: { close_band(); int c = batch_ctx.count(s) ? batch_ctx[s] : 0; wd_ctx[x] = c; j.str("op", what == BL_VERIF_EVENT_WORK_BEGIN ? "wb" : "we").i("c", c).i("w", vs::me->id); ev(j); break; }
    case BL_VERIF_EVENT_JOB_BEGIN: case BL_VERIF_EVENT_JOB_END: { int c = wd_ctx[x]; auto it = C[c].job.find(s); j.str("op", what == BL_VERIF_EVENT_JOB_BEGIN ? "jb" : "je").i("c", c).i("w", vs::me->id).i("i", it == C[c].job.end() ? 0 : it->second); ev(j); break; }
    case BL_VERIF_EVENT_BAND: { close_band(); int c = wd_ctx[x]; bands[vs::me->id] = {c, int(v0), {}}; j.str("op", "band").i("c", c).i("w", vs::me->id).i("b", long(v0)); ev(j); break; }
    case BL_VERIF_EVENT_COMMAND: { int c = wd_ctx[x]; auto it = C[c].cmd.find(s); bands[vs::me->id].c = c; bands[vs::me->id].cmds.push_back(it == C[c].cmd.end() ? 0 : it->second); break; }
  }
  vs::quiet = q;
  { vs::Lock l; vs::yield_point(); }
}
static void touch(vs::Th* t, const void* addr) {
  if (!batch_mode) return;
  for (int i = 1; i < 8; i++) if (C[i].sync && !C[i].running && t != C[i].user && (const char*)addr >= C[i].sync && (const char*)addr < C[i].sync + C[i].sync_size) { J j = J::obj(); j.str("op", "touch").i("c", i).i("w", t->id); ev(j); }
}
struct Job { int c; uint64_t seed; int len; };
static BLFontFace face; static BLPath big_path(Rng& g, int w, int h) { BLPath p; int n = 3 + g.below(5); for (int i = 0; i < n; i++) { double x = g.range(-8, w + 8), y = g.range(-8, h + 8); if (i == 0) p.move_to(x, y); else if (g.chance(70)) p.line_to(x, y); else p.quad_to(g.below(w), g.below(h), x, y); } p.close(); return p; }
static void* user(void* p) {
  Job jb = *(Job*)p; my_ctx = jb.c; C[jb.c].user = vs::me; Rng g(jb.seed);
  int rounds = 1 + g.below(3);
  for (int r = 0; r < rounds; r++) {
    vs::quiet = true; int w = 8 + g.below(60), h = 8 + g.below(90); if (g.chance(10)) h = 200 + g.below(300), w = 8; BLFormat f = BLFormat(g.pick({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}));
    BLImage A(w, h, f), B(w, h, f); { BLContext x(A); x.clear_all(); x.end(); BLContext y(B); y.clear_all(); y.end(); }
    Sources S; for (BLImage& im : S.im) new_image(g, im, false); S.im[2].reset(); S.im[2].create(3, 5, BL_FORMAT_A8); new_image(g, S.im[2], true); for (auto& x : S.gr) new_gradient(g, x, w, h, false); for (auto& x : S.pt) new_pattern(g, x, S.im[g.below(2)], false); for (auto& x : S.pa) x = big_path(g, w, h); new_dash(g, S.da, false); S.font.create_from_face(face, 8 + g.below(30)); S.gb.set_utf8_text("Bl2d"); S.font.shape(S.gb);
    BLContext s(A); BLContextCreateInfo ci{}; ci.thread_count = 1 + g.below(g.chance(20) ? 8 : 4); if (g.chance(40)) ci.flags |= BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL; if (g.chance(10)) ci.command_queue_limit = 1 + g.below(300);
    vs::quiet = false; BLContext m; m.begin(B, ci); vs::quiet = true; s.set_fill_style(BLRgba32(0xFF123456)); m.set_fill_style(BLRgba32(0xFF123456)); vs::quiet = false;
    int flushes = 1 + g.below(4);
    for (int fl = 0; fl < flushes; fl++) {
      int ops = g.below(g.chance(10) ? 400 : unsigned(jb.len)), style = g.below(4);
      for (int e = 0; e < ops; e++) { Rng q(g.next()); vs::quiet = true; vs::Th* mine = vs::me; (void)mine;
        // quiet: the submitting thread is not interrupted while it queues work (workers idle); flushes run inside step too.
        auto draw = [&](BLContext& c) { Rng z = q; if (style == 0) step(c, z, S, w, h, false); else if (style == 1) { c.fill_path(S.pa[z.below(2)], BLRgba32(uint32_t(z.next()))); } else if (style == 2) c.fill_rect(BLRectI(z.range(-3, w), z.range(-3, h), 1 + z.below(w), 1 + z.below(h)), BLRgba32(uint32_t(z.next()))); else if (z.chance(50)) c.stroke_path(S.pa[z.below(2)], BLRgba32(uint32_t(z.next()))); else c.fill_path(BLPoint(z.below(9), z.below(9)), S.pa[z.below(2)]); };
        draw(s); vs::quiet = false; draw(m); }
      if (fl + 1 < flushes) m.flush(BL_CONTEXT_FLUSH_SYNC); else if (g.chance(70)) m.end(); else m.reset();
    }
    vs::quiet = true; s.end(); C[jb.c].sync = nullptr; { J j = J::obj(); j.str("op", "img").i("c", jb.c).ints("rows", rows(B)).ints("ref", rows(A)); ev(j); } vs::quiet = false;
  }
  return nullptr;
}

// ---- pool and thread modes ----
static std::map<BLThread*, int> tid; static int next_tid; static int id_of(BLThread* t) { auto it = tid.find(t); if (it != tid.end()) return it->second; return tid[t] = ++next_tid; }
struct Item { int id; int n_points; bool ran = false; }; static std::deque<Item> items; static int dummy_word;
static void BL_CDECL work(BLThread* t, void* d) noexcept {
  Item* it = (Item*)d; { J j = J::obj(); j.str("op", "xb").i("t", t ? id_of(t) : 0).i("w", vs::me->id).i("i", it->id); ev(j); }
  for (int i = 0; i < it->n_points; i++) vs_point(&dummy_word);
  { J j = J::obj(); j.str("op", "xe").i("t", t ? id_of(t) : 0).i("w", vs::me->id).i("i", it->id); ev(j); } it->ran = true;
}
static void wait_item(Item* it) { while (!it->ran) vs_point(&dummy_word); }
struct PoolJob { int u; uint64_t seed; int len; BLThreadPool* pool; bool owns; };
static std::vector<BLThread*> shared_threads;
static long run_one(int u, BLThread* t, Rng& g, Item** out = nullptr) {
  items.push_back(Item{int(items.size()) + 1, int(g.below(g.chance(30) ? 60 : 4))}); Item* it = &items.back(); int id = it->id;
  { J j = J::obj(); j.str("op", "run").i("u", u).i("t", id_of(t)).i("i", id); ev(j); }
  BLResult r = t->run(work, it); if (out) *out = r == BL_SUCCESS ? it : nullptr;
  { J j = J::obj(); j.str("op", "ran").i("u", u).i("t", id_of(t)).i("i", id).i("rc", r == BL_SUCCESS ? 0 : r == BL_ERROR_BUSY ? 1 : 2); ev(j); } return r;
}
static void* pool_user(void* p) {
  PoolJob jb = *(PoolJob*)p; Rng g(jb.seed); std::vector<BLThread*> mine; std::vector<Item*> pend;
  for (int e = 0; e < jb.len; e++) {
    int k = g.below(10);
    if (k < 3) {
      uint32_t n = g.below(g.chance(6) ? 70 : 5), fl = g.chance(40) ? BL_THREAD_POOL_ACQUIRE_FLAG_ALL_OR_NOTHING : 0; std::vector<BLThread*> out(n + 1); BLResult why = BL_SUCCESS;
      if (g.chance(15)) { vs::fail_creates = 1 + g.below(3); } int f0 = vs::failed_creates;
      { J j = J::obj(); j.str("op", "acq").i("u", jb.u).i("n", n); ev(j); }
      uint32_t got = jb.pool->acquire_threads(out.data(), n, fl, &why); vs::fail_creates = 0; std::vector<long> ids; if (got > n) got = n + 1; for (uint32_t i = 0; i < got; i++) { ids.push_back(out[i] ? id_of(out[i]) : 0); if (out[i]) mine.push_back(out[i]); }
      { J j = J::obj(); j.str("op", "got").i("u", jb.u).i("n", n).i("all", fl != 0).ints("ids", ids).i("why", why == BL_SUCCESS ? 0 : why == BL_ERROR_THREAD_POOL_EXHAUSTED ? 1 : 2).i("inj", vs::failed_creates - f0); ev(j); }
      if (std::count(ids.begin(), ids.end(), 0L)) stuck("null thread acquired");
    }
    else if (k < 6 && !mine.empty()) { Item* it; run_one(jb.u, mine[g.below(unsigned(mine.size()))], g, &it); if (it) { if (g.chance(60)) wait_item(it); else pend.push_back(it); } }
    else if (k < 8 && !mine.empty()) {
      for (Item* it : pend) wait_item(it); pend.clear(); unsigned n = 1 + g.below(unsigned(mine.size())); if (g.chance(5)) n = 0; std::vector<BLThread*> r; for (unsigned i = 0; i < n; i++) { unsigned x = g.below(unsigned(mine.size())); r.push_back(mine[x]); mine.erase(mine.begin() + x); }
      std::vector<long> ids; for (auto t : r) ids.push_back(id_of(t)); { J j = J::obj(); j.str("op", "rel").i("u", jb.u).ints("ids", ids); ev(j); }
      jb.pool->release_threads(r.data(), n); { J j = J::obj(); j.str("op", "reld").i("u", jb.u).ints("ids", ids); ev(j); }
    }
    else if (k < 9) { { J j = J::obj(); j.str("op", "cln").i("u", jb.u); ev(j); } uint32_t n = jb.pool->virt->cleanup(jb.pool, 0); J j = J::obj(); j.str("op", "clnd").i("u", jb.u).i("n", n); ev(j); }
    else { uint32_t n = jb.pool->pooled_thread_count(); (void)n; for (int i = g.below(10); i > 0; i--) vs_point(&dummy_word); }
  }
  for (Item* it : pend) wait_item(it);
  if (!mine.empty()) { std::vector<long> ids; for (auto t : mine) ids.push_back(id_of(t)); { J j = J::obj(); j.str("op", "rel").i("u", jb.u).ints("ids", ids); ev(j); } jb.pool->release_threads(mine.data(), uint32_t(mine.size())); { J j = J::obj(); j.str("op", "reld").i("u", jb.u).ints("ids", ids); ev(j); } }
  jb.pool->release();
  return nullptr;
}
static int exits;
static void BL_CDECL thread_exit(BLThread* t, void*) noexcept { { J j = J::obj(); j.str("op", "exit").i("t", id_of(t)).i("w", vs::me->id); ev(j); } exits++; tid.erase(t); t->destroy(); }
struct ThreadJob { int u; uint64_t seed; int len; BLThread* t; };
static void* thread_user(void* p) { ThreadJob jb = *(ThreadJob*)p; Rng g(jb.seed); for (int e = 0; e < jb.len; e++) { Item* it; run_one(jb.u, jb.t, g, &it); if (it && g.chance(50)) wait_item(it); else for (int i = g.below(20); i > 0; i--) vs_point(&dummy_word); } return nullptr; }

int main(int argc, char** argv) {
  Args a(argc, argv); Rng g(a.seed); TraceFile tf(a.out); TF = &tf; vs::rs ^= a.seed * 0x9E3779B97F4A7C15ull; bl_runtime_init(); vs::init(); vs::on_stuck = stuck; vs::on_touch = touch;
  vs::quiet = true; BLFontData fd; fd.create_from_data(resource_abeezee_regular_ttf, sizeof(resource_abeezee_regular_ttf)); face.create_from_data(fd, 0); vs::quiet = false;
  bool batch = a.mode == "batch", pool = a.mode == "pool";
  for (int t = 0; t < a.n; t++) {
    where("trace " + std::to_string(t + 1)); vs::prio_mode = g.chance(40); vs::sw_per_1000 = g.pick({500, 200, 50, 10}); vs::spurious_per_10000 = g.pick({0, 5, 30}); vs::steps = 0; vs::step_limit = 30000000; tf.begin();
    int nu = 1 + (g.chance(50) ? 0 : g.below(3)); std::vector<vs::Th*> th;
    { J j = J::obj(); j.str("op", "new").str("mode", a.mode).i("u", nu); ev(j); }
    if (batch) {
      static Job jobs[8]; batch_mode = true; for (auto& c : C) c = CtxRec(); bands.clear(); batch_ctx.clear(); wd_ctx.clear();
      for (int u = 1; u <= nu; u++) { jobs[u] = {u, g.next(), a.len}; th.push_back(vs::spawn(user, &jobs[u])); } for (auto x : th) vs::join(x); batch_mode = false;
    }
    else if (pool) {
      static PoolJob jobs[8]; items.clear(); tid.clear(); next_tid = 0; BLThreadPool* P = bl_thread_pool_create(); size_t before = vs::all.size(); size_t known = before;
      for (int u = 1; u <= nu; u++) { jobs[u] = {u, g.next(), 3 + int(g.below(unsigned(a.len))), P, false}; P->add_ref(); } for (int u = 1; u <= nu; u++) th.push_back(vs::spawn(pool_user, &jobs[u])); if (g.chance(50)) { P->release(); for (auto x : th) vs::join(x); } else { for (auto x : th) vs::join(x); long n = P->pooled_thread_count(); J j = J::obj(); j.str("op", "quiet").i("pooled", n); ev(j); P->release(); }
      for (size_t i = known; i < vs::all.size(); i++) { bool u = false; for (auto x : th) if (x == &vs::all[i]) u = true; if (!u) vs::join(&vs::all[i]); }
      J j = J::obj(); j.str("op", "gone"); ev(j);
    }
    else {
      static ThreadJob jobs[8]; items.clear(); tid.clear(); next_tid = 0; BLThread* T = nullptr; BLThreadAttributes at{}; exits = 0; size_t known = vs::all.size(); if (bl_thread_create(&T, &at, thread_exit, nullptr) != BL_SUCCESS) stuck("thread not created"); vs::Th* os = &vs::all[known]; id_of(T);
      for (int u = 1; u <= nu; u++) { jobs[u] = {u, g.next(), 1 + int(g.below(unsigned(a.len))), T}; th.push_back(vs::spawn(thread_user, &jobs[u])); }
      for (auto x : th) vs::join(x); Item* last = nullptr; if (g.chance(50)) run_one(9, T, g, &last);
      { J j = J::obj(); j.str("op", "quit").i("t", id_of(T)); ev(j); } T->quit(); vs::join(os); J j = J::obj(); j.str("op", "gone"); ev(j);
    }
    tf.end();
  }
  TF->~TraceFile(); _exit(0);
}
