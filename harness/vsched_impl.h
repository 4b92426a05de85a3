// Implementation of the cooperative scheduler (one per program).
#pragma once
#include "vsched.h"
#include <pthread.h>
#include <errno.h>
#include <stdlib.h>
#include <vector>
#include <deque>
#include <map>
extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
namespace vs {
enum State { kRun, kMutex, kCond, kFutex, kJoin, kDone };
struct Th { int id = 0; State st = kRun; const void* on = nullptr; bool timed = false, timeout = false; int prio = 0; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; void* (*fn)(void*) = nullptr; void* arg = nullptr; };
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
static std::deque<Th> all; static Th* cur = nullptr; static thread_local Th* me = nullptr;
static uint64_t rs = 88172645463325252ull; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs >> 11; }
static int sw_per_1000 = 100; static int spurious_per_10000 = 20; static bool prio_mode = false; static uint64_t steps = 0, step_limit = ~0ull; static int same = 0;
static int fail_creates = 0, failed_creates = 0;         // injected failures of pthread_create
static void (*on_stuck)(const char* what) = nullptr;     // must not return
static void (*on_touch)(Th* t, const void* addr) = nullptr;
static bool quiet = false;                               // no switching (used while the driver prepares or records)
static Th* pick(bool with_me) {
  if (spurious_per_10000 && int(rnd() % 10000) < spurious_per_10000 * 3) { std::vector<Th*> b; for (Th& t : all) if (t.st == kFutex || t.st == kCond) b.push_back(&t); if (!b.empty()) { Th* t = b[rnd() % b.size()]; t->timeout = t->timed && rnd() % 2; t->st = kRun; } }
  std::vector<Th*> r; for (Th& t : all) if (t.st == kRun && (with_me || &t != me)) r.push_back(&t);
  if (r.empty()) { for (Th& t : all) if (t.st == kCond && t.timed) { t.timeout = true; t.st = kRun; r.push_back(&t); break; } }
  if (r.empty()) { on_stuck("deadlock"); abort(); }
  if (prio_mode && same < 3000) { Th* b = r[0]; for (Th* t : r) if (t->prio > b->prio) b = t; return b; }
  return r[rnd() % r.size()];
}
static void go(Th* n) { if (n == cur && n == me) { same++; return; } same = 0; cur = n; pthread_cond_signal(&n->cv); if (me) while (cur != me) pthread_cond_wait(&me->cv, &G); }
static void block(State s, const void* on, bool timed = false) { me->st = s; me->on = on; me->timed = timed; me->timeout = false; go(pick(false)); }
static void yield_point() {
  if (++steps > step_limit) { on_stuck("livelock"); abort(); }
  if (quiet) return;
  if (prio_mode) { if (same >= 3000) { me->prio = int(rnd() % 1000) - 1000; } if (int(rnd() % 1000) < 4) me->prio = int(rnd() % 100000); go(pick(true)); }
  else if (int(rnd() % 1000) < sw_per_1000) go(pick(true));
}
struct Lock { Lock() { pthread_mutex_lock(&G); } ~Lock() { pthread_mutex_unlock(&G); } };
static void* tramp(void* p) { Th* t = (Th*)p; pthread_mutex_lock(&G); me = t; while (cur != me) pthread_cond_wait(&me->cv, &G); pthread_mutex_unlock(&G); void* r = t->fn(t->arg);
  pthread_mutex_lock(&G); t->st = kDone; for (Th& x : all) if (x.st == kJoin && x.on == t) x.st = kRun; Th* n = pick(false); cur = n; pthread_cond_signal(&n->cv); me = nullptr; pthread_mutex_unlock(&G); return r; }
static void init() { Lock l; all.emplace_back(); me = cur = &all.back(); me->id = 1; }
static Th* spawn(void* (*fn)(void*), void* arg, pthread_t* h = nullptr, const pthread_attr_t* at = nullptr) { Lock l; all.emplace_back(); Th* t = &all.back(); t->id = int(all.size()); t->fn = fn; t->arg = arg; t->prio = int(rnd() % 100000); pthread_t th; int e = __real_pthread_create(h ? h : &th, at, tramp, t); if (e) { t->st = kDone; return nullptr; } if (!h) pthread_detach(th); return t; }
static void join(Th* t) { Lock l; while (t->st != kDone) block(kJoin, t); }
}
extern "C" {
void vs_point(const void* addr) noexcept { using namespace vs; if (!me) return; Lock l; yield_point(); if (on_touch) on_touch(me, addr); }
void vs_mutex_lock(int* o) noexcept { using namespace vs; if (!me) return; Lock l; yield_point(); if (*o == -1) { on_stuck("mutex used after its destruction"); abort(); } if (on_touch) on_touch(me, o); while (*o) block(kMutex, o); *o = me->id; }
int vs_mutex_trylock(int* o) noexcept { using namespace vs; if (!me) return 1; Lock l; yield_point(); if (on_touch) on_touch(me, o); if (*o) return 0; *o = me->id; return 1; }
void vs_mutex_unlock(int* o) noexcept { using namespace vs; if (!me) return; Lock l; if (*o != me->id) { on_stuck("mutex unlocked by a thread that does not hold it"); abort(); } *o = 0; for (Th& t : all) if (t.st == kMutex && t.on == o) t.st = kRun; yield_point(); }
void vs_mutex_gone(int* o) noexcept { using namespace vs; if (!me) return; if (*o) { Lock l; on_stuck("locked mutex destroyed"); abort(); } *o = -1; }
int vs_cond_wait(void* c, int* o, int timed) noexcept { using namespace vs; if (!me) abort(); Lock l; if (*o != me->id) { on_stuck("condition wait without its mutex"); abort(); } *o = 0; for (Th& t : all) if (t.st == kMutex && t.on == o) t.st = kRun; block(kCond, c, timed != 0); int to = me->timeout; while (*o) block(kMutex, o); *o = me->id; return to; }
void vs_cond_wake(void* c, int every) noexcept { using namespace vs; if (!me) return; Lock l; yield_point(); if (on_touch) on_touch(me, c); std::vector<Th*> w; for (Th& t : all) if (t.st == kCond && t.on == c) w.push_back(&t); if (w.empty()) return; if (every) for (Th* t : w) t->st = kRun; else w[rnd() % w.size()]->st = kRun; }
int vs_futex_wait(uint32_t* a, uint32_t v) noexcept { using namespace vs; if (!me) return 0; Lock l; yield_point(); if (on_touch) on_touch(me, a); if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) return -1; block(kFutex, a); return 0; }
int vs_futex_wake(uint32_t* a, int every) noexcept { using namespace vs; if (!me) return 0; Lock l; yield_point(); std::vector<Th*> w; for (Th& t : all) if (t.st == kFutex && t.on == a) w.push_back(&t); if (w.empty()) return 0; if (every) for (Th* t : w) t->st = kRun; else w[rnd() % w.size()]->st = kRun; return int(every ? w.size() : 1); }
int __wrap_pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  using namespace vs; if (!me) return __real_pthread_create(h, at, fn, arg); if (fail_creates) { fail_creates--; failed_creates++; return EAGAIN; } Th* t = spawn(fn, arg, h, at); if (!t) return EAGAIN; Lock l; yield_point(); return 0; }
}
