// Malloc stand-in for harness processes: live-block accounting, overflow canaries, poisoned quarantine and
// allocation-failure injection.  Include in exactly one translation unit of a driver.
#pragma once
#ifndef BL_VERIF_ASAN
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <atomic>
#include <stdlib.h>
#include <unistd.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);

namespace dm {
struct Hdr { uint64_t magic; uint64_t size; void* base; uint32_t tag; uint32_t pad; };
static const uint64_t kLive = 0xA110CA7EDB10C0DEull, kDead = 0xDEADB10CDEADB10Cull;
static const size_t kTail = 32;
inline std::atomic<long> live{0}, bad{0}, allocs{0}, failed{0};
inline std::atomic<long> fail_at{-1};      // fail the n-th counted allocation (0-based), -1 = never
inline std::atomic<long> fail_count{1};    // how many consecutive allocations fail
inline std::atomic<int> counting{0};       // only allocations made while counting are counted/failed
inline thread_local int in_lib = 0;        // >0 while the calling thread is inside the library under test
inline std::atomic<int> all_threads{0};    // count the allocations of every thread
inline const char* volatile last_bad = "";
static const int kQ = 256;
inline void* quarantine[kQ]; inline int qpos = 0;
inline std::atomic_flag qlock = ATOMIC_FLAG_INIT;
inline void note(const char* m) { bad.fetch_add(1); last_bad = m; }

inline void check_dead(Hdr* h) {
  const unsigned char* p = (const unsigned char*)(h + 1);
  size_t n = h->size < 512 ? h->size : 512;
  if (h->magic != kDead) { note("freed block header overwritten"); return; }
  for (size_t i = 0; i < n; i++) if (p[i] != 0xDD) { note("write to freed memory"); return; }
}
inline void* alloc(size_t n, size_t align) {
  bool counted = (in_lib > 0 || all_threads.load(std::memory_order_relaxed)) && counting.load(std::memory_order_relaxed);
  if (counted) {
    long k = allocs.fetch_add(1);
    long f = fail_at.load(std::memory_order_relaxed);
    if (f >= 0 && k >= f && k < f + fail_count.load(std::memory_order_relaxed)) { failed.fetch_add(1); errno = ENOMEM; return nullptr; }
  }
  if (n > (size_t(1) << 40)) { errno = ENOMEM; return nullptr; }
  if (align < 16) align = 16;
  void* base = __libc_malloc(n + align + sizeof(Hdr) + kTail);
  if (!base) return nullptr;
  uintptr_t p = (uintptr_t(base) + sizeof(Hdr) + align - 1) & ~uintptr_t(align - 1);
  Hdr* h = (Hdr*)p - 1;
  h->magic = kLive; h->size = n; h->base = base; h->tag = counted; h->pad = 0;
  memset((void*)p, 0xCD, n < 4096 ? n : 4096);
  memset((void*)(p + n), 0xFB, kTail);
  if (counted) live.fetch_add(1);
  return (void*)p;
}
inline void release(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != kLive) { note(h->magic == kDead ? "double free" : "free of a foreign or corrupted block"); return; }
  const unsigned char* t = (const unsigned char*)p + h->size;
  for (size_t i = 0; i < kTail; i++) if (t[i] != 0xFB) { note("write past the end of a block"); break; }
  if (h->tag) live.fetch_sub(1);
  h->magic = kDead;
  memset(p, 0xDD, h->size < 65536 ? h->size : 65536);
  if (h->size > 65536) { __libc_free(h->base); return; }
  while (qlock.test_and_set(std::memory_order_acquire)) {}
  void* old = quarantine[qpos]; quarantine[qpos] = p; qpos = (qpos + 1) % kQ;
  qlock.clear(std::memory_order_release);
  if (old) { Hdr* oh = (Hdr*)old - 1; check_dead(oh); __libc_free(oh->base); }
}
inline void sweep() { // verify every quarantined block
  while (qlock.test_and_set(std::memory_order_acquire)) {}
  for (int i = 0; i < kQ; i++) if (quarantine[i]) check_dead((Hdr*)quarantine[i] - 1);
  qlock.clear(std::memory_order_release);
}
struct Scope { Scope() { in_lib++; } ~Scope() { in_lib--; } };
} // namespace dm

extern "C" {
void* malloc(size_t n) { return dm::alloc(n, 16); }
void free(void* p) { dm::release(p); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = dm::alloc(n, 16); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
  if (!p) return dm::alloc(n, 16);
  size_t o = ((dm::Hdr*)p - 1)->size; void* q = dm::alloc(n, 16); if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n); dm::release(p); return q;
}
void* memalign(size_t a, size_t n) { return dm::alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return dm::alloc(n, a); }
int posix_memalign(void** out, size_t a, size_t n) { void* p = dm::alloc(n, a); if (!p) return ENOMEM; *out = p; return 0; }
size_t malloc_usable_size(void* p) { return p ? ((dm::Hdr*)p - 1)->size : 0; }
}
// Marks a call into the library so that its allocations are accounted for.
#define LIB(expr) ([&]() { dm::Scope _s; return (expr); }())
#else // AddressSanitizer has its own allocator: nothing is counted
#include <atomic>
namespace dm {
inline std::atomic<long> live{0}, bad{0}, allocs{0}, failed{0}, fail_at{-1}, fail_count{1};
inline std::atomic<int> counting{0};
inline std::atomic<int> all_threads{0};
inline thread_local int in_lib = 0;
inline const char* volatile last_bad = "";
inline void sweep() {}
struct Scope { Scope() { in_lib++; } ~Scope() { in_lib--; } };
} // namespace dm
#define LIB(expr) ([&]() { dm::Scope _s; return (expr); }())
#endif
// Allocation failures: with inject_p > 0, some operations run with an allocation (and perhaps all later ones) failing.
namespace dm {
inline int inject_p = 0;
template<class R> inline void arm(R& g) { fail_at = -1; failed = 0; if (!inject_p || !g.chance(inject_p)) return; long k = g.below(4); k = k * g.below(3); fail_count = g.chance(60) ? 1 : 1000000; fail_at = allocs + k; }
inline bool disarm() { fail_at = -1; return failed.exchange(0) > 0; }
// "ff": an allocation failed during the operation; "oom": the operation reported that.
template<class J> inline void mark(J& j, unsigned r) { bool f = disarm(); j.b("ff", f).b("oom", r == 65536u); }
} // namespace dm
