// Cooperative scheduler used by the `sched` variants: exactly one thread runs at a time, every synchronisation
// primitive of the library (through harness/shadow) is a point where the scheduler may switch to another thread.
#pragma once
#include <stdint.h>
extern "C" {
void vs_point(const void* addr) noexcept;                       // a scheduling point right before an access to addr
void vs_mutex_lock(int* owner) noexcept;
int vs_mutex_trylock(int* owner) noexcept;
void vs_mutex_unlock(int* owner) noexcept;
void vs_mutex_gone(int* owner) noexcept;
int vs_cond_wait(void* cond, int* owner, int timed) noexcept;    // returns 1 on time out
void vs_cond_wake(void* cond, int all) noexcept;
int vs_futex_wait(uint32_t* addr, uint32_t value) noexcept;
int vs_futex_wake(uint32_t* addr, int all) noexcept;
}
template<typename T> static inline T* vs_at(T* p) noexcept { vs_point((const void*)p); return p; }
