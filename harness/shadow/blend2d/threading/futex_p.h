#pragma once
#include_next <blend2d/threading/futex_p.h>
#include <vsched.h>
#ifndef BL_BUILD_NO_FUTEX
namespace bl { namespace VFutex {
static inline int wait(uint32_t* addr, uint32_t value) noexcept { return vs_futex_wait(addr, value); }
static inline int wake_one(uint32_t* addr) noexcept { return vs_futex_wake(addr, 0); }
static inline int wake_all(uint32_t* addr) noexcept { return vs_futex_wake(addr, 1); }
} }
#define Futex VFutex
#endif
