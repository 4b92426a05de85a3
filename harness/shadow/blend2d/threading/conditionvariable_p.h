#pragma once
#include <blend2d/core/api-internal_p.h>
#include <blend2d/threading/mutex_p.h>
#include <blend2d/threading/threadingutils_p.h>
#include <time.h>
class BLConditionVariable {
public:
  char id = 0;
  BLConditionVariable() noexcept {}
  BLConditionVariable(const BLConditionVariable&) = delete;
  BLConditionVariable& operator=(const BLConditionVariable&) = delete;
  void signal() noexcept { vs_cond_wake(this, 0); }
  void broadcast() noexcept { vs_cond_wake(this, 1); }
  BLResult wait(BLMutex& m) noexcept { vs_cond_wait(this, &m.owner, 0); return BL_SUCCESS; }
  BLResult wait_for(BLMutex& m, uint64_t) noexcept { return vs_cond_wait(this, &m.owner, 1) ? BLResult(BL_ERROR_TIMED_OUT) : BLResult(BL_SUCCESS); }
  BLResult wait_until(BLMutex& m, const struct timespec*) noexcept { return wait_for(m, 0); }
};
