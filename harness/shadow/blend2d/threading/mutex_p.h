#pragma once
#define BLMutex BLNativeMutex
#define BLSharedMutex BLNativeSharedMutex
#include_next <blend2d/threading/mutex_p.h>
#undef BLMutex
#undef BLSharedMutex
#include <vsched.h>
class BLMutex {
public:
  int owner = 0;
  BLMutex() noexcept {}
  BLMutex(const BLMutex&) = delete;
  BLMutex& operator=(const BLMutex&) = delete;
  ~BLMutex() noexcept { vs_mutex_gone(&owner); }
  void lock() noexcept { vs_mutex_lock(&owner); }
  bool try_lock() noexcept { return vs_mutex_trylock(&owner) != 0; }
  void unlock() noexcept { vs_mutex_unlock(&owner); }
  template<typename Fn> decltype(std::declval<Fn>()()) protect(Fn&& fn) noexcept { BLLockGuard<BLMutex> guard(this); return BLInternal::forward<Fn>(fn)(); }
};
class BLSharedMutex : public BLMutex {
public:
  void lock_shared() noexcept { lock(); }
  bool try_lock_shared() noexcept { return try_lock(); }
  void unlock_shared() noexcept { unlock(); }
  template<typename Fn> decltype(std::declval<Fn>()()) protect_shared(Fn&& fn) noexcept { BLSharedLockGuard<BLSharedMutex> guard(this); return BLInternal::forward<Fn>(fn)(); }
  template<typename Fn> decltype(std::declval<Fn>()()) protect(Fn&& fn) noexcept { BLLockGuard<BLSharedMutex> guard(this); return BLInternal::forward<Fn>(fn)(); }
};
