#pragma once
#include <mutex>
namespace folly {
// A mutual exclusion lock; std::mutex gives the same contract.
class SpinLock {
 public:
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool try_lock() { return m_.try_lock(); }
 private:
  std::mutex m_;
};
using SpinLockGuard = std::lock_guard<SpinLock>;
}  // namespace folly
