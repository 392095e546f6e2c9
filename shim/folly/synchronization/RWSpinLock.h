#pragma once
#include <pthread.h>
namespace folly {
class RWSpinLock {
 public:
  RWSpinLock() { pthread_rwlock_init(&l_, nullptr); }
  RWSpinLock(const RWSpinLock&) = delete;
  RWSpinLock& operator=(const RWSpinLock&) = delete;
  ~RWSpinLock() { pthread_rwlock_destroy(&l_); }
  void lock() { pthread_rwlock_wrlock(&l_); }
  void unlock() { pthread_rwlock_unlock(&l_); }
  void lock_shared() { pthread_rwlock_rdlock(&l_); }
  void unlock_shared() { pthread_rwlock_unlock(&l_); }
  bool try_lock() { return pthread_rwlock_trywrlock(&l_) == 0; }
  bool try_lock_shared() { return pthread_rwlock_tryrdlock(&l_) == 0; }
 private:
  pthread_rwlock_t l_;
};
}  // namespace folly
