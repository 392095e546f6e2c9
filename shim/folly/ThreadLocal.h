#pragma once
#include <mutex>
#include <map>
#include <thread>
namespace folly {
template <class T, class Tag = void>
class ThreadLocalPtr {
 public:
  T* get() const { return p_; }
  T* operator->() const { return p_; }
  T& operator*() const { return *p_; }
  void reset(T* p = nullptr) { delete p_; p_ = p; }
  ~ThreadLocalPtr() { delete p_; }
 private:
  T* p_{nullptr};
};
}  // namespace folly
