#pragma once
#include <utility>
namespace folly {
template <class F>
class ScopeGuardImpl {
 public:
  explicit ScopeGuardImpl(F&& f) : f_(std::move(f)) {}
  ScopeGuardImpl(ScopeGuardImpl&& o) : f_(std::move(o.f_)), dismissed_(o.dismissed_) { o.dismissed_ = true; }
  ~ScopeGuardImpl() { if (!dismissed_) f_(); }
  void dismiss() { dismissed_ = true; }
 private:
  F f_;
  bool dismissed_{false};
};
template <class F>
[[nodiscard]] ScopeGuardImpl<std::decay_t<F>> makeGuard(F&& f) {
  return ScopeGuardImpl<std::decay_t<F>>(std::forward<F>(f));
}
}  // namespace folly
