#pragma once
#include <optional>
namespace folly {
struct None {};
static constexpr None none{};
template <class T>
class Optional : public std::optional<T> {
 public:
  using std::optional<T>::optional;
  Optional(None) {}
};
}  // namespace folly
