#pragma once
#include <cstdint>
#include <cstring>
namespace folly {
struct Endian {
  template <class T>
  static T little(T x) { return x; }  // x86-64 only
  template <class T>
  static T big(T x) {
    if constexpr (sizeof(T) == 1) return x;
    if constexpr (sizeof(T) == 2) return (T)__builtin_bswap16((uint16_t)x);
    if constexpr (sizeof(T) == 4) return (T)__builtin_bswap32((uint32_t)x);
    if constexpr (sizeof(T) == 8) return (T)__builtin_bswap64((uint64_t)x);
  }
};
template <class T>
inline T loadUnaligned(const void* p) {
  T v;
  std::memcpy(&v, p, sizeof(T));
  return v;
}
template <class T>
inline void storeUnaligned(void* p, T v) {
  std::memcpy(p, &v, sizeof(T));
}
}  // namespace folly
