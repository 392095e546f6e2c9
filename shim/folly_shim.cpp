// Native definitions behind the shim headers.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <folly/hash/Checksum.h>
#include <glog/logging.h>
bool FLAGS_logtostderr = true;
int32_t FLAGS_minloglevel = 0;
int32_t FLAGS_v = 0;
namespace folly {
uint32_t crc32c(const uint8_t* data, size_t n, uint32_t crc) {
  for (size_t i = 0; i < n; ++i) {
    crc ^= data[i];
    for (int k = 0; k < 8; ++k) crc = (crc >> 1) ^ (0x82F63B78u & (0u - (crc & 1)));
  }
  return crc;
}
}  // namespace folly
