#pragma once
#include <cstddef>
#include <cstdint>
namespace folly {
// declared only: given a contract in proofs, defined in shim/folly_shim.cpp natively
uint32_t crc32c(const uint8_t* data, size_t nbytes, uint32_t startingChecksum = ~0U);
}  // namespace folly
