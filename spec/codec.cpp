#include "vp.h"
#include <wdt/util/SerializationUtil.h>
using namespace facebook::wdt;

// number of bytes the 9-byte varint format uses for v
static inline int vlen(uint64_t v) {
  int n = 1;
  n += (v >> 7) != 0; n += (v >> 14) != 0; n += (v >> 21) != 0; n += (v >> 28) != 0;
  n += (v >> 35) != 0; n += (v >> 42) != 0; n += (v >> 49) != 0; n += (v >> 56) != 0;
  return n;
}

// encodeVarU64: value contract + frame
VP_HARNESS(varu_encode) {
  uint64_t v = vp_u64("v");
  int64_t n = vp_size("n");
  char* b = vp_buf("b", n);
  int64_t pos0 = vp_i64("pos"), pos = pos0;
  vp_assume(pos0 <= n);
  int64_t w = vp_size("witness");
  vp_assume(w < n);
  char before = b[w];
  bool ok = encodeVarU64(b, n, pos, v);
  int len = vlen(v);
  bool fits = (pos0 >= 0) & (pos0 + len <= n);
  vp_assert(ok == fits, "succeeds-iff-it-fits");
  vp_assert(ok ? pos == pos0 + len : pos == pos0, "position-advances-by-length");
  vp_assert((b[w] == before) | ((pos0 >= 0) & (w >= pos0) & (w < pos0 + len)), "writes-only-its-bytes");
}
VP_HARNESS(varu_roundtrip) {
  uint64_t v = vp_u64("v");
  int64_t n = vp_size("n");
  char* b = vp_buf("b", n);
  int64_t pos0 = vp_range("pos", 0, n), pos = pos0;
  if (!encodeVarU64(b, n, pos, v)) return;
  vp_cover("encoded");
  int64_t lim = vp_range("limit", 0, n);
  int64_t p2 = pos0;
  uint64_t r = 0;
  bool ok = decodeVarU64(b, lim, p2, r);
  vp_assert(ok == (lim >= pos), "decodes-iff-complete");
  vp_assert(!ok || r == v, "same-value");
  vp_assert(p2 == (ok ? pos : pos0), "consumes-exactly");
}
// decodeVarU64 on arbitrary bytes
VP_HARNESS(varu_decode_raw) {
  int64_t n = vp_size("n");
  char* b = vp_buf("b", n);
  int64_t pos0 = vp_i64("pos"), pos = pos0;
  vp_assume(pos0 <= n);
  uint64_t r = 77;
  bool ok = decodeVarU64(b, n, pos, r);
  vp_assert(!ok || (pos > pos0 && pos <= n && pos - pos0 <= 9 && pos0 >= 0), "consumes-1-to-9-inside");
  vp_assert(ok || (pos == pos0 && r == 77), "failure-changes-nothing");
}
// strings
VP_HARNESS(string_roundtrip) {
  std::string s = vp_str("s");
  int64_t n = vp_size("n");
  char* b = vp_buf("b", n);
  int64_t off0 = vp_range("off", 0, n), off = off0;
  int64_t w = vp_size("witness");
  vp_assume(w < n);
  char before = b[w];
  bool ok = encodeString(b, n, off, s);
  vp_assert((off >= off0) & (off <= n), "offset-stays-inside");
  if (!ok) return;
  vp_cover("encoded");
  vp_assert((b[w] == before) | ((w >= off0) & (w < off)), "writes-only-its-bytes");
  vp_assert(off - off0 >= (int64_t)s.size() + 1, "length");
  int64_t lim = vp_range("limit", off0, n);
  folly::ByteRange br((uint8_t*)b + off0, (uint8_t*)b + lim);
  std::string t;
  bool ok2 = decodeString(br, t);
  vp_assert(ok2 == (lim >= off), "decodes-iff-complete");
  if (!ok2) return;
  vp_assert(vp_same_string(s, t), "same-string");
  vp_assert((const char*)br.start() == b + off, "consumes-exactly");
}
VP_HARNESS(string_decode_raw) {
  int64_t n = vp_size("n");
  char* b = vp_buf("b", n);
  folly::ByteRange br((uint8_t*)b, (uint8_t*)b + n);
  std::string t;
  bool ok = decodeString(br, t);
  vp_assert((br.end() == (uint8_t*)b + n) & (br.start() >= (uint8_t*)b) & (br.start() <= br.end()), "range-stays-inside");
  vp_assert(!ok || ((int64_t)t.size() < n), "string-fits");
}
