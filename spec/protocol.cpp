#include "vp.h"
#include <wdt/Protocol.h>
#include <wdt/util/SerializationUtil.h>
using namespace facebook::wdt;
using std::string;

// common frame: a buffer of n bytes, encode at off0, decode with limit lim
struct Frame {
  int64_t n;
  char* b;
  int64_t off0, off, w;
  char before;
  Frame() {
    n = vp_size("n");
    b = vp_buf("b", n);
    off0 = vp_range("off", 0, n);
    off = off0;
    w = vp_size("witness");
    vp_assume(w < n);
    before = b[w];
  }
  void encoded(bool ok) {
    vp_assert((off >= off0) & (off <= n), "encode-stays-inside-buffer");
    vp_assert(!ok | (b[w] == before) | ((w >= off0) & (w < off)), "encode-writes-only-its-bytes");
  }
  int64_t limit() { return vp_range("limit", off0, n); }
};

VP_HARNESS(header_roundtrip) {
  Frame f;
  int ver = vp_i32("version");
  BlockDetails d;
  d.fileName = vp_str("fileName");
  d.seqId = vp_i64("seqId");
  d.dataSize = vp_i64("dataSize");
  d.offset = vp_i64("offset");
  d.fileSize = vp_i64("fileSize");
  d.prevSeqId = vp_i64("prevSeqId");
  int st = (int)vp_range("status", 0, 4);
  d.allocationStatus = (FileAllocationStatus)st;
  vp_assume((d.seqId >= 0) & (d.dataSize >= 0) & (d.offset >= 0) & (d.fileSize >= 0) & (d.prevSeqId >= 0));
  bool ok = Protocol::encodeHeader(ver, f.b, f.off, f.n, d);
  f.encoded(ok);
  if (!ok) return;
  vp_cover("encoded");
  int64_t lim = f.limit(), off = f.off0;
  BlockDetails r;
  bool ok2 = Protocol::decodeHeader(ver, f.b, off, lim, r);
  vp_assert(ok2 == (lim >= f.off), "decodes-iff-complete");
  vp_assert((off >= f.off0) & (off <= lim), "decode-stays-inside");
  if (!ok2) return;
  vp_assert(off == f.off, "consumes-exactly");
  vp_assert(vp_same_string(r.fileName, d.fileName), "file-name");
  vp_assert(r.seqId == d.seqId, "seq-id");
  vp_assert(r.dataSize == d.dataSize, "data-size");
  vp_assert(r.offset == d.offset, "offset");
  vp_assert(r.fileSize == d.fileSize, "file-size");
  if (ver >= 13) {
    vp_assert((int)r.allocationStatus == st, "allocation-status");
    vp_assert(!((st == 2) | (st == 3)) | (r.prevSeqId == d.prevSeqId), "previous-seq-id");
  }
}
VP_HARNESS(header_raw) {
  int64_t n = vp_size("n");
  char* b = vp_buf("b", n);
  int64_t off0 = vp_range("off", 0, n), off = off0;
  int ver = vp_i32("version");
  BlockDetails r;
  bool ok = Protocol::decodeHeader(ver, b, off, n, r);
  vp_assert((off >= off0) & (off <= n), "decode-stays-inside");
  vp_assert(!ok | ((r.seqId >= 0) & (r.dataSize >= 0) & (r.offset >= 0) & (r.fileSize >= 0)), "decoded-fields-not-negative");
  vp_assert(!ok || (int64_t)r.fileName.size() < n, "name-fits");
  vp_assert(!ok || ((int)r.allocationStatus >= 0 && (int)r.allocationStatus <= TO_BE_DELETED && r.prevSeqId >= 0), "decoded-allocation-is-known");
}
VP_HARNESS(done_roundtrip) {
  Frame f;
  int ver = vp_i32("version");
  int64_t nb = vp_i64("numBlocks"), tb = vp_i64("bytes");
  vp_assume((nb >= 0) & (tb >= 0));
  bool ok = Protocol::encodeDone(ver, f.b, f.off, f.n, nb, tb);
  f.encoded(ok);
  if (!ok) return;
  vp_cover("encoded");
  int64_t lim = f.limit(), off = f.off0, nb2 = -7, tb2 = -7;
  bool ok2 = Protocol::decodeDone(ver, f.b, off, lim, nb2, tb2);
  vp_assert(ok2 == (lim >= f.off), "decodes-iff-complete");
  if (!ok2) return;
  vp_assert(off == f.off, "consumes-exactly");
  vp_assert(nb2 == nb, "number-of-blocks");
  vp_assert(tb2 == (ver >= 16 ? tb : -7), "total-bytes");
}
VP_HARNESS(size_roundtrip) {
  Frame f;
  int64_t v = vp_i64("total");
  vp_assume(v >= 0);
  bool ok = Protocol::encodeSize(f.b, f.off, f.n, v);
  f.encoded(ok);
  if (!ok) return;
  vp_cover("encoded");
  int64_t lim = f.limit(), off = f.off0, v2 = -7;
  bool ok2 = Protocol::decodeSize(f.b, off, lim, v2);
  vp_assert(ok2 == (lim >= f.off), "decodes-iff-complete");
  vp_assert(!ok2 | ((off == f.off) & (v2 == v)), "same-value");
}
VP_HARNESS(abort_roundtrip) {
  Frame f;
  int32_t ver = vp_i32("version");
  int64_t cp = vp_i64("checkpoint");
  int e = (int)vp_range("error", 0, 255);
  vp_assume((ver >= 0) & (cp >= 0));
  bool ok = Protocol::encodeAbort(f.b, f.off, f.n, ver, (ErrorCode)e, cp);
  f.encoded(ok);
  vp_assert(ok == (f.off0 + 13 <= f.n), "encodes-iff-it-fits");
  if (!ok) return;
  vp_cover("encoded");
  int64_t lim = f.limit(), off = f.off0, cp2 = 0;
  int32_t ver2 = 0;
  ErrorCode e2;
  bool ok2 = Protocol::decodeAbort(f.b, off, lim, ver2, e2, cp2);
  vp_assert(ok2 == (lim >= f.off), "decodes-iff-complete");
  if (!ok2) return;
  vp_assert(off == f.off, "consumes-exactly");
  vp_assert((ver2 == ver) & (cp2 == cp) & ((int)e2 == e), "same-values");
}
VP_HARNESS(chunkscmd_roundtrip) {
  Frame f;
  int64_t bs = vp_i64("bufSize"), nf = vp_i64("numFiles");
  vp_assume((bs >= 0) & (nf >= 0));
  bool ok = Protocol::encodeChunksCmd(f.b, f.off, f.n, bs, nf);
  f.encoded(ok);
  vp_assert(ok == (f.off0 + 16 <= f.n), "encodes-iff-it-fits");
  if (!ok) return;
  vp_cover("encoded");
  int64_t lim = f.limit(), off = f.off0, bs2 = 0, nf2 = 0;
  bool ok2 = Protocol::decodeChunksCmd(f.b, off, lim, bs2, nf2);
  vp_assert(ok2 == (lim >= f.off), "decodes-iff-complete");
  vp_assert(!ok2 | ((off == f.off) & (bs2 == bs) & (nf2 == nf)), "same-values");
}
VP_HARNESS(settings_roundtrip) {
  Frame f;
  int ver = vp_i32("version");
  Settings s;
  s.readTimeoutMillis = vp_i32("readTimeout");
  s.writeTimeoutMillis = vp_i32("writeTimeout");
  s.transferId = vp_str("transferId");
  s.enableChecksum = vp_bool("checksum");
  s.sendFileChunks = vp_bool("chunks");
  s.blockModeDisabled = vp_bool("blockModeDisabled");
  s.enableHeartBeat = vp_bool("heartBeat");
  vp_assume((ver >= 0) & (s.readTimeoutMillis >= 0) & (s.writeTimeoutMillis >= 0));
  bool ok = Protocol::encodeSettings(ver, f.b, f.off, f.n, s);
  f.encoded(ok);
  if (!ok) return;
  vp_cover("encoded");
  int64_t lim = f.limit(), off = f.off0;
  int ver2 = -1;
  bool okv = Protocol::decodeVersion(f.b, off, lim, ver2);
  vp_assert(!okv | (ver2 == ver), "version");
  Settings r;
  bool ok2 = okv && Protocol::decodeSettings(ver, f.b, off, lim, r);
  vp_assert(ok2 == (lim >= f.off), "decodes-iff-complete");
  if (!ok2) return;
  vp_assert(off == f.off, "consumes-exactly");
  vp_assert(r.readTimeoutMillis == s.readTimeoutMillis, "read-timeout");
  vp_assert(r.writeTimeoutMillis == s.writeTimeoutMillis, "write-timeout");
  vp_assert(vp_same_string(r.transferId, s.transferId), "transfer-id");
  if (ver >= 12) {
    vp_assert(r.enableChecksum == s.enableChecksum, "checksum-flag");
    vp_assert(r.sendFileChunks == s.sendFileChunks, "chunks-flag");
    vp_assert(r.blockModeDisabled == s.blockModeDisabled, "block-mode-flag");
    vp_assert(r.enableHeartBeat == s.enableHeartBeat, "heart-beat-flag");
  } else {
    vp_assert(!r.enableChecksum & !r.sendFileChunks, "no-flags-below-12");
  }
}
VP_HARNESS(encsettings_roundtrip) {
  Frame f;
  int t = (int)vp_range("type", 0, 255);
  string iv = vp_str("iv");
  int32_t ti = vp_i32("tagInterval");
  vp_assume(ti >= 0);
  bool ok = Protocol::encodeEncryptionSettings(f.b, f.off, f.n, (EncryptionType)t, iv, ti);
  f.encoded(ok);
  if (!ok) return;
  vp_cover("encoded");
  int64_t lim = f.limit(), off = f.off0;
  EncryptionType t2;
  string iv2;
  int32_t ti2 = -1;
  bool ok2 = Protocol::decodeEncryptionSettings(f.b, off, lim, t2, iv2, ti2);
  vp_assert(ok2 == (lim >= f.off), "decodes-iff-complete");
  if (!ok2) return;
  vp_assert(off == f.off, "consumes-exactly");
  vp_assert(((int)t2 == t) & (ti2 == ti), "type-and-interval");
  vp_assert(vp_same_string(iv, iv2), "iv");
}
VP_HARNESS(footer_roundtrip) {
  Frame f;
  int32_t c = vp_i32("checksum");
  bool ok = Protocol::encodeFooter(f.b, f.off, f.n, c);
  f.encoded(ok);
  if (!ok) return;
  vp_cover("encoded");
  int64_t lim = f.limit(), off = f.off0;
  int32_t c2 = 0;
  bool ok2 = Protocol::decodeFooter(f.b, off, lim, c2);
  vp_assert(ok2 == (lim >= f.off), "decodes-iff-complete");
  vp_assert(!ok2 | ((off == f.off) & (c2 == c)), "same-checksum");
}
// every fixed decoder on arbitrary bytes: no fault, offset stays inside
VP_HARNESS(decoders_raw) {
  int64_t n = vp_size("n");
  char* b = vp_buf("b", n);
  int64_t off0 = vp_range("off", 0, n), off = off0;
  int ver = vp_i32("version");
  int which = (int)vp_range("which", 0, 6);
  int64_t x = 0, y = 0;
  int32_t i = 0;
  bool ok = false;
  if (which == 0) { ok = Protocol::decodeDone(ver, b, off, n, x, y); vp_assert(!ok | ((x >= 0) & (y >= 0)), "done-not-negative"); }
  if (which == 1) { ok = Protocol::decodeSize(b, off, n, x); vp_assert(!ok | (x >= 0), "size-not-negative"); }
  if (which == 2) { ErrorCode e; ok = Protocol::decodeAbort(b, off, n, i, e, x); }
  if (which == 3) { ok = Protocol::decodeChunksCmd(b, off, n, x, y); vp_assert(!ok | ((x >= 0) & (y >= 0)), "chunks-not-negative"); }
  if (which == 4) { ok = Protocol::decodeVersion(b, off, n, i); vp_assert(!ok | (i >= 0), "version-not-negative"); }
  if (which == 5) { Settings s; ok = Protocol::decodeSettings(ver, b, off, n, s); vp_assert(!ok | ((s.readTimeoutMillis >= 0) & (s.writeTimeoutMillis >= 0)), "timeouts-not-negative"); }
  if (which == 6) { EncryptionType t; string iv; ok = Protocol::decodeEncryptionSettings(b, off, n, t, iv, i); vp_assert(!ok | (i >= 0), "interval-not-negative"); }
  vp_assert((off >= off0) & (off <= n), "decode-stays-inside");
}
VP_HARNESS(negotiate) {
  int a = vp_i32("requested"), c = vp_i32("current");
  int r = Protocol::negotiateProtocol(a, c);
  vp_assert(r == (a < 10 ? 0 : a < c ? a : c), "min-or-zero");
}
