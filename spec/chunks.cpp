// Contracts of the chunk arithmetic behind download resumption and of its codecs.
#include "vp.h"
#include <wdt/Protocol.h>
using namespace facebook::wdt;
static const int64_t B = (int64_t)1 << 60;
static bool inChunk(const Interval& c, int64_t x) { return c.start_ <= x && x < c.end_; }
// merging: sorted, disjoint, non-touching chunks covering exactly the same bytes
VP_HARNESS(chunks_merge) {
  FileChunksInfo* f = new FileChunksInfo();
  int n = (int)vp_range("n", 0, vp_bound_(3, 4));
  int64_t x = vp_range("x", 0, B);
  bool in = false;
  for (int i = 0; i < n; i++) {
    int64_t a = vp_range("start", 0, B), e = vp_range("end", 0, B);
    vp_assume(a <= e);
    Interval c(a, e);
    in = in | ((a <= x) & (x < e));
    f->addChunk(c);
  }
  vp_assert((int)f->getChunks().size() == n, "chunks are collected");
  f->mergeChunks();
  const auto& r = f->getChunks();
  vp_assert((int)r.size() <= n && (n == 0 || r.size() >= 1), "merging never adds chunks");
  bool out = false;
  int64_t total = 0;
  for (size_t i = 0; i < r.size(); i++) {
    vp_assert(r[i].start_ <= r[i].end_, "each chunk is an interval");
    if (i) vp_assert(r[i - 1].end_ < r[i].start_, "chunks are sorted, disjoint and not touching");
    out = out | ((r[i].start_ <= x) & (x < r[i].end_));
    total += r[i].end_ - r[i].start_;
  }
  vp_assert(out == in, "exactly the same bytes are covered");
  vp_assert(f->getTotalChunkSize() == total, "the total size is the number of covered bytes");
}
// remaining chunks are exactly the bytes of the file not yet received
VP_HARNESS(chunks_remaining) {
  FileChunksInfo* f = new FileChunksInfo();
  int n = (int)vp_range("n", 0, vp_bound_(4, 6));
  int64_t x = vp_range("x", 0, B), size = vp_range("size", 0, B);
  bool in = false;
  int64_t last = 0, covered = 0;
  for (int i = 0; i < n; i++) {
    int64_t a = vp_range("start", 0, B), e = vp_range("end", 0, B);
    vp_assume((a >= last) & (a <= e) & (e <= size));
    Interval c(a, e);
    in = in | ((a <= x) & (x < e));
    covered += e - a;
    last = e;
    f->addChunk(c);
  }
  std::vector<Interval> r = f->getRemainingChunks(size);
  bool out = false;
  int64_t total = 0;
  for (size_t i = 0; i < r.size(); i++) {
    vp_assert(r[i].start_ >= 0 && r[i].start_ < r[i].end_ && r[i].end_ <= size, "each remaining chunk is a non-empty part of the file");
    if (i) vp_assert(r[i - 1].end_ <= r[i].start_, "remaining chunks are sorted and disjoint");
    out = out | ((r[i].start_ <= x) & (x < r[i].end_));
    total += r[i].end_ - r[i].start_;
  }
  vp_assert(out == ((x < size) & !in), "a byte remains exactly when it was not received");
  vp_assert(total + covered == size, "received and remaining bytes add up to the file");
  vp_assert((int)f->getChunks().size() == n, "the received chunks are unchanged");
}
// whatever chunks a peer announces, the remaining ones are valid and miss no byte that was not announced
VP_HARNESS(chunks_remaining_raw) {
  FileChunksInfo* f = new FileChunksInfo();
  int n = (int)vp_range("n", 0, vp_bound_(3, 4));
  int64_t x = vp_range("x", 0, B), size = vp_range("size", 0, B);
  bool in = false;
  for (int i = 0; i < n; i++) {
    Interval c;
    c.start_ = vp_range("start", 0, B);
    c.end_ = vp_range("end", 0, B);
    in = in | ((c.start_ <= x) & (x < c.end_));
    f->addChunk(c);
  }
  std::vector<Interval> r = f->getRemainingChunks(size);
  bool out = false;
  for (size_t i = 0; i < r.size(); i++) {
    vp_assert(r[i].start_ >= 0 && r[i].start_ < r[i].end_, "each remaining chunk is non-empty");
    out = out | ((r[i].start_ <= x) & (x < r[i].end_));
  }
}
static void fillInfo(FileChunksInfo& f, int n) {
  std::string name = vp_str("name");
  f.setFileName(name);
  f.setSeqId(vp_range("seqId", 0, INT64_MAX));
  f.setFileSize(vp_range("fileSize", 0, INT64_MAX));
  for (int i = 0; i < n; i++) {
    Interval c;
    c.start_ = vp_range("start", 0, INT64_MAX);
    c.end_ = vp_range("end", 0, INT64_MAX);
    f.addChunk(c);
  }
}
static bool same(const FileChunksInfo& a, const FileChunksInfo& b) {
  if (a.getSeqId() != b.getSeqId() || a.getFileSize() != b.getFileSize() || a.getChunks().size() != b.getChunks().size()) return false;
  for (size_t i = 0; i < a.getChunks().size(); i++)
    if (a.getChunks()[i].start_ != b.getChunks()[i].start_ || a.getChunks()[i].end_ != b.getChunks()[i].end_) return false;
  return vp_same_string(a.getFileName(), b.getFileName());
}
// one file's chunk list
VP_HARNESS(chunkinfo_roundtrip) {
  FileChunksInfo* f = new FileChunksInfo();
  fillInfo(*f, (int)vp_range("n", 0, vp_bound_(2, 3)));
  int64_t sz = vp_size("sz"), off0 = vp_range("off", 0, (int64_t)1 << 40);
  vp_assume(off0 <= sz);
  char* buf = vp_buf("buf", sz);
  int64_t off = off0;
  bool ok = Protocol::encodeFileChunksInfo(buf, off, sz, *f);
  vp_assert(off >= off0 && off <= sz, "stays in the buffer");
  if (!ok) return;
  vp_cover("encoded");
  vp_assert(off - off0 <= Protocol::maxEncodeLen(*f), "never longer than announced");
  int64_t cut = vp_range("cut", 0, (int64_t)1 << 40);
  vp_assume(cut >= off0 && cut <= off);
  FileChunksInfo* g = new FileChunksInfo();
  folly::ByteRange br((uint8_t*)buf + off0, (size_t)(cut - off0));
  bool d = Protocol::decodeFileChunksInfo(br, *g);
  vp_assert(d == (cut == off), "decodes iff complete");
  if (d) vp_assert(br.empty() && same(*f, *g), "every field survives");
}
// hostile bytes, one file's chunk list
VP_HARNESS(chunkinfo_raw) {
  int64_t n = vp_size("n");
  char* buf = vp_buf("buf", n);
  FileChunksInfo* g = new FileChunksInfo();
  folly::ByteRange br((uint8_t*)buf, (size_t)n);
  const uint8_t* end = br.end();
  bool ok = Protocol::decodeFileChunksInfo(br, *g);
  vp_assert(br.end() == end && (int64_t)br.size() <= n, "stays in the message");
  vp_assert(!ok || (int64_t)br.size() <= n - 4, "a decoded entry takes at least four bytes");
  vp_assert(!ok || (g->getSeqId() >= 0 && g->getFileSize() >= 0), "no negative ids or sizes");
}
#ifdef VP_PROOF
// contracts proved by chunkinfo_roundtrip and chunkinfo_raw
static const FileChunksInfo* g_enc[8];
static char* g_pos[8];
static int64_t g_len[8];
static int g_nenc;
static bool g_raw;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol20encodeFileChunksInfoEPcRllRKNS0_14FileChunksInfoE(char* dest, int64_t* off, int64_t max, const FileChunksInfo* f) {
  vp_assert(*off >= 0 && *off <= max, "precondition of encodeFileChunksInfo");
  vp_assert(Protocol::maxEncodeLen(*f) <= max - *off, "room for the longest encoding");
  int64_t L = vp_range("entryLen", 4, (int64_t)1 << 50);
  vp_assume(L <= Protocol::maxEncodeLen(*f));
  g_enc[g_nenc] = f; g_pos[g_nenc] = dest + *off; g_len[g_nenc] = L; g_nenc++;
  *off += L;
  return true;
}
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol20decodeFileChunksInfoERN5folly5RangeIPKhEERNS0_14FileChunksInfoE(folly::ByteRange* br, FileChunksInfo* g) {
  if (!g_raw) {
    for (int i = 0; i < g_nenc; i++)
      if ((char*)br->start() == g_pos[i] && (int64_t)br->size() >= g_len[i]) {
        br->advance(g_len[i]);
        g->setSeqId(g_enc[i]->getSeqId()); g->setFileSize(g_enc[i]->getFileSize()); g->setFileName(g_enc[i]->getFileName());
        for (auto& c : g_enc[i]->getChunks()) g->addChunk(c);
        return true;
      }
  }
  int64_t L = vp_range("entryLen", 0, (int64_t)1 << 50);
  vp_assume(L <= (int64_t)br->size());
  br->advance(L);
  if (vp_bool("entryBad")) return false;
  vp_assume(L >= 4);
  g->setSeqId(vp_range("seqId", 0, INT64_MAX)); g->setFileSize(vp_range("fileSize", 0, INT64_MAX));
  return true;
}
static void contractMode(bool raw) { g_nenc = 0; g_raw = raw; }
#else
static void contractMode(bool) {}
#endif
// the list of files: encoded files fit, decoding returns them in order
VP_HARNESS(chunklist_roundtrip) {
  std::vector<FileChunksInfo> l;
  int n = (int)vp_range("files", 0, vp_bound_(2, 3));
  for (int i = 0; i < n; i++) {
    l.emplace_back();
    fillInfo(l.back(), (int)vp_range("n", 0, 1));
  }
  int64_t sz = vp_size("sz"), off0 = vp_range("off", 0, (int64_t)1 << 40), start = vp_range("start", 0, 3);
  vp_assume(off0 <= sz);
  vp_assume(start <= n);
  char* buf = vp_buf("buf", sz);
  contractMode(false);
  int64_t off = off0;
  int64_t k = Protocol::encodeFileChunksInfoList(buf, off, sz, start, l);
  vp_assert(k >= 0 && k <= n - start, "at most the given files are dealt with");
  vp_assert(k > 0 || start == n, "at least one file is dealt with");
  vp_assert(off >= off0 && off <= sz, "stays in the buffer");
  std::vector<FileChunksInfo> m;
  int64_t o2 = off0;
  bool ok = Protocol::decodeFileChunksInfoList(buf, o2, off, m);
  vp_assert(ok && o2 == off, "the encoded list decodes completely");
  vp_assert((m.size() > 0) == (off > off0), "an empty message has no files");
  int64_t d = 0;
  for (int64_t j = 0; j < n; j++) {
    if (j < start || j >= start + k) continue;
    // a file is left out only if no message can hold it
    if (off0 + Protocol::maxEncodeLen(l[j]) >= sz) continue;
    vp_assert(d < (int64_t)m.size() && same(l[j], m[d]), "every file dealt with that can be encoded is decoded unchanged, in order");
    d++;
  }
  vp_assert(d == (int64_t)m.size(), "nothing else is decoded");
}
// hostile list
VP_HARNESS(chunklist_raw) {
  int64_t n = vp_range("n", 0, vp_bound_(14, 22));
  contractMode(true);
  int64_t off = vp_range("off", 0, 22);
  vp_assume(off <= n);
  char* buf = vp_buf("buf", n);
  int64_t o = off;
  std::vector<FileChunksInfo> m;
  bool ok = Protocol::decodeFileChunksInfoList(buf, o, n, m);
  vp_assert(o >= off && o <= n, "stays in the message");
  vp_assert(!ok || o == n, "success consumes the message");
  for (auto& f : m) {
    vp_assert(f.getSeqId() >= 0 && f.getFileSize() >= 0, "no negative ids or sizes");
  }
}
