// Contracts of the receiver's transfer log: what is written, and what a restart trusts.
#include "vp.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wdt/util/TransferLogManager.h>
using namespace facebook::wdt;
static const int64_t B = (int64_t)1 << 60;
// keeps the element types of the vectors in the module
VP_SIZEOF(Interval, facebook__wdt__Interval)
// ------------------------------------------------------------ environment
static int e_errno;
static int e_fd;                       // the log's descriptor
static bool e_statOk;
static int64_t e_statSize, e_nstat;
static int64_t e_writes, e_short, e_fsyncs, e_closes, e_truncs, e_seeks, e_truncTo, e_seekTo, e_logSize;
static const char* e_wbuf;
static int64_t e_wlen;
static bool e_closed, e_opened;
extern "C" int* vp_env___errno_location() { return &e_errno; }
extern "C" int vp_env_stat(const char* p, struct stat* s) {
  e_nstat++;
  if (!e_statOk) { e_errno = ENOENT; return -1; }
  s->st_size = e_statSize;
  s->st_ino = 5;
  return 0;
}
extern "C" int vp_env_fstat(int fd, struct stat* s) {
  vp_assert(fd == e_fd && !e_closed, "only the log's descriptor is used");
  if (!e_statOk) { e_errno = EIO; return -1; }
  s->st_size = e_logSize;
  s->st_ino = 5;
  return 0;
}
extern "C" int vp_env_ftruncate(int fd, off_t n) {
  vp_assert(fd == e_fd && !e_closed, "only the log's descriptor is used");
  e_truncs++;
  e_truncTo = n;
  return vp_bool("truncate_fails") ? -1 : 0;
}
extern "C" off_t vp_env_lseek(int fd, off_t n, int w) {
  vp_assert(fd == e_fd && !e_closed && w == SEEK_SET, "only the log's descriptor is used");
  e_seeks++;
  e_seekTo = n;
  return vp_bool("seek_fails") ? -1 : n;
}
extern "C" int vp_env_fsync(int fd) {
  vp_assert(fd == e_fd && !e_closed, "only the open log is synced");
  e_fsyncs++;
  return vp_bool("fsync_fails") ? -1 : 0;
}
extern "C" int vp_env_close(int fd) {
  vp_assert(fd == e_fd && !e_closed, "the log is closed once");
  e_closed = true;
  e_opened = false;
  e_closes++;
  return vp_bool("close_fails") ? -1 : 0;
}
// a write of the log: complete, short or failing
static std::string* g_disk;
static bool g_keep;
extern "C" ssize_t vp_env_write(int fd, const void* b, size_t n) {
  vp_assert(fd == e_fd && !e_closed, "entries are written to the open log");
  vp_assert((int64_t)n >= 1 && (int64_t)n < ((int64_t)1 << 40), "entries have a length");
  e_writes++;
  e_wbuf = (const char*)b;
  e_wlen = n;
  int64_t r = vp_range("write_ret", -1, (int64_t)n);
  if (r != (int64_t)n) e_short++;
  else if (g_keep) g_disk->append((const char*)b, n);
  return r;
}
static void envReset() {
  e_errno = 0; e_fd = 7; e_nstat = e_writes = e_short = e_fsyncs = e_closes = e_truncs = e_seeks = 0; e_truncTo = e_seekTo = -1; e_closed = false;
  e_statOk = vp_bool("stat_ok");
  e_statSize = vp_range("stat_size", 0, B);
  e_logSize = vp_range("log_size", 0, B);
  g_keep = false;
}
static WdtOptions* options() {
  auto* o = new WdtOptions();
  o->resume_using_dir_tree = vp_bool("resume_dir_tree");
  o->disable_preallocation = vp_bool("disable_preallocation");
  o->enable_download_resumption = true;
  o->disable_sender_verification_during_resumption = vp_bool("disable_sender_verification");
  return o;
}
static const int64_t MAXE = TransferLogManager::kMaxEntryLength;
// ------------------------------------------------------------ entries survive encoding
static LogEncoderDecoder* g_ed;
static char g_buf[TransferLogManager::kMaxEntryLength];
static int64_t entryLength(char* b) { int16_t v; memcpy(&v, b, 2); return v; }
static bool lenOk(char* b, int64_t n) {
  return n >= 4 && n <= MAXE && entryLength(b) == n - 2;
}
VP_HARNESS(log_codec) {
  LogEncoderDecoder* ed = new LogEncoderDecoder();
  char* b = (char*)vp_buf("buf", MAXE);
  int64_t seq = vp_range("seq", 0, INT64_MAX), off = vp_range("offset", 0, INT64_MAX), len = vp_range("len", 0, INT64_MAX);
  int64_t ts, s2, o2, l2;
  int64_t n = ed->encodeBlockWriteEntry(b, MAXE, seq, off, len);
  vp_assert(lenOk(b, n) && b[2] == TransferLogManager::BLOCK_WRITE, "an entry starts with its length and type");
  vp_assert(ed->decodeBlockWriteEntry(b + 3, n - 3, ts, s2, o2, l2) && s2 == seq && o2 == off && l2 == len, "block entry survives");
  vp_assert(!ed->decodeBlockWriteEntry(b + 3, n - 4, ts, s2, o2, l2), "a cut entry is refused");
  n = ed->encodeFileResizeEntry(b, MAXE, seq, len);
  vp_assert(lenOk(b, n) && b[2] == TransferLogManager::FILE_RESIZE, "an entry starts with its length and type");
  vp_assert(ed->decodeFileResizeEntry(b + 3, n - 3, ts, s2, l2) && s2 == seq && l2 == len, "resize entry survives");
  vp_assert(!ed->decodeFileResizeEntry(b + 3, n - 4, ts, s2, l2), "a cut entry is refused");
  n = ed->encodeFileInvalidationEntry(b, MAXE, seq);
  vp_assert(lenOk(b, n) && b[2] == TransferLogManager::FILE_INVALIDATION, "an entry starts with its length and type");
  vp_assert(ed->decodeFileInvalidationEntry(b + 3, n - 3, ts, s2) && s2 == seq, "invalidation entry survives");
  vp_assert(!ed->decodeFileInvalidationEntry(b + 3, n - 4, ts, s2), "a cut entry is refused");
  n = ed->encodeDirectoryInvalidationEntry(b, MAXE);
  vp_assert(lenOk(b, n) && b[2] == TransferLogManager::DIRECTORY_INVALIDATION, "an entry starts with its length and type");
  vp_assert(ed->decodeDirectoryInvalidationEntry(b + 3, n - 3, ts), "directory invalidation survives");
  vp_assert(!ed->decodeDirectoryInvalidationEntry(b + 3, n - 4, ts), "a cut entry is refused");
}
VP_HARNESS(log_codec_creation) {
  LogEncoderDecoder* ed = new LogEncoderDecoder();
  char* b = (char*)vp_buf("buf", MAXE);
  std::string name = vp_str("name"), nm2;
  int64_t seq = vp_range("seq", 0, INT64_MAX), len = vp_range("len", 0, INT64_MAX), ts, s2, l2;
  int64_t n = ed->encodeFileCreationEntry(b, MAXE, name, seq, len);
  if ((int64_t)name.size() <= PATH_MAX - 16) vp_assert(n > 0, "every name a file can have fits");
  if (n == -1) { vp_cover("too long"); return; }
  vp_assert(lenOk(b, n) && b[2] == TransferLogManager::FILE_CREATION, "an entry starts with its length and type");
  vp_assert(ed->decodeFileCreationEntry(b + 3, n - 3, ts, nm2, s2, l2) && s2 == seq && l2 == len && vp_same_string(name, nm2), "creation entry survives");
  int64_t cut = vp_range("cut", 0, MAXE);
  if (cut < n - 3) vp_assert(!ed->decodeFileCreationEntry(b + 3, cut, ts, nm2, s2, l2), "a cut entry is refused");
}
VP_HARNESS(log_codec_header) {
  LogEncoderDecoder* ed = new LogEncoderDecoder();
  char* b = (char*)vp_buf("buf", MAXE);
  std::string id = vp_str("recoveryId"), ip = vp_str("ip"), id2, ip2;
  int64_t cfg = vp_range("config", 0, INT64_MAX), ts, c2;
  int v;
  int64_t n = ed->encodeLogHeader(b, MAXE, id, ip, cfg);
  if (n == -1) { vp_cover("too long"); return; }
  vp_assert(lenOk(b, n) && b[2] == TransferLogManager::HEADER, "an entry starts with its length and type");
  vp_assert(ed->decodeLogHeader(b + 3, n - 3, ts, v, id2, ip2, c2) && v == TransferLogManager::WLOG_VERSION && c2 == cfg && vp_same_string(id, id2) && vp_same_string(ip, ip2),
            "header survives");
  int64_t cut = vp_range("cut", 0, MAXE);
  if (cut < n - 3) vp_assert(!ed->decodeLogHeader(b + 3, cut, ts, v, id2, ip2, c2), "a cut header is refused");
}
// ------------------------------------------------------------ contracts of the entry decoders (discharged by log_decode_raw)
static bool d_ok;
static int64_t d_seq, d_a, d_b;
static std::string* d_name;
static std::string* d_ip;
static int d_version;
static void decoded() { d_ok = vp_bool("decodes"); d_seq = vp_range("seq", 0, INT64_MAX); d_a = vp_range("arg1", 0, INT64_MAX); d_b = vp_range("arg2", 0, INT64_MAX); }
extern "C" bool vp_contract__ZN8facebook3wdt17LogEncoderDecoder21decodeBlockWriteEntryEPcsRlS3_S3_S3_(void*, char*, int16_t, int64_t* ts, int64_t* s, int64_t* o, int64_t* l) {
  *ts = 1; *s = d_seq; *o = d_a; *l = d_b;
  return d_ok;
}
extern "C" bool vp_contract__ZN8facebook3wdt17LogEncoderDecoder21decodeFileResizeEntryEPcsRlS3_S3_(void*, char*, int16_t, int64_t* ts, int64_t* s, int64_t* l) {
  *ts = 1; *s = d_seq; *l = d_a;
  return d_ok;
}
extern "C" bool vp_contract__ZN8facebook3wdt17LogEncoderDecoder27decodeFileInvalidationEntryEPcsRlS3_(void*, char*, int16_t, int64_t* ts, int64_t* s) {
  *ts = 1; *s = d_seq;
  return d_ok;
}
extern "C" bool vp_contract__ZN8facebook3wdt17LogEncoderDecoder32decodeDirectoryInvalidationEntryEPcsRl(void*, char*, int16_t, int64_t* ts) {
  *ts = 1;
  return d_ok;
}
extern "C" bool vp_contract__ZN8facebook3wdt17LogEncoderDecoder23decodeFileCreationEntryEPcsRlRNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES3_S3_(
    void*, char*, int16_t, int64_t* ts, std::string* n, int64_t* s, int64_t* l) {
  *ts = 1; *n = *d_name; *s = d_seq; *l = d_a;
  return d_ok;
}
extern "C" bool vp_contract__ZN8facebook3wdt17LogEncoderDecoder15decodeLogHeaderEPcsRlRiRNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESB_S3_(
    void*, char*, int16_t, int64_t* ts, int* v, std::string* id, std::string* ip, int64_t* c) {
  *ts = 1; *v = d_version; *id = *d_name; *ip = *d_ip; *c = d_a;
  return d_ok;
}
VP_HARNESS(log_decode_raw) {
  LogEncoderDecoder* ed = new LogEncoderDecoder();
  int64_t n = vp_range("n", 0, MAXE);
  char* b = (char*)vp_buf("buf", n);
  int16_t m = (int16_t)n;
  int64_t ts, s = 0, o = 0, l = 0;
  int v = 0;
  std::string x, y;
  int which = (int)vp_range("type", 0, 5);
  bool ok = which == 0 ? ed->decodeLogHeader(b, m, ts, v, x, y, l) : which == 1 ? ed->decodeFileCreationEntry(b, m, ts, x, s, l) : which == 2 ? ed->decodeBlockWriteEntry(b, m, ts, s, o, l) :
      which == 3 ? ed->decodeFileResizeEntry(b, m, ts, s, l) : which == 4 ? ed->decodeFileInvalidationEntry(b, m, ts, s) : ed->decodeDirectoryInvalidationEntry(b, m, ts);
  if (ok) vp_assert(ts >= 0 && s >= 0 && o >= 0 && l >= 0 && v >= 0, "decoded numbers are not negative");
}
// ------------------------------------------------------------ replaying one entry
static LogParser* g_p;
static int64_t g_a, g_i, g_disk0, g_log0;
static bool g_haveA, g_haveI, g_hdr;
// any state: at most one intact file (id a, disk size, logged size) and one invalid id
static LogParser* arbitraryParser(WdtOptions* o) {
  LogEncoderDecoder* ed = new LogEncoderDecoder();
  LogParser* p = new LogParser(*o, *ed, "/d/", "rid", 77, false);
  g_hdr = p->headerParsed_ = vp_bool("header");
  g_a = vp_range("fileId", 0, B);
  g_i = vp_range("invalidId", 0, B);
  vp_assume(g_a != g_i);
  g_haveA = vp_bool("haveFile");
  g_haveI = vp_bool("haveInvalid");
  g_disk0 = vp_range("diskSize", 0, B);
  g_log0 = vp_range("loggedSize", 0, B);
  std::string nm = "f";
  if (g_haveA) {
    p->fileInfoMap_.emplace(g_a, FileChunksInfo(g_a, nm, g_disk0));
    p->seqIdToSizeMap_.emplace(g_a, g_log0);
    Interval c(3, 3);
    p->fileInfoMap_.find(g_a)->second.addChunk(c);
  }
  if (g_haveI) p->invalidSeqIds_.insert(g_i);
  return p;
}
// file a, the invalid id and nothing else, unchanged
static void unchanged(LogParser* p, bool exceptA = false, bool exceptI = false) {
  if (!exceptA) {
    vp_assert((int)p->fileInfoMap_.size() == (g_haveA ? 1 : 0), "no other file appears");
    if (g_haveA) {
      auto it = p->fileInfoMap_.find(g_a);
      vp_assert(it != p->fileInfoMap_.end() && it->second.getFileSize() == g_disk0 && it->second.getChunks().size() == 1 && p->seqIdToSizeMap_.find(g_a)->second == g_log0, "the file is unchanged");
    }
  }
  if (!exceptI) vp_assert((int)p->invalidSeqIds_.size() == (g_haveI ? 1 : 0), "the set of invalid ids is unchanged");
  vp_assert(p->headerParsed_ == g_hdr, "the header state is unchanged");
}
static char e_raw[16];
#define ENTRY(call) \
  decoded(); \
  int64_t seq = d_seq; \
  ErrorCode r = p->call
VP_HARNESS(log_block) {
  envReset();
  WdtOptions* o = options();
  LogParser* p = arbitraryParser(o);
  ENTRY(processBlockWriteEntry(e_raw, 5));
  int64_t off = d_a, len = d_b;
  bool fits = len <= g_disk0 && off <= g_disk0 - len;
  ErrorCode want = !g_hdr || !d_ok || o->resume_using_dir_tree ? INVALID_LOG : g_haveI && seq == g_i ? OK : g_haveA && seq == g_a && fits ? OK : INVALID_LOG;
  vp_assert(r == want, "a block is accepted exactly for a known file and inside what the disk holds");
  if (r == OK && g_haveA && seq == g_a) {
    FileChunksInfo& f = p->fileInfoMap_.find(g_a)->second;
    vp_assert(f.getChunks().size() == 2 && f.getChunks()[1].start_ == off && f.getChunks()[1].end_ == off + len, "exactly the written block counts as received");
    vp_assert(f.getChunks()[0].start_ == 3 && f.getChunks()[0].end_ == 3 && f.getFileSize() == g_disk0, "earlier blocks stay");
    unchanged(p, true);
  } else unchanged(p);
}
VP_HARNESS(log_create) {
  envReset();
  WdtOptions* o = options();
  LogParser* p = arbitraryParser(o);
  std::string nm = "g";
  d_name = &nm;
  ENTRY(processFileCreationEntry(e_raw, 5));
  int64_t size = d_a;
  bool dup = (g_haveA && seq == g_a) || (g_haveI && seq == g_i);
  vp_assert(r == (!g_hdr || !d_ok || o->resume_using_dir_tree || dup ? INVALID_LOG : OK), "a file is created once, after a header");
  if (r != OK) { unchanged(p); return; }
  bool good = e_statOk && (o->disable_preallocation || e_statSize >= size);
  vp_assert((p->fileInfoMap_.find(seq) != p->fileInfoMap_.end()) == good, "a file counts only if it is on the disk with at least its size");
  vp_assert((p->invalidSeqIds_.find(seq) != p->invalidSeqIds_.end()) == !good, "otherwise it is remembered as invalid");
  vp_assert((int)p->fileInfoMap_.size() == (g_haveA ? 1 : 0) + (good ? 1 : 0) && (int)p->invalidSeqIds_.size() == (g_haveI ? 1 : 0) + (good ? 0 : 1), "no other file changes");
  if (good) {
    FileChunksInfo& f = p->fileInfoMap_.find(seq)->second;
    vp_assert(f.getSeqId() == seq && f.getFileName() == "g" && f.getFileSize() == e_statSize && f.getChunks().size() == 0, "no bytes are trusted yet");
    vp_assert(p->seqIdToSizeMap_.find(seq)->second == size, "the logged size is remembered");
  }
  if (g_haveA) vp_assert(p->fileInfoMap_.find(g_a)->second.getChunks().size() == 1 && p->seqIdToSizeMap_.find(g_a)->second == g_log0, "other files are unchanged");
}
VP_HARNESS(log_resize) {
  envReset();
  WdtOptions* o = options();
  LogParser* p = arbitraryParser(o);
  ENTRY(processFileResizeEntry(e_raw, 5));
  int64_t size = d_a;
  ErrorCode want = !g_hdr || !d_ok || o->resume_using_dir_tree ? INVALID_LOG : g_haveI && seq == g_i ? OK :
      !(g_haveA && seq == g_a) || size < g_log0 || (!o->disable_preallocation && size > g_disk0) ? INVALID_LOG : OK;
  vp_assert(r == want, "a resize is accepted exactly for a known file that does not shrink and is on the disk");
  if (r == OK && g_haveA && seq == g_a) {
    vp_assert(p->seqIdToSizeMap_.find(g_a)->second == size, "the new size is remembered");
    p->seqIdToSizeMap_.find(g_a)->second = g_log0;
  }
  unchanged(p);
}
VP_HARNESS(log_invalidate_entry) {
  envReset();
  WdtOptions* o = options();
  LogParser* p = arbitraryParser(o);
  ENTRY(processFileInvalidationEntry(e_raw, 5));
  bool isA = g_haveA && seq == g_a, isI = g_haveI && seq == g_i;
  vp_assert(r == (!g_hdr || !d_ok || o->resume_using_dir_tree || !(isA || isI) ? INVALID_LOG : OK), "only a known file is invalidated");
  if (r != OK) { unchanged(p); return; }
  vp_assert(p->fileInfoMap_.find(seq) == p->fileInfoMap_.end() && p->invalidSeqIds_.find(seq) == p->invalidSeqIds_.end(), "nothing of an invalidated file is trusted");
  vp_assert(p->seqIdToSizeMap_.find(seq) == p->seqIdToSizeMap_.end(), "an invalidated file leaves no trace");
  unchanged(p, isA, isI);
}
VP_HARNESS(log_header_entry) {
  envReset();
  WdtOptions* o = options();
  LogParser* p = arbitraryParser(o);
  bool sameId = vp_bool("sameRecoveryId"), noIp = vp_bool("noIp");
  std::string id = sameId ? "rid" : "other", lip = noIp ? "" : "ip", ip = "old";
  d_name = &id;
  d_ip = &lip;
  d_version = (int)vp_range("version", 0, INT32_MAX);
  decoded();
  ErrorCode r = p->processHeaderEntry(e_raw, 16, 5, ip);
  vp_assert(r == (!d_ok || noIp || d_version != TransferLogManager::WLOG_VERSION ? INVALID_LOG : !sameId || d_a != 77 ? INCONSISTENT_DIRECTORY : OK),
            "a header of another transfer or configuration makes the directory inconsistent");
  if (r == OK) { vp_assert(p->headerParsed_ && ip == "ip", "the header names the sender"); g_hdr = true; }
  unchanged(p);
  r = p->processDirectoryInvalidationEntry(e_raw, 5);
  vp_assert(d_ok ? r == INCONSISTENT_DIRECTORY && !p->headerParsed_ : r == INVALID_LOG, "an invalidated directory is inconsistent until the next header");
}
// ------------------------------------------------------------ replaying the whole log
static char* e_file;
static int64_t e_fileLen, e_pos, e_ack, e_reads;   // bytes of the log, read position, end of the last complete entry
static bool e_readFail, e_body;       // e_body: the length of an entry was read, its bytes come next
extern "C" ssize_t vp_env_read(int fd, void* b, size_t n) {
  vp_assert(fd == e_fd && !e_closed, "only the log's descriptor is read");
  vp_assert((int64_t)n >= 1, "something is read");
  if (vp_bool("read_fails")) { e_readFail = true; return -1; }
  if (!e_body) e_ack = e_pos;  // the next entry begins
  e_body = !e_body;
  int64_t left = e_fileLen - e_pos;
  int64_t r = (int64_t)n < left ? (int64_t)n : left;
  if (n == 2) {
    if (r >= 1) ((char*)b)[0] = e_file[e_pos];
    if (r >= 2) ((char*)b)[1] = e_file[e_pos + 1];
  } else memcpy(b, e_file + e_pos, r);
  e_pos += r;
  return r;
}
// contracts of the entry handlers: any verdict; discharged by log_block ... log_header_entry
static bool k_on;                      // the state before the entry: consistent
static bool k_dirty, k_invalid;        // an inconsistency whose files were not yet dropped; an invalid entry was seen
static int64_t k_calls, k_merged, k_clears;
static int entryVerdict(int type, char* b, int64_t n, bool header) {
  vp_assert(!k_invalid && !k_dirty, "nothing follows an invalid entry, and inconsistent data is dropped at once");
  vp_assert(header || k_on, "after an inconsistency only a header counts");
  vp_assert(n == e_pos - e_ack - 3 && n >= 0, "the handler gets exactly the entry's bytes");
  vp_assert(e_file[e_ack + 2] == type, "each entry is handled by its own type");
  int64_t i = vp_range("byte", 0, TransferLogManager::kMaxEntryLength);
  if (i < n) vp_assert(b[i] == e_file[e_ack + 3 + i], "the handler sees the entry as it is on disk");
  k_calls++;
  int v = (int)vp_range("verdict", 0, 2);
  if (v == 0) { k_on = true; return OK; }
  if (v == 1) { k_invalid = true; return INVALID_LOG; }
  k_on = false;
  k_dirty = true;
  return INCONSISTENT_DIRECTORY;
}
extern "C" int vp_contract__ZN8facebook3wdt9LogParser18processHeaderEntryEPcllRNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, char* b, int64_t max, int64_t n, std::string*) {
  vp_assert(max >= n, "the header fits");
  return entryVerdict(TransferLogManager::HEADER, b, n, true);
}
extern "C" int vp_contract__ZN8facebook3wdt9LogParser24processFileCreationEntryEPcl(void*, char* b, int64_t n) { return entryVerdict(TransferLogManager::FILE_CREATION, b, n, false); }
extern "C" int vp_contract__ZN8facebook3wdt9LogParser22processBlockWriteEntryEPcl(void*, char* b, int64_t n) { return entryVerdict(TransferLogManager::BLOCK_WRITE, b, n, false); }
extern "C" int vp_contract__ZN8facebook3wdt9LogParser22processFileResizeEntryEPcl(void*, char* b, int64_t n) { return entryVerdict(TransferLogManager::FILE_RESIZE, b, n, false); }
extern "C" int vp_contract__ZN8facebook3wdt9LogParser28processFileInvalidationEntryEPcl(void*, char* b, int64_t n) { return entryVerdict(TransferLogManager::FILE_INVALIDATION, b, n, false); }
extern "C" int vp_contract__ZN8facebook3wdt9LogParser33processDirectoryInvalidationEntryEPcl(void*, char* b, int64_t n) { return entryVerdict(TransferLogManager::DIRECTORY_INVALIDATION, b, n, false); }
extern "C" void vp_contract__ZN8facebook3wdt9LogParser15clearParsedDataEv(LogParser*) { k_dirty = false; k_clears++; }
extern "C" void vp_contract__ZN8facebook3wdt14FileChunksInfo11mergeChunksEv(FileChunksInfo*) { k_merged++; }
VP_HARNESS(log_clear) {
  envReset();
  WdtOptions* o = options();
  LogParser* p = arbitraryParser(o);
  p->clearParsedData();
  vp_assert(p->fileInfoMap_.empty() && p->seqIdToSizeMap_.empty() && p->invalidSeqIds_.empty(), "nothing replayed before an inconsistency is trusted");
}
static void parseAll(LogParser* p) {
  e_logSize = e_fileLen;
  e_file = vp_buf("log", e_fileLen);
  e_pos = e_ack = 0;
  e_readFail = e_body = k_dirty = k_invalid = false;
  k_on = true;
  k_calls = k_merged = k_clears = 0;
  std::string ip;
  std::vector<FileChunksInfo> out;
  ErrorCode r = p->parseLog(e_fd, ip, out);
  int64_t tail = e_fileLen - e_ack;
  vp_assert(!k_dirty, "files replayed before an inconsistency are dropped");
  vp_assert(r == OK || r == INVALID_LOG || r == INCONSISTENT_DIRECTORY, "the replay has a verdict");
  if (r != OK && e_short == 0) vp_assert(out.size() == 0, "a log that is not accepted yields no files");
  if (r == OK) {
    vp_assert(!k_invalid && k_on && !e_readFail, "an accepted log has no invalid entry and no unread part");
    vp_assert(e_pos == e_fileLen, "the whole log is replayed");
    vp_assert((int)out.size() == (g_haveA ? 1 : 0), "every surviving file is reported");
    vp_assert(k_merged == (int)out.size(), "blocks of every file are merged");
    if (g_haveA) vp_assert(out[0].getSeqId() == g_a && out[0].getFileSize() == g_disk0 && out[0].getChunks().size() == 1, "the file is reported as replayed");
    vp_assert(e_writes == (g_haveI ? 1 : 0) && e_short == 0, "every invalid file is invalidated on disk");
  }
  if (r == INCONSISTENT_DIRECTORY) vp_assert(!k_on && !k_invalid, "inconsistency is reported only if the log says so");
  if (r != INVALID_LOG && tail > 0) vp_assert(e_truncs == 1 && e_truncTo == e_ack && e_seekTo == e_ack, "a cut last entry is removed, and only it");
  if (tail == 0 || k_invalid) vp_assert(e_truncs == 0, "complete entries are never removed");
}
VP_HARNESS(log_parse) {
  envReset();
  e_statOk = true;
  LogEncoderDecoder* ed = new LogEncoderDecoder();
  LogParser* p = new LogParser(*new WdtOptions(), *ed, "/d/", "rid", 77, false);
  g_haveA = g_haveI = false;
  e_fileLen = vp_size("logLen");
  parseAll(p);
}
VP_HARNESS(log_parse_end) {
  envReset();
  LogParser* p = arbitraryParser(options());
  e_fileLen = vp_range("logLen", 0, 1);
  parseAll(p);
}
// ------------------------------------------------------------ the manager
static TransferLogManager* g_m;
static bool e_lockFails;
static int64_t e_opens, e_locks;
extern "C" int vp_env_open(const char* p, int flags, ...) {
  e_opens++;
  vp_assert(p[0] == '/' && p[1] == 'd' && p[2] == '/' && p[3] == '.', "the log lies in the destination directory");
  vp_assert((flags & O_TRUNC) == 0, "opening never destroys an old log");
  vp_assert(!e_opened, "one descriptor at a time");
  if (vp_bool("open_fails")) { e_errno = (int)vp_range("open_errno", 1, 130); return -1; }
  e_opened = true;
  e_closed = false;
  return e_fd;
}
extern "C" int vp_env_flock(int fd, int op) {
  vp_assert(fd == e_fd && e_opened && (op & LOCK_EX), "the log is locked for one transfer");
  e_locks++;
  e_lockFails = vp_bool("flock_fails");
  return e_lockFails ? -1 : 0;
}
extern "C" void vp_env_exit(int) { vp_assume(false); }  // checkLog gives up if the log was replaced under it
static void newManager(bool resumption = true) {
  envReset();
  e_opens = e_locks = 0;
  e_opened = e_lockFails = false;
  e_statOk = true;
  WdtOptions* o = options();
  g_m = new TransferLogManager(*o, "/d");
}
static void openManager() {
  newManager();
  e_opened = true;
  g_m->fd_ = vp_bool("log_open") ? e_fd : -1;
  g_m->headerWritten_ = vp_bool("header_written");
  g_m->resumptionStatus_ = vp_bool("status_ok") ? OK : vp_bool("inconsistent") ? INCONSISTENT_DIRECTORY : INVALID_LOG;
}
VP_HARNESS(log_open) {
  newManager();
  ErrorCode r = g_m->openLog();
  vp_assert(r == OK || r == TRANSFER_LOG_ACQUIRE_ERROR, "opening has a verdict");
  if (r == OK) {
    vp_assert(g_m->fd_ == e_fd && e_opened && e_locks == 1 && !e_lockFails, "the log is open and locked");
    g_m->close();
  }
  vp_assert(g_m->fd_ == -1, "without the lock the log is not used");
}
VP_HARNESS(log_invalidate) {
  openManager();
  int64_t was = g_m->fd_;
  ErrorCode st = g_m->resumptionStatus_;
  g_m->invalidateDirectory();
  if (was < 0) {
    vp_assert(e_writes == 0 && g_m->resumptionStatus_ == st, "a closed log is not written");
    return;
  }
  vp_assert(g_m->resumptionStatus_ == INCONSISTENT_DIRECTORY && e_writes == 1, "the invalidation is logged");
  if (e_short == 0) vp_assert(g_m->fd_ == e_fd && e_fsyncs == 1 && e_closes == 0, "the invalidation reaches the disk before anything else");
  else vp_assert(g_m->fd_ == -1 && e_closes == 1, "a log that cannot be written is closed");
}
static int k_len;
extern "C" int64_t vp_contract__ZN8facebook3wdt17LogEncoderDecoder15encodeLogHeaderEPclRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESA_l(
    void*, char* b, int64_t max, const std::string* id, const std::string* ip, int64_t cfg) {
  vp_assert(id->size() == 2 && (*id)[0] == 'i' && ip->size() == 1 && cfg == 9, "the header names this transfer");
  if (vp_bool("too_long")) { k_len = -1; return -1; }
  k_len = (int)vp_range("headerLen", 4, max);
  return k_len;
}
VP_HARNESS(log_header) {
  openManager();
  g_m->recoveryId_ = "id";
  g_m->senderIp_ = "s";
  g_m->config_ = 9;
  int was = g_m->fd_;
  bool hw = g_m->headerWritten_;
  ErrorCode st = g_m->resumptionStatus_;
  g_m->writeLogHeader();
  bool done = was >= 0 && k_len > 0 && e_writes == 1 && e_short == 0;
  if (was < 0) vp_assert(e_writes == 0, "a closed log is not written");
  if (done) vp_assert(e_wlen == k_len && g_m->fd_ == e_fd && g_m->headerWritten_ && g_m->resumptionStatus_ == OK && e_fsyncs == 1, "the whole header reaches the disk");
  else vp_assert(g_m->fd_ == -1 && g_m->headerWritten_ == hw && g_m->resumptionStatus_ == st, "without a header nothing is logged");
}
VP_HARNESS(log_sender) {
  openManager();
  bool empty = vp_bool("noIp"), sameIp = vp_bool("sameIp");
  g_m->senderIp_ = empty ? "" : "a";
  int was = g_m->fd_;
  bool ok = g_m->verifySenderIp(sameIp ? "a" : "b");
  bool mismatch = !empty && !sameIp && !g_m->options_.disable_sender_verification_during_resumption;
  vp_assert(ok == (was >= 0 && !mismatch), "a log of another sender is refused");
  if (was >= 0) {
    vp_assert(e_writes == (mismatch ? 1 : 0), "and the directory is invalidated");
    if (mismatch) vp_assert(g_m->resumptionStatus_ == INCONSISTENT_DIRECTORY, "and the directory is invalidated");
    vp_assert(g_m->senderIp_ == (sameIp ? "a" : "b"), "the new sender is remembered");
  }
}
// the encoders: some bytes of some length (log_codec*)
static char g_enc[64];
static int64_t k_encLen, k_enc;
static int64_t encoded(char* b, int64_t max) {
  vp_assert(max >= 64, "entries have room");
  memcpy(b, g_enc, 64);
  k_enc++;
  return k_encLen;
}
static int64_t k_seq, k_a, k_b;
extern "C" int64_t vp_contract__ZN8facebook3wdt17LogEncoderDecoder21encodeBlockWriteEntryEPcllll(void*, char* b, int64_t max, int64_t s, int64_t o, int64_t l) {
  vp_assert(s == k_seq && o == k_a && l == k_b, "the entry names the block"); return encoded(b, max);
}
extern "C" int64_t vp_contract__ZN8facebook3wdt17LogEncoderDecoder21encodeFileResizeEntryEPclll(void*, char* b, int64_t max, int64_t s, int64_t l) {
  vp_assert(s == k_seq && l == k_a, "the entry names the file"); return encoded(b, max);
}
extern "C" int64_t vp_contract__ZN8facebook3wdt17LogEncoderDecoder27encodeFileInvalidationEntryEPclRKl(void*, char* b, int64_t max, const int64_t* s) {
  vp_assert(*s == k_seq, "the entry names the file"); return encoded(b, max);
}
extern "C" int64_t vp_contract__ZN8facebook3wdt17LogEncoderDecoder23encodeFileCreationEntryEPclRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEll(
    void*, char* b, int64_t max, const std::string* n, int64_t s, int64_t l) {
  vp_assert(s == k_seq && l == k_a && *n == "nm", "the entry names the file"); return encoded(b, max);
}
VP_HARNESS(log_add) {
  openManager();
  k_seq = vp_range("seq", 0, B); k_a = vp_range("a", 0, B); k_b = vp_range("b", 0, B);
  k_encLen = vp_range("len", 4, 64);
  k_enc = 0;
  char* x = vp_buf("enc", 64);
  memcpy(g_enc, x, 64);
  bool before = vp_bool("pending");
  if (before) g_m->entries_.push_back("first");
  int which = (int)vp_range("which", 0, 3);
  if (which == 0) g_m->addFileCreationEntry("nm", k_seq, k_a);
  else if (which == 1) g_m->addBlockWriteEntry(k_seq, k_a, k_b);
  else if (which == 2) g_m->addFileResizeEntry(k_seq, k_a);
  else g_m->addFileInvalidationEntry(k_seq);
  bool on = g_m->fd_ >= 0 && (g_m->headerWritten_ || which == 3);
  size_t n = before ? 1 : 0;
  vp_assert(g_m->entries_.size() == n + (on ? 1 : 0), "one entry per event, and only after the header");
  if (before) vp_assert(g_m->entries_[0] == "first", "pending entries stay");
  if (on) {
    std::string e(g_enc, k_encLen);
    vp_assert(vp_same_string(g_m->entries_[n], e), "the entry is logged as encoded");
  }
  vp_assert(e_writes == 0, "the writer thread writes");
}
// the writer thread: entries arrive at any time, each is written once, in order
static std::string* g_all;
static int k_added, k_left, k_wakes;
static void arrive(const char* nm) {
  if (k_left > 0 && vp_bool(nm)) {
    k_left--;
    int64_t n = vp_range("entryLen", 1, 64);
    std::string e(vp_buf("entry", n), n);
    g_m->entries_.push_back(e);
    g_all->append(e);
    k_added++;
  }
}
static bool e_joined;
extern "C" int vp_env_pthread_cond_clockwait(void*, void*, clockid_t, const struct timespec*) {
  arrive("while waiting");
  if (!g_m->finished_) g_m->finished_ = vp_bool("shutdown") || --k_wakes <= 0;
  return 0;
}
VP_HARNESS(log_write) {
  newManager();
  g_m->fd_ = e_fd;
  g_m->finished_ = vp_bool("finished_early");
  g_keep = true;
  std::string all, disk;
  g_all = &all;
  g_disk = &disk;
  k_added = 0;
  k_left = k_wakes = vp_bound_(2, 3);
  arrive("before");
  g_m->threadProcWriteEntriesToDisk();
  if (e_short == 0) {
    std::string rest;
    for (auto& e : g_m->entries_) rest.append(e);
    disk.append(rest);
    vp_assert(vp_same_string(all, disk), "every entry is written once, in order");
    vp_assert(rest.empty() && g_m->finished_, "nothing is left behind at shutdown");
  }
  g_m->fd_ = -1;
}
extern "C" void vp_env__ZNSt6thread4joinEv(std::thread* t) {
  vp_assert(g_m->finished_ && !e_closed, "the writer is told to finish while the log is open");
  g_m->threadProcWriteEntriesToDisk();
  e_joined = true;
  memset((void*)t, 0, sizeof(std::thread));
}
VP_HARNESS(log_close) {
  openManager();
  bool thread = g_m->fd_ >= 0 && !g_m->options_.resume_using_dir_tree && vp_bool("writer_runs");
  int64_t one = 1;
  if (thread) memcpy((void*)&g_m->writerThread_, &one, 8);
  std::string all, disk;
  g_all = &all;
  g_disk = &disk;
  g_keep = true;
  k_left = 1;
  e_joined = false;
  if (thread) arrive("pending");
  k_left = 0;
  int was = g_m->fd_;
  g_m->closeLog();
  vp_assert(g_m->fd_ == -1 && e_closes == (was >= 0 ? 1 : 0), "the log is closed");
  if (thread) {
    vp_assert(e_joined, "the writer thread has ended");
    if (e_short == 0) vp_assert(vp_same_string(all, disk), "pending entries are written first");
  }
}
// ------------------------------------------------------------ replay and its consequences
static ErrorCode k_verdict;
extern "C" int vp_contract__ZN8facebook3wdt9LogParser8parseLogEiRNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERSt6vectorINS0_14FileChunksInfoESaISA_EE(
    LogParser* p, int fd, std::string* ip, std::vector<FileChunksInfo>* out) {
  vp_assert(fd == e_fd && !e_closed, "the open log is replayed");
  vp_assert(p->config_ == 77 && p->recoveryId_ == "rid" && p->rootDir_ == "/d/", "against this transfer");
  k_verdict = vp_bool("valid") ? OK : vp_bool("invalid") ? INVALID_LOG : INCONSISTENT_DIRECTORY;
  return k_verdict;
}
VP_HARNESS(log_match) {
  openManager();
  int was = g_m->fd_;
  std::vector<FileChunksInfo> out;
  ErrorCode r = g_m->parseAndMatch("rid", 77, out);
  if (was < 0) { vp_assert(r == INVALID_LOG, "no log, no resumption"); return; }
  vp_assert(r == g_m->resumptionStatus_ && g_m->getResumptionStatus() == r && r == k_verdict, "the verdict of the replay is the status");
  if (r == OK) vp_assert(g_m->fd_ == e_fd && e_writes == 0, "a valid log stays open");
  if (r == INVALID_LOG) vp_assert(g_m->fd_ == -1 && e_writes == 0, "an invalid log is kept and never written again");
  if (r == INCONSISTENT_DIRECTORY) vp_assert(e_writes == 1, "the inconsistency is recorded");
  if (r != OK) vp_assert(g_m->startThread() != OK || g_m->options_.resume_using_dir_tree, "nothing is logged after a failed replay");
}
static int k_n, k_good;
static FileChunksInfo* k_files[3];
extern "C" int vp_contract__ZN8facebook3wdt18TransferLogManager13parseAndMatchERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEElRSt6vectorINS0_14FileChunksInfoESaISB_EE(
    TransferLogManager* m, const std::string* id, int64_t cfg, std::vector<FileChunksInfo>* out) {
  vp_assert(e_seeks == 1 && e_seekTo == 0 && e_fsyncs == 1, "the whole log is replayed, after it reached the disk");
  if (vp_bool("replay_fails")) return INVALID_LOG;
  k_good = 1;
  k_n = 0;
  while (k_n < vp_bound_(1, 2) && vp_bool("file")) {
    int64_t size = vp_range("size", 0, B), seq = k_n + 1;
    std::string nm = "nm";
    out->emplace_back(seq, nm, size);
    int c = 0;
    int64_t total = 0;
    while (c < 2 && vp_bool("chunk")) {
      int64_t s = vp_range("start", 0, B), e = vp_range("end", 0, B);
      vp_assume(s <= e && e <= size);
      out->back().addChunk(Interval(s, e));
      total += e - s;
      c++;
    }
    if (c != 1 || total != size) k_good = 0;
    k_n++;
  }
  k_a = k_n >= 1 ? (*out)[0].getFileSize() : 0;
  return OK;
}
static int k_created, k_blocks;
extern "C" void vp_contract__ZN8facebook3wdt18TransferLogManager20addFileCreationEntryERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEll(TransferLogManager* m, const std::string* n, int64_t seq, int64_t size) {
  vp_assert(m->headerWritten_ && e_truncs == 1, "files follow the new header");
  k_created++;
  vp_assert(*n == "nm" && seq == k_created && (seq != 1 || size == k_a), "every file is kept with its id and size");
  m->entries_.push_back("C");
}
extern "C" void vp_contract__ZN8facebook3wdt18TransferLogManager18addBlockWriteEntryElll(TransferLogManager* m, int64_t seq, int64_t off, int64_t len) {
  k_blocks++;
  vp_assert(seq == k_blocks && k_blocks == k_created && off == 0 && (seq != 1 || len == k_a), "every file is kept as one whole block");
  m->entries_.push_back("B");
}
extern "C" void vp_contract__ZN8facebook3wdt18TransferLogManager14writeLogHeaderEv(TransferLogManager* m) {
  vp_assert(e_truncs == 1 && e_truncTo == 0 && e_seeks == 2 && e_seekTo == 0, "the header is the first entry");
  m->headerWritten_ = true;
}
VP_HARNESS(log_compact) {
  openManager();
  g_m->headerWritten_ = true;
  int was = g_m->fd_;
  k_n = k_good = k_created = k_blocks = 0;
  std::string disk;
  g_disk = &disk;
  g_keep = true;
  g_m->compactLog();
  if (was < 0) { vp_assert(e_truncs == 0 && e_writes == 0, "a closed log is not compacted"); return; }
  if (!k_good) vp_assert(e_truncs == 0 && e_writes == 0, "only a log of complete files is rewritten");
  if (k_created > 0 || k_blocks > 0) {
    vp_assert(k_created == k_n && k_blocks == k_n, "every file is kept");
    vp_assert(e_writes == 1, "the entries are written");
    if (e_short == 0) vp_assert((int)disk.size() == 2 * k_n, "all of them");
  }
}
