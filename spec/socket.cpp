// Contracts of WdtSocket: one connection over an adversarial network.
#include "vp.h"
#include <cerrno>
#include <sys/socket.h>
#include <unistd.h>
#include <wdt/util/WdtSocket.h>
using namespace facebook::wdt;

static WdtSocket* g_k;
static ThreadCtx* g_ctx;
class GAbort : public IAbortChecker {
 public:
  bool shouldAbort() const override { return vp_bool("abort"); }
};
static int g_verified;      // calls of the tag callback
static void mk(EncryptionType type = ENC_NONE) {
  auto* o = new WdtOptions();
  o->abort_check_interval_millis = vp_i32("abortInterval");
  o->read_timeout_millis = vp_i32("readTimeout");
  o->write_timeout_millis = vp_i32("writeTimeout");
  o->encryption_tag_interval_bytes = vp_i32("tagInterval");
  g_ctx = new ThreadCtx(*o, false, 0);
  g_ctx->setAbortChecker(new GAbort());
  EncryptionParams p;
  p.type_ = type;
  if (type != ENC_NONE) {
    p.data_ = vp_str("key");
    vp_assume(!p.data_.empty());
  }
  g_k = new WdtSocket(*g_ctx, 7, p, vp_range("ivInterval", 0, INT64_MAX / 2), [] { g_verified++; });
  g_k->fd_ = 5;
}

// ------------------------------------------------------------ reading and writing the descriptor
static int e_errno;
static char* e_base;
static int64_t e_len, e_done, e_last;
static bool e_eof, e_err, e_io;
static int e_errAt;
extern "C" int* vp_env___errno_location() { return &e_errno; }
static int64_t ioStep(int fd, const void* buf, int64_t n) {
  vp_assert(fd == 5, "the connection's own descriptor is used");
  vp_assert(!e_eof && !e_err, "nothing follows the end of the stream or an error");
  vp_assert((char*)buf == e_base + e_done && n == e_len - e_done && n > 0, "each step continues right behind the bytes before, inside the buffer");
  int64_t r = vp_range("io", -1, n);
  if (r < 0) {
    e_errno = (int)vp_range("errno", 1, 130);
    if (e_errno != EINTR && e_errno != EAGAIN) e_err = true;
  } else if (r == 0) e_eof = true;
  else e_done += r;
  return e_last = r;
}
extern "C" ssize_t vp_env_read(int fd, void* buf, size_t n) { return ioStep(fd, buf, (int64_t)n); }
extern "C" ssize_t vp_env_write(int fd, const void* buf, size_t n) { return ioStep(fd, buf, (int64_t)n); }
static void ioHarness(bool wr, bool full) {
  mk();
  e_len = vp_range("n", 1, INT32_MAX);
  e_base = vp_buf("buf", e_len);
  e_done = e_last = 0;
  e_eof = e_err = false;
  int timeout = vp_i32("timeout");
  int64_t r = wr ? g_k->writeWithAbortCheck(e_base, e_len, timeout, full) : g_k->readWithAbortCheck(e_base, e_len, timeout, full);
  vp_assert(r == e_done || (r == -1 && e_done == 0), "exactly the bytes transferred are reported");
  vp_assert(r != 0 || e_eof, "nothing is reported without an error only at the end of the stream");
  if (r > 0 && !full) vp_assert(e_last == r, "one step is enough if not everything is needed");
}
VP_HARNESS(sock_io_read) { ioHarness(false, true); }
VP_HARNESS(sock_io_write) { ioHarness(true, true); }
VP_HARNESS(sock_io_read_once) { ioHarness(false, false); }
VP_HARNESS(sock_io_write_once) { ioHarness(true, false); }

// ------------------------------------------------------------ by the contract above
static int g_ios, g_iosOk;
static int64_t g_ioSum;
static const char* g_ioNext;
static bool g_ioStop;
extern "C" int64_t vp_contract__ZN8facebook3wdt9WdtSocket18readWithAbortCheckEPclib(WdtSocket*, char* buf, int64_t n, int timeout, bool full) {
  vp_assert(n >= 0, "pre: a number of bytes is asked for");
  int64_t r = vp_range("ioRead", -1, INT32_MAX);
  vp_assume(r <= n);
  e_errno = (int)vp_range("errno", 0, 130);
  g_ios++;
  return g_ioSum = r;
}
extern "C" int64_t vp_contract__ZN8facebook3wdt9WdtSocket19writeWithAbortCheckEPKclib(WdtSocket*, const char* buf, int64_t n, int timeout, bool full) {
  vp_assert(full && n > 0 && buf == g_ioNext + g_ioSum && !g_ioStop, "pre: the rest is written right behind what was written before");
  int64_t r = vp_range("ioWrite", -1, INT32_MAX);
  vp_assume(r <= n);
  if (r > 0) {
    g_ioSum += r;
  } else g_ioStop = true;
  g_ios++;
  return r;
}
VP_HARNESS(sock_read_internal) {
  mk();
  WdtSocket* k = g_k;
  int n = (int)vp_range("n", 1, INT32_MAX);
  char* b = vp_buf("buf", n);
  k->readErrorCode_ = (ErrorCode)vp_range("before", 0, AUTH_ERROR);
  int r = k->readInternal(b, n, vp_i32("timeout"), vp_bool("full"));
  vp_assert(g_ios == 1 && r == g_ioSum, "what was read is reported");
  vp_assert((k->readErrorCode_ == OK) == (r > 0), "a read succeeds or leaves an error");
  if (r < 0) vp_assert(k->readErrorCode_ == (e_errno == EAGAIN || e_errno == EINTR ? WDT_TIMEOUT : SOCKET_READ_ERROR), "only a timeout can be tried again");
  if (r == 0) vp_assert(k->readErrorCode_ == SOCKET_READ_ERROR, "the end of the stream is an error");
}
VP_HARNESS(sock_write_internal) {
  mk();
  WdtSocket* k = g_k;
  int n = (int)vp_range("n", 1, 1 << 30);
  char* b = vp_buf("buf", n);
  g_ioNext = b;
  g_ioSum = g_ios = 0;
  g_ioStop = false;
  bool retry = vp_bool("retry");
  int r = k->writeInternal(b, n, vp_i32("timeout"), retry);
  vp_assert(r == n ? g_ioSum == n && k->writeErrorCode_ == OK : r == -1 && g_ioSum < n && k->writeErrorCode_ == SOCKET_WRITE_ERROR, "a write is complete or leaves an error");
  if (r == n) vp_cover("written");
  else if (retry) vp_assert(g_ioStop, "a write tried again goes on while it makes progress");
}

// ------------------------------------------------------------ position of tags
static int64_t g_pos, g_rem, g_int;    // bytes of plain text so far on the connection, modulo the tag interval
VP_HARNESS(sock_next_tag) {
  mk();
  int64_t total = vp_range("total", 0, INT64_MAX / 2);
  int64_t i = vp_range("interval", 1, INT32_MAX);
  int64_t n = g_k->computeNextTagOffset(total, i);
  vp_assert(n >= 0 && n <= i && (n < i || total == 0), "the next tag lies within one interval");
  vp_assert((total + n) % i == 0, "behind a whole number of intervals");
  if (total == 0) vp_assert(n == i, "not at the start");
}
static int g_tags, g_ivs, g_tagOk, g_iosPart;
static int64_t g_tagAt;        // position of the last tag dealt with
static bool g_dead;            // something failed
static char *g_next, *g_end;
static int g_callbacks;
extern "C" int vp_contract__ZN8facebook3wdt9WdtSocket20computeNextTagOffsetEll(WdtSocket*, int64_t total, int64_t i) {
  vp_assert(total == g_pos && i == g_int, "pre: for the bytes of the connection so far");
  return (int)(total == 0 ? i : g_rem == 0 ? 0 : i - g_rem);
}
static bool g_top;
static int piece(char* buf, int n, bool tagged);
static bool g_low;
static int64_t rawRead(WdtSocket* k, char* buf, int n);
static int rawWrite(WdtSocket* k, const char* buf, int n);
static int wpiece(const char* buf, int n, bool tagged);
// one stretch of bytes between two tags
static int stretch(char* buf, int n, bool all) {
  vp_assert(buf == g_next && n > 0 && n <= g_end - g_next, "pre: the bytes follow each other in the buffer");
  vp_assert(g_rem + n <= g_int, "no bytes are transferred across a tag");
  vp_assert(g_rem != 0 || g_pos == 0 || g_tagAt == g_pos, "every byte behind a tag comes after that tag");
  vp_assert(!g_dead, "nothing follows a failure");
  int64_t r = vp_range("stretch", -1, INT32_MAX);
  vp_assume(r <= n);
  g_iosPart++;
  if (all) vp_assume(r == n || r == -1);
  if (r <= 0) {
    g_dead = true;
    return (int)r;
  }
  g_next += r;
  g_pos += r;
  g_rem = g_rem + r == g_int ? 0 : g_rem + r;
  return (int)r;
}
extern "C" int vp_contract__ZN8facebook3wdt9WdtSocket14readAndDecryptEPciib(WdtSocket* k, char* buf, int n, int timeout, bool full) {
  if (g_top) return piece(buf, n, false);
  int r = stretch(buf, n, false);
  k->readErrorCode_ = r > 0 ? OK : r == 0 ? SOCKET_READ_ERROR : (ErrorCode)vp_range("stretchErr", 1, AUTH_ERROR);
  return r;
}
extern "C" int vp_contract__ZN8facebook3wdt9WdtSocket15encryptAndWriteEPciib(WdtSocket* k, char* buf, int n, int timeout, bool retry) {
  if (g_top) return wpiece(buf, n, false);
  int r = stretch(buf, n, true);
  if (r != n) k->writeErrorCode_ = vp_bool("encErr") ? ENCRYPTION_ERROR : SOCKET_WRITE_ERROR;
  return r;
}
static void due() {
  vp_assert(g_pos > 0 && g_rem == 0, "a tag follows every whole interval");
  vp_assert(g_tagAt != g_pos, "each of them once");
  vp_assert(!g_dead, "nothing follows a failure");
  g_tagAt = g_pos;
  g_tags++;
}
static std::string* g_tag;
extern "C" void vp_contract__ZN8facebook3wdt9WdtSocket17readEncryptionTagB5cxx11Ev(std::string* out, WdtSocket* k) {
  due();
  bool ok = vp_bool("tagRead");
  new (out) std::string(ok ? "0123456789abcdef" : "");
  if (!ok) {
    g_dead = true;
    k->readErrorCode_ = ENCRYPTION_ERROR;
  } else k->readErrorCode_ = OK;
}
extern "C" bool vp_contract__ZN8facebook3wdt12AESDecryptor9verifyTagERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(AESDecryptor*, const std::string* tag) {
  vp_assert(tag->size() == 16 && g_tags == 1 && g_tagOk == 0, "the tag read is verified");
  g_tagOk = vp_bool("tagOk") ? 1 : 2;
  if (g_tagOk == 2) g_dead = true;
  return g_tagOk == 1;
}
extern "C" bool vp_contract__ZN8facebook3wdt9WdtSocket26checkAndChangeDecryptionIvERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(WdtSocket*, const std::string* tag) {
  vp_assert(g_tagOk == 1 && g_tagAt == g_pos, "the key stream may change right behind a verified tag");
  g_ivs++;
  bool ok = vp_bool("ivOk");
  if (!ok) g_dead = true;
  return ok;
}
extern "C" bool vp_contract__ZN8facebook3wdt9WdtSocket18writeEncryptionTagEv(WdtSocket* k) {
  due();
  bool ok = vp_bool("tagWritten");
  if (!ok) {
    g_dead = true;
    k->writeErrorCode_ = SOCKET_WRITE_ERROR;
  }
  return ok;
}
extern "C" bool vp_contract__ZN8facebook3wdt9WdtSocket26checkAndChangeEncryptionIvEv(WdtSocket* k) {
  vp_assert(g_tagAt == g_pos, "the key stream may change right behind a tag");
  g_ivs++;
  bool ok = vp_bool("ivOk");
  if (!ok) g_dead = true;
  return ok;
}
static void atPosition() {
  mk(ENC_AES128_GCM);
  int32_t in = vp_i32("interval");
  vp_assume(in >= 1);
  g_int = in;
  g_pos = vp_range("pos", 0, INT64_MAX / 4);
  g_rem = g_pos % g_int;
}
VP_HARNESS(sock_read_tag) {
  atPosition();
  WdtSocket* k = g_k;
  k->readTagInterval_ = (int)g_int;
  k->totalRead_ = g_pos;
  int64_t p0 = g_pos;
  int n = (int)vp_range("n", 1, INT32_MAX);
  vp_assume(n <= g_int);
  char* b = g_next = vp_buf("buf", n);
  g_end = b + n;
  g_tagAt = -1;
  int r = k->readAndDecryptWithTag(b, n, vp_i32("timeout"), vp_bool("full"));
  vp_assert(k->totalRead_ == g_pos, "the position is kept");
  vp_assert(r > 0 ? g_pos == p0 + r && g_next == b + r : g_pos == p0 || g_tags == 1, "exactly the bytes decrypted in order are delivered");
  vp_assert(g_verified == (g_tagOk == 1 ? 1 : 0), "what lies before a tag is reported verified only if the tag is right");
  vp_assert(g_tags == g_ivs || r <= 0, "nothing is delivered after a tag that could not be verified");
  vp_assert(r > 0 || k->readErrorCode_ != OK, "no bytes come with an error");
  if (g_tags && g_tagOk != 1) vp_assert(r == -1 && k->readErrorCode_ == ENCRYPTION_ERROR, "a wrong tag is an error");
  if (r == n && g_tags == 0) vp_assert(g_rem == 0 || g_rem >= n || p0 == 0, "no tag is left out");
}
VP_HARNESS(sock_write_tag) {
  atPosition();
  WdtSocket* k = g_k;
  k->writeTagInterval_ = (int)g_int;
  k->totalWritten_ = g_pos;
  int64_t p0 = g_pos;
  int n = (int)vp_range("n", 1, INT32_MAX);
  vp_assume(n <= g_int);
  char* b = g_next = vp_buf("buf", n);
  g_end = b + n;
  g_tagAt = -1;
  int r = k->encryptAndWriteWithTag(b, n, vp_i32("timeout"), vp_bool("retry"));
  if (r == n) {
    vp_assert(g_pos == p0 + n && k->totalWritten_ == g_pos && g_next == g_end && !g_dead, "everything was written, in order");
    vp_assert(g_tags == g_ivs, "with the tags in between");
  } else {
    vp_assert(r == -1 && g_dead && k->writeErrorCode_ != OK, "or an error stays, so that nothing is written after it");
  }
}
// reading again after a timeout right behind a tag
VP_HARNESS(sock_read_tag_again) {
  atPosition();
  WdtSocket* k = g_k;
  k->readTagInterval_ = (int)g_int;
  k->totalRead_ = g_pos;
  int n = (int)vp_range("n", 1, INT32_MAX);
  vp_assume(n <= g_int);
  g_next = vp_buf("buf", n);
  g_end = g_next + n;
  g_tagAt = -1;
  k->readAndDecryptWithTag(g_next, n, vp_i32("timeout"), vp_bool("full"));
  if (k->readErrorCode_ != WDT_TIMEOUT && k->readErrorCode_ != OK) return;
  vp_assume(g_tagOk == 1 && g_tagAt == g_pos);
  g_dead = false;
  g_tags = g_tagOk = 0;
  int n2 = (int)vp_range("n2", 1, INT32_MAX);
  vp_assume(n2 <= g_int);
  g_next = vp_buf("buf2", n2);
  g_end = g_next + n2;
  k->readAndDecryptWithTag(g_next, n2, vp_i32("timeout"), vp_bool("full"));
  vp_assert(k->totalRead_ == g_pos, "reading again goes on where it stopped");
}

// ------------------------------------------------------------ reading and writing a connection
static int g_setTimes;
static ErrorCode g_setRes;
static bool g_plain;           // the peer sent something else than encryption settings
static char g_firstByte;
extern "C" void vp_contract__ZN8facebook3wdt9WdtSocket26readEncryptionSettingsOnceEi(WdtSocket* k, int) {
  g_setTimes++;
  if (!k->encryptionParams_.isSet() || k->encryptionSettingsRead_) return;
  k->readErrorCode_ = g_setRes;
  if (g_setRes == OK) {
    k->encryptionSettingsRead_ = true;
    k->readTagInterval_ = (int)g_int;
  }
  if (g_setRes == UNEXPECTED_CMD_ERROR) {
    g_plain = true;
    k->buf_[0] = g_firstByte;
  }
}
static WdtSocket* g_rk;
static bool g_enc0;
static int g_got;
static int g_skip;
static bool g_tagged, g_fail;
static int piece(char* buf, int n, bool tagged) {
  vp_assert(buf == g_next + g_got && n <= g_end - g_next - g_got && (n > 0 || (g_skip && n == 0)), "pre: the bytes follow each other in the buffer");
  vp_assert(!g_fail, "nothing is read after a failure");
  if (tagged) vp_assert(n <= g_int, "pre: at most one tag lies within one step");
  int r = vp_i32("piece");
  vp_assume(r >= -1);
  vp_assume(r <= n);
  if (r <= 0) {
    g_fail = true;
    g_rk->readErrorCode_ = (ErrorCode)vp_range("pieceErr", 1, AUTH_ERROR);
  } else {
    g_got += r;
    g_rk->readErrorCode_ = OK;
  }
  return (int)r;
}
extern "C" int vp_contract__ZN8facebook3wdt9WdtSocket21readAndDecryptWithTagEPciib(WdtSocket* k, char* buf, int n, int, bool) {
  vp_assert(k->encryptionSettingsRead_ && k->encryptionParams_.isSet() && g_int > 0, "tags are read once the peer asked for them");
  return piece(buf, n, true);
}
extern "C" int vp_contract__ZN8facebook3wdt9WdtSocket12readInternalEPciib(WdtSocket* k, char* buf, int n, int, bool) {
  if (g_low) return (int)rawRead(k, buf, n);
  vp_assert(!g_enc0 || (g_plain && k->supportUnencryptedPeer_), "plain bytes are accepted only where no encryption is wanted, or the peer is allowed not to encrypt");
  return piece(buf, n, false);
}
static void readHarness(bool enc, bool read0, bool tags) {
  mk(enc ? ENC_AES128_GCM : ENC_NONE);
  WdtSocket* k = g_rk = g_k;
  g_top = true;
  g_enc0 = enc;
  g_int = tags ? vp_range("interval", 1, 1 << 30) : 0;
  k->encryptionSettingsRead_ = read0;
  k->readTagInterval_ = k->encryptionSettingsRead_ ? (int)g_int : 0;
  k->supportUnencryptedPeer_ = vp_bool("unencryptedPeer");
  k->readErrorCode_ = (ErrorCode)vp_range("before", 0, AUTH_ERROR);
  ErrorCode before = k->readErrorCode_;
  g_setRes = (ErrorCode)vp_range("settings", 0, AUTH_ERROR);
  g_firstByte = (char)vp_i32("firstByte");
  int n = (int)vp_range("n", 2, 1 << 30);
  g_next = vp_buf("buf", n);
  g_end = g_next + n;
  g_got = 0;
  g_fail = g_plain = false;
  g_skip = enc && !read0 && k->supportUnencryptedPeer_ && g_setRes == UNEXPECTED_CMD_ERROR ? 1 : 0;
  char* b = g_next;
  g_next += g_skip;
  int r = k->readWithTimeout(b, n, vp_i32("timeout"), vp_bool("full"));
  if (before != OK && before != WDT_TIMEOUT) {
    vp_assert(r == -1 && g_got == 0 && g_setTimes == 0 && k->readErrorCode_ == before, "a failed connection is not read again");
    return;
  }
  if (enc && !read0 && g_setRes != OK && !g_skip) {
    vp_assert(r == -1 && g_got == 0 && k->readErrorCode_ != OK, "nothing is read before the peer's encryption settings");
    return;
  }
  if (g_skip) vp_assert(r >= 1 && b[0] == g_firstByte && !k->encryptionParams_.isSet(), "the first byte of a plain peer is delivered");
  vp_assert(r > 0 ? r == g_got + g_skip : g_got == 0, "exactly the bytes read in order are delivered");
  vp_assert(r > 0 || k->readErrorCode_ != OK, "no bytes come with an error");
  if (g_fail) vp_assert(k->readErrorCode_ != OK, "a failure is remembered");
  vp_assert(k->encryptionParams_.isSet() == (enc && !g_skip), "encryption is not given up otherwise");
}
VP_HARNESS(sock_read_plain) { readHarness(false, false, false); }
VP_HARNESS(sock_read_first) { readHarness(true, false, false); }
VP_HARNESS(sock_read_first_tags) { readHarness(true, false, true); }
VP_HARNESS(sock_read_next) { readHarness(true, true, false); }
VP_HARNESS(sock_read_next_tags) { readHarness(true, true, true); }
extern "C" void vp_contract__ZN8facebook3wdt9WdtSocket27writeEncryptionSettingsOnceEv(WdtSocket* k) {
  g_setTimes++;
  if (!k->encryptionParams_.isSet() || k->encryptionSettingsWritten_) return;
  if (g_setRes == OK) k->encryptionSettingsWritten_ = true;
  else k->writeErrorCode_ = g_setRes;
}
static int wpiece(const char* buf, int n, bool tagged) {
  vp_assert(buf == g_next + g_got && n > 0 && n <= g_end - g_next - g_got, "pre: the bytes follow each other in the buffer");
  vp_assert(!g_fail, "nothing is written after a failure");
  if (tagged) vp_assert(n <= g_int, "pre: at most one tag lies within one step");
  if (vp_bool("wfail")) {
    g_fail = true;
    g_rk->writeErrorCode_ = vp_bool("encErr") ? ENCRYPTION_ERROR : SOCKET_WRITE_ERROR;
    return -1;
  }
  g_got += n;
  return n;
}
extern "C" int vp_contract__ZN8facebook3wdt9WdtSocket22encryptAndWriteWithTagEPciib(WdtSocket* k, char* buf, int n, int, bool) {
  vp_assert(k->encryptionSettingsWritten_ && k->encryptionParams_.isSet() && g_int > 0, "tags are written once the peer knows about them");
  return wpiece(buf, n, true);
}
extern "C" int vp_contract__ZN8facebook3wdt9WdtSocket13writeInternalEPKciib(WdtSocket* k, const char* buf, int n, int, bool) {
  if (g_low) return rawWrite(k, buf, n);
  vp_assert(!g_enc0, "plain bytes are written only where no encryption is wanted");
  return wpiece(buf, n, false);
}
VP_HARNESS(sock_write) {
  bool enc = vp_bool("encrypt");
  mk(enc ? ENC_AES128_GCM : ENC_NONE);
  WdtSocket* k = g_rk = g_k;
  g_top = true;
  g_enc0 = enc;
  g_int = vp_range("interval", 0, 1 << 30);
  k->encryptionSettingsWritten_ = vp_bool("settingsWritten");
  k->writeTagInterval_ = (int)g_int;
  k->writeErrorCode_ = (ErrorCode)vp_range("before", 0, AUTH_ERROR);
  ErrorCode before = k->writeErrorCode_;
  g_setRes = (ErrorCode)vp_range("settings", 0, AUTH_ERROR);
  bool wrote0 = k->encryptionSettingsWritten_;
  int n = (int)vp_range("n", 1, 1 << 30);
  g_next = vp_buf("buf", n);
  g_end = g_next + n;
  g_got = 0;
  g_fail = false;
  int r = k->write(g_next, n, vp_bool("retry"));
  if (before != OK) {
    vp_assert(r == -1 && g_got == 0 && g_setTimes == 0 && k->writeErrorCode_ == before, "a failed connection is not written again");
    return;
  }
  if (enc && !wrote0 && g_setRes != OK) {
    vp_assert(r == -1 && g_got == 0 && k->writeErrorCode_ == g_setRes, "nothing is written before the encryption settings");
    return;
  }
  vp_assert(r == n ? g_got == n && !g_fail && k->writeErrorCode_ == OK : r == -1 && g_fail && k->writeErrorCode_ != OK, "everything was written in order, or an error stays");
}

// ------------------------------------------------------------ encryption settings, tags, initialization vectors, closing
static int g_writes, g_reads, g_starts, g_finishes;
static char *g_sent, g_sentByte;
static int g_sentLen, g_at;    // any byte of what is written stands for all of them
static bool g_ioFail, g_startOk, g_finishOk, g_decoded;
static const char* g_iv;
static void *g_dec, *g_enc, *g_finished;
static char g_tagBytes[16];
static int64_t rawRead(WdtSocket* k, char* buf, int n) {
  vp_assert(n > 0 && !g_ioFail, "pre: something is asked for, and nothing after a failure");
  g_reads++;
  int r = vp_i32("rawRead");
  vp_assume(r >= -1 && r <= n);
  if (r != n) g_ioFail = true;
  k->readErrorCode_ = r > 0 ? OK : r == 0 ? SOCKET_READ_ERROR : vp_bool("timedOut") ? WDT_TIMEOUT : SOCKET_READ_ERROR;
  return r;
}
static int rawWrite(WdtSocket* k, const char* buf, int n) {
  vp_assert(n > 0 && !g_ioFail, "pre: something is written, and nothing after a failure");
  g_writes++;
  g_sent = (char*)buf;
  g_sentLen = n;
  if (n == 16) g_sentByte = buf[g_at];
  if (vp_bool("rawWriteFail")) {
    g_ioFail = true;
    k->writeErrorCode_ = SOCKET_WRITE_ERROR;
    return -1;
  }
  return n;
}
static void low(EncryptionType t) {
  mk(t);
  g_low = true;
  g_startOk = vp_bool("start");
  g_finishOk = vp_bool("finish");
  g_iv = vp_buf("iv", 16);
  g_at = (int)vp_range("at", 0, 15);
}
extern "C" bool vp_contract__ZN8facebook3wdt12AESDecryptor5startERKNS0_16EncryptionParamsERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(AESDecryptor* d, const EncryptionParams* p, const std::string* iv) {
  vp_assert(p == &g_k->encryptionParams_, "the connection's own secret is used");
  vp_assert(!d->started_, "pre: not started");
  vp_assert(d == g_k->decryptor_.get(), "for the bytes that are read");
  g_starts++;
  g_dec = d;
  if (g_decoded) {
    vp_assert(iv->size() == 16, "with the initialization vector the peer sent");
    int i = (int)vp_range("ivAt", 0, 15);
    vp_assert((*iv)[i] == g_iv[i], "with the initialization vector the peer sent");
  }
  d->started_ = g_startOk;
  return g_startOk;
}
extern "C" bool vp_contract__ZN8facebook3wdt12AESEncryptor5startERKNS0_16EncryptionParamsERNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(AESEncryptor* d, const EncryptionParams* p, std::string* iv) {
  vp_assert(p == &g_k->encryptionParams_, "the connection's own secret is used");
  vp_assert(!d->started_, "pre: not started");
  vp_assert(d == g_k->encryptor_.get(), "for the bytes that are written");
  g_starts++;
  g_enc = d;
  if (g_startOk) *iv = std::string(g_iv, 16);
  d->started_ = g_startOk;
  return g_startOk;
}
static int32_t g_peerInt;
static EncryptionType g_peerType;
static bool g_decodeOk;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol24decodeEncryptionSettingsEPcRllRNS0_14EncryptionTypeERNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERi(char* src, int64_t* off, int64_t max, EncryptionType* t, std::string* iv, int32_t* interval) {
  vp_assert(src == g_k->buf_ && *off == 0 && max == Protocol::kEncryptionCmdLen && g_reads == 2 && !g_ioFail, "the settings are taken from what was read, once it is complete");
  if (!g_decodeOk) return false;
  *t = g_peerType;
  *interval = g_peerInt;
  *iv = std::string(g_iv, 16);
  g_decoded = true;
  return true;
}
VP_HARNESS(sock_settings_read) {
  low(vp_bool("gcm") ? ENC_AES128_GCM : ENC_AES128_CTR);
  WdtSocket* k = g_k;
  g_peerInt = vp_i32("peerInterval");
  g_peerType = (EncryptionType)vp_i32("peerType");
  g_decodeOk = vp_bool("decode");
  bool before = k->encryptionSettingsRead_ = vp_bool("already");
  EncryptionType mine = k->encryptionParams_.getType();
  k->buf_[0] = (char)vp_i32("first");
  char first = k->buf_[0];
  k->readEncryptionSettingsOnce(vp_i32("timeout"));
  if (before) {
    vp_assert(g_reads == 0 && g_starts == 0 && k->readErrorCode_ == OK, "the settings are read once");
    return;
  }
  bool good = !g_ioFail && first == Protocol::ENCRYPTION_CMD && g_decodeOk && g_peerType == mine && g_peerInt >= 0 && (g_peerInt == 0 || mine == ENC_AES128_GCM) && g_startOk;
  vp_assert(k->encryptionSettingsRead_ == good, "bytes are decrypted only after complete settings of the same kind of encryption");
  vp_assert((k->readErrorCode_ == OK) == good, "anything else is an error");
  if (good) vp_assert(g_starts == 1 && k->readTagInterval_ == g_peerInt && g_dec == k->decryptor_.get(), "the peer's initialization vector and tag interval are used");
  if (k->readErrorCode_ == WDT_TIMEOUT) vp_assert(g_reads == 1 && g_ioFail, "reading can be tried again only if nothing was consumed");
  if (k->readErrorCode_ == UNEXPECTED_CMD_ERROR) vp_assert(g_reads == 1 && !g_ioFail && first != Protocol::ENCRYPTION_CMD, "another command is recognised by its first byte, the only one consumed");
}
VP_HARNESS(sock_settings_write) {
  low(vp_bool("gcm") ? ENC_AES128_GCM : ENC_AES128_CTR);
  WdtSocket* k = g_k;
  bool before = k->encryptionSettingsWritten_ = vp_bool("already");
  EncryptionType mine = k->encryptionParams_.getType();
  int32_t in = vp_i32("interval");
  vp_assume(in >= 0);
  k->writeTagInterval_ = in;
  k->writeEncryptionSettingsOnce();
  if (before) {
    vp_assert(g_writes == 0 && g_starts == 0, "the settings are written once");
    return;
  }
  vp_assert(k->encryptionSettingsWritten_ == (g_startOk && !g_ioFail && g_writes == 1), "bytes are encrypted only after complete settings");
  vp_assert((k->writeErrorCode_ == OK) == k->encryptionSettingsWritten_, "anything else is an error");
  if (g_writes) {
    vp_assert(g_sentLen == Protocol::kEncryptionCmdLen && g_sent[0] == Protocol::ENCRYPTION_CMD, "the peer gets as many bytes as it reads");
    int64_t off = 1;
    EncryptionType t;
    std::string iv;
    int32_t interval;
    bool dec = Protocol::decodeEncryptionSettings(g_sent, off, g_sentLen, t, iv, interval);
    vp_assert(dec, "which it can decode");
    vp_assert(t == mine && interval == in && iv.size() == 16 && off == g_sentLen, "to this side's kind of encryption and tag interval");
    vp_assert(iv[g_at] == g_iv[g_at], "and to the initialization vector in use");
  }
}
// the first initialization vector lasts for as many bytes on both sides
static bool g_tagStr;
VP_HARNESS(sock_iv_enc) {
  low(ENC_AES128_GCM);
  WdtSocket* k = g_k;
  int64_t every = k->ivChangeInterval_;
  int32_t in = vp_i32("interval");
  vp_assume(in > 0);
  k->writeTagInterval_ = in;
  int64_t done = vp_range("processed", 0, INT64_MAX / 4);
  auto* old = k->encryptor_.get();
  old->numProcessed_ = done;
  bool due = every > 0 && done + in > every;
  bool r = k->checkAndChangeEncryptionIv();
  if (!due) vp_assert(r && g_writes == 0 && g_starts == 0 && k->encryptor_.get() == old, "the key stream goes on until the agreed number of bytes would be exceeded");
  else {
    vp_assert(g_starts == 1 && k->encryptor_->numProcessed_ == 0, "then it starts afresh");
    vp_assert(r == (g_startOk && !g_ioFail && g_writes == 1), "with a new initialization vector the peer gets");
    if (g_writes) {
      vp_assert(g_sentLen == 16 && g_sentByte == g_iv[g_at], "exactly that one");
    }
  }
}
extern "C" bool vp_contract__ZN8facebook3wdt12AESDecryptor6finishERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(AESDecryptor* d, const std::string* tag) {
  if (g_finishes++ == 0) {
    g_finished = d;
    g_tagStr = tag->size() == 16;
  }
  d->started_ = false;
  return g_finishOk;
}
VP_HARNESS(sock_iv_dec) {
  low(ENC_AES128_GCM);
  WdtSocket* k = g_k;
  int64_t every = k->ivChangeInterval_;
  int32_t in = vp_i32("interval");
  vp_assume(in > 0);
  k->readTagInterval_ = in;
  int64_t done = vp_range("processed", 0, INT64_MAX / 4);
  auto* old = k->decryptor_.get();
  old->numProcessed_ = done;
  old->started_ = true;
  std::string tag("0123456789abcdef");
  bool due = every > 0 && done + in > every;
  bool r = k->checkAndChangeDecryptionIv(tag);
  if (!due) vp_assert(r && g_reads == 0 && g_starts == 0 && k->decryptor_.get() == old, "the key stream goes on until the agreed number of bytes would be exceeded");
  else {
    vp_assert(r == (!g_ioFail && g_reads == 1 && g_finishOk && g_startOk), "then a new one is read, completely, and what came before it is verified");
    if (r) vp_assert(g_starts == 1 && g_dec == k->decryptor_.get() && k->decryptor_->numProcessed_ == 0 && g_finished == old && g_tagStr, "and decryption starts afresh");
  }
}
VP_HARNESS(sock_tag_read) {
  low(ENC_AES128_GCM);
  WdtSocket* k = g_k;
  std::string t = k->readEncryptionTag();
  vp_assert(g_reads == 1, "the tag is read");
  vp_assert(t.size() == (g_ioFail ? 0 : 16), "completely or not at all");
  vp_assert((k->readErrorCode_ == OK) == !g_ioFail, "otherwise there is an error");
  if (g_ioFail) vp_assert(k->readErrorCode_ == ENCRYPTION_ERROR, "that is not tried again");
}
extern "C" void vp_contract__ZN8facebook3wdt12AESEncryptor17computeCurrentTagB5cxx11Ev(std::string* out, AESEncryptor*) {
  new (out) std::string(g_finishOk ? "0123456789abcdef" : "");
}
extern "C" bool vp_contract__ZN8facebook3wdt12AESEncryptor6finishERNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(AESEncryptor* d, std::string* out) {
  g_finishes++;
  g_finished = d;
  out->clear();
  bool was = d->started_;
  d->started_ = false;
  if (!was) return true;
  if (g_finishOk && g_k->encryptionParams_.getType() == ENC_AES128_GCM) *out = std::string("0123456789abcdef");
  return g_finishOk;
}
VP_HARNESS(sock_tag_write) {
  low(ENC_AES128_GCM);
  WdtSocket* k = g_k;
  bool r = k->writeEncryptionTag();
  vp_assert(r == (g_finishOk && g_writes == 1 && !g_ioFail), "the tag is written completely or there is an error");
  vp_assert((k->writeErrorCode_ == OK) == r, "that stays");
  if (g_writes) vp_assert(g_sentLen == 16 && g_sentByte == "0123456789abcdef"[g_at], "the tag of what was encrypted so far");
}
VP_HARNESS(sock_finalize_reads) {
  bool gcm = vp_bool("gcm");
  low(gcm ? ENC_AES128_GCM : vp_bool("ctr") ? ENC_AES128_CTR : ENC_NONE);
  WdtSocket* k = g_k;
  bool tags = vp_bool("doTags");
  k->decryptor_->started_ = vp_bool("started");
  ErrorCode r = k->finalizeReads(tags);
  vp_assert(k->readsFinalized_ && g_finishes == 1 && g_finished == k->decryptor_.get(), "decryption ends");
  vp_assert(g_reads == (gcm && tags ? 1 : 0), "the last tag is read");
  vp_assert((r == OK) == (g_finishOk && !g_ioFail), "the end is good only if the last tag is there and right");
  if (gcm && tags && !g_ioFail) vp_assert(g_tagStr, "it is what is verified");
}
VP_HARNESS(sock_finalize_writes) {
  bool gcm = vp_bool("gcm");
  low(gcm ? ENC_AES128_GCM : vp_bool("ctr") ? ENC_AES128_CTR : ENC_NONE);
  WdtSocket* k = g_k;
  bool tags = vp_bool("doTags");
  bool was = k->encryptor_->started_ = vp_bool("started");
  ErrorCode r = k->finalizeWrites(tags);
  vp_assert(k->writesFinalized_ && g_finishes == 1 && !k->encryptor_->started_, "encryption ends");
  vp_assert(g_writes == (was && gcm && tags && g_finishOk ? 1 : 0), "the last tag is written");
  vp_assert((r == OK) == ((g_finishOk || !was) && !g_ioFail), "completely");
}
static ErrorCode g_finW, g_finR;
static int g_order, g_wAt, g_rAt, g_cAt;
extern "C" ErrorCode vp_contract__ZN8facebook3wdt9WdtSocket14finalizeWritesEb(WdtSocket* k, bool tags) {
  g_wAt = ++g_order;
  k->writesFinalized_ = true;
  return g_finW;
}
extern "C" ErrorCode vp_contract__ZN8facebook3wdt9WdtSocket13finalizeReadsEb(WdtSocket* k, bool tags) {
  g_rAt = ++g_order;
  k->readsFinalized_ = true;
  return g_finR;
}
static bool g_closeOk;
extern "C" int vp_env_close(int fd) {
  vp_assert(fd == 5 && g_cAt == 0, "the connection is closed once");
  g_cAt = ++g_order;
  return g_closeOk ? 0 : -1;
}
VP_HARNESS(sock_close) {
  mk(vp_bool("encrypted") ? ENC_AES128_GCM : ENC_NONE);
  WdtSocket* k = g_k;
  g_finW = vp_bool("finW") ? OK : ENCRYPTION_ERROR;
  g_finR = vp_bool("finR") ? OK : ENCRYPTION_ERROR;
  g_closeOk = vp_bool("close");
  bool open = vp_bool("open"), w0 = vp_bool("writesDone"), r0 = vp_bool("readsDone");
  k->fd_ = open ? 5 : -1;
  k->writesFinalized_ = w0;
  k->readsFinalized_ = r0;
  k->encryptionSettingsRead_ = vp_bool("s1");
  k->encryptionSettingsWritten_ = vp_bool("s2");
  k->totalRead_ = vp_range("totalRead", 0, INT64_MAX);
  k->totalWritten_ = vp_range("totalWritten", 0, INT64_MAX);
  k->readErrorCode_ = (ErrorCode)vp_range("re", 0, AUTH_ERROR);
  k->writeErrorCode_ = (ErrorCode)vp_range("we", 0, AUTH_ERROR);
  ErrorCode re = k->readErrorCode_, we = k->writeErrorCode_;
  auto* e = k->encryptor_.get();
  auto* d = k->decryptor_.get();
  ErrorCode r = k->closeConnectionInternal(vp_bool("tags"));
  if (!open) {
    vp_assert(r == OK && g_order == 0, "nothing happens to a connection that is not open");
    return;
  }
  vp_assert((g_wAt != 0) == !w0 && (g_rAt != 0) == !r0 && g_cAt == g_order, "both directions end before the connection is closed");
  bool rbad = re != OK && re != SOCKET_READ_ERROR && re != WDT_TIMEOUT && re != ENCRYPTION_ERROR;
  bool wbad = we != OK && we != SOCKET_WRITE_ERROR && we != ENCRYPTION_ERROR;
  bool good = g_closeOk && (w0 || g_finW == OK) && (r0 || g_finR == OK) && !rbad && !wbad;
  vp_assert((r == OK) == good, "a stream that did not end well is reported");
  vp_assert(k->fd_ < 0 && k->readErrorCode_ == OK && k->writeErrorCode_ == OK && !k->encryptionSettingsRead_ && !k->encryptionSettingsWritten_ &&
            !k->writesFinalized_ && !k->readsFinalized_ && k->totalRead_ == 0 && k->totalWritten_ == 0, "the next connection starts afresh");
  vp_assert(k->encryptor_.get() != e && k->decryptor_.get() != d && !k->encryptor_->started_ && !k->decryptor_->started_, "with no key stream left over");
}

VP_HARNESS(sock_next_peer) {
  mk(ENC_AES128_GCM);
  WdtSocket* k = g_rk = g_k;
  g_top = g_enc0 = true;
  k->supportUnencryptedPeer_ = true;
  g_setRes = UNEXPECTED_CMD_ERROR;
  int n = (int)vp_range("n", 2, 1 << 30);
  char* b = vp_buf("buf", n);
  g_next = b + 1;
  g_end = b + n;
  g_got = 0;
  g_fail = g_plain = false;
  std::string key = k->encryptionParams_.getSecret();
  k->readWithTimeout(b, n, vp_i32("timeout"), vp_bool("full"));
  vp_assert(!k->encryptionParams_.isSet(), "a plain peer turns encryption off");
  g_finW = g_finR = OK;
  g_closeOk = true;
  if (vp_bool("noCheck")) k->closeNoCheck();
  else k->closeConnection();
  k->setFd(5);
  vp_assert(k->encryptionParams_.getType() == ENC_AES128_GCM && k->encryptionParams_.getSecret() == key, "for that connection only");
}
