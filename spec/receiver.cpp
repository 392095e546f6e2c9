// Contracts of ReceiverThread: the receiving end of one connection, against any sender.
#include "vp.h"
#include <folly/hash/Checksum.h>
#include <wdt/Receiver.h>
#include <wdt/ReceiverThread.h>
#include <wdt/util/FileWriter.h>
namespace facebook { namespace wdt {
int64_t readAtLeast(IServerSocket& s, char* buf, int64_t max, int64_t atLeast, int64_t len);
int64_t readAtMost(IServerSocket& s, char* buf, int64_t max, int64_t atMost);
}}
using namespace facebook::wdt;

// ------------------------------------------------------------ the connection
static char* g_stream;     // every byte the peer sends on this connection, any content
static int64_t g_slen;     // how many
static int64_t g_pos;      // how many of them were read
static int64_t g_reads, g_lastRead;
static bool g_anyWrite;
static int64_t g_writes, g_wlen, g_wret;
static char g_w0;
static bool g_short;        // a write was not complete
static int64_t g_wantLen;   // with it, a message starts with its length
static bool g_lenOk;
static char* g_wbuf;
static EncryptionType g_enc;
static int g_closed;
static ErrorCode g_nonRetry, g_acceptRet, g_listenRet, g_eosRet, g_closeRet;
static int g_accepts, g_acceptTimeout;
static bool g_tryCur, g_acceptAsked;
static int g_ivOff;
// readAtLeast's own proof
static char* g_dst;
static int64_t g_dstLen;
static bool g_order;
class GSock : public IServerSocket {
 public:
  ErrorCode listen() override { return g_listenRet; }
  ErrorCode acceptNextConnection(int timeoutMillis, bool tryCurAddressFirst) override {
    g_accepts++;
    g_acceptTimeout = timeoutMillis;
    g_tryCur = tryCurAddressFirst;
    return g_acceptRet;
  }
  std::string getPeerIp() const override { return ""; }
  std::string getPeerPort() const override { return ""; }
  int getBackLog() const override { return 1; }
  void closeAllNoCheck() override { g_closed++; }
  int read(char* buf, int nbyte, bool tryFull = true) override {
    vp_assert(nbyte > 0, "a positive number of bytes is asked for");
    if (g_order) vp_assert(buf == g_dst + g_pos && g_pos + nbyte <= g_dstLen, "each read continues right after the bytes read before, inside the space given");
    int64_t k = vp_range("read", -1, nbyte);
    vp_assume(g_pos + k <= g_slen);
    g_reads++;
    if (k > 0) {
      memcpy(buf, g_stream + g_pos, k);
      g_pos += k;
    }
    g_lastRead = k;
    return (int)k;
  }
  int readWithTimeout(char* buf, int nbyte, int timeoutMs, bool tryFull) override { return read(buf, nbyte, tryFull); }
  int write(char* buf, int nbyte, bool retry = false) override {
    g_writes++;
    g_wlen = nbyte;
    g_wbuf = buf;
    g_w0 = buf[0];
    if (g_wantLen > 0) { g_lenOk = g_lenOk & (nbyte == g_wantLen + 4) & (folly::loadUnaligned<int32_t>(buf) == g_wantLen); g_wantLen = 0; }
    g_wret = vp_range("write", -1, nbyte);
    g_short = g_short | (g_wret != nbyte);
    return (int)g_wret;
  }
  ErrorCode shutdownWrites() override { return OK; }
  ErrorCode expectEndOfStream() override { return g_eosRet; }
  ErrorCode closeConnection() override { g_closed++; return g_closeRet; }
  void closeNoCheck() override { g_closed++; }
  int getFd() const override { return 5; }
  int getPort() const override { return 7; }
  EncryptionType getEncryptionType() const override { return g_enc; }
  ErrorCode getNonRetryableErrCode() const override { return g_nonRetry; }
  ErrorCode getReadErrCode() const override { return OK; }
  ErrorCode getWriteErrCode() const override { return OK; }
  void disableIvChange() override { g_ivOff++; }
};

// ------------------------------------------------------------ the file being written (contracts proved under C04)
static const BlockDetails* g_block;      // the block the header announced
static BlockDetails g_announced;
static int64_t g_dataStart;              // stream position of its first data byte
static int64_t g_written;
static int g_opened, g_synced, g_fclosed;
static bool g_wfail, g_track;
static bool g_nameOk;   // the announced name names a file in the destination (see creator_name)
extern "C" bool vp_contract__ZN8facebook3wdt11FileCreator14isValidRelPathERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const std::string*) { return g_nameOk = vp_bool("nameOk"); }
FileWriter::~FileWriter() {}
ErrorCode FileWriter::open() {
  vp_assert(g_opened == 0, "the block is opened once");
  vp_assert(g_nameOk, "only a file inside the destination is opened");
  g_opened++;
  g_block = blockDetails_;
  if (vp_bool("open_fails")) { g_wfail = true; return FILE_WRITE_ERROR; }
  return OK;
}
ErrorCode FileWriter::write(char* buf, int64_t size) {
  vp_assert(size > 0 && g_written + size <= blockDetails_->dataSize, "never more than the block's bytes are written");
  vp_assert(!g_wfail && g_synced == 0 && g_fclosed == 0, "data is written to an open healthy file");
  vp_assert(totalWritten_ == g_written, "nothing else counts as written");
  int64_t k = vp_range("anyByte", 0, size - 1);
  vp_assert(buf[k] == g_stream[g_dataStart + g_written + k], "the bytes written are the ones that follow the header, in order");
  if (vp_bool("write_fails")) {
    g_wfail = true;
    k = vp_range("partial", 0, size);
    g_written += k;
    totalWritten_ += k;
    return FILE_WRITE_ERROR;
  }
  g_written += size;
  totalWritten_ += size;
  return OK;
}
ErrorCode FileWriter::sync() {
  vp_assert(g_fclosed == 0, "synced before it is closed");
  g_synced++;
  if (vp_bool("sync_fails")) { g_wfail = true; return FILE_WRITE_ERROR; }
  return OK;
}
ErrorCode FileWriter::close() {
  g_fclosed++;
  if (vp_bool("close_fails")) { g_wfail = true; return FILE_WRITE_ERROR; }
  return OK;
}

// ------------------------------------------------------------ resumption log, throttler
static int g_logBlocks, g_logInvalid, g_logHeaders;
static int64_t g_logSeq, g_logOff, g_logSize;
static bool g_hdrBlockMode, g_hdrResuming;
void TransferLogManager::addBlockWriteEntry(int64_t seqId, int64_t offset, int64_t blockSize) { g_logBlocks++; g_logSeq = seqId; g_logOff = offset; g_logSize = blockSize; }
void TransferLogManager::addFileInvalidationEntry(int64_t seqId) { g_logInvalid++; g_logSeq = seqId; }
static int64_t g_throttled;
class GThrottler : public Throttler {
 public:
  explicit GThrottler(const ThrottlerOptions& o) : Throttler(o) {}
  void limit(ThreadCtx&, int64_t n) override { g_throttled += n; }
};

// ------------------------------------------------------------ checksum
static bool g_crcUsed;
static uint32_t g_crc;
static int64_t g_crcPos;
#ifdef VP_PROOF
extern "C" uint32_t vp_contract__ZN5folly6crc32cEPKhmj(const uint8_t* d, size_t n, uint32_t seed) {
  vp_assert(seed == g_crc, "the checksum continues from the bytes before");
  vp_assert((int64_t)n >= 0 && g_crcPos + (int64_t)n <= g_announced.dataSize, "only bytes of the block enter the checksum");
  if (n > 0) {
    int64_t k = vp_range("anyCrcByte", 0, n - 1);
    vp_assert((char)d[k] == g_stream[g_dataStart + g_crcPos + k], "every byte of the block enters the checksum, in order");
  }
  g_crcPos += n;
  g_crcUsed = true;
  g_crc = (uint32_t)vp_u64("crc");
  return g_crc;
}
#endif

// ------------------------------------------------------------ set-up
static ReceiverThread* g_t;
static Receiver* g_r;
static bool g_abort;
#ifdef VP_PROOF
extern "C" int vp_contract__ZNK8facebook3wdt7WdtBase15getCurAbortCodeEv(WdtBase*) {
  if (vp_bool("abort")) { g_abort = true; return ABORTED_BY_APPLICATION; }
  return OK;
}
#endif
static const int64_t KMAX = 1 << 30;
// stream position of the byte at buffer index i
static int64_t spos(int64_t i) { return g_pos - g_t->numRead_ - g_t->oldOffset_ + i; }
static void mk() {
  WdtTransferRequest req(0, 1, "/vp");
  g_r = new Receiver(req);
  g_r->options_.buffer_size = 8192;
  g_r->options_.enable_download_resumption = vp_bool("resumption");
  g_r->options_.resume_using_dir_tree = vp_bool("dir_tree");
  g_r->options_.delete_extra_files = vp_bool("delete_extra");
  auto* c = new ThreadsController(1);
  c->setNumFunnels(1);
  c->setNumConditions(1);
  g_t = new ReceiverThread(g_r, 0, 7, c);
  g_t->socket_.reset(new GSock());
  g_t->checkpoint_.port = 7;
  g_t->threadProtocolVersion_ = (int)vp_range("version", 1, 1000);
  g_t->bufSize_ = vp_range("bufSize", Protocol::kMaxHeader, KMAX);
  g_t->buf_ = vp_buf("buf", g_t->bufSize_);
  g_slen = vp_size("streamLen");
  g_stream = vp_buf("stream", g_slen);
  g_enc = (EncryptionType)vp_range("enc", ENC_NONE, NUM_ENC_TYPES - 1);
}
// what holds whenever the next command is about to be read: [off, off + numRead) of the buffer are the bytes read from
// the connection but not used yet. g_stream begins with the first of them.
static void pending() {
  g_t->off_ = vp_size("off");
  g_t->numRead_ = vp_size("numRead");
  vp_assume(g_t->off_ + g_t->numRead_ <= g_t->bufSize_ && g_t->numRead_ <= g_slen);
  g_pos = g_t->numRead_;
  memcpy(g_t->buf_ + g_t->off_, g_stream, g_t->numRead_);
}
// and what holds when it must be read again; j is any buffer index
static void checkPending(int64_t parsed) {
  vp_assert(g_t->off_ >= 0 && g_t->numRead_ >= 0 && g_t->off_ + g_t->numRead_ <= g_t->bufSize_, "the unread bytes are inside the buffer");
  vp_assert(g_pos - g_t->numRead_ == parsed, "the next command starts at the first byte not yet used");
  int64_t j = vp_size("anyUnread");
  vp_assume(j < g_t->numRead_);  // only at the end of a harness
  vp_assert(g_t->buf_[g_t->off_ + j] == g_stream[parsed + j], "the unread bytes are kept as they arrived");
}
// a command is being processed: its first byte is used
static void inCommand() {
  pending();
  vp_assume(g_t->numRead_ >= Protocol::kMinBufLength && g_t->bufSize_ - g_t->off_ >= Protocol::kMaxHeader);
  g_t->oldOffset_ = g_t->off_;
  g_t->off_++;
  g_t->curConnectionVerified_ = true;
  g_t->senderReadTimeout_ = vp_range("senderReadTimeout", 1, INT32_MAX);
  g_t->senderWriteTimeout_ = vp_range("senderWriteTimeout", 0, INT32_MAX);
}

// ------------------------------------------------------------ harnesses
VP_HARNESS(recv_read_at_least) {
  g_slen = vp_size("streamLen");
  g_stream = vp_buf("stream", g_slen);
  GSock s;
  int64_t max = vp_range("max", 1, KMAX), atLeast = vp_range("atLeast", 1, KMAX), len = vp_range("len", 0, KMAX);
  vp_assume(atLeast <= max && len <= max);
  char* buf = vp_buf("buf", max);
  g_dst = buf; g_dstLen = max; g_pos = len; g_order = true;
  vp_assume(g_slen >= len);
  int64_t r = readAtLeast(s, buf, max, atLeast, len);
  vp_assert(r <= max, "never more than the space given");
  vp_assert(r >= 0 ? r == g_pos : (g_pos == 0 && len == 0), "all bytes read are reported");
  vp_assert(r >= atLeast || g_reads > 0, "a short result means the connection broke");
  if (r < atLeast) vp_assert(g_lastRead <= 0, "reading stops early only at the end or an error");
}
VP_HARNESS(recv_read_at_most) {
  g_slen = vp_size("streamLen");
  g_stream = vp_buf("stream", g_slen);
  GSock s;
  int64_t max = vp_range("max", 1, KMAX), atMost = vp_range("atMost", 1, (int64_t)1 << 60);
  char* buf = vp_buf("buf", max);
  g_dst = buf; g_dstLen = max < atMost ? max : atMost; g_pos = 0; g_order = true;
  int64_t r = readAtMost(s, buf, max, atMost);
  vp_assert(r <= 0 ? g_pos == 0 : r == g_pos, "the bytes read are reported, never more than asked for");
}
#ifdef VP_PROOF
static bool g_decoded, g_headerRead;
static bool g_long;  // which half of the paths: the header has to be completed first, or not
// readAtLeast by its contract (recv_read_at_least): the bytes that follow land right after the len bytes at buf
extern "C" int64_t vp_contract__ZN8facebook3wdt11readAtLeastERNS0_13IServerSocketEPclll(IServerSocket* s, char* buf, int64_t max, int64_t atLeast, int64_t len) {
  vp_assert(len >= 0 && atLeast > 0 && atLeast <= max, "pre: room for the bytes asked for");
  if (!g_decoded) {
    vp_assume(g_long);
    g_headerRead = true;
  }
  if (len >= atLeast) return len;
  int64_t k = vp_range("more", -1, max);
  vp_assume(len + k <= max && g_pos + k <= g_slen);
  if (k <= 0) return len ? len : k;
  memcpy(buf + len, g_stream + g_pos, k);
  g_pos += k;
  return len + k;
}
extern "C" int64_t vp_contract__ZN8facebook3wdt10readAtMostERNS0_13IServerSocketEPcll(IServerSocket* s, char* buf, int64_t max, int64_t atMost) {
  vp_assert(max > 0 && atMost > 0, "pre: something to read");
  int64_t k = vp_range("some", -1, max);
  vp_assume(k <= atMost && g_pos + k <= g_slen);
  if (k > 0) {
    memcpy(buf, g_stream + g_pos, k);
    g_pos += k;
  }
  return k;
}
// decoders by their contracts (proved under C02 and C03): they read only [off, max), and move off forward inside it
static void decPre(char* src, int64_t off, int64_t max) {
  vp_assert(src == g_t->buf_ && off >= 0 && off <= max && max <= g_t->bufSize_, "pre: the decoder gets a range inside the buffer");
  vp_assert(max <= g_t->oldOffset_ + g_t->numRead_ , "pre: the decoder gets only bytes that were received");
  vp_assert(off < max, "pre: the decoder gets something");
  int64_t j = vp_range("anyInput", off, max - 1);
  vp_assert(src[j] == g_stream[spos(j)], "pre: the decoder gets the bytes that were received");
}
static int64_t decPost(int64_t off, int64_t max) {
  int64_t n = vp_size("decodedTo");
  vp_assume(n >= off && n <= max);
  return n;
}
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol12decodeHeaderEiPcRllRNS0_12BlockDetailsE(int, char* src, int64_t* off, int64_t max, BlockDetails* b) {
  decPre(src, *off, max);
  vp_assume(!g_long || g_headerRead);
  *off = decPost(*off, max);
  if (!vp_bool("decodeHeader")) return false;
  b->seqId = vp_range("seqId", 0, INT64_MAX);
  b->dataSize = vp_range("dataSize", 0, (int64_t)1 << 60);
  b->offset = vp_range("offset", 0, (int64_t)1 << 60);
  b->fileSize = vp_range("fileSize", 0, INT64_MAX);
  b->allocationStatus = (FileAllocationStatus)vp_range("alloc", NOT_EXISTS, TO_BE_DELETED);
  b->prevSeqId = vp_range("prev", 0, INT64_MAX);
  g_announced.seqId = b->seqId; g_announced.dataSize = b->dataSize; g_announced.offset = b->offset;
  g_announced.fileSize = b->fileSize; g_announced.allocationStatus = b->allocationStatus;
  g_dataStart = spos(*off);
  vp_assume(g_dataStart + b->dataSize <= g_slen || true);
  g_decoded = true;
  return true;
}
static int32_t g_recvCrc;
static int64_t g_footerEnd;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol12decodeFooterEPcRllRi(char* src, int64_t* off, int64_t max, int32_t* c) {
  decPre(src, *off, max);
  vp_assert(spos(*off) == g_dataStart + g_announced.dataSize + 1, "the footer is read right after the data");
  *off = decPost(*off, max);
  if (!vp_bool("decodeFooter")) return false;
  g_footerEnd = spos(*off);
  g_recvCrc = *c = vp_i32("recvCrc");
  return true;
}
// a verified block
static int g_marked;
static bool g_markOk;
extern "C" void vp_contract__ZN8facebook3wdt14ReceiverThread17markBlockVerifiedERKNS0_12BlockDetailsE(ReceiverThread*, const BlockDetails* b) {
  g_marked++;
  g_markOk = b->seqId == g_announced.seqId && b->offset == g_announced.offset && b->dataSize == g_announced.dataSize && b->allocationStatus == g_announced.allocationStatus;
}
extern "C" void vp_contract__ZN8facebook3wdt14ReceiverThread13sendHeartBeatEv(ReceiverThread*) {}
extern "C" void vp_contract__ZN8facebook3wdt8Receiver20addTransferLogHeaderEbb(Receiver*, bool bm, bool rs) { g_logHeaders++; g_hdrBlockMode = bm; g_hdrResuming = rs; }

static void recvFile(bool checksum, bool throttled, bool longHeader) {
  g_long = longHeader;
  mk();
  if (!checksum || longHeader) g_enc = throttled ? ENC_AES128_GCM : ENC_NONE;
  bool tagged = encryptionTypeToTagLen(g_enc) != 0;
  g_r->options_.enable_download_resumption = false;  // only matters for the log header, see recv_file_header
  inCommand();
  ReceiverThread* t = g_t;
  int64_t cmdStart = spos(t->oldOffset_);
  t->footerType_ = checksum ? WdtThread::CHECKSUM_FOOTER : WdtThread::NO_FOOTER;
  if (throttled) g_r->throttler_.reset(new GThrottler(ThrottlerOptions()));
  t->pendingCheckpointIndex_ = vp_i32("pendingIdx");
  t->checkpointIndex_ = vp_i32("idx");
  t->isBlockMode_ = vp_bool("blockMode");
  t->threadStats_.numBlocks_ = vp_range("numBlocks", 0, (int64_t)1 << 40);
  t->checkpoint_.numBlocks = vp_range("cpBlocks", 0, (int64_t)1 << 40);
  t->checkpoint_.lastBlockReceivedBytes = vp_range("staleBytes", 0, (int64_t)1 << 60);  // of a block that broke off earlier
  t->checkpoint_.lastBlockSeqId = vp_range("staleSeq", -1, INT64_MAX);
  t->checkpoint_.lastBlockOffset = vp_range("staleOff", 0, (int64_t)1 << 60);
  int64_t nb = t->checkpoint_.numBlocks, ns = t->threadStats_.numBlocks_;
  int st = t->processFileCmd();
  bool next = st == READ_NEXT_CMD;
  if (g_marked || !t->blocksWaitingVerification_.empty() || next) {
    vp_cover("block received");
    vp_assert(next && g_decoded, "a block counts only after a valid header");
    vp_assert(g_marked + (int)t->blocksWaitingVerification_.size() == 1, "a received block counts once");
    vp_assert(g_written == g_announced.dataSize, "a block counts only when every byte of it was written");
    vp_assert(!g_wfail && g_synced == 1 && g_fclosed == 1, "a block counts only after sync and close succeeded");
    vp_assert(g_opened == 1 || (g_announced.allocationStatus == TO_BE_DELETED && !g_r->options_.delete_extra_files), "a block counts only after its file was opened");
    if (t->footerType_ == WdtThread::CHECKSUM_FOOTER) {
      vp_assert(g_marked == 1 && (g_announced.dataSize == 0 || g_crcUsed) && g_crcPos == g_announced.dataSize, "every byte entered the checksum");
      vp_assert((uint32_t)g_recvCrc == g_crc, "a block counts only if its checksum matches");
    } else {
      vp_assert(tagged ? g_marked == 0 : g_marked == 1, "without checksum an authenticated block waits for its tag");
      if (tagged) {
        const BlockDetails& b = t->blocksWaitingVerification_[0];
        vp_assert(b.seqId == g_announced.seqId && b.offset == g_announced.offset && b.dataSize == g_announced.dataSize && b.allocationStatus == g_announced.allocationStatus, "the block waiting is the block received");
      }
    }
    if (g_marked) vp_assert(g_markOk, "the block counted is the block received");
    vp_assert(t->checkpointIndex_ == t->pendingCheckpointIndex_, "a good command takes over the pending checkpoint");
    vp_assert(t->checkpoint_.lastBlockReceivedBytes == 0, "a complete block leaves no partial block behind");
    if (g_r->throttler_) vp_assert(g_throttled >= g_announced.dataSize, "every byte is throttled");
    vp_assert(t->threadStats_.getLocalErrorCode() == OK, "no error is recorded for a good block");
    vp_assert(t->threadStats_.numBlocks_ == ns && t->checkpoint_.numBlocks == nb, "blocks are counted only through verification");
    checkPending(checksum ? g_footerEnd : g_dataStart + g_announced.dataSize);
  } else {
    vp_cover("block not received");
    vp_assert(st == ACCEPT_WITH_TIMEOUT || st == SEND_ABORT_CMD || st == FINISH_WITH_ERROR, "a block that fails ends the connection");
    vp_assert(t->threadStats_.getLocalErrorCode() != OK, "and records an error");
    vp_assert(t->checkpoint_.numBlocks == nb && t->threadStats_.numBlocks_ == ns, "and is not counted");
    if (g_decoded && t->footerType_ == WdtThread::NO_FOOTER && !tagged && t->checkpoint_.lastBlockReceivedBytes > 0)
      vp_assert(t->checkpoint_.lastBlockReceivedBytes == g_written && t->checkpoint_.lastBlockSeqId == g_announced.seqId && t->checkpoint_.lastBlockOffset == g_announced.offset,
                "a partial block is reported with exactly the bytes written");
    else
      vp_assert(t->checkpoint_.lastBlockReceivedBytes == 0, "a partial block is not reported if its bytes cannot be trusted");
  }
}
VP_HARNESS(recv_file) { recvFile(false, false, false); }
VP_HARNESS(recv_file_long) { recvFile(false, false, true); }
VP_HARNESS(recv_file_tag) { recvFile(false, true, false); }
VP_HARNESS(recv_file_tag_long) { recvFile(false, true, true); }
VP_HARNESS(recv_file_checksum) { recvFile(true, false, false); }
VP_HARNESS(recv_file_checksum_long) { recvFile(true, false, true); }

// ------------------------------------------------------------ the other commands
VP_HARNESS(recv_mark) {
  mk();
  auto* tl = new char[sizeof(TransferLogManager)];  // its two methods are the recorders above
  g_r->transferLogManager_.reset((TransferLogManager*)tl);
  BlockDetails b;
  b.seqId = vp_i64("seq"); b.offset = vp_i64("off"); b.dataSize = vp_range("size", 0, (int64_t)1 << 60);
  b.allocationStatus = (FileAllocationStatus)vp_range("alloc", NOT_EXISTS, TO_BE_DELETED);
  ReceiverThread* t = g_t;
  t->threadStats_.numBlocks_ = vp_range("numBlocks", 0, (int64_t)1 << 40);
  t->threadStats_.effectiveDataBytes_ = vp_range("bytes", 0, (int64_t)1 << 60);
  t->checkpoint_.numBlocks = vp_range("cpBlocks", 0, (int64_t)1 << 40);
  int64_t n = t->threadStats_.numBlocks_, c = t->checkpoint_.numBlocks, d = t->threadStats_.effectiveDataBytes_;
  bool logged = g_r->options_.enable_download_resumption && !g_r->options_.resume_using_dir_tree;
  t->markBlockVerified(b);
  vp_assert(t->threadStats_.numBlocks_ == n + 1 && t->checkpoint_.numBlocks == c + 1, "a verified block counts exactly once, for the report and for the checkpoint");
  vp_assert(t->threadStats_.effectiveDataBytes_ == d + b.dataSize, "its bytes count once");
  vp_assert(g_logBlocks + g_logInvalid == (logged ? 1 : 0), "with log based resumption a verified block is logged once");
  if (logged) vp_assert(g_logSeq == b.seqId && (b.allocationStatus == TO_BE_DELETED ? g_logInvalid == 1 : g_logOff == b.offset && g_logSize == b.dataSize), "the log names exactly the block, or the file deleted");
  (void)g_r->transferLogManager_.release();
}
static int64_t g_seqs[4];
static bool g_seqOk;
VP_HARNESS(recv_verified) {
  mk();
  int n = 0, most = vp_bound_(3, 4);
  while (n < most && vp_bool("more")) {
    BlockDetails b;
    b.seqId = n;
    b.dataSize = n;
    g_t->blocksWaitingVerification_.emplace_back(b);
    n++;
  }
  g_announced = BlockDetails();
  g_t->markReceivedBlocksVerified();
  vp_assert(g_marked == n, "every block waiting for its tag counts once");
  vp_assert(g_t->blocksWaitingVerification_.empty(), "and does not wait any longer");
}
VP_HARNESS(recv_reset) {
  mk();
  BlockDetails b;
  g_t->blocksWaitingVerification_.emplace_back(b);
  g_t->curConnectionVerified_ = vp_bool("verified");
  g_t->checkpoint_.numBlocks = vp_i64("n");
  g_t->checkpoint_.lastBlockReceivedBytes = vp_i64("m");
  g_t->threadStats_.numBlocks_ = vp_i64("k");
  g_t->threadStats_.localErrCode_ = ERROR;
  g_t->checkpointIndex_ = vp_i32("i"); g_t->pendingCheckpointIndex_ = vp_i32("p");
  g_t->newCheckpoints_.emplace_back(Checkpoint(3));
  g_t->off_ = vp_i64("off"); g_t->numRead_ = vp_i64("nr");
  g_t->senderReadTimeout_ = vp_i64("rt");
  g_t->reset();
  vp_assert(g_t->blocksWaitingVerification_.empty() && g_t->checkpoint_.numBlocks == 0 && g_t->checkpoint_.lastBlockReceivedBytes == 0 && g_t->threadStats_.getNumBlocks() == 0,
            "a new session starts without blocks of the last one");
  vp_assert(!g_t->curConnectionVerified_ && g_t->off_ == 0 && g_t->numRead_ == 0 && g_t->senderReadTimeout_ == -1 && g_t->threadStats_.getLocalErrorCode() == OK, "and without its connection state");
  vp_assert(g_t->checkpointIndex_ == 0 && g_t->pendingCheckpointIndex_ == 0 && g_t->newCheckpoints_.empty() && g_t->checkpoint_.port == 7, "and without its checkpoints");
}
VP_HARNESS(recv_next_cmd) {
  mk();
  pending();
  ReceiverThread* t = g_t;
  t->curConnectionVerified_ = vp_bool("verified");
  g_decoded = true;  // readAtLeast is used for a command here
  int st = t->readNextCmd();
  bool cmd = st == PROCESS_FILE_CMD || st == PROCESS_SETTINGS_CMD || st == PROCESS_DONE_CMD || st == PROCESS_SIZE_CMD;
  if (!cmd) {
    vp_assert(st == ACCEPT_WITH_TIMEOUT || st == FINISH_WITH_ERROR, "no command: the connection is given up");
    vp_assert(t->threadStats_.getLocalErrorCode() != OK, "and an error is recorded");
  } else {
    vp_cover("command read");
    char c = g_stream[0];
    vp_assert((st == PROCESS_FILE_CMD && c == Protocol::FILE_CMD) || (st == PROCESS_SETTINGS_CMD && c == Protocol::SETTINGS_CMD) || (st == PROCESS_DONE_CMD && c == Protocol::DONE_CMD) ||
              (st == PROCESS_SIZE_CMD && c == Protocol::SIZE_CMD), "the command obeyed is the first unread byte");
    vp_assert(st == PROCESS_SETTINGS_CMD || t->curConnectionVerified_, "no command is obeyed before the connection's settings were accepted");
    vp_assert(t->off_ == t->oldOffset_ + 1 && t->oldOffset_ >= 0 && t->numRead_ >= Protocol::kMinBufLength, "one byte of the command is used");
    vp_assert(t->bufSize_ - t->oldOffset_ >= Protocol::kMaxHeader, "there is room for the longest command");
    vp_assert(t->threadStats_.getLocalErrorCode() == OK, "a command is no error");
    t->off_ = t->oldOffset_;
    checkPending(0);
  }
}

static Settings g_set;
static int g_ver;
static bool g_setDecoded;
static std::string* g_sid;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol13decodeVersionEPcRllRi(char* src, int64_t* off, int64_t max, int* v) {
  decPre(src, *off, max);
  *off = decPost(*off, max);
  if (!vp_bool("decodeVersion")) return false;
  *v = g_ver = vp_i32("senderVersion");
  return true;
}
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol14decodeSettingsEiPcRllRNS0_8SettingsE(int ver, char* src, int64_t* off, int64_t max, Settings* s) {
  decPre(src, *off, max);
  vp_assert(ver == g_ver, "the settings are read in the sender's version");
  s->enableChecksum = s->sendFileChunks = false;
  *off = decPost(*off, max);
  if (!vp_bool("decodeSettings")) return false;
  s->readTimeoutMillis = g_set.readTimeoutMillis = vp_i32("readTimeout");
  s->writeTimeoutMillis = g_set.writeTimeoutMillis = vp_i32("writeTimeout");
  s->transferId = *g_sid;
  s->enableChecksum = g_set.enableChecksum = vp_bool("enableChecksum");
  s->sendFileChunks = g_set.sendFileChunks = vp_bool("sendFileChunks");
  s->blockModeDisabled = g_set.blockModeDisabled = vp_bool("blockModeDisabled");
  s->enableHeartBeat = g_set.enableHeartBeat = vp_bool("enableHeartBeat");
  g_setDecoded = true;
  return true;
}

VP_HARNESS(recv_settings) {
  mk();
  inCommand();
  ReceiverThread* t = g_t;
  int64_t off0 = t->oldOffset_;
  t->curConnectionVerified_ = false;
  t->senderReadTimeout_ = t->senderWriteTimeout_ = -1;
  int v0 = t->threadProtocolVersion_;
  std::string id = vp_str("receiverId"), sid = vp_str("senderId");
  g_sid = &sid;
  g_r->transferRequest_.transferId = id;
  int st = t->processSettingsCmd();
  if (t->curConnectionVerified_) {
    vp_cover("settings accepted");
    vp_assert(g_setDecoded && vp_same_string(id, sid), "a connection is accepted only with the receiver's transfer id");
    vp_assert(t->threadProtocolVersion_ == g_ver && g_ver <= v0 && g_ver > 0, "both ends speak the sender's version, one the receiver supports");
    vp_assert(t->senderReadTimeout_ == g_set.readTimeoutMillis && t->senderReadTimeout_ > 0 && t->senderWriteTimeout_ == g_set.writeTimeoutMillis, "the sender's timeouts are used");
    vp_assert(t->isBlockMode_ == !g_set.blockModeDisabled && t->enableHeartBeat_ == g_set.enableHeartBeat && (t->footerType_ == WdtThread::CHECKSUM_FOOTER) == g_set.enableChecksum,
              "block mode, heart beats and checksums are what the sender asked for");
    vp_assert((g_ivOff > 0) == (g_ver < Protocol::PERIODIC_ENCRYPTION_IV_CHANGE_VERSION), "old senders do not change the initialization vector");
    vp_assert(t->threadStats_.getLocalErrorCode() == OK, "accepted settings are no error");
    vp_assert(st == (g_set.sendFileChunks ? SEND_FILE_CHUNKS : READ_NEXT_CMD), "the chunks are sent if and only if asked for");
    if (st == READ_NEXT_CMD) {
      int64_t used = t->off_ - off0;
      vp_assert(used >= 1, "the settings are used up");
      checkPending(used);
    } else {
      vp_assert(t->numRead_ == 0 && t->off_ == 0, "nothing is pending while the chunks are sent");
    }
  } else {
    vp_cover("settings refused");
    vp_assert(st == FINISH_WITH_ERROR || st == SEND_ABORT_CMD, "refused settings end the connection");
    vp_assert(t->threadStats_.getLocalErrorCode() != OK, "and record an error");
    vp_assert(t->senderReadTimeout_ == -1, "and change nothing");
    if (t->threadStats_.getLocalErrorCode() == VERSION_MISMATCH) vp_assert(t->threadProtocolVersion_ != g_ver && t->threadProtocolVersion_ > 0 && t->threadProtocolVersion_ <= v0, "a newer sender is asked to use the receiver's version");
  }
}
static int64_t g_doneBlocks, g_doneBytes, g_size;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol10decodeDoneEiPcRllS3_S3_(int, char* src, int64_t* off, int64_t max, int64_t* n, int64_t* b) {
  decPre(src, *off, max);
  *off = decPost(*off, max);
  if (!vp_bool("decodeDone")) return false;
  g_doneBlocks = *n = vp_range("doneBlocks", 0, INT64_MAX);
  if (vp_bool("oldVersion")) g_doneBytes = *b;
  else g_doneBytes = *b = vp_range("doneBytes", 0, INT64_MAX);
  return true;
}
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol10decodeSizeEPcRllS3_(char* src, int64_t* off, int64_t max, int64_t* n) {
  decPre(src, *off, max);
  *off = decPost(*off, max);
  if (!vp_bool("decodeSize")) return false;
  g_size = *n = vp_range("size", 0, INT64_MAX);
  return true;
}
VP_HARNESS(recv_done) {
  mk();
  inCommand();
  ReceiverThread* t = g_t;
  t->pendingCheckpointIndex_ = vp_i32("pendingIdx");
  t->checkpointIndex_ = vp_i32("idx");
  int idx = t->checkpointIndex_;
  int st = t->processDoneCmd();
  if (st == WAIT_FOR_FINISH_OR_NEW_CHECKPOINT) {
    vp_cover("done");
    vp_assert(t->threadStats_.getNumBlocksSend() == g_doneBlocks && t->threadStats_.getTotalSenderBytes() == g_doneBytes, "the sender's totals are recorded as sent");
    vp_assert(t->threadStats_.getRemoteErrorCode() == (ErrorCode)g_stream[1], "the sender's status is recorded");
    vp_assert(t->checkpointIndex_ == t->pendingCheckpointIndex_, "a good command takes over the pending checkpoint");
    vp_assert(t->threadStats_.getLocalErrorCode() == OK, "done is no error");
  } else {
    vp_assert(st == FINISH_WITH_ERROR && t->threadStats_.getLocalErrorCode() == PROTOCOL_ERROR && t->checkpointIndex_ == idx, "a bad done command ends the connection with an error");
    vp_assert(t->threadStats_.getNumBlocksSend() == -1, "and records no totals");
  }
}
VP_HARNESS(recv_size) {
  mk();
  inCommand();
  ReceiverThread* t = g_t;
  int64_t off0 = t->oldOffset_;
  int st = t->processSizeCmd();
  if (st == READ_NEXT_CMD) {
    vp_cover("size");
    vp_assert(t->threadStats_.getTotalSenderBytes() == g_size && t->threadStats_.getLocalErrorCode() == OK, "the announced size is recorded");
    checkPending(t->off_ - off0);
  } else {
    vp_assert(st == FINISH_WITH_ERROR && t->threadStats_.getLocalErrorCode() == PROTOCOL_ERROR, "a bad size command ends the connection with an error");
  }
}
// ------------------------------------------------------------ checkpoints and the end of a transfer
static int g_cpEnc;
static int64_t g_cpOff, g_cpLen;
static int g_cpVer;
static std::vector<Checkpoint> const* g_cpList;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol17encodeCheckpointsEiPcRllRKSt6vectorINS0_10CheckpointESaIS5_EE(int ver, char* dest, int64_t* off, int64_t max, const std::vector<Checkpoint>* l) {
  vp_assert(dest == g_t->buf_ && max <= g_t->bufSize_ && *off >= 0 && *off <= max, "pre: encoded into the buffer");
  vp_assert(ver == g_t->threadProtocolVersion_, "checkpoints are written in the version both ends speak");
  g_cpEnc++;
  g_cpOff = *off;
  g_cpLen = vp_range("cpLen", 1, 1 + 50 * (int64_t)l->size());
  vp_assume(g_cpLen <= max - *off);
  *off += g_cpLen;
  // which checkpoints: compared by the harness before they can change
  for (size_t i = 0; i < l->size(); i++) {
    if (i < 3) { g_seqs[i] = (*l)[i].numBlocks; }
  }
  g_cpList = l;
  return true;
}
VP_HARNESS(recv_local_checkpoint) {
  mk();
  ReceiverThread* t = g_t;
  t->checkpoint_.numBlocks = vp_i64("blocks");
  int st = t->sendLocalCheckpoint();
  vp_assert(g_cpEnc == 1 && g_cpOff == 0 && g_seqs[0] == t->checkpoint_.numBlocks && g_writes == 1 && g_wbuf == t->buf_, "exactly the thread's own checkpoint is sent");
  vp_assert(g_wlen == Protocol::getMaxLocalCheckpointLength(t->threadProtocolVersion_), "in a message of the length the sender reads");
  if (st == READ_NEXT_CMD) vp_assert(g_wret == g_wlen && t->threadStats_.getLocalErrorCode() == OK, "success only if it was sent completely");
  else vp_assert(st == ACCEPT_WITH_TIMEOUT && g_wret != g_wlen && t->threadStats_.getLocalErrorCode() == SOCKET_WRITE_ERROR, "otherwise the connection is given up");
}
VP_HARNESS(recv_global_checkpoint) {
  mk();
  ReceiverThread* t = g_t;
  int n = 0;
  int64_t nb[3];
  while (n < 3 && (n == 0 || vp_bool("more"))) {
    Checkpoint c(n);
    nb[n] = c.numBlocks = vp_i64("blocks");
    t->newCheckpoints_.emplace_back(c);
    n++;
  }
  t->checkpointIndex_ = vp_range("idx", 0, 1000);
  int p0 = t->pendingCheckpointIndex_ = vp_range("pending", 0, 1000);
  t->off_ = vp_size("off"); t->numRead_ = vp_size("nr");
  int st = t->sendGlobalCheckpoint();
  vp_assert(g_cpEnc == 1 && g_cpOff == 3 && g_cpList == &t->newCheckpoints_ && g_writes == 1 && g_wbuf == t->buf_ && g_wlen == 3 + g_cpLen, "exactly the new checkpoints are sent, in one message");
  vp_assert(t->buf_[0] == Protocol::ERR_CMD && (uint8_t)t->buf_[1] == (g_cpLen & 255) && (uint8_t)t->buf_[2] == (g_cpLen >> 8), "the message announces its length");
  if (st == READ_NEXT_CMD) {
    vp_assert(g_wret == g_wlen, "success only if it was sent completely");
    vp_assert(t->pendingCheckpointIndex_ == t->checkpointIndex_ + n, "the checkpoints are taken as sent once the sender's next command arrives");
    vp_assert(t->off_ == 0 && t->numRead_ == 0, "nothing is pending");
  } else {
    vp_assert(st == ACCEPT_WITH_TIMEOUT && g_wret != g_wlen && t->threadStats_.getLocalErrorCode() == SOCKET_WRITE_ERROR, "otherwise the connection is given up");
    vp_assert(t->pendingCheckpointIndex_ == p0, "and the checkpoints are sent again");
  }
  for (int i = 0; i < n; i++) vp_assert(g_seqs[i] == nb[i], "the new checkpoints are sent in order");
}
static int g_abEnc;
static ErrorCode g_abCode;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol11encodeAbortEPcRlliNS0_9ErrorCodeEl(char* dest, int64_t* off, int64_t max, int ver, int code, int64_t files) {
  vp_assert(dest == g_t->buf_ && *off == 1 && max <= g_t->bufSize_, "pre: encoded into the buffer");
  g_abEnc++;
  g_abCode = (ErrorCode)code;
  vp_assert(ver == g_t->threadProtocolVersion_ && files == g_t->threadStats_.getNumFiles(), "the abort message names the receiver's version");
  *off += Protocol::kAbortLength;
  return true;
}
VP_HARNESS(recv_abort) {
  mk();
  ReceiverThread* t = g_t;
  ErrorCode e = (ErrorCode)vp_range("error", 1, (AUTH_ERROR + 1));
  t->threadStats_.localErrCode_ = e;
  int st = t->sendAbortCmd();
  vp_assert(g_abEnc == 1 && g_abCode == e && g_writes == 1 && g_w0 == Protocol::ABORT_CMD && g_wlen == 1 + Protocol::kAbortLength && g_wbuf == t->buf_, "the sender is told the reason in one abort message");
  vp_assert(g_closed == 1, "the connection is closed");
  vp_assert(st == (e == VERSION_MISMATCH ? ACCEPT_WITH_TIMEOUT : FINISH_WITH_ERROR), "only a version mismatch waits for the sender to come back");
  vp_assert(t->threadStats_.getLocalErrorCode() == e, "the error stays");
}
VP_HARNESS(recv_send_done) {
  mk();
  ReceiverThread* t = g_t;
  g_eosRet = (ErrorCode)vp_range("eos", 0, (AUTH_ERROR + 1));
  g_closeRet = (ErrorCode)vp_range("close", 0, (AUTH_ERROR + 1));
  BlockDetails b;
  bool waiting = vp_bool("waiting");
  if (waiting) t->blocksWaitingVerification_.emplace_back(b);
  int st = t->sendDoneCmd();
  vp_assert(g_writes == 1 && g_w0 == Protocol::DONE_CMD && g_wlen == 1, "done is sent once");
  if (st == END) {
    vp_cover("finished");
    vp_assert(g_wret == 1 && g_pos == 1 && g_stream[0] == Protocol::DONE_CMD, "finished only after the sender acknowledged done");
    vp_assert(g_eosRet == OK && g_closed == 1, "and the stream ended properly");
    vp_assert(g_marked == (waiting ? 1 : 0), "blocks waiting for their tag count at the verified end");
    vp_assert(t->threadStats_.getLocalErrorCode() == g_closeRet, "an error while closing is kept");
  } else {
    vp_assert(st == ACCEPT_WITH_TIMEOUT && t->threadStats_.getLocalErrorCode() != OK, "otherwise the sender may come back");
    vp_assert(g_marked == 0, "and unverified blocks do not count");
  }
}

// ------------------------------------------------------------ between connections
VP_HARNESS(recv_accept_timeout) {
  mk();
  ReceiverThread* t = g_t;
  t->off_ = vp_size("off"); t->numRead_ = vp_size("nr");
  t->checkpointIndex_ = vp_i32("idx"); t->pendingCheckpointIndex_ = vp_i32("pidx");
  t->curConnectionVerified_ = vp_bool("verified");
  t->senderReadTimeout_ = vp_range("rt", -1, 1 << 30); t->senderWriteTimeout_ = vp_range("wt", -1, 1 << 30);
  if (vp_bool("waiting")) t->blocksWaitingVerification_.emplace_back(BlockDetails());
  g_nonRetry = (ErrorCode)vp_range("sockerr", 0, AUTH_ERROR);
  g_acceptRet = (ErrorCode)vp_range("accept", 0, AUTH_ERROR);
  int window = g_r->options_.accept_window_millis = vp_i32("window");
  bool ver = t->curConnectionVerified_;
  ErrorCode before = t->threadStats_.localErrCode_ = (ErrorCode)vp_range("error", 0, AUTH_ERROR);
  int idx = t->checkpointIndex_;
  int st = t->acceptWithTimeout();
  vp_assert(g_marked == 0, "blocks not verified on the lost connection never count");
  if (g_nonRetry != OK) {
    vp_assert(st == END && t->threadStats_.getLocalErrorCode() == g_nonRetry && g_accepts == 0, "an error that cannot be retried ends the thread");
    return;
  }
  vp_assert(t->blocksWaitingVerification_.empty(), "blocks not verified on the lost connection are forgotten");
  vp_assert(g_closed == 1 && g_accepts == 1 && g_tryCur == ver, "the old connection is closed before one new one is waited for");
  int m = t->senderReadTimeout_ > t->senderWriteTimeout_ ? t->senderReadTimeout_ : t->senderWriteTimeout_;
  vp_assert(t->senderReadTimeout_ > 0 ? g_acceptTimeout > m : g_acceptTimeout == window, "the wait outlives the sender's timeouts once they are known");
  vp_assert(!t->curConnectionVerified_, "a new connection starts unverified");
  if (g_acceptRet != OK) {
    vp_assert(st == FINISH_WITH_ERROR && t->threadStats_.getLocalErrorCode() == g_acceptRet, "no connection in time is an error");
  } else {
    vp_assert(t->off_ == 0 && t->numRead_ == 0 && t->pendingCheckpointIndex_ == idx, "the new connection starts without bytes of the old, and unconfirmed checkpoints are sent again");
    vp_assert(st == (before == OK ? READ_NEXT_CMD : SEND_LOCAL_CHECKPOINT), "after an error the sender is told what was received first");
    vp_assert(t->threadStats_.getLocalErrorCode() == OK, "the error is forgiven");
  }
}
static int g_other;   // state of the other receiver thread
static int g_cps;     // global checkpoints so far
static void mk2() {
  mk();
  auto* c = new ThreadsController(2);
  c->setNumFunnels(1);
  c->setNumConditions(1);
  g_t->controller_ = c;
  g_other = (int)vp_range("other", INIT, FINISHED);
  c->threadStateMap_[1] = (ThreadStatus)g_other;
  c->threadStateMap_[0] = RUNNING;
  while (g_cps < 2 && vp_bool("checkpoint")) {
    Checkpoint cp(10 + g_cps);
    cp.numBlocks = 100 + g_cps;
    g_r->checkpoints_.emplace_back(cp);
    g_cps++;
  }
}
VP_HARNESS(recv_check_finish) {
  mk2();
  ReceiverThread* t = g_t;
  t->checkpointIndex_ = (int)vp_range("idx", 0, 2);
  vp_assume(t->checkpointIndex_ <= g_cps);
  int idx = t->checkpointIndex_;
  int st = t->checkForFinishOrNewCheckpoints();
  ThreadStatus me = t->controller_->threadStateMap_[0];
  if (idx < g_cps) {
    vp_assert(st == SEND_GLOBAL_CHECKPOINTS && me == RUNNING, "checkpoints of failed threads are sent on first");
    vp_assert((int)t->newCheckpoints_.size() == g_cps - idx, "all of those not sent yet");
    for (int i = idx; i < g_cps; i++) vp_assert(t->newCheckpoints_[i - idx].port == 10 + i && t->newCheckpoints_[i - idx].numBlocks == 100 + i, "unchanged and in order");
  } else if (g_other == RUNNING) {
    vp_assert(st == WAIT_FOR_FINISH_OR_NEW_CHECKPOINT && me == RUNNING, "not done while another thread receives");
  } else {
    vp_assert(st == SEND_DONE_CMD && me == FINISHED, "done once no other thread receives and every checkpoint was sent");
  }
}
VP_HARNESS(recv_finish_error) {
  mk2();
  ReceiverThread* t = g_t;
  t->checkpoint_.numBlocks = vp_i64("blocks"); t->checkpoint_.lastBlockReceivedBytes = vp_i64("part");
  g_r->isJoinable_ = vp_bool("joinable");
  ErrorCode e = t->threadStats_.localErrCode_ = (ErrorCode)vp_range("error", 1, AUTH_ERROR);
  int st = t->finishWithError();
  vp_assert(st == END && g_closed == 1, "the connection is closed and the thread ends");
  vp_assert((int)g_r->checkpoints_.size() == g_cps + 1, "one checkpoint is left for the other threads");
  const Checkpoint& c = g_r->checkpoints_[g_cps];
  vp_assert(c.port == t->checkpoint_.port && c.numBlocks == t->checkpoint_.numBlocks && c.lastBlockReceivedBytes == t->checkpoint_.lastBlockReceivedBytes, "the thread's own");
  vp_assert(t->controller_->threadStateMap_[0] == FINISHED, "and the others need not wait for the thread");
  vp_assert(t->threadStats_.getLocalErrorCode() == e, "the error stays");
}
static int g_waits;
static Funnel* g_fun;
// waiting for another thread: it may come to an end, fail or start again meanwhile
extern "C" int vp_env_pthread_cond_clockwait(...) {
  g_waits++;
  vp_assume(g_waits <= 2);
  if (g_fun) {  // the thread sending the chunks comes to an end, or fails
    g_fun->status_ = (FunnelStatus)vp_range("funnelThen", FUNNEL_START, FUNNEL_END);
    return vp_bool("timedout") ? 110 : 0;
  }
  g_t->controller_->threadStateMap_[1] = (ThreadStatus)(g_other = (int)vp_range("otherThen", INIT, FINISHED));
  if (g_cps < 2 && vp_bool("failed")) {
    Checkpoint cp(10 + g_cps);
    cp.numBlocks = 100 + g_cps;
    g_r->checkpoints_.emplace_back(cp);
    g_cps++;
  }
  return vp_bool("timedout") ? 110 : 0;
}
VP_HARNESS(recv_wait) {
  mk2();
  ReceiverThread* t = g_t;
  t->checkpointIndex_ = (int)vp_range("idx", 0, 2);
  vp_assume(t->checkpointIndex_ <= g_cps);
  t->senderReadTimeout_ = vp_range("rt", 1, 1 << 30);
  g_r->options_.abort_check_interval_millis = 0;
  int idx = t->checkpointIndex_;
  int st = t->waitForFinishOrNewCheckpoint();
  ThreadStatus me = t->controller_->threadStateMap_[0];
  if (st == SEND_DONE_CMD) {
    vp_cover("done");
    vp_assert(me == FINISHED && g_other != RUNNING && idx >= g_cps, "done only once no other thread receives and every checkpoint was sent");
  } else if (st == SEND_GLOBAL_CHECKPOINTS) {
    vp_cover("checkpoints");
    vp_assert(me == RUNNING && idx < g_cps && (int)t->newCheckpoints_.size() == g_cps - idx, "new checkpoints are sent on");
  } else {
    vp_cover("lost");
    vp_assert(st == ACCEPT_WITH_TIMEOUT && g_wret != 1 && t->threadStats_.getLocalErrorCode() == SOCKET_WRITE_ERROR && me == RUNNING, "a lost sender is waited for again");
  }
  if (g_writes) vp_assert(g_w0 == Protocol::WAIT_CMD && g_wlen == 1, "the sender is told to wait");
}

// ------------------------------------------------------------ resumption
VP_SIZEOF(Interval, facebook__wdt__Interval)
static int g_clEnc, g_liEnc;
static int64_t g_clFiles, g_clSize, g_liStart, g_liCount, g_liOff;
extern "C" void vp_contract__ZN8facebook3wdt8Protocol15encodeChunksCmdEPcRllll(char* dest, int64_t* off, int64_t max, int64_t bufSize, int64_t n) {
  vp_assert(dest == g_t->buf_ && *off == 1 && max == g_t->bufSize_, "pre: encoded into the buffer");
  g_clEnc++;
  g_clFiles = n;
  g_clSize = bufSize;
  *off += Protocol::kChunksCmdLen;
}
static int g_nInfo, g_fit;
static bool g_fits[3];
extern "C" int64_t vp_contract__ZN8facebook3wdt8Protocol12maxEncodeLenERKNS0_14FileChunksInfoE(const FileChunksInfo* f) {
  // any length; those beyond the buffer are left out
  int64_t k = vp_range("infoLen", 32, 1 << 30);
  bool fits = k + 4 < g_t->bufSize_;
  vp_assume(fits == g_fits[f->getSeqId()]);
  return k;
}
// chunklist_roundtrip: lists what fits, skips what can never fit, at least one entry is dealt with, the message is empty only if nothing fits
extern "C" int64_t vp_contract__ZN8facebook3wdt8Protocol24encodeFileChunksInfoListEPcRlllRKSt6vectorINS0_14FileChunksInfoESaIS5_EE(char* dest, int64_t* off, int64_t max, int64_t start, const std::vector<FileChunksInfo>* l) {
  vp_assert(dest == g_t->buf_ && *off == 4 && max == g_t->bufSize_, "pre: encoded into the buffer behind the size");
  vp_assert((int)l->size() == g_nInfo && start == g_liCount && start < g_nInfo, "each message continues where the last one stopped");
  int64_t k = start;
  bool any = false;
  for (int64_t i = 0; i < g_nInfo; i++) {
    if (i < start) continue;
    if (g_fits[i]) {
      if (any && vp_bool("full")) break;
      any = true;
      g_liEnc++;
    }
    k = i + 1;
  }
  g_liCount = k;
  vp_assert(g_wantLen == 0, "each message is sent before the next one");
  g_liOff = any ? vp_range("listLen", 1, max - 4) : 0;
  *off += g_liOff;
  g_wantLen = g_liOff;
  return k - start;
}
VP_HARNESS(recv_chunks) {
  mk();
  ReceiverThread* t = g_t;
  t->senderReadTimeout_ = vp_range("rt", 5, 1 << 30);
  int n = 0;
  int most = vp_bound_(2, 3);
  while (n < most && vp_bool("file")) {
    g_r->fileChunksInfo_.emplace_back();
    g_r->fileChunksInfo_.back().setSeqId(n);
    g_fits[n] = vp_bool("fits");
    if (g_fits[n]) g_fit++;
    n++;
  }
  g_nInfo = n;
  auto f = t->controller_->getFunnel(0);
  f->status_ = (FunnelStatus)vp_range("funnel", FUNNEL_START, FUNNEL_END);
  g_fun = f.get();
  g_r->options_.abort_check_interval_millis = 0;
  t->isBlockMode_ = vp_bool("blockMode");
  g_short = false; g_lenOk = true; g_wantLen = 0;
  int st = t->sendFileChunks();
  if (st == READ_NEXT_CMD && g_clEnc) {
    vp_cover("chunks sent");
    vp_assert(!g_short, "every message was written completely");
    vp_assert(g_wantLen == 0 && g_lenOk, "each message is sent, behind its length");
    vp_assert(g_clFiles == g_fit && g_liEnc == g_fit && g_liCount == n && g_clSize == t->bufSize_, "exactly the files that can be encoded are announced and sent");
    vp_assert(g_lastRead == 1, "the sender acknowledged them");
    vp_assert(g_logHeaders == 1 && g_hdrResuming && g_hdrBlockMode == t->isBlockMode_, "the log is made ready once");
    vp_assert(f->status_ == FUNNEL_END, "and the other threads may go on");
  } else if (st == READ_NEXT_CMD) {
    vp_assert(f->status_ == FUNNEL_END && g_w0 == Protocol::ACK_CMD && g_wret == 1 && g_logHeaders == 0, "others go on only after the chunks were sent");
  } else {
    vp_assert(st == ACCEPT_WITH_TIMEOUT && t->threadStats_.getLocalErrorCode() != OK && g_logHeaders == 0, "a lost connection is waited for again");
    if (g_clEnc) vp_assert(f->status_ == FUNNEL_START, "and another thread sends the chunks instead");
  }
}
#endif
