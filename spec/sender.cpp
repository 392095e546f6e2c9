// Contracts of SenderThread: the sending end of one connection, against any receiver.
#include "vp.h"
#include <folly/hash/Checksum.h>
#include <sys/stat.h>
#include <wdt/Sender.h>
#include <wdt/SenderThread.h>
using namespace facebook::wdt;

extern "C" int vp_env_stat(const char*, struct stat*) { return vp_bool("stat") ? 0 : -1; }
static SenderThread* g_t;
static Sender* g_s;
static ErrorCode g_lastConnect;
static bool g_inBlock;     // sendOneByteSource is under proof

// ------------------------------------------------------------ the source (contract of FileByteSource, proved under C05)
static SourceMetaData* g_meta;
static std::string* g_ident;
static int64_t g_size, g_offset, g_delivered, g_lastSize;
static char* g_lastBuf;
static bool g_srcErr;
static int g_closedSrc, g_statAdds;
static TransferStats* g_srcStats;
static int64_t g_statBlocks, g_statData;
class GSource : public ByteSource {
 public:
  const std::string& getIdentifier() const override { return *g_ident; }
  int64_t getSize() const override { return g_size; }
  int64_t getOffset() const override { return g_offset; }
  const SourceMetaData& getMetaData() const override { return *g_meta; }
  bool finished() const override { return g_delivered == g_size && !g_srcErr; }
  bool hasError() const override { return g_srcErr; }
  char* read(int64_t& size) override {
    vp_assert(g_lastBuf == nullptr, "what was read is sent before more is read");
    if (g_srcErr || g_delivered == g_size) {
      size = 0;
      return nullptr;
    }
    if (vp_bool("readError")) {
      g_srcErr = true;
      size = 0;
      return nullptr;
    }
    int64_t k = vp_range("chunk", 1, 1 << 30);
    vp_assume(k <= g_size - g_delivered);
    g_delivered += k;
    g_lastSize = size = k;
    g_lastBuf = g_buf;
    return g_buf;
  }
  void advanceOffset(int64_t) override { vp_assert(false, "the block is not cut"); }
  ErrorCode open(ThreadCtx*) override { return OK; }
  void close() override { g_closedSrc++; }
  TransferStats& getTransferStats() override { return *g_srcStats; }
  void addTransferStats(const TransferStats& s) override {
    g_statAdds++;
    g_statBlocks = s.getNumBlocks();
    g_statData = s.getDataBytes();
  }
  static char* g_buf;
};
char* GSource::g_buf;

// ------------------------------------------------------------ the connection
static EncryptionType g_enc;
static int64_t g_writes, g_wlen, g_wret, g_hdrEnd, g_footEnd, g_dataSent;
static char *g_wbuf, g_w0, g_w1, g_w2, g_w3;
static int g_footers, g_closed, g_shut, g_reads, g_connects;
static int64_t g_rlen, g_rret;
static char g_r0;
static bool g_any;           // reads deliver anything
static ErrorCode g_nonRetry, g_eosRet, g_readErr;
static int g_unacked;
static bool g_pastHeader, g_sendFailed;
static bool g_checksum, g_crcThis;
static uint32_t g_crc;
static std::string* g_ip;
class GSock : public IClientSocket {
 public:
  ErrorCode connect() override { g_connects++; return g_lastConnect = (ErrorCode)vp_range("connect", 0, AUTH_ERROR); }
  const std::string& getPeerIp() const override { return *g_ip; }
  int read(char* buf, int nbyte, bool tryFull = true) override {
    vp_assert(nbyte > 0, "a positive number of bytes is asked for");
    int64_t k = vp_range("read", -1, nbyte);
    if (k > 0) {
      char* any = vp_buf("received", k);
      memcpy(buf, any, k);
      g_r0 = any[0];
    }
    g_reads++;
    g_rlen = nbyte;
    g_rret = k;
    return (int)k;
  }
  int readWithTimeout(char* buf, int nbyte, int timeoutMs, bool tryFull = true) override { return read(buf, nbyte, tryFull); }
  int write(char* buf, int nbyte, bool retry = false) override {
    vp_assert(nbyte > 0, "something is sent");
    g_writes++;
    g_wlen = nbyte;
    g_wbuf = buf;
    g_wret = vp_range("write", -1, nbyte);
    if (g_inBlock) {
      vp_assert(!g_sendFailed, "nothing follows a failed write");
      if (!g_pastHeader) {
        vp_assert(nbyte == g_hdrEnd && buf[0] == Protocol::FILE_CMD, "the header comes first, completely");
        g_w1 = buf[1]; g_w2 = buf[2]; g_w3 = buf[3];
        g_pastHeader = true;
      } else if (g_lastBuf) {
        vp_assert(buf == g_lastBuf && nbyte == g_lastSize && g_footers == 0, "then the bytes of the block as they were read, in order");
        vp_assert(g_crcThis == g_checksum, "each of them entered the checksum");
        g_lastBuf = nullptr;
        g_crcThis = false;
        if (g_wret == nbyte) g_dataSent += nbyte;
      } else {
        vp_assert(g_checksum && g_footers == 0 && g_dataSent == g_size && buf[0] == Protocol::FOOTER_CMD && nbyte == g_footEnd, "at last one footer, if checksums are used");
        g_footers++;
      }
      if (g_wret != nbyte) g_sendFailed = true;
    } else {
      g_w0 = buf[0];
      if (nbyte > 1) g_w1 = buf[1];
    }
    return (int)g_wret;
  }
  ErrorCode shutdownWrites() override { g_shut++; return OK; }
  ErrorCode expectEndOfStream() override { return g_eosRet; }
  ErrorCode closeConnection() override { g_closed++; return OK; }
  void closeNoCheck() override { g_closed++; }
  int getFd() const override { return 5; }
  int getPort() const override { return 7; }
  int getUnackedBytes() const override {
    // only acknowledged data leaves the send buffer while nothing is written
    int k = vp_range("unacked", -1, INT32_MAX);
    vp_assume(k <= g_unacked);
    if (k >= 0) g_unacked = k;
    return k;
  }
  EncryptionType getEncryptionType() const override { return g_enc; }
  ErrorCode getNonRetryableErrCode() const override { return g_nonRetry; }
  ErrorCode getReadErrCode() const override { return (ErrorCode)vp_range("readErr", 0, AUTH_ERROR); }
  ErrorCode getWriteErrCode() const override { return OK; }
};
static int64_t g_throttled;
class GThrottler : public Throttler {
 public:
  explicit GThrottler(const ThrottlerOptions& o) : Throttler(o) {}
  void limit(ThreadCtx&, int64_t n) override {
    vp_assert(n > 0, "a positive number of bytes is throttled");
    g_throttled += n;
  }
};

// ------------------------------------------------------------ the queue and the history (contracts proved under C09 and C07)
static int g_acked, g_added, g_localCp, g_globalCp, g_cpPort, g_mismatch, g_notInUse;
static bool g_addOk, g_tookSource;
static int64_t g_cpBlocks;
static ErrorCode g_cpRet, g_nextStatus;
static bool g_srcLeft, g_discovered;
static int64_t g_totalSize, g_numBlocks;
static char* g_hist;
static int g_setChunks;
ThreadTransferHistory::ThreadTransferHistory(DirectorySourceQueue& q, TransferStats& s, int32_t port) : queue_(q), threadStats_(s), port_(port) {}
std::string ThreadTransferHistory::getSourceId(int64_t) { return ""; }
bool ThreadTransferHistory::addSource(std::unique_ptr<ByteSource>& s) {
  vp_assert(s.get() != nullptr && g_closedSrc == 1 && g_statAdds == 1, "the block is closed and its statistics are added before it enters the history");
  g_added++;
  if (g_addOk) (void)s.release();
  return g_addOk;
}
ErrorCode ThreadTransferHistory::setLocalCheckpoint(const Checkpoint& c) {
  g_localCp++;
  g_cpPort = c.port;
  g_cpBlocks = c.numBlocks;
  return g_cpRet;
}
void ThreadTransferHistory::markAllAcknowledged() { g_acked++; }
void ThreadTransferHistory::markNotInUse() { g_notInUse++; }
TransferHistoryController::TransferHistoryController(DirectorySourceQueue& q) : dirQueue_(q) {}
ThreadTransferHistory& TransferHistoryController::getTransferHistory(int32_t port) {
  vp_assert(port == g_t->port_, "each thread uses its own history");
  return *(ThreadTransferHistory*)g_hist;
}
void TransferHistoryController::addThreadHistory(int32_t, TransferStats&) {}
ErrorCode TransferHistoryController::handleVersionMismatch() { g_mismatch++; return (ErrorCode)vp_range("mismatch", 0, 1); }
static int64_t g_glob[3];
void TransferHistoryController::handleGlobalCheckpoint(const Checkpoint& c) {
  if (g_globalCp < 3) g_glob[g_globalCp] = c.numBlocks;
  g_globalCp++;
}
std::unique_ptr<ByteSource> DirectorySourceQueue::getNextSource(ThreadCtx*, ErrorCode& status) {
  status = g_nextStatus;
  if (!g_srcLeft) return nullptr;
  g_tookSource = true;
  return std::unique_ptr<ByteSource>(new GSource());
}
DirectorySourceQueue::DirectorySourceQueue(const WdtOptions&, const std::string&, IAbortChecker const*) {}
DirectorySourceQueue::~DirectorySourceQueue() {}
bool DirectorySourceQueue::finished() const { return false; }
int64_t DirectorySourceQueue::getCount() const { return g_numBlocks; }
bool DirectorySourceQueue::fileDiscoveryFinished() const { return g_discovered; }
std::pair<int64_t, ErrorCode> DirectorySourceQueue::getNumBlocksAndStatus() const { return std::make_pair(g_numBlocks, g_nextStatus); }
int64_t DirectorySourceQueue::getTotalSize() const { return g_totalSize; }
void DirectorySourceQueue::setPreviouslyReceivedChunks(std::vector<FileChunksInfo>& l) { g_setChunks++; }

static const int64_t KMAX = 1 << 30;
static int g_abortCode;
static void mk() {
  WdtTransferRequest req(0, 1, "/vp");
  req.transferId = "id";
  req.hostName = "host";
  g_s = new Sender(req);
  g_s->options_.buffer_size = 8192;
  auto* q = new DirectorySourceQueue(g_s->options_, "/vp", nullptr);  // all its methods are stand-ins
  g_s->dirQueue_.reset(q);
  g_s->transferHistoryController_.reset(new TransferHistoryController(*q));
  g_hist = new char[sizeof(ThreadTransferHistory)];
  auto* c = new ThreadsController(1);
  c->setNumFunnels(1);
  c->setNumBarriers(1);
  g_t = new SenderThread(g_s, 0, 7, c);
  g_t->socket_.reset(new GSock());
  g_ip = new std::string("ip");
  g_t->threadProtocolVersion_ = (int)vp_range("version", 1, 1000);
  g_t->bufSize_ = vp_range("bufSize", Protocol::kMaxHeader, KMAX);
  g_t->buf_ = vp_buf("buf", g_t->bufSize_);
  g_enc = (EncryptionType)vp_range("enc", ENC_NONE, NUM_ENC_TYPES - 1);
  g_unacked = INT32_MAX;
}
#ifdef VP_PROOF
extern "C" int vp_contract__ZN8facebook3wdt12SenderThread18getThreadAbortCodeEv(SenderThread*) {
  if (vp_bool("abort")) return g_abortCode = (int)vp_range("abortCode", 1, AUTH_ERROR);
  return OK;
}
extern "C" int vp_contract__ZN8facebook3wdt12SenderThread14readHeartBeatsEv(SenderThread*) { return (int)vp_range("heartbeat", 0, AUTH_ERROR); }

// ------------------------------------------------------------ one block
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol12encodeHeaderEiPcRllRKNS0_12BlockDetailsE(int, char* dest, int64_t* off, int64_t max, const BlockDetails* b) {
  vp_assert(*off == 4 && max <= Protocol::kMaxHeader, "pre: encoded behind command, status and length");
  vp_assert(b->seqId == g_meta->seqId && b->fileSize == g_meta->size && b->offset == g_offset && b->dataSize == g_size && b->allocationStatus == g_meta->allocationStatus && b->prevSeqId == g_meta->prevSeqId,
            "the header announces exactly the block");
  vp_assert(vp_same_string(b->fileName, g_meta->relPath), "by its relative path");
  *off += vp_range("headerLen", 1, Protocol::kMaxHeader - 4);
  g_hdrEnd = *off;
  return true;
}
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol12encodeFooterEPcRlli(char* dest, int64_t* off, int64_t max, int32_t c) {
  vp_assert(*off == 1 && max <= Protocol::kMaxHeader, "pre: encoded behind the command");
  vp_assert((uint32_t)c == g_crc, "the footer carries the checksum over the whole block");
  *off += vp_range("footerLen", 1, 10);
  g_footEnd = *off;
  return true;
}
extern "C" uint32_t vp_contract__ZN5folly6crc32cEPKhmj(const uint8_t* d, size_t n, uint32_t seed) {
  vp_assert(seed == g_crc && !g_crcThis, "the checksum continues from the bytes before");
  vp_assert((char*)d == g_lastBuf && (int64_t)n == g_lastSize, "exactly the bytes to be sent enter the checksum");
  g_crcThis = true;
  return g_crc = (uint32_t)vp_u64("crc");
}
static void mkSource() {
  g_meta = new SourceMetaData();
  g_meta->relPath = vp_str("relPath");
  g_meta->fullPath = "/vp/f";
  g_meta->seqId = vp_range("seqId", 0, INT64_MAX); g_meta->size = vp_range("fileSize", 0, INT64_MAX);
  g_meta->prevSeqId = vp_range("prevSeqId", 0, INT64_MAX);
  g_meta->allocationStatus = (FileAllocationStatus)vp_range("alloc", NOT_EXISTS, TO_BE_DELETED);
  g_ident = new std::string("f");
  g_srcStats = new TransferStats();
  g_size = vp_range("size", 0, (int64_t)1 << 60);
  g_offset = vp_range("offset", 0, (int64_t)1 << 60);
  GSource::g_buf = vp_buf("chunkBuf", 1 << 30);
}
static void oneSource(bool checksum, bool throttled) {
  mk();
  mkSource();
  SenderThread* t = g_t;
  if (throttled) g_s->throttler_.reset(new GThrottler(ThrottlerOptions()));
  g_checksum = checksum;
  t->footerType_ = checksum ? WdtThread::CHECKSUM_FOOTER : WdtThread::NO_FOOTER;
  std::unique_ptr<ByteSource> src(new GSource());
  ErrorCode status = (ErrorCode)vp_range("status", 0, AUTH_ERROR);
  g_inBlock = true;
  TransferStats st = t->sendOneByteSource(src, status);
  if (st.getLocalErrorCode() == OK) {
    vp_cover("block sent");
    vp_assert(g_pastHeader && g_dataSent == g_size && g_delivered == g_size && !g_srcErr && !g_sendFailed, "a block counts as sent only when its header and all its bytes were written");
    vp_assert(g_footers == (checksum ? 1 : 0), "and its checksum, if used");
    vp_assert(st.getNumBlocks() == 1 && st.getFailedAttempts() == 0 && st.getDataBytes() == g_size && st.getEffectiveDataBytes() == g_size, "it counts once, with its bytes");
    vp_assert(st.getHeaderBytes() == g_hdrEnd + (checksum ? g_footEnd : 0), "the header bytes are counted");
    vp_assert(g_w1 == (char)status && (uint8_t)g_w2 == (g_hdrEnd & 255) && (uint8_t)g_w3 == (g_hdrEnd >> 8), "the header carries the status and its own length");
    if (throttled && g_size > 0) vp_assert(g_throttled == g_size + g_hdrEnd, "every byte is throttled once");
  } else {
    vp_cover("block not sent");
    vp_assert(st.getNumBlocks() == 0 && st.getEffectiveDataBytes() == 0 && st.getFailedAttempts() == 1, "a block not sent completely counts as one failed attempt");
    vp_assert(st.getDataBytes() <= g_dataSent && st.getDataBytes() >= 0, "only bytes written are counted");
  }
}
VP_HARNESS(send_block) { oneSource(false, false); }
VP_HARNESS(send_block_throttled) { oneSource(false, true); }
VP_HARNESS(send_block_checksum) { oneSource(true, false); }

// the statistics of one block, by the contract above
static bool g_sentOk;
static ErrorCode g_sentStatus;
static int g_sent;
VP_HARNESS(send_blocks) {
  mk();
  mkSource();
  SenderThread* t = g_t;
  g_inBlock = true;
  g_checksum = false;
  t->footerType_ = WdtThread::NO_FOOTER;
  t->totalSizeSent_ = vp_bool("sizeSent");
  g_discovered = vp_bool("discovered");
  g_srcLeft = vp_bool("srcLeft");
  g_addOk = vp_bool("addOk");
  g_nextStatus = (ErrorCode)vp_range("nextStatus", 0, AUTH_ERROR);
  t->threadStats_.numBlocks_ = vp_range("blocks", 0, (int64_t)1 << 40);
  t->threadStats_.effectiveDataBytes_ = vp_range("bytes", 0, (int64_t)1 << 61);
  int64_t nb = t->threadStats_.numBlocks_, eb = t->threadStats_.effectiveDataBytes_;
  bool sizeFirst = t->threadProtocolVersion_ >= Protocol::RECEIVER_PROGRESS_REPORT_VERSION && !t->totalSizeSent_ && g_discovered;
  int st = t->sendBlocks();
  if (sizeFirst) {
    vp_assert(st == SEND_SIZE_CMD && !g_tookSource, "the total size is sent as soon as it is known");
  } else if (!g_srcLeft) {
    vp_assert(st == SEND_DONE_CMD && g_writes == 0, "done is sent once nothing is left");
  } else {
    bool ok = g_pastHeader && g_dataSent == g_size && !g_sendFailed;
    vp_assert(g_added == 1 && g_closedSrc == 1 && g_statAdds == 1, "every block tried is handed to the history once");
    bool counted = t->threadStats_.numBlocks_ == nb + 1 && t->threadStats_.effectiveDataBytes_ == eb + g_size && g_statBlocks == 1;
    vp_assert(counted || (t->threadStats_.numBlocks_ == nb && t->threadStats_.effectiveDataBytes_ == eb && g_statBlocks == 0), "the thread and the source count it alike");
    vp_assert(!counted || ok, "counted only if sent");
    if (!g_addOk) vp_assert(st == END && t->threadStats_.getLocalErrorCode() == CONN_ERROR, "after a global checkpoint the thread stops");
    else if (counted) vp_assert(st == SEND_BLOCKS, "the next block follows");
    else vp_assert(st == CHECK_FOR_ABORT && t->threadStats_.getLocalErrorCode() != OK, "a failure is noted and the connection given up");
  }
}

// ------------------------------------------------------------ commands
static Settings g_set;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol14encodeSettingsEiPcRllRKNS0_8SettingsE(int ver, char* dest, int64_t* off, int64_t max, const Settings* s) {
  vp_assert(dest == g_t->buf_ && *off == 1 && max <= g_t->bufSize_ && max >= Protocol::kMaxSettings, "pre: encoded behind the command");
  vp_assert(ver == g_t->threadProtocolVersion_, "in the version of the connection");
  vp_assert(vp_same_string(s->transferId, g_s->transferRequest_.transferId), "with the transfer id");
  g_set.readTimeoutMillis = s->readTimeoutMillis; g_set.writeTimeoutMillis = s->writeTimeoutMillis;
  g_set.enableChecksum = s->enableChecksum; g_set.sendFileChunks = s->sendFileChunks;
  g_set.blockModeDisabled = s->blockModeDisabled; g_set.enableHeartBeat = s->enableHeartBeat;
  g_hdrEnd = *off = vp_range("settingsLen", 2, Protocol::kMaxSettings);
  return true;
}
VP_HARNESS(send_settings) {
  mk();
  SenderThread* t = g_t;
  g_s->transferRequest_.transferId = vp_str("transferId");
  WdtOptions& o = g_s->options_;
  o.read_timeout_millis = vp_i32("rt"); o.write_timeout_millis = vp_i32("wt");
  o.enable_heart_beat = vp_bool("hb"); o.block_size_mbytes = vp_range("block", 0, 1) ? 16 : -1;
  g_s->downloadResumptionEnabled_ = vp_bool("resume");
  g_s->transferRequest_.protocolVersion = t->threadProtocolVersion_;
  t->footerType_ = vp_bool("checksum") ? WdtThread::CHECKSUM_FOOTER : WdtThread::NO_FOOTER;
  bool chunks = g_s->downloadResumptionEnabled_ && t->threadProtocolVersion_ >= Protocol::DOWNLOAD_RESUMPTION_VERSION;
  int st = t->sendSettings();
  vp_assert(g_writes == 1 && g_w0 == Protocol::SETTINGS_CMD && g_wbuf == t->buf_, "one settings message is sent");
  vp_assert(g_wlen >= g_hdrEnd, "completely");
  vp_assert(chunks ? g_wlen >= Protocol::kMinBufLength : g_wlen == g_hdrEnd, "filled up only if nothing follows it");
  vp_assert(g_set.readTimeoutMillis == o.read_timeout_millis && g_set.writeTimeoutMillis == o.write_timeout_millis && g_set.enableChecksum == (t->footerType_ == WdtThread::CHECKSUM_FOOTER) && g_set.sendFileChunks == chunks &&
            g_set.blockModeDisabled == (o.block_size_mbytes <= 0) && g_set.enableHeartBeat == t->enableHeartBeat_, "the settings are the thread's own");
  vp_assert(t->enableHeartBeat_ == (o.enable_heart_beat && t->threadProtocolVersion_ >= Protocol::HEART_BEAT_VERSION), "heart beats only for a receiver that has them");
  if (g_wret == g_wlen) vp_assert(st == (chunks ? READ_FILE_CHUNKS : SEND_BLOCKS), "blocks are sent before the chunks are known only without resumption");
  else vp_assert(st == CONNECT && t->threadStats_.getLocalErrorCode() == SOCKET_WRITE_ERROR, "otherwise it connects again");
}
static int64_t g_encBlocks, g_encBytes;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol10encodeDoneEiPcRllll(int ver, char* dest, int64_t* off, int64_t max, int64_t n, int64_t b) {
  vp_assert(dest == g_t->buf_ && *off == 2 && max >= Protocol::kMaxDone && max <= g_t->bufSize_ && ver == g_t->threadProtocolVersion_, "pre: encoded behind command and status");
  g_encBlocks = n;
  g_encBytes = b;
  *off += vp_range("doneLen", 1, 20);
  return true;
}
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol10encodeSizeEPcRlll(char* dest, int64_t* off, int64_t max, int64_t b) {
  vp_assert(dest == g_t->buf_ && *off == 1 && max >= Protocol::kMaxSize && max <= g_t->bufSize_, "pre: encoded behind the command");
  g_encBytes = b;
  g_hdrEnd = *off += vp_range("sizeLen", 1, 10);
  return true;
}
VP_HARNESS(send_done) {
  mk();
  SenderThread* t = g_t;
  g_totalSize = vp_range("total", 0, INT64_MAX); g_numBlocks = vp_range("numBlocks", 0, INT64_MAX);
  g_nextStatus = (ErrorCode)vp_range("nextStatus", 0, AUTH_ERROR);
  int st = t->sendDoneCmd();
  vp_assert(g_writes == 1 && g_wbuf == t->buf_ && g_w0 == Protocol::DONE_CMD && g_w1 == (char)g_nextStatus && g_encBlocks == g_numBlocks && g_encBytes == g_totalSize, "done carries the status, the number of blocks and the total size");
  vp_assert(g_wlen == Protocol::kMinBufLength, "in a message of the length the receiver waits for");
  if (g_wret == g_wlen) vp_assert(st == READ_RECEIVER_CMD, "the receiver answers");
  else vp_assert(st == CHECK_FOR_ABORT && t->threadStats_.getLocalErrorCode() == SOCKET_WRITE_ERROR, "otherwise the connection is given up");
}
VP_HARNESS(send_size) {
  mk();
  SenderThread* t = g_t;
  g_totalSize = vp_range("total", 0, INT64_MAX);
  int st = t->sendSizeCmd();
  vp_assert(g_writes == 1 && g_wbuf == t->buf_ && g_w0 == Protocol::SIZE_CMD && g_wlen == g_hdrEnd && g_encBytes == g_totalSize, "the total size is sent");
  if (g_wret == g_wlen) vp_assert(st == SEND_BLOCKS && t->totalSizeSent_, "once");
  else vp_assert(st == CHECK_FOR_ABORT && !t->totalSizeSent_ && t->threadStats_.getLocalErrorCode() == SOCKET_WRITE_ERROR, "or the connection is given up");
}
// checkpoints by the contract of the decoder: any list, or failure
static int g_nCp;
static Checkpoint g_cps[3];
static bool g_cpOk;
static int64_t g_cpMax;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol17decodeCheckpointsEiPcRllRSt6vectorINS0_10CheckpointESaIS5_EE(int ver, char* src, int64_t* off, int64_t max, std::vector<Checkpoint>* l) {
  vp_assert(ver == g_t->threadProtocolVersion_ && *off == 0 && max > 0, "pre: decoded from the start, in the version of the connection");
  g_cpMax = max;
  int64_t j = vp_range("anyInput", 0, max - 1);
  g_w3 = src[j];  // readable
  while (g_nCp < 2 && vp_bool("checkpoint")) {
    Checkpoint& c = g_cps[g_nCp];
    c.port = vp_i32("port");
    c.numBlocks = vp_i64("cpBlocks");
    c.lastBlockReceivedBytes = vp_range("cpBytes", 0, INT64_MAX);
    c.lastBlockOffset = vp_range("cpOff", 0, INT64_MAX);
    l->emplace_back(c);
    g_nCp++;
  }
  *off = vp_range("decodedTo", 0, INT64_MAX);
  vp_assume(*off <= max);
  return g_cpOk = vp_bool("decodeCheckpoints");
}
VP_HARNESS(send_local_checkpoint) {
  mk();
  SenderThread* t = g_t;
  g_cpRet = (ErrorCode)vp_range("cpRet", 0, AUTH_ERROR);
  int n0 = t->numReconnectWithoutProgress_ = vp_range("reconnects", 0, 1000000);
  int st = t->readLocalCheckPoint();
  int len = Protocol::getMaxLocalCheckpointLength(t->threadProtocolVersion_);
  vp_assert(g_reads == 1 && g_rlen == len, "a checkpoint of the agreed length is read");
  if (g_rret != len) {
    vp_assert(st == CONNECT && t->threadStats_.getLocalErrorCode() == SOCKET_READ_ERROR && t->numReconnectWithoutProgress_ == n0 + 1 && g_localCp == 0, "a lost connection is made again, without progress");
  } else if (!g_cpOk || g_nCp != 1 || g_cps[0].port != 7) {
    vp_assert(st == END && t->threadStats_.getLocalErrorCode() == PROTOCOL_ERROR && g_localCp == 0, "only one checkpoint of this thread is accepted");
  } else {
    if (g_cps[0].numBlocks == -1) {
      vp_assert(st == READ_RECEIVER_CMD && g_localCp == 0 && t->threadStats_.getLocalErrorCode() == OK, "a receiver that failed while being done says so again");
      return;
    }
    vp_assert(g_localCp == 1 && g_cpPort == 7 && g_cpBlocks == g_cps[0].numBlocks, "the checkpoint enters the history unchanged");
    if (g_cpRet == INVALID_CHECKPOINT) vp_assert(st == END && t->threadStats_.getLocalErrorCode() == PROTOCOL_ERROR, "an impossible one ends the thread");
    else vp_assert(st == SEND_SETTINGS && t->numReconnectWithoutProgress_ == (g_cpRet == NO_PROGRESS ? n0 + 1 : 0), "the transfer goes on, progress is noted");
  }
}
static int g_connectCode;
extern "C" void vp_contract__ZN8facebook3wdt12SenderThread17connectToReceiverEiPKNS0_13IAbortCheckerERNS0_9ErrorCodeE(std::unique_ptr<IClientSocket>* ret, SenderThread*, int port, const IAbortChecker*, ErrorCode* code) {
  vp_assert(port == 7, "the thread's own port");
  *code = (ErrorCode)(g_connectCode = (int)vp_range("connectCode", 0, AUTH_ERROR));
  new (ret) std::unique_ptr<IClientSocket>(g_connectCode == OK ? new GSock() : nullptr);
}
VP_HARNESS(send_connect) {
  mk();
  SenderThread* t = g_t;
  g_nonRetry = (ErrorCode)vp_range("sockerr", 0, AUTH_ERROR);
  bool had = vp_bool("had");
  if (!had) t->socket_.reset();
  int n0 = t->numReconnectWithoutProgress_ = vp_range("reconnects", 0, 1000000);
  int mx = g_s->options_.max_transfer_retries = (int)vp_range("retries", -1000000, 1000000);
  ErrorCode e = t->threadStats_.localErrCode_ = (ErrorCode)vp_range("error", 0, AUTH_ERROR);
  if (!had) vp_assume(n0 == 0);
  t->totalSizeSent_ = true;
  int st = t->connect();
  if (had && g_nonRetry != OK) {
    vp_assert(st == END && t->threadStats_.getLocalErrorCode() == g_nonRetry, "an error that cannot be retried ends the thread");
  } else if (n0 >= mx) {
    vp_assert(st == END && t->threadStats_.getLocalErrorCode() == NO_PROGRESS, "retries without progress are limited");
  } else if (g_connectCode == OK) {
    vp_assert(g_closed == (had ? 1 : 0), "the old connection is closed");
    vp_assert(st == (e == OK ? SEND_SETTINGS : READ_LOCAL_CHECKPOINT), "after an error the receiver tells first what it received");
    vp_assert(t->threadStats_.getLocalErrorCode() == OK && !t->totalSizeSent_, "the new connection starts afresh");
  } else {
    vp_assert(t->threadStats_.getLocalErrorCode() == g_connectCode && (st == END || (st == PROCESS_VERSION_MISMATCH && g_connectCode == ABORT && g_abortCode == VERSION_MISMATCH)), "no connection ends the thread with the error");
  }
}
VP_HARNESS(send_read_cmd) {
  mk();
  SenderThread* t = g_t;
  ErrorCode r = (ErrorCode)t->readNextReceiverCmd();
  if (r == OK) vp_assert(g_rlen == 1 && g_rret == 1 && t->buf_[0] == g_r0, "a command is one byte received");
  else vp_assert(g_rret != 1 && (r == ABORT || r == SOCKET_READ_ERROR), "otherwise an error is reported");
}
static ErrorCode g_cmdRet, g_spurRet;
static char g_cmd;
static int g_spur;
extern "C" int vp_contract__ZN8facebook3wdt12SenderThread19readNextReceiverCmdEv(SenderThread* t) {
  g_cmdRet = (ErrorCode)vp_range("cmdRet", 0, AUTH_ERROR);
  if (g_cmdRet == OK) t->buf_[0] = g_cmd = (char)vp_u8("cmd");
  return g_cmdRet;
}
extern "C" int vp_contract__ZN8facebook3wdt12SenderThread31readAndVerifySpuriousCheckpointEv(SenderThread* t) {
  g_spur++;
  g_spurRet = vp_bool("spurOk") ? OK : vp_bool("spurRead") ? SOCKET_READ_ERROR : PROTOCOL_ERROR;
  if (g_spurRet != OK) t->threadStats_.setLocalErrorCode(g_spurRet);
  return g_spurRet;
}
VP_HARNESS(send_receiver_cmd) {
  mk();
  SenderThread* t = g_t;
  int st = t->readReceiverCmd();
  vp_assert(g_acked == 0, "reading a command acknowledges nothing");
  if (g_cmdRet != OK) {
    vp_assert(st == CONNECT && t->threadStats_.getLocalErrorCode() == g_cmdRet, "a lost connection is made again");
    return;
  }
  ErrorCode e = t->threadStats_.getLocalErrorCode();
  if (st == END) vp_assert(e == PROTOCOL_ERROR, "an unexpected command ends the thread with an error");
  else if (st == CONNECT) vp_assert(g_spur == 1 && e == SOCKET_READ_ERROR, "only a lost connection is made again");
  else {
    vp_assert(e == OK, "a command is no error");
    vp_assert((st == PROCESS_ERR_CMD && g_cmd == Protocol::ERR_CMD) || (st == PROCESS_WAIT_CMD && g_cmd == Protocol::WAIT_CMD) || (st == PROCESS_DONE_CMD && g_cmd == Protocol::DONE_CMD) ||
              (st == PROCESS_ABORT_CMD && g_cmd == Protocol::ABORT_CMD) || (st == READ_RECEIVER_CMD && (g_cmd == Protocol::HEART_BEAT_CMD || (g_cmd == Protocol::LOCAL_CHECKPOINT_CMD && g_spur == 1 && g_spurRet == OK))),
              "the command obeyed is the one received");
  }
}
VP_HARNESS(send_spurious) {
  mk();
  SenderThread* t = g_t;
  t->buf_[0] = Protocol::LOCAL_CHECKPOINT_CMD;
  ErrorCode r = (ErrorCode)t->readAndVerifySpuriousCheckpoint();
  int len = Protocol::getMaxLocalCheckpointLength(t->threadProtocolVersion_);
  vp_assert(g_reads == 1 && g_rlen == len - 1, "the rest of the checkpoint is read");
  if (r == OK) vp_assert(g_rret == len - 1 && g_cpOk && g_nCp == 1 && g_cps[0].port == 7 && g_cps[0].numBlocks == 0 && g_cps[0].lastBlockReceivedBytes == 0 && g_cpMax == len, "only an empty checkpoint of this thread may be ignored");
  else vp_assert((r == SOCKET_READ_ERROR && g_rret != len - 1) || (r == PROTOCOL_ERROR && g_rret == len - 1), "anything else is an error");
  vp_assert(t->threadStats_.getLocalErrorCode() == r, "which is recorded");
}
VP_HARNESS(send_process_done) {
  mk();
  SenderThread* t = g_t;
  g_eosRet = (ErrorCode)vp_range("eos", 0, AUTH_ERROR);
  int st = t->processDoneCmd();
  vp_assert(g_acked == 1, "done acknowledges every block sent");
  vp_assert(g_writes == 1 && g_w0 == Protocol::DONE_CMD && g_wlen == 1 && g_shut == 1, "done is answered");
  vp_assert(g_eosRet == OK ? st == END && t->threadStats_.getLocalErrorCode() == OK : st == CONNECT && t->threadStats_.getLocalErrorCode() == g_eosRet, "the thread ends only when the stream ended properly");
}
VP_HARNESS(send_process_wait) {
  mk();
  int st = g_t->processWaitCmd();
  vp_assert(g_acked == 1 && st == READ_RECEIVER_CMD && g_reads == 0 && g_writes == 0, "wait acknowledges every block sent and another command follows");
}
VP_HARNESS(send_process_err) {
  mk();
  SenderThread* t = g_t;
  int st = t->processErrCmd();
  vp_assert(g_acked == 1, "checkpoints of other threads acknowledge every block of this one");
  if (st == SEND_BLOCKS) {
    vp_cover("checkpoints");
    vp_assert(g_cpOk && g_globalCp == g_nCp && g_rret == g_rlen && g_cpMax == g_rlen && g_reads == 2, "the checkpoints were received completely");
    for (int i = 0; i < g_nCp; i++) vp_assert(g_glob[i] == g_cps[i].numBlocks, "each of them is applied, in order");
    vp_assert(t->threadStats_.getLocalErrorCode() == OK, "without an error of this thread");
  } else {
    vp_assert(g_globalCp == 0, "broken checkpoints change nothing");
    vp_assert((st == CONNECT && t->threadStats_.getLocalErrorCode() == SOCKET_READ_ERROR) || (st == END && t->threadStats_.getLocalErrorCode() == PROTOCOL_ERROR), "and are an error");
  }
}
static int g_aborts;
static ErrorCode g_abortWith;
extern "C" void vp_contract__ZN8facebook3wdt7WdtBase5abortENS0_9ErrorCodeE(WdtBase*, int e) { g_aborts++; g_abortWith = (ErrorCode)e; }
static int g_abVer, g_abErr;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol11decodeAbortEPcRllRiRNS0_9ErrorCodeES3_(char* src, int64_t* off, int64_t max, int32_t* ver, ErrorCode* e, int64_t* cp) {
  vp_assert(src == g_t->buf_ && *off == 0 && max >= Protocol::kAbortLength && max <= g_t->bufSize_, "pre: decoded from what was received");
  *ver = g_abVer = vp_i32("remoteVersion");
  *e = (ErrorCode)(g_abErr = (int)vp_range("remoteError", 0, 255));
  *cp = vp_i64("cp");
  *off += Protocol::kAbortLength;
  return true;
}
VP_HARNESS(send_process_abort) {
  mk();
  SenderThread* t = g_t;
  int st = t->processAbortCmd();
  vp_assert(t->threadStats_.getLocalErrorCode() == ABORT && g_acked == 0, "abort is recorded and acknowledges nothing");
  if (g_rret != Protocol::kAbortLength) {
    vp_assert(st == END && g_aborts == 0, "an abort without reason ends the thread");
  } else {
    vp_assert(g_aborts == 1 && g_abortWith == (ErrorCode)g_abErr, "the whole transfer is aborted for the receiver's reason");
    if (st == PROCESS_VERSION_MISMATCH) vp_assert(g_abErr == VERSION_MISMATCH && t->negotiatedProtocol_ == g_abVer && g_abVer <= t->threadProtocolVersion_ && g_abVer > 0 && t->threadStats_.getRemoteErrorCode() == VERSION_MISMATCH, "only a version both ends support is negotiated");
    else vp_assert(st == END && t->negotiatedProtocol_ == -1 && t->threadStats_.getRemoteErrorCode() == (g_abErr == VERSION_MISMATCH ? VERSION_INCOMPATIBLE : (ErrorCode)g_abErr), "any other abort ends the thread with the receiver's reason");
  }
}
VP_HARNESS(send_check_abort) {
  mk();
  int st = g_t->checkForAbort();
  vp_assert(st == (g_rret == 1 && g_r0 == Protocol::ABORT_CMD ? PROCESS_ABORT_CMD : CONNECT), "an abort waiting to be read is obeyed, otherwise it connects again");
  vp_assert(g_acked == 0 && g_writes == 0, "and nothing else happens");
}

// ------------------------------------------------------------ chunks of an earlier transfer
static int64_t g_chSize, g_chFiles;
static int g_decodes, g_listed;
static bool g_listOk;
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol15decodeChunksCmdEPcRllS3_S3_(char* src, int64_t* off, int64_t max, int64_t* bufSize, int64_t* n) {
  vp_assert(src == g_t->buf_ && *off == 0 && max >= Protocol::kChunksCmdLen && g_rret == Protocol::kChunksCmdLen, "pre: decoded from what was received");
  *bufSize = g_chSize = vp_i64("chunkBufSize");
  *n = g_chFiles = vp_i64("numFiles");
  *off += Protocol::kChunksCmdLen;
  return true;
}
VP_SIZEOF(Interval, facebook__wdt__Interval)
VP_SIZEOF(FileChunksInfo, facebook__wdt__FileChunksInfo)
extern "C" bool vp_contract__ZN8facebook3wdt8Protocol24decodeFileChunksInfoListEPcRllRSt6vectorINS0_14FileChunksInfoESaIS5_EE(char* src, int64_t* off, int64_t max, std::vector<FileChunksInfo>* l) {
  vp_assert(*off == 0 && max > 0 && max == g_rlen && max == g_rret && max <= g_chSize, "pre: decoded from exactly what was received");
  g_decodes++;
  vp_assume(g_decodes <= 2);
  for (int i = 0; i < 2; i++)
    if (vp_bool("listed")) {
      l->emplace_back();
      g_listed++;
    }
  return g_listOk = vp_bool("listOk");
}
extern "C" void* malloc(size_t);
static bool g_chunks;
extern "C" void* vp_env__Znam(size_t n) {
  if (g_chunks) vp_assert(n <= (size_t)INT32_MAX, "no more memory is asked for than a message can fill");
  return malloc(n);
}
VP_HARNESS(send_chunks) {
  mk();
  SenderThread* t = g_t;
  bool had = g_s->fileChunksReceived_ = vp_bool("had");
  g_chunks = true;
  int st = t->readFileChunks();
  ErrorCode e = t->threadStats_.getLocalErrorCode();
  vp_assert(g_setChunks == 0 || ((g_decodes == 0 || g_listOk) && g_listed == g_chFiles), "only a complete list of chunks is taken over");
  vp_assert(g_s->fileChunksReceived_ == (had || g_setChunks == 1) && !(had && g_setChunks), "and only once");
  if (st == SEND_BLOCKS) {
    vp_cover("chunks known");
    vp_assert(g_s->fileChunksReceived_ && e == OK, "blocks are sent only once the chunks of the earlier transfer are known");
    if (g_writes) vp_assert(g_w0 == Protocol::ACK_CMD && g_wlen == 1 && g_wret == 1, "which is acknowledged");
    else vp_assert(g_reads == 1 && g_r0 == Protocol::ACK_CMD && had, "or another thread got them");
  } else if (st == READ_FILE_CHUNKS) {
    vp_assert(e == OK && g_reads <= 2 && g_setChunks == 0, "the receiver is waited for");
  } else if (st == PROCESS_ABORT_CMD) {
    vp_assert(g_reads == 1 && g_r0 == Protocol::ABORT_CMD && e == OK, "an abort is obeyed");
  } else {
    vp_assert(e == (st == END ? PROTOCOL_ERROR : g_writes ? SOCKET_WRITE_ERROR : SOCKET_READ_ERROR), "anything else is an error of the kind that happened");
    vp_assert(st == END || st == CHECK_FOR_ABORT || (st == CONNECT && g_r0 == Protocol::LOCAL_CHECKPOINT_CMD), "the connection is given up");
  }
}
// ------------------------------------------------------------ another protocol version
static int g_cvWaits;
static Funnel* g_fun;
static SenderThread* g_t2;
extern "C" void vp_env__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, std::unique_lock<std::mutex>*) {
  g_cvWaits++;
  vp_assume(g_cvWaits <= 2);
  if (g_fun->status_ == FUNNEL_PROGRESS && vp_bool("done")) {   // the thread in charge comes to an end
    g_s->protoNegotiationStatus_ = vp_bool("resolved") ? V_MISMATCH_RESOLVED : V_MISMATCH_FAILED;
    if (g_s->protoNegotiationStatus_ == V_MISMATCH_RESOLVED) g_s->transferRequest_.protocolVersion = (int)vp_range("negotiated", 1, 1000);
    g_fun->status_ = FUNNEL_END;
  }
}
static void mkMismatch() {
  mk();
  SenderThread* t = g_t;
  g_s->options_.enable_checksum = vp_bool("optChecksum");
  t->footerType_ = g_s->options_.enable_checksum && t->threadProtocolVersion_ >= Protocol::CHECKSUM_VERSION ? WdtThread::CHECKSUM_FOOTER : WdtThread::NO_FOOTER;
  t->threadStats_.localErrCode_ = ABORT;
  t->threadStats_.remoteErrCode_ = VERSION_MISMATCH;
  g_s->transferRequest_.protocolVersion = t->threadProtocolVersion_;
  g_s->abortCode_ = (ErrorCode)vp_range("globalAbort", 0, AUTH_ERROR);
  g_fun = t->controller_->getFunnel(0).get();
  t->controller_->threadStateMap_[1] = RUNNING;
  g_t2 = new SenderThread(g_s, 1, 8, t->controller_);
  g_s->senderThreads_.emplace_back(g_t2);
  g_s->senderThreads_.emplace_back(t);
}
VP_HARNESS(send_mismatch) {
  mkMismatch();
  SenderThread* t = g_t;
  int v0 = t->threadProtocolVersion_;
  int n1 = t->negotiatedProtocol_ = (int)vp_range("negotiated1", -1, 1000), n2 = g_t2->negotiatedProtocol_ = (int)vp_range("negotiated2", -1, 1000);
  vp_assume(n1 != 0 && n2 != 0 && (n1 > 0 || n2 > 0));   // the thread that aborted the transfer negotiated a version
  g_s->protoNegotiationStatus_ = (ProtoNegotiationStatus)vp_range("negotiation", V_MISMATCH_WAIT, V_MISMATCH_RESOLVED);
  int neg = g_s->protoNegotiationStatus_;
  int gab = g_s->abortCode_;
  int st = t->processVersionMismatch();
  if (neg == V_MISMATCH_RESOLVED) {
    vp_assert(st == END && g_mismatch == 0 && t->threadProtocolVersion_ == v0, "a version is negotiated only once");
    return;
  }
  vp_assert(g_fun->status_ == FUNNEL_END, "the other threads go on");
  if (st == CONNECT) {
    int v = n1 > 0 ? n1 : n2;
    vp_assert(g_mismatch == 1 && (n1 < 0 || n2 < 0 || n1 == n2), "only one version for all threads is accepted, before anything was acknowledged");
    vp_assert(t->threadProtocolVersion_ == v && g_s->transferRequest_.protocolVersion == v && g_s->protoNegotiationStatus_ == V_MISMATCH_RESOLVED, "and used by all");
    vp_assert((t->footerType_ == WdtThread::CHECKSUM_FOOTER) == (g_s->options_.enable_checksum && v >= Protocol::CHECKSUM_VERSION), "with checksums only if that version has them");
    vp_assert(t->threadStats_.getRemoteErrorCode() == OK && g_s->abortCode_ == (gab == VERSION_MISMATCH ? OK : gab), "the mismatch is forgotten, but no other abort");
  } else {
    vp_assert(st == END && g_s->protoNegotiationStatus_ == V_MISMATCH_FAILED && t->threadProtocolVersion_ == v0 && g_s->abortCode_ == gab, "otherwise the transfer stays aborted");
  }
}
VP_HARNESS(send_mismatch_other) {
  mkMismatch();
  SenderThread* t = g_t;
  int v0 = t->threadProtocolVersion_;
  g_s->protoNegotiationStatus_ = V_MISMATCH_WAIT;
  g_fun->status_ = FUNNEL_PROGRESS;
  int st = t->processVersionMismatch();
  vp_assert(g_cvWaits > 0 && g_mismatch == 0 && g_fun->status_ == FUNNEL_END, "the thread in charge is waited for");
  if (st == CONNECT) {
    int v = g_s->transferRequest_.protocolVersion;
    vp_assert(g_s->protoNegotiationStatus_ == V_MISMATCH_RESOLVED && t->threadProtocolVersion_ == v, "the version negotiated is used");
    vp_assert((t->footerType_ == WdtThread::CHECKSUM_FOOTER) == (g_s->options_.enable_checksum && v >= Protocol::CHECKSUM_VERSION), "with checksums only if it has them");
    vp_assert(t->threadStats_.getRemoteErrorCode() == OK, "the mismatch is forgotten");
  } else {
    vp_assert(st == END && g_s->protoNegotiationStatus_ == V_MISMATCH_FAILED && t->threadProtocolVersion_ == v0, "or the thread ends");
  }
}
// ------------------------------------------------------------ making the connection
static int g_made;
static int64_t g_iv;
class GCreator : public Sender::ISocketCreator {
 public:
  std::unique_ptr<IClientSocket> makeClientSocket(ThreadCtx&, const std::string&, const int port, const EncryptionParams&, int64_t iv, bool tls) override {
    vp_assert(port == 7 && tls == g_s->transferRequest_.tls, "a socket for the thread's port");
    g_iv = iv;
    if (vp_bool("noSocket")) return nullptr;
    g_made++;
    return std::make_unique<GSock>();
  }
};
VP_HARNESS(send_connecting) {
  mk();
  SenderThread* t = g_t;
  g_s->socketCreator_ = new GCreator();
  g_s->transferRequest_.ivChangeInterval = vp_range("iv", 0, INT64_MAX);
  int mx = g_s->options_.max_retries = (int)vp_range("maxRetries", INT32_MIN, 1 << 30);
  g_s->options_.sleep_millis = (int)vp_range("sleep", 0, 1000000);
  ErrorCode code = (ErrorCode)vp_range("code", 0, AUTH_ERROR);
  auto sock = t->connectToReceiver(7, nullptr, code);
  vp_assert((sock != nullptr) == (code == OK), "a socket is returned exactly without an error");
  if (sock) vp_assert(g_made == 1 && g_lastConnect == OK && g_connects >= 1, "and it is connected");
  vp_assert(g_connects <= (mx < 1 ? 1 : mx), "attempts are limited");
  vp_assert(g_iv == (t->threadProtocolVersion_ < Protocol::PERIODIC_ENCRYPTION_IV_CHANGE_VERSION ? 0 : g_s->transferRequest_.ivChangeInterval), "keys change only for a receiver that follows");
}
#endif
