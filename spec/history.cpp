// Contracts of ThreadTransferHistory: blocks are acknowledged or requeued exactly once.
#include "vp.h"
#include <wdt/Sender.h>
#include <wdt/util/ThreadTransferHistory.h>
using namespace facebook::wdt;
static const int64_t B = (int64_t)1 << 50;
// a block of a file; getSize/getOffset/advanceOffset as proved for FileByteSource (C05)
struct Src : ByteSource {
  std::string id;
  SourceMetaData md;
  int64_t size, off;
  TransferStats st;
  const std::string& getIdentifier() const override { return id; }
  int64_t getSize() const override { return size; }
  int64_t getOffset() const override { return off; }
  const SourceMetaData& getMetaData() const override { return md; }
  bool finished() const override { return true; }
  bool hasError() const override { return false; }
  char* read(int64_t& s) override { s = 0; return nullptr; }
  void advanceOffset(int64_t n) override { off += n; size -= n; }
  ErrorCode open(ThreadCtx*) override { return OK; }
  void close() override {}
  TransferStats& getTransferStats() override { return st; }
  void addTransferStats(const TransferStats&) override {}
};
// ghost record of what went back to the queue
static Src* g_ret[8];
static int g_nret, g_calls;
void DirectorySourceQueue::returnToQueue(std::vector<std::unique_ptr<ByteSource>>& v) {
  g_calls++;
  for (auto& s : v) {
    vp_assert(s.get() != nullptr, "an existing block is returned");
    g_ret[g_nret++] = (Src*)s.release();
  }
}
void DirectorySourceQueue::returnToQueue(std::unique_ptr<ByteSource>& s) {
  g_calls++;
  vp_assert(s.get() != nullptr, "an existing block is returned");
  g_ret[g_nret++] = (Src*)s.release();
}
// block i as the sender thread leaves it in the history: sent completely, or failed earlier
static int64_t g_size[8], g_off[8], g_hdr[8], g_eff[8];
static bool g_wasFailed[8];
static Src* g_src[8];
static Src* makeSource(int i) {
  Src* s = new Src();
  g_src[i] = s;
  s->size = g_size[i] = vp_range("size", 0, B);
  s->off = g_off[i] = vp_range("offset", 0, B);
  s->md.seqId = vp_range("seqId", 1, 3);
  s->st.effectiveHeaderBytes_ = g_hdr[i] = vp_range("effHeader", 0, B);
  s->st.effectiveDataBytes_ = g_eff[i] = vp_range("effData", 0, B);
  g_wasFailed[i] = vp_bool("failedBefore");
  s->st.localErrCode_ = g_wasFailed[i] ? (ErrorCode)vp_range("err", ERROR, AUTH_ERROR) : OK;
  s->st.numBlocks_ = vp_range("blocks", 0, B);
  s->st.failedAttempts_ = vp_range("attempts", 0, B);
  return s;
}
static void arbitraryStats(TransferStats& t) {
  t.effectiveHeaderBytes_ = vp_range("tHeader", 0, B);
  t.effectiveDataBytes_ = vp_range("tData", 0, B);
  t.numBlocks_ = vp_range("tBlocks", 0, B);
  t.failedAttempts_ = vp_range("tAttempts", 0, B);
}
static Checkpoint arbitraryCheckpoint(int64_t maxBlocks) {
  Checkpoint c(vp_i32("port"));
  c.numBlocks = vp_range("cpBlocks", 0, maxBlocks);
  c.lastBlockSeqId = vp_range("cpSeq", 0, 3);
  c.lastBlockOffset = vp_range("cpOffset", 0, B);
  c.lastBlockReceivedBytes = vp_range("cpBytes", 0, B);
  c.hasSeqId = vp_bool("cpHasSeq");
  return c;
}
static ThreadTransferHistory* makeHistory(TransferStats& ts) {
  g_nret = g_calls = 0;
  char* q = (char*)vp_buf("queue", 8);
  return new ThreadTransferHistory(*(DirectorySourceQueue*)q, ts, 5000);
}
// how many bytes of block s does checkpoint c acknowledge
static int64_t ackedBytes(const Checkpoint* c, Src* s) {
  if (!c) return 0;
  if (c->hasSeqId && (c->lastBlockSeqId != s->md.seqId || c->lastBlockOffset != g_off[0])) return 0;
  return c->lastBlockReceivedBytes;
}
// one unacknowledged block, all values
VP_HARNESS(history_mark) {
  TransferStats* ts = new TransferStats();
  arbitraryStats(*ts);
  int64_t th = ts->effectiveHeaderBytes_, td = ts->effectiveDataBytes_, tb = ts->numBlocks_, ta = ts->failedAttempts_;
  ThreadTransferHistory* h = makeHistory(*ts);
  Src* s = makeSource(0);
  int64_t sb = s->st.numBlocks_, sa = s->st.failedAttempts_;
  ErrorCode se = s->st.localErrCode_;
  std::unique_ptr<ByteSource> p(s);
  Checkpoint c = arbitraryCheckpoint(B);
  bool have = vp_bool("haveCheckpoint");
  const Checkpoint* cp = have ? &c : nullptr;
  int64_t r = ackedBytes(cp, s);
  vp_assume(r <= s->size);
  h->markSourceAsFailed(p, cp);
  vp_assert(p.get() == s, "the block stays");
  vp_assert(s->off == g_off[0] + r && s->size == g_size[0] - r, "the block restarts right after the bytes the receiver kept");
  vp_assert(s->st.localErrCode_ != OK, "the block is marked failed");
  if (g_wasFailed[0]) {
    vp_assert(s->st.effectiveDataBytes_ == g_eff[0] + r && s->st.effectiveHeaderBytes_ == g_hdr[0], "bytes the receiver kept count as sent");
    vp_assert(ts->effectiveDataBytes_ == td + r && ts->effectiveHeaderBytes_ == th, "bytes the receiver kept count as sent by the thread");
    vp_assert(s->st.numBlocks_ == sb && ts->numBlocks_ == tb && s->st.failedAttempts_ == sa && ts->failedAttempts_ == ta && s->st.localErrCode_ == se, "a block that failed before is not counted again");
  } else {
    vp_assert(s->st.effectiveDataBytes_ == g_eff[0] - (g_size[0] - r) && s->st.effectiveHeaderBytes_ == 0, "bytes the receiver lost no longer count as sent");
    vp_assert(ts->effectiveDataBytes_ == td - (g_size[0] - r) && ts->effectiveHeaderBytes_ == th - g_hdr[0], "bytes the receiver lost no longer count for the thread");
    vp_assert(s->st.numBlocks_ == sb - 1 && ts->numBlocks_ == tb - 1, "the block no longer counts as sent");
    vp_assert(s->st.failedAttempts_ == sa + 1 && ts->failedAttempts_ == ta + 1, "one failed attempt");
  }
  vp_assert(s->md.seqId >= 1, "same file");
}
// verdict on a checkpoint, all values
VP_HARNESS(history_validate) {
  TransferStats* ts = new TransferStats();
  ThreadTransferHistory* h = makeHistory(*ts);
  Checkpoint c = arbitraryCheckpoint(B), l = arbitraryCheckpoint(B);
  bool have = vp_bool("haveLast"), global = vp_bool("global");
  if (have) h->lastCheckpoint_ = std::make_unique<Checkpoint>(l);
  ErrorCode e = h->validateCheckpoint(c, global);
  bool sameBlock = c.lastBlockSeqId == l.lastBlockSeqId && c.lastBlockOffset == l.lastBlockOffset;
  vp_assert(e == OK || e == INVALID_CHECKPOINT || e == NO_PROGRESS, "verdict");
  vp_assert(have || e == OK, "the first checkpoint is accepted");
  vp_assert(!have || (e == INVALID_CHECKPOINT) == (c.numBlocks < l.numBlocks || (c.numBlocks == l.numBlocks && sameBlock && c.lastBlockReceivedBytes != l.lastBlockReceivedBytes)),
            "a checkpoint that takes back progress is invalid, no other is");
  vp_assert(!(global && e == NO_PROGRESS), "a repeated global checkpoint is fine");
  vp_assert(!have || c.numBlocks <= l.numBlocks || e == OK, "more blocks received is progress");
  vp_assert(!have || global || c.numBlocks != l.numBlocks || e == INVALID_CHECKPOINT || (e == NO_PROGRESS) == (sameBlock || c.lastBlockReceivedBytes == 0), "no new block and no new bytes is no progress");
}
#ifdef VP_PROOF
// contract proved by history_mark, as a ghost record: which block was marked with which checkpoint
static Src* g_marked[8];
static const Checkpoint* g_markCp[8];
static int g_nmarked;
extern "C" void vp_contract__ZN8facebook3wdt21ThreadTransferHistory18markSourceAsFailedERSt10unique_ptrINS0_10ByteSourceESt14default_deleteIS3_EEPKNS0_10CheckpointE(
    ThreadTransferHistory* h, std::unique_ptr<ByteSource>* p, const Checkpoint* c) {
  Src* s = (Src*)p->get();
  int64_t r = 0;
  if (c) r = (!c->hasSeqId | ((c->lastBlockSeqId == s->md.seqId) & (c->lastBlockOffset == s->off))) ? c->lastBlockReceivedBytes : 0;
  bool f = s->st.localErrCode_ != OK;
  int64_t d = f ? -r : s->size - r, hd = f ? 0 : s->st.effectiveHeaderBytes_, one = f ? 0 : 1;
  s->st.effectiveDataBytes_ -= d;
  s->st.effectiveHeaderBytes_ -= hd;
  s->st.numBlocks_ -= one;
  s->st.failedAttempts_ += one;
  s->st.localErrCode_ = f ? s->st.localErrCode_ : SOCKET_WRITE_ERROR;
  h->threadStats_.effectiveDataBytes_ -= d;
  h->threadStats_.effectiveHeaderBytes_ -= hd;
  h->threadStats_.numBlocks_ -= one;
  h->threadStats_.failedAttempts_ += one;
  s->off += r;
  s->size -= r;
}
#endif
static int64_t returnedIndex(Src* s) {
  int64_t k = -1;
  for (int i = 0; i < g_nret; i++) if (g_ret[i] == s) k = i;
  return k;
}
// a checkpoint: acknowledged blocks stay, every other block goes back exactly once, only the first of them keeps received bytes
VP_HARNESS(history_checkpoint) {
  TransferStats* ts = new TransferStats();
  arbitraryStats(*ts);
  int64_t td = ts->effectiveDataBytes_;
  ThreadTransferHistory* h = makeHistory(*ts);
  int n = (int)vp_range("n", 0, vp_bound_(2, 4));
  for (int i = 0; i < n; i++) h->history_.emplace_back(makeSource(i));
  Checkpoint c = arbitraryCheckpoint(B), l = arbitraryCheckpoint(B);
  bool have = vp_bool("haveLast"), global = vp_bool("global"), before = vp_bool("globalBefore");
  if (have) h->lastCheckpoint_ = std::make_unique<Checkpoint>(l);
  h->globalCheckpoint_ = before;
  h->inUse_ = false;
  int64_t acked0 = vp_range("acked", 0, n);
  h->numAcknowledged_ = acked0;
  int64_t k = c.numBlocks;
  if (k < n) vp_assume(c.lastBlockReceivedBytes <= g_size[k]);
  ErrorCode v = h->validateCheckpoint(c, global);
  ErrorCode e = global ? h->setGlobalCheckpoint(c) : h->setLocalCheckpoint(c);
  if (k > n || v == INVALID_CHECKPOINT) {
    vp_assert(e == INVALID_CHECKPOINT, "an impossible checkpoint is refused");
    vp_assert(g_nret == 0 && (int)h->history_.size() == n && h->numAcknowledged_ == acked0 && ts->effectiveDataBytes_ == td && h->globalCheckpoint_ == before, "a refused checkpoint changes nothing");
    return;
  }
  vp_assert(e == v, "the verdict is passed on");
  vp_assert(h->globalCheckpoint_ == (before || global), "a global checkpoint is remembered");
  vp_assert(h->getNumAcked() == k && (int64_t)h->history_.size() == k, "exactly the acknowledged blocks stay");
  vp_assert(g_nret == n - k, "every other block is requeued once");
  vp_assert(h->lastCheckpoint_ && h->lastCheckpoint_->numBlocks == k && h->lastCheckpoint_->lastBlockReceivedBytes == c.lastBlockReceivedBytes && h->lastCheckpoint_->lastBlockSeqId == c.lastBlockSeqId &&
                h->lastCheckpoint_->lastBlockOffset == c.lastBlockOffset, "the checkpoint is remembered");
  int64_t delta = 0;
  for (int i = 0; i < n; i++) {
    Src* s = g_src[i];
    if (i < k) {
      vp_assert(h->history_[i].get() == s && s->size == g_size[i] && s->off == g_off[i] && s->st.effectiveDataBytes_ == g_eff[i], "an acknowledged block is untouched");
      continue;
    }
    vp_assert(returnedIndex(s) >= 0, "an unacknowledged block goes back to the queue");
    int64_t r = 0;
    if (i == k && (!c.hasSeqId || (c.lastBlockSeqId == s->md.seqId && c.lastBlockOffset == g_off[i]))) r = c.lastBlockReceivedBytes;
    vp_assert(s->off == g_off[i] + r && s->size == g_size[i] - r, "a requeued block restarts right after the bytes the receiver kept");
    vp_assert(s->st.localErrCode_ != OK, "a requeued block is marked failed");
    delta += g_wasFailed[i] ? -r : g_size[i] - r;
  }
  vp_assert(ts->effectiveDataBytes_ == td - delta, "the thread's bytes count exactly what the receiver kept");
}
// adding a sent block: kept, or, after a global checkpoint, requeued at once
VP_HARNESS(history_add) {
  TransferStats* ts = new TransferStats();
  arbitraryStats(*ts);
  ThreadTransferHistory* h = makeHistory(*ts);
  int n = (int)vp_range("n", 0, 2);
  for (int i = 1; i <= n; i++) h->history_.emplace_back(makeSource(i));
  Src* s = makeSource(0);
  Checkpoint c = arbitraryCheckpoint(B);
  bool have = vp_bool("haveLast"), global = vp_bool("global");
  if (have) h->lastCheckpoint_ = std::make_unique<Checkpoint>(c);
  h->globalCheckpoint_ = global;
  int64_t r = global ? ackedBytes(have ? &c : nullptr, s) : 0;
  vp_assume(r <= s->size);
  std::unique_ptr<ByteSource> p(s);
  bool ok = h->addSource(p);
  vp_assert(p.get() == nullptr, "ownership is taken");
  vp_assert(ok == !global && h->isGlobalCheckpointReceived() == global, "blocks are refused only after a global checkpoint");
  vp_assert((int)h->history_.size() == n + (ok ? 1 : 0) && g_nret == (ok ? 0 : 1), "the block is in the history or in the queue, never in both");
  if (ok) vp_assert(h->history_.back().get() == s && s->off == g_off[0] && s->size == g_size[0] && s->st.effectiveDataBytes_ == g_eff[0], "the block is added at the end, unchanged");
  if (!ok) {
    vp_assert(g_ret[0] == s && s->off == g_off[0] + r && s->size == g_size[0] - r && s->st.localErrCode_ != OK, "a refused block restarts after the bytes the receiver kept");
    vp_assert(h->lastCheckpoint_ == nullptr, "a partial block is credited only once");
  }
  for (int i = 1; i <= n; i++) vp_assert(h->history_[i - 1].get() == g_src[i] && g_src[i]->off == g_off[i], "earlier blocks are untouched");
}
// at the end of a transfer every block is acknowledged or back in the queue
VP_HARNESS(history_finish) {
  TransferStats* ts = new TransferStats();
  arbitraryStats(*ts);
  ThreadTransferHistory* h = makeHistory(*ts);
  int n = (int)vp_range("n", 0, vp_bound_(3, 5));
  for (int i = 0; i < n; i++) h->history_.emplace_back(makeSource(i));
  int64_t acked = vp_range("acked", 0, n);
  h->numAcknowledged_ = acked;
  Checkpoint c = arbitraryCheckpoint(B);
  if (vp_bool("haveLast")) {
    c.numBlocks = acked;
    h->lastCheckpoint_ = std::make_unique<Checkpoint>(c);
  }
  bool all = vp_bool("allAcknowledged");
  if (all) h->markAllAcknowledged();
  else h->returnUnackedSourcesToQueue();
  int64_t k = all ? n : acked;
  vp_assert(h->getNumAcked() == k && (int64_t)h->history_.size() == k && g_nret == n - k, "every block is acknowledged or requeued");
  for (int i = 0; i < n; i++) {
    if (i < k) vp_assert(h->history_[i].get() == g_src[i], "acknowledged blocks stay");
    else vp_assert(returnedIndex(g_src[i]) >= 0 && g_src[i]->off == g_off[i] && g_src[i]->size == g_size[i], "an unacknowledged block is sent again from its start");
  }
  std::vector<TransferStats> st = h->popAckedSourceStats();
  vp_assert((int64_t)st.size() == k && h->history_.empty(), "one statistic per acknowledged block");
  int64_t sum = 0, want = 0;
  for (int64_t i = 0; i < k; i++) { sum += st[i].effectiveDataBytes_; want += g_eff[i]; }
  vp_assert(sum == want, "the statistics are those of the acknowledged blocks");
}
// a global checkpoint waits for the owner thread, whose current block is requeued, not lost
static ThreadTransferHistory* g_h;
static int g_steps;
static Src* g_late;
extern "C" void vp_env__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, std::unique_lock<std::mutex>* lk) {
  lk->unlock();
  // one step of the owner thread
  if (g_steps++ == 0) {
    std::unique_ptr<ByteSource> p(g_late);
    bool ok = g_h->addSource(p);
    vp_assert(!ok && p.get() == nullptr, "the block in flight is refused");
  } else {
    g_h->markNotInUse();
  }
  lk->lock();
}
VP_HARNESS(history_global_wait) {
  TransferStats* ts = new TransferStats();
  arbitraryStats(*ts);
  ThreadTransferHistory* h = g_h = makeHistory(*ts);
  g_steps = 0;
  h->history_.emplace_back(makeSource(1));
  g_late = makeSource(0);
  Checkpoint c = arbitraryCheckpoint(1);
  vp_assume(c.hasSeqId && c.lastBlockReceivedBytes <= g_size[0] && c.lastBlockReceivedBytes <= g_size[1]);
  bool busy = vp_bool("busy");
  if (!busy) h->markNotInUse();
  ErrorCode e = h->setGlobalCheckpoint(c);
  vp_assert(e == OK && h->isGlobalCheckpointReceived(), "accepted");
  vp_assert(h->getNumAcked() == c.numBlocks && (int64_t)h->history_.size() == c.numBlocks, "acknowledged blocks stay");
  vp_assert(g_nret == (c.numBlocks == 0 ? 1 : 0) + (busy ? 1 : 0), "every other block is requeued");
  vp_assert(busy ? g_steps == 2 && returnedIndex(g_late) >= 0 : g_steps == 0, "the call returns only when the owner thread is done, whose block is requeued");
  if (!busy) delete g_late;
}
static int g_notified;
extern "C" void vp_env__ZNSt18condition_variable10notify_allEv(void* cv) { if (g_h && cv == (void*)&g_h->conditionInUse_) g_notified++; }
extern "C" void vp_env__ZNSt18condition_variable10notify_oneEv(void* cv) {}
VP_HARNESS(history_release) {
  TransferStats* ts = new TransferStats();
  g_h = makeHistory(*ts);
  g_notified = 0;
  g_h->inUse_ = true;
  g_h->markNotInUse();
  vp_assert(!g_h->inUse_ && g_notified == 1, "whoever waits for the thread is woken once it has left its history");
}
// the histories of all threads
static void controllerOf(bool mismatch) {
  DirectorySourceQueue* q = (DirectorySourceQueue*)vp_buf("queue", 8);
  TransferStats t1, t2;
  TransferHistoryController c(*q);
  c.addThreadHistory(22, t1);
  c.addThreadHistory(33, t2);
  ThreadTransferHistory &a = c.getTransferHistory(22), &b = c.getTransferHistory(33);
  vp_assert(&a != &b && &a.threadStats_ == &t1 && &b.threadStats_ == &t2 && a.port_ == 22 && b.port_ == 33, "each thread has its own history");
  a.inUse_ = b.inUse_ = false;
  g_h = nullptr;
  g_nret = 0;
  a.history_.emplace_back(makeSource(0));
  a.history_.emplace_back(makeSource(1));
  b.history_.emplace_back(makeSource(2));
  if (mismatch) {
    a.numAcknowledged_ = vp_range("ackedA", 0, 2);
    b.numAcknowledged_ = vp_range("ackedB", 0, 1);
    bool none = a.numAcknowledged_ == 0 && b.numAcknowledged_ == 0;
    ErrorCode e = c.handleVersionMismatch();
    vp_assert((e == OK) == none, "the transfer may start again with another version only if nothing was acknowledged");
    if (e == OK) {
      vp_assert(g_nret == 3 && returnedIndex(g_src[0]) >= 0 && returnedIndex(g_src[1]) >= 0 && returnedIndex(g_src[2]) >= 0, "and then every block is sent again");
      vp_assert(a.history_.empty() && b.history_.empty(), "once");
    }
    return;
  }
  Checkpoint cp = arbitraryCheckpoint(2);
  cp.port = (int32_t)vp_i32("cpPort");
  cp.lastBlockReceivedBytes = 0;
  cp.hasSeqId = false;
  c.handleGlobalCheckpoint(cp);
  bool na = cp.port == 22, nb = cp.port == 33 && cp.numBlocks <= 1;
  vp_assert(a.isGlobalCheckpointReceived() == na && b.isGlobalCheckpointReceived() == nb, "a global checkpoint is applied to the connection it names, and to no other");
  vp_assert((int64_t)a.history_.size() == (na ? cp.numBlocks : 2) && (int64_t)b.history_.size() == (nb ? cp.numBlocks : 1), "with its number of blocks");
  vp_assert(g_nret == (na ? 2 - cp.numBlocks : 0) + (nb ? 1 - cp.numBlocks : 0), "and the blocks not received go back");
}
VP_HARNESS(history_mismatch) { controllerOf(true); }
VP_HARNESS(history_global_port) { controllerOf(false); }
