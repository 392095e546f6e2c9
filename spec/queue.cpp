// Contracts of the sender's block queue.
#include "vp.h"
#include <wdt/util/DirectorySourceQueue.h>
using namespace facebook::wdt;
static const int64_t B = (int64_t)1 << 50;
// ghost record of the blocks created, in order (for one file)
static SourceMetaData* g_md;
static int64_t g_pos, g_blk, g_x, g_fsize, g_total;
static int g_n;  // like the code, counts the blocks of one file in 32 bits (2^31 blocks of at least 1 MB)
static bool g_any;
static int g_nch;
static int64_t g_cs[6], g_ce[6];
static bool g_check;
// g_cs/g_ce: the parts the receiver has (replay) or lacks (proof, as promised by the contract of getRemainingChunks)
static bool inChunks(int64_t x) {
  bool r = false;
  for (int i = 0; i < g_nch; i++) r = r | ((g_cs[i] <= x) & (x < g_ce[i]));
  return r;
}
static bool g_fresh;
static bool received(int64_t x) {
  if (g_fresh) return false;
#ifdef VP_PROOF
  return !inChunks(x);
#else
  return inChunks(x);
#endif
}
#ifdef VP_PROOF
// contract proved by chunks_remaining: sorted, disjoint, non-empty, and together with the received bytes exactly the file
static int g_maxch;
extern "C" void vp_contract__ZN8facebook3wdt14FileChunksInfo18getRemainingChunksEl(std::vector<Interval>* out, FileChunksInfo* f, int64_t size) {
  new (out) std::vector<Interval>();
  vp_assert(size == g_fsize, "remaining chunks of the whole file");
  int n = (int)vp_range("remaining", 0, g_maxch);
  int64_t last = 0, total = 0;
  for (int i = 0; i < n; i++) {
    int64_t a = vp_range("start", 0, B), e = vp_range("end", 0, B);
    vp_assume((a >= last) & (a < e) & (e <= size));
    out->emplace_back(a, e);
    g_cs[i] = a; g_ce[i] = e;
    total += e - a;
    last = e;
  }
  g_nch = n;
  vp_assume(f->getTotalChunkSize() == size - total);
}
#endif
// FileByteSource enters through its constructor: which blocks are made
FileByteSource::FileByteSource(SourceMetaData* md, int64_t size, int64_t offset) : metadata_(md), size_(size), offset_(offset), bytesRead_(0), transferStats_("") {
  if (!g_check) return;
  vp_assert(md == g_md, "the block belongs to the file");
  vp_assert(size >= 0 && size <= g_blk, "a block is not larger than the block size");
  vp_assert(size > 0 || g_fsize == 0, "only an empty file has an empty block");
  vp_assert(offset >= g_pos && offset + size <= g_fsize, "blocks are in order, disjoint and inside the file");
  vp_assert(!(g_x >= g_pos && g_x < offset) || received(g_x), "no missing byte is skipped");
  vp_assert(!(g_x >= offset && g_x < offset + size) || !received(g_x), "no received byte is sent again");
  bytesRead_ = g_n;
  g_pos = offset + size;
  g_n++;
  g_any = true;
  g_total += size;
}
static bool g_openOk[8];
static int g_opens;
static ErrorCode g_openResult(FileByteSource* s) {
  s->bytesRead_ += 100;
  return g_openOk[g_opens++] ? OK : BYTE_SOURCE_READ_ERROR;
}
char* FileByteSource::read(int64_t& size) { size = 0; return nullptr; }
void FileByteSource::advanceOffset(int64_t) {}
ErrorCode FileByteSource::open(ThreadCtx*) { return g_openResult(this); }
void FileByteSource::close() { bytesRead_ -= 1000; }
int FileUtil::openForRead(ThreadCtx&, const std::string&, bool) { return -1; }
#ifdef VP_PROOF
extern "C" void vp_pq_hook(void* p) { vp_assert(((FileByteSource*)(ByteSource*)p)->bytesRead_ == vp_pq_count, "the block made is the one queued"); }
#endif
static WdtOptions* g_opt;
static DirectorySourceQueue* g_q;
static int64_t g_wakeAll, g_wakeOne;   // who waits for blocks is woken
extern "C" void vp_env__ZNSt18condition_variable10notify_allEv(void* c) { if (c == (void*)&g_q->conditionNotEmpty_) g_wakeAll++; }
extern "C" void vp_env__ZNSt18condition_variable10notify_oneEv(void* c) { if (c == (void*)&g_q->conditionNotEmpty_) g_wakeOne++; }
static bool woken(int64_t n) { return (g_wakeAll > 0) | (g_wakeOne >= n); }
static DirectorySourceQueue* makeQueue() {
  g_opt = new WdtOptions();
  g_wakeAll = g_wakeOne = 0;
  return g_q = new DirectorySourceQueue(*g_opt, "/d", nullptr);
}
// what the queue's threads share is accessed with the lock held only
static void shared(bool on) {
#define VP_SHARED(m) if (on) vp_guard_(&g_q->m, sizeof(g_q->m), &g_q->mutex_, #m); else vp_unguard_(&g_q->m);
  VP_SHARED(failedSourceStats_) VP_SHARED(failedDirectories_) VP_SHARED(sourceQueue_) VP_SHARED(numBlocksDequeued_)
  VP_SHARED(numBlocks_) VP_SHARED(numEntries_) VP_SHARED(totalFileSize_) VP_SHARED(initFinished_)
#undef VP_SHARED
}
// one file, received partly before or not at all: blocks, bookkeeping
static void blocks(bool known, int maxChunks) {
  DirectorySourceQueue* q = makeQueue();
#ifdef VP_PROOF
  vp_pq_ghost = 1; vp_pq_count = 0;
#endif
  int64_t mb = q->blockSizeMbytes_ = vp_range("blockMb", -1, 1 << 20);
  SourceMetaData* md = new SourceMetaData();
  md->relPath = vp_str("name");
  g_md = md;
  g_fsize = md->size = vp_range("size", 0, B);
  if (g_fsize == 0) vp_cover("empty file");
  g_blk = mb > 0 ? mb * 1024 * 1024 : g_fsize;
#ifndef VP_PROOF
  vp_assume(g_blk == 0 || g_fsize / g_blk < 100000);
#endif
  g_x = vp_range("x", 0, B);
  g_pos = g_total = 0; g_n = g_nch = 0; g_any = false;
  int64_t next = q->nextSeqId_ = 7;
  int64_t e0 = q->numEntries_ = 3, b0 = q->numBlocks_ = 4, t0 = q->totalFileSize_ = 5;
  int64_t s0 = q->previouslySentBytes_ = 6;
  q->numClientThreads_ = 0;
  int64_t prevSize = 0, prevSeq = 0, covered = 0;
  if (known) {
    FileChunksInfo f;
    std::string nm(md->relPath);
    f.setFileName(nm);
    f.setSeqId(prevSeq = vp_range("prevSeq", 0, B));
    f.setFileSize(prevSize = vp_range("prevSize", 0, B));
#ifdef VP_PROOF
    g_maxch = maxChunks;
    covered = vp_range("received", 0, B);
    Interval rc(0, covered);  // stands for any chunks with this many bytes
    f.addChunk(rc);
#else
    int n = (int)vp_range("chunks", 0, maxChunks);
    int64_t last = 0;
    for (int i = 0; i < n; i++) {
      int64_t a = vp_range("start", 0, B), e = vp_range("end", 0, B);
      vp_assume((a >= last) & (a < e) & (e <= prevSize));
      Interval c(a, e);
      f.addChunk(c);
      g_cs[i] = a; g_ce[i] = e;
      covered += e - a;
      last = e;
    }
    g_nch = n;
#endif
    q->previouslyTransferredChunks_.insert(std::make_pair(std::move(nm), std::move(f)));
  }
  bool fresh = g_fresh = !known || prevSize > g_fsize;
  if (fresh) covered = 0;
  g_check = true;
  q->createIntoQueueInternal(md);
  g_check = false;
  vp_assert(!(g_x >= g_pos && g_x < g_fsize) || received(g_x), "no missing byte is left out");
  bool complete = !fresh && covered == g_fsize;
  vp_assert(complete == !g_any, "a file gets blocks unless it is complete");
#ifdef VP_PROOF
  vp_assert(vp_pq_count == g_n, "every block enters the queue");
#else
  vp_assert((int64_t)q->sourceQueue_.size() == g_n, "every block enters the queue");
#endif
  if (g_n) vp_assert(woken(g_n), "who waits for a block is woken");
  vp_assert(g_total + covered == g_fsize, "queued and received bytes add up to the file");
  vp_assert(q->previouslySentBytes_ == s0 + covered, "bytes received earlier are counted");
  vp_assert(q->numEntries_ == e0 + (complete ? 0 : 1) && q->numBlocks_ == b0 + g_n && q->totalFileSize_ == t0 + g_total, "the queue counts its files, blocks and bytes");
  if (complete) { vp_assert(q->nextSeqId_ == next, "no id is used up"); return; }
  if (fresh) vp_assert(md->seqId == next && q->nextSeqId_ == next + 1, "a file sent from scratch gets a new id");
  else vp_assert(md->seqId == prevSeq && q->nextSeqId_ == next, "a resumed file keeps its id");
  FileAllocationStatus want = !known ? NOT_EXISTS : prevSize > g_fsize ? EXISTS_TOO_LARGE : prevSize < g_fsize ? EXISTS_TOO_SMALL : EXISTS_CORRECT_SIZE;
  vp_assert(md->allocationStatus == want, "the receiver is told how its copy compares");
  vp_assert(md->prevSeqId == (want == EXISTS_TOO_LARGE ? prevSeq : 0), "the old id is invalidated exactly when the copy is discarded");
}
VP_HARNESS(queue_blocks_new) { blocks(false, 0); }
VP_HARNESS(queue_blocks_resume) { blocks(true, vp_bound_(2, 3)); }

// blocks of the queue: ids tell them apart
static FileByteSource* mkblock(int i, const char* nm) {
  SourceMetaData* md = new SourceMetaData();
  md->relPath = nm;
  md->seqId = i;
  md->allocationStatus = (FileAllocationStatus)vp_range("status", NOT_EXISTS, TO_BE_DELETED);
  FileByteSource* s = new FileByteSource(md, vp_range("size", 0, B), vp_range("offset", 0, B));
  s->transferStats_.failedAttempts_ = vp_range("attempts", 0, B);
  s->transferStats_.effectiveDataBytes_ = i;
  return s;
}
static const char* NM[4] = {"b", "a", "c", "d"};
// consuming: every queued block is handed out once (opened), or recorded as failed; best first
VP_HARNESS(queue_next) {
  DirectorySourceQueue* q = makeQueue();
  g_check = false;
  q->initFinished_ = true;
  int n = (int)vp_range("n", 0, vp_bound_(2, 3));
  FileByteSource* s[4];
  bool seen[4];
  for (int i = 0; i < n; i++) {
    s[i] = mkblock(i, NM[i]);
    seen[i] = false;
    g_openOk[i] = vp_bool("opens");
    q->sourceQueue_.push(std::unique_ptr<ByteSource>(s[i]));
  }
  int64_t d0 = q->numBlocksDequeued_ = vp_range("dequeued", 0, B);
  bool failedDir = vp_bool("failedDir");
  if (failedDir) q->failedDirectories_.emplace_back("x");
  g_opens = 0;
  int out = 0;
  FileByteSource* last = nullptr;
  for (int k = 0; k <= n; k++) {
    ErrorCode st = OK;
    int o0 = g_opens;
    shared(true);
    std::unique_ptr<ByteSource> p = q->getNextSource(nullptr, st);
    shared(false);
    int bad = (int)q->failedSourceStats_.size();
    if (!p) {
      vp_assert(out + bad == n && g_opens == n, "the queue ends only when every block was handed out or failed");
      vp_assert((st == OK) == !(failedDir || bad > 0), "the end of the queue reports failed sources");
      vp_assert(q->sourceQueue_.empty(), "nothing is left");
      break;
    }
    vp_assert(st == OK || failedDir || bad > 0, "an error is reported only for a failed source");
    vp_assert(st != OK || !failedDir, "failed directories are reported");
    FileByteSource* f = (FileByteSource*)p.release();
    int id = (int)f->metadata_->seqId;
    vp_assert(id >= 0 && id < n && s[id] == f && !seen[id], "each block is handed out once");
    seen[id] = true;
    vp_assert(f->bytesRead_ == 100 && g_openOk[g_opens - 1], "a block is handed out opened, never after a failed open");
    out++;
    vp_assert(q->numBlocksDequeued_ == d0 + out, "blocks on the way are counted");
    if (last && g_opens == o0 + 1) {
      bool del1 = last->metadata_->allocationStatus == TO_BE_DELETED, del2 = f->metadata_->allocationStatus == TO_BE_DELETED;
      vp_assert(del1 || !del2, "deletions come first");
      if (del1 == del2) vp_assert(last->transferStats_.failedAttempts_ <= f->transferStats_.failedAttempts_, "blocks that failed less often come first");
      if (del1 == del2 && last->transferStats_.failedAttempts_ == f->transferStats_.failedAttempts_) vp_assert(last->size_ >= f->size_, "larger blocks come first");
    }
    last = f;
  }
  for (size_t i = 0; i < q->failedSourceStats_.size(); i++) {
    int id = (int)q->failedSourceStats_[i].effectiveDataBytes_;
    vp_assert(id >= 0 && id < n && !seen[id], "a block that cannot be opened is recorded once");
    seen[id] = true;
  }
}
// returning: exactly the given blocks are available again
VP_HARNESS(queue_return) {
  DirectorySourceQueue* q = makeQueue();
  g_check = false;
  q->initFinished_ = true;
  q->numClientThreads_ = vp_range("threads", 0, 2);
  std::vector<std::unique_ptr<ByteSource>> v;
  int n = (int)vp_range("n", 1, 2);
  int64_t d0 = q->numBlocksDequeued_ = vp_range("dequeued", 0, B), b0 = q->numBlocks_ = 5, e0 = q->numEntries_ = 6;
  vp_assume(d0 >= n);
  FileByteSource* s[4];
  for (int i = 0; i < n; i++) {
    s[i] = mkblock(i, NM[i]);
    v.emplace_back(s[i]);
  }
  shared(true);
  if (n == 1) { std::unique_ptr<ByteSource> p = std::move(v[0]); q->returnToQueue(p); vp_assert(!p, "the queue takes the block"); }
  else q->returnToQueue(v);
  shared(false);
  vp_assert(woken(n), "for each block returned a waiting thread is woken");
  vp_assert((int)q->sourceQueue_.size() == n, "every returned block is queued");
  vp_assert(q->numBlocksDequeued_ == d0 - n && q->numBlocks_ == b0 && q->numEntries_ == e0, "a returned block is no longer on the way and not counted as new");
  vp_assert(!q->finished(), "the queue is not finished");
  for (int i = 0; i < n; i++) g_openOk[i] = true;
  g_opens = 0;
  ErrorCode st;
  bool seen[4] = {false, false, false, false};
  for (int i = 0; i < n; i++) {
    std::unique_ptr<ByteSource> p = q->getNextSource(nullptr, st);
    vp_assert(p && st == OK, "a returned block is handed out again");
    int id = (int)p->getMetaData().seqId;
    vp_assert(p.get() == s[id] && !seen[id], "once");
    seen[id] = true;
    p.release();
  }
  vp_assert(q->finished(), "then the queue is finished");
}
// the failed blocks at the end of a transfer: exactly those still queued, plus those recorded before
VP_HARNESS(queue_failed) {
  DirectorySourceQueue* q = makeQueue();
  g_check = false;
  int n = (int)vp_range("n", 0, 2);
  for (int i = 0; i < n; i++) q->sourceQueue_.push(std::unique_ptr<ByteSource>(mkblock(i, NM[i])));
  int k = (int)vp_range("before", 0, 1);
  if (k) { TransferStats t("z"); t.effectiveDataBytes_ = 99; q->failedSourceStats_.emplace_back(std::move(t)); }
  std::pair<int64_t, ErrorCode> st = q->getNumBlocksAndStatus();
  vp_assert((st.second == OK) == (k == 0) && st.first == q->numBlocks_, "the status tells of failed sources");
  std::vector<TransferStats>& f = q->getFailedSourceStats();
  vp_assert((int)f.size() == n + k && q->sourceQueue_.empty(), "every block still queued failed");
  int64_t sum = 0;
  for (auto& t : f) sum += t.effectiveDataBytes_;
  vp_assert(sum == (k ? 99 : 0) + (n == 2 ? 1 : 0), "each once");
}
// a second announcement of received files: the queue is rebuilt, ids stay distinct, files gone at the sender are deleted
VP_HARNESS(queue_rebuild) {
  DirectorySourceQueue* q = makeQueue();
  g_check = false;
  q->blockSizeMbytes_ = -1;
  q->initFinished_ = vp_bool("discovered");
  q->allDiscovered_ = q->initFinished_ && vp_bool("allDiscovered");
  q->deleteFiles_ = vp_bool("delete");
  q->nextSeqId_ = 3;
  int n = 0, m = 0;
  while (n < 2 && vp_bool("more")) n++;
  SourceMetaData* md[4];
  for (int i = 0; i < n; i++) {
    md[i] = new SourceMetaData();
    md[i]->relPath = NM[i];
    md[i]->size = vp_range("size", 0, B);
    q->sharedFileData_.emplace_back(md[i]);
    q->createIntoQueueInternal(md[i]);
  }
  std::vector<FileChunksInfo> prev;
  bool have[4] = {false, false, false, false}, discovered[4];
  int64_t seq[4], got[4], psz[4];
  int at[4];
  for (int w = 0; w < 3 && m < vp_bound_(1, 2); w++) {
    if (!vp_bool("known")) continue;
    have[w] = true;
    at[m++] = w;
    prev.emplace_back();
    FileChunksInfo& f = prev.back();
    std::string nm(NM[w]);
    f.setFileName(nm);
    f.setSeqId(seq[w] = vp_range("seq", 0, B));
    f.setFileSize(psz[w] = vp_range("psize", 0, B));
    got[w] = vp_range("received", 0, B);
    vp_assume(got[w] <= psz[w]);
    Interval c(0, got[w]);
    f.addChunk(c);
    for (int j = 0; j + 1 < m; j++) vp_assume(seq[at[j]] != seq[w]);
  }
  q->setPreviouslyReceivedChunks(prev);
  int64_t total = 0, files = 0, dels = 0;
  for (int i = 0; i < n; i++) {
    bool resume = have[i] && psz[i] <= md[i]->size;
    int64_t miss = md[i]->size - (resume ? got[i] : 0);
    bool complete = resume && miss == 0;
    total += miss;
    files += complete ? 0 : 1;
    if (!complete) for (int j = 0; j < i; j++) {
      bool cj = have[j] && psz[j] <= md[j]->size && md[j]->size == got[j];
      if (!cj) vp_assert(md[i]->seqId != md[j]->seqId, "different files have different ids");
    }
    if (!complete && !resume) for (int j = 0; j < 3; j++) if (have[j]) vp_assert(md[i]->seqId != seq[j], "a new file never reuses the id of a received file");
  }
  bool del = q->deleteFiles_ && q->initFinished_ && q->allDiscovered_;
  if (del) for (int w = 0; w < 3; w++) if (have[w] && w >= n) dels++;
  vp_assert(q->totalFileSize_ == total && q->numEntries_ == files + dels && q->numBlocks_ == files + dels, "the queue counts what is to be sent and deleted");
  vp_assert((int64_t)q->sourceQueue_.size() == files + dels, "one block per file to send or delete");
  vp_assert((int64_t)q->sharedFileData_.size() == n + dels, "files to delete are recorded");
  for (int64_t i = n; i < n + dels; i++) {
    SourceMetaData* d = q->sharedFileData_[i];
    vp_assert(d->allocationStatus == TO_BE_DELETED && d->size == 0, "an extra file at the receiver is deleted");
    bool ok = false;
    for (int w = n; w < 3; w++) if (have[w] && seq[w] == d->seqId && d->relPath == NM[w]) ok = true;
    vp_assert(ok, "only files the sender does not have are deleted");
  }
}
// waiting: a consumer of an empty queue waits, without the lock, until a block arrives or discovery ends
static int g_waits;
static bool g_wLast;
extern "C" void vp_env__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, std::unique_lock<std::mutex>* lk) {
  vp_assert(lk->mutex() == &g_q->mutex_ && lk->owns_lock(), "waits holding the queue's lock");
  vp_assert(g_q->sourceQueue_.empty() && !g_q->initFinished_, "waits only while blocks may still come");
  lk->unlock();
  {
    std::unique_lock<std::mutex> l2(g_q->mutex_);
    g_waits++;
    if (g_waits == 2 || vp_bool("arrives")) {
      if (g_wLast) g_q->initFinished_ = true;
      else g_q->sourceQueue_.push(std::unique_ptr<ByteSource>(mkblock(0, NM[0])));
    }
  }
  lk->lock();
}
VP_HARNESS(queue_wait) {
  DirectorySourceQueue* q = g_q = makeQueue();
  g_check = false;
  g_waits = g_opens = 0;
  g_openOk[0] = true;
  g_wLast = vp_bool("ends");
  ErrorCode st;
  int64_t w0 = q->numWaiters_ = vp_range("waiters", 0, B);
  shared(true);
  std::unique_ptr<ByteSource> p = q->getNextSource(nullptr, st);
  shared(false);
  vp_assert(g_waits >= 1 && st == OK, "waited");
  vp_assert((p == nullptr) == g_wLast, "a block that arrives late is handed out");
  vp_assert(q->numWaiters_ == w0, "no longer counted as waiting");
  p.release();
}
