// Contracts of the statistics, error aggregation and final verdict.
#include "vp.h"
#include <wdt/Reporting.h>
using namespace facebook::wdt;
static const int kMaxErr = AUTH_ERROR;
static ErrorCode err(const char* n) { return (ErrorCode)vp_range(n, OK, kMaxErr); }
static const int64_t B = (int64_t)1 << 50;
static void fill(TransferStats& s) {
  s.headerBytes_ = vp_range("headerBytes", 0, B);
  s.dataBytes_ = vp_range("dataBytes", 0, B);
  s.effectiveHeaderBytes_ = vp_range("effHeaderBytes", 0, B);
  s.effectiveDataBytes_ = vp_range("effDataBytes", 0, B);
  s.numFiles_ = vp_range("numFiles", 0, B);
  s.numBlocks_ = vp_range("numBlocks", 0, B);
  s.failedAttempts_ = vp_range("failed", 0, B);
  s.numBlocksSend_ = vp_range("numBlocksSend", -1, B);
  s.totalSenderBytes_ = vp_range("totalSenderBytes", -1, B);
  s.localErrCode_ = err("local");
  s.remoteErrCode_ = err("remote");
}
// error combination: the worse of two errors, success only if both succeeded
VP_HARNESS(error_combine) {
  ErrorCode a = err("a"), b = err("b"), c = err("c");
  ErrorCode r = getMoreInterestingError(a, b);
  vp_assert(r == a || r == b, "the result is one of the two");
  vp_assert((r == OK) == (a == OK && b == OK), "no error is ever turned into success");
  vp_assert(r == getMoreInterestingError(b, a), "the order of the two does not matter");
  vp_assert(getMoreInterestingError(r, c) == getMoreInterestingError(a, getMoreInterestingError(b, c)), "grouping does not matter");
  vp_assert(getMoreInterestingError(a, a) == a, "an error combined with itself stays");
  vp_assert(r >= a && r >= b, "later declared errors have priority");
}
// adding statistics: every counter is the sum, no error gets lost
VP_HARNESS(stats_add) {
  TransferStats* a = new TransferStats(vp_bool("alock"));
  TransferStats* b = new TransferStats(vp_bool("block"));
  fill(*a); fill(*b);
  int64_t v0[7] = {a->headerBytes_, a->dataBytes_, a->effectiveHeaderBytes_, a->effectiveDataBytes_, a->numFiles_, a->numBlocks_, a->failedAttempts_};
  int64_t w0[7] = {b->headerBytes_, b->dataBytes_, b->effectiveHeaderBytes_, b->effectiveDataBytes_, b->numFiles_, b->numBlocks_, b->failedAttempts_};
  int64_t ns = a->numBlocksSend_, ts = a->totalSenderBytes_, ns2 = b->numBlocksSend_, ts2 = b->totalSenderBytes_;
  ErrorCode l = a->localErrCode_, r = a->remoteErrCode_, l2 = b->localErrCode_, r2 = b->remoteErrCode_;
  *a += *b;
  int64_t v1[7] = {a->headerBytes_, a->dataBytes_, a->effectiveHeaderBytes_, a->effectiveDataBytes_, a->numFiles_, a->numBlocks_, a->failedAttempts_};
  for (int i = 0; i < 7; i++) vp_assert(v1[i] == v0[i] + w0[i], "each counter is the sum of both");
  vp_assert(a->getHeaderBytes() == v1[0] && a->getDataBytes() == v1[1] && a->getTotalBytes() == v1[0] + v1[1], "getters report the raw counters");
  vp_assert(a->getEffectiveHeaderBytes() == v1[2] && a->getEffectiveDataBytes() == v1[3] && a->getEffectiveTotalBytes() == v1[2] + v1[3], "getters report the effective counters");
  vp_assert(a->getNumFiles() == v1[4] && a->getNumBlocks() == v1[5] && a->getFailedAttempts() == v1[6], "getters report the counts");
  vp_assert(b->headerBytes_ == w0[0] && b->dataBytes_ == w0[1] && b->numBlocks_ == w0[5] && b->localErrCode_ == l2, "the added statistics are unchanged");
  bool mism = (ns != -1 && ns2 != -1 && ns != ns2) || (ts != -1 && ts2 != -1 && ts != ts2);
  vp_assert(a->numBlocksSend_ == (ns == -1 ? ns2 : ns) && a->totalSenderBytes_ == (ts == -1 ? ts2 : ts), "announced totals are taken over once known");
  vp_assert(!mism || a->localErrCode_ != OK, "contradicting announced totals are an error");
  vp_assert(mism || (a->localErrCode_ == OK) == (l == OK && l2 == OK), "a local error is never lost");
  vp_assert(a->localErrCode_ >= l2 && (mism || a->localErrCode_ >= l), "the more interesting local error wins");
  vp_assert((a->remoteErrCode_ == OK) == (r == OK && r2 == OK), "a remote error is never lost");
  vp_assert(a->remoteErrCode_ >= r && a->remoteErrCode_ >= r2, "the more interesting remote error wins");
  ErrorCode e = a->getErrorCode();
  vp_assert((e == OK) == (a->localErrCode_ == OK && a->remoteErrCode_ == OK), "overall success needs both sides");
}
// counters move exactly by what is reported
VP_HARNESS(stats_update) {
  TransferStats* a = new TransferStats(vp_bool("lock"));
  fill(*a);
  int64_t n = vp_range("n", 0, B), k = vp_range("k", 0, B);
  int64_t h = a->headerBytes_, d = a->dataBytes_, eh = a->effectiveHeaderBytes_, ed = a->effectiveDataBytes_, nb = a->numBlocks_, f = a->failedAttempts_;
  a->addHeaderBytes(n); a->addDataBytes(k);
  vp_assert(a->headerBytes_ == h + n && a->dataBytes_ == d + k && a->effectiveHeaderBytes_ == eh && a->effectiveDataBytes_ == ed, "raw bytes");
  a->addEffectiveBytes(n, k);
  vp_assert(a->effectiveHeaderBytes_ == eh + n && a->effectiveDataBytes_ == ed + k, "effective bytes are added");
  a->subtractEffectiveBytes(n, k);
  vp_assert(a->effectiveHeaderBytes_ == eh && a->effectiveDataBytes_ == ed, "effective bytes are taken back exactly");
  a->incrNumBlocks();
  vp_assert(a->numBlocks_ == nb + 1 && a->failedAttempts_ == f, "one block");
  a->decrNumBlocks();
  vp_assert(a->numBlocks_ == nb, "one block less");
  a->incrFailedAttempts();
  vp_assert(a->failedAttempts_ == f + 1 && a->headerBytes_ == h + n && a->dataBytes_ == d + k, "one failed attempt");
  ErrorCode e = err("e");
  ErrorCode r0 = a->remoteErrCode_;
  a->setLocalErrorCode(e);
  vp_assert(a->getLocalErrorCode() == e && a->getRemoteErrorCode() == r0, "local error");
  a->setRemoteErrorCode(e);
  vp_assert(a->getRemoteErrorCode() == e && a->getErrorCode() == e, "remote error");
  a->reset();
  vp_assert(a->getTotalBytes() == 0 && a->getEffectiveTotalBytes() == 0 && a->getNumBlocks() == 0 && a->getFailedAttempts() == 0 && a->getErrorCode() == OK, "reset clears");
}
// receiver verdict
VP_HARNESS(verdict_receiver) {
  TransferStats s;
  fill(s);
  int64_t sent = s.numBlocksSend_, got = s.numBlocks_, sb = s.totalSenderBytes_, gb = s.effectiveDataBytes_;
  ErrorCode l = s.localErrCode_, r = s.remoteErrCode_;
  auto* rep = new TransferReport(std::move(s));
  ErrorCode e = rep->getSummary().getErrorCode();
  bool complete = sent != -1 && sent == got && (sb == -1 || sb == gb);
  vp_assert(e != OK || complete, "success only when every announced block and byte arrived");
  vp_assert(e != OK || r == OK, "success only when the sender reported no error");
  vp_assert(e != OK || l != ENCRYPTION_ERROR, "an encryption error is never forgiven");
  vp_assert(!(complete && r == OK && l != ENCRYPTION_ERROR) || e == OK, "a complete transfer is a success");
  vp_assert(rep->getSummary().getRemoteErrorCode() == r, "the remote error is kept");
  if (!complete) vp_assert(rep->getSummary().getLocalErrorCode() >= l && rep->getSummary().getLocalErrorCode() != OK, "an incomplete transfer keeps or raises the local error");
  if (e == OK) vp_cover("success");
  vp_assert(rep->getSummary().getNumBlocks() == got && rep->getSummary().getEffectiveDataBytes() == gb, "the counts are kept");
}
#ifdef VP_PROOF
// contracts proved by error_combine and stats_add
extern "C" int vp_contract__ZN8facebook3wdt23getMoreInterestingErrorENS0_9ErrorCodeES1_(int a, int b) { return a > b ? a : b; }
extern "C" TransferStats* vp_contract__ZN8facebook3wdt13TransferStatspLERKS1_(TransferStats* a, TransferStats* b) {
  a->headerBytes_ += b->headerBytes_; a->dataBytes_ += b->dataBytes_;
  a->effectiveHeaderBytes_ += b->effectiveHeaderBytes_; a->effectiveDataBytes_ += b->effectiveDataBytes_;
  a->numFiles_ += b->numFiles_; a->numBlocks_ += b->numBlocks_; a->failedAttempts_ += b->failedAttempts_;
  int64_t ns = a->numBlocksSend_, ns2 = b->numBlocksSend_, ts = a->totalSenderBytes_, ts2 = b->totalSenderBytes_;
  bool mism = ((ns != -1) & (ns2 != -1) & (ns != ns2)) | ((ts != -1) & (ts2 != -1) & (ts != ts2));
  a->numBlocksSend_ = ns == -1 ? ns2 : ns;
  a->totalSenderBytes_ = ts == -1 ? ts2 : ts;
  int l = a->localErrCode_, l2 = b->localErrCode_, r = a->remoteErrCode_, r2 = b->remoteErrCode_;
  int nl = (int)vp_i32("contract_local");
  vp_assume(mism ? (nl != OK) & (nl >= l2) & (nl <= kMaxErr) : nl == (l > l2 ? l : l2));
  a->localErrCode_ = (ErrorCode)nl;
  a->remoteErrCode_ = (ErrorCode)(r > r2 ? r : r2);
  return a;
}
#endif
// sender verdict
VP_HARNESS(verdict_sender) {
  std::vector<TransferStats> transferred, failed, threads;
  std::vector<std::string> dirs;
#ifndef MAXT
#define MAXT 3
#endif
  int nt = (int)vp_range("threads", 0, MAXT), nf = (int)vp_range("failedSources", 0, 2);
  int64_t bytes = 0;
  bool anyErr = false, anyOk = false, failErr = false;
  ErrorCode worst = OK;
  for (int i = 0; i < nt; i++) {
    threads.emplace_back();
    TransferStats& s = threads.back();
    s.effectiveDataBytes_ = vp_range("effDataBytes", 0, B);
    s.headerBytes_ = vp_range("headerBytes", 0, B);
    s.localErrCode_ = err("local");
    s.remoteErrCode_ = err("remote");
    bytes += s.effectiveDataBytes_;
    ErrorCode e = s.localErrCode_ > s.remoteErrCode_ ? s.localErrCode_ : s.remoteErrCode_;
    anyOk |= e == OK;
    anyErr |= e != OK;
    worst = e > worst ? e : worst;
  }
  for (int i = 0; i < nf; i++) {
    failed.emplace_back();
    TransferStats& s = failed.back();
    s.localErrCode_ = err("flocal");
    failErr |= s.localErrCode_ != OK;
    worst = s.localErrCode_ > worst ? s.localErrCode_ : worst;
  }
  bool nd = vp_bool("failedDirs");
  if (nd) dirs.push_back("d");
  int64_t total = vp_range("totalFileSize", 0, B * 4), disc = vp_range("discovered", 2, B);
  auto* rep = new TransferReport(transferred, failed, threads, dirs, 1.0, total, disc, 0, true);
  ErrorCode e = rep->getSummary().getErrorCode();
  vp_assert(e != OK || bytes == total, "success only when every byte was sent");
  vp_assert(e != OK || !nd, "success only when every directory could be read");
  vp_assert(e != OK || !failErr, "success only when no source failed");
  vp_assert(e != OK || !anyErr || (anyOk && nf == 0), "a thread error is forgiven only when another thread finished and nothing failed");
  vp_assert(!(bytes == total && !anyErr && !failErr && !nd) || e == OK, "a clean complete transfer is a success");
  vp_assert(e == OK || e == worst || (worst == OK && e == ERROR) || (nd && e == BYTE_SOURCE_READ_ERROR), "the reported error is the most interesting one");
  vp_assert(rep->getSummary().getEffectiveDataBytes() == bytes, "the summary adds up all threads");
  if (e == OK) vp_cover("success");
}
