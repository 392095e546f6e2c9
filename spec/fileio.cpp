// Contracts of FileWriter and FileByteSource over an adversarial file system:
// every system call may fail, be interrupted or be short.
#include "vp.h"
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <wdt/util/FileByteSource.h>
#include <wdt/util/FileWriter.h>
using namespace facebook::wdt;

// ------------------------------------------------------------ environment
static int e_errno;
static int64_t e_pos;        // file position of the descriptor
static int e_fd;             // the descriptor of the file under test
static const char* e_base;   // data of the current write() request
static int64_t e_len, e_done;
static int64_t e_start;      // file position at which the request must land
static bool e_failed;        // a system call returned an error other than EINTR
static int64_t e_openret, e_opens, e_closes, e_seeks, e_fsyncs, e_writes;
static bool e_closed;

static void envReset(int fd) {
  e_errno = 0; e_pos = 0; e_fd = fd; e_base = nullptr; e_len = e_done = e_start = 0; e_failed = false;
  e_opens = e_closes = e_seeks = e_fsyncs = e_writes = 0; e_closed = false;
}
extern "C" int* vp_env___errno_location() { return &e_errno; }
extern "C" ssize_t vp_env_write(int fd, const void* buf, size_t n) {
  vp_assert(fd == e_fd && !e_closed, "data is written to the block's own open descriptor");
  vp_assert((const char*)buf == e_base + e_done, "each write continues where the data stopped");
  vp_assert((int64_t)n >= 1 && (int64_t)n <= e_len - e_done, "no byte beyond the given data is written");
  vp_assert(e_pos == e_start + e_done, "each byte lands at its own file position");
  e_writes++;
  int64_t r = vp_range("write_ret", -1, (int64_t)n);
  if (r == -1) {
    e_errno = vp_range("write_errno", 1, 130);
    if (e_errno != EINTR) e_failed = true;
    return -1;
  }
  e_done += r;
  e_pos += r;
  return r;
}
extern "C" off_t vp_env_lseek(int fd, off_t o, int whence) {
  vp_assert(fd == e_fd && !e_closed, "seek on the block's own descriptor");
  vp_assert(whence == SEEK_SET, "absolute seek");
  e_seeks++;
  if (vp_bool("seek_fails")) { e_errno = EINVAL; e_failed = true; return -1; }
  e_pos = o;
  return o;
}
extern "C" int vp_env_close(int fd) {
  vp_assert(fd == e_fd && !e_closed, "the descriptor is closed once");
  e_closed = true; e_closes++;
  if (vp_bool("close_fails")) { e_errno = EIO; e_failed = true; return -1; }
  return 0;
}
extern "C" int vp_env_fsync(int fd) {
  vp_assert(fd == e_fd && !e_closed, "fsync on the block's own descriptor");
  e_fsyncs++;
  if (vp_bool("fsync_fails")) { e_errno = EIO; e_failed = true; return -1; }
  return 0;
}
extern "C" int vp_env_posix_fadvise(int fd, off_t o, off_t n, int adv) {
  if (vp_bool("fadvise_fails")) { e_failed = true; return EINVAL; }
  return 0;
}
extern "C" int vp_env_sync_file_range(int fd, off_t o, off_t n, unsigned fl) {
  if (vp_bool("sync_range_fails")) { e_failed = true; return -1; }
  return 0;
}
// contract of FileCreator::openForBlocks: a descriptor, -1 on failure, and -1 for a file to be deleted
int FileCreator::openForBlocks(ThreadCtx& ctx, BlockDetails const* b) {
  e_opens++;
  if (b->allocationStatus == TO_BE_DELETED) return -1;
  if (vp_bool("create_fails")) { e_failed = true; return -1; }
  e_pos = 0;
  return e_fd;
}
static WdtOptions& arbitraryOptions() {
  auto* o = new WdtOptions();
  o->skip_writes = vp_bool("skip_writes");
  o->fsync = vp_bool("fsync");
  o->skip_fadvise = vp_bool("skip_fadvise");
  o->enable_download_resumption = vp_bool("download_resumption");
  o->resume_using_dir_tree = vp_bool("resume_dir_tree");
  o->disk_sync_interval_mb = vp_range("sync_mb", -1, 1000);
  return *o;
}
static BlockDetails& arbitraryBlock() {
  auto* b = new BlockDetails();
  b->offset = vp_range("offset", 0, (int64_t)1 << 60);
  b->dataSize = vp_range("dataSize", 0, (int64_t)1 << 60);
  b->fileSize = b->offset + b->dataSize;
  b->allocationStatus = (FileAllocationStatus)vp_range("alloc", NOT_EXISTS, TO_BE_DELETED);
  return *b;
}

// open(): on success the descriptor is positioned at the block's offset
VP_HARNESS(writer_open) {
  WdtOptions& o = arbitraryOptions();
  auto* ctx = new ThreadCtx(o, false);
  BlockDetails& b = arbitraryBlock();
  envReset(vp_range("fd", 0, 1000));
  auto* w = new FileWriter(*ctx, &b, (FileCreator*)nullptr);
  ErrorCode e = w->open();
  if (o.skip_writes) {
    vp_assert(e == OK && e_opens == 0, "with writes skipped no file is opened");
  } else if (b.allocationStatus == TO_BE_DELETED) {
    vp_assert(e == OK && w->isClosed(), "deleting a file opens nothing");
  } else if (e == OK) {
    vp_cover("open succeeds");
    vp_assert(!e_failed, "success only if no system call failed");
    vp_assert(!w->isClosed() && !e_closed && e_opens == 1, "success leaves the file open");
    vp_assert(e_pos == b.offset, "the descriptor stands at the block offset");
  } else {
    vp_assert(e == FILE_WRITE_ERROR && e_failed, "failure is reported as a file write error, and only on failure");
    vp_assert(w->isClosed() && (e_seeks == 0 || e_closed), "a failed open leaves no descriptor open");
  }
  vp_assert(w->getTotalWritten() == 0, "opening writes nothing");
}

// write(): all bytes, in order, at consecutive positions; success iff nothing failed
VP_HARNESS(writer_write) {
  WdtOptions& o = arbitraryOptions();
  auto* ctx = new ThreadCtx(o, false);
  BlockDetails& b = arbitraryBlock();
  vp_assume(b.allocationStatus != TO_BE_DELETED);
  envReset(vp_range("fd", 0, 1000));
  auto* w = new FileWriter(*ctx, &b, (FileCreator*)nullptr);
  int64_t before = vp_range("totalWritten", 0, (int64_t)1 << 60);
  w->totalWritten_ = before;
  w->fd_ = e_fd;
  w->writtenSinceLastSync_ = vp_range("sinceSync", 0, (int64_t)1 << 60);
  w->nextSyncOffset_ = vp_range("nextSync", 0, (int64_t)1 << 60);
  e_start = e_pos = vp_range("pos", 0, (int64_t)1 << 60);
  int64_t n = vp_size("n");
  char* buf = vp_buf("data", n);
  e_base = buf;
  e_len = n;
  ErrorCode e = w->write(buf, n);
  vp_assert(w->fd_ == e_fd && !e_closed, "writing keeps the file open");
  if (o.skip_writes) {
    vp_assert(e == OK && e_writes == 0, "with writes skipped nothing is written");
    vp_assert(w->getTotalWritten() == before + n, "the total counts every byte once");
  } else if (e == OK) {
    vp_cover("write succeeds");
    vp_assert(!e_failed, "success only if no system call failed");
    vp_assert(e_done == n, "success only after every byte was written");
    vp_assert(w->getTotalWritten() == before + n, "the total counts every byte once");
  } else {
    vp_assert(e == FILE_WRITE_ERROR && e_failed, "failure is reported as a file write error, and only on failure");
    vp_assert(w->getTotalWritten() == before, "a failed write does not count");
  }
}

// sync() and close()
VP_HARNESS(writer_sync_close) {
  WdtOptions& o = arbitraryOptions();
  auto* ctx = new ThreadCtx(o, false);
  BlockDetails& b = arbitraryBlock();
  envReset(vp_range("fd", 0, 1000));
  auto* w = new FileWriter(*ctx, &b, (FileCreator*)nullptr);
  bool open = vp_bool("open");
  w->fd_ = open ? e_fd : -1;
  ErrorCode e = w->sync();
  if (!open) {
    vp_assert(e == OK && e_fsyncs == 0, "nothing to sync when the file is not open");
  } else {
    vp_assert((e == OK) == !e_failed, "sync reports every failure");
    vp_assert(e == OK || e == FILE_WRITE_ERROR, "a failed sync is a file write error");
    bool must = o.fsync || (o.enable_download_resumption && !o.resume_using_dir_tree);
    vp_assert(!must || e_fsyncs == 1, "data is forced to disk when fsync or log based resumption asks for it");
    vp_assert(must || e_fsyncs == 0, "no fsync unless asked for");
  }
  vp_assert(!e_closed, "sync does not close");
  e_failed = false;
  ErrorCode c = w->close();
  vp_assert(e_closes == (open ? 1 : 0), "close closes an open descriptor exactly once");
  vp_assert((c == OK) == !e_failed, "close reports failure");
  vp_assert(w->isClosed(), "closed after close");
  ErrorCode c2 = w->close();
  vp_assert(c2 == OK && e_closes == (open ? 1 : 0), "closing twice closes once");
}

// ------------------------------------------------------------ FileByteSource
static char* r_buf;
static int64_t r_bufsize, r_off, r_n, r_ret;
static bool r_called;
extern "C" ssize_t vp_env_pread(int fd, void* buf, size_t n, off_t off) {
  vp_assert(fd == e_fd && !e_closed, "reads the source's own descriptor");
  vp_assert((char*)buf == r_buf, "reads into the thread's buffer");
  vp_assert((int64_t)n >= 1 && (int64_t)n <= r_bufsize, "never reads past the buffer");
  vp_assert(off >= 0, "reads at a valid position");
  r_off = off; r_n = (int64_t)n; r_called = true;
  r_ret = vp_range("pread_ret", -1, (int64_t)n);
  if (r_ret < 0) e_errno = EIO;
  return r_ret;
}

// read(): delivers exactly the next bytes of the block, never more than the block
VP_HARNESS(source_read) {
  WdtOptions& o = arbitraryOptions();
  auto* ctx = new ThreadCtx(o, false);
  #ifdef VP_PROOF
  r_bufsize = vp_range("bufblocks", 1, 1 << 18) * kDiskBlockSize;
#else
  r_bufsize = vp_range("bufblocks", 1, 3) * kDiskBlockSize;
#endif
  r_buf = vp_buf("buffer", r_bufsize);
  auto* bf = new Buffer(kDiskBlockSize);
  free(bf->data_);
  bf->data_ = r_buf;
  bf->size_ = r_bufsize;
  ctx->buffer_.reset(bf);
  envReset(vp_range("fd", 0, 1000));
  auto* md = new SourceMetaData();
  md->relPath = vp_str("path");
  md->allocationStatus = NOT_EXISTS;
  md->directReads = vp_bool("direct");
  bool shared = vp_bool("sharedFd");
  md->fd = shared ? e_fd : -1;
  int64_t size = vp_range("size", 0, (int64_t)1 << 60), offset = vp_range("offset", 0, (int64_t)1 << 60);
  int64_t done = vp_range("bytesRead", 0, size);
  auto* s = new FileByteSource(md, size, offset);
  s->threadCtx_ = ctx;
  s->fd_ = e_fd;
  s->alignedReadNeeded_ = md->directReads;
  s->bytesRead_ = done;
  r_called = false;
  int64_t got = vp_i64("garbage");
  vp_assert(s->finished() == (done == size), "finished exactly when every byte of the block was delivered");
  char* p = s->read(got);
  if (done == size) {
    vp_assert(p == nullptr && got == 0 && !r_called, "a finished block delivers nothing more");
  } else if (p != nullptr) {
    vp_cover("data delivered");
    vp_assert(got >= 1 && got <= size - done, "never delivers more than the rest of the block");
    vp_assert(s->bytesRead_ == done + got, "every delivered byte is counted once");
    // the bytes at p are those of the file position offset+done
    vp_assert(r_called && r_off + (p - r_buf) == offset + done, "delivered bytes come from the right file position");
    vp_assert(p >= r_buf && (p - r_buf) + got <= r_ret, "only bytes that were read are delivered");
    vp_assert(!md->directReads || (r_off % kDiskBlockSize == 0 && r_n % kDiskBlockSize == 0), "direct reads are aligned");
    vp_assert(md->directReads || got == r_ret, "no read byte is lost");
  } else {
    vp_assert(s->bytesRead_ == done && got == 0, "a failed read delivers nothing");
    vp_assert(!s->finished() && s->hasError(), "a failed or short file is an error, never a finished block");
    vp_assert(e_closes == (shared ? 0 : 1), "the source closes only a descriptor it opened");
    if (r_ret < 0) vp_assert(s->getTransferStats().getLocalErrorCode() == BYTE_SOURCE_READ_ERROR, "a read error is recorded");
  }
}
static int64_t o_flags;
extern "C" int vp_env_open(const char* path, int flags, ...) {
  e_opens++;
  o_flags = flags;
  if (vp_bool("open_fails")) { e_errno = ENOENT; return -1; }
  return e_fd;
}
VP_HARNESS(source_open) {
  WdtOptions& o = arbitraryOptions();
  auto* ctx = new ThreadCtx(o, false);
  envReset(vp_range("fd", 0, 1000));
  auto* md = new SourceMetaData();
  md->relPath = vp_str("path");
  md->fullPath = md->relPath;
  md->allocationStatus = vp_bool("todelete") ? TO_BE_DELETED : NOT_EXISTS;
  md->directReads = vp_bool("direct");
  bool shared = vp_bool("sharedFd");
  md->fd = shared ? e_fd : -1;
  int64_t size = vp_range("size", 0, (int64_t)1 << 60), offset = vp_range("offset", 0, (int64_t)1 << 60);
  auto* s = new FileByteSource(md, size, offset);
  ErrorCode e = s->open(ctx);
  if (md->allocationStatus == TO_BE_DELETED) {
    vp_assert(e == OK && e_opens == 0 && !s->hasError(), "a file to be deleted is not opened and is no error");
    return;
  }
  vp_assert(e_opens == (shared ? 0 : 1), "opens the file unless a shared descriptor exists");
  vp_assert((e == OK) == !s->hasError(), "open reports failure");
  vp_assert(e == OK || (e == BYTE_SOURCE_READ_ERROR && s->getTransferStats().getLocalErrorCode() == BYTE_SOURCE_READ_ERROR), "open failure is a read error");
  if (e == OK) {
    vp_assert(s->fd_ == e_fd && s->bytesRead_ == 0 && s->getSize() == size && s->getOffset() == offset, "starts at the beginning of the block");
    vp_assert(s->alignedReadNeeded_ == md->directReads, "direct sources read aligned");
    vp_assert(shared || (((o_flags & O_DIRECT) != 0) == md->directReads && (o_flags & O_ACCMODE) == O_RDONLY), "opened read-only, direct exactly when asked");
    int64_t adv = vp_range("advance", 0, size);
    s->advanceOffset(adv);
    vp_assert(s->getOffset() == offset + adv && s->getSize() == size - adv, "advancing keeps the end of the block");
    s->close();
    vp_assert(e_closes == (shared ? 0 : 1) && s->hasError(), "close closes only an own descriptor");
    s->close();
    vp_assert(e_closes == (shared ? 0 : 1), "closing twice closes once");
  }
}
