// Contracts of FileCreator: files are created once, under the destination, and no thread writes to a file before it is allocated.
#include "vp.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <wdt/util/FileCreator.h>
using namespace facebook::wdt;

static FileCreator* g_fc;
static ThreadCtx* g_ctx;
static BlockDetails* g_b;
static WdtOptions* g_o;
static TransferLogManager* g_log;
static int64_t g_seq;
static int g_me;
static void *g_spin, *g_amutex;
enum { NONE = -3, FAIL = -2, DONE = -1 };  // otherwise: the index of the thread that allocates
static bool g_rely;                        // other threads take steps

struct Look {  // the specification looks at the map as if it had the lock
  bool mine = !vp_held_(g_spin);
  Look() { if (mine) vp_lock_(g_spin); }
  ~Look() { if (mine) vp_unlock_(g_spin); }
};
static int64_t g_k;   // an arbitrary position
static bool pathIs(const char* path, const std::string& rel) {
  int64_t n = (int64_t)rel.size();
  if (memcmp(path, "/dst/", 5) != 0) return false;
  return path[5 + g_k] == (g_k == n ? 0 : rel[g_k]);
}
static bool prefixOf(const std::string& dir, const std::string& whole) {
  int64_t n = (int64_t)dir.size();
  if (n <= 0 || n >= (int64_t)whole.size() || dir[n - 1] != '/') return false;
  return g_k >= n || dir[g_k] == whole[g_k];
}
static int status() {
  Look l;
  auto it = g_fc->fileStatusMap_.find(g_seq);
  return it == g_fc->fileStatusMap_.end() ? (int)NONE : it->second;
}
static void setStatus(int s) {
  Look l;
  auto it = g_fc->fileStatusMap_.find(g_seq);
  if (it == g_fc->fileStatusMap_.end()) g_fc->fileStatusMap_.insert(std::make_pair(g_seq, s));
  else it->second = s;
}
static int g_before;
static bool g_claim;       // this thread allocates the file
static bool g_correct;     // the sender says that the file is there, in its size
static int g_looks;
extern "C" int vp_env_pthread_mutex_lock(pthread_mutex_t* m) {
  vp_lock_(m);
  if (m == g_spin) {
    if (g_rely) {
      int s = status();
      if (s == NONE && vp_bool("otherClaims")) setStatus(g_me == 0 ? 1 : 0);
      s = status();
      if (s >= 0 && s != g_me && vp_bool("otherEnds")) setStatus(vp_bool("otherOk") ? (int)DONE : (int)FAIL);
    }
    g_before = status();
    g_looks++;
  }
  return 0;
}
extern "C" int vp_env_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (m == g_spin && g_rely) {
    int s = status();
    bool ok = s == g_before || (g_before == NONE && s == g_me && !g_claim) || (g_before == NONE && s == DONE && g_correct) || (g_before == g_me && g_claim && (s == DONE || s == FAIL));
    vp_assert(ok, "a file is claimed by one thread, which alone ends its allocation");
    if (g_before == NONE && s == g_me) g_claim = true;
  }
  vp_unlock_(m);
  return 0;
}
static void mkOptions() {
  auto* o = g_o = new WdtOptions();
  o->enable_download_resumption = vp_bool("resume");
  o->resume_using_dir_tree = vp_bool("dirTree");
  o->disable_preallocation = vp_bool("noPrealloc");
  o->overwrite = vp_bool("overwrite");
  o->close_on_exec = vp_bool("cloexec");
  o->enable_perf_stat_collection = false;
  g_me = 2;
  g_ctx = new ThreadCtx(*o, false, g_me);
}
static void mk(FileAllocationStatus st) {
  mkOptions();
  g_log = (TransferLogManager*)vp_buf("log", 8);
  g_fc = new FileCreator("/dst", 3, *g_log, false);
  g_seq = vp_range("seq", 0, INT64_MAX);
  g_b = new BlockDetails();
  g_b->fileName = vp_str("name");
  g_b->seqId = g_seq;
  g_b->fileSize = vp_range("fileSize", 0, INT64_MAX);
  g_b->prevSeqId = vp_range("prevSeq", 0, INT64_MAX);
  g_b->allocationStatus = st;
  g_correct = st == EXISTS_CORRECT_SIZE;
  g_spin = &g_fc->lock_.m_;
  g_amutex = &g_fc->allocationMutex_;
  vp_guard_(&g_fc->fileStatusMap_, sizeof(g_fc->fileStatusMap_), g_spin, "allocation status");
}

// ------------------------------------------------------------ one block
static int g_first, g_waits, g_opened, g_unlinks;
static int g_waitFor;
extern "C" int vp_contract__ZN8facebook3wdt11FileCreator17openForFirstBlockERNS0_9ThreadCtxEPKNS0_12BlockDetailsE(FileCreator*, ThreadCtx* c, const BlockDetails* b) {
  vp_assert(c == g_ctx && b == g_b && g_claim && status() == g_me, "only the thread that claimed the file allocates it");
  vp_assert(!vp_held_(g_spin), "pre: the lock is free");
  g_first++;
  int fd = vp_bool("fd") ? 9 : -1;
  setStatus(fd >= 0 ? (int)DONE : (int)FAIL);
  return fd;
}
extern "C" bool vp_contract__ZN8facebook3wdt11FileCreator23waitForAllocationFinishEil(FileCreator*, int idx, int64_t seq) {
  vp_assert(seq == g_seq && idx >= 0 && idx < 3 && idx != g_me, "pre: another thread allocates the file");
  vp_assert(!vp_held_(g_spin), "pre: the lock is free");
  g_waits++;
  bool ok = vp_bool("allocated");
  if (status() >= 0) setStatus(ok ? (int)DONE : (int)FAIL);
  return status() == DONE;
}
extern "C" int vp_contract__ZN8facebook3wdt11FileCreator16openExistingFileERNS0_9ThreadCtxERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(FileCreator*, ThreadCtx*, const std::string* name) {
  vp_assert(status() == DONE, "a file is written only after it was allocated");
  vp_assert(vp_same_string(*name, g_b->fileName), "under its own name");
  g_opened++;
  return vp_bool("exfd") ? 9 : -1;
}
static int g_unlinkOk;
extern "C" int vp_env_unlink(const char* path) {
  vp_assert(pathIs(path, g_b->fileName), "only the file to be deleted is deleted");
  g_unlinks++;
  return g_unlinkOk ? 0 : -1;
}
static void forBlocks(FileAllocationStatus st, int entry) {
  mk(st);
  g_k = vp_range("at2", 0, INT64_MAX);
  vp_assume(g_k <= (int64_t)g_b->fileName.size());
  int64_t other = vp_range("otherSeq", 0, INT64_MAX);
  vp_assume(other != g_seq);
  {
    Look l;
    g_fc->fileStatusMap_.insert(std::make_pair(other, 1));
  }
  if (entry != NONE) setStatus(entry);
  g_rely = true;
  int fd = g_fc->openForBlocks(*g_ctx, g_b);
  g_rely = false;
  int s = status();
  if (st == TO_BE_DELETED) {
    vp_assert(fd == -1 && g_unlinks == 1 && g_opened == 0 && g_first == 0 && s == entry, "a deleted file is not opened");
    return;
  }
  vp_assert(g_unlinks == 0, "nothing is deleted");
  vp_assert(fd < 0 || s == DONE, "a block is written only to an allocated file");
  vp_assert(g_first + g_opened <= 1 && (fd < 0 || g_first + g_opened == 1), "by one open file");
  vp_assert(s == DONE || s == FAIL, "the file was allocated or not, for all threads");
  vp_assert(s == DONE || fd < 0, "if it was not, no block is written");
  if (s == DONE && fd < 0) vp_assert(g_opened == 1, "a block is refused only for a reason");
  Look l;
  vp_assert(g_fc->fileStatusMap_.find(other)->second == 1, "other files are not affected");
}
VP_HARNESS(creator_block_new) { forBlocks(vp_bool("too") ? EXISTS_TOO_SMALL : vp_bool("large") ? EXISTS_TOO_LARGE : NOT_EXISTS, NONE); }
VP_HARNESS(creator_block_correct) { forBlocks(EXISTS_CORRECT_SIZE, NONE); }
VP_HARNESS(creator_block_later) { forBlocks(vp_bool("too") ? EXISTS_TOO_SMALL : vp_bool("large") ? EXISTS_CORRECT_SIZE : NOT_EXISTS, vp_bool("done") ? (int)DONE : vp_bool("failed") ? (int)FAIL : 0); }
VP_HARNESS(creator_block_delete) { g_unlinkOk = vp_bool("unlinkOk"); forBlocks(TO_BE_DELETED, vp_bool("new") ? (int)NONE : (int)DONE); }

// ------------------------------------------------------------ the first block
static int g_setRes, g_sets, g_notified;
extern "C" int vp_contract__ZN8facebook3wdt11FileCreator14openAndSetSizeERNS0_9ThreadCtxEPKNS0_12BlockDetailsE(FileCreator*, ThreadCtx*, const BlockDetails* b) {
  vp_assert(b == g_b && g_sets++ == 0 && status() == g_me, "the file is allocated once, while others wait");
  return g_setRes;
}
extern "C" void vp_env__ZNSt18condition_variable10notify_allEv(std::condition_variable* c) {
  vp_assert(c == &g_fc->threadConditionVariables_[g_me], "the threads that wait for this one are woken");
  vp_assert(vp_held_(g_amutex), "with the lock they check under");
  vp_assert(status() == (g_setRes >= 0 ? (int)DONE : (int)FAIL), "after the outcome is known");
  g_notified++;
}
VP_HARNESS(creator_first) {
  mk(NOT_EXISTS);
  setStatus(g_me);
  g_setRes = (int)vp_range("setRes", -1, INT32_MAX);
  g_rely = g_claim = true;
  int fd = g_fc->openForFirstBlock(*g_ctx, g_b);
  vp_assert(fd == g_setRes && g_sets == 1 && g_notified == 1, "the allocating thread opens the file and tells the others");
  vp_assert(status() == (fd >= 0 ? (int)DONE : (int)FAIL), "whether it worked");
  vp_assert(!vp_held_(g_spin) && !vp_held_(g_amutex), "no lock is kept");
}
static int g_sleeps;
extern "C" void vp_env__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c, std::unique_lock<std::mutex>* l) {
  vp_assert(c == &g_fc->threadConditionVariables_[0] && l->mutex() == g_amutex && l->owns_lock(), "it waits for the allocating thread");
  vp_assert(g_looks > g_sleeps && status() == 0, "if the allocation goes on as checked under the same lock");
  vp_assert(!vp_held_(g_spin), "with the status free to change");
  g_sleeps = g_looks;
  g_waits++;
  vp_assume(g_waits <= vp_bound_(2, 3));
}
VP_HARNESS(creator_wait) {
  mk(NOT_EXISTS);
  setStatus(0);
  g_rely = true;
  bool ok = g_fc->waitForAllocationFinish(0, g_seq);
  vp_assert(status() == (ok ? (int)DONE : (int)FAIL), "waiting ends when the outcome is known, with it");
  vp_assert(!vp_held_(g_spin) && !vp_held_(g_amutex), "no lock is kept");
}

// ------------------------------------------------------------ allocation
static int g_created, g_size, g_entries, g_closed;
static bool g_sizeOk;
static int g_fd;
extern "C" int vp_contract__ZN8facebook3wdt11FileCreator10createFileERNS0_9ThreadCtxERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(FileCreator*, ThreadCtx*, const std::string* name) {
  vp_assert(vp_same_string(*name, g_b->fileName) && g_b->allocationStatus == NOT_EXISTS, "a file is created only if the receiver does not have it");
  g_created++;
  return g_fd;
}
extern "C" bool vp_contract__ZN8facebook3wdt11FileCreator11setFileSizeERNS0_9ThreadCtxEil(FileCreator*, ThreadCtx*, int fd, int64_t size) {
  vp_assert(fd == (g_b->allocationStatus == NOT_EXISTS ? g_fd : 9) && fd >= 0 && size == g_b->fileSize, "the file gets its size");
  g_size++;
  return g_sizeOk;
}
extern "C" int vp_env_close(int fd) {
  vp_assert(g_size == 1 && !g_sizeOk, "only a file that could not be allocated is closed");
  g_closed++;
  return 0;
}
static void entry(const TransferLogManager* l, bool wanted, int at) {
  vp_assert(l == g_log && wanted && g_entries == at, "the log gets exactly what later starts need");
  vp_assert(g_size == 1 && g_sizeOk, "after the file has its size");
  g_entries++;
}
extern "C" void vp_contract__ZN8facebook3wdt18TransferLogManager24addFileInvalidationEntryEl(TransferLogManager* l, int64_t seq) {
  entry(l, g_b->allocationStatus == EXISTS_TOO_LARGE && seq == g_b->prevSeqId, 0);
}
extern "C" void vp_contract__ZN8facebook3wdt18TransferLogManager20addFileCreationEntryERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEll(TransferLogManager* l, const std::string* n, int64_t seq, int64_t size) {
  entry(l, (g_b->allocationStatus == EXISTS_TOO_LARGE || g_b->allocationStatus == NOT_EXISTS) && vp_same_string(*n, g_b->fileName) && seq == g_seq && size == g_b->fileSize, g_b->allocationStatus == EXISTS_TOO_LARGE ? 1 : 0);
}
extern "C" void vp_contract__ZN8facebook3wdt18TransferLogManager18addFileResizeEntryEll(TransferLogManager* l, int64_t seq, int64_t size) {
  entry(l, g_b->allocationStatus == EXISTS_TOO_SMALL && seq == g_seq && size == g_b->fileSize, 0);
}
VP_HARNESS(creator_allocate) {
  mk(NOT_EXISTS);
  g_b->allocationStatus = (FileAllocationStatus)vp_range("allocation", 0, EXISTS_TOO_LARGE);
  FileAllocationStatus st = g_b->allocationStatus;
  setStatus(DONE);
  g_sizeOk = vp_bool("sizeOk");
  g_fd = vp_bool("open") ? 9 : -1;
  int fd = g_fc->openAndSetSize(*g_ctx, g_b);
  g_opened = g_created ? 0 : g_opened;
  vp_assert(g_created == (st == NOT_EXISTS ? 1 : 0), "a new file is created");
  if (st == EXISTS_CORRECT_SIZE) vp_assert(g_size == 0 && g_entries == 0 && g_closed == 0, "a complete file stays as it is");
  else if (st == NOT_EXISTS) {
    vp_assert(fd == (g_fd >= 0 && g_sizeOk ? g_fd : -1), "the file is opened if it has its size");
    vp_assert(g_closed == (g_fd >= 0 && !g_sizeOk ? 1 : 0), "else it is closed");
    vp_assert(g_entries == (fd >= 0 && g_o->isLogBasedResumption() ? 1 : 0), "a later start finds it");
  } else vp_assert(g_entries == (fd >= 0 && g_o->isLogBasedResumption() ? st == EXISTS_TOO_LARGE ? 2 : 1 : 0), "a later start finds its new size");
}
static int64_t e_size, e_want;
static bool e_statOk, e_truncOk, e_allocOk;
static int e_trunc, e_alloc;
extern "C" int vp_env_fstat(int fd, struct stat* s) {
  vp_assert(fd == 9, "the file itself");
  s->st_size = e_size;
  return e_statOk ? 0 : -1;
}
extern "C" int vp_env_ftruncate(int fd, off_t n) {
  vp_assert(fd == 9 && e_trunc++ == 0, "the file itself, once");
  if (e_truncOk) e_size = n;
  return e_truncOk ? 0 : -1;
}
extern "C" int vp_env_posix_fallocate(int fd, off_t off, off_t n) {
  vp_assert(fd == 9 && off == 0 && n > 0 && e_alloc++ == 0, "the file itself, from its start, once");
  if (!e_allocOk) return ENOSPC;
  if (n > e_size) e_size = n;
  return 0;
}
VP_HARNESS(creator_size) {
  mkOptions();
  g_log = (TransferLogManager*)vp_buf("log", 8);
  g_fc = new FileCreator("/dst", 3, *g_log, false);
  e_size = vp_range("size", 0, INT64_MAX);
  e_want = vp_range("want", 0, INT64_MAX);
  e_statOk = vp_bool("stat");
  e_truncOk = vp_bool("trunc");
  e_allocOk = vp_bool("alloc");
  int64_t was = e_size;
  bool pre = g_o->shouldPreallocateFiles();
  bool r = g_fc->setFileSize(*g_ctx, 9, e_want);
  if (r) vp_assert(pre ? e_size == e_want : e_size <= e_want, "afterwards the file is as large as it will be, or smaller without preallocation");
  else vp_assert(!e_statOk || (was > e_want && !e_truncOk) || (pre && !e_allocOk), "it fails only for a reason");
  if (was <= e_want) vp_assert(e_trunc == 0 && e_size >= was, "data of a file that is not too large is kept");
}

// ------------------------------------------------------------ paths
static int g_mkdirs, g_opens;
static bool g_dirsKnown;
static std::string* g_name;
static int64_t g_dirLen;
static bool g_mk0, g_mk1, g_openOk0, g_openOk1;
static int g_errno;
extern "C" int* vp_env___errno_location() { return &g_errno; }

static int g_sys;
static std::string* g_dir;
static bool g_known, g_parentOk;
static int g_parents, g_code;
static bool g_force;
extern "C" bool vp_contract__ZN8facebook3wdt11FileCreator20createDirRecursivelyENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEb(FileCreator*, std::string* dir, bool force) {
  if (g_dir) {
    int64_t n = (int64_t)dir->size();
    vp_assert(prefixOf(*dir, *g_dir), "the directory it is in");
    vp_assert(g_sys == 0 && force == g_force, "is created before, in the same way");
    g_dirLen = n;
    g_parents++;
    return g_parentOk;
  }
  if (!g_name) return true;   // the destination itself
  int64_t n = (int64_t)dir->size();
  vp_assert(prefixOf(*dir, *g_name), "only directories on the way to the file are created");
  vp_assert(g_opens == 0 || force, "directories that may be missing are created again");
  g_dirLen = n;
  g_mkdirs++;
  return force ? g_mk1 : g_mk0;
}
static int g_flags;
extern "C" int vp_env_open(const char* path, int flags, ...) {
  vp_assert(pathIs(path, *g_name), "the file is opened under its own name in the destination");
  vp_assert((flags & O_ACCMODE) == O_WRONLY, "to write it");
  g_flags = flags;
  bool ok = g_opens++ == 0 ? g_openOk0 : g_openOk1;
  return ok ? 9 : -1;
}
static int64_t g_at;
VP_HARNESS(creator_create) {
  mkOptions();
  g_log = (TransferLogManager*)vp_buf("log", 8);
  bool skip = vp_bool("skipWrites");
  g_name = nullptr;
  g_fc = new FileCreator("/dst", 3, *g_log, skip);
  g_spin = &g_fc->lock_.m_;
  std::string* name = new std::string(vp_str("name"));
  int64_t n = (int64_t)name->size();
  g_k = vp_range("at2", 0, INT64_MAX);
  vp_assume(n <= (1 << 30));
  vp_assume(g_k <= n);
  vp_assume(n > 0 && (*name)[0] != '/' && (*name)[n - 1] != '/');
  g_at = vp_range("at", 0, INT64_MAX);
  vp_assume(g_at < n);
  bool inDir = vp_bool("inDir");
  if (inDir) vp_assume((*name)[g_at] == '/');
  g_mkdirs = g_opens = 0;
  g_dirLen = 0;
  g_mk0 = vp_bool("mkdir"); g_mk1 = vp_bool("mkdirAgain");
  g_openOk0 = vp_bool("open"); g_openOk1 = vp_bool("openAgain");
  g_name = name;
  int fd = g_fc->createFile(*g_ctx, *name);
  if (skip) vp_assert(fd == -1 && g_mkdirs == 0 && g_opens == 0, "without writing, no file is created");
  if (fd >= 0) {
    vp_assert(g_opens > 0 && (g_opens == 1 ? g_openOk0 : g_openOk1), "a created file is open");
    vp_assert((g_flags & O_CREAT) != 0, "it is created");
    bool over = g_o->overwrite || g_o->enable_download_resumption;
    vp_assert(over || (g_flags & (O_EXCL | O_TRUNC)) == O_EXCL, "an existing file is not touched unless that is asked for");
    vp_assert(!over || (g_flags & (O_EXCL | O_TRUNC)) == O_TRUNC, "and if it is, its old content goes");
    if (inDir) vp_assert(g_mkdirs > 0 && g_dirLen > g_at && (g_mk0 || g_mk1), "its directories were created before");
  } else vp_assert(skip || g_opens == 0 || !g_openOk0, "it fails only if the file system does");
  vp_assert(g_opens <= 2 && g_mkdirs <= 3, "with a bounded number of retries");
}
extern "C" int vp_env_mkdir(const char* path, mode_t) {
  if (!g_dir) return 0;
  vp_assert(pathIs(path, *g_dir), "the directory is created in the destination");
  vp_assert(g_parents == 0 || g_parentOk, "after the one it is in");
  g_sys++;
  g_errno = g_code;
  return g_code == 0 ? 0 : -1;
}
VP_HARNESS(creator_mkdir) {
  mkOptions();
  g_log = (TransferLogManager*)vp_buf("log", 8);
  bool skip = vp_bool("skipWrites");
  g_dir = nullptr;
  g_fc = new FileCreator("/dst", 3, *g_log, skip);
  std::string* dir = new std::string(vp_str("dir"));
  int64_t n = (int64_t)dir->size();
  g_k = vp_range("at2", 0, INT64_MAX);
  vp_assume(g_k <= n);
  vp_assume(n > 0 && (*dir)[n - 1] == '/');
  g_at = vp_range("at", 0, INT64_MAX);
  vp_assume(g_at < n - 1);
  bool inDir = vp_bool("inDir");
  if (inDir) vp_assume((*dir)[g_at] == '/');
  g_known = vp_bool("known");
  g_force = vp_bool("force");
  g_parentOk = vp_bool("parent");
  g_code = (int)vp_range("code", 0, 200);
  if (g_known) g_fc->createdDirs_.insert(*dir);
  g_sys = g_parents = 0;
  g_dirLen = 0;
  g_dir = dir;
  bool ok = g_fc->createDirRecursively(*dir, g_force);
  bool usable = g_code == 0 || g_code == EEXIST || g_code == EISDIR;
  if (skip) vp_assert(!ok && g_sys == 0 && g_parents == 0, "without writing, no directory is created");
  else if (g_known && !g_force) vp_assert(ok && g_sys == 0, "a directory is created once");
  else {
    vp_assert(ok == ((g_parents == 0 || g_parentOk) && usable), "it works if the file system does it");
    vp_assert(!ok || g_sys == 1, "by creating the directory");
    if (ok && inDir) vp_assert(g_parents == 1 && g_dirLen > g_at, "and all directories it is in");
    if (!g_known) vp_assert(g_fc->dirCreated(*dir) == ok, "only a directory that is there is remembered");
  }
}
// ------------------------------------------------------------ names from the other side
static bool dotdot(const std::string& s, int64_t i) {
  int64_t n = (int64_t)s.size();
  return n >= 2 && i <= n - 2 && (i == 0 || s[i - 1] == '/') && s[i] == '.' && s[i + 1] == '.' && (i == n - 2 || s[i + 2] == '/');
}
VP_HARNESS(creator_name) {
  std::string name = vp_str("name");
  int64_t n = (int64_t)name.size();
  g_at = vp_range("at", 0, INT64_MAX);
  vp_assume(n == 0 || g_at < n);
  bool up = n > 0 && dotdot(name, g_at);
  if (!FileCreator::isValidRelPath(name)) return;
  vp_assert(n > 0 && name[0] != '/' && name[n - 1] != '/', "a file name is not empty, absolute or a directory");
  vp_assert(name[g_at] != 0, "it is the name as the file system reads it");
  vp_assert(!up, "no component leads upwards");
}
VP_HARNESS(creator_name_short) {
  char c[3];
  for (int i = 0; i < 3; i++) c[i] = (char)vp_u8("c");
  std::string name(c, 3);
  bool bad = name[0] == '/' || name[2] == '/';
  for (int i = 0; i < 3; i++) bad |= name[i] == 0 || dotdot(name, i);
  vp_assume(!bad);
  vp_assert(FileCreator::isValidRelPath(name), "other names are fine");
}
