// Contracts of the discovery of source files.
#include "vp.h"
#include <cerrno>
#include <dirent.h>
#include <sys/stat.h>
#include <wdt/util/DirectorySourceQueue.h>
using namespace facebook::wdt;
static const int64_t B = (int64_t)1 << 50;
FileByteSource::FileByteSource(SourceMetaData* md, int64_t size, int64_t offset) : metadata_(md), size_(size), offset_(offset), bytesRead_(0), transferStats_("") {}
char* FileByteSource::read(int64_t& size) { size = 0; return nullptr; }
void FileByteSource::advanceOffset(int64_t) {}
ErrorCode FileByteSource::open(ThreadCtx*) { return OK; }
void FileByteSource::close() {}
static int g_fdOpened, g_openCalls;
static const std::string* g_openPath;
static bool g_openDirect;
int FileUtil::openForRead(ThreadCtx&, const std::string& p, bool d) { g_openCalls++; g_openPath = &p; g_openDirect = d; return g_fdOpened; }

struct Aborter : IAbortChecker {
  bool on = false;
  bool shouldAbort() const override { return on; }
};
static DirectorySourceQueue* g_q;
static Aborter* g_ab;
static int g_errno;
extern "C" int* vp_env___errno_location() { return &g_errno; }

// ---- the file tree seen by the sender: directories with entries that appear as they are read
enum Kind { REG, DIR_, LNK, OTHER };
struct Ent {
  const char* name;
  int dtype;       // as readdir tells
  bool lstatOk, statOk, resolves;
  Kind kind, target;  // as lstat and stat tell
  int64_t size;
};
static Ent g_e;          // the entry read last
static bool g_have;      // there is one, not yet accounted for
static int g_queued, g_lstats, g_stats, g_resolves;
static bool g_excl, g_incl, g_pruned, g_dirty;
static int g_nOpen, g_nClose, g_left, g_total;
static const char* g_rel;      // of the directory being read
static std::string* g_full;
static bool g_must[3]; static const char* g_sub[3]; static int g_nSub, g_seen;  // directories to visit
static bool g_readFail, g_openFail;
static const char *g_pi, *g_pe, *g_pp;   // the patterns
static bool g_matchI, g_matchE, g_matchP;
static int g_failed;
static bool g_loop;  // all entries are links to one directory
static bool dot(const char* n) { return n[0] == '.' && (n[1] == 0 || (n[1] == '.' && n[2] == 0)); }
static int lit(const char* p, int at, const char* l, bool& ok) {
  for (int i = 0; l[i]; i++) ok = ok & (p[at++] == l[i]);
  return at;
}
static bool isPath(const char* p, const char* rel, const char* name) {
  bool ok = true;
  int n = lit(p, 0, "/d/", ok);
  n = lit(p, n, rel, ok);
  n = lit(p, n, name, ok);
  return ok & (p[n] == 0);
}
static bool isRel(const std::string& s, const char* rel, const char* name, bool slash) {
  const char* p = s.c_str();
  bool ok = true;
  int n = lit(p, 0, rel, ok);
  n = lit(p, n, name, ok);
  if (slash) n = lit(p, n, "/", ok);
  return ok & ((int64_t)s.size() == n);
}
static bool isStr(const std::string& s, const char* l) { return isRel(s, l, "", false); }
extern "C" int vp_env_regex_match_(const std::string* s, const std::string* pat) {
  vp_assert(g_have, "patterns are applied to entries");
  if (!pat->empty() && isStr(*pat, g_pp)) {
    vp_assert(isRel(*s, g_rel, g_e.name, true), "the prune pattern is applied to the relative path of the directory");
    return g_matchP;
  }
  vp_assert(isRel(*s, g_rel, g_e.name, false), "file patterns are applied to the relative path");
  return isStr(*pat, g_pe) ? g_matchE : g_matchI;
}
// what becomes of the entry, by the documentation of the options
static void account() {
  if (!g_have) return;
  g_have = false;
  bool follow = g_q->followSymlinks_;
  bool want = false, dir = false, err = false;
  if (!dot(g_e.name) && (g_e.dtype == DT_DIR || g_e.dtype == DT_REG || g_e.dtype == DT_UNKNOWN || (follow && g_e.dtype == DT_LNK))) {
    if (g_e.dtype == DT_DIR) dir = true;
    else if (!g_e.lstatOk) err = true;
    else if (g_e.kind == LNK) {
      if (follow) {
        if (!g_e.statOk || !g_e.resolves) err = true;
        else { want = g_e.target == REG; dir = g_e.target == DIR_; }
      }
    } else { want = g_e.kind == REG; dir = g_e.kind == DIR_; }
  }
  if (want) {
    if (*g_pe && g_matchE) want = false;
    if (*g_pi && !g_matchI) want = false;
  }
  if (want) vp_cover("a file is found");
  if (err) vp_cover("an entry that cannot be examined");
  vp_assert(g_queued == (want ? 1 : 0), "a regular file that the patterns admit is queued exactly once, anything else is not");
  bool twice = g_loop && g_nSub > 0;
  if (dir && twice) { vp_cover("a directory is reached again"); err = true; }
  if (dir && !twice && !(*g_pp && g_matchP)) {
    vp_cover("a directory is found");
    g_must[g_nSub] = true;
    g_sub[g_nSub++] = g_e.name;
  }
  if (err) g_dirty = true;
}
static char* g_dir;
extern "C" DIR* vp_env_opendir(const char* p) {
  account();
  vp_assert(g_nOpen == g_nClose, "the directory read before was closed");
  if (g_seen < 0) { vp_assert(isPath(p, "", ""), "exploration starts at the root"); g_rel = ""; }
  else {
    vp_assert(g_seen < g_nSub, "only directories found are explored");
    vp_assert(isPath(p, g_sub[g_seen], "/"), "each directory found is explored once");
    char c = g_sub[g_seen][0];
    if (c == 'a') g_rel = "a/";
    else if (c == 'b') g_rel = "b/";
    else g_rel = "c/";
  }
  g_seen++;
  if (vp_bool("opendirFails")) { g_errno = EACCES; g_failed++; g_dirty = true; return nullptr; }
  g_nOpen++;
  return (DIR*)g_dir;
}
extern "C" int vp_env_closedir(DIR* d) {
  account();
  vp_assert((char*)d == g_dir && g_nOpen == g_nClose + 1, "the open directory is closed");
  g_nClose++;
  return 0;
}
static bool g_simple;
static struct dirent* g_de;
static const char* g_name;
static void setName(const char* n) {
  g_e.name = n;
  int i = 0;
  for (; n[i]; i++) g_de->d_name[i] = n[i];
  g_de->d_name[i] = 0;
}
extern "C" struct dirent* vp_env_readdir(DIR* d) {
  account();
  vp_assert((char*)d == g_dir && g_nOpen == g_nClose + 1, "an open directory is read");
  vp_assert(g_errno == 0, "errors are told from the end");
  if (g_left == 0 || vp_bool("end")) {
    if (vp_bool("readdirFails")) { g_errno = EIO; g_failed++; g_dirty = true; }
    return nullptr;
  }
  g_left--;
  g_have = true;
  g_queued = g_lstats = g_stats = g_resolves = 0;
  if (g_simple) {
    if (g_seen > 0 || g_left == g_total - 1) setName("a");
    else if (g_left == g_total - 2) setName("b");
    else setName("c");
  } else if (g_loop) {
    if (g_left == 1) setName("a");
    else setName("b");
  } else setName(g_name);
  g_e.dtype = g_simple ? (g_seen == 0 && vp_bool("isDir") ? DT_DIR : DT_REG) : (int)vp_range("dtype", 0, 14);
  g_de->d_type = (unsigned char)g_e.dtype;
  g_e.kind = g_simple ? REG : (Kind)vp_range("kind", REG, OTHER);
  g_e.target = (Kind)vp_range("target", REG, OTHER);
  vp_assume(g_e.target != LNK);
  if (g_loop) { vp_assume(g_e.dtype == DT_LNK || g_e.dtype == DT_UNKNOWN); g_e.kind = LNK; g_e.target = DIR_; }
  g_e.lstatOk = vp_bool("lstatOk");
  g_e.statOk = vp_bool("statOk");
  g_e.resolves = vp_bool("resolves");
  g_e.size = vp_range("size", 0, B);
  g_matchI = vp_bool("included"); g_matchE = vp_bool("excluded"); g_matchP = vp_bool("pruned");
  return g_de;
}
// ---- files given by the caller
static bool g_list;
static int g_nList, g_at;
static int64_t g_given[3], g_stSize[3];
static const char* const FN[3] = {"a", "s/b", "c"};
static void listed(DirectorySourceQueue* q, const std::string& full, WdtFileInfo& f) {
  vp_assert(q == g_q && g_at < g_nList, "each file of the list is queued");
  vp_assert(!vp_held_(&q->mutex_), "pre: the queue's lock is free");
  const char* n = g_at == 0 ? "a" : g_at == 1 ? "s/b" : "c";
  if (g_at == 0) vp_assert(isPath(full.c_str(), "", "a") && isRel(f.fileName, "", "a", false), "files are queued in order under their name");
  else if (g_at == 1) vp_assert(isPath(full.c_str(), "", "s/b") && isRel(f.fileName, "", "s/b", false), "files are queued in order under their name");
  else vp_assert(isPath(full.c_str(), "", "c") && isRel(f.fileName, "", "c", false), "files are queued in order under their name");
  vp_assert(f.fileSize == (g_given[g_at] < 0 ? g_stSize[g_at] : g_given[g_at]) && f.fd == 7 + g_at, "with the size and descriptor given");
  g_at++;
}
static mode_t mode(Kind k) { return k == REG ? S_IFREG : k == DIR_ ? S_IFDIR : k == LNK ? S_IFLNK : S_IFIFO; }
extern "C" int vp_env_lstat(const char* p, struct stat* st) {
  vp_assert(g_have && isPath(p, g_rel, g_e.name), "the entry read is examined");
  g_lstats++;
  if (!g_e.lstatOk) { g_errno = ENOENT; return -1; }
  st->st_mode = mode(g_e.kind) | 0644;
  st->st_size = g_e.kind == LNK ? 7 : g_e.size;
  return 0;
}
extern "C" int vp_env_stat(const char* p, struct stat* st) {
  if (g_list) {
    vp_assert(g_at < g_nList && g_given[g_at] < 0, "only sizes not given are looked up");
    if (g_at == 0) vp_assert(isPath(p, "", "a"), "the file is examined");
    else if (g_at == 1) vp_assert(isPath(p, "", "s/b"), "the file is examined");
    else vp_assert(isPath(p, "", "c"), "the file is examined");
    if (vp_bool("statFails")) { g_errno = ENOENT; g_failed++; return -1; }
    st->st_size = g_stSize[g_at] = vp_range("statSize", 0, B);
    return 0;
  }
  vp_assert(g_have && isPath(p, g_rel, g_e.name), "the entry read is examined");
  g_stats++;
  if (!g_e.statOk) { g_errno = ENOENT; return -1; }
  st->st_mode = mode(g_e.target) | 0644;
  st->st_size = g_e.size;
  return 0;
}
extern "C" char* vp_env_realpath(const char* p, char* out) {
  vp_assert(g_have && isPath(p, g_rel, g_e.name) && out == nullptr, "the link is resolved");
  g_resolves++;
  if (!g_e.resolves) { g_errno = ENOENT; return nullptr; }
  char* r = vp_buf("resolved", 4);
  r[0] = '/'; r[1] = 't'; r[2] = 0;
  return r;
}
#ifdef VP_PROOF
#define C_(ret, name, ...) extern "C" ret vp_contract_##name(__VA_ARGS__)
C_(void, _ZN8facebook3wdt20DirectorySourceQueue15createIntoQueueERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERNS0_11WdtFileInfoE, DirectorySourceQueue* q, const std::string& full, WdtFileInfo& f) {
#else
static void queued(DirectorySourceQueue* q, const std::string& full, WdtFileInfo& f) {
#endif
  if (g_list) { listed(q, full, f); return; }
  vp_assert(q == g_q && g_have, "entries are queued as they are read");
  vp_assert(!vp_held_(&q->mutex_), "pre: the queue's lock is free");
  vp_assert(isRel(f.fileName, g_rel, g_e.name, false), "a file is queued under its path relative to the root");
  bool link = g_e.kind == LNK;
  vp_assert(link ? isStr(full, "/t") : isPath(full.c_str(), g_rel, g_e.name), "a file is read from where it was found");
  vp_assert(f.fileSize == g_e.size, "a file is queued with its size");
  vp_assert(f.fd < 0 && f.directReads == q->directReads_, "direct reads as asked for");
  g_queued++;
}
static DirectorySourceQueue* mk() {
  auto* o = new WdtOptions();
  g_ab = new Aborter();
  g_q = new DirectorySourceQueue(*o, "/d", g_ab);
  g_de = (struct dirent*)vp_buf("dirent", sizeof(struct dirent));
  g_dir = vp_buf("dir", 8);
  g_have = g_dirty = false;
  g_seen = -1;
  g_nSub = g_nOpen = g_nClose = g_failed = g_errno = 0;
  g_pi = g_pe = g_pp = "";
  g_loop = false;
  g_openCalls = 0;
  g_list = false;
  vp_guard_(&g_q->failedDirectories_, sizeof(g_q->failedDirectories_), &g_q->mutex_, "failed directories");
  return g_q;
}
static void run() {
  bool ok = g_q->explore();
  vp_assert(!g_have && g_nOpen == g_nClose, "no directory is left open");
  vp_assert(g_seen == g_nSub, "every directory found is explored");
  vp_assert(ok == !g_dirty, "success means that all of the tree was seen");
  vp_unguard_(&g_q->failedDirectories_);
  vp_assert((int)g_q->failedDirectories_.size() == g_failed, "each directory that cannot be read completely is reported");
}
static void entry(const char* name, bool follow) {
  g_name = name;
  DirectorySourceQueue* q = mk();
  q->followSymlinks_ = follow;
  q->directReads_ = vp_bool("direct");
  if (vp_bool("inc")) { g_pi = "I"; q->setIncludePattern("I"); }
  if (vp_bool("exc")) { g_pe = "E"; q->setExcludePattern("E"); }
  if (vp_bool("pru")) { g_pp = "P"; q->setPruneDirPattern("P"); }
  g_simple = false;
  g_left = 1;
  run();
}
VP_HARNESS(explore_entry) { entry("a", false); }
VP_HARNESS(explore_entry_links) { entry("a", true); }
VP_HARNESS(explore_dot) { entry(".", true); }
VP_HARNESS(explore_dotdot) { entry("..", true); }
VP_HARNESS(explore_hidden) { entry("..x", true); }
VP_HARNESS(explore_tree) {
  mk();
  g_simple = true;
  g_left = g_total = vp_bound_(2, 3);
  run();
}
// links that lead to the same directory: it is visited once
VP_HARNESS(explore_loop) {
  mk();
  g_q->followSymlinks_ = true;
  g_simple = false;
  g_loop = true;
  g_left = 2;
  run();
}
// stopping a discovery is not a success
static int g_stopAt;
VP_HARNESS(explore_list) {
  DirectorySourceQueue* q = mk();
  g_list = true;
  g_ab->on = vp_bool("abort");
  std::vector<WdtFileInfo> v;
  g_nList = 0;
  for (int i = 0; i < vp_bound_(2, 3); i++) {
    if (vp_bool("more")) break;
    WdtFileInfo w(FN[i], 0, false);
    w.fileSize = g_given[i] = vp_range("size", -1, B);
    w.fd = 7 + i;
    v.push_back(w);
    g_nList++;
  }
  g_at = 0;
  bool ok = q->enqueueFiles(v);
  vp_assert((int)q->failedSourceStats_.size() == g_failed, "a file that cannot be examined is recorded as failed");
  vp_assert(ok == (g_failed == 0 && (g_nList == 0 || !g_ab->on)), "success means that the whole list is queued");
  if (ok) vp_assert(g_at == g_nList, "every file of the list is queued");
  if (g_failed > 0) vp_assert(q->failedSourceStats_[0].getLocalErrorCode() != OK, "with an error");
}
// ---- one file enters the queue
static WdtFileInfo* g_fi;
static int64_t g_flags;
static int g_internal, g_fdWant;
static bool g_directWant;
extern "C" int vp_env_fcntl(int fd, int cmd, ...) { return (int)g_flags; }
extern "C" void vp_contract__ZN8facebook3wdt20DirectorySourceQueue23createIntoQueueInternalEPNS0_14SourceMetaDataE(DirectorySourceQueue* q, SourceMetaData* md) {
  vp_assert(vp_held_(&q->mutex_), "pre: the queue is locked");
  vp_assert((int64_t)q->sharedFileData_.size() == 1 && q->sharedFileData_[0] == md, "the file is recorded");
  vp_assert(isStr(md->fullPath, "/d/a") && isStr(md->relPath, "a"), "under its names");
  vp_assert(md->size == g_fi->fileSize, "with its size");
  vp_assert(md->fd == g_fdWant && md->directReads == g_directWant, "and its descriptor");
  vp_assert(md->needToClose == (g_fi->fd < 0 && g_fdWant >= 0), "the queue closes exactly the descriptors that it opened");
  g_internal++;
}
VP_HARNESS(explore_create) {
  DirectorySourceQueue* q = mk();
  WdtFileInfo f("a", vp_range("size", 0, B), vp_bool("direct"));
  f.fd = (int)vp_range("fd", -1, 100);
  g_fi = &f;
  g_flags = vp_bool("odirect") ? O_DIRECT | O_RDONLY : O_RDONLY;
  g_fdOpened = (int)vp_range("opened", -1, 100);
  int n = q->openFilesDuringDiscovery_ = (int)vp_range("open", INT32_MIN + 1, INT32_MAX);
  bool opens = f.fd < 0 && n != 0;
  g_fdWant = opens ? g_fdOpened : f.fd;
  g_directWant = f.fd >= 0 ? g_flags != O_RDONLY : f.directReads;
  g_internal = 0;
  std::string full("/d/a");
  q->createIntoQueue(full, f);
  vp_assert(g_internal == 1, "the file is queued");
  vp_assert(g_openCalls == (opens ? 1 : 0), "files are opened while the budget for that lasts");
  vp_assert(q->openFilesDuringDiscovery_ == (opens ? n - 1 : n), "each opened file is charged once");
  q->sharedFileData_.clear();
}
// ---- the discovery as a whole
static int g_explores, g_lists, g_dels, g_notifies;
static bool g_res;
static bool g_before;
extern "C" bool vp_contract__ZN8facebook3wdt20DirectorySourceQueue7exploreEv(DirectorySourceQueue* q) {
  vp_assert(!vp_held_(&q->mutex_) && q->initCalled_ && !q->initFinished_, "pre: during initialisation, without the lock");
  g_explores++;
  return g_res;
}
extern "C" bool vp_contract__ZN8facebook3wdt20DirectorySourceQueue12enqueueFilesERSt6vectorINS0_11WdtFileInfoESaIS3_EE(DirectorySourceQueue* q, void* v) {
  vp_assert(!vp_held_(&q->mutex_) && q->initCalled_ && !q->initFinished_, "pre: during initialisation, without the lock");
  vp_assert(v == (void*)&q->fileInfo_, "the list given is queued");
  g_lists++;
  return g_res;
}
extern "C" void vp_contract__ZN8facebook3wdt20DirectorySourceQueue23enqueueFilesToBeDeletedEv(DirectorySourceQueue* q) {
  vp_assert(vp_held_(&q->mutex_) && q->initFinished_, "pre: the queue is locked and discovery has ended");
  vp_assert(g_notifies == 0, "waiting threads are told afterwards");
  g_dels++;
}
extern "C" void vp_env__ZNSt18condition_variable10notify_allEv(void* c) { if (c == (void*)&g_q->conditionNotEmpty_) g_notifies++; }
VP_HARNESS(explore_build) {
  DirectorySourceQueue* q = mk();
  q->exploreDirectory_ = vp_bool("explore");
  g_res = vp_bool("result");
  bool before = q->initCalled_ = vp_bool("before");
  bool blocks = vp_bool("blocks");
  SourceMetaData* md = new SourceMetaData();
  if (blocks) q->sourceQueue_.push(std::unique_ptr<ByteSource>(new FileByteSource(md, 1, 0)));
  g_explores = g_lists = g_dels = g_notifies = 0;
  bool r = q->buildQueueSynchronously();
  if (before) { vp_assert(!r && g_explores + g_lists + g_dels == 0 && !q->initFinished_, "files are discovered once only"); return; }
  vp_assert(r == g_res, "the result is that of the discovery");
  vp_assert(g_explores == (q->exploreDirectory_ ? 1 : 0) && g_lists == (q->exploreDirectory_ ? 0 : 1), "the directory or the list is used");
  vp_assert(q->initFinished_ && q->allDiscovered_ == g_res && g_dels == 1, "the end of discovery is recorded, then extra files are determined");
  vp_assert(blocks || g_notifies == 1, "waiting threads learn that nothing will come");
  q->conditionNotEmpty_.notify_all();
}
