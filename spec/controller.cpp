// Contracts of the primitives that keep the threads of a transfer together (ThreadsController): barrier, funnel, once-only execution, conditions.
#include "vp.h"
#include <cerrno>
#include <wdt/util/ThreadsController.h>
#include <wdt/util/CommonImpl.h>
using namespace facebook::wdt;

// Other threads are a rely relation: whenever the lock of the primitive is free they may take any number of the steps the primitive allows to them.
// A step of this thread must be one the others rely on; all state is accessed with the lock held.
static void* g_mutex;
static void* g_cv;
static void others();
static void mine();
static bool g_env;
extern "C" int vp_env_pthread_mutex_lock(pthread_mutex_t* m) {
  vp_lock_(m);
  if (m == g_mutex && g_env) others();
  return 0;
}
extern "C" int vp_env_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (m == g_mutex && g_env) mine();
  vp_unlock_(m);
  return 0;
}
static int g_all, g_one;
extern "C" void vp_env__ZNSt18condition_variable10notify_allEv(std::condition_variable* c) {
  vp_assert(c == g_cv && vp_held_(g_mutex), "waiting threads are woken with the lock they check under");
  g_all++;
}
extern "C" void vp_env__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c) {
  vp_assert(c == g_cv && vp_held_(g_mutex), "waiting threads are woken with the lock they check under");
  g_one++;
}
static bool mayWait();
extern "C" void vp_env__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c, std::unique_lock<std::mutex>* l) {
  vp_assert(c == g_cv && l->mutex() == g_mutex && l->owns_lock(), "a thread waits on the primitive with its lock");
  vp_assert(mayWait(), "a thread waits only for something that has not happened yet");
  mine();
  others();
}

enum { BARRIER, FUNNEL, ONCE, CONDITION };
static int g_kind;
// ------------------------------------------------------------ barrier
static Barrier* g_b;
static int g_n;               // threads that have to come
static int64_t g_arrived;     // have come
static int g_left;            // have not finished without coming
static bool g_me;             // this thread has come or is finished
static bool g_done;           // the barrier is open
enum { NOTHING, COME, GO };
static int g_step;            // what this thread does when it has the lock
static int64_t g_seenHits;
static int g_seenThreads;
static void barrierOthers() {
  // nobody comes to an open barrier, each thread comes or goes once
  if (!g_done) {
    int64_t a = vp_range("arrivals", 0, 1 << 20);
    int left = vp_i32("left");
    vp_assume((left >= 0) & (left <= g_left) & (a >= g_arrived) & (a <= left - (g_me ? 0 : 1)));
    g_arrived = a;
    g_left = left;
    g_b->numHits_ = g_arrived;
    g_b->numThreads_ = g_left;
    g_done = g_arrived == g_left;
    g_b->isComplete_ = g_done;
  }
  g_seenHits = g_b->numHits_;
  g_seenThreads = g_b->numThreads_;
}
static void barrierMine() {
  int step = g_step;
  g_step = NOTHING;
  if (step == NOTHING) {
    vp_assert(g_b->numHits_ == g_seenHits && g_b->numThreads_ == g_seenThreads && g_b->isComplete_ == g_done, "each thread counts once");
    return;
  }
  g_me = true;
  if (g_done) {   // only a thread that has been there comes to an open barrier, to leave
    vp_assert(g_b->isComplete_, "an open barrier stays open");
    return;
  }
  if (step == COME) g_arrived++;
  else g_left--;
  g_done = g_arrived == g_left;
  vp_assert(g_b->isComplete_ == g_done, "the barrier opens exactly when every thread has come or is finished");
  vp_assert(!g_done || g_all >= 1, "and then all waiting threads are woken");
  vp_assert(g_b->numHits_ == g_arrived && g_b->numThreads_ == g_left, "each thread counts once");
}
static void mkBarrier() {
  g_kind = BARRIER;
  g_n = (int)vp_range("n", 1, 1 << 20);
  g_b = new Barrier(g_n);
  vp_assert(g_b->numThreads_ == g_n && g_b->numHits_ == 0 && !g_b->isComplete_, "a new barrier waits for all threads");
  g_mutex = &g_b->mutex_;
  g_cv = &g_b->cv_;
  g_arrived = 0;
  g_left = g_n;
  g_me = g_done = false;
  g_step = NOTHING;
  g_seenHits = 0;
  g_seenThreads = 0;
  g_all = g_one = 0;
  vp_guard_(&g_b->numHits_, sizeof(g_b->numHits_), g_mutex, "barrier");
  vp_guard_(&g_b->numThreads_, sizeof(g_b->numThreads_), g_mutex, "barrier");
  vp_guard_(&g_b->isComplete_, sizeof(g_b->isComplete_), g_mutex, "barrier");
  g_env = true;
}

// ------------------------------------------------------------ funnel
static Funnel* g_f;
static bool g_owner;          // this thread is the one in the funnel
static bool g_exact;          // the step this thread may take is ...
static FunnelStatus g_to;
static FunnelStatus g_was;
static int g_looked;
static void funnelOthers() {
  int s = g_f->status_;
  if (!g_owner && s != FUNNEL_END) {
    int t = (int)vp_range("status", 0, 2);
    g_f->status_ = (FunnelStatus)t;   // somebody enters, and ends with success or failure
  }
  g_was = g_f->status_;
}
static void funnelMine() {
  FunnelStatus s = g_f->status_;
  if (s == g_was) return;
  vp_assert(g_was == FUNNEL_START ? s == FUNNEL_PROGRESS && !g_owner : g_was == FUNNEL_PROGRESS && g_owner && g_exact && s == g_to, "only a free funnel is entered, and only the thread in it leaves it");
  if (g_was == FUNNEL_START) g_owner = true;
  else {
    g_owner = false;
    vp_assert(s == FUNNEL_END ? g_all > 0 : g_all + g_one > 0, "the threads that wait are woken");
  }
  g_was = s;
}
static void mkFunnel() {
  g_kind = FUNNEL;
  g_f = new Funnel();
  vp_assert(g_f->status_ == FUNNEL_START, "a new funnel is free");
  g_mutex = &g_f->mutex_;
  g_cv = &g_f->cv_;
  g_owner = g_exact = false;
  g_all = g_one = 0;
  vp_guard_(&g_f->status_, sizeof(g_f->status_), g_mutex, "funnel");
  g_env = true;
}
static bool mayWait() { return g_kind == BARRIER ? !g_b->isComplete_ && (g_me || g_step == COME) : g_f->status_ == FUNNEL_PROGRESS && !g_owner; }

// ------------------------------------------------------------ once
static ExecuteOnceFunc* g_x;
static int g_hits, g_runs, g_others;
static void onceOthers() {
  int k = (int)vp_range("hits", 0, 1 << 20);
  vp_assume(g_hits + k <= g_n - 1);
  g_hits += k;
  g_x->numHits_ += k;
}
static void others() {
  if (g_kind == BARRIER) barrierOthers();
  else if (g_kind == FUNNEL) funnelOthers();
  else if (g_kind == ONCE) onceOthers();
}
static void mine() {
  if (g_kind == BARRIER) barrierMine();
  else if (g_kind == FUNNEL) funnelMine();
}

VP_HARNESS(ctl_barrier) {
  mkBarrier();
  g_step = COME;
  g_b->execute();
  g_env = false;
  vp_unguard_(g_b);
  vp_assert(g_done && g_me && g_b->isComplete_, "a thread leaves the barrier when it is open");
  vp_assert(g_arrived == g_left, "every thread has come or is finished");
  vp_assert(!vp_held_(g_mutex), "no lock is kept");
}
VP_HARNESS(ctl_barrier_leave) {
  mkBarrier();
  // this thread has been at the barrier already, or not
  if (vp_bool("was there")) {
    g_env = false;
    vp_unguard_(g_b);
    g_left = (int)vp_range("left", 1, g_n);
    g_arrived = g_left;
    g_b->numHits_ = g_arrived;
    g_b->numThreads_ = g_left;
    g_b->isComplete_ = g_done = g_me = true;
    g_env = true;
  }
  bool was = g_done;
  g_step = GO;
  g_b->deRegister();
  g_env = false;
  vp_assert(g_me && g_step == NOTHING, "a finished thread is not waited for");
  vp_assert(!was || g_done, "an open barrier stays open");
  vp_assert(!vp_held_(g_mutex), "no lock is kept");
}
VP_HARNESS(ctl_funnel_enter) {
  mkFunnel();
  FunnelStatus s = g_f->getStatus();
  g_env = false;
  vp_assert(g_owner == (s == FUNNEL_START), "a thread is told that it is the one in the funnel exactly when it is");
  vp_assert(s == g_was || s == FUNNEL_START, "others are told the status");
  vp_assert(!vp_held_(g_mutex) && g_all + g_one == 0, "no lock is kept");
}
static void inFunnel(bool success) {
  mkFunnel();
  g_env = false;
  (void)g_f->getStatus();
  g_env = g_owner = g_exact = true;
  g_to = success ? FUNNEL_END : FUNNEL_START;
  if (success) g_f->notifySuccess();
  else g_f->notifyFail();
  g_env = false;
  vp_assert(g_was == g_to && !g_owner, "the outcome is known to all");
  vp_assert(!vp_held_(g_mutex), "no lock is kept");
}
VP_HARNESS(ctl_funnel_success) { inFunnel(true); }
VP_HARNESS(ctl_funnel_fail) { inFunnel(false); }
static bool g_looks;
VP_HARNESS(ctl_funnel_wait) {
  mkFunnel();
  g_f->wait();
  g_env = false;
  vp_assert(!g_owner && !vp_held_(g_mutex), "waiting changes nothing");
}
static int64_t g_run;
static void once(bool first) {
  g_kind = ONCE;
  g_n = (int)vp_range("n", 1, 1 << 20);
  g_x = new ExecuteOnceFunc(g_n, first);
  vp_assert(g_x->numHits_ == 0, "nothing is done yet");
  g_mutex = &g_x->mutex_;
  g_hits = g_runs = 0;
  vp_guard_(&g_x->numHits_, sizeof(g_x->numHits_), g_mutex, "once");
  g_env = true;
  int at = -1;
  g_x->execute([&] {
    vp_assert(vp_held_(g_mutex), "while it runs, no other thread goes on");
    at = g_hits;
    g_runs++;
  });
  g_env = false;
  vp_assert(g_runs == (g_hits == (first ? 0 : g_n - 1) ? 1 : 0), "the function runs for one thread, the first or the last");
  vp_unguard_(g_x);
  vp_assert(g_x->numHits_ == g_hits + 1, "each thread counts once");
  vp_assert(!vp_held_(g_mutex), "no lock is kept");
}
VP_HARNESS(ctl_once_first) { once(true); }
VP_HARNESS(ctl_once_last) { once(false); }

// ------------------------------------------------------------ conditions
static int g_now, g_checked, g_every;
static int g_checks, g_aborted, g_told, g_sleeps;
extern "C" int vp_env__ZNSt18condition_variable8wait_forIlSt5ratioILl1ELl1000EEEESt9cv_statusRSt11unique_lockISt5mutexERKNSt6chrono8durationIT_T0_EE(std::condition_variable* c, std::unique_lock<std::mutex>* l, const std::chrono::milliseconds* t) {
  int ms = (int)t->count();
  vp_assert(c == g_cv && l->mutex() == g_mutex && l->owns_lock(), "a thread waits on the condition with its lock");
  vp_assert(ms > 0, "for some time");
  vp_assert(g_every <= 0 || ms <= g_every, "not longer than it may go without looking for an abort");
  vp_assert(g_checked == g_now && g_aborted == 0 && g_told == 0, "looking for an abort each time the time is over");
  if (vp_bool("notified")) {
    g_told = 1;
    return (int)std::cv_status::no_timeout;
  }
  g_now += ms;
  return (int)std::cv_status::timeout;
}
struct Abort : IAbortChecker {
  bool shouldAbort() const override {
    g_checked = g_now;
    g_aborted = vp_bool("abort") ? 1 : 0;
    return g_aborted != 0;
  }
};
static void waitIn(bool funnel) {
  auto* o = new WdtOptions();
  g_every = o->abort_check_interval_millis = vp_i32("interval");
  vp_assume(g_every <= 1000000);
  auto* ctx = new ThreadCtx(*o, false, 2);
  ctx->setAbortChecker(new Abort());
  int timeout = vp_i32("timeout");
  bool none = vp_bool("no time");
  vp_assume(none ? timeout <= 0 : (timeout > 0) & (timeout <= 100000000));
  int start = 0;
  g_now = g_checked = start;
  g_aborted = g_told = 0;
  if (funnel) {
    mkFunnel();
    g_f->wait(timeout, *ctx);
    g_env = false;
    vp_assert(!g_owner, "waiting changes nothing");
    if (g_was != FUNNEL_PROGRESS) vp_assert(g_now == start, "there is nothing to wait for outside the funnel");
  } else {
    g_kind = CONDITION;
    ConditionGuard cond;
    g_mutex = &cond.mutex_;
    g_cv = &cond.cv_;
    {
      auto guard = cond.acquire();
      vp_assert(vp_held_(g_mutex), "a guard means that the lock is held");
      guard.wait(timeout, *ctx);
      vp_assert(vp_held_(g_mutex), "also after waiting");
      g_all = g_one = 0;
      guard.notifyOne();
      vp_assert(g_one + g_all == 1, "a waiting thread is woken");
      guard.notifyAll();
      vp_assert(g_all >= 1, "or all");
    }
    if (timeout > 0) vp_assert(g_told || g_aborted || g_now == start + timeout, "a thread waits until it is told, aborted or the time is over");
  }
  if (timeout > 0) vp_assert(g_now <= start + timeout, "never longer");
  else vp_assert(g_now == start, "never longer");
  vp_assert(!vp_held_(g_mutex), "no lock is kept");
}
VP_HARNESS(ctl_condition) { waitIn(false); }
VP_HARNESS(ctl_funnel_timed) { waitIn(true); }

// ------------------------------------------------------------ the controller
static ThreadsController* g_c;
static int64_t g_ks[4];
static int g_bars;
static Barrier* g_left2[4];
extern "C" void vp_contract__ZN8facebook3wdt7Barrier10deRegisterEv(Barrier* b) {
  vp_assert(g_bars < 4, "a barrier is told once");
  g_left2[g_bars++] = b;
}
static int threads() {
  int n = 0, most = vp_bound_(3, 4);
  while (n < most && vp_bool("more")) n++;
  vp_assume(n > 0);
  g_c = new ThreadsController(n);
  return n;
}
VP_HARNESS(ctl_threads) {
  int n = threads();
  vp_assert(g_c->getTotalThreads() == n && g_c->numRunningThreads() == 0 && g_c->hasThreads(INIT) && !g_c->hasThreads(FINISHED), "all threads are there, none has run");
  int st[4];
  int runs = 0;
  for (int i = 0; i < n; i++) {
    st[i] = vp_bool("runs") ? RUNNING : vp_bool("waits") ? WAITING : vp_bool("init") ? INIT : FINISHED;
    if (st[i] == RUNNING) g_c->registerThread(i);
    else if (st[i] == FINISHED) g_c->deRegisterThread(i);
    else g_c->markState(i, (ThreadStatus)st[i]);
    runs += st[i] == RUNNING;
  }
  vp_assert(g_c->numRunningThreads() == runs, "the running threads are counted");
  bool any = false, other = false;
  for (int i = 0; i < n; i++) {
    vp_assert(g_c->getState(i) == st[i], "each thread is in its state");
    any |= st[i] == FINISHED;
    other |= i != 0 && st[i] == RUNNING;
  }
  vp_assert(g_c->hasThreads(FINISHED) == any, "a state is found if a thread is in it");
  vp_assert(g_c->hasThreads(0, RUNNING) == other, "or another thread");
  vp_assert(!vp_held_(&g_c->controllerMutex_), "no lock is kept");
}
VP_HARNESS(ctl_finish) {
  int n = threads();
  g_c->setNumBarriers(2);
  g_c->setNumFunnels(2);
  g_c->setNumConditions(2);
  vp_assert(g_c->getBarrier(0).get() != g_c->getBarrier(1).get() && g_c->getFunnel(0).get() != g_c->getFunnel(1).get() && g_c->getCondition(0).get() != g_c->getCondition(1).get(), "each index is its own primitive");
  Barrier *b0 = g_c->getBarrier(0).get(), *b1 = g_c->getBarrier(1).get();
  vp_assert(b0->numThreads_ == n && b1->numThreads_ == n && b0->numHits_ == 0 && !b0->isComplete_, "a barrier waits for all threads");
  vp_assert(g_c->getBarrier(0).get() == b0, "the same for all threads");
  for (int i = 0; i < n; i++) g_c->registerThread(i);
  g_bars = 0;
  g_c->deRegisterThread(n - 1);
  vp_assert(g_bars == 2 && (g_left2[0] == b0 ? g_left2[1] == b1 : g_left2[0] == b1 && g_left2[1] == b0), "no barrier waits for a finished thread");
  vp_assert(g_c->getState(n - 1) == FINISHED && g_c->numRunningThreads() == n - 1, "which is finished");
  int runs = 0;
  g_c->executeAtStart([&] { runs++; });
  g_c->reset();
  vp_assert(g_c->numRunningThreads() == n, "for the next transfer all threads run again");
  Barrier* c0 = g_c->getBarrier(0).get();
  vp_assert(c0->numThreads_ == n && c0->numHits_ == 0 && !c0->isComplete_ && g_c->getFunnel(1)->status_ == FUNNEL_START, "and nothing has happened yet");
  g_c->executeAtStart([&] { runs++; });
  vp_assert(runs == 2 && g_c->execAtStart_->numThreads_ == n && g_c->execAtEnd_->numThreads_ == n && g_c->execAtEnd_->numHits_ == 0 && g_c->execAtStart_->execFirst_ && !g_c->execAtEnd_->execFirst_, "what is done once is done once for each transfer");
}
