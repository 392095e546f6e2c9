// Contracts of Throttler: transfers keep to the average rate and to the peak rate with its bucket. Floating point numbers are treated as reals.
#include "vp.h"
#include <thread>
#include <wdt/Throttler.h>
using namespace facebook::wdt;
typedef std::chrono::time_point<Clock> Time;
static Throttler* g_t;
static void* g_lock;
static int64_t g_now;
extern "C" int64_t vp_env__ZNSt6chrono3_V212system_clock3nowEv() { return g_now; }
struct Look {  // the specification looks at the state as if it had the lock
  bool mine = !vp_held_(g_lock);
  Look() { if (mine) vp_lock_(g_lock); }
  ~Look() { if (mine) vp_unlock_(g_lock); }
};
static double real(const char* n, double lo, double hi) {
  double v = vp_in_real(n);
  vp_assume((v >= lo) & (v <= hi));
  return v;
}
static Time at(int64_t ns) { return Time(Clock::duration(ns)); }
static void guard(void* p, size_t n) { vp_guard_(p, n, g_lock, "throttler"); }
static double g_avg, g_peak, g_limit, g_progress;
static int64_t g_tokens, g_ref, g_start, g_fill;
static void mk() {
  ThrottlerOptions o;
  o.single_request_limit = vp_range("single", 1, INT64_MAX);
  o.avg_rate_per_sec = g_avg = real("avg", -1, 1e12);
  o.max_rate_per_sec = g_peak = real("peak", -1, 1e12);
  o.throttler_bucket_limit = g_limit = real("limit", 1, 1e12);
  g_t = new Throttler(o);
  vp_assert(g_t->avgRatePerSec_ == g_avg && g_t->bucketRatePerSec_ == g_peak && g_t->tokenBucketLimit_ == g_limit && g_t->tokenBucket_ == 0 && g_t->refCount_ == 0, "it is set up as asked for");
  g_lock = &g_t->throttlerMutex_.m_;
  g_start = vp_range("start", 0, (int64_t)1 << 60);
  g_fill = vp_range("fill", 0, (int64_t)1 << 60);
  vp_assume(g_fill >= g_start);
  g_t->startTime_ = at(g_start);
  g_t->lastFillTime_ = at(g_fill);
  g_t->progress_ = g_progress = real("progress", 0, 1e15);
  g_t->tokenBucket_ = g_tokens = vp_range("tokens", -((int64_t)1 << 50), (int64_t)1 << 50);
  g_t->refCount_ = g_ref = vp_range("transfers", 0, 1 << 20);
  guard(&g_t->progress_, 8);
  guard(&g_t->tokenBucket_, 8);
  guard(&g_t->refCount_, 8);
  guard(&g_t->startTime_, 8);
  guard(&g_t->lastFillTime_, 8);
  guard(&g_t->avgRatePerSec_, 24);
}
VP_HARNESS(thr_average) {
  mk();
  vp_assume((g_ref > 0) & (g_avg > 0));
  g_now = vp_range("now", 0, (int64_t)1 << 60);
  vp_assume(g_now >= g_fill);
  double delta = real("delta", 0, 1e12);
  double s = g_t->calculateSleep(delta, at(g_now));
  Look l;
  double secs = (double)(g_now - g_start) / 1e9;
  vp_assert(g_t->progress_ == g_progress + delta, "all progress counts");
  if (s <= 0) vp_assert(g_t->progress_ <= g_avg * secs, "without a pause the average rate is kept");
  else vp_assert(g_t->progress_ <= g_avg * secs || s == g_t->progress_ / g_avg - secs, "after the pause it is just reached");
}
VP_HARNESS(thr_peak) {
  mk();
  vp_assume((g_ref > 0) & (g_avg <= 0) & (g_peak > 0));
  g_now = vp_range("now", 0, (int64_t)1 << 60);
  vp_assume((g_now >= g_fill) & (g_now - g_fill <= (int64_t)1 << 50));   // 13 days without any progress
  double delta = real("delta", 0, 1e12);
  double secs = (double)(g_now - g_fill) / 1e9, gain = secs * g_peak;
  vp_assert((secs >= 0) & (secs <= 1.2e6), "lemma: time");
  vp_assert((gain >= 0) & (gain <= 1.2e18), "lemma: gain");
  double s = g_t->calculateSleep(delta, at(g_now));
  Look l;
  vp_assert(g_t->lastFillTime_ == at(g_now), "time counts once");
  vp_assert(g_t->progress_ == g_progress + delta, "all progress counts");
  double most = g_tokens + gain;
  if (most > g_limit) most = g_limit;
  double now = g_t->tokenBucket_ + delta - most;   // the bucket counts whole tokens, rounded twice
  vp_assert((now <= 2) & (now >= -2), "tokens come at the peak rate up to the limit, and progress takes them");
  if (s <= 0) vp_assert(g_t->tokenBucket_ >= 0, "without a pause there were enough");
  else vp_assert(s * g_peak == -g_t->tokenBucket_, "after the pause there are enough");
}
VP_HARNESS(thr_both) {
  mk();
  vp_assume((g_ref > 0) & (g_avg > 0) & (g_peak > 0));
  g_now = vp_range("now", 0, (int64_t)1 << 60);
  vp_assume((g_now >= g_fill) & (g_now - g_fill <= (int64_t)1 << 50));
  double delta = real("delta", 0, 1e12);
  double secs = (double)(g_now - g_start) / 1e9;
  double s = g_t->calculateSleep(delta, at(g_now));
  Look l;
  if (g_progress + delta > g_avg * secs) vp_assert(g_t->tokenBucket_ == g_tokens && s > 0, "who waits for the average rate does not wait for the peak rate");
  else vp_assert(g_t->lastFillTime_ == at(g_now) && (s > 0) == (g_t->tokenBucket_ < 0), "otherwise the peak rate counts");
}
VP_HARNESS(thr_off) {
  mk();
  g_now = vp_range("now", 0, (int64_t)1 << 60);
  vp_assume(g_now >= g_fill);
  double delta = real("delta", 0, 1e12);
  bool unlimited = vp_bool("unlimited");
  if (unlimited) vp_assume((g_ref > 0) & (g_avg <= 0) & (g_peak <= 0));
  else {
    Look l;
    g_t->refCount_ = g_ref = 0;
  }
  double s = g_t->calculateSleep(delta, at(g_now));
  Look l;
  vp_assert(s <= 0, "without rates or without a transfer nobody waits");
  vp_assert(g_t->progress_ == g_progress + (unlimited ? delta : 0), "progress counts for transfers only");
}
VP_HARNESS(thr_transfers) {
  mk();
  g_now = vp_range("now", 0, (int64_t)1 << 60);
  bool start = vp_bool("startTransfer");
  if (start) {
    g_t->startTransfer();
    Look l;
    vp_assert(g_t->refCount_ == g_ref + 1, "each transfer counts");
    if (g_ref == 0) vp_assert(g_t->progress_ == 0 && g_t->tokenBucket_ == 0 && g_t->startTime_ == at(g_now) && g_t->lastFillTime_ == at(g_now), "the first one starts afresh");
    else vp_assert(g_t->progress_ == g_progress && g_t->tokenBucket_ == g_tokens && g_t->startTime_ == at(g_start) && g_t->lastFillTime_ == at(g_fill), "others share the rates");
  } else {
    vp_assume(g_ref > 0);
    g_t->endTransfer();
    Look l;
    vp_assert(g_t->refCount_ == g_ref - 1 && g_t->progress_ == g_progress && g_t->tokenBucket_ == g_tokens, "a transfer that ends changes nothing for the others");
  }
  vp_assert(!vp_held_(g_lock), "no lock is kept");
}
VP_HARNESS(thr_rates) {
  mk();
  g_now = vp_range("now", 0, (int64_t)1 << 60);
  double a = real("newAvg", -1, 1e12), p = real("newPeak", -1, 1e12), b = real("newLimit", -1, 1e12), a0 = a, p0 = p, b0 = b;
  if (vp_bool("direct")) {
    g_t->setThrottlerRates(a, p, b);
    Look l;
    vp_assert(g_t->avgRatePerSec_ == a && g_t->bucketRatePerSec_ == p && g_t->tokenBucketLimit_ == b, "the caller learns the rates that are used");
  } else {
    ThrottlerOptions o;
    o.avg_rate_per_sec = a; o.max_rate_per_sec = p; o.throttler_bucket_limit = b;
    g_t->setThrottlerRates(o);
  }
  Look l;
  double tp = g_t->bucketRatePerSec_, tb = g_t->tokenBucketLimit_;
  vp_assert(g_t->avgRatePerSec_ == a0, "the average rate is the one asked for");
  vp_assert(tp < 0 ? p0 < 0 : tp >= a0 && (p0 < a0 || tp == p0), "the peak rate is not below it, if there is one");
  vp_assert(tb == b0 || (b0 <= 0 && tp > 0 && tb > 0), "a missing bucket limit is chosen if there is a peak rate");
  vp_assert(!(tp > 0) || tb > 0, "so that a peak rate is kept");
  vp_assert(g_t->progress_ == 0 && g_t->tokenBucket_ == 0 && g_t->startTime_ == at(g_now) && g_t->lastFillTime_ == at(g_now) && g_t->refCount_ == g_ref, "from now on");
}
// ------------------------------------------------------------ requests
static int64_t g_asked;
static int g_calls;
static ThreadCtx* g_ctx;
extern "C" void vp_contract__ZN8facebook3wdt9Throttler18limitSingleRequestEPNS0_9ThreadCtxEl(Throttler* t, ThreadCtx* c, int64_t n) {
  vp_assert(t == g_t && c == g_ctx, "for the thread that asks");
  vp_assert(n > 0 && n <= t->singleRequestLimit_, "large requests are made in pieces");
  g_asked += n;
}
VP_HARNESS(thr_limit) {
  mk();
  int64_t n = vp_range("progress", 0, INT64_MAX);
  g_asked = 0;
  g_ctx = vp_bool("alone") ? nullptr : (ThreadCtx*)g_t;
  if (g_ctx) g_t->limit(*g_ctx, n);
  else g_t->limit(n);
  vp_assert(g_asked == n, "all progress is limited, once");
}
static double g_sleep, g_slept;
static int g_sleeps;
extern "C" double vp_contract__ZN8facebook3wdt9Throttler14calculateSleepEdRKNSt6chrono10time_pointINS2_3_V212system_clockENS2_8durationIlSt5ratioILl1ELl1000000000EEEEEE(Throttler* t, double d, const Time* now) {
  vp_assert(t == g_t && d == (double)g_asked && *now == at(g_now), "the pause follows from the progress and the time");
  vp_assert(!vp_held_(g_lock), "pre: the lock is free");
  g_calls++;
  return g_sleep;
}
extern "C" void vp_contract__ZNK8facebook3wdt9Throttler5sleepEd(Throttler*, double s) {
  vp_assert(!vp_held_(g_lock), "nobody sleeps with the lock");
  vp_assert(g_calls == 1 && s == g_sleep, "the pause is made");
  g_sleeps++;
}
VP_HARNESS(thr_single) {
  mk();
  g_now = vp_range("now", 0, (int64_t)1 << 60);
  g_asked = vp_range("n", 1, INT64_MAX);
  vp_assume(g_asked <= g_t->singleRequestLimit_);
  g_sleep = real("pause", -1, 1e9);
  g_calls = g_sleeps = 0;
  auto* o = new WdtOptions();
  o->enable_perf_stat_collection = vp_bool("perf");
  g_ctx = vp_bool("alone") ? nullptr : new ThreadCtx(*o, false, 2);
  g_t->throttlerLogTimeMillis_ = vp_range("log", -1, 1 << 20);
  g_t->limitSingleRequest(g_ctx, g_asked);
  vp_assert(g_calls == 1 && g_sleeps == (g_sleep > 0 ? 1 : 0), "once, if there is one");
}
