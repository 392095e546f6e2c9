// Native runtime of the specification harnesses: replays a model, then searches
// (biased random inputs) for an input on which an assertion of the harness, a
// CHECK of the code, or a sanitizer fails on the real code.
#include "vp.h"
#include <dlfcn.h>
#include <csignal>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>
struct VpAssume {};
struct VpEnd { std::string why; };
struct Val { char kind; uint64_t u; double d; std::string b; std::string name; };
static std::vector<Val> model;  // values to use, in order
static size_t mpos = 0;
static bool useModel = false;
static std::vector<Val> used;
static std::mt19937_64 rng;
static std::string failed;
static std::vector<void*> bufs;
static std::vector<uint64_t> pool;
static long covers = 0;
static int maxSize = 64;
static std::string jesc(const std::string& s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { r += ' '; continue; } r += c; }
  return r;
}
static void dump(const std::string& why) {
  std::string o = "{\"failed\":\"" + jesc(why) + "\",\"inputs\":[";
  for (size_t i = 0; i < used.size(); ++i) {
    if (i) o += ",";
    o += "[\"";
    o += used[i].kind == 'b' ? "bytes" : used[i].kind == 'r' ? "real" : "u64";
    o += "\",\"" + jesc(used[i].name) + "\",";
    if (used[i].kind == 'b') {
      o += "\"";
      char h[4];
      for (unsigned char c : used[i].b) { snprintf(h, 4, "%02x", c); o += h; }
      o += "\"";
    } else if (used[i].kind == 'r') {
      char h[64]; snprintf(h, 64, "%.17g", used[i].d); o += h;
    } else {
      o += std::to_string(used[i].u);
    }
    o += "]";
  }
  o += "]}\n";
  FILE* f = stdout;
  fwrite("VPFAIL ", 1, 7, f);
  fwrite(o.data(), 1, o.size(), f);
  fflush(f);
}
[[noreturn]] static void fail(const std::string& why) {
  dump(why);
  _exit(3);
}
extern "C" void vp_check_failed(const char* c, const char* f, int l) {
  fail(std::string("CHECK failed: ") + c + " at " + f + ":" + std::to_string(l));
}
extern "C" void vp_throw_out_of_range(const char* w) { fail(std::string("range misuse: ") + w); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=4:allocator_may_return_null=1:max_allocation_size_mb=4096"; }
extern "C" void __asan_on_error() { dump("sanitizer error"); }
static uint64_t rnd() {
  switch (rng() % 12) {
    case 0: return 0;
    case 1: return 1;
    case 2: return rng() % 16;
    case 3: return rng() % 300;
    case 4: return rng() >> (rng() % 64);
    case 5: return (uint64_t)-(int64_t)(rng() % 300);
    case 6: return (1ull << (rng() % 64)) - (rng() % 3) + 1;
    case 7: return 0x7fffffffffffffffull - (rng() % 3);
    case 8: return (uint64_t)INT32_MAX + (rng() % 5) - 2;
    case 9: if (!pool.empty()) return pool[rng() % pool.size()] + (rng() % 5) - 2; return rng() % 64;
    case 10: if (!pool.empty()) return pool[rng() % pool.size()]; return rng() % 64;
    default: return rng();
  }
}
static bool next(Val& v) {
  if (useModel && mpos < model.size()) { v = model[mpos++]; return true; }
  return false;
}
extern "C" uint64_t vp_in_u64(const char* name) {
  Val v;
  if (!next(v)) { v.kind = 'u'; v.u = rnd(); }
  v.name = name;
  if (v.kind != 'u') v = Val{'u', 0, 0, "", name};
  used.push_back(v);
  if (pool.size() < 64) pool.push_back(v.u);
  return v.u;
}
int64_t vp_range_native(const char* name, int64_t lo, int64_t hi) {
  Val v;
  if (!next(v)) {
    v.kind = 'u';
    if (lo > hi) throw VpAssume();
    uint64_t w = (uint64_t)hi - (uint64_t)lo;
    uint64_t r;
    switch (rng() % 6) {
      case 0: r = 0; break;
      case 1: r = w; break;
      case 2: r = w ? rng() % (w < 16 ? w : 16) : 0; break;
      case 3: r = rnd() - (uint64_t)lo; if (r > w) r = w ? rng() % w : 0; break;
      default: r = w == UINT64_MAX ? rng() : rng() % (w + 1);
    }
    v.u = (uint64_t)lo + r;
  }
  v.name = name;
  used.push_back(v);
  if (pool.size() < 64) pool.push_back(v.u);
  int64_t x = (int64_t)v.u;
  if (x < lo || x > hi) throw VpAssume();
  return x;
}
extern "C" uint64_t vp_in_size(const char* name) {
  Val v;
  if (!next(v)) {
    v.kind = 'u';
    switch (rng() % 4) { case 0: v.u = rng() % 8; break; case 1: v.u = rng() % 32; break; case 2: v.u = rng() % maxSize; break; default: v.u = rng() % 256; }
  }
  v.name = name;
  if (v.u > (1u << 26)) throw VpAssume();
  used.push_back(v);
  if (pool.size() < 64) pool.push_back(v.u);
  return v.u;
}
extern "C" double vp_in_real(const char* name) {
  Val v;
  if (!next(v)) {
    v.kind = 'r';
    switch (rng() % 6) {
      case 0: v.d = 0; break; case 1: v.d = -1; break; case 2: v.d = (double)(rng() % 1000); break;
      case 3: v.d = (double)(rng() % 1000000) / 1000; break; case 4: v.d = (double)(rng() % 100000000000ull); break; default: v.d = -(double)(rng() % 1000) / 7;
    }
  }
  if (v.kind == 'u') { v.d = (double)v.u; v.kind = 'r'; }
  v.name = name;
  used.push_back(v);
  return v.d;
}
static std::string bytes(const char* name, size_t n) {
  Val v;
  if (!next(v) || v.kind != 'b') {
    v.kind = 'b';
    v.b.resize(n);
    int mode = rng() % 6;
    if (n > 4096) { memset(&v.b[0], (int)rng(), n); for (int i = 0; i < 64; ++i) v.b[rng() % n] = (char)rng(); } else
    for (size_t i = 0; i < n; ++i) {
      unsigned char c = (unsigned char)rng();
      if (mode == 0) c = 0;
      else if (mode == 1) c &= 0x0f;
      else if (mode == 2) c = (rng() % 3) ? 0xff : c;
      else if (mode == 3) c = "ab/.\0\\%:?&=,z"[rng() % 13];
      else if (mode == 4) c = (rng() & 1) ? (c & 3) : c;
      v.b[i] = (char)c;
    }
  }
  v.b.resize(n);
  v.name = name;
  used.push_back(v);
  return v.b;
}
extern "C" void* vp_in_buf(const char* name, uint64_t n) {
  if (n > (1u << 26)) throw VpAssume();
  std::string b = bytes(name, n);
  void* p = malloc(n ? n : 1);
  if (!n) { free(p); p = malloc(0); }
  memcpy(p, b.data(), n);
  bufs.push_back(p);
  return p;
}
extern "C" void vp_free_buf(void* p) {
  for (auto& q : bufs) if (q == p) q = nullptr;
  free(p);
}
std::string vp_str(const char* name) {
  size_t n = vp_in_size((std::string(name) + ".len").c_str());
  return bytes(name, n);
}
bool vp_same_string(const std::string& a, const std::string& b) { return a == b; }
extern "C" void vp_assume_(int c) { if (!c) throw VpAssume(); }
extern "C" void vp_assert_(int c, const char* id) { if (!c) fail(std::string("assert ") + id); }
extern "C" void vp_cover_(const char* id) { ++covers; }
extern "C" int vp_bound_(int quick, int deep) { return deep; }
extern "C" void vp_lock_(void*) {}
extern "C" void vp_unlock_(void*) {}
extern "C" int vp_held_(void*) { return 1; }
extern "C" void vp_guard_(void*, uint64_t, void*, const char*) {}
extern "C" void vp_unguard_(void*) {}
extern "C" void vp_note(const char* ev) {}
static void onsig(int s) {
  dump("signal " + std::to_string(s));
  _exit(5);
}
static bool once(void (*h)(), long& done) {
  used.clear(); pool.clear(); mpos = 0;
  bool ok = true;
  try { h(); ++done; }
  catch (VpAssume&) { ok = false; }
  catch (std::exception& e) { fail(std::string("exception ") + e.what()); }
  catch (...) { fail("exception"); }
  for (void* p : bufs) free(p);
  bufs.clear();
  return ok;
}
// usage: prog harness modelfile|- seed seconds
int main(int argc, char** argv) {
  std::string sym = std::string("vh_") + argv[1];
  auto h = (void (*)())dlsym(RTLD_DEFAULT, sym.c_str());
  if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) if (s != SIGSEGV) signal(s, onsig);
  uint64_t seed = strtoull(argv[3], 0, 10);
  double secs = atof(argv[4]);
  rng.seed(seed);
  long done = 0, tries = 0;
  if (std::string(argv[2]) != "-") {
    // lines: u <n> | r <d> | b <hex or ->
    std::ifstream f(argv[2]);
    std::string k, x;
    while (f >> k >> x) {
      Val v{k[0], 0, 0, "", ""};
      if (k == "u") v.u = strtoull(x.c_str(), 0, 10);
      else if (k == "r") v.d = atof(x.c_str());
      else if (x != "-") for (size_t i = 0; i + 1 < x.size(); i += 2) v.b += (char)strtol(x.substr(i, 2).c_str(), 0, 16);
      model.push_back(v);
    }
    useModel = true;
    bool ok = once(h, done);
    printf("VPMODEL %s\n", ok ? "passed" : "outside-precondition");
    fflush(stdout);
    useModel = false;
    if (secs > 0) {
      // neighbourhood of the model
      auto base = model;
      for (int i = 0; i < 400; ++i) {
        model = base;
        for (auto& v : model) {
          if (rng() % 4) continue;
          if (v.kind == 'u') v.u = (rng() & 1) ? rnd() : v.u + (rng() % 7) - 3;
          else if (v.kind == 'b' && !v.b.empty()) v.b[rng() % v.b.size()] = (char)rng();
        }
        useModel = true;
        once(h, done); ++tries;
        useModel = false;
      }
    }
  }
  timespec t0, t;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  while (secs > 0) {
    for (int i = 0; i < 200; ++i) { once(h, done); ++tries; }
    clock_gettime(CLOCK_MONOTONIC, &t);
    if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
  }
  printf("VPDONE tries=%ld done=%ld covers=%ld\n", tries, done, covers);
  return 0;
}
extern "C" __attribute__((weak)) int vp_env_regex_match_(const std::string* s, const std::string* pattern) { return *s == *pattern; }
