// Specification interface. A harness states a contract of real code:
//   inputs (universally quantified)  vp_u64/vp_i64/vp_buf/vp_str ...
//   precondition                     vp_assume(...)
//   call of the real function
//   postcondition                    vp_assert(cond, "obligation-name")
// The proof engine (engine/vcg.py) reads the LLVM IR of the harness linked with
// the IR of /repo's sources; the same file is compiled natively (ASan) to replay
// counterexamples against the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
extern "C" {
uint64_t vp_in_u64(const char* name);
uint64_t vp_in_size(const char* name);  // below 2^40
double vp_in_real(const char* name);
void* vp_in_buf(const char* name, uint64_t n);  // exactly n bytes, arbitrary contents, heap
void vp_free_buf(void*);
void vp_assume_(int c);
void vp_assert_(int c, const char* id);
void vp_cover_(const char* id);
int vp_bound_(int quick, int deep);  // bound of a bounded harness in the quick and the thorough tier
void vp_lock_(void* mutex);            // take and release a lock without further effects (used by contracts of locking)
void vp_unlock_(void* mutex);
int vp_held_(void* mutex);
void vp_guard_(void* p, uint64_t n, void* mutex, const char* what);  // the bytes are accessed with the lock held only
void vp_unguard_(void* p);
void vp_note(const char* ev);  // proof and replay trace
}
#define vp_assume(c) vp_assume_((c) ? 1 : 0)
#define vp_assert(c, id) vp_assert_((c) ? 1 : 0, id)
#define vp_cover(id) vp_cover_(id)
// std::string of arbitrary length and contents
std::string vp_str(const char* name);
// the two strings are the same byte sequence
bool vp_same_string(const std::string& a, const std::string& b);
static inline int64_t vp_i64(const char* n) { return (int64_t)vp_in_u64(n); }
static inline int32_t vp_i32(const char* n) { return (int32_t)vp_in_u64(n); }
static inline int16_t vp_i16(const char* n) { return (int16_t)vp_in_u64(n); }
static inline uint8_t vp_u8(const char* n) { return (uint8_t)vp_in_u64(n); }
static inline bool vp_bool(const char* n) { return (vp_in_u64(n) & 1) != 0; }
static inline uint64_t vp_u64(const char* n) { return vp_in_u64(n); }
static inline int64_t vp_size(const char* n) { return (int64_t)vp_in_size(n); }
static inline int64_t vp_range(const char* n, int64_t lo, int64_t hi) {
#ifdef VP_PROOF
  int64_t v = (int64_t)vp_in_u64(n);
  vp_assume_((v >= lo) & (v <= hi));
  return v;
#else
  int64_t vp_range_native(const char*, int64_t, int64_t);
  return vp_range_native(n, lo, hi);
#endif
}
static inline char* vp_buf(const char* n, int64_t sz) { return (char*)vp_in_buf(n, (uint64_t)sz); }
#ifdef VP_PROOF
// see shim/vp_containers.h: with vp_pq_ghost set, a pushed element is handed to the ghost state instead of the queue
extern "C" { __attribute__((weak)) int vp_pq_ghost; __attribute__((weak)) int vp_pq_count; void vp_pq_hook(void*); }
#endif
#ifdef VP_PROOF
// the dynamic initialisation of a source file (natively it has run already)
#define VP_INIT(x) extern "C" void vp_init_##x(); static void vp_run_init_##x() { vp_init_##x(); }
#else
#define VP_INIT(x) static void vp_run_init_##x() {}
#endif
#define VP_SIZEOF(type, id) extern "C" unsigned long vp_env_sizeof_##id() { return sizeof(type); }
#define VP_HARNESS(name) extern "C" void vh_##name()
