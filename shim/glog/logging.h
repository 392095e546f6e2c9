// Stand-in for glog: log statements are dropped (operands are type checked and
// never evaluated), CHECK* keep their meaning: a false condition does not return.
#pragma once
#include <cassert>
#include <cstdint>
#include <iostream>
#include <ostream>
#include <string>
extern "C" [[noreturn]] void vp_check_failed(const char* cond, const char* file, int line);
namespace vpshim {
struct NullStream {
  template <class T> NullStream& operator<<(const T&) { return *this; }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  NullStream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
};
struct Voidify { void operator&(const NullStream&) {} };
inline NullStream& nullStream() { static NullStream s; return s; }
struct CheckFail : NullStream {
  [[noreturn]] CheckFail(const char* c, const char* f, int l) { vp_check_failed(c, f, l); }
};
}  // namespace vpshim
#define VPSHIM_NULL true ? (void)0 : ::vpshim::Voidify() & ::vpshim::NullStream()
#define VPSHIM_SEV_INFO VPSHIM_NULL
#define VPSHIM_SEV_WARNING VPSHIM_NULL
#define VPSHIM_SEV_ERROR VPSHIM_NULL
#define VPSHIM_SEV_FATAL false ? (void)0 : ::vpshim::Voidify() & ::vpshim::CheckFail("LOG(FATAL)", __FILE__, __LINE__)
#define LOG(sev) VPSHIM_SEV_##sev
#define VPSHIM_IF_INFO(c) VPSHIM_NULL
#define VPSHIM_IF_WARNING(c) VPSHIM_NULL
#define VPSHIM_IF_ERROR(c) VPSHIM_NULL
#define VPSHIM_IF_FATAL(c) !(c) ? (void)0 : ::vpshim::Voidify() & ::vpshim::CheckFail(#c, __FILE__, __LINE__)
#define LOG_IF(sev, c) VPSHIM_IF_##sev(c)
#define PLOG(sev) LOG(sev)
#define PLOG_IF(sev, c) LOG_IF(sev, c)
#define VLOG(n) VPSHIM_NULL
#define VLOG_IF(n, c) VPSHIM_NULL
#define DLOG(sev) LOG(sev)
#define VLOG_IS_ON(n) false
#define LOG_EVERY_N(sev, n) LOG(sev)
#define CHECK(c) (__builtin_expect(!!(c), 1)) ? (void)0 : ::vpshim::Voidify() & ::vpshim::CheckFail(#c, __FILE__, __LINE__)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define PCHECK(c) CHECK(c)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define CHECK_NOTNULL(p) (p)
namespace google { inline void InitGoogleLogging(const char*) {} }
extern bool FLAGS_logtostderr;
extern int32_t FLAGS_minloglevel;
extern int32_t FLAGS_v;
