#pragma once
#include <cstdint>
#include <string>
#include <vector>
#define DECLARE_int32(n) extern int32_t FLAGS_##n
#define DECLARE_int64(n) extern int64_t FLAGS_##n
#define DECLARE_bool(n) extern bool FLAGS_##n
#define DECLARE_double(n) extern double FLAGS_##n
#define DECLARE_string(n) extern std::string FLAGS_##n
#define DEFINE_int32(n, v, h) int32_t FLAGS_##n = (v)
#define DEFINE_int64(n, v, h) int64_t FLAGS_##n = (v)
#define DEFINE_bool(n, v, h) bool FLAGS_##n = (v)
#define DEFINE_double(n, v, h) double FLAGS_##n = (v)
#define DEFINE_string(n, v, h) std::string FLAGS_##n = (v)
#define GFLAGS_NAMESPACE gflags
namespace gflags {
struct CommandLineFlagInfo {
  std::string name, type, description, current_value, default_value, filename;
  bool has_validator_fn{false}, is_default{true};
};
inline void GetAllFlags(std::vector<CommandLineFlagInfo>*) {}
inline std::string SetCommandLineOption(const char*, const char*) { return ""; }
}
