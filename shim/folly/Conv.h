// Minimal stand-in for folly/Conv.h: strict conversions, errors are thrown.
#pragma once
#include <folly/Range.h>
#include <cctype>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
namespace folly {
class ConversionError : public std::range_error {
 public:
  explicit ConversionError(const std::string& s) : std::range_error(s) {}
};
namespace shim {
inline void app(std::string* r, const std::string& s) { r->append(s); }
inline void app(std::string* r, const char* s) { r->append(s); }
inline void app(std::string* r, char c) { r->push_back(c); }
inline void app(std::string* r, StringPiece s) { r->append(s.data(), s.size()); }
template <class T>
std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, char>::value> app(std::string* r, T v) {
  r->append(std::to_string(v));
}
template <class T>
std::enable_if_t<std::is_enum<T>::value> app(std::string* r, T v) {
  r->append(std::to_string((long long)v));
}
inline void appAll(std::string*) {}
template <class A, class... R>
void appAll(std::string* r, const A& a, const R&... rest) { app(r, a); appAll(r, rest...); }
template <class... T> struct LastIs;
}  // namespace shim
// toAppend(args..., std::string*)
template <class A>
void toAppend(const A& a, std::string* r) { shim::app(r, a); }
template <class A, class B>
void toAppend(const A& a, const B& b, std::string* r) { shim::app(r, a); shim::app(r, b); }
template <class A, class B, class C>
void toAppend(const A& a, const B& b, const C& c, std::string* r) { shim::app(r, a); shim::app(r, b); shim::app(r, c); }
template <class A, class B, class C, class D>
void toAppend(const A& a, const B& b, const C& c, const D& d, std::string* r) {
  shim::app(r, a); shim::app(r, b); shim::app(r, c); shim::app(r, d);
}
template <class T, class S>
std::enable_if_t<std::is_same<T, std::string>::value, std::string> to(const S& v) {
  std::string r;
  shim::app(&r, v);
  return r;
}
template <class T, class A, class B, class... R>
std::enable_if_t<std::is_same<T, std::string>::value, std::string> to(const A& a, const B& b, const R&... rest) {
  std::string r;
  shim::appAll(&r, a, b, rest...);
  return r;
}
template <class T>
std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value, T> to(StringPiece sp) {
  // leading and trailing white space allowed, at least one digit, no overflow
  const char* p = sp.begin();
  const char* e = sp.end();
  while (p != e && std::isspace((unsigned char)*p)) ++p;
  bool neg = false;
  if (std::is_signed<T>::value && p != e && (*p == '-' || *p == '+')) {
    neg = *p == '-';
    ++p;
  }
  if (p == e || !std::isdigit((unsigned char)*p)) throw ConversionError("Non-digit character found");
  unsigned __int128 v = 0;
  const unsigned __int128 lim = neg ? (unsigned __int128)std::numeric_limits<T>::max() + 1
                                    : (unsigned __int128)std::numeric_limits<T>::max();
  while (p != e && std::isdigit((unsigned char)*p)) {
    v = v * 10 + unsigned(*p - '0');
    if (v > lim) throw ConversionError("Overflow during conversion");
    ++p;
  }
  while (p != e && std::isspace((unsigned char)*p)) ++p;
  if (p != e) throw ConversionError("Non-whitespace character found after end of conversion");
  return neg ? (T)(0 - (unsigned long long)v) : (T)v;
}
template <class T>
std::enable_if_t<std::is_same<T, bool>::value, T> to(StringPiece sp) {
  std::string s = sp.str();
  if (s == "1" || s == "true" || s == "yes" || s == "y" || s == "t" || s == "on") return true;
  if (s == "0" || s == "false" || s == "no" || s == "n" || s == "f" || s == "off") return false;
  throw ConversionError("Invalid value for bool");
}
template <class T>
std::enable_if_t<std::is_floating_point<T>::value, T> to(StringPiece sp) {
  return (T)std::strtod(sp.str().c_str(), nullptr);
}
}  // namespace folly
