// Minimal stand-in for folly/Range.h (folly is not installed in this sandbox).
// Semantics follow folly::Range; misuse that folly reports by throwing
// std::out_of_range is reported through vp_throw_out_of_range (noreturn).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <ostream>
extern "C" [[noreturn]] void vp_throw_out_of_range(const char* what);
namespace folly {
template <class Iter>
class Range {
 public:
  using value_type = std::remove_const_t<std::remove_pointer_t<Iter>>;
  using iterator = Iter;
  using const_iterator = Iter;
  using size_type = std::size_t;
  constexpr Range() : b_(), e_() {}
  constexpr Range(Iter start, Iter end) : b_(start), e_(end) {}
  constexpr Range(Iter start, size_t size) : b_(start), e_(start + size) {}
  // string piece like constructors
  template <class I = Iter, std::enable_if_t<std::is_same<I, const char*>::value, int> = 0>
  Range(const char* s) : b_(s), e_(s + std::strlen(s)) {}
  template <class I = Iter, std::enable_if_t<std::is_same<I, const char*>::value, int> = 0>
  Range(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {}
  template <class I = Iter, std::enable_if_t<std::is_same<I, const char*>::value, int> = 0>
  Range(const std::string& s, size_t start, size_t len) {
    if (start > s.size()) vp_throw_out_of_range("index out of range");
    b_ = s.data() + start;
    e_ = s.size() - start < len ? s.data() + s.size() : b_ + len;
  }
  template <class I = Iter, std::enable_if_t<std::is_same<I, const char*>::value, int> = 0>
  Range(const std::string& s, size_t start) {
    if (start > s.size()) vp_throw_out_of_range("index out of range");
    b_ = s.data() + start;
    e_ = s.data() + s.size();
  }
  // StringPiece -> ByteRange
  template <class I = Iter, std::enable_if_t<std::is_same<I, const unsigned char*>::value, int> = 0>
  Range(const Range<const char*>& o)
      : b_(reinterpret_cast<const unsigned char*>(o.begin())),
        e_(reinterpret_cast<const unsigned char*>(o.end())) {}
  // ByteRange -> StringPiece
  template <class I = Iter, std::enable_if_t<std::is_same<I, const char*>::value, int> = 0>
  explicit Range(const Range<const unsigned char*>& o)
      : b_(reinterpret_cast<const char*>(o.begin())),
        e_(reinterpret_cast<const char*>(o.end())) {}
  Iter begin() const { return b_; }
  Iter end() const { return e_; }
  Iter start() const { return b_; }
  Iter data() const { return b_; }
  size_t size() const { return size_t(e_ - b_); }
  bool empty() const { return b_ == e_; }
  void clear() { b_ = Iter(); e_ = Iter(); }
  void advance(size_t n) {
    if (n > size()) vp_throw_out_of_range("index out of range");
    b_ += n;
  }
  void subtract(size_t n) {
    if (n > size()) vp_throw_out_of_range("index out of range");
    e_ -= n;
  }
  value_type front() const { return *b_; }
  value_type back() const { return *(e_ - 1); }
  value_type pop_front() {
    if (empty()) vp_throw_out_of_range("pop_front");
    value_type v = *b_;
    ++b_;
    return v;
  }
  value_type pop_back() {
    --e_;
    return *e_;
  }
  const value_type& operator[](size_t i) const { return b_[i]; }
  Range subpiece(size_t first, size_t length = std::string::npos) const {
    if (first > size()) vp_throw_out_of_range("index out of range");
    size_t n = size() - first;
    return Range(b_ + first, length < n ? length : n);
  }
  size_t find(value_type c) const {
    for (Iter p = b_; p != e_; ++p) {
      if (*p == c) return size_t(p - b_);
    }
    return std::string::npos;
  }
  size_t find(value_type c, size_t pos) const {
    if (pos > size()) return std::string::npos;
    size_t r = subpiece(pos).find(c);
    return r == std::string::npos ? r : r + pos;
  }
  size_t find(const char* s) const {
    return str().find(s);
  }
  bool startsWith(const Range& o) const {
    return size() >= o.size() && std::memcmp(b_, o.b_, o.size()) == 0;
  }
  bool startsWith(value_type c) const { return !empty() && front() == c; }
  bool removePrefix(const Range& o) {
    if (!startsWith(o)) return false;
    b_ += o.size();
    return true;
  }
  Range split_step(value_type delim) {
    size_t i = find(delim);
    Range r(b_, i == std::string::npos ? size() : i);
    if (i == std::string::npos) {
      b_ = e_;
    } else {
      b_ += i + 1;
    }
    return r;
  }
  std::string str() const { return std::string((const char*)b_, size()); }
  std::string toString() const { return str(); }
  template <class T, std::enable_if_t<std::is_same<T, std::string>::value, int> = 0>
  explicit operator T() const { return str(); }
  friend bool operator==(const Range& a, const Range& b) {
    return a.size() == b.size() && std::memcmp(a.b_, b.b_, a.size()) == 0;
  }
  friend bool operator!=(const Range& a, const Range& b) { return !(a == b); }

 private:
  Iter b_, e_;
};
using StringPiece = Range<const char*>;
using ByteRange = Range<const unsigned char*>;
inline std::ostream& operator<<(std::ostream& os, const StringPiece& p) {
  return os.write(p.data(), p.size());
}
}  // namespace folly
