#pragma once
#include <folly/Conv.h>
#include <folly/Range.h>
#include <string>
#include <vector>
namespace folly {
inline std::string humanify(const std::string& s) { return s; }
template <class Delim, class Out>
void split(const Delim& d, StringPiece input, std::vector<Out>& out, bool ignoreEmpty = false) {
  std::string delim = to<std::string>(d);
  std::string in = input.str();
  size_t pos = 0;
  while (true) {
    size_t i = in.find(delim, pos);
    std::string tok = in.substr(pos, i == std::string::npos ? std::string::npos : i - pos);
    if (!(ignoreEmpty && tok.empty())) out.push_back(Out(tok));
    if (i == std::string::npos) break;
    pos = i + delim.size();
  }
}
}  // namespace folly
