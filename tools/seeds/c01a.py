ID="C01-string-wrap"; PROPERTY="C01"
NEEDS="a string length prefix near 2^63, sent by a hostile peer, so that a signed comparison treats it as small"
BREAKS="decodeString accepts a length larger than the message and reads past its end"
EDITS=[("util/SerializationUtil.cpp","  if (strLen > br.size()) {","  const int64_t left = br.size();\n  if (static_cast<int64_t>(strLen) > left) {")]
SRCS=["util/SerializationUtil.cpp"]
DEMO=r'''
#include <wdt/util/SerializationUtil.h>
using namespace facebook::wdt;
int main(){
  // length 2^64-1 followed by three bytes
  char b[12]; int64_t off=0; if(!encodeVarU64(b,sizeof b,off,~0ull)) return 9;
  b[off]='a';b[off+1]='b';b[off+2]='c';
  folly::ByteRange br((uint8_t*)b,(size_t)(off+3)); std::string s;
  try { if(decodeString(br,s)) { printf("accepted a length beyond the message\n"); return 1; } }
  catch(...) { printf("crashed on hostile length\n"); return 1; }
  return 0;
}
'''
