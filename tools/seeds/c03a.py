ID="C03-abort-length"; PROPERTY="C03"
NEEDS="an abort command cut off inside its fixed-length fields after the version"
BREAKS="decodeAbort reads the error byte and the checkpoint behind the end of the message"
EDITS=[("Protocol.cpp",'''  if (off + kAbortLength > max) {
    WLOG(ERROR) << "Trying to decode abort''','''  if (off + (int64_t)sizeof(int32_t) > max) {
    WLOG(ERROR) << "Trying to decode abort''')]
SRCS=["Protocol.cpp","util/SerializationUtil.cpp","ErrorCodes.cpp"]
SAN="-fsanitize=address"
DEMO=r'''
#include <wdt/Protocol.h>
using namespace facebook::wdt;
int main(){
  for (int n = 0; n < 13; n++) {
    char* b=(char*)calloc(1,n+1); b=(char*)realloc(b,n?n:1);
    int64_t off=0; int32_t v; ErrorCode e; int64_t c;
    if(n==0) { free(b); continue; }
    if(Protocol::decodeAbort(b,off,n,v,e,c)) { printf("truncated abort accepted\n"); return 1; }
    if(off>n) { printf("offset beyond message\n"); return 1; }
    free(b);
  }
  return 0;
}
'''
