ID="C02-prevseq-large"; PROPERTY="C02"
NEEDS="a block of a file whose existing copy at the receiver is larger (EXISTS_TOO_LARGE), protocol version 13 or later"
BREAKS="the header encoder leaves out the previous sequence id for files that exist too large while the decoder expects it"
EDITS=[("Protocol.cpp","      if (flags == EXISTS_TOO_SMALL || flags == EXISTS_TOO_LARGE) {\n        // prev seq-id is","      if (flags == EXISTS_TOO_SMALL) {\n        // prev seq-id is")]
SRCS=["Protocol.cpp","util/SerializationUtil.cpp","ErrorCodes.cpp"]
DEMO=r'''
#include <wdt/Protocol.h>
using namespace facebook::wdt;
int main(){
  for (int st = NOT_EXISTS; st <= TO_BE_DELETED; st++) {
    BlockDetails a, b; a.fileName="some/file"; a.seqId=7; a.dataSize=100; a.offset=3; a.fileSize=500; a.prevSeqId=41; a.allocationStatus=(FileAllocationStatus)st;
    char buf[200]; int64_t off=0, o2=0;
    if(!Protocol::encodeHeader(Protocol::protocol_version,buf,off,sizeof buf,a)) return 2;
    if(!Protocol::decodeHeader(Protocol::protocol_version,buf,o2,off,b) || o2!=off || b.seqId!=7 || b.fileSize!=500) { printf("status %d: not decoded\n",st); return 1; }
    if((st==EXISTS_TOO_SMALL||st==EXISTS_TOO_LARGE) && b.prevSeqId!=41) { printf("status %d: prevSeqId lost\n",st); return 1; }
  }
  return 0;
}
'''
