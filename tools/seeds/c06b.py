ID="C06-lost-remote"; PROPERTY="C06"
NEEDS="statistics of two threads where the first one has the remote error and the later one does not"
BREAKS="adding statistics overwrites an earlier remote error with a later success when the local side already failed"
EDITS=[("Reporting.cpp","      getMoreInterestingError(remoteErrCode_, stats.remoteErrCode_);","      (localErrCode_ != OK && stats.localErrCode_ != OK)\n          ? stats.remoteErrCode_\n          : getMoreInterestingError(remoteErrCode_, stats.remoteErrCode_);")]
SRCS="util/CommonImpl.cpp Reporting.cpp ErrorCodes.cpp WdtOptions.cpp WdtTransferRequest.cpp Protocol.cpp util/SerializationUtil.cpp util/EncryptionUtils.cpp".split()
DEMO=r'''
#include <wdt/Reporting.h>
using namespace facebook::wdt;
int main(){
  for(int l1=0;l1<3;l1++) for(int l2=0;l2<3;l2++) for(int r1=0;r1<3;r1++) for(int r2=0;r2<3;r2++) {
    TransferStats a,b; a.localErrCode_=(ErrorCode)l1; b.localErrCode_=(ErrorCode)l2; a.remoteErrCode_=(ErrorCode)r1; b.remoteErrCode_=(ErrorCode)r2;
    a+=b;
    if((a.remoteErrCode_==OK)!=(r1==OK&&r2==OK)) { printf("remote error lost\n"); return 1; }
  }
  return 0;
}
'''
