ID="C06-zero-totals"; PROPERTY="C06"
NEEDS="a transfer that announces zero blocks while one block arrived (or none announced and none received)"
BREAKS="a receiver treats an announced count of zero blocks as unknown, and an unknown count as success when nothing arrived"
EDITS=[("Reporting.cpp","  if (numBlocksSend == -1 || numBlocksSend != numBlocksReceived) {","  if (numBlocksSend != std::max<int64_t>(numBlocksReceived, -1) &&\n      !(numBlocksSend <= 0 && numBlocksReceived == 0)) {")]
SRCS="util/CommonImpl.cpp Reporting.cpp ErrorCodes.cpp WdtOptions.cpp WdtTransferRequest.cpp Protocol.cpp util/SerializationUtil.cpp util/EncryptionUtils.cpp".split()
DEMO=r'''
#include <wdt/Reporting.h>
using namespace facebook::wdt;
int main(){
  for(int sent=-1;sent<4;sent++) for(int got=0;got<4;got++) {
    TransferStats s; s.setNumBlocksSend(sent); s.numBlocks_=got; s.localErrCode_=CONN_ERROR;
    TransferReport r(std::move(s));
    bool ok=r.getSummary().getErrorCode()==OK;
    if(ok!=(sent==got)) { printf("announced %d received %d: verdict %d\n",sent,got,ok); return 1; }
  }
  return 0;
}
'''
