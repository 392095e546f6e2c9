ID="C04-eintr-partial"; PROPERTY="C04"
NEEDS="a write interrupted by a signal (EINTR) after an earlier short write of the same buffer"
BREAKS="after an interrupted write the writer starts the buffer over, so bytes are written twice and the tail lands at wrong positions"
EDITS=[("util/FileWriter.cpp",'''                   << blockDetails_->fileName;
          continue;''','''                   << blockDetails_->fileName;
          count = 0;
          continue;''')]
SRCS="util/FileWriter.cpp util/FileByteSource.cpp util/CommonImpl.cpp Reporting.cpp ErrorCodes.cpp WdtOptions.cpp WdtTransferRequest.cpp Protocol.cpp util/SerializationUtil.cpp util/EncryptionUtils.cpp".split()
DEMO=r'''
#include <wdt/util/FileWriter.h>
#include <wdt/util/FileCreator.h>
#include <wdt/util/CommonImpl.h>
#include <wdt/WdtOptions.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
using namespace facebook::wdt;
int FileCreator::openForBlocks(ThreadCtx&, const BlockDetails*) { return -1; }
static int g_fd=-1, g_n;
extern "C" ssize_t write(int fd,const void*b,size_t n){
  if(fd==g_fd){ int k=g_n++; if(k==0) n=n>3?3:n; if(k==1){errno=EINTR;return -1;} }
  return syscall(SYS_write,fd,b,n);
}
int main(){
  WdtOptions o; ThreadCtx ctx(o,false); BlockDetails b; b.fileName="f"; b.offset=0; b.dataSize=10; b.fileSize=10;
  FileWriter* w=new FileWriter(ctx,&b,nullptr);
  int fd=open("f",O_CREAT|O_RDWR|O_TRUNC,0644); w->fd_=fd; g_fd=fd;
  char d[]="0123456789"; ErrorCode e=w->write(d,10); g_fd=-1;
  char r[40]; ssize_t n=pread(fd,r,40,0); r[n]=0;
  printf("%d %s\n",(int)e,r);
  bool good = e!=OK || (n==10 && !memcmp(r,d,10));
  return good?0:1;
}
'''
