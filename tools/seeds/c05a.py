ID="C05-direct-tail"; PROPERTY="C05"
NEEDS="direct (aligned) reads of a block that starts off the disk-block boundary and spans more than one buffer"
BREAKS="after the first buffer the aligned reader computes the padding from the block offset only, so later reads ask for unaligned positions, which O_DIRECT rejects"
EDITS=[("util/FileByteSource.cpp","offsetRemainder = (offset_ + bytesRead_) % kDiskBlockSize;","offsetRemainder = offset_ % kDiskBlockSize;")]
SRCS="util/FileByteSource.cpp util/CommonImpl.cpp Reporting.cpp ErrorCodes.cpp WdtOptions.cpp WdtTransferRequest.cpp Protocol.cpp util/SerializationUtil.cpp util/EncryptionUtils.cpp".split()
DEMO=r'''
#include <wdt/util/FileByteSource.h>
#include <wdt/util/CommonImpl.h>
#include <wdt/WdtOptions.h>
#include <fcntl.h>
#include <unistd.h>
using namespace facebook::wdt;
#include <sys/syscall.h>
static bool unaligned;
extern "C" ssize_t pread(int fd,void*b,size_t n,off_t off){ if(off%512||n%512) unaligned=true; return syscall(SYS_pread64,fd,b,n,off); }
extern "C" ssize_t pread64(int fd,void*b,size_t n,off_t off){ return pread(fd,b,n,off); }
int main(){
  std::string data; for(int i=0;i<70000;i++) data.push_back((char)(i*7+i/251));
  int fd=open("f",O_CREAT|O_RDWR|O_TRUNC,0644); if(write(fd,data.data(),data.size())!=(ssize_t)data.size()) return 9;
  WdtOptions o; o.buffer_size=8192; ThreadCtx ctx(o,true);
  for(int64_t off: {0,1,1234,5000}) {
    SourceMetaData md; md.fullPath="f"; md.relPath="f"; md.size=data.size(); md.fd=fd; md.directReads=true;
    int64_t len=50000;
    FileByteSource s(&md,len,off); if(s.open(&ctx)!=OK) return 9;
    std::string got; while(!s.finished()){ int64_t n; char* p=s.read(n); if(!p){ printf("read failed\n"); return 1;} got.append(p,n); if(got.size()>60000) break; }
    if(got!=data.substr(off,len)){ printf("offset %ld: wrong bytes\n",(long)off); return 1; }
  }
  if(unaligned){ printf("unaligned direct read\n"); return 1; }
  return 0;
}
'''
