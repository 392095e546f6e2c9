From 8f4ca824856c45007d5ee8d5d7c9ec30d4fe7c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 01/29] fix: FileByteSource::read must not deliver zero or
 negative sizes on a short aligned read

With direct (aligned) reads a file that shrank could return fewer bytes than
the alignment remainder: size became <= 0 and bytesRead_ moved backwards.
Treat it as the unexpected EOF it is.
---
 util/FileByteSource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/FileByteSource.cpp b/util/FileByteSource.cpp
index a67a719..a498ac5 100644
--- a/util/FileByteSource.cpp
+++ b/util/FileByteSource.cpp
@@ -135,7 +135,8 @@ char* FileByteSource::read(int64_t& size) {
     transferStats_.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
     return nullptr;
   }
-  if (numRead == 0) {
+  if (numRead <= offsetRemainder) {
+    // nothing was read at or after the requested position
     WLOG(ERROR) << "Unexpected EOF on " << metadata_->fullPath << " need align "
                 << alignedReadNeeded_ << " physicalRead " << physicalRead
                 << " offset " << offset_ << " seepPos " << seekPos
-- 
2.43.0


From 7b5edecae73e451d8ac8ef8fd101951436ebd127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 02/29] fix: return unacked sources even if the last checkpoint
 had no seq-id

returnUnackedSourcesToQueue() validated its own checkpoint against the last
one of the receiver. If that one had received bytes but no block id (receivers
before CHECKPOINT_SEQ_ID_VERSION), the validation failed, the sources were not
returned and popAckedSourceStats() aborted the process.
---
 util/ThreadTransferHistory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 3a47ee9..5f658a2 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -130,6 +130,9 @@ void ThreadTransferHistory::returnUnackedSourcesToQueue() {
   std::unique_lock<std::mutex> lock(mutex_);
   Checkpoint checkpoint;
   checkpoint.numBlocks = numAcknowledged_;
+  // this checkpoint does not come from the receiver, so there is no earlier one
+  // to validate it against
+  lastCheckpoint_.reset();
   setCheckpointAndReturnToQueue(checkpoint, false);
 }
 
-- 
2.43.0


From b819cfa8ba80d4212750881edbf23517cf03c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 03/29] fix: a damaged log entry with a huge offset must not
 pass the block range check

---
 util/TransferLogManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index b090251..f4be508 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -953,8 +953,9 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
     return INVALID_LOG;
   }
   FileChunksInfo& chunksInfo = it->second;
-  // check whether the block is within disk size
-  if (offset + blockSize > chunksInfo.getFileSize()) {
+  // check whether the block is within disk size (the sum may not fit in 64 bits)
+  const int64_t diskSize = chunksInfo.getFileSize();
+  if (blockSize > diskSize || offset > diskSize - blockSize) {
     WLOG(ERROR) << "Block end point is greater than file size in disk "
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
-- 
2.43.0


From c42e86ce8308460d8d8eade53b6ab16ac08bdf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 04/29] fix: forget the logged size of an invalidated file, its
 sequence-id can be reused

---
 util/TransferLogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index f4be508..6685560 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -994,6 +994,7 @@ ErrorCode LogParser::processFileInvalidationEntry(char* buf, int64_t size) {
     return INVALID_LOG;
   }
   fileInfoMap_.erase(seqId);
+  seqIdToSizeMap_.erase(seqId);
   invalidSeqIds_.erase(seqId);
   return OK;
 }
-- 
2.43.0


From 9e4ddc5565160e30b54c2952ea2acadfd91242a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 05/29] fix: ignore resize entries of invalid files like their
 block entries

---
 util/TransferLogManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 6685560..88f5574 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -891,6 +891,11 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
                 << seqId << " " << fileSize;
     return INVALID_LOG;
   }
+  if (invalidSeqIds_.find(seqId) != invalidSeqIds_.end()) {
+    WLOG(INFO) << "Resize entry for an invalid sequence-id " << seqId
+               << ", ignoring";
+    return OK;
+  }
   auto it = fileInfoMap_.find(seqId);
   if (it == fileInfoMap_.end()) {
     WLOG(ERROR) << "File resize entry for unknown sequence-id " << seqId << " "
-- 
2.43.0


From b30153ebb4d9d484f399b86de822543eb900cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 06/29] fix: do not fsync the log after closing it in
 invalidateDirectory

---
 util/TransferLogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 88f5574..1acdf55 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -464,6 +464,7 @@ void TransferLogManager::invalidateDirectory() {
         << "Disk write error while writing directory invalidation entry "
         << written << " " << size;
     closeLog();
+    return;
   }
   fsyncLog();
   return;
-- 
2.43.0


From ebb4eb20a30ba2449543f3afba1ba5a5b72e7663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 07/29] fix: writeLogHeader must not treat a failure to encode
 as success

---
 util/TransferLogManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 1acdf55..46e6104 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -480,6 +480,12 @@ void TransferLogManager::writeLogHeader() {
   char buf[kMaxEntryLength];
   int64_t size = encoderDecoder_.encodeLogHeader(
       buf, kMaxEntryLength, recoveryId_, senderIp_, config_);
+  if (size < 0) {
+    WLOG(ERROR) << "Log header does not fit in an entry, recovery-id length "
+                << recoveryId_.size();
+    closeLog();
+    return;
+  }
   int64_t written = ::write(fd_, buf, size);
   if (written != size) {
     WPLOG(ERROR) << "Disk write error while writing log header " << written
-- 
2.43.0


From 02d6211ab53e412e55d8d5f2c5aeee671f6d4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 08/29] fix: keep room for the next command in the receiver's
 buffer

A series of small commands, or a footer, moves the read offset to the end
of the buffer, where the check that at least kMinBufLength bytes fit kills
the process.
---
 ReceiverThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index dd9e2f7..eee50e0 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -256,6 +256,11 @@ ReceiverState ReceiverThread::sendLocalCheckpoint() {
 /***READ_NEXT_CMD***/
 ReceiverState ReceiverThread::readNextCmd() {
   WTVLOG(1) << "entered READ_NEXT_CMD state";
+  if (bufSize_ - off_ < Protocol::kMaxHeader) {
+    // not enough space left for the largest cmd, move the unread bytes
+    memmove(buf_, buf_ + off_, numRead_);
+    off_ = 0;
+  }
   oldOffset_ = off_;
   // TODO: we shouldn't have off_ here and buffer/size inside buffer.
   numRead_ = readAtLeast(*socket_, buf_ + off_, bufSize_ - off_,
-- 
2.43.0


From f988d29cae26ed4dd1f069275f992ca02d19d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 09/29] fix: read the rest of a file header right behind its
 first part

readAtLeast already skips the bytes received so far, so they were skipped
twice and the header was decoded from stale bytes in the gap. A header
length larger than the space left killed the process.
---
 ReceiverThread.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index eee50e0..bb0278d 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -423,8 +423,8 @@ ReceiverState ReceiverThread::processFileCmd() {
   }
   int16_t headerLen = folly::loadUnaligned<int16_t>(buf_ + off_);
   headerLen = folly::Endian::little(headerLen);
-  if (headerLen <= 0) {
-    WTLOG(ERROR) << "Header length must be positive " << headerLen;
+  if (headerLen <= 0 || headerLen > Protocol::kMaxHeader) {
+    WTLOG(ERROR) << "Invalid header length " << headerLen;
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
@@ -434,9 +434,9 @@ ReceiverState ReceiverThread::processFileCmd() {
   sendHeartBeat();
 
   if (headerLen > numRead_) {
-    int64_t end = oldOffset_ + numRead_;
-    numRead_ =
-        readAtLeast(*socket_, buf_ + end, bufSize_ - end, headerLen, numRead_);
+    // readAtLeast continues after the numRead_ bytes already in the buffer
+    numRead_ = readAtLeast(*socket_, buf_ + oldOffset_, bufSize_ - oldOffset_,
+                           headerLen, numRead_);
   }
   if (numRead_ < headerLen) {
     WTLOG(ERROR) << "Unable to read full header " << headerLen << " "
-- 
2.43.0


From 7e9d95b1ec9eafaf0b6674010b7fb77b0cbe90a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 10/29] fix: refuse commands before the settings of a
 connection

A sender always sends its settings first. Without them the transfer id is
not checked, so blocks of another transfer were accepted, and a done
command killed the process as the sender's timeouts are not known.
---
 ReceiverThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index bb0278d..954f681 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -272,6 +272,11 @@ ReceiverState ReceiverThread::readNextCmd() {
     return ACCEPT_WITH_TIMEOUT;
   }
   Protocol::CMD_MAGIC cmd = (Protocol::CMD_MAGIC)buf_[off_++];
+  if (cmd != Protocol::SETTINGS_CMD && !curConnectionVerified_) {
+    WTLOG(ERROR) << "received cmd " << cmd << " before the settings";
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (cmd == Protocol::DONE_CMD) {
     return PROCESS_DONE_CMD;
   }
-- 
2.43.0


From bcbf4ad931edcd4097df5b2d37e6fc46fa204835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 11/29] fix: refuse settings without a read timeout

The receiver kills itself later on if the sender's read timeout is not
positive.
---
 ReceiverThread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 954f681..59d24fc 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -342,6 +342,12 @@ ReceiverState ReceiverThread::processSettingsCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  if (settings.readTimeoutMillis <= 0) {
+    WTLOG(ERROR) << "Invalid sender read timeout "
+                 << settings.readTimeoutMillis;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   auto senderId = settings.transferId;
   auto transferId = wdtParent_->getTransferId();
   if (transferId != senderId) {
-- 
2.43.0


From 503c256e6b870970db34b2266851669e3f12c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 12/29] fix: forget blocks waiting for verification when a new
 session starts

Blocks left over from a failed session of a long running receiver were
counted as received in the next one.
---
 ReceiverThread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 59d24fc..46ab9dc 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -1071,6 +1071,7 @@ void ReceiverThread::reset() {
   senderReadTimeout_ = senderWriteTimeout_ = -1;
   curConnectionVerified_ = false;
   threadStats_.reset();
+  blocksWaitingVerification_.clear();
   checkpoints_.clear();
   newCheckpoints_.clear();
   checkpoint_ = Checkpoint(socket_->getPort());
-- 
2.43.0


From ad003667856a207a14bf75d22b079ccc571603db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:39 +0000
Subject: [PATCH 13/29] fix: decode settings only from the bytes received

---
 ReceiverThread.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 46ab9dc..a15c95b 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -334,9 +334,12 @@ ReceiverState ReceiverThread::processSettingsCmd() {
     socket_->disableIvChange();
   }
 
-  success = Protocol::decodeSettings(
-      threadProtocolVersion_, buf_, off_,
-      oldOffset_ + Protocol::kMaxVersion + Protocol::kMaxSettings, settings);
+  // only the bytes received so far, the rest of the buffer is stale
+  const int64_t settingsEnd =
+      oldOffset_ + std::min<int64_t>(
+                       numRead_, Protocol::kMaxVersion + Protocol::kMaxSettings);
+  success = Protocol::decodeSettings(threadProtocolVersion_, buf_, off_,
+                                     settingsEnd, settings);
   if (!success) {
     WTLOG(ERROR) << "Unable to decode settings cmd ";
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
-- 
2.43.0


From 3b3413260c79814511791ad6673f21b9eb70551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 14/29] fix: refuse file chunk messages larger than their
 buffer

---
 SenderThread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index add7038..d945979 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -591,6 +591,12 @@ SenderState SenderThread::readFileChunks() {
     }
     toRead = folly::loadUnaligned<int32_t>(buf_);
     toRead = folly::Endian::little(toRead);
+    if (toRead <= 0 || toRead > bufSize) {
+      WTLOG(ERROR) << "Invalid size of file chunks list " << toRead << " "
+                   << bufSize;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
     numRead = socket_->read(chunkBuffer.get(), toRead);
     if (numRead != toRead) {
       WTLOG(ERROR) << "Socket read error " << toRead << " " << numRead;
-- 
2.43.0


From 3cccd4304cdb9d01b218615409347f09e6d13b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 15/29] fix: do not announce file chunks which can not be
 encoded

---
 Protocol.cpp       |  9 ++++-----
 Protocol.h         |  2 +-
 ReceiverThread.cpp | 16 +++++++++++++++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/Protocol.cpp b/Protocol.cpp
index f6e36db..dce11be 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -415,12 +415,12 @@ int64_t Protocol::encodeFileChunksInfoList(
     char* dest, int64_t& off, int64_t bufSize, int64_t startIndex,
     const std::vector<FileChunksInfo>& fileChunksInfoList) {
   int64_t oldOffset = off;
-  int64_t numEncoded = 0;
   const int64_t numFileChunks = fileChunksInfoList.size();
-  for (int64_t i = startIndex; i < numFileChunks; i++) {
+  int64_t i;
+  for (i = startIndex; i < numFileChunks; i++) {
     const FileChunksInfo& fileChunksInfo = fileChunksInfoList[i];
     int64_t maxLength = maxEncodeLen(fileChunksInfo);
-    if (maxLength + oldOffset > bufSize) {
+    if (maxLength + oldOffset >= bufSize) {
       WLOG(WARNING) << "Chunk info for " << fileChunksInfo.getFileName()
                     << " can not be encoded in a buffer of size " << bufSize
                     << ", Ignoring.";
@@ -430,9 +430,8 @@ int64_t Protocol::encodeFileChunksInfoList(
       break;
     }
     encodeFileChunksInfo(dest, off, bufSize, fileChunksInfo);
-    numEncoded++;
   }
-  return numEncoded;
+  return i - startIndex;
 }
 
 bool Protocol::decodeFileChunksInfoList(
diff --git a/Protocol.h b/Protocol.h
index 18b4f7f..eda117a 100644
--- a/Protocol.h
+++ b/Protocol.h
@@ -505,7 +505,7 @@ class Protocol {
 
   /// encodes fileChunksInfo into dest+off
   /// moves the off into dest pointer
-  /// returns number of fileChunks encoded
+  /// returns number of fileChunks encoded or ignored, because they can not fit
   static int64_t encodeFileChunksInfoList(
       char* dest, int64_t& off, int64_t bufSize, int64_t startIndex,
       const std::vector<FileChunksInfo>& fileChunksInfoList);
diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index a15c95b..1855e08 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -791,9 +791,18 @@ ReceiverState ReceiverThread::sendFileChunks() {
         buf_[off++] = Protocol::CHUNKS_CMD;
         const auto& fileChunksInfo = wdtParent_->getFileChunksInfo();
         const int64_t numParsedChunksInfo = fileChunksInfo.size();
+        // the sender waits for exactly the announced number of entries, do not
+        // count the ones which can not be encoded
+        int64_t numEntriesToSend = 0;
+        for (const auto& info : fileChunksInfo) {
+          const int64_t maxLen = sizeof(int32_t) + Protocol::maxEncodeLen(info);
+          if (maxLen < bufSize_) {
+            numEntriesToSend++;
+          }
+        }
         Protocol::encodeChunksCmd(buf_, off, /* size of buf_ */ bufSize_,
                                   /* param to send */ bufSize_,
-                                  numParsedChunksInfo);
+                                  numEntriesToSend);
         int written = socket_->write(buf_, off);
         if (written > 0) {
           threadStats_.addHeaderBytes(written);
@@ -813,6 +822,11 @@ ReceiverState ReceiverThread::sendFileChunks() {
           off = sizeof(int32_t);
           int64_t numEntriesEncoded = Protocol::encodeFileChunksInfoList(
               buf_, off, bufSize_, numEntriesWritten, fileChunksInfo);
+          if (off == sizeof(int32_t)) {
+            // rest of the entries were ignored
+            numEntriesWritten += numEntriesEncoded;
+            continue;
+          }
           int32_t dataSize = folly::Endian::little(off - sizeof(int32_t));
           folly::storeUnaligned<int32_t>(buf_, dataSize);
           written = socket_->write(buf_, off);
-- 
2.43.0


From 7e5235eac7eaf62ba32b52b5f2104f8d5b2a8f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 16/29] fix: refuse checkpoints without a positive length

---
 SenderThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index d945979..19e6b99 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -808,6 +808,11 @@ SenderState SenderThread::processErrCmd() {
 
   int16_t checkpointsLen = folly::loadUnaligned<int16_t>(buf_);
   checkpointsLen = folly::Endian::little(checkpointsLen);
+  if (checkpointsLen <= 0) {
+    WTLOG(ERROR) << "Invalid length of checkpoints " << checkpointsLen;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return END;
+  }
   char checkpointBuf[checkpointsLen];
   numRead = socket_->read(checkpointBuf, checkpointsLen);
   if (numRead != checkpointsLen) {
-- 
2.43.0


From b9de414d061d972ea7d0e715c4534407435c371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 17/29] fix: send the settings completely when asking for file
 chunks

---
 SenderThread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 19e6b99..b360fd4 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -233,7 +233,11 @@ SenderState SenderThread::sendSettings() {
   settings.enableHeartBeat = enableHeartBeat_;
   Protocol::encodeSettings(threadProtocolVersion_, buf_, off,
                            Protocol::kMaxSettings, settings);
-  int64_t toWrite = sendFileChunks ? Protocol::kMinBufLength : off;
+  int64_t toWrite = off;
+  if (sendFileChunks) {
+    // nothing follows the settings, so fill up to what the receiver waits for
+    toWrite = std::max<int64_t>(off, Protocol::kMinBufLength);
+  }
   int64_t written = socket_->write(buf_, toWrite);
   if (written != toWrite) {
     WTLOG(ERROR) << "Socket write failure " << written << " " << toWrite;
-- 
2.43.0


From d24cc232178ae2732968a8b8257720003594f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 18/29] fix: do not negotiate protocol version 0

An abort with a version mismatch and version 0 passed as negotiated and failed
the check that a version was negotiated, which ends the process.
---
 SenderThread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index b360fd4..654476a 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -867,7 +867,8 @@ SenderState SenderThread::processAbortCmd() {
                  << " checkpoint " << checkpoint;
   wdtParent_->abort(remoteError);
   if (remoteError == VERSION_MISMATCH) {
-    if (Protocol::negotiateProtocol(
+    if (negotiatedProtocol > 0 &&
+        Protocol::negotiateProtocol(
             negotiatedProtocol, threadProtocolVersion_) == negotiatedProtocol) {
       // sender can support this negotiated version
       negotiatedProtocol_ = negotiatedProtocol;
-- 
2.43.0


From 0970c9db38b02fc1f39b5e3a259c463749f5bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 19/29] fix: refuse chunk buffers larger than any chunk message

The size of a message of chunks is an int32, but the buffer for it was
allocated in whatever size the receiver announced.
---
 SenderThread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 654476a..93ee80d 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -561,7 +561,8 @@ SenderState SenderThread::readFileChunks() {
   Protocol::decodeChunksCmd(buf_, off, bufSize_, bufSize, numFiles);
   WTLOG(INFO) << "File chunk list has " << numFiles
               << " entries and is broken in buffers of length " << bufSize;
-  if (bufSize < 0 || numFiles < 0) {
+  if (bufSize < 0 || bufSize > std::numeric_limits<int32_t>::max() ||
+      numFiles < 0) {
     WLOG(ERROR) << "Decoded bogus size for file chunks list bufSize = "
                 << bufSize << " num files " << numFiles;
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
-- 
2.43.0


From 95216f8769b28d13e187f96622e91eb41d20b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 20/29] fix: set the footer type in every thread after a
 version mismatch

Only the thread which negotiated the version did, the others kept sending
footers which the negotiated version may not have.
---
 SenderThread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 93ee80d..1747e9e 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -950,6 +950,7 @@ SenderState SenderThread::processVersionMismatch() {
         }
         if (negotiationStatus == V_MISMATCH_RESOLVED) {
           threadProtocolVersion_ = wdtParent_->getProtocolVersion();
+          setFooterType();
           threadStats_.setRemoteErrorCode(OK);
           return CONNECT;
         }
-- 
2.43.0


From 1de908e2a5d904ed891ee1a3e053b40935105e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 21/29] fix: do not use a missing socket when giving up

With max_transfer_retries 0 there is no socket yet.
---
 SenderThread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 1747e9e..694f557 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -120,7 +120,7 @@ SenderState SenderThread::connect() {
   if (numReconnectWithoutProgress_ >= options_.max_transfer_retries) {
     WTLOG(ERROR) << "Sender thread reconnected " << numReconnectWithoutProgress_
                  << " times without making any progress, giving up. port: "
-                 << socket_->getPort();
+                 << port_;
     threadStats_.setLocalErrorCode(NO_PROGRESS);
     return END;
   }
-- 
2.43.0


From 02309795f85e60674dc5eaf2a8ba0f2129f765df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 22/29] fix: read the encryption tag at a position only once
 when the data behind it times out

---
 util/WdtSocket.cpp | 6 +++++-
 util/WdtSocket.h   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 2d1278b..10cffd5 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -258,7 +258,7 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
   const int nextTagOffset = computeNextTagOffset(totalRead_, readTagInterval_);
 
   int numRead = 0;
-  if (nextTagOffset < nbyte) {
+  if (nextTagOffset < nbyte && !tagReadAtCurrentPos_) {
     // tag is contained in this read
     if (nextTagOffset > 0) {
       // try to read till the tag
@@ -295,6 +295,8 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
       readErrorCode_ = ENCRYPTION_ERROR;
       return -1;
     }
+    // if reading the rest times out, next read must not expect this tag again
+    tagReadAtCurrentPos_ = true;
   }
   // now try to read rest of the data
   const int ret =
@@ -304,6 +306,7 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
     return (numRead > 0 ? numRead : ret);
   }
   totalRead_ += ret;
+  tagReadAtCurrentPos_ = false;
   return numRead + ret;
 }
 
@@ -676,6 +679,7 @@ ErrorCode WdtSocket::closeConnectionInternal(bool doTagIOs) {
   writesFinalized_ = false;
   readsFinalized_ = false;
   totalRead_ = 0;
+  tagReadAtCurrentPos_ = false;
   totalWritten_ = 0;
   resetEncryptor();
   resetDecryptor();
diff --git a/util/WdtSocket.h b/util/WdtSocket.h
index f06f48b..5d63c91 100644
--- a/util/WdtSocket.h
+++ b/util/WdtSocket.h
@@ -244,6 +244,9 @@ class WdtSocket {
   int32_t writeTagInterval_{0};
 
   int64_t totalRead_{0};
+  /// has the tag at the current read position already been read and verified?
+  /// (the data after it may have timed out, which is retryable)
+  bool tagReadAtCurrentPos_{false};
   int64_t totalWritten_{0};
 
   /// If this is true, then if we get a cmd other than encryption cmd from the
-- 
2.43.0


From 4fd52e5c4e4f3b0cd6bba3c2ed9d5e987070bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:07 +0000
Subject: [PATCH 23/29] fix: an unencrypted peer turns encryption off for its
 own connection only

---
 util/WdtSocket.cpp | 8 +++++++-
 util/WdtSocket.h   | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 10cffd5..86bd10a 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -331,7 +331,8 @@ int WdtSocket::readWithTimeout(char* buf, int nbyte, int timeoutMs,
     readErrorCode_ = OK;
     buf[0] = buf_[0];
     numRead = 1;
-    // also turn off encryption
+    // also turn off encryption, for this connection
+    turnedOffEncryptionParams_ = encryptionParams_;
     encryptionParams_.erase();
   } else if (readErrorCode_ != OK) {
     return -1;
@@ -693,6 +694,11 @@ int WdtSocket::getFd() const {
 
 void WdtSocket::setFd(int fd) {
   fd_ = fd;
+  if (fd_ >= 0 && turnedOffEncryptionParams_.isSet()) {
+    // new connection, this peer may support encryption
+    encryptionParams_ = turnedOffEncryptionParams_;
+    turnedOffEncryptionParams_.erase();
+  }
 }
 
 int WdtSocket::getPort() const {
diff --git a/util/WdtSocket.h b/util/WdtSocket.h
index 5d63c91..0bd27e6 100644
--- a/util/WdtSocket.h
+++ b/util/WdtSocket.h
@@ -229,6 +229,9 @@ class WdtSocket {
   ThreadCtx& threadCtx_;
 
   EncryptionParams encryptionParams_;
+  /// set only while encryption is turned off for an unencrypted peer: what to
+  /// use again for the next connection
+  EncryptionParams turnedOffEncryptionParams_;
   int64_t ivChangeInterval_{0};
 
   Func tagVerificationSuccessCallback_{nullptr};
-- 
2.43.0


From e18cd0a40f1866a8bb18ffff65a125fc68849784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 24/29] fix: refuse file names that do not name a file below
 the destination

---
 ReceiverThread.cpp   |  5 +++++
 util/FileCreator.cpp | 12 ++++++++++++
 util/FileCreator.h   |  4 ++++
 3 files changed, 21 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 1855e08..c31c86e 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -479,6 +479,11 @@ ReceiverState ReceiverThread::processFileCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  if (!FileCreator::isValidRelPath(blockDetails.fileName)) {
+    WTLOG(ERROR) << "Invalid file name " << blockDetails.fileName;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (blockDetails.allocationStatus == TO_BE_DELETED &&
       (blockDetails.fileSize != 0 || blockDetails.dataSize != 0)) {
     WTLOG(ERROR) << "Invalid file header, file to be deleted, but "
diff --git a/util/FileCreator.cpp b/util/FileCreator.cpp
index 36262e3..69e9077 100644
--- a/util/FileCreator.cpp
+++ b/util/FileCreator.cpp
@@ -338,6 +338,18 @@ std::string FileCreator::getFullPath(const std::string& relPath) {
   return (rootDir_ + relPath);
 }
 
+/* static */
+bool FileCreator::isValidRelPath(const string& relPath) {
+  if (relPath.empty() || relPath.front() == '/' || relPath.back() == '/') {
+    return false;
+  }
+  if (relPath.find('\0') != string::npos) {
+    return false;
+  }
+  const string path = "/" + relPath + "/";
+  return path.find("/../") == string::npos;
+}
+
 /* static */
 void FileCreator::addTrailingSlash(string& path) {
   if (path.back() != '/') {
diff --git a/util/FileCreator.h b/util/FileCreator.h
index 83b59ca..111fdd7 100644
--- a/util/FileCreator.h
+++ b/util/FileCreator.h
@@ -69,6 +69,10 @@ class FileCreator {
    */
   int openForBlocks(ThreadCtx& threadCtx, BlockDetails const* blockDetails);
 
+  /// @return   whether relPath names a file under the root directory: not
+  ///           empty, not absolute, not a directory and without ".." component
+  static bool isValidRelPath(const std::string& relPath);
+
   /// reset internal directory cache
   void resetDirCache() {
     std::lock_guard<std::mutex> lock(mutex_);
-- 
2.43.0


From 1eba621c88b4b3c1d838d2bdae005c10e3d52f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 25/29] fix: refuse a file header with an unknown allocation
 status

---
 Protocol.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Protocol.cpp b/Protocol.cpp
index dce11be..f66a405 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -186,6 +186,10 @@ bool Protocol::decodeHeader(int receiverProtocolVersion, char* src,
     // first 3 bits are used to represent allocation status
     blockDetails.allocationStatus = (FileAllocationStatus)(flags & 7);
     br.pop_front();
+    if (blockDetails.allocationStatus > TO_BE_DELETED) {
+      WLOG(ERROR) << "Invalid allocation status " << (flags & 7);
+      return false;
+    }
     if (blockDetails.allocationStatus == EXISTS_TOO_SMALL ||
         blockDetails.allocationStatus == EXISTS_TOO_LARGE) {
       ok = decodeInt64C(br, blockDetails.prevSeqId);
-- 
2.43.0


From b8439acb869523aa2cf17ebee320fc18cf118fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 26/29] fix: report a directory that could not be read
 completely

The sender reported success although files of the directory were missing.
---
 util/DirectorySourceQueue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 5b889fe..f9874ce 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -298,6 +298,7 @@ bool DirectorySourceQueue::explore() {
         if (errno) {
           WPLOG(ERROR) << "Error reading dir " << fullPath;
           // closedir always called
+          failedDirectories_.emplace_back(fullPath);
           hasError = true;
         } else {
           WVLOG(2) << "Done with " << fullPath;
-- 
2.43.0


From 86339c193aeb58b4e54e796cb1f71f8b0f980004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 27/29] fix: record failed directories under the lock of the
 queue

Sender threads read them while discovery is still running.
---
 util/DirectorySourceQueue.cpp | 10 ++++++++--
 util/DirectorySourceQueue.h   |  5 +++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index f9874ce..17302f6 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -280,7 +280,7 @@ bool DirectorySourceQueue::explore() {
     DIR* dirPtr = opendir(fullPath.c_str());
     if (!dirPtr) {
       WPLOG(ERROR) << "Error opening dir " << fullPath;
-      failedDirectories_.emplace_back(fullPath);
+      addFailedDirectory(fullPath);
       hasError = true;
       continue;
     }
@@ -298,7 +298,7 @@ bool DirectorySourceQueue::explore() {
         if (errno) {
           WPLOG(ERROR) << "Error reading dir " << fullPath;
           // closedir always called
-          failedDirectories_.emplace_back(fullPath);
+          addFailedDirectory(fullPath);
           hasError = true;
         } else {
           WVLOG(2) << "Done with " << fullPath;
@@ -568,6 +568,12 @@ std::vector<string>& DirectorySourceQueue::getFailedDirectories() {
   return failedDirectories_;
 }
 
+void DirectorySourceQueue::addFailedDirectory(const string& fullPath) {
+  // sender threads look at the failed directories during discovery
+  std::lock_guard<std::mutex> lock(mutex_);
+  failedDirectories_.emplace_back(fullPath);
+}
+
 bool DirectorySourceQueue::enqueueFiles(std::vector<WdtFileInfo>& fileInfo) {
   for (auto& info : fileInfo) {
     if (threadCtx_->getAbortChecker()->shouldAbort()) {
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index c2bf35f..d4b8e94 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -259,6 +259,11 @@ class DirectorySourceQueue : public SourceQueue {
    */
   bool explore();
 
+  /**
+   * Record a directory which could not be read (completely)
+   */
+  void addFailedDirectory(const std::string& fullPath);
+
   /**
    * Stat the input files and populate queue
    * @return                true on success, false on error
-- 
2.43.0


From 6d7577f212b957a8a27facf3326d38340b55c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 28/29] fix: do not delete extra files after an incomplete
 discovery

A file that was not discovered because of an error or an abort still exists at
the sender, the receiver must not delete its copy.
---
 util/DirectorySourceQueue.cpp | 7 +++++++
 util/DirectorySourceQueue.h   | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 17302f6..45d8501 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -222,6 +222,7 @@ bool DirectorySourceQueue::buildQueueSynchronously() {
   {
     std::lock_guard<std::mutex> lock(mutex_);
     initFinished_ = true;
+    allDiscovered_ = res;
     enqueueFilesToBeDeleted();
     // TODO: comment why
     if (sourceQueue_.empty()) {
@@ -290,6 +291,7 @@ bool DirectorySourceQueue::explore() {
     struct dirent* dirEntryRes = nullptr;
     while (true) {
       if (threadCtx_->getAbortChecker()->shouldAbort()) {
+        hasError = true;
         break;
       }
       errno = 0;  // yes that's right
@@ -651,6 +653,11 @@ void DirectorySourceQueue::enqueueFilesToBeDeleted() {
     // not yet been received, return
     return;
   }
+  if (!allDiscovered_) {
+    // a file that was not discovered may still exist on this side
+    WLOG(ERROR) << "Not all files were discovered, not deleting extra files";
+    return;
+  }
   std::set<std::string> discoveredFiles;
   for (const SourceMetaData* metadata : sharedFileData_) {
     discoveredFiles.insert(metadata->relPath);
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index d4b8e94..e7df420 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -343,6 +343,9 @@ class DirectorySourceQueue : public SourceQueue {
   /// Indicates whether call to init() has finished
   bool initFinished_{false};
 
+  /// Indicates whether init() has discovered all the files
+  bool allDiscovered_{false};
+
   struct SourceComparator {
     bool operator()(const std::unique_ptr<ByteSource>& source1,
                     const std::unique_ptr<ByteSource>& source2) {
-- 
2.43.0


From 2a778ce83f9add70da996e6ab4b8cfb448e9e18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 29/29] fix: refuse encryption types that overflow while they
 are parsed

400000001:00 was taken for type 1.
---
 util/EncryptionUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index ae50ef9..cbe9e8c 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -146,6 +146,11 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     if (state == IN_TYPE) {
       // Pre : hex digits
       type = (type << 4) | v;
+      if (type >= NUM_ENC_TYPES) {
+        // more digits can not make it valid again (and would overflow)
+        WLOG(ERROR) << "Encryption type out of range " << type;
+        return ERROR;
+      }
       continue;
     }
     if (state != RIGHT_HEX) {
-- 
2.43.0

