#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = []


def P(id, title, statement, over, text, why, files, mech, level_note, claimed=True, reason="", level="proof", technique=None):
    D.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, claimed=claimed,
                  reason=reason, level=level, technique=technique))


TECH = "contract-based deductive verification: pre/postconditions on the real code, VCs by symbolic execution of its LLVM IR, discharged by z3/cvc5"
TRUST = ("Every obligation generated from /repo's current source is discharged for all inputs. Trusted: clang 18 front end, the VC generator in engine/, z3/cvc5, "
         "contracts of libstdc++/libc functions used, shim headers standing for folly/glog/gflags. ")

P("C01", "Variable-length integers and strings survive encoding, and never overrun",
  "Writing any 64-bit unsigned integer or any string into a buffer and reading it back from the same position yields the same value and consumes exactly the bytes "
  "that were written; a reader given any shorter prefix of those bytes reports failure. The writer succeeds exactly when the encoding fits, touches no byte outside "
  "the encoding, and on arbitrary input bytes the readers never read outside the given range nor move past its end.",
  ["inputs"], "every value, string, buffer size, start position, truncation point and byte content",
  "SerializationUtil tests sample a few values and buffer sizes; nothing covers every value x position x truncation, nor arbitrary bytes.",
  ["util/SerializationUtil.h", "util/SerializationUtil.cpp"],
  [("encodeVarU64/decodeVarU64 byte loops with bounds checks", "util/SerializationUtil.h"), ("encodeString/decodeString length-prefixed copy", "util/SerializationUtil.cpp")],
  TRUST + "The varint loops are completely unrolled (at most 9 iterations).")
P("C02", "Every protocol command decodes to what was encoded, for every version",
  "For each fixed-layout command (file block header, done, total size, abort, chunks announcement, settings with version, encryption settings, checksum footer) and every "
  "protocol version, decoding the encoded bytes with the same version returns every field that version carries and consumes exactly the encoded length, and decoding any "
  "truncated prefix fails. The layout depends on the version only at the documented versions (settings flags from 12, header allocation status and previous sequence id "
  "from 13, byte totals from 16), and version negotiation yields the smaller version, or zero below 10.",
  ["inputs", "configurations"], "every field value (non-negative where the format requires it), string, buffer size, offset, truncation point and version number",
  "Protocol tests check a handful of field values at the current version; none varies the version, the buffer limit and the field values together.",
  ["Protocol.cpp", "Protocol.h", "util/SerializationUtil.cpp"],
  [("encodeX/decodeX pairs of class Protocol", "Protocol.cpp"), ("version gates", "Protocol.cpp"), ("negotiateProtocol", "Protocol.cpp")],
  TRUST + "The varint functions enter through a contract proved in the same check.")
P("C03", "Decoding hostile bytes never faults and never leaves the message",
  "Given arbitrary bytes, offset and length, decoding any fixed-layout command (header, done, size, abort, chunks announcement, version, settings, encryption settings) never reads "
  "outside the message, never crashes or aborts, leaves the offset inside the message, and reports success only with non-negative lengths, sizes, timeouts and identifiers.",
  ["inputs"], "every byte string, offset, message length and protocol version",
  "No test feeds arbitrary bytes; fuzzing would only sample them.",
  ["Protocol.cpp", "util/SerializationUtil.cpp", "util/SerializationUtil.h"],
  [("bounds checks in the decoders", "Protocol.cpp"), ("ByteRange length tests", "util/SerializationUtil.cpp")],
  TRUST)
P("C04", "A received block lands byte for byte at its offset, or is reported failed",
  "For a block at any offset of a file, the receiver writes every given byte exactly once, in order, at its own file position, however the operating system splits the writes; data is forced to "
  "disk when fsync or log based resumption asks for it, and with writes skipped nothing is written. Success is reported only if every system call succeeded and every byte was written, otherwise "
  "a file write error with no descriptor left open. The running total counts exactly the bytes of successful writes, and each descriptor is closed exactly once.",
  ["inputs", "fault_sequences", "configurations"], "every block offset, length, sequence of short writes and system call failures, and writer option",
  "Needs every partial-write pattern and every failing system call; the tests run on healthy file systems with whole writes.",
  ["util/FileWriter.cpp", "util/FileWriter.h"],
  [("open and seek to the block offset", "util/FileWriter.cpp"), ("write loop", "util/FileWriter.cpp"), ("sync and close", "util/FileWriter.cpp")],
  TRUST + "The write loop is proved for any number of iterations with an inferred invariant; open/lseek/write/fsync/close are specified by environment contracts.")
P("C05", "A file source delivers exactly the bytes of its block, in order",
  "Reading a block source repeatedly delivers the file's bytes from the block's offset, in order, each once, never beyond the block and never an empty or negative piece; the source counts as "
  "finished exactly when the whole block was delivered, and a read error or a too short file makes it erroneous, never finished. Direct reads are aligned to the disk block, and skipping ahead "
  "keeps the end of the block. A shared descriptor is never closed by the source and an own one is closed exactly once.",
  ["inputs", "fault_sequences", "configurations"], "every file position, block length, buffer size, progress, read result (short, zero, failing), and reading mode",
  "Needs every short read and shrinking file combined with every alignment of offset, buffer and block; the tests read whole regular files.",
  ["util/FileByteSource.cpp", "util/FileByteSource.h"],
  [("FileByteSource::read with alignment arithmetic", "util/FileByteSource.cpp"), ("open/close/advanceOffset", "util/FileByteSource.cpp")],
  TRUST + "pread/open/close are specified by environment contracts. fix: 8f4ca82 repairs a defect found by this check.")
P("C06", "Statistics add up and success is reported only for complete transfers",
  "Adding statistics sums every counter and never loses an error; combining errors is commutative, associative and never turns an error into success, and contradicting announced totals are an "
  "error. A receiver reports success exactly when the number of blocks and bytes announced by the sender equals what it received, the sender reported no error and no encryption error occurred. "
  "A sender reports success only if the bytes sent equal the total file size, no source failed, every directory could be read, and any failed connection was made up for by another that "
  "finished.",
  ["inputs", "histories"], "every counter value, error combination and mix of thread outcomes",
  "Tests see a few outcomes; the verdict must be right for every combination of thread errors, failed sources and totals.",
  ["Reporting.h", "Reporting.cpp", "ErrorCodes.cpp"],
  [("TransferStats::operator+=", "Reporting.cpp"), ("TransferReport constructors", "Reporting.cpp"), ("getMoreInterestingError", "ErrorCodes.cpp")],
  TRUST + "The sender verdict is a bounded check: at most 3 thread statistics and 2 failed sources (all counter and error values); everything else is proved without bound. Counters are below 2^50.")

P("C07", "Every sent block is either acknowledged or requeued, exactly once",
  "When a checkpoint arrives, exactly the blocks the receiver counted stay acknowledged and every later block of that connection goes back to the queue exactly once, marked failed; only the "
  "first of them, and only if the checkpoint names it (or comes from a receiver that names no block), restarts after the bytes the receiver kept, all others from their start, and the byte "
  "counters count exactly what the receiver kept. An impossible checkpoint or one that takes back progress is refused and changes nothing; one without new blocks or bytes is reported as no "
  "progress, except for repeated global ones. After a global checkpoint a block in flight is requeued instead of recorded and the call waits for the owner thread, and at the end of the transfer "
  "all blocks are acknowledged or requeued.",
  ["histories", "inputs", "schedules"], "every block size, offset, progress and error state, every checkpoint (valid or not) and every earlier checkpoint",
  "Needs connection failures at every possible point of a transfer; tests break connections at a few random moments.",
  ["util/ThreadTransferHistory.cpp", "util/ThreadTransferHistory.h"],
  [("setCheckpointAndReturnToQueue", "util/ThreadTransferHistory.cpp"), ("validateCheckpoint", "util/ThreadTransferHistory.cpp"), ("markSourceAsFailed", "util/ThreadTransferHistory.cpp"),
   ("addSource after a global checkpoint", "util/ThreadTransferHistory.cpp")],
  TRUST + "Requeueing one block (markSourceAsFailed) and judging a checkpoint (validateCheckpoint) are proved for all values; the functions that walk the history are bounded checks (at most 2-3 blocks, "
  "thorough 4-5; all values otherwise) using those contracts. Assumes a checkpoint does not claim more bytes than the block has.", level="model_checking")

P("C08", "Resuming sends exactly the bytes the receiver lacks",
  "Given the chunks a receiver already has (kept sorted, disjoint and intact by merging and encoding), the sender queues blocks that cover each missing byte of the file exactly once and no "
  "received byte, in order, none larger than the block size; an empty file gets one empty block and a complete file none. A file the receiver has in a larger version is sent again from scratch "
  "under a new id and the old id is named for invalidation; otherwise the id is kept and the receiver is told whether its copy must grow, and different files never share an id. Totals count "
  "exactly the queued blocks and bytes and the bytes saved, and with deletion enabled exactly the files the sender does not have are deleted.",
  ["inputs", "histories"], "every file size, block size, set of received chunks, earlier file size and id, and byte string given to the chunk decoders",
  "Tests resume a few transfers; the chunk arithmetic must be right for every combination of sizes, chunk boundaries and block size.",
  ["Protocol.cpp", "Protocol.h", "util/DirectorySourceQueue.cpp"],
  [("mergeChunks and getRemainingChunks", "Protocol.cpp"), ("createIntoQueueInternal", "util/DirectorySourceQueue.cpp"), ("setPreviouslyReceivedChunks, enqueueFilesToBeDeleted", "util/DirectorySourceQueue.cpp"),
   ("encode/decodeFileChunksInfo(List)", "Protocol.cpp")],
  TRUST + "The loop that cuts a file into blocks is proved for any number of blocks. Bounded: number of chunks, files and missing parts (2-4, thorough 3-6), values unbounded. Library containers are stand-ins.", level="model_checking")
P("C09", "The block queue hands out every block exactly once and ends only when empty",
  "Every block in the sender's queue is handed out exactly once, already opened, or, if it cannot be opened, recorded once as failed; a block returned after a failure is available again exactly "
  "once. Deletions come first, then blocks with fewer failed attempts, then larger ones, and a thread finding the queue empty while discovery runs waits without blocking others and gets a block "
  "that arrives later. The end is announced only when discovery is finished and no block is left, with all failed sources and directories reported and exact counts; what is still queued after "
  "the transfer counts as failed.",
  ["histories", "schedules", "fault_sequences"], "every mix of sizes, offsets, retry counts, states and open failures, and arrivals while waiting",
  "Tests transfer healthy directories; open failures, returned blocks and late arrivals combine in ways they do not sample.",
  ["util/DirectorySourceQueue.cpp", "util/DirectorySourceQueue.h"],
  [("getNextSource", "util/DirectorySourceQueue.cpp"), ("returnToQueue", "util/DirectorySourceQueue.cpp"), ("SourceComparator", "util/DirectorySourceQueue.h"), ("getFailedSourceStats", "util/DirectorySourceQueue.cpp")],
  TRUST + "Bounded: at most 2 blocks (thorough 3) in the queue, all values and outcomes; the priority queue is a stand-in that returns a greatest element of the code's own ordering.", level="model_checking")
P("C10", "After a restart the log never vouches for data that is not on disk",
  "A replay of the resumption log takes every complete entry in order exactly as it was logged, removes a cut last entry and only that, and refuses damaged ones; each event is logged once, in "
  "order, after a header, and before the log is closed or compacted. A file counts only after a valid header of this transfer and configuration and if it is on disk with its size, a block only "
  "for such a file and inside what the disk holds; an invalidated file or directory is forgotten completely, and after an inconsistency only a new header counts. Missing files are invalidated, "
  "other entries about them are ignored, and a log with a failed replay, an unwritable log and a log without lock are never written to again.",
  ["crash_points", "inputs", "fault_sequences"], "every log content (including every cut and damage), disk state, failing or short write and order of arrivals",
  "Needs a crash at every byte of the log and every combination of log entries and disk contents.",
  ["util/TransferLogManager.cpp", "util/TransferLogManager.h"],
  [("LogParser::parseLog", "util/TransferLogManager.cpp"), ("process*Entry", "util/TransferLogManager.cpp"), ("LogEncoderDecoder", "util/TransferLogManager.cpp"), ("TransferLogManager", "util/TransferLogManager.cpp")],
  TRUST + "The replay loop and the entry handlers are proved for any log; handlers start from states with at most one valid and one invalid file. The writer thread, close and compaction are bounded (2-3 entries, 1-2 files). "
  "fix: b819cfa c42e86c 9e4ddc5 b30153e ebb4eb2 repair defects found by this check.")
P("C11", "A block counts as received only when every byte is written and verified",
  "A receiving thread counts and logs a block exactly once and only after a valid header, after exactly its announced bytes, in stream order, were written to its opened file, "
  "synced and closed without error, and, where checksums or authentication tags are in use, after the checksum over all those bytes matched or the tag was verified. A block that fails in any way "
  "is not counted, ends the connection and records an error; its partial bytes are reported only if they can be trusted, with exactly the number written, and blocks still waiting for a tag are "
  "forgotten with their connection. The bytes read from a connection behind a command are kept and the next command starts right behind the last one, whatever the fragmentation.",
  ["inputs", "fault_sequences", "schedules"], "every byte stream, fragmentation, buffer size, write failure and position of a disconnect",
  "Needs every split of the stream across reads and every failure position.",
  ["ReceiverThread.cpp", "ReceiverThread.h", "util/FileWriter.cpp"],
  [("ReceiverThread::processFileCmd", "ReceiverThread.cpp"), ("readAtLeast", "ReceiverThread.cpp"), ("readAtMost", "ReceiverThread.cpp"), ("markBlockVerified", "ReceiverThread.cpp"), ("sendDoneCmd", "ReceiverThread.cpp")],
  TRUST + "The read loops are proved for any stream by inductive invariants; the file (C04), decoders (C02, C03), socket and crc32c are used by contract. Blocks waiting for a tag are bounded (3).")
P("C12", "A receiver obeys only a well-formed conversation and reports it truthfully",
  "On any byte stream a receiving thread obeys no command before settings with its own transfer id, a supported version and a usable timeout, decodes only bytes it received and never leaves its "
  "buffer; anything else ends the connection with a recorded error and changes nothing. It reports its checkpoint in the agreed format after a lost connection, leaves it for the other threads "
  "when it fails, forwards every checkpoint of failed threads exactly until it was sent and confirmed, names the reason when it aborts, and is done only when no other thread still receives and "
  "every checkpoint was forwarded. The chunks already on disk are announced and sent completely, by one thread, and others go on only after that.",
  ["inputs", "fault_sequences", "histories"], "every byte stream, failing write and state of the other threads",
  "Needs hostile or cut streams and every order in which other threads fail or finish.",
  ["ReceiverThread.cpp", "ReceiverThread.h", "Receiver.cpp", "util/ThreadsController.cpp"],
  [("ReceiverThread state handlers", "ReceiverThread.cpp"), ("getNewCheckpoints", "Receiver.cpp"), ("Funnel", "util/ThreadsController.cpp")],
  TRUST + "Decoders and encoders are used by contract (C02, C03, C08). Waiting and forwarding are bounded: two threads, 2-3 checkpoints, 2 wakeups, 2-3 files.")
P("C13", "A block counts as sent only when all of it was written, exactly as announced",
  "A sending thread announces exactly the block's name, id, offset and size, then writes each byte of it once, in order, and a checksum over all of them where checksums are in use; only if every "
  "write was complete does the block count as sent, with exactly its bytes. A block that fails counts once as failed attempt, and either way it is handed to the history exactly once. The total size is "
  "sent once it is known, the end is announced with the exact totals only when no block is left, and blocks are acknowledged only by a command that says so.",
  ["inputs", "fault_sequences"], "every block size, sequence of short, failing or interrupted reads and writes, and abort at any point",
  "Needs a read, write or abort failure at every possible byte of a block.",
  ["SenderThread.cpp", "SenderThread.h"],
  [("sendOneByteSource", "SenderThread.cpp"), ("sendBlocks", "SenderThread.cpp"), ("sendDoneCmd, sendSizeCmd", "SenderThread.cpp"), ("processDoneCmd, processWaitCmd", "SenderThread.cpp")],
  TRUST + "The loop over a block is proved for any size by inductive invariants; the source (C05), encoders (C02), history (C07), queue (C09), socket, throttler and crc32c are used by contract.")
P("C14", "A sender obeys only a well-formed conversation and negotiates one version",
  "Whatever a receiver sends, a sending thread obeys only the commands it may receive, decodes only bytes it received, accepts only one checkpoint of its own connection before it goes on, applies "
  "the checkpoints of other connections completely or not at all, and sends blocks of a resumed transfer only after a complete list of the chunks the receiver has, taken over once. Anything else "
  "ends the thread with a recorded error or makes a new connection, and reconnecting without progress and connection attempts are limited. After a version mismatch every thread goes on with the one "
  "version all of them negotiated, before anything was acknowledged, or the transfer stays aborted.",
  ["inputs", "fault_sequences", "histories"], "every byte stream from the receiver, failing read or write, and outcome of the other threads",
  "Needs hostile or cut replies at every step and every mix of negotiated versions.",
  ["SenderThread.cpp", "SenderThread.h", "Sender.cpp", "WdtBase.cpp"],
  [("SenderThread state handlers", "SenderThread.cpp"), ("processVersionMismatch", "SenderThread.cpp"), ("setFileChunksInfo", "Sender.cpp"), ("clearAbort", "WdtBase.cpp")],
  TRUST + "Decoders and encoders are used by contract (C02, C03, C08). Bounded: 2 checkpoints, 2 messages of chunks with 2 files each, two threads and 2 wakeups. fix: commits repair defects found by this check.")
P("C15", "A connection delivers exactly the verified byte stream its peer wrote",
  "Whatever the network does, a connection reports exactly the bytes it transferred, in order and without gaps, and after a failure that may leave the two ends out of step nothing more is read or written until "
  "the connection is closed. With encryption, each side sends its settings once and first, every byte passes the key stream once, a tag follows every agreed number of bytes at the same places "
  "on both sides and is verified once before any byte behind it is delivered, and both sides change the key stream at the same places. Whether a stream ended well is reported when it is closed, and the next connection starts afresh.",
  ["inputs", "fault_sequences", "histories"], "every sequence of partial, interrupted, timed out and failing reads and writes, every length, tag interval and position in the stream, and every peer setting",
  "Needs cut reads at a tag boundary, timeouts between a tag and its data, positions beyond 32 bits, and peers that send other settings.",
  ["util/WdtSocket.cpp", "util/WdtSocket.h", "util/EncryptionUtils.cpp", "util/EncryptionUtils.h"],
  [("WdtSocket", "util/WdtSocket.cpp"), ("AESEncryptor and AESDecryptor", "util/EncryptionUtils.cpp")],
  TRUST + "The crypto library and the descriptor are stand-ins with contracts: the cipher itself is trusted. fix: commits repair defects found by this check.")

P("C16", "Received files are created once, inside the destination, and not by accident",
  "A file that is received is allocated by exactly one of the receiving threads, all others wait until its outcome is known and no block is written to a file whose allocation did not succeed, for every interleaving. Only names of files below the destination are accepted, the file is opened under exactly that name after the directories on the way to it exist, and an existing file is truncated only if overwriting or resumption was asked for. A file gets the size that was announced, a complete one stays as it is, and the log records what a later start needs only after the file has its size.",
  ["schedules", "inputs", "fault_sequences"],
  "For all interleavings of receiver threads at lock operations, all file names, allocation states, options and failures of the file system.",
  "Which thread comes first, and which call of the file system fails, is decided at run time; the unit tests create files from one thread with names that are fine.",
  ["util/FileCreator.cpp", "util/FileCreator.h", "ReceiverThread.cpp"],
  [("FileCreator", "util/FileCreator.cpp"), ("name check", "ReceiverThread.cpp")],
  TRUST + "Other threads are a rely/guarantee relation on the allocation status. Unbounded in the file name, the directory depth (recursion by contract) and the interleaving; waiting is bounded in the number of wakeups (stated in the evidence), completeness of the name check is shown for names of three characters. The status map is the engine's container model; open, mkdir, fstat, ftruncate and posix_fallocate are specified by their documented results. Symbolic links below the destination are outside the claim.")

P("C17", "The threads of a transfer meet, exclude and wait for each other as agreed",
  "A barrier lets no thread pass before every thread has come or is finished, and then lets all pass; a funnel has at most one thread in it, its outcome is known to all and no waiting thread is left asleep. What is to be done once is done once, by the first or "
  "by the last thread, and a timed wait ends when told, when aborted or when the time is over, never later and without missing an abort. Each thread's state is what was recorded last, finished threads are not waited for, and a new transfer starts afresh.",
  ["schedules", "histories"], "every interleaving of any number of threads at lock operations, every wake-up including spurious ones, every timeout and abort",
  "Needs a thread that finishes while others wait, an outcome announced between a look and a wait, or a spurious wake-up at the right moment.",
  ["util/ThreadsController.cpp", "util/ThreadsController.h"],
  [("Barrier, Funnel, ExecuteOnceFunc, ConditionGuard", "util/ThreadsController.cpp"), ("ThreadsController", "util/ThreadsController.cpp")],
  TRUST + "Other threads are a rely/guarantee relation at lock operations; the number of threads is bounded only for the state map and the list of barriers (stated in the evidence). Real time is the sum of the times waited for.")

P("C18", "Throttled transfers keep to the average rate and to the peak rate",
  "All transfers that share a throttler together never exceed the configured average rate at the time the pauses asked for are over, and with a peak rate never more than the bucket plus the peak rate times the time passed; nobody pauses for more than that. "
  "All progress is counted once, in pieces not larger than the largest request, with or without concurrent transfers, and nobody sleeps while holding the lock. The first transfer and a change of the rates start the count afresh, later transfers share it, and rates that do not fit together are corrected so that both limits stay in force.",
  ["inputs", "histories", "schedules"], "every rate, bucket limit, progress, time and number of transfers",
  "Needs rates, sizes and times beyond the few a test uses, and a transfer that begins or ends while others run.",
  ["Throttler.cpp", "Throttler.h"],
  [("Throttler", "Throttler.cpp")],
  TRUST + "Floating point numbers are treated as reals (the bucket's rounding to whole tokens is in the contract); the time without any progress is at most 13 days; the clock does not go back; sleeping itself is the library's.")

P("C19", "Exploration queues exactly the files it should, once each, or says it failed",
  "Discovery visits every directory below the root exactly once, except pruned ones, also when symbolic links lead in a circle, and queues every regular file that the include and exclude patterns admit exactly once, under its path relative to the root with its size, and nothing else. "
  "It reports success only if all of the tree was seen; each directory or listed file that cannot be examined is recorded as failed, and a stop request is not a success. Files of the receiver are marked for deletion only if the discovery saw all of the source.",
  ["inputs", "configurations", "fault_sequences"], "For every tree, kind of entry, result of each call of the file system, pattern, link setting and stop request",
  "Needs a call of the file system that fails in the middle of a directory, entries whose kind the file system does not tell, and links to directories or loops of them.",
  ["util/DirectorySourceQueue.cpp", "util/DirectorySourceQueue.h"],
  [("DirectorySourceQueue::explore, enqueueFiles, createIntoQueue", "util/DirectorySourceQueue.cpp"), ("resolvePath, enqueueFilesToBeDeleted", "util/DirectorySourceQueue.cpp")],
  TRUST + "Each entry is of any kind with any outcome of each call, but directories hold few entries with short names (stated in the evidence). Matching of regular expressions is an arbitrary answer per entry; opendir, readdir, lstat, stat and realpath are specified by their documented results. The tree does not change while it is read.")

P("C20", "A transfer request survives being written as a url, and its key is not logged",
  "Every value is escaped and read back as it was, everything that is not a correct escape is refused, and the url generated for a host, IPv6 address, port, list of ports, transfer id, version, switch or encryption key gives exactly the same request when it is read. "
  "Text that is not a wdt url with a host is refused, as are keys with an unknown type, without a type, or with half a byte, never leading to another type or key. What is logged about a request does not depend on its key.",
  ["inputs", "configurations"], "For every byte of the values, any host, key and text",
  "Needs bytes and texts beyond the samples of a test: each special character in each place, numbers that overflow, signs of characters.",
  ["WdtTransferRequest.cpp", "WdtTransferRequest.h", "util/EncryptionUtils.cpp"],
  [("WdtUri", "WdtTransferRequest.cpp"), ("WdtTransferRequest", "WdtTransferRequest.cpp"), ("EncryptionParams::getUrlSafeString, unserialize", "util/EncryptionUtils.cpp")],
  TRUST + "All bytes are symbolic, lengths are bounded as stated in the evidence. Printing and reading of decimal numbers is a contract (a number prints as a token that reads back as that number); the hash of the key that is logged is taken to be one way.")

if __name__ == "__main__":
    with open(V + "/properties.jsonl", "w") as f:
        for d in D:
            assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
            f.write(json.dumps(dict(id=d["id"], title=d["title"], statement=d["statement"], quantifier=dict(over=d["over"], text=d["text"]), why_tests_cant=d["why"],
                                    anchors=dict(files=d["files"], mechanism=[dict(name=n, where=w) for n, w in d["mech"]]))) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="VP_PROOF", enable="no hooks are needed: nothing in /repo is guarded; the checks compile /repo's sources as they are"),
             checks=[dict(property=d["id"], quick_cmd="python3 check.py %s quick" % d["id"], thorough_cmd="python3 check.py %s thorough" % d["id"],
                          technique=d["technique"] or TECH, level=d["level"], level_note=d["note"]) for d in D if d["claimed"]],
             not_applicable=[dict(property=d["id"], reason=d["reason"]) for d in D if not d["claimed"]])
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
