"""Which harnesses decide which property."""
PROPS = {}
CODEC = dict(name="codec", spec=["codec.cpp"], srcs=["util/SerializationUtil.cpp"], contracts=[],
             h={"varu_encode": {"weight": 5}, "varu_roundtrip": {}, "varu_decode_raw": {},
                "string_roundtrip": {"contracts": ["varint"]}, "string_decode_raw": {"contracts": ["varint"]}})
VARLEMMA = dict(CODEC, h={k: CODEC["h"][k] for k in ("varu_encode", "varu_roundtrip", "varu_decode_raw")})
PSRC = ["Protocol.cpp", "util/SerializationUtil.cpp", "ErrorCodes.cpp"]


def proto(*hs, **kw):
    d = dict(name="proto", spec=["protocol.cpp"], srcs=PSRC, contracts=["varint"], h={h: {} for h in hs})
    d["h"].update(kw)
    return d


PROPS["C01"] = dict(groups=[CODEC])
PROPS["C02"] = dict(groups=[proto("header_roundtrip", "done_roundtrip", "size_roundtrip", "abort_roundtrip", "chunkscmd_roundtrip", "settings_roundtrip",
                                  "encsettings_roundtrip", "footer_roundtrip", "negotiate"), VARLEMMA])
PROPS["C03"] = dict(groups=[proto("header_raw", "decoders_raw"), VARLEMMA])
REQ = ["ErrorCodes.cpp", "WdtOptions.cpp", "WdtTransferRequest.cpp", "Protocol.cpp", "util/SerializationUtil.cpp", "util/EncryptionUtils.cpp"]
FSRC = ["util/FileWriter.cpp", "util/FileByteSource.cpp", "util/CommonImpl.cpp", "Reporting.cpp"] + REQ
FILEIO = dict(name="fileio", spec=["fileio.cpp"], srcs=FSRC, contracts=[])
PROPS["C04"] = dict(groups=[dict(FILEIO, h={"writer_open": {}, "writer_write": {"weight": 5}, "writer_sync_close": {}})])
PROPS["C05"] = dict(groups=[dict(FILEIO, h={"source_read": {"weight": 5}, "source_open": {}})])
RSRC = ["Reporting.cpp", "util/CommonImpl.cpp"] + REQ
REPORT = dict(name="report", spec=["report.cpp"], srcs=RSRC, contracts=[])
PROPS["C06"] = dict(groups=[dict(REPORT, h={"error_combine": {}, "stats_add": {}, "stats_update": {}, "verdict_receiver": {},
                                            "verdict_sender": {"use": ["getMoreInt", "TransferStats::operator"], "weight": 5, "bound": "at most 3 thread statistics and 2 failed sources"}})])

HSRC = ["util/ThreadTransferHistory.cpp"] + RSRC
MARK = {"use": ["markSourceAsFailed"]}
HISTORY = dict(name="history", spec=["history.cpp"], srcs=HSRC, contracts=[])
PROPS["C07"] = dict(groups=[dict(HISTORY, h={
    "history_mark": {}, "history_validate": {},
    "history_checkpoint": dict(MARK, weight=5, bound="history of at most 2 (thorough: 4) blocks"),
    "history_add": dict(MARK, bound="history of at most 2 blocks before"),
    "history_finish": dict(MARK, weight=4, bound="history of at most 3 (thorough: 5) blocks"),
    "history_release": {}, "history_mismatch": dict(MARK, bound="two threads with 3 blocks"), "history_global_port": dict(MARK, bound="two threads with 3 blocks"),
    "history_global_wait": dict(MARK, bound="history of one block, owner thread takes two steps")})])

CHUNKS = dict(name="chunks", spec=["chunks.cpp"], srcs=PSRC, contracts=["varint"])
QSRC = ["util/DirectorySourceQueue.cpp", "Reporting.cpp", "util/CommonImpl.cpp"] + REQ
QUEUE = dict(name="queue", spec=["queue.cpp"], srcs=QSRC, contracts=[])
CK = {"use": ["FileChunksInfo"], "contracts": ["varint"]}
PROPS["C08"] = dict(groups=[
    dict(CHUNKS, h={"chunks_merge": {"bound": "at most 3 (thorough: 4) chunks"}, "chunks_remaining": {"bound": "at most 4 (thorough: 6) chunks", "weight": 3},
                    "chunks_remaining_raw": {"bound": "at most 3 (thorough: 4) chunks"},
                    "chunkinfo_roundtrip": {"bound": "at most 2 (thorough: 3) chunks", "weight": 6}, "chunkinfo_raw": {"unroll": 3, "weight": 3},
                    "chunklist_roundtrip": dict(CK, bound="at most 2 (thorough: 3) files", weight=3), "chunklist_raw": dict(CK, bound="message of at most 14 (thorough: 22) bytes")}),
    dict(QUEUE, h={"queue_blocks_new": {"peel": 1, "weight": 5},
                   "queue_blocks_resume": {"peel": 1, "use": ["getRemainingChunks"], "weight": 20, "bound": "at most 2 (thorough: 3) missing parts, any number of blocks"},
                   "queue_rebuild": {"bound": "at most 2 files, 1 (thorough: 2) of them known"}})])
PROPS["C09"] = dict(groups=[dict(QUEUE, h={
    "queue_next": {"bound": "at most 2 (thorough: 3) blocks"}, "queue_return": {"bound": "at most 2 blocks"}, "queue_failed": {"bound": "at most 2 blocks"},
    "queue_wait": {"bound": "at most 2 wakeups, one block"}})])
EXPL = dict(name="explore", spec=["explore.cpp"], srcs=QSRC, contracts=[])
PROPS["C19"] = dict(groups=[dict(EXPL, h={h: {"use": ["createIntoQueue"], "bound": b} for h, b in (
    ("explore_entry", "one directory with at most one entry"), ("explore_entry_links", "one directory with at most one entry"), ("explore_dot", "one entry"),
    ("explore_dotdot", "one entry"), ("explore_hidden", "one entry"), ("explore_tree", "at most 2 (thorough: 3) entries"), ("explore_loop", "two entries"), ("explore_list", "at most 2 (thorough: 3) files"))} |
    {"explore_create": {"use": ["createIntoQueueInternal"]}, "explore_build": {"use": ["Queue::explore", "enqueueFiles"]}})])
URI = dict(name="uri", spec=["uri.cpp"], srcs=REQ, contracts=[])
PROPS["C20"] = dict(groups=[dict(URI, h={**{"uri_" + x: {"bound": "host of 2 characters, one character of value", "use": ["to_string", "folly::to<"]} for x in ("url", "url_v6", "url_host", "url_params", "request", "request_range", "request_list", "request_none", "request_key", "log_safe")},
    **{"uri_" + x: {"bound": b, "use": ["to_string", "folly::to<"]} for x, b in (("raw1", "one character"), ("raw", "3 (thorough: 4) characters"), ("raw_prefix", "7 characters"))},
    "uri_hex": {}, "enc_ctr": {"unroll": 40, "bound": "key of 16 bytes"}, "enc_gcm": {"unroll": 40, "bound": "key of 16 bytes"}} | {h: {"bound": b} for h, b in (
    ("uri_escape_empty", "empty value"), ("uri_escape1", "one character"), ("uri_escape2", "2 (thorough: 3) characters"),
    ("uri_unescape1", "one character"), ("uri_unescape2", "2 characters"), ("uri_unescape3", "3 characters"), ("uri_unescape4", "4 (thorough: 5) characters"),
    ("enc_short", "key of one byte"), ("enc_raw", "type of one, key of 4 characters"), ("enc_raw_long", "type of 9, key of 2 characters"),
    ("enc_raw_notype", "3 characters"), ("enc_raw_empty", "empty string"), ("enc_raw_odd", "key of 3 characters"))})])
LSRC = ["util/TransferLogManager.cpp"] + RSRC
TLOG = dict(name="tlog", spec=["tlog.cpp"], srcs=LSRC, contracts=[])
ENT = {"use": ["LogEncoderDecoder"]}
VAR = {"contracts": ["varint"]}
PROPS["C10"] = dict(groups=[dict(TLOG, h={
    "log_codec": VAR, "log_codec_creation": VAR, "log_codec_header": VAR, "log_decode_raw": VAR,
    "log_block": ENT, "log_create": ENT, "log_resize": ENT, "log_invalidate_entry": ENT, "log_header_entry": ENT, "log_clear": {},
    "log_open": {}, "log_invalidate": VAR, "log_header": {"use": ["encodeLogHeader"]}, "log_sender": VAR, "log_add": {"use": ["LogEncoderDecoder::encode"]},
    "log_write": {"bound": "at most 2 (thorough: 3) entries and as many wakeups"}, "log_close": {"bound": "one pending entry"}, "log_match": dict(VAR, use=["parseLog"]),
    "log_compact": {"use": ["parseAndMatch", "addFileCreationEntry", "addBlockWriteEntry", "writeLogHeader"], "bound": "at most 1 (thorough: 2) files with at most 2 blocks"},
    "log_parse": {"unroll": 2, "use": ["process.*Entry", "clearParsedData", "mergeChunks"]}, "log_parse_end": {"use": ["process.*Entry", "clearParsedData", "mergeChunks"]}})])
TSRC = ["Receiver.cpp", "ReceiverThread.cpp", "WdtThread.cpp", "WdtBase.cpp", "Throttler.cpp", "util/ThreadsController.cpp"] + RSRC
RECV = dict(name="receiver", spec=["receiver.cpp"], srcs=TSRC, contracts=[])
RUSE = {"use": ["isValidRelPath", "readAtLeast", "readAtMost", "Protocol::decode", "Protocol::encode", "markBlockVerified", "sendHeartBeat", "addTransferLogHeader", "getCurAbortCode", "crc32c"]}
RMARK = {"use": ["getCurAbortCode"]}
RFILE = dict(RUSE, unrolls=[["processFileCmd", 2]], peel=1)
PROPS["C11"] = dict(groups=[dict(RECV, h={"recv_read_at_least": {"unroll": 2}, "recv_read_at_most": {}, **{"recv_file" + m + l: dict(RFILE, weight=10) for m in ("", "_tag", "_checksum") for l in ("", "_long")},
    "recv_mark": RMARK, "recv_verified": dict(RUSE, bound="at most 3 (thorough: 4) blocks waiting"), "recv_reset": RUSE, "recv_done": RUSE, "recv_send_done": RUSE})])
RUSE2 = dict(RUSE, use=RUSE["use"] + ["maxEncodeLen"])
PROPS["C12"] = dict(groups=[dict(RECV, h={"recv_next_cmd": RUSE, "recv_settings": RUSE, "recv_size": RUSE, "recv_local_checkpoint": RUSE,
    "recv_global_checkpoint": dict(RUSE, bound="at most 3 new checkpoints"), "recv_abort": RUSE, "recv_accept_timeout": RUSE, "recv_check_finish": dict(RUSE, bound="two threads, at most 2 checkpoints"),
    "recv_done": RUSE, "recv_send_done": RUSE, "recv_reset": RUSE, "recv_file": dict(RFILE, weight=10), "recv_finish_error": dict(RUSE, bound="two threads, at most 2 checkpoints"), "recv_wait": dict(RUSE, bound="two threads, at most 2 checkpoints, 2 wakeups", weight=3),
    "recv_chunks": dict(RUSE2, bound="at most 2 (thorough: 3) files, 2 wakeups", weight=3)})])
SSRC = ["Sender.cpp", "SenderThread.cpp", "WdtThread.cpp", "WdtBase.cpp", "util/ThreadsController.cpp", "Throttler.cpp"] + REQ + ["Reporting.cpp", "util/CommonImpl.cpp"]
SEND = dict(name="sender", spec=["sender.cpp"], srcs=SSRC, contracts=[])
SUSE = {"use": ["Protocol::decode", "Protocol::encode", "getThreadAbortCode", "readHeartBeats", "crc32c", "connectToReceiver", "WdtBase::abort"]}
SBLK = dict(SUSE, unrolls=[["sendOneByteSource", 2]], peel=1, weight=10)
PROPS["C13"] = dict(groups=[dict(SEND, h={"send_block": SBLK, "send_block_throttled": SBLK, "send_block_checksum": SBLK, "send_blocks": SBLK,
    "send_done": SUSE, "send_size": SUSE, "send_process_done": SUSE, "send_process_wait": SUSE})])
PROPS["C14"] = dict(groups=[dict(SEND, h={"send_settings": SUSE, "send_local_checkpoint": SUSE, "send_connect": SUSE, "send_read_cmd": SUSE,
    "send_receiver_cmd": dict(SUSE, use=SUSE["use"] + ["readNextReceiverCmd", "readAndVerifySpurious"]), "send_spurious": SUSE,
    "send_process_err": dict(SUSE, bound="at most 2 checkpoints"), "send_process_abort": SUSE, "send_check_abort": SUSE, "send_connecting": dict(SUSE, peel=1, use=[u for u in SUSE["use"] if u != "connectToReceiver"]),
    "send_chunks": dict(SUSE, use=SUSE["use"] + ["readAndVerifySpurious"], bound="at most 2 messages with at most 2 files each"),
    "send_mismatch": dict(SUSE, bound="two threads"), "send_mismatch_other": dict(SUSE, bound="two threads, 2 wakeups")})])
KSRC = ["util/WdtSocket.cpp"] + RSRC
SOCK = dict(name="socket", spec=["socket.cpp"], srcs=KSRC, contracts=[])
KTAG = {"use": ["computeNextTagOffset", "readAndDecrypt\\(", "encryptAndWrite\\(", "readEncryptionTag", "verifyTag", "checkAndChange", "writeEncryptionTag"]}
KREAD = {"unrolls": [["readWithTimeout", 2]], "use": ["readEncryptionSettingsOnce", "readAndDecryptWithTag", "readInternal", "readAndDecrypt\\("]}
KLOW = {"use": ["readInternal", "writeInternal", "AES..cryptor::start", "AES..cryptor::finish\\(", "computeCurrentTag"]}
CRYPTO = dict(name="crypto", spec=["crypto.cpp"], srcs=RSRC, contracts=[])
PROPS["C15"] = dict(groups=[dict(CRYPTO, h={"crypto_" + x: {} for x in ("enc_start", "dec_start", "encrypt", "decrypt", "tag_now", "verify", "enc_finish", "dec_finish")}),
    dict(SOCK, h={"sock_io_read": {}, "sock_io_write": {}, "sock_io_read_once": {}, "sock_io_write_once": {}, "sock_read_internal": {"use": ["WithAbortCheck"]}, "sock_write_internal": {"use": ["WithAbortCheck"], "unrolls": [["writeInternal", 2]]},
    "sock_next_tag": {}, "sock_read_tag": KTAG, "sock_write_tag": KTAG, "sock_read_tag_again": KTAG,
    **{"sock_" + x: KLOW for x in ("settings_write", "iv_enc", "iv_dec", "tag_read", "tag_write", "finalize_reads", "finalize_writes")},
    "sock_settings_read": dict(KLOW, use=KLOW["use"] + ["decodeEncryptionSettings"]), "sock_next_peer": dict(KREAD, use=KREAD["use"] + ["finalize"]), "sock_close": {"use": ["finalize"]},
    **{"sock_read_" + x: KREAD for x in ("plain", "first", "first_tags", "next", "next_tags")}, "sock_write": {"unrolls": [["WdtSocket::write", 2]], "use": ["writeEncryptionSettingsOnce", "encryptAndWriteWithTag", "writeInternal", "encryptAndWrite\\("]}})])
CREA = dict(name="creator", spec=["creator.cpp"], srcs=["util/FileCreator.cpp", "util/TransferLogManager.cpp", "util/ThreadTransferHistory.cpp", "util/FileWriter.cpp"] + RSRC, contracts=[])
C1USE = {"use": [r"::openForFirstBlock\(", r"::waitForAllocationFinish\(", r"::openExistingFile\("]}
PROPS["C16"] = dict(groups=[dict(CREA, h={"creator_block_new": C1USE, "creator_block_correct": C1USE, "creator_block_later": C1USE, "creator_block_delete": C1USE,
    "creator_first": {"use": [r"::openAndSetSize\("]}, "creator_wait": {"use": [], "bound": "the thread is woken at most 2 times (thorough: 3)"},
    "creator_allocate": {"use": [r"FileCreator::createFile\(", r"::openExistingFile\(", r"::setFileSize\(", r"TransferLogManager::add"]}, "creator_size": {"use": []},
    "creator_create": {"use": [r"::createDirRecursively\("]}, "creator_name": {}, "creator_name_short": {"bound": "names of three characters"}, "creator_mkdir": {"use": [r"::createDirRecursively\("], "rec": [r"::createDirRecursively\("]}})])
CTL = dict(name="controller", spec=["controller.cpp"], srcs=["util/ThreadsController.cpp"] + RSRC, contracts=[])
PROPS["C17"] = dict(groups=[dict(CTL, h={"ctl_barrier": {"unrolls": [["execute", 2]], "peel": 1}, **{"ctl_" + x: {} for x in ("barrier_leave", "funnel_enter", "funnel_success", "funnel_fail", "funnel_wait", "once_first", "once_last")}})])
PROPS["C17"]["groups"][0]["h"].update(ctl_condition={"peel": 1}, ctl_funnel_timed={"peel": 1}, ctl_threads={"bound": "at most 3 (thorough: 4) threads"}, ctl_finish={"bound": "at most 3 (thorough: 4) threads", "use": [r"Barrier::deRegister"]})
THR = dict(name="throttler", spec=["throttler.cpp"], srcs=["Throttler.cpp"] + RSRC, contracts=[])
PROPS["C18"] = dict(groups=[dict(THR, h={"thr_average": {}, "thr_peak": {}, "thr_both": {}, "thr_off": {}, "thr_transfers": {}, "thr_rates": {}, "thr_limit": {"use": ["limitSingleRequest"]}, "thr_single": {"use": ["calculateSleep", "Throttler::sleep"]}})])
