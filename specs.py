"""What each check builds and runs."""
import os
SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-D_GLIBCXX_ASSERTIONS", "-DASIOEXT_HAS_BOOST_FILESYSTEM=1"]
TSAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DASIOEXT_HAS_BOOST_FILESYSTEM=1"]
FLAVOURS = {
    "asan": dict(flags=SAN, libs=["-lboost_filesystem"]),
    "opt": dict(flags=["-O2", "-DASIOEXT_HAS_BOOST_FILESYSTEM=1"], libs=["-lboost_filesystem"]),
    "boost": dict(flags=SAN + ["-DASIOEXT_USE_BOOST_ASIO", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "shim")],
                  libs=["-lboost_filesystem"], header_only=True),
    "tsan": dict(flags=TSAN, libs=["-lboost_filesystem"]),
}
HARNESSES = {}
SPECS = {}

HARNESSES["linear_buffer"] = dict(src="linear_buffer.cpp")
SPECS["C01"] = dict(
    rule="random histories of 8-48 operations over four interacting buffers; distinct = distinct (operation, operand, size) sequences; non-trivial = every history mixes growth, shifting and ownership operations",
    require=["op:insert", "op:append", "op:erase", "op:move-assign", "op:copy-assign", "op:swap", "length_errors"],
    jobs=[dict(harness="linear_buffer", group="model", cases=60000, shards=4),
          dict(harness="linear_buffer", group="alloc", cases=20000, shards=2)])
SPECS["C02"] = dict(
    rule="random histories over four buffers with ledger allocators (equal/unequal arenas, propagating or not), half of them with injected allocation failures; distinct = distinct operation/size sequences",
    require=["allocations", "alloc-failures-survived", "failed-move-assignments", "op:move-assign", "op:swap"],
    jobs=[dict(harness="linear_buffer", group="alloc", cases=60000, shards=4),
          dict(harness="linear_buffer", group="alloc", flavour="opt", cases=60000, shards=2),
          dict(harness="linear_buffer", group="model", cases=20000, shards=2)])
SPECS["C03"] = dict(
    rule="random call sequences of the v1 and v2 dynamic buffer interfaces with hostile sizes, and asio composed operations over randomly fragmenting streams; distinct = distinct sequences",
    require=["dynv1-ops", "dynv2-ops", "asio-composed-ops", "prepare-rejected", "grow-rejected"],
    jobs=[dict(harness="linear_buffer", group="dynv1", cases=30000, shards=2),
          dict(harness="linear_buffer", group="dynv2", cases=30000, shards=2),
          dict(harness="linear_buffer", group="asioops", cases=30000, shards=2)])
HARNESSES["url"] = dict(src="url.cpp")
SPECS["C04"] = dict(
    rule="URLs assembled from random legal components in exact-size buffers; distinct = distinct texts",
    require=["kind:authority", "kind:abs", "kind:opaque", "kind:pathonly", "v6-hosts", "explicit-ports", "default-ports", "long-components", "very-long-components"],
    jobs=[dict(harness="url", group="valid", cases=900000, shards=4)])
SPECS["C05"] = dict(
    rule="random bytes, adversarial alphabets, mutated valid URLs and all one-byte edits and prefixes of base URLs, in exact-size buffers; distinct = distinct texts",
    require=["accepted", "rejected", "exhaustive-bases", "very-long-components", "must-reject:scheme", "must-reject:port range", "must-reject:unterminated IPv6 literal"],
    jobs=[dict(harness="url", group="hostile", cases=400000, shards=4),
          dict(harness="url", group="exhaustive", cases=20, thorough=20, shards=4)])

HARNESSES["chrono"] = dict(src="chrono.cpp", wrap=["fstat", "futimens"])
SPECS["C06"] = dict(
    technique="runtime monitoring: 128-bit oracle over boundary-biased conversions, UBSan, synthetic stat results",
    rule="boundary-biased 64-bit values through 18 cast type pairs, 8 compose/decompose type triples, time_t conversions and the native get/set_times path; distinct = distinct (type, value) pairs",
    require=["cast-ok", "cast-rejected", "decompose-ok", "compose-ok", "compose-rejected", "compose-negative", "round-trips", "cast-result-limits"],
    jobs=[dict(harness="chrono", group="cast", cases=1800000, shards=2),
          dict(harness="chrono", group="pairs", cases=1800000, shards=2),
          dict(harness="chrono", group="timet", cases=300000),
          dict(harness="chrono", group="native", cases=200000)])

SYS_WRAP = ["open", "open64", "openat", "openat64", "creat", "creat64", "close", "dup", "fcntl", "fcntl64", "read", "write", "readv", "writev", "preadv", "pwritev",
            "preadv64", "pwritev64", "pread", "pwrite", "pread64", "pwrite64", "lseek", "lseek64", "ftruncate", "ftruncate64",
            "fstat", "fstat64", "fstatat", "fstatat64", "fchmod", "futimens", "utimensat"]
HARNESSES["file_ops"] = dict(src="file_ops.cpp", wrap=SYS_WRAP)
SPECS["C07"] = dict(
    technique="runtime monitoring: each open is compared with open(2) on a twin directory (outcome, error, effects, descriptor flags), descriptor table monitored",
    rule="random flag words, modes, umasks, interruptions (with the path created or removed meanwhile), 15 path states (five of them unprivileged or broken paths) and eight entry points; distinct = distinct (state, flags, entry)",
    require=["opened", "failed", "invalid-rejected", "interrupted-opens", "changed-meanwhile", "opened:missing", "opened:symlink", "opened:filled"],
    jobs=[dict(harness="file_ops", group="open", cases=80000, shards=4)])
SPECS["C08"] = dict(
    technique="runtime monitoring: byte-array reference model with file positions over random histories, guard bytes, ASan shadow checks of every buffer handed to the kernel",
    rule="random histories of 6-35 operations over 2-5 handles of three files (three handle kinds, shared positions, three access modes, all scatter/gather shapes, offsets beyond 4 GiB); distinct = distinct histories",
    require=["op:read_some", "op:write_some", "op:read_some_at", "op:write_some_at", "op:read", "op:write", "op:read_at", "op:write_at", "op:seek", "op:truncate", "eof", "offset-beyond-4G", "wrong-mode-rejected", "bad-seek-rejected", "bad-offset-rejected"],
    jobs=[dict(harness="file_ops", group="io", cases=40000, shards=6)])
SPECS["C09"] = dict(
    technique="runtime monitoring: fault injection at link-time wrapped system calls, call-log oracle",
    rule="random placements of EINTR runs, short transfers and hard errors in the system calls of each operation; distinct = distinct (operation, plan)",
    require=["hard-errors", "short-transfers", "interrupted-and-retried", "composed-under-storm", "close-failures"],
    jobs=[dict(harness="file_ops", group="faults", cases=160000, shards=4)])
SPECS["C13"] = dict(
    technique="runtime monitoring: independent fstat after every metadata operation against a reference model",
    rule="random histories of permission, time and attribute operations through three handle kinds; distinct = distinct histories",
    require=["perm-add", "perm-remove", "perm-query", "times-set", "times-before-1970", "times-query", "bad-handles", "flag-algebra"],
    jobs=[dict(harness="file_ops", group="meta", cases=160000, shards=3)])

HARNESSES["file_own"] = dict(src="file_own.cpp", wrap=SYS_WRAP)
SPECS["C10"] = dict(
    technique="runtime monitoring: ownership ledger over every wrapped open/dup/close, descriptor table and inode identity compared after each step",
    rule="random histories of 6-40 ownership operations over four unique handles, three file objects and plain handles, with injected close and duplicate failures; distinct = distinct histories",
    require=["releases", "resets", "duplicates", "self-moves", "swaps", "file-opens", "file-move-assignments", "close-failures", "other-context"],
    jobs=[dict(harness="file_own", group="owner", cases=40000, shards=4)])
SPECS["C11"] = dict(
    technique="runtime monitoring: differential oracle between the throwing and the error-code form of each operation on twin state",
    rule="every dual-form operation on three handle kinds in eight conditions, with stale codes and injected system-call failures; distinct = distinct (operation, condition, fault, stale code)",
    require=["both-fail", "both-succeed"] + ["cond:" + c for c in ("read-only", "write-only", "closed", "bad-number", "directory", "pipe")],
    jobs=[dict(harness="file_own", group="forms", cases=100000, shards=4)])
SPECS["C12"] = dict(
    technique="runtime monitoring: content oracle under injected short transfers, interruptions, hard errors, shrinking files and allocation failures",
    rule="random sizes, containers, buffer shapes, entry points and fault plans; distinct = distinct (call, size, plan)",
    require=["files-written", "files-read", "write-failures", "read-failures", "shrunk-files", "larger-buffers", "allocation-failures", "too-large-for-container", "faulted", "large", "without-read-permission", "without-write-permission", "missing-files"],
    jobs=[dict(harness="file_own", group="whole", cases=48000, shards=4)])

HARNESSES["core"] = dict(src="core.cpp")
SPECS["C18"] = dict(
    technique="runtime monitoring: generation model over random source/token histories; ThreadSanitizer with a bracketing oracle (a token polled after cancel() returned must be cancelled, one polled before it began must not) over racing threads",
    rule="random histories over three sources and any number of tokens; threads polling and copying tokens while another cancels, destroys, resets and moves the source; distinct = distinct histories / distinct observation profiles",
    require=["cancels", "destroys", "resets-after-destroy", "cancel-destroyed", "moves", "observed-cancelled", "observed-live", "observed-during-cancel", "observed-before-cancel", "observed-after-cancel"],
    jobs=[dict(harness="core", group="tokens", cases=60000),
          dict(harness="core", group="tokens_mt", cases=3000),
          dict(harness="core", group="tokens_mt", flavour="tsan", cases=2500, shards=2)])
SPECS["C19"] = dict(
    technique="runtime monitoring: tracing executor (work counts, posts), ledger allocator and continuation hints observed at every step of random composed operations; ThreadSanitizer runs on real contexts",
    rule="random composed operations: 0-5 steps, five completion styles, zero to two io executors, lvalue/rvalue handlers, abandonment; 0-3 work guards for bind_handler with throwing handlers; callbacks, strands, futures and coroutines completing from a pool; distinct = distinct shapes",
    require=["completed", "abandoned", "lvalue-handlers", "steps", "invoked", "throwing", "mt-operations"],
    jobs=[dict(harness="core", group="compose", cases=40000, shards=2),
          dict(harness="core", group="bound", cases=40000),
          dict(harness="core", group="compose_mt", cases=6000),
          dict(harness="core", group="compose_mt", flavour="tsan", cases=1500, shards=2)])
SPECS["C20"] = dict(
    technique="runtime monitoring: ledger allocator and identity-counting callables over random histories with allocation and move failures and re-entrant use, ASan/LSan",
    rule="random histories of 6-40 steps over four handlers, four callable layouts, function pointers and other signatures; distinct = distinct histories",
    require=["stores", "calls", "empty-calls", "moves", "self-moves", "restored-inside-call", "allocation-failures", "move-failures", "other-signatures", "chains", "throwing-calls", "destroyed-in-call"],
    jobs=[dict(harness="core", group="unique", cases=20000, shards=2)])

HARNESSES["async"] = dict(src="async.cpp", wrap=["read", "write", "readv", "writev", "preadv", "pwritev", "preadv64", "pwritev64",
                                                  "pread", "pwrite", "pread64", "pwrite64", "close"])
SPECS["C14"] = dict(
    technique="runtime monitoring: every completion is compared with the synchronous operation on a twin file under the same fault plan; executor, initiation, exactly-once and buffer monitors; ASan and ThreadSanitizer",
    rule="random chains and bursts of operations over 1-4 files, 1-4 pool threads, 1-3 context threads, eight token/executor kinds, with delays and faults in the system calls; distinct = distinct histories",
    require=["token:plain", "token:strand", "token:other-pool", "token:other-context", "token:lvalue", "token:burst", "token:coroutine", "token:future",
             "completed-ok", "completed-error", "keepalive-slow", "keepalive-fast", "throwing-handlers", "many-pending"],
    jobs=[dict(harness="async", group="ops", cases=5000, shards=2, tshards=8),
          dict(harness="async", group="ops", flavour="tsan", cases=2400, shards=2, tshards=8),
          dict(harness="async", group="keepalive", cases=6000),
          dict(harness="async", group="keepalive", flavour="tsan", cases=3000)])
SPECS["C15"] = dict(
    technique="runtime monitoring: pool thread held inside a system call while operations are queued, cancelled, closed and reopened; per-operation epoch oracle, system-call log and file contents; ThreadSanitizer on free-running cancels",
    rule="random interleavings of starts, cancels, closes, destructions, assignments and reopenings over 2-4 files around a held operation, and free-running ones with delays; distinct = distinct histories / outcome profiles",
    require=["cancels", "aborted", "executing-unaffected", "executing-failed", "executing-short", "executing-interrupted", "destroyed", "closed", "assigned-over", "reused", "ran-while-closing", "mt-aborted", "mt-completed"],
    jobs=[dict(harness="async", group="cancel", cases=20000, shards=3),
          dict(harness="async", group="cancel_mt", cases=8000, shards=2),
          dict(harness="async", group="cancel_mt", flavour="tsan", cases=4000, shards=2)])
SPECS["C16"] = dict(
    technique="runtime monitoring: ASan/LSan and ThreadSanitizer over destruction of files and contexts at random moments, handler-lifetime ledger, descriptor table",
    rule="random sessions (files, sockets and timers owned by the program or by pending handlers) destroyed while their operations are queued, held in a system call, executing or completed; distinct = distinct histories",
    require=["contexts-destroyed", "handlers-invoked", "handlers-destroyed-uninvoked", "files-destroyed", "window-probes"],
    jobs=[dict(harness="async", group="shutdown", cases=12000, shards=3),
          dict(harness="async", group="shutdown", flavour="tsan", cases=6000, shards=2),
          dict(harness="async", group="window", cases=300)])
SPECS["C17"] = dict(
    technique="runtime monitoring: reference model of open/closed, path and context per file object, probed with synchronous and asynchronous operations and cancellation after every step; ASan",
    rule="random histories of construction, open, close, move construction and assignment (also across contexts), self-move, context destruction and re-creation over four file objects; distinct = distinct histories",
    require=["reopens", "closes", "move-constructions", "move-assignments", "move-assignments-across-contexts", "self-moves", "cancel-probes", "contexts-recreated",
             "probes-open", "probes-closed", "operations-across-steps", "failed-opens"],
    jobs=[dict(harness="async", group="life", cases=24000, shards=4),
          dict(harness="async", group="life_strand", cases=5000),
          dict(harness="async", group="life_plain", cases=2500),
          dict(harness="async", group="life", flavour="tsan", cases=3000)])
SPECS["C26"] = dict(
    technique="runtime monitoring: ThreadSanitizer and result digests compared with a solo run",
    rule="2-6 threads using distinct objects of every kind: file objects on one context and file service, and 15 kinds of work across all components; distinct = distinct per-thread histories",
    require=["threads", "async-operations"] + ["parallel:" + c for c in ("metadata", "positions", "whole-files", "open-flags", "throwing-forms", "socks4", "socks5", "buffered-streams",
                                                                         "composed", "unique-handlers", "urls", "times", "dynamic-buffers", "connect", "named-things")],
    jobs=[dict(harness="async", group="threads", flavour="tsan", cases=5400, shards=3),
          dict(harness="async", group="threads", cases=4000, shards=2),
          dict(harness="parallel", group="parallel", flavour="tsan", cases=1500),
          dict(harness="parallel", group="parallel", cases=1500)])

HARNESSES["parallel"] = dict(src="parallel.cpp")
HARNESSES["socks"] = dict(src="socks.cpp")
SPECS["C21"] = dict(
    technique="runtime monitoring: independent SOCKS4/4a encoder and reply judge over a scripted, fragmenting in-memory stream and loopback TCP sessions; ASan",
    rule="random commands, endpoints, names, user ids, buffer kinds and stale buffer contents, retries after failing writes, positive, hostile and truncated replies; distinct = distinct histories / replies",
    require=["step:v4", "step:v4a", "rejected-arguments", "retries", "succeeded", "accepted", "refused", "cuts", "edits", "v4-sessions"],
    jobs=[dict(harness="socks", group="v4", cases=16000, shards=2),
          dict(harness="socks", group="hostile4", cases=30000),
          dict(harness="socks", group="cuts4", cases=150, shards=2),
          dict(harness="socks", group="session", cases=1500)])
SPECS["C22"] = dict(
    technique="runtime monitoring: independent RFC 1928/1929 encoder and reply judge over a scripted, fragmenting in-memory stream and loopback TCP sessions; ASan",
    rule="random method lists, credentials, targets, buffer kinds and stale buffer contents, retries after failing writes, conforming replies of all address types with proxied data behind them; distinct = distinct histories",
    require=["step:greet", "step:login", "step:v5", "step:v5-host", "rejected-arguments", "retries", "succeeded", "v6-targets", "v5-sessions"],
    jobs=[dict(harness="socks", group="v5", cases=40000, shards=3),
          dict(harness="socks", group="hostile5", cases=15000),
          dict(harness="socks", group="session", cases=3000, shards=2)])
SPECS["C23"] = dict(
    technique="runtime monitoring: hostile scripted servers judged by an independent reply decoder, transport error injection, ASan/UBSan/LSan",
    rule="random and mutated replies for every step, every prefix of positive replies, single-byte edits of the fixed part, transport errors at every point, buffers with just enough space for the request, abandonment; distinct = distinct replies",
    require=["accepted", "refused", "limited-buffers", "reply-larger-than-buffer", "cuts", "edits", "write-failures", "abandoned", "error-codes", "status:asio.system:111", "status:asioext.socks:1", "status:asioext.socks:4"],
    jobs=[dict(harness="socks", group="hostile4", cases=20000),
          dict(harness="socks", group="hostile5", cases=60000, shards=2),
          dict(harness="socks", group="cuts4", cases=100),
          dict(harness="socks", group="cuts5", cases=300, shards=4),
          dict(harness="socks", group="abandon", cases=20000),
          dict(harness="socks", group="errors", cases=2)])

HARNESSES["connect"] = dict(src="connect.cpp", wrap=["getaddrinfo", "freeaddrinfo", "socket", "connect", "close"])
SPECS["C24"] = dict(
    technique="runtime monitoring: scripted name resolution and endpoints at link-time wrapped system calls, log of sockets and connection attempts, descriptor table, ASan",
    rule="random lists of 0-6 endpoints (listening, refusing, unreachable, unusable protocol; IPv4 and IPv6), resolution failures, prior socket states, entry points and completion tokens; cancellation, closing and abandonment while resolving or connecting; distinct = distinct situations",
    require=["connected", "all-failed", "empty-lists", "resolution-failures", "throwing", "error-code", "token:0", "token:1", "token:2", "token:3", "token:4", "stopped", "abandoned"],
    jobs=[dict(harness="connect", group="sync", cases=24000, shards=3),
          dict(harness="connect", group="async", cases=24000, shards=3),
          dict(harness="connect", group="stop", cases=5000, shards=2)])

HARNESSES["buffered"] = dict(src="buffered.cpp")
SPECS["C25"] = dict(
    technique="runtime monitoring: byte-queue model over a scripted, fragmenting and failing stream after every step, digests of full-duplex socket traffic; ASan/LSan",
    rule="random histories of appends, synchronous and asynchronous flushes and fills (all handler kinds), second flushes, failing and short writes with retries, end-of-stream conditions, size limits, stale error codes, close and reuse; distinct = distinct histories",
    require=["flushes", "async-flushes", "partial-flushes", "second-flushes", "fills", "async-fills", "fill-failures", "full-read-buffer", "full-write-buffer", "closed-while-filling",
             "closed-while-flushing", "lvalue-handlers", "bound-handlers", "thrown", "allocators", "socket-bytes-moved", "bulk-transfers"],
    jobs=[dict(harness="buffered", group="history", cases=100000, shards=4),
          dict(harness="buffered", group="sockets", cases=1500, shards=2)])

# Workloads of other properties which also exercise this one; only the named reports (and sanitizer reports, crashes, hangs) count.
EXTRA = {
    "C02": [dict(harness="linear_buffer", group="dynv1", cases=15000, only=["none"]), dict(harness="linear_buffer", group="dynv2", cases=15000, only=["none"])],
    "C14": [dict(harness="async", group="cancel", cases=4000, only=["called-twice", "never-completed", "spuriously-failed", "wrong-data", "never-executed", "executing-operation-result"]),
            dict(harness="async", group="life", cases=4000, only=["called-twice", "never-completed", "wrong-executor", "operation-started-before-move-failed"])],
    "C15": [dict(harness="async", group="life", cases=6000, only=["cancel-without-effect", "cancel-failed", "closed-file-cancels", "executing-operation-aborted"])],
    "C16": [dict(harness="async", group="cancel", cases=9000, shards=2, only=["not-aborted-by-close", "aborted-operation-executed", "aborted-operation-has-effect", "touched-another-file", "called-twice", "never-completed"]),
            dict(harness="async", group="life", cases=6000, only=["called-twice", "never-completed", "wrong-file"])],
    "C17": [dict(harness="async", group="cancel", cases=4000, only=["not-aborted-by-close", "touched-another-file", "close-failed", "never-completed"])],
    "C26": [dict(harness="core", group="tokens_mt", flavour="tsan", cases=1000), dict(harness="core", group="compose_mt", flavour="tsan", cases=800)],
}
for _p, _j in EXTRA.items(): SPECS[_p]["jobs"] += _j

# The Boost.Asio configuration of the library: a part of the cases again
BOOST = {"C01": ["model"], "C03": ["asioops"], "C04": ["valid"], "C05": ["hostile"], "C18": ["tokens", "tokens_mt"], "C07": ["open"], "C08": ["io"], "C09": ["faults"], "C10": ["owner"], "C11": ["forms"], "C12": ["whole"], "C13": ["meta"], "C06": ["native"],
         "C14": ["ops", "keepalive"], "C15": ["cancel"], "C16": ["shutdown"], "C17": ["life"], "C19": ["compose", "bound", "compose_mt"], "C20": ["unique"],
         "C21": ["v4", "hostile4"], "C22": ["v5"], "C23": ["hostile4", "hostile5", "errors"], "C24": ["sync", "async"], "C25": ["history"]}
for _p, _g in BOOST.items():
    for _j in [j for j in SPECS[_p]["jobs"] if j["group"] in _g and "only" not in j and j.get("flavour", "asan") == "asan"]:
        SPECS[_p]["jobs"].append(dict(_j, flavour="boost", cases=max(1, _j["cases"] // (4 * _j.get("shards", 1))), shards=1, tshards=_j.get("tshards", _j.get("shards", 1))))

for _p, _re in {"C04": r"asioext::(url_view|detail::parse_url)", "C05": r"asioext::(url_view|detail::parse_url)"}.items(): SPECS[_p]["defines"] = _re

ALL = ["C%02d" % i for i in range(1, 27)]
NOT_APPLICABLE = {p: "no check registered yet" for p in ALL if p not in SPECS}
