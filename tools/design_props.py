P={}
P["C01"]=("linear_buffer/model, alloc","""Four interacting buffers go through random histories of 8-48 operations (insert, append, erase, resize, reserve, consume,
shrink, copy, move, swap, iterators), each mirrored on a `std::string`-like model with its own size/capacity rules; after each step
contents, size, capacity monotonicity, data() stability and the thrown `length_error`s are compared. ASan watches the storage edges. The
tests use a handful of short fixed sequences; the histories reach every combination of spare front/back room, self-overlap and growth.""")
P["C02"]=("linear_buffer/alloc (asan and -O2), model","""A ledger allocator (equal / unequal arenas, propagating or not) records every allocation with its size and arena; a wrong size, a foreign
arena, a double or null deallocation or a leak at the end is a report. Half of the histories inject `bad_alloc` at random allocations;
afterwards the buffer has to be unchanged or in its documented state.""")
P["C03"]=("linear_buffer/dynv1, dynv2, asioops","""The two DynamicBuffer interfaces are driven with hostile sizes (0, around max_size, SIZE_MAX) against a queue model, and by asio's own
composed operations (read, read_until, write) over a stream with random fragmentation.""")
P["C04"]=("url/valid","""URLs are assembled from random legal components (so every expected component is known), parsed from an exact-size heap copy, and all accessors compared.""")
P["C05"]=("url/hostile, exhaustive","""Arbitrary bytes, adversarial alphabets, mutations of valid URLs and *all* single-byte insertions, substitutions and prefixes of base URLs
are parsed from exact-size heap copies under ASan. An independent RFC 3986 appendix-B splitter decides which inputs have to be rejected and,
when accepted, what the slices must be; both forms have to agree; errors have to be defined ones.""")
P["C06"]=("chrono/cast, pairs, timet, native","""All results are compared with 128-bit arithmetic, with values concentrated at the limits of each pair of types (also 16/32-bit ones), under UBSan.
The native path is reached with synthetic `fstat` results and captured `futimens` arguments.""")
P["C07"]=("file_ops/open","""Every open is compared with the equivalent `open(2)` on a twin directory (outcome, error, created file, mode under random umask, contents,
descriptor flags), for random flag words through eight entry points and 15 kinds of paths, some of them as an unprivileged process.""")
P["C08"]=("file_ops/io","""Byte-array model of three files with per-description positions; random histories over three handle kinds, duplicates sharing positions,
scatter/gather shapes (empty, many, more than IOV_MAX), offsets beyond 4 GiB, all access modes; guard bytes around every destination.""")
P["C09"]=("file_ops/faults","""Fault plans (runs of EINTR, short transfers, hard errors) at the wrapped calls of one operation; the call log decides how often what had to be called,
that no byte is skipped or sent twice, that hard errors come out exactly and that close is not repeated.""")
P["C10"]=("file_own/owner","""Ownership ledger over all opens, duplicates and closes: after each step the process' descriptor table must be exactly what the owner objects own.
A part of the histories runs with descriptor 0 free, so that 0 is a descriptor like any other.""")
P["C11"]=("file_own/forms","""Each dual-form operation is executed in both forms on twin state with the same faults and stale error codes; results, effects and errors have to be the same.""")
P["C12"]=("file_own/whole","""Contents oracle for read_file/write_file over containers and buffer sequences, with short transfers, EINTR, hard errors in every call,
files that shrink between stat and read, allocation failures, containers too narrow for the file, missing files, and callers who may only read or only write.""")
P["C13"]=("file_ops/meta","""After every metadata operation an independent `fstat` is compared with a model of mode and times; constants are given by name and by octal value.""")
P["C14"]=("async/ops, keepalive (asan, tsan)","""Each asynchronous operation has a twin: the synchronous operation on a twin file under the same fault plan. Monitors check executor, thread,
initiation, exactly-once, buffers (not touched after completion) and that `run()` of the loop of the handler lasts until it ran.""")
P["C15"]=("async/cancel, cancel_mt (asan, tsan)","""The single pool thread is held inside the system call of a first operation, so what is queued is known exactly: an epoch per operation says whether
it must be aborted or must run; the system-call log and contents show that aborted ones had no effect. A free-running variant accepts both outcomes only
for operations that really raced.""")
P["C16"]=("async/shutdown, window (asan, tsan)","""Random sessions are torn down at random moments (files, contexts, handlers owning files, sockets and timers). Handler-lifetime ledger: invoked once or
destroyed uninvoked. Leaks, use after free and races by the sanitizers; descriptor table compared. `window` shows the known finding (section 4).""")
P["C17"]=("async/life (asan, tsan), life_strand, life_plain","""Model of {open, path, context, executor} per file object, probed after every step by synchronous and asynchronous operations and cancellation.""")
P["C18"]=("core/tokens, tokens_mt (asan, tsan)","""Generation model over random histories of sources and tokens. Threads: a token polled after cancel() returned has to be cancelled, one polled before it
began must not be; TSan.""")
P["C19"]=("core/compose, bound, compose_mt (asan, tsan)","""A tracing executor (posts, work count), a ledger allocator and continuation hints are observed at each step of random composed operations.""")
P["C20"]=("core/unique","""Ledger allocator and identity-counting callables; random histories with failing allocations and moves, and re-entrant use from calls and destructors.""")
P["C21"]=("socks/v4, hostile4, cuts4, session","""An independent encoder predicts the exact bytes on the wire; an independent judge predicts the verdict for each reply; a stream with scripted
fragmentation counts what was read and sent. Sessions over loopback TCP with futures and coroutines.""")
P["C22"]=("socks/v5, hostile5, session","""As C21, by RFC 1928/1929; behind each reply there is proxied data, none of which may be read.""")
P["C23"]=("socks/hostile4, hostile5, cuts4, cuts5, abandon, errors","""Random and mutated replies, every prefix of good replies, each value of each fixed byte, transport errors at every point, abandonment.""")
P["C24"]=("connect/sync, async, stop","""`getaddrinfo`, `socket`, `connect` and `close` are wrapped: endpoints lists are scripted, attempts are logged (order, count, socket state), descriptors compared.""")
P["C25"]=("buffered/history, sockets","""Byte-queue model compared after each step over a scripted stream that fragments, fails and ends; digests over socket pairs.""")
P["C26"]=("async/threads (tsan, asan), parallel (tsan, asan)","""2-6 threads use distinct objects of each kind on one context; a second workload runs 15 kinds of work drawn from every component
(whole files, times, permissions, handles, linear buffers, URL parsing, handlers, custom allocators, SOCKS steps, connects, buffered streams) side by side. TSan, and each thread's digest is compared with the same work done alone.""")
