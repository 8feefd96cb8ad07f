prop("C07", "Opening a file does exactly what the flags ask, or nothing",
 """For every combination of access, creation disposition, permissions and path state, opening succeeds exactly when the documented disposition allows
 (create_new fails if the file exists, open_existing/truncate_existing fail if it does not, create_always and truncate_existing empty it, open_always and open_existing keep its contents), and the resulting handle permits exactly the requested access.
 A newly created file gets the requested permission bits reduced by the umask; handles are not inherited across exec.
 Invalid flag combinations (several dispositions, truncation without write access) are rejected with an error and leave the file system and descriptor table untouched.""",
 ["inputs", "configurations"], "all flag words, path states (missing, empty, filled, directory, read-only, symlink), umasks and entry points",
 "Tests cover a dozen flag combinations through one or two entry points and never look at the descriptor flags or side effects of failure.",
 ["open.hpp", "open_args.hpp", "open_flags.hpp", "impl/open.cpp", "impl/open_args.hpp", "impl/open_flags.cpp", "detail/impl/posix_file_ops.cpp", "unique_file_handle.hpp", "impl/unique_file_handle.cpp", "basic_file.hpp"],
 [("flag validation and translation", "detail/impl/posix_file_ops.cpp"), ("open entry points", "impl/open.cpp, impl/unique_file_handle.cpp, impl/thread_pool_file_service.cpp")],
 ["error codes, stat/content/mode before and after, /proc/self/fd, F_GETFD, F_GETFL"])

prop("C08", "File I/O moves exactly the requested bytes at the right place",
 """Any sequence of synchronous reads, writes, positional reads and writes, seeks, position and size queries and resizes on file handles, unique handles and
 file objects (with any scatter/gather buffer sequence, including empty pieces) gives the same results and the same final file as a byte-array model with a file position:
 the returned count says exactly how many bytes moved and no other byte of the caller's buffers or file changes.
 Positional operations never move the file position, and end_of_file is reported exactly when a non-empty read finds no byte left.""",
 ["histories", "inputs"], "all operation histories over several handles of the same or different files, all buffer shapes, offsets including beyond 4 GiB",
 "Tests write and read one short string each; no history mixes positional and streaming I/O, seeks and resizes.",
 ["file_handle.hpp", "impl/file_handle.hpp", "impl/file_handle_posix.hpp", "impl/file_handle_posix.cpp", "detail/impl/posix_file_ops.cpp", "detail/posix_file_ops.hpp", "detail/buffer_sequence_adapter.hpp", "basic_file.hpp", "unique_file_handle.hpp", "thread_pool_file_service.hpp", "impl/thread_pool_file_service.cpp"],
 [("readv/writev/preadv/pwritev wrappers", "detail/impl/posix_file_ops.cpp")],
 ["return values, buffers with guard bytes, file contents through independent descriptors"])

prop("C09", "System-call faults are absorbed or reported exactly, never lost",
 """When the operating system interrupts, shortens or fails a file system call, the operation still tells the truth:
 interrupted opens, reads and writes are retried transparently, short transfers are reported with the exact byte count, and any other failure is reported as that same error with a count of zero.
 No data is duplicated or skipped, a failed operation is never reported as success nor a successful one as failed, and no descriptor is leaked, double-closed or closed on retry.""",
 ["fault_sequences", "histories"], "all placements of EINTR, short transfers and hard errors in the system calls of each operation",
 "Tests run on a healthy file system; no fault ever occurs.",
 ["detail/impl/posix_file_ops.cpp", "impl/file_handle_posix.cpp", "impl/file_handle_posix.hpp", "impl/unique_file_handle.cpp", "impl/thread_pool_file_service.cpp", "impl/read_file.hpp", "impl/write_file.hpp", "impl/duplicate.cpp"],
 [("errno handling and retry loops", "detail/impl/posix_file_ops.cpp")],
 ["link-time wrapped system calls with a fault plan and a call log"])

prop("C10", "Every file descriptor has one owner and is closed exactly once",
 """A descriptor obtained by opening or duplicating is closed exactly once: by close, by reset with another handle, by assignment, or by destruction of its current owner, and not before.
 Moving, swapping, releasing (from unique handles) and resetting transfer ownership without closing or leaking anything; released and plain (non-owning) handles are never closed automatically.
 A moved-from, released or closed object reports not open, holds the null handle and can be reused; duplicates are independent descriptors of the same open file that are not inherited across exec.""",
 ["histories"], "all sequences of open, move, swap, reset, release, close, duplicate and destroy over several owners",
 "Tests have one or two single-handle scenarios and never look at the descriptor table.",
 ["unique_file_handle.hpp", "impl/unique_file_handle.cpp", "file_handle.hpp", "impl/file_handle.cpp", "duplicate.hpp", "impl/duplicate.cpp", "basic_file.hpp", "thread_pool_file_service.hpp", "impl/thread_pool_file_service.cpp"],
 [("unique_file_handle ownership", "unique_file_handle.hpp"), ("service open/close/release/assign", "impl/thread_pool_file_service.cpp")],
 ["wrapped open/dup/close log with per-descriptor ownership, /proc/self/fd"])

prop("C11", "Throwing and error-code forms agree, and success clears the code",
 """Every operation offered both in a throwing and in an error-code form behaves the same in both: the throwing form throws a system_error carrying exactly the error the other form reports in the same situation, and returns the same result otherwise.
 The error-code form overwrites a stale code on success and sets a non-zero one on every failure.
 This holds for handles, unique handles, file objects, open and duplicate helpers, standard streams and whole-file helpers, on invalid, closed and wrong-mode handles as well as good ones.""",
 ["inputs", "configurations"], "every dual-form operation in every object state, entered with a stale error code",
 "Tests use mostly one form and always start with a fresh code.",
 ["file_handle.hpp", "impl/file_handle.cpp", "impl/file_handle_posix.cpp", "basic_file.hpp", "unique_file_handle.hpp", "open.hpp", "impl/open.cpp", "duplicate.hpp", "standard_streams.hpp", "impl/standard_streams.cpp", "read_file.hpp", "write_file.hpp"],
 [("throw_error wrappers", "detail/impl/throw_error.cpp and the wrappers in each file")],
 ["paired executions of both forms on equal state"])

prop("C12", "Whole-file helpers read and write the exact contents",
 """read_file yields exactly the bytes of the file (into strings, vectors, linear buffers and fixed buffers) and write_file leaves a file containing exactly the given bytes, whatever the size, container or buffer sequence.
 Short transfers and interruptions by the system do not corrupt or truncate the data; a fixed buffer larger than the file, a file that shrinks, and any system failure surface as an error instead of wrong data.
 Reading needs permission only to read and never creates or changes a file, writing needs permission only to write and creates the file with the default permissions; the helpers leave no descriptor open, in success or failure.""",
 ["inputs", "fault_sequences"], "all sizes, container and buffer kinds, and all fault placements",
 "Tests use one short fixed string per container and no faults.",
 ["read_file.hpp", "impl/read_file.hpp", "write_file.hpp", "impl/write_file.hpp", "is_raw_byte_container.hpp"],
 [("read loops", "impl/read_file.hpp"), ("write loops", "impl/write_file.hpp")],
 ["resulting bytes, error codes, /proc/self/fd"])

prop("C13", "Permissions, attributes and times change exactly as asked",
 """Setting permissions in replace, add or remove mode changes precisely the requested read/write/execute bits (add and remove leave every other mode bit alone) and querying returns the file's actual mode; setting file times changes access and modification times to exactly the given nanosecond values, and a zero time leaves that one untouched.
 Querying times returns what the file system holds, including times before 1970, and never invents a value for times it cannot represent.
 Operations that fail (bad handle, unsupported request) change nothing.""",
 ["inputs", "histories"], "all permission words and modes, all representable times, through handles, unique handles and file objects",
 "Tests set two modes and a couple of recent times.",
 ["file_handle.hpp", "file_perms.hpp", "file_attrs.hpp", "impl/file_handle_posix.cpp", "detail/impl/posix_file_ops.cpp", "detail/impl/chrono.hpp", "basic_file.hpp"],
 [("permissions/get_times/set_times", "detail/impl/posix_file_ops.cpp")],
 ["fstat/utimensat by independent descriptors"])

prop("C14", "Every asynchronous file operation completes exactly once, correctly",
 """Every asynchronous read or write started on a file object completes exactly once, never inside the initiating call, on the executor associated with its handler, with the same error and byte count the synchronous operation would give, and its data is in place before the handler runs.
 Operations may be started concurrently for different files, from handlers, and with callbacks (lvalue handlers are copied, not moved from), executor-bound handlers, futures and coroutines; completions are never lost, duplicated or mixed up, and a pending operation keeps the event loop its handler runs on alive until the handler has been invoked.
 Buffers, handlers and file positions are not touched after completion.""",
 ["schedules", "histories"], "all interleavings of initiating threads, pool threads and event-loop threads, all operation mixes and tokens",
 "Tests start a single operation at a time and run on one thread.",
 ["basic_file.hpp", "thread_pool_file_service.hpp", "impl/thread_pool_file_service.hpp", "impl/thread_pool_file_service.cpp", "detail/bound_handler.hpp", "bind_handler.hpp", "work.hpp"],
 [("operation structs posted to the pool", "impl/thread_pool_file_service.hpp"), ("complete_to_bound_handler / work guard", "detail/bound_handler.hpp")],
 ["event log of initiate/complete with thread and executor ids, data patterns, ThreadSanitizer"])

prop("C15", "Cancelling aborts pending operations and nothing else",
 """cancel() on a file makes every operation that was started before it and has not begun executing complete once with operation_aborted and no effect on the file, while operations already executing or completed keep their true result.
 Operations started afterwards on the same file run normally, and operations of other files, including files on the same context or service, are unaffected; closing a file likewise aborts its operations that have not begun executing.
 cancel() itself never blocks on, loses or duplicates a completion.""",
 ["schedules", "histories"], "all positions of cancel among queued, executing and later operations on several files",
 "One test cancels a queued operation; nothing checks later operations or other files under load.",
 ["basic_file.hpp", "thread_pool_file_service.hpp", "impl/thread_pool_file_service.hpp", "impl/thread_pool_file_service.cpp", "cancellation_token.hpp", "impl/cancellation_token.cpp"],
 [("cancellation token per file", "impl/thread_pool_file_service.cpp")],
 ["completion log per operation, file contents"])

prop("C16", "Destruction and shutdown with operations outstanding is safe",
 """Destroying file objects and their context, in any order allowed by their lifetimes and at any moment while operations are queued, executing or completed but not yet dispatched, causes no data race, use of freed memory, deadlock or leak.
 Every handler is then either invoked once or destroyed uninvoked (while the services its resources need still exist), never both, and its resources are released; descriptors owned by destroyed files are closed.
 Destroying one file aborts its own not yet started operations only, and no operation ever touches a file other than its own.""",
 ["schedules", "crash_points"], "all shutdown moments relative to queued, running and completed operations",
 "No test destroys anything while an operation is outstanding.",
 ["thread_pool_file_service.hpp", "impl/thread_pool_file_service.hpp", "impl/thread_pool_file_service.cpp", "io_object_holder.hpp", "detail/service_base.hpp", "detail/thread_group.hpp", "basic_file.hpp"],
 [("shutdown_service, destroy, close_for_destruction", "impl/thread_pool_file_service.cpp")],
 ["handler life-cycle ledger, /proc/self/fd, AddressSanitizer, ThreadSanitizer"])

prop("C17", "File objects stay fully usable across close, reopen, move and assignment",
 """Whatever sequence of open, close, move construction, move assignment (between files on the same or different contexts) and reopening a file object has been through, an open file performs synchronous and asynchronous operations on its own current file with its own executor, and cancel works on it.
 A moved-from or closed file reports not open, its operations fail with an error rather than crash, and it can be opened again.
 Operations started before a move complete normally with correct results; those not yet started when their file is closed or assigned over are aborted.""",
 ["histories", "schedules"], "all life-cycle sequences of several file objects with operations between the steps",
 "Tests move and reopen at most once and do no asynchronous work afterwards.",
 ["basic_file.hpp", "io_object_holder.hpp", "thread_pool_file_service.hpp", "impl/thread_pool_file_service.cpp"],
 [("move_construct/move_assign/assign/open/close", "impl/thread_pool_file_service.cpp"), ("io_object_holder moves", "io_object_holder.hpp")],
 ["results of probes after each step"])

prop("C18", "Cancellation tokens follow their source exactly",
 """A token reports cancelled exactly when, after it was issued, its source was cancelled, destroyed, assigned over or went out of scope, or when it was issued by a destroyed or moved-from source; tokens issued after cancel() are unaffected by it.
 reset() makes a destroyed source issue fresh, uncancelled tokens without reviving older ones and does nothing to a live source, cancelling a destroyed source leaves it destroyed, copies and moves of tokens observe the same state, and a moved-to source takes over the tokens of the moved-from one.
 All of this holds when cancel and observation happen concurrently on different threads, without data races.""",
 ["histories", "schedules"], "all histories over several sources and tokens, and concurrent cancel/observe schedules",
 "No test exercises tokens or sources directly.",
 ["cancellation_token.hpp", "impl/cancellation_token.cpp"],
 [("shared atomic flag behind weak references", "cancellation_token.hpp")],
 ["reference model, ThreadSanitizer"])

prop("C19", "Composed operations and bound handlers preserve executor, allocator and work",
 """A composed operation invokes its final handler exactly once with the arguments it completed with, and every intermediate and final invocation runs on the executor associated with the handler, using the handler's associated allocator; initiating through any completion token returns or delivers the same result, and lvalue handlers and implementations are copied, not moved from.
 A bound handler passes the bound arguments unchanged, reports the executor and allocator of the handler, and forwards its continuation hint.
 Work on the given I/O objects' executors is kept until the handler has been invoked or destroyed and released afterwards, and memory obtained for intermediate steps is released before the handler is invoked.""",
 ["schedules", "histories", "configurations"], "all nesting depths, executors, allocators, tokens and completion paths",
 "Tests check handler-acquisition counts for a fixed two-step operation.",
 ["compose.hpp", "bind_handler.hpp", "detail/bound_handler.hpp", "work.hpp", "associated_allocator.hpp", "async_result.hpp"],
 [("composed_operation", "compose.hpp"), ("bound_handler and work", "detail/bound_handler.hpp")],
 ["tracing executors and allocators, invocation ledger"])

prop("C20", "A type-erased unique handler owns its target and calls it at most once",
 """A unique handler holding a callable invokes exactly that callable with exactly the given arguments, at most once, and is empty afterwards; it uses the callable's associated allocator for its storage, which is released before the call is made.
 Each stored callable is destroyed exactly once: on invocation, replacement, reset or destruction, and moves transfer it without copying.
 Storing a callable whose allocation, copy or move throws leaves no leak, double destruction or dangling state.""",
 ["histories", "fault_sequences"], "all sequences of construct, assign, move, swap, invoke and destroy over several handlers, with throwing allocators and moves",
 "Tests construct and invoke a few lambdas once.",
 ["unique_handler.hpp", "impl/unique_handler.cpp"],
 [("type-erased storage", "unique_handler.hpp")],
 ["callable life-cycle ledger, ledger allocator, AddressSanitizer"])

prop("C21", "The SOCKS4/4a client sends the exact request and honours the reply",
 """For every command, IPv4 endpoint or non-empty host name, port and user id, the SOCKS version 4 client puts exactly the request prescribed by the protocol on the wire (SOCKS4a form for host names: address 0.0.0.x with x non-zero followed by the NUL-terminated user id and host name; port in network byte order), once and with nothing that the caller's buffer held before, and on success has read exactly the eight reply bytes and left none of them in the buffer.
 It completes without error only when the reply grants the request; each rejection code and any other code is reported as an error.
 Inputs that cannot be encoded (IPv6 endpoints, embedded NULs) are rejected with an error and nothing is sent.""",
 ["inputs", "fault_sequences"], "all commands, endpoints, names, user ids and reply bytes, under any stream fragmentation",
 "No test exercises the SOCKS client.",
 ["socks/client.hpp", "socks/detail/client.hpp", "socks/detail/protocol.hpp", "socks/detail/impl/protocol.cpp", "socks/impl/client.hpp", "socks/constants.hpp", "socks/error.hpp"],
 [("v4 packet encoder and reply decoder", "socks/detail/impl/protocol.cpp"), ("v4 operation", "socks/detail/client.hpp")],
 ["scripted in-memory stream"])

prop("C22", "The SOCKS5 client sends exact, well-formed messages in protocol order",
 """Each SOCKS version 5 step (greeting, user/password login, command execution) puts exactly the message prescribed by RFC 1928/1929 on the wire for any list of 1 to 255 methods, non-empty credentials, IPv4, IPv6 or non-empty host name target, command and port, once and with nothing that the caller's buffer held before, and on success has read exactly the server's reply to that step and no byte beyond it, leaving nothing in the buffer.
 The greeting reports the method the server chose, and login and execution succeed exactly when the server says so.
 Arguments that cannot be encoded (credentials or host names longer than 255 bytes, no methods or more than 255) are rejected with an error and nothing is sent.""",
 ["inputs", "fault_sequences"], "all arguments and conforming replies of all address types, under any fragmentation",
 "No test exercises the SOCKS client.",
 ["socks/client.hpp", "socks/detail/client.hpp", "socks/detail/protocol.hpp", "socks/detail/impl/protocol.cpp", "socks/impl/client.hpp", "socks/constants.hpp"],
 [("v5 packet encoders and decoders", "socks/detail/impl/protocol.cpp"), ("v5 operations", "socks/detail/client.hpp")],
 ["scripted in-memory stream, completion tokens compared"])

prop("C23", "Hostile SOCKS servers cannot corrupt memory or fake success",
 """Whatever bytes a SOCKS server sends, however fragmented and wherever it closes or fails the connection, the client stays memory-safe, terminates, and completes exactly once with success only for a well-formed positive reply.
 Every protocol violation (wrong version, unknown status or address type, truncated reply) and every transport error is reported as an error; each defined failure status maps to its own error value.
 The verdict is the same for every completion token and buffer, and a session abandoned midway leaks nothing.""",
 ["inputs", "fault_sequences"], "all reply byte strings, fragmentations, and error positions",
 "No test exercises the SOCKS client.",
 ["socks/detail/client.hpp", "socks/detail/impl/protocol.cpp", "socks/error.hpp", "socks/impl/socks_error.cpp"],
 [("reply decoding", "socks/detail/impl/protocol.cpp")],
 ["fuzzed in-memory server, AddressSanitizer"])

prop("C24", "The connect helper tries endpoints in order until one works",
 """Connecting to a resolved host or an endpoint list, synchronously or asynchronously, tries the endpoints in order, each at most once and with a freshly opened socket of the right protocol, stops at the first success and returns the connected socket.
 If all attempts fail the last error is reported and the socket is not connected, and an empty endpoint list or failed resolution reports an error without connecting.
 The outcome is delivered exactly once and no descriptor leaks, also when the operation is cancelled, its socket closed or its context destroyed midway.""",
 ["inputs", "fault_sequences"], "all lists of reachable and unreachable endpoints",
 "No test exercises connect.",
 ["connect.hpp", "impl/connect.cpp"],
 [("connect loop", "connect.hpp, impl/connect.cpp")],
 ["local loopback listeners, descriptor table"])

prop("C25", "Buffered stream reads and writes lose, duplicate or reorder no byte",
 """Bytes read through a buffered stream are exactly the bytes of the underlying stream in order, whatever mix of fills, consumption, size limits and underlying fragmentation, and the bytes reaching the underlying stream through synchronous and asynchronous flushes are exactly those appended to the write buffer, in order, once, also across short and failing writes that are retried; can_flush() is true exactly when unsent data is left and no flush is running.
 Error and end-of-stream conditions of the underlying stream are reported with the exact byte count after all its data was delivered; a stale error code passed in has no influence.
 A second flush while one is pending fails with already_started and changes nothing, handlers run once and never inside the initiating call, and close() drops all buffered data. All buffers take their memory from the allocator given to the stream.""",
 ["histories", "inputs"], "all read/write/flush histories and fragmentations",
 "No test exercises the buffered stream.",
 ["experimental/buffered_stream.hpp"],
 [("buffered_read/write stream", "experimental/buffered_stream.hpp")],
 ["scripted stream against a byte queue"])

prop("C26", "Distinct objects can be used from different threads without interference",
 """Using distinct file objects, handles, buffers, parsers, tokens and composed operations from different threads at the same time, including files that share one context or service and error categories or services initialised on first use, causes no data race and each thread gets the same results as when running alone.""",
 ["schedules"], "all interleavings of threads working on distinct objects that share a context, service or process-wide state",
 "All tests are single-threaded.",
 ["impl/thread_pool_file_service.cpp", "thread_pool_file_service.hpp", "impl/error.cpp", "socks/impl/socks_error.cpp", "cancellation_token.hpp", "linear_buffer.hpp", "impl/open.cpp"],
 [("service mutex and lazily created singletons", "impl/thread_pool_file_service.cpp")],
 ["ThreadSanitizer and per-thread result comparison"])
