#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=["include/asioext/" + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "A linear buffer always behaves as a plain byte sequence",
 """After any sequence of construction, copy, move, swap, assignment, append, insert, erase, resize, reserve,
 clear and element access, a linear buffer has exactly the size and bytes a plain byte sequence subjected to the same
 operations would have, and its capacity is never below its size, nor does growing take it beyond max_size().
 An operation that would push the size above max_size() throws std::length_error and leaves the buffer unchanged.
 A moved-from buffer is empty and can be reused like a new one.""",
 ["histories", "inputs"], "all operation sequences over several interacting buffers, any data, positions and limits",
 "The tests run a few fixed calls on one buffer each; position/capacity interplay (insert with spare capacity, move-assign onto a filled buffer) is unbounded.",
 ["linear_buffer.hpp", "impl/linear_buffer.hpp"],
 [("insert/erase/append/resize shifting and reallocation", "impl/linear_buffer.hpp"), ("copy and move special members", "linear_buffer.hpp")],
 ["public accessors after every operation"])

prop("C02", "Linear buffer storage is conserved, for any allocator",
 """A linear buffer never reads or writes outside the storage it owns and hands every block back exactly once, with the size
 it was allocated with, to an allocator equal to the one that supplied it: nothing leaks and nothing is freed twice.
 This holds for stateful, unequal, propagating and non-propagating allocators and through copy, move and self-assignment.
 When an allocation fails the exception reaches the caller and the buffer keeps the value it had.""",
 ["histories", "fault_sequences", "configurations"], "all operation sequences, allocator kinds and allocation-failure points",
 "Tests use std::allocator only and never fail an allocation; nothing observes deallocation sizes or leaks.",
 ["linear_buffer.hpp", "impl/linear_buffer.hpp"],
 [("reallocate()", "impl/linear_buffer.hpp"), ("move_assign()", "impl/linear_buffer.hpp")],
 ["a ledger allocator recording every allocate/deallocate", "AddressSanitizer/LeakSanitizer"])

prop("C03", "The dynamic buffer adapter keeps input and output sequences apart",
 """Adapting a linear buffer as a dynamic buffer gives an input sequence that starts as the buffer's existing bytes, grows only
 by the bytes committed (or grown) and shrinks only by those consumed (or shrunk), in order and unaltered; prepare()/grow() never
 let the total pass max_size(), but fail with length_error (or an error code) and change nothing.
 Data views never extend past the existing bytes, and commit, consume and shrink clamp to what is there.
 asio's composed reads and writes transfer exactly the right bytes through it for any fragmentation.""",
 ["histories", "inputs"], "all call sequences of both dynamic-buffer interfaces with any limits and sizes, and stream fragmentations",
 "Existing tests make a handful of prepare/commit calls; no composed asio operation is ever run through the adapter.",
 ["linear_buffer.hpp", "impl/linear_buffer.hpp"],
 [("prepare/commit/consume/data/grow/shrink", "linear_buffer.hpp")],
 ["size/max_size/capacity/data of the adapter and underlying buffer after each call"])

prop("C04", "A valid URL decomposes into exactly the parts it was written with",
 """For every URL assembled from legal components, parsing succeeds and each accessor returns exactly the component used to build it:
 scheme, userinfo, host (including bracketed IPv6 literals with optional zone id), port, path, query and fragment; absent parts read as empty.
 The numeric port is the written one, or else the well-known default of the scheme (80 for http, 443 for https, 21 for ftp), and the original text is preserved unchanged.""",
 ["inputs"], "all combinations of legal components",
 "Tests parse a small table of fixed URLs; the character-level state machine has many more paths.",
 ["url_view.hpp", "impl/url_view.cpp", "detail/url_parser.hpp", "detail/impl/url_parser.cpp"],
 [("url_parser state machine", "detail/impl/url_parser.cpp"), ("component slices", "url_view.hpp")],
 ["url_view accessors"])

prop("C05", "Parsing arbitrary bytes as a URL is memory-safe and all-or-nothing",
 """For any non-empty byte string of any length, parsing stays within the input's bytes, terminates and either succeeds or reports an error, never both
 (the throwing and error-code forms agree); a rejected view is invalid and has no components.
 When it succeeds, every component is a slice of the input, in order, that together with the delimiters reconstructs the text, the written port if any is a decimal number of at most 65535 and equals the numeric port, and no component contains a space, NUL, line break, DEL or non-ASCII byte.
 Inputs with a malformed scheme, a space, NUL, line break or DEL, a host or IPv6 literal that is unterminated or has characters not allowed there, or an out-of-range or non-numeric port are rejected.""",
 ["inputs"], "all byte strings, including mutated valid URLs and exact-size buffers with no terminator",
 "Tests try around a dozen malformed strings; none runs on an exact-size allocation under a memory checker.",
 ["url_view.hpp", "impl/url_view.cpp", "detail/url_parser.hpp", "detail/impl/url_parser.cpp"],
 [("url_parser state machine", "detail/impl/url_parser.cpp")],
 ["error code, accessors, AddressSanitizer"])

prop("C06", "Time conversions are exact and never wrap",
 """Converting between native file times and std::chrono durations or time points is exact whenever the value is representable in the target
 (fractions finer than the target resolution are floored or truncated consistently), including times before the epoch, and round trips return the original.
 A value outside the target's range (or, when the two units are not multiples of each other, one whose 64-bit intermediate product is) is reported as a failure and leaves the output untouched;
 nothing ever wraps around and no arithmetic overflow occurs. Splitting a time into seconds and a remainder always yields a non-negative remainder below one second.""",
 ["inputs"], "all tick counts and all supported duration types, at and around every limit",
 "Tests check a few constants per type; the limits are crossed in several places per conversion.",
 ["chrono.hpp", "impl/chrono.cpp", "detail/chrono.hpp", "detail/impl/chrono.hpp"],
 [("compose_time/decompose_time/safe_duration_cast", "detail/impl/chrono.hpp")],
 ["results against 128-bit arithmetic", "UndefinedBehaviorSanitizer"])
json_out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read())
with open(json_out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
