#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("P01", "Byte and text values are transparent: representation never changes content",
  "A byte or string value holds exactly the bytes it was made from, whichever constructor, conversion, clone or slice produced it and whichever internal representation (inline, static, borrowed, shared, external) it has. Cloning, slicing, converting or dropping one value never changes the content of any other value. Length, emptiness and content always agree with each other.",
  ["inputs", "histories"], "all byte contents and lengths (including the 0/14/15 inline limits), all chains of constructors, conversions, clones, slices and drops over a pool of values",
  "The tests look at a handful of fixed literals; they never chain conversions across representations or compare all live values after each step.",
  ["src/bytedata.rs", "src/stringdata.rs", "src/byte_chunk.rs", "src/shared_bytes.rs", "src/external.rs", "src/kind.rs"],
  [("representation dispatch in as_slice/len/is_empty", "src/bytedata.rs"), ("chunk inlining of short content", "src/byte_chunk.rs"), ("offset/len narrowing of shared and external handles", "src/shared_bytes.rs, src/external.rs")],
  observe=["as_slice/len/is_empty/Eq of every live value after every operation"])
p("P02", "Range arguments: exact sub-range, or a panic; never out-of-bounds data",
  "Every operation that takes a range on a byte value, string value, shared buffer or external buffer either yields exactly the bytes of that range or, when start > end or end > length (or a bound overflows), panics (or returns None where it is documented as fallible). It never yields bytes outside the value, and this does not depend on whether arithmetic overflow checks are compiled in.",
  ["inputs", "configurations"], "all bound kinds (included, excluded, unbounded) and all bound values from 0 to usize::MAX, every representation, builds with and without overflow checks",
  "Tests only use valid ranges and only run in the debug profile, where an arithmetic overflow would panic by itself.",
  ["src/bytedata.rs", "src/stringdata.rs", "src/shared_bytes.rs", "src/external.rs", "src/shared_bytes_builder.rs"],
  [("bounds checks in sliced/into_sliced/make_sliced(_range)", "src/shared_bytes.rs"), ("range resolution in sliced/into_sliced/make_sliced", "src/bytedata.rs, src/stringdata.rs"), ("shrink/sliced of external data", "src/external.rs")],
  observe=["panic or resulting bytes of each slicing call"])
p("P03", "Shared memory is reclaimed exactly once, with its layout, by the last handle",
  "Every heap block the library obtains is released exactly once, with the size and alignment it was obtained with, no later than when the last value, builder, queue or converted object that can reach it is gone, and never while one is still alive. This holds for any history of create, clone, slice, convert, freeze, take-back and drop, including operations that panic.",
  ["histories", "inputs"], "all finite histories over pools of values, builders, queues and converted Bytes objects, including panicking operations",
  "No test observes the allocator; a leak, a wrong layout or an early free does not fail any assertion.",
  ["src/shared_bytes.rs", "src/shared_bytes_builder.rs", "src/external.rs", "src/bytes_1/shared_bytes.rs", "src/queue/linked_root.rs"],
  [("reference count in the allocation header", "src/shared_bytes.rs"), ("builder drop/freeze/into_vec", "src/shared_bytes_builder.rs"), ("external control block reference count", "src/external.rs"), ("Bytes vtable clone/drop/to_vec", "src/bytes_1/shared_bytes.rs")],
  state=[("reference count", "number of live handles of a block", "src/shared_bytes.rs header word")],
  observe=["global allocator of the harness (size, alignment, liveness of each block)"])
p("P04", "Sharing across threads is free of data races and of early or double release",
  "When handles to the same shared buffer or external owner are cloned, read and dropped on different threads in any order, every read of the bytes happens-before the release of the memory, the memory is released exactly once, and a mutable or owning take-back is granted only when every other handle is gone and their reads happen-before the taking.",
  ["schedules", "histories"], "all interleavings of clone, read, drop, uniqueness test and take-back over several threads, under the memory orderings the code actually uses",
  "No test uses threads; an ordering that is too weak is invisible on x86 and to any test that samples schedules.",
  ["src/shared_bytes.rs", "src/external.rs", "src/bytes_1/shared_bytes.rs", "src/shared_bytes_builder.rs"],
  [("atomic reference count orderings", "src/shared_bytes.rs Clone/Drop"), ("uniqueness test before mutation", "src/shared_bytes.rs is_unique, From<SharedBytes> for SharedBytesBuilder"), ("external reference count", "src/external.rs"), ("vtable drop/is_unique", "src/bytes_1/shared_bytes.rs")],
  observe=["the instrumented runtime calls the compiler emits for each atomic and plain memory access (no change to the repository)"])
p("P05", "Builders hold exactly what was written and honour capacity and alignment",
  "A byte or string builder contains exactly the concatenation of what was pushed, minus what truncation or clearing removed, whatever growth, reservation, freezing and re-opening happened in between. Its reported length, capacity and free space are consistent (length + free = capacity), it has room for what was requested, and both its data and the frozen buffer's data are aligned to the requested alignment. Invalid requests (bad alignment, oversized capacity, truncating inside a character) panic and lose nothing.",
  ["histories", "inputs"], "all histories of push/extend/fill/reserve/truncate/clear/freeze/re-open over all requested capacities and alignments",
  "Tests push a few fixed slices with default alignment and never truncate, re-open or check capacity.",
  ["src/shared_bytes_builder.rs", "src/shared_str_builder.rs", "src/shared_bytes.rs"],
  [("reserve/grow copying live bytes", "src/shared_bytes_builder.rs"), ("alignment rounding of the data start", "src/shared_bytes_builder.rs"), ("in-place re-open of a unique shared buffer", "src/shared_bytes_builder.rs From<SharedBytes>")],
  observe=["as_slice, len, capacity, free space and data address after each call"])
p("P06", "A byte queue is the byte string its history says, with exact lengths and counts",
  "After any history of queue operations (pushes and pops at both ends, append, split, drain, range replacement, consume, slice, take-while, extend, clone) the concatenation of the chunks equals the byte string obtained by applying the same operations to a plain byte string, and every popped, drained or split-off part holds exactly the bytes removed. The reported byte length, chunk count and emptiness always match that content, no stored chunk is empty, and chunks keep their order.",
  ["histories", "inputs"], "all histories of queue operations with any number of chunks (below, at and above the internal node capacity) and any positions",
  "Tests run short push/pop scripts that never cross the node capacity at both ends, append or splice.",
  ["src/queue/byte_queue.rs", "src/queue/linked_root.rs", "src/queue/linked_node_data.rs", "src/queue/linked_node_leaf.rs", "src/queue/linked_iter.rs", "src/queue/drain.rs"],
  [("linked ring nodes with a chamber for the single-chunk case", "src/queue/linked_root.rs"), ("byte accounting", "src/queue/byte_queue.rs remain"), ("split/drain/replace position arithmetic", "src/queue/byte_queue.rs, src/queue/drain.rs")],
  state=[("remain", "number of bytes in the queue", "src/queue/byte_queue.rs"), ("count/offset/len of ring nodes", "chunks held and their position", "src/queue/linked_root.rs, linked_node_data.rs")],
  observe=["chunks(), len(), chunk_len(), is_empty() after each call"])
p("P07", "A string queue is the character string its history says",
  "After any history of string-queue operations the concatenation of the chunks equals the result of the same operations on a plain string, every chunk is valid text on its own, and the reported length and chunk count match. Positions that are out of range or inside a character make the operation panic and leave the queue's content as it was.",
  ["histories", "inputs"], "all histories of string-queue operations over multi-byte text, all positions including those inside characters",
  "Tests use ASCII only and never give a position inside a character.",
  ["src/queue/string_queue.rs", "src/queue/byte_queue.rs"],
  [("char boundary checks before delegating to the byte queue", "src/queue/string_queue.rs")],
  observe=["chunks(), len(), chunk_len(), content after each call"])
p("P08", "Iterators yield each element exactly once and their length hints are exact",
  "Every iterator over bytes, characters or chunks (borrowing or owning, from either end, with any mix of next, next_back, nth, skip, take, last, count) yields exactly the elements a plain sequence iterator would, in the same order, without duplicates or omissions, then stays finished. Reported remaining lengths and size hints match what is still to come.",
  ["inputs", "histories"], "all contents and chunkings, all interleavings of forward, backward, skipping and truncating steps with any step sizes",
  "Tests iterate only forward over small queues; nth, back and skip across chunk borders are not sampled.",
  ["src/queue/byte_iter.rs", "src/queue/char_iter.rs", "src/queue/chunk_iter.rs", "src/queue/linked_iter.rs", "src/bytedata.rs", "src/char_indicies.rs"],
  [("per-chunk cursor and byte/chunk countdown", "src/queue/byte_iter.rs, src/queue/linked_iter.rs"), ("char decoding across the chunk list", "src/queue/char_iter.rs")],
  observe=["result of each iterator step and size_hint/len after it"])
p("P09", "Search and splitting answer as on the flat content, and terminate",
  "Finding a byte or sub-slice, prefix and suffix tests, presence at a position, trimming, line taking and splitting on a separator give the same answer on a chunked queue or any value representation as on the flat byte or character string: the first match at or after the start, pieces with the separator removed, and at most the requested number of pieces (no limit when it is zero). A trailing empty piece is omitted when a value is split and present when a non-empty queue is. Every search and, for non-empty separators, every split ends after finitely many steps.",
  ["inputs"], "all contents, all ways to cut the content into chunks, all needles and start positions, all piece limits",
  "Tests search a few fixed strings; matches straddling chunk borders after partial matches are not sampled.",
  ["src/queue/byte_queue.rs", "src/queue/split.rs", "src/bytedata.rs", "src/stringdata.rs", "src/queue/string_queue.rs"],
  [("cross-chunk substring search with restart", "src/queue/byte_queue.rs find_slice*"), ("split iterators", "src/queue/split.rs, src/bytedata.rs split_on, src/stringdata.rs split_on")],
  observe=["results of find/starts_with/ends_with/exists_at/split"])
p("P10", "Equality, order and hash depend on content alone",
  "Two values compare equal, less or greater exactly as their byte (or text) contents do, whatever the types and representations of the two sides and however a queue is cut into chunks, equal values of the same type always hash equally, and a byte value or shared buffer hashes like the byte slice and a text value like the string slice it can be borrowed as. Comparisons are consistent with each other in both directions.",
  ["inputs"], "all pairs of contents, representations and chunkings",
  "Tests compare a few equal literals; no test hashes a queue or compares differently chunked queues.",
  ["src/bytedata.rs", "src/stringdata.rs", "src/shared_bytes.rs", "src/queue/byte_queue.rs", "src/queue/string_queue.rs", "src/byte_chunk.rs"],
  [("PartialEq/Ord/Hash implementations", "each type"), ("chunk-aligned comparison of queues", "src/queue/byte_queue.rs")],
  observe=["==, cmp, partial_cmp and Hash output"])
p("P11", "Text values are always valid UTF-8, and only valid UTF-8 is accepted",
  "Every text value, text builder and text queue reachable through safe operations holds well-formed UTF-8. A fallible conversion from bytes to text succeeds exactly when the bytes are well-formed (also when cut into chunks at arbitrary points where the conversion claims to support it); where the error carries the input back, it comes back unchanged. Slicing text inside a character panics.",
  ["inputs", "histories"], "all byte strings (well-formed, truncated, overlong, surrogate, out of range), all slice positions",
  "Tests convert a few valid strings only.",
  ["src/stringdata.rs", "src/queue/string_queue.rs", "src/shared_str_builder.rs", "src/char_indicies.rs"],
  [("validation at construction", "src/stringdata.rs try_from_*"), ("is_char_boundary checks at slicing", "src/stringdata.rs, src/queue/string_queue.rs")],
  observe=["Ok/Err/panic of conversions and validity of all resulting content"])
p("P12", "UTF-8 decoding helpers decode exactly the well-formed characters",
  "Decoding helpers return, for every input, the same characters and byte positions as the standard definition of UTF-8, and report an error at ill-formed input (including truncated, overlong, surrogate and too-large encodings) instead of a character. They never read past the input.",
  ["inputs"], "all byte strings, all positions",
  "No test feeds multi-byte or ill-formed input to the constant-evaluation helpers.",
  ["src/lib.rs", "src/char_indicies.rs", "src/byte_string_render.rs"],
  [("const_utf8_char_next", "src/lib.rs"), ("Utf8CharIndices next/next_const/remaining", "src/char_indicies.rs")],
  observe=["decoded items of each helper"])
p("P13", "Standard I/O on values, builders and queues moves exactly the bytes reported",
  "Reading from a value or queue fills the caller's buffer with the next bytes in order, reports exactly how many, removes exactly those and nothing else, and never panics because the buffer is larger or smaller than the data; vectored, exact, to-end, to-string and buffered reads agree with the flat byte stream. Writing to a builder or queue appends exactly the bytes reported as written.",
  ["inputs", "histories"], "all contents and chunkings, all buffer sizes and buffer lists, all interleavings of read calls",
  "No existing test reads through the I/O traits with a buffer larger than the data or with vectored buffers.",
  ["src/std.rs", "src/shared_bytes_builder.rs", "src/shared_str_builder.rs"],
  [("Read/BufRead/Write implementations", "src/std.rs"), ("read_vectored helper", "src/std.rs"), ("borrowed-buffer application", "src/shared_bytes_builder.rs")],
  observe=["returned count, buffer content, remaining content after each call"])
p("P14", "Interchange with the bytes crate preserves content, position and ownership",
  "Used as a cursor or as an output buffer of the bytes ecosystem, values, queues and builders report exact remaining counts, expose the current chunk, and advance or append exactly the bytes asked for, panicking when asked for more than remains. Converting to and from the ecosystem's own buffer type preserves content in both optimisation modes, keeps the memory alive as long as either side needs it, and releases it afterwards; taking back a mutable buffer is in-place only when no one else can see it.",
  ["inputs", "histories", "configurations"], "all contents and chunkings, all histories of chunk/advance/copy/put/convert/clone/slice/drop, both feature configurations",
  "Tests convert one value and read it back; no test clones, slices, advances or converts onward, or checks release.",
  ["src/bytes_1/mod.rs", "src/bytes_1/bytedata.rs", "src/bytes_1/queue.rs", "src/bytes_1/shared_bytes.rs", "src/bytes_1/shared_bytes_builder.rs"],
  [("Buf/BufMut implementations", "src/bytes_1/*.rs"), ("custom vtable for zero-copy conversion", "src/bytes_1/shared_bytes.rs")],
  observe=["remaining/chunk/advance results, content of converted objects, allocator events"])
p("P15", "HTTP bodies deliver the whole content in order with an exact size hint",
  "Polling a value or queue as an HTTP body yields data frames whose concatenation is exactly the content in order, with no empty data frame before the end, no trailers and no errors, then reports the end for ever; before every poll the size hint is exact and equals the bytes still to come, and end-of-stream is reported exactly when nothing remains. No single frame exceeds the documented limit.",
  ["inputs", "histories"], "all contents and chunkings including ones larger than a frame, every prefix of polls, both HTTP body interface versions",
  "No test polls a body.",
  ["src/http_body_04.rs", "src/http_body_1.rs"],
  [("poll_data/poll_frame splitting", "src/http_body_04.rs, src/http_body_1.rs"), ("size_hint/is_end_stream", "src/http_body_04.rs, src/http_body_1.rs")],
  observe=["frames, size_hint and is_end_stream around each poll"])
p("P16", "Interning maps equal content to one shared storage, safely under concurrency",
  "Interning returns a value with exactly the given content; while an interner keeps an entry, interning equal content again (from any thread, as bytes or as text, through any clone of the interner) returns the same storage, and different contents never share an entry. Clearing or dropping an interner never invalidates values already handed out.",
  ["schedules", "histories", "inputs"], "all histories of intern/clear/clone/drop on one or more threads, all contents up to and beyond the inline and interning length limits",
  "Tests intern a couple of literals on one thread.",
  ["src/interning/mod.rs", "src/interning/byte_interning.rs", "src/interning/static.rs"],
  [("concurrent map entry insertion", "src/interning/static.rs")],
  observe=["content and storage address of interned values, concurrent call/return histories"])
p("P17", "Parser-combinator input traits agree with plain slices and strings",
  "Every parsing primitive (take, slice, split at position in all four variants, compare with and without case, find substring or token (characters looked for in byte data being ASCII), position, slice index, length, element and index iteration) gives on values and queues the same result as the parser library gives on the flat byte slice or string of the same content, including which kind of error (incomplete, recoverable error, failure) is reported.",
  ["inputs"], "all contents and chunkings, all predicates, counts, needles; text with multi-byte characters",
  "One test parses one ASCII string.",
  ["src/nom_7/bytedata.rs", "src/nom_7/stringdata.rs", "src/nom_7/bytequeue.rs", "src/nom_7/stringqueue.rs"],
  [("InputTakeAtPosition/InputIter/Compare/FindSubstring implementations", "src/nom_7/*.rs")],
  observe=["result of each trait method"])
p("P18", "Serialization round-trips, and deserialization rejects what is not valid content",
  "Serializing a byte or text value yields the same serialized form as the plain bytes or string; deserializing yields a value with exactly the given content whatever form the format offers (borrowed, transient, owned, sequence), in plain, owned, optional and list variants, and fails without a value when the input is not of the right type or not valid UTF-8 for text.",
  ["inputs"], "all contents, all deserializer input forms, invalid inputs",
  "Tests are doc examples that only compile.",
  ["src/serde_1/mod.rs", "src/serde_1/bytedata.rs", "src/serde_1/stringdata.rs", "src/serde_1/shared_bytes.rs"],
  [("visitors for each input form", "src/serde_1/*.rs")],
  observe=["serialized events, deserialized values or errors"])
p("P19", "External owners live as long as needed, drop once, return only when unique",
  "A value wrapping an external owner keeps that owner alive and unmoved as long as any clone or slice of the value exists and drops it exactly once afterwards. Taking the owner back (or turning a shared buffer back into a builder or vector without copying) succeeds only when no other handle exists, yields the original owner or exactly the visible bytes, and otherwise leaves the value usable and its content unchanged.",
  ["histories", "inputs"], "all histories of wrap, clone, slice, convert, take-back and drop over several owners and handles, matching and mismatching owner types",
  "Tests wrap one owner and drop it.",
  ["src/external.rs", "src/bytedata.rs", "src/shared_bytes.rs"],
  [("external control block and operations table", "src/external.rs"), ("take-back when unique", "src/external.rs take_inner, src/bytedata.rs From<ByteData> for Vec")],
  observe=["drop counter of each owner, content of each live value"])
p("P20", "Arbitrary generation terminates and yields only valid values",
  "For every entropy input, including empty and exhausted input, generating an arbitrary byte value, shared buffer, text value or queue finishes with a value or an error; a value that satisfies all invariants of its type (valid text, consistent length, no empty chunk), and the outcome is deterministic in the entropy. Size hints are true bounds on the entropy that can be consumed.",
  ["inputs"], "all entropy inputs, all generated types, with and without taking the rest",
  "No test generates an arbitrary value.",
  ["src/arbitrary_1/bytedata.rs", "src/arbitrary_1/stringdata.rs", "src/arbitrary_1/shared_bytes.rs", "src/arbitrary_1/byte_queue.rs", "src/arbitrary_1/string_queue.rs"],
  [("arbitrary/arbitrary_take_rest implementations", "src/arbitrary_1/*.rs")],
  observe=["termination and validity of generated values"])
p("P21", "Rendering shows exactly the content",
  "Hex rendering gives two hex digits per byte of the requested case, debug rendering of bytes is an escaped byte-string literal that reads back to exactly the content, and display of text shows the text itself with the formatter's options applied; these renderings are the same for every representation and every way a queue is cut into chunks.",
  ["inputs"], "all contents, representations and chunkings, formatter flags",
  "Tests compare one debug string.",
  ["src/byte_string_render.rs", "src/bytedata.rs", "src/stringdata.rs", "src/shared_bytes.rs", "src/queue/string_queue.rs", "src/queue/byte_queue.rs"],
  [("byte string rendering", "src/byte_string_render.rs"), ("LowerHex/UpperHex/Display/Debug implementations", "each type")],
  observe=["formatted output"])
p("P22", "Constant-evaluation helpers equal their run-time counterparts",
  "Constant slicing, splitting, comparison, prefix and search helpers and the concatenation macros give for every input the result of the ordinary slice or string operation, with the documented out-of-range or not-a-boundary outcome instead of a panic where one is documented.",
  ["inputs"], "all contents, positions and ranges including empty and end-of-input ones",
  "Tests use one macro concatenation and in-range ASCII slices.",
  ["src/lib.rs", "src/macros.rs", "src/byte_chunk.rs"],
  [("const_slice/const_slice_str/const_split_at/const_eq/const_starts_with/const_or_str", "src/lib.rs")],
  observe=["result of each helper"])
p("P23", "Queues without an allocator are bounded and refuse cleanly",
  "Built without heap support, a queue accepts pushes at either end in any order up to its fixed capacity and behaves exactly like the byte or character string of its history; a push beyond the capacity is refused without changing the content, the reported length or the chunk count, and space freed by pops can be reused indefinitely.",
  ["histories", "configurations"], "all histories of pushes and pops at both ends on the allocator-free configuration, at and around capacity",
  "No test is run in the allocator-free configuration.",
  ["src/queue/linked_root.rs", "src/queue/linked_node_data.rs", "src/queue/byte_queue.rs", "src/queue/string_queue.rs"],
  [("single ring node with wrap-around", "src/queue/linked_node_data.rs"), ("capacity refusal", "src/queue/linked_root.rs, src/queue/byte_queue.rs push_*")],
  observe=["content, len, chunk_len after each call, refused pushes"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
