#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one property per line). Run by hand after editing."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook}})

p("C01", "Every value survives a write/read round trip",
  "Writing any value of any supported or derived type and reading the bytes back with the same context yields an equal value (floats bit for bit, sets and maps as collections, durations and times exactly). This holds for every endianness, every way of writing (sized buffer, vector, stream, file) and every way of reading (borrowing or copying buffer, buffered or unbuffered stream, file), and the read consumes exactly the bytes that were written.",
  ["inputs", "configurations"], "all values x all types (std, chrono, glam, smallvec, regex, uuid, indexmap, derived) x endianness x sinks x sources",
  "The tests round-trip a few hundred hand-picked small values, mostly through one buffer path; value space, container sizes crossing the 8 KiB stream buffer, nesting and source/sink combinations are not sampled.",
  ["src/readable_impl.rs", "src/writable_impl.rs", "src/reader.rs", "src/writer.rs", "src/readable.rs", "src/writable.rs", "src/ext_chrono.rs", "src/ext_glam.rs", "src/ext_smallvec.rs", "src/ext_regex.rs", "src/ext_uuid.rs", "src/ext_indexmap.rs", "speedy-derive/src/lib.rs"],
  [("paired Readable/Writable impls", "src/readable_impl.rs / src/writable_impl.rs"), ("derived read/write bodies", "speedy-derive/src/lib.rs"), ("bulk copies of primitive slices", "src/reader.rs read_vec/read_cow/read_collection, src/writer.rs write_slice")],
  ["return values of the public read_*/write_* entry points"])

p("C02", "Emitted bytes follow the documented, stable wire format",
  "For every supported or derived type, value and endianness, the bytes produced are exactly those the documentation fixes as stable: primitives as-is in the context's byte order, u32 length prefixes, one-byte option/result flags, u32 enum tags, fields in declaration order with no padding, and so on, as modified by the field and enum attributes. The bytes do not depend on which sink they are written to.",
  ["inputs", "configurations"], "all values x all types x endianness x sinks",
  "Tests compare about one literal byte string per type and endianness; a format change that only affects other values, nestings, layouts or sizes passes them.",
  ["README.md", "src/writable_impl.rs", "src/writer.rs", "src/varint.rs", "src/endianness.rs", "src/private.rs", "speedy-derive/src/lib.rs", "src/ext_chrono.rs", "src/ext_glam.rs", "src/ext_indexmap.rs", "src/ext_uuid.rs"],
  [("Writable impls", "src/writable_impl.rs"), ("byte swapping", "src/endianness.rs, src/writer.rs"), ("length and tag prefixes", "src/private.rs write_length_*, speedy-derive")],
  ["bytes returned by write_to_vec / written to buffer, stream, file"])

p("C03", "bytes_needed is exact; fixed-size buffers behave",
  "For every value that can be written, bytes_needed() equals the number of bytes each write entry point emits. Writing to a fixed buffer succeeds exactly when the buffer has at least that many bytes, fills precisely that prefix and never touches the rest; otherwise it returns an error and never panics. A value that cannot be written (a length that does not fit its length type or disagrees with its length attribute, a pre-epoch time) is rejected with an error by every sink.",
  ["inputs", "configurations"], "all values x types x endianness x buffer sizes around the exact size x sinks",
  "Tests check bytes_needed on the same few literal values; the sizing code is a separate hand-written or derived path per type and can drift from the writer for any nesting or attribute combination.",
  ["src/writable.rs", "src/writable_impl.rs", "src/varint.rs", "speedy-derive/src/lib.rs"],
  [("bytes_needed overrides", "src/writable_impl.rs, src/ext_*.rs, derived"), ("BufferCollector", "src/writable.rs write_to_buffer_with_ctx_mut, write_to_vec_with_ctx_mut")],
  ["bytes_needed(), write_to_buffer on canary-filled buffers of every nearby size, write_to_vec, write_to_stream"])

p("C04", "All ways of reading agree on every input",
  "For any byte string, valid or hostile, reading a type through a borrowing buffer, a copying buffer, an unbuffered stream, a buffered stream (with the stream handing out its bytes in chunks of any sizes) or a file gives the same outcome: all accept with equal values, or all reject. Buffer reads that report a length all report the same one on success. Types that can only be borrowed are accepted only from borrowing sources.",
  ["inputs", "schedules", "configurations"], "all byte strings x types x endianness x read entry points x stream chunkings",
  "Tests exercise the stream paths with whole well-formed inputs in a single chunk; each path (borrowed fast path, bulk copy, element loop, circular buffer, mmap) is separate code that can diverge on other inputs or chunk boundaries.",
  ["src/readable.rs", "src/reader.rs", "src/readable_impl.rs", "src/readable_unsized_impl.rs", "src/circular_buffer.rs"],
  [("BufferReader / CopyingBufferReader / StreamReader", "src/readable.rs"), ("can_read_at_least, read_bytes_borrowed*", "src/reader.rs"), ("mmap-backed file reading", "src/readable.rs read_from_file_with_ctx")],
  ["Result of every read entry point on the same bytes"])

p("C05", "No undefined behaviour for any input through the safe API",
  "Reading arbitrary bytes at any alignment, or writing arbitrary values, through speedy's safe interface and derives never performs an out-of-bounds, misaligned, uninitialised or invalid-value memory access, forms an invalid reference, races or otherwise executes undefined behaviour. User-supplied readers are never shown uninitialised memory. Types opting into unsafe_is_primitive are the user's responsibility.",
  ["inputs", "programs", "configurations"], "all byte strings and alignments x types (derived layouts, zero-sized, packed, transparent, zero-copy) x read/write entry points",
  "The tests run without any sanitizer on a handful of well-aligned inputs; undefined behaviour usually gives the right answer on them.",
  ["src/reader.rs", "src/readable.rs", "src/readable_impl.rs", "src/readable_unsized_impl.rs", "src/writable.rs", "src/writer.rs", "src/utils.rs", "src/endianness.rs", "src/circular_buffer.rs", "speedy-derive/src/lib.rs"],
  [("raw pointer readers and uninitialised buffers", "src/readable.rs, src/reader.rs"), ("slice reinterpretation speedy_slice_from_bytes / speedy_slice_as_bytes", "src/readable_impl.rs, src/writable_impl.rs, derived"), ("unreachable_unchecked hints", "src/utils.rs, src/varint.rs")],
  ["Miri and AddressSanitizer reports, value-validity checks on decoded values"])

p("C06", "Reading hostile input never panics, aborts or hangs",
  "Reading any byte string as any supported type (other than recursive types nested beyond the stack, and until-end-of-input or length-prefixed sequences of elements that occupy no bytes) terminates in time bounded by the input and returns Ok or Err. It never panics, overflows arithmetic, aborts on allocation or loops, with overflow checks and debug assertions on or off.",
  ["inputs", "configurations"], "all byte strings x types x endianness x read entry points x build profiles",
  "Tests feed almost only well-formed input; lengths near integer limits, out-of-range times, absurd durations and zero-size elements are never tried.",
  ["src/reader.rs", "src/readable_impl.rs", "src/ext_chrono.rs", "src/private.rs", "src/varint.rs", "speedy-derive/src/lib.rs"],
  [("checked length arithmetic", "src/reader.rs read_vec/read_cow/read_collection"), ("error constructors instead of panics", "src/error.rs")],
  ["catch_unwind and process exit of each read under a watchdog"])

p("C07", "Memory use while reading is bounded by the input actually present",
  "While reading any byte string, the memory speedy allocates is bounded by a constant plus a small multiple of the bytes the source really supplied (times the in-memory size of the elements), no matter what lengths the input claims. A short stream or buffer that declares a huge collection is rejected without reserving memory for it. (Collections whose elements may occupy no encoded bytes are excluded.)",
  ["inputs"], "all byte strings x container types x length types x sources, in particular short inputs declaring lengths up to 2^64-1",
  "No test measures allocation; a missing pre-check only shows as memory exhaustion on inputs the tests never feed.",
  ["src/reader.rs", "src/readable.rs", "src/private.rs", "speedy-derive/src/lib.rs"],
  [("minimum_bytes_needed * length pre-check before allocating", "src/reader.rs read_vec"), ("can_read_at_least", "src/readable.rs")],
  ["a counting, limiting global allocator around each read"])

p("C08", "Exactly the valid encodings are accepted, and decoded correctly",
  "For every type a byte string is accepted if and only if a prefix of it is a valid encoding under the documented format, and the value returned is the one that encoding denotes. In particular invalid UTF-8, surrogate or out-of-range chars, unknown enum or address tags, zero non-zero integers, wrong constant prefixes, over-long u7 lengths, unrepresentable times and invalid regexes are always rejected, and any non-zero byte is accepted as a true flag.",
  ["inputs"], "all byte strings x types x endianness",
  "Tests contain a few single-byte corruption cases for two or three types; the decision space is every byte string of every type.",
  ["src/readable_impl.rs", "src/readable_unsized_impl.rs", "src/private.rs", "src/varint.rs", "src/ext_chrono.rs", "src/ext_regex.rs", "speedy-derive/src/lib.rs"],
  [("from_utf8 / char::from_u32 / NonZero::new / tag matches", "src/readable_impl.rs, derived"), ("read_constant", "src/private.rs")],
  ["accept/reject verdict and decoded value against an independent reference decoder"])

p("C09", "Reads consume exactly one message",
  "A successful read consumes exactly the bytes of the value it returns and never depends on or takes what follows: unbuffered stream reads leave the stream positioned on the next byte, length-reporting buffer reads report the consumed count, and appending bytes to an encoding changes neither the value nor the count (except for until-end-of-input and default-on-EOF fields). Hence a concatenation of messages, of any types and sizes, decodes to the same sequence one by one.",
  ["inputs", "histories"], "all sequences of messages of mixed types x trailing bytes x chunkings",
  "Tests decode single messages from exact-size inputs; over- or under-consumption is only visible with something following.",
  ["src/readable.rs", "src/reader.rs", "src/readable_impl.rs", "speedy-derive/src/lib.rs"],
  [("unbuffered StreamReader with zero-capacity buffer", "src/readable.rs StreamReader"), ("bytes_read computed from reader.ptr", "src/readable.rs read_with_length_*")],
  ["position of the underlying stream, reported lengths, decoded sequence"])

p("C10", "I/O faults surface, and benign I/O behaviour does not",
  "Whenever the underlying stream or file fails, at any byte position, the read or write reports that error (same kind) and never a success, a wrong value or a panic; this includes errors that only surface when buffered file output is flushed. Interrupted calls, short reads and short writes are retried transparently, and data already delivered before a fault was delivered in order and unchanged.",
  ["fault_sequences", "inputs"], "every position of every I/O call x error kinds, interruptions, short transfers, disk-full on close x read/write entry points",
  "Tests only use in-memory sources and sinks that never fail, never get interrupted and never split a transfer.",
  ["src/readable.rs", "src/writable.rs", "src/error.rs", "src/circular_buffer.rs"],
  [("map_err of read/read_exact/write_all", "src/readable.rs StreamReader, src/writable.rs WritingCollector"), ("BufWriter in write_to_file", "src/writable.rs write_to_file_with_ctx")],
  ["fault-injecting Read/Write stand-ins, file sinks that run out of space, returned errors"])

p("C11", "Truncated input is rejected, except where an EOF default is asked for",
  "Every proper prefix of a valid encoding is rejected by every source with an error, never accepted as a different value. The exceptions are exactly the documented ones: a default_on_eof field takes its type's default when the input ends at that field or inside it, only on end of input (any other error still fails), and an until-end-of-input field stops at the end.",
  ["inputs", "crash_points"], "every truncation point of every encoding x types x sources",
  "Tests truncate two or three encodings at one point; each field boundary and each interior byte of each type is a distinct case.",
  ["src/reader.rs", "src/readable.rs", "src/error.rs", "speedy-derive/src/lib.rs"],
  [("can_read_at_least checks", "src/readable.rs, src/reader.rs"), ("default_on_eof and until-eof handling via is_eof", "speedy-derive/src/lib.rs, src/reader.rs read_*_until_eof")],
  ["outcome of reading each prefix"])

p("C12", "Peeking never consumes and predicts the next read",
  "On every kind of reader and in every state, any peek operation returns exactly the value the corresponding read would return next, any number of times, without changing what later operations see; it fails only when that read would fail. A peek_tag enum therefore decodes correctly from any source with any tag type, leaving its tag unconsumed.",
  ["inputs", "histories", "schedules"], "all interleavings of peeks, reads and skips of all widths x readers x chunkings x buffer states",
  "The tests peek once at the start of one buffer, with all bytes available; peeks straddling the buffered region, after partial consumption, at the end of input, or multi-byte varints are not tried.",
  ["src/reader.rs", "src/readable.rs", "src/varint.rs", "src/circular_buffer.rs", "speedy-derive/src/lib.rs"],
  [("peek_* methods", "src/reader.rs, src/readable.rs"), ("peek_u64_varint", "src/varint.rs peek_from"), ("peek_tag", "speedy-derive/src/lib.rs")],
  ["results of random operation scripts run inside a Readable impl"])

p("C13", "Varints are canonical, endianness independent and loss-free",
  "Every 64-bit value is written as a varint in the documented prefix form with the fewest possible bytes, identically under every endianness and context, and is read back unchanged by every reader; signed values go through zigzag and back without loss. Every byte string is either decoded to the value the documented form denotes or rejected for being too short.",
  ["inputs"], "all 64-bit values (unsigned and signed) and all byte strings up to 9 bytes x endianness x readers",
  "Tests cover about 700 values round trip and 18 exact encodings, no signed conversions back, no non-canonical or truncated inputs, and only buffer readers.",
  ["src/varint.rs", "src/private.rs", "src/reader.rs", "src/writer.rs"],
  [("get_length bit trick", "src/varint.rs"), ("impl_read!", "src/varint.rs"), ("zigzag From impls", "src/varint.rs")],
  ["bytes and values against an independent encoder/decoder"])

p("C14", "minimum_bytes_needed is a true lower bound",
  "For every type, no valid encoding is shorter than minimum_bytes_needed(), and the bound only ever rejects inputs that a stream read of the same bytes would reject too. For types whose encodings all have one size, every value occupies exactly that many bytes or more.",
  ["inputs", "programs"], "all types including derived ones with every attribute combination x all their values (notably the smallest)",
  "Tests do not compute smallest encodings; an over-estimate only fails on minimal values of particular nestings.",
  ["src/readable.rs", "src/readable_impl.rs", "src/readable_unsized_impl.rs", "src/reader.rs", "speedy-derive/src/lib.rs"],
  [("minimum_bytes_needed overrides", "src/readable_impl.rs, derived minimum computation"), ("use as pre-check", "src/readable.rs, src/reader.rs read_vec")],
  ["minimum_bytes_needed() against the shortest encodings found per type; buffer versus stream verdicts"])

p("C15", "Zero-copy reads borrow from the input and only when they may",
  "A borrowed result (string, byte or primitive slice, array reference, Cow) returned by a borrowing read always lies entirely inside the caller's buffer, at exactly the bytes that encode it, and is properly aligned; copying, stream and file reads never return data that borrows the source. Types that promise zero-copy (&str, &[u8], byte-sized Cow) never allocate or copy when read from a borrowing buffer.",
  ["inputs", "configurations"], "all inputs x alignments x zero-copy types and Cow variants x entry points",
  "Tests check Cow::Borrowed for a couple of literals in one alignment; wrong offsets within equal content, wrong alignment or borrowing from temporary memory pass unnoticed.",
  ["src/reader.rs", "src/readable_unsized_impl.rs", "src/readable_impl.rs", "src/readable.rs", "speedy-derive/src/lib.rs"],
  [("read_bytes_borrowed", "src/readable.rs BufferReader"), ("read_cow borrow decision", "src/reader.rs")],
  ["pointers and lengths of decoded borrows versus the input range, allocator counters, poisoned sources"])

p("C16", "Interrupted reads and writes release everything exactly once",
  "When a read fails part-way (bad data, end of input, I/O error) or user code called during it panics, at any element of any nested container, array, tuple or derived struct, every value already constructed is dropped exactly once, nothing unconstructed is dropped, and no memory, file descriptor or mapping is leaked (leaks inside std's own collections when an element's comparison panics aside). Writing never drops or moves anything it does not own.",
  ["fault_sequences", "crash_points"], "every failure position (error or panic) in every container nesting x sources",
  "Tests have one drop test for arrays; containers with manual initialisation are exercised only on the success path.",
  ["src/reader.rs", "src/readable_impl.rs", "src/readable.rs", "speedy-derive/src/lib.rs"],
  [("drop_vec on error", "src/reader.rs read_vec"), ("State drop guard", "src/readable_impl.rs [T; N]"), ("Mmap drop", "src/readable.rs")],
  ["constructor/drop registry of instrumented element types, allocator balance, /proc/self/fd and maps"])

p("C17", "Bulk copying of primitive-like types equals element-wise coding",
  "Types that speedy may copy in bulk (primitives and derived structs of suitable layout, including repr(transparent), repr(C), repr(packed) and nested ones) encode and decode in slices, vectors, arrays, Cows, sets and maps exactly as the concatenation of their individual encodings, in both byte orders. Field order, padding, size and alignment of the in-memory layout never show in the encoded bytes.",
  ["programs", "inputs", "configurations"], "all struct layouts over primitive fields x representations x containers x endianness",
  "Tests contain a few fixed structs; the compiler may reorder fields and the macro decides eligibility per layout, so every field-type combination is a separate case.",
  ["speedy-derive/src/lib.rs", "src/reader.rs", "src/writer.rs", "src/readable_impl.rs", "src/writable_impl.rs"],
  [("speedy_is_primitive eligibility", "speedy-derive/src/lib.rs"), ("speedy_flip_endianness / speedy_convert_slice_endianness", "speedy-derive/src/lib.rs, src/readable_impl.rs"), ("read_vec/read_cow/read_collection/write_slice fast paths", "src/reader.rs, src/writer.rs")],
  ["bytes of containers versus concatenated element encodings; decoded elements"])

p("C18", "The derives implement their attributes for every type definition",
  "For any struct or enum the derives accept, with any combination of field types, generics, lifetimes and documented attributes (length expressions, until-end-of-input, length_type, varint, skip, default_on_eof, constant_prefix, tag, tag_type, peek_tag), the generated code writes exactly the documented layout, sizes it exactly, and reads it back. Values that violate their attributes are rejected on write, and inputs that violate them are rejected on read.",
  ["programs", "inputs"], "all type definitions over the documented attribute grammar x values x byte strings",
  "The tests have about 150 fixed definitions, nearly all with one attribute each; the macro is a code generator whose inputs are programs, and attribute interactions are barely sampled.",
  ["speedy-derive/src/lib.rs", "src/private.rs", "README.md"],
  [("field and variant code generation", "speedy-derive/src/lib.rs"), ("length helpers", "src/private.rs")],
  ["freshly generated crates of random definitions run against an independently generated model"])

p("C19", "Stream reading delivers the stream's bytes in order, none lost or repeated",
  "Whatever sequence of reads, peeks and skips of whatever sizes is performed on a stream-backed reader, buffered or not, and however the stream chops its data, the bytes delivered are the stream's bytes in order with none lost, duplicated or altered, also across growth and wrap-around of the internal buffer. An unbuffered reader never takes more from the stream than has been asked for.",
  ["histories", "schedules", "inputs"], "all operation sequences x sizes around and beyond the internal buffer x chunkings",
  "The buffer's unit tests and quickcheck test the ring in isolation; its use by the stream reader (refill, peek growth, large reads bypassing it, wrap-around) runs only in a few one-chunk tests.",
  ["src/circular_buffer.rs", "src/readable.rs"],
  [("occupied/empty index arithmetic, reserve", "src/circular_buffer.rs"), ("read_bytes_slow, peek_bytes refill", "src/readable.rs StreamReader")],
  ["results of operation scripts against a plain cursor model; bytes requested from the source"])

p("C20", "Contexts and their errors are threaded through faithfully",
  "Every nested value is read and written with the caller's context: its current endianness governs each multi-byte item, changes made through context_mut are seen by everything read or written afterwards in the same call, and entry points taking a mutable context leave the changes with the caller. Custom error types receive speedy's errors through From and are otherwise passed through unchanged, and their is_eof decides end-of-input handling.",
  ["inputs", "histories", "programs"], "all nestings of context-sensitive types x endianness switches x custom errors x entry points",
  "Tests use stateless contexts almost everywhere; switching endianness mid-message, stateful contexts across containers and custom error types are hardly sampled.",
  ["src/context.rs", "src/readable.rs", "src/writable.rs", "src/reader.rs", "src/writer.rs", "speedy-derive/src/lib.rs"],
  [("context()/context_mut() accessors", "src/readable.rs, src/writable.rs"), ("C::Error conversions", "src/error.rs")],
  ["event logs kept by a stateful context and context-sensitive types"])

p("C21", "Concurrent use is race-free and never tears",
  "Values shared between threads can be serialized and buffers deserialized concurrently from any number of threads with the same results as sequentially and without data races. An atomic being modified concurrently is written as one value it actually held during the call, never a mixture, and repeated writes observe its modification order. What a thread did before setting an atomic is visible to a thread which has written that value out.",
  ["schedules", "histories"], "all interleavings of concurrent writers of atomics, serializers and deserializers",
  "The tests are single threaded.",
  ["src/writable_impl.rs", "src/readable_impl.rs", "src/readable.rs"],
  [("SeqCst loads of atomics", "src/writable_impl.rs impl_for_atomic"), ("no shared mutable state", "src/readable.rs")],
  ["ThreadSanitizer and Miri reports; recorded histories of unique atomic values"])

p("C22", "Errors are classified correctly",
  "Apart from inputs rejected up front as shorter than the type's minimum size (reported with the actual and the needed size), an error answers is_eof() with true exactly when the data ended before the value did. Converting an error to std::io::Error returns a wrapped I/O error unchanged, maps end-of-input to UnexpectedEof and everything else to InvalidData, and every error formats to a non-empty message and exposes a wrapped I/O error as its source.",
  ["inputs", "fault_sequences"], "all failing inputs and faults x types x entry points",
  "Tests look at the kind of a handful of errors from buffers; they never check the streaming classification, conversions or messages over all failure causes.",
  ["src/error.rs", "src/readable.rs", "src/reader.rs"],
  [("IsEof for Error", "src/error.rs"), ("From<Error> for io::Error", "src/error.rs")],
  ["is_eof, Display, source and io::Error conversion of every error produced by the other workloads"])

p("C23", "Build configuration does not change observable behaviour",
  "Bytes written, values read and accept/reject verdicts are the same in debug and release builds, with any set of cargo features that supports the type (std, alloc only, none), and on every target, whatever its byte order and pointer width (apart from numbers and lengths which do not fit usize, and slices of larger numbers borrowed in the machine's own byte order and alignment). Feature gates only add or remove interfaces.",
  ["configurations", "inputs"], "build profiles x feature sets x targets x types x inputs",
  "CI runs the tests in one profile per configuration and never compares results between configurations; several code paths are selected by cfg(debug_assertions), cfg(feature) or optimisation-only hints.",
  ["src/lib.rs", "src/utils.rs", "src/varint.rs", "src/circular_buffer.rs", "Cargo.toml"],
  [("cfg(feature) gates", "src/lib.rs, src/readable_unsized_impl.rs"), ("debug-only branches", "src/varint.rs, src/circular_buffer.rs"), ("unsafe_is_length!", "src/utils.rs")],
  ["digests of outcomes computed by the same workload in each configuration"])

p("C24", "File reading and writing are whole and faithful",
  "After a successful write_to_file the file contains exactly the value's encoding, whatever it contained before, and read_from_file gives the same outcome as reading the file's bytes from a buffer for every file size including empty and page-sized ones, also for pipes and other files whose size is not known beforehand. Missing or unreadable paths and directories give an I/O error, reading never modifies the file, and the result never refers to the file after the call returns.",
  ["inputs", "histories", "fault_sequences"], "all previous contents x values x file sizes around page boundaries x repeated and concurrent use",
  "Tests write and read one small temporary file.",
  ["src/readable.rs", "src/writable.rs"],
  [("File::create + BufWriter", "src/writable.rs"), ("mmap with size-zero special case and copying reader", "src/readable.rs")],
  ["file contents before and after, outcome versus buffer read, decoded values after the file is overwritten or removed"])

p("C25", "Fixed-size coding optimises to check-free straight-line code",
  "With optimisations on, reading or writing a fixed-size value from or to a buffer known to be large enough compiles to code without bounds-check failures or panicking branches.",
  ["programs", "configurations"], "all fixed-size types x compilers",
  "static-tests checks this by linking for a fixed list of functions; it is a property of generated machine code, not of executions.",
  ["static-tests", "src/reader.rs", "src/utils.rs"],
  [("inline(always) readers, unsafe_is_length!", "src/reader.rs, src/utils.rs")],
  ["linker symbols"])

p("C26", "Hand-written implementations code exactly like built-in ones",
  "Code which implements Readable or Writable by hand, calling any Reader or Writer method in any order, and code which implements Reader or Writer itself with only the required methods, gets exactly the bytes and values of the documented format: each write emits its value's encoding at the current position in the context's current byte order on every kind of writer, default sizing counts exactly that, can_write_at_least answers truthfully, a bytes_needed which promises another size than write_to writes never adds, loses or exposes bytes (a vector is exactly what was written; too small a promise is an error), failures come out unchanged with everything before them delivered, and the public byte-order helpers of Endianness convert every width exactly.",
  ["programs", "inputs", "histories"], "all sequences of Writer operations x writers x contexts; all types x user-written readers and writers; all values of every width x byte order",
  "The tests drive the built-in readers and writers through derived or built-in types; default trait methods, mixed sequences of writer operations and the helpers run on a handful of values.",
  ["src/writer.rs", "src/reader.rs", "src/writable.rs", "src/endianness.rs"],
  [("default methods of Reader and Writer", "src/reader.rs, src/writer.rs"), ("BufferCollector, WritingCollector, SizeCalculatorCollector", "src/writable.rs"), ("read_*, swap_*, swap_slice_*", "src/endianness.rs")],
  ["bytes and answers of random writer programs against a byte-at-a-time model; outcomes of the zoo through minimal readers and writers"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
