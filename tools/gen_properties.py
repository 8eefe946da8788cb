#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

PR="src/types/profile.rs"; IH="src/io/io_handler.rs"; HD="src/types/icc_header.rs"; CX="src/state/context.rs"; PC="src/plugins/para_curve.rs"

p("C01","Opening any file for reading ends in a profile or an error, never in a crash",
  "For every file content, opening it as a profile for reading returns either a profile or an I/O error: it never panics, overflows an arithmetic operation, aborts or loops forever. A failed open leaves the library fully usable: opening a well-formed profile right afterwards, through the same context or through the default one, still succeeds.",
  ["inputs","histories"],"every byte string used as file content (any length, any header, any directory), followed by any further opens",
  "The two profile tests open one well-formed file; no malformed, truncated or hostile file is ever opened.",
  [PR,"src/types/date_time_number.rs",HD,"src/types/tag_entry.rs"],
  [("header and directory reader","Profile::read_header_thr"),("offset/size sanity check","Profile::read_header_thr, tag loop"),("calendar conversion","DateTimeNumber")],
  observe=["return value of Profile::open_from_file / open_from_file_thr","panic / hang of the call"])
p("C02","A file is accepted as a profile exactly when it is well formed",
  "Opening a file for reading succeeds if and only if it holds a full 128-byte header whose signature field is 'acsp' and whose creation date is a real calendar date and time, followed by a tag count of at most 100 and that many complete 12-byte directory entries. A file that ends too early is refused with an unexpected-end-of-file error; one with a wrong signature, an impossible date or too many tags is refused as invalid data.",
  ["inputs"],"every file content; every position at which the file may be cut; every signature, date and tag count",
  "Tests only open one valid file; no rejection path, no truncation point and no boundary of the tag count is exercised.",
  [PR,HD],[("magic check","read_header_thr"),("tag count limit MAX_TABLE_TAG","read_header_thr"),("exact reads","IOHandler::read")],
  observe=["Ok/Err and ErrorKind of Profile::open_from_file_thr"])
p("C03","An opened profile reports exactly the header fields stored in the file",
  "Every header field a profile keeps (device class, colour space, connection space, version, rendering intent, flags, manufacturer, model, attributes, creator, creation date, profile id) equals the big-endian value stored at that field's position in the ICC header, for every value of every field. No field is dropped, exchanged with another one, truncated or taken from elsewhere, and bytes outside those fields do not influence them.",
  ["inputs"],"every 128-byte header with a valid signature and date",
  "One file is checked, in which intent, flags, manufacturer, model, attributes and creator are all zero, so swapped or dropped fields go unnoticed.",
  [PR,HD,"src/types/signature.rs"],[("header decoding","ICCHeaderConverter::from_bytes"),("field copy","read_header_thr")],
  state=[("profile header fields","what the library believes about the file","Profile")],observe=["Profile fields after open"],hook="read access to the private profile fields")
p("C04","The tag directory holds exactly the in-bounds entries, in file order",
  "After a successful open the profile's tag list contains, in file order, exactly those directory entries whose data range [offset, offset+size) lies inside the profile, i.e. whose mathematically exact end does not exceed the smaller of the size in the header and the real file length; all other entries are skipped, without disturbing the ones around them. Signature, offset and size of each kept entry are the ones stored in the file, up to the full limit of 100 entries.",
  ["inputs"],"every directory of 0..100 entries with arbitrary 32-bit offsets and sizes, every header size and file length",
  "The sample file has nine in-bounds entries; skipping, exact-end boundaries, 32-bit wrap-around and long directories never occur in tests.",
  [PR,"src/types/tag_entry.rs"],[("range check","read_header_thr"),("header size clamp","read_header_thr, reported_size")],
  state=[("tag_names/tag_offsets/tag_sizes/tag_count","the directory","Profile")],observe=["Profile::get_tag_count","Profile::get_tag_signature","directory fields"],hook="read access to the private directory arrays")
p("C05","Tags that share data are linked to an earlier tag, and following links ends",
  "When a kept tag has the same offset and size as tags kept before it, it is linked to (the signature of) the last such earlier tag; every other tag has no link. Resolving a signature while following links always terminates, ends at a tag without link, and that tag covers the same bytes of the file whenever the signatures involved are not duplicated in the directory.",
  ["inputs"],"every directory, including chains of shared tags and duplicated signatures",
  "No test file contains shared tag data, so the link table and link-following search are never exercised.",
  [PR],[("link search","read_header_thr"),("Profile::search_tag","link resolution")],
  state=[("tag_linked","signature of the tag whose data is shared","Profile")],observe=["tag_linked","Profile::search_tag"],hook="access to the link table and to the private tag search")
p("C06","Tag lookup by position and by signature is total and consistent",
  "The tag signature at position n is that of the n-th kept tag for every n below the tag count and the default signature (four spaces) for every other n, without panicking. Searching a signature without following links finds the first kept tag with that signature, and nothing if there is none.",
  ["inputs"],"every directory (0..100 tags) and every index of the machine word, every signature",
  "get_tag_signature and the search functions have no test at all; the index boundary is never reached.",
  [PR],[("get_tag_signature","bounds test"),("search_one_tag","linear search")],
  observe=["Profile::get_tag_count","Profile::get_tag_signature","Profile::search_tag"],hook="access to the private tag search")
p("C07","Read opens change no file; write opens start an empty profile",
  "Opening a path for reading never creates, truncates or modifies a file, whether or not it succeeds. Opening a path for writing creates the file or truncates it to zero length and yields an empty profile without tags, marked as being written and owning the open file; if the file cannot be created the error is returned and nothing has changed. A file that is created has the permissions the system gives by default. Opening for reading needs no more than permission to read, opening for writing no more than permission to write; an open for which permission or a free descriptor is lacking is refused and changes nothing. Neither touches any other file, the permissions, the identity or the other names of the file; and what a path opens as depends on nothing but the file it leads to: not on how the path is spelled (relative, through other directories, symbolic or hard links, bytes that are not UTF-8), the type it is given as, or what was opened before.",
  ["inputs","histories"],"every sequence of read and write opens by anybody over existing, missing, linked, forbidden, directory, device and impossible paths, and of changes to the files by others",
  "Tests open one existing file for reading; the write mode is never used and file effects are never looked at.",
  [PR,"src/io.rs"],[("File::open / File::create by access mode","open_from_file_thr")],
  state=[("is_write","profile opened for writing","Profile")],observe=["file contents and existence before/after","returned profile"],hook="read access to the private is_write flag")
p("C08","Each content rejection is reported exactly once, to the right error handler",
  "When an open is refused because of the content of the file, the error handler of the context used for that open is called exactly once before the call returns, with the code for bad signature, out-of-range tag count or corrupt date respectively; no other context's handler is called. Successful opens, opens of missing files and truncated files report nothing through the handler.",
  ["inputs","histories"],"every file content, every context used, every sequence of opens over several contexts",
  "No test installs an error handler or opens a file that must be refused.",
  [PR,CX,"src/state/chunks/error_handler.rs"],[("signal_error calls","read_header_thr"),("handler dispatch","Context::signal_error")],
  observe=["handler invocations (context, code) around Profile::open_from_file_thr"],hook="installing an error handler on a context (no public setter exists)")
p("C09","Concurrent opens through the default context behave as if run one at a time",
  "Any number of threads opening files through the shared default context each get the result that the same open gives on its own. Error reports made on behalf of one open never overlap with those of another, and no open, successful or failed, blocks the others forever or makes later opens fail.",
  ["schedules","inputs"],"every interleaving of opens of well-formed, malformed and missing files by any number of threads",
  "Unit tests never use the shared default context, let alone from several threads.",
  [PR,CX],[("GLOBAL_CONTEXT mutex held over the open","Profile::open_from_file")],
  state=[("GLOBAL_CONTEXT","default context behind a mutex","src/state/context.rs")],observe=["results of Profile::open_from_file per thread","handler enter/leave events"],hook="installing an error handler on the default context")
p("C10","Profile equality is exactly equality of everything read from the file",
  "Two opened profiles compare equal if and only if all kept header fields, the tag directory (names, offsets, sizes, links, count) and the access mode coincide. In particular opening the same bytes again, under another path, another context or through the default context gives an equal profile, and a difference in any single kept field makes them unequal; comparison is symmetric.",
  ["inputs","histories"],"every pair of files, including pairs that differ in a single field, bit or directory entry",
  "One comparison against a literal is made; no test ever expects two profiles to differ.",
  [PR,"src/types/profile_id.rs","src/types/signature.rs"],[("PartialEq for Profile","profile.rs"),("PartialEq for ProfileID","profile_id.rs")],
  observe=["== on profiles opened from two files"])

p("C11","A memory stream behaves as a byte array with a position",
  "Over every history of reads, writes, seeks and position queries, an in-memory stream behaves as a byte array plus a position: a read returns exactly the requested bytes at the position and advances it, or fails with unexpected-end-of-file without altering data; a write overwrites in place, a growable buffer grows with zero-filled gaps while a fixed buffer never grows and reports failure when full. Seeking to a negative or overflowing position fails and leaves the position unchanged; seeking past the end succeeds.",
  ["histories","inputs"],"every operation history over every kind of backing buffer (fixed slice, boxed slice, owned and borrowed vector), with any lengths and offsets",
  "The doc examples run a handful of fixed steps; no history mixes seeks, gaps, overflow and end-of-buffer conditions.",
  ["src/io/file_mem.rs",IH],[("delegation to Cursor","FileMem as IOHandler")],
  state=[("cursor","buffer and position","FileMem")],observe=["IOHandler results","final buffer contents"])
p("C12","A disk-file stream behaves as a byte array with a position that persists",
  "Over every history of operations a disk file used through the I/O interface behaves as a growable byte array plus a position, with the same read, write, seek and end-of-file rules as a growable memory stream. Writing nothing changes nothing. After closing, another stream on the same path reads back exactly the bytes written.",
  ["histories","inputs"],"every operation history, including reopen, on files of any size; seeks of any 64-bit value",
  "Tests write and read four fixed values and seek in one five-byte file.",
  ["src/io/file_file.rs",IH],[("delegation to std::fs::File","IOHandler for File")],observe=["IOHandler results","file contents on reopening"])
p("C13","The null stream tracks position and length like a file and always reads zeros",
  "Over every history the null stream reports the position and length a file would report after the same successful operations (writes advance and extend, reads advance, seeks are relative to start, current position or the furthest byte written), stores nothing, never reports end-of-file and fills every read buffer with zero bytes. Moving to a negative or overflowing position is an error that changes nothing; nothing ever panics.",
  ["histories","inputs"],"every operation history with any lengths and 64-bit offsets and any prior contents of the read buffer",
  "One doc example with forward moves only; negative seeks and the contents of read buffers are never tested.",
  ["src/io/file_null.rs"],[("FileNull::seek/read/write","file_null.rs")],
  state=[("pointer","position","FileNull"),("used_space","length","FileNull")],observe=["IOHandler results"])
p("C14","Typed values survive a write/read round trip in network byte order",
  "Writing an integer, float, fixed-point or colour value (or array of 16-bit values) stores exactly its big-endian bytes, most significant first, at the position and advances by exactly its width; reading interprets the bytes at the position the same way. Reading back any written value of any type therefore returns it bit for bit, on every kind of stream and at every position.",
  ["inputs","histories"],"every value of every width (8/16/32/64-bit integers, all float bit patterns, all fixed-point values, arrays of any length), every position",
  "Each operation has one doc example at position zero with one value (mostly 42).",
  [IH,"src/io/big_endian.rs"],[("read_*/write_* default methods","IOHandler"),("byte-order adjustment","adjust_endianness_*")],observe=["returned values","bytes in the buffer","position"])
p("C15","Asking a stream for its size leaves it exactly as it was",
  "Asking any stream for its size returns the number of bytes it holds (for the null stream, the furthest byte written) wherever the position is, also past the end, and a successful query leaves position and contents unchanged, so that reads and writes after it behave as if it had not been made.",
  ["histories","inputs"],"every stream kind, every history before and after the query",
  "The size query has no test of its own; it is only reached once, when the sample profile is opened at position 128.",
  [IH,PR],[("IOHandler::reported_size","io_handler.rs")],observe=["return value of reported_size","tell and data afterwards"])
p("C16","Failures of the underlying device are never swallowed or papered over",
  "If a primitive read, write, seek or position query of a device fails during a typed operation, an array operation or a size query, that operation returns that error, performs no further transfer after a failed one, and does not report a value. If no primitive fails, exactly the bytes of the value (for arrays, of all the elements, in order) are transferred. Closing a disk-file stream succeeds exactly if what was written can be brought to its device.",
  ["fault_sequences","inputs"],"every primitive call of every typed operation failing, on a user-supplied device implementing only the required operations",
  "No test uses a failing device or any device other than the built-in ones.",
  [IH],[("? propagation in default methods","IOHandler")],observe=["results of typed operations","sequence of primitive calls seen by the device"])
p("C17","15.16 fixed point converts exactly and rounds to nearest",
  "Decoding yields exactly raw/65536 for each of the 2^32 raw values, including the most negative one; encoding yields the raw value nearest to the number (ties upwards), clamped to the representable range. Hence decoding then encoding is the identity on every raw value, and colour triples are converted component by component in order X, Y, Z.",
  ["inputs"],"all 2^32 raw values; every number with up to 32 fractional bits inside or outside the representable range",
  "Three values are used in the doc examples; the sign boundary, rounding and clamping are never reached.",
  [IH,"src/types/cie_xyz.rs"],[("s15f16_to_f64 / f64_to_s15f16","io_handler.rs")],observe=["read_s15f16, write_s15f16, read_xyz, write_xyz"])
p("C18","Byte-order helpers are exact involutions for every width",
  "For 16, 32 and 64 bits, the big-endian helpers convert between native and big-endian order and the little-endian helpers between native and little-endian order; applying a helper twice gives the value back, byte-array and integer versions agree, and on any host exactly one of the two families is the identity while the other reverses the bytes. The unqualified helpers are the big-endian ones by default and the little-endian ones when the little-endian option is on.",
  ["inputs","configurations"],"every value of every width; both build configurations",
  "The helpers are used indirectly with one or two values each.",
  ["src/io/big_endian.rs","src/io/little_endian.rs","src/io.rs"],[("adjust_endianness_*","both modules"),("feature-dependent re-exports","src/io.rs")],observe=["helper return values"])
p("C19","The little-endian option reverses the byte order of everything and nothing else",
  "Built with the little-endian option, every typed stream operation and every multi-byte field of the profile header and tag directory uses least-significant-byte-first order, and otherwise all stream, acceptance, directory and link rules are those of the default build. Values still survive a write/read round trip.",
  ["configurations","inputs","histories"],"the optional configuration, over the same inputs and histories as the default one",
  "The option is never built or tested by the project.",
  ["src/io.rs",IH,HD,"src/types/tag_entry.rs"],[("cfg(feature) re-exports","src/io.rs")],observe=["typed operations and profile opens in a little-endian build"])
p("C20","Stream kinds are interchangeable for the code above them",
  "Any history of operations that succeeds (and writes nothing only inside of the data) gives the same positions, sizes, values and contents on a growable memory stream, a borrowed vector and a disk file, and an operation that is refused on one because of a bad position or missing data is refused with the same error kind on the others. The null stream gives the same positions and sizes for every history without reads or zero-length writes beyond the end, and a history run through a dynamic reference to the interface gives the same results as one run on the concrete type.",
  ["histories"],"every operation history applied in lock step to all stream kinds",
  "No test runs the same history on two kinds of stream.",
  ["src/io/file_mem.rs","src/io/file_file.rs","src/io/file_null.rs",IH],[("one IOHandler contract","three implementations")],observe=["IOHandler results compared step by step"])

p("C21","Signatures convert losslessly and pad or cut text to four characters",
  "A signature built from four bytes or from a 32-bit number gives back the same bytes and number, first byte most significant. Built from shorter bytes or text it is padded with spaces on the right, from longer input only the first four bytes count; as text it is those four bytes when they are valid UTF-8 and four spaces otherwise, two signatures being equal exactly when their four bytes are equal. Every named signature of the library denotes the four characters that the ICC signature registry and Little CMS assign to that name; within a family of names no two share a signature except documented aliases.",
  ["inputs"],"every 32-bit value, every byte string and text of any length, every name",
  "Sixteen unit tests with single literals; no zero, high-bit, multi-byte-character or partially valid input.",
  ["src/types/signature.rs","src/types/signatures.rs","src/types/signatures/tag.rs"],[("From conversions","signature.rs"),("named signatures","src/types/signatures")],observe=["Signature conversions in all directions"])
p("C22","ICC dates and calendar dates convert back and forth without loss",
  "An ICC date-time whose six numbers form a valid calendar date and time converts to exactly that date and time and back to the same six numbers, for every year from 0 to 65535, leap days included; six numbers that form no valid date and time are recognised as such. Converting a calendar date-time with such a year to ICC form keeps year, month, day, hour, minute and second and drops the fraction of a second.",
  ["inputs"],"every six 16-bit numbers, every valid date-time with a year in 0..65535",
  "One date is converted, in one direction, by the sample file test.",
  ["src/types/date_time_number.rs"],[("From impls","date_time_number.rs")],observe=["DateTimeNumber <-> NaiveDateTime"])
p("C23","Header and directory-entry encodings are lossless and inverse to each other",
  "Decoding any 128 header bytes or 12 directory-entry bytes and encoding the result gives back the same bytes, and encoding any header or entry and decoding it gives back the same fields. Each field occupies its ICC position in big-endian order.",
  ["inputs"],"every 128-byte and 12-byte string, every field value",
  "The encoders are never called in a test; decoding is checked on one header.",
  [HD,"src/types/tag_entry.rs"],[("ICCHeaderConverter, TagEntryConverter","from_bytes/to_bytes")],observe=["converter results"],hook="access to the crate-private converters")

p("C24","A plug-in list is accepted only if every single plug-in in it is acceptable",
  "Registering a list of plug-ins succeeds if and only if every plug-in in the list, first to last, carries the plug-in magic number, does not require a library version newer than the current one and has one of the nine known types. Otherwise the call fails with a message describing the first unacceptable plug-in (first by magic, then version, then type), having reported exactly that message once as an unknown-extension error on the context.",
  ["inputs"],"every list of plug-ins of any length, with the offending one at any position and any combination of defects",
  "Plug-in registration has no test.",
  [CX,"src/plugins/plugin.rs","src/types/signatures/plugin_type.rs"],[("chain walk","Context::init_plugin")],observe=["result of Context::init_plugin","handler invocations"],hook="installing an error handler on a context")
p("C25","Every reported error reaches exactly the handler of the reporting context",
  "Signalling an error on a context calls the handler installed on that context exactly once, synchronously, with that context, the given code and the given text unchanged; contexts without an installed handler ignore it silently. A copy of a context uses the handler the original had when copied, and later changes to either do not affect the other.",
  ["histories","inputs"],"every history of context creation, copying, handler installation and signalling, every code and text",
  "No test signals an error or installs a handler.",
  [CX,"src/state/chunks/error_handler.rs"],[("Context::signal_error","handler dispatch")],state=[("error_handler","handler of the context","Context")],observe=["handler invocations"],hook="installing an error handler on a context")
p("C26","Contexts are isolated from each other and start from the documented defaults",
  "A new context holds exactly the user data it was given and the library defaults (alarm codes 0x7F00 for the first three of sixteen channels and zero for the rest, adaptation state 1.0, no extensions, silent error handler). Using, copying, changing or dropping one context never changes another one, and a copy starts equal to the original; refused registrations and reported errors leave a context unchanged.",
  ["histories"],"every history of operations over any number of contexts",
  "Tests create contexts only to pass them on; their contents are never looked at.",
  [CX,"src/state/chunks/alarm_codes.rs","src/state/chunks/adaption_state.rs"],[("Context::new, Clone","context.rs"),("chunk defaults","src/state/chunks")],observe=["get_user_data","printable form of contexts","chunk defaults"],hook="installing an error handler on a context")
p("C27","Every plug-in payload is recognised as exactly one kind",
  "For every plug-in payload exactly one of the nine kind tests answers yes, namely the one of the kind it was built as, whatever the payload contains.",
  ["inputs"],"all nine kinds with arbitrary contents",
  "The kind tests have no test.",
  ["src/plugins/plugin.rs"],[("PluginType::is_*","plugin.rs")],observe=["PluginType::is_*"])

p("C28","Each built-in curve follows its documented piecewise definition",
  "For each forward curve type (1 to 8, 108) and all parameters, the built-in evaluator returns the value of the formula documented for the branch the input falls in, with the boundary belonging to the documented side, and the documented constant where a base is not positive or a slope is (almost) zero, i.e. below 0.0001 in magnitude. In particular a power curve maps a negative input to itself only if its exponent is 1 within that tolerance, and to 0 otherwise.",
  ["inputs"],"every curve type, parameter vector and input, in particular inputs on, just below and just above each branch boundary",
  "The evaluator has no test.",
  [PC],[("default_eval_parametric_fn","para_curve.rs")],observe=["evaluator results"])
p("C29","The inverse of each built-in curve undoes it",
  "For each built-in curve type (1 to 8, 108, 109) with non-degenerate parameters that make it rising (or falling, for types 6 and 7 and for type 8 with a positive factor), evaluating the negated type on the result of the forward type gives the input back (up to floating-point accuracy) for every input in the curve's invertible range. Where an inverse would divide by a slope or exponent that is zero within tolerance (0.0001), the inverses of types 1, 2, 4, 5, 7 and 8 return the constant the upstream evaluator defines (zero, or plus infinity's stand-in for type 1) instead of a non-number.",
  ["inputs"],"every curve type with monotone parameters (rising or falling where the type allows it), every input in range",
  "The evaluator has no test; forward and inverse are never composed.",
  [PC],[("negative types in default_eval_parametric_fn","para_curve.rs"),("sigmoid_factory / inverted_sigmoid_factory","para_curve.rs")],observe=["eval(-t, p, eval(t, p, x))"])
p("C30","The built-in curve set names exactly the curves it can evaluate",
  "The built-in set contains exactly types 1 to 8, 108 and 109; looking up a type or its negation gives the position of that type and every other number, including the extreme ones, gives nothing, never a panic. Every listed type evaluates in both directions from exactly the listed number of parameters without needing more, and every type outside the set evaluates to zero. In a set put together by others, looking up a number of either sign gives the first curve listed under it, however many there are.",
  ["inputs"],"every 32-bit type number, every parameter vector of the listed length",
  "Neither lookup nor evaluation has a test.",
  [PC],[("ParametricCurves::default / is_in_set","para_curve.rs")],observe=["is_in_set","evaluator results"])
p("C31","Sigmoid and S-shaped curves keep their shape laws",
  "The sigmoid curve (109) with any steepness from 0.01 to 20 maps 0 to 0, 1/2 to 1/2 and 1 to 1, rises strictly over [0,1] and is point-symmetric about (1/2, 1/2); its inverse has the same fixed points. The S-shaped curve (108) with an exponent from 0.1 to 10 maps 0 to 0 and 1 to 1, never falls over [0,1], is the identity for exponent 1, and its inverse has the same end points.",
  ["inputs"],"every parameter in the stated ranges and every input in [0,1]",
  "The evaluator has no test.",
  [PC],[("sigmoid_base, sigmoid_factory, inverted_sigmoid_*","para_curve.rs")],observe=["evaluator results"])
p("C32","A profile holds exactly its own file open, and a refused open holds nothing",
  "While a profile opened from a file is alive it keeps exactly one descriptor of the process in use, on that file; when it is dropped that descriptor is given back. An open that is refused, for whatever reason and through whatever context, leaves no descriptor in use, also when there was none left to open the file with. Programs that are started do not inherit it.",
  ["histories","inputs","faults"],"every history of read and write opens, successful or refused, and drops in any order",
  "No test looks at descriptors or refuses an open, and no test keeps several profiles.",
  [PR],[("File::open / File::create, ownership of the handler","open_from_file_thr"),("early returns","read_header_thr")],
  state=[("io_handler","the open file","Profile")],observe=["descriptors of the process on each path, after each open and drop"])
p("C33","A profile that was not read from a file starts from the documented defaults",
  "A new profile, or one opened for writing, has version 2.1, no tags, the default (blank) signature for class and colour spaces, and zero for every other header field including the profile ID. It is stamped with the current UTC date and time.",
  ["histories","inputs"],"every new profile and every write open, whatever was opened before, whatever the file held, through whatever context",
  "No test creates a profile.",
  [PR,"src/types/signature.rs"],[("Profile::new, fields of an empty profile","profile.rs")],observe=["public fields of the profile, compared with the clock before and after"])
p("C34","Opens through separate contexts run in parallel without influencing each other",
  "Opens through contexts of their own on several threads, mixed with opens through the default one, each give the result the same open gives alone and report to the handler of the context they were made through. They never wait for each other: an open through one context completes while the handler of another context is still at work.",
  ["schedules","inputs"],"every interleaving of opens of well-formed, malformed and missing files through any number of contexts, copies of each other or not",
  "No test opens through more than one context or on more than one thread.",
  [PR,CX],[("open_from_file_thr takes no lock","profile.rs")],observe=["results per thread and context","handler enter/leave events"],hook="installing an error handler on a context")
p("C35","Streams on the same disk file share its bytes at once and keep their own positions",
  "Whatever is written through one stream on a disk file is at once what every other stream on that file and anybody reading the file sees, size included, and what others write is at once what the streams see. An operation moves the position only of the stream it is called on (and of its duplicates), one refused for lack of permission changes nothing, and closing or dropping a stream leaves the others working.",
  ["histories","schedules"],"every interleaving of operations through any number of streams, opened for reading, writing, both or appending, or duplicated, on one file, with changes by others in between",
  "Every test uses a single stream per file.",
  ["src/io/file_file.rs",IH],[("unbuffered pass-through to the file","impl IOHandler for File"),("size from the file itself","IOHandler::reported_size")],observe=["results of IOHandler operations per stream","contents of the file after every operation"])
p("C36","An opened profile is a snapshot of its file, whatever happens afterwards",
  "Everything a profile tells about itself (header fields, creation stamp, tag directory, links, tag searches, whether it is being written) stays as it was when the open returned, for as long as the profile lives: while its file is overwritten, cut, replaced or removed, while other profiles are opened, refused, compared or dropped on this or other threads, and after the context it was opened through is gone. Two profiles compare as they did before.",
  ["histories","schedules"],"every history of opens, drops, comparisons, lookups and changes of the files, with other threads opening profiles meanwhile",
  "Every test opens one profile, looks at it at once and drops it.",
  [PR,CX],[("everything is read and copied during the open","read_header_thr"),("no state shared between profiles","Profile")],
  state=[("profile fields","copy of what the file held","Profile")],observe=["fields, lookups and comparisons of every living profile throughout a history"],hook="read access to the private profile fields")
p("C37","Printed forms show the value and tell different values apart",
  "Printing a signature or a profile ID never fails, whatever bytes it holds. A signature prints its four characters in quotes when its bytes are valid UTF-8 and its four byte values in hexadecimal otherwise; a profile ID prints its sixteen byte values in hexadecimal, in order, in the pretty form ({:#?}) as well. Headers, directory entries, dates, encoded colours and profiles never fail to print either. Different values of each of these (profiles, which show the file they hold, aside) print differently and equal ones alike.",
  ["inputs"],"every 4-byte signature, every 16-byte ID, every header, entry, date and colour",
  "No test prints anything; error messages and logs rely on these forms.",
  ["src/types/signature.rs","src/types/profile_id.rs"],[("Debug for Signature","signature.rs"),("Debug for ProfileID","profile_id.rs")],observe=["format!(\"{:?}\", value)"])
p("C38","Error handlers may use the library themselves, to any depth",
  "While an error handler runs it may open files for reading or writing, register plug-ins, signal errors and change handlers through the context it was called with, copy that context, and do the same through copies, new contexts, other contexts and, unless something further out is running through it, the default context. Every such call gives exactly what it gives when made alone, its own reports go once to the handler its context has at that moment, and the call in whose report the handler runs then ends with the result it has anyway. A handler (of a context other than the default one) may also panic: the panic passes unchanged to the caller of the call it reported for, which holds nothing open afterwards, and every context works as before. No such call waits for one further out.",
  ["histories","inputs"],"every tree of calls made by handlers inside of calls, of any depth, over any contexts and any files",
  "No test installs a handler, let alone one that calls the library.",
  [CX,PR,"src/state/chunks/error_handler.rs"],[("handler called with the context itself","Context::signal_error"),("no lock but that of the default context, no state outside of contexts","open_from_file_thr")],
  observe=["begin, report, end and result of every call of a call tree"],hook="installing an error handler on a context")
p("C39","What an open costs does not depend on the file",
  "Opening a file for reading reads no more of it than the header and the largest possible directory (plus a fixed amount of read-ahead), reads it no more often than going through it field by field once would, and takes no more than a fixed amount of memory (an open fits into a thread with a stack of a quarter megabyte), and no more than a moment of processor time, however long the file is and whatever sizes, offsets and counts it announces. Once the profile is dropped, or the open refused, the memory is given back: repeated opens, writes, comparisons, context copies, error reports and stream operations never accumulate any. A null stream or a seek takes no memory, whatever the size or position asked for.",
  ["inputs","histories"],"every file content and length up to terabytes, every repetition of library calls",
  "Tests open one small file once and measure nothing.",
  [PR,"src/io/file_null.rs","src/io/file_mem.rs"],[("fixed-size buffers","read_header_thr"),("reported_size by seeking","IOHandler::reported_size"),("size counter only","FileNull")],
  observe=["bytes read by the process and how often it reads","bytes allocated, at the peak and afterwards"])
p("C41","Each reversed curve has its documented value for every number, also outside of the range",
  "For each negated curve type (-1 to -8, -108) and all parameters, the built-in evaluator returns the value of the formula documented for the branch the number falls in, whether or not the forward curve ever takes it, with the boundary on the documented side: type -2 is never below 0, type -3 stays at -b/a below c, type -4 and -5 use their straight piece below the joint and type -5 gives 0 between the joint and e, types -6 and -8 give 0 below their offset, and where a slope or exponent is zero within tolerance the constant of the upstream evaluator is returned (0; for type -1 the stand-in for plus infinity). A power curve reversed maps negative numbers to themselves only if its exponent is 1 within tolerance, and to 0 otherwise.",
  ["inputs"],"every curve type, parameter vector and number, in particular numbers on, just below and just above each branch boundary of the reversed curve",
  "The evaluator has no test.",
  [PC],[("negative types in default_eval_parametric_fn","para_curve.rs")],observe=["evaluator results for negated types"])
p("C40","Streams on pipes, sockets and devices move exactly the bytes asked for, in order",
  "A disk-file stream may sit on a device that hands out and accepts bytes in pieces and as they come: a pipe, a FIFO, a socket, a character device, a disk that fills up. A read or typed read waits for all its bytes and takes exactly those, in order, whatever the pieces they come in and however often signals interrupt it; if the device ends first it fails with an unexpected end of file. A write or typed write hands over all its bytes, in order and once, or fails with the error of the device after handing over a prefix. A device that does not wait, that has no position, that is full or broken, or was not opened for that direction answers every such operation with its own error, and giving up the stream closes the device.",
  ["inputs","schedules","faults"],"every cutting of the bytes into pieces, every interleaving with the other end and with signals, every typed operation, every amount of room",
  "Tests use regular files, which give and take everything at once.",
  ["src/io/file_file.rs",IH],[("read_exact and write_all","impl IOHandler for File"),("typed operations","IOHandler")],
  observe=["results of IOHandler operations","bytes seen by the other end, and its end of file"])
p("C42","Evaluations and conversions depend on nothing but their arguments",
  "Evaluating a built-in curve, looking one up in a set, converting fixed-point numbers, byte orders, signatures (from bytes and to text), dates and headers gives the same value for the same arguments every time: whatever was evaluated or converted before, with arguments however much alike, wherever in memory the arguments lie and whatever lay there before, and on whichever of any number of threads.",
  ["inputs","histories","schedules"],"every order and repetition of calls with every arguments, on every number of threads",
  "Tests call everything once, on one thread.",
  [PC,IH,"src/types/signature.rs","src/types/date_time_number.rs","src/types/icc_header.rs"],[("plain functions of their arguments","default_eval_parametric_fn"),("conversions","From implementations of Signature and DateTimeNumber")],
  observe=["values returned, bit for bit"])
p("C43","Values are equal exactly if all of their parts are",
  "Headers, directory entries, ICC dates, encoded and floating-point colours, signatures and profile IDs are equal exactly if each of their parts is (reserved bytes included; floating-point parts as numbers, so that only a NaN differs from itself), whichever way round they are compared, and a copy is equal to its original. Error codes have their documented numbers and compare, order and hash as these.",
  ["inputs"],"every two values of each of the plain types",
  "Tests compare a few values that differ grossly; a part left out of a comparison, or differences that cancel, would go unnoticed and make different profiles look alike.",
  ["src/types/icc_header.rs","src/types/profile_id.rs","src/types/tag_entry.rs","src/types/date_time_number.rs","src/types/cie_xyz.rs","src/types/encoded_xyz_number.rs","src/types/signature.rs","src/state/chunks/error_handler.rs"],
  [("PartialEq for ProfileID","profile_id.rs"),("derived comparisons","the plain types"),("ErrorCode","error_handler.rs")],
  observe=["==, !=, clone","cmp, partial_cmp, <, <=, >, >= and Hash of ErrorCode"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
