#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=["include/stdex/" + f for f in files],
                  mech=mech, tech=tech, note=note, state=state or [], observe=observe or []))


EXPL = ("Exploration: holds on every execution observed (seeded, counts in the evidence file); nothing is claimed for inputs or schedules not run. "
        "Trusted: clang 18 sanitizers, the oracle in the driver. ")

# ---------------------------------------------------------------- concurrency
prop("C01", "Ring buffer hands data over in order, without loss, duplication or tearing",
     "Bytes that a producer commits to the ring buffer reach the consumer exactly once, in commit order and unmodified, for every capacity, block size and interleaving of the two threads, and a block is never longer than the space or data that is really available. "
     "A thread waiting for space, for data or for the buffer to drain always wakes once the condition it waits for holds or the buffer is told to quit, and after quitting no call blocks. "
     "No access races.",
     ["schedules", "histories"], "all capacities, block sizes, partial commits, thread interleavings and quit points",
     "ring::test runs one producer and one consumer with one capacity on the native schedule; wrap-around, partial pops, quit races and waiters for drain are never varied.",
     ["ring.hpp"], [("front/pop, back/push under one mutex", "include/stdex/ring.hpp"), ("quit flag and condition variable", "include/stdex/ring.hpp")],
     "runtime monitoring: sequence-stamped FIFO monitor and model check under ThreadSanitizer and ASan with injected delays",
     EXPL + "Interleavings are those of the OS scheduler with injected delays, not enumerated.",
     state=[dict(name="head, tail/size", meaning="committed region", where="include/stdex/ring.hpp")])
prop("C02", "Pool and spinlock give exclusive ownership",
     "An object handed out by the pool is owned by exactly one caller until it is returned, nothing returned is lost or handed out twice, and the pool destroys exactly what it still holds. "
     "The spinlock admits one holder at a time, a failed try leaves it as it was, and everything written under the lock is visible to the next holder.",
     ["schedules", "histories"], "all interleavings of any number of threads adding, removing, draining, locking and unlocking",
     "pool::test exercises one small scenario; spinlock has no test. Mutual exclusion is a statement over schedules.",
     ["pool.hpp", "spinlock.hpp"], [("per-NUMA-node lists behind a mutex", "include/stdex/pool.hpp"), ("atomic flag with acquire/release", "include/stdex/spinlock.hpp")],
     "runtime monitoring: ownership-token monitor under ThreadSanitizer, conservation count, leak detection", EXPL)
prop("C03", "Watchdog fires when, and only when, it is not reset in time",
     "If the watched activity pauses for longer than the timeout the callback runs, and if every pause is shorter the callback never runs. "
     "Destroying the watchdog stops it promptly, its callback never runs after destruction has completed, and no access races.",
     ["schedules", "histories"], "all sequences of resets, pauses and destruction, relative to the timeout",
     "watchdog::test checks one timing; races between reset, expiry and destruction are never explored.",
     ["watchdog.hpp"], [("phase counter, condition variable and timed wait", "include/stdex/watchdog.hpp")],
     "runtime monitoring: callback trace checker with wide timing margins, ThreadSanitizer", EXPL + "Timing verdicts use margins far wider than scheduler noise.")
prop("C04", "Asynchronous streams and the replicator deliver every byte once, in order",
     "Reading through the asynchronous reader yields exactly the bytes of its source in order and then end of data; everything written through the asynchronous writer is at the sink, in order, once flush or destruction returns. "
     "The replicator gives every attached sink exactly the bytes written to it. A source or sink that ends, fails, throws, or returns short counts leads to a reported state or exception and never to a hang, the end of the process, loss in the middle or duplication, and no access races.",
     ["schedules", "fault_sequences", "inputs"], "all contents, buffer sizes, chunk sizes, short or failed operations at any position, early destruction, and thread interleavings",
     "stream::async and stream::replicator copy one well-behaved source on the native schedule.",
     ["stream.hpp", "ring.hpp"], [("ring buffer and worker thread of async_reader/async_writer", "include/stdex/stream.hpp"), ("replicator workers", "include/stdex/stream.hpp")],
     "runtime monitoring: byte-conservation and order oracle over fault-injecting streams, ThreadSanitizer and ASan", EXPL)
prop("C05", "Progress reports combine into one bounded, correctly scaled whole",
     "A local section reports to its parent exactly the sub-range it was given, whatever its own range; an aggregate over any number of concurrent workers reports the sum of their shares, in order and one report at a time, never beyond the combined range; a lazy reporter forwards no more often than its period allows, and forwards the ends of the range and what follows a pause. "
     "Cancellation of the parent is seen by every descendant. A detached parent is not called again, one attached gets the current totals, and no access races.",
     ["histories", "schedules"], "all ranges, nesting, orders of set/attach/detach and thread interleavings",
     "No test covers progress reporting.",
     ["progress.hpp"], [("range rescaling in global_progress", "include/stdex/progress.hpp"), ("aggregate_progress workers and mutex", "include/stdex/progress.hpp")],
     "runtime monitoring: recorded progress trace against an exact model, ThreadSanitizer", EXPL)

prop("C06", "Separate objects can be used, and unchanging ones read, from many threads",
     "Functions given separate data, and objects not shared between threads (encoders, hashes, streams, files, parsers, documents, records, queues), can be used on any number of threads at once without a lock: the first use of each included, they race on nothing, and every one of them gives what it gives when used alone. "
     "Nor does what was done with one object, before or at the same time, change what another object gives. "
     "Objects that nobody changes (a document given to several parsers, a token tree, a mapping, a queue, a finished digest, through their const interface) can be read by several threads at once likewise.",
     ["schedules", "inputs"], "all interleavings of operations on separate objects, and all inputs",
     "All tests run on a single thread.",
     ["sgml.hpp", "stream.hpp", "parser.hpp", "minisign.hpp", "wav.hpp", "langid.hpp", "unicode.hpp", "string.hpp", "html.hpp"],
     [("local and constant static data only", "include/stdex/wav.hpp"), ("tables built at first use", "include/stdex/langid.hpp"), ("buffers of conversions", "include/stdex/unicode.hpp")],
     "runtime monitoring: ThreadSanitizer, and results of operations run at once compared with the same run alone", EXPL)

# ---------------------------------------------------------------- streams
prop("S01", "Memory file behaves as a byte array with a position",
     "For every history of reads, writes, seeks, truncations, copies, moves and typed accesses, a memory file returns the bytes, counts, positions, sizes and states an ideal growable byte array with a file position would. "
     "It never reads or writes outside its buffer, frees what it allocated and never what it was lent, and failed allocation or a read past the end is reported in the state rather than as wrong data.",
     ["histories", "inputs"], "all operation histories and offsets up to sizes that fit memory",
     "No stable test runs memory_file histories; stream tests only copy whole files.",
     ["stream.hpp"], [("memory_file offset/size/reserved bookkeeping", "include/stdex/stream.hpp")],
     "runtime monitoring: model-based random histories with state comparison after each step, ASan/UBSan", EXPL)
prop("S02", "Caching a file never changes what is read or what ends up written",
     "Any history of reads, writes, seeks, truncations and flushes issued through a file cache gives the same data, counts, positions and sizes as the same history on the uncached file, and after flush or close the underlying file holds identical content, even when the underlying file delivers short counts. "
     "A failure of the underlying file shows in the state and does not silently discard data; when a part of the file cannot be read, everything else still can.",
     ["histories", "fault_sequences"], "all histories of operations, cache sizes, alignments and short counts or faults of the underlying file",
     "No stable test drives the cache; it is a relation between two histories.",
     ["stream.hpp"], [("cache region, dirty status and load/flush", "include/stdex/stream.hpp")],
     "runtime monitoring: differential histories (cached vs uncached vs model) over fault-injecting files, ASan/UBSan", EXPL)
prop("S03", "Stream filters pass exactly their share of the data, unchanged",
     "A size limit lets through exactly the permitted number of bytes in each direction; a window exposes exactly the given range of the underlying stream or file, with positions relative to it; a buffered stream delivers the same byte sequence as the unbuffered one, and everything written is below it after flush or destruction. "
     "Flushing and closing a filter reach the stream below, behind the data, and its failures are passed on. "
     "This holds for every chunking of the reads and writes and every pattern of short counts below.",
     ["inputs", "histories"], "all contents, limits, windows, buffer sizes, chunkings and short counts",
     "No test covers limiter, window or buffer filters.",
     ["stream.hpp"], [("limiter, window, file_window, buffer", "include/stdex/stream.hpp")],
     "runtime monitoring: model oracle over random histories with short-count streams, ASan/UBSan", EXPL)
prop("S04", "In-memory FIFO stream returns bytes in the order they were written",
     "What is read from the FIFO is exactly what was written and not yet read, in order, for every interleaving of reads and writes of any sizes; its size always equals written minus read; reading an empty FIFO reports end of data. "
     "All memory is released on destruction or close and the FIFO is usable again after close.",
     ["histories"], "all sequences of writes, reads and closes of any sizes",
     "No test covers the FIFO.",
     ["stream.hpp"], [("linked node list with head offset", "include/stdex/stream.hpp")],
     "runtime monitoring: deque model, ASan with leak and alloc-dealloc-mismatch detection", EXPL)
prop("S05", "Values written to a stream read back equal, and bad input cannot corrupt memory",
     "Integers, floating-point numbers, character strings, vectors, sets and the like written to a stream in either byte order read back equal to what was written and leave the position right after the value. "
     "Input that is truncated or has a hostile length is reported as a failure of the stream, without access outside of buffers and without allocating for data that is not there. A set cut short holds only elements that were written.",
     ["inputs"], "all values and sequences of values, all truncation points and all hostile length fields",
     "No test round-trips values; truncation and hostile lengths are never tried.",
     ["stream.hpp", "endian.hpp"], [("read_data/write_data, read_str/write_str, operators << and >>", "include/stdex/stream.hpp")],
     "runtime monitoring: round-trip and truncation oracle, allocation monitor, ASan/UBSan", EXPL)
prop("S06", "Line and text reading and writing preserve text",
     "Reading a stream line by line yields the text's lines, split at LF and stripped of CR as documented, with nothing lost or invented, for every content including a final line without terminator, and stops at end of data. "
     "Formatted and plain text written to a stream produces exactly the formatted bytes in the chosen encoding.",
     ["inputs"], "all texts, encodings and line-end placements, in memory and behind streams",
     "No stable test reads lines.",
     ["stream.hpp"], [("readln, readln_and_attach, write_array with encoder, write_sprintf, read_charset/write_charset", "include/stdex/stream.hpp")],
     "runtime monitoring: reference line splitter, ASan/UBSan", EXPL)
prop("S07", "On-disk files behave as the same ideal byte array, and honour the open mode",
     "For every history of reads, writes, seeks, truncations and reopenings, a file on disk returns the data, positions, sizes and states an ideal byte array would, and the content on disk afterwards is what was written. "
     "Opening modes (create, truncate, preserve, append, read only) have their documented effect, failures are reported in the state, and timestamps set are the timestamps read back.",
     ["histories", "configurations"], "all operation histories and combinations of open modes",
     "stream::open_close and stream::file_stat run a few fixed sequences.",
     ["stream.hpp", "system.hpp"], [("basic_file/file over POSIX descriptors", "include/stdex/stream.hpp")],
     "runtime monitoring: model-based histories in a scratch directory, ASan/UBSan", EXPL)
prop("S08", "Bulk stream transfer moves every byte or says it did not",
     "Copying one stream into another, reading all the remainder, skipping, and block reads and writes transfer exactly the requested bytes for every pattern of short counts of either side, return the amount truly transferred, and report an error when either side fails. "
     "No byte is lost, duplicated or invented.",
     ["fault_sequences", "inputs"], "all contents, lengths, and patterns of short counts, ends and failures on either side",
     "Existing tests use streams that never return short counts nor fail.",
     ["stream.hpp"], [("read_array, write_array, write_stream, read_remainder, skip, write_byte", "include/stdex/stream.hpp")],
     "runtime monitoring: byte-conservation oracle over fault-injecting streams, ASan/UBSan", EXPL)

prop("S09", "Descriptor streams deliver in order, tell stalls from ends, own their handle",
     "A stream over a pipe, socket or descriptor delivers every byte the peer sent, once and in order, in whatever portions it arrives. When nothing has arrived on a non-blocking or timed-out handle, reading gives nothing and reports a failure; the end is reported only once the peer has closed and everything was read; a zero-length read neither waits nor takes anything. "
     "Writing reports exactly the bytes the system accepted and fails when that is not all. Closing, moving, assigning or destroying a stream closes every handle exactly once, and the peer sees it exactly then.",
     ["schedules", "histories"], "all portions and timings of the peer, all histories of construction, move, assignment and closing",
     "No stable test uses a socket or a pipe.",
     ["stream.hpp", "socket.hpp", "system.hpp"], [("stream::socket, basic_sys, buffered_sys", "include/stdex/stream.hpp"), ("basic_sys_object, socket_traits", "include/stdex/system.hpp")],
     "runtime monitoring: peers recording what passes on the other end, delay injection, ASan/UBSan", EXPL)

# ---------------------------------------------------------------- hashes, codecs
prop("H01", "Digests equal the published algorithms for every message and chunking",
     "CRC-32, MD5 and SHA-1 of any message equal the standard digest, however the message is split over calls or fed through a hashing stream, for messages of any length including beyond 2^32 bits, and after the object is cleared and reused. "
     "Digests compare equal exactly when all their bytes are equal, and a hashing stream passes the data through unchanged.",
     ["inputs", "histories"], "all messages, lengths and chunkings",
     "hash tests check a handful of fixed short messages in one chunk.",
     ["hash.hpp"], [("block buffering, bit count and padding", "include/stdex/hash.hpp")],
     "runtime monitoring: differential oracle against OpenSSL and zlib over random chunkings, ASan/UBSan", EXPL)
prop("E01", "Base64 encoding and decoding are exact inverses under every chunking",
     "Encoding yields the standard padded alphabet for every input and chunking; decoding what was encoded returns the input, with whitespace ignored and end of data recognised, for every chunking, in memory and as stream filters. "
     "Decoding arbitrary text never accesses memory outside its buffers and never reports more data than it produced.",
     ["inputs", "histories"], "all byte strings, chunkings and arbitrary texts to decode",
     "No stable test covers Base64.",
     ["base64.hpp"], [("3-byte/4-character group buffer carried between calls", "include/stdex/base64.hpp")],
     "runtime monitoring: reference encoder/decoder oracle over random chunkings, ASan/UBSan", EXPL)
prop("E02", "Hexadecimal encoding and decoding are exact inverses under every chunking",
     "Encoding yields two upper-case digits per byte; decoding what was encoded returns the input under every chunking, skipping whitespace and reporting the end as documented. "
     "Decoding arbitrary text never accesses memory outside its buffers.",
     ["inputs", "histories"], "all byte strings, chunkings and arbitrary texts to decode",
     "No stable test covers hex.",
     ["hex.hpp"], [("half-byte buffer carried between calls", "include/stdex/hex.hpp")],
     "runtime monitoring: reference codec oracle over random chunkings, ASan/UBSan", EXPL)
prop("E03", "Compressed streams decompress to the original",
     "Data written through the compressing filter and read back through the decompressing filter is identical for every content, level, block size and chunking; the compressed stream is readable by any zlib. "
     "Truncated or corrupt input is reported as an error or end and never hangs, crashes or yields more than was there.",
     ["inputs", "fault_sequences"], "all contents, levels, block sizes, chunkings and corruptions",
     "zlib::test round-trips one text at one block size.",
     ["zlib.hpp"], [("zlib_writer, zlib_reader loops", "include/stdex/zlib.hpp")],
     "runtime monitoring: round-trip and differential oracle against zlib, corruption injection, ASan/UBSan with leak detection", EXPL)
prop("E04", "Unicode conversion is lossless and bounded",
     "Converting valid text between UTF-8, UTF-16 and UTF-32 and back returns the same text, equals the standard encoding, and does so for every length, in particular around internal buffer sizes; an encoder object reused after a failed conversion works as a new one. "
     "Ill-formed input is rejected without access outside of the given range.",
     ["inputs", "histories"], "all code point sequences, ill-formed inputs, lengths, and histories of encoder use",
     "unicode tests convert a few fixed strings.",
     ["unicode.hpp", "locale.hpp"], [("charset_encoder over iconv with a growing buffer", "include/stdex/unicode.hpp"), ("utf surrogate helpers", "include/stdex/unicode.hpp")],
     "runtime monitoring: reference transcoder oracle, hostile input under ASan/UBSan", EXPL)
prop("E05", "SGML entity encoding round-trips and never overruns",
     "Plain text turned into SGML and back is the same text (up to an entity's composed and decomposed forms), known entities decode to their characters and unknown or malformed ones are left as they were. "
     "With a caller-provided buffer, writing stops within its size and reports a too small buffer, for every text and size; source maps point at the text they claim to.",
     ["inputs"], "all texts, entity forms, flags and buffer sizes",
     "sgml tests convert a few fixed strings into large buffers.",
     ["sgml.hpp", "sgml_unicode.hpp"], [("entity tables and binary search", "include/stdex/sgml_unicode.hpp"), ("sgml2strcat, str2sgmlcat", "include/stdex/sgml.hpp")],
     "runtime monitoring: reference entity codec, exact-size buffers under ASan", EXPL)
prop("E06", "URL, CSS and HTML escaping round-trips",
     "Escaping any text for a URL, a CSS value (also in a style element of HTML) or HTML yields text in the safe alphabet that unescapes to the original. "
     "Unescaping arbitrary text, including escapes cut off at the end, terminates, stays within the text, and follows the published escape grammar.",
     ["inputs"], "all texts to escape and all texts to unescape",
     "No stable test covers HTML escaping.",
     ["html.hpp"], [("escape, url_escape/url_unescape, css_escape/css_unescape", "include/stdex/html.hpp")],
     "runtime monitoring: reference escape codecs, exact-size buffers under ASan/UBSan", EXPL)

# ---------------------------------------------------------------- strings, numbers
prop("T01", "String functions honour their bounds and agree with the reference semantics",
     "Bounded string functions (length, find, compare, copy, concatenate, duplicate, trim, case change, classification) give the result their C counterparts are specified to give, for every content, count and presence or absence of a terminator. "
     "They never read beyond the given count or terminator nor write beyond the given destination size, and comparisons are consistent orderings.",
     ["inputs"], "all strings, counts, terminator placements and character types",
     "string::strncpy and string::sprintf test a few strings.",
     ["string.hpp"], [("strnlen/strncmp/strncpy/strncat/strnchr/strnstr families", "include/stdex/string.hpp")],
     "runtime monitoring: naive reference implementations, exact-size buffers under ASan/UBSan", EXPL)
prop("T02", "Text-to-number conversion is exact, saturating and bounded",
     "Converting text to integers of any base and width gives the value written, consumes exactly the number's characters, and saturates to the type's limit with the overflow reported instead of wrapping. "
     "Floating-point conversion equals the C library's for the same text. Nothing beyond the given count is read.",
     ["inputs"], "all texts, bases 0 and 2..36, widths and signedness",
     "No test covers numeric conversion.",
     ["string.hpp"], [("strtoint/strtouint/strto32 and friends", "include/stdex/string.hpp")],
     "runtime monitoring: big-integer reference oracle, exact-size buffers under ASan/UBSan", EXPL)
prop("T03", "Formatted output equals the C library's for every length",
     "Formatting into a string gives exactly what the C library's formatting gives, appended to what was there, for every result length including those around internal buffer sizes and empty results, narrow and wide. "
     "Errors are reported as exceptions and formatting always terminates.",
     ["inputs"], "all formats, arguments and result lengths",
     "string::sprintf tests a few lengths.",
     ["string.hpp"], [("vappendf stack/heap buffers", "include/stdex/string.hpp")],
     "runtime monitoring: differential oracle against snprintf/strftime over all lengths, ASan/UBSan", EXPL)

# ---------------------------------------------------------------- containers, math
prop("D01", "The queue on a ring-shaped vector behaves as a double-ended queue",
     "For every history of pushes and pops at both ends, element accesses, copies and moves, the fixed-capacity queue holds the elements an ideal double-ended queue would, in order, with pushing beyond capacity displacing exactly one element at the other end. "
     "Every element constructed is destroyed exactly once and all memory is released.",
     ["histories"], "all operation histories and capacities",
     "No test covers the queue.",
     ["vector_queue.hpp"], [("head/count/capacity arithmetic", "include/stdex/vector_queue.hpp")],
     "runtime monitoring: deque model with object-lifetime counter, ASan/UBSan/LSan", EXPL)
prop("D02", "Intervals, mappings, checked arithmetic and byte order are mathematically exact",
     "Interval operations agree with set operations on points; mapping lists translate positions exactly in both directions, with and without a hint; checked addition and multiplication give the exact result or report overflow, multiply-divide and rotation are exact whenever the result fits; byte reversal is an involution that equals the big- or little-endian layout. ",
     ["inputs", "histories"], "all operand values and mapping lists",
     "math::add and math::mul check a few operands.",
     ["interval.hpp", "mapping.hpp", "math.hpp", "endian.hpp"], [("overflow checks", "include/stdex/math.hpp"), ("bisection with a hint", "include/stdex/mapping.hpp")],
     "runtime monitoring: 128-bit and point-set reference oracles, UBSan", EXPL)
prop("I01", "Language identifiers translate consistently with the language tables",
     "Looking up a listed language tag gives its identifier whatever the letter case and separators, any other tag gives the unknown identifier, every identifier gives its tag or the fallback, and translating there and back returns the same tag and the same primary language. "
     "Arbitrary text gives a defined answer without access outside of it.",
     ["inputs"], "all listed tags, their variants and arbitrary texts",
     "langid::from_rfc1766 checks a few tags.",
     ["langid.hpp"], [("sorted table and binary search", "include/stdex/langid.hpp")],
     "runtime monitoring: linear-search reference over an independent table copy, ASan/UBSan", EXPL)
prop("I02", "UUIDs survive their text form, and only their text form is accepted",
     "Every UUID written as text has the standard 8-4-4-4-12 form and reads back equal, narrow and wide, whatever the letter case. "
     "Reading text that is not a UUID fails, with nothing read beyond the given count.",
     ["inputs"], "all UUID values, all near-miss texts and counts",
     "No test covers UUIDs.",
     ["uuid.hpp"], [("strtouuid, uuidtostr", "include/stdex/uuid.hpp")],
     "runtime monitoring: round-trip and independent acceptance oracle, exact-size buffers under ASan/UBSan", EXPL)
prop("I03", "Clock and calendar conversions are mutually inverse",
     "Converting time points among the library's clocks, system time, broken-down time and text gives the same instant and returns to it at the target's resolution, over the whole supported range, before and after the epoch. "
     "Broken-down fields equal the calendar's.",
     ["inputs"], "all representable time points and dates",
     "No stable test covers the clocks.",
     ["chrono.hpp"], [("aosn_timestamp, ole_date, file_time conversions", "include/stdex/chrono.hpp")],
     "runtime monitoring: independent proleptic-Gregorian reference, round trips, ASan/UBSan", EXPL)

# ---------------------------------------------------------------- formats
prop("R01", "Record streams written are found and read back intact",
     "Records written with an identifier, size and payload are found by identifier in any order of records, read back equal, and unknown records are skipped exactly, for any nesting and alignment. "
     "Truncated or hostile record headers give a failure or not found, without hang, out-of-bounds access or runaway allocation. A record of which a part could not be written is never reported as written.",
     ["inputs", "histories"], "all record sequences, alignments, nestings, truncations and hostile size fields",
     "No test covers record streams.",
     ["idrec.hpp"], [("header write/patch, find, ignore", "include/stdex/idrec.hpp")],
     "runtime monitoring: reference record layout, truncation and mutation injection, ASan/UBSan", EXPL)
prop("R02", "WAV metadata survives writing and reading",
     "Wave format, cue points and labels written to a file are read back equal, edits replace the old data and keep the other chunks, reading, writing and editing over a failing stream never report success for less than all of it, and arbitrary or truncated input ends in a failure or a defined result without hang, out-of-bounds access or runaway allocation.",
     ["inputs", "fault_sequences"], "all cue sets, formats, chunk orders, truncations and mutations",
     "No test covers WAV.",
     ["wav.hpp", "idrec.hpp"], [("cue/label chunk scanning", "include/stdex/wav.hpp")],
     "runtime monitoring: round-trip oracle and mutation injection, ASan/UBSan, allocation and progress monitors", EXPL)

# ---------------------------------------------------------------- parsers
prop("P01", "Every parser reports only what is there: bounded, repeatable, consistent",
     "Every parser, on every text and range, either reports failure or a match that starts where asked and ends within the range and before any terminator; it never reads outside of the range, always terminates, and its answer depends only on the text in the range. "
     "Matching again with the same parser gives the same result and values whatever it matched in between, a failed or invalidated parser reports nothing of earlier matches, and search returns the first position where a match succeeds.",
     ["inputs", "histories"], "all texts, ranges, parsers and histories of earlier matches",
     "Only parser::http_test runs the parsers on fixed texts; bounds and stale state cannot be seen there.",
     ["parser.hpp"], [("match/search/invalidate protocol", "include/stdex/parser.hpp")],
     "runtime monitoring: generic contract monitor over ~150 parsers with exact-size buffers under ASan/UBSan, fresh-vs-reused comparison", EXPL)
prop("P02", "Number parsers accept exactly the number grammar and compute its value",
     "Decimal, hexadecimal, digit-group-separated, Roman, signed, mixed, scientific, fraction, score and monetary number parsers accept the longest number their grammar allows at the position asked, and nothing else; "
     "the value (where it fits the result) and the ranges of all parts they report are those of the number written, in every encoding (narrow, wide, SGML). "
     "Separators in a number are all the same and precede groups of exactly three digits.",
     ["inputs"], "all digit strings, separators, signs, exponents and surrounding text",
     "No stable test covers number parsers.",
     ["parser.hpp"], [("integer/real parser templates", "include/stdex/parser.hpp")],
     "runtime monitoring: independent grammar and value oracle, ASan/UBSan", EXPL)
prop("P03", "Network address parsers accept exactly valid addresses and yield their value",
     "IPv4, IPv6, DNS name, e-mail address and URL parsers accept precisely the addresses their grammar admits, as far as it goes at the position asked, report each component's range and only the components present, "
     "and yield the numeric address, in network byte order, and port; hosts may be IPv4, bracketed IPv6 with scope, or names, in every encoding (narrow, wide, SGML).",
     ["inputs"], "all well-formed addresses in every notation and near-miss mutations",
     "No stable test covers network parsers.",
     ["parser.hpp"], [("ipv4_address, ipv6_address, dns_name, url, email parsers", "include/stdex/parser.hpp")],
     "runtime monitoring: differential oracle against inet_pton and independent grammars, ASan/UBSan", EXPL)
prop("P04", "Financial reference parsers enforce their check digits",
     "An IBAN (ISO 7064 mod 97, length and fixed check digits of its country), an RF creditor reference (ISO 7064 mod 97, up to 21 characters) and an SI payment reference (mod 11 over the parts its model asks for, lengths of parts) are reported valid if and only if their check digits and lengths are right, for every spacing allowed, "
     "with the range and the parts reported as written.",
     ["inputs"], "all references: valid ones, and every single-character change, truncation and transposition",
     "No stable test covers references.",
     ["parser.hpp"], [("iban, creditor_reference, si_reference parsers", "include/stdex/parser.hpp")],
     "runtime monitoring: independent big-number mod-97/mod-11 oracle, mutation enumeration, ASan/UBSan", EXPL)
prop("P05", "Date, time, angle, phone, emoticon and formula parsers yield the value written",
     "A date in any of the enabled orders and separators, a time and an angle are recognised exactly as far as they are valid, and day, month, year, hours, minutes, seconds and milliseconds equal the digits written at the reported places; impossible dates and times (day beyond its month, minutes and seconds from 60 on, different separators) are rejected or end before the part that is wrong. "
     "A phone number ends at its last digit or closing parenthesis, and its value is the plus sign, digits and one pair of parentheses written there, in order, without separators and spaces. "
     "An emoticon's eyes, nose and mouth and a chemical formula's extent, digits and charge are reported as written.",
     ["inputs"], "all dates, times and angles in all formats, phone numbers, emoticons and formulae, and near-miss mutations, in every encoding",
     "No stable test covers them.",
     ["parser.hpp"], [("date, time, angle, phone_number, emoticon, chemical_formula parsers", "include/stdex/parser.hpp")],
     "runtime monitoring: generated values in every format against an independent reader of the grammar, ASan/UBSan", EXPL)
prop("P06", "HTTP parsers decompose requests and header values into the parts written",
     "An HTTP token, quoted string, parameter, media type, cookie, URL, protocol, agent, language or weight is parsed into exactly the parts written, wherever it stands, whatever follows it, with optional and folded space and non-ASCII text, and only from the bytes in range. "
     "A request yields its verb, URL and protocol version and ends after its line; a header block yields every header with its name and its value without surrounding space, folded lines included, one after another; "
     "a weighted list yields every element, empty elements skipped, with the weight written (1 when none), ordered by falling weight and as written among equals. Text that does not follow the grammar yields no match and no parts.",
     ["inputs", "histories"], "all grammar-generated messages, truncations and mutations",
     "parser::http_test parses one request.",
     ["parser.hpp"], [("http_* parsers", "include/stdex/parser.hpp")],
     "runtime monitoring: independent readers of the grammars over generated and damaged messages, ASan/UBSan", EXPL)
prop("P07", "JSON, CSS, MIME and HTML token parsers yield the token's meaning",
     "A JSON string yields the text it encodes, every escape included, and a string that is not closed or has an invalid escape yields no match. "
     "A CSS comment, string, URI or import, a MIME type with its charset, and an HTML tag, comment, instruction, declaration or conditional section mark is matched exactly as far as it extends, escapes and quotes honoured, in any letter case and spacing, and its content, name and attributes are where they were written, in order; "
     "a token that is cut off yields no match, and whatever looks like a tag yields parts inside of the match, in order.",
     ["inputs"], "all token texts generated from values and their mutations, in char and wchar_t",
     "No stable test covers these parsers.",
     ["parser.hpp"], [("json_string, css_*, mime_*, html_* parsers", "include/stdex/parser.hpp")],
     "runtime monitoring: generate-and-compare oracle and independent readers, ASan/UBSan", EXPL)
prop("P08", "Parser combinators compose as sequence, choice, permutation and repetition",
     "Sequences, alternatives, lists of strings, permutations (in any order that fits) and repetitions (within limits, greedy or not) built in any nesting from characters, sets, strings, classes of characters and line anchors, inverted or not, accept exactly the texts a straightforward interpretation of the combination accepts, in any letter case when asked for, with the same extent, the same alternative and set member reported, and every part of a sequence, alternative or permutation where it matched; "
     "alternatives not taken report no match. The same object gives the same answers on one text after another, and search finds the first position that matches.",
     ["inputs", "programs"], "all combinations of combinators over all texts, sampled to depth 3 over short texts",
     "No stable test covers the combinators.",
     ["parser.hpp"], [("basic_sequence, basic_branch, basic_string_branch, basic_permutation, basic_iterations, basic_bol, basic_eol and character parsers", "include/stdex/parser.hpp")],
     "runtime monitoring: random combinator programs against an independent interpreter, ASan/UBSan", EXPL)
prop("P09", "HTML documents survive being parsed and linked back",
     "Splitting an HTML document into tokens and linking them back without changes yields a document with the same markup, the same meaning of every text, attribute value and URL, and the same scripts, styles and CDATA sections, for every document, and also when the document is given in pieces cut outside of markup; texts, quoted attribute values and URLs rewritten before linking come out as rewritten, and nothing else changes. "
     "Every tag, comment, declaration and instruction outside of verbatim elements is found once, in order, with each element linked to what ends it (its end tag, the end of its parent, or the element that cannot be inside of it), including where HTML lets end tags be omitted; localizable attributes, URLs of attributes and of CSS are tokens of their own with their decoded value; text is marked as heading or list text exactly where it is, and texts of separate blocks are never joined into one; the mapping leads from text back to the source. "
     "Ignored marked sections are left out and included ones kept, also when chosen by parameter entities. Start and end tags regenerated for moved words stay balanced and leave every word inside of the elements it must be in. "
     "Arbitrary, truncated, hostile, deeply nested or long input is processed in bounded time without access outside of it and without taking document text for tokens; the caller can cancel.",
     ["inputs", "histories"], "all documents, entity uses, unclosed elements, chunk boundaries outside markup, marked sections, truncations and mutations",
     "No stable test covers HTML.",
     ["html.hpp", "parser.hpp", "sgml.hpp"], [("document tag stack and conditions", "include/stdex/html.hpp"), ("parser and link", "include/stdex/html.hpp")],
     "runtime monitoring: generated-document round-trip and structure oracle, piecewise feeding, mutation injection, ASan/UBSan with time monitors", EXPL)
prop("M01", "Signature files are read as the format defines",
     "Reading a detached signature file yields the algorithm, key identifier and signature encoded on its first line that is neither empty nor an untrusted comment, whatever the line ends and whether or not the file ends with one, "
     "and rejects a file where that line is missing, too short, or does not carry a signature; a read failure never makes it yield values the file does not contain. Truncated or hostile files never cause access outside of buffers.",
     ["inputs"], "all signature files, truncations and mutations",
     "No test covers signatures.",
     ["minisign.hpp", "base64.hpp"], [("signature and key loading", "include/stdex/minisign.hpp")],
     "runtime monitoring: generate-and-compare oracle with mutations, ASan/UBSan", EXPL)
prop("M02", "Running out of memory is reported, leaks nothing and breaks nothing",
     "When memory cannot be allocated, at whatever point of whatever operation, the caller is told (by an exception or by the state of the stream), or the result is what it would have been; never a wrong or shortened result that passes for a right one. "
     "The process goes on: nothing leaks, no thread is left behind, no memory is accessed that was given back, and the same operation done again gives what it always gave.",
     ["inputs", "fault_sequences"], "all operations, with the allocation failing at any point of them",
     "Allocations never fail in tests, and never by chance.",
     ["stream.hpp", "parser.hpp", "html.hpp", "idrec.hpp", "wav.hpp", "unicode.hpp", "zlib.hpp", "pool.hpp", "ring.hpp"], [("replicator, buffered and record streams", "include/stdex/stream.hpp"), ("reading of records", "include/stdex/idrec.hpp"), ("match values and tokens", "include/stdex/parser.hpp")],
     "runtime monitoring: allocation-fault injection at every point in turn under ASan/UBSan/LSan, results compared with the undisturbed run", EXPL)
prop("X01", "Handles and scope guards release exactly once",
     "A resource handle owns at most one resource: it is released exactly once, on destruction, replacement or explicit close, never while in use and never twice, through copies, moves, swaps and failures; a scope guard whose entry action completed runs its exit action exactly once, at the end of its scope, on every path; a pointer lent with get_ptr() always comes back to its owner. ",
     ["histories", "fault_sequences"], "all histories of acquire, copy, move, release and failing duplication",
     "No test covers handle lifetimes.",
     ["system.hpp", "scoped_executor.hpp", "memory.hpp", "curl.hpp"], [("basic_sys_object, sanitizing allocator", "include/stdex/system.hpp"), ("scoped_executor", "include/stdex/scoped_executor.hpp")],
     "runtime monitoring: descriptor and lifetime accounting over random histories, ASan/LSan", EXPL)
prop("X02", "Sensitive memory is wiped before it is given back",
     "Every block that a container using the sanitizing allocator releases, on destruction, growth, shrinking, assignment or removal, and every sanitizing blob, holds none of its former content at the moment its memory is given back, in optimised builds too. ",
     ["histories"], "all container histories and blob sizes, optimised or not",
     "No test covers it, and no result of a function shows it.",
     ["memory.hpp"], [("sanitizing_allocator, sanitizing_blob", "include/stdex/memory.hpp")],
     "runtime monitoring: replaced operator delete examines each block as it is released, unoptimised and optimised builds", EXPL)

prop("X03", "Locale objects and system information say what the system says",
     "A locale object made for a category has that category of the locale named and every other one of the process, one made for all categories has all of them, and an unknown name gives none; making, moving and destroying them never changes the locale of the process, and each is released exactly once. "
     "The ready-made C and UTF-8 locales exist and are what they are named after, whatever the locale of the process. System information gives the platform, user and privilege the system reports, and unknown ones where it reports none.",
     ["configurations", "histories"], "all process locales, categories, locale names and histories of locale objects; all answers of the system",
     "No test covers it, and a test runs in one locale on one machine.",
     ["locale.hpp", "sys_info.hpp"], [("create_locale, locale, locale_C, locale_utf8", "include/stdex/locale.hpp"), ("platform_from_name, sys_info_t", "include/stdex/sys_info.hpp")],
     "runtime monitoring: comparison with the C library's locales over random histories, system calls replaced by stand-ins, ASan/LSan", EXPL)


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    from checks import CHECKS
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"].strip(), "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                     "technique": p["tech"], "level": "exploration", "level_note": p["note"].strip()} for p in P if p["id"] in CHECKS],
         "not_applicable": [{"property": p["id"], "reason": "the check is not built yet"} for p in P if p["id"] not in CHECKS],
         "notes": "No hooks in /repo: the library is header-only and its public and protected interface is observable from the drivers. See DESIGN.md."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
