"""Which drivers decide which property, in which sanitizer builds."""

_ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,vptr", "-fno-sanitize-recover=all", "-DVH_ASAN"]

VARIANTS = {
    # AddressSanitizer + UndefinedBehaviorSanitizer, every report fatal.
    "asan": {"flags": _ASAN},
    # The same with leak detection at the end of each group.
    "lsan": {"flags": _ASAN, "env": {"ASAN_OPTIONS": "exitcode=86:detect_leaks=1:max_allocation_size_mb=1024:hard_rss_limit_mb=4096"}},
    # malloc may fail instead of ending the process (for drivers that ask for impossible sizes).
    "asan_null": {"flags": _ASAN, "env": {"ASAN_OPTIONS": "exitcode=86:detect_leaks=1:allocator_may_return_null=1:max_allocation_size_mb=2048:hard_rss_limit_mb=6144:handle_abort=1"}},
    "tsan": {"flags": ["-O1", "-fsanitize=thread", "-DVH_TSAN"]},
    # Optimised, uninstrumented: monitors only; for volumes and interleavings a sanitizer build is too slow for.
    "rel": {"flags": ["-O2", "-DVH_REL"]},
}

CHECKS = {}


def check(pid, drivers, rule, **kw):
    CHECKS[pid] = dict(drivers=drivers, rule=rule, **kw)


check("H01", [
    dict(src=["hash.cpp"], variants=["asan"], libs=["-lcrypto"]),
    dict(src=["hash_big.cpp"], variants=["rel"], libs=["-lcrypto"]),
], rule="random messages (0..5000 bytes, lengths biased to block boundaries) fed in random chunkings directly and through hashing streams (over streams with short counts and faults too), with reuse after clear; non-trivial: distinct (algorithm, length, chunking); volumes past 2^32 bits; oracle: zlib and OpenSSL")
check("C01", [dict(src=["ring.cpp"], variants=["tsan", "asan"])], mt=True,
      rule="random histories of back/push/front/pop/sync/quit on rings of 1..256 elements, single-threaded against a deque and with producer, consumer, drain-waiter and quitter threads with injected delays; non-trivial: more elements than the capacity passed; distinct: sequence of block sizes")
check("C02", [dict(src=["pool.cpp"], variants=["tsan", "lsan"])], mt=True,
      rule="random push/pop/clear histories over several NUMA ids, single-threaded against multisets and with 2..5 threads passing ownership tokens; spinlock entered by 2..4 threads; distinct: order of what was popped / of entries")
check("C03", [dict(src=["watchdog.cpp"], variants=["tsan", "asan"])],
      rule="random timeouts, reset patterns, callback durations and destruction points; a missing or wrong callback is judged against measured pauses; distinct: (timeout, reset count, callback duration)")
check("S01", [dict(src=["memfile.cpp"], variants=["asan_null"], libs=["-Wl,--wrap=malloc,--wrap=realloc"])],
      rule="random histories of 10..70 operations on memory files (growing, fixed-buffer, copied, moved, loaded, failing to allocate) compared after every step with an ideal byte array; distinct: operation history")
check("C04", [dict(src=["async.cpp"], variants=["tsan", "asan"])], mt=True,
      rule="random contents, capacities 1..4096, chunkings, short counts, failing (permanently or once) and throwing sources and sinks, early destruction, flush points and replicator membership changes, with injected delays; byte-exact oracle; non-trivial: more bytes than the capacity; distinct: chunk history")
check("S02", [dict(src=["cache.cpp"], variants=["asan"]), dict(src=["far.cpp"], variants=["asan"], groups=["cached"])],
      rule="random histories of 10..70 operations on a cache of 1..4096 bytes over a file with short reads, compared after every step with the same history on the uncached file, plus scripted read/write/flush faults, files with an unreadable part, cached files on disk and cached sparse files at positions beyond 4 GiB; distinct: operation history")
check("S03", [dict(src=["filters.cpp"], variants=["asan"]), dict(src=["far.cpp"], variants=["asan"], groups=["windowed", "limited"])],
      rule="random limits, windows and buffer sizes, chunkings, short counts and faults that come and go, with limits and windows beyond 4 GiB over sparse and endless stand-ins; every read and write compared with a byte-level model; flush and close of every wrapper over ends that fail; non-trivial: bytes passed; distinct: chunk history")
check("S04", [dict(src=["fifo.cpp"], variants=["lsan"])],
      rule="random histories of 5..85 writes, reads, copies, skips and closes of 0..5000 bytes compared with a deque after every step; leaks checked at the end; non-trivial: bytes passed; distinct: history")
check("S05", [dict(src=["serial.cpp"], variants=["asan"]), dict(src=["serial_huge.cpp"], variants=["rel"])],
      rule="strings and collections of 2^32 items over lazily mapped memory; random sequences of 1..8 values of 26 types over four kinds of streams compared with an independent layout, cut at random points, with write faults and hostile lengths under an allocation monitor; distinct: bytes")
check("S06", [dict(src=["textio.cpp"], variants=["asan"])],
      rule="random texts of 0..5000 code units rich in CR and LF in four character types over three kinds of streams split into lines by an independent splitter, encoded both ways by an independent encoder, byte-order marks, and formatted output against the C library; distinct: text")
check("S07", [dict(src=["diskfile.cpp"], variants=["asan"]), dict(src=["far.cpp"], variants=["asan"], groups=["disk", "one_call"])],
      rule="random histories of 10..70 operations, reopenings, copies and locks on files in a scratch directory compared after every step with an ideal byte array, and with the disk at the end; all open modes; times; lock ranges probed from another process; sparse files at positions beyond 4 GiB and single calls for more than the system moves at once; distinct: history or mode")
check("S08", [dict(src=["transfer.cpp"], variants=["asan"]), dict(src=["sys.cpp"], variants=["asan"], groups=["channels", "broken"]), dict(src=["far.cpp"], variants=["asan"], groups=["volume"])],
      rule="random contents of 0..128 KiB copied, read, skipped and written in random chunks over streams with short counts and faults at random positions, compared byte by byte; pipes and sockets with peer threads; transfers of more than 4 GiB between endless stand-ins; distinct: (bytes, chunks, faults)")
check("S09", [dict(src=["sys.cpp"], variants=["asan"])],
      rule="streams over pipes, local and TCP sockets and plain descriptors with peer threads moving random chunks; scripted peers that send, stall and go over non-blocking and timed-out handles; full buffers; null reads on streams and messages; histories of make/move/assign/close judged by what the peers see; distinct: history or bytes")
check("C05", [dict(src=["progress.cpp"], variants=["tsan", "asan"])], mt=True,
      rule="random ranges up to half of the type in five integer types through chains of 1..4 sections and switchers against a 128-bit model; 1..6 workers, single-threaded against exact sums and concurrent with an unsynchronised host that comes and goes; measured times for lazy and deadline reporters; distinct: sequence of reported values")
check("C06", [dict(src=["apart_text.cpp"], variants=["tsan"]), dict(src=["apart_stream.cpp"], variants=["tsan"]), dict(src=["apart_parse.cpp"], variants=["tsan"])], mt=True,
      rule="71 operations from all headers, each on objects of its own, run on 2..4 threads at once (at first use, and repeatedly) and then alone in the opposite order, and unchanging objects (document, token tree, mapping, queue, digest) read by 2..4 threads at once; results compared, ThreadSanitizer watching; non-trivial: operations overlapped in time; distinct: inputs")
check("M02", [dict(src=["apart_text.cpp"], variants=["lsan"], flags=["-DAPART_OOM"], libs=["-Wl,--wrap=malloc,--wrap=realloc"]), dict(src=["apart_stream.cpp"], variants=["lsan"], flags=["-DAPART_OOM"], libs=["-Wl,--wrap=malloc,--wrap=realloc"]), dict(src=["apart_parse.cpp"], variants=["lsan"], flags=["-DAPART_OOM"], libs=["-Wl,--wrap=malloc,--wrap=realloc"])],
      rule="each of 71 operations from all headers with an allocation made to fail at every point in turn (at 24 random points when there are more); memory errors, aborts and leaks watched for, and the operation compared with itself afterwards; parsers, coders, documents, queues, pools and replicators tried again with the same object after the failure; allocations of new, malloc and realloc; distinct: (operation, inputs)")
check("D01", [dict(src=["vqueue.cpp"], variants=["lsan"])],
      rule="random histories of 10..110 operations on up to four queues of capacity 1..40 of lifetime-counting objects, integers and strings compared after every step with std::deque; copies and pushes of elements failing half-way; move-only elements; leaks checked at the end; distinct: history")
check("D02", [dict(src=["arith.cpp"], variants=["asan"])],
      rule="random operands biased to powers of two, limits and the edge of overflow against 128-bit arithmetic; intervals against point sets; random mapping lists with random hints against a linear scan; byte orders of 11 types against byte arrays; distinct: operands or lists")
check("E01", [dict(src=["base64.cpp"], variants=["asan"], libs=["-lcrypto"])],
      rule="random bytes encoded and random, noisy, cut and arbitrary text decoded in random chunkings in three character types, in memory and through filters with faults, against OpenSSL and an independent decoder; distinct: (content, chunking)")
check("E02", [dict(src=["hex.cpp"], variants=["asan"])],
      rule="random bytes encoded and random, noisy and arbitrary text decoded in random chunkings in three character types against an independent coder; distinct: content")
check("E03", [dict(src=["zlib.cpp"], variants=["lsan"]), dict(src=["zlib_big.cpp"], variants=["rel"])],
      rule="random contents of 0..200000 bytes at every level with blocks from 1 byte and random chunkings both ways, followed by other data, cut, flipped, arbitrary, with dictionary, over failing sources and sinks, and single calls for more than 4 GiB, against zlib's compress and uncompress; distinct: content")
check("E04", [dict(src=["unicode.cpp"], variants=["asan"])],
      rule="random valid text of 0..2100 characters, biased to the 1024-byte internal buffer, between UTF-8, UTF-16, UTF-32, UTF-7 and three code pages against an independent encoder, valid and damaged text through the same object, and the system charset of 28 locales against the C library; distinct: text")
check("E05", [dict(src=["sgml.cpp"], variants=["asan"])],
      rule="random text rich in markup, combining marks and every entity of the table, encoded with random flags in UTF-16 and UTF-32, and random SGML text with near-miss and malformed entities, against a snapshot of the entity table searched linearly; every result also into caller buffers around the exact size; distinct: (text, flags)")
check("E06", [dict(src=["escape.cpp"], variants=["asan"])],
      rule="random text rich in the characters that matter escaped and unescaped, and random, malformed and cut-off escapes unescaped, as exact ranges, terminated strings and terminated strings in longer ranges, against independent codecs; distinct: text")
check("T01", [dict(src=["strings.cpp"], variants=["asan"])],
      rule="random strings of 0..60 units in char, wchar_t and char16_t and mixed, as exact ranges, terminated strings and terminated strings in longer ranges, through every function of the family against naive references on the meaning of the argument; distinct: strings")
check("T02", [dict(src=["numbers.cpp"], variants=["asan"])],
      rule="random numbers of up to 127 bits biased to the limits of every width in radix 0 and 2..36, with signs, spaces, prefixes, leading zeros and following text, and junk, as ranges and terminated strings in three character types against exact arithmetic; floating-point texts against strtod; distinct: (text, radix)")
check("T03", [dict(src=["format.cpp"], variants=["asan"])],
      rule="random formats and arguments with results of 0..60000 characters biased to +-3 around the internal buffer sizes, narrow and wide, in three locales, appended and assigned, times and failing conversions included, against vasprintf, vswprintf and strftime; distinct: (result, text before)")
check("I01", [dict(src=["langid.cpp"], variants=["asan"])],
      rule="every listed tag, and listed tags cut, extended, changed and in other letter case and separators, as exactly allocated strings; every 16-bit identifier; against a snapshot of both tables searched linearly; distinct: tag text")
check("I02", [dict(src=["uuid.cpp"], variants=["asan"])],
      rule="random UUIDs written, and read in random letter case and spacing, and near-miss texts (changed, cut, emptied, prefixed and signed fields), as exact ranges, terminated strings and ranges followed by other text, in three character types against an independent reader and writer; distinct: text")
check("I03", [dict(src=["chrono.cpp"], variants=["asan"])],
      rule="random days over the whole 32-bit range, biased to leap days, century years, year 0 and both epochs, and milliseconds in them, converted among dates, timestamps, time_t, timespec, broken-down time and text against the C library's 64-bit calendar; distinct: instant")
check("R01", [dict(src=["idrec.cpp"], variants=["asan"])],
      rule="random sequences and trees of records with payloads of 0..65535 bytes in six combinations of identifier and size types and alignments, written to and read from seekable files, non-seekable streams with short reads and standard streams, against an independent layout and walker; size fields at the limits, truncations and mutations; failing writes; distinct: bytes")
check("R02", [dict(src=["wav.cpp"], variants=["asan"])],
      rule="random WAV files (format, data, cues with labels, notes and regions, unknown chunks and lists in any order, odd sizes, other RIFF forms before) built independently and read, written and edited by the library over in-memory files with short reads; size and count fields at the limits, truncations, erasures and mutations under an allocation monitor; distinct: bytes")
check("P09", [dict(src=["html.cpp"], variants=["asan"])],
      rule="documents generated from nested HTML elements with optional end tags, attributes in every quoting, entities, comments, declarations, instructions, CDATA, scripts and styles, linked back and compared part by part with what they were built from, whole and in pieces; marked sections and parameter entities; cut, changed and random tag soup; 20000-fold repetitions; distinct: document")
check("M01", [dict(src=["minisign.cpp"], variants=["asan"])],
      rule="random signature files (comments, blank lines, LF and CRLF, with and without trailer and final line end) and truncated, mutated, oversized, short and arbitrary ones, over streams with short and failing reads, against an independent reader; both layout parsers on exact ranges; distinct: bytes")
check("X01", [dict(src=["curl.cpp"], variants=["asan"]), dict(src=["handles.cpp"], variants=["lsan"])],
      rule="random histories of 4..33 constructions, copies, assignments, moves, swaps, closes and destructions, with failing duplications and handle values given out again, against an account of every handle; real pipes and sockets; scope guards in four forms through returns and exceptions; lent pointers; CURL handles, lists and initializers over a stand-in for the library; distinct: history")
check("X02", [dict(src=["wipe.cpp", "wipe_new.cpp"], variants=["asan", "rel"])],
      rule="random operations on vectors, strings, lists and maps using the allocator and blobs of 1..4096 bytes, every block examined as it is given back, unoptimised and optimised; distinct: history")
check("X03", [dict(src=["locales.cpp"], variants=["lsan"])],
      rule="random sets of 1..5 locale objects, each of one category or all of them of one of 17 names (two of them unknown), created under a process locale with random categories, moved, replaced and destroyed in any order, against the C library's own; ready-made locales; system information constructed over stand-ins of the system calls with random, failing and missing answers; distinct: (process locale, locales asked for), (machine, failures)")
check("P01", [dict(src=["parse_contract.cpp"], variants=["asan"], flags=["-DPART=%d" % i]) for i in (1, 2, 3)],
      rule="texts of 0..12 tokens of the grammar of each of some 150 parsers in three encodings, damaged and cut, matched at random positions with random flags by a new, a used and a searching object, alone, within other text and terminated; distinct: (parser, text, position) matched")
check("P02", [dict(src=["parse_numbers.cpp"], variants=["asan"])],
      rule="numbers of every kind with random signs, separators, groups, exponents, spaces and leading zeros, at random positions, cut and changed, with other text around, in three encodings, against an independent reader of the grammar; distinct: (kind, number, what follows)")
check("P03", [dict(src=["parse_net.cpp"], variants=["asan"])],
      rule="IPv4 and IPv6 addresses, host names, URLs and e-mail addresses with random parts, at random positions, cut and changed, with other text around, in three encodings, against an independent reader of the grammar and inet_pton; distinct: (kind, address, what follows)")
check("P04", [dict(src=["parse_refs.cpp"], variants=["asan"])],
      rule="IBANs of every country, creditor references and SI references of every model with right and wrong control digits, spaces, letter case, single-character changes, transpositions, insertions and truncations, with other text around, in three encodings, against independent mod 97 and mod 11 arithmetic and snapshots of the tables; distinct: (kind, reference, what follows)")
check("P05", [dict(src=["parse_misc.cpp"], variants=["asan"])],
      rule="dates in every format and separator, times, angles, phone numbers, emoticons and chemical formulae at the edges of what is valid, at random positions, cut and changed, with other text around, in three encodings, against an independent reader of the grammars; distinct: (kind, text, what follows)")
check("P06", [dict(src=["parse_http.cpp"], variants=["asan"])],
      rule="HTTP tokens, strings, parameters, media types, cookies, URLs, protocols, agents, languages, weights, requests, header blocks and weighted lists with random spacing, folding, quoting and non-ASCII text, at random positions, cut and changed, with other text around, against an independent reader of the grammars; distinct: (kind, text, what follows)")
check("P07", [dict(src=["parse_tokens.cpp"], variants=["asan"])],
      rule="JSON strings with every escape, CSS comments, strings, URIs and imports, MIME types and HTML tags, comments, instructions, declarations and conditions built from random parts with random spacing and quoting, cut and changed, with other text around, in char and wchar_t, against the parts they were built from and independent readers of the grammars; distinct: (kind, text, what follows)")
check("P08", [dict(src=["parse_comb.cpp"], variants=["asan"])],
      rule="random combinations up to depth 3 of 15 kinds of parsers, each object matched on 8 random texts of 0..9 characters at random positions with random flags, in three encodings, against an interpreter of the combination over characters; non-trivial: evaluated; distinct: (combination, text, position, flags)")
