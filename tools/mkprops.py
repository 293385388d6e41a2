#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the anchors stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

prop("C01", "Malformed RPM input never crashes or hangs the library",
 "For any byte stream presented as an RPM, reading its headers, verifying it or signing it either succeeds or returns an error, and on any header object so obtained every accessor (tags of any number and type, NEVRA, file list, sizes, ranges, signature-header dump) returns a value or an error. No input makes the library panic, crash the process or fail to terminate.",
 ["inputs"], "all byte streams: valid packages, packages with any header field, tag entry or digest mutated (with or without digests made consistent again), truncations, random bytes",
 "The tests open a dozen well-formed packages; they contain no malformed header at all, and the space of malformed tag tables (offset, count, type, parallel-array lengths) is unbounded.",
 ["header.go", "rpmutils.go", "verify.go", "verify_digests.go", "verify_v4.go", "signatures.go", "writeheader.go"],
 [("bounds checks on every tag entry while the tag table is parsed", "header.go readHeader"),
  ("presence/length checks before the first element or a parallel array is indexed", "header.go GetStrings/GetNEVRA/GetFiles, signatures.go getSha1/getSha256"),
  ("hash availability checks before a digest is instantiated", "verify_digests.go")],
 ["ReadHeader, ReadRpm, Verify, SignRpmStream and all RpmHeader methods, called under recover with a CPU-time watchdog"])

prop("C02", "Memory use is bounded by the bytes actually supplied",
 "While reading RPM headers, iterating or extracting a cpio archive, the memory the library allocates is bounded by a fixed constant plus a fixed multiple of the bytes the stream actually delivered. Lengths, counts and sizes merely declared by the input (header data size, entry count, file name length, file size, symlink length, supplied file sizes) never cause proportionate allocation, and skipping over a file's content takes constant memory.",
 ["inputs"], "all streams, in particular short streams declaring sizes up to the format's maximum, and archives whose large files are skipped instead of read",
 "No test declares a size larger than what follows, nor skips a large file; allocation is not observed by any test.",
 ["header.go", "cpio/cpio.go", "cpio/header.go", "cpio/extract.go", "cpio/stream.go"],
 [("incremental reads of declared-length regions", "header.go readExact"), ("skip by discarding through a fixed buffer", "cpio/cpio.go countingReader.Seek"), ("symlink targets read as data arrives", "cpio/extract.go Extract")],
 ["runtime allocation counters around each call, compared to the bytes a metering reader delivered"])

prop("C03", "Tag queries return exactly what the package stores",
 "For every well-formed package, each tag query returns exactly the value stored under that tag in the header area the tag belongs to: signature-area tags (below 1000 or offset by the signature base) from the signature header, all others from the general header, with strings, string arrays, i18n strings, binary blobs and integers of every width preserved in content, order and count. The exported tag constants carry rpm's tag numbers; a package counts as a source package exactly if its lead says so; a tag that is absent yields the no-such-tag error carrying its number (as asked for or without the signature base), presence queries agree with this, and asking for a value as an incompatible type is an error, never a made-up value.",
 ["inputs"], "all well-formed headers: any mix of tags, data types, counts, alignments, offsets, overlapping or permuted storage, tag numbers present in both areas",
 "Tests check two or three tags of two fixture packages; data types such as INT8, INT64, CHAR, I18N and BIN, colliding tag numbers in both areas and permuted storage never occur.",
 ["header.go", "rpmutils.go", "tags.go", "errors.go"],
 [("entry decoding by data type", "header.go readHeader/getInts/GetStrings/GetBytes"), ("routing by tag range", "rpmutils.go getHeader"), ("NoSuchTagError", "errors.go")],
 ["results of HasTag, Get, GetString(s), GetBytes, GetInt(s), GetUint32(s), GetUint64(s) compared to an independent builder's record of what was stored"])

prop("C04", "Integer queries are exact or fail; they never truncate or wrap",
 "Every integer query (single or list, int, uint32, uint64, the 32-bit/64-bit fallback pair, installed size, payload size) returns exactly the stored number or an error: a value that does not fit the requested type is an error, never truncated, wrapped or sign-changed. Along with an error there is no value (0 or -1). A single-value query on a tag holding any other number of values is an error, and a fallback query prefers the 64-bit tag when it is usable and otherwise the 32-bit one.",
 ["inputs"], "all integer tags of every width, value (including every boundary around 2^7..2^64) and count, and all combinations of presence of the short and long size tags",
 "Tests read one INT32 value; no boundary value, wider type, multi-value or fallback combination is covered.",
 ["header.go", "rpmutils.go"],
 [("range checks when narrowing", "header.go GetInts/GetUint32s/GetUint64s"), ("cardinality checks", "rpmutils.go GetInt/GetUint32/GetUint64"), ("fallback order", "rpmutils.go GetUint64Fallback/InstalledSize/PayloadSize")],
 ["return values compared to exact arithmetic on the builder's values"])

prop("C05", "Package identity and file list mirror the package metadata",
 "The NEVRA of a package is its stored name, version, release and architecture with the stored epoch (\"0\" when absent), and its text form is name-epoch:version-release.arch.rpm; and the file list has one record per packaged file, in order, whose path, size, owner, group, flags, mtime, digest, mode, link target, device and inode are the i-th values of the corresponding arrays (paths joined from directory and base name or taken from the old-style list; sizes from the 64-bit array when present; no files gives an empty list). Arrays too short or indexes out of range to describe every file give an error, never a record mixing up or inventing attributes; a digest algorithm number is given rpm's name for it (MD5 when unknown).",
 ["inputs"], "all packages: any number of files, directory layouts, widths of arrays, missing optional arrays, old-style and new-style paths, and inconsistent arrays",
 "Tests count the files of one package and check one NEVRA and two epochs; no per-file attribute and no inconsistent metadata is checked.",
 ["header.go", "fileinfo.go", "nevra.go", "rpmutils.go"],
 [("parallel array join", "header.go GetFiles"), ("directory index join", "header.go GetStrings"), ("NEVRA assembly", "header.go GetNEVRA")],
 ["GetNEVRA, GetFiles, GetStrings(OLDFILENAMES), FileInfo methods compared to the builder's model"])

prop("C06", "Header reading consumes exactly the header and reports its range",
 "After the headers of a package have been read, the input stream is positioned exactly at the first payload byte: not one byte more or less has been consumed, whatever the sizes and padding of the two header areas. The reported range gives the exact offset at which the general header starts and the exact offset at which it ends and the payload begins, and the original-signature-header size equals the former.",
 ["inputs"], "all packages with any header sizes and paddings, followed by any bytes, read through any reader",
 "One test checks the range of one package; nothing observes the stream position or other padding residues.",
 ["rpmutils.go", "header.go", "writeheader.go"],
 [("signature area padded to 8 bytes, general area not", "header.go readHeader"), ("range from retained original bytes", "rpmutils.go GetRange, writeheader.go OriginalSignatureHeaderSize")],
 ["number of bytes a metering reader handed out; GetRange; OriginalSignatureHeaderSize"])

prop("C07", "Results do not depend on how the stream is delivered",
 "Reading, verifying, signing, iterating and extracting give the same outcome (same values, same files and contents, same accept/reject decision) however the underlying reader fragments its data: one byte at a time, arbitrary short reads, zero-length reads, data returned together with end-of-file, or everything at once.",
 ["inputs", "schedules"], "all packages and archives crossed with all fragmentations of the stream",
 "Tests use one half-reader on a few paths; symlink targets, names, padding skips and payload decompressors under other fragmentations are not reached.",
 ["header.go", "cpio/cpio.go", "cpio/header.go", "cpio/extract.go", "cpio/stream.go", "uncompress.go", "verify_digests.go"],
 [("full reads for every fixed-size element", "header.go readExact, cpio/header.go, cpio/cpio.go"), ("symlink target read completely", "cpio/extract.go"), ("peeked bytes spliced back", "uncompress.go")],
 ["outcome digest of each operation under every fragmentation compared to whole-buffer delivery"])

prop("C08", "Truncated or failing input is never reported as success",
 "If the stream ends early or fails with a read error before the end of what is being read, the operation reports an error: header reading, verification and signing fail, extraction fails, and iteration never reports the normal end of the archive or of a file. An archive reader signals end-of-archive only after the trailer entry was read, and end-of-file for a file only after all of its declared bytes were delivered; what it delivers before it fails (entries, bytes) is what the stream held.",
 ["inputs", "fault_sequences"], "every package and archive crossed with every truncation point and every read-failure point, for every compressor",
 "Tests only read complete streams; no truncation or injected read error exists in the suite.",
 ["cpio/cpio.go", "cpio/stream.go", "cpio/reader.go", "cpio/extract.go", "payload.go", "header.go", "verify_digests.go"],
 [("end of input inside an entry or before the trailer is an unexpected EOF", "cpio/cpio.go ReadNextEntry, cpio/stream.go Read"), ("short header reads are errors", "header.go"), ("copy errors propagate from digesting", "verify_digests.go digestPayload")],
 ["return values of every operation on each truncated/faulty stream, and the amount of content delivered before end was claimed"])

prop("C09", "A cpio archive is read back entry by entry, byte for byte",
 "For every newc or rpm-stripped cpio archive, iteration yields exactly the archived entries in order, with every header field, name and index as stored and each file's content byte for byte; the 64-bit size reported is the one stored or, for stripped entries, the one supplied. This holds for every pattern in which the consumer reads file contents: fully, partially, in any buffer sizes, or not at all. The exported file type and mode bit constants are those of archives.",
 ["inputs", "histories"], "all archives (names, sizes, padding residues, field values, entry types, stripped and normal entries) crossed with all histories of Next/Read calls",
 "Tests read one header and two stripped entries, always consuming nothing; partial reads, skipping, padding residues and field extremes are not covered.",
 ["cpio/cpio.go", "cpio/header.go", "cpio/reader.go", "cpio/stream.go"],
 [("4-byte alignment of names and data", "cpio/cpio.go pad/pad64/nextPos"), ("per-file window on the stream", "cpio/stream.go"), ("hex header decoding", "cpio/header.go")],
 ["cpio.Reader and CpioStream results compared to an independent archive writer's record"],
 state=[("stream position / next entry position", "where the reader is and where the next entry starts", "cpio/cpio.go CpioStream.nextPos, countingReader.curPos")])

prop("C10", "Malformed cpio data or call order never crashes or hangs",
 "For any byte stream presented as a cpio archive or RPM payload, with any supplied file sizes, and for any order of Next, Read and IsLink calls (including before the first entry, after the end and after an error), each call returns a value or an error; extraction of any archive terminates with success or an error. None of them panics, crashes the process or fails to terminate.",
 ["inputs", "histories"], "all byte streams, all size tables, all call histories",
 "The tests contain one archive with '..' in a name and no malformed archive or unusual call order.",
 ["cpio/cpio.go", "cpio/header.go", "cpio/reader.go", "cpio/stream.go", "cpio/extract.go", "payload.go"],
 [("unsigned hexadecimal field parsing", "cpio/header.go"), ("checks on name size, index, supplied size and seek distance", "cpio/cpio.go"), ("nil/empty guards", "cpio/reader.go, payload.go")],
 ["every call under recover with a CPU-time watchdog; extraction as an unprivileged user in scratch space"])

prop("C11", "The payload reader pairs every file with its own metadata and content",
 "Iterating a package's payload yields, for each archived file in payload order, the metadata record of that very file and exactly its content, whether the payload stores names (with or without a leading \"./\") or only header indexes, and for sizes beyond 4 GiB. In a group of hard-linked files (ghosts aside, which are not archived) every member but the last in header order is flagged as a link with no content and the last delivers the content, symlinks deliver their target, files that share no device and inode are never flagged, and a payload entry matching no listed file is an error.",
 ["inputs"], "all packages: any file mix and order, hard-link groups, devices, ghosts, stripped and normal payloads, sizes from 0 to beyond 2^32",
 "Tests iterate payloads with a single file; hard links, stripped payloads with metadata, ordering and large files are not covered.",
 ["payload.go", "fileinfo.go", "cpio/cpio.go", "rpmutils.go"],
 [("name and index lookup", "payload.go Next"), ("link-group detection by device and inode", "payload.go newPayloadReader"), ("size table for stripped entries", "payload.go, cpio/cpio.go readStrippedEntry")],
 ["PayloadReaderExtended Next/Read/IsLink results compared to the builder's file model"])

prop("C12", "Payload compression is transparent",
 "A payload compressed with gzip, bzip2, xz, lzma or zstd, or stored uncompressed, yields exactly the same entries and bytes as the uncompressed archive, at every compression level, block and multi-stream layout, with the native and the pure-Go zstd implementations alike; when no compressor is recorded, gzip is detected and anything else is read as is. An unknown compressor or a payload format other than cpio is reported as an error.",
 ["inputs", "configurations"], "all archives crossed with all compressors, levels and layouts and with both build configurations",
 "Tests decompress one small archive per compressor and do not compare contents; missing compressor tags, unknown names, multi-block data are not covered.",
 ["uncompress.go", "uncompress_cgo.go", "uncompress_nocgo.go"],
 [("compressor dispatch and gzip detection", "uncompress.go"), ("two zstd back ends", "uncompress_cgo.go, uncompress_nocgo.go")],
 ["decompressed entries of PayloadReader, PayloadReaderExtended and ExpandPayload in a cgo build and a CGO_ENABLED=0 build, under AddressSanitizer for the native one"])

prop("C13", "Finished or failed operations release all their resources",
 "Once a payload iteration with metadata (the extended payload reader) has reported end-of-archive or a failure to read the payload, and once payload extraction, file signing or signature rewriting has returned (successfully or not), no goroutine, open file descriptor or native decompressor memory created on its behalf remains in use. Operations never close a reader or file they were given.",
 ["inputs", "fault_sequences", "configurations"], "all compressors and both build configurations, complete runs and runs failing at any point",
 "One test checks goroutines for complete runs only; failures, descriptors and native memory are never observed.",
 ["payload.go", "rpmutils.go", "uncompress.go", "uncompress_cgo.go", "uncompress_nocgo.go", "cpio/extract.go", "signatures.go"],
 [("decompressor closed when Next fails or ends", "payload.go Next"), ("deferred close", "rpmutils.go ExpandPayload"), ("output files closed on every path", "cpio/extract.go, signatures.go rewriteRpm/writeInPlace")],
 ["goroutine count, /proc/self/fd, native allocator statistics before and after, usability of the caller's file afterwards"])

prop("C14", "Successful extraction reproduces the archive on disk",
 "When extraction of an archive or payload succeeds, the destination contains exactly the archived directories, regular files (content byte for byte), symbolic links (exact target), FIFOs and hard-link groups (one shared file, including groups of empty files), plus needed parent directories and nothing else; character and block devices are skipped. Directories and FIFOs created carry the recorded permission bits, existing regular files are overwritten, and every destination spelling (absolute, relative, \".\", trailing slash, not yet existing) denotes the same place.",
 ["inputs"], "all archives of supported entry types, names, nesting, orders and link groups, all destination spellings, extraction over earlier contents",
 "Tests extract two archives and only check that no error is returned.",
 ["cpio/extract.go", "fileutil/fileutil_unix.go", "rpmutils.go"],
 [("per-type creation", "cpio/extract.go Extract"), ("deferred hard links", "cpio/extract.go linkMap")],
 ["complete snapshot of the destination tree compared to a model of the archive"])

prop("C15", "Extraction never touches anything outside the destination",
 "Whatever the archive contains (names with any number and position of \"..\", absolute names, symbolic links pointing anywhere followed by entries that pass through them or reuse their names, hard links, FIFOs, any order), extraction creates, modifies, truncates, links or removes nothing outside the destination directory. This also holds when extraction fails midway.",
 ["inputs", "histories"], "all archives, in particular sequences of entries where an earlier entry changes what a later path resolves to",
 "One test checks one leading '../'; no archive with symlinks, interior '..' or multi-step redirection is in the suite.",
 ["cpio/extract.go"],
 [("name cleaning and prefix check", "cpio/extract.go Extract"), ("resolution of existing parents must stay inside the destination; symlinks at the target are not followed", "cpio/extract.go")],
 ["snapshot (content, inode, mode, link count, times) of everything writable around the destination before and after, run as an unprivileged user"])

prop("C16", "A signed package verifies and differs only in its signature header",
 "Signing any intact package with a usable key and any supported options (unset hash and time mean SHA-256 and the current time) yields a package that verifies against that key, reporting exactly one header-only and one header-plus-payload signature by that signer with the requested hash and creation time. The lead, general header and payload are byte-for-byte those of the original, all other signature-header tags except reserved space and superseded signatures are kept, and signing again replaces the previous signatures.",
 ["inputs", "configurations"], "all packages with valid digests crossed with key types, hash algorithms, creation times, and repeated signing",
 "Tests sign two packages with one RSA key and default options.",
 ["signatures.go", "writeheader.go", "verify.go", "verify_v4.go", "verify_digests.go"],
 [("digest of original header bytes and payload", "signatures.go digestForSigning"), ("signature insertion", "signatures.go insertSignatures"), ("option defaults", "signatures.go SignatureOptions")],
 ["output of SignRpmStream+DumpSignatureHeader spliced to the original and passed to Verify and to an independent reader and OpenPGP check"])

prop("C17", "No modification of signed content survives verification",
 "If any byte of the general header or the payload of a package signed over both is changed, inserted, removed or appended, or its signature packets are altered in what they sign with or assert (their unhashed area aside) or exchanged with those of another package, verification against the signer's key fails; this holds even if the attacker recomputes every unauthenticated digest so that all checksums are consistent. Verification succeeds with a keyring only when every signature present is valid over exactly the bytes it claims to cover.",
 ["inputs", "fault_sequences"], "all signed packages crossed with all modifications, with and without recomputed digests",
 "No test modifies a signed package.",
 ["verify.go", "verify_digests.go", "verify_v4.go"],
 [("every signature found is validated over the original bytes", "verify.go Verify, verify_digests.go digestAndVerify")],
 ["Verify's decision for each tampered package"])

prop("C18", "Only supplied keys are trusted and signatures are reported truthfully",
 "With a keyring, verification succeeds only if each signature's key is in it, and then reports that key's entity as signer; a signature by any other key yields a key-not-found error naming that key, also for an empty keyring. With no keyring (nil) signatures are parsed and returned unverified with no signer; in all cases key ID, fingerprint where known, hash, creation time and coverage flag are those of the signature and key that made it, header-only signatures coming first, and non-signature or trailing data in a signature tag is an error.",
 ["inputs", "configurations"], "all signed packages crossed with all keyrings (nil, empty, wrong, several keys, subkeys) and signature encodings",
 "Tests verify with exactly the right single-key ring; wrong, empty or nil keyrings, subkeys and malformed packets are not covered.",
 ["verify.go", "verify_v4.go", "verify_digests.go"],
 [("key lookup by fingerprint or ID", "verify_v4.go findKey"), ("metadata", "verify_v4.go setEntity/parseSignatureV4")],
 ["Verify's error type and returned Signature values compared to the signer model"])

prop("C19", "Recorded digests are enforced on reading, verifying and signing",
 "A general header that does not match the digest recorded for it in the signature header (SHA-256, or SHA-1 if that is absent) is rejected when read, verified or signed. Verification and signing also reject a package whose payload does not match its recorded payload digest (any supported algorithm), or, lacking one, whose header and payload do not match the legacy MD5, and one that has no usable payload digest; a package whose recorded digests all match is accepted.",
 ["inputs"], "all packages crossed with all combinations of recorded digests (absent, right, wrong, malformed, unsupported algorithm) and all corruptions of header and payload",
 "Tests only process packages whose digests are correct and never assert a rejection.",
 ["header.go", "verify_digests.go", "signatures.go"],
 [("header digest comparison", "header.go readHeader, signatures.go getHashAndType"), ("payload digest comparison", "verify_digests.go digestPayload, signatures.go getPayloadDigest")],
 ["accept/reject decisions of ReadHeader, Verify(nil), SignRpmStream compared to an independent digest model"])

prop("C20", "Dumped signature headers are well formed and lossless",
 "Dumping the lead and signature header yields the original lead followed by a well-formed, 8-byte-aligned signature header (sorted tags, aligned data, a region covering all entries) whose tags and values are those of the header object, excepting reserved space; concatenated with the rest of the original file it is a package that reads back identically. When same size is requested the dump has exactly the original size whenever its content and a reserved-space entry of 16 bytes or more fit (or the content alone has that size), and otherwise, as without that request, it is as small as the content allows.",
 ["inputs", "histories"], "all packages (any signature-header tags, sizes, paddings and reserved space), before and after signing, any sequence of dumps",
 "Tests only check that the length is a multiple of 8 for two packages.",
 ["writeheader.go"],
 [("tag table and region writer", "writeheader.go WriteTo/writeTag/writeRegion"), ("reserved-space padding", "writeheader.go DumpSignatureHeader")],
 ["dump bytes parsed by an independent strict parser and by the library"])

prop("C21", "Signing a file delivers the complete result to exactly its destination",
 "When signing a file (or rewriting it with raw signatures) reports success, the destination, whatever it is (new path, other existing file, the input itself, a hard or symbolic link to the input, a pipe, standard output, with or without room for in-place update), holds the complete package with the new signatures. No other file changes: the input keeps its bytes unless it is the destination, other hard links keep the old content, and no temporary files remain. A file that is created or replaced has mode 0644, one that is updated in place keeps its mode. Nothing depends on the configured directory for temporary files.",
 ["inputs", "configurations"], "all packages crossed with all kinds of destination and of signature-header slack",
 "The tests never write a signed package to a file.",
 ["signatures.go", "fileutil/fileutil_unix.go", "writeheader.go"],
 [("choice of in-place, stream or write-and-rename", "signatures.go rewriteRpm/canOverwrite/writeInPlace"), ("hard link detection", "fileutil/fileutil_unix.go HasLinks")],
 ["bytes and inodes of all files in the scratch tree before and after; the delivered package verified"])

prop("C22", "A failed or interrupted file signing leaves the destination intact",
 "If signing to a file fails at any point (bad input, digest mismatch, write failure at any byte, failing to close or rename the result, unusable destination) the caller gets an error. When the destination is replaced (rather than updated in place, or a pipe, standard output or a link to nothing), its previous content and that of the input are then unchanged and no temporary file is left, and if the process is killed at any moment it holds either its complete old or the complete new content, in particular the old one while the new one is being written.",
 ["crash_points", "fault_sequences"], "every byte offset of the output as failure or crash point, crossed with destination kinds that are replaced (not updated in place)",
 "No test injects a failure or crash into signing.",
 ["signatures.go"],
 [("write to a temporary file in the destination's directory, rename on success, remove on failure", "signatures.go rewriteRpm")],
 ["files in the scratch tree after a run with a write limit at byte k (error) or a crash at byte k"])

prop("C23", "Version comparison agrees with rpm",
 "For any two version strings, comparison gives the result rpm's own version comparison gives: separators only delimit, numeric segments compare numerically without limit on length, alphabetic ones bytewise, numeric beats alphabetic, \"~\" sorts before everything including the end, \"^\" after the end but before anything else. Package comparison orders by epoch (a number), then version, then release, whatever name and architecture.",
 ["inputs"], "all pairs of strings, including arbitrary bytes, long digit runs, leading zeros, mixed separators, tildes and carets",
 "Tests list 24 ordered pairs and leave two failing ones commented out.",
 ["vercmp.go", "nevra.go"],
 [("segment loop", "vercmp.go Vercmp"), ("field precedence", "nevra.go NEVRAcmp")],
 ["return value on each pair compared to an independent transcription of rpm's algorithm"])

prop("C24", "Version ordering is a consistent total order and sorting obeys it",
 "Comparison is reflexive, antisymmetric and transitive for all strings and all packages, returns only -1, 0 or 1, and equal versions are interchangeable in every comparison. Sorting a list of versions or packages permutes it without loss into nondecreasing order under that comparison, and a stable sort leaves equal elements in their order.",
 ["inputs"], "all triples of version strings and all lists of versions and packages",
 "Tests compare fixed pairs and never sort a list.",
 ["vercmp.go", "nevra.go"],
 [("VersionSlice, NEVRASlice", "vercmp.go, nevra.go")],
 ["order laws over all triples of generated sets; sorted output checked for permutation and order"])

prop("C25", "Concurrent use is race-free and gives sequential results",
 "Any number of goroutines may at the same time read, verify, sign (with a shared key and shared options), iterate and extract different packages, compare versions, and query one shared header object, without data races and with every operation giving the result it gives when run alone.",
 ["schedules"], "all interleavings of operations on independent streams and of read-only queries on a shared header",
 "All tests are sequential.",
 ["header.go", "rpmutils.go", "signatures.go", "verify_digests.go", "cpio/extract.go", "payload.go", "uncompress_cgo.go", "uncompress_nocgo.go", "vercmp.go"],
 [("no mutable package-level state; per-call buffers", "all packages"), ("read-only accessors", "header.go, rpmutils.go")],
 ["race-detector reports and per-operation results compared to a sequential run"])

prop("C26", "Querying a header has no side effects",
 "For any sequence of queries, file listings, range and size requests, verifications of other packages and signature-header dumps on a header object, each query gives the same answer as on a freshly obtained object (reserved space aside), and a dump is unaffected by what was queried before. Changing a list of strings or integers (of any width) obtained from a query does not change the answer of later queries.",
 ["histories"], "all sequences of accessor and dump calls on one header object",
 "Tests query each object once or twice.",
 ["header.go", "rpmutils.go", "writeheader.go"],
 [("decoding on demand into fresh slices", "header.go"), ("reserved space recomputed per dump", "writeheader.go DumpSignatureHeader")],
 ["answers along random call histories compared to a fresh object's answers"])

prop("C27", "Detached, streamed and in-file signing are equivalent",
 "Signing a package as a stream and splicing the dumped header in place of the original one, signing it as a file to a new path, signing it in place, and inserting the same raw signatures with the rewriting function all give packages that have the same signed content, verify alike, and carry the same signature-header tags apart from reserved space; the header object that each of them returns answers tag queries as the resulting package does, reserved space aside. Rewriting with raw signatures stores exactly the given signature bytes for both the header-only and the header-plus-payload signature and drops superseded ones.",
 ["inputs", "configurations"], "all packages crossed with keys and signing routes",
 "Tests exercise only the stream route.",
 ["signatures.go", "writeheader.go"],
 [("shared insertion and writing code", "signatures.go insertSignatures/writeRpm, writeheader.go DumpSignatureHeader")],
 ["signature headers of all routes' outputs parsed independently and compared"])

prop("C28", "What is not well formed is refused",
 "Reading headers, verifying and signing succeed only if the stream starts with the RPM lead magic, both headers start with the header magic, and each tag's data lies within its header's data area (no negative offset or count, every string terminated). Verification refuses an RSA, DSA, PGP or GPG signature tag that holds anything but exactly one PGP signature packet naming its key (trailing bytes and what is no signature give their documented errors). Payloads are read only in format cpio (or unstated) and with a known compressor (or none stated). An archive entry with an unknown magic, a field that is not hexadecimal, no name, or an index beyond the supplied sizes (or any index without sizes) is an error, and so is extracting an entry of a type extraction does not know. No result is returned along with such an error, nothing from behind the damage is delivered, and the input is left alone.",
 ["inputs", "configurations"], "all damage to magics, offsets, counts, packets, fields and types at any position of any package or archive",
 "Tests read well-formed fixtures and two or three broken ones; leniency that creeps in at any one of the sites goes unseen.",
 ["header.go", "rpmutils.go", "verify.go", "uncompress.go", "cpio/header.go", "cpio/cpio.go", "cpio/extract.go"],
 [("header magic and tag bounds", "header.go readHeader"), ("lead magic", "rpmutils.go readSignatureHeader"), ("signature packets", "verify.go parseSignature, setupDigester"), ("format and compressor", "uncompress.go uncompressRpmPayloadReader"), ("entry fields", "cpio/header.go readHeader, cpio/cpio.go readNextEntry")],
 ["errors and results of every reader on packages and archives damaged in one place, next to intact controls"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError:
    print(len(P))
