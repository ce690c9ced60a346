#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
L = 'libmseed/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=False, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": (hook or None)}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Packing a series into records and parsing them back loses nothing",
 "For any time series packed into miniSEED records of either format version with any writable encoding that can represent its samples, byte layout and record length, parsing the emitted records in order yields exactly the original samples with the same source identifier, sample rate, publication version, flags and (format 3) extra headers, and every record's start time equals the series start plus its sample offset at the format's time resolution. No emitted record is longer than the requested record length and its stated length is its real length; bytes of a version 2 record beyond its samples are zero. The reported number of packed samples equals the samples found in emitted records, all samples are emitted when flushing is requested, and otherwise at most a final part that could still fit one record at the encoding's best compression is withheld.",
 ["inputs", "configurations"],
 "all combinations of format version, encoding, record length, flush, rate, start time, flags, versions, extra headers from finite domains and all sample sequences over a boundary alphabet up to a bound, including lengths one below/at/above every record-capacity boundary",
 "the packing tests compare a handful of fixed sine series with stored reference files; they never cross every capacity boundary, rate form or start-time fraction",
 [L+'pack.c', L+'packdata.c', L+'unpack.c', L+'unpackdata.c'],
 [("record packing for both versions", L+"pack.c: msr3_pack and helpers"), ("header writing", L+"pack.c: msr3_pack_header2/3"), ("record parsing", L+"parseutils.c: msr3_parse, "+L+"unpack.c")],
 "records handed to the record handler, return values, parsed records")

prop("P02", "Integer difference compression is lossless and follows the published frames",
 "For every sequence of 32-bit integers, the Steim-1 and Steim-2 payload written for it expands, by the published frame definition and by this library, to exactly that sequence, and a sequence containing a difference that Steim-2 cannot represent is refused with an error instead of being altered. For every well-formed Steim-1 or Steim-2 frame sequence, whatever mixture of word widths, in either byte order and at any sample count, decoding yields exactly the values the published definition assigns; a frame with an undefined code at a requested sample is refused. Output never exceeds the declared sample count or the space offered.",
 ["inputs"],
 "all difference-width sequences up to a depth over every width boundary value, both signs, every control-code/width-code combination in a word, both byte orders, truncated payloads",
 "tests encode one synthetic sine and decode a few reference records; most width codes, boundary values and codes after frame boundaries are never produced",
 [L+'packdata.c', L+'unpackdata.c', L+'unpack.c'],
 [("Steim encoders", L+"packdata.c: msr_encode_steim1/2"), ("Steim decoders", L+"unpackdata.c: msr_decode_steim1/2")],
 "record payload bytes, decoded samples, return codes")

prop("P03", "Every supported sample encoding decodes to its published value",
 "For each supported encoding other than Steim (text, 16- and 32-bit integers, 32- and 64-bit floats, GEOSCOPE 24-bit and 16-bit gain-ranged with 3- or 4-bit exponent, CDSN, SRO and DWWSSN) every possible sample word decodes, in both byte orders, to the value its published definition gives, and the result carries the documented sample type and size. Encodings that are not supported are reported as such and produce no samples.",
 ["inputs"],
 "the complete domain of every 16-bit word format, a boundary-complete subset of 24/32/64-bit words, both byte orders, every encoding code 0..255, sample counts 0..N",
 "tests decode one reference record for some encodings, i.e. a few hundred of 65536 words per format, in one byte order",
 [L+'unpackdata.c', L+'unpack.c', L+'lookup.c'],
 [("sample decoders", L+"unpackdata.c: msr_decode_*"), ("dispatch", L+"unpack.c: ms_decode_data")],
 "decoded sample buffer, sample type, return code")

prop("P04", "A damaged version 3 record is never accepted when validation is on",
 "Every version 3 record written carries the CRC-32C (Castagnoli) of its bytes with the CRC field zeroed, for any length and alignment. When CRC validation is requested, parsing accepts such a record unchanged and reports a CRC error instead of returning a record for every corruption by any bit pattern confined to 32 consecutive bits and every change of any one byte, unless the corruption makes the bytes unrecognisable, incomplete or outside length limits, which is also reported as not a valid record. Parsing never modifies the record bytes it was given.",
 ["inputs", "fault_sequences"],
 "every single-bit flip, every byte position x every byte value, every 2-byte burst alphabet at every offset, over records of every length class and alignment 0..7; CRC over all lengths 0..N x alignments x chained splits",
 "one test feeds a single record with an invalid CRC; it covers one of the thousands of positions and no alignment",
 [L+'crc32c.c', L+'unpack.c', L+'pack.c'],
 [("CRC computation", L+"crc32c.c: ms_crc32c"), ("validation on parse", L+"unpack.c: msr3_unpack_mseed3"), ("CRC insertion", L+"pack.c")],
 "return code of parsing; bytes 28-31 of emitted records")

prop("P05", "Malformed input never causes access outside the bytes supplied",
 "Whatever bytes are supplied to record detection, parsing, data unpacking and extra header access, the library reads only bytes inside the buffer it was given, writes only inside memory it owns, terminates, and does not leak memory once its results are released. A record that is returned never claims a length greater than the bytes supplied, nor a data payload outside itself, and decoding never yields more samples than the record declares.",
 ["inputs"],
 "for template records of every encoding, blockette and version: every truncation length, every header/blockette field x every boundary value, all pairs of such field corruptions, all byte values at every header byte; each in an exactly-sized buffer under a memory-error detector",
 "tests read only well-formed reference files plus one corrupted CRC; an out-of-bounds read is invisible without placing records at the end of an allocation",
 [L+'parseutils.c', L+'unpack.c', L+'unpackdata.c', L+'genutils.c', L+'extraheaders.c'],
 [("detection", L+"parseutils.c: ms3_detect"), ("version 2 blockette walk", L+"unpack.c: msr3_unpack_mseed2"), ("payload bounds", L+"unpack.c: msr3_data_bounds")],
 "AddressSanitizer report, returned record fields, allocator balance")

prop("P06", "Version 2 header and blockette content survives parsing and repacking",
 "Parsing a version 2 record maps every header field and every supported blockette to the documented record values and extra headers, independent of header byte order and blockette order: start time includes microsecond offset and any time correction not yet applied, the sample rate follows the factor/multiplier or the explicit rate, flags and quality map as documented. Writing a version 2 record from such parsed values reproduces the same header fields, flags and blockette contents, so parse-write-parse reaches a fixed point.",
 ["inputs", "configurations"],
 "all values of each flag byte, all pairs of blockettes in both orders, boundary values of every blockette field, boundary factor/multiplier grid, time correction grid, both byte orders",
 "the tests parse a few reference records with a few blockettes; flag combinations, multi-blockette orders and numeric boundaries are unsampled",
 [L+'unpack.c', L+'pack.c', L+'extraheaders.c'],
 [("version 2 parsing", L+"unpack.c: msr3_unpack_mseed2"), ("version 2 header writing", L+"pack.c: msr3_pack_header2"), ("rate factors", L+"msrutils.c / pack.c: ms_genfactmult, "+L+"unpack.c: ms_nomsamprate")],
 "parsed record fields, extra header JSON, emitted header bytes")

prop("P07", "Record detection returns the true length or asks for more, never a wrong length",
 "For a buffer starting with a valid record of either version, detection reports the correct format version and, for every number of available bytes, either the record's true length or that more bytes are needed; once enough bytes to determine the length are available the answer is exact and never changes with what follows. Version 2 records without a stated length are measured by the next record header or, at end of input, by the available bytes. Parsing an incomplete record reports how many more bytes are needed, such that supplying them makes parsing succeed.",
 ["inputs"],
 "every prefix length of every record in the domain (versions, lengths 2^7..2^17, blockette positions, byte orders, with and without stated length) followed by every kind of continuation",
 "the detection test checks six complete records at full length; prefixes and continuations are not explored",
 [L+'parseutils.c'],
 [("detection", L+"parseutils.c: ms3_detect"), ("parse hint", L+"parseutils.c: msr3_parse")],
 "return values of detection and parsing, format version")

prop("P08", "Reading a stream delivers exactly its records, in order, whatever the layout",
 "Reading a file, a byte range of a file, or a descriptor delivers exactly the records present, byte-identical and in order, then an end-of-input indication, for any number of records of mixed versions and lengths. The delivered sequence does not depend on how the input is split into reads, and with skipping of unrecognised data enabled also not on what non-record bytes lie between records, while without it such bytes cause an error after the preceding records were delivered. A truncated final record is never delivered and the stream position and record count always match the records delivered.",
 ["inputs", "fault_sequences", "configurations"],
 "all sequences of up to N segments from {records of each version/length, junk runs of every alignment class, truncated tails}, all byte-range start/end combinations at boundaries, all short-read patterns up to k deviations",
 "tests read a few intact reference files in one read size; short reads, junk and ranges at every boundary are unsampled",
 [L+'fileutils.c', L+'msio.c', L+'parseutils.c'],
 [("reading loop and buffer shifting", L+"fileutils.c: ms3_readmsr_selection, ms3_shift_msfp"), ("range suffix", L+"fileutils.c: parse_pathname_range")],
 "sequence of records, return codes, stream offsets", False,
 [("read buffer window", "offset and length of buffered, unconsumed bytes")])

prop("P09", "A trace list holds exactly the coverage of its records, in any arrival order",
 "After adding any sequence of records, the trace list has one entry per identifier (and, when splitting, per version), in sorted order and findable, whose segments are in order and whose start, end, sample count and samples are exactly the concatenation of contributing records that abut within tolerance at compatible rates. With healing on, records that tile a continuous span yield a single segment regardless of arrival order; gaps and overlaps beyond tolerance always separate segments. No sample is lost, duplicated, altered or attributed to another identifier, and earliest and latest times per identifier are the true extremes.",
 ["histories", "inputs", "configurations"],
 "all arrival sequences up to a depth over records of several identifiers/versions/rates with gaps and overlaps at tolerance boundaries, for all combinations of healing, splitting and tolerance settings",
 "the trace-list tests read two files in one arrival order with default settings",
 [L+'tracelist.c'],
 [("segment extension and healing", L+"tracelist.c: mstl3_addmsr_recordptr and helpers"), ("sorted id list", L+"tracelist.c: mstl3_findID, lm_addID")],
 "public trace list structure and samples", False,
 [("segment list", "ordered non-overlapping coverage per identifier"), ("skip list", "identifiers in sorted order at every level")])

prop("P10", "Deferred decoding through record lists equals immediate decoding",
 "For any set of records added with record bookkeeping, every segment's record list names exactly the records that contribute to it in sample order, with correct payload locations for memory, open-file and named-file sources, and unpacking the list yields the same samples, count and type as decoding on arrival. Unpacking reports an error, without writing out of bounds or leaving partial state, when the output space is too small or a source is unreadable.",
 ["histories", "inputs", "fault_sequences"],
 "all arrival sequences up to a depth x source kind x encoding mixes x output buffer provided/not/too small x each source missing or truncated",
 "one test unpacks one ordered reference file from memory and file",
 [L+'tracelist.c', L+'fileutils.c', L+'unpack.c'],
 [("record list building", L+"tracelist.c: add record pointers"), ("list unpack", L+"tracelist.c: mstl3_unpack_recordlist")],
 "record list entries and unpacked samples")

prop("P11", "Rolling-buffer packing emits every buffered sample exactly once and in order",
 "For any interleaving of adding data to a trace list and packing it with or without flushing, the emitted records contain, per identifier and segment, exactly the added samples once, in time order, with times continuing exactly across calls, and what is not yet emitted remains in the list. After a flushing pack nothing is left and the total of reported packed samples and records equals what was emitted. When asked to preserve the list, packing leaves it completely unchanged.",
 ["histories", "configurations"],
 "all operation sequences up to a depth over {add chunk of size a..e to id x, pack, pack with flush, pack preserving} x format, encoding, record length",
 "the packing tests call pack once with flush; no history with partial packs is tested",
 [L+'tracelist.c', L+'pack.c'],
 [("list packing", L+"tracelist.c: mstl3_pack"), ("trailing sample retention", L+"tracelist.c: mstl3_pack, msr3_pack")],
 "records emitted, list contents, return values")

prop("P12", "Selection matching is exactly the documented pattern, window and version test",
 "A record is selected if and only if some selection entry's glob pattern matches its identifier, its requested version is any or equal, and it has no windows or some window overlaps the record's span, with open ends unbounded. Patterns follow documented glob rules, including character sets, ranges, negation and escapes (malformed sets are not documented). A selection file adds exactly the entries its lines describe in either documented line format, and unparsable times or versions are reported as errors instead of widening the selection; reading with selections delivers exactly the records that match.",
 ["inputs", "configurations"],
 "all patterns and strings up to a length over an alphabet including every metacharacter; all relative positions of record span and windows; lists of up to N entries; all line shapes for selection files",
 "the selection tests check a fixed list of matches; pattern space and window boundary positions are unsampled",
 [L+'selection.c', L+'fileutils.c'],
 [("glob", L+"selection.c: ms_globmatch"), ("match", L+"selection.c: ms3_matchselect"), ("file parse", L+"selection.c: ms3_readselectionsfile")],
 "match result, records delivered, selections list")

prop("P13", "Calendar and epoch time conversions are exact inverses over the whole range",
 "For every representable instant (years 1678 to 2262, without the two reserved time values), splitting an epoch time into calendar fields yields the proleptic Gregorian fields, and composing them returns the same epoch time; month/day and day-of-year conversions agree with the calendar and are inverse. Every field value outside its documented range, including instants that cannot be represented, is rejected with an error and no result.",
 ["inputs"],
 "every day of the supported years 1678-2262 x boundary times of day and fractions, all month/day/year-day values including each out-of-range neighbour",
 "the time tests convert a few dozen fixed dates",
 [L+'genutils.c', L+'gmtime64.c'],
 [("calendar", L+"genutils.c: ms_time2nstime, ms_nstime2time, ms_doy2md, ms_md2doy"), ("civil breakdown", L+"gmtime64.c")],
 "returned fields, epoch values, error codes")

prop("P14", "Time strings print the exact instant and parse back to it",
 "For every instant, every string format and every subsecond option, the printed string has the documented shape and denotes the instant truncated to the printed resolution, and, for the formats the parser documents, parsing the string back returns that instant exactly, including instants before 1970 and within one second of the epoch. Parsing accepts each documented format at any documented precision with the documented default for omitted fields, and rejects strings with out-of-range fields or unrecognised form.",
 ["inputs", "configurations"],
 "all formats x subsecond options x a boundary grid of instants; all documented string shapes with every field at min-1, min, max, max+1",
 "tests cover a few dozen fixed strings, none between -1 s and 0 of the epoch",
 [L+'genutils.c'],
 [("printing", L+"genutils.c: ms_nstime2timestr"), ("parsing", L+"genutils.c: ms_timestr2nstime, ms_mdtimestr2nstime, ms_seedtimestr2nstime")],
 "strings and epoch values")

prop("P15", "Source identifiers and network/station/location/channel codes map one to one",
 "Building an identifier from codes and splitting it returns the same codes, for any code lengths including empty location, SEED three-letter and extended channel forms, and identifiers that do not have the documented structure or do not fit the destination are rejected. Code copying helpers produce the documented cleaned or padded text, never more than the stated bytes, and never split a multi-byte character. Identifiers in version 2 headers survive parsing and writing.",
 ["inputs"],
 "all code strings up to a length over an alphabet with space, delimiter, wildcard and multibyte characters; all destination sizes; all byte strings up to a length for the copy helpers",
 "tests convert a handful of identifiers",
 [L+'genutils.c', L+'pack.c', L+'unpack.c'],
 [("mapping", L+"genutils.c: ms_sid2nslc, ms_nslc2sid, channel mappers"), ("copy helpers", L+"genutils.c: ms_strncp*")],
 "strings, return values")

prop("P16", "Extra headers behave as a JSON document under get, set, merge and replace",
 "For any sequence of extra header operations, the stored headers equal the JSON document obtained by applying the same operations to a plain document model: set creates or replaces only the addressed value, merge follows JSON Merge Patch, append adds one array element, replace swaps the whole document, and get returns the addressed value, not-found or wrong-type. Using a shared parse state and serialising at the end gives the same result as operating directly. Setting a missing array element is refused. A failed operation reports an error and leaves the headers as they were; the stored length always matches the stored text and never exceeds 65535 bytes.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over a small set of pointers, types and values, from several initial documents, with and without shared state, including the size limit",
 "tests run one linear script of set/get calls",
 [L+'extraheaders.c', L+'yyjson.c'],
 [("pointer access", L+"extraheaders.c: mseh_get_ptr_r, mseh_set_ptr_r"), ("serialise/replace", L+"extraheaders.c: mseh_serialize, mseh_replace")],
 "extra header text and return codes", False, [("parse state", "immutable and mutable document kept in step")])

prop("P17", "Sample and end times are exact, including across leap seconds",
 "The time of the n-th sample equals the start time plus n sample intervals rounded to the nearest nanosecond (within the double precision of the span) for any rate or period, and the end time of a record or segment is the time of its last sample, from which the latency of a record is measured. When a known leap second falls strictly inside the span the result is reduced by exactly one second, and otherwise unaffected, whichever leap second list (built in or read from a file) is in effect.",
 ["inputs", "configurations"],
 "every leap second x start offsets around it at nanosecond boundaries x spans, rates in Hz and period form, offsets, loaded files of several shapes",
 "the sample-time test checks a handful of points around one leap second",
 [L+'genutils.c', L+'msrutils.c', L+'tracelist.c'],
 [("sample time", L+"genutils.c: ms_sampletime"), ("leap file", L+"genutils.c: ms_readleapsecondfile"), ("end time", L+"msrutils.c: msr3_endtime")],
 "returned times")

prop("P18", "Sample type conversion never silently changes a value",
 "Converting a segment between integer, float and double yields every value exactly (to float: the nearest float), or rounded to the nearest representable integer only when loss of precision was allowed or below the documented tolerance of 0.000001; when a value cannot be converted without loss and loss was not allowed, the conversion fails and the segment is left unchanged. Count, order and type after conversion are consistent, and unsupported conversions are refused.",
 ["inputs", "configurations"],
 "all type pairs x loss allowed or not x all sequences up to a length over a value alphabet with both signs, halves, fractions, extremes",
 "no existing test covers conversion of negative fractional values",
 [L+'tracelist.c'],
 [("conversion", L+"tracelist.c: mstl3_convertsamples")],
 "sample buffer and type after the call")

prop("P19", "Log messages are delivered once, in order, bounded, and to the right sink",
 "Every message goes to the sink for its level with the configured prefix, truncated to the documented maximum; with a registry enabled, warnings and errors are held instead, at most the configured number being the most recent ones, and emitting delivers held messages oldest first exactly once while freeing discards them. Reported counts equal the messages emitted, freed or held, and settings of one thread or one parameter set never affect another.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over {log at level 0-2 with short/limit/over-limit text, with/without newline, re-init with registry size, emit k, free} on two parameter sets",
 "one existing logging test emits a few messages in one order",
 [L+'logging.c'],
 [("registry", L+"logging.c: add_message_int, ms_rlog_emit, ms_rlog_free"), ("formatting", L+"logging.c: rlog_int")],
 "messages received by sinks, return values")

prop("P20", "Concurrent use from several threads gives the same results as running alone",
 "Threads working on separate records, files and trace lists obtain, under every interleaving, exactly the results they obtain when run alone. Objects that threads only read (records, trace lists, selections, input buffers) may be common to them. No call leaves behind state in the library that changes what a call in another thread does or returns.",
 ["schedules"],
 "all interleavings, up to a bound on preemptions, of 2-3 threads each running packing, parsing, decoding, time, identifier, logging or extra header work, with every access to shared library memory a scheduling point",
 "no existing test starts a thread",
 [L+'pack.c', L+'unpack.c', L+'genutils.c', L+'logging.c', L+'tracelist.c', L+'extraheaders.c', L+'crc32c.c'],
 [("absence of shared mutable state; thread-local log parameters", L+"logging.c: gMSLogParam and the rest of the library")],
 "per-thread results; conflicting accesses to shared memory")

prop("P21", "Running out of memory is reported and leaves everything usable",
 "When any single memory allocation during an operation fails, the operation reports failure (or completes correctly without it), never crashes, never reads or writes invalid memory and never reports success with missing content. Objects passed in remain valid: they can still be read and released, and repeating the operation with memory available then gives the normal result.",
 ["fault_sequences"],
 "for every operation in a scenario list (parse, unpack, pack both versions, trace add/heal/convert/pack/unpack, extra headers, selections, reading, logging): every allocation index failed once, and failed from that index onward",
 "tests never inject an allocation failure",
 [L+'pack.c', L+'unpack.c', L+'tracelist.c', L+'extraheaders.c', L+'fileutils.c', L+'msrutils.c', L+'selection.c'],
 [("allocation error paths through the replaceable allocator", L+"genutils.c: libmseed_memory and its users")],
 "return values, sanitizer, follow-up operations")

prop("P22", "The msi program outputs exactly the records selected by its options",
 "For any input and any combination of the start/end time, match, reject, non-record-data skipping and record count options, the records the program writes to its output file are byte-identical copies, in input order, of exactly the input records that satisfy every given option, and the printed and reported record totals, file offsets and latencies agree with them. Input given as files, byte ranges, list files or standard input gives the same result, and unreadable input or unwritable output makes the program exit with a failure status.",
 ["inputs", "configurations", "fault_sequences"],
 "all subsets of filter options with boundary arguments x input files of several record mixes x input forms; every failing write position",
 "the repository has no tests of the program's options",
 ['src/msi.c', L+'fileutils.c', L+'selection.c'],
 [("record loop and filters", "src/msi.c: main"), ("option handling", "src/msi.c: processparam, addlistfile")],
 "output file bytes, stdout, exit status")

prop("P23", "Trace, gap and sync listings report the true segments and gaps",
 "For any records in any input order, the program's trace listing names exactly the continuous segments with their start, end, rate and sample count, the gap listing exactly the gaps and overlaps between consecutive segments with their duration and sample estimate within the requested limits, and the sync listing exactly one line per segment, in every time format offered. Totals printed agree with the lines printed, and tolerance options merge segments exactly when gap and rate differences are within the tolerance given.",
 ["inputs", "histories", "configurations"],
 "all arrival orders of records from a small set with gaps/overlaps/rate changes at tolerance boundaries x listing options x tolerances x min/max gap limits x time formats",
 "the repository has no tests of listings",
 ['src/msi.c', L+'tracelist.c'],
 [("listings", L+"tracelist.c: mstl3_printtracelist, mstl3_printgaplist, mstl3_printsynclist"), ("tolerances", L+"tracelist.c; src/msi.c")],
 "program standard output")

prop("P24", "Writing to files stores exactly the packed records and reports every failure",
 "Writing a record or a trace list to a file creates it, appends to it or overwrites it as requested, stores exactly the records packed and returns their number, and never changes the caller's data. If the file cannot be opened, or any write or the final flush to it fails, the call returns an error instead of a count.",
 ["fault_sequences", "histories", "configurations"],
 "all sequences up to a depth of write/append/overwrite calls x formats; every write call index failing or writing short, and failing close",
 "tests write each file once to a good disk",
 [L+'fileutils.c', L+'pack.c', L+'tracelist.c'],
 [("file writing", L+"fileutils.c: msr3_writemseed, mstl3_writemseed, ms_record_handler_int")],
 "file bytes and return values")

prop("P25", "Copies are independent and everything allocated is released",
 "A duplicated record equals its source in every header, extra header and sample, and later changes to or release of either never affect the other. After any sequence of successful record, trace list, selection and file operations followed by releasing their results through the documented calls, no memory allocated by the library remains and nothing is released twice, with the default or a replaced allocator.",
 ["histories"],
 "all operation sequences up to a depth over {parse, unpack, duplicate, modify, resize, add to list, pack, convert, print, free} on two records and a list, under a counting allocator and memory-error detector",
 "tests do not check release or aliasing",
 [L+'msrutils.c', L+'tracelist.c', L+'extraheaders.c', L+'genutils.c'],
 [("ownership", L+"msrutils.c: msr3_duplicate, msr3_free; "+L+"tracelist.c: mstl3_free")],
 "allocator balance, object contents")

prop("P26", "Re-packaging a record into version 3 keeps its payload and meaning",
 "Re-packaging any parsed record of either version into a version 3 record without re-encoding yields a valid version 3 record of the reported length with the same encoded data payload (in the byte order version 3 prescribes for the encoding), sample count, encoding, identifier, start time, rate, flags, publication version and extra headers, whose decoded samples equal the original's. If the destination is too small, nothing is written beyond it and an error is returned.",
 ["inputs", "configurations"],
 "all templates (versions, encodings, byte orders, extra headers, empty payload) x every destination size from 0 to needed+1",
 "one test repacks one reference record into one large buffer",
 [L+'pack.c', L+'unpack.c'],
 [("repack", L+"pack.c: msr3_repack_mseed3"), ("payload bounds", L+"unpack.c: msr3_data_bounds")],
 "emitted bytes and return value")

prop("P27", "Printed record headers, selections and diagnoses state what they describe",
 "Printing a parsed record, its extra headers or the raw header of a version 2 or 3 record at any level of detail shows, in both byte orders, every header and blockette field with the value its bytes hold, every set flag bit, and extra headers that are the stored JSON apart from white space. The raw header diagnosis reports exactly the invalid fields of a header, returns their number, reports none for a valid record with any chain of blockettes and at least one for a broken chain. Printing a selection list shows each pattern, version and window once, and every documented result code, no other, has a text of its own. Printing never changes the record, and the verbosity of any operation never changes its results.",
 ["inputs", "configurations"],
 "all header bytes x all values; all blockette types x field values x byte order; all chains of up to 3 blockettes and their broken forms; JSON documents of a grammar; all operations x verbosity levels",
 "tests print no record and diagnose none; a swapped or truncated field shows only for particular values or byte orders",
 [L+'msrutils.c', L+'parseutils.c', L+'extraheaders.c'],
 [("selections", L+"selection.c: ms3_printselections"), ("result texts", L+"lookup.c: ms_errorstr"), ("raw headers", L+"parseutils.c: ms_parse_raw2/ms_parse_raw3"), ("summary", L+"msrutils.c: msr3_print"), ("extra headers", L+"extraheaders.c: mseh_print")],
 "printed text, reported errors and return values")

prop("P28", "URL reads ask for exactly what is configured and report every failed transfer",
 "Reading from a URL requests that path and exactly the byte range given, with all custom headers and program agents set and not freed since, in the order they were set, the default agent only if none was set, and the credentials set last when the server asks for them. Settings may be changed, freed and used in any order, also while another stream is read, without effect on streams already open. Whatever way a server frames its reply (known length, chunks, end of connection, interim replies, trailers, redirections, challenges) the same records are delivered as from a file of those bytes, and every failure (refused or lost connection, error status, a reply broken off, endless redirection, missing credentials) is returned as an error with a message, never as a normal end. A server whose certificate cannot be verified is sent no request, unless verification was disabled with LIBMSEED_SSL_NOVERIFY. The msi program's -H and -u options and ranges act the same.",
 ["histories", "inputs", "fault_sequences"],
 "all histories of setting, freeing and reading up to a length; all listed server behaviours x byte ranges x cuts of the reply x breaking points",
 "no test reads from a URL",
 [L+'msio.c', L+'fileutils.c', 'src/msi.c'],
 [("transfer", L+"msio.c: msio_fopen/msio_fread"), ("settings", L+"fileutils.c: ms3_url_addheader/ms3_url_useragent/ms3_url_userpassword/ms3_url_freeheaders"), ("options", "src/msi.c: parameter_proc")],
 "requests received by a server, delivered records, return values and messages")

prop("P29", "Calls lacking arguments or parts fail cleanly or act as if not asked",
 "Every public function called without a pointer argument it needs returns its documented error value, with a message where it reports errors by messages, and does nothing else: no record is emitted, no file written, no object or stream kept, no memory leaked, no other argument changed. Without an argument that is optional (outputs not wanted, tolerances, selections, parse states, counts, handler data, extra headers, identifiers for messages, codes of a pattern) it gives the same result as with it. Releasing and printing functions do nothing when there is nothing to release or print. Calls on a record or segment without raw record, extra headers, samples or record list fail when they need the missing part and otherwise treat it as empty.",
 ["inputs", "configurations"],
 "every subset of the pointer arguments of every public function that takes any, and every combination of missing parts of records and segments",
 "no test calls with absent arguments; each combination is a path of its own through argument checks",
 [L+'fileutils.c', L+'msrutils.c', L+'pack.c', L+'parseutils.c', L+'unpack.c', L+'tracelist.c', L+'selection.c', L+'genutils.c', L+'extraheaders.c', L+'logging.c'],
 [("argument checks", L+"fileutils.c, msrutils.c, pack.c, parseutils.c, unpack.c, tracelist.c, selection.c, genutils.c, extraheaders.c, logging.c")],
 "return values, messages, emitted records, files, outputs, memory and descriptors")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
