NA = {}
CHECKS = {
 'P12': dict(note='all glob patterns to length 5 over 9 symbols against all short strings, all window/version/span arrangements on a grid, all sequences of selection-file line shapes, all small record sets through three readers; oracle: independent reading of the documented rules'),
 'P13': dict(note='every day of the representable range with boundary times of day, every field value and its neighbours out of range, limits of the range; oracle: independent civil calendar in 128-bit arithmetic'),
 'P14': dict(note='boundary instants x all formats x all subsecond options printed, checked and parsed back; all strings of the documented grammar over field alphabets incl. out-of-range ones'),
 'P15': dict(note='all code tuples over an alphabet incl. empty, SEED and extended channels and overlong codes; all destination sizes; UTF-8 copying helpers over all short byte strings'),
 'P16': dict(note='all operation sequences up to the stated depth over a small set of paths, values and patches, in direct and shared-parse-state mode, against a plain document model; exact limits of the stored length'),
 'P17': dict(note='grid of rates, periods, offsets and starts incl. extremes; every leap second boundary crossed at every offset class, built-in and file lists; oracle: exact rational arithmetic in 128 bits'),
 'P18': dict(note='all sequences up to length 2-3 of boundary values, all type pairs, chains of conversions, single-fault buffers; oracle: exact definition of the conversion'),
 'P19': dict(note='all operation histories of set-up, logging, emitting and freeing up to the stated depth over two parameter sets and two threads; oracle: queue model; every message length around the maximum'),
}
CHECKS['P02'] = dict(note='all difference-width sequences up to the stated length, at word, frame and record ends, all width boundaries; all word mixtures and all word positions decoded in both byte orders at every sample count; oracle: independent implementation of the published frame definition')
CHECKS['P03'] = dict(note='every 16-bit and 24-bit word, every 32-bit word (thorough; quick: a 16-value byte alphabet), 64-bit words over a byte alphabet, both byte orders, plus records of every form and every encoding code; oracle: published formulas')
CHECKS['P04'] = dict(note='every byte change, every burst pattern up to the stated width at every bit position, wide bursts with all combinations of further bits, CRC field values, all lengths and alignments of the CRC function; oracle: bitwise CRC-32C and an independent reading of the header')
CHECKS['P07'] = dict(note='every prefix of streams starting with every record form of the space (field lengths, blockette chains, byte orders, continuations), every stated length, every header byte value; oracle: lengths known by construction')
CHECKS['P05'] = dict(note='base records of every version, encoding and blockette with every byte value at every position, every truncation, all pairs of length/offset/count/type fields over boundary values, every blockette at every offset; all short JSON texts, pointers and typed values; in exactly sized heap blocks under AddressSanitizer', variant='asan')
CHECKS['P01'] = dict(note='all short sample sequences over boundary values, every sample count up to more than two full records at many record lengths and compressibilities, grids of rates, times, flags, versions, identifiers and extra headers; every emitted record read back by an independent decoder and by the library', extra=['-lquadmath'])
CHECKS['P06'] = dict(note='every value of each flag byte, factor/multiplier and time/correction/microsecond grids, every field of every blockette with all byte or boundary values, all blockette sequences up to the stated length in every order and both byte orders; independent reading of the bytes, then parse-write-parse to a fixed point')
CHECKS['P08'] = dict(note='every short sequence of record and non-record pieces read from six kinds of sources, every way to cut the arrival, every byte range, every failure point, buffer edges of streams beyond 10 MiB; URL transfers through a stand-in for libcurl whose steps are enumerated', variant='asan')
CHECKS['P26'] = dict(note='both formats, all encodings, both header and payload byte orders, every Steim word kind sequence across frames, every destination size, changed headers; result compared byte for byte with an independently built record', variant='asan')
CHECKS['P24'] = dict(note='records and trace lists of every sample type and encoding written to new and existing files and standard output, every point at which the file stops growing, unusable destinations, unpackable data; file bytes compared with the packed records, data of the caller compared before and after', variant='asan')
CHECKS['P09'] = dict(note='all histories of records over small alphabets of gaps, intervals, rates, versions, types and identifiers in all arrival orders, the list inspected after every addition; oracle: the maximal chains of abutting records, whole records identified by their samples', variant='asan')
CHECKS['P11'] = dict(note='all interleavings of adding (continuous, after gaps, out of order, other identifiers) and packing with, without and instead of flushing, for every encoding and both versions, and failures within them; every sample carries its identity, so each is located as emitted once or still buffered after every operation', variant='asan')
CHECKS['P10'] = dict(note='streams of all record forms, arrival orders, selections, damaged payloads and counts, unreadable and distributed sources; deferred decoding from memory, named, ranged and open files into every size of space compared with immediate decoding', variant='asan')
CHECKS['P21'] = dict(note='every history of record, header, trace list, reading, selection, leap second, logging and writing operations of the grids with every allocation failing alone, with all later ones, and twice; failed operations must report, leave their objects unchanged or usable and be repeatable to the outcome without failures', variant='asan')
CHECKS['P25'] = dict(note='every history of parsing, decoding, copying, changing, adding, reading, packing, writing, selecting, logging and releasing up to the stated depth with the default and replaced allocators; after each operation all objects it does not concern are compared with before, at the end nothing may remain', variant='asan')
CHECKS['P22'] = dict(note='all pairs of start and end limits around every record bound, match and reject patterns, counts and their combinations, ten forms of input, other data and unreadable input at every position, printing options, and output failing at every byte; every run of the program compared with an independent selection of the input records', variant='opt', msi='asan')
CHECKS['P23'] = dict(note='every sequence of records of an alphabet in every arrival order under every listing, gaps and overlaps of all magnitudes, tolerances at, within and beyond their bounds, gap limits, identifiers of all shapes and all time formats; oracle: segments derived independently from the records', variant='opt', msi='asan')
CHECKS['P20'] = dict(note='real threads under a controlled scheduler that replaces the thread sanitizer runtime: every pair of 20 tasks with their own objects and of 9 tasks reading the same objects, every position of the preemptions among accesses to memory that is not private to a thread, all conflicting accesses up to three preemptions; results compared with running alone', variant='sched', technique='controlled-scheduler exploration of the real code (stateless model checking with preemption bounding and dependency reduction)', extra=['-Wl,' + ','.join('--wrap=' + f for f in 'strcpy strncpy strcat strncat vsnprintf snprintf sprintf fgets fread strtok localtime gmtime asctime ctime rand setlocale setenv chdir umask pthread_mutex_lock'.split())])
CHECKS['P27'] = dict(note='every header byte of both formats, every field of every blockette over boundary or all values, all chains, JSON documents of a grammar, all flag values; each printed line and the diagnosis compared with an independent reading of the bytes; every operation at all verbosity levels', variant='opt')
CHECKS['P28'] = dict(note='every server behaviour of a list x byte range x cut of the reply, every history of settings and reads up to the stated length, the program with its URL options; real libcurl against a loopback server whose replies are chosen by the explorer and whose received requests are compared with a model of the settings', variant='opt', msi='opt')
CHECKS['P29'] = dict(note='every subset of the pointer arguments of every public function that takes any, absent parts of records and segments, on prepared objects; oracle: refused with the error value and a message, nothing changed, nothing leaked, optional arguments without effect', variant='asan')
