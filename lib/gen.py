#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both are committed)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, M = [], []


def p(pid, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))
    M.append(dict(property=pid, quick_cmd="python3 run.py %s" % pid,
                  thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % pid,
                  evidence_file="evidence/%s.json" % pid, technique=technique, level="exploration",
                  level_note=note))


TB = ["aftimeblockencoder.cc", "rftimeblockencoder.cc", "rowtimeblockencoder.cc"]
COL = ["threadeddyscocolumn.cc", "threadeddyscocolumn.h"]
NOTE = ("Held on the executions that were run, not a proof: random cases from a seed; the oracle is "
        "independent of the code under test. ")

p("C01", "Stored visibilities are read back to within one quantization step",
  "A finite visibility that was written is read back, after closing and reopening the table, as a value that is "
  "at most one step of the configured quantizer away from it at the scale stored for it, and an exact zero is read back as zero. "
  "The scale is never coarser than the data demand (for per-row scaling, full scale is the largest value of that row), so that for noise-like data the rms error relative "
  "to the noise stays at the level of the chosen bit rate, distribution and normalization, also with different antenna and channel gains, "
  "and is on average zero. Auto-correlations are excluded for antenna-frequency (AF) normalization.",
  ["inputs", "configurations"],
  "all finite data x 8 bit rates x 4 distributions x 3 normalizations x table layouts",
  "Existing tests write a handful of tables with one data pattern and check loose tolerances; a scale or step that is wrong for other gains, shapes, bit rates or rows passes.",
  TB + ["stochasticencoder.h", "dyscodatacolumn.cc", "timeblockbuffer.h"],
  [("normalization", "*timeblockencoder.cc: encode()"), ("quantization", "stochasticencoder.h: EncodeWithDithering()"), ("storing and reading of blocks", "threadeddyscocolumn.cc")],
  "differential runtime monitor: write/reopen/read through the table API against an independent decoder and level tables; accuracy statistics",
  NOTE + "The accuracy limits are measured on the unchanged code with a margin of 15-50%.")
p("C02", "Non-finite samples stay non-finite and do not affect other samples",
  "A visibility of which both components are not finite (NaN or infinite) is read back with both components NaN, and a finite visibility is never read back as a non-finite value. "
  "Non-finite samples do not influence the values or accuracy of the finite samples around them, whatever the pattern: isolated samples, whole rows, channels, antennas or blocks.",
  ["inputs", "configurations"],
  "all patterns of NaN/+Inf/-Inf over a block x all configurations",
  "Tests contain a few isolated NaNs in one configuration; patterns that empty a row, channel, antenna or block are only partly sampled.",
  TB + ["stochasticencoder.h"],
  [("reserved symbol", "stochasticencoder.h: Encode()/EncodeWithDithering()"), ("skipping of non-finite values", "*timeblockencoder.cc: fitting of factors")],
  "runtime monitor: every sample of tables with hostile non-finite patterns is classified on reading",
  NOTE + "The finite component of a half-finite sample is not claimed.")
p("C03", "The quantizer maps every value to a neighbouring level, monotonically",
  "For every bit rate and distribution, a finite value is quantized to the nearest level (its decision boundary lies between two neighbouring levels), and with dithering to one of the two levels that enclose it; values beyond the outermost levels get the outermost level. "
  "Larger values never get smaller levels, a value that is exactly a level is stored exactly, and only non-finite values get the reserved symbol, which decodes to NaN. "
  "Copies of a quantizer behave as the original.",
  ["inputs", "configurations"],
  "all float values x all quantizers",
  "Tests check a few values for a few quantizers; boundaries of the 65535 levels, extremes and copies are not visited.",
  ["stochasticencoder.h", "stochasticencoder.cc", "dictionary.h"],
  [("binary search", "dictionary.h: lower_bound()"), ("boundaries", "stochasticencoder.cc")],
  "runtime monitor at every level and boundary of every quantizer",
  NOTE + "All levels and boundaries of the quantizers up to 12 bits are visited in the thorough tier; 16 bits is sampled.")
p("C04", "Dithering is unbiased and independent between samples",
  "With dithering, a value between two levels is stored as the upper one with a probability equal to its relative position between them, for every bit rate, so that the expected stored value equals the written value. "
  "Unless static seeding was requested, the random choices of different samples, components, rows, blocks, columns and runs are independent of each other.",
  ["inputs", "schedules", "configurations"],
  "all values x dither values; all pairs of samples stored by concurrent encoders in repeated runs",
  "The existing dithering test averages one value with a loose tolerance; correlation between threads, blocks or columns is not measured.",
  ["stochasticencoder.h", "dyscodatacolumn.cc", "dyscodatacolumn.h"] + TB,
  [("dither threshold", "stochasticencoder.h: EncodeWithDithering()"), ("seeding of threads", "dyscodatacolumn.cc: initializeEncodeThread()")],
  "runtime monitor: exact threshold by bisection; statistical tests on residuals of stored symbols against exact probabilities",
  NOTE + "Statistical: a deviation beyond 7 sigma is a violation; smaller dependences are not seen.")
p("C05", "Quantizer levels follow the specified distribution and are symmetric",
  "For every bit rate b the quantizer has 2^b-1 strictly increasing, finite levels that are symmetric around an exact zero and lie at the specified quantiles of the chosen distribution (Gaussian, uniform, Student t with its degrees of freedom, truncated Gaussian with its truncation). "
  "They are the same every time they are made, as files do not contain them: they are needed to interpret existing files.",
  ["configurations"],
  "8 bit rates x 4 distributions x parameters",
  "Tests look at a few properties of single dictionaries; no test compares the levels with the distribution, although any shift silently changes the meaning of all existing files.",
  ["stochasticencoder.cc", "dictionary.h"],
  [("levels", "stochasticencoder.cc: initialize*()")],
  "differential monitor against quantiles computed with Boost.Math",
  NOTE + "Parameter values are sampled; Boost.Math is trusted.")
p("C06", "Bit packing is lossless, has the specified layout and stays within its buffer",
  "For every supported bit width and any number of symbols, packing followed by unpacking returns the same symbols, the packed bytes are the little-endian concatenation of the symbols, and their number is the number of bits rounded up to bytes, of which the unused bits have no influence. "
  "Neither direction reads or writes outside of its buffers or changes its input.",
  ["inputs", "configurations"],
  "8 widths x all counts x all symbol values x alignments",
  "Tests cover some counts per width with one pattern; the tail cases of all residues and the layout itself are not covered.",
  ["bytepacker.h"],
  [("pack/unpack per width", "bytepacker.h")],
  "differential runtime monitor with guard bytes against an independent bit-level description",
  NOTE + "Counts up to some thousands, every residue; symbols in range.")
p("C07", "Scaling uses the full range, never clips, and is independent of units",
  "The stored scale factors map the data of a time block onto the range of the quantizer such that no finite sample lies outside of it, while the largest sample of every unit the normalization scales by (row for Row normalization, row and channel per polarization for RF, channel per polarization for AF) reaches the end of the range. "
  "Multiplying all data of a block by a power of two changes only the scale factors, not the symbols.",
  ["inputs", "configurations"],
  "all finite blocks x 3 normalizations x distributions x bit rates",
  "Tests check only reconstructed values of a few benign blocks; clipping or a wasted range is visible only for particular maxima positions and gains.",
  TB, [("fitting to the maximum", "*timeblockencoder.cc")],
  "runtime monitor on stored scale factors and symbols, read by an independent decoder; metamorphic rescaling",
  NOTE)
p("C08", "Stored weights are within half a step, common to polarizations, order-preserving",
  "A weight is read back as the smallest weight of the polarizations of that sample, with an error of at most half a step, where the step is the largest such weight of the time block divided by the number of levels; all polarizations get the same value. "
  "Zero stays exactly zero, the largest weight keeps its value, order is preserved, and no weight becomes negative or non-finite.",
  ["inputs", "configurations"],
  "all non-negative weights x 8 bit rates x shapes",
  "Tests write one weight pattern at one bit rate; the polarization minimum, rounding and extremes are not tested in general.",
  ["weightblockencoder.h", "weightencoder.cc", "weightencoder.h", "dyscoweightcolumn.cc"],
  [("scaling and rounding", "weightblockencoder.h")],
  "runtime monitor over all weights read back, at codec and table level",
  NOTE + "Non-negative finite weights.")
p("C09", "Files keep the published format: old files read the same, new files conform",
  "Files written by earlier releases and by other writers of format 1.0 are read as the values they represent: header fields, order of blocks, columns, scale factors and symbols, bit layout and quantization levels are fixed. "
  "Files that are written conform to the same format, so that another reader that follows the format gets the same values as this one.",
  ["inputs", "configurations", "programs"],
  "all files of format 1.0 x both directions",
  "Tests write and read with the same code, so a change made consistently to both sides passes while all existing archives become unreadable.",
  ["header.h", "serializable.h", "dyscostman.cc", "threadeddyscocolumn.cc", "bytepacker.h"] + TB,
  [("header", "header.h"), ("block layout", "dyscostman.cc: initializeRowsPerBlock()"), ("levels", "stochasticencoder.cc")],
  "differential monitors: golden files of the released version, files by an independent writer, and an independent reader of new files",
  NOTE + "48 golden tables (committed) plus random synthetic files.")
p("C10", "Compression settings survive storing, copying and reopening",
  "The bit rates, distribution and its parameters, and the normalization that were requested (by methods or by a specification record) are those that are used for every block, recorded in the file, reported by the table, retained by clones and copies of the table, and used when data are appended or replaced in a later session. "
  "Managers with different settings in one table do not influence each other.",
  ["configurations", "histories"],
  "all settings x ways to create, copy, reopen and append",
  "Tests reopen a table with a single setting; lost or swapped settings still decode roughly the same.",
  ["dyscostman.cc", "dyscostman.h", "header.h"],
  [("specification", "dyscostman.cc: setFromSpec(), dataManagerSpec()"), ("header", "dyscostman.cc: writeHeader(), readHeader()")],
  "runtime monitor: settings reported by the API, in the file, and implied by the stored symbols are compared with those requested",
  NOTE)
p("C11", "Storing and reading are free of data races",
  "While background threads compress and store time blocks, no two threads access the same memory concurrently without synchronization, for any number of threads, columns, managers and tables, and any interleaving of writing, reading, rewriting, adding and removing columns, and closing.",
  ["schedules", "histories"],
  "all interleavings of the writing thread with up to 8 encoders per column",
  "Tests run without a race detector on tiny tables whose encoders rarely overlap.",
  COL + ["dyscostman.cc", "dyscodatacolumn.cc", "threadgroup.h"],
  [("cache mutex", "threadeddyscocolumn.cc: _mutex, _cacheChangedCondition"), ("file mutex", "dyscostman.cc: _mutex")],
  "ThreadSanitizer under stress workloads with injected delays and spurious wake-ups",
  NOTE + "Happens-before detection on the observed interleavings.")
p("C12", "Writing always finishes and its result does not depend on the schedule",
  "Whatever the speed, number and interleaving of the background threads, writing, reading and closing finish, every block that was written is stored exactly once in its latest version, and nothing is lost when the table is closed. "
  "With static seeding the stored file is the same for every run and schedule.",
  ["schedules"],
  "all interleavings, spurious wake-ups, delays, 1..8 threads",
  "Tests run one uncontrolled schedule; lost wake-ups, lost last blocks and overtaking writes need particular interleavings.",
  COL + ["dyscodatacolumn.cc", "threadgroup.h"],
  [("bounded cache and condition variable", "threadeddyscocolumn.cc: storeBlock(), EncodingThreadFunctor, stopThreads()")],
  "stress with injected delays and spurious wake-ups; unique values per block version; byte comparison of repeated runs",
  NOTE + "A hang is reported when a case makes no progress for 100 s, twice.")
p("C13", "Reading returns the last value written, at any moment",
  "At any point of any sequence of writes and reads of rows of several columns, in any order and over several sessions, reading a cell returns the value that was last written to it (to within quantization), or zero when it was never written, whether or not its block has been stored already. "
  "Rewriting some rows of a block keeps the other rows.",
  ["histories", "schedules"],
  "all sequences of put/get/close/reopen over rows x columns",
  "Tests write sequentially and read after reopening; reads between writes, rewriting and switching between blocks are not exercised.",
  COL + ["timeblockbuffer.h", "dyscostman.cc"],
  [("current block and write cache", "threadeddyscocolumn.cc: getValues(), putValues(), storeBlock(), loadBlock()")],
  "history checking against an executable model (last value per cell)",
  NOTE + "The first row written of a new block is its position within the first block; see assumptions.")
p("C14", "Writing a cell leaves other blocks, columns and managers bitwise untouched",
  "Writing to rows of one column changes, in the stored files, only the blocks of that column that contain these rows: all other blocks, columns, managers and the header remain bit for bit the same, and files do not shrink or grow except by new blocks.",
  ["histories", "inputs"],
  "all update patterns x layouts",
  "Tests never compare the stored bytes of unrelated blocks before and after an update.",
  ["dyscostman.cc"] + COL,
  [("offsets", "dyscostman.cc: getFileOffset(), writeCompressedData()")],
  "runtime monitor: byte comparison of files before and after random updates with a predicted write set",
  NOTE)
p("C15", "No memory errors or undefined behaviour for any supported use",
  "For every supported table, history, codec input, damaged file and tool invocation, no code reads or writes outside of its objects, uses freed or uninitialized memory, fails an internal assertion, or executes an operation with undefined behaviour (such as invalid shifts, signed overflow, misaligned or null access).",
  ["inputs", "histories", "configurations"],
  "all workloads of the other properties",
  "Tests run without sanitizers and with assertions disabled, on a few shapes.",
  ["bytepacker.h", "uvector.h", "dictionary.h", "timeblockbuffer.h", "serializable.h", "dscompress.cc", "decompress.cc"] + TB + COL,
  [("sizes of buffers", "threadeddyscocolumn.cc: InitializeAfterNRowsPerBlockIsKnown(), CalculateBlockSize()")],
  "AddressSanitizer + UndefinedBehaviorSanitizer + assertions over all workloads, valgrind memcheck over samples of them",
  NOTE + "Red-zone detection; fresh memory is filled with NaN patterns to make uninitialized use visible; memcheck sees uninitialized bytes in branches and in what is stored.")
p("C16", "Rows, columns and tables can be added, removed, copied and reopened safely",
  "Adding rows while writing or in later sessions, removing rows at the end, adding columns before data are stored, removing columns at any time, copying, renaming and deleting tables, and closing tables that are empty, have one time block or an incomplete last one, leave all remaining cells with the values last written to them (zero if never written), and the table usable. "
  "Removing the last column of a manager or the table removes its file.",
  ["histories", "configurations"],
  "all sequences of life cycle operations x table layouts",
  "Tests add rows up front, and never remove rows or columns, copy or rename a table with data.",
  ["dyscostman.cc", "dyscostman.h"] + COL,
  [("row and column administration", "dyscostman.cc: addRow(), removeRow(), addColumn(), removeColumn(), open(), create()")],
  "history checking of life cycle operations against an executable model",
  NOTE + "One known finding: renaming a weight column (see known_findings.jsonl).",)
p("C17", "dscompress compresses exactly what was asked and loses nothing else",
  "After dscompress finishes successfully, the requested columns are stored by Dysco with the requested settings and hold the original values to within quantization, flagged samples are NaN, and all other columns, the keywords of the set and of all columns (units, measures), the subtables, the rows and their order are unchanged; columns that are compressed already are not degraded by being replaced again. "
  "A set that can not be compressed is refused with an error status and keeps its unflagged values. Other sets and files are not touched.",
  ["inputs", "configurations", "histories"],
  "all options x column selections x sets (flags, several columns, irregular sets)",
  "There are no tests of the tools.",
  ["dscompress.cc", "stmanmodifier.h"],
  [("replacing of columns", "stmanmodifier.h"), ("options and validation", "dscompress.cc")],
  "end-to-end runtime monitor: the tool runs on random sets, a model of the set is the oracle",
  NOTE)
p("C18", "decompress restores normal storage without changing any value",
  "After decompress finishes successfully, the data column and, if present, the weight column are stored uncompressed and hold bit for bit the values that could be read before, and all other columns, the keywords of the set and of all columns (units, measures), the subtables, the rows and their order are unchanged. "
  "Sets that hold no compressed data, or only some, are handled without damage, and other sets and files are not touched.",
  ["inputs", "configurations", "histories"],
  "all sets x combinations of compressed columns",
  "There are no tests of the tools.",
  ["decompress.cc", "stmanmodifier.h"],
  [("replacing of columns", "stmanmodifier.h: MoveColumnData()")],
  "end-to-end runtime monitor: bitwise comparison of all cells before and after",
  NOTE + "Tools decompress the columns DATA and WEIGHT_SPECTRUM only, as released.")
p("C19", "Damaged or truncated files are refused or lose only the damaged part",
  "A file with a missing or incomplete header, an unknown version, or settings or a number of columns that do not fit, is refused with an error. "
  "When a file is truncated or damaged in its data, the values of all blocks and columns that are still complete are read unchanged; lost values are refused or read as zero, never as values that were not written, and reading does not change the file.",
  ["fault_sequences", "crash_points", "inputs"],
  "all truncation points x byte changes in header and data",
  "Tests never open a damaged file.",
  ["dyscostman.cc", "header.h", "serializable.h", "threadeddyscocolumn.cc"],
  [("validation", "dyscostman.cc: readHeader(), open()"), ("reading of missing data", "dyscostman.cc: readCompressedData()")],
  "fault injection into stored files with a per-cell oracle of what is still present",
  NOTE + "Header fields other than those named (e.g. a changed antenna count) carry no redundancy and are excluded.")
p("C20", "An I/O error while storing or reading is never silent",
  "When creating, writing or reading the file fails (disk full, failing or partial write, failing read or seek, missing permission), the operation or the closing of the table reports it, by an exception or by ending the process with an error; it never appears to succeed while values are lost or wrong, and never hangs.",
  ["fault_sequences", "crash_points"],
  "fault at every I/O call x kind x session",
  "No test injects an I/O error.",
  ["dyscostman.cc", "threadeddyscocolumn.cc"],
  [("stream state checks", "dyscostman.cc: writeCompressedData(), readCompressedData(), writeHeader()")],
  "fault injection at the C library's I/O calls, each session in its own process, with a read-back oracle",
  NOTE + "Ending the process from a background thread counts as reporting.")
p("C21", "The uninitialized vector behaves like the standard vector",
  "Every sequence of operations on the vector class gives the same contents, sizes, order, iterators, comparisons and exceptions as on the standard vector, except that elements it is asked not to initialize are unspecified; capacity is never below the size, no allocation is leaked or freed twice, and copies are independent.",
  ["inputs", "histories"],
  "all operation sequences on several vectors and element types",
  "The class has no tests of its own; only a few of its operations are reached.",
  ["uvector.h"],
  [("operations", "uvector.h")],
  "model-based history checking against std::vector with a counting allocator",
  NOTE + "Arguments that alias the vector's own elements are excluded.")
p("C22", "Unsupported requests are refused without damage",
  "Unsupported bit rates, incomplete or unknown settings, columns of an unsupported type or kind, adding a column to a manager with stored data, values of the wrong shape, removing rows from the middle, writing to a table opened for reading, and antennas that can not be stored, are refused with an exception. "
  "All data stored before remain bit for bit the same and the table remains usable.",
  ["inputs", "configurations", "histories"],
  "all unsupported requests x tables with data, in and after the session",
  "Tests check one or two refusals and never the data afterwards.",
  ["dyscostman.cc", "threadeddyscocolumn.cc", "bytepacker.h"],
  [("validation", "dyscostman.cc: prepare(), setFromSpec(), make*Column(), addColumn(), removeRow()")],
  "runtime monitor: each request must throw; all cells are compared bitwise before, after and after reopening",
  NOTE)
p("C23", "All fast search variants agree with the standard lower bound",
  "For every sorted list of levels and every query value, each of the search variants of the quantizer's dictionary returns the same position as the standard lower bound, including values below, equal to, between and above all levels.",
  ["inputs"],
  "all sorted lists x all queries",
  "Tests compare the variants for a few values of one dictionary.",
  ["dictionary.h"],
  [("branchless searches", "dictionary.h: lower_bound*()")],
  "differential runtime monitor against std::lower_bound",
  NOTE + "Sizes of 2^b-1 and finite queries, as the quantizers use.")
p("C24", "Block codecs are stateless: results depend only on their input",
  "Encoding a block gives the same scale factors and (with the same dithering) the same symbols whether the codec is new or was used for other blocks before, and decoding does not depend on the order in which rows are decoded or on what was decoded before. "
  "Encoding does not change its input, and scale factors do not depend on dithering.",
  ["histories", "inputs"],
  "all sequences of blocks through one codec",
  "Tests use a new codec for every block.",
  TB + ["weightblockencoder.h", "timeblockbuffer.h"],
  [("per-block state", "*timeblockencoder.cc: encode(), InitializeDecode()")],
  "metamorphic runtime monitor: bitwise comparison of new and used codecs",
  NOTE)
p("C25", "Memory for blocks waiting to be stored is bounded",
  "When storing is slower than writing, the number of time blocks held in memory stays below a limit that depends only on the number of columns and threads, not on the size of the table; writing waits instead.",
  ["schedules", "inputs"],
  "all speeds of storing x table sizes",
  "Tests write a few small blocks, which always fit.",
  COL, [("bounded cache", "threadeddyscocolumn.cc: maxCacheSize(), storeBlock()")],
  "runtime monitor of live memory with slowed-down storing",
  NOTE)

p("C26", "A writer that is killed loses only the blocks that were not stored yet",
  "When the process that writes to a table is killed at any moment while cells are written (after the table was created, extended or opened and flushed), the table can be read afterwards. Every time block of every column then holds, as a whole, what had been written to it up to some moment: "
  "the contents from before the session, what was handed over when the application last left the block or an earlier time that it left it, or zeros when it was never stored. Blocks of other columns and rows are never affected. "
  "The number of blocks of which the latest version is lost is bounded by the number of threads, not by the size of the table, because finished blocks are stored at once. Afterwards the table can be continued and reads back everything written.",
  ["crash points", "schedules", "inputs"],
  "all moments of being killed x kinds of sessions x layouts x numbers of threads",
  "No test kills a writer; all tests close the table.",
  COL + ["dyscostman.h"],
  [("storing of blocks", "dyscostman.cc: writeCompressedData()"),
   ("blocks waiting to be stored", "threadeddyscocolumn.cc: storeBlock(), CacheWriteThread"),
   ("number of blocks found from the file", "dyscostman.cc: open()")],
  "fault injection (the writer is killed around every write to its file and at random moments) with an offline checker of the surviving table against the recorded history of operations",
  NOTE + "Processes are killed, not the operating system: what was written to the file is there. A write to the file is not cut.")

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 run.py --build", checks=M, not_applicable=[],
                   notes="No hooks: /repo is built as it is. Replay a violation with "
                         "'python3 run.py --replay <path>'."), f, indent=1)
    f.write("\n")
