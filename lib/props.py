"""What is run for every property. A job runs the cases [0,n) of a workload
mode of a harness binary; every case is a function of the seed and its number."""


def j(bin, mode, quick, thorough, **kw):
    return dict(bin=bin, mode=mode, quick=quick, thorough=thorough, **kw)


COMMON = ["values are finite or flagged by two non-finite components; weights are finite and >= 0",
          "the first time block is written consecutively, as the documentation requires",
          "all time blocks have the same baselines in the same order"]
CASE = ("A case is a random table (antennas, channels, polarizations, blocks, bit rates, "
        "distribution, normalization, column layout, row order, what separates blocks) and its "
        "contents, derived from the seed and the case number; distinct by its full description. ")

PROPS = {}


def prop(pid, rule, jobs, min_checks, min_stats=None, assumptions=None):
    PROPS[pid] = dict(rule=rule, jobs=jobs, min_checks=min_checks, min_stats=min_stats or {},
                      assumptions=COMMON if assumptions is None else assumptions)


prop("C01", CASE + "Every value that is read back is compared with what was written, relative to "
     "the levels around it; a second workload measures the rms, mean and scale of the errors of "
     "noise-like data. Non-trivial: at least one value was compared.",
     [j("th", "rt", 768, 24000), j("th", "acc", 864, 20000), j("th", "hist", 240, 3000),
      j("th", "big", 14, 280)], 500000,
     {"blocks": 2000, "samples": 500000})
prop("C02", CASE + "Non-finite values in nine patterns (isolated, rows, channels, antennas, whole "
     "blocks, mixtures, single components). Non-trivial: at least one value was compared.",
     [j("th", "rt", 768, 24000), j("codec", "block", 600, 30000), j("th", "hist", 240, 3000)], 500000, {"blocks": 2000})
prop("C03", "A case is one quantizer (8 bit rates x 4 distributions x parameters); values at, "
     "around and between all levels and boundaries, extremes and non-finite values, through the "
     "nearest and the dithered path, and through copies of the quantizer.",
     [j("codec", "quant", 480, 12000)], 100000, {"values": 100000}, [])
prop("C04", "Quantizer level: the dither threshold of each value is located by bisection and "
     "compared with the exact linear probability. Table level: residuals of the stored symbols "
     "against the exact probability, for their mean, dependence on the value and correlation "
     "between components, samples, rows, blocks, columns and runs (limit: 7 standard deviations).",
     [j("codec", "thresh", 480, 12000), j("th", "dither", 240, 6000)], 100000,
     {"tests": 100000, "thresholds": 10000, "residuals": 1000000},
     ["static seeding is not used where independence is tested",
      "a test statistic beyond 7 standard deviations does not occur by chance"])
prop("C05", "A case is one dictionary (8 bit rates x 4 distributions x parameters): its levels "
     "are compared with an independent implementation based on Boost.Math.",
     [j("codec", "dict", 400, 6000)], 5000, {"levels": 50000}, [])
prop("C06", "A case is a bit rate, a count (all residues) and an alignment: random symbols are "
     "packed and unpacked between guard bytes, and compared bit by bit with an independent "
     "description of the layout.",
     [j("codec", "pack", 640, 40000)], 2000, {"symbols": 100000}, [])
prop("C07", CASE + "Stored scale factors are read with an independent decoder and compared with "
     "the data; blocks are encoded again with scaled copies of the same data.",
     [j("th", "rt", 576, 20000), j("codec", "block", 600, 30000)], 100000, {"blocks": 2000})
prop("C08", CASE + "Weights in six regimes, over 12 decades; every weight that is read is "
     "compared with the smallest weight of its polarizations.",
     [j("th", "rt", 576, 20000), j("codec", "weight", 800, 40000), j("th", "hist", 240, 3000),
      j("th", "big", 14, 140)], 100000, {"blocks": 1000})
prop("C09", "48 tables whose files were written by the released version are read (every file "
     "and expected value is committed); then files written by an independent writer with random "
     "contents are read; then tables written by this version are read by an independent reader.",
     [j("th", "golden", 320, 6000, extra="golden"), j("th", "rt", 480, 16000)], 100000,
     {"goldenFiles": 48, "syntheticFiles": 100, "blocks": 1000})
prop("C10", CASE + "Kinds: specification round trip, clone, reopen, copy, append, rewrite, static seed, several "
     "managers with different settings; the stored files are decoded with the requested settings "
     "by an independent decoder.",
     [j("th", "settings", 800, 16000), j("th", "rt", 240, 8000)], 50000)
prop("C11", "Workloads that write and read tables with 1..8 encoding threads per column under "
     "ThreadSanitizer, with random delays and spurious wake-ups injected around lock operations. "
     "Non-trivial: the case finished.",
     [j("th_tsan", "thr", 240, 3000), j("th_tsan", "hist", 180, 2000), j("th_tsan", "life", 195, 2000),
      j("th_tsan", "rt", 48, 600), j("th_tsan", "static", 16, 200), j("th_tsan", "settings", 35, 400)],
     1000, {"lockOperations": 10000}, ["casacore itself is not instrumented"])
prop("C12", "Writers against 1..8 encoding threads with injected delays and spurious wake-ups: "
     "every run finishes, holds every block, and (static seed) stores the same file for every "
     "schedule. Non-trivial: the case finished.",
     [j("th", "thr", 400, 10000), j("th", "static", 120, 3000), j("th", "hist", 360, 4000),
      j("th", "life", 390, 4000), j("th", "big", 14, 280)], 5000,
     {"blocksChecked": 2000, "lockOperations": 20000, "filesCompared": 200},
     COMMON + ["a run that makes no progress for 100 s, twice, does not finish"])
prop("C13", CASE + "Random histories of writes, reads and reopens over all rows and columns, "
     "checked against a model that holds the last value written to every cell.",
     [j("th", "hist", 1200, 16000), j("th", "thr", 120, 2000), j("th", "life", 390, 4000),
      j("th", "big", 42, 700)], 20000, {"reopens": 500, "gets": 2000, "puts": 2000})
prop("C14", CASE + "Blocks, rows or columns of a finished table are rewritten; the stored bytes "
     "and values of everything else are compared with those before.",
     [j("th", "iso", 900, 12000), j("th", "hist", 360, 4000), j("th", "big", 14, 280)], 2000, {"bytesCompared": 100000})
prop("C15", "All workloads again under AddressSanitizer and UndefinedBehaviorSanitizer with "
     "assertions of the library and the standard library enabled. Non-trivial: the case finished.",
     [j("th_asan", "rt", 144, 3000), j("th_asan", "hist", 100, 2000),
      j("th_asan", "life", 130, 2600), j("th_asan", "big", 14, 140), j("th_asan", "reject", 200, 3000),
      j("th_asan", "damage", 108, 1800), j("th_asan", "settings", 70, 1000),
      j("th_asan", "golden", 120, 1500, extra="golden"), j("th_asan", "thr", 48, 600),
      j("th_asan", "io", 64, 1280), j("th_asan", "tools", 40, 600, tools="tools_asan", extra="tools"),
      j("th", "rt", 16, 240, memcheck=1), j("th", "hist", 16, 240, memcheck=1),
      j("th", "life", 13, 260, memcheck=1), j("th", "settings", 14, 240, memcheck=1),
      j("th", "thr", 16, 160, memcheck=1), j("th", "reject", 21, 210, memcheck=1),
      j("th", "tools", 11, 220, memcheck=1, tools="tools", extra="tools"),
      j("codec", "block", 64, 1000, memcheck=1), j("codec", "weight", 64, 1000, memcheck=1),
      j("codec", "pack", 64, 1000, memcheck=1), j("codec", "uvec", 160, 2000, memcheck=1),
      j("codec_asan", "quant", 96, 1200), j("codec_asan", "thresh", 64, 600),
      j("codec_asan", "dict", 64, 600), j("codec_asan", "pack", 320, 6000),
      j("codec_asan", "lb", 300, 6000), j("codec_asan", "uvec", 800, 20000),
      j("codec_asan", "block", 300, 6000), j("codec_asan", "weight", 300, 6000)],
     100000, {}, ["casacore itself is not instrumented"])
prop("C16", CASE + "Thirteen kinds of life cycle: streaming, empty tables, adding and removing "
     "columns and rows, copying, renaming, deleting, two tables at once, incomplete last blocks, "
     "growing over sessions, a single time block.",
     [j("th", "life", 2340, 30000), j("th", "lifex", 2, 8), j("th", "hist", 360, 4000),
      j("th", "big", 14, 280)], 20000,
     {k: 20 for k in ("stream", "empty", "addColumn", "removeColumn", "removeRow", "copy",
                      "rename", "twoTables", "delete", "removeEarly", "partial", "growLater",
                      "single")})
prop("C17", CASE + "dscompress is run as a user would, on measurement-set like tables with flags; "
     "the result is compared with the table before.",
     [j("th", "tools", 700, 10000, tools="tools", extra="tools")], 2000, {"toolRuns": 100})
prop("C18", CASE + "decompress is run on tables compressed by dscompress or holding uncompressed "
     "data; the result is compared with the table before.",
     [j("th", "tools", 700, 10000, tools="tools", extra="tools")], 2000, {"toolRuns": 100})
prop("C19", CASE + "The stored file is cut at random and at special positions, or bytes of its "
     "header or contents are changed; all cells are then read.",
     [j("th", "damage", 360, 9000)], 10000, {"damagedFiles": 1000, "cellsIdentical": 5000})
prop("C20", CASE + "An I/O error (full disk, failing or short write, failing read, failing seek, read-only, "
     "failing open or truncation) is injected at a random call on the stored file of a session "
     "that writes, reads, updates, appends, adds or removes columns, or copies, in its own process. Non-trivial: the fault was hit.",
     [j("th", "io", 3600, 60000)], 1000, {"faults": 100, "reported": 80},
     COMMON + ["a process that ends with an error status or signal reported the error"])
prop("C21", "A case is a random sequence of operations on several vectors of a random element "
     "type, mirrored on the standard vector, with allocations counted.",
     [j("codec", "uvec", 1600, 60000)], 10000, {"operations": 20000},
     ["arguments that alias the vector itself are not used", "stateless allocators"])
prop("C22", CASE + "Twenty-one kinds of unsupported request; every one has to be refused and to leave "
     "all cells bitwise the same, also after reopening.",
     [j("th", "reject", 1680, 20000)], 5000,
     {k: 20 for k in ("bits", "specBits", "specMissing", "addColumn", "wrongShape", "removeRow",
                      "readOnlyPut", "antenna", "antennaUpdate", "parameter")})
prop("C23", "A case is a sorted list (2^n-1 values, with and without duplicates, extremes); "
     "every variant is queried at, around and between all values and compared with the standard "
     "algorithm.",
     [j("codec", "lb", 600, 20000)], 10000, {"queries": 100000}, [])
prop("C24", "A case is a block of data and a sequence of encodings and decodings by new and "
     "by used codecs; results have to be bitwise the same.",
     [j("codec", "block", 800, 40000), j("codec", "weight", 400, 20000)], 5000)
prop("C25", "A table of 120 blocks is written while storing is slowed down; the number of blocks "
     "held in memory is measured at every allocation.",
     [j("th_mem", "mem", 24, 160)], 24, {"peakBlocks": 24},
     ["memory is counted by the allocation functions of the process"])
prop("C26", CASE + "A child process that streams, fills columns one by one, writes randomly, updates, "
     "appends or resumes is stopped and killed before or after a random write to the file, or at a random moment; "
     "its table is compared with the recorded history, continued and compared again.",
     [j("th", "crash", 2400, 40000)], 10000,
     {"killed": 500, "finished": 50, "blocksStored": 5000, "blocksLost": 200, "stream": 50,
      "idle": 100, "columns": 50, "random": 50, "update": 50, "append": 50, "resumed": 50},
     COMMON + ["the process is stopped before it is killed, so that no system call is cut"])
