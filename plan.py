"""What every check runs: which workload, in which build, for how long."""

# `budget` only caps the time (seconds); the number of cases is what the harness says (`lazmon list`).
DEFAULT = {
    "quick": [{"build": "checked", "budget": 150}],
    "thorough": [{"build": "checked", "budget": 420}, {"build": "release", "budget": 240}],
}

TREE = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance"

PLAN = {
    # results are not judged here: what is watched is the memory
    "C17": {
        "quick": [
            {"build": "asan", "budget": 120, "cases": 1200, "functional": False},
            {"build": "miri", "workload": "C17-tiny", "budget": 150, "jobs": 16, "functional": False},
        ],
        "thorough": [
            {"build": "asan", "budget": 420, "cases": 100000, "functional": False},
            {"build": "checked", "budget": 60, "functional": False},
            {"build": "miri", "workload": "C17-tiny", "budget": 300, "jobs": 400, "functional": False},
        ],
    },
    "C18": {
        "quick": [
            {"build": "checked", "budget": 60},
            {"build": "tsan", "budget": 120, "cases": 150},
            {"build": "miri", "workload": "C17-tiny", "budget": 150, "jobs": 8, "flags": TREE,
             "env": {"LAZMON_PAR": "1", "RAYON_NUM_THREADS": "2"}},
        ],
        "thorough": [
            {"build": "checked", "budget": 120},
            {"build": "tsan", "budget": 300, "cases": 100000},
            {"build": "miri", "workload": "C17-tiny", "budget": 300, "jobs": 400, "flags": TREE,
             "env": {"LAZMON_PAR": "1", "RAYON_NUM_THREADS": "3"}},
        ],
    },
}

RULES = {
    "C01": "a case = a pointwise layout (LAS formats 0-5, item versions 1/2, extra bytes, custom item orders), a field-behaviour profile, a number of points and a chunk plan; the first cases are every format x version x profile. Non-trivial: at least 2 points and not all-constant fields; distinct by hash of layout, chunk plan and points.",
    "C02": "as C01 for the layered layouts (LAS formats 6-10, versions 3/4, extra bytes).",
    "C03": "a case = a stream of any layout compressed once plainly and several times through random splits over every sequential entry point, and read back the same way. Distinct by stream hash; trivial: streams whose plain and split calls coincide.",
    "C04": "a case = a stream compressed sequentially and in parallel (pools of 1..16 threads, random batch splits, dyn and inherent entry points, whole-buffer function); non-trivial: more than one chunk. Distinct by stream hash.",
    "C05": "a case = a stream decompressed in parallel in random batches, by dyn and inherent entry points, whole-buffer functions and several pools; non-trivial: more than one chunk. Distinct by stream hash.",
    "C06": "a case = a stream and a random history of 12-32 seeks and reads (chunk edges, forward, backward, past the end, huge indices), judged against a position model after every call. Distinct by stream hash.",
    "C07": "as C06 for the parallel decompressor, under pools of several sizes.",
    "C08": "a case = a file written once and reopened 1-4 times for appending with kept-point counts at, below and above what it holds; after every session the file is parsed by an independent reader, decoded sequentially and in parallel, and (fixed-size chunks) compared with the file written at once. Distinct by history hash.",
    "C09": "as C08 with the parallel appender in most sessions, sequential ones mixed in.",
    "C10": "a case = a stream whose chunk table is parsed independently and compared with the chunks that were written, each chunk then decoded alone. Distinct by stream hash.",
    "C13": "a case = a stream and a selection; every promised bit of every point is compared, sequentially, in parallel, by the whole-buffer function and after seeks. Non-trivial: layered layouts with something skipped.",
    "C14": "a case = a stream placed inside a larger file, every byte outside of it monitored. Distinct by stream hash and placement.",
    "C15": "a case = a stream and a job (compress, append, decompress, seek, whole-buffer, parallel ones included) run once to count its stream operations, then with one failing operation at chosen or every position, and with short and interrupted transfers. Distinct by stream hash.",
    "C16": "a case = a damaged or invented stream, table, record or file fed to every opener, reader, seeker and appender, with allocations and processor time limited per call. Distinct by hash of the bytes.",
    "C20": "a case = a stream whose table is cut off, overwritten, placed behind a position at the end, or unreachable by seeking, read to its last point. Distinct by stream hash and way of losing the table.",
    "C26": "a case = a stream cut at many lengths (every one for small streams), each remainder read to its end. Distinct by stream hash.",
    "C30": "a case = a stream with several chunks, one of them damaged, the others read by seeks in random order, sequentially and in parallel. Distinct by stream hash and damage.",
    "C31": "a case = a stream whose chunks are written and read by record codecs alone, each chunk's fields added by hand or from the items, calls split at random. Distinct by stream hash.",
    "C11": "a case = a chunk table (0 to 8000 entries, sizes and counts over the whole 32-bit range, fixed and variable) written, read back, parsed and re-encoded by an independent implementation, and truncated. Distinct by table hash.",
    "C12": "a case = a laszip record (every item list, version, chunk size, compressor, offset bytes) written and read back, read by an independent parser, or a record in bytes read and written back. Distinct by record hash.",
    "C21": "a case = a sequence of coder operations (bits, symbols of random alphabets and skews, raw bits, 8/16/32/64-bit integers, integer correctors of every width and context) written and read back, with carry-forcing runs. Distinct by sequence hash.",
    "C23": "a case = a typed point or a packed byte string of every point type and component, packed and unpacked, compared with an independent bit-level description of the format, accessors changed one at a time. Distinct by value hash.",
    "C27": "a case = an unsupported or impossible request (items, versions, mixes, compressors, buffer lengths, wrong kind of call) made to every entry point. Distinct by request.",
    "C28": "a case = a history with empty calls, empty chunks, no points at all or repeated ends. Distinct by history hash.",
    "C17": "a case = a workload of another property, or a writer or reader used on after errors and panics of its stream, the coder and its models with arbitrary arguments, fields with buffers and contexts that do not fit, codecs moved and swapped; under AddressSanitizer with the preconditions of unchecked operations armed, and (small ones) under Miri. Distinct by hash of the case's choices.",
    "C18": "a case = 2-5 threads or tasks, each with codecs of its own on its own or a shared stream, or one codec handed from thread to thread between calls; results compared with the frozen sequential implementation; the same under ThreadSanitizer, and (small ones) under Miri's race detector with one schedule per seed. Distinct by stream hashes; distinct orders of calls are counted.",
    "C19": "a case = a stream written by the frozen implementation and read by the current one, and the other way, byte for byte; recorded files; unchunked streams. Distinct by stream hash.",
    "C22": "a case = a generated LAS or LAZ file (format, size, extra bytes, other records, padding, chunking) read in a random mix of single and whole reads. Distinct by file hash.",
    "C29": "a case = a stream read beyond its last point by every entry point, then read again after a seek. Distinct by stream hash and overshoot.",
}

ASSUMPTIONS = [
    "the workload generator reaches the behaviours that matter: nothing is claimed about inputs, histories and schedules that were not executed",
    "the point layouts are those the library accepts: LAS formats 0-10 with item versions 1-4, and custom item orders for the pointwise compressor",
    "rustc, std, rayon, byteorder and num-traits behave as documented",
]

TECHNIQUE = {
    "C01": "runtime monitoring: round-trip oracle on generated and hostile point streams, overflow checks armed",
    "C02": "runtime monitoring: round-trip oracle on generated and hostile point streams, overflow checks armed",
    "C03": "runtime monitoring: differential oracle between call histories",
    "C04": "runtime monitoring: differential oracle parallel vs sequential under varied pools",
    "C05": "runtime monitoring: result oracle under varied pools and call histories",
    "C06": "runtime monitoring: online position model over seek/read histories",
    "C07": "runtime monitoring: online position model over seek/read histories",
    "C08": "runtime monitoring: executable file model over append histories",
    "C09": "runtime monitoring: executable file model over append histories",
    "C10": "runtime monitoring: independent parser as offline checker of the written stream",
    "C13": "runtime monitoring: field-wise oracle against the full points",
    "C14": "runtime monitoring: recorded I/O log against an access specification",
    "C15": "runtime monitoring: injected I/O faults, result oracle per failing operation",
    "C16": "runtime monitoring: hostile inputs under panic, allocation and time monitors",
    "C20": "runtime monitoring: result oracle on streams whose table was taken away",
    "C26": "runtime monitoring: crash-point enumeration with a prefix oracle",
    "C30": "runtime monitoring: damage injection with a per-chunk oracle",
    "C31": "runtime monitoring: differential oracle between bare record codecs and the stream writer",
    "C11": "runtime monitoring: round-trip oracle and independent table codec",
    "C12": "runtime monitoring: round-trip oracle and independent record parser",
    "C21": "runtime monitoring: round-trip oracle on coder operation sequences, overflow checks armed",
    "C23": "runtime monitoring: oracle of an independent bit-level description of the formats",
    "C27": "runtime monitoring: result oracle on refused requests, written bytes monitored",
    "C28": "runtime monitoring: result oracle on histories with empty steps",
    "C17": "runtime monitoring: AddressSanitizer, armed preconditions of unchecked operations, and Miri on hostile workloads",
    "C18": "runtime monitoring: ThreadSanitizer and Miri's race detector on parallel workloads, differential result oracle",
    "C19": "runtime monitoring: differential oracle against a frozen independent copy, recorded files",
    "C22": "runtime monitoring: result oracle on generated files",
    "C29": "runtime monitoring: result oracle on over-reads, panics and loops caught",
}
LEVEL = {}
NOTES = {}
