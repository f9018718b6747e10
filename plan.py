"""What each property's check runs: scenario binaries, build configurations, budgets, and what was real or simulated."""

GLOBAL_ASSUMPTIONS = [
    "x86-64 Linux, glibc, libstdc++, GNU g++ builds of /repo's sources; other platforms' branches are not compiled here",
    "interleavings are explored at sequential consistency; data races are found by happens-before on every instrumented access, so weak-memory effects show up as reported races rather than as executed reorderings",
    "seeded search: a clean run covers the schedules and faults it drew, it is not a proof",
]

REAL_CORE = "cpptrace library code compiled unmodified from /repo's working tree (instrumented with compiler access hooks), libstdc++, glibc string and formatting code"
STUB_OS = "threads' scheduling, mutexes and once-flags, malloc failures, descriptors, pipes, fork/exec/waitpid/poll, the addr2line helper process, files, /proc/self/maps, page protections, link-map lookups (simulated kernel, one process)"

def job(config, files, scenario, **kw):
    return dict(config=config, files=files if isinstance(files, list) else [files], scenario=scenario, **kw)

PROPS = {}

PROPS["C01"] = dict(
    jobs=[job("a2l", "resolve", "resolve_par", weight=3), job("a2e", "resolve", "resolve_par", weight=1), job("bt", "resolve", "resolve_par"), job("dl", "resolve", "resolve_par"),
          job("a2l", "mixed", "mixed_par", weight=3), job("a2e", "mixed", "mixed_par"), job("unw", "mixed", "mixed_par"), job("dl", "mixed", "mixed_par")],
    rule="One evaluation is one simulated execution of 2-4 threads from the very first call in the process, under one seeded schedule and fault sequence: either resolving traces, each frame compared with the reference model, or mixing 25 kinds of calls over all parts of the library on own and shared objects, each result compared with what the same call gives alone; all accesses are checked for data races and every wait for deadlock.",
    real=[REAL_CORE], stub=[STUB_OS],
)
PROPS["C02"] = dict(
    jobs=[job("a2l", "resolve", "resolve_seq", weight=3), job("a2e", "resolve", "resolve_seq", weight=1), job("bt", "resolve", "resolve_seq"), job("dl", "resolve", "resolve_seq")],
    rule="One evaluation is one simulated history of resolve calls under one seeded sequence of helper, pipe and process faults, each frame compared with the reference symbol model, followed by a recovery call with faults off.",
    real=[REAL_CORE], stub=[STUB_OS],
)
PROPS["C03"] = dict(
    jobs=[job("a2l", "resolve", "resolve_res", weight=3), job("a2e", "resolve", "resolve_res", weight=1), job("bt", "resolve", "resolve_res"), job("dl", "resolve", "resolve_res"), job("a2l", "mixed", "mixed_res", weight=2), job("a2e", "mixed", "mixed_res")],
    rule="One evaluation is one simulated history of succeeding, failing and throwing calls of all kinds (resolution alone, or 24 kinds of calls over all parts of the library), optionally next to an application thread that starts processes; descriptor table, child table and live heap blocks are compared before and after every call.",
    real=[REAL_CORE], stub=[STUB_OS],
)

PROPS["C10"] = dict(
    jobs=[job("a2l", "objinfo", "objinfo"), job("a2e", "objinfo", "objinfo", weight=2)],
    rule="One evaluation is one simulated history of loading and unloading modules into reused address ranges, cache-mode changes and object queries (ordinary and signal-safe, sequential and concurrent) under file and readlink faults; every answer is compared with the module table at that moment, and a final round with faults off must be exact.",
    real=[REAL_CORE, "the library's ELF reader on simulated files"], stub=[STUB_OS, "the dynamic linker's object table"],
)

PROPS["C11"] = dict(
    jobs=[job("a2l", "jit", "jit_seq"), job("a2l", "jit", "jit_par")],
    rule="One evaluation is one simulated history of registering, unregistering, clearing, replacing by the debugger-interface list and looking up in-memory objects (intact, malformed, big-endian, multi-section), sequentially under allocation failures or from 2-4 scheduled threads; every lookup is compared with a reference registry.",
    real=[REAL_CORE, "the JIT registry and the ELF reader on in-memory objects"], stub=[STUB_OS],
)
PROPS["C12"] = dict(
    jobs=[job("a2l", "elf", "elf")],
    rule="One evaluation is one generated object (either width and byte order, intact, truncated or with bytes changed) queried from a file or from guarded memory under open, seek, read and allocation faults; each answer is compared with an independent reader of the same bytes.",
    real=[REAL_CORE, "the ELF reader, file and memory views"], stub=[STUB_OS, "the object files' contents (generated)"],
)

PROPS["C15"] = dict(
    jobs=[job("a2l", "lru", "lru")],
    rule="One evaluation is one seeded history of inserts, sets, lookups, touches and capacity changes with allocations and element copies failing at seeded points; after each failure and at the end the whole cache, its order included, is compared with a reference list.",
    real=["utils/lru_cache.hpp compiled unmodified (instrumented), libstdc++ containers"], stub=["malloc failures, element copy failures"],
)
PROPS["C09"] = dict(
    jobs=[job("a2l", "snippet", "snippet")],
    rule="One evaluation is one seeded set of source files and a history of snippet requests (direct and through the formatter), sequentially under open, seek and read faults or from 2-3 scheduled threads; every output is parsed and each line number, text, mark, range and caret compared with the file.",
    real=[REAL_CORE, "std::ifstream"], stub=[STUB_OS, "source files (generated)"],
)

PROPS["C04"] = dict(
    jobs=[job("a2l", "current", "current", weight=2), job("unw", "current", "current"), job("a2l", "current", "current", plain=True)],
    rule="One evaluation is one seeded random program of nested calls, throws, rethrows (plain and cpptrace's), handlers, exceptions handed between threads and clears on 1-3 scheduled threads under allocation failures; in every handler the current exception's trace, rethrow trace and flag are compared with the harness's own backtrace of the throw point.",
    real=[REAL_CORE, "the platform's unwinder and C++ exception runtime"], stub=[STUB_OS],
)
PROPS["C05"] = dict(
    jobs=[job("a2l", "catch", "catch", weight=10), job("unw", "catch", "catch", weight=4), job("a2l", "catch", "catch", plain=True, weight=6), job("a2l", "catch", "catch_sibling", weight=1, count=60, maxviol=10**6)],
    rule="One evaluation is one seeded history of loading and unloading up to three libraries that use the try macros while mmap, mprotect, sysconf, allocation and reads of /proc/self/maps fail, and of random nests of wrapped handlers (51 handler types, 36 thrown types, macro, utility and plain) run against the same nests with plain try/catch; the event sequences must be equal and every page of the process keep its rights.",
    real=[REAL_CORE, "the C++ exception runtime, the dynamic linker, real page protections"], stub=["failures of mmap, mprotect, sysconf, malloc; contents and readability of /proc/self/maps (torn, truncated, empty, unparsable, short reads)"],
)

PROPS["C17"] = dict(
    jobs=[job("a2l", "capture", "capture", weight=3), job("unw", "capture", "capture", weight=2), job("a2e", "capture", "capture_nosig", weight=2), job("a2l", "capture", "capture", plain=True, weight=3), job("unw", "capture", "capture", plain=True, weight=2), job("a2e", "capture", "capture_nosig", plain=True, weight=2), job("a2e", "capture", "capture_execinfo", weight=1, count=40, maxviol=10**6)],
    rule="One evaluation is one seeded random call structure (recursion, virtual and library callbacks, destructors during unwinding, tail calls, signal handlers after a trap or raise, up to about 450 levels) on 1-3 scheduled threads, at whose points one of 24 entry points is called with seeded skip and limit under allocation failures; each trace is compared level by level with the harness's own unwind of the same function.",
    real=[REAL_CORE, "the platform's unwinders (libgcc, libunwind, glibc backtrace)"], stub=[STUB_OS],
)

PROPS["C13"] = dict(
    jobs=[job("a2l", "capi", "capi", weight=2), job("a2l", "capi", "capi_par"), job("unw", "capi", "capi"), job("a2e", "capi", "capi")],
    rule="One evaluation is one seeded history of ctrace_* calls (sequential under allocation, helper, pipe, process and file faults, or on 2-4 scheduled threads): every result is compared with what the C++ interface gives for the same input, no exception may cross the boundary, a failure must give the documented empty value, and every object is freed once with no block left over.",
    real=[REAL_CORE], stub=[STUB_OS],
)
PROPS["C14"] = dict(
    jobs=[job("a2l", "fmt", "fmt", weight=2), job("a2l", "fmt", "fmt_par")],
    rule="One evaluation is one seeded history of building, copying, moving, assigning and printing formatters (whole traces and single frames, to strings and streams whose sinks fail, with transforms and filters that throw, snippets over failing files, allocation failures; or one shared formatter on 2-4 scheduled threads); every text is compared with a reference rendering and stream state, colour state and formatter options must be unchanged.",
    real=[REAL_CORE], stub=[STUB_OS, "source files (generated)", "terminal detection"],
)

PROPS["C07"] = dict(
    jobs=[job("a2l", "exc", "exc", weight=2), job("a2l", "exc", "exc_par", weight=2), job("unw", "exc", "exc"), job("a2e", "exc", "exc_par")],
    rule="One evaluation is one seeded history of constructing, throwing, wrapping, copying, moving, assigning, handing over and querying traced exceptions of all 12 classes under allocation, helper, pipe, process and file faults, or of 2-3 scheduled threads querying and copying the same object; messages, codes, nested pointers, traces (compared with the harness's own unwind at construction) and texts are compared with a model and with earlier answers.",
    real=[REAL_CORE, "the C++ exception runtime"], stub=[STUB_OS],
)

PROPS["C08"] = dict(
    jobs=[job("a2l", "log", "log"), job("a2l", "log", "log_par", weight=2), job("unw", "log", "log_par")],
    rule="One evaluation is one seeded history of log callback, log level and absorption changes interleaved with succeeding and failing tracing calls (17 entry points, allocation, helper, pipe, process and file faults; callbacks that throw, replace themselves, trace or are slow), sequentially or on 2-4 scheduled threads; every message must reach a callback that was current during the call, every failure be reported once and leave the call exactly when absorption is off.",
    real=[REAL_CORE], stub=[STUB_OS, "the sink behind std::cerr"],
)

PROPS["C06"] = dict(
    jobs=[job("unw", "sig", "sig", weight=2), job("unw", "sig", "sig_par", weight=2), job("a2l", "sig", "sig"), job("unw", "sig", "sig", plain=True)],
    rule="One evaluation is one seeded history of 16 kinds of ordinary operations on 1-3 scheduled threads, each run undisturbed, then with a handler delivered at a seeded memory access of it (a nested call or a real signal) that captures with seeded buffer size, skip and limit and looks up objects, then undisturbed again; inside the handler every allocation, lock, buffered I/O, loader lock, write outside the stack and the given buffers and read of plainly written shared state is a violation, captures are compared with the harness's own unwind, stored frames resolve as the ordinary interface does, and the three results of the operation must agree.",
    real=[REAL_CORE, "libunwind and libgcc's unwinder (not instrumented)"], stub=[STUB_OS],
)

PROPS["C16"] = dict(
    jobs=[job("a2l", "term", "term", weight=3), job("unw", "term", "term", weight=2), job("a2e", "term", "term", weight=2), job("dl", "term", "term")],
    rule="One evaluation is one simulated death of the process: one of 13 ways to std::terminate (direct, in a handler, noexcept, uncaught, destructor, unmatched try macro, foreign exception, from a log callback or a formatter filter, handed-over exception) with one of 17 exception types at a seeded depth on 1-3 scheduled threads, with allocation, helper, pipe, process, file and standard-error failures starting when the handler is entered; at abort the type, message, trace and the number of steps taken are checked.",
    real=[REAL_CORE, "the C++ exception runtime"], stub=[STUB_OS, "the sinks behind stderr and std::cerr"],
)

NOT_APPLICABLE = {
    "C20": "prune_symbol/prettify_symbol are pure functions of their text with no thread, clock, I/O, randomness or fault for a simulator to control; deciding them is input generation, not simulation.",
    "C21": "demangling is a pure function over its input text; there is no schedule, fault or history for simulation to decide (its behaviour under allocation failure is exercised inside C08 and C13).",
    "C22": "what each formatting option changes is a pure function of options and trace; no nondeterminism is involved (the parts that do depend on sinks, callbacks and threads are C14).",
    "C23": "value-type algebra of nullable/optional/Result/span/string_view is pure and sequential; nothing is behind a seam that a simulator could vary.",
    "C24": "libdwarf, DbgHelp and Mach-O are not installed or not buildable in this sandbox, so the real code cannot be run under the simulator at all.",
}
