#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Tracing is safe from any number of threads",
  "Any number of threads may generate, resolve, print and format traces, query object information and fetch snippets at the same time, including the very first such call in the process: there is no data race, no deadlock, and every call completes. Each thread's result is exactly what the same call would have returned had it run alone; frames of one thread's trace never appear in, and are never lost because of, another thread's.",
  ["schedules","fault_sequences"],
  "every interleaving of 2-4 threads running mixed tracing operations (first use included), combined with a slow, failing or crashing symbol helper",
  "The unit tests trace from one thread at a time; they sample at most one accidental interleaving and never the first-use initialisation races or pipes inherited between concurrently forked helpers.",
  ["src/symbols/symbols_with_addr2line.cpp","src/binary/module_base.cpp","src/binary/elf.cpp","src/snippets/snippet.cpp","src/formatting.cpp","src/cpptrace.cpp","src/options.cpp"],
  [("mutex around the helper-available probe","src/symbols/symbols_with_addr2line.cpp has_addr2line"),("mutex around module base cache","src/binary/module_base.cpp get_module_image_base"),("mutex around ELF cache","src/binary/elf.cpp open_elf_cached"),("mutex around snippet cache","src/snippets/snippet.cpp get_manager"),("per-call pipes and child process","src/symbols/symbols_with_addr2line.cpp resolve_addresses")],
  [("has_addr2line/checked","whether the helper works, probed once","src/symbols/symbols_with_addr2line.cpp"),("cache maps","path -> parsed object / base / source text","module_base.cpp, elf.cpp, snippet.cpp")],
  ["raw_trace::resolve","stacktrace::current","object_trace::current","get_snippet","formatter::format"])

p("C02","Symbol resolution is aligned, never wrong, and degrades under faults",
  "Resolving a raw or object trace yields exactly one frame per input address, in input order, each carrying its own raw and object address, and its symbol, file and line are either exactly those the debug-information helper reports for that address in that object or are left unresolved. This holds when the helper is missing, cannot be started, dies part-way, is slow, or the operating system interrupts, splits or fails its reads and writes, and for traces of any length; such a failure never hangs, crashes or throws (with absorption on), leaves other objects' frames resolved, and does not disable resolution for later calls once the fault has gone.",
  ["fault_sequences","inputs","schedules"],
  "every sequence of faults on pipe, fork, exec, read, write and wait and every way the helper can die or stall, over traces of 0 to several thousand frames spread over any mix of resolvable, unresolvable and unmapped objects",
  "Tests run a healthy /usr/bin/addr2line on short traces of one binary; no system call ever fails, no helper ever dies and no trace exceeds a pipe buffer.",
  ["src/symbols/symbols_with_addr2line.cpp","src/symbols/symbols_core.cpp","src/cpptrace.cpp","src/utils/error.cpp","src/symbols/symbols_with_dl.cpp"],
  [("collate frames by object","src/symbols/symbols_core.cpp collate_frames"),("batch query and line-by-line update","src/symbols/symbols_with_addr2line.cpp resolve_frames, update_trace"),("count check before attributing output","VERIFY(output.size() == entries_vec.size())"),("absorb and log errors","src/utils/error.cpp log_and_maybe_propagate_exception")],
  [("helper pipes","addresses out, one answer line per address in","resolve_addresses")],
  ["raw_trace::resolve","object_trace::resolve","generate_trace"])

p("C03","Tracing leaks no descriptors, processes or memory, even on failure",
  "After any tracing, resolution, object-information or snippet call has returned or thrown, the process has exactly the open file descriptors and child processes (zombies included) it had before (object files the documented cache keeps open count once each, and not with cache mode prioritize_memory), and repeating the same call, successful or failing, does not keep growing memory. No pipe created by the library is left open in a process that another part of the application starts while the call runs.",
  ["fault_sequences","histories","schedules"],
  "every point at which a system call, stream operation or allocation made by the call can fail, and every history of repeated successful and failing calls",
  "Tests never count descriptors or children, never make a call fail part-way, and end too soon for a leak to matter.",
  ["src/symbols/symbols_with_addr2line.cpp","src/utils/io/file.hpp","src/binary/elf.cpp","src/snippets/snippet.cpp","src/ctrace.cpp"],
  [("close of pipe ends and waitpid","src/symbols/symbols_with_addr2line.cpp resolve_addresses"),("RAII file handles","src/utils/io/file.hpp"),("caches keyed by path","elf.cpp, module_base.cpp, snippet.cpp")],
  None,["raw_trace::resolve","object_trace::current","get_snippet"])

p("C04","Traces from current exceptions belong to that exception and thread",
  "Inside a handler of CPPTRACE_TRY/CPPTRACE_CATCH or cpptrace::try_catch, from_current_exception (raw or resolved) reports the stack from the throw point of the exception most recently seen by such a handler on this thread, and after cpptrace::rethrow it still reports the original throw point while the rethrow trace reports the rethrow point and current_exception_was_rethrown is true; a fresh exception resets it to false and empties the rethrow trace. This is true for any nesting and sequence of throws, catches, rethrows and clears, whatever other threads are doing; if a trace cannot be captured it is empty, never another exception's.",
  ["histories","schedules","fault_sequences"],
  "every history of throw, catch, rethrow (with or without exception_ptr), nested try, non-matching handler, thread hand-over of exception_ptr and clear, on several threads, with allocation failures during capture",
  "Tests run a dozen fixed throw/catch programs on one thread; nested, interleaved, cross-thread and failing-capture histories are not reached.",
  ["src/from_current.cpp","src/exceptions.cpp","include/cpptrace/from_current.hpp","include/cpptrace/from_current_macros.hpp"],
  [("thread-local current and rethrow trace holders","src/from_current.cpp current_exception_trace, saved_rethrow_trace"),("rethrow switch set in rethrow() and cleared by unwinding","src/from_current.cpp setup_rethrow, rethrow_scope_cleanup"),("lazy resolve","src/exceptions.cpp lazy_trace_holder")],
  [("rethrow_switch","true while rethrow() is searching for a handler","get_rethrow_switch")],
  ["from_current_exception","raw_trace_from_current_exception","current_exception_was_rethrown"])

p("C05","Trace interception never changes which handler catches or memory rights",
  "Wrapping code in CPPTRACE_TRY/CPPTRACE_CATCH selects exactly the handler that plain try/catch would select for every thrown type (base, derived, pointer, reference, const, non-class, catch-all), and an exception no wrapped handler matches propagates untouched. Preparing interception leaves every memory page with the access rights it had before and leaves nothing writable that was not; if preparation fails at any point (no memory, refused protection change, unreadable or torn memory map) the program still starts, handlers still catch correctly, and only traces are missing; likewise when capturing a trace fails while an exception is thrown, whether internal exceptions are absorbed or not.",
  ["fault_sequences","inputs","programs"],
  "every thrown type x handler type pairing, every order of first use, and every failure of the memory-mapping, protection-change and memory-map-reading calls made while preparing",
  "Tests have a handful of types, run after all preparation succeeded at start-up, and never check page protections or make a preparation call fail.",
  ["src/from_current.cpp","src/platform/memory_mapping.cpp","include/cpptrace/from_current.hpp","include/cpptrace/from_current_macros.hpp"],
  [("private read-only copy of the type_info vtable","src/from_current.cpp perform_typeinfo_surgery"),("/proc/self/maps lookup of old protections with retry on tears","src/platform/memory_mapping.cpp"),("errors logged, not thrown","do_prepare_unwind_interceptor")],
  [("regions","cached memory map","src/platform/memory_mapping.cpp load_mapped_region_info")],
  ["CPPTRACE_TRY","CPPTRACE_CATCH","mprotect"])

p("C06","Signal-safe tracing works at any interrupted instant",
  "safe_generate_raw_trace and get_safe_object_frame, called from a handler that interrupts any thread at any instruction of library code, neither allocate, lock, use stdio nor touch library shared state, write only inside the buffers they are given, and do not disturb the interrupted operation. The addresses stored are those of the interrupted stack after skipping the requested frames, limited by buffer size and max_depth, and resolving the stored object frames later gives the same object and address as the ordinary interface.",
  ["schedules","crash_points","inputs"],
  "every instant at which a signal can interrupt a thread inside or outside the library, every skip, size and max_depth, and object paths of every length",
  "The demo and tests call the safe interface from ordinary code with one buffer size; the interrupted instants inside the library are never enumerated.",
  ["src/unwind/unwind_with_libunwind.cpp","src/binary/safe_dl.cpp","src/cpptrace.cpp","src/binary/object.cpp"],
  [("libunwind local cursor, no allocation","src/unwind/unwind_with_libunwind.cpp safe_capture_frames"),("_dl_find_object and readlink only","src/binary/safe_dl.cpp get_safe_object_frame")],
  None,["safe_generate_raw_trace","get_safe_object_frame","safe_object_frame::resolve"])

p("C07","Traced exception objects stay truthful under copies, threads and faults",
  "A cpptrace exception's trace() is the stack of its construction point, its message() is the text given (for nested exceptions the wrapped exception's text, for system errors the text plus the error's description and code()), and what() is the message followed by the printed trace; every query is repeatable and returned references stay valid and unchanged for the object's life. Copies, moves, assignments (self-assignment included), exception_ptr hand-over and concurrent queries of one object from several threads preserve this, and a resolution or capture failure costs only the trace, never the message, the program or other objects.",
  ["histories","schedules","fault_sequences"],
  "every history of construct, copy, assign, move, throw, rethrow_and_wrap, query on several threads sharing the object, with resolver and allocation faults",
  "Tests construct and print a few exceptions once on one thread with everything succeeding.",
  ["src/exceptions.cpp","include/cpptrace/exceptions.hpp","include/cpptrace/exceptions_macros.hpp"],
  [("lazy trace holder resolved at most once","src/exceptions.cpp lazy_trace_holder"),("cached what string","lazy_exception::what"),("capture errors absorbed","get_raw_trace_and_absorb")],
  [("trace_holder","raw until first query, then resolved","include/cpptrace/exceptions.hpp")],
  ["exception::what","exception::trace","exception::message"])

p("C08","Errors are reported and absorbed or propagated exactly as configured",
  "With absorption on (the default) no tracing call lets an exception escape and each internal failure is reported once to the configured log callback at error level, respecting the log level; with absorption off the failure propagates to the caller. Setting the log level, callback or absorption from any thread at any time takes effect for later failures without losing, duplicating or corrupting messages, and a message is always delivered to either the old or the new callback.",
  ["histories","schedules","fault_sequences"],
  "every history of configuration changes interleaved with failing and succeeding tracing calls on several threads",
  "Tests never make a tracing call fail and never change configuration while another thread is tracing.",
  ["src/utils/error.cpp","src/logging.cpp","src/options.cpp","src/cpptrace.cpp"],
  [("log_and_maybe_propagate_exception","src/utils/error.cpp"),("atomic options","src/options.cpp"),("log callback object","src/logging.cpp log_callback")],
  [("current_log_level, absorb_trace_exceptions, log callback","process-wide configuration","logging.cpp, options.cpp")],
  ["set_log_callback","set_log_level","absorb_trace_exceptions"])

p("C09","Source snippets show the true lines or nothing",
  "A snippet shows the requested source line marked, surrounded by up to the requested number of neighbouring lines (leading and trailing blank ones trimmed), each with its true line number and exact text, and a column caret under the right column when given. If the file is missing, unreadable, too large, shorter than the requested line, or its open, seek or read fails or is cut short, the result is empty or only true lines, never an exception, crash, or invented text; the answer for a path never depends on what other paths or threads asked for before.",
  ["inputs","fault_sequences","histories","schedules"],
  "every file content (empty, CRLF, no final newline, blank runs), line, column and context size, every history of requests, and every stream fault while loading",
  "Tests ask for a few lines of one healthy source file.",
  ["src/snippets/snippet.cpp","src/utils.cpp","src/formatting.cpp"],
  [("line table built from loaded contents","src/snippets/snippet.cpp build_line_table"),("per-path cache under mutex","get_manager"),("bounds and blank trimming","get_lines")],
  [("snippet_managers","path -> contents","src/snippets/snippet.cpp")],
  ["get_snippet","stacktrace::print_with_snippets"])

p("C10","Object information matches the module that was mapped",
  "For every address, object information (object_trace, get_object_info, get_safe_object_frame and its resolve) reports the file of the module mapped there at that moment and the address translated into that file's own address space, or, when nothing is mapped or the object cannot be read, address zero and possibly an empty path (never a wrong address), always in input order and with the raw address preserved. Loading and unloading modules, address ranges reused by another module, the executable itself, objects with non-zero preferred base, failing or truncated object files, and the selected cache mode never change that.",
  ["histories","fault_sequences","inputs","configurations"],
  "every history of module loads, unloads and address reuse interleaved with queries, all cache modes, and every failure reading the executable link or the object file",
  "Tests query a few addresses of the running binary with fixed modules and readable files.",
  ["src/binary/object.cpp","src/binary/safe_dl.cpp","src/binary/module_base.cpp","src/binary/elf.cpp","src/symbols/symbols_with_dl.cpp"],
  [("_dl_find_object / dladdr1 / dladdr lookup","src/binary/object.cpp get_frame_object_info"),("image base from program headers, cached by path","src/binary/module_base.cpp"),("executable path from /proc/self/exe","resolve_l_name")],
  [("module base cache, ELF cache","path -> base","module_base.cpp, elf.cpp")],
  ["raw_trace::resolve_object_trace","stacktrace_frame::get_object_info","get_safe_object_frame"])

p("C11","JIT object registry tracks registrations exactly",
  "After any history of registering, unregistering and clearing in-memory objects, an address lookup finds an object exactly when the address lies in the code range of a currently registered object, and then finds that object; malformed objects and failed registrations change nothing. Nothing belonging to an unregistered object is ever read afterwards, and unregistering something unknown is harmless.",
  ["histories","fault_sequences","inputs"],
  "every history of register, unregister, clear and lookup over overlapping lifetimes and adjacent ranges, with malformed images and failing allocations",
  "No test uses the registry beyond one register-and-trace demo that needs a back-end not built here.",
  ["src/jit/jit_objects.cpp","src/binary/elf.cpp","include/cpptrace/gdb_jit.hpp"],
  [("sorted range list and owned object list","src/jit/jit_objects.cpp jit_object_manager"),("code range from section headers","src/binary/elf.cpp get_pc_ranges")],
  [("objects, range_list","registered images and their code ranges","src/jit/jit_objects.cpp")],
  ["register_jit_object","unregister_jit_object","clear_all_jit_objects"])

p("C12","Object files are read correctly or rejected, never misread",
  "Reading an object file or in-memory image (32/64-bit, either byte order) yields exactly the image base, code ranges and symbol-for-address answers its headers and tables describe. When reads fail, come back short, or the file is truncated or has any bytes corrupted, the reader returns an error or a defined answer: it never reads outside the file's data, crashes, hangs, throws out of the tracing call or allocates absurdly, and a failed part does not poison unrelated parts or objects.",
  ["inputs","fault_sequences","histories"],
  "every well-formed small image in both widths and byte orders, every truncation point, stored-byte corruption and read-fault position, and every order of queries",
  "Tests only ever parse the healthy 64-bit little-endian binaries of the build.",
  ["src/binary/elf.cpp","src/utils/io/file.hpp","src/utils/io/memory_file_view.hpp","src/utils/io/base_file.hpp"],
  [("checked reads returning Result","src/utils/io/base_file.hpp, file.hpp, memory_file_view.hpp"),("byte swapping","src/binary/elf.cpp byteswap_if_needed"),("tried_to_load flags","src/binary/elf.cpp")],
  None,["object_trace","register_jit_object"])

p("C13","The C interface mirrors the C++ one and never lets an exception out",
  "Every ctrace_* function gives the same addresses, frames, text and object information as its C++ counterpart for the same stack, returns owned memory that the matching free function releases exactly once and completely (null and already-empty inputs included), and never lets a C++ exception escape or terminate the caller. When memory or the resolver fails it returns the documented empty/null result and leaks nothing.",
  ["fault_sequences","histories","inputs"],
  "every sequence of C calls with every allocation or resolver failure position, every skip/max_depth and empty or null argument",
  "One C test prints a trace once; no allocation ever fails and no results are freed twice or compared with the C++ interface.",
  ["src/ctrace.cpp","include/ctrace/ctrace.h"],
  [("owning strings and C arrays","src/ctrace.cpp generate_owning_string, c_convert"),("free functions","ctrace_free_*"),("try/catch around entry points","src/ctrace.cpp")],
  None,["ctrace_generate_trace","ctrace_resolve_raw_trace","ctrace_stacktrace_to_string"])

p("C14","Formatting is consistent across sinks, threads and sink failures",
  "For one formatter configuration and trace, the string, stream, FILE* and default-output forms produce the same bytes, and calls on formatters and copies of formatters shared by several threads each produce exactly the bytes they would alone. User filter and transform callbacks see each frame in order exactly once and may throw or sinks may fail at any byte without corrupting the formatter, later output, or leaking; output already written is a prefix of the full text.",
  ["schedules","fault_sequences","histories"],
  "every formatter option combination, interleavings of threads sharing formatters and the lazily created defaults, and every sink or callback failure point",
  "Tests compare fixed strings from one thread, and no sink or callback ever fails.",
  ["src/formatting.cpp","include/cpptrace/formatting.hpp","src/cpptrace.cpp"],
  [("immutable pimpl options after set-up, deep copies","src/formatting.cpp formatter::impl"),("function-local static defaults","get_default_formatter, get_default_snippet_formatter")],
  None,["formatter::format","formatter::print","stacktrace::to_string"])

p("C15","Bounded cache behaves like its model under any history and fault",
  "For every history of inserts, lookups, touches and capacity changes, the least-recently-used cache returns exactly the value last inserted for a key still present, holds at most its capacity, and evicts the least recently used key first. A failed insertion (allocation or copy failure) leaves the cache usable with its earlier contents.",
  ["histories","fault_sequences"],
  "every operation history over a small key space, with an allocation or element copy failing at any point",
  "Unit tests have a few fixed sequences and nothing ever fails.",
  ["src/utils/lru_cache.hpp"],
  [("list plus hash map of list iterators","src/utils/lru_cache.hpp")],
  None,["detail::lru_cache"])

p("C16","The terminate handler always reports and aborts",
  "When the registered terminate handler runs, with no exception, a standard, foreign or cpptrace exception active, on any thread, it writes the exception's type and message and a trace of the failing stack to standard error and then aborts. This holds when symbol resolution, allocation or the standard-error sink fails on the way: the process still aborts promptly, with at least the type and message whenever standard error works.",
  ["fault_sequences","inputs","schedules"],
  "every kind of active exception and every failing allocation, helper or write while the handler runs, on main and other threads",
  "No unit test runs the handler, since it ends the process.",
  ["src/utils.cpp","src/formatting.cpp","src/exceptions.cpp"],
  [("terminate_handler","src/utils.cpp"),("print_terminate_trace","src/utils.cpp")],
  None,["register_terminate_handler","std::terminate"])

p("C17","Captured traces are the true stack, exactly skipped and limited",
  "generate_raw_trace, generate_object_trace, generate_trace, the ::current functions and the tracing C and exception interfaces return, for the calling thread, the call stack from the caller inwards to outwards: after skip frames of the caller's own, at most max_depth of them, every address lying inside the calling instruction of that stack level, none missing, none repeated and none from the library itself. This holds from any call depth, recursion, thread, destructor during unwinding, callback or signal handler; a skip beyond the stack gives an empty trace, and an allocation failure gives an empty trace, not a partial or foreign one.",
  ["programs","schedules","fault_sequences","configurations"],
  "every call-chain shape and depth, entry point, skip and max_depth (zero and maximum included), on every built unwinder, under thread interleavings and capture-time allocation failures",
  "Tests check a few fixed stacks with small skips.",
  ["src/cpptrace.cpp","src/unwind/unwind_with_unwind.cpp","src/unwind/unwind_with_libunwind.cpp","src/unwind/unwind_with_execinfo.cpp","src/exceptions.cpp","src/ctrace.cpp"],
  [("skip+1 in every non-inlined forwarding function","src/cpptrace.cpp"),("capture_frames","src/unwind/*"),("try/catch blocking tail calls","src/cpptrace.cpp")],
  None,["generate_raw_trace","stacktrace::current","raw_trace::current"])

# properties that this technique does not address
p("C20","Symbol pruning and prettifying preserve the function's identity",
  "Pruning a demangled symbol removes exactly template arguments, parameter lists and qualifiers and keeps the function's name path; prettifying only replaces known long spellings; malformed input is returned unchanged and never crashes.",
  ["inputs"],"every string","Tests sample symbol spellings.",
  ["src/prune_symbol.cpp","src/formatting.cpp"],[("tokenizer and parser","src/prune_symbol.cpp")])
p("C21","Demangling is exact or the identity",
  "Demangling returns the ABI demangler's text for a valid mangled name, keeping any suffix after a space, and the input unchanged otherwise.",
  ["inputs"],"every string","Tests sample names.",["src/demangle/demangle_with_cxxabi.cpp"],[("__cxa_demangle wrapper","src/demangle/demangle_with_cxxabi.cpp")])
p("C22","Each formatting option changes exactly what it names",
  "Header, colour, address, path, snippet, column, symbol, break and filter options each alter only the part of the text they name.",
  ["inputs","configurations"],"every option combination and frame","Tests sample options.",["src/formatting.cpp"],[("formatter::impl","src/formatting.cpp")])
p("C23","Utility value types behave like their standard models",
  "nullable, optional, Result, span and string_view behave as the standard vocabulary types they stand in for.",
  ["inputs"],"every value and operation","Tests sample values.",["src/utils/optional.hpp","src/utils/result.hpp","src/utils/span.hpp","src/utils/string_view.hpp","include/cpptrace/basic.hpp"],[("value semantics","src/utils/*.hpp")])
p("C24","The libdwarf, dbghelp and Mach-O back-ends resolve correctly",
  "The DWARF, DbgHelp and Mach-O back-ends resolve frames, inlined calls and caches consistently with C02.",
  ["inputs","configurations"],"every object and address on those platforms","They are not built in this environment.",["src/symbols/symbols_with_libdwarf.cpp","src/symbols/dwarf","src/symbols/symbols_with_dbghelp.cpp","src/binary/mach-o.cpp","src/binary/pe.cpp"],[("back-end resolvers","src/symbols")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
