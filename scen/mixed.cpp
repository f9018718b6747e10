// C01: all parts of the library used at once from 2-4 threads, from the very first call of the process; each call must
// give what it gives when it runs alone
#include "common.hpp"
#include <cpptrace/exceptions.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/utils.hpp>
#include <ctrace/ctrace.h>
#include <sstream>
using namespace sim;
using namespace u;
namespace {
using F = cpptrace::formatter;
std::vector<std::string>* sources;
struct Shared { cpptrace::raw_trace* raw = nullptr; cpptrace::object_trace* obj = nullptr; cpptrace::stacktrace* st = nullptr; const F* fm = nullptr; const cpptrace::runtime_error* ex = nullptr; };
Shared sh;
void put(std::string& d, const std::string& s) { Harness h; d.append(s.data(), s.size()); d += '\n'; }
void put(std::string& d, const char* s) { Harness h; d += s; d += '\n'; }
void put_trace(std::string& d, const cpptrace::stacktrace& t) { Harness h; for(auto& f : t.frames) d += fmt("%lx %lx '%s' '%s' %ld %d\n", long(f.raw_address), long(f.object_address), f.symbol.c_str(), f.filename.c_str(), f.line.has_value() ? long(f.line.value()) : -1, f.is_inline); }
void put_objs(std::string& d, const cpptrace::object_trace& t) { Harness h; for(auto& f : t.frames) d += fmt("%lx %lx '%s'\n", long(f.raw_address), long(f.object_address), f.object_path.c_str()); }
void put_raw(std::string& d, const std::vector<cpptrace::frame_ptr>& t) { Harness h; for(auto f : t) d += fmt("%lx\n", long(f)); }
struct Thrown { int v; };
__attribute__((noinline)) void throw_it(int v) { Sut s; if(v >= 0) throw Thrown{v}; }
cpptrace::stacktrace some_trace(Rng& r) {
    cpptrace::stacktrace t;
    for(long n = r.range(0, 8); n > 0; n--) {
        cpptrace::stacktrace_frame f{}; f.raw_address = uintptr_t(4096 + r.below(100000)); f.object_address = f.raw_address & 0xfff;
        f.symbol = r.chance(1, 8) ? "" : r.chance(1, 3) ? fmt("std::vector<ns::t%ld, std::allocator<ns::t%ld> >::f(std::basic_string<char, std::char_traits<char>, std::allocator<char> >)", n, n) : fmt("fn%ld(int) [clone .cold]", r.below(99));
        f.filename = r.chance(1, 3) ? "/nowhere/x.cpp" : r.pick(*sources);
        if(r.chance(5, 6)) f.line = uint32_t(r.range(1, 12));
        if(r.chance(1, 3)) f.column = uint32_t(r.range(1, 9));
        f.is_inline = r.chance(1, 6); t.frames.push_back(f);
    }
    return t;
}
void shape(F& f, Rng& r) {   // under Sut
    if(r.chance(1, 3)) f.header("a header of this thread");
    if(r.chance(1, 2)) f.colors(r.chance(1, 2) ? F::color_mode::always : F::color_mode::none);
    if(r.chance(1, 3)) f.addresses(r.chance(1, 2) ? F::address_mode::object : F::address_mode::none);
    if(r.chance(1, 3)) f.paths(F::path_mode::basename);
    if(r.chance(2, 3)) f.snippets(true);
    if(r.chance(1, 3)) f.snippet_context(int(r.below(4)));
    if(r.chance(1, 2)) f.symbols(r.chance(1, 2) ? F::symbol_mode::pretty : F::symbol_mode::pruned);
    if(r.chance(1, 4)) f.break_before_filename(true);
    if(r.chance(1, 4)) f.columns(false);
    if(r.chance(1, 4)) f.filter([](const cpptrace::stacktrace_frame& x) { return x.raw_address % 3 != 0; });
    if(r.chance(1, 4)) f.transform([](cpptrace::stacktrace_frame x) { x.symbol += "()"; return x; });
}
enum { RESOLVE, OBJECTS, OBJRESOLVE, OBJINFO, STACK, RAWSTACK, OBJSTACK, EXC, WRAP, FORMAT, FORMAT1, DEFAULT, STREAM, SNIPPET, CATCH, CTRACE, CSTACK, SAFEOBJ, SYMBOLS, SH_RESOLVE, SH_PRINT, SH_FORMAT, SH_EXC, SETTINGS, SELFSTACK, kOps };
__attribute__((noinline)) void traced_throw(long k) { Sut s; if(k % 3 == 0) throw cpptrace::runtime_error("a message that does not fit into the object itself"); if(k % 3 == 1) throw cpptrace::system_error(2, "the file"); throw cpptrace::out_of_range(std::string("out")); }
// op: thread, kind, seed
__attribute__((noinline)) void operation(const Op& op, std::string& d) {
    Rng r{uint64_t(op[2])};
    auto in = frames(r.next(), r.range(0, 7)); long k = r.below(1000);
    try { switch(op[1]) {
        case RESOLVE: { cpptrace::raw_trace rt; rt.frames = in; Sut s; auto st = rt.resolve(); put_trace(d, st); break; }
        case OBJECTS: { cpptrace::raw_trace rt; rt.frames = in; Sut s; auto ot = rt.resolve_object_trace(); put_objs(d, ot); break; }
        case OBJRESOLVE: { cpptrace::raw_trace rt; rt.frames = in; Sut s; auto ot = rt.resolve_object_trace(); auto st = ot.resolve(); put_trace(d, st); break; }
        case OBJINFO: { for(auto a : in) { cpptrace::stacktrace_frame f{}; f.raw_address = a; Sut s; auto o = f.get_object_info(); put(d, fmt("%lx %s", long(o.object_address), o.object_path.c_str())); } break; }
        case STACK: { Sut s; auto t = cpptrace::generate_trace(size_t(k % 3), 4); put_trace(d, t); break; }
        case RAWSTACK: { Sut s; auto t = cpptrace::generate_raw_trace(size_t(k % 3), size_t(r.range(0, 8))); put_raw(d, t.frames); break; }
        case OBJSTACK: { Sut s; auto t = cpptrace::generate_object_trace(size_t(k % 3), size_t(r.range(0, 8))); put_objs(d, t); break; }
        case SELFSTACK: { Sut s; auto t = cpptrace::stacktrace::current(0, 3); auto x = t.to_string(); put(d, x); break; }
        case EXC: { Sut s; try { traced_throw(k); } catch(const cpptrace::exception& e) { put(d, e.message()); if(k % 2) { const char* w = e.what(); Harness h; std::string ws(w); d += ws.substr(0, ws.find('\n')) + "\n"; } } break; }
        case WRAP: { Sut s; try { try { if(k % 2) throw std::runtime_error("an inner text that is long enough"); else throw 5; } catch(...) { cpptrace::rethrow_and_wrap_if_needed(); } } catch(const cpptrace::exception& e) { put(d, e.message()); } catch(int v) { put(d, fmt("int %d", v)); } break; }
        case FORMAT: { auto t = some_trace(r); Sut s; F f; shape(f, r); auto o = f.format(t); put(d, o); F g(f); shape(g, r); std::ostringstream ss; g.print(ss, t); put(d, ss.str()); break; }
        case FORMAT1: { auto t = some_trace(r); Sut s; F f; shape(f, r); for(auto& x : t.frames) { auto o = f.format(x); put(d, o); } break; }
        case DEFAULT: { auto t = some_trace(r); Sut s; auto o = cpptrace::get_default_formatter().format(t); put(d, o); o = t.to_string(k % 2); put(d, o); F f(cpptrace::get_default_formatter()); shape(f, r); o = f.format(t); put(d, o); break; }
        case STREAM: { auto t = some_trace(r); Sut s; std::ostringstream ss; ss << t; for(auto& x : t.frames) ss << x; t.print(ss); t.print(ss, k % 2); t.print_with_snippets(ss, k % 3 == 0); for(auto& x : t.frames) { auto o = x.to_string(); ss << o; } put(d, ss.str()); break; }
        case SNIPPET: { for(long i = r.range(1, 4); i > 0; i--) { auto& f = r.pick(*sources); Sut s; auto o = r.chance(1, 3) ? cpptrace::get_snippet(f, size_t(r.range(0, 14)), uint32_t(r.range(1, 5)), size_t(r.below(4)), false) : cpptrace::get_snippet(f, size_t(r.range(0, 14)), size_t(r.below(4)), r.chance(1, 2)); put(d, o); } break; }
        case CATCH: {
            Sut s; bool caught = false;
            CPPTRACE_TRY { throw_it(int(k % 5) - 1); } CPPTRACE_CATCH(const Thrown& e) { caught = true; auto& t = cpptrace::raw_trace_from_current_exception(); put_raw(d, t.frames); if(k % 4 == 2) { auto& st = cpptrace::from_current_exception(); put_trace(d, st); } put(d, fmt("%d %d", e.v, cpptrace::current_exception_was_rethrown())); }
            put(d, caught ? "caught" : "nothing"); break;
        }
        case CTRACE: {
            ctrace_raw_trace rt{in.data(), in.size()}; Sut s;
            auto ot = ctrace_resolve_raw_trace_to_object_trace(&rt); { Harness h; for(size_t i = 0; i < ot.count; i++) d += fmt("%lx %lx %s\n", long(ot.frames[i].raw_address), long(ot.frames[i].obj_address), ot.frames[i].obj_path); }
            auto st = k % 2 ? ctrace_resolve_raw_trace(&rt) : ctrace_resolve_object_trace(&ot); { Harness h; for(size_t i = 0; i < st.count; i++) d += fmt("%s %s %u\n", st.frames[i].symbol, st.frames[i].filename, st.frames[i].line); }
            auto tx = ctrace_stacktrace_to_string(&st, k % 3 == 0); if(tx.data) put(d, tx.data); ctrace_free_owning_string(&tx);
            ctrace_free_stacktrace(&st); ctrace_free_object_trace(&ot);
            auto str = ctrace_demangle("_ZN3foo3barEi"); if(str.data) put(d, str.data); ctrace_free_owning_string(&str); break;
        }
        case CSTACK: { Sut s; auto t = ctrace_generate_raw_trace(size_t(k % 3), 5); { Harness h; for(size_t i = 0; i < t.count; i++) d += fmt("%lx\n", long(t.frames[i])); } ctrace_free_raw_trace(&t); break; }
        case SAFEOBJ: { for(auto a : in) { cpptrace::safe_object_frame f; Sut s; cpptrace::get_safe_object_frame(a, &f); auto o = f.resolve(); put(d, fmt("%lx %s", long(o.object_address), o.object_path.c_str())); } break; }
        case SYMBOLS: { Sut s; auto o = cpptrace::demangle(k % 2 ? "_ZNSt6vectorIiSaIiEE9push_backEOi" : "_ZN4base3fooISsEEvT_"); put(d, o); o = cpptrace::prune_symbol(o); put(d, o); o = cpptrace::prettify_symbol(k % 3 ? "std::basic_string<char, std::char_traits<char>, std::allocator<char> >" : "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > (anonymous namespace)::f<std::vector<int, std::allocator<int> > >()"); put(d, o); put(d, cpptrace::basename("/a/b.c")); put(d, cpptrace::to_string(cpptrace::log_level::error)); put(d, cpptrace::isatty(1) ? "tty" : "no tty"); break; }
        case SH_RESOLVE: { if(!sh.raw) break; Sut s; if(k % 3) { auto t = sh.raw->resolve(); put_trace(d, t); } else { auto t = sh.obj->resolve(); put_trace(d, t); } auto o = sh.raw->resolve_object_trace(); put_objs(d, o); break; }
        case SH_PRINT: { if(!sh.st) break; Sut s; std::ostringstream ss; sh.st->print(ss, k % 2); sh.st->print_with_snippets(ss); ss << *sh.st; for(auto& f : sh.st->frames) { auto o = f.get_object_info(); ss << o.object_path << f.to_string(); } auto c = *sh.st; auto o = c.to_string(); ss << o; put(d, ss.str()); break; }
        case SH_FORMAT: { if(!sh.fm) break; auto t = some_trace(r); Sut s; auto o = sh.fm->format(t); put(d, o); F c(*sh.fm); shape(c, r); o = c.format(t); put(d, o); for(auto& x : t.frames) { o = sh.fm->format(x, k % 2); put(d, o); } o = sh.fm->format(*sh.st); put(d, o); break; }
        case SH_EXC: { if(!sh.ex) break; Sut s; const char* m = sh.ex->message(); put(d, m); if(k % 4 == 0) { cpptrace::runtime_error c(*sh.ex); put_trace(d, c.trace()); } else if(k % 4 == 1) put_trace(d, sh.ex->trace()); else if(k % 4 == 2) { const char* w = sh.ex->what(); put(d, w); } break; }
        case SETTINGS: {   // changes that may not change what anybody else gets
            Sut s; switch(k % 5) { case 0: cpptrace::absorb_trace_exceptions(true); break; case 1: cpptrace::enable_inlined_call_resolution(k % 2); break; case 2: cpptrace::experimental::set_cache_mode(k % 3 == 0 ? cpptrace::cache_mode::prioritize_memory : k % 3 == 1 ? cpptrace::cache_mode::hybrid : cpptrace::cache_mode::prioritize_speed); break; case 3: cpptrace::experimental::set_dwarf_resolver_disable_aranges(k % 2); break; default: cpptrace::set_log_level(k % 2 ? cpptrace::log_level::warning : cpptrace::log_level::error); }
            break;
        }
    } } catch(const std::exception& e) { put(d, std::string("exception ") + e.what()); }
}
void gen(Rng& r, Plan& p) {
    p.p["salt"] = r.below(1000000); p.p["mods"] = r.chance(1, 50) ? r.range(17, 30) : r.range(0, 4); p.p["exe"] = r.chance(1, 2); p.p["pipe_cap"] = 65536; p.p["cache"] = r.below(3);
    p.p["files"] = r.chance(1, 3) ? r.range(17, 40) : r.range(1, 4);
    p.p["shared"] = r.chance(1, 2); p.p["threads"] = r.range(2, 4); p.p["warm"] = r.chance(1, 3);
    if(r.chance(1, 4)) { p.p["f.read"] = 60; p.p["f.write"] = 60; p.p["f.poll"] = 100; p.p["f.waitpid"] = 200; p.p["f.helper.slow"] = 200; }
    // swarm: a few kinds of operations per run, so that the same parts meet
    std::vector<long> kinds; for(long i = r.range(1, 5); i > 0; i--) kinds.push_back(r.below(kOps));
    for(long n = r.range(2, 9); n > 0; n--) p.ops.push_back({r.below(p.p["threads"]), r.pick(kinds), r.chance(1, 3) ? r.below(3) : r.below(1000000)});
}
std::vector<std::string>* got; std::vector<std::string>* alone;
__attribute__((noinline)) void run(const Plan& p, long t, std::vector<std::string>& out) {
    for(size_t i = 0; i < p.ops.size(); i++) if(p.ops[i][0] == t) operation(p.ops[i], out[i]);
    asm volatile("" ::: "memory");
}
void exec(const Plan& p) {
    make(p.get("mods"), uint64_t(p.get("salt")), p.get("exe"));
    Rng r(uint64_t(p.get("salt")) + 5);
    sources = new std::vector<std::string>;
    for(long i = 0; i < p.get("files"); i++) { std::string c; for(long n = r.range(0, 14); n > 0; n--) c += r.chance(1, 6) ? "\n" : fmt("file %ld text %ld\n", i, r.below(1000)); sources->push_back(fmt("/sim/src/s%ld.cpp", i)); vfs_put(sources->back(), c); }
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); }
    if(p.get("cache")) { Sut s; cpptrace::experimental::set_cache_mode(p.get("cache") == 1 ? cpptrace::cache_mode::hybrid : cpptrace::cache_mode::prioritize_memory); }
    if(p.get("shared")) {
        auto in = frames(r.next(), 5); auto t = some_trace(r);
        sh.raw = new cpptrace::raw_trace; sh.raw->frames = in; sh.st = new cpptrace::stacktrace(t); sh.obj = new cpptrace::object_trace;
        for(auto a : in) { auto* m = find(a); cpptrace::object_frame o{}; o.raw_address = a; if(m) { o.object_address = a - m->load; o.object_path = m->path; } sh.obj->frames.push_back(o); }
        Sut s; F* f = new F; shape(*f, r); sh.fm = f; sh.ex = new cpptrace::runtime_error("the shared exception");
    }
    got = new std::vector<std::string>(p.ops.size()); alone = new std::vector<std::string>(p.ops.size());
    auto start = [&p](long t, std::vector<std::string>* out) { spawn([&p, t, out] { run(p, t, *out); }, "user"); };   // the same stack both times
    auto before = [&] { for(long t = 0; t < p.get("threads"); t++) { start(t, alone); join_all(); } };
    if(p.get("warm")) before();
    auto s0 = snapshot();
    for(long t = 0; t < p.get("threads"); t++) start(t, got);
    join_all();
    auto d = diff(s0, snapshot(), kReadsObjects);
    SIM_CHECK(d.empty(), "leak", "after all threads finished: %s", d.c_str());
    faults_enabled(false);
    if(!p.get("warm")) before();
    for(size_t i = 0; i < p.ops.size(); i++) {
        if((*got)[i] != (*alone)[i]) {
            auto& a = (*got)[i]; auto& b = (*alone)[i]; size_t q = 0; while(q < a.size() && q < b.size() && a[q] == b[q]) q++; q = q > 40 ? q - 40 : 0;
            violation("not-as-alone", "operation %ld of thread %ld gives '%s' among other threads and '%s' alone", p.ops[i][1], p.ops[i][0], a.substr(q, 160).c_str(), b.substr(q, 160).c_str());
        }
        event("op %ld %lx", p.ops[i][1], long(hash_str((*got)[i]))); state(mixh(uint64_t(p.ops[i][1]), hash_str((*got)[i]) % 64)); stat("checked");
    }
}
Register reg({"mixed_par", gen, exec});

// ---------------------------------------------------------------- C03: every kind of call leaves nothing behind
void res_gen(Rng& r, Plan& p) {
    gen(r, p);
    p.p["cache"] = r.below(3); p.p["closed_stdin"] = r.chance(1, 15); p.p["helper_missing"] = r.chance(1, 15);
    for(auto s : {"fork", "exec", "pipe", "read", "write", "waitpid", "poll", "helper.crash", "probe.kill", "read.eio", "write.eio", "readlink", "fopen", "fread", "fseek"}) { p.p.erase(std::string("f.") + s); if(r.chance(1, 3)) p.p[std::string("f.") + s] = std::vector<long>{15, 60, 200, 500}[size_t(r.below(4))]; }
    p.p["absorb"] = r.chance(3, 4); p.p["spawner"] = r.chance(1, 4); p.p["first"] = r.chance(1, 6); p.p["user_child"] = r.chance(1, 3);
    p.p.erase("threads"); p.p.erase("warm");
    for(auto& op : p.ops) { if(op[1] == SETTINGS) op[1] = SNIPPET; op.push_back(r.chance(1, 3) ? r.range(1, 200) : 0); op.push_back(r.chance(1, 4) ? r.range(2, 50) : 1); }   // allocation failure: first, how many
}
void res_exec(const Plan& p) {
    make(p.get("mods"), uint64_t(p.get("salt")), p.get("exe"));
    Rng r(uint64_t(p.get("salt")) + 5);
    sources = new std::vector<std::string>;
    for(long i = 0; i < p.get("files"); i++) { std::string c; for(long n = r.range(0, 14); n > 0; n--) c += r.chance(1, 6) ? "\n" : fmt("file %ld text %ld\n", i, r.below(1000)); sources->push_back(fmt("/sim/src/s%ld.cpp", i)); vfs_put(sources->back(), c); }
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); cpptrace::experimental::set_cache_mode(p.get("cache") == 0 ? cpptrace::cache_mode::prioritize_memory : p.get("cache") == 1 ? cpptrace::cache_mode::hybrid : cpptrace::cache_mode::prioritize_speed); }
    faults_enabled(false);
    if(p.get("shared")) {
        auto in = frames(r.next(), 5); auto t = some_trace(r);
        sh.raw = new cpptrace::raw_trace; sh.raw->frames = in; sh.st = new cpptrace::stacktrace(t); sh.obj = new cpptrace::object_trace;
        for(auto a : in) { auto* m = find(a); cpptrace::object_frame o{}; o.raw_address = a; if(m) { o.object_address = a - m->load; o.object_path = m->path; } sh.obj->frames.push_back(o); }
        Sut s; F* f = new F; shape(*f, r); sh.fm = f; auto* e = new cpptrace::runtime_error("the shared exception"); e->what(); sh.ex = e;
    }
    bool first = p.get("first");
    std::string d;
    if(!first) for(auto& op : p.ops) { operation(op, d); d.clear(); }      // the once-only state
    faults_enabled(true);
    { Sut s; cpptrace::absorb_trace_exceptions(p.get("absorb")); }
    int child = p.get("user_child") ? user_child_start(true) : -1;
    bool done = false;
    if(p.get("spawner")) spawn([&done] { for(int i = 0; i < 300 && !done; i++) { yield_here("app"); user_spawn_probe(); } }, "spawner");
    for(auto& op : p.ops) {
        { Sut s; cpptrace::clear_current_exception_traces(); }
        auto s0 = snapshot(); Mem m0 = live(); long failed = 0; bool threw = false;
        auto once = [&] {
            threw = false;
            try { if(op[3]) arm_alloc(op[3], op[4]); operation(op, d); } catch(...) { threw = true; }
            failed = disarm_alloc();
            { Sut s; cpptrace::clear_current_exception_traces(); }
            d.clear();
        };
        once();
        auto df = diff(s0, snapshot(), kReadsObjects && p.get("cache") != 0);
        SIM_CHECK(df.empty(), "leak", "after operation %ld (%ld allocations failed): %s", op[1], failed, df.c_str());
        Mem m1 = live();
        if(!first) SIM_CHECK(m1.blocks <= m0.blocks || !keeps_growing(once), "memory-leak", "%ld blocks (%ld bytes) more are live after operation %ld (%ld allocations failed)", m1.blocks - m0.blocks, m1.bytes - m0.bytes, op[1], failed);
        if(child > 0) SIM_CHECK(user_child_present(child), "stolen-child", "the library reaped a child process of the application");
        event("op %ld failed %ld threw %d", op[1], failed, threw); state(mixh(uint64_t(op[1]), uint64_t(failed * 2 + threw))); stat("checked");
    }
    done = true;
    join_all();
}
Register reg2({"mixed_res", res_gen, res_exec});
}
