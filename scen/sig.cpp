// C06: handlers that use the signal-safe interface interrupt ordinary operations at arbitrary instants
#include "common.hpp"
#include "stack.hpp"
#include <cpptrace/exceptions.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/utils.hpp>
#include <ctrace/ctrace.h>
#include "jit/jit_objects.hpp"
#include <csignal>
#include <sstream>
using namespace sim;
using namespace u;
namespace {
struct Capture { size_t size, skip, max; bool has_max, c; };
struct Query { uintptr_t addr; bool c; };
struct Safe { uintptr_t addr; cpptrace::safe_object_frame* f; long rl; };
// what one handler is asked to do
struct Todo {
    std::vector<Capture> captures; std::vector<Query> queries; bool own_stack = false, real = false, nested = false;
    std::vector<Safe> stored; std::vector<uintptr_t> seen; bool ran = false;
};
thread_local Todo* todo;
constexpr uint64_t kGuard = 0x5a5a5a5a5a5a5a5aull;

struct Cap { stk::Ref ref; size_t n = 0; bool threw = false; };
// one function per entry point: the reference is taken one statement before
__attribute__((noinline)) void cap3(Cap& c, uintptr_t* b, const Capture& k) { c.ref = stk::here(); try { Sut s; c.n = cpptrace::safe_generate_raw_trace(b, k.size, k.skip); } catch(...) { c.threw = true; } asm volatile("" ::: "memory"); }
__attribute__((noinline)) void cap4(Cap& c, uintptr_t* b, const Capture& k) { c.ref = stk::here(); try { Sut s; c.n = cpptrace::safe_generate_raw_trace(b, k.size, k.skip, k.max); } catch(...) { c.threw = true; } asm volatile("" ::: "memory"); }
__attribute__((noinline)) void capc(Cap& c, uintptr_t* b, const Capture& k) { c.ref = stk::here(); try { Sut s; c.n = ctrace_safe_generate_raw_trace(b, k.size, k.skip, k.max); } catch(...) { c.threw = true; } asm volatile("" ::: "memory"); }

void do_capture(Todo& t, const Capture& k) {
    size_t n = std::min<size_t>(k.size, 700);
    std::vector<uintptr_t> mem(n + 16, kGuard); uintptr_t* b = mem.data() + 8;
    signal_allow_write(b, n * sizeof(uintptr_t));
    Cap c; size_t max = k.has_max ? k.max : size_t(-1);
    Capture kk = k; kk.size = n;
    if(k.c) capc(c, b, kk); else if(k.has_max) cap4(c, b, kk); else cap3(c, b, kk);
    SIM_CHECK(!c.threw, "threw", "signal-safe tracing threw");
    SIM_CHECK(c.n <= n && c.n <= max, "overrun", "%zu frames reported with room for %zu and a limit of %zu", c.n, n, max);
    for(int i = 0; i < 8; i++) SIM_CHECK(mem[size_t(i)] == kGuard && mem[n + 8 + size_t(i)] == kGuard, "overrun", "the frame buffer was overrun");
    for(size_t i = c.n; i < n; i++) SIM_CHECK(b[i] == kGuard, "overrun", "element %zu of the buffer was written, %zu frames were reported", i, c.n);
    if(!cpptrace::can_signal_safe_unwind()) { SIM_CHECK(c.n == 0, "wrong-stack", "unsupported unwinding reported frames"); return; }
    std::vector<uintptr_t> got(b, b + c.n); std::string why;
    SIM_CHECK(stk::same_stack(got, c.ref, std::min(kk.skip, c.ref.ips.size()), std::min(n, max), true, why), why.compare(0, 11, "interrupted") == 0 ? "interrupted-frame" : "wrong-stack", "size %zu skip %zu max %zu in a handler: %s", n, k.skip, max, why.c_str());
    t.seen.insert(t.seen.end(), got.begin(), got.end()); stat("checked");
    state(mixh(std::min<size_t>(n, 9) * 100 + std::min<size_t>(k.skip, 9) * 10 + std::min<size_t>(max, 9), std::min<size_t>(c.ref.ips.size() / 4, 20)));
}
struct Framed { char pre[32]; cpptrace::safe_object_frame f; char post[32]; };
void do_query(Todo& t, const Query& q) {
    auto* g = new Framed; memset(g, 0x5a, sizeof *g);
    signal_allow_write(&g->f, sizeof g->f);
    long rl = fault_count("readlink");
    { Sut s; if(q.c) ctrace_get_safe_object_frame(q.addr, reinterpret_cast<ctrace_safe_object_frame*>(&g->f)); else cpptrace::get_safe_object_frame(q.addr, &g->f); }
    for(char c : g->pre) SIM_CHECK(c == 0x5a, "overrun", "get_safe_object_frame wrote before its frame");
    for(char c : g->post) SIM_CHECK(c == 0x5a, "overrun", "get_safe_object_frame wrote behind its frame");
    SIM_CHECK(g->f.raw_address == q.addr, "wrong-object", "the safe frame of %lx says %lx", long(q.addr), long(g->f.raw_address));
    SIM_CHECK(memchr(g->f.object_path, 0, sizeof g->f.object_path), "unterminated", "the stored path of %lx has no end", long(q.addr));
    t.stored.push_back({q.addr, &g->f, fault_count("readlink") - rl}); stat("checked");
}
void handler_body() {
    Todo* t = todo; if(!t || (t->ran && !t->nested)) return;
    t->ran = true; faults_enabled(true);
    for(auto& k : t->captures) do_capture(*t, k);
    std::vector<Query> qs = t->queries;
    if(t->own_stack) for(size_t i = 0; i < t->seen.size() && i < 6; i++) qs.push_back({t->seen[(i * 5) % t->seen.size()], (i & 1) != 0});
    for(auto& q : qs) do_query(*t, q);
    faults_enabled(false);
}
__attribute__((noinline)) void on_real(int) { handler_body(); asm volatile("" ::: "memory"); }
__attribute__((noinline)) void on_signal() { if(todo && todo->real) raise(SIGUSR2); else handler_body(); asm volatile("" ::: "memory"); }

// afterwards, outside any handler
void check_stored(Todo& t) {
    for(auto& s : t.stored) {
        cpptrace::object_frame got; cpptrace::object_trace ord; cpptrace::raw_trace rt; rt.frames = {s.addr};
        auto resolve = [&] { Sut su; got = s.f->resolve(); };
        resolve();
        long r1 = fault_count("readlink");
        { Sut su; ord = rt.resolve_object_trace(); }
        long lost = s.rl + (fault_count("readlink") - r1);
        SIM_CHECK(ord.frames.size() == 1, "misaligned", "%zu object frames for one address", ord.frames.size());
        auto& w = ord.frames[0]; std::string wp = w.object_path;
        const Module* m = find_module(s.addr);
        if(!cpptrace::can_get_safe_object_frame()) { SIM_CHECK(got.object_path.empty() && got.object_address == 0, "wrong-object", "unsupported safe frame is not empty"); }
        else if(m && m->path.size() > CPPTRACE_PATH_MAX) { // does not fit: cut, the address kept
            SIM_CHECK(got.raw_address == s.addr && got.object_address == s.addr - m->load_addr && got.object_path == wp.substr(0, CPPTRACE_PATH_MAX), "wrong-object", "the path of %zu characters was stored as %zu characters, address %lx", wp.size(), got.object_path.size(), long(got.object_address));
        } else {
            bool same = got.raw_address == w.raw_address && got.object_address == w.object_address && got.object_path == wp;
            bool ok = same || (lost && (got.object_path.empty() ? got.object_address == 0 : wp.empty()));
            SIM_CHECK(ok, "wrong-object", "the safe frame of %lx resolves to object address %lx in '%s', the ordinary interface says %lx in '%s'", long(s.addr), long(got.object_address), got.object_path.substr(0, 80).c_str(), long(w.object_address), wp.substr(0, 80).c_str());
        }
        { Sut su; got = cpptrace::object_frame(); ord.clear(); }
        delete reinterpret_cast<Framed*>(reinterpret_cast<char*>(s.f) - offsetof(Framed, f));
    }
    t.stored.clear(); t.seen.clear();
}

// ---- the operations that get interrupted; each gives a text of what it returned
enum { RESOLVE, OBJECTS, OBJINFO, STACK, RAW, EXC, FORMAT, SNIPPET, LOGCB, JIT, CATCH, CTRACE, SAFE, SAFEOBJ, DEMANGLE, NESTED_EXC, kOps };
std::string* jit_bytes; std::string* src_path; std::string* src_text;
void put(std::string& d, const std::string& s) { Harness h; d += s; d += '\n'; }
void put_trace(std::string& d, const cpptrace::stacktrace& t, bool syms = true) { Harness h; for(auto& f : t.frames) d += fmt("%lx %lx %s %s %ld\n", long(f.raw_address), long(f.object_address), syms ? f.symbol.c_str() : "", f.filename.c_str(), f.line.has_value() ? long(f.line.value()) : -1); }
void put_objs(std::string& d, const cpptrace::object_trace& t) { Harness h; for(auto& f : t.frames) d += fmt("%lx %lx %s\n", long(f.raw_address), long(f.object_address), f.object_path.c_str()); }
void put_raw(std::string& d, const std::vector<cpptrace::frame_ptr>& t) { Harness h; for(auto f : t) d += fmt("%lx\n", long(f)); }
struct Thrown { int v; };
__attribute__((noinline)) void throw_it(int v) { if(v >= 0) throw Thrown{v}; }
__attribute__((noinline)) void operation(const Op& op, std::string& d, bool arm) {
    auto in = frames(uint64_t(op[2]), op[3]);
    if(arm) arm_alloc(op[5], 1);
    try { switch(op[1]) {
        case RESOLVE: { cpptrace::raw_trace rt; rt.frames = in; cpptrace::stacktrace st; { Sut s; st = rt.resolve(); put_trace(d, st); st.clear(); } break; }
        case OBJECTS: { cpptrace::raw_trace rt; rt.frames = in; Sut s; auto ot = rt.resolve_object_trace(); put_objs(d, ot); break; }
        case OBJINFO: { for(auto a : in) { cpptrace::stacktrace_frame f{}; f.raw_address = a; Sut s; auto o = f.get_object_info(); Harness h; d += fmt("%lx %s\n", long(o.object_address), o.object_path.c_str()); } break; }
        case STACK: { Sut s; auto t = cpptrace::stacktrace::current(size_t(op[3] % 3), 12); put_trace(d, t, false); break; }
        case RAW: { Sut s; auto t = cpptrace::generate_raw_trace(size_t(op[3] % 3)); put_raw(d, t.frames); break; }
        case EXC: { Sut s; try { throw cpptrace::runtime_error("some text that does not fit into the object"); } catch(const cpptrace::exception& e) { std::string m = e.message(); put(d, m.c_str()); if(op[3] % 2) { const char* w = e.what(); put(d, fmt("%zu", strlen(w))); } } break; }
        case FORMAT: {
            cpptrace::stacktrace t; for(long i = 0; i < op[3]; i++) { cpptrace::stacktrace_frame f{}; f.raw_address = uintptr_t(4096 + i); f.symbol = fmt("ns::fn%ld<std::vector<int>>(int)", i); f.filename = i % 2 ? *src_path : "/nowhere.cpp"; f.line = 3u; t.frames.push_back(f); }
            std::string o; { Sut s; auto f = cpptrace::formatter{}.snippets(op[2] % 2).symbols(cpptrace::formatter::symbol_mode::pretty); o = f.format(t, op[2] % 3 == 0); put(d, o); std::string().swap(o); } break;
        }
        case SNIPPET: { std::string o; { Sut s; o = cpptrace::get_snippet(*src_path, 3, 2, op[2] % 2); put(d, o); std::string().swap(o); } break; }
        case LOGCB: { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); cpptrace::absorb_trace_exceptions(true); break; }
        case JIT: {
            Sut s; auto& b = jit_bytes[task_id()]; uintptr_t pc = 0x500000000ull + uintptr_t(task_id()) * 0x100000 + 8;
            try { cpptrace::register_jit_object(b.data(), b.size()); auto r = cpptrace::detail::lookup_jit_object(pc); put(d, r ? fmt("found %lx", long(r.unwrap().base)) : "none"); } catch(const std::bad_alloc&) { put(d, "bad_alloc"); }
            cpptrace::unregister_jit_object(b.data());
            auto r = cpptrace::detail::lookup_jit_object(pc); put(d, r ? "found" : "none"); break;
        }
        case CATCH: {
            Sut s; bool caught = false;
            CPPTRACE_TRY { throw_it(int(op[3])); } CPPTRACE_CATCH(const Thrown& e) { caught = true; auto t = cpptrace::raw_trace_from_current_exception(); put_raw(d, t.frames); put(d, fmt("%d", e.v)); }
            put(d, caught ? "caught" : "nothing"); break;
        }
        case CTRACE: {
            cpptrace::frame_ptr* b = in.data(); ctrace_raw_trace rt{b, in.size()}; Sut s; auto st = ctrace_resolve_raw_trace(&rt); { Harness h; for(size_t i = 0; i < st.count; i++) d += fmt("%s %s %u\n", st.frames[i].symbol, st.frames[i].filename, st.frames[i].line); } ctrace_free_stacktrace(&st);
            auto str = ctrace_demangle("_ZN3foo3barEi"); if(str.data) put(d, str.data); ctrace_free_owning_string(&str); break;
        }
        case SAFE: { uintptr_t b[64]; Sut s; size_t n = cpptrace::safe_generate_raw_trace(b, 64, size_t(op[3] % 3), 20); { Harness h; for(size_t i = 0; i < n; i++) d += fmt("%lx\n", long(b[i])); } break; }
        case SAFEOBJ: { for(auto a : in) { cpptrace::safe_object_frame f; Sut s; cpptrace::get_safe_object_frame(a, &f); auto o = f.resolve(); Harness h; d += fmt("%lx %s\n", long(o.object_address), o.object_path.c_str()); } break; }
        case DEMANGLE: { Sut s; auto o = cpptrace::demangle("_ZNSt6vectorIiSaIiEE9push_backEOi"); put(d, o); o = cpptrace::prune_symbol(o); put(d, o); o = cpptrace::prettify_symbol("std::basic_string<char, std::char_traits<char>, std::allocator<char> >"); put(d, o); break; }
        case NESTED_EXC: {
            Sut s;
            try { try { throw std::runtime_error("inner text that is long enough"); } catch(...) { cpptrace::rethrow_and_wrap_if_needed(); } } catch(const cpptrace::exception& e) { put(d, e.message()); put_raw(d, {}); } catch(const std::bad_alloc&) { put(d, "bad_alloc"); }
            break;
        }
    } } catch(const std::bad_alloc&) { put(d, "bad_alloc"); SIM_CHECK(arm, "escaped", "std::bad_alloc without a failed allocation"); }
    if(arm) disarm_alloc();
}
Todo make_todo(Rng& r) {
    Todo t; static const std::vector<long> sizes{0, 0, 1, 1, 2, 3, 5, 8, 16, 64, 200, 700};
    for(long i = r.range(0, 2); i > 0; i--) { Capture k; k.size = size_t(r.pick(sizes)); long z = r.below(12); k.skip = z < 5 ? 0 : z < 9 ? size_t(r.range(1, 6)) : z == 9 ? size_t(r.range(7, 300)) : z == 10 ? size_t(1) << r.range(20, 63) : size_t(-1) - size_t(r.range(5, 100)); k.has_max = r.chance(1, 2); k.c = k.has_max && r.chance(1, 3); k.max = r.chance(1, 3) ? size_t(-1) : size_t(r.range(0, 12)); t.captures.push_back(k); }
    for(long i = r.range(t.captures.empty() ? 1 : 0, 3); i > 0; i--) { auto v = frames(r.next(), 6); long z = r.below(8); uintptr_t a = z == 0 ? uintptr_t(-1) : z == 1 ? uintptr_t(&handler_body) : z == 2 ? uintptr_t(&exit) : z == 3 ? uintptr_t(&jit_bytes) : v[size_t(r.below(6))]; t.queries.push_back({a, r.chance(1, 3)}); }
    t.own_stack = r.chance(1, 3); t.real = r.chance(1, 3);
    return t;
}
bool conc;
// op: thread, what, seed, frames, instant (1/1e6 of the operation), failing allocation, what the handler does
__attribute__((noinline)) void step(const Op& op) {
    std::string d[3]; Mem m[3]; long instants = 0; Rng r{uint64_t(op[6])};
    for(int i = 0; i < 3; i++) {
        Todo t = make_todo(r); bool fired = false; bool oom = i == 1 && op[5];
        if(i == 1) { todo = &t; if(op[7]) t.nested = true; }
        if(i == 0) arm_signal(1L << 60, [] {});
        else if(i == 1) arm_signal(1 + long((unsigned __int128)(op[4]) * size_t(instants) / 1000000), on_signal);
        operation(op, d[i], oom);
        if(i == 0) instants = signal_instants();
        fired = disarm_signal(); todo = nullptr;
        if(i == 1) { event("op %ld instants %ld fired %d", op[1], instants, fired); if(fired) stat("interrupted"); check_stored(t); }
        m[i] = live();
    }
    // a run without interruption afterwards gives what it gave before; so does the interrupted one unless it was made to fail
    SIM_CHECK(d[2] == d[0], "disturbed", "operation %ld gives a different result after a signal: '%s' instead of '%s'", op[1], d[2].substr(0, 200).c_str(), d[0].substr(0, 200).c_str());
    if(!op[5]) SIM_CHECK(d[1] == d[0], "disturbed", "operation %ld gives a different result when interrupted: '%s' instead of '%s'", op[1], d[1].substr(0, 200).c_str(), d[0].substr(0, 200).c_str());
    if(!conc && !op[5]) SIM_CHECK(m[2].blocks <= m[1].blocks && m[1].blocks <= m[0].blocks, "memory-leak", "operation %ld: %ld blocks before, %ld after the interrupted, %ld after the next", op[1], m[0].blocks, m[1].blocks, m[2].blocks);
}
void begin(const Plan& p) {
    make(p.get("mods"), uint64_t(p.get("salt")), p.get("exe"));
    stk::gcc();
    if(long n = p.get("longpath")) { // a loaded object whose path is longer than a safe frame can hold, or just as long
        Mod m; m.exe = false; m.path = "/sim/" + std::string(size_t(n) - 5, 'l'); m.base = 0x7d5000000000ull; m.size = 0x100000; m.load = m.base;
        add_module(m.path, m.base, m.size, m.load); vfs_put(m.path, eg::simple(0)); U().mods.push_back(m);
    }
    if(long n = p.get("longexe")) { U().exe = "/sim/" + std::string(size_t(n) - 5, 'e'); set_exe_path(U().exe, 0); for(auto& m : U().mods) if(m.exe) { m.path = U().exe.substr(0, 4096); vfs_put(m.path, eg::simple(0)); } }
    src_path = new std::string("/sim/src.cpp"); vfs_put(*src_path, "int a;\nint b;\nint c;\nint d;\nint e;\n");
    jit_bytes = new std::string[12];
    for(int i = 0; i < 12; i++) { eg::Spec s; s.bits = 64; s.le = true; uintptr_t at = 0x500000000ull + uintptr_t(i) * 0x100000; s.texts.push_back({".text", SHT_PROGBITS, at, 256}); s.syms.push_back({"jitfn", at, 256, 1, 2}); jit_bytes[i] = eg::build(s); }
    struct sigaction sa{}; sa.sa_handler = on_real; sa.sa_flags = SA_NODEFER; sigaction(SIGUSR2, &sa, nullptr);
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); }
    // caches and thread-local storage exist before anything is compared
    faults_enabled(false);
    std::string d; for(long k = 0; k < kOps; k++) { Op o{0, k, p.get("salt"), 4, 0, 0, 0, 0}; operation(o, d, false); }
    std::vector<cpptrace::frame_ptr> all; for(auto& m : U().mods) all.push_back(m.base + 64); cpptrace::raw_trace rt; rt.frames = all; { Sut s; auto t = rt.resolve(); }
}
void gen_env(Rng& r, Plan& p) {
    p.p["salt"] = r.below(1000000); p.p["mods"] = r.range(0, 3); p.p["exe"] = r.chance(1, 2); p.p["pipe_cap"] = 65536;
    if(r.chance(1, 3)) p.p["longpath"] = r.pick(std::vector<long>{4094, 4095, 4096, 4097, 4098, 5000, 9000});
    if(p.p["exe"] && p.p["mods"] && r.chance(1, 4)) p.p["longexe"] = r.pick(std::vector<long>{4095, 4096, 4097, 5000});
    if(r.chance(1, 4)) p.p["f.readlink"] = 200;
}
Op gen_op(Rng& r, long threads) {
    long frac = r.chance(1, 4) ? r.below(1000) : r.below(1000000);
    return {r.below(threads), r.below(kOps), r.below(1000000), r.range(0, 5), frac, r.chance(1, 4) ? r.range(1, 30) : 0, r.below(1000000000), r.chance(1, 4)};
}
void seq_gen(Rng& r, Plan& p) { gen_env(r, p); long n = r.range(1, 6); for(long i = 0; i < n; i++) p.ops.push_back(gen_op(r, 1)); }
void seq_exec(const Plan& p) {
    begin(p); conc = false;
    for(auto& op : p.ops) step(op);
}
Register r1({"sig", seq_gen, seq_exec});
void par_gen(Rng& r, Plan& p) { gen_env(r, p); p.p.erase("f.readlink"); p.p["threads"] = r.range(2, 3); long n = r.range(2, 7); for(long i = 0; i < n; i++) p.ops.push_back(gen_op(r, p.p["threads"])); }
void par_exec(const Plan& p) {
    begin(p); conc = true;
    for(long t = 0; t < p.get("threads"); t++) spawn([&p, t] { std::string d; for(long k : {CATCH, JIT}) { Op o{0, k, 1, 4, 0, 0, 0, 0}; operation(o, d, false); } for(auto& op : p.ops) if(op[0] == t) step(op); }, "user");
    join_all();
}
Register r2({"sig_par", par_gen, par_exec});
}
