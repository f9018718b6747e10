// C16: the terminate handler, for every way to get there, with failures while it runs
#include "common.hpp"
#include "stack.hpp"
#include <cpptrace/exceptions.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/utils.hpp>
#include <cxxabi.h>
#include <iostream>
#include <stdexcept>
#include <system_error>
using namespace sim;
using namespace u;
namespace {
// ---- standard error: a C stream and a C++ stream onto one sink that can fail
enum { SINK_OK, SINK_FAILS, SINK_FAILS_LATER, SINK_CERR_FAILS, SINK_CERR_THROWS, SINK_CERR_EXCEPTIONS, kSinks };
struct Out { std::string texts[12]; /* per thread, two may terminate at once */ long sink = 0, room = 0; } *out;
std::string& mine() { return out->texts[task_id() % 12]; }
bool accept(size_t n, bool cpp) {
    if(out->sink == SINK_FAILS) return false;
    if(out->sink == SINK_FAILS_LATER) { out->room -= long(n); if(out->room < 0) return false; }
    if(cpp && (out->sink == SINK_CERR_FAILS || out->sink == SINK_CERR_EXCEPTIONS)) return false;
    return true;
}
ssize_t ck_write(void*, const char* b, size_t n) {
    Harness h;
    if(!accept(n, false)) { stat("sink.error"); return 0; }
    mine().append(b, n); return ssize_t(n);
}
struct SinkThrew {};
struct CerrBuf : std::streambuf {
    bool put(const char* s, size_t n) {
        { Harness h; if(accept(n, true)) { if(out->sink != SINK_CERR_THROWS) { mine().append(s, n); yield_here("stderr"); return true; } } else { stat("sink.error"); return false; } }
        throw SinkThrew();
    }
    int_type overflow(int_type c) override { if(c != traits_type::eof()) { char k = char(c); if(!put(&k, 1)) return traits_type::eof(); } return 0; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { return put(s, size_t(n)) ? n : 0; }
};
// ---- what is thrown
struct Custom : std::exception { std::string m; explicit Custom(std::string s) : m(std::move(s)) {} const char* what() const noexcept override { return m.c_str(); } };
struct Hidden : private std::runtime_error { Hidden() : std::runtime_error("not visible") {} };
struct Own : cpptrace::lazy_exception { const char* message() const noexcept override { return "a message of its own"; } };
struct Evil : std::exception { const char* what() const noexcept override { throw 7; } };
template<class T, int N> struct Templ { T v; };
struct Big { char b[5000]; };
enum { tInt, tCstr, tRuntime, tCustom, tHidden, tTempl, tBig, tBadAlloc, tSystem, tCpp, tCppLong, tOwn, tNested, tCppSystem, tLazy, tMulti, tEvil, kTypes };
// how it gets there
enum { DIRECT, IN_CATCH, NOEXCEPT, UNCAUGHT, RETHROW_NOTHING, DTOR, UNMATCHED_TRY, FOREIGN, FOREIGN_CAUGHT, IN_LOG, IN_FORMAT, NESTED_CATCH, HANDED_OVER, kWays };

struct Expect { std::string type, mangled, message; bool has_message = false, none = false, cpp = false, foreign = false, evil = false; stk::Ref ref; bool have_ref = false; };
struct Ctx { Op op; Expect e; bool reached = false; uint64_t at = 0; long failed = 0; bool oom = false; int entries = 0; };
Ctx* slots[12];
bool sched_other;

std::string readable(const char* m) { int st; char* d = abi::__cxa_demangle(m, nullptr, nullptr, &st); std::string s = d ? d : m; return s; }
template<class T> void expect_type(Ctx& c, const char* msg = nullptr) { Harness h; c.e.mangled = typeid(T).name(); c.e.type = readable(typeid(T).name()); c.e.has_message = msg != nullptr; if(msg) c.e.message = msg; }
std::string message(long k) { return k % 7 == 0 ? "" : k % 7 == 1 ? "plain text" : k % 7 == 2 ? std::string(400, 'm') : k % 7 == 3 ? "with {} braces {{ and %s" : k % 7 == 4 ? "two\nlines" : k % 7 == 5 ? std::string(20000, 'x') : "\xc3\xa9t\xc3\xa9"; }

#define REF(c) (c).e.ref = stk::here(), (c).e.have_ref = true
__attribute__((noinline)) void raise_(Ctx& c) {
    long t = c.op[2], m = c.op[3]; std::string text = message(m); std::string copy = text; int err = int(m % 40) + 1;
    REF(c);
    switch(t) {
        case tInt: expect_type<int>(c); throw 5;
        case tCstr: expect_type<const char*>(c); throw "text";
        case tRuntime: expect_type<std::runtime_error>(c, copy.c_str()); throw std::runtime_error(text);
        case tCustom: expect_type<Custom>(c, copy.c_str()); throw Custom(text);
        case tHidden: expect_type<Hidden>(c); throw Hidden();
        case tTempl: expect_type<Templ<std::map<int, std::string>, 3>>(c); throw Templ<std::map<int, std::string>, 3>();
        case tBig: expect_type<Big>(c); throw Big();
        case tBadAlloc: expect_type<std::bad_alloc>(c, "std::bad_alloc"); throw std::bad_alloc();
        case tSystem: { std::system_error e(err, std::generic_category(), text); std::string w = e.what(); expect_type<std::system_error>(c, w.c_str()); throw e; }
        case tCpp: { expect_type<cpptrace::runtime_error>(c, copy.c_str()); c.e.cpp = true; REF(c); Sut s; throw cpptrace::runtime_error(std::move(text)); }
        case tCppLong: { expect_type<cpptrace::out_of_range>(c, copy.c_str()); c.e.cpp = true; REF(c); Sut s; throw cpptrace::out_of_range(std::move(text)); }
        case tOwn: { expect_type<Own>(c, "a message of its own"); c.e.cpp = true; REF(c); Sut s; throw Own(); }
        case tNested: { expect_type<cpptrace::nested_exception>(c, nullptr); c.e.message = "Nested exception: " + copy; c.e.has_message = true; c.e.cpp = true; try { throw std::runtime_error(text); } catch(...) { REF(c); Sut s; cpptrace::rethrow_and_wrap_if_needed(); } break; }
        case tCppSystem: { std::error_code ec(err, std::generic_category()); std::string w = copy + ": " + ec.message(); expect_type<cpptrace::system_error>(c, w.c_str()); c.e.cpp = true; REF(c); Sut s; throw cpptrace::system_error(err, std::move(text)); }
        case tLazy: { expect_type<cpptrace::lazy_exception>(c, ""); c.e.has_message = false; c.e.cpp = true; REF(c); Sut s; throw cpptrace::lazy_exception(); }
        case tMulti: { struct Both : cpptrace::logic_error, virtual std::enable_shared_from_this<Both> { using logic_error::logic_error; }; expect_type<Both>(c, copy.c_str()); c.e.cpp = true; REF(c); Sut s; throw Both(std::move(text)); }
        case tEvil: expect_type<Evil>(c); c.e.evil = true; throw Evil();
    }
    asm volatile("" ::: "memory");
}
__attribute__((noinline)) void in_noexcept(Ctx& c) noexcept { auto r = stk::here(); { Harness h; c.e.have_ref = true; } raise_(c); (void)r; asm volatile("" ::: "memory"); }
struct Dtor { Ctx& c; stk::Ref* r; ~Dtor() { *r = stk::here(); raise_(c); } };
__attribute__((noinline)) void throw_plain() { throw 'c'; }
__attribute__((noinline)) void from_dtor(Ctx& c) { stk::Ref r; try { Dtor d{c, &r}; throw_plain(); } catch(char) {} asm volatile("" ::: "memory"); }
_Unwind_Exception foreign_exc;
__attribute__((noinline)) void raise_foreign(Ctx& c) { REF(c); foreign_exc.exception_class = 0x1122334455667788ull; foreign_exc.exception_cleanup = nullptr; auto f = reinterpret_cast<_Unwind_Reason_Code(*)(_Unwind_Exception*)>(dlsym(RTLD_DEFAULT, "_Unwind_RaiseException")); f(&foreign_exc); std::terminate(); }
struct Odd {};
__attribute__((noinline)) void depth(Ctx& c, long n, void (*f)(Ctx&)) { if(n > 0) depth(c, n - 1, f); else f(c); asm volatile("" ::: "memory"); }
thread_local Ctx* me;
__attribute__((noinline)) void go(Ctx& c) {
    switch(c.op[1]) {
        case DIRECT: c.e.none = true; REF(c); std::terminate();
        case RETHROW_NOTHING: c.e.none = true; REF(c); throw;
        case IN_CATCH: try { raise_(c); } catch(...) { if(!c.e.cpp) REF(c); std::terminate(); } break;
        case NESTED_CATCH: try { throw_plain(); } catch(...) { try { raise_(c); } catch(...) { try { throw_plain(); } catch(char) {} if(!c.e.cpp) REF(c); std::terminate(); } } break;
        case HANDED_OVER: { std::exception_ptr p; try { raise_(c); } catch(...) { p = std::current_exception(); } if(!c.e.cpp) REF(c); [&]() noexcept { std::rethrow_exception(p); }(); break; }
        case NOEXCEPT: in_noexcept(c); break;
        case UNCAUGHT: raise_(c); break;
        case DTOR: from_dtor(c); break;
        case UNMATCHED_TRY: CPPTRACE_TRY { raise_(c); } CPPTRACE_CATCH(const Odd&) {} break;
        case FOREIGN: c.e.none = c.e.foreign = true; raise_foreign(c); break;
        case FOREIGN_CAUGHT: c.e.none = c.e.foreign = true; try { raise_foreign(c); } catch(...) { REF(c); std::terminate(); } break;
        case IN_LOG: {   // a log callback that cannot go on, while the library reports a failure
            { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) { Ctx* x = me; if(x && !x->reached) { me = nullptr; Harness h; disarm_alloc(); raise_(*x); } }); }
            me = &c; std::vector<uintptr_t> in = frames(uint64_t(c.op[3]) + 5, 8); cpptrace::raw_trace rt; rt.frames = in;
            [&]() noexcept { Sut s; arm_alloc(c.op[7], 2000); auto t = rt.resolve(); disarm_alloc(); auto u = cpptrace::stacktrace::current(); }();
            disarm_alloc(); c.e.none = true; c.e.cpp = c.e.evil = false; REF(c); std::terminate();
        }
        case IN_FORMAT: {
            me = &c; cpptrace::stacktrace t; for(int i = 0; i < 3; i++) { cpptrace::stacktrace_frame f{}; f.raw_address = 77; f.filename = "/sim/src.cpp"; f.line = 2u; t.frames.push_back(f); }
            [&]() noexcept { Sut s; auto f = cpptrace::formatter{}.snippets(true).filter([](const cpptrace::stacktrace_frame&) { Ctx* x = me; if(x) { Harness h; if(--x->op[7] <= 0) raise_(*x); } return true; }); auto o = f.format(t, false); }();
            c.e.none = true; c.e.cpp = c.e.evil = false; REF(c); std::terminate();
        }
    }
    asm volatile("" ::: "memory");
}
std::terminate_handler lib_handler;
[[noreturn]] __attribute__((noinline)) void on_terminate_here() { asm volatile("" ::: "memory"); lib_handler(); violation("returned", "the terminate handler returned"); }
// what really runs is the library's handler, entered with the seeded allocation failure armed
[[noreturn]] void on_terminate() {
    Ctx* c = slots[task_id()];
    if(!c) violation("terminate", "std::terminate in a thread that was not meant to");
    { Harness h; c->entries++; event("terminate entered %d", c->entries); SIM_CHECK(c->entries < 5, "not-prompt", "the terminate handler is entered again and again"); }
    disarm_alloc();
    if(!c->reached && c->op[1] == IN_LOG && !c->e.none) {   // the library may absorb what the callback threw and report its own failure instead
        Harness h; auto* ty = abi::__cxa_current_exception_type();
        if(!ty) { c->e.none = true; c->e.cpp = c->e.evil = false; }
        else if(c->e.mangled != ty->name()) { c->e.mangled = ty->name(); c->e.type = readable(ty->name()); c->e.has_message = c->e.cpp = c->e.evil = false; }
    }
    if(!c->reached) { c->reached = true; c->at = steps(); faults_enabled(true); }
    Sut s; if(c->op[4] && c->entries == 1) arm_alloc(c->op[4], c->op[5]);
    on_terminate_here();
}
std::string plain(const std::string& s) { std::string o; for(size_t i = 0; i < s.size(); i++) { if(s[i] == '\x1b') { size_t e = s.find('m', i); if(e != std::string::npos) { i = e; continue; } } o += s[i]; } return o; }
std::string show(const std::string& t) { return t.size() > 600 ? t.substr(0, 600) + "..." : t; }
void on_abort(int) {
    Ctx* c = slots[task_id()]; faults_enabled(false); long failed = disarm_alloc();
    SIM_CHECK(c && c->reached, "aborted", "abort outside of the terminate handler");
    auto& e = c->e; std::string text = plain(mine());
    uint64_t took = steps() - c->at; event("aborted after %d entries, %zu characters", c->entries, text.size());
    SIM_CHECK(took < 4000000, "not-prompt", "%lu steps from std::terminate to the end", (unsigned long)took);
    stat("checked"); state(mixh(uint64_t(c->op[1] * 100 + c->op[2]), uint64_t(out->sink * 4 + (failed > 0) * 2 + sched_other)));
    if(out->sink == SINK_FAILS || out->sink == SINK_FAILS_LATER) return;
    size_t at = 0;
    if(e.none) {
        std::string m = "terminate called without an active exception"; at = text.find(m); if(at == std::string::npos && e.foreign) at = text.find("Terminate called");
        SIM_CHECK(at != std::string::npos, "unreported", "no message for terminate without an exception: '%s'", show(text).c_str());
        at += m.size();
    } else if(e.evil) {
        at = text.find("Terminate called after throwing an instance of "); SIM_CHECK(at != std::string::npos, "unreported", "nothing was printed for an exception whose what() fails: '%s'", show(text).c_str());
    } else {
        std::string head = "Terminate called after throwing an instance of ", m1 = head + e.type, m2 = head + e.mangled;
        at = text.find(m1); size_t len = m1.size(); if(at == std::string::npos && failed) { at = text.find(m2); len = m2.size(); }
        SIM_CHECK(at != std::string::npos, "unreported", "the exception's type %s was not printed: '%s'", e.type.c_str(), show(text).c_str());
        at += len;
        if(e.has_message) {
            bool ok = text.compare(at, 2 + e.message.size() + 1, ": " + e.message + "\n") == 0;
            if(!ok && c->op[2] == tNested && failed && text.compare(at, 2 + 16, ": Nested exception") == 0) { ok = true; }
            SIM_CHECK(ok, "unreported", "the message of %s was not printed: '%s'", e.type.c_str(), show(text.substr(at)).c_str());
            at += 3 + (text.compare(at + 2, e.message.size(), e.message) == 0 ? e.message.size() : 0);
        }
    }
    if(out->sink == SINK_CERR_FAILS || out->sink == SINK_CERR_THROWS || out->sink == SINK_CERR_EXCEPTIONS || failed || c->failed || e.evil || e.foreign || !e.have_ref || !c->op[8]) return;
    // the trace: the tail of the printed addresses is the failing stack
    std::vector<uintptr_t> got; std::string tail = text.substr(at);
    for(size_t p = tail.find(" 0x"); p != std::string::npos; p = tail.find(" 0x", p + 3)) { size_t h = tail.rfind('\n', p); size_t b = h == std::string::npos ? 0 : h + 1; if(tail[b] == '#') got.push_back(uintptr_t(strtoull(tail.c_str() + p + 1, nullptr, 16))); }
    auto& want = e.ref.ips; std::string why;
    // a noexcept boundary or a landing in between may have unwound the inner levels: only what is above both is certain
    size_t lost = c->op[1] == NOEXCEPT || c->op[1] == DTOR || c->op[1] == HANDED_OVER || c->op[1] == IN_FORMAT || c->op[1] == IN_LOG ? 4 : 0;
    // what ended the process called the handler: that call is part of the trace (unless the formatter hides what is inside of a throw)
    auto entry = reinterpret_cast<uintptr_t>(&on_terminate_here);
    SIM_CHECK(c->op[1] != DIRECT || got.empty() || std::any_of(got.begin(), got.end(), [&](uintptr_t g) { return g > entry && g < entry + 512; }), "wrong-trace", "the caller of the terminate handler is not in the printed trace: got %s", stk::show(got, false).c_str());
    SIM_CHECK(!got.empty(), "no-trace", "no trace was printed: '%s'", show(tail).c_str());
    for(size_t i = 1 + (e.cpp ? 0 : lost); i < want.size(); i++) {
        size_t back = want.size() - i; if(back > got.size()) { violation("wrong-trace", "the printed trace has %zu frames, the failing stack has %zu: got %s, expected %s", got.size(), want.size(), stk::show(got, false).c_str(), stk::show(want, true).c_str()); }
        uintptr_t g = got[got.size() - back];
        if(g >= want[i] || g + 16 < want[i]) violation("wrong-trace", "printed frame %zu is %s, the failing stack returns to %s there: got %s, expected %s", got.size() - back, stk::name_of(g).c_str(), stk::name_of(want[i]).c_str(), stk::show(got, false).c_str(), stk::show(want, true).c_str());
    }
    if(e.cpp) { size_t off = got.size() - std::min(got.size(), want.size()); SIM_CHECK(off <= 1, "wrong-trace", "the exception's trace has %zu more frames than the stack it was made on", off); }
    stat("traces");
}
void other(long seed, long n) {
    for(long i = 0; i < n; i++) {
        auto in = frames(uint64_t(seed + i), 5); cpptrace::raw_trace rt; rt.frames = in; cpptrace::stacktrace t;
        try { Sut s; t = rt.resolve(); auto k = cpptrace::get_snippet("/sim/src.cpp", 2, 2, false); (void)k; t.clear(); } catch(const std::exception&) {}
        yield_here("other");
    }
}
// op: thread, way, type, message, failing allocation, burst, depth, instant, expect a trace
void gen(Rng& r, Plan& p) {
    p.p["salt"] = r.below(1000000); p.p["mods"] = r.range(0, 2); p.p["pipe_cap"] = 65536; p.p["threads"] = r.chance(1, 2) ? 1 : r.range(2, 3); p.p["tty"] = r.chance(1, 2); p.p["absorb"] = r.chance(3, 4); p.p["helper_missing"] = r.chance(1, 20);
    p.p["sink"] = r.chance(1, 2) ? 0 : r.below(kSinks); p.p["room"] = r.chance(1, 2) ? r.below(60) : r.below(3000); p.p["warm"] = r.chance(1, 2);
    static const char* sites[] = {"fork", "exec", "pipe", "read", "write", "waitpid", "poll", "helper.crash", "read.eio", "write.eio", "readlink", "probe.exit", "fopen"};
    if(r.chance(1, 2)) for(auto s : sites) if(r.chance(1, 3)) p.p[std::string("f.") + s] = std::vector<long>{20, 100, 400}[size_t(r.below(3))];
    bool second = p.p["threads"] > 1 && r.chance(1, 4);
    for(long t = 0; t < p.p["threads"]; t++) {
        bool fails = t == 0 || (second && t == 1);
        long way = fails ? r.below(kWays) : -1;
        long alloc = r.chance(1, 2) ? r.range(1, r.chance(1, 2) ? 10 : 200) : 0, burst = r.chance(1, 2) ? 1000000 : r.range(1, 5);
        if(!fails) { p.ops.push_back({t, -1, r.below(100000), r.range(1, 4)}); continue; }
        p.ops.push_back({t, way, r.below(kTypes), r.below(1000), alloc, burst, r.chance(1, 3) ? r.range(10, 120) : r.range(0, 5), way == IN_FORMAT ? r.range(1, 5) : r.range(1, 60), !second && p.p["absorb"]});
    }
}
void exec(const Plan& p) {
    make(p.get("mods"), uint64_t(p.get("salt")), false); stk::gcc(); vfs_put("/sim/src.cpp", "a\nb\nc\n");
    out = new Out; out->sink = p.get("sink"); out->room = p.get("room"); sched_other = p.get("threads") > 1;
    cookie_io_functions_t io{}; io.write = ck_write; FILE* f = fopencookie(nullptr, "w", io); setvbuf(f, nullptr, _IONBF, 0); stderr = f;
    std::cerr.rdbuf(new CerrBuf); if(out->sink == SINK_CERR_EXCEPTIONS) std::cerr.exceptions(std::ios::badbit | std::ios::failbit);
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); cpptrace::absorb_trace_exceptions(p.get("absorb")); cpptrace::register_terminate_handler(); }
    lib_handler = std::get_terminate(); std::set_terminate(on_terminate); set_abort_ok(on_abort);
    faults_enabled(false);
    if(p.get("warm")) { Sut s; auto t = cpptrace::stacktrace::current(); }
    for(auto& op : p.ops) spawn([&p, &op] {
        if(op[1] < 0) { other(op[2], op[3]); return; }
        Ctx* c = new Ctx; c->op = op; slots[task_id()] = c; for(int i = 0; i < op[3] % 5; i++) yield_here("before");
        depth(*c, op[6], go);
        violation("survived", "nothing terminated");
    }, "user");
    join_all();
}
Register reg({"term", gen, exec});
}
