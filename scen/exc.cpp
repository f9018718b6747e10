// C07: traced exception objects under copies, moves, assignments, hand-over between threads, concurrent queries and failures
#include "common.hpp"
#include "stack.hpp"
#include <cpptrace/exceptions.hpp>
#include <cpptrace/formatting.hpp>
#include <exception>
#include <stdexcept>
#include <system_error>
using namespace sim;
using namespace u;
namespace {
enum Kind { LOGIC, DOMAIN, INVALID, LENGTH, RANGE_OUT, RUNTIME, RANGE, OVER, UNDER, SYSTEM, NESTED, LAZY, kKinds };
struct Foreign { long x; };
// an application's own traced exceptions
struct Own : cpptrace::exception {
    std::string text; cpptrace::stacktrace none; explicit Own(std::string t) : text(std::move(t)) {}
    const char* what() const noexcept override { return text.c_str(); } const char* message() const noexcept override { return text.c_str(); } const cpptrace::stacktrace& trace() const noexcept override { return none; }
};
struct OwnError : cpptrace::runtime_error { long x; OwnError(std::string t, long v) : cpptrace::runtime_error(std::move(t), cpptrace::raw_trace{}), x(v) {} };
// what an exception object must say
struct Model {
    int kind = LOGIC; std::string message, fallback; std::vector<uintptr_t> ips; stk::Ref ref; bool captured = false, wrapped = false, may_lose = false; int ec = 0; bool message_lost = false; std::exception_ptr inner;
};
struct Obj {
    cpptrace::exception* e = nullptr; std::exception_ptr p; Model m; bool live = false;
    // what queries returned so far
    const char* what = nullptr; std::string what_text; const cpptrace::stacktrace* tr = nullptr; std::vector<std::string> frames; const char* msg = nullptr; bool trace_known = false;
};
long fatal() { return fault_count("fork") + fault_count("exec") + fault_count("pipe") + fault_count("helper.crash") + fault_count("probe.exit") + fault_count("probe.kill") + fault_count("read.eio") + fault_count("write.eio"); }
struct Env { bool missing = false; bool absorb = true; } env;

template<class T> T* build(Model& m, cpptrace::raw_trace* rt) {
    std::string text; { Harness h; text = m.message; }
    return rt ? new T(std::move(text), std::move(*rt)) : new T(std::move(text));
}
// a class without text of its own
__attribute__((noinline)) cpptrace::exception* construct(Model& m, cpptrace::raw_trace* rt, const std::string& text, std::exception_ptr inner) {
    if(!rt) { Harness h; m.ref = stk::here(); m.captured = true; }
    switch(m.kind) {
        case LOGIC: return build<cpptrace::logic_error>(m, rt); case DOMAIN: return build<cpptrace::domain_error>(m, rt); case INVALID: return build<cpptrace::invalid_argument>(m, rt);
        case LENGTH: return build<cpptrace::length_error>(m, rt); case RANGE_OUT: return build<cpptrace::out_of_range>(m, rt); case RUNTIME: return build<cpptrace::runtime_error>(m, rt);
        case RANGE: return build<cpptrace::range_error>(m, rt); case OVER: return build<cpptrace::overflow_error>(m, rt); case UNDER: return build<cpptrace::underflow_error>(m, rt);
        case SYSTEM: { std::string t; { Harness h; t = text; } return rt ? new cpptrace::system_error(m.ec, std::move(t), std::move(*rt)) : new cpptrace::system_error(m.ec, std::move(t)); }
        case NESTED: return rt ? new cpptrace::nested_exception(inner, std::move(*rt)) : new cpptrace::nested_exception(inner);
        default: return rt ? new cpptrace::lazy_exception(std::move(*rt)) : new cpptrace::lazy_exception();
    }
}
#define BY_KIND(k, X) switch(k) { case LOGIC: { X(cpptrace::logic_error) } break; case DOMAIN: { X(cpptrace::domain_error) } break; case INVALID: { X(cpptrace::invalid_argument) } break; case LENGTH: { X(cpptrace::length_error) } break; \
    case RANGE_OUT: { X(cpptrace::out_of_range) } break; case RUNTIME: { X(cpptrace::runtime_error) } break; case RANGE: { X(cpptrace::range_error) } break; case OVER: { X(cpptrace::overflow_error) } break; case UNDER: { X(cpptrace::underflow_error) } break; \
    case SYSTEM: { X(cpptrace::system_error) } break; case NESTED: { X(cpptrace::nested_exception) } break; default: { X(cpptrace::lazy_exception) } }

std::string text_of(long seed) { switch(seed % 6) { case 0: return ""; case 1: return "short"; case 2: return "a message that does not fit into a small string buffer at all"; case 3: return "with\nnewline and \x01"; case 4: return std::string(300, 'm'); default: return fmt("message %ld", seed); } }
void fill_model(Model& m, long seed, std::string& text) {
    text = text_of(seed); m.message = text;
    if(m.kind == LAZY) m.message = "cpptrace::lazy_exception";
    if(m.kind == SYSTEM) { m.ec = std::vector<int>{ENOENT, ENOMEM, EIO, 0, 99999}[size_t(seed % 5)]; m.fallback = text; m.message = text + ": " + std::error_code(m.ec, std::generic_category()).message(); }
    if(m.kind == NESTED) {
        switch(seed % 6) {
            case 3: m.inner = std::make_exception_ptr(Own(text)); m.message = "Nested exception: " + text; break;
            case 4: m.inner = std::make_exception_ptr(OwnError(text, seed)); m.message = "Nested exception: " + text + ":\nStack trace (most recent call first):\n<empty trace>"; break;
            case 0: m.inner = std::make_exception_ptr(std::runtime_error(text)); m.message = "Nested exception: " + text; break;
            case 1: m.inner = std::make_exception_ptr(int(seed)); m.message = "Nested exception holding instance of int"; break;
            case 2: { cpptrace::raw_trace none; m.inner = std::make_exception_ptr(cpptrace::runtime_error(std::string(text), std::move(none))); m.message = "Nested exception: " + text + ":\nStack trace (most recent call first):\n<empty trace>"; break; }
            default: m.inner = std::make_exception_ptr(Foreign{seed}); m.message = "Nested exception holding instance of (anonymous namespace)::Foreign";
        }
    }
}
std::vector<std::string> flat(const cpptrace::stacktrace& t) { std::vector<std::string> v; for(auto& f : t.frames) v.push_back(show(f)); return v; }

// ---- queries; every one checks against the model and against what the object said before
struct Armed { long n, burst; };
template<class Fn> long guarded(Armed a, Fn fn) { { Sut s; if(a.n) arm_alloc(a.n, a.burst); fn(); } return disarm_alloc(); }

// what a message may be after a failed allocation
bool lesser(const Model& m, const std::string& s) { return m.message_lost && (m.kind == SYSTEM ? s == m.fallback : m.kind == NESTED && s.compare(0, 16, "Nested exception") == 0); }
void check_trace(Obj& o, const cpptrace::stacktrace& t, long failed, bool shared) {
    auto& m = o.m;
    if(failed) m.may_lose = true;
    if(t.frames.empty() && m.may_lose) return;
    if(m.captured) {
        std::vector<uintptr_t> got; for(auto& f : t.frames) got.push_back(f.raw_address);
        auto& want = m.ref.ips; size_t off = got.size() >= want.size() ? got.size() - want.size() : ~size_t(0);
        if(off == ~size_t(0)) { if(env.absorb || !got.empty() || !fatal()) SIM_CHECK(got.empty() && m.may_lose, "wrong-trace", "the trace has %zu frames, the stack at construction had %zu: %s", got.size(), want.size(), stk::show(got, false).c_str()); return; }
        SIM_CHECK(off <= (m.wrapped ? 0 : 2), "wrong-trace", "%zu frames before the constructing function: %s", off, stk::show(got, false).c_str());
        for(size_t i = 0; i < off; i++) SIM_CHECK(stk::name_of(got[i]).find("(_ZN8cpptrace") == std::string::npos && stk::name_of(got[i]).find("(_ZNK8cpptrace") == std::string::npos, "wrong-trace", "the trace begins within the library: %s", stk::show(got, false).c_str());
        for(size_t i = 1; i < want.size(); i++) SIM_CHECK(got[off + i] < want[i] && got[off + i] + 16 >= want[i], "wrong-trace", "level %zu is %s, the call there returns to %s", i, stk::name_of(got[off + i]).c_str(), stk::name_of(want[i]).c_str());
        SIM_CHECK(stk::func_of(got[off]) == stk::func_of(want[0] - 1), "wrong-trace", "the constructing level is %s instead of %s", stk::name_of(got[off]).c_str(), stk::name_of(want[0]).c_str());
    } else {
        if(t.frames.empty() && !m.ips.empty()) { SIM_CHECK(m.may_lose || (!env.absorb && (fatal() || env.missing || fault_count("readlink"))), "lost-trace", "the trace is empty although nothing failed"); return; }
        FrameVerdict v; v.no_memory = m.may_lose; check_frames(m.ips, t, v, fault_count("readlink") > 0);
        if(!fatal() && !env.missing && !m.may_lose) SIM_CHECK(v.degraded == 0, "over-degraded", "%d frames unresolved although nothing failed", v.degraded);
    }
    (void)shared;
}
void query(Obj& o, int which, Armed a, bool shared) {
    if(!o.live) return;
    auto& m = o.m;
    switch(which) {
        case 0: {
            const char* g = nullptr; long failed = guarded(a, [&] { g = o.e->message(); });
            SIM_CHECK(g, "null-text", "message() is null");
            std::string s = g; if(failed && m.kind == NESTED) m.message_lost = true;
            bool lost = lesser(m, s);
            SIM_CHECK(s == m.message || lost, "wrong-message", "message() is '%s' instead of '%s'", s.substr(0, 100).c_str(), m.message.substr(0, 100).c_str());
            if(!lost && !shared) { SIM_CHECK(!o.msg || o.msg == g, "moved-reference", "message() moved from one place to another"); o.msg = g; }
            break;
        }
        case 1: {
            const cpptrace::stacktrace* t = nullptr; long failed = guarded(a, [&] { t = &o.e->trace(); });
            check_trace(o, *t, failed, shared);
            if(o.trace_known && !shared) { SIM_CHECK(flat(*t) == o.frames, "changed-trace", "the trace changed between two queries"); SIM_CHECK(o.tr == t, "moved-reference", "trace() moved from one place to another"); }
            if(!shared) { o.tr = t; o.frames = flat(*t); o.trace_known = true; }
            break;
        }
        case 2: {
            const char* g = nullptr; long failed = guarded(a, [&] { g = o.e->what(); });
            SIM_CHECK(g, "null-text", "what() is null");
            std::string s = g, msg = m.message; if(failed) { m.may_lose = true; if(m.kind == NESTED) m.message_lost = true; }
            // without memory what() may be the message alone, and the message a lesser one
            if(s == msg || lesser(m, s.substr(0, s.find(":\nStack trace")))) { if(s == msg) { SIM_CHECK(failed || m.message_lost, "lost-text", "what() is only the message although nothing failed"); break; } if(s.find(":\nStack trace") == std::string::npos) { SIM_CHECK(failed, "lost-text", "what() is only a message although nothing failed"); break; } if(s.compare(0, msg.size() + 2, msg + ":\n") != 0) msg = s.substr(0, s.rfind(":\nStack trace")); }
            SIM_CHECK(s.compare(0, msg.size() + 2, msg + ":\n") == 0, "wrong-what", "what() is '%s', the message is '%s'", s.substr(0, 160).c_str(), msg.substr(0, 100).c_str());
            const cpptrace::stacktrace* t; { Sut su; t = &o.e->trace(); }
            check_trace(o, *t, failed, shared);
            if(o.trace_known && !shared) { SIM_CHECK(flat(*t) == o.frames, "changed-trace", "the trace changed between two queries"); SIM_CHECK(o.tr == t, "moved-reference", "trace() moved"); }
            if(!shared) { o.tr = t; o.frames = flat(*t); o.trace_known = true; }
            std::string want; { Sut su; std::string w = t->to_string(); Harness h; want = msg + ":\n" + std::string(w.data(), w.size()); }
            SIM_CHECK(s == want, "wrong-what", "what() is '%s' instead of '%s'", s.substr(0, 400).c_str(), want.substr(0, 400).c_str());
            if(o.what && !shared) SIM_CHECK(o.what == g && o.what_text == s, "moved-reference", "what() changed between two queries");
            if(!shared) { o.what = g; o.what_text = s; }
            break;
        }
        default: {
            if(m.kind == SYSTEM) { auto* se = dynamic_cast<cpptrace::system_error*>(o.e); int v = 0; bool g = false; guarded(a, [&] { auto& c = se->code(); v = c.value(); g = c.category() == std::generic_category(); }); SIM_CHECK(v == m.ec && g, "wrong-code", "code() is %d instead of %d", v, m.ec); }
            if(m.kind == NESTED) { auto* ne = dynamic_cast<cpptrace::nested_exception*>(o.e); bool same = false; guarded(a, [&] { auto p = ne->nested_ptr(); Harness h; same = p == m.inner; }); SIM_CHECK(same, "wrong-nested", "nested_ptr() is another exception"); }
        }
    }
    if(o.what && !shared) SIM_CHECK(o.what_text == o.what, "changed-text", "the text what() returned earlier changed");
    event("query %d kind=%d", which, m.kind); stat("checked");
    state(mixh(uint64_t(which * 100 + m.kind), uint64_t(m.may_lose * 4 + o.trace_known * 2 + (o.what != nullptr))));
}
void forget(Obj& o) { o.what = nullptr; o.tr = nullptr; o.msg = nullptr; o.trace_known = false; o.frames.clear(); o.what_text.clear(); }
void kill(Obj& o) { { Sut s; if(o.p) { std::exception_ptr p; { Harness h; p.swap(o.p); } } else delete o.e; } o.e = nullptr; o.live = false; forget(o); }

__attribute__((noinline)) void deep(long n, const std::function<void()>& f) { volatile char pad[32]; pad[0] = char(n); if(n > 0) deep(n - 1, f); else f(); asm volatile("" :: "r"(pad) : "memory"); }

void create(Obj& o, const Op& op, Armed a) {
    kill(o); Model m; m.kind = int(op[3] % kKinds); std::string text; fill_model(m, op[4], text);
    cpptrace::raw_trace rt; bool custom = op[5] & 1; if(custom) { m.ips = frames(uint64_t(op[4]), op[5] % 9); rt.frames = m.ips; }
    cpptrace::exception* e = nullptr; bool threw = false; long failed = 0;
    deep(op[5] % 4, [&] {
        { Sut s; if(a.n) arm_alloc(a.n, a.burst); try { e = construct(m, custom ? &rt : nullptr, text, m.inner); } catch(const std::bad_alloc&) { threw = true; } }
        failed = disarm_alloc();
    });
    SIM_CHECK(!threw || failed, "foreign-exception", "constructing threw bad_alloc although nothing failed");
    if(threw) return;
    if(failed) { m.may_lose = true; m.message_lost = true; }
    o.e = e; o.m = m; o.live = true; forget(o);
}
// thrown, caught by pointer to the object the runtime keeps
void create_thrown(Obj& o, const Op& op, Armed a, bool wrapped) {
    kill(o); Model m; m.kind = int(op[3] % kKinds); if(wrapped) m.kind = NESTED; std::string text; fill_model(m, op[4], text);
    std::exception_ptr p; bool custom = false; long failed = 0; cpptrace::exception* e = nullptr; bool oom = false, own = false, own_ok = false;
    auto thrower = [&] {
        Sut s; if(a.n) arm_alloc(a.n, a.burst);
        try {
            if(wrapped) { { Harness h; m.ref = stk::here(); m.captured = m.wrapped = true; } if(op[5] & 8) { auto f = [&] { std::rethrow_exception(m.inner); return 1; }; int v = CPPTRACE_WRAP(f()); (void)v; } else CPPTRACE_WRAP_BLOCK(std::rethrow_exception(m.inner);); }
            else {
                cpptrace::exception* q; { cpptrace::exception* c = construct(m, nullptr, text, m.inner); q = c; }
                #define THROW(T) T& r = *static_cast<T*>(q); struct D { cpptrace::exception* q; ~D() { delete q; } } d{q}; throw r;
                BY_KIND(m.kind, THROW)
            }
        } catch(Own& x) { Harness h; p = std::current_exception(); own = true; own_ok = x.text == text && wrapped && op[4] % 6 == 3; } catch(OwnError& x) { Harness h; p = std::current_exception(); own = true; own_ok = x.x == op[4] && wrapped && op[4] % 6 == 4; }
        catch(cpptrace::exception& x) { Harness h; p = std::current_exception(); e = &x; } catch(const std::bad_alloc&) { oom = true; }
    };
    deep(op[5] % 4, thrower);
    failed = disarm_alloc(); (void)custom;
    SIM_CHECK(!oom || failed, "foreign-exception", "throwing gave bad_alloc although nothing failed");
    if(oom) return;
    // an exception that was traced already is not wrapped again
    if(own) { SIM_CHECK(own_ok, "wrong-type", "the application's own traced exception arrived changed"); SIM_CHECK(p == m.inner, "wrong-type", "another exception object arrived"); return; }
    SIM_CHECK(e, "lost-exception", "the exception did not arrive");
    SIM_CHECK(!wrapped || op[4] % 6 < 3 || op[4] % 6 == 5, "wrapped-twice", "the application's own traced exception was wrapped again");
    if(wrapped && op[4] % 6 == 2) { m.kind = RUNTIME; m.message = text_of(op[4]); m.captured = m.wrapped = false; m.ips.clear(); m.fallback.clear(); }
    if(failed) { m.may_lose = true; m.message_lost = true; }
    o.p = p; o.e = e; o.m = m; o.live = true; forget(o);
}
// op: thread, what, object, other/kind, seed, variant, failing allocation, burst
void step(std::vector<Obj>& os, const Op& op, bool faults) {
    Armed a{faults ? op[6] : 0, op[7]}; auto& o = os[size_t(op[2]) % os.size()]; auto& b = os[size_t(op[3]) % os.size()];
    bool threw = false; long failed = 0;
    auto guard = [&](auto fn) { { Sut s; if(a.n) arm_alloc(a.n, a.burst); try { fn(); } catch(const std::bad_alloc&) { threw = true; } } failed = disarm_alloc(); SIM_CHECK(!threw || failed, "foreign-exception", "bad_alloc although nothing failed (step %ld)", op[1]); };
    switch(op[1]) {
        case 0: create(o, op, a); break;
        case 1: create_thrown(o, op, a, false); break;
        case 2: create_thrown(o, op, a, true); break;
        case 3: {   // copy
            if(!b.live || &o == &b) break; kill(o); cpptrace::exception* c = nullptr;
            #define COPY(T) c = new T(*static_cast<T*>(b.e));
            guard([&] { BY_KIND(b.m.kind, COPY) });
            if(!threw) { o.e = c; o.m = b.m; o.live = true; forget(o); }
            break;
        }
        case 4: {   // move
            if(!b.live || &o == &b) break; kill(o); cpptrace::exception* c = nullptr;
            #define MOVE(T) c = new T(std::move(*static_cast<T*>(b.e)));
            guard([&] { BY_KIND(b.m.kind, MOVE) });
            if(!threw) { o.e = c; o.m = b.m; o.live = true; forget(o); kill(b); }
            break;
        }
        case 5: {   // copy assignment, itself included
            if(!b.live || !o.live || o.m.kind != b.m.kind) break;
            #define ASSIGN(T) *static_cast<T*>(o.e) = *static_cast<T*>(b.e);
            guard([&] { BY_KIND(b.m.kind, ASSIGN) });
            if(threw) { kill(o); break; }   // still destructible
            if(&o != &b) { o.m = b.m; forget(o); } else o.msg = nullptr;
            break;
        }
        case 6: {   // move assignment, itself included
            if(!b.live || !o.live || o.m.kind != b.m.kind) break;
            #define MASSIGN(T) *static_cast<T*>(o.e) = std::move(*static_cast<T*>(b.e));
            guard([&] { BY_KIND(b.m.kind, MASSIGN) });
            if(&o == &b) { forget(o); query(o, 1, Armed{0, 0}, false); kill(o); } else { o.m = b.m; forget(o); kill(b); }
            break;
        }
        case 7: {   // handed over: rethrown from the pointer and caught by value
            if(!o.p || !o.live) break; cpptrace::exception* c = nullptr; cpptrace::exception* same = nullptr;
            #define BYVALUE(T) try { std::rethrow_exception(o.p); } catch(T& x) { same = &x; c = new T(x); }
            guard([&] { BY_KIND(o.m.kind, BYVALUE) });
            if(threw) break;
            if(same) SIM_CHECK(same == o.e, "lost-exception", "rethrowing the pointer gave another object");
            if(c) { Obj n; n.e = c; n.m = o.m; n.live = true; for(int i = 0; i < 4; i++) query(n, i, {0, 0}, false); kill(n); }
            break;
        }
        default: query(o, int(op[1] - 8) % 4, a, false);
    }
    event("step %ld threw=%d failed=%ld", op[1], threw, failed);
}
void gen_env(Rng& r, Plan& p) {
    p.p["salt"] = r.below(1000000); p.p["mods"] = r.range(0, 3); p.p["exe"] = r.chance(1, 2); p.p["pipe_cap"] = 65536; p.p["helper_missing"] = r.chance(1, 25); p.p["absorb"] = r.chance(4, 5);
    static const char* sites[] = {"fork", "exec", "pipe", "read", "write", "waitpid", "poll", "helper.crash", "read.eio", "write.eio", "readlink"};
    if(r.chance(1, 2)) for(auto s : sites) if(r.chance(1, 3)) p.p[std::string("f.") + s] = std::vector<long>{15, 60, 200}[size_t(r.below(3))];
}
void begin(const Plan& p) {
    make(p.get("mods"), uint64_t(p.get("salt")), p.get("exe")); env.missing = p.get("helper_missing"); env.absorb = p.get("absorb");
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); cpptrace::absorb_trace_exceptions(env.absorb); }
}
Op gen_op(Rng& r, long threads, bool query_only) { return {r.below(threads), query_only || r.chance(1, 2) ? r.range(8, 11) : r.below(8), r.below(4), r.below(48), r.below(1000000), r.below(64), r.chance(1, 3) ? r.range(1, r.chance(1, 2) ? 12 : 200) : 0, r.chance(1, 3) ? 30 : 1}; }
void seq_gen(Rng& r, Plan& p) { gen_env(r, p); for(int i = 0; i < 3; i++) { auto o = gen_op(r, 1, false); o[1] = r.below(3); o[2] = i; p.ops.push_back(o); } long n = r.range(3, 14); for(long i = 0; i < n; i++) p.ops.push_back(gen_op(r, 1, false)); }
void seq_exec(const Plan& p) {
    begin(p);
    auto run = [&](bool faults) { std::vector<Obj> os(4); for(auto& op : p.ops) step(os, op, faults); faults_enabled(false); for(auto& o : os) for(int i = 0; i < 4; i++) query(o, i, {0, 0}, false); for(auto& o : os) for(int i = 0; i < 4; i++) query(o, i, {0, 0}, false); for(auto& o : os) kill(o); faults_enabled(faults); };
    faults_enabled(false);
    for(auto& op : p.ops) if(op[5] & 1) { Sut s; cpptrace::raw_trace rt; { Harness h; rt.frames = frames(uint64_t(op[4]), op[5] % 9); } auto t = rt.resolve(); }   // per-object caches
    run(false); faults_enabled(true);
    Mem m0 = live(); auto s0 = snapshot();
    run(true);
    Mem m1 = live(); auto d = diff(s0, snapshot(), kReadsObjects);
    SIM_CHECK(d.empty(), "leak", "at the end: %s", d.c_str());
    SIM_CHECK(m1.blocks <= m0.blocks || !keeps_growing([&] { faults_enabled(true); run(true); }, 15), "memory-leak", "%ld blocks (%ld bytes) more are live after all exceptions are gone", m1.blocks - m0.blocks, m1.bytes - m0.bytes);
}
Register r1({"exc", seq_gen, seq_exec});
// several threads query and copy the same objects
void par_gen(Rng& r, Plan& p) { gen_env(r, p); p.p["threads"] = r.range(2, 3); p.p["prequery"] = r.below(8); for(int i = 0; i < 2; i++) { auto o = gen_op(r, 1, false); o[1] = r.below(3); o[2] = i; o[6] = 0; p.ops.push_back(o); } long n = r.range(2, 8); for(long i = 0; i < n; i++) p.ops.push_back(gen_op(r, p.p["threads"], true)); }
void par_exec(const Plan& p) {
    begin(p); std::vector<Obj> os(2); faults_enabled(false);
    for(size_t i = 0; i < 2 && i < p.ops.size(); i++) step(os, p.ops[i], false);
    if(p.get("prequery") == 1) query(os[0], 1, {0, 0}, false); else if(p.get("prequery") == 2) query(os[0], 2, {0, 0}, false);
    for(auto& o : os) forget(o);
    for(auto& o : os) for(auto& q : p.ops) o.m.message_lost |= q[6] && o.m.kind == NESTED;
    faults_enabled(true);
    for(long t = 0; t < p.get("threads"); t++) spawn([&p, t, &os] {
        for(size_t i = 2; i < p.ops.size(); i++) if(p.ops[i][0] == t) {
            auto& op = p.ops[i]; auto& o = os[size_t(op[2]) % 2]; if(!o.live) continue;
            if(op[3] % 6 == 0) {   // a copy of one's own, made while others query
                cpptrace::exception* c = nullptr; bool threw = false; { Sut s; if(op[6]) arm_alloc(op[6], op[7]); try { auto& b = o; BY_KIND(b.m.kind, COPY) } catch(const std::bad_alloc&) { threw = true; } }
                disarm_alloc(); if(threw) continue;
                Obj n; n.e = c; n.m = o.m; n.live = true; n.m.may_lose = true; for(int k = 0; k < 4; k++) query(n, k, {0, 0}, false); kill(n);
            } else if(o.p && op[3] % 6 == 1) {   // its own reference to the shared exception
                std::exception_ptr mine = o.p; { Sut s; try { std::rethrow_exception(mine); } catch(cpptrace::exception& x) { Harness h; Obj n; n.e = &x; n.m = o.m; n.live = true; n.m.may_lose = true; query(n, int(op[1] - 8) % 4, {0, 0}, true); } }
            } else { Obj n; n.e = o.e; n.m = o.m; n.live = true; bool lose = false; for(auto& q : p.ops) lose |= q[6] != 0; n.m.may_lose |= lose; query(n, int(op[1] - 8) % 4, {op[6], op[7]}, true); }
        }
    }, "user");
    join_all();
    faults_enabled(false);
    for(auto& o : os) { bool lose = false; for(auto& q : p.ops) lose |= q[6] != 0; o.m.may_lose |= lose; for(int k = 0; k < 8; k++) query(o, k % 4, {0, 0}, false); }
    for(auto& o : os) kill(o);
}
Register r2({"exc_par", par_gen, par_exec});
}
