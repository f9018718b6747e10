// C04: traces of current exceptions over random nested programs on several threads
#include "stack.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <cxxabi.h>
#include <exception>
#include <stdexcept>
using namespace sim;
namespace {
struct A { long id; virtual ~A() {} };
struct B : A { long more = 1; };
struct Unrelated {};
enum Kind { tA, tB, tInt, tRt, tPtr, nKinds };

struct Point { stk::Ref ref; long id = 0; bool maybe_lost = false, rethrown = false; const std::type_info* type = nullptr; };
struct St {
    Rng r{0};
    Point cur, re; bool has_cur = false, has_re = false; bool cur_unknown = false;
    bool cur_resolved = false, re_resolved = false;
    Point pending; int pending_kind = 0;    // 0 fresh, 1 rethrow, 2 none (a rethrow of something this thread never saw)
    long budget = 0, depth = 0; bool oom = false;
    std::exception_ptr saved;
    long next_id = 1;
};
std::exception_ptr* shared_ptr_slot;

void stmt(St& s);
void body(St& s, long n) { for(long i = 0; i < n && s.budget > 0; i++) stmt(s); }

// ---- checks
bool raw_ok(const std::vector<cpptrace::frame_ptr>& got, const Point& p, std::string& why) {
    auto& want = p.ref.ips;
    if(got.empty()) { if(p.maybe_lost) return true; why = "the trace is empty"; return false; }
    if(got.size() < want.size()) { why = fmt("%zu frames, the stack at the throw point had %zu: got %s, expected %s", got.size(), want.size(), stk::show(got, false).c_str(), stk::show(want, true).c_str()); return false; }
    size_t off = got.size() - want.size();
    for(size_t i = 1; i < want.size(); i++) if(got[off + i] >= want[i] || got[off + i] + 16 < want[i]) { why = fmt("level %zu is %s, the call there returns to %s; got %s, expected %s", i, stk::name_of(got[off + i]).c_str(), stk::name_of(want[i]).c_str(), stk::show(got, false).c_str(), stk::show(want, true).c_str()); return false; }
    if(stk::func_of(got[off]) != stk::func_of(want[0] - 1)) { why = fmt("the throwing level is %s instead of %s", stk::name_of(got[off]).c_str(), stk::name_of(want[0] - 1).c_str()); return false; }
    static void* rethrow_fn[2] = {stk::func_of(uintptr_t(static_cast<void(*)()>(&cpptrace::rethrow)) + 1), stk::func_of(uintptr_t(static_cast<void(*)(std::exception_ptr)>(&cpptrace::rethrow)) + 1)};
    for(size_t i = 0; i < off; i++) if(stk::in_exe(got[i])) {
        auto* f = stk::func_of(got[i]);
        if(p.rethrown && i + 1 == off && (f == rethrow_fn[0] || f == rethrow_fn[1])) continue;   // cpptrace::rethrow itself throws
        if(p.maybe_lost) continue;   // the exception itself came from the failed allocation: operator new is the harness's
        why = fmt("frame %zu before the throw point is %s", i, stk::name_of(got[i]).c_str()); return false;
    }
    if(off > 12) { why = fmt("%zu frames before the throw point", off); return false; }
    return true;
}
void check_now(St& s, const char* when) {
    std::vector<cpptrace::frame_ptr> c, e; bool was = false, threw = false; bool used_resolved_c = false, used_resolved_e = false;
    bool res_c = s.cur_resolved || s.r.chance(1, 4), res_e = s.re_resolved || s.r.chance(1, 4);
    bool fail_resolve = false;
    int order = int(s.r.below(3));
    try {
        Sut su;
        for(int k = 0; k < 3; k++) switch((k + order) % 3) {
            case 0: if(res_c) { auto& t = cpptrace::from_current_exception(); used_resolved_c = true; for(auto& f : t.frames) c.push_back(f.raw_address); } else { c = cpptrace::raw_trace_from_current_exception().frames; } break;
            case 1: if(res_e) { auto& t = cpptrace::from_current_exception_rethrow(); used_resolved_e = true; for(auto& f : t.frames) e.push_back(f.raw_address); } else { e = cpptrace::raw_trace_from_current_exception_rethrow().frames; } break;
            case 2: was = cpptrace::current_exception_was_rethrown(); break;
        }
    } catch(...) { threw = true; }
    SIM_CHECK(!threw, "threw", "%s: asking for the current exception's trace threw", when);
    s.cur_resolved = s.cur_resolved || used_resolved_c; s.re_resolved = s.re_resolved || used_resolved_e;
    std::string why;
    if(!s.cur_unknown) {
        if(!s.has_cur) SIM_CHECK(c.empty(), "foreign-trace", "%s: a trace of %zu frames although there is no current exception: %s", when, c.size(), stk::show(c, false).c_str());
        else SIM_CHECK(raw_ok(c, s.cur, why), c.empty() ? "lost-trace" : "wrong-trace", "%s: the trace is not the throw point's: %s", when, why.c_str());
    }
    if(!s.has_re) { SIM_CHECK(e.empty(), "foreign-rethrow", "%s: a rethrow trace of %zu frames although nothing was rethrown", when, e.size()); SIM_CHECK(!was, "wrong-flag", "%s: reported as rethrown", when); }
    else { SIM_CHECK(raw_ok(e, s.re, why), e.empty() ? "lost-rethrow" : "wrong-rethrow", "%s: the rethrow trace is not the rethrow point's: %s", when, why.c_str()); SIM_CHECK(was == !e.empty(), "wrong-flag", "%s: rethrown flag %d with a rethrow trace of %zu frames", when, was, e.size()); }
    (void)fail_resolve;
    { Sut su; std::vector<cpptrace::frame_ptr>().swap(c); std::vector<cpptrace::frame_ptr>().swap(e); }
    stat("checked");
}
// called first thing in every cpptrace handler
void on_caught(St& s) {
    long failed = disarm_alloc();
    s.pending.maybe_lost = failed > 0;
    // whatever happens to the trace, what is caught is what was thrown, and nothing is in flight any more
    auto* type = abi::__cxa_current_exception_type();
    if(s.pending_kind == 0 && s.pending.type) SIM_CHECK(type && (*type == *s.pending.type || (failed && *s.pending.type == typeid(std::runtime_error) && *type == typeid(std::bad_alloc))), "replaced-exception", "a %s was thrown, the handler has a %s (%ld allocations failed)", s.pending.type->name(), type ? type->name() : "foreign exception", failed);
    SIM_CHECK(std::uncaught_exceptions() == 0, "replaced-exception", "%d exceptions count as uncaught in the handler", std::uncaught_exceptions());
    if(s.pending_kind == 0) { s.cur = s.pending; s.has_cur = true; s.cur_unknown = false; s.has_re = false; s.cur_resolved = s.re_resolved = false; }
    else if(s.pending_kind == 1) { s.re = s.pending; s.has_re = true; s.re_resolved = false; }
    event("caught %d id=%ld failed=%ld depth=%zu", s.pending_kind, s.pending.id, failed, s.pending.ref.ips.size());
    state(uint64_t(s.pending_kind * 100 + s.has_re * 10) + s.pending.ref.ips.size() * 1000);
    check_now(s, "in the handler");
}
void on_plain_caught(St& s) { disarm_alloc(); event("plain catch"); if(s.r.chance(1, 2)) check_now(s, "in a plain handler"); }

// ---- throwing
__attribute__((noinline)) void do_throw(St& s, long kind) {
    s.pending = Point(); s.pending.id = s.next_id++; s.pending_kind = 0;
    s.pending.ref = stk::here();
    long arm = s.oom && s.r.chance(1, 3) ? s.r.range(1, 5) : 0, burst = s.r.chance(1, 3) ? 40 : 1;
    static int obj = 5;
    static const std::type_info* const types[] = {&typeid(A), &typeid(B), &typeid(int), &typeid(std::runtime_error), &typeid(int*)};
    s.pending.type = types[kind < tPtr ? kind : tPtr];
    Sut su;
    if(arm) arm_alloc(arm, burst);
    switch(kind) {
        case tA: { A a; a.id = s.pending.id; throw a; }
        case tB: { B b; b.id = s.pending.id; throw b; }
        case tInt: throw int(s.pending.id);
        case tRt: throw std::runtime_error("some message that is long enough to be allocated");
        default: throw &obj;
    }
}
__attribute__((noinline)) void do_rethrow_plain(St& s) { s.pending = Point(); s.pending.id = s.next_id++; s.pending_kind = 0; s.pending.ref = stk::here(); Sut su; if(s.oom && s.r.chance(1, 4)) arm_alloc(s.r.range(1, 3), 1); throw; }
__attribute__((noinline)) void do_rethrow(St& s) { s.pending = Point(); s.pending.id = s.next_id++; s.pending_kind = 1; s.pending.rethrown = true; s.pending.ref = stk::here(); Sut su; if(s.oom && s.r.chance(1, 3)) arm_alloc(s.r.range(1, 5), s.r.chance(1, 3) ? 40 : 1); cpptrace::rethrow(); }
__attribute__((noinline)) void do_rethrow_ptr(St& s, const std::exception_ptr& p) { s.pending = Point(); s.pending.id = s.next_id++; s.pending_kind = 1; s.pending.rethrown = true; s.pending.ref = stk::here(); Sut su; cpptrace::rethrow(p); }

// ---- handlers
void handler(St& s) {
    long n = s.r.below(4);
    for(long i = 0; i < n; i++) {
        switch(s.r.below(9)) {
            case 0: check_now(s, "again in the handler"); break;
            case 1: if(s.depth > 0) do_rethrow(s); break;
            case 2: if(s.depth > 0) do_rethrow_plain(s); break;
            case 3: if(s.depth > 0) do_throw(s, s.r.below(nKinds)); break;
            case 4: s.saved = std::current_exception(); break;
            case 5: if(s.saved && s.depth > 0) do_rethrow_ptr(s, s.saved); break;
            case 6: if(s.r.chance(1, 3)) { Sut su; cpptrace::clear_current_exception_traces(); s.has_cur = s.has_re = false; s.cur_unknown = false; s.cur_resolved = s.re_resolved = false; } check_now(s, "after clearing or not"); break;
            case 7: yield_here("handler"); break;
            default: stmt(s);
        }
    }
}
struct Depth { St& s; explicit Depth(St& s_) : s(s_) { s.depth++; } ~Depth() { s.depth--; } };
struct Dtor { St& s; ~Dtor() { yield_here("unwinding"); } };

template<class T> __attribute__((noinline)) void try_macro(St& s) {
    CPPTRACE_TRY { Depth d(s); Dtor x{s}; body(s, s.r.range(1, 3)); }
    CPPTRACE_CATCH(T) { on_caught(s); handler(s); }
}
__attribute__((noinline)) void try_macro_all(St& s) {
    CPPTRACE_TRY { Depth d(s); body(s, s.r.range(1, 3)); }
    CPPTRACE_CATCH(...) { on_caught(s); handler(s); }
}
template<class T> __attribute__((noinline)) void try_api(St& s) {
    // a handler of the utility that itself throws is C05's subject; these handlers only look
    cpptrace::try_catch([&] { Depth d(s); body(s, s.r.range(1, 3)); },
        [&](T) { on_caught(s); check_now(s, "again in a utility handler"); },
        [&](const Unrelated&) { violation("wrong-handler", "an unrelated handler ran"); });
}
__attribute__((noinline)) void try_api_all(St& s) {
    cpptrace::try_catch([&] { Depth d(s); body(s, s.r.range(1, 3)); },
        [&](const Unrelated&) { violation("wrong-handler", "an unrelated handler ran"); },
        [&]() { on_caught(s); check_now(s, "again in a utility handler"); });
}
__attribute__((noinline)) void try_plain(St& s) {
    try { Depth d(s); body(s, s.r.range(1, 2)); } catch(A&) { on_plain_caught(s); handler(s); } catch(std::exception&) { on_plain_caught(s); }
}
template<int N> __attribute__((noinline)) void call(St& s) { volatile int pad[N * 3 + 1]; pad[0] = N; if(s.r.chance(1, 3)) call<(N + 1) % 4>(s); else stmt(s); pad[0] = 2; }

void stmt(St& s) {
    if(s.budget-- <= 0) return;
    switch(s.r.below(18)) {
        case 0: case 1: try_macro<A&>(s); break;
        case 2: try_macro<const B&>(s); break;
        case 3: try_macro<int>(s); break;
        case 4: try_macro<const std::exception&>(s); break;
        case 5: try_macro<int*>(s); break;
        case 6: try_macro_all(s); break;
        case 7: try_api<const A&>(s); break;
        case 8: try_api_all(s); break;
        case 9: try_plain(s); break;
        case 10: call<0>(s); break;
        case 11: call<2>(s); break;
        case 12: yield_here("stmt"); break;
        case 13: {   // an exception that came from another thread
            if(s.depth > 0 && shared_ptr_slot && *shared_ptr_slot && s.r.chance(1, 3)) { auto p = *shared_ptr_slot; do_rethrow_ptr(s, p); }
            if(s.saved && shared_ptr_slot && s.r.chance(1, 2)) *shared_ptr_slot = s.saved;
            break;
        }
        default: if(s.depth > 0) do_throw(s, s.r.below(nKinds)); else yield_here("stmt");
    }
}
__attribute__((noinline)) void episode(St& s) {
    CPPTRACE_TRY { Depth d(s); body(s, 3); }
    CPPTRACE_CATCH(...) { on_caught(s); check_now(s, "at the outermost handler"); }
    check_now(s, "after the episode");
}
void gen(Rng& r, Plan& p) {
    p.p["threads"] = r.chance(1, 3) ? 1 : r.range(2, 3);
    p.p["oom"] = r.chance(1, 2);
    p.p["handover"] = r.chance(1, 2); p.p["absorb"] = r.chance(2, 3);
    long n = r.range(1, 8);
    for(long i = 0; i < n; i++) p.ops.push_back({r.below(p.p["threads"]), r.below(100000000), r.range(5, 40)});
}
void exec(const Plan& p) {
    if(p.get("handover")) shared_ptr_slot = new std::exception_ptr;
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); cpptrace::absorb_trace_exceptions(p.get("absorb")); }
    auto s0 = snapshot();
    for(long t = 0; t < p.get("threads"); t++) spawn([&p, t] {
        auto* s = new St; s->oom = p.get("oom");
        check_now(*s, "before any exception");
        for(auto& op : p.ops) if(op[0] == t) { s->r = Rng(uint64_t(op[1])); s->budget = op[2]; s->depth = 0; episode(*s); }
        { Sut su; cpptrace::clear_current_exception_traces(); }
    }, "thrower");
    join_all();
    auto d = diff(s0, snapshot(), true);
    SIM_CHECK(d.empty(), "leak", "after the exceptions: %s", d.c_str());
}
Register reg({"current", gen, exec});
}
