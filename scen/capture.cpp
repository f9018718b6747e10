// C17: captured traces against the harness's own unwinder, over random call structures, entry points and limits
#include "stack.hpp"
#include <cpptrace/cpptrace.hpp>
#include <ctrace/ctrace.h>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <ucontext.h>
using namespace sim;
namespace {
struct St { Rng r{0}; long budget = 0, depth = 0, limit = 0; bool deep = false, oom = false, signals = true; long checked = 0, work = 0, max_work = 0; };
#if defined(SIM_CONFIG_A2E)
constexpr size_t kHard = 400;
#else
constexpr size_t kHard = size_t(-1);
#endif
struct Got { std::vector<uintptr_t> v; bool threw = false; long failed = 0; size_t cap = 600; };

template<class C> void take(Got& g, const C& c) { Harness h; for(auto& f : c) g.v.push_back(f.raw_address); }
void take(Got& g, const std::vector<cpptrace::frame_ptr>& c) { Harness h; g.v = c; }
struct Arm { Got& g; Arm(Got& g_, long n, long burst) : g(g_) { if(n) arm_alloc(n, burst); } ~Arm() { g.failed = disarm_alloc(); } };
// every entry point has its own function, so that the reference is taken one statement before the capture
#define PROBE(name, ...) __attribute__((noinline)) stk::Ref name(Got& g, size_t skip, size_t depth, long arm, long burst) { \
    auto ref = stk::here(); (void)skip; (void)depth; try { Sut su; Arm a(g, arm, burst); __VA_ARGS__; } catch(...) { g.threw = true; } asm volatile("" ::: "memory"); return ref; }
PROBE(p_raw, { auto t = cpptrace::generate_raw_trace(skip); take(g, t.frames); })
PROBE(p_raw_d, { auto t = cpptrace::generate_raw_trace(skip, depth); take(g, t.frames); })
PROBE(p_obj, { auto t = cpptrace::generate_object_trace(skip); take(g, t.frames); })
PROBE(p_obj_d, { auto t = cpptrace::generate_object_trace(skip, depth); take(g, t.frames); })
PROBE(p_tr, { auto t = cpptrace::generate_trace(skip); take(g, t.frames); })
PROBE(p_tr_d, { auto t = cpptrace::generate_trace(skip, depth); take(g, t.frames); })
PROBE(p_craw, { auto t = cpptrace::raw_trace::current(skip); take(g, t.frames); })
PROBE(p_craw_d, { auto t = cpptrace::raw_trace::current(skip, depth); take(g, t.frames); })
PROBE(p_cobj, { auto t = cpptrace::object_trace::current(skip); take(g, t.frames); })
PROBE(p_cobj_d, { auto t = cpptrace::object_trace::current(skip, depth); take(g, t.frames); })
PROBE(p_ctr, { auto t = cpptrace::stacktrace::current(skip); take(g, t.frames); })
PROBE(p_ctr_d, { auto t = cpptrace::stacktrace::current(skip, depth); take(g, t.frames); })
PROBE(c_raw, { auto t = ctrace_generate_raw_trace(skip, depth); { Harness h; g.v.assign(t.frames, t.frames + t.count); } ctrace_free_raw_trace(&t); })
PROBE(c_obj, { auto t = ctrace_generate_object_trace(skip, depth); { Harness h; for(size_t i = 0; i < t.count; i++) g.v.push_back(t.frames[i].raw_address); } ctrace_free_object_trace(&t); })
PROBE(c_tr, { auto t = ctrace_generate_trace(skip, depth); { Harness h; for(size_t i = 0; i < t.count; i++) g.v.push_back(t.frames[i].raw_address); } ctrace_free_stacktrace(&t); })
PROBE(e_lazy, { cpptrace::lazy_exception e; take(g, e.trace().frames); })
PROBE(e_logic, { cpptrace::logic_error e("m"); take(g, e.trace().frames); })
PROBE(e_range, { cpptrace::range_error e("m"); take(g, e.trace().frames); })
PROBE(e_absorb, { auto t = cpptrace::detail::get_raw_trace_and_absorb(skip); take(g, t.frames); })
PROBE(e_absorb_d, { auto t = cpptrace::detail::get_raw_trace_and_absorb(skip, depth); take(g, t.frames); })
PROBE(e_thrown, { try { throw cpptrace::out_of_range("m"); } catch(const cpptrace::exception& e) { take(g, e.trace().frames); } })
struct Room { cpptrace::frame_ptr b[602]; };
void clear(Got& g, Room& x) { Harness h; for(size_t i = 0; i < g.cap + 2; i++) x.b[i] = 0x5a5a; }
void take_safe(Got& g, Room& x, size_t n) {
    Harness h;
    SIM_CHECK(n <= g.cap, "wrong-stack", "%zu frames in a buffer for %zu", n, g.cap);
    for(size_t i = n; i < std::min(g.cap + 2, n + 40); i++) SIM_CHECK(x.b[i] == 0x5a5a, "overrun", "element %zu of the buffer was written although only %zu frames were returned (size %zu)", i, n, g.cap);
    g.v.assign(x.b, x.b + n);
}
PROBE(s_raw, { Room x; clear(g, x); size_t n = cpptrace::safe_generate_raw_trace(x.b, g.cap, skip); take_safe(g, x, n); })
PROBE(s_raw_d, { Room x; clear(g, x); size_t n = cpptrace::safe_generate_raw_trace(x.b, g.cap, skip, depth); take_safe(g, x, n); })
PROBE(s_c, { Room x; clear(g, x); size_t n = ctrace_safe_generate_raw_trace(x.b, g.cap, skip, depth); take_safe(g, x, n); })
struct Probe { const char* name; stk::Ref (*f)(Got&, size_t, size_t, long, long); int kind; };   // kind bit 0: takes skip, bit 1: takes max_depth, bit 2: safe
const Probe probes[] = {
    {"generate_raw_trace", p_raw, 1}, {"generate_raw_trace(max)", p_raw_d, 3}, {"generate_object_trace", p_obj, 1}, {"generate_object_trace(max)", p_obj_d, 3}, {"generate_trace", p_tr, 1}, {"generate_trace(max)", p_tr_d, 3},
    {"raw_trace::current", p_craw, 1}, {"raw_trace::current(max)", p_craw_d, 3}, {"object_trace::current", p_cobj, 1}, {"object_trace::current(max)", p_cobj_d, 3}, {"stacktrace::current", p_ctr, 1}, {"stacktrace::current(max)", p_ctr_d, 3},
    {"ctrace_generate_raw_trace", c_raw, 3}, {"ctrace_generate_object_trace", c_obj, 3}, {"ctrace_generate_trace", c_tr, 3},
    {"lazy_exception", e_lazy, 0}, {"logic_error", e_logic, 0}, {"range_error", e_range, 0}, {"get_raw_trace_and_absorb", e_absorb, 1}, {"get_raw_trace_and_absorb(max)", e_absorb_d, 3}, {"thrown out_of_range", e_thrown, 0},
    {"safe_generate_raw_trace", s_raw, 5}, {"safe_generate_raw_trace(max)", s_raw_d, 7}, {"ctrace_safe_generate_raw_trace", s_c, 7},
};
bool no_absorb;
constexpr int kProbes = sizeof probes / sizeof *probes;

void probe(St& s, int which) {
    // resolving a deep stack costs tens of thousands of steps: only so many per run
    auto resolves = [](int i) { auto f = probes[i].f; return f == p_tr || f == p_tr_d || f == p_ctr || f == p_ctr_d || f == c_tr || f == e_lazy || f == e_logic || f == e_range || f == e_thrown; };
    auto objects = [](int i) { auto f = probes[i].f; return f == p_obj || f == p_obj_d || f == p_cobj || f == p_cobj_d || f == c_obj; };
    if((resolves(which) || objects(which)) && (s.work += s.depth + 20) > s.max_work) which = 0;
    auto& p = probes[which];
    if(p.kind & 4) { if(!cpptrace::can_signal_safe_unwind()) return; }
    size_t skip = 0, depth = size_t(-1);
    if(p.kind & 1) { long k = s.r.below(12); skip = k < 5 ? 0 : k < 9 ? size_t(s.r.range(1, 6)) : k == 9 ? size_t(s.r.range(7, 200)) : k == 10 ? size_t(s.r.range(201, 5000)) : s.r.chance(1, 2) ? size_t(1) << s.r.range(20, 62) : size_t(s.depth); }
    if(p.kind & 2) { long k = s.r.below(10); depth = k < 2 ? 0 : k < 4 ? 1 : k < 7 ? size_t(s.r.range(2, 20)) : k == 7 ? size_t(s.r.range(21, 1000)) : size_t(-1); }
    long arm = s.oom && !(p.kind & 4) && s.r.chance(1, 3) ? s.r.range(1, 12) : 0;
    Got g; if(p.kind & 4 && s.r.chance(1, 2)) g.cap = size_t(s.r.chance(1, 3) ? s.r.range(0, 3) : s.r.range(0, 60));
    auto ref = p.f(g, skip, depth, arm, s.r.chance(1, 3) ? 1000 : 1);
    std::string why;
    SIM_CHECK(!g.threw || (no_absorb && g.failed), "threw", "%s(skip %zu, max %zu) threw", p.name, skip, depth);
    if(g.failed > 0 && g.v.empty()) return;
    size_t lim = std::min(depth, (p.kind & 4) ? std::min(g.cap, depth) : kHard);
    if(!stk::same_stack(g.v, ref, std::min(skip, ref.ips.size()), lim, true, why))
        violation(why.compare(0, 11, "interrupted") == 0 ? "interrupted-frame" : "wrong-stack", "%s(skip %zu, max %zu) at depth %ld: %s", p.name, skip, depth, s.depth, why.c_str());
    stat("checked"); s.checked++;
    state(uint64_t(which) * 1000 + std::min<size_t>(skip, 9) * 100 + std::min<size_t>(depth, 9) * 10 + std::min<size_t>(ref.ips.size() / 8, 9));
    { Harness h; std::vector<uintptr_t>().swap(g.v); }
}

void walk(St& s);
template<int N> __attribute__((noinline)) void rec(St& s) { volatile char pad[N * 40 + 8]; pad[0] = 1; walk(s); pad[1] = pad[0]; }
__attribute__((noinline)) void self(St& s, int n) { if(n > 0) self(s, n - 1); else walk(s); asm volatile("" ::: "memory"); }
__attribute__((noinline)) void ping(St& s, int n);
__attribute__((noinline)) void pong(St& s, int n) { if(n > 0) ping(s, n - 1); else walk(s); asm volatile("" ::: "memory"); }
__attribute__((noinline)) void ping(St& s, int n) { if(n > 0) pong(s, n - 1); else walk(s); asm volatile("" ::: "memory"); }
struct Base { virtual ~Base() {} virtual void go(St& s) = 0; };
struct V1 : Base { __attribute__((noinline)) void go(St& s) override { walk(s); asm volatile("" ::: "memory"); } };
struct V2 : Base { __attribute__((noinline)) void go(St& s) override { volatile int x = 1; walk(s); x = 2; } };
struct OnUnwind { St& s; ~OnUnwind() { walk(s); asm volatile("" ::: "memory"); } };
__attribute__((noinline)) void throws() { throw 5; }
__attribute__((noinline)) void unwinding(St& s) { try { OnUnwind o{s}; throws(); } catch(int) { if(s.r.chance(1, 2)) walk(s); } }
thread_local St* cmp_state;
int cmp(const void* a, const void* b) { if(cmp_state) { auto* s = cmp_state; cmp_state = nullptr; walk(*s); } return *static_cast<const int*>(a) - *static_cast<const int*>(b); }
__attribute__((noinline)) void in_qsort(St& s) { int v[4] = {3, 1, 2, 0}; cmp_state = &s; qsort(v, 4, sizeof(int), cmp); cmp_state = nullptr; }
__attribute__((noinline)) void in_function(St& s) { std::function<void(int)> f = [&](int) { walk(s); asm volatile("" ::: "memory"); }; f(1); asm volatile("" ::: "memory"); }
__attribute__((noinline)) void no_throw(St& s) noexcept { walk(s); asm volatile("" ::: "memory"); }
__attribute__((noinline)) void tail(St& s) { return walk(s); }
thread_local St* sig_state;
extern "C" void sim_trap_fn();
asm(".text\n.globl sim_trap_fn\n.type sim_trap_fn,@function\n.p2align 4\nsim_trap_fn:\n.cfi_startproc\nud2\nret\n.cfi_endproc\n.size sim_trap_fn,.-sim_trap_fn\n");
void on_signal(int sig, siginfo_t*, void* uc) {
    if(sig == SIGILL) static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_RIP] += 2;
    auto* s = sig_state; sig_state = nullptr;
    if(s) walk(*s);
    asm volatile("" ::: "memory");
}
__attribute__((noinline)) void in_signal(St& s, bool trap) {
    auto* old = sig_state; sig_state = &s;
    if(trap) sim_trap_fn(); else raise(SIGUSR1);
    sig_state = old;
    asm volatile("" ::: "memory");
}
void walk(St& s) {
    struct D { St& s; D(St& s_) : s(s_) { s.depth++; } ~D() { s.depth--; } } d(s);
    for(long n = s.r.range(1, 2); n > 0; n--) {
        if(s.budget-- <= 0 || s.depth > s.limit) { probe(s, int(s.r.below(kProbes))); return; }
        switch(s.r.below(19)) {
            case 0: rec<0>(s); break;
            case 1: rec<1>(s); break;
            case 2: rec<5>(s); break;
            case 3: { V1 v; Base* b = &v; b->go(s); break; }
            case 4: { V2 v; Base* b = &v; b->go(s); break; }
            case 5: unwinding(s); break;
            case 6: in_qsort(s); break;
            case 7: in_function(s); break;
            case 8: no_throw(s); break;
            case 9: tail(s); break;
            case 10: if(s.signals) in_signal(s, false); break;
            case 11: if(s.signals) in_signal(s, true); break;
            case 17: case 18: { int n = int(s.deep && s.r.chance(1, 2) ? s.r.range(400, 2500) : s.r.chance(1, 4) ? s.r.range(30, 250) : s.r.range(1, 8)); if(s.depth + n > (s.deep ? 4500 : 600)) n = 2; s.depth += n; if(s.r.chance(1, 2)) self(s, n); else ping(s, n); s.depth -= n; break; }
            case 12: yield_here("walk"); break;
            default: probe(s, int(s.r.below(kProbes)));
        }
    }
    asm volatile("" ::: "memory");
}
void gen(Rng& r, Plan& p) {
    p.p["threads"] = r.chance(1, 2) ? 1 : r.range(2, 3);
    p.p["oom"] = r.chance(1, 3); p.p["absorb"] = r.chance(3, 4);
    p.p["limit"] = r.chance(1, 6) ? r.range(40, 450) : r.range(3, 25);
    p.p["signals"] = 1;
    if(r.chance(1, 25)) p.p["deep"] = 1, p.p["stack_kb"] = 4096, p.p["limit"] = 4600;      // stacks beyond every internal buffer size
    long n = r.range(1, 5);
    for(long i = 0; i < n; i++) p.ops.push_back({r.below(p.p["threads"]), r.below(1000000000), r.range(5, p.p["limit"] > 1000 ? 40 : p.p["limit"] > 30 ? 600 : 60)});
}
void exec(const Plan& p) {
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); }
    stk::gcc(); no_absorb = !p.get("absorb", 1); if(no_absorb) { Sut s; cpptrace::absorb_trace_exceptions(false); }
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGUSR1, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
    for(long t = 0; t < p.get("threads"); t++) spawn([&p, t] {
        auto* s = new St; s->oom = p.get("oom"); s->limit = p.get("limit"); s->deep = p.get("deep", 0); s->max_work =
#ifdef SIM_CONFIG_A2E
            1200      // no object file is found for most frames there, and each attempt is reported
#else
            5000
#endif
            / p.get("threads"); s->signals = p.get("signals");
        for(auto& op : p.ops) if(op[0] == t) { s->r = Rng(uint64_t(op[1])); s->budget = op[2]; s->depth = 0; walk(*s); }
    }, "walker");
    join_all();
}
void gen_nosig(Rng& r, Plan& p) { gen(r, p); p.p["signals"] = 0; }
Register reg({"capture", gen, exec});
Register reg2({"capture_nosig", gen_nosig, exec});   // glibc's backtrace() cannot tell interrupted frames from calls
Register reg3({"capture_execinfo", gen, exec});
}
