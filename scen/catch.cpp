// C05: handler selection and page protections, on libraries loaded (and unloaded) while preparation is made to fail
// plugins: catchlib 4
#include "rt.hpp"
#include "plugins/catchlib.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
using namespace sim;
namespace {
struct Range { uintptr_t lo, hi; int prot; std::string name; };
std::vector<Range> real_maps() {
    Harness h; std::string all; char buf[65536];
    int fd = int(syscall(SYS_openat, AT_FDCWD, "/proc/self/maps", O_RDONLY, 0));
    for(long n; (n = syscall(SYS_read, fd, buf, sizeof buf)) > 0;) all.append(buf, size_t(n));
    syscall(SYS_close, fd);
    std::vector<Range> v; size_t p = 0;
    while(p < all.size()) {
        size_t e = all.find('\n', p); std::string l = all.substr(p, e - p); p = e + 1;
        unsigned long lo, hi; char pr[8] = {}; int off = 0;
        sscanf(l.c_str(), "%lx-%lx %4s %*s %*s %*s %n", &lo, &hi, pr, &off);
        v.push_back({lo, hi, (pr[0] == 'r' ? PROT_READ : 0) | (pr[1] == 'w' ? PROT_WRITE : 0) | (pr[2] == 'x' ? PROT_EXEC : 0), off ? l.substr(size_t(off)) : ""});
    }
    return v;
}
const Range* at(const std::vector<Range>& v, uintptr_t a) { for(auto& r : v) if(a >= r.lo && a < r.hi) return &r; return nullptr; }

struct Lib { void* h = nullptr; const cl::Plugin* api = nullptr; bool clean = false; uintptr_t lo = 0, hi = 0; };
std::vector<std::string> paths() { std::vector<std::string> v; std::string s = SIM_PLUGINS; size_t p = 0; while(p <= s.size()) { size_t e = s.find(':', p); if(e == std::string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }

struct Load { std::string path; long rights = 0; long arm = 0, burst = 0; std::vector<Range> before; long faults0 = 0; bool begun = false; } ld;
long in_throw = 0;

void run_prog(Lib& l, uint64_t seed, long oom, bool with_clear) {
    Rng r(seed); auto& a = *l.api;
    cl::Prog p{};
    p.n = int(r.range(1, 6)); p.thrown = int(r.below(a.nthrown));
    for(int i = 0; i < p.n; i++) p.lv[i] = {int(r.below(a.nhandlers)), int(r.chance(1, 5) ? 0 : r.chance(1, 4) ? 2 : 1), int(r.below(a.nseconds)), int(r.chance(1, 3) ? r.range(1, 3) : 0), int(r.below(a.nthrown))};
    static cl::Out want, got; memset(&want, 0, sizeof want); memset(&got, 0, sizeof got);
    want.fail_alloc = got.fail_alloc = oom;
    { Harness h; }
    a.run(p, want, false);
    a.run(p, got, true);
    disarm_alloc();
    std::string what = fmt("throwing %s through", a.thrown_name(p.thrown));
    for(int i = 0; i < p.n; i++) what += fmt(" [%d: %s%s]", i, a.handler_name(p.lv[i].handler), p.lv[i].mode == 0 ? " plain" : p.lv[i].mode == 1 ? "" : " utility");
    for(int i = 0; i < std::max(want.n, got.n); i++) {
        auto w = i < want.n ? want.r[i] : cl::Rec{0, 0, 0}, g = i < got.n ? got.r[i] : cl::Rec{0, 0, 0};
        if(w.what != g.what || w.level != g.level || w.value != g.value) violation("wrong-handler", "%s: step %d is {%d level %d value %ld}, plain try/catch has {%d level %d value %ld} (1 handler, 2 destructor, 3 escaped)", what.c_str(), i, g.what, g.level, g.value, w.what, w.level, w.value);
    }
    if(l.clean && oom < 0) SIM_CHECK(got.missing_trace == 0, "no-trace", "%s: %d of %d handlers found no trace although preparation met no fault", what.c_str(), got.missing_trace, got.handled);
    sim::stat("programs"); sim::stat("handlers", got.handled);
    state(uint64_t(got.n) * 1000 + got.handled * 50 + p.n);
    (void)with_clear;
}
std::string why_changed(const std::vector<Range>& before, const std::vector<Range>& after) {
    constexpr uintptr_t P = 4096;
    for(auto& b : before) {
        if(b.name == "[stack]" || b.name == "[vsyscall]") continue;
        for(uintptr_t pg = b.lo; pg < b.hi;) {
            auto* x = at(after, pg);
            if(!x) { pg += P; continue; }
            if(x->prot != b.prot) {
                bool excused = false; for(auto& c : mprotect_calls()) if(pg >= c.addr && pg < c.addr + c.len && !c.ok && c.prot == b.prot) excused = true;   // putting them back was refused
                if(!excused) return fmt("page %lx of %s had rights %d and now has %d", long(pg), b.name.empty() ? "(anonymous)" : b.name.c_str(), b.prot, x->prot);
                pg += P; continue;
            }
            pg = std::min(b.hi, x->hi);
        }
    }
    return "";
}
void check_tables(const Lib& l) {
    auto m = real_maps();
    for(int i = 0; i < l.api->nicepts; i++) {
        auto* ti = l.api->icepts[i];
        uintptr_t vp = *reinterpret_cast<const uintptr_t*>(ti);
        auto* r = at(m, vp);
        SIM_CHECK(r && (r->prot & PROT_READ), "bad-table", "the type_info of %s has an unreadable function table", ti->name());
        SIM_CHECK(!(r->prot & PROT_WRITE), "writable-table", "the type_info of %s points to a function table in a writable page (rights %d)", ti->name(), r->prot);
    }
}
void load(Lib& l, const std::string& path, const Plan& p, long arm, long burst, long rights = 0) {
    ld.path = path; ld.rights = rights;
    ld.arm = arm; ld.burst = burst; ld.begun = false; mprotect_calls().clear();
    auto all0 = real_maps();
    long f0 = fault_count("");
    auto s0 = snapshot();
    { Sut su; l.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); }
    faults_enabled(false);
    long failed = disarm_alloc();
    SIM_CHECK(l.h, "load-failed", "loading the library failed: %s", dlerror());
    SIM_CHECK(ld.begun, "harness", "the library's constructors did not run");
    l.clean = failed == 0 && fault_count("") == f0;
    auto after = real_maps();
    auto why = why_changed(ld.before, after);
    SIM_CHECK(why.empty(), "rights-changed", "preparing interception changed access rights: %s", why.c_str());
    auto d = diff(s0, snapshot(), false); SIM_CHECK(d.empty(), "leak", "preparing interception: %s", d.c_str());
    l.api = static_cast<const cl::Plugin*>(dlsym(l.h, "sim_plugin"));
    SIM_CHECK(l.api, "harness", "no sim_plugin: %s", dlerror());
    check_tables(l);
    event("loaded %s clean=%d mprotects=%zu", strrchr(path.c_str(), '/'), l.clean, mprotect_calls().size());
    sim::stat(l.clean ? "loads_clean" : "loads_faulted");
}
void gen(Rng& r, Plan& p) {
    p.p["f.mmap"] = r.chance(1, 3) ? r.range(1, 60) : 0;
    p.p["f.mprotect"] = r.chance(1, 3) ? r.range(1, 60) : 0;
    p.p["f.sysconf"] = r.chance(1, 8) ? r.range(1, 100) : 0;
    p.p["f.maps"] = r.chance(1, 3) ? r.range(20, 700) : 0;
    p.p["f.fopen"] = r.chance(1, 6) ? r.range(1, 300) : 0;
    p.p["f.fread"] = r.chance(1, 3) ? r.range(1, 100) : 0;
    p.p["absorb"] = r.chance(2, 3);
    long n = r.range(2, 9);
    for(long i = 0; i < n; i++) {
        long k = r.below(6);
        if(k < 2) p.ops.push_back({0, r.below(4), r.chance(1, 3) ? r.range(1, 200) : 0, r.chance(1, 4) ? 10000 : r.range(1, 3), r.chance(1, 3) ? r.range(1, 1000000) : 0});
        else if(k == 2) p.ops.push_back({1, r.below(4)});
        else if(k == 3) p.ops.push_back({2, r.below(64), r.below(8)});
        else p.ops.push_back({3, r.below(4), r.below(1000000000), r.range(5, 60), r.chance(1, 4) ? r.range(1, 6) : -1});
    }
}
void exec(const Plan& p) {
    faults_enabled(false);
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); cpptrace::absorb_trace_exceptions(p.get("absorb")); }
    std::vector<Lib> libs(4); auto ps = paths();
    std::vector<uintptr_t> freed;
    auto need = [&](long i, const Op* op) { auto& l = libs[size_t(i)]; if(!l.h) { load(l, ps[size_t(i)], p, op ? (*op)[2] : 0, op ? (*op)[3] : 0, op ? (*op)[4] : 0); } };
    for(auto& op : p.ops) {
        auto& l = libs[size_t(op[0] == 2 ? 0 : op[1])];
        switch(op[0]) {
            case 0: if(!l.h) need(op[1], &op); break;
            case 1: if(l.h) { l.h && dlclose(l.h); l = Lib(); } break;
            case 2: {   // the application maps something of its own, with other rights, where a library may have been
                int prots[] = {PROT_NONE, PROT_READ, PROT_READ | PROT_WRITE, PROT_READ | PROT_EXEC};
                mmap(nullptr, size_t(op[1] + 1) * 4096, prots[op[2] % 4], MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                break;
            }
            default: { need(op[1], nullptr); Rng r{uint64_t(op[2])}; for(long i = 0; i < op[3]; i++) run_prog(libs[size_t(op[1])], r.next(), op[4], false); }
        }
    }
    // a library loaded after all faults stopped gets its traces
    p.get("x");
    for(long i = 0; i < 4; i++) if(!libs[size_t(i)].h) {
        auto& l = libs[size_t(i)]; ld.arm = -1;
        load(l, ps[size_t(i)], p, -1, 0);
        SIM_CHECK(l.clean, "harness", "faults were off");
        Rng r{uint64_t(i)}; for(long k = 0; k < 30; k++) run_prog(l, r.next(), -1, false);
        break;
    }
}
Register reg({"catch", gen, exec});

// A handler of cpptrace::try_catch throws an exception that one of its later siblings would match: in a language
// try/catch that exception leaves the whole statement.
void sib_gen(Rng& r, Plan& p) { long n = r.range(1, 4); for(long i = 0; i < n; i++) p.ops.push_back({r.below(3)}); }
struct SA { int v; }; struct SB { int v; };
void sib_exec(const Plan& p) {
    for(auto& op : p.ops) {
        int ran = 0, escaped = 0;
        auto f = [&] { Sut su; switch(op[0]) { case 0: throw SA{1}; case 1: throw SB{1}; default: throw 5; } };
        try {
            cpptrace::try_catch(f, [&](const SA&) { ran = 1; throw SB{2}; }, [&](const SB&) { ran = ran * 10 + 2; throw 6; }, [&]() { ran = ran * 10 + 3; });
        } catch(const SB&) { escaped = 1; } catch(int) { escaped = 2; }
        int want_ran = op[0] == 0 ? 1 : op[0] == 1 ? 2 : 3, want_esc = op[0] == 0 ? 1 : op[0] == 1 ? 2 : 0;
        if(ran == want_ran && escaped == want_esc) continue;
        int cascade = op[0] == 0 ? 123 : op[0] == 1 ? 23 : 3;
        if(ran == cascade && escaped == 0) violation("sibling-handler", "an exception thrown by one handler of cpptrace::try_catch was caught by a later handler of the same try_catch (handlers run: %d)", ran);
        violation("wrong-handler", "throw %ld: handlers run %d escaped %d", op[0], ran, escaped);
    }
}
Register reg2({"catch_sibling", sib_gen, sib_exec});
}
extern "C" __attribute__((visibility("default"))) void sim_plugin_begin() {
    Harness h;
    ld.begun = true;
    if(ld.rights) {   // the application has given pages of the library's data other rights (never fewer than they had)
        Rng r{uint64_t(ld.rights)}; long extra[] = {PROT_EXEC, PROT_WRITE, PROT_EXEC | PROT_WRITE};
        for(auto& m : real_maps()) if(m.name == ld.path && (m.prot & PROT_READ) && !(m.prot & PROT_EXEC)) for(uintptr_t pg = m.lo; pg < m.hi; pg += 4096) if(r.chance(1, 2)) syscall(SYS_mprotect, pg, 4096, m.prot | extra[r.below(3)]);
    }
    ld.before = real_maps();
    if(ld.arm >= 0) faults_enabled(true);
    if(ld.arm > 0) arm_alloc(ld.arm, ld.burst);
}
// called right before something is thrown (n > 0: make the n-th allocation from here on fail) and right after it was caught
static Sut* throwing;
extern "C" __attribute__((visibility("default"))) void sim_plugin_throwing(long n) {
    if(throwing) { delete throwing; throwing = nullptr; disarm_alloc(); }
    if(n == -1) return;
    throwing = new Sut; if(n > 0) arm_alloc(n, 3);
}
