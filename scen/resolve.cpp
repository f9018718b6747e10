// C02 (alignment, truth, degradation, recovery), C01 (threads) and C03 (conservation) of trace resolution
#include "common.hpp"
#include <mutex>
using namespace sim;
using namespace u;

static void gen_faults(Rng& r, Plan& p) {
    static const char* sites[] = {"fork", "exec", "pipe", "read", "write", "waitpid", "poll", "helper.crash", "helper.slow", "probe.exit", "probe.kill", "probe.slow", "read.eio", "write.eio", "readlink", "bt.create", "bt.pcinfo", "bt.syminfo"};
    // swarm: each run enables a random subset at random rates
    for(auto s : sites) if(r.chance(2, 5)) p.p[std::string("f.") + s] = std::vector<long>{15, 60, 200, 500}[size_t(r.below(4))];
    if(r.chance(1, 5)) for(auto s : sites) p.p.erase(std::string("f.") + s);
}
static void gen_env(Rng& r, Plan& p) {
    p.p["salt"] = r.below(1000000);
    p.p["mods"] = r.chance(1, 15) ? 0 : r.chance(1, 40) ? r.range(17, 40) : r.range(1, 5);
    p.p["exe"] = r.chance(1, 2);
    p.p["pipe_cap"] = std::vector<long>{4096, 4096, 8192, 65536}[size_t(r.below(4))];
    p.p["helper_missing"] = r.chance(1, 25);
    p.p["closed_stdin"] = r.chance(1, 12);
    p.p["closed_stdout"] = r.chance(1, 20);
    p.p["sigchld_ignored"] = r.chance(1, 12);
    p.p["cache"] = r.below(3);
}
static bool caches_files(const Plan& p) { return kReadsObjects && p.get("cache") != 0; }
static void setup(const Plan& p) {
    make(p.get("mods"), uint64_t(p.get("salt")), p.get("exe"));
    Sut s; cpptrace::experimental::set_cache_mode(p.get("cache") == 0 ? cpptrace::cache_mode::prioritize_memory : p.get("cache") == 1 ? cpptrace::cache_mode::hybrid : cpptrace::cache_mode::prioritize_speed);
}
static long fatal_faults() {
    // everything except delays: interruptions and splits must have no effect at all
    return fault_count("fork") + fault_count("exec") + fault_count("pipe") + fault_count("helper.crash") + fault_count("probe.exit") + fault_count("probe.kill") + fault_count("read.eio") + fault_count("write.eio") + fault_count("bt.");
}
static bool probe_permanent() { return fault_count("exec") > 0 || fault_count("probe.exit") > 0; }

static cpptrace::stacktrace do_resolve(long kind, const std::vector<cpptrace::frame_ptr>& in) {
    cpptrace::stacktrace st;
    if(kind == 0) { cpptrace::raw_trace rt; rt.frames = in; { Sut s; st = rt.resolve(); } }
    else {
        cpptrace::raw_trace rt; rt.frames = in; cpptrace::object_trace ot;
        { Sut s; ot = rt.resolve_object_trace(); }
        SIM_CHECK(ot.frames.size() == in.size(), "misaligned", "object trace has %zu frames for %zu addresses", ot.frames.size(), in.size());
        { Sut s; st = ot.resolve(); }
        { Sut s; ot = cpptrace::object_trace(); }
    }
    return st;
}

// ---------------------------------------------------------------- C02
static void seq_gen(Rng& r, Plan& p) {
    gen_env(r, p); gen_faults(r, p);
    long n = r.range(1, 4);
    bool big = r.chance(1, 12);
    for(long i = 0; i < n; i++) p.ops.push_back({r.below(2), big && i == 0 ? r.range(1000, 6000) : r.chance(1, 8) ? 0 : r.range(1, 24), r.below(1000000)});
}
static void seq_exec(const Plan& p) {
    setup(p);
    bool missing = p.get("helper_missing");
    bool probed = false;
    auto one = [&](const Op& op, bool recovery) {
        auto in = frames(uint64_t(op[2]), op[1]);
        long f0 = fatal_faults(), l0 = fault_count("readlink");
        auto s0 = snapshot();
        cpptrace::stacktrace st = do_resolve(op[0], in);
        long nf = fatal_faults() - f0;
        FrameVerdict v;
        check_frames(in, st, v, fault_count("readlink") > l0);
        event("op %ld n=%zu full=%d degraded=%d objs=%zu/%zu faults=%ld", op[0], in.size(), v.full, v.degraded, v.degraded_objects.size(), v.objects.size(), nf);
        state(mixh(uint64_t(v.degraded_objects.size() * 16 + v.objects.size()), uint64_t(nf)));
        // a failure costs at most the objects whose helper it hit (all of them while the helper is still being looked for)
        if(!missing && !probe_permanent() && (probed || nf == 0))
            SIM_CHECK(long(v.degraded_objects.size()) <= nf, recovery ? "no-recovery" : "over-degraded", "%zu of %zu objects unresolved after %ld faults%s", v.degraded_objects.size(), v.objects.size(), nf, recovery ? " although the faults have stopped" : "");
        if(v.full > 0) probed = true;
        auto d = diff(s0, snapshot(), caches_files(p));
        SIM_CHECK(d.empty(), "leak", "after resolve: %s", d.c_str());
        { Sut s; st = cpptrace::stacktrace(); }
    };
    for(auto& op : p.ops) one(op, false);
    faults_enabled(false);
    one({0, 12, p.get("salt") + 77}, true);
}
static Register r1({"resolve_seq", seq_gen, seq_exec});

// ---------------------------------------------------------------- C01
static void par_gen(Rng& r, Plan& p) {
    gen_env(r, p);
    if(r.chance(1, 2)) gen_faults(r, p);
    p.p["threads"] = r.range(2, 4);
    long n = r.range(2, 7);
    for(long i = 0; i < n; i++) p.ops.push_back({r.below(p.p["threads"]), r.below(2), r.range(0, 10), r.below(1000000)});
    p.p["spawner"] = r.chance(1, 4);
}
static void par_exec(const Plan& p) {
    setup(p);
    bool missing = p.get("helper_missing");
    auto s0 = snapshot();
    size_t degraded = 0;
    for(long t = 0; t < p.get("threads"); t++) spawn([&p, t, &degraded] {
        for(auto& op : p.ops) if(op[0] == t) {
            auto in = frames(uint64_t(op[3]), op[2]);
            auto st = do_resolve(op[1], in);
            FrameVerdict v;
            check_frames(in, st, v, fault_count("readlink") > 0);
            event("thread %ld n=%zu full=%d degraded=%zu", t, in.size(), v.full, v.degraded_objects.size());
            degraded += v.degraded_objects.size();
            { Sut s; st = cpptrace::stacktrace(); }
        }
    }, "resolver");
    if(p.get("spawner")) spawn([] { for(int i = 0; i < 20; i++) { for(int k = 0; k < 10; k++) yield_here("app"); user_spawn_probe(); } }, "spawner");
    join_all();
    auto d = diff(s0, snapshot(), caches_files(p));
    SIM_CHECK(d.empty(), "leak", "after all threads finished: %s", d.c_str());
    if(!missing && fatal_faults() == 0) SIM_CHECK(degraded == 0, "over-degraded", "%zu objects unresolved in concurrent traces although no fault was injected", degraded);
}
static Register r2({"resolve_par", par_gen, par_exec});

// ---------------------------------------------------------------- C03
static void res_gen(Rng& r, Plan& p) {
    gen_env(r, p); gen_faults(r, p);
    long n = r.range(2, 6);
    for(long i = 0; i < n; i++) p.ops.push_back({r.below(2), r.range(0, 20), r.below(1000000), r.chance(1, 2) ? r.range(1, 400) : 0, r.chance(1, 4) ? r.range(2, 50) : 1});
    p.p["absorb"] = r.chance(3, 4);
    p.p["user_child"] = r.chance(1, 3);
    p.p["spawner"] = r.chance(1, 3);
    p.p["first"] = r.chance(1, 5);                        // the very first calls of the process: descriptors and children only
    p.p["cold"] = r.chance(1, 3) ? r.range(1, 5) : 0;     // objects not met before: only what is kept for them may grow
}
static void res_exec(const Plan& p) {
    setup(p);
    faults_enabled(false);
    { Sut s; cpptrace::use_default_stderr_logger(); cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); }
    if(!p.get("first")) {   // warm-up: the once-only state, and one address of every object
        std::vector<cpptrace::frame_ptr> all; for(size_t i = size_t(p.get("cold")); i < U().mods.size(); i++) all.push_back(U().mods[i].base + 64);
        auto st = do_resolve(0, all); Sut s; st = cpptrace::stacktrace();
    }
    faults_enabled(true);
    { Sut s; cpptrace::absorb_trace_exceptions(p.get("absorb")); }
    int child = p.get("user_child") ? user_child_start(true) : -1;
    bool done = false;
    // another thread of the application that starts processes of its own all the time
    if(p.get("spawner")) spawn([&done] { for(int i = 0; i < 400 && !done; i++) { yield_here("app"); user_spawn_probe(); } }, "spawner");
    for(auto& op : p.ops) {
        auto in = frames(uint64_t(op[2]), op[1]);
        auto s0 = snapshot(); Mem m0 = live();
        long thrown = 0, failed = 0;
        auto once = [&] {
            thrown = 0;
            cpptrace::stacktrace st; cpptrace::raw_trace rt; rt.frames = in;
            try {
                Sut s;
                if(op[3]) arm_alloc(op[3], op[4]);
                if(op[0] == 0) st = rt.resolve();
                else { auto ot = rt.resolve_object_trace(); st = ot.resolve(); }
            } catch(...) { thrown = 1; }
            failed = disarm_alloc();
            SIM_CHECK(!thrown || !p.get("absorb"), "escaped", "an exception left a tracing call although absorption is on");
            SIM_CHECK(!thrown || failed || fault_count("") || p.get("helper_missing"), "escaped", "an exception left a tracing call without any fault");
            if(!thrown && st.frames.size() != 0) { FrameVerdict v; v.no_memory = failed > 0; check_frames(in, st, v, fault_count("readlink") > 0); }
            else if(!thrown && !in.empty()) SIM_CHECK(failed, "misaligned", "empty trace for %zu addresses without an allocation failure", in.size());
            { Sut s; st = cpptrace::stacktrace(); }
        };
        once();
        auto d = diff(s0, snapshot(), caches_files(p));
        SIM_CHECK(d.empty(), "leak", "after a%s call: %s", thrown ? " throwing" : failed ? " failing" : "", d.c_str());
        Mem m1 = live(); bool cold = false;
        for(auto a : in) { auto* m = find(a); if(m && m < &U().mods[0] + p.get("cold")) cold = true; }
        if(!cold && !p.get("first")) SIM_CHECK(m1.blocks <= m0.blocks || !keeps_growing(once), "memory-leak", "%ld blocks (%ld bytes) more are live after the call (allocation failures %ld)", m1.blocks - m0.blocks, m1.bytes - m0.bytes, failed);
        if(child > 0) SIM_CHECK(user_child_present(child), "stolen-child", "the library reaped a child process of the application");
        event("op n=%zu thrown=%ld failed=%ld", in.size(), thrown, failed);
        state(mixh(uint64_t(thrown * 2 + (failed > 0)), uint64_t(op[3])));
        stat("checked");
    }
    done = true;
    join_all();
}
static Register r3({"resolve_res", res_gen, res_exec});
