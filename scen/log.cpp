// C08: reports, absorption and configuration changes, sequentially and from several threads
#include "common.hpp"
#include "stack.hpp"
#include <cpptrace/utils.hpp>
#include <cpptrace/exceptions.hpp>
#include <iostream>
#include <new>
using namespace sim;
using namespace u;
namespace {
enum { NONE = -1, STDERR = -2 };
struct Rec { int cb; int level; std::string text; uint64_t at; };
struct Call { uint64_t start = 0; std::vector<Rec> recs; bool any = false; };
// every configuration value with the instants between which it came into force
struct Change { uint64_t begin, end; long value; };
struct Setting {
    std::vector<Change> h; std::string name;
    size_t begin(long v) { h.push_back({steps(), ~uint64_t(0), v}); return h.size() - 1; }
    void end(size_t i) { h[i].end = steps(); }
    void failed(size_t i) { h[i].begin = ~uint64_t(0); h[i].end = ~uint64_t(0); }
    // the values that can have been in force at some instant of [a, b]
    std::set<long> possible(uint64_t a, uint64_t b) const {
        std::set<long> v;
        for(auto& c : h) {
            if(c.begin == ~uint64_t(0) || c.begin > b) continue;
            bool gone = false; for(auto& d : h) if(&d != &c && d.begin != ~uint64_t(0) && d.begin > c.end && d.end <= a) gone = true;
            if(!gone) v.insert(c.value);
        }
        return v;
    }
};
Setting *cb_set, *level_set, *absorb_set;
std::map<int, std::vector<Call*>>* calls;
std::set<const void*>* alive;
int next_cb; bool concurrent;
struct Chunk { int task; std::string s; };
std::vector<Chunk>* err_chunks; std::map<int, std::string>* err_text;

void deliver(int cb, cpptrace::log_level l, const char* m) {
    auto& st = (*calls)[task_id()];
    SIM_CHECK(!st.empty(), "stray-message", "a message was delivered outside of any tracing call");
    SIM_CHECK(m && *m, "corrupt-message", "an empty message was delivered");
    Rec r{cb, int(l), m, steps()};
    auto poss = cb_set->possible(st.back()->start, r.at);
    SIM_CHECK(poss.count(cb), "wrong-callback", "a message went to callback %d, which was not the current one during the call", cb);
    auto lv = level_set->possible(st.back()->start, r.at); long low = *lv.begin();
    SIM_CHECK(r.level >= low, "below-level", "a message of level %d was delivered, the level is at least %ld", r.level, low);
    SIM_CHECK(r.level <= int(cpptrace::log_level::error), "corrupt-message", "level %d", r.level);
    st.back()->recs.push_back(r); event("message cb=%d level=%d", cb, int(l));
}
struct Odd {};
struct Recorder {
    int id, mode; std::string big = std::string(100, 'c');
    Recorder(int i, int m) : id(i), mode(m) { Harness h; alive->insert(this); }
    Recorder(const Recorder& o) : id(o.id), mode(o.mode), big(o.big) { Harness h; alive->insert(this); }
    ~Recorder();
    void operator()(cpptrace::log_level l, const char* m) const;
};
void set_callback(int mode, long alloc, long burst, bool nested);
// a callback may use the library while it is being replaced
Recorder::~Recorder() {
    bool use;
    { Harness h; alive->erase(this); use = (mode & 7) == 5 && (*calls)[task_id()].empty(); if(use) { auto c = new Call; c->start = steps(); (*calls)[task_id()].push_back(c); } }
    if(!use) return;
    static const char bytes[80] = "\x7f" "ELF\x05 this is no object file";
    try { cpptrace::register_jit_object(bytes, sizeof bytes); } catch(...) {}
    Harness h; auto& st = (*calls)[task_id()]; delete st.back(); st.pop_back(); stat("destroyed");
}
void Recorder::operator()(cpptrace::log_level l, const char* m) const {
    int mode_ = mode; const Recorder* self = this;
    {
        Harness h;
        SIM_CHECK(alive->count(self), "dead-callback", "a destroyed callback was called");
        std::string before = m ? m : "";
        deliver(id, l, m);
        if(mode_ & 8) for(int i = 0; i < 6; i++) yield_here("callback");
        SIM_CHECK(alive->count(self), "dead-callback", "the callback was destroyed while it was running");
        SIM_CHECK(before == m, "corrupt-message", "the message changed while the callback was reading it");
    }
    auto& st = (*calls)[task_id()]; bool top; { Harness h; top = st.size() == 1; }
    if((mode_ & 7) == 2 && top) { Harness h; set_callback(0, 0, 1, true); }
    if((mode_ & 7) == 3 && top) {
        Call* c; { Harness h; c = new Call; c->start = steps(); st.push_back(c); }
        bool threw = false;
        try { auto t = cpptrace::generate_raw_trace(); { Harness h; std::vector<cpptrace::frame_ptr>().swap(t.frames); } } catch(const std::exception&) { threw = true; }
        { Harness h; auto a = absorb_set->possible(c->start, steps()); SIM_CHECK(!threw || a.count(0), "escaped", "an exception left a tracing call made by the log callback although absorption is on"); st.pop_back(); delete c; }
    }
    { Harness h; SIM_CHECK(alive->count(self), "dead-callback", "the callback was destroyed while it was running"); }
    if((mode_ & 7) == 1) throw Odd();
    if((mode_ & 7) == 4) throw std::bad_alloc();
}
void set_callback(int mode, long alloc, long burst, bool nested) {
    int id; { Harness h; id = next_cb++; }
    size_t e = cb_set->begin(id); bool threw = false; long failed = 0;
    { Sut s; if(alloc) arm_alloc(alloc, burst); try { cpptrace::set_log_callback(Recorder(id, mode)); } catch(const std::bad_alloc&) { threw = true; } }
    if(!nested) failed = disarm_alloc();
    SIM_CHECK(!threw || failed || nested, "escaped", "set_log_callback threw without a failed allocation");
    if(threw) cb_set->failed(e); else cb_set->end(e);
}
struct ErrBuf : std::streambuf {
    void put(const char* s, size_t n) {
        Harness h; auto& st = (*calls)[task_id()]; SIM_CHECK(!st.empty(), "stray-message", "something wrote to standard error outside of any tracing call");
        auto poss = cb_set->possible(st.back()->start, steps()); SIM_CHECK(poss.count(STDERR), "wrong-callback", "a message went to standard error, which was not the current callback during the call");
        err_chunks->push_back({task_id(), std::string(s, n)}); (*err_text)[task_id()].append(s, n);
        yield_here("stderr");
    }
    int_type overflow(int_type c) override { if(c != traits_type::eof()) { char k = char(c); put(&k, 1); } return 0; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { put(s, size_t(n)); return n; }
};
long err_messages(const std::string& s) { long n = 0; for(size_t p = s.find("[cpptrace "); p != std::string::npos; p = s.find("[cpptrace ", p + 1)) n++; return n; }

long fatal() { return fault_count("fork") + fault_count("exec") + fault_count("pipe") + fault_count("helper.crash") + fault_count("probe.exit") + fault_count("probe.kill") + fault_count("read.eio") + fault_count("write.eio"); }
struct Ctx { bool missing = false, warm = false; };

enum { SET_CB, SET_NULL, SET_ERR, SET_LEVEL, SET_ABSORB, RESOLVE, OBJECTS, OBJ_RESOLVE, RAW, RAW_MAX, OBJ, STACK, STACK_MAX, GEN_RAW, GEN_OBJ, GEN_STACK, SAFE, TRACED, JITBAD, kOps };

// op: thread, what, value, frames, seed, failing allocation, burst
void step(const Op& op, Ctx& c) {
    long failed = 0;
    switch(op[1]) {
        case SET_CB: set_callback(int(op[2] % 6) | (op[2] & 32 ? 8 : 0), op[5], op[6], false); return;
        case SET_NULL: {
            auto e = cb_set->begin(NONE); bool threw = false; { Sut s; if(op[5]) arm_alloc(op[5], op[6]); try { cpptrace::set_log_callback(nullptr); } catch(const std::bad_alloc&) { threw = true; } } failed = disarm_alloc();
            SIM_CHECK(!threw || failed, "escaped", "set_log_callback threw"); if(threw) cb_set->failed(e); else cb_set->end(e); return;
        }
        case SET_ERR: {
            auto e = cb_set->begin(STDERR); bool threw = false; { Sut s; if(op[5]) arm_alloc(op[5], op[6]); try { cpptrace::use_default_stderr_logger(); } catch(const std::bad_alloc&) { threw = true; } } failed = disarm_alloc();
            SIM_CHECK(!threw || failed, "escaped", "use_default_stderr_logger threw"); if(threw) cb_set->failed(e); else cb_set->end(e); return;
        }
        case SET_LEVEL: { auto e = level_set->begin(op[2] % 4); { Sut s; cpptrace::set_log_level(cpptrace::log_level(op[2] % 4)); } level_set->end(e); return; }
        case SET_ABSORB: { auto e = absorb_set->begin(op[2] % 3 != 0); { Sut s; cpptrace::absorb_trace_exceptions(op[2] % 3 != 0); } absorb_set->end(e); return; }
    }
    if(op[1] == JITBAD) {   // a malformed object: ignored, reported as an error only when absorption is off, always as a detail at debug level
        static const char bytes[80] = "\x7f" "ELF\x05 this is no object file";
        Call call; call.start = steps(); (*calls)[task_id()].push_back(&call); long e0 = err_messages((*err_text)[task_id()]); bool threw = false, odd = false;   // the callback itself may throw
        { Sut s; if(op[5]) arm_alloc(op[5], op[6]); try { cpptrace::register_jit_object(bytes, sizeof bytes); } catch(const std::bad_alloc&) { threw = true; } catch(const Odd&) { odd = true; } }
        failed = disarm_alloc(); uint64_t end = steps(); (*calls)[task_id()].pop_back();
        SIM_CHECK(!threw || failed || !call.recs.empty(), "escaped", "register_jit_object threw"); if(odd) SIM_CHECK(!call.recs.empty(), "escaped", "register_jit_object threw"); if(threw) odd = true;
        auto absorb = absorb_set->possible(call.start, end), cbs = cb_set->possible(call.start, end), lv = level_set->possible(call.start, end); long E = 0, D = 0, S = err_messages((*err_text)[task_id()]) - e0;
        for(auto& r : call.recs) if(r.level == int(cpptrace::log_level::error)) E++; else D++;
        if(!failed && !odd && !cbs.count(NONE)) {
            if(!cbs.count(STDERR)) { SIM_CHECK(E <= 1, "duplicate-report", "%ld reports of one malformed object", E); if(absorb.size() == 1 && absorb.count(0)) SIM_CHECK(E == 1, "unreported", "a malformed object was not reported although absorption is off"); }
            if(lv.size() == 1 && lv.count(0)) SIM_CHECK(D + S >= 1, "unreported", "no detail was reported at debug level");
        }
        event("jit threw=%d E=%ld D=%ld", threw, E, D); return;
    }
    auto in = frames(uint64_t(op[4]), op[3]);
    cpptrace::raw_trace rt, raw; cpptrace::object_trace ot, objs; cpptrace::stacktrace st; cpptrace::frame_ptr buf[64]; size_t safe = 0; bool traced = false;
    rt.frames = in; if(op[1] == OBJ_RESOLVE) { for(auto a : in) { auto* m = find(a); cpptrace::object_frame f{a, m ? a - m->load : 0, m ? m->path : ""}; ot.frames.push_back(f); } }
    std::string text = "a message of some length, more than fits the small buffer"; bool threw = false, oom = false; std::string what; const char* odd = nullptr;
    Call call; call.start = steps(); (*calls)[task_id()].push_back(&call);
    long f0 = fatal(), l0 = fault_count("readlink"), e0 = err_messages((*err_text)[task_id()]);
    {
        Sut s; if(op[5]) arm_alloc(op[5], op[6]);
        try {
            switch(op[1]) {
                case RESOLVE: st = rt.resolve(); break; case OBJECTS: objs = rt.resolve_object_trace(); break; case OBJ_RESOLVE: st = ot.resolve(); break;
                case RAW: raw = cpptrace::raw_trace::current(); break; case RAW_MAX: raw = cpptrace::raw_trace::current(0, 5); break; case OBJ: objs = cpptrace::object_trace::current(); break;
                case STACK: st = cpptrace::stacktrace::current(); break; case STACK_MAX: st = cpptrace::stacktrace::current(0, 3); break;
                case GEN_RAW: raw = cpptrace::generate_raw_trace(); break; case GEN_OBJ: objs = cpptrace::generate_object_trace(); break; case GEN_STACK: st = cpptrace::generate_trace(); break;
                case SAFE: safe = cpptrace::safe_generate_raw_trace(buf, 64); break;
                default: { cpptrace::runtime_error e(std::move(text)); traced = !e.trace().frames.empty(); }
            }
        } catch(const std::bad_alloc&) { threw = oom = true; } catch(const std::exception& e) { threw = true; Harness h; what = e.what(); } catch(...) { threw = true; odd = "something not derived from std::exception"; }
    }
    failed = disarm_alloc(); uint64_t end = steps(); (*calls)[task_id()].pop_back();
    SIM_CHECK(!odd, "foreign-exception", "a tracing call threw %s", odd);
    long nf = fatal() - f0; long E = err_messages((*err_text)[task_id()]) - e0; bool seen_text = what.empty();
    for(auto& r : call.recs) if(r.level == int(cpptrace::log_level::error)) { E++; if(!what.empty() && r.text.find(what) != std::string::npos) seen_text = true; }
    auto absorb = absorb_set->possible(call.start, end); auto cbs = cb_set->possible(call.start, end);
    bool certain = !cbs.count(NONE);                        // every report could be seen
    for(auto v : cbs) if(v == STDERR && failed) certain = false;   // decided by its own check below
    bool only_on = absorb.size() == 1 && absorb.count(1), only_off = absorb.size() == 1 && absorb.count(0);
    bool fault_free = !failed && !nf && !concurrent;
    event("op %ld threw=%d failed=%ld nf=%ld errors=%ld", op[1], threw, failed, nf, E); stat("checked");
    SIM_CHECK(!threw || !only_on, "escaped", "an exception left tracing call %ld although absorption is on", op[1]);
    SIM_CHECK(!(threw && op[1] == TRACED && !oom), "escaped", "constructing or querying a traced exception threw");
    SIM_CHECK(!(threw && op[1] == SAFE), "escaped", "the signal-safe call threw");
    SIM_CHECK(!threw || failed || nf || concurrent || c.missing, "escaped", "tracing call %ld threw although nothing failed", op[1]);
    SIM_CHECK(E <= nf + failed || (op[1] == TRACED && E <= 2 * (nf + failed)) || (concurrent && nf), "extra-report", "%ld reports for %ld failures (call %ld)", E, nf + failed, op[1]);
    if(threw && op[1] != TRACED && certain) {
        SIM_CHECK(E >= 1, "unreported", "an exception left tracing call %ld without a report", op[1]);
        if(only_off) SIM_CHECK(E == 1, "duplicate-report", "one failure was reported %ld times (call %ld, absorption off)", E, op[1]);
        if(!what.empty() && !failed && !cbs.count(STDERR)) SIM_CHECK(seen_text, "wrong-report", "no report mentions the exception '%s'", what.substr(0, 100).c_str());
    }
    // what the result shows
    bool empty = false;
    switch(op[1]) {
        case RESOLVE: case OBJ_RESOLVE: empty = st.frames.empty() && !in.empty(); break; case OBJECTS: empty = objs.frames.empty() && !in.empty(); break;
        case RAW: case RAW_MAX: case GEN_RAW: empty = raw.frames.empty(); break; case OBJ: case GEN_OBJ: empty = objs.frames.empty(); break;
        case STACK: case STACK_MAX: case GEN_STACK: empty = st.frames.empty(); break; case SAFE: empty = safe == 0 && cpptrace::can_signal_safe_unwind(); break; case TRACED: empty = !traced && !threw; break;
    }
    long lost = 0;
    if(!threw && empty) {
        SIM_CHECK(failed || nf || concurrent, "lost-trace", "call %ld gave nothing although nothing failed", op[1]);
        SIM_CHECK(!only_off || op[1] == TRACED, "not-propagated", "a failure of call %ld did not leave it although absorption is off", op[1]);
        lost = 1; if(certain) SIM_CHECK(E >= 1, "unreported", "call %ld failed without a report", op[1]);
    } else if(!threw && (op[1] == RESOLVE || op[1] == OBJ_RESOLVE)) {
        FrameVerdict v; v.no_memory = failed > 0; check_frames(in, st, v, op[1] == RESOLVE && fault_count("readlink") > l0); lost = long(v.degraded_objects.size());
        if(c.warm && !c.missing && (!concurrent || !nf)) {
            if(certain) SIM_CHECK(E >= lost, "unreported", "%ld objects could not be resolved but %ld reports were made", lost, E);
            if(only_off) SIM_CHECK(lost == 0, "not-propagated", "%ld objects could not be resolved and no exception left the call although absorption is off", lost);
        }
    }
    if(fault_free) SIM_CHECK(E == 0, "extra-report", "%ld reports although nothing failed", E);
    // a single failure is one report
    if(certain && !threw && lost == 1 && failed + nf == 1 && !concurrent && c.warm && !c.missing && op[1] != TRACED) SIM_CHECK(E == 1, E ? "duplicate-report" : "unreported", "one failure, %ld reports (call %ld)", E, op[1]);
    // standard error: even when memory ran out the report is made
    if(cbs.size() == 1 && cbs.count(STDERR) && failed && (threw || lost) && op[1] != TRACED) SIM_CHECK(E >= 1, "unreported", "nothing was written to standard error for a failure of call %ld", op[1]);
    state(mixh(uint64_t(op[1] * 64 + threw * 32 + (failed > 0) * 16 + (nf > 0) * 8 + std::min(E, 3l) * 2 + only_off), uint64_t(*cbs.begin() < 0 ? *cbs.begin() + 5 : 9)));
    { Sut s; rt.clear(); raw.clear(); objs.clear(); ot.clear(); st.clear(); std::vector<cpptrace::frame_ptr>().swap(raw.frames); }
}
void gen_env(Rng& r, Plan& p) {
    p.p["salt"] = r.below(1000000); p.p["mods"] = r.range(0, 3); p.p["exe"] = r.chance(1, 2); p.p["pipe_cap"] = 65536; p.p["helper_missing"] = r.chance(1, 25); p.p["warm"] = r.chance(4, 5);
    static const char* sites[] = {"fork", "exec", "pipe", "read", "write", "waitpid", "poll", "helper.crash", "read.eio", "write.eio", "readlink", "probe.exit", "probe.kill"};
    if(r.chance(1, 2)) for(auto s : sites) if(r.chance(1, 3)) p.p[std::string("f.") + s] = std::vector<long>{15, 60, 200, 400}[size_t(r.below(4))];
}
Op gen_op(Rng& r, long threads) {
    long k = r.chance(1, 3) ? r.below(RESOLVE) : r.range(RESOLVE, kOps - 1); if(k == SET_NULL && r.chance(1, 2)) k = SET_CB; if(r.chance(1, 5)) k = RESOLVE;
    return {r.below(threads), k, r.below(64), r.range(0, 10), r.below(1000000), r.chance(1, 2) ? r.range(1, r.chance(1, 3) ? 5 : r.chance(1, 2) ? 30 : 300) : 0, r.chance(1, 3) ? 20 : 1};
}
void begin(const Plan& p, Ctx& c) {
    make(p.get("mods"), uint64_t(p.get("salt")), p.get("exe")); c.missing = p.get("helper_missing"); c.warm = p.get("warm");
    cb_set = new Setting; level_set = new Setting; absorb_set = new Setting; calls = new std::map<int, std::vector<Call*>>; alive = new std::set<const void*>; err_chunks = new std::vector<Chunk>; err_text = new std::map<int, std::string>; next_cb = 1;
    cb_set->end(cb_set->begin(NONE)); level_set->end(level_set->begin(long(cpptrace::log_level::warning))); absorb_set->end(absorb_set->begin(1));
    std::cerr.rdbuf(new ErrBuf);
    if(c.warm) { faults_enabled(false); Op w{0, RESOLVE, 0, 10, p.get("salt"), 0, 1}; concurrent = false; std::vector<cpptrace::frame_ptr> all; for(auto& m : U().mods) all.push_back(m.base + 64); cpptrace::raw_trace rt; rt.frames = all; { Sut s; auto t = rt.resolve(); } faults_enabled(true); }
}
void check_stderr() {
    std::map<int, size_t> pos; int last = -1;
    for(auto& k : *err_chunks) {
        auto& text = (*err_text)[k.task];
        if(k.task != last) {
            SIM_CHECK(text.compare(pos[k.task], 10, "[cpptrace ") == 0, "mixed-messages", "thread %d continues a message on standard error after thread %d wrote", k.task, last);
            if(last >= 0) SIM_CHECK(pos[last] == (*err_text)[last].size() || (*err_text)[last].compare(pos[last], 10, "[cpptrace ") == 0, "mixed-messages", "thread %d writes to standard error in the middle of thread %d's message", k.task, last);
            last = k.task;
        }
        pos[k.task] += k.s.size();
    }
    for(auto& t : *err_text) if(!t.second.empty()) SIM_CHECK(t.second.compare(0, 10, "[cpptrace ") == 0 && t.second.back() == '\n', "corrupt-message", "standard error got '%s'", t.second.substr(0, 200).c_str());
}
void seq_gen(Rng& r, Plan& p) { gen_env(r, p); if(r.chance(4, 5)) p.ops.push_back({0, r.chance(1, 5) ? SET_ERR : SET_CB, r.below(64), 0, 0, 0, 1}); long n = r.range(2, 12); for(long i = 0; i < n; i++) p.ops.push_back(gen_op(r, 1)); }
void seq_exec(const Plan& p) {
    Ctx c; begin(p, c); concurrent = false;
    for(auto& op : p.ops) step(op, c);
    // afterwards: with the faults gone everything is reported as configured, and nothing without a failure
    faults_enabled(false);
    step({0, SET_CB, 0, 0, 0, 0, 1}, c); step({0, SET_ABSORB, 1, 0, 0, 0, 1}, c); step({0, SET_LEVEL, 3, 0, 0, 0, 1}, c);
    step({0, RESOLVE, 0, 8, p.get("salt") + 7, 0, 1}, c); step({0, RESOLVE, 0, 8, p.get("salt") + 7, 1, 1}, c); step({0, GEN_STACK, 0, 0, 0, 1, 1}, c);
    SIM_CHECK(alive->size() <= 1, "leak", "%zu log callbacks are still held", alive->size());
    check_stderr();
}
Register r1({"log", seq_gen, seq_exec});
void par_gen(Rng& r, Plan& p) {
    gen_env(r, p); p.p["threads"] = r.range(2, 4); p.ops.push_back({-1, r.chance(1, 4) ? SET_ERR : SET_CB, r.below(64), 0, 0, 0, 1}); long n = r.range(3, 12);
    bool quiet = r.chance(1, 3);   // most changes, failures by allocation only
    if(quiet) for(auto it = p.p.begin(); it != p.p.end();) if(it->first.compare(0, 2, "f.") == 0) it = p.p.erase(it); else ++it;
    for(long i = 0; i < n; i++) { auto o = gen_op(r, p.p["threads"]); if(r.chance(1, 3)) { o[1] = GEN_RAW; o[5] = 1; } p.ops.push_back(o); }
}
void par_exec(const Plan& p) {
    Ctx c; begin(p, c); concurrent = true;
    for(auto& op : p.ops) if(op[0] == -1) step(op, c);
    for(long t = 0; t < p.get("threads"); t++) spawn([&p, t, &c] { for(auto& op : p.ops) if(op[0] == t) step(op, c); }, "user");
    join_all();
    concurrent = false; faults_enabled(false);
    step({0, SET_CB, 0, 0, 0, 0, 1}, c); step({0, SET_ABSORB, 1, 0, 0, 0, 1}, c); step({0, GEN_STACK, 0, 0, 0, 1, 1}, c);
    SIM_CHECK(alive->size() <= 1, "leak", "%zu log callbacks are still held", alive->size());
    check_stderr();
}
Register r2({"log_par", par_gen, par_exec});
}
