// C13: the C interface against the C++ one, under allocation, helper, file and sink failures, sequentially and from threads
#include "common.hpp"
#include "stack.hpp"
#include <cpptrace/utils.hpp>
#include <ctrace/ctrace.h>
#include <cstdlib>
using namespace sim;
using namespace u;
namespace {
constexpr uint32_t kNone = ~0u;
enum Kind { RESOLVE, TO_OBJECT, RESOLVE_OBJECT, TO_STRING, PRINT, DEMANGLE, OWNING, INFO, SAFE, FREES, MODE, GEN_RAW, GEN_OBJ, GEN_TRACE, SAFE_GEN, kKinds };
const char* const symbols[] = {"", "main", "f(int, char)", "std::vector<int, std::allocator<int> >::push_back(int const&)", "_ZN3foo3barEv", "??", "operator new[](unsigned long)", "x\ty", nullptr};
const char* const mangled[] = {"_ZN3foo3barEi", "_Z1fv", "_ZSt4cout", "main", "", "_Z", "_ZN3foo", "_ZN3fooIiE3barEv.cold", "_Z1fv suffix", "not mangled at all", "_ZNSt6vectorIiSaIiEE9push_backEOi", nullptr};

// a stack trace as a C caller may hold it: every combination of missing names, lines and columns
struct Trace {
    std::vector<ctrace_stacktrace_frame> f; std::vector<std::string> keep; ctrace_stacktrace t{nullptr, 0};
    Trace(uint64_t seed, long n, bool nulls) {
        Rng r(seed); keep.reserve(size_t(n) + 1);
        for(long i = 0; i < n; i++) {
            ctrace_stacktrace_frame x{};
            x.raw_address = r.chance(1, 10) ? 0 : r.chance(1, 10) ? ~uintptr_t(0) : uintptr_t(r.next()) >> r.below(40);
            x.object_address = uintptr_t(r.next()) >> 30;
            x.line = r.chance(1, 4) ? kNone : uint32_t(r.below(100000)); x.column = r.chance(1, 2) ? kNone : uint32_t(r.below(200));
            x.is_inline = r.chance(1, 5);
            const char* s = symbols[r.below(nulls ? 9 : 8)];
            if(r.chance(1, 8)) { keep.push_back(std::string(size_t(r.below(5000)), 's')); s = keep.back().c_str(); }
            x.symbol = s;
            x.filename = nulls && r.chance(1, 6) ? nullptr : r.chance(1, 5) ? "" : r.chance(1, 2) ? "/src/a.cpp" : "/a b/100% of it.cc";
            f.push_back(x);
        }
        t = {f.data(), f.size()};
    }
};
std::string tidy(const std::string& s) { return s.substr(0, 120); }

cpptrace::stacktrace to_cpp(const ctrace_stacktrace& t) {
    cpptrace::stacktrace st;
    for(size_t i = 0; i < t.count; i++) {
        auto& c = t.frames[i]; cpptrace::stacktrace_frame f{};
        f.raw_address = c.raw_address; f.object_address = c.object_address; f.is_inline = c.is_inline;
        f.line = c.line == kNone ? cpptrace::nullable<uint32_t>::null() : cpptrace::nullable<uint32_t>{c.line};
        f.column = c.column == kNone ? cpptrace::nullable<uint32_t>::null() : cpptrace::nullable<uint32_t>{c.column};
        f.symbol = c.symbol ? c.symbol : ""; f.filename = c.filename ? c.filename : "";
        st.frames.push_back(f);
    }
    return st;
}
bool same(const cpptrace::stacktrace_frame& a, const cpptrace::stacktrace_frame& b) {
    return a.raw_address == b.raw_address && a.object_address == b.object_address && a.symbol == b.symbol && a.filename == b.filename && a.is_inline == b.is_inline
        && a.line.has_value() == b.line.has_value() && (!a.line.has_value() || a.line.value() == b.line.value()) && a.column.has_value() == b.column.has_value() && (!a.column.has_value() || a.column.value() == b.column.value());
}
// what ctrace_print_stacktrace has to write
std::string print_model(const ctrace_stacktrace* t, bool color) {
    std::string o = "Stack trace (most recent call first):\n";
    if(!t || !t->frames || t->count == 0) return o + "<empty trace>\n";
    auto paint = [&](const char* c, const std::string& s) { return color ? std::string("\033[") + c + "m" + s + "\033[0m" : s; };
    size_t width = std::to_string(t->count - 1).size();
    for(size_t i = 0; i < t->count; i++) {
        auto& f = t->frames[i]; std::string n = std::to_string(i);
        o += "#" + n + std::string(width - n.size(), ' ') + " ";
        o += f.is_inline ? std::string(9, ' ') + "(inlined)" : paint("34", fmt("0x%016lx", long(f.raw_address)));
        if(f.symbol && *f.symbol) o += " in " + paint("33", f.symbol);
        if(f.filename && *f.filename) {
            o += " at " + paint("32", f.filename);
            if(f.line != kNone) { o += ":" + paint("34", std::to_string(f.line)); if(f.column != kNone) o += ":" + paint("34", std::to_string(f.column)); }
        }
        o += "\n";
    }
    return o;
}
struct Sink { std::string got; long limit = -1; };
ssize_t sink_write(void* c, const char* b, size_t n) {
    Harness h; auto& s = *static_cast<Sink*>(c);
    if(s.limit >= 0) { long room = s.limit - long(s.got.size()); if(room <= 0) { errno = ENOSPC; return 0; } if(long(n) > room) n = size_t(room); }
    s.got.append(b, n); return ssize_t(n);
}

struct Ctx { bool missing = false, absorb = true, seq = true, faults = true; long mode = 0; };
void gen_op(Rng& r, Plan& p, long threads) {
    // thread, kind, size, seed, failing allocation, burst, colour, variant
    p.ops.push_back({r.below(threads), r.below(kKinds), r.chance(1, 8) ? 0 : r.chance(1, 40) ? r.range(90, 120) : r.range(1, 14), r.below(1000000), r.chance(1, 2) ? r.range(1, r.chance(1, 2) ? 20 : 300) : 0, r.chance(1, 3) ? r.range(2, 50) : 1, r.below(2), r.below(8)});
}
long fatal() { return fault_count("fork") + fault_count("exec") + fault_count("pipe") + fault_count("helper.crash") + fault_count("probe.exit") + fault_count("probe.kill") + fault_count("read.eio") + fault_count("write.eio") + fault_count("readlink") + fault_count("fopen") + fault_count("fread") + fault_count("fseek"); }

// runs one call with its failures armed; returns allocation failures
template<class Fn> long guarded(const Op& op, bool arm, Fn fn) {
    bool threw = false;
    { Sut s; if(arm && op[4]) arm_alloc(op[4], op[5]); try { fn(); } catch(...) { threw = true; } }
    long failed = disarm_alloc();
    SIM_CHECK(!threw, "escaped", "a C++ exception left a ctrace function (call kind %ld)", op[1]);
    return failed;
}
void check_string(const char* what, const char* got, const std::string& want, long failed) {
    if(!got) { SIM_CHECK(failed, "lost-result", "%s returned null although nothing failed", what); return; }
    SIM_CHECK(is_live_block(got), "not-owned", "%s returned text that is not its own", what);
    SIM_CHECK(got == want, "wrong-text", "%s gave '%s' instead of '%s'", what, tidy(got).c_str(), tidy(want).c_str());
}
void check_c_frames(const Ctx& c, const std::vector<cpptrace::frame_ptr>& in, const ctrace_stacktrace& t, long failed, long faults, long readlinks) {
    if(!t.frames) {
        SIM_CHECK(t.count == 0, "wrong-result", "a null trace claims %zu frames", t.count);
        SIM_CHECK(failed || (!c.absorb && (faults || c.missing)), "lost-result", "a null trace for %zu addresses although nothing failed", in.size());
        return;
    }
    SIM_CHECK(is_live_block(t.frames), "not-owned", "the frames are not in a block of their own");
    for(size_t i = 0; i < t.count; i++) { SIM_CHECK(t.frames[i].symbol && t.frames[i].filename, "wrong-result", "frame %zu has null text", i); SIM_CHECK(is_live_block(t.frames[i].symbol) && is_live_block(t.frames[i].filename), "not-owned", "frame %zu's text is not its own", i); }
    FrameVerdict v; v.no_memory = failed > 0; auto st = to_cpp(t);
    check_frames(in, st, v, readlinks > 0);
    if(!failed && !faults && !c.missing && c.seq) {
        SIM_CHECK(v.degraded == 0, "over-degraded", "%d frames unresolved without a fault", v.degraded);
        faults_enabled(false);
        cpptrace::raw_trace rt; rt.frames = in; cpptrace::stacktrace ref; { Sut s; ref = rt.resolve(); }
        for(size_t i = 0; i < in.size(); i++) SIM_CHECK(same(ref.frames[i], st.frames[i]), "differs", "frame %zu: C has {%s}, C++ has {%s}", i, show(st.frames[i]).c_str(), show(ref.frames[i]).c_str());
        { Sut s; ref = cpptrace::stacktrace(); }
        faults_enabled(c.faults);
    }
}
void check_object(uintptr_t a, const ctrace_object_frame& f, long failed, long readlinks, long files) {
    auto m = find(a);
    SIM_CHECK(f.obj_path && is_live_block(f.obj_path), "not-owned", "the object path is not its own");
    SIM_CHECK(f.raw_address == a, "wrong-object", "raw address %lx instead of %lx", long(f.raw_address), long(a));
    if(!m) { SIM_CHECK(f.obj_address == 0 && !*f.obj_path, "wrong-object", "an address outside all objects got %s+%lx", f.obj_path, long(f.obj_address)); return; }
    bool none = f.obj_address == 0;
    SIM_CHECK(f.obj_address == a - m->load || (none && ((m->exe && readlinks) || failed || files)), "wrong-object", "object address %lx instead of %lx", long(f.obj_address), long(a - m->load));
    SIM_CHECK(m->path == f.obj_path || (!*f.obj_path && ((m->exe && readlinks) || failed)), "wrong-object", "object path '%s' instead of '%s'", f.obj_path, m->path.c_str());
}
template<class T, class Free> void free_twice(T& t, Free fr) {
    Sut s;
    fr(&t); { Harness h; SIM_CHECK(t.frames == nullptr && t.count == 0, "not-emptied", "a freed trace still has frames"); }
    fr(&t);
}
void free_str(ctrace_owning_string& s) {
    Sut su;
    ctrace_free_owning_string(&s); { Harness h; SIM_CHECK(!s.data, "not-emptied", "freed text is still there"); }
    ctrace_free_owning_string(&s);
}

__attribute__((noinline)) void generate(const Op& op, Ctx& c, bool arm) {
    size_t skip = size_t(op[7] & 1), depth = op[2] == 0 ? 0 : op[7] & 2 ? 1000 : size_t(op[2]);
    auto ref = stk::here(); long f0 = fatal();
    ctrace_raw_trace rt{}; ctrace_object_trace ot{}; ctrace_stacktrace st{}; long failed; std::vector<uintptr_t> got; bool null;
    if(op[1] == GEN_RAW) { failed = guarded(op, arm, [&] { rt = ctrace_generate_raw_trace(skip, depth); }); null = !rt.frames; for(size_t i = 0; i < rt.count; i++) got.push_back(rt.frames[i]); }
    else if(op[1] == GEN_OBJ) { failed = guarded(op, arm, [&] { ot = ctrace_generate_object_trace(skip, depth); }); null = !ot.frames; for(size_t i = 0; i < ot.count; i++) { SIM_CHECK(ot.frames[i].obj_path, "wrong-result", "frame %zu has a null path", i); got.push_back(ot.frames[i].raw_address); } }
    else { failed = guarded(op, arm, [&] { st = ctrace_generate_trace(skip, depth); }); null = !st.frames; for(size_t i = 0; i < st.count; i++) { SIM_CHECK(st.frames[i].symbol && st.frames[i].filename, "wrong-result", "frame %zu has null text", i); got.push_back(st.frames[i].raw_address); } }
    bool may_null = failed || (op[1] == GEN_TRACE && !c.absorb && (fatal() > f0 || c.missing));
    SIM_CHECK(!null || may_null, "lost-result", "a null trace although nothing failed");
    // the closure adds a level of its own, which C17 accounts for; here: the levels above this function
    if(got.empty()) SIM_CHECK(null || failed || depth == 0, "lost-result", "an empty trace although nothing failed");
    else {
        SIM_CHECK(got.size() <= depth, "wrong-result", "%zu frames although at most %zu were asked for", got.size(), depth);
        if(depth == 1000) {
            auto at = [&](size_t i, size_t k) { return got[i] < ref.ips[k] && got[i] + 16 >= ref.ips[k]; };
            size_t i = 0; while(i < got.size() && i < 6 && !at(i, 1)) i++;
            SIM_CHECK(i < got.size() && i < 6, "wrong-result", "the caller's frame is missing");
            for(size_t k = 1; k < ref.ips.size() && i < got.size(); k++, i++) SIM_CHECK(at(i, k), "wrong-result", "level %zu is %lx, the call there returns to %lx", k, long(got[i]), long(ref.ips[k]));
        }
    }
    if(op[1] == GEN_RAW) free_twice(rt, ctrace_free_raw_trace); else if(op[1] == GEN_OBJ) free_twice(ot, ctrace_free_object_trace); else free_twice(st, ctrace_free_stacktrace);
    event("generate %ld n=%zu failed=%ld", op[1], got.size(), failed);
}
void one(const Op& op, Ctx& c, bool arm) {
    Rng r(uint64_t(op[3]) + 5);
    long f0 = fatal(), l0 = fault_count("readlink"), o0 = fault_count("fopen") + fault_count("fread") + fault_count("fseek"), failed = 0;
    auto in = frames(uint64_t(op[3]), op[2]);
    switch(op[1]) {
        case RESOLVE: case RESOLVE_OBJECT: {
            auto raw = in; std::vector<ctrace_object_frame> objs;
            for(auto a : in) objs.push_back({a, uintptr_t(r.next()), r.chance(1, 3) ? nullptr : "/whatever"});    // only the raw address counts
            static cpptrace::frame_ptr none; static ctrace_object_frame nobj;
            ctrace_raw_trace rt{in.empty() ? &none : raw.data(), in.size()}; ctrace_object_trace ot{in.empty() ? &nobj : objs.data(), in.size()}; ctrace_stacktrace t{};
            bool null_in = op[7] == 0;
            if(null_in) { rt.frames = nullptr; ot.frames = nullptr; }
            failed = guarded(op, arm, [&] { t = op[1] == RESOLVE ? ctrace_resolve_raw_trace(null_in && op[6] ? nullptr : &rt) : ctrace_resolve_object_trace(null_in && op[6] ? nullptr : &ot); });
            if(null_in) SIM_CHECK(!t.frames && t.count == 0, "wrong-result", "frames out of a null trace");
            else { SIM_CHECK(raw == in, "wrong-result", "the input was changed"); check_c_frames(c, in, t, failed, fatal() - f0, fault_count("readlink") - (c.seq ? l0 : 0)); }
            free_twice(t, ctrace_free_stacktrace);
            break;
        }
        case TO_OBJECT: {
            static cpptrace::frame_ptr none; auto raw = in; ctrace_raw_trace rt{in.empty() ? &none : raw.data(), in.size()}; ctrace_object_trace t{};
            bool null_in = op[7] == 0; if(null_in) rt.frames = nullptr;
            failed = guarded(op, arm, [&] { t = ctrace_resolve_raw_trace_to_object_trace(null_in && op[6] ? nullptr : &rt); });
            if(null_in) SIM_CHECK(!t.frames && t.count == 0, "wrong-result", "frames out of a null trace");
            else if(!t.frames) { SIM_CHECK(failed, "lost-result", "a null object trace although nothing failed"); SIM_CHECK(t.count == 0, "wrong-result", "a null trace claims %zu frames", t.count); }
            else {
                SIM_CHECK(t.count == in.size(), "misaligned", "%zu frames for %zu addresses", t.count, in.size());
                long files = fault_count("fopen") + fault_count("fread") + fault_count("fseek") - (c.seq ? o0 : 0);
                for(size_t i = 0; i < in.size(); i++) check_object(in[i], t.frames[i], failed, fault_count("readlink") - (c.seq ? l0 : 0), files);
            }
            free_twice(t, ctrace_free_object_trace);
            break;
        }
        case TO_STRING: {
            Trace t(uint64_t(op[3]), op[2], op[7] & 1);
            bool null_in = op[7] == 7; ctrace_owning_string s{};
            std::string want;
            if(null_in) want = "<empty trace>"; else if(op[2] == 0) { static ctrace_stacktrace_frame dummy; t.t.frames = &dummy; }
            if(!null_in) { auto cpp = to_cpp(t.t); std::string w; { Sut su; w = cpp.to_string(bool(op[6])); { Harness h; want.assign(w.data(), w.size()); } w = std::string(); } }
            else if(op[6]) t.t.frames = nullptr;
            failed = guarded(op, arm, [&] { s = ctrace_stacktrace_to_string(null_in && !op[6] ? nullptr : &t.t, ctrace_bool(op[6])); });
            check_string("ctrace_stacktrace_to_string", s.data, want, failed);
            free_str(s);
            break;
        }
        case PRINT: {
            Trace t(uint64_t(op[3]), op[2], op[7] & 1); bool null_in = op[7] == 7, no_frames = op[7] == 6 && op[6]; if(no_frames) t.t.frames = nullptr;
            Sink sink; if(r.chance(1, 3)) sink.limit = r.below(300);
            FILE* f = fopencookie(&sink, "w", {nullptr, sink_write, nullptr, nullptr});
            std::vector<char> buf(4096); setvbuf(f, buf.data(), r.chance(1, 3) ? _IONBF : r.chance(1, 2) ? _IOLBF : _IOFBF, buf.size());
            failed = guarded(op, arm, [&] { ctrace_print_stacktrace(null_in ? nullptr : &t.t, f, ctrace_bool(op[6])); });
            fclose(f);
            std::string want = print_model(null_in ? nullptr : &t.t, op[6]);
            if(sink.limit < 0 && !failed) SIM_CHECK(sink.got == want, "wrong-text", "ctrace_print_stacktrace wrote '%s' instead of '%s'", tidy(sink.got).c_str(), tidy(want).c_str());
            else if(!failed && op[2] > 0) SIM_CHECK(sink.got.size() <= size_t(sink.limit < 0 ? 1l << 30 : sink.limit), "wrong-text", "the sink got more than it took");
            break;
        }
        case DEMANGLE: {
            const char* m = mangled[op[3] % 12]; ctrace_owning_string s{}; std::string want;
            if(m) { std::string w; Sut su; w = cpptrace::demangle(m); { Harness h; want.assign(w.data(), w.size()); } w = std::string(); }
            failed = guarded(op, arm, [&] { s = ctrace_demangle(m); });
            if(s.data && failed && m && want != s.data) SIM_CHECK(s.data == std::string(m), "wrong-text", "after a failure ctrace_demangle gave '%s'", s.data);
            else check_string("ctrace_demangle", s.data, want, failed);
            free_str(s);
            break;
        }
        case OWNING: {
            std::string text(size_t(op[3] % 300), 'o'); bool null_in = op[7] == 0; ctrace_owning_string s{};
            failed = guarded(op, arm, [&] { s = ctrace_generate_owning_string(null_in ? nullptr : text.c_str()); });
            check_string("ctrace_generate_owning_string", s.data, null_in ? "" : text, failed);
            free_str(s);
            break;
        }
        case INFO: {
            if(in.empty()) break;
            ctrace_stacktrace_frame f{}; f.raw_address = in[0]; f.object_address = 7; f.symbol = f.filename = nullptr; ctrace_object_frame o{};
            failed = guarded(op, arm, [&] { o = ctrace_get_object_info(&f); });
            if(!o.obj_path) SIM_CHECK(failed && !o.raw_address && !o.obj_address, "lost-result", "no object although nothing failed");
            else check_object(in[0], o, failed, fault_count("readlink") - (c.seq ? l0 : 0), fault_count("fopen") + fault_count("fread") + fault_count("fseek") - (c.seq ? o0 : 0));
            { ctrace_owning_string s{o.obj_path}; free_str(s); }
            break;
        }
        case SAFE: {
            if(in.empty()) break;
            static_assert(sizeof(cpptrace::safe_object_frame) == sizeof(ctrace_safe_object_frame), "");
            bool can = ctrace_can_get_safe_object_frame();
            SIM_CHECK(can == cpptrace::can_get_safe_object_frame() && bool(ctrace_can_signal_safe_unwind()) == cpptrace::can_signal_safe_unwind(), "differs", "the capability functions differ");
            auto a = std::make_unique<ctrace_safe_object_frame>(); auto b = std::make_unique<cpptrace::safe_object_frame>(); memset(a.get(), 0x5a, sizeof *a); memset(b.get(), 0x5a, sizeof *b);
            faults_enabled(false);
            failed = guarded(op, arm, [&] { ctrace_get_safe_object_frame(in[0], a.get()); });
            { Sut s; cpptrace::get_safe_object_frame(in[0], b.get()); }
            faults_enabled(c.faults);
            SIM_CHECK(a->raw_address == b->raw_address && a->relative_obj_address == b->address_relative_to_object_start && !strcmp(a->object_path, b->object_path), "differs", "C has %s+%lx, C++ has %s+%lx", a->object_path, long(a->relative_obj_address), b->object_path, long(b->address_relative_to_object_start));
            break;
        }
        case FREES: {
            ctrace_raw_trace a{nullptr, size_t(op[2])}; ctrace_object_trace b{nullptr, size_t(op[2])}; ctrace_stacktrace d{nullptr, size_t(op[2])}; ctrace_owning_string e{nullptr};
            guarded(op, arm, [&] { ctrace_free_raw_trace(nullptr); ctrace_free_object_trace(nullptr); ctrace_free_stacktrace(nullptr); ctrace_free_owning_string(nullptr); ctrace_free_raw_trace(&a); ctrace_free_object_trace(&b); ctrace_free_stacktrace(&d); ctrace_free_owning_string(&e); });
            SIM_CHECK(!a.frames && !b.frames && !d.frames && !e.data, "wrong-result", "freeing nothing changed it");
            break;
        }
        case SAFE_GEN: {
            // what fits into the buffer, at most what was asked for, and the same frames as the C++ function gives
            if(!cpptrace::can_signal_safe_unwind()) break;
            size_t skip = size_t(op[7] % 3), cap = size_t(r.range(0, 40)), depth = r.chance(1, 4) ? size_t(-1) : size_t(r.range(0, 20));
            std::vector<cpptrace::frame_ptr> a(42, 0x5a5a), b(42, 0x5a5a); size_t na = 0, nb = 0; bool of_max = r.chance(3, 4);
            for(int k = 0; k < 2; k++) {   // one call site, so that the frames are equal
                auto& v = k ? b : a; size_t& n = k ? nb : na;
                failed = guarded(op, arm, [&] { n = k ? cpptrace::safe_generate_raw_trace(v.data(), cap, skip + 1, of_max ? depth : size_t(-1)) : ctrace_safe_generate_raw_trace(v.data(), cap, skip + 1, of_max ? depth : size_t(-1)); });
            }
            size_t lim = std::min(cap, of_max ? depth : size_t(-1));
            SIM_CHECK(na <= lim, "wrong-result", "%zu frames with room for %zu and at most %zu asked for", na, cap, depth);
            SIM_CHECK(na == nb && a == b, "differs", "C and C++ captured differently: %zu and %zu frames (skip %zu, buffer %zu, max %zu)", na, nb, skip, cap, depth);
            for(size_t i = na; i < a.size(); i++) SIM_CHECK(a[i] == 0x5a5a, "overrun", "element %zu of the buffer was written, %zu were returned", i, na);
            break;
        }
        case MODE: {
            if(!c.seq) break;
            long m = op[3] % 6;   // modes beyond the last are ignored
            guarded(op, arm, [&] { ctrace_set_cache_mode(ctrace_cache_mode(m > 2 ? m * 1000 - 2999 + 2 : m)); });
            if(m <= 2 && m != 0) c.mode = m; else if(m == 0 && c.mode != 0) c.mode = c.mode | 4;    // what is cached stays
            SIM_CHECK(ctrace_stdin_fileno() == 0 && ctrace_stdout_fileno() == 1 && ctrace_stderr_fileno() == 2, "differs", "standard descriptor numbers");
            guarded(op, arm, [&] { ctrace_enable_inlined_call_resolution(ctrace_bool(op[6])); });
            break;
        }
        default: generate(op, c, arm);
    }
    event("op %ld n=%ld failed=%ld faults=%ld", op[1], op[2], failed, fatal() - f0);
    state(mixh(uint64_t(op[1] * 4 + (failed > 0) * 2 + (fatal() > f0)), uint64_t(op[2])));
    stat("checked");
}
void gen_common(Rng& r, Plan& p) {
    p.p["salt"] = r.below(1000000); p.p["mods"] = r.chance(1, 50) ? r.range(17, 30) : r.range(0, 4); p.p["exe"] = r.chance(1, 2);
    p.p["pipe_cap"] = 65536; p.p["helper_missing"] = r.chance(1, 25); p.p["absorb"] = r.chance(3, 4); p.p["cache"] = r.below(3);
}
void start(const Plan& p, Ctx& c) {
    make(p.get("mods"), uint64_t(p.get("salt")), p.get("exe"));
    c.missing = p.get("helper_missing"); c.mode = p.get("cache");
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); ctrace_set_cache_mode(ctrace_cache_mode(c.mode)); }
}
void seq_gen(Rng& r, Plan& p) {
    gen_common(r, p);
    static const char* sites[] = {"fork", "exec", "pipe", "read", "write", "waitpid", "poll", "helper.crash", "read.eio", "write.eio", "readlink", "fopen", "fread", "fseek"};
    if(r.chance(2, 3)) for(auto s : sites) if(r.chance(1, 3)) p.p[std::string("f.") + s] = std::vector<long>{15, 60, 200}[size_t(r.below(3))];
    long n = r.range(2, 10); for(long i = 0; i < n; i++) gen_op(r, p, 1);
}
void seq_exec(const Plan& p) {
    Ctx c; start(p, c);
    faults_enabled(c.faults = false);
    {   // warm-up: every once-only state, then each planned call once without failures
        std::vector<cpptrace::frame_ptr> all; for(auto& m : U().mods) all.push_back(m.base + 64);
        ctrace_raw_trace rt{all.data(), all.size()}; ctrace_stacktrace t{}; { Sut s; t = ctrace_resolve_raw_trace(&rt); ctrace_free_stacktrace(&t); }
        for(auto& op : p.ops) one(op, c, false);
        for(auto& op : p.ops) if(op[1] == MODE) { for(auto& o : p.ops) one(o, c, false); break; }    // what is kept depends on the mode, and that starts as the last pass left it
    }
    faults_enabled(c.faults = true);
    c.absorb = p.get("absorb"); { Sut s; cpptrace::absorb_trace_exceptions(c.absorb); }
    for(auto& op : p.ops) {
        auto s0 = snapshot(); Mem m0 = live();
        one(op, c, true);
        auto d = diff(s0, snapshot(), kReadsObjects && c.mode != 0);
        SIM_CHECK(d.empty(), "leak", "after call kind %ld: %s", op[1], d.c_str());
        Mem m1 = live();
        SIM_CHECK(m1.blocks <= m0.blocks || !keeps_growing([&] { one(op, c, true); }), "memory-leak", "%ld blocks (%ld bytes) more are live after call kind %ld and its free", m1.blocks - m0.blocks, m1.bytes - m0.bytes, op[1]);
    }
}
Register r1({"capi", seq_gen, seq_exec});
void par_gen(Rng& r, Plan& p) {
    gen_common(r, p); p.p["threads"] = r.range(2, 3);
    long n = r.range(2, 9); for(long i = 0; i < n; i++) { gen_op(r, p, p.p["threads"]); p.ops.back()[4] = 0; }
}
void par_exec(const Plan& p) {
    Ctx c; start(p, c); c.seq = false;
    for(long t = 0; t < p.get("threads"); t++) spawn([&p, t, &c] { for(auto& op : p.ops) if(op[0] == t) one(op, c, false); }, "caller");
    join_all();
}
Register r2({"capi_par", par_gen, par_exec});
}
