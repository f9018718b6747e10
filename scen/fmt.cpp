// C14: one formatter configuration, one trace, many sinks, threads, copies, callbacks and failures on the way
#include "rt.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include <cpptrace/formatting.hpp>
#include <cstring>
#include <iostream>
#include <new>
#include <set>
#include <sstream>
using namespace sim;
namespace {
using F = cpptrace::formatter;
struct Opt {
    std::string header = "Stack trace (most recent call first):"; F::color_mode color = F::color_mode::automatic; F::address_mode addr = F::address_mode::raw; F::path_mode paths = F::path_mode::full;
    bool snippets = false, brk = false, columns = true, placeholders = true, hide = true; int context = 2; F::symbol_mode symbols = F::symbol_mode::full; int filter = 0, transform = 0;
};
struct Cb { long throw_at = 0, calls = 0; std::vector<std::pair<char, uintptr_t>> seen; };
std::map<int, Cb>* cbs;
struct Thrown {};
void called(char k, uintptr_t a) {
    Harness h; auto& c = (*cbs)[task_id()]; c.seen.push_back({k, a}); c.calls++;
    if(c.calls == c.throw_at) { event("callback throws"); throw Thrown(); }
    yield_here("callback");
}
// the filter sees what the transform made of a frame
bool keep(int kind, const cpptrace::stacktrace_frame& f) { return kind == 1 ? (f.raw_address >> 4) % 3 != 1 : kind == 2 ? false : kind == 3 ? (f.raw_address >> 4) % 2 == 0 : (f.symbol.size() + f.filename.size() + f.is_inline) % 2 == 0; }
void change(int kind, cpptrace::stacktrace_frame& f) {
    if(kind == 1) f.symbol = "<" + f.symbol + ">";
    else if(kind == 2) { f.filename = "/moved/" + cpptrace::basename(f.filename); f.column = 7u; }
    else f.is_inline = !f.is_inline;
}
// callables with state of their own, so that copying them allocates
struct Filter { int kind; std::string big = std::string(100, 'f'); bool operator()(const cpptrace::stacktrace_frame& f) const { called('f', f.raw_address); return keep(kind, f); } };
struct Transform { int kind; std::string big = std::string(100, 't'); cpptrace::stacktrace_frame operator()(cpptrace::stacktrace_frame f) const { called('t', f.raw_address); change(kind, f); return f; } };

// ---- the reference text
std::string paint(bool c, const char* code, const std::string& s) { return c ? std::string("\033[") + code + "m" + s + "\033[0m" : s; }
std::string frame_text(const Opt& o, const cpptrace::stacktrace_frame& f, bool color, size_t col, bool unpruned = false) {
    std::string s;
    if(f.is_inline) s += "(inlined)" + std::string(9, ' '), col += 18;
    else if(o.addr != F::address_mode::none) s += paint(color, "34", fmt("0x%016lx", long(o.addr == F::address_mode::raw ? f.raw_address : f.object_address))), col += 18;
    if(f.is_inline || o.addr != F::address_mode::none) s += ' ', col++;
    if(!f.symbol.empty()) s += "in " + paint(color, "33", o.symbols == F::symbol_mode::full || (unpruned && o.symbols == F::symbol_mode::pruned) ? f.symbol : o.symbols == F::symbol_mode::pretty ? cpptrace::prettify_symbol(f.symbol) : cpptrace::prune_symbol(f.symbol));
    if(!f.symbol.empty() && !f.filename.empty()) s += o.brk ? "\n" + std::string(col, ' ') : " ";
    if(!f.filename.empty()) {
        s += "at " + paint(color, "32", o.paths == F::path_mode::full ? f.filename : f.filename.substr(f.filename.find_last_of("/\\") == std::string::npos ? 0 : f.filename.find_last_of("/\\") + 1));
        if(f.line.has_value()) { s += ":" + paint(color, "34", std::to_string(f.line.value())); if(f.column.has_value() && o.columns) s += ":" + paint(color, "34", std::to_string(f.column.value())); }
    }
    return s;
}
// without memory a snippet may be missing (mode & 1) and a symbol stay unpruned (mode & 2): those of the frames [lost, lost_end)
// (the header and one part per frame)
std::vector<std::string> trace_parts(const Opt& o, const cpptrace::stacktrace& t, bool color, int mode = 0) {
    std::vector<std::string> parts; parts.push_back(o.header.empty() ? "" : o.header + "\n");
    if(t.frames.empty()) { parts[0] += "<empty trace>"; return parts; }
    size_t start = 0, n = 0, width = std::to_string(t.frames.size() - 1).size();
    if(o.hide) for(size_t i = 0; i < t.frames.size(); i++) if(t.frames[i].symbol == "__cxa_throw") { start = i + 1; break; }
    for(size_t i = start; i < t.frames.size(); i++, n++) {
        std::string s; auto f = t.frames[i];
        if(o.transform) change(o.transform, f);
        bool out = o.filter && !keep(o.filter, f);
        if(out && !o.placeholders) { parts.push_back(s); continue; }
        std::string num = std::to_string(n); num += std::string(num.size() < width ? width - num.size() : 0, ' ');
        s += "#" + num + " ";
        if(out) s += "(filtered)";
        else {
            s += frame_text(o, f, color, 2 + width, mode & 2);
            if(f.line.has_value() && !f.filename.empty() && o.snippets && !(mode & 1)) {
                std::string sn; { Sut su; std::string x = f.column.has_value() ? cpptrace::get_snippet(f.filename, f.line.value(), f.column.value(), size_t(o.context), color) : cpptrace::get_snippet(f.filename, f.line.value(), size_t(o.context), color); Harness h; sn.assign(x.data(), x.size()); }
                if(!sn.empty()) s += "\n" + sn;
            }
        }
        if(i + 1 != t.frames.size()) s += "\n";
        parts.push_back(std::move(s));
    }
    return parts;
}
std::string trace_text(const Opt& o, const cpptrace::stacktrace& t, bool color) { std::string s; for(auto& p : trace_parts(o, t, color)) s += p; return s; }
// the text with one run of frames degraded that `got` is a beginning of, or "" (nothing is allocated while searching)
std::string degraded_text(const Opt& o, const cpptrace::stacktrace& t, bool color, const std::string& got, const std::string& nl) {
    auto full = trace_parts(o, t, color);
    for(int mode = 1; mode < 4; mode++) {
        auto less = trace_parts(o, t, color, mode);
        for(size_t a = 1; a < full.size(); a++) for(size_t b = a + 1; b <= full.size(); b++) {
            auto part = [&](size_t i) -> const std::string& { return i == full.size() ? nl : i >= a && i < b ? less[i] : full[i]; };
            size_t pos = 0; bool ok = true;
            for(size_t i = 0; ok && pos < got.size(); i++) { if(i > full.size()) { ok = false; break; } auto& x = part(i); size_t n = std::min(x.size(), got.size() - pos); ok = memcmp(x.data(), got.data() + pos, n) == 0; pos += n; }
            if(!ok) continue;
            std::string s; for(size_t i = 0; i <= full.size(); i++) s += part(i);
            return s;
        }
    }
    return "";
}
std::vector<std::pair<char, uintptr_t>> calls_of(const Opt& o, const cpptrace::stacktrace& t) {
    std::vector<std::pair<char, uintptr_t>> v; size_t start = 0;
    if(o.hide) for(size_t i = 0; i < t.frames.size(); i++) if(t.frames[i].symbol == "__cxa_throw") { start = i + 1; break; }
    for(size_t i = start; i < t.frames.size(); i++) { if(o.transform) v.push_back({'t', t.frames[i].raw_address}); if(o.filter) v.push_back({'f', t.frames[i].raw_address}); }
    return v;
}

// ---- sinks
struct Buf : std::streambuf {
    std::string got; long limit = -1; bool throws = false;
    bool room() { if(limit < 0 || long(got.size()) < limit) return true; if(throws) throw Thrown(); return false; }
    int_type overflow(int_type c) override { Harness h; if(c == traits_type::eof()) return 0; if(!room()) return traits_type::eof(); got += char(c); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { Harness h; std::streamsize i = 0; for(; i < n; i++) { if(!room()) break; got += s[i]; } return i; }
};
ssize_t file_write(void* c, const char* b, size_t n) {
    Harness h; auto& s = *static_cast<Buf*>(c);
    if(s.limit >= 0) { long left = s.limit - long(s.got.size()); if(left <= 0) { errno = EIO; return 0; } if(long(n) > left) n = size_t(left); }
    s.got.append(b, n); return ssize_t(n);
}

struct Fm { std::unique_ptr<F> f; Opt o; bool live = true; };
std::vector<cpptrace::stacktrace>* traces;

// callers construct from temporaries, so the parts that may fail are all inside
void apply(F& f, Opt& o, Rng& r, int which) {
    // the option object changes only when the setter has returned
    switch(which) {
        case 0: { std::string h; { Harness x; const char* k[] = {"", "Trace:", "A header that is quite a bit longer than the small string buffer:", "two\nlines"}; h = k[r.below(4)]; } std::string copy; { Harness x; copy = h; } f.header(std::move(copy)); Harness x; o.header = h; break; }
        case 1: { auto m = F::color_mode(r.below(3)); f.colors(m); o.color = m; break; }
        case 2: { auto m = F::address_mode(r.below(3)); f.addresses(m); o.addr = m; break; }
        case 3: { auto m = F::path_mode(r.below(2)); f.paths(m); o.paths = m; break; }
        case 4: { bool b = r.chance(1, 2); f.snippets(b); o.snippets = b; break; }
        case 5: { int n = int(r.below(4)); f.snippet_context(n); o.context = n; break; }
        case 6: { bool b = r.chance(1, 2); f.columns(b); o.columns = b; break; }
        case 7: { auto m = F::symbol_mode(r.below(3)); f.symbols(m); o.symbols = m; break; }
        case 8: { bool b = r.chance(1, 2); f.filtered_frame_placeholders(b); o.placeholders = b; break; }
        case 9: { int k = int(r.below(5)); if(k) f.filter(Filter{k}); else f.filter(nullptr); o.filter = k; break; }
        case 10: { int k = int(r.below(4)); if(k) f.transform(Transform{k}); else f.transform(nullptr); o.transform = k; break; }
        case 11: { bool b = r.chance(1, 2); f.break_before_filename(b); o.brk = b; break; }
        default: { bool b = r.chance(1, 2); f.hide_exception_machinery(b); o.hide = b; }
    }
}
constexpr int kSetters = 13;
Fm make(uint64_t seed) {
    Rng r(seed); Fm m;
    { Sut s; F* p = new F; { Harness h; m.f.reset(p); } }
    for(int i = 0; i < kSetters; i++) if(r.chance(1, 2)) { Sut s; apply(*m.f, m.o, r, i); }
    return m;
}
cpptrace::stacktrace make_trace(uint64_t seed) {
    Rng r(seed); cpptrace::stacktrace t; long n = r.chance(1, 10) ? 0 : r.chance(1, 60) ? r.range(98, 120) : r.chance(1, 10) ? r.range(10, 12) : r.range(1, 5);
    static const char* syms[] = {"main", "", "f(int, char)", "std::vector<int, std::allocator<int> >::push_back(int const&)", "ns::g<T>(unsigned long) const", "a very long name that does not fit any small buffer at all()", "{}{{}}", "__cxa_throw"};
    for(long i = 0; i < n; i++) {
        cpptrace::stacktrace_frame f{};
        f.raw_address = uintptr_t(0x400000 + (r.next() % 0xffff) * 0x1000 + uintptr_t(i) * 16 + (r.next() & 0xff) * 0x10000000ull) & ~uintptr_t(15) | uintptr_t(i);
        f.object_address = uintptr_t(r.below(1000000)); f.is_inline = r.chance(1, 6);
        f.symbol = syms[r.chance(1, 6) ? 7 : r.below(7)]; if(r.chance(1, 30)) f.symbol += std::string("\0tail", 5);   // a frame is data: nothing ends a text early
        f.filename = r.chance(1, 5) ? "" : r.chance(1, 4) ? "C:\\dir\\w.cpp" : r.chance(1, 3) ? "plain.c" : fmt("/sim/src/s%ld.cpp", r.below(2));
        if(r.chance(3, 4)) f.line = uint32_t(r.range(1, 9));
        if(r.chance(1, 2)) f.column = uint32_t(r.range(1, 20));
        if(i && r.chance(1, 5)) { if(r.chance(1, 3)) f = t.frames.back(); else { f.raw_address = t.frames.back().raw_address; if(r.chance(1, 2)) f.object_address = t.frames.back().object_address; if(r.chance(1, 2)) f.symbol = t.frames.back().symbol; } }   // recursion, inlined calls
        t.frames.push_back(f);
    }
    return t;
}
enum Form { STR, STR_C, OS, OS_C, FILE_, FILE_C, COUT, COUT_C, FR_STR, FR_STR_C, FR_STR_CI, FR_OS, FR_OS_C, FR_OS_CI, FR_FILE, FR_FILE_C, FR_FILE_CI, FR_COUT, FR_COUT_C, D_STR, D_STR_F, D_OS, D_OS_T, D_OS_F, D_COUT, D_SHIFT, D_FR_STR, D_FR_STR_C, D_FR_SHIFT, S_OS, S_OS_C, S_COUT, kForms };
bool to_cout(int f) { return f == COUT || f == COUT_C || f == FR_COUT || f == FR_COUT_C || f == D_COUT || f == S_COUT; }
const F& snippet_formatter_model();

// one call of one form; checks the text, the callbacks and what is left when something fails
void call(const F& f, const Opt& oo, const cpptrace::stacktrace& t, const Op& op, bool faults) {
    long form = op[3], frame = t.frames.empty() ? -1 : op[4] % long(t.frames.size()); bool want_color = op[5]; size_t indent = size_t(op[6]);
    bool per_frame = (form >= FR_STR && form <= FR_COUT_C) || (form >= D_FR_STR && form <= D_FR_SHIFT);
    if(per_frame && frame < 0) return;
    Opt dflt; bool dft = form >= D_STR; Opt o = dft ? dflt : oo; if(form >= S_OS) o.snippets = true;
    // the colour the call has to use
    int over = -1;
    switch(form) { case STR_C: case OS_C: case FILE_C: case COUT_C: case FR_STR_C: case FR_STR_CI: case FR_OS_C: case FR_OS_CI: case FR_FILE_C: case FR_FILE_CI: case FR_COUT_C: case D_FR_STR_C: case S_OS_C: over = want_color; break; case D_OS_T: over = 1; break; case D_OS_F: case D_STR_F: case D_STR: case D_FR_STR: case D_FR_SHIFT: over = 0; break; }
    bool tty = to_cout(int(form)) && op[7];
    if(form == D_STR_F) over = want_color;
    bool color = over >= 0 ? over : o.color == F::color_mode::always || (o.color == F::color_mode::automatic && tty);
    size_t in = form == FR_STR_CI || form == FR_OS_CI || form == FR_FILE_CI ? indent : 0;
    std::string want; std::vector<std::pair<char, uintptr_t>> want_calls;
    if(per_frame) { auto fr = t.frames[size_t(frame)]; if(o.transform) { want_calls.push_back({'t', fr.raw_address}); change(o.transform, fr); } want = frame_text(o, fr, color, in); }
    else { { Harness h; want = trace_text(o, t, color); } want_calls = calls_of(o, t); }
    bool is_string = form == STR || form == STR_C || (form >= FR_STR && form <= FR_STR_CI) || form == D_STR || form == D_STR_F || form == D_FR_STR || form == D_FR_STR_C;
    if(!is_string && form != D_FR_SHIFT) want += "\n";
    Buf buf; if(faults && op[8]) { buf.limit = op[8] - 1; buf.throws = op[9] & 1; }
    if(is_string) buf.limit = -1;
    auto& cb = (*cbs)[task_id()]; cb = Cb(); if(faults) cb.throw_at = op[10];
    std::ostream os(&buf); if(op[9] & 2) os.exceptions(std::ios::badbit);
    // stream state of the application's own making
    if(op[9] & 4) { os.setf(std::ios::hex, std::ios::basefield); os.setf(std::ios::showbase | std::ios::uppercase | std::ios::boolalpha); os.fill('*'); os.precision(1); }
    auto flags = os.flags();
    FILE* file = nullptr; std::vector<char> fb(1024);
    if((form >= FILE_ && form <= FILE_C) || (form >= FR_FILE && form <= FR_FILE_CI)) { file = fopencookie(&buf, "w", {nullptr, file_write, nullptr, nullptr}); setvbuf(file, fb.data(), op[9] & 8 ? _IONBF : op[9] & 16 ? _IOLBF : _IOFBF, fb.size()); }
    std::streambuf* old = nullptr; if(to_cout(int(form))) { std::cout.clear(); old = std::cout.rdbuf(&buf); }
    std::string out; bool threw = false, oom = false; const char* other = nullptr; long failed = 0;
    const cpptrace::stacktrace_frame* fr = frame >= 0 ? &t.frames[size_t(frame)] : nullptr;
    {
        Sut s; if(faults && op[11]) arm_alloc(op[11], op[12]);
        try {
            std::string res;
            switch(form) {
                case STR: res = f.format(t); break; case STR_C: res = f.format(t, want_color); break;
                case OS: f.print(os, t); break; case OS_C: f.print(os, t, want_color); break;
                case FILE_: f.print(file, t); break; case FILE_C: f.print(file, t, want_color); break;
                case COUT: f.print(t); break; case COUT_C: f.print(t, want_color); break;
                case FR_STR: res = f.format(*fr); break; case FR_STR_C: res = f.format(*fr, want_color); break; case FR_STR_CI: res = f.format(*fr, want_color, indent); break;
                case FR_OS: f.print(os, *fr); break; case FR_OS_C: f.print(os, *fr, want_color); break; case FR_OS_CI: f.print(os, *fr, want_color, indent); break;
                case FR_FILE: f.print(file, *fr); break; case FR_FILE_C: f.print(file, *fr, want_color); break; case FR_FILE_CI: f.print(file, *fr, want_color, indent); break;
                case FR_COUT: f.print(*fr); break; case FR_COUT_C: f.print(*fr, want_color); break;
                case D_STR: res = t.to_string(); break; case D_STR_F: res = t.to_string(want_color); break;
                case D_OS: t.print(os); break; case D_OS_T: t.print(os, true); break; case D_OS_F: t.print(os, false); break; case D_COUT: t.print(); break; case D_SHIFT: os << t; break;
                case D_FR_STR: res = fr->to_string(); break; case D_FR_STR_C: res = fr->to_string(want_color); break; case D_FR_SHIFT: os << *fr; break;
                case S_OS: t.print_with_snippets(os); break; case S_OS_C: t.print_with_snippets(os, want_color); break; case S_COUT: t.print_with_snippets(); break;
            }
            { Harness h; out.assign(res.data(), res.size()); }
        } catch(const Thrown&) { threw = true; } catch(const std::bad_alloc&) { threw = oom = true; } catch(const std::ios_base::failure&) { threw = true; } catch(const std::exception& e) { other = "another exception"; }
    }
    failed = disarm_alloc();
    if(old) { std::cout.rdbuf(old); std::cout.clear(); }
    if(file) fclose(file);
    if(failed && (o.snippets || o.symbols == F::symbol_mode::pruned)) {
        std::string g = is_string ? out : buf.got, nl = !is_string && form != D_FR_SHIFT ? "\n" : "";
        if(per_frame) { auto c = t.frames[size_t(frame)]; if(o.transform) change(o.transform, c); auto v = frame_text(o, c, color, in, true) + nl; if(want.compare(0, g.size(), g) != 0 && v.compare(0, g.size(), g) == 0) { want = v; stat("degraded"); } }
        else if(want.compare(0, g.size(), g) != 0) { auto v = degraded_text(o, t, color, g, nl); if(!v.empty()) { want = v; stat("degraded"); } }
    }
    bool cb_threw = cb.throw_at && cb.calls >= cb.throw_at;
    SIM_CHECK(!other, "foreign-exception", "form %ld threw something unexpected", form);
    SIM_CHECK(!oom || failed, "foreign-exception", "form %ld threw bad_alloc without a failed allocation", form);
    SIM_CHECK(!threw || oom || cb_threw || (buf.limit >= 0 && ((op[9] & 2) || buf.throws)), "foreign-exception", "form %ld threw although nothing failed", form);
    SIM_CHECK(!cb_threw || threw || (op[9] & 2) == 0, "swallowed", "a callback's exception did not arrive");
    std::string got = is_string ? out : buf.got;
    bool sink_failed = buf.limit >= 0 && buf.limit < long(want.size());
    if(threw || (sink_failed && !is_string)) SIM_CHECK(want.compare(0, got.size(), got) == 0, "not-a-prefix", "form %ld wrote '%s', not a beginning of '%s'", form, got.substr(0, 200).c_str(), want.substr(0, 200).c_str());
    else if(cb_threw) SIM_CHECK(false, "swallowed", "form %ld returned although a callback threw", form);
    else if(failed && got != want && !is_string) SIM_CHECK(want.compare(0, got.size(), got) == 0, "not-a-prefix", "form %ld wrote '%s', not a beginning of '%s'", form, got.substr(0, 200).c_str(), want.substr(0, 200).c_str());
    else SIM_CHECK(got == want, failed ? "cut-text" : "wrong-text", "form %ld gave '%s' instead of '%s'", form, got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
    if(sink_failed && !is_string && !failed && !cb_threw) SIM_CHECK(long(got.size()) == buf.limit, "lost-output", "the sink took %ld bytes but only %zu were written", buf.limit, got.size());
    auto& seen = cb.seen;
    SIM_CHECK(seen.size() <= want_calls.size() && std::equal(seen.begin(), seen.end(), want_calls.begin()), "wrong-callbacks", "form %ld called the callbacks %zu times instead of %zu, or in another order", form, seen.size(), want_calls.size());
    if(!threw && !failed) SIM_CHECK(seen.size() == want_calls.size(), "wrong-callbacks", "form %ld called the callbacks %zu times instead of %zu", form, seen.size(), want_calls.size());
    if(!threw && !failed && !sink_failed) SIM_CHECK(os.flags() == flags, "stream-state", "form %ld changed the stream's format flags", form);
    event("form %ld %zu bytes threw=%d failed=%ld", form, got.size(), threw, failed);
    state(hash_str(want) ^ uint64_t(form * 8 + threw * 2 + (failed > 0)));
    stat("checked");
}
// thread, formatter, trace, form, frame, colour, indent, tty, sink limit+1, sink mode, callback that throws, failing allocation, burst, life-cycle step
void gen_op(Rng& r, Plan& p, long threads) {
    long life = r.chance(1, 4) ? r.range(1, 9) : 0;
    p.ops.push_back({r.below(threads), r.below(3), r.below(3), r.below(kForms), r.below(20), r.below(2), r.below(30), 0, r.chance(1, 3) ? r.range(1, r.chance(1, 2) ? 40 : 400) : 0, r.below(32), r.chance(1, 5) ? r.range(1, 6) : 0,
        r.chance(1, 3) ? r.range(1, r.chance(1, 2) ? 12 : 120) : 0, r.chance(1, 3) ? 20 : 1, life, r.below(1000)});
}
void start(const Plan& p, std::vector<Fm>& fs) {
    { Sut s; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); }
    cbs = new std::map<int, Cb>; traces = new std::vector<cpptrace::stacktrace>;
    vfs_put("/sim/src/s0.cpp", "one\n  two();\n\nfour\nfive\n// six\n\nreturn 8;\n"); vfs_put("/sim/src/s1.cpp", "a\nb\r\nc");
    Rng r(uint64_t(p.get("salt")));
    for(int i = 0; i < 3; i++) { traces->push_back(make_trace(r.next())); fs.push_back(make(r.next())); }
}
// copies, moves and assignments, failing or not, keep every formatter's value
void lifecycle(std::vector<Fm>& fs, const Op& op) {
    auto& a = fs[size_t(op[1])]; size_t bi = size_t(op[14]) % fs.size(); auto& b = fs[bi]; long failed = 0; bool threw = false;
    if(!a.live && op[13] != 4 && op[13] != 5) return;
    { Sut s; if(op[11]) arm_alloc(op[11], op[12]);
      try {
        switch(op[13]) {
            case 1: { F* c = new F(*a.f); F* old; { Harness h; old = a.f.release(); a.f.reset(c); } delete old; break; }              // a copy replaces its original
            case 2: { F c(*a.f); Rng r{uint64_t(op[14])}; Opt o; { Harness h; o = a.o; } for(int i = 0; i < kSetters; i++) apply(c, o, r, i); std::string x = c.format((*traces)[0]); { Harness h; failed = disarm_alloc(); SIM_CHECK(failed || std::string(x) == trace_text(o, (*traces)[0], o.color == F::color_mode::always), "wrong-text", "a changed copy gives '%s'", x.c_str()); } break; }
            case 3: { *a.f = *a.f; break; }
            case 4: { if(b.live) { *a.f = *b.f; Harness h; a.o = b.o; a.live = true; } break; }
            case 5: { if(b.live && bi != size_t(op[1])) { F c(*b.f); *a.f = std::move(c); Harness h; a.o = b.o; a.live = true; } break; }
            case 6: { auto& self = *a.f; *a.f = std::move(self); break; }
            case 7: { F c(std::move(*a.f)); { Harness h; a.live = false; } *a.f = c; Harness h; a.live = true; break; }
            case 8: { Rng r{uint64_t(op[14])}; for(int i = 0; i < 4; i++) apply(*a.f, a.o, r, int(r.below(kSetters))); break; }
            default: { F d; d = *a.f; F e(d); d = std::move(e); *a.f = d; }
        }
      } catch(const std::bad_alloc&) { threw = true; } catch(const Thrown&) {}
    }
    failed += disarm_alloc();
    SIM_CHECK(!threw || failed, "foreign-exception", "life-cycle step %ld threw bad_alloc without a failed allocation", op[13]);
    event("life %ld threw=%d", op[13], threw);
}
void seq_gen(Rng& r, Plan& p) { p.p["salt"] = r.below(1000000000); p.p["tty"] = r.chance(1, 4); long n = r.range(2, 9); for(long i = 0; i < n; i++) gen_op(r, p, 1); }
void seq_exec(const Plan& p) {
    std::vector<Fm> fs; start(p, fs);
    for(auto op : p.ops) {
        op[7] = p.get("tty");
        if(op[13]) { lifecycle(fs, op); if(!fs[size_t(op[1])].live) continue; op[8] = op[10] = op[11] = 0; }
        auto& m = fs[size_t(op[1])]; if(!m.live) continue;
        call(*m.f, m.o, (*traces)[size_t(op[2])], op, false);      // once undisturbed, which also fills the once-only state
        Mem m0 = live();
        call(*m.f, m.o, (*traces)[size_t(op[2])], op, true);
        Mem m1 = live();
        SIM_CHECK(m1.blocks <= m0.blocks || !keeps_growing([&] { call(*m.f, m.o, (*traces)[size_t(op[2])], op, true); }, 5), "memory-leak", "%ld blocks (%ld bytes) more are live after form %ld", m1.blocks - m0.blocks, m1.bytes - m0.bytes, op[3]);
        call(*m.f, m.o, (*traces)[size_t(op[2])], op, false);      // what failed before must not show now
    }
    for(auto& m : fs) { Sut s; F* f = m.f.release(); delete f; }
}
Register r1({"fmt", seq_gen, seq_exec});
void par_gen(Rng& r, Plan& p) { p.p["salt"] = r.below(1000000000); p.p["threads"] = r.range(2, 3); long n = r.range(2, 8); for(long i = 0; i < n; i++) gen_op(r, p, p.p["threads"]); }
void par_exec(const Plan& p) {
    std::vector<Fm> fs; start(p, fs);
    for(long t = 0; t < p.get("threads"); t++) spawn([&p, t, &fs] {
        for(auto op : p.ops) if(op[0] == t) {
            if(to_cout(int(op[3]))) op[3] = OS;
            auto& m = fs[size_t(op[1])];
            if(op[13] & 1) {   // work on a copy of one's own, changed
                Rng r{uint64_t(op[14])}; std::unique_ptr<F> c; Opt o = m.o; { Sut s; F* q = new F(*m.f); { Harness h; c.reset(q); } for(int i = 0; i < 3; i++) apply(*c, o, r, int(r.below(kSetters))); }
                call(*c, o, (*traces)[size_t(op[2])], op, true);
                { Sut s; F* q = c.release(); delete q; }
            } else call(*m.f, m.o, (*traces)[size_t(op[2])], op, true);
        }
    }, "printer");
    join_all();
}
Register r2({"fmt_par", par_gen, par_exec});
}
