// C09: snippets of generated files under failing opens, seeks and reads, sequentially and from several threads
#include "rt.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include <cpptrace/formatting.hpp>
#include <cstring>
#include <limits>
using namespace sim;

namespace {
struct F { std::string path, content; bool exists = true, toobig = false; std::vector<std::string> lines; bool phantom = false; };
std::vector<F>* files;

std::string gen_content(Rng& r, F& f) {
    std::string c; long n = r.chance(1, 8) ? 0 : r.range(1, r.chance(1, 6) ? 60 : 12);
    if(r.chance(1, 400)) n = 100004;
    bool crlf = r.chance(1, 4), blanks = r.chance(1, 2);
    for(long i = 0; i < n; i++) {
        std::string l;
        if(!(blanks && r.chance(1, 2))) {
            long k = r.below(8);
            l = n > 1000 ? fmt("L%ld", i) : k == 0 ? "    int x = 1;" : k == 1 ? "> 12: not a number" : k == 2 ? std::string(size_t(r.below(200)), 'w') : k == 3 ? " " : k == 4 ? "\xc3\xa9\t^" : k == 5 ? "\r" : fmt("line %ld of it", i + 1);
        }
        c += l;
        if(i + 1 < n || r.chance(3, 4)) c += crlf && r.chance(9, 10) ? "\r\n" : "\n";
    }
    return c;
}
void split(F& f) {
    size_t p = 0; f.lines.clear();
    while(true) {
        size_t e = f.content.find('\n', p);
        std::string l = f.content.substr(p, e == std::string::npos ? std::string::npos : e - p);
        if(e != std::string::npos && !l.empty() && l.back() == '\r') l.pop_back();
        f.lines.push_back(l);
        if(e == std::string::npos) break;
        p = e + 1;
    }
    f.phantom = f.content.empty() || f.content.back() == '\n';    // the text after the last newline is no line of the file
}
std::string strip_color(const std::string& s) {
    std::string o; for(size_t i = 0; i < s.size(); i++) { if(s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') { size_t e = s.find('m', i); if(e == std::string::npos) { o += s[i]; continue; } i = e; } else o += s[i]; }
    return o;
}
void gen(Rng& r, Plan& p) {
    p.p["salt"] = r.below(100000000);
    p.p["files"] = r.chance(1, 8) ? r.range(4, 40) : r.range(1, 3);
    for(auto s : {"fopen", "fread", "fseek"}) if(r.chance(1, 3)) p.p[std::string("f.") + s] = std::vector<long>{50, 200, 500}[size_t(r.below(3))];
    p.p["threads"] = r.chance(1, 2) ? 0 : r.range(2, 3);
    long n = r.range(2, p.p["files"] > 3 ? 40 : 10);
    // thread, file, line class, line offset, context, column, colour, via formatter
    for(long i = 0; i < n; i++) p.ops.push_back({r.below(3), r.below(p.p["files"]), r.below(8), r.below(40), r.pick(std::vector<long>{0, 1, 2, 2, 3, 5, 50, -1}), r.chance(1, 2) ? r.range(1, 30) : 0, r.chance(1, 4), r.chance(1, 3)});
}
long ff() { return fault_count("fopen") + fault_count("fread") + fault_count("fseek"); }

void request(const Op& op, bool recovery) {
    F& f = (*files)[size_t(op[1]) % files->size()];
    long real = long(f.lines.size()) - (f.phantom ? 1 : 0);
    long line;
    switch(op[2]) {
        case 0: line = real; break;
        case 1: line = real + 1; break;
        case 2: line = real + 1 + op[3]; break;
        case 3: line = 1; break;
        case 4: line = op[7] ? 4000000000l : 0x7fffffffffff; break;
        default: line = real > 0 ? 1 + op[3] % real : 1;
    }
    if(real > 1000 && op[2] > 4) line = real - op[3] % 8;
    size_t ctx = op[4] < 0 ? (op[7] ? size_t(0x7fffffff) : std::numeric_limits<size_t>::max()) : size_t(op[4]);
    if(real > 1000) ctx = std::min<size_t>(ctx, 5);
    uint32_t column = uint32_t(op[5]);
    std::string out, whole; bool threw = false; long f0 = ff();
    {
        Sut s;
        try {
            if(op[7]) {
                cpptrace::stacktrace_frame fr{}; fr.filename = f.path; fr.line = uint32_t(line); if(column) fr.column = column; fr.symbol = "f";
                cpptrace::stacktrace st; st.frames.push_back(fr);
                auto fm = cpptrace::formatter{}.header("").snippets(true).snippet_context(int(ctx)).colors(op[6] ? cpptrace::formatter::color_mode::always : cpptrace::formatter::color_mode::none);
                whole = fm.format(st);
            } else if(column) out = cpptrace::get_snippet(f.path, size_t(line), column, ctx, bool(op[6]));
            else out = cpptrace::get_snippet(f.path, size_t(line), ctx, bool(op[6]));
        } catch(...) { threw = true; }
    }
    SIM_CHECK(!threw, "threw", "a snippet request threw");
    if(op[7]) { size_t nl = whole.find('\n'); if(nl != std::string::npos) out = whole.substr(nl + 1); }
    // in this simulation a fault hits only this request when it is the only one running
    bool faulted = ff() != f0;
    stat("checked");
    std::string plain = op[6] ? strip_color(out) : out;
    if(!op[6]) SIM_CHECK(plain.find('\x1b') == std::string::npos, "wrong-snippet", "colour codes without colour");
    bool must = !faulted && f.exists && !f.toobig && line >= 1 && line <= real;
    if(out.empty()) { SIM_CHECK(!must, recovery ? "no-recovery" : "lost-snippet", "no snippet for line %ld of %s, which has %ld lines", line, f.path.c_str(), real); event("empty"); return; }
    SIM_CHECK(f.exists && !f.toobig, "wrong-snippet", "a snippet of a file that %s: '%s'", f.exists ? "is too large" : "does not exist", out.substr(0, 80).c_str());
    // the lines it has to show
    size_t last = f.lines.size();
    size_t lo = ctx >= size_t(line) ? 1 : size_t(line) - ctx, hi = ctx > last || size_t(line) + ctx > last ? last : size_t(line) + ctx;
    if(lo < 1) lo = 1;
    bool in = line >= 1 && size_t(line) <= last;
    if(in) {
        while(lo < size_t(line) && f.lines[lo - 1].empty()) lo++;
        while(hi > size_t(line) && f.lines[hi - 1].empty()) hi--;
    }
    std::vector<std::string> got; { size_t q = 0; while(true) { size_t e = plain.find('\n', q); got.push_back(plain.substr(q, e == std::string::npos ? e : e - q)); if(e == std::string::npos) break; q = e + 1; } }
    size_t next = 0, prev = 0, shown = 0; bool target_shown = false;
    for(size_t i = 0; i < got.size(); i++) {
        const std::string& g = got[i];
        size_t q = 0; while(q < g.size() && g[q] == ' ') q++;
        bool mark = false; if(g.compare(q, 2, "> ") == 0) { mark = true; q += 2; }
        size_t d = q; unsigned long num = 0; while(d < g.size() && isdigit((unsigned char)g[d])) num = num * 10 + (unsigned long)(g[d++] - '0');
        SIM_CHECK(d > q && g.compare(d, 2, ": ") == 0, "wrong-snippet", "unreadable snippet line '%s'", g.substr(0, 80).c_str());
        std::string text = g.substr(d + 2);
        SIM_CHECK(num >= 1 && num <= last, "wrong-snippet", "line %lu does not exist, the file has %ld", num, real);
        SIM_CHECK(text == f.lines[num - 1], "wrong-text", "line %lu is shown as '%s' instead of '%s'", num, text.substr(0, 60).c_str(), f.lines[num - 1].substr(0, 60).c_str());
        SIM_CHECK(prev == 0 || num == prev + 1, "wrong-snippet", "line %lu follows line %lu", num, prev);
        SIM_CHECK(mark == (long(num) == line), "wrong-mark", "line %lu is %smarked, requested was %ld", num, mark ? "" : "not ", line);
        prev = num; shown++; if(!next) next = num;
        if(mark) {
            target_shown = true;
            if(column && i + 1 < got.size()) {
                // the caret stands under the requested column
                const std::string& c = got[i + 1]; size_t at = c.find('^');
                SIM_CHECK(at != std::string::npos && c.find_first_not_of(' ') == at && at + 1 == c.size(), "wrong-caret", "no caret line after the marked line: '%s'", c.substr(0, 80).c_str());
                SIM_CHECK(at == d + 2 + column - 1, "wrong-caret", "caret at %zu, column %u of the text is at %zu (line %ld)", at, column, d + 2 + column - 1, line);
                i++;
            } else SIM_CHECK(!column, "wrong-caret", "the caret is missing");
        }
    }
    if(in) {
        SIM_CHECK(target_shown, "wrong-snippet", "the requested line %ld is not shown", line);
        SIM_CHECK(next == lo && prev == hi, "wrong-range", "lines %zu-%zu are shown instead of %zu-%zu (line %ld, context %ld)", next, prev, lo, hi, line, op[4]);
    } else if(size_t(line) > last) SIM_CHECK(shown == 0 || prev <= last, "wrong-snippet", "lines beyond the file");
    event("line %ld lines %zu-%zu", line, next, prev);
    state(hash_str(f.path) ^ uint64_t(line * 1000 + long(next * 100 + prev)));
}
void exec(const Plan& p) {
    Rng r(uint64_t(p.get("salt")));
    files = new std::vector<F>;
    for(long i = 0; i < p.get("files"); i++) {
        F f; f.path = fmt("/sim/src/f%ld.cpp", i);
        f.exists = !r.chance(1, 8);
        f.content = gen_content(r, f);
        if(r.chance(1, 250)) { f.toobig = true; f.content.append(size_t(1024 * 1024 * 10 + 1), 'x'); }
        if(f.exists) vfs_put(f.path, f.content);
        split(f);
        files->push_back(f);
    }
    auto s0 = snapshot();
    if(p.get("threads")) {
        // faults are attributed to requests only in the sequential form, so threads run without
        faults_enabled(false);
        for(long t = 0; t < p.get("threads"); t++) spawn([&p, t] { for(auto& op : p.ops) if(op[0] % p.get("threads") == t) request(op, false); }, "reader");
        join_all();
    } else for(auto& op : p.ops) request(op, false);
    faults_enabled(false);
    for(auto& op : p.ops) request(op, true);
    auto d = diff(s0, snapshot());
    SIM_CHECK(d.empty(), "leak", "after the snippets: %s", d.c_str());
    Mem m0 = live();
    for(auto& op : p.ops) request(op, true);
    Mem m1 = live();
    SIM_CHECK(m1.blocks <= m0.blocks || !keeps_growing([&] { for(auto& op : p.ops) request(op, true); }, 3), "memory-leak", "%ld more blocks live after repeating the requests", m1.blocks - m0.blocks);
}
Register reg({"snippet", gen, exec});
}
