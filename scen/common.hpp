// Shared by the scenarios: the universe of simulated modules, the reference symbol model and frame oracles.
#pragma once
#include "rt.hpp"
#include "elfgen.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cstring>
#include <memory>
#include <set>

namespace u {
using namespace sim;

struct Mod { std::string path; uintptr_t base, size, load; bool exe; };

struct Universe {
    std::vector<Mod> mods;
    uint64_t salt = 0;
    std::string exe = "/sim/bin/app";
};
inline Universe& U() { static Universe* p = new Universe; return *p; }

inline uint64_t mixh(uint64_t a, uint64_t b) { uint64_t h = (a ^ 0x51ED270B27D4EB2Full) * 0x9E3779B97F4A7C15ull + b; h ^= h >> 31; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32; return h; }

#ifdef SIM_CONFIG_BT
constexpr bool kBt = true;
#else
constexpr bool kBt = false;
#endif
#ifdef SIM_CONFIG_DL
constexpr bool kDl = true;
#else
constexpr bool kDl = false;
#endif
// kinds: 0 normal, 1 discriminator, 2 unknown, 3 symbol without file, 4 unknown line, 5 unusual text
inline SymInfo model(const std::string& obj, uint64_t a) {
    uint64_t h = mixh(hash_str(obj) ^ U().salt, a);
    SymInfo s; s.kind = int(h % 8); if(s.kind > 5) s.kind = 0;
    long line = long((h >> 8) % 30000) + 1;
    s.line = line;
    switch(s.kind) {
        case 0: s.symbol = fmt("fn_%lx(int, char const*)", long(h >> 40)); s.file = fmt("/src/d%ld/f%ld.cpp", long(h >> 33 & 7), long(h >> 20 & 63));
            if(h >> 55 & 1) { std::string n = fmt("fn_%lx", long(h >> 40)); if((h >> 57 & 7) == 0) n += std::string(30 + (h >> 60) * 40, 'n'); s.symbol = "ns::" + n + "(int, char const*)"; s.mangled = fmt("_ZN2ns%zu", n.size()) + n + "EiPKc"; if(h >> 56 & 1) { s.symbol += " [clone .cold]"; s.mangled += ".cold"; } }
            s.text = s.name() + " at " + s.file + ":" + std::to_string(line); break;
        case 1: s.symbol = fmt("ns::cls<int, long>::m%lx()", long(h >> 44)); s.file = "/src/disc.cpp"; s.text = s.symbol + " at " + s.file + ":" + std::to_string(line) + fmt(" (discriminator %ld)", long(h >> 50 & 15) + 1); break;
        case 2: s.text = "?? ??:0"; s.line = -1; break;
        case 3: s.symbol = fmt("sym_%lx", long(h >> 40)); s.line = -1; s.text = s.symbol + " at ??:?"; break;
        case 4: s.symbol = fmt("asm_%lx", long(h >> 40)); s.file = "/src/entry.S"; s.line = kBt ? line : -1; s.text = s.symbol + " at " + s.file + ":?"; break;
        default: if(h >> 45 & 1) { s.symbol = fmt("fn_%lx()", long(h >> 50)); s.file = h >> 46 & 1 ? "/home/we meet at noon/at x.cpp" : "/work/release:2/c:x.cpp"; s.text = s.symbol + " at " + s.file + ":" + std::to_string(line); break; }
            s.symbol = fmt("operator new[](unsigned long, std::align_val_t)::{lambda(auto:1)#%ld}::operator()", long(h >> 50)); s.file = "/a dir/with: colon/x y.cpp"; s.text = s.symbol + " at " + s.file + ":" + std::to_string(line); break;
    }
    return s;
}

// nmods simulated modules; the last one may be the executable (empty link-map name)
inline void make(long nmods, uint64_t salt, bool with_exe) {
    U().mods.clear(); U().salt = salt;
    Rng r(salt);
    for(long i = 0; i < nmods; i++) {
        Mod m; m.exe = with_exe && i == nmods - 1;
        m.path = m.exe ? "" : fmt("/sim/lib/lib%c%s.so.%ld", char('A' + i % 26), r.chance(1, 6) ? " with space" : "", i);
        m.base = 0x7e0000000000ull + uintptr_t(i) * 0x10000000;
        m.size = 0x100000;
        m.load = m.exe && r.chance(1, 2) ? 0 : (r.chance(1, 4) ? m.base - 0x400000 : m.base);
        add_module(m.path, m.base, m.size, m.load);
        if(m.exe) m.path = U().exe;
        vfs_put(m.path, eg::simple(m.base - m.load));
        U().mods.push_back(m);
    }
    set_exe_path(U().exe, 0);
    symbol_model = model;
}
inline const Mod* find(uintptr_t a) { for(auto& m : U().mods) if(a >= m.base && a < m.base + m.size) return &m; return nullptr; }

inline std::vector<cpptrace::frame_ptr> frames(uint64_t seed, long n) {
    Rng r(seed);
    std::vector<cpptrace::frame_ptr> v;
    for(long i = 0; i < n; i++) {
        long k = r.below(20);
        if(k == 0) v.push_back(0);
        else if(k == 1) v.push_back(0x123456789000ull + uintptr_t(r.below(1000)));
        else if(k == 2 && !v.empty()) v.push_back(v[size_t(r.below(long(v.size())))]);
        else if(U().mods.empty()) v.push_back(uintptr_t(0x7d0000000000ull + uintptr_t(r.below(100000))));
        else { auto& m = U().mods[size_t(r.below(long(U().mods.size())))]; v.push_back(m.base + uintptr_t(r.below(long(m.size)))); }
    }
    return v;
}

// the build looks up addresses through dladdr1 and reads object files for their preferred base
#if defined(SIM_CONFIG_DL) || defined(SIM_CONFIG_A2E)
constexpr bool kReadsObjects = true;
#else
constexpr bool kReadsObjects = false;
#endif
struct FrameVerdict { bool no_memory = false; int full = 0, degraded = 0, exe_lost = 0; std::set<std::string> degraded_objects, objects; };

inline std::string show(const cpptrace::stacktrace_frame& f) {
    return fmt("raw %lx obj %lx symbol '%s' file '%s' line %ld", long(f.raw_address), long(f.object_address), f.symbol.c_str(), f.filename.c_str(), f.line.has_value() ? long(f.line.value()) : -1);
}
// every frame carries exactly what the helper reports for it, or nothing
inline void check_frames(const std::vector<cpptrace::frame_ptr>& in, const cpptrace::stacktrace& st, FrameVerdict& v, bool exe_may_fail) {
    Harness hh;
    SIM_CHECK(st.frames.size() == in.size(), "misaligned", "resolving %zu addresses gave %zu frames", in.size(), st.frames.size());
    for(size_t i = 0; i < in.size(); i++) {
        auto& f = st.frames[i];
        SIM_CHECK(f.raw_address == in[i], "misaligned", "frame %zu has raw address %lx instead of %lx", i, long(f.raw_address), long(in[i]));
        const Mod* m = find(in[i]);
        bool unresolved = (f.symbol.empty() || f.symbol == "??") && (!f.line.has_value() || f.line.value() == 0);
        SIM_CHECK(!f.is_inline && !f.column.has_value(), "wrong-frame", "frame %zu claims inline or column: %s", i, show(f).c_str());
        if(!m) {
            SIM_CHECK(f.object_address == 0 && unresolved && f.filename.empty(), "wrong-frame", "frame %zu lies in no object but says %s", i, show(f).c_str());
            continue;
        }
        uintptr_t oa = kBt ? 0 : in[i] - m->load;
        if(m->exe && exe_may_fail && f.filename.empty() && f.object_address == 0 && unresolved) { v.exe_lost++; continue; }
        if(f.object_address != oa) SIM_CHECK(false, "wrong-frame", "frame %zu object address %lx, expected %lx (%s)", i, long(f.object_address), long(oa), m->path.c_str());
        v.objects.insert(m->path);
        SymInfo s = model(m->path, in[i] - m->load);
        if(kDl) { s.file.clear(); s.line = -1; }                        // the dynamic symbol table has no lines
        std::string want_sym = s.kind == 2 ? (kDl || kBt ? "" : "??") : s.symbol, want_file = s.file.empty() && !kBt ? m->path : s.file;
        long got_line = f.line.has_value() ? long(f.line.value()) : -1;
        if(v.no_memory && f.symbol == s.mangled) want_sym = s.mangled;       // the demangler had no memory
        bool full = f.symbol == want_sym && f.filename == want_file && (s.line > 0 ? got_line == s.line : got_line <= 0);
        if(full && s.kind != 2) { v.full++; continue; }
        if(kBt && (f.symbol.empty() || f.symbol == want_sym) && (f.filename.empty() ? got_line <= 0 : f.filename == want_file && got_line == s.line)) { if(s.kind != 2) { v.degraded++; v.degraded_objects.insert(m->path); } continue; }   // either half may fail
        if(s.kind == 2 && unresolved && (f.filename == m->path)) continue;   // both readings coincide
        bool degraded = unresolved && (f.filename == m->path || f.filename.empty());
        SIM_CHECK(degraded, "wrong-frame", "frame %zu of %s+%lx: got {%s}, helper says '%s'", i, m->path.c_str(), long(oa), show(f).c_str(), s.text.c_str());
        if(m->exe && f.filename.empty()) { SIM_CHECK(exe_may_fail, "lost-object", "frame %zu of the executable lost its object path without a fault", i); v.exe_lost++; continue; }
        v.degraded++; v.degraded_objects.insert(m->path);
    }
    stat("checked");
}
}
