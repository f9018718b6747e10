// C10: object information under loading, unloading, range reuse, unreadable object files and system faults
#include "common.hpp"
using namespace sim;
using namespace u;

namespace {
struct File { std::string path; uint64_t base; bool corrupt; };
struct Slot { int id = -1; int file = -1; uintptr_t base = 0, size = 0, load = 0; };
std::vector<File>* files; std::vector<Slot>* slots; std::string* exe; bool exe_err;

void oi_gen(Rng& r, Plan& p) {
    p.p["salt"] = r.below(100000); p.p["absorb"] = r.chance(3, 4);
    bool many = r.chance(1, 25); p.p["files"] = many ? r.range(15, 40) : r.range(1, 6); p.p["slots"] = many ? r.range(10, 30) : r.range(1, 4);
    for(auto s : {"fopen", "fread", "fseek", "readlink"}) if(r.chance(1, 3)) p.p[std::string("f.") + s] = std::vector<long>{20, 100, 400}[size_t(r.below(3))];
    long n = many ? r.range(40, 90) : r.range(3, 14);
    for(long i = 0; i < n; i++) {
        long k = r.below(16);
        if(k < 4) p.ops.push_back({0, r.below(p.p["slots"]), r.below(p.p["files"] + 1)});
        else if(k < 6) p.ops.push_back({1, r.below(p.p["slots"])});
        else if(k < 13) p.ops.push_back({2, r.below(4), r.range(0, 12), r.below(100000)});
        else if(k < 14) p.ops.push_back({3, r.range(2, 3), r.below(100000)});
        else if(k < 15) p.ops.push_back({4, r.below(3)});
        else p.ops.push_back({5, r.below(4)});
    }
}
const Slot* slot_at(uintptr_t a) { for(auto& s : *slots) if(s.id >= 0 && a >= s.base && a < s.base + s.size) return &s; return nullptr; }
uintptr_t pick_addr(Rng& r) {
    auto& s = (*slots)[size_t(r.below(long(slots->size())))];
    long k = r.below(10);
    if(k == 0) return 0;
    if(k == 1) return s.base; if(k == 2) return s.base + s.size - 1; if(k == 3) return s.base + s.size; if(k == 4) return s.base - 1;
    if(k == 5) return 0x6543210000ull + uintptr_t(r.below(1000));
    return s.base + uintptr_t(r.below(long(s.size)));
}
void check_one(uintptr_t a, const cpptrace::object_frame& f, const char* how, long ff, long rl) {
    Harness h;
    const Slot* s = slot_at(a);
    auto show = fmt("%s of %lx gave raw %lx object address %lx path '%s'", how, long(a), long(f.raw_address), long(f.object_address), f.object_path.c_str());
    SIM_CHECK(f.raw_address == a, "wrong-object", "raw address changed: %s", show.c_str());
    if(!s) { SIM_CHECK(f.object_address == 0 && f.object_path.empty(), "wrong-object", "nothing is mapped there: %s", show.c_str()); return; }
    bool is_exe = s->file < 0;
    std::string want = is_exe ? *exe : (*files)[size_t(s->file)].path;
    bool path_ok = f.object_path == want || (is_exe && (rl || exe_err) && f.object_path.empty());
    SIM_CHECK(path_ok, "wrong-object", "the module mapped there is '%s': %s", want.c_str(), show.c_str());
    uintptr_t oa = a - s->load;
    bool may_zero = kReadsObjects && strcmp(how, "get_safe_object_frame") != 0 && (ff || (is_exe ? f.object_path.empty() : (*files)[size_t(s->file)].corrupt));
    if(strcmp(how, "get_safe_object_frame") == 0 && f.object_path.empty()) may_zero = true;
    SIM_CHECK(f.object_address == oa || (may_zero && f.object_address == 0), "wrong-object", "the address in the object is %lx: %s", long(oa), show.c_str());
    stat("checked");
}
long ff() { return fault_count("fopen") + fault_count("fread") + fault_count("fseek"); }
void query(long kind, std::vector<uintptr_t> in, bool par) {
    auto s0 = snapshot();
    long f0 = ff(), r0 = fault_count("readlink");
    if(kind == 0) {
        cpptrace::raw_trace rt; rt.frames = in; cpptrace::object_trace ot;
        { Sut s; ot = rt.resolve_object_trace(); }
        SIM_CHECK(ot.frames.size() == in.size(), "misaligned", "%zu object frames for %zu addresses", ot.frames.size(), in.size());
        for(size_t i = 0; i < in.size(); i++) check_one(in[i], ot.frames[i], "resolve_object_trace", ff() - f0, fault_count("readlink") - r0);
        Sut s; ot = cpptrace::object_trace();
    } else for(auto a : in) {
        if(!par) { f0 = ff(); r0 = fault_count("readlink"); }
        if(kind == 1) {
            cpptrace::stacktrace_frame fr{}; fr.raw_address = a; cpptrace::object_frame of;
            { Sut s; of = fr.get_object_info(); }
            check_one(a, of, "get_object_info", ff() - f0, fault_count("readlink") - r0);
            Sut s; of = cpptrace::object_frame();
        } else {
            static thread_local struct { char pre[16]; cpptrace::safe_object_frame f; char post[16]; } g;
            memset(&g, 0x5a, sizeof g);
            { Sut s; cpptrace::get_safe_object_frame(a, &g.f); }
            for(char c : g.pre) SIM_CHECK(c == 0x5a, "overrun", "get_safe_object_frame wrote before its frame");
            for(char c : g.post) SIM_CHECK(c == 0x5a, "overrun", "get_safe_object_frame wrote behind its frame");
            cpptrace::object_frame of;
            { Sut s; of = g.f.resolve(); }
            if(!cpptrace::can_get_safe_object_frame()) SIM_CHECK(of.raw_address == a && of.object_address == 0 && of.object_path.empty(), "wrong-object", "unsupported safe frame is not empty");
            else check_one(a, of, "get_safe_object_frame", ff() - f0, fault_count("readlink") - r0);
            Sut s; of = cpptrace::object_frame();
        }
    }
    if(!par) {
        auto d = diff(s0, snapshot(), kReadsObjects);
        SIM_CHECK(d.empty(), "leak", "after a query: %s", d.c_str());
    }
}
void oi_exec(const Plan& p) {
    Rng r(uint64_t(p.get("salt")));
    files = new std::vector<File>; slots = new std::vector<Slot>; exe = new std::string("/sim/bin/app"); exe_err = false;
    static const uint64_t bases[] = {0, 0, 0x400000, 0x10000, 0x7000000000};
    for(long i = 0; i < p.get("files"); i++) {
        File f; f.path = r.chance(1, 4) ? fmt("/sim/lib%ld/plugin.so", i) : fmt("/sim/lib/lib%c%ld.so", char('a' + i % 26), i); f.base = bases[r.below(5)]; f.corrupt = r.chance(1, 6);
        if(i == 0 && r.chance(1, 4)) f.path = "/sim/" + std::string(size_t(r.pick(std::vector<long>{200, 1000, 4080, 4090})), 'p');   // close to the longest path there is
        eg::Spec s; s.phdr_vaddr = f.base; s.symtab = r.chance(1, 2); s.other_ph_before = int(r.below(3)); s.phdr = f.base != 0 || r.chance(1, 2);
        s.bits = f.base < 0x10000000 && r.chance(1, 4) ? 32 : 64; s.entpad = r.chance(1, 4) ? 8 : 0;
        auto b = eg::build(s);
        if(f.corrupt) { long k = r.below(4); if(k == 0) b.clear(); else if(k == 1) b.resize(20); else if(k == 2) b[1] = 'X'; else b.resize(60); if(k == 3 && s.bits == 32) b.resize(50); }
        vfs_put(f.path, b);
        files->push_back(f);
    }
    vfs_put(*exe, eg::simple(0));
    set_exe_path(*exe, 0);
    if(p.get("absorb", 1) == 0) { Sut u; cpptrace::absorb_trace_exceptions(false); }    // nothing here may throw either way
    slots->resize(size_t(p.get("slots")));
    for(size_t i = 0; i < slots->size(); i++) { (*slots)[i].base = 0x7e0000000000ull + i * 0x100000; (*slots)[i].size = 0x100000; }
    bool exe_loaded = false;
    for(auto& op : p.ops) {
        if(op[0] == 0) {
            auto& s = (*slots)[size_t(op[1])];
            if(s.id >= 0) continue;
            int f = int(op[2]) - 1;
            if(f < 0 && exe_loaded) continue;
            bool dup = false; for(auto& o : *slots) if(o.id >= 0 && o.file == f && f >= 0) dup = true;
            if(dup) continue;
            s.file = f; s.load = s.base - (f < 0 ? 0 : (*files)[size_t(f)].base);
            s.size = 0x10000 * uintptr_t(r.range(1, 16));
            if(f < 0) exe_loaded = true;
            s.id = add_module(f < 0 ? "" : (*files)[size_t(f)].path, s.base, s.size, s.load);
        } else if(op[0] == 1) {
            auto& s = (*slots)[size_t(op[1])];
            if(s.id < 0 || s.file < 0) continue;
            unload_module(s.id); s.id = -1;
        } else if(op[0] == 2) {
            Rng q{uint64_t(op[3])}; std::vector<uintptr_t> in;
            for(long i = 0; i < op[2]; i++) in.push_back(pick_addr(q));
            query(op[1] > 2 ? 0 : op[1], in, false);
        } else if(op[0] == 3) {
            static long started = 0; if(started + op[1] > 11) continue;   // the simulator's thread limit
            started += op[1];
            for(long t = 0; t < op[1]; t++) spawn([&op, t] { Rng q{uint64_t(op[2] + t)}; for(int k = 0; k < 3; k++) { std::vector<uintptr_t> in; for(int i = 0; i < 4; i++) in.push_back(pick_addr(q)); query(q.below(3), in, true); } }, "query");
            join_all();
        } else if(op[0] == 4) { Sut s; cpptrace::experimental::set_cache_mode(op[1] == 0 ? cpptrace::cache_mode::prioritize_memory : op[1] == 1 ? cpptrace::cache_mode::hybrid : cpptrace::cache_mode::prioritize_speed); }
        else { exe_err = op[1] == 0; if(op[1] == 1) *exe = "/sim/bin/app (deleted)"; else *exe = "/sim/bin/app"; vfs_put(*exe, eg::simple(0)); set_exe_path(*exe, exe_err ? 13 : 0); }
        state(mixh(uint64_t(op[0]), hash_str(fmt("%d%d", int(slots->size()), exe_err))));
    }
    // everything still answers once the faults are over
    faults_enabled(false);
    std::vector<uintptr_t> in; for(auto& s : *slots) if(s.id >= 0) { in.push_back(s.base + 16); in.push_back(s.base + s.size - 1); }
    for(long k = 0; k < 3; k++) query(k, in, false);
}
Register reg({"objinfo", oi_gen, oi_exec});
}
