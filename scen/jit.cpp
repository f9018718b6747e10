// C11: the registry of in-memory objects, sequentially against a model and from several threads
#include "common.hpp"
#include "jit/jit_objects.hpp"
#include <cpptrace/gdb_jit.hpp>
#include <sys/mman.h>
using namespace sim;
using namespace u;
namespace cd = cpptrace::detail;

CPPTRACE_BEGIN_NAMESPACE
namespace detail { extern "C" { struct jit_descriptor __jit_debug_descriptor = {1, 0, nullptr, nullptr}; } }
CPPTRACE_END_NAMESPACE

namespace {
// an object image that can be made to disappear: reading it afterwards faults
struct Image {
    char* map = nullptr; size_t maplen = 0; char* start = nullptr; size_t size = 0;
    std::vector<std::pair<uintptr_t, uintptr_t>> ranges; bool bad = false, wide = true;
    bool registered = false, certain = true; int times = 0;
    uint64_t reg_begin = 0, reg_end = 0, unreg_begin = 0, unreg_end = 0; bool ever = false;
};
std::vector<Image>* imgs;

void place(Image& im, const std::string& b) {
    im.size = b.size(); im.maplen = (b.size() + 8191) & ~size_t(4095);
    im.map = static_cast<char*>(::mmap(nullptr, im.maplen + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    im.start = im.map + im.maplen - b.size();      // ends at an unreadable page
    memcpy(im.start, b.data(), b.size());
    ::mprotect(im.map + im.maplen, 4096, PROT_NONE);
}
void vanish(Image& im, bool gone) { ::mprotect(im.map, im.maplen, gone ? PROT_NONE : PROT_READ); }

void make_images(Rng& r, long n) {
    imgs = new std::vector<Image>;
    uintptr_t at = 0x500000000ull;
    for(long i = 0; i < n; i++) {
        Image im; eg::Spec s; s.bits = r.chance(1, 5) ? 32 : 64; s.le = !r.chance(1, 6) || s.bits == 32; s.entpad = r.chance(1, 6) ? 8 : 0;
        if(s.bits == 32) s.le = r.chance(1, 2);
        im.wide = s.bits == 64;
        uintptr_t& base = at; static uintptr_t at32; if(i == 0) at32 = 0x10000000;
        long nt = r.chance(1, 10) ? 0 : r.range(1, 3);
        for(long k = 0; k < nt; k++) {
            uintptr_t& cur_at = s.bits == 32 ? at32 : base;
            uintptr_t size = uintptr_t(r.pick(std::vector<long>{1, 16, 256, 4096, 70000}));
            cur_at += uintptr_t(r.pick(std::vector<long>{0, 0, 1, 64, 5000}));
            bool text = k == 0 || r.chance(2, 3), empty = r.chance(1, 6);
            if(empty) {   // compilers leave a .text without code behind, whose address is whatever comes next or came last
                auto& any = *imgs; uintptr_t where = cur_at;
                if(!any.empty() && r.chance(1, 3)) { auto& o = any[size_t(r.below(long(any.size())))]; if(!o.ranges.empty() && o.wide == (s.bits == 64)) { auto& g = o.ranges[size_t(r.below(long(o.ranges.size())))]; where = g.first + uintptr_t(r.below(long(g.second - g.first))); } }
                s.texts.push_back({".text", SHT_PROGBITS, where, 0});
                s.syms.push_back({fmt("jit_%ld_%ld", i, k), where, 0, uint16_t(k + 1), 2});
                continue;
            }
            s.texts.push_back({text ? ".text" : r.chance(1, 2) ? ".text.unlikely" : ".data", SHT_PROGBITS, cur_at, size});
            if(text) im.ranges.push_back({cur_at, cur_at + size});
            s.syms.push_back({fmt("jit_%ld_%ld", i, k), cur_at, size, uint16_t(k + 1), 2});
            cur_at += size;
        }
        auto b = eg::build(s);
        if(r.chance(1, 6)) {
            im.bad = true; long k = r.below(4);
            if(k == 0) b.resize(size_t(r.below(16))); else if(k == 1) b[2] = 'X'; else if(k == 2) b.resize(b.size() - 10); else b.resize(40);
        }
        place(im, b); vanish(im, false);
        imgs->push_back(im);
    }
}
uintptr_t pick_pc(Rng& r) {
    auto& im = (*imgs)[size_t(r.below(long(imgs->size())))];
    if(im.ranges.empty() || r.chance(1, 12)) return r.chance(1, 2) ? 0 : 0x4fffffff0ull + uintptr_t(r.below(200000));
    auto& g = im.ranges[size_t(r.below(long(im.ranges.size())))];
    switch(r.below(6)) { case 0: return g.first; case 1: return g.second - 1; case 2: return g.second; case 3: return g.first - 1; default: return g.first + uintptr_t(r.below(long(g.second - g.first))); }
}
Image* owner(uintptr_t pc) { for(auto& im : *imgs) if(!im.bad) for(auto& g : im.ranges) if(pc >= g.first && pc < g.second) return &im; return nullptr; }
uintptr_t low_of(uintptr_t pc) { for(auto& im : *imgs) if(!im.bad) for(auto& g : im.ranges) if(pc >= g.first && pc < g.second) return g.first; return 0; }

struct Found { bool found; uintptr_t base; std::string symbol; bool ranges_ok; };
Found look(uintptr_t pc) {
    Found f{false, 0, "", false};
    // the object the registry returns is identified by what it says about itself
    std::string sym; std::vector<cd::elf::pc_range> ranges; bool has = false; uintptr_t base = 0;
    {
        Sut s;
        auto res = cd::lookup_jit_object(pc);
        if(res) {
            has = true; base = res.unwrap().base;
            auto rg = res.unwrap().object.get_pc_ranges();
            if(!rg.is_error()) ranges = std::move(rg.unwrap_value());
            auto o = res.unwrap().object.lookup_symbol(pc);
            if(o) sym = std::move(o.unwrap());
        }
    }
    f.found = has; f.base = base; f.symbol = sym.c_str();
    for(auto& r : ranges) if(pc >= r.low && pc < r.high) f.ranges_ok = true;
    { Sut s; sym = std::string(); ranges = std::vector<cd::elf::pc_range>(); }
    return f;
}
void check_found(uintptr_t pc, Image* im, const Found& f) {
    SIM_CHECK(f.base == low_of(pc), "wrong-jit", "lookup of %lx returned base %lx instead of %lx", long(pc), long(f.base), long(low_of(pc)));
    SIM_CHECK(f.ranges_ok, "wrong-jit", "lookup of %lx returned an object whose code does not contain it", long(pc));
    SIM_CHECK(f.symbol.compare(0, 4, "jit_") == 0 && f.symbol.compare(4, fmt("%ld_", long(im - imgs->data())).size(), fmt("%ld_", long(im - imgs->data()))) == 0, "wrong-jit", "lookup of %lx found object with symbol '%s', not image %ld", long(pc), f.symbol.c_str(), long(im - imgs->data()));
}

// ---- one thread against the model, allocations may fail, images vanish once unregistered
void seq_gen(Rng& r, Plan& p) {
    p.p["salt"] = r.below(1000000); bool many = r.chance(1, 30); p.p["images"] = many ? r.range(20, 50) : r.range(1, 6); p.p["oom"] = r.chance(1, 2);
    long n = many ? r.range(60, 200) : r.range(3, 30);
    for(long i = 0; i < n; i++) {
        long k = r.below(20);
        if(k < 7) p.ops.push_back({0, r.below(p.p["images"]), p.p["oom"] && r.chance(1, 3) ? r.range(1, 12) : 0});
        else if(k < 11) p.ops.push_back({1, r.below(p.p["images"])});
        else if(k < 12) p.ops.push_back({2});
        else if(k < 13) p.ops.push_back({4, r.below(2)});
        else if(k < 14) p.ops.push_back({5, r.below(1l << p.p["images"]), r.below(1000000)});
        else p.ops.push_back({3, r.below(1000000), r.range(1, 6)});
    }
}
void seq_exec(const Plan& p) {
    Rng r(uint64_t(p.get("salt")));
    make_images(r, p.get("images"));
    { Sut u; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); cpptrace::absorb_trace_exceptions(p.get("salt") % 4 != 0); }    // nothing here may throw either way
    const long blocks = live().blocks;
    for(auto& op : p.ops) {
        if(op[0] == 0) {
            auto& im = (*imgs)[size_t(op[1])];
            vanish(im, false);
            long failed = 0; bool threw = false;
            try { Sut s; if(op[2]) arm_alloc(op[2], 1); cpptrace::register_jit_object(im.start, im.size); } catch(const std::exception&) { threw = true; }
            failed = disarm_alloc();
            SIM_CHECK(!threw || failed, "escaped", "registering threw without an allocation failure");
            if(!threw && !im.bad) { SIM_CHECK(!failed || true, "x", "x"); im.registered = true; }
            event("register %ld bad=%d threw=%d", op[1], im.bad, threw);
            if(threw && !im.registered) { /* a failed registration changes nothing: the image may be dropped at once */ vanish(im, true); }
        } else if(op[0] == 1) {
            auto& im = (*imgs)[size_t(op[1])];
            try { Sut s; cpptrace::unregister_jit_object(im.start); } catch(...) { SIM_CHECK(false, "escaped", "unregistering threw"); }
            im.registered = false; vanish(im, true);
            event("unregister %ld", op[1]);
        } else if(op[0] == 2) {
            { Sut s; cpptrace::clear_all_jit_objects(); }
            for(auto& im : *imgs) { im.registered = false; vanish(im, true); }
            event("clear");
        } else if(op[0] == 5) {
            // the list a JIT compiler keeps for the debugger replaces everything that was registered
            std::vector<cd::jit_code_entry> list; Rng q{uint64_t(op[2])};
            std::vector<size_t> order; for(size_t i = 0; i < imgs->size(); i++) if(op[1] >> i & 1) order.insert(order.begin() + q.below(long(order.size()) + 1), i);
            for(size_t i : order) { vanish((*imgs)[i], false); list.push_back({nullptr, nullptr, (*imgs)[i].start, (*imgs)[i].size}); }
            for(size_t i = 0; i + 1 < list.size(); i++) { list[i].next_entry = &list[i + 1]; list[i + 1].prev_entry = &list[i]; }
            cd::__jit_debug_descriptor.first_entry = list.empty() ? nullptr : list.data();
            try { Sut s; cpptrace::experimental::register_jit_objects_from_gdb_jit_interface(); } catch(...) { SIM_CHECK(false, "escaped", "registering from the debugger interface threw"); }
            cd::__jit_debug_descriptor.first_entry = nullptr;
            for(size_t i = 0; i < imgs->size(); i++) { auto& im = (*imgs)[i]; im.registered = (op[1] >> i & 1) && !im.bad; if(!im.registered) vanish(im, true); }
            event("gdb list %ld", op[1]);
        } else if(op[0] == 4) {
            Sut s; if(op[1]) cpptrace::unregister_jit_object(nullptr); else cpptrace::unregister_jit_object("unknown");
        } else {
            Rng q{uint64_t(op[1])};
            for(long i = 0; i < op[2]; i++) {
                uintptr_t pc = pick_pc(q); auto f = look(pc); Image* im = owner(pc);
                bool want = im && im->registered;
                SIM_CHECK(f.found == want, want ? "lost-jit" : "ghost-jit", "lookup of %lx %s an object, image %ld is %sregistered", long(pc), f.found ? "found" : "did not find", im ? long(im - imgs->data()) : -1, want ? "" : "not ");
                if(want) check_found(pc, im, f);
                stat("checked");
            }
        }
        uint64_t h = 0; for(auto& im : *imgs) h = h * 2 + im.registered; state(mixh(h, imgs->size()));
    }
    // clearing gives everything back
    { Sut s; cpptrace::clear_all_jit_objects(); }
    for(auto& im : *imgs) vanish(im, true);
    Rng q(7); for(int i = 0; i < 10; i++) { auto pc = pick_pc(q); SIM_CHECK(!look(pc).found, "ghost-jit", "lookup of %lx found an object after clearing", long(pc)); }
    Mem m = live();
    SIM_CHECK(m.blocks - blocks <= 4, "memory-leak", "%ld blocks (%ld bytes) live after clearing, %ld at the start", m.blocks, m.bytes, blocks);
}
Register r1({"jit_seq", seq_gen, seq_exec});

// ---- several threads, every thread owns some images, all look up everything
void par_gen(Rng& r, Plan& p) {
    p.p["salt"] = r.below(1000000); p.p["images"] = r.range(2, 6); p.p["threads"] = r.range(2, 4);
    long n = r.range(4, 24);
    for(long i = 0; i < n; i++) p.ops.push_back({r.below(p.p["threads"]), r.below(3), r.below(1000000)});
}
void par_exec(const Plan& p) {
    Rng r(uint64_t(p.get("salt")));
    make_images(r, p.get("images"));
    { Sut u; cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); cpptrace::absorb_trace_exceptions(p.get("salt") % 4 != 0); }    // nothing here may throw either way
    long T = p.get("threads");
    for(long t = 0; t < T; t++) spawn([&p, t, T] {
        for(auto& op : p.ops) if(op[0] == t) {
            std::vector<long> mine; for(size_t i = 0; i < imgs->size(); i++) if(long(i) % T == t) mine.push_back(long(i));
            Rng q{uint64_t(op[2])};
            if(op[1] != 2 && !mine.empty()) {
                auto& im = (*imgs)[size_t(q.pick(mine))];
                if(im.bad) continue;
                if(op[1] == 0 && !im.registered) {
                    vanish(im, false);
                    im.reg_begin = steps(); im.reg_end = ~0ull; im.unreg_begin = im.unreg_end = ~0ull; im.ever = true; im.registered = true;
                    { Sut s; cpptrace::register_jit_object(im.start, im.size); }
                    im.reg_end = steps();
                } else if(op[1] == 1 && im.registered) {
                    im.unreg_begin = steps();
                    { Sut s; cpptrace::unregister_jit_object(im.start); }
                    im.unreg_end = steps(); im.registered = false;
                    vanish(im, true);
                }
                continue;
            }
            for(int i = 0; i < 3; i++) {
                uintptr_t pc = pick_pc(q); Image* im = owner(pc);
                uint64_t t0 = steps(); bool was_in = im && im->ever && im->reg_end <= t0 && im->unreg_begin == ~0ull; uint64_t gen0 = im ? im->reg_begin : 0;
                bool was_out = !im || !im->ever || im->unreg_end <= t0;
                auto f = look(pc);
                bool still_in = was_in && im->reg_begin == gen0 && im->unreg_begin == ~0ull, still_out = was_out && (!im || im->reg_begin == gen0);
                SIM_CHECK(!still_in || f.found, "lost-jit", "a registered object was not found while other threads registered theirs (%lx)", long(pc));
                SIM_CHECK(!still_out || !f.found, "ghost-jit", "an object was found at %lx that is not registered", long(pc));
                if(f.found) check_found(pc, im, f);
                stat("checked");
            }
        }
    }, "jit");
    join_all();
    for(auto& im : *imgs) for(auto& g : im.ranges) if(!im.bad) {
        auto f = look(g.first);
        SIM_CHECK(f.found == im.registered, im.registered ? "lost-jit" : "ghost-jit", "after all threads finished image %ld is %sregistered but lookup says %d", long(&im - imgs->data()), im.registered ? "" : "not ", f.found);
    }
}
Register r2({"jit_par", par_gen, par_exec});
}
