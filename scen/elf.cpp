// C12: object files and in-memory images, intact and damaged, under failing and short reads
#include "common.hpp"
#include "binary/elf.hpp"
#include <sys/mman.h>
using namespace sim;
using namespace u;
namespace cd = cpptrace::detail;

namespace {
// ---- an independent reader of the same format: every answer is either defined by the bytes or not
struct Ref {
    const std::string& b; bool ok = false, b64 = false, le = true; mutable bool either = false;   // either: reading an empty section may count as a failed read
    explicit Ref(const std::string& bytes) : b(bytes) {
        if(b.size() < 7 || b.compare(0, 4, "\x7f" "ELF") != 0 || b[6] != 1) return;
        b64 = b[4] == 2; le = b[5] == 1; ok = true;
    }
    bool get(uint64_t at, int n, uint64_t& v) const {
        if(at > b.size() || uint64_t(n) > b.size() - at) return false;
        v = 0; for(int i = 0; i < n; i++) v |= uint64_t(uint8_t(b[at + size_t(i)])) << (8 * (le ? i : n - 1 - i));
        return true;
    }
    int P() const { return b64 ? 8 : 4; }
    struct Hdr { uint64_t phoff, shoff, phes, phn, shes, shn, strx; };
    bool hdr(Hdr& h) const {
        uint64_t eh; uint64_t o = 24 + uint64_t(P());
        if(!ok || b.size() < (b64 ? 64u : 52u)) return false;
        get(o, P(), h.phoff); get(o + uint64_t(P()), P(), h.shoff); o += 2 * uint64_t(P()) + 4;
        get(o, 2, eh); get(o + 2, 2, h.phes); get(o + 4, 2, h.phn); get(o + 6, 2, h.shes); get(o + 8, 2, h.shn); get(o + 10, 2, h.strx);
        return eh == (b64 ? 64u : 52u);
    }
    bool base(uint64_t& v) const {
        Hdr h; if(!hdr(h)) return false;
        for(uint64_t i = 0; i < h.phn; i++) {
            uint64_t at = h.phoff + i * h.phes, t, off, va, last;
            if(at < h.phoff || !get(at, 4, t) || !get(at + (b64 ? 48 : 28), b64 ? 8 : 4, last)) return false;
            get(at + (b64 ? 8 : 4), P(), off); get(at + (b64 ? 16 : 8), P(), va);
            if(t == PT_PHDR) { v = va - off; if(!b64) v = uint32_t(v); return true; }
        }
        v = 0; return true;
    }
    struct Sec { uint64_t name, type, addr, off, size, link, ent; };
    bool secs(std::vector<Sec>& out) const {
        Hdr h; if(!hdr(h)) return false;
        for(uint64_t i = 0; i < h.shn; i++) {
            uint64_t at = h.shoff + i * h.shes, x; Sec s;
            if(at < h.shoff || !get(at, 4, s.name) || !get(at + (b64 ? 56 : 36), P(), s.ent)) return false;
            get(at + 4, 4, s.type); uint64_t o = at + 8 + uint64_t(P());
            get(o, P(), s.addr); get(o + uint64_t(P()), P(), s.off); get(o + 2 * uint64_t(P()), P(), s.size); get(o + 3 * uint64_t(P()), 4, s.link); (void)x;
            out.push_back(s);
        }
        return true;
    }
    bool strtab(const std::vector<Sec>& ss, uint64_t ix, std::string& out) const {
        if(ix >= ss.size() || ss[ix].type != SHT_STRTAB) return false;
        if(ss[ix].size == 0) either = true;
        if(ss[ix].off > b.size() || ss[ix].size > b.size() - ss[ix].off) return false;
        out = b.substr(ss[ix].off, ss[ix].size); return true;
    }
    static bool str(const std::string& tab, uint64_t at, std::string& out) { if(at >= tab.size()) return false; out = tab.c_str() + at; return true; }
    bool ranges(std::vector<std::pair<uint64_t, uint64_t>>& out) const {
        std::vector<Sec> ss; Hdr h; std::string st; if(!hdr(h) || !secs(ss) || !strtab(ss, h.strx, st)) return false;
        for(auto& s : ss) { std::string n; if(str(st, s.name, n) && n == ".text") out.push_back({s.addr, s.addr + s.size}); }
        return true;
    }
    struct Sym { std::string name; bool named; uint64_t value, size, shndx; };
    // 1: there is a table, 0: there is none, -1: unreadable
    int syms(bool dyn, std::vector<Sym>& out) const {
        std::vector<Sec> ss; if(!secs(ss)) return -1;
        for(auto& s : ss) if(s.type == (dyn ? SHT_DYNSYM : SHT_SYMTAB)) {
            uint64_t e = b64 ? 24 : 16;
            if(s.ent != e || s.size % e) return -1;
            if(s.size == 0) either = true;
            if(s.off > b.size() || s.size > b.size() - s.off) return -1;
            std::string st; bool has = s.link != 0; if(has && !strtab(ss, s.link, st)) return -1;
            for(uint64_t i = 0; i < s.size / e; i++) {
                uint64_t at = s.off + i * e, nm; Sym y; get(at, 4, nm);
                if(b64) { get(at + 6, 2, y.shndx); get(at + 8, 8, y.value); get(at + 16, 8, y.size); } else { get(at + 4, 4, y.value); get(at + 8, 4, y.size); get(at + 14, 2, y.shndx); }
                y.named = has && str(st, nm, y.name);
                if(y.size) out.push_back(y);
            }
            return 1;
        }
        return 0;
    }
};

eg::Spec gen_spec(Rng& r) {
    eg::Spec s; s.bits = r.chance(1, 3) ? 32 : 64; s.le = !r.chance(1, 3); s.entpad = r.chance(1, 5) ? 8 : 0;
    static const uint64_t bases[] = {0, 0x400000, 0x10000, 0x7f0000000000};
    s.phdr = r.chance(4, 5); s.phdr_vaddr = bases[r.below(s.bits == 32 ? 3 : 4)]; s.other_ph_before = int(r.below(3));
    uint64_t at = 0x1000;
    long n = r.range(0, 4);
    for(long i = 0; i < n; i++) { uint64_t sz = uint64_t(r.range(1, 5000)); s.texts.push_back({r.chance(2, 3) ? ".text" : r.chance(1, 2) ? ".text.hot" : ".data", SHT_PROGBITS, at, sz}); at += sz + uint64_t(r.below(100)); }
    s.symtab = r.chance(4, 5); s.dynsym = r.chance(1, 2);
    auto fill = [&](std::vector<eg::Sym>& v, const char* pre) {
        uint64_t a = 0x1000; long k = r.chance(1, 8) ? 0 : r.range(1, 12);
        for(long i = 0; i < k; i++) {
            uint64_t sz = r.chance(1, 6) ? 0 : uint64_t(r.range(1, 300));
            v.push_back({r.chance(1, 15) ? "" : fmt("%s_%ld_%s", pre, i, r.chance(1, 8) ? std::string(300, 'q').c_str() : ""), a, sz, uint16_t(r.below(5)), 2});
            a += sz + uint64_t(r.pick(std::vector<long>{0, 0, 1, 50}));
        }
        if(r.chance(1, 2)) for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[size_t(r.below(long(i)))]);   // tables are not sorted
    };
    if(s.symtab) fill(s.syms, "sym"); if(s.dynsym) fill(s.dynsyms, "dyn");
    return s;
}
void damage(Rng& r, std::string& b, long kind) {
    if(b.empty()) return;
    if(kind == 1) b.resize(size_t(r.below(long(b.size()))));
    else {
        long n = r.range(1, kind == 2 ? 3 : 12);
        for(long i = 0; i < n; i++) {
            size_t at = r.chance(1, 2) ? size_t(r.below(64)) : size_t(r.below(long(b.size())));
            if(r.chance(1, 3)) at = b.size() - 1 - size_t(r.below(std::min<long>(long(b.size()), 600)));   // the section table
            if(at >= b.size()) continue;
            static const unsigned char vals[] = {0, 1, 0xff, 0x7f, 0x80, 2, 0xfe};
            long w = r.pick(std::vector<long>{1, 1, 2, 4, 8});
            for(long k = 0; k < w && at + size_t(k) < b.size(); k++) b[at + size_t(k)] = char(r.chance(1, 3) ? r.below(256) : vals[r.below(7)]);
        }
    }
}

void gen(Rng& r, Plan& p) {
    p.p["salt"] = r.below(100000000);
    p.p["damage"] = r.below(4);      // 0 none, 1 truncated, 2-3 bytes changed
    p.p["mem"] = r.chance(1, 2);
    for(auto s : {"fopen", "fread", "fseek"}) if(r.chance(1, 3)) p.p[std::string("f.") + s] = std::vector<long>{20, 100, 400}[size_t(r.below(3))];
    p.p["cached"] = r.below(3);
    long n = r.range(2, 10);
    for(long i = 0; i < n; i++) p.ops.push_back({r.below(6), r.below(1000000), r.chance(1, 8) ? r.range(1, 30) : 0});
}
long ff() { return fault_count("fopen") + fault_count("fread") + fault_count("fseek"); }

struct Src { std::string bytes; const char* mem = nullptr; std::string path; bool damaged; };
Src* src;

cd::Result<cd::elf, cd::internal_error> open_it() {
    if(src->mem) return cd::elf::open(cd::make_span(src->mem, src->bytes.size()));
    return cd::elf::open(cpptrace::detail::cstring_view(src->path));
}

// one query on an open object; 'strict': the answer has to be the defined one, not an error
void query(cd::elf& e, const Op& op, bool strict, bool quiet_oom) {
    Ref ref(src->bytes);
    bool oom = false, threw = false; std::string what;
    bool err = false;
    auto guard = [&](auto&& f) {
        try { Sut s; if(op[2] && !quiet_oom) arm_alloc(op[2], 1); f(); }
        catch(const std::bad_alloc&) { threw = true; what = "bad_alloc"; }
        catch(const std::exception& ex) { threw = true; what = ex.what(); }
        oom = disarm_alloc() > 0;
        SIM_CHECK(!threw || oom, "escaped", "reading the object threw %s", what.c_str());
    };
    long kind = op[0];
    if(kind == 0) {
        uintptr_t got = 0; guard([&] { auto r = e.get_module_image_base(); if(r.is_error()) err = true; else got = r.unwrap_value(); });
        uint64_t want; bool def = ref.base(want);
        if(threw) return;
        if(err) SIM_CHECK(!def || !strict, "lost-answer", "the image base %lx is not found", long(want));
        else SIM_CHECK(def && got == want, "misread", "image base %lx, the headers say %s%lx", long(got), def ? "" : "nothing: ", def ? long(want) : 0L);
        stat("checked");
    } else if(kind == 1) {
        std::vector<cd::elf::pc_range> got; guard([&] { auto r = e.get_pc_ranges(); if(r.is_error()) err = true; else got = std::move(r.unwrap_value()); });
        std::vector<std::pair<uint64_t, uint64_t>> want; bool def = ref.ranges(want);
        if(!threw) {
            if(err) SIM_CHECK(!def || !strict || ref.either, "lost-answer", "the code ranges are not found");
            else {
                SIM_CHECK(def || ref.either, "misread", "%zu code ranges from an unreadable table", got.size());
                SIM_CHECK(got.size() == want.size(), "misread", "%zu code ranges instead of %zu", got.size(), want.size());
                for(size_t i = 0; i < got.size(); i++) SIM_CHECK(got[i].low == want[i].first && got[i].high == want[i].second, "misread", "code range %zu is %lx-%lx instead of %lx-%lx", i, long(got[i].low), long(got[i].high), long(want[i].first), long(want[i].second));
            }
            stat("checked");
        }
        Sut s; got = std::vector<cd::elf::pc_range>();
    } else if(kind == 2 || kind == 3) {
        bool dyn = kind == 3; int state_ = -1; std::vector<cd::elf::symbol_entry> got;
        guard([&] { auto r = dyn ? e.get_dynamic_symtab_entries() : e.get_symtab_entries(); if(r.is_error()) err = true; else { auto& o = r.unwrap_value(); state_ = o.has_value(); if(o) got = std::move(o.unwrap()); } });
        std::vector<Ref::Sym> want; int def = ref.syms(dyn, want);
        if(!threw) {
            if(err) SIM_CHECK(def == -1 || !strict || ref.either, "lost-answer", "the %ssymbol table is not found", dyn ? "dynamic " : "");
            else {
                SIM_CHECK(def == state_ || ref.either, "misread", "symbol table presence %d instead of %d", state_, def);
                SIM_CHECK(got.size() == want.size(), "misread", "%zu symbols instead of %zu", got.size(), want.size());
                std::stable_sort(want.begin(), want.end(), [](const Ref::Sym& a, const Ref::Sym& b) { return a.value < b.value; });
                std::multiset<std::string> a, b;
                for(size_t i = 0; i < got.size(); i++) {
                    SIM_CHECK(got[i].st_value == want[i].value, "misread", "symbol %zu value %lx instead of %lx", i, long(got[i].st_value), long(want[i].value));
                    bool named = false; for(auto& w : want) if(w.value == got[i].st_value && w.size == got[i].st_size && w.shndx == got[i].st_shndx && (!w.named || w.name == got[i].st_name.c_str())) named = true;
                    SIM_CHECK(named, "misread", "symbol %zu at %lx has name '%s', size %lu, section %d: not in the table", i, long(got[i].st_value), got[i].st_name.c_str(), long(got[i].st_size), int(got[i].st_shndx));
                }
            }
            stat("checked");
        }
        Sut s; got = std::vector<cd::elf::symbol_entry>();
    } else {
        Rng q{uint64_t(op[1])};
        std::vector<Ref::Sym> w1, w2; int d1 = ref.syms(false, w1), d2 = ref.syms(true, w2);
        std::vector<Ref::Sym> all = w1; all.insert(all.end(), w2.begin(), w2.end());
        uint64_t pc = 0x1000 + uint64_t(q.below(3000));
        if(!all.empty() && q.chance(3, 4)) { auto& y = all[size_t(q.below(long(all.size())))]; long k = q.below(4); pc = k == 0 ? y.value : k == 1 ? y.value + y.size - 1 : k == 2 ? y.value + y.size : y.value - 1; }
        bool has = false; std::string got;
        guard([&] { auto o = e.lookup_symbol(pc); if(o) { has = true; got = std::move(o.unwrap()); } });
        if(!threw) {
            // the answer has to be a symbol that contains the address; in an intact file the only one
            auto cover = [&](const std::vector<Ref::Sym>& v) { std::vector<const Ref::Sym*> c; for(auto& y : v) if(pc >= y.value && pc - y.value < y.size) c.push_back(&y); return c; };
            auto c1 = cover(w1), c2 = cover(w2);
            if(has) {
                bool ok = false; for(auto* y : c1) ok |= d1 == 1 && (!y->named || y->name == got.c_str()); for(auto* y : c2) ok |= d2 == 1 && (!y->named || y->name == got.c_str());
                SIM_CHECK(ok, "misread", "lookup of %lx gave '%s', which does not contain it", long(pc), got.c_str());
                if(!src->damaged && strict && !c1.empty()) SIM_CHECK(c1[0]->name == got.c_str(), "misread", "lookup of %lx gave '%s' instead of '%s'", long(pc), got.c_str(), c1[0]->name.c_str());
            } else if(!src->damaged && strict) SIM_CHECK(c1.empty() && c2.empty(), "lost-answer", "lookup of %lx found nothing, the table has '%s'", long(pc), (c1.empty() ? c2[0] : c1[0])->name.c_str());
            stat("checked");
        }
        Sut s; got = std::string();
    }
}
void exec(const Plan& p) {
    Rng r(uint64_t(p.get("salt")));
    src = new Src;
    src->bytes = eg::build(gen_spec(r));
    src->damaged = p.get("damage") != 0;
    if(src->damaged) damage(r, src->bytes, p.get("damage"));
    src->path = "/sim/lib/object.so";
    vfs_put(src->path, src->bytes);
    if(p.get("mem")) {
        size_t len = (src->bytes.size() + 4095) & ~size_t(4095);
        char* m = static_cast<char*>(::mmap(nullptr, len + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        ::mprotect(m, 4096, PROT_NONE); ::mprotect(m + 4096 + len, 4096, PROT_NONE);
        char* at = m + 4096 + len - src->bytes.size();
        memcpy(at, src->bytes.data(), src->bytes.size());
        src->mem = at;
    }
    reset_largest_request();
    auto one_object = [&](const std::vector<Op>& ops, bool final_round) {
        auto s0 = snapshot();
        {
            std::unique_ptr<cd::elf> obj; bool opened = false;
            long f0 = ff();
            { Sut s; auto res = open_it(); if(!res.is_error()) { opened = true; obj.reset(new cd::elf(std::move(res.unwrap_value()))); } }
            Ref ref(src->bytes);
            if(ff() == f0) SIM_CHECK(opened == ref.ok, opened ? "misread" : "lost-answer", "opening %s although the identification bytes are %s", opened ? "succeeded" : "failed", ref.ok ? "right" : "wrong");
            if(opened) {
                bool poisoned = false;
                for(auto& op : ops) { long f1 = ff(); query(*obj, op, !poisoned && ff() == f1 && false, false); if(ff() != f1 || op[2]) poisoned = true; }
                // a failed part costs that part only: the image base of the very same object is still there
                faults_enabled(false);
                query(*obj, {0, 0, 0}, true, true);
                if(!poisoned) for(auto& op : ops) query(*obj, op, true, true);
                faults_enabled(!final_round);
            }
            { Sut s; obj.reset(); }
        }
        auto d = diff(s0, snapshot());
        SIM_CHECK(d.empty(), "leak", "after closing the object: %s", d.c_str());
        if(!src->damaged) state(mixh(hash_str(src->bytes), p.get("mem")));
    };
    one_object(p.ops, false);
    Mem m0 = live();
    faults_enabled(false);
    auto clean = p.ops; for(auto& op : clean) op[2] = 0;
    one_object(clean, true);
    Mem m1 = live();
    SIM_CHECK(m1.blocks <= m0.blocks || !keeps_growing([&] { one_object(clean, true); }, 3), "memory-leak", "%ld blocks stay allocated after the object was closed", m1.blocks - m0.blocks);
    size_t bound = 16 * src->bytes.size() + 65535 * 128;   // tables may also be as long as their 16-bit counts say
    SIM_CHECK(largest_request() <= bound, "absurd-allocation", "an allocation of %zu bytes was requested while reading a file of %zu bytes", largest_request(), src->bytes.size());
    if(!src->mem) {
        // and through the shared cache of open files
        { Sut s; cpptrace::experimental::set_cache_mode(p.get("cached") == 0 ? cpptrace::cache_mode::prioritize_memory : cpptrace::cache_mode::prioritize_speed); }
        faults_enabled(true);
        for(int i = 0; i < 3; i++) {
            if(i == 2) faults_enabled(false);
            Sut s;
            auto res = cd::open_elf_cached(src->path);
            Harness h;
            if(i == 2) SIM_CHECK(res.is_error() == !Ref(src->bytes).ok, "lost-answer", "the object file is not readable through the cache");
            if(!res.is_error()) query(*res.unwrap_value(), {0, 0, 0}, i == 2, true);
        }
    }
}
Register reg({"elf", gen, exec});
}
