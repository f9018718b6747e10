// Builds object files for the simulated file system and for in-memory objects.
#pragma once
#include <cstdint>
#include <elf.h>
#include <string>
#include <vector>

namespace eg {
struct Sym { std::string name; uint64_t value, size; uint16_t shndx; unsigned char info; };
struct Sec { std::string name; uint32_t type; uint64_t addr, size; };
struct Spec {
    int bits = 64; bool le = true;
    bool phdr = true; uint64_t phdr_vaddr = 0;        // PT_PHDR p_vaddr = phdr_vaddr + its file offset
    int other_ph_before = 0;
    std::vector<Sec> texts;                            // sections with an address range (name may be .text)
    bool symtab = true, dynsym = false;
    std::vector<Sym> syms, dynsyms;
    int entpad = 0;                                    // extra bytes per header-table entry
};
struct W {
    std::string b; bool le;
    void put(size_t at, uint64_t v, int n) { if(b.size() < at + size_t(n)) b.resize(at + size_t(n)); for(int i = 0; i < n; i++) b[at + size_t(i)] = char(v >> (8 * (le ? i : n - 1 - i))); }
    void bytes(size_t at, const std::string& s) { if(b.size() < at + s.size()) b.resize(at + s.size()); b.replace(at, s.size(), s); }
};
inline std::string build(const Spec& s) {
    W w; w.le = s.le; bool b64 = s.bits == 64; int P = b64 ? 8 : 4;
    size_t eh = b64 ? 64 : 52, phe = (b64 ? 56 : 32) + size_t(s.entpad), she = (b64 ? 64 : 40) + size_t(s.entpad), sye = b64 ? 24 : 16;
    w.b.assign(eh, '\0');
    w.bytes(0, std::string("\x7f" "ELF", 4)); w.b[4] = char(b64 ? 2 : 1); w.b[5] = char(s.le ? 1 : 2); w.b[6] = 1;
    w.put(16, 3, 2); w.put(18, 62, 2); w.put(20, 1, 4);
    size_t nph = size_t(s.other_ph_before) + (s.phdr ? 1 : 0) + 1;
    size_t phoff = eh;
    for(size_t i = 0; i < nph; i++) {
        size_t at = phoff + i * phe;
        bool isphdr = s.phdr && i == size_t(s.other_ph_before);
        uint32_t type = isphdr ? PT_PHDR : i == nph - 1 ? PT_LOAD : PT_NOTE;
        uint64_t off = isphdr ? phoff : 0, va = isphdr ? s.phdr_vaddr + phoff : s.phdr_vaddr + (type == PT_NOTE ? 0x9999 : 0);
        w.put(at, type, 4);
        if(b64) { w.put(at + 4, 5, 4); w.put(at + 8, off, 8); w.put(at + 16, va, 8); w.put(at + 24, va, 8); w.put(at + 32, 0x100, 8); w.put(at + 40, 0x100, 8); w.put(at + 48, 8, 8); }
        else { w.put(at + 4, off, 4); w.put(at + 8, va, 4); w.put(at + 12, va, 4); w.put(at + 16, 0x100, 4); w.put(at + 20, 0x100, 4); w.put(at + 24, 5, 4); w.put(at + 28, 4, 4); }
    }
    size_t at = phoff + nph * phe;
    w.b.resize(at);
    struct SH { uint32_t name, type; uint64_t addr, off, size, ent; uint32_t link; };
    std::vector<SH> sh; sh.push_back({0, 0, 0, 0, 0, 0, 0});
    std::string shstr(1, '\0');
    auto nm = [&](const std::string& n) { uint32_t o = uint32_t(shstr.size()); shstr += n; shstr += '\0'; return o; };
    for(auto& t : s.texts) sh.push_back({nm(t.name), t.type, t.addr, 0, t.size, 0, 0});
    auto table = [&](bool dyn, const std::vector<Sym>& syms) {
        std::string str(1, '\0'); size_t off = at;
        for(size_t i = 0; i < syms.size(); i++) {
            size_t e = off + i * sye; uint32_t n = uint32_t(str.size()); str += syms[i].name; str += '\0';
            w.put(e, n, 4);
            if(b64) { w.put(e + 4, syms[i].info, 1); w.put(e + 5, 0, 1); w.put(e + 6, syms[i].shndx, 2); w.put(e + 8, syms[i].value, 8); w.put(e + 16, syms[i].size, 8); }
            else { w.put(e + 4, syms[i].value, 4); w.put(e + 8, syms[i].size, 4); w.put(e + 12, syms[i].info, 1); w.put(e + 13, 0, 1); w.put(e + 14, syms[i].shndx, 2); }
        }
        at = off + syms.size() * sye;
        sh.push_back({nm(dyn ? ".dynsym" : ".symtab"), uint32_t(dyn ? SHT_DYNSYM : SHT_SYMTAB), 0, off, syms.size() * sye, sye, uint32_t(sh.size() + 1)});
        w.bytes(at, str);
        sh.push_back({nm(dyn ? ".dynstr" : ".strtab"), SHT_STRTAB, 0, at, str.size(), 0, 0});
        at += str.size();
    };
    if(s.symtab) table(false, s.syms);
    if(s.dynsym) table(true, s.dynsyms);
    uint32_t shstrname = nm(".shstrtab");
    w.bytes(at, shstr);
    sh.push_back({shstrname, SHT_STRTAB, 0, at, shstr.size(), 0, 0});
    at += shstr.size();
    at = (at + 7) & ~size_t(7);
    size_t shoff = at;
    for(size_t i = 0; i < sh.size(); i++) {
        size_t e = shoff + i * she;
        w.put(e, sh[i].name, 4); w.put(e + 4, sh[i].type, 4); w.put(e + 8, 0, P);
        size_t o = e + 8 + size_t(P);
        w.put(o, sh[i].addr, P); o += size_t(P); w.put(o, sh[i].off, P); o += size_t(P); w.put(o, sh[i].size, P); o += size_t(P);
        w.put(o, sh[i].link, 4); w.put(o + 4, 0, 4); o += 8; w.put(o, 1, P); o += size_t(P); w.put(o, sh[i].ent, P);
    }
    if(w.b.size() < shoff + sh.size() * she) w.b.resize(shoff + sh.size() * she);
    // file header
    w.put(24, 0, P); size_t o = 24 + size_t(P); w.put(o, phoff, P); o += size_t(P); w.put(o, shoff, P); o += size_t(P);
    w.put(o, 0, 4); o += 4; w.put(o, eh, 2); w.put(o + 2, phe, 2); w.put(o + 4, nph, 2); w.put(o + 6, she, 2); w.put(o + 8, sh.size(), 2); w.put(o + 10, sh.size() - 1, 2);
    return w.b;
}
inline std::string simple(uint64_t base) { Spec s; s.phdr_vaddr = base; s.symtab = false; return build(s); }
}
