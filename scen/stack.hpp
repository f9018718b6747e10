// An independent reference for stacks: the ABI unwinder run by the harness itself.
#pragma once
#include "rt.hpp"
#include <unwind.h>
#include <dlfcn.h>
#include <link.h>
#include <vector>
#include <string>
extern "C" char __executable_start, etext;
namespace stk {
using namespace sim;
struct Ref { std::vector<uintptr_t> ips; std::vector<char> interrupted; bool known = false; };   // interrupted: the level was stopped by a signal, its address is exact     // return addresses, the caller of here() first
// libgcc's unwinder even where libunwind's takes the same names
struct Gcc { decltype(&_Unwind_Backtrace) backtrace; decltype(&_Unwind_GetIPInfo) ipinfo; decltype(&_Unwind_FindEnclosingFunction) enclosing; };
inline Gcc& gcc() {
    static Gcc g = [] { Harness h; void* l = dlopen("libgcc_s.so.1", RTLD_NOW); auto f = reinterpret_cast<void*(*)(void*, const char*)>(&dlsym);
        return Gcc{reinterpret_cast<decltype(&_Unwind_Backtrace)>(f(l, "_Unwind_Backtrace")), reinterpret_cast<decltype(&_Unwind_GetIPInfo)>(f(l, "_Unwind_GetIPInfo")), reinterpret_cast<decltype(&_Unwind_FindEnclosingFunction)>(f(l, "_Unwind_FindEnclosingFunction"))}; }();
    return g;
}
inline _Unwind_Reason_Code ref_cb(_Unwind_Context* c, void* a) {
    auto* v = static_cast<Ref*>(a);
    int before = 0; uintptr_t ip = gcc().ipinfo(c, &before);
    if(ip) { v->ips.push_back(before ? ip + 1 : ip); v->interrupted.push_back(before != 0); }
    return ip ? _URC_NO_REASON : _URC_END_OF_STACK;
}
// the stack of the calling function: element 0 lies in the caller of here()
__attribute__((noinline)) inline Ref here() {
    Harness h; Ref r; r.known = true;
    gcc().backtrace(ref_cb, &r);
    if(!r.ips.empty()) { r.ips.erase(r.ips.begin()); r.interrupted.erase(r.interrupted.begin()); }   // here() itself
    return r;
}
inline void* func_of(uintptr_t pc) { Harness h; return gcc().enclosing(reinterpret_cast<void*>(pc)); }
inline bool in_exe(uintptr_t pc) { return pc >= uintptr_t(&__executable_start) && pc < uintptr_t(&etext); }
inline std::string name_of(uintptr_t pc) {
    Harness h; Dl_info i{}; auto f = reinterpret_cast<int(*)(const void*, Dl_info*)>(dlsym(RTLD_NEXT, "dladdr"));
    if(f && f(reinterpret_cast<void*>(pc), &i) && i.dli_sname) return fmt("%lx(%s)", long(pc), i.dli_sname);
    return fmt("%lx", long(pc));
}
inline std::string show(const std::vector<uintptr_t>& v, bool ret) { std::string s; for(size_t i = 0; i < v.size() && i < 14; i++) s += (i ? " " : "") + name_of(v[i] - (ret ? 1 : 0)); return s; }
// frames [from..) of the reference, after dropping its `skip` innermost levels, limited to depth
// same_first: the first level is another call of the same function, so only the function has to agree
inline bool same_stack(const std::vector<uintptr_t>& got, const Ref& ref, size_t skip, size_t depth, bool same_first, std::string& why) {
    std::vector<uintptr_t> want;
    for(size_t i = skip; i < ref.ips.size() && want.size() < depth; i++) want.push_back(ref.ips[i]);
    if(got.size() != want.size()) { why = fmt("%zu frames instead of %zu: got %s, expected %s", got.size(), want.size(), show(got, false).c_str(), show(want, true).c_str()); return false; }
    for(size_t i = 0; i < got.size(); i++) {
        if(i == 0 && skip == 0 && same_first) {
            if(func_of(got[0]) != func_of(want[0] - 1)) { why = fmt("first frame %s lies in another function than %s", name_of(got[0]).c_str(), name_of(want[0] - 1).c_str()); return false; }
        } else if(ref.interrupted[skip + i]) {
            if(got[i] + 1 != want[i]) { why = fmt("interrupted level %zu is %s instead of %s", i, name_of(got[i]).c_str(), name_of(want[i] - 1).c_str()); return false; }
        } else if(skip + i + 1 < ref.interrupted.size() && ref.interrupted[skip + i + 1] && got[i] == want[i]) {   // the signal trampoline itself
        } else if(got[i] >= want[i] || got[i] + 16 < want[i]) {   // inside the calling instruction, which ends at the return address
            why = fmt("frame %zu is %s, the call there returns to %s", i, name_of(got[i]).c_str(), name_of(want[i]).c_str()); return false; }
    }
    return true;
}
}
