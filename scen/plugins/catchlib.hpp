// shared between the catch scenario and its plugins
#pragma once
#include <cstdint>
#include <typeinfo>
namespace cl {
struct Rec { int what, level; long value; };        // 1 handler, 2 destructor, 3 escaped
struct Level { int handler, mode, second, action, thrown2; };   // mode 0 plain, 1 macro, 2 utility
struct Prog { int n, thrown; Level lv[8]; };
struct Out { int n; Rec r[96]; int missing_trace, handled; long fail_alloc; };
struct Plugin {
    int nthrown, nhandlers, nseconds, nicepts;
    void (*run)(const Prog&, Out&, bool wrapped);
    const std::type_info* const* icepts;
    const char* (*handler_name)(int);
    const char* (*thrown_name)(int);
};
}
extern "C" { void sim_plugin_begin(); void sim_plugin_throwing(long); }
