// Deterministic simulation runtime: public interface used by the scenarios.
// Everything the code under test (SUT) can observe of threads, locks, memory failure, file descriptors, processes,
// files, modules, page protections and time goes through this runtime; one seed decides all of it.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    long below(long n) { return n <= 0 ? 0 : long(next() % uint64_t(n)); }
    long range(long lo, long hi) { return lo + below(hi - lo + 1); }
    bool chance(long num, long den) { return below(den) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(long(v.size()))]; }
};

using Op = std::vector<long>;
struct Plan {
    std::map<std::string, long> p;
    std::vector<Op> ops;
    long get(const std::string& k, long d = 0) const { auto it = p.find(k); return it == p.end() ? d : it->second; }
};

struct Scenario {
    const char* name;
    void (*gen)(Rng&, Plan&);
    void (*exec)(const Plan&);
};
struct Register { Register(Scenario); };

// ---- outcome
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // goes into the run's event log and hash
void state(uint64_t h);                                                   // a distinct state reached (coverage)
void stat(const char* name, long n = 1);                                  // counter merged over the batch
uint64_t hash_str(const std::string& s);
#define SIM_CHECK(cond, cls, ...) do { if(!(cond)) ::sim::violation(cls, __VA_ARGS__); } while(0)

// ---- decisions
// Returns 0 (no fault) or 1..nvals. Only sites enabled by the plan parameter "f.<site>" (rate in 1/1000) ever fire.
long fault(const char* site, int nvals = 1);
void faults_enabled(bool on);
long fault_count(const char* prefix);     // injected so far at sites starting with prefix

// ---- tasks
int spawn(std::function<void()> body, const char* name);
void join_all();
void yield_here(const char* why);     // harness-level preemption point
void sleep_us(uint64_t us);
uint64_t now_us();
int task_id();
bool is_sim();
void block_until(std::function<bool()> pred, const char* why);

// harness-side synchronisation that also carries happens-before
struct Event { bool set = false; void signal(); void wait(); };
void hb_release(void* key);
void hb_acquire(void* key);

// ---- SUT context
struct Sut { Sut(); ~Sut(); int saved; };           // code under test runs while one of these lives
struct Harness { Harness(); ~Harness(); int saved; };// back to harness code (callbacks)
// allocation failures: the nth (1-based) allocation made by the SUT on this task from now on fails, `count` in a row
void arm_alloc(long nth, long count);
long disarm_alloc();                  // returns number of failures that fired
long sut_allocs();                    // allocations by SUT on this task since last arm/reset
void reset_sut_allocs();
// live blocks allocated by SUT
struct Mem { long blocks, bytes; };
Mem live();
// Memory that grew during a call is a leak if the same call goes on growing it; what is set up once, whenever that is, is not.
template<class F> bool keeps_growing(F again, int tries = 40, int needed = 2) {
    for(int i = 0, n = 0; i < tries; i++) { Mem a = live(); again(); if(live().blocks > a.blocks && ++n == needed) return true; }
    return false;
}
size_t largest_request();            // biggest single allocation the SUT asked for since the last reset
void reset_largest_request();
bool is_sut_heap(const void* p);
bool is_live_block(const void* p);
void strict_heap(bool on);

// ---- async "signals": at the nth instrumented instant on this task run handler (in SUT=false context, flagged)
void arm_signal(long nth, std::function<void()> handler);
bool disarm_signal();                 // true if it fired
long signal_instants();               // instants passed on this task since arm_signal
struct SignalGuard { SignalGuard(); ~SignalGuard(); };
// while in signal context: any allocation/lock/stdio/open is a violation; writes outside allowed ranges as well
void signal_allow_write(const void* p, size_t n);

// ---- virtual kernel
struct Module { std::string path; uintptr_t base, size, load_addr; bool loaded; };
int add_module(const std::string& path, uintptr_t base, size_t size, uintptr_t load_addr);
void unload_module(int id);
const Module* find_module(uintptr_t a);
void vfs_put(const std::string& path, const std::string& content);
void vfs_remove(const std::string& path);
// symbol model of the simulated helper
struct SymInfo { int kind; std::string text; std::string symbol, file; long line; std::string mangled; const std::string& name() const { return mangled.empty() ? symbol : mangled; } };
extern std::function<SymInfo(const std::string& object, uint64_t addr)> symbol_model;
struct KernelSnapshot { std::vector<std::pair<int,int>> fds; int children; int zombies; int files; std::map<std::string, int> open_paths; };
KernelSnapshot snapshot();
// cached_files: object files may stay open in the library's cache, each at most once
std::string diff(const KernelSnapshot& a, const KernelSnapshot& b, bool cached_files = false);
int user_child_start(bool exits_quickly);    // a child process of the application itself
bool user_child_present(int pid);            // still there (running or zombie), not reaped by someone else
void user_spawn_probe();                     // application forks+execs something now: nothing of the SUT's may leak into it
void set_exe_path(const std::string& p, int err); // what readlink("/proc/self/exe") gives
struct PageProt { uintptr_t page; int prot; };
struct MpCall { uintptr_t addr; size_t len; int prot; bool ok; };
std::vector<MpCall>& mprotect_calls();        // made by the code under test, in order
extern std::string stderr_capture;
void capture_stderr(bool on);
extern bool virtual_maps;                    // simulated page protections active
extern std::function<int(void)> dummy;

bool in_child();

// run-level
uint64_t steps();
void set_abort_ok(std::function<void(int sig)> on_abort);  // called on SIGABRT instead of a violation
[[noreturn]] void finish_ok();
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}
