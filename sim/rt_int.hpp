#pragma once
#include "rt.hpp"
#include <deque>
#include <pthread.h>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <cstring>
#include <algorithm>
extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
#define memcpy __real_memcpy
#define memset __real_memset

namespace sim {
constexpr int kMaxTasks = 12;
constexpr int kRecs = 8;

struct VC {
    uint32_t c[kMaxTasks] = {};
    uint32_t& operator[](int i) { return c[i]; }
    void join(const VC& o) { for(int i = 0; i < kMaxTasks; i++) if(o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Rec { uint32_t clk; uint32_t pc; uint8_t tid, mask, write : 1, atomic : 1, valid : 1; };
struct Cell { Rec r[kRecs]; };

struct Task {
    int id = 0;
    std::string name;
    std::function<void()> body;
    int go = 0, started = 0;
    bool done = false;
    bool block = false;
    std::function<bool()> block_pred;
    const char* block_why = nullptr;
    uint64_t wake_at = 0;
    int in_sut = 0;
    int in_rt = 0;
    int in_rt_hard = 0;
    int nopreempt = 0;
    int proc = 0;           // index of the virtual process this task currently executes (0: the application)
    VC vc, end_vc;
    uintptr_t stack_lo = 0, stack_hi = 0, frame_hi = 0;
    long live = 0;
    long alloc_n = 0, alloc_fail_at = 0, alloc_fail_count = 0, alloc_failed = 0;
    int held = 0;
    long sig_left = 0, sig_armed = 0; bool sig_fired = false, in_signal = false, sig_use = false;
    std::function<void()> sig_handler;
    std::vector<std::pair<uintptr_t, uintptr_t>> sig_allowed;
    struct ForkCtx* fork_ctx = nullptr;
    char sigstack[262144];
};

struct Actor {
    int pid = 0;
    bool done = false;
    uint64_t wake_at = 0;
    virtual ~Actor() {}
    virtual bool ready() = 0;
    virtual void step() = 0;
    virtual std::string waiting_for() = 0;
};

struct FaultDec { std::string site; long n, v; };

struct Run {
    bool active = false;
    uint64_t seed = 0;
    Plan plan;
    bool explicit_mode = false;
    bool faults_off = false, sched_off = false, faults_paused = false;
    std::map<std::pair<std::string, long>, long> fault_map;
    std::unordered_map<uint64_t, long> sched_map;
    std::vector<FaultDec> faults;
    std::vector<std::pair<uint64_t, long>> sched;
    std::map<std::string, long> fault_seen;
    std::vector<std::unique_ptr<Task>> tasks;
    std::vector<std::unique_ptr<Actor>> actors;
    Task* running = nullptr;
    uint64_t step = 0, now = 0, max_steps = 0;
    Rng sched_rng{0};
    uint64_t preempt_left = ~0ull;
    long preempt_mean = 0, sync_rate = 0;
    uint64_t hash = 1469598103934665603ull;
    std::vector<std::string> log;
    std::map<std::string, long> stats;
    std::set<uint64_t> states;
    long n_switch = 0, n_events = 0;
    std::unordered_map<void*, VC> sync;
    long live_blocks = 0, live_bytes = 0; size_t largest_req = 0;
    bool verbose = false, want_detail = false;
    long wall_s = 20;
    char* out = nullptr; size_t out_cap = 0;
    Actor* actor(int pid) { for(auto& a : actors) if(a->pid == pid) return a.get(); return nullptr; }
};
extern Run* R;
extern thread_local Task* cur;
struct RtGuard { Task* t; RtGuard() : t(cur) { if(t) t->in_rt++; } ~RtGuard() { if(t) t->in_rt--; } };

std::vector<Scenario>& scenarios();
void sched_point(const char* why, bool sync_op);
bool sut_context();
void deliver_signal();
void sigcheck(void*, size_t);
void race_range(uintptr_t a, size_t n, bool w, uintptr_t pc, bool is_free);
void sut_access(uintptr_t a, size_t n, bool w, uintptr_t pc);
void run_one(const Scenario& sc, uint64_t seed, const Plan* explicit_plan, Run* run);
void kernel_init();
bool from_libunwind(uintptr_t pc);
}
