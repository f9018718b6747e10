// Scheduler, decision log, heap, vector-clock race detector and pthread seams.
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>

#include <execinfo.h>
#include <locale>
#include "rt_int.hpp"
namespace sim {

extern "C" char __executable_start, etext;
Run* R = nullptr;
thread_local Task* cur = nullptr;

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
Register::Register(Scenario s) { scenarios().push_back(s); }

// ------------------------------------------------------------------ helpers
std::string fmt(const char* f, ...) {
    RtGuard g;
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}
uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
static void mix(uint64_t v) { R->hash = (R->hash ^ v) * 1099511628211ull; R->hash ^= R->hash >> 29; }
void mix_str(const char* s) { for(; *s; s++) { R->hash ^= (unsigned char)*s; R->hash *= 1099511628211ull; } mix(0xff); }

void event(const char* f, ...) {
    RtGuard g;
    char buf[2048];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    mix_str(buf);
    R->n_events++;
    if(R->log.size() < 4000) R->log.push_back(std::string("[") + std::to_string(R->step) + " t" + std::to_string(cur ? cur->id : -1) + "] " + buf);
    if(R->verbose) fprintf(stderr, "%s\n", R->log.back().c_str());
}
void stat(const char* name, long n) { RtGuard g; R->stats[name] += n; }
void state(uint64_t h) { RtGuard g; if(R->states.size() < 20000) R->states.insert(h); }

uint64_t steps() { return R->step; }
uint64_t now_us() { return R->now; }
bool is_sim() { return R && R->active && cur; }
int task_id() { return cur ? cur->id : -1; }

static void write_result(const char* cls, const char* msg);
void violation(const char* cls, const char* f, ...) {
    if(cur) cur->in_rt++;
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    write_result(cls, buf);
    _exit(0);
}
void finish_ok() { if(cur) cur->in_rt++; write_result("", ""); _exit(0); }

static void jesc(std::string& out, const std::string& s) {
    out += '"';
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { out += '\\'; out += char(c); }
        else if(c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else out += char(c);
    }
    out += '"';
}
static size_t heap_used();
static void write_result(const char* cls, const char* msg) {
    R->active = false;
    std::string o = "{\"seed\":" + std::to_string(R->seed) + ",\"cls\":";
    jesc(o, cls); o += ",\"msg\":"; jesc(o, msg);
    uint64_t h = R->hash;
    for(auto& d : R->sched) { h = (h ^ (d.first * 31 + uint64_t(d.second) + 7)) * 1099511628211ull; }
    uint64_t ih = h; // interleaving hash (schedule decisions only + events)
    for(auto& d : R->faults) { h = (h ^ hash_str(d.site) ^ (uint64_t(d.n) << 20) ^ uint64_t(d.v)) * 1099511628211ull; }
    h = (h ^ R->step) * 1099511628211ull;
    h ^= hash_str(cls);
    char b[192]; snprintf(b, sizeof b, ",\"hash\":\"%016llx\",\"ih\":\"%016llx\",\"steps\":%llu,\"us\":%llu", (unsigned long long)h, (unsigned long long)ih, (unsigned long long)R->step, (unsigned long long)R->now);
    o += b; o += ",\"heap\":" + std::to_string(heap_used());
    o += ",\"switches\":" + std::to_string(R->n_switch) + ",\"events\":" + std::to_string(R->n_events);
    o += ",\"stats\":{";
    bool first = true;
    for(auto& s : R->stats) { if(!first) o += ','; first = false; jesc(o, s.first); o += ':' + std::to_string(s.second); }
    o += "},\"nstates\":" + std::to_string(R->states.size());
    o += ",\"states\":["; first = true;
    { int k = 0; for(auto s : R->states) { if(k++ >= 64) break; if(!first) o += ','; first = false; o += std::to_string(s & 0xffffffffffffull); } }
    o += "]";
    bool detail = *cls || R->want_detail;
    if(detail) {
        o += ",\"plan\":{\"p\":{"; first = true;
        for(auto& s : R->plan.p) { if(!first) o += ','; first = false; jesc(o, s.first); o += ':' + std::to_string(s.second); }
        o += "},\"ops\":["; first = true;
        for(auto& op : R->plan.ops) { if(!first) o += ','; first = false; o += '['; for(size_t i = 0; i < op.size(); i++) { if(i) o += ','; o += std::to_string(op[i]); } o += ']'; }
        o += "]},\"faults\":["; first = true;
        for(auto& d : R->faults) { if(!first) o += ','; first = false; o += '['; jesc(o, d.site); o += ',' + std::to_string(d.n) + ',' + std::to_string(d.v) + ']'; }
        o += "],\"sched\":["; first = true;
        for(auto& d : R->sched) { if(!first) o += ','; first = false; o += '[' + std::to_string(d.first) + ',' + std::to_string(d.second) + ']'; }
        o += "],\"log\":["; first = true;
        size_t start = R->log.size() > 300 ? R->log.size() - 300 : 0;
        for(size_t i = start; i < R->log.size(); i++) { if(!first) o += ','; first = false; jesc(o, R->log[i]); }
        o += "]";
    }
    o += "}\n";
    if(o.size() > R->out_cap - 8) {
        std::string keep = "{\"seed\":" + std::to_string(R->seed) + ",\"cls\":\"toolarge\",\"msg\":\"result record too large\"}\n";
        o = keep;
    }
    memcpy(R->out + 8, o.data(), o.size());
    *reinterpret_cast<uint64_t*>(R->out) = o.size();
}

// ------------------------------------------------------------------ decisions
void faults_enabled(bool on) { R->faults_paused = !on; }
long fault_count(const char* prefix) {
    RtGuard g; long n = 0; size_t l = strlen(prefix);
    for(auto& f : R->faults) if(f.site.compare(0, l, prefix) == 0) n++;
    return n;
}
long fault(const char* site, int nvals) {
    if(!R || !R->active || R->faults_paused) return 0;
    RtGuard g;
    long n = R->fault_seen[site]++;
    long v = 0;
    if(R->explicit_mode) {
        auto it = R->fault_map.find({site, n});
        if(it != R->fault_map.end()) v = it->second;
        if(v > nvals) v = nvals;
    } else if(!R->faults_off) {
        long rate = R->plan.get(std::string("f.") + site, 0);
        if(rate > 0) {
            Rng r(R->seed ^ hash_str(site) ^ (uint64_t(n) * 0x9E3779B97F4A7C15ull));
            if(r.below(1000) < rate) v = 1 + r.below(nvals);
        }
    }
    if(v) {
        R->faults.push_back({site, n, v});
        R->stats[std::string("fault.") + site]++;
        if(R->log.size() < 4000) R->log.push_back("[" + std::to_string(R->step) + " t" + std::to_string(cur ? cur->id : -1) + "] FAULT " + site + " #" + std::to_string(n) + " = " + std::to_string(v));
        if(R->verbose) fprintf(stderr, "%s\n", R->log.back().c_str());
    }
    return v;
}

// ------------------------------------------------------------------ scheduler
static void futex_wait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void wait_turn(Task* t) {
    while(__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void hand_to(Task* t) {
    R->running = t;
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    futex_wake(&t->go);
}

static bool task_ready(Task* t) {
    if(t->done) return false;
    if(t->block) {
        if(t->wake_at && R->now >= t->wake_at) return true;
        if(t->block_pred && t->block_pred()) return true;
        return false;
    }
    return true;
}

static void reset_preempt() {
    if(R->explicit_mode || R->preempt_mean <= 0) { R->preempt_left = ~0ull; return; }
    R->preempt_left = 1 + R->sched_rng.below(2 * R->preempt_mean);
}

// Core: pick who runs next. cur_ok: the current task may simply continue.
static void schedule(bool cur_ok, bool preempt, const char* why) {
    Task* me = cur;
    for(;;) {
        // candidates
        std::vector<long> cand;
        if(cur_ok) cand.push_back(me->id);
        size_t n = R->tasks.size();
        for(size_t k = 1; k <= n; k++) {
            Task* t = R->tasks[(me->id + k) % n].get();
            if(t == me && (cur_ok || me->done)) continue;
            if(task_ready(t)) cand.push_back(t->id);
        }
        for(auto& a : R->actors) if(!a->done && a->ready()) cand.push_back(1000 + a->pid);
        if(cand.empty()) {
            // advance the clock to the next timed wake-up
            uint64_t best = ~0ull;
            for(auto& t : R->tasks) if(!t->done && t->block && t->wake_at && t->wake_at > R->now) best = std::min(best, t->wake_at);
            for(auto& a : R->actors) if(!a->done && a->wake_at > R->now) best = std::min(best, a->wake_at);
            if(best != ~0ull) { R->now = best; continue; }
            std::string s;
            for(auto& t : R->tasks) if(!t->done) s += fmt("task %d (%s) blocked in %s; ", t->id, t->name.c_str(), t->block_why ? t->block_why : "?");
            for(auto& a : R->actors) if(!a->done) s += fmt("helper process %d waits for %s; ", a->pid, a->waiting_for().c_str());
            violation("deadlock", "no task can make progress: %s", s.c_str());
        }
        long choice = cand[0];
        if(R->explicit_mode) {
            auto it = R->sched_map.find(R->step);
            if(it != R->sched_map.end() && std::find(cand.begin(), cand.end(), it->second) != cand.end()) choice = it->second;
        } else if(!R->sched_off) {
            if(cur_ok) {
                if(preempt && cand.size() > 1) choice = cand[1 + R->sched_rng.below(long(cand.size()) - 1)];
            } else {
                choice = cand[R->sched_rng.below(long(cand.size()))];
            }
        }
        if(choice != cand[0]) R->sched.push_back({R->step, choice});
        if(choice != cand[0] || !cur_ok) R->step++;
        if(choice >= 1000) {
            Actor* a = R->actor(int(choice - 1000));
            R->n_switch++;
            R->now += 1;
            a->step();
            if(cur_ok) return;
            continue;
        }
        Task* t = R->tasks[choice].get();
        if(t == me) { me->block = false; return; }
        R->n_switch++;
        R->stats["preempt"] += cur_ok;
        hand_to(t);
        if(me->done) return;
        wait_turn(me);
        if(cur_ok || task_ready(me)) { me->block = false; return; }
        // we were selected only when ready; being here means a spurious state change, loop
        cur_ok = false;
    }
}

void sched_point(const char* why, bool sync_op) {
    Task* me = cur;
    RtGuard g;
    R->step++;
    R->now += 1;
    if(R->step > R->max_steps) violation("hang", "step bound %llu exceeded (no completion within the bound); last point %s", (unsigned long long)R->max_steps, why);
    bool pre = false;
    if(R->explicit_mode) pre = R->sched_map.count(R->step) != 0;
    else if(!R->sched_off) {
        if(sync_op) pre = R->sched_rng.below(1000) < R->sync_rate;
        else if(--R->preempt_left == 0) { pre = true; reset_preempt(); }
    }
    (void)me;
    if(pre && !me->nopreempt) schedule(true, true, why);
}

void yield_here(const char* why) { if(is_sim()) sched_point(why, true); }

void block_until(std::function<bool()> pred, const char* why) {
    if(!is_sim()) return;
    RtGuard g;
    R->step++;
    if(pred()) { if(!cur->nopreempt) { // a preemption opportunity all the same
            bool pre = R->explicit_mode ? R->sched_map.count(R->step) != 0 : (!R->sched_off && R->sched_rng.below(1000) < R->sync_rate);
            if(pre) { schedule(true, true, why); }
        }
        // re-check after a possible switch
        if(pred()) return;
    }
    cur->block_pred = std::move(pred);
    for(;;) {
        cur->block = true; cur->block_why = why;
        schedule(false, false, why);
        if(cur->block_pred()) break;
    }
    cur->block = false; cur->block_pred = nullptr; cur->block_why = nullptr;
}
void sleep_us(uint64_t us) {
    if(!is_sim()) return;
    RtGuard g;
    uint64_t until = R->now + us;
    cur->wake_at = until; cur->block = true; cur->block_why = "sleep"; cur->block_pred = [until]{ return R->now >= until; };
    schedule(false, false, "sleep");
    cur->block = false; cur->block_pred = nullptr; cur->wake_at = 0; cur->block_why = nullptr;
}

static void* task_entry(void* arg) {
    Task* t = static_cast<Task*>(arg);
    cur = t;
    t->in_rt++;
    t->frame_hi = uintptr_t(__builtin_frame_address(0));
    stack_t ss{}; ss.ss_sp = t->sigstack; ss.ss_size = sizeof t->sigstack; sigaltstack(&ss, nullptr);
    __atomic_store_n(&t->started, 1, __ATOMIC_RELEASE);
    futex_wake(&t->started);
    wait_turn(t);
    t->in_rt--;
    t->body();
    {
        t->in_rt++;
        if(t->in_sut) violation("harness", "task ended in SUT context");
        if(t->proc != 0) violation("child-escape", "a forked child of the library returned into the caller's code");
        t->end_vc = t->vc;
        t->done = true;
        // hand over: never returns control to us
        schedule(false, false, "exit");
    }
    // park forever (the run process exits as a whole)
    for(;;) pause();
    return nullptr;
}

static constexpr size_t kStack = 1 << 20;
static uintptr_t next_stack = 0x21000000000ull;

int spawn(std::function<void()> body, const char* name) {
    RtGuard g;
    auto t = std::unique_ptr<Task>(new Task);
    Task* tp = t.get();
    tp->id = int(R->tasks.size());
    if(tp->id >= kMaxTasks) violation("harness", "too many tasks");
    tp->name = name; tp->body = std::move(body);
    tp->vc = cur->vc; tp->vc[tp->id]++; cur->vc[cur->id]++;
    R->tasks.push_back(std::move(t));
    size_t sz = size_t(R->plan.get("stack_kb", 1024)) * 1024;
    void* st = mmap((void*)next_stack, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(st == MAP_FAILED) violation("harness", "stack mmap");
    next_stack += sz + (16 << 20);
    tp->stack_lo = uintptr_t(st); tp->stack_hi = uintptr_t(st) + sz;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, sz);
    pthread_t th;
    if(pthread_create(&th, &at, task_entry, tp) != 0) violation("harness", "pthread_create");
    while(__atomic_load_n(&tp->started, __ATOMIC_ACQUIRE) == 0) futex_wait(&tp->started, 0);
    return tp->id;
}
void join_all() {
    for(size_t i = 0; i < R->tasks.size(); i++) {
        if(R->tasks[i].get() == cur) continue;
        Task* t = R->tasks[i].get();
        block_until([t]{ return t->done; }, "join");
        RtGuard g;
        cur->vc.join(t->end_vc);
    }
}

// ------------------------------------------------------------------ happens-before
void hb_release(void* key) { RtGuard g; R->sync[key].join(cur->vc); cur->vc[cur->id]++; }
void hb_acquire(void* key) { RtGuard g; auto it = R->sync.find(key); if(it != R->sync.end()) cur->vc.join(it->second); }
void Event::signal() { hb_release(this); set = true; yield_here("event.signal"); }
void Event::wait() { block_until([this]{ return set; }, "event.wait"); hb_acquire(this); }

// ------------------------------------------------------------------ SUT context
Sut::Sut() { saved = cur ? cur->in_sut : 0; if(cur) cur->in_sut = 1; }
Sut::~Sut() {
    if(cur) {
        if(cur->proc != 0) violation("child-escape", "a forked child of the library returned into the caller's code");
        cur->in_sut = saved;
    }
}
Harness::Harness() { saved = cur ? cur->in_sut : 0; if(cur) cur->in_sut = 0; }
Harness::~Harness() { if(cur) cur->in_sut = saved; }

// ------------------------------------------------------------------ heap
static thread_local uintptr_t seam_ra;
static constexpr uintptr_t kArena = 0x20000000000ull;
static constexpr size_t kArenaSize = 1024ull << 20;
static uintptr_t arena_next = kArena + 64;
static size_t heap_used() { return arena_next - kArena; }
static uint8_t* wstate = nullptr;   // per word: 0 unusable, 1..8 live bytes, 0xFD freed
static Cell* wcells = nullptr;      // race cells for arena words

struct BlockHdr { size_t size; uint32_t magic; uint32_t sut; };
static constexpr uint32_t kLive = 0xA110C8ED, kFreed = 0xF4EEDB10;

void heap_init() {
    void* p = mmap((void*)kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(p == MAP_FAILED) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
    wstate = (uint8_t*)mmap(nullptr, kArenaSize / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    wcells = (Cell*)mmap(nullptr, kArenaSize / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static inline bool in_arena(uintptr_t a) { return a >= kArena && a < kArena + kArenaSize; }
bool is_sut_heap(const void* p) { return in_arena(uintptr_t(p)); }
bool is_live_block(const void* p) {
    uintptr_t a = uintptr_t(p);
    if(!in_arena(a)) return false;
    auto* h = reinterpret_cast<BlockHdr*>(a - sizeof(BlockHdr));
    return h->magic == kLive;
}
static void* arena_alloc(size_t n, size_t align, bool sut) {
    if(n > (16u << 20)) return nullptr;      // a request this large fails like any other failing allocation
    uintptr_t a = arena_next + sizeof(BlockHdr) + 16;
    a = (a + align - 1) & ~(align - 1);
    uintptr_t end = a + ((n + 7) & ~size_t(7)) + 16;
    if(end > kArena + kArenaSize) { RtGuard g; violation("heap-exhausted", "the simulated heap (1 GiB per run) is exhausted"); }
    arena_next = end;
    auto* h = reinterpret_cast<BlockHdr*>(a - sizeof(BlockHdr));
    h->size = n; h->magic = kLive; h->sut = sut;
    size_t words = (n + 7) / 8, w0 = (a - kArena) / 8;
    if(words) {
        memset(wstate + w0, 8, words);
        if(n % 8) wstate[w0 + words - 1] = uint8_t(n % 8);
    }
    memset((void*)a, 0xCB, n);   // uninitialised memory is recognisable, deterministic
    if(sut) { R->live_blocks++; R->live_bytes += long(n); }
    return (void*)a;
}
static void arena_free(void* p, const char* what) {
    uintptr_t a = uintptr_t(p);
    auto* h = reinterpret_cast<BlockHdr*>(a - sizeof(BlockHdr));
    if(h->magic == kFreed) { RtGuard g; violation("double-free", "%s of an already freed block of %zu bytes", what, h->size); }
    if(h->magic != kLive) { RtGuard g; violation("bad-free", "%s of a pointer that is not the start of a block", what); }
    if(!R->active) return;
    h->magic = kFreed;
    size_t words = (h->size + 7) / 8, w0 = (a - kArena) / 8;
    if(cur) {
        uintptr_t pc = uintptr_t(__builtin_return_address(0));
        race_range(a, h->size, true, pc, true);
    }
    memset(wstate + w0, 0xFD, words);
    memset(p, 0xDD, h->size);
    if(h->sut) { R->live_blocks--; R->live_bytes -= long(h->size); }
}
Mem live() { return {R->live_blocks, R->live_bytes}; }

static inline bool sut_ctx() { return R && R->active && cur && cur->in_sut && !cur->in_rt; }
bool sut_context() { return sut_ctx(); }

void arm_alloc(long nth, long count) { cur->alloc_n = 0; cur->alloc_fail_at = nth; cur->alloc_fail_count = count; cur->alloc_failed = 0; }
long disarm_alloc() { cur->alloc_fail_at = 0; long f = cur->alloc_failed; cur->alloc_failed = 0; if(f) stat("fault.alloc", f); return f; }
long sut_allocs() { return cur->alloc_n; }
void reset_sut_allocs() { cur->alloc_n = 0; }

static bool alloc_should_fail() {
    Task* t = cur;
    if(t->in_signal && !from_libunwind(seam_ra)) { RtGuard g; violation("signal-alloc", "memory allocated inside signal-safe tracing"); }
    if(t->proc != 0) { RtGuard g; R->stats["child_alloc"]++; }
    t->alloc_n++;
    if(t->alloc_fail_at && t->alloc_n >= t->alloc_fail_at && t->alloc_n < t->alloc_fail_at + t->alloc_fail_count) {
        t->alloc_failed++;
        return true;
    }
    return false;
}
static void* sut_malloc(size_t n, size_t align) {
    if(alloc_should_fail()) return nullptr;
    sched_point("alloc", false);
    if(n > R->largest_req) R->largest_req = n;
    return arena_alloc(n, align, true);
}
size_t largest_request() { return R->largest_req; }
void reset_largest_request() { R->largest_req = 0; }
// allocations of the harness during a run: same arena (no address reuse), but never failed or counted
static bool harness_ctx() { return R && R->active && cur && !cur->in_sut && !cur->in_rt; }

// ------------------------------------------------------------------ races and heap checks
struct GCell { Cell c; };
static std::unordered_map<uintptr_t, Cell>& gcells() { static auto* m = new std::unordered_map<uintptr_t, Cell>(); return *m; }

static void report_race(uintptr_t addr, const Rec& r, bool w, uintptr_t pc, bool is_free) {
    RtGuard g;
    const char* region = in_arena(addr) ? "heap" : "static";
    violation("race", "data race on %s memory: %s by task %d at pc 0x%lx and earlier %s by task %d at pc 0x%lx are not ordered",
        region, is_free ? "free" : (w ? "write" : "read"), cur->id, (unsigned long)pc, r.write ? "write" : "read", int(r.tid), (unsigned long)r.pc);
}
static inline void race_word(uintptr_t word, uint8_t mask, bool w, bool atomic, uintptr_t pc, bool is_free) {
    Cell* c;
    if(in_arena(word)) c = &wcells[(word - kArena) / 8];
    else { RtGuard g; c = &gcells()[word]; }
    Task* t = cur;
    int slot = -1, empty = -1;
    for(int i = 0; i < kRecs; i++) {
        Rec& r = c->r[i];
        if(!r.valid) { if(empty < 0) empty = i; continue; }
        if(r.tid == t->id) {
            if(r.mask == mask && r.write == w && r.atomic == atomic) slot = i;
            continue;
        }
        if(!(r.mask & mask)) continue;
        if(!w && !r.write) continue;
        if(atomic && r.atomic) continue;
        if(r.clk > t->vc[r.tid]) report_race(word, r, w, pc, is_free);
    }
    if(slot < 0) slot = empty;
    if(slot < 0) slot = int(R->step % kRecs);
    Rec& r = c->r[slot];
    r.valid = 1; r.tid = uint8_t(t->id); r.mask = mask; r.write = w; r.atomic = atomic; r.clk = t->vc[t->id]; r.pc = uint32_t(pc);
}
// libstdc++ fills the narrow/widen caches of the classic character facet lazily and without synchronisation, by design; the code is
// inlined from its headers into the library's regular expressions
static bool libstdcxx_cache(uintptr_t a) {
    static const uintptr_t lo = uintptr_t(&std::use_facet<std::ctype<char>>(std::locale::classic())), hi = lo + sizeof(std::ctype<char>);
    return a >= lo && a < hi;
}
void race_range(uintptr_t a, size_t n, bool w, uintptr_t pc, bool is_free) {
    if(R->tasks.size() < 2 || libstdcxx_cache(a)) return;
    uintptr_t end = a + n;
    for(uintptr_t wd = a & ~uintptr_t(7); wd < end; wd += 8) {
        uint8_t mask = 0xff;
        if(wd < a) mask &= uint8_t(0xff << (a - wd));
        if(wd + 8 > end) mask &= uint8_t(0xff >> (wd + 8 - end));
        race_word(wd, mask, w, false, pc, is_free);
    }
}
static bool on_stack(uintptr_t a) {
    for(auto& t : R->tasks) if(a >= t->stack_lo && a < t->stack_hi) return true;
    return false;
}
static void heap_check(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if(!in_arena(a)) return;
    uintptr_t end = a + n;
    for(uintptr_t wd = a & ~uintptr_t(7); wd < end; wd += 8) {
        uint8_t s = wstate[(wd - kArena) / 8];
        if(s == 8) continue;
        if(s == 0xFD) { RtGuard g; violation("use-after-free", "%s of freed heap memory at pc 0x%lx", w ? "write" : "read", (unsigned long)pc); }
        uintptr_t hi = std::min(end, wd + 8);
        if(s == 0 || hi > wd + s) { RtGuard g; violation("heap-overflow", "%s outside any heap block at pc 0x%lx", w ? "write" : "read", (unsigned long)pc); }
    }
}

void check_signal_write(uintptr_t a, size_t n, uintptr_t pc) {
    Task* t = cur;
    if(a >= t->stack_lo && a < t->stack_hi) return;
    for(auto& r : t->sig_allowed) if(a >= r.first && a + n <= r.second) return;
    RtGuard g;
    violation("signal-write", "signal-safe tracing wrote outside its stack and the buffers it was given, at pc 0x%lx", (unsigned long)pc);
}

void sigcheck(void* p, size_t n) { check_signal_write(uintptr_t(p), n, 0); }
// static data the code under test has changed with plain writes: an interrupted change may be half done, a handler must not look at it
static std::unordered_set<uintptr_t>& dirty_static() { static auto* m = new std::unordered_set<uintptr_t>(); return *m; }
extern "C" char __data_start, _end;
static inline bool in_static(uintptr_t a) { return a >= uintptr_t(&__data_start) && a < uintptr_t(&_end); }
static void signal_shared(Task* t, uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if(!in_static(a)) {
        if(t->in_signal && !w && in_arena(a)) { for(auto& r : t->sig_allowed) if(a >= r.first && a + n <= r.second) return; RtGuard g; violation("signal-shared", "signal-safe tracing read heap memory it was not given, at pc 0x%lx", (unsigned long)pc); }
        return;
    }
    if(w) { if(!t->in_signal) { RtGuard g; for(uintptr_t d = a & ~uintptr_t(7); d < a + n; d += 8) dirty_static().insert(d); } return; }
    if(!t->in_signal || from_libunwind(pc)) return;
    RtGuard g;
    for(uintptr_t d = a & ~uintptr_t(7); d < a + n; d += 8) if(dirty_static().count(d)) violation("signal-shared", "signal-safe tracing read state that the library changes with plain writes, at pc 0x%lx", (unsigned long)pc);
}
static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if(!sut_ctx()) return;
    Task* t = cur;
    if(t->sig_left && !t->in_signal && t->proc == 0 && --t->sig_left == 0) deliver_signal();
    sched_point("mem", false);
    if(t->in_signal && w) check_signal_write(a, n, pc);
    if(on_stack(a)) return;
    if(a < 4096) return;
    if(t->sig_use) signal_shared(t, a, n, w, pc);
    heap_check(a, n, w, pc);
    if(R->tasks.size() > 1) race_range(a, n, w, pc, false);
}
void sut_access(uintptr_t a, size_t n, bool w, uintptr_t pc) { access(a, n, w, pc); }

void deliver_signal() {
    Task* t = cur;
    RtGuard g;
    t->sig_fired = true;
    R->stats["signals"]++;
    auto h = t->sig_handler;
    t->in_signal = true;
    int in_rt = t->in_rt; t->in_rt = 0;
    int errno_save = errno;
    int sut = t->in_sut; t->in_sut = 0;
    h();
    t->in_sut = sut;
    errno = errno_save;
    t->in_rt = in_rt;
    t->in_signal = false;
}
void arm_signal(long nth, std::function<void()> handler) { RtGuard g; cur->sig_left = cur->sig_armed = nth; cur->sig_use = true; cur->sig_handler = std::move(handler); cur->sig_fired = false; cur->sig_allowed.clear(); }
long signal_instants() { return cur->sig_armed - cur->sig_left; }
bool disarm_signal() { cur->sig_left = 0; return cur->sig_fired; }
void signal_allow_write(const void* p, size_t n) { RtGuard g; cur->sig_allowed.push_back({uintptr_t(p), uintptr_t(p) + n}); }
SignalGuard::SignalGuard() { cur->in_signal = true; }
SignalGuard::~SignalGuard() { cur->in_signal = false; cur->sig_allowed.clear(); }

// atomics
static void atomic_access(uintptr_t a, size_t n, bool w, int mo, bool is_rmw, uintptr_t pc) {
    if(!sut_ctx()) return;
    Task* t = cur;
    if(t->sig_left && !t->in_signal && t->proc == 0 && --t->sig_left == 0) deliver_signal();
    sched_point("atomic", true);
    if(t->in_signal && w) check_signal_write(a, n, pc);
    if(on_stack(a)) return;
    heap_check(a, n, w, pc);
    if(R->tasks.size() < 2) return;
    uint8_t mask = uint8_t(((1u << n) - 1) << (a & 7));
    race_word(a & ~uintptr_t(7), mask, w, true, pc, false);
    RtGuard g;
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if((!w || is_rmw) && acq) { auto it = R->sync.find((void*)a); if(it != R->sync.end()) t->vc.join(it->second); }
    if(w) {
        if(rel) { VC& s = R->sync[(void*)a]; if(!is_rmw) s = t->vc; else s.join(t->vc); t->vc[t->id]++; }
        else if(!is_rmw) R->sync.erase((void*)a);
    }
}

// ------------------------------------------------------------------ mutexes etc. (simulated for SUT context)
struct SimMutex { int owner = -1; int depth = 0; };
struct SimRw { int writer = -1; int readers = 0; };
static std::unordered_map<void*, SimMutex>& mutexes() { static auto* m = new std::unordered_map<void*, SimMutex>(); return *m; }
static std::unordered_map<void*, SimRw>& rwlocks() { static auto* m = new std::unordered_map<void*, SimRw>(); return *m; }

#define SIGRA uintptr_t(__builtin_return_address(0))
static void sig_nolock() { if(cur->in_signal && !from_libunwind(seam_ra)) violation("signal-lock", "lock taken inside signal-safe tracing"); }
static void child_nolock(const char* what, int owner) {
    if(cur->proc != 0 && owner != -1) violation("child-deadlock", "forked child blocks forever on %s held by a thread of the parent", what);
}

int mutex_lock(pthread_mutex_t* m) {
    RtGuard g;
    sig_nolock();
    sched_point("mutex_lock", true);
    SimMutex& s = mutexes()[m];
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if(s.owner == cur->id) {
        if(recursive) { s.depth++; return 0; }
        violation("self-deadlock", "task %d locks a mutex it already holds", cur->id);
    }
    child_nolock("a mutex", s.owner);
    if(s.owner != -1) { R->stats["lock_contended"]++; SimMutex* sp = &s; block_until([sp]{ return sp->owner == -1; }, "mutex_lock"); }
    s.owner = cur->id; s.depth = 1;
    hb_acquire(m);
    cur->held++;
    return 0;
}
int mutex_trylock(pthread_mutex_t* m) {
    RtGuard g;
    sig_nolock();
    sched_point("mutex_trylock", true);
    SimMutex& s = mutexes()[m];
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if(s.owner == cur->id && recursive) { s.depth++; return 0; }
    if(s.owner != -1) return EBUSY;
    s.owner = cur->id; s.depth = 1;
    hb_acquire(m);
    cur->held++;
    return 0;
}
int mutex_unlock(pthread_mutex_t* m) {
    RtGuard g;
    SimMutex& s = mutexes()[m];
    if(s.owner != cur->id) violation("bad-unlock", "task %d unlocks a mutex it does not hold", cur->id);
    if(--s.depth > 0) return 0;
    hb_release(m);
    s.owner = -1;
    cur->held--;
    sched_point("mutex_unlock", true);
    return 0;
}
int rw_rdlock(void* l, bool tr) {
    RtGuard g; sig_nolock(); sched_point("rdlock", true);
    SimRw& s = rwlocks()[l]; SimRw* sp = &s;
    if(s.writer != -1) { if(tr) return EBUSY; if(s.writer == cur->id) violation("self-deadlock", "read lock while holding write lock"); child_nolock("a rwlock", s.writer); block_until([sp]{ return sp->writer == -1; }, "rdlock"); }
    s.readers++; hb_acquire(l); return 0;
}
int rw_wrlock(void* l, bool tr) {
    RtGuard g; sig_nolock(); sched_point("wrlock", true);
    SimRw& s = rwlocks()[l]; SimRw* sp = &s;
    if(s.writer != -1 || s.readers) { if(tr) return EBUSY; child_nolock("a rwlock", s.writer); block_until([sp]{ return sp->writer == -1 && sp->readers == 0; }, "wrlock"); }
    s.writer = cur->id; hb_acquire(l); hb_acquire((char*)l + 1); return 0;
}
int rw_unlock(void* l) {
    RtGuard g;
    SimRw& s = rwlocks()[l];
    if(s.writer == cur->id) { s.writer = -1; hb_release(l); hb_release((char*)l + 1); }
    else { if(s.readers <= 0) violation("bad-unlock", "rwlock unlock without lock"); s.readers--; hb_release((char*)l + 1); }
    sched_point("rw_unlock", true);
    return 0;
}
// guards for function-local statics
struct SimGuardVar { int owner = -1; };
static std::unordered_map<void*, SimGuardVar>& gvars() { static auto* m = new std::unordered_map<void*, SimGuardVar>(); return *m; }
int guard_acquire(uint8_t* gv) {
    RtGuard g;
    sig_nolock();
    sched_point("guard_acquire", true);
    SimGuardVar& s = gvars()[gv]; SimGuardVar* sp = &s;
    for(;;) {
        if(__atomic_load_n(gv, __ATOMIC_ACQUIRE)) { hb_acquire(gv); return 0; }
        if(s.owner == -1) { s.owner = cur->id; hb_acquire(gv); return 1; }
        if(s.owner == cur->id) violation("static-init-recursion", "recursive initialisation of a function-local static");
        child_nolock("a static initialiser", s.owner);
        R->stats["guard_contended"]++;
        block_until([sp]{ return sp->owner == -1; }, "static initialiser");
    }
}
void guard_release(uint8_t* gv) {
    RtGuard g;
    __atomic_store_n(gv, 1, __ATOMIC_RELEASE);
    hb_release(gv);
    gvars()[gv].owner = -1;
    sched_point("guard_release", true);
}
void guard_abort(uint8_t* gv) {
    RtGuard g;
    R->stats["guard_abort"]++;
    hb_release(gv);
    gvars()[gv].owner = -1;
    sched_point("guard_abort", true);
}
static std::unordered_map<void*, int>& onces() { static auto* m = new std::unordered_map<void*, int>(); return *m; }
int once(void* ctl, void (*fn)()) {
    {
        RtGuard g;
        sched_point("once", true);
        int* st = &onces()[ctl];
        if(*static_cast<int*>(ctl) == 2) *st = 2; // completed before the run
        while(*st == 1) block_until([st]{ return *st != 1; }, "once");
        if(*st == 2) { hb_acquire(ctl); return 0; }
        *st = 1; hb_acquire(ctl);
    }
    try { fn(); } catch(...) { RtGuard g; onces()[ctl] = 0; hb_release(ctl); throw; }
    RtGuard g; onces()[ctl] = 2; *static_cast<int*>(ctl) = 2; hb_release(ctl);
    sched_point("once_done", true);
    return 0;
}
// condition variables
struct SimCond { std::vector<int> waiters; std::vector<int> woken; };
static std::unordered_map<void*, SimCond>& conds() { static auto* m = new std::unordered_map<void*, SimCond>(); return *m; }
int cond_wait(void* c, pthread_mutex_t* m) {
    RtGuard g;
    SimCond* s = &conds()[c]; int id = cur->id;
    s->waiters.push_back(id);
    mutex_unlock(m);
    block_until([s, id]{ return std::find(s->woken.begin(), s->woken.end(), id) != s->woken.end(); }, "cond_wait");
    s->woken.erase(std::find(s->woken.begin(), s->woken.end(), id));
    hb_acquire(c);
    mutex_lock(m);
    return 0;
}
int cond_signal(void* c, bool all) {
    RtGuard g;
    SimCond& s = conds()[c];
    hb_release(c);
    while(!s.waiters.empty()) { s.woken.push_back(s.waiters.front()); s.waiters.erase(s.waiters.begin()); if(!all) break; }
    sched_point("cond_signal", true);
    return 0;
}

// ------------------------------------------------------------------ run control
static std::function<void(int)> abort_cb;
void set_abort_ok(std::function<void(int)> f) { RtGuard g; abort_cb = std::move(f); }

static void crash_handler(int sig, siginfo_t* si, void* uc) {
    if(!R || !R->active) { _exit(90); }
    if(cur) cur->in_rt++;
    if(sig == SIGABRT && abort_cb) {
        auto cb = abort_cb; abort_cb = nullptr;
        if(cur) { cur->in_sut = 0; cur->in_rt = 0; }
        cb(sig);
        finish_ok();
    }
    auto* u = static_cast<ucontext_t*>(uc);
    uintptr_t pc = uintptr_t(u->uc_mcontext.gregs[REG_RIP]);
    if(sig == SIGPROF) violation("hang", "the run used up its processor-time guard: a loop without a simulated step");
    if(sig == SIGALRM) violation("stuck", "the run made no progress in real time (a real blocking call?); pc 0x%lx", pc < 0x10000000 ? (unsigned long)pc : 0ul);
    Dl_info di{};
    const char* where = "?";
    if(dladdr((void*)pc, &di) && di.dli_fname) { where = strrchr(di.dli_fname, '/') ? strrchr(di.dli_fname, '/') + 1 : di.dli_fname; }
    uintptr_t sp = uintptr_t(u->uc_mcontext.gregs[REG_RSP]);
    unsigned long ra = 0;
    // first return address into the executable, for a readable report
    for(int i = 0; i < 2048 && cur && sp + i * 8 < cur->stack_hi; i++) { uintptr_t v = ((uintptr_t*)sp)[i]; if(v > uintptr_t(&__executable_start) && v < uintptr_t(&etext)) { ra = v; break; } }
    violation("crash", "signal %d at pc 0x%lx in %s (task %d, SUT %d, fault address %s, first return address in executable 0x%lx)", sig, pc < 0x10000000 ? (unsigned long)pc : 0ul, where,
        cur ? cur->id : -1, cur ? cur->in_sut : -1, uintptr_t(si->si_addr) < 4096 ? "near null" : "elsewhere", ra);
}
static void on_terminate() {
    if(!R || !R->active) _exit(91);
    if(cur) cur->in_rt++;
    std::string what = "no active exception";
    if(auto p = std::current_exception()) {
        try { std::rethrow_exception(p); }
        catch(const std::exception& e) { what = e.what(); }
        catch(...) { what = "non-standard exception"; }
    }
    violation("terminate", "std::terminate called (task %d): %s", cur ? cur->id : -1, what.c_str());
}

void run_one(const Scenario& sc, uint64_t seed, const Plan* explicit_plan, Run* run) {
    R = run;
    Task* main = new Task;
    main->id = 0; main->name = "main"; main->vc[0] = 1;
    pthread_attr_t at; pthread_getattr_np(pthread_self(), &at);
    void* sa; size_t ss; pthread_attr_getstack(&at, &sa, &ss);
    main->stack_lo = uintptr_t(sa); main->stack_hi = uintptr_t(sa) + ss;
    cur = main; main->in_rt = 1;
    main->frame_hi = uintptr_t(__builtin_frame_address(0));
    R->tasks.emplace_back(main);
    R->running = main;
    stack_t st{}; st.ss_sp = main->sigstack; st.ss_size = sizeof main->sigstack; sigaltstack(&st, nullptr);
    struct sigaction act{};
    act.sa_sigaction = crash_handler; act.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGPROF}) sigaction(s, &act, nullptr);
    std::set_terminate(on_terminate);
    alarm(unsigned(R->wall_s * 5));
    { void* b[4]; backtrace(b, 4); }   // glibc loads the unwinder once, under locks of its own that a run must not be preempted in
    struct itimerval itv{}; itv.it_value.tv_sec = R->wall_s; setitimer(ITIMER_PROF, &itv, nullptr);
    if(explicit_plan) R->plan = *explicit_plan;
    else { Rng r(seed); sc.gen(r, R->plan); Rng r2(seed ^ 0x5eed);
        // scheduling style varies per run (swarm)
        static const long means[] = {30, 100, 300, 1000, 4000, 20000};
        if(!R->plan.p.count("sched.mean")) R->plan.p["sched.mean"] = means[r2.below(6)];
        if(!R->plan.p.count("sched.sync")) R->plan.p["sched.sync"] = std::vector<long>{20, 100, 300, 500}[r2.below(4)];
    }
    R->preempt_mean = R->plan.get("sched.mean", 0);
    R->sync_rate = R->plan.get("sched.sync", 0);
    R->sched_rng = Rng(seed ^ 0xABCDEF12345ull);
    R->max_steps = uint64_t(R->plan.get("max_steps", 30000000));
    reset_preempt();
    heap_init();
    kernel_init();
    R->active = true;
    main->in_rt = 0;
    sc.exec(R->plan);
    main->in_rt = 1;
    if(main->in_sut) violation("harness", "scenario ended in SUT context");
    finish_ok();
}

} // namespace sim

// ====================================================================== seams
using namespace sim;
template<class F> static F real_sym(const char* name) {
    static_assert(sizeof(F) == sizeof(void*), "");
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name) static auto real_##name = real_sym<decltype(&name)>(#name)

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);

void* malloc(size_t n) { seam_ra = SIGRA; if(sut_context()) { void* p = sut_malloc(n, 16); if(!p) errno = ENOMEM; return p; } if(harness_ctx()) return arena_alloc(n, 16, false); return __libc_malloc(n); }
void free(void* p) {
    if(p && is_sut_heap(p)) {
        if(sut_context()) { if(cur->in_signal) { RtGuard g; violation("signal-alloc", "memory freed inside signal-safe tracing"); } sched_point("free", false); }
        arena_free(p, "free"); return;
    }
    __libc_free(p);
}
void* calloc(size_t a, size_t b) { seam_ra = SIGRA; if(sut_context()) { void* p = sut_malloc(a * b, 16); if(p) memset(p, 0, a * b); else errno = ENOMEM; return p; } if(harness_ctx()) { void* p = arena_alloc(a * b, 16, false); if(p) memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) {
    if(p && is_sut_heap(p)) {
        size_t old = reinterpret_cast<BlockHdr*>(uintptr_t(p) - sizeof(BlockHdr))->size;
        void* q = malloc(n);
        if(!q) return nullptr;
        memcpy(q, p, old < n ? old : n);
        free(p);
        return q;
    }
    if(!p) return malloc(n);
    return __libc_realloc(p, n);
}
int posix_memalign(void** out, size_t al, size_t n) {
    if(sut_context()) { void* p = sut_malloc(n, al); if(!p) return ENOMEM; *out = p; return 0; }
    void* p = __libc_memalign(al, n); if(!p) return ENOMEM; *out = p; return 0;
}
void* aligned_alloc(size_t al, size_t n) { if(sut_context()) return sut_malloc(n, al); return __libc_memalign(al, n); }
}
static void* new_impl(size_t n, size_t al, bool nothrow) {
    void* p;
    seam_ra = 0;
    if(sut_context()) p = sut_malloc(n, al);
    else if(harness_ctx()) p = arena_alloc(n, al, false);
    else p = al > 16 ? __libc_memalign(al, n ? n : 1) : __libc_malloc(n ? n : 1);
    if(!p && !nothrow) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return new_impl(n, 16, false); }
void* operator new[](size_t n) { return new_impl(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void* operator new(size_t n, std::align_val_t al) { return new_impl(n, size_t(al), false); }
void* operator new[](size_t n, std::align_val_t al) { return new_impl(n, size_t(al), false); }
static void del_impl(void* p) {
    if(!p) return;
    if(is_sut_heap(p)) {
        if(sut_context()) { if(cur->in_signal) { RtGuard g; violation("signal-alloc", "memory freed inside signal-safe tracing"); } sched_point("delete", false); }
        arena_free(p, "delete");
    } else __libc_free(p);
}
void operator delete(void* p) noexcept { del_impl(p); }
void operator delete[](void* p) noexcept { del_impl(p); }
void operator delete(void* p, size_t) noexcept { del_impl(p); }
void operator delete[](void* p, size_t) noexcept { del_impl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p); }
void operator delete(void* p, std::align_val_t) noexcept { del_impl(p); }
void operator delete[](void* p, std::align_val_t) noexcept { del_impl(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del_impl(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del_impl(p); }

extern "C" {
// libunwind's own locks are simulated for the harness too: it throws exceptions through the same library
static bool lk_context() { return sut_context() || (harness_ctx() && from_libunwind(seam_ra)); }
int pthread_mutex_lock(pthread_mutex_t* m) { seam_ra = SIGRA; if(lk_context()) return mutex_lock(m); REAL(pthread_mutex_lock); return real_pthread_mutex_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { seam_ra = SIGRA; if(lk_context()) return mutex_trylock(m); REAL(pthread_mutex_trylock); return real_pthread_mutex_trylock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { seam_ra = SIGRA; if(lk_context()) return mutex_unlock(m); REAL(pthread_mutex_unlock); return real_pthread_mutex_unlock(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { seam_ra = SIGRA; if(lk_context()) return rw_rdlock(l, false); REAL(pthread_rwlock_rdlock); return real_pthread_rwlock_rdlock(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { seam_ra = SIGRA; if(lk_context()) return rw_wrlock(l, false); REAL(pthread_rwlock_wrlock); return real_pthread_rwlock_wrlock(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { seam_ra = SIGRA; if(lk_context()) return rw_rdlock(l, true); REAL(pthread_rwlock_tryrdlock); return real_pthread_rwlock_tryrdlock(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { seam_ra = SIGRA; if(lk_context()) return rw_wrlock(l, true); REAL(pthread_rwlock_trywrlock); return real_pthread_rwlock_trywrlock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { seam_ra = SIGRA; if(lk_context()) return rw_unlock(l); REAL(pthread_rwlock_unlock); return real_pthread_rwlock_unlock(l); }
int pthread_once(pthread_once_t* c, void (*fn)(void)) { seam_ra = SIGRA; if(lk_context()) return once(c, fn); REAL(pthread_once); return real_pthread_once(c, fn); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if(sut_context()) return cond_wait(c, m); REAL(pthread_cond_wait); return real_pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t* c) { if(sut_context()) return cond_signal(c, false); REAL(pthread_cond_signal); return real_pthread_cond_signal(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { if(sut_context()) return cond_signal(c, true); REAL(pthread_cond_broadcast); return real_pthread_cond_broadcast(c); }

// Registering the destructor of a thread-local object allocates, and the C library itself ends the program when that fails.
// Only runs that ask for it ("tls_oom") let such an allocation fail.
int __cxa_thread_atexit(void (*d)(void*), void* obj, void* dso) {
    static auto real = real_sym<int(*)(void(*)(void*), void*, void*)>("__cxa_thread_atexit");
    if(!sut_context()) return real(d, obj, dso);
    Task* t = cur; long at = t->alloc_fail_at, n = t->alloc_n;
    if(at && n + 1 >= at && n + 1 < at + t->alloc_fail_count && R->plan.get("tls_oom", 0))
        { RtGuard g; violation("tls-abort", "the first use of a thread-local trace on a thread could not be registered for want of memory: the C library ends the program"); }
    t->alloc_fail_at = 0;
    int r = real(d, obj, dso);
    t->alloc_fail_at = at; t->alloc_n = n;
    return r;
}
int __cxa_guard_acquire(long long* g) {
    seam_ra = SIGRA;
    uint8_t* b = reinterpret_cast<uint8_t*>(g);
    if(sut_context()) return guard_acquire(b);
    // outside the simulated context statics are initialised by one thread at a time (tasks are serialised)
    return __atomic_load_n(b, __ATOMIC_ACQUIRE) ? 0 : 1;
}
void __cxa_guard_release(long long* g) {
    uint8_t* b = reinterpret_cast<uint8_t*>(g);
    if(sut_context()) { guard_release(b); return; }
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    if(is_sim()) hb_release(b);
}
void __cxa_guard_abort(long long* g) { if(sut_context()) guard_abort(reinterpret_cast<uint8_t*>(g)); }

// ---------------------------------------------------------------- compiler instrumentation entry points
#define RA uintptr_t(__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { sut_access(uintptr_t(p), n, false, RA); } \
    void __tsan_write##n(void* p) { sut_access(uintptr_t(p), n, true, RA); } \
    void __tsan_unaligned_read##n(void* p) { sut_access(uintptr_t(p), n, false, RA); } \
    void __tsan_unaligned_write##n(void* p) { sut_access(uintptr_t(p), n, true, RA); } \
    void __tsan_volatile_read##n(void* p) { sut_access(uintptr_t(p), n, false, RA); } \
    void __tsan_volatile_write##n(void* p) { sut_access(uintptr_t(p), n, true, RA); } \
    void __tsan_read_write##n(void* p) { sut_access(uintptr_t(p), n, true, RA); } \
    void __tsan_unaligned_read_write##n(void* p) { sut_access(uintptr_t(p), n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if(n) sut_access(uintptr_t(p), n, false, RA); }
void __tsan_write_range(void* p, size_t n) { if(n) sut_access(uintptr_t(p), n, true, RA); }
void __tsan_vptr_update(void** p, void*) { sut_access(uintptr_t(p), 8, true, RA); }
void __tsan_vptr_read(void** p) { sut_access(uintptr_t(p), 8, false, RA); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { atomic_access(uintptr_t(a), sizeof(T), false, mo, false, RA); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, false, RA); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, true, RA); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, true, RA); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, true, RA); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, true, RA); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, true, RA); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, true, RA); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, true, RA); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, true, RA); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { atomic_access(uintptr_t(a), sizeof(T), true, mo, true, RA); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if(sut_context()) sched_point("fence", true); }
void __tsan_atomic_signal_fence(int) {}

// block memory operations of instrumented objects (linked with --wrap)
void* __real_memmove(void*, const void*, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if(n && sut_context()) { sut_access(uintptr_t(s), n, false, RA); sut_access(uintptr_t(d), n, true, RA); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if(n && sut_context()) { sut_access(uintptr_t(s), n, false, RA); sut_access(uintptr_t(d), n, true, RA); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if(n && sut_context()) sut_access(uintptr_t(d), n, true, RA); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if(n && sut_context()) { sut_access(uintptr_t(a), n, false, RA); sut_access(uintptr_t(b), n, false, RA); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) {
    if(sut_context()) {
        // read up to the terminator, checking each byte of heap memory
        size_t n = 0;
        if(is_sut_heap(s)) { while(true) { sut_access(uintptr_t(s + n), 1, false, RA); if(!s[n]) break; n++; } return n; }
    }
    return __real_strlen(s);
}
}
