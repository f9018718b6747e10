#include <set>
// Virtual kernel: descriptors, pipes, processes, the symbol helper process, files, modules and page protections.
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

#include "rt_int.hpp"
namespace sim {

struct Pipe { std::deque<char> buf; int readers = 0, writers = 0; size_t cap = 65536; };
enum class K { Std, PipeR, PipeW, File };
struct Desc {
    K kind = K::Std;
    int stdno = 0;
    std::shared_ptr<Pipe> pipe;
    std::shared_ptr<std::string> content;
    std::string path;
    size_t pos = 0;
    bool nonblock = false;
    int id = 0;
    long rbytes = 0;
    ~Desc() { if(pipe) { if(kind == K::PipeR) pipe->readers--; else if(kind == K::PipeW) pipe->writers--; } }
};
using DescP = std::shared_ptr<Desc>;
struct Fd { DescP d; bool cloexec = false; };
struct Proc {
    int idx = 0, pid = 0, parent = 0;
    std::map<int, Fd> fds;
    bool alive = true, zombie = false, reaped = false;
    int status = 0;
    bool user = false;
};
struct ForkRegs { uint64_t rbx, rbp, r12, r13, r14, r15; };
struct ForkCtx { ForkRegs regs; uintptr_t sp; std::vector<char> copy; int pid; int parent_proc; };

struct Kern {
    std::vector<std::unique_ptr<Proc>> procs;
    std::vector<std::unique_ptr<Module>> modules;
    std::vector<std::unique_ptr<link_map>> maps;
    std::vector<std::unique_ptr<std::string>> names;
    std::map<std::string, std::shared_ptr<std::string>> vfs;
    std::map<FILE*, int> file_fd;
    std::string exe = "/sim/app"; int exe_err = 0;
    int next_desc = 1, next_pid = 100;
    bool sigchld_ignored = false;
    bool cap_stderr = true;
};
static Kern* KN;
std::string stderr_capture;
std::function<SymInfo(const std::string&, uint64_t)> symbol_model;

static uintptr_t unw_lo, unw_hi;
static int unw_cb(dl_phdr_info* i, size_t, void*) {
    if(i->dlpi_name && strstr(i->dlpi_name, "libunwind")) {
        for(int k = 0; k < i->dlpi_phnum; k++) if(i->dlpi_phdr[k].p_type == PT_LOAD) {
            uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz;
            if(!unw_lo || lo < unw_lo) unw_lo = lo;
            if(hi > unw_hi) unw_hi = hi;
        }
    }
    return 0;
}
bool from_libunwind(uintptr_t pc) { return pc >= unw_lo && pc < unw_hi; }
// the unwinder's own descriptors (it validates memory through a pipe) stay real; note the macro is used in exported functions only
#define sut_call() (sut_context() && !from_libunwind(uintptr_t(__builtin_return_address(0))))
extern "C" char __executable_start, etext;
static bool in_exe(uintptr_t pc) { return pc >= uintptr_t(&__executable_start) && pc < uintptr_t(&etext); }

void kernel_init() {
    KN = new Kern;
    auto p = std::unique_ptr<Proc>(new Proc);
    p->pid = 99;
    for(int i = 0; i < 3; i++) { auto d = std::make_shared<Desc>(); d->stdno = i; d->id = -1 - i; p->fds[i] = {d, false}; }
    KN->procs.push_back(std::move(p));
    KN->sigchld_ignored = R->plan.get("sigchld_ignored", 0);
    if(R->plan.get("closed_stdin", 0)) KN->procs[0]->fds.erase(0);
    if(R->plan.get("closed_stdout", 0)) KN->procs[0]->fds.erase(1);
    dl_iterate_phdr(unw_cb, nullptr);
}
static Proc& P() { return *KN->procs[cur ? cur->proc : 0]; }
static int lowest(Proc& p) { for(int i = 0;; i++) if(!p.fds.count(i)) return i; }
static int install(Proc& p, DescP d, bool cloexec) { int fd = lowest(p); p.fds[fd] = {d, cloexec}; return fd; }
bool in_child() { return cur && cur->proc != 0; }
static int fail(int e) { errno = e; return -1; }

void capture_stderr(bool on) { KN->cap_stderr = on; }
void set_exe_path(const std::string& p, int err) { RtGuard g; KN->exe = p; KN->exe_err = err; }
void vfs_put(const std::string& path, const std::string& content) { RtGuard g; KN->vfs[path] = std::make_shared<std::string>(content); }
void vfs_remove(const std::string& path) { RtGuard g; KN->vfs.erase(path); }

int add_module(const std::string& path, uintptr_t base, size_t size, uintptr_t load_addr) {
    RtGuard g;
    KN->modules.emplace_back(new Module{path, base, size, load_addr, true});
    KN->names.emplace_back(new std::string(path));
    auto lm = std::unique_ptr<link_map>(new link_map());
    lm->l_addr = load_addr; lm->l_name = const_cast<char*>(KN->names.back()->c_str()); lm->l_ld = nullptr; lm->l_next = lm->l_prev = nullptr;
    KN->maps.push_back(std::move(lm));
    return int(KN->modules.size()) - 1;
}
void unload_module(int id) {
    RtGuard g;
    KN->modules[id]->loaded = false;
    // the loader frees the map: a stale pointer to its name is then visible
    KN->names[id]->assign(KN->names[id]->size(), '#');
}
static int module_at(uintptr_t a) {
    for(size_t i = 0; i < KN->modules.size(); i++) { auto& m = *KN->modules[i]; if(m.loaded && a >= m.base && a < m.base + m.size) return int(i); }
    return -1;
}
const Module* find_module(uintptr_t a) { int i = module_at(a); return i < 0 ? nullptr : KN->modules[i].get(); }

KernelSnapshot snapshot() {
    RtGuard g;
    KernelSnapshot s{};
    for(auto& f : KN->procs[0]->fds) {
        bool file = f.second.d->kind == K::File;
        s.fds.push_back({f.first, file ? -f.second.d->id : f.second.d->id});
        if(file) s.open_paths[f.second.d->path]++;
    }
    for(auto& p : KN->procs) if(p->idx != 0 && p->parent == 0 && !p->reaped && !p->user) { s.children++; if(p->zombie) s.zombies++; }
    s.files = int(KN->file_fd.size());
    return s;
}
std::string diff(const KernelSnapshot& a, const KernelSnapshot& b, bool cached_files) {
    RtGuard g;
    std::string r;
    auto fds = [&](const KernelSnapshot& k) { auto v = k.fds; if(cached_files) v.erase(std::remove_if(v.begin(), v.end(), [](const std::pair<int, int>& p) { return p.second < 0; }), v.end()); return v; };
    if(fds(a) != fds(b)) {
        r += "open descriptors before {"; for(auto& f : a.fds) r += fmt("%d ", f.first);
        r += "} after {"; for(auto& f : b.fds) r += fmt("%d ", f.first); r += "}; ";
    }
    if(a.children != b.children) r += fmt("child processes %d -> %d (zombies %d -> %d); ", a.children, b.children, a.zombies, b.zombies);
    if(!cached_files && a.files != b.files) r += fmt("open streams %d -> %d; ", a.files, b.files);
    if(cached_files) for(auto& p : b.open_paths) if(p.second > 1) r += fmt("%s is open %d times; ", p.first.c_str(), p.second);
    return r;
}
static void close_all(Proc& p) { p.fds.clear(); }
static void proc_exit(Proc& p, int status) {
    close_all(p);
    p.alive = false; p.status = status;
    if(KN->sigchld_ignored && p.parent == 0 && !p.user) { p.reaped = true; p.zombie = false; }
    else p.zombie = true;
}
int user_child_start(bool exits_quickly) {
    RtGuard g;
    auto p = std::unique_ptr<Proc>(new Proc);
    p->idx = int(KN->procs.size()); p->pid = KN->next_pid++; p->parent = 0; p->user = true;
    if(exits_quickly) { p->alive = false; p->zombie = true; p->status = 7 << 8; }
    int pid = p->pid;
    KN->procs.push_back(std::move(p));
    return pid;
}
bool user_child_present(int pid) { RtGuard g; for(auto& p : KN->procs) if(p->pid == pid) return !p->reaped; return false; }
void user_spawn_probe() {
    RtGuard g;
    R->stats["user_spawn"]++;
    std::string s;
    for(auto& f : KN->procs[0]->fds) if(f.first > 2 && !f.second.cloexec && f.second.d->kind != K::File) s += fmt("%d ", f.first);
    if(!s.empty()) violation("fd-inherited", "a process started by the application at this moment inherits the library's descriptors %s", s.c_str());
}

// ------------------------------------------------------------------ the symbol helper as a simulated process
struct Helper : Actor {
    Proc* p;
    std::vector<std::string> argv;
    std::string object, inbuf, outbuf;
    bool probe = false, eof = false, missing = false;
    int crash_kind = 0; long crash_at = 0; long lines = 0; long slow = 0;
    int stage = 0;
    bool want_write() const { return !outbuf.empty(); }
    Desc* fd(int n) { auto it = p->fds.find(n); return it == p->fds.end() ? nullptr : it->second.d.get(); }
    bool ready() override {
        if(R->now < wake_at) return false;
        if(stage == 0) return true;
        if(want_write()) {
            Desc* o = fd(1);
            if(!o || o->kind != K::PipeW) return true;
            return o->pipe->buf.size() < o->pipe->cap || o->pipe->readers == 0;
        }
        Desc* i = fd(0);
        if(!i || i->kind != K::PipeR) return true;
        return !i->pipe->buf.empty() || i->pipe->writers == 0 || inbuf.find('\n') != std::string::npos;
    }
    std::string waiting_for() override {
        if(want_write()) return "room in its output pipe";
        Desc* i = fd(0);
        if(i && i->kind == K::PipeR) return fmt("input or end of input (%d open write ends)", i->pipe->writers);
        return "input";
    }
    void die(int status) { R->stats["helper.exit"]++; proc_exit(*p, status); done = true; }
    void step() override {
        R->stats["helper.steps"]++;
        if(slow) { wake_at = R->now + uint64_t(slow); }
        if(stage == 0) {
            stage = 1;
            if(probe) {
                if(fault("probe.exit", 1)) return die(1 << 8);
                if(fault("probe.kill", 1)) return die(9);
                if(fault("probe.slow", 1)) { wake_at = R->now + 50000; stage = 9; return; }
                return die(0);
            }
            if(crash_kind == 1) return die(127 << 8);
            if(crash_kind == 5) { p->fds.erase(0); return die(0); }
            if(missing) return die(1 << 8);
            return;
        }
        if(stage == 9) return die(0);
        if(want_write()) { do_write(); if(done) return; if(want_write()) return; return; }
        size_t nl = inbuf.find('\n');
        if(nl == std::string::npos) {
            Desc* i = fd(0);
            if(!i || i->kind != K::PipeR) { eof = true; }
            else {
                auto& b = i->pipe->buf;
                size_t n = std::min<size_t>(b.size(), 4096);
                if(n == 0) eof = true;
                inbuf.append(b.begin(), b.begin() + long(n));
                b.erase(b.begin(), b.begin() + long(n));
            }
            if(eof && inbuf.empty()) return die(crash_kind == 4 ? 1 << 8 : 0);
            if(eof && inbuf.find('\n') == std::string::npos) inbuf += '\n';
            return;
        }
        std::string line = inbuf.substr(0, nl);
        inbuf.erase(0, nl + 1);
        lines++;
        if(crash_kind == 2 && lines > crash_at) return die(139);
        uint64_t addr = strtoull(line.c_str(), nullptr, 16);
        R->stats["helper.queries"]++;
        std::string ans = symbol_model ? symbol_model(object, addr).text : std::string("?? ??:0");
        outbuf = ans + "\n";
        if(crash_kind == 6 && lines == 1 + crash_at % 4) outbuf = (crash_at & 1 ? "warning: could not find separate debug file\n" : ans + "\n") + outbuf;   // a line nobody asked for
        if(crash_kind == 3 && lines > crash_at) {
            // killed in the middle of a line
            size_t cut = 1 + size_t((lines * 7919 + crash_at) % long(ans.size()));
            outbuf = outbuf.substr(0, cut);
            do_write();
            if(!done) die(137);
        }
    }
    void do_write() {
        Desc* o = fd(1);
        if(!o) { outbuf.clear(); return; }           // stdout closed: output is lost
        if(o->kind != K::PipeW) { R->stats["helper.stdout_pollution"]++; outbuf.clear(); return; }
        if(o->pipe->readers == 0) return die(13);     // SIGPIPE
        size_t room = o->pipe->cap - o->pipe->buf.size();
        size_t n = std::min(room, outbuf.size());
        o->pipe->buf.insert(o->pipe->buf.end(), outbuf.begin(), outbuf.begin() + long(n));
        outbuf.erase(0, n);
    }
};

std::vector<MpCall>& mprotect_calls() { static auto* v = new std::vector<MpCall>; return *v; }
} // namespace sim

using namespace sim;
// ------------------------------------------------------------------ fork / exec
extern "C" {
[[noreturn]] void sim_fork_resume(ForkRegs* regs, uintptr_t sp, long pid);
long sim_fork_c(ForkRegs* regs, uintptr_t sp);
}
asm(R"(
.text
.globl fork
.type fork,@function
.globl vfork
.type vfork,@function
fork:
vfork:
    subq $56, %rsp
    movq %rbx, 0(%rsp)
    movq %rbp, 8(%rsp)
    movq %r12, 16(%rsp)
    movq %r13, 24(%rsp)
    movq %r14, 32(%rsp)
    movq %r15, 40(%rsp)
    movq %rsp, %rdi
    leaq 56(%rsp), %rsi
    call sim_fork_c
    movq 0(%rsp), %rbx
    movq 8(%rsp), %rbp
    movq 16(%rsp), %r12
    movq 24(%rsp), %r13
    movq 32(%rsp), %r14
    movq 40(%rsp), %r15
    addq $56, %rsp
    ret
.size fork,.-fork
.globl sim_fork_resume
.type sim_fork_resume,@function
sim_fork_resume:
    movq %rdx, %rax
    movq 0(%rdi), %rbx
    movq 8(%rdi), %rbp
    movq 16(%rdi), %r12
    movq 24(%rdi), %r13
    movq 32(%rdi), %r14
    movq 40(%rdi), %r15
    movq %rsi, %rsp
    ret
)");

extern "C" long sim_fork_c(ForkRegs* regs, uintptr_t sp) {
    if(!sut_context()) {
        static auto real_fork = reinterpret_cast<pid_t (*)()>(dlsym(RTLD_NEXT, "fork"));
        return real_fork();
    }
    RtGuard g;
    sched_point("fork", true);
    if(cur->proc != 0) violation("harness", "nested fork");
    if(fault("fork", 1)) return fail(EAGAIN);
    auto p = std::unique_ptr<Proc>(new Proc);
    p->idx = int(KN->procs.size()); p->pid = KN->next_pid++; p->parent = 0;
    p->fds = KN->procs[0]->fds;
    auto* c = new ForkCtx;
    c->regs = *regs; c->sp = sp; c->pid = p->pid; c->parent_proc = cur->proc;
    uintptr_t hi = std::min<uintptr_t>(cur->frame_hi, sp + 65536);
    c->copy.assign(reinterpret_cast<char*>(sp), reinterpret_cast<char*>(hi));
    cur->fork_ctx = c;
    cur->proc = p->idx;
    KN->procs.push_back(std::move(p));
    R->stats["forks"]++;
    return 0;      // the child's branch runs first, up to exec or _exit; other threads keep running meanwhile
}
// ends the child's branch and returns in the parent
[[noreturn]] static void back_to_parent() {
    ForkCtx* c = cur->fork_ctx;
    cur->fork_ctx = nullptr;
    cur->proc = c->parent_proc;
    static thread_local ForkRegs regs;
    regs = c->regs;
    uintptr_t sp = c->sp; long pid = c->pid;
    // rt depth of the frames we abandon: exec/_exit seams hold exactly one guard
    cur->in_rt = 0;
    sched_point("fork-parent", true);
    memcpy(reinterpret_cast<void*>(sp), c->copy.data(), c->copy.size());
    sim_fork_resume(&regs, sp, pid);
}
static int do_exec(const char* path, char* const* cargv) {
    RtGuard g;
    std::vector<std::string> argv;
    for(int i = 0; cargv[i]; i++) argv.push_back(cargv[i]);
    sched_point("exec", true);
    if(cur->proc == 0) violation("exec-in-parent", "the library replaced the application's process image");
    if(fault("exec", 1)) return fail(ENOMEM);
    R->stats["execs"]++;
    bool is_helper = R->plan.get("helper_missing", 0) == 0 && strstr(path, "addr2line") != nullptr;
    if(!is_helper) return fail(ENOENT);
    Proc& p = P();
    for(auto it = p.fds.begin(); it != p.fds.end();) if(it->second.cloexec) it = p.fds.erase(it); else ++it;
    auto h = std::unique_ptr<Helper>(new Helper);
    h->pid = p.pid; h->p = &p; h->argv = argv;
    h->probe = argv.size() >= 2 && (argv[1] == "--help" || argv[1] == "--version");
    bool f = false, C = false, pr = false;
    for(size_t i = 1; i < argv.size(); i++) {
        if(argv[i] == "-e" && i + 1 < argv.size()) h->object = argv[++i];
        else if(argv[i].size() > 1 && argv[i][0] == '-' && argv[i][1] != '-') for(char ch : argv[i].substr(1)) { f |= ch == 'f'; C |= ch == 'C'; pr |= ch == 'p'; }
    }
    if(!h->probe && !(f && C && pr)) R->stats["helper.odd_flags"]++;
    if(!h->probe) {
        h->missing = R->plan.get("missing_objects", 0) && h->object.find("missing") != std::string::npos;
        long v = fault("helper.crash", 60);
        if(v) { h->crash_kind = 1 + int((v - 1) % 6); h->crash_at = (v - 1) / 6; R->stats["fault.helper.crash" + std::to_string(h->crash_kind)]++; }
        long s = fault("helper.slow", 3);
        if(s) h->slow = s == 1 ? 200 : s == 2 ? 20000 : 3000000;
    }
    R->actors.push_back(std::move(h));
    return 0;
}
extern "C" {
int execv(const char* path, char* const argv[]) {
    if(!sut_context()) { static auto f = reinterpret_cast<int(*)(const char*, char* const*)>(dlsym(RTLD_NEXT, "execv")); return f(path, argv); }
    int r = do_exec(path, argv);
    if(r == 0) back_to_parent();
    return r;
}
int execve(const char* path, char* const argv[], char* const envp[]) {
    if(!sut_context()) { static auto f = reinterpret_cast<int(*)(const char*, char* const*, char* const*)>(dlsym(RTLD_NEXT, "execve")); return f(path, argv, envp); }
    return execv(path, argv);
}
int execvp(const char* path, char* const argv[]) {
    if(!sut_context()) { static auto f = reinterpret_cast<int(*)(const char*, char* const*)>(dlsym(RTLD_NEXT, "execvp")); return f(path, argv); }
    return execv(path, argv);
}
static int exec_va(const char* path, const char* a0, va_list ap) {
    char* argv[64]; int n = 0;
    argv[n++] = const_cast<char*>(a0);
    while(n < 63 && argv[n - 1]) argv[n++] = va_arg(ap, char*);
    argv[n] = nullptr;
    return execv(path, argv);
}
int execl(const char* path, const char* a0, ...) { va_list ap; va_start(ap, a0); int r = exec_va(path, a0, ap); va_end(ap); return r; }
int execlp(const char* path, const char* a0, ...) { va_list ap; va_start(ap, a0); int r = exec_va(path, a0, ap); va_end(ap); return r; }
void _exit(int status) {
    if(sut_context() && cur->proc != 0) {
        { RtGuard g; proc_exit(P(), (status & 0xff) << 8); }
        back_to_parent();
    }
    if(sut_context() && R && R->active) violation("process-exit", "the library ended the application's process with _exit");
    syscall(SYS_exit_group, status);
    __builtin_unreachable();
}
void _Exit(int status) { _exit(status); }
static void exit_called(const char* what) {
    if(!sut_context() || !R || !R->active) return;
    if(cur->proc != 0) violation("child-exit", "the forked child calls %s, which runs the application's exit handlers and flushes its streams a second time", what);
    violation("process-exit", "the library ended the application's process with %s", what);
}
void exit(int status) {
    exit_called("exit");
    static auto f = reinterpret_cast<void(*)(int)>(dlsym(RTLD_NEXT, "exit")); f(status); __builtin_unreachable();
}
void quick_exit(int status) {
    exit_called("quick_exit");
    static auto f = reinterpret_cast<void(*)(int)>(dlsym(RTLD_NEXT, "quick_exit")); f(status); __builtin_unreachable();
}
pid_t waitpid(pid_t pid, int* status, int options) {
    if(!sut_context()) { return pid_t(syscall(SYS_wait4, pid, status, options, nullptr)); }
    RtGuard g;
    sched_point("waitpid", true);
    if(fault("waitpid", 1)) return fail(EINTR);
    Proc* t = nullptr;
    auto find = [&]() -> Proc* {
        Proc* running = nullptr;
        for(auto& p : KN->procs) if(p->idx != 0 && p->parent == 0 && !p->reaped && (pid <= 0 || p->pid == pid)) { if(p->zombie) return p.get(); running = p.get(); }
        return running;
    };
    t = find();
    if(!t) {
        return fail(ECHILD);
    }
    if(!t->zombie) {
        if(options & WNOHANG) return 0;
        block_until([&]{ Proc* q = find(); return !q || q->zombie; }, "waitpid");
        t = find();
        if(!t) return fail(ECHILD);   // SIGCHLD ignored: reaped by the system
    }
    t->zombie = false; t->reaped = true;
    if(t->user) R->stats["user_child_reaped"]++;
    if(status) *status = t->status;
    return t->pid;
}
pid_t wait(int* st) { if(!sut_context()) return pid_t(syscall(SYS_wait4, -1, st, 0, nullptr)); return waitpid(-1, st, 0); }
pid_t wait4(pid_t pid, int* st, int opt, struct rusage* ru) { if(!sut_context()) return pid_t(syscall(SYS_wait4, pid, st, opt, ru)); return waitpid(pid, st, opt); }

// ------------------------------------------------------------------ descriptors
static int do_pipe(int fds[2], int flags) {
    RtGuard g;
    sched_point("pipe", true);
    if(long v = fault("pipe", 2)) return fail(v == 1 ? EMFILE : ENFILE);
    auto p = std::make_shared<Pipe>();
    p->cap = size_t(R->plan.get("pipe_cap", 65536));
    auto r = std::make_shared<Desc>(); r->kind = K::PipeR; r->pipe = p; r->id = KN->next_desc++; p->readers++;
    auto w = std::make_shared<Desc>(); w->kind = K::PipeW; w->pipe = p; w->id = KN->next_desc++; p->writers++;
    r->nonblock = w->nonblock = flags & O_NONBLOCK;
    fds[0] = install(P(), r, flags & O_CLOEXEC);
    fds[1] = install(P(), w, flags & O_CLOEXEC);
    return 0;
}
int pipe(int fds[2]) { if(!sut_context()) return int(syscall(SYS_pipe2, fds, 0)); return do_pipe(fds, 0); }
int pipe2(int fds[2], int flags) { if(!sut_call()) return int(syscall(SYS_pipe2, fds, flags)); return do_pipe(fds, flags); }
int close(int fd) {
    if(!sut_call()) return int(syscall(SYS_close, fd));
    RtGuard g;
    sched_point("close", true);
    auto& t = P().fds;
    auto it = t.find(fd);
    if(it == t.end()) {
        R->stats["bad_close"]++;
        if(cur->proc == 0) violation("bad-close", "close(%d): not an open descriptor (in a multi-threaded program this closes somebody else's file)", fd);
        return fail(EBADF);
    }
    if(cur->proc == 0 && fd <= 2 && it->second.d->kind == K::Std) violation("bad-close", "the library closed the application's descriptor %d", fd);
    t.erase(it);
    return 0;
}
static int do_dup2(int a, int b, int flags) {
    RtGuard g;
    sched_point("dup", true);
    auto& t = P().fds;
    auto it = t.find(a);
    if(it == t.end()) return fail(EBADF);
    if(a == b) return b;
    if(cur->proc == 0 && b <= 2) violation("bad-dup2", "the library replaced the application's descriptor %d", b);
    Fd f = it->second; f.cloexec = flags & O_CLOEXEC;
    t[b] = f;
    return b;
}
int dup2(int a, int b) { if(!sut_context()) return int(syscall(SYS_dup2, a, b)); return do_dup2(a, b, 0); }
int dup3(int a, int b, int fl) { if(!sut_context()) return int(syscall(SYS_dup3, a, b, fl)); if(a == b) return fail(EINVAL); return do_dup2(a, b, fl); }
int dup(int a) {
    if(!sut_context()) return int(syscall(SYS_dup, a));
    RtGuard g; sched_point("dup", true);
    auto it = P().fds.find(a); if(it == P().fds.end()) return fail(EBADF);
    return install(P(), it->second.d, false);
}
static long do_fcntl(int fd, int cmd, long arg) {
    RtGuard g;
    sched_point("fcntl", true);
    auto it = P().fds.find(fd);
    if(it == P().fds.end()) return fail(EBADF);
    switch(cmd) {
        case F_GETFD: return it->second.cloexec ? FD_CLOEXEC : 0;
        case F_SETFD: it->second.cloexec = arg & FD_CLOEXEC; return 0;
        case F_GETFL: return (it->second.d->nonblock ? O_NONBLOCK : 0) | (it->second.d->kind == K::PipeW ? O_WRONLY : 0);
        case F_SETFL: it->second.d->nonblock = arg & O_NONBLOCK; return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = int(arg); while(P().fds.count(n)) n++; P().fds[n] = {it->second.d, cmd == F_DUPFD_CLOEXEC}; return n; }
        default: return fail(EINVAL);
    }
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if(!sut_context()) return int(syscall(SYS_fcntl, fd, cmd, arg));
    return int(do_fcntl(fd, cmd, arg));
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if(!sut_context()) return int(syscall(SYS_fcntl, fd, cmd, arg));
    return int(do_fcntl(fd, cmd, arg));
}
static ssize_t file_read(Desc& d, char* buf, size_t n) {
    if(long v = fault("fread", 4)) {
        if(v == 1) return fail(EIO);
        if(v == 2) return 0;                                  // premature end of file
        if(v == 3 && n > 1) n = 1 + n / 3;                    // short read
        if(v == 4) return fail(EINTR);
    }
    if(d.pos >= d.content->size()) return 0;
    n = std::min(n, d.content->size() - d.pos);
    memcpy(buf, d.content->data() + d.pos, n);
    d.pos += n;
    return ssize_t(n);
}
ssize_t read(int fd, void* buf, size_t n) {
    if(!sut_call()) return syscall(SYS_read, fd, buf, n);
    RtGuard g;
    sched_point("read", true);
    auto it = P().fds.find(fd);
    if(it == P().fds.end()) return fail(EBADF);
    DescP d = it->second.d;
    if(d->kind == K::File) return file_read(*d, static_cast<char*>(buf), n);
    if(d->kind != K::PipeR) return fail(EBADF);
    if(fault("read.eio", 1)) return fail(EIO);
    if(long v = fault("read", 2)) {
        if(v == 1) return fail(EINTR);
        if(n > 1) n = 1 + (d->rbytes * 31 + 17) % std::min<long>(long(n) - 1, 60);   // short read
    }
    auto pp = d->pipe;
    if(pp->buf.empty() && pp->writers > 0) {
        if(d->nonblock) return fail(EAGAIN);
        block_until([pp]{ return !pp->buf.empty() || pp->writers == 0; }, "read from pipe");
    }
    n = std::min(n, pp->buf.size());
    std::copy(pp->buf.begin(), pp->buf.begin() + long(n), static_cast<char*>(buf));
    pp->buf.erase(pp->buf.begin(), pp->buf.begin() + long(n));
    d->rbytes += long(n);
    return ssize_t(n);
}
ssize_t write(int fd, const void* buf, size_t n) {
    if(!sut_call()) return syscall(SYS_write, fd, buf, n);
    RtGuard g;
    sched_point("write", true);
    auto it = P().fds.find(fd);
    if(it == P().fds.end()) return fail(EBADF);
    DescP d = it->second.d;
    if(d->kind == K::Std) { if(d->stdno == 2) stderr_capture.append(static_cast<const char*>(buf), n); return ssize_t(n); }
    if(d->kind != K::PipeW) return fail(EBADF);
    if(fault("write.eio", 1)) return fail(EIO);
    if(long v = fault("write", 2)) {
        if(v == 1) return fail(EINTR);
        if(n > 4096) n = std::min(n - 1, 4096 + n / 5);      // only transfers larger than PIPE_BUF may be split
    }
    auto pp = d->pipe;
    const char* c = static_cast<const char*>(buf);
    size_t done = 0;
    for(;;) {
        if(pp->readers == 0) {
            violation("sigpipe", "the library wrote to a pipe nobody reads: SIGPIPE kills the application");
        }
        size_t room = pp->cap - pp->buf.size();
        bool atomic = n - done <= 4096;
        size_t k = std::min(room, n - done);
        if(atomic && k < n - done) k = 0;
        pp->buf.insert(pp->buf.end(), c + done, c + done + k);
        done += k;
        if(done == n) break;
        if(d->nonblock) { if(done) return ssize_t(done); return fail(EAGAIN); }
        size_t need = n - done <= 4096 ? n - done : 1;
        block_until([pp, need]{ return pp->cap - pp->buf.size() >= need || pp->readers == 0; }, "write to pipe");
    }
    return ssize_t(done);
}
int poll(struct pollfd* f, nfds_t n, int timeout) {
    if(!sut_context()) return int(syscall(SYS_poll, f, n, timeout));
    RtGuard g;
    sched_point("poll", true);
    if(fault("poll", 1)) return fail(EINTR);
    auto eval = [&]() -> int {
        int cnt = 0;
        for(nfds_t i = 0; i < n; i++) {
            f[i].revents = 0;
            if(f[i].fd < 0) continue;
            auto it = P().fds.find(f[i].fd);
            if(it == P().fds.end()) { f[i].revents = POLLNVAL; cnt++; continue; }
            Desc& d = *it->second.d;
            short r = 0;
            if(d.kind == K::PipeR) { if(!d.pipe->buf.empty()) r |= POLLIN; if(d.pipe->writers == 0) r |= POLLHUP; }
            else if(d.kind == K::PipeW) { if(d.pipe->cap - d.pipe->buf.size() >= 4096) r |= POLLOUT; if(d.pipe->readers == 0) r |= POLLERR; }
            else r = POLLIN | POLLOUT;
            f[i].revents = short(r & (f[i].events | POLLHUP | POLLERR | POLLNVAL));
            if(f[i].revents) cnt++;
        }
        return cnt;
    };
    int c = eval();
    if(c || timeout == 0) return c;
    if(timeout > 0) { uint64_t until = R->now + uint64_t(timeout) * 1000; cur->wake_at = until; block_until([&]{ return eval() > 0 || R->now >= until; }, "poll"); cur->wake_at = 0; }
    else block_until([&]{ return eval() > 0; }, "poll");
    return eval();
}
off64_t lseek64(int fd, off64_t off, int wh) {
    if(!sut_context()) return syscall(SYS_lseek, fd, off, wh);
    RtGuard g;
    sched_point("lseek", true);
    auto it = P().fds.find(fd);
    if(it == P().fds.end()) return fail(EBADF);
    Desc& d = *it->second.d;
    if(d.kind != K::File) return fail(ESPIPE);
    if(fault("fseek", 1)) return fail(EIO);
    off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? off64_t(d.pos) : off64_t(d.content->size());
    if(d.path.compare(0, 5, "/proc") == 0 && wh == SEEK_END) return fail(EINVAL);
    if(base + off < 0) return fail(EINVAL);
    d.pos = size_t(base + off);
    return off64_t(d.pos);
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
    if(!sut_context()) return int(syscall(SYS_ioctl, fd, req, arg));
    RtGuard g;
    auto it = P().fds.find(fd);
    if(it == P().fds.end()) return fail(EBADF);
    if(req == FIONREAD && it->second.d->kind == K::File) { *static_cast<int*>(arg) = int(it->second.d->content->size() - std::min(it->second.d->pos, it->second.d->content->size())); return 0; }
    return fail(ENOTTY);
}
static int do_fstat(int fd, struct stat* st) {
    RtGuard g;
    auto it = P().fds.find(fd);
    if(it == P().fds.end()) return fail(EBADF);
    memset(st, 0, sizeof *st);
    Desc& d = *it->second.d;
    st->st_mode = d.kind == K::File ? S_IFREG | 0644 : S_IFIFO | 0600;
    if(d.kind == K::File) st->st_size = off_t(d.content->size());
    return 0;
}
int fstat(int fd, struct stat* st) { if(!sut_call()) return int(syscall(SYS_fstat, fd, st)); return do_fstat(fd, st); }
int fstat64(int fd, struct stat64* st) { if(!sut_context()) return int(syscall(SYS_fstat, fd, st)); return do_fstat(fd, reinterpret_cast<struct stat*>(st)); }
int isatty(int fd) {
    if(!sut_context()) { static auto f = reinterpret_cast<int(*)(int)>(dlsym(RTLD_NEXT, "isatty")); return f(fd); }
    return int(R->plan.get("tty", 0));
}

// ------------------------------------------------------------------ files
static std::shared_ptr<std::string> load_real(const char* path) {
    int fd = int(syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC, 0));
    if(fd < 0) return nullptr;
    auto s = std::make_shared<std::string>();
    char buf[65536]; long k;
    while((k = syscall(SYS_read, fd, buf, sizeof buf)) > 0) s->append(buf, size_t(k));
    syscall(SYS_close, fd);
    return s;
}
static std::shared_ptr<std::string> maps_content() {
    auto s = load_real("/proc/self/maps");
    if(long v = fault("maps", 4)) {
        std::vector<std::string> lines; size_t p = 0;
        while(p < s->size()) { size_t e = s->find('\n', p); lines.push_back(s->substr(p, e + 1 - p)); p = e + 1; }
        std::string o;
        if(v == 1) { // tear: a region appears again, overlapping its neighbour
            for(size_t i = 0; i < lines.size(); i++) { o += lines[i]; if(i == lines.size() / 2) o += lines[i]; }
        } else if(v == 2) { // truncated in the middle of a line
            for(size_t i = 0; i < lines.size() / 3; i++) o += lines[i];
            o += lines[lines.size() / 3].substr(0, 9);
        } else if(v == 3) { // empty (not mounted properly)
        } else { // unparsable
            o = "permission denied\n";
        }
        return std::make_shared<std::string>(o);
    }
    return s;
}
struct Cookie { DescP d; int fd; FILE* f; };
static ssize_t ck_read(void* c, char* buf, size_t n) {
    RtGuard g;
    auto* k = static_cast<Cookie*>(c);
    return file_read(*k->d, buf, n);
}
static int ck_seek(void* c, off64_t* off, int wh) {
    RtGuard g;
    auto* k = static_cast<Cookie*>(c);
    if(fault("fseek", 1)) return fail(EIO);
    off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? off64_t(k->d->pos) : off64_t(k->d->content->size());
    if(base + *off < 0) return fail(EINVAL);
    k->d->pos = size_t(base + *off); *off = off64_t(k->d->pos);
    return 0;
}
static int ck_close(void* c) {
    RtGuard g;
    auto* k = static_cast<Cookie*>(c);
    KN->procs[0]->fds.erase(k->fd);
    KN->file_fd.erase(k->f);
    delete k;
    return 0;
}
static FILE* do_fopen(const char* path, const char* mode) {
    RtGuard g;
    sched_point("fopen", true);
    if(cur->in_signal) violation("signal-io", "a file was opened inside signal-safe tracing");
    R->stats["fopens"]++;
    if(long v = fault("fopen", 3)) { errno = v == 1 ? ENOENT : v == 2 ? EMFILE : EACCES; return nullptr; }
    std::shared_ptr<std::string> content;
    if(strcmp(path, "/proc/self/maps") == 0) content = maps_content();
    else {
        auto it = KN->vfs.find(path);
        if(it != KN->vfs.end()) content = it->second;
        else if(strncmp(path, "/sim/", 5) != 0 && R->plan.get("real_files", 1)) content = load_real(path);
    }
    if(!content) { errno = ENOENT; return nullptr; }
    auto d = std::make_shared<Desc>(); d->kind = K::File; d->content = content; d->path = path; d->id = KN->next_desc++;
    auto* k = new Cookie{d, 0, nullptr};
    k->fd = install(*KN->procs[0], d, strchr(mode, 'e') != nullptr);
    cookie_io_functions_t io{}; io.read = ck_read; io.seek = ck_seek; io.close = ck_close;
    FILE* f = fopencookie(k, "r", io);
    if(!f) { KN->procs[0]->fds.erase(k->fd); delete k; errno = ENOMEM; return nullptr; }
    k->f = f;
    KN->file_fd[f] = k->fd;
    return f;
}
FILE* fopen(const char* path, const char* mode) {
    if(!sut_context()) { static auto f = reinterpret_cast<FILE*(*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen")); return f(path, mode); }
    return do_fopen(path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
    if(!sut_context()) { static auto f = reinterpret_cast<FILE*(*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen64")); return f(path, mode); }
    return do_fopen(path, mode);
}
int fclose(FILE* f) {
    static auto real = reinterpret_cast<int(*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
    if(R && R->active) { if(sut_context()) sched_point("fclose", true); RtGuard g; return real(f); }
    return real(f);
}
int fileno(FILE* f) {
    static auto real = reinterpret_cast<int(*)(FILE*)>(dlsym(RTLD_NEXT, "fileno"));
    if(R && R->active) { RtGuard g; auto it = KN->file_fd.find(f); if(it != KN->file_fd.end()) return it->second; }
    return real(f);
}
int open(const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if(!sut_call()) return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    RtGuard g;
    sched_point("open", true);
    if(cur->in_signal && !from_libunwind(uintptr_t(__builtin_return_address(0)))) violation("signal-io", "a file was opened inside signal-safe tracing");
    if(!in_exe(uintptr_t(__builtin_return_address(0)))) return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    if(long v = fault("fopen", 3)) { errno = v == 1 ? ENOENT : v == 2 ? EMFILE : EACCES; return -1; }
    std::shared_ptr<std::string> content;
    auto it = KN->vfs.find(path);
    if(it != KN->vfs.end()) content = it->second;
    else if(strcmp(path, "/proc/self/maps") == 0) content = maps_content();
    else if(strncmp(path, "/sim/", 5) != 0) content = load_real(path);
    if(!content) return fail(ENOENT);
    auto d = std::make_shared<Desc>(); d->kind = K::File; d->content = content; d->path = path; d->id = KN->next_desc++;
    return install(P(), d, flags & O_CLOEXEC);
}
ssize_t readlink(const char* path, char* buf, size_t n) {
    if(!sut_context()) return syscall(SYS_readlink, path, buf, n);
    RtGuard g;
    if(!cur->in_signal) sched_point("readlink", true);
    if(strcmp(path, "/proc/self/exe") != 0) return syscall(SYS_readlink, path, buf, n);
    if(fault("readlink", 1)) return fail(EACCES);
    if(KN->exe_err) return fail(KN->exe_err);
    size_t k = std::min(n, KN->exe.size());
    if(cur->in_signal) { sigcheck(buf, k); }
    memcpy(buf, KN->exe.data(), k);   // no terminator, as the system call
    return ssize_t(k);
}

// ------------------------------------------------------------------ buffered output: only watched
static void sig_stdio() { if(sut_context() && cur->in_signal) { RtGuard g; violation("signal-io", "buffered input or output inside signal-safe tracing"); } }
#define STDIO(ret, name, params, args) ret name params { sig_stdio(); static auto real = reinterpret_cast<ret(*) params>(dlsym(RTLD_NEXT, #name)); return real args; }
STDIO(size_t, fwrite, (const void* p, size_t s, size_t n, FILE* f), (p, s, n, f))
STDIO(int, fputs, (const char* s, FILE* f), (s, f))
STDIO(int, fputc, (int c, FILE* f), (c, f))
STDIO(int, putc, (int c, FILE* f), (c, f))
STDIO(int, puts, (const char* s), (s))
STDIO(int, vfprintf, (FILE* f, const char* s, va_list a), (f, s, a))
STDIO(int, fflush, (FILE* f), (f))
STDIO(size_t, fread, (void* p, size_t s, size_t n, FILE* f), (p, s, n, f))
int fprintf(FILE* f, const char* s, ...) { sig_stdio(); va_list a; va_start(a, s); int r = vfprintf(f, s, a); va_end(a); return r; }
int printf(const char* s, ...) { sig_stdio(); va_list a; va_start(a, s); int r = vfprintf(stdout, s, a); va_end(a); return r; }

// ------------------------------------------------------------------ modules
int _dl_find_object(void* addr, struct dl_find_object* out) {
    static auto real = reinterpret_cast<int(*)(void*, struct dl_find_object*)>(dlsym(RTLD_NEXT, "_dl_find_object"));
    if(R && R->active && cur && !cur->in_rt && KN) {
        int m;
        { RtGuard g; m = module_at(uintptr_t(addr)); }
        if(m >= 0) {
            memset(out, 0, sizeof *out);
            out->dlfo_map_start = reinterpret_cast<void*>(KN->modules[m]->base);
            out->dlfo_map_end = reinterpret_cast<void*>(KN->modules[m]->base + KN->modules[m]->size);
            out->dlfo_link_map = KN->maps[m].get();
            return 0;
        }
    }
    return real(addr, out);
}
static int fake_dladdr(int m, Dl_info* info) {
    memset(info, 0, sizeof *info);
    info->dli_fname = KN->names[m]->empty() ? KN->exe.c_str() : KN->names[m]->c_str();   // the loader gives argv[0] for the program itself
    info->dli_fbase = reinterpret_cast<void*>(KN->modules[m]->base);
    return 1;
}
// the dynamic symbol table: what the symbol model knows
static void dl_symbol(int m, uintptr_t addr, Dl_info* info) {
    if(!symbol_model) return;
    static auto* pool = new std::set<std::string>;
    auto& mod = *KN->modules[size_t(m)];
    SymInfo s = symbol_model(KN->names[size_t(m)]->empty() ? KN->exe : mod.path, addr - mod.load_addr);
    if(s.kind != 2) { info->dli_sname = pool->insert(s.name()).first->c_str(); info->dli_saddr = reinterpret_cast<void*>(addr & ~uintptr_t(15)); }
}
static void sig_loader(uintptr_t ra) { if(sut_context() && cur->in_signal && !from_libunwind(ra)) { RtGuard g; violation("signal-lock", "the dynamic loader's lock was taken inside signal-safe tracing"); } }
int dladdr(const void* addr, Dl_info* info) noexcept {
    sig_loader(uintptr_t(__builtin_return_address(0)));
    static auto real = reinterpret_cast<int(*)(const void*, Dl_info*)>(dlsym(RTLD_NEXT, "dladdr"));
    if(R && R->active && cur && !cur->in_rt && KN) {
        int m; { RtGuard g; m = module_at(uintptr_t(addr)); }
        if(m >= 0) { fake_dladdr(m, info); RtGuard g; dl_symbol(m, uintptr_t(addr), info); return 1; }
    }
    return real(addr, info);
}
int dladdr1(const void* addr, Dl_info* info, void** extra, int flags) noexcept {
    sig_loader(uintptr_t(__builtin_return_address(0)));
    static auto real = reinterpret_cast<int(*)(const void*, Dl_info*, void**, int)>(dlsym(RTLD_NEXT, "dladdr1"));
    if(R && R->active && cur && !cur->in_rt && KN) {
        int m; { RtGuard g; m = module_at(uintptr_t(addr)); }
        if(m >= 0) { fake_dladdr(m, info); if(flags == RTLD_DL_LINKMAP) *extra = KN->maps[m].get(); return 1; }
    }
    return real(addr, info, extra, flags);
}

// ------------------------------------------------------------------ libbacktrace: the same symbol model behind its interface
struct backtrace_state { int threaded = 0; int inside = 0; };
static backtrace_state* bt_state = nullptr;
using bt_err = void(*)(void*, const char*, int);
using bt_full = int(*)(void*, uintptr_t, const char*, int, const char*);
using bt_sym = void(*)(void*, uintptr_t, const char*, uintptr_t, uintptr_t);
backtrace_state* backtrace_create_state(const char* filename, int threaded, bt_err err, void* data) {
    long v;
    {
        RtGuard g; sched_point("bt.create", true);
        R->stats["bt.create"]++;
        if(bt_state) violation("second-state", "backtrace_create_state was called again after it had succeeded, which leaks the first state");
        if(filename && !*filename) violation("bad-argument", "backtrace_create_state got an empty file name");
        v = fault("bt.create", 1);
        if(!v) { bt_state = new backtrace_state; bt_state->threaded = threaded; }
    }
    if(v) { err(data, "out of memory", ENOMEM); return nullptr; }
    sched_point("bt.create", true);
    return bt_state;
}
struct BtInside {
    backtrace_state* s;
    BtInside(backtrace_state* st) : s(st) {
        RtGuard g; sched_point("bt", true);
        if(!s || s != bt_state) violation("bad-argument", "libbacktrace was called with %s state", s ? "a wrong" : "no");
        if(s->inside++ && !s->threaded) violation("unsynchronised", "libbacktrace was entered by two threads with a state that is not for threads");
    }
    ~BtInside() { s->inside--; }
};
static bool bt_lookup(uintptr_t pc, SymInfo& out) { int m = module_at(pc); if(m < 0 || !symbol_model) return false; auto& mod = *KN->modules[size_t(m)]; out = symbol_model(KN->names[size_t(m)]->empty() ? KN->exe : mod.path, pc - mod.load_addr); return true; }
int backtrace_pcinfo(backtrace_state* st, uintptr_t pc, bt_full cb, bt_err err, void* data) {
    BtInside in(st); long v; SymInfo* s = nullptr; struct Del { SymInfo*& s; ~Del() { RtGuard g; delete s; } } del{s}; bool known;
    { RtGuard g; R->stats["bt.pcinfo"]++; v = fault("bt.pcinfo", 3); s = new SymInfo; known = bt_lookup(pc, *s); }
    sched_point("bt.pcinfo", true);
    if(v == 1) { err(data, "no debug info in ELF executable", -1); return 0; }
    if(v == 2) { err(data, "read failed", EIO); return 0; }
    if(v == 3 || !known || s->kind == 2 || s->kind == 3) return cb(data, pc, nullptr, 0, nullptr);
    return cb(data, pc, s->file.c_str(), s->line > 0 ? int(s->line) : 0, s->kind == 4 ? nullptr : s->name().c_str());   // kind 4: a line table without a function
}
int backtrace_syminfo(backtrace_state* st, uintptr_t pc, bt_sym cb, bt_err err, void* data) {
    BtInside in(st); long v; SymInfo* s = nullptr; struct Del { SymInfo*& s; ~Del() { RtGuard g; delete s; } } del{s}; bool known;
    { RtGuard g; R->stats["bt.syminfo"]++; v = fault("bt.syminfo", 3); s = new SymInfo; known = bt_lookup(pc, *s); }
    sched_point("bt.syminfo", true);
    if(v == 1) { err(data, "no symbol table in ELF executable", -1); return 0; }
    if(v == 2) { err(data, "read failed", EIO); return 0; }
    if(v == 3 || !known || s->kind == 2) { cb(data, pc, nullptr, 0, 0); return 1; }
    cb(data, pc, s->name().c_str(), pc & ~uintptr_t(15), 16); return 1;
}

// ------------------------------------------------------------------ memory protection
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept {
    if(sut_context() && in_exe(uintptr_t(__builtin_return_address(0)))) {
        RtGuard g;
        R->stats["mmaps"]++;
        if(fault("mmap", 1)) { errno = ENOMEM; return MAP_FAILED; }
    }
    return reinterpret_cast<void*>(syscall(SYS_mmap, a, n, prot, flags, fd, off));
}
int mprotect(void* a, size_t n, int prot) noexcept {
    if(sut_context() && in_exe(uintptr_t(__builtin_return_address(0)))) {
        RtGuard g;
        R->stats["mprotects"]++;
        sched_point("mprotect", true);
        mprotect_calls().push_back({uintptr_t(a), n, prot, true});
        if(long v = fault("mprotect", 2)) { mprotect_calls().back().ok = false; errno = v == 1 ? ENOMEM : EACCES; return -1; }
        event("mprotect len %zu prot %d", n, prot);
    }
    return int(syscall(SYS_mprotect, a, n, prot));
}
long sysconf(int name) noexcept {
    static auto real = reinterpret_cast<long(*)(int)>(dlsym(RTLD_NEXT, "sysconf"));
    if(sut_context() && name == _SC_PAGESIZE) { RtGuard g; if(fault("sysconf", 1)) { errno = EINVAL; return -1; } }
    return real(name);
}

// ------------------------------------------------------------------ time
int nanosleep(const struct timespec* t, struct timespec*) {
    if(!sut_context()) return int(syscall(SYS_nanosleep, t, nullptr));
    sleep_us(uint64_t(t->tv_sec) * 1000000 + uint64_t(t->tv_nsec) / 1000); return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* r) {
    if(!sut_context()) return int(-syscall(SYS_clock_nanosleep, c, flags, t, r));
    sleep_us(uint64_t(t->tv_sec) * 1000000 + uint64_t(t->tv_nsec) / 1000); return 0;
}
int usleep(useconds_t us) { if(!sut_context()) { struct timespec t{us / 1000000, long(us % 1000000) * 1000}; return int(syscall(SYS_nanosleep, &t, nullptr)); } sleep_us(us); return 0; }
int sched_yield() noexcept { if(!sut_context()) return int(syscall(SYS_sched_yield)); sched_point("sched_yield", true); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    if(!sut_context()) return int(syscall(SYS_clock_gettime, c, t));
    t->tv_sec = time_t(1700000000 + R->now / 1000000); t->tv_nsec = long(R->now % 1000000) * 1000; return 0;
}
}
