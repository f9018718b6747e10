// Runner: explores seeds (each in a fresh forked process), or replays one explicit schedule and fault trace.
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include "rt_int.hpp"
using namespace sim;

static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
extern "C" void sim_scenario_setup() __attribute__((weak));

static constexpr size_t kOut = 8 << 20;
static char* out_buf;

static Plan parse_plan(std::istream& in, Run& run, std::string& scen, uint64_t& seed) {
    Plan p; std::string line;
    while(std::getline(in, line)) {
        std::istringstream ss(line); std::string k; ss >> k;
        if(k == "scenario") ss >> scen;
        else if(k == "seed") ss >> seed;
        else if(k == "param") { std::string n; long v; ss >> n >> v; p.p[n] = v; }
        else if(k == "op") { Op op; long v; while(ss >> v) op.push_back(v); p.ops.push_back(op); }
        else if(k == "generate") { run.explicit_mode = false; }      // everything is drawn from the seed again
        else if(k == "fault") { std::string s; long n, v; ss >> s >> n >> v; run.fault_map[{s, n}] = v; }
        else if(k == "sched") { uint64_t s; long c; ss >> s >> c; run.sched_map[s] = c; }
    }
    return p;
}
static const Scenario* find(const std::string& n) { for(auto& s : scenarios()) if(n == s.name) return &s; return nullptr; }

// runs one case in a child; returns the JSON line
static std::string run_child(const Scenario& sc, uint64_t seed, const Plan* plan, Run* run) {
    *reinterpret_cast<uint64_t*>(out_buf) = 0;
    run->out = out_buf; run->out_cap = kOut; run->seed = seed;
    pid_t pid = fork();
    if(pid == 0) {
        // what the code under test prints does not mix with the results
        int null = int(syscall(SYS_open, "/dev/null", O_WRONLY)); if(null >= 0) { syscall(SYS_dup2, null, 1); syscall(SYS_close, null); }
        run_one(sc, seed, plan, run); _exit(0); }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    uint64_t n = *reinterpret_cast<uint64_t*>(out_buf);
    if(n == 0) {
        char b[256];
        snprintf(b, sizeof b, "{\"seed\":%llu,\"cls\":\"died\",\"msg\":\"run process ended without a result, wait status %d\",\"hash\":\"died%d\",\"ih\":\"0\",\"steps\":0,\"us\":0,\"switches\":0,\"events\":0,\"stats\":{},\"states\":[],\"nstates\":0}\n", (unsigned long long)seed, st, st);
        return b;
    }
    return std::string(out_buf + 8, n);
}

int main(int argc, char** argv) {
    // deterministic addresses where the system permits it; nothing the oracles use depends on them
    if(!getenv("SIM_NO_REEXEC")) {
        setenv("SIM_NO_REEXEC", "1", 1);
        if(personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a;
    for(int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    std::string mode = argc > 1 ? argv[1] : "list";
    out_buf = static_cast<char*>(mmap(nullptr, kOut, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if(sim_scenario_setup) sim_scenario_setup();
    if(mode == "list") { for(auto& s : scenarios()) printf("%s\n", s.name); return 0; }
    if(mode == "explore") {
        // --scenario X --seed0 S --stride K --count N --seconds T [--first 1] [--detail 1]
        const Scenario* sc = find(a["--scenario"]);
        if(!sc) { fprintf(stderr, "no scenario %s\n", a["--scenario"].c_str()); return 2; }
        uint64_t seed = strtoull(a["--seed0"].c_str(), nullptr, 10), stride = a.count("--stride") ? strtoull(a["--stride"].c_str(), nullptr, 10) : 1;
        long count = a.count("--count") ? atol(a["--count"].c_str()) : 1;
        double secs = a.count("--seconds") ? atof(a["--seconds"].c_str()) : 1e9;
        double t0 = wall();
        long viol = 0, maxviol = a.count("--maxviol") ? atol(a["--maxviol"].c_str()) : 3;
        for(long i = 0; i < count && wall() - t0 < secs; i++, seed += stride) {
            Run* run = new Run;
            run->want_detail = a.count("--detail") != 0;
            if(a.count("--wall")) run->wall_s = atol(a["--wall"].c_str());
            std::string r = run_child(*sc, seed, nullptr, run);
            fputs(r.c_str(), stdout); fflush(stdout);
            delete run;
            if(r.find("\"cls\":\"\"") == std::string::npos && ++viol >= maxviol) break;
        }
        return 0;
    }
    if(mode == "replay" || mode == "replayall") {
        // replay one or more explicit traces: --file F (repeatable through a list file for replayall)
        std::vector<std::string> files;
        if(mode == "replay") files.push_back(a["--file"]);
        else { std::string l; while(std::getline(std::cin, l)) files.push_back(l); }
        for(auto& f : files) {
            Run* run = new Run;
            run->explicit_mode = true; run->want_detail = true;
            run->verbose = a.count("--verbose") != 0;
            if(a.count("--wall")) run->wall_s = atol(a["--wall"].c_str());
            std::ifstream in(f);
            std::string scen; uint64_t seed = 0;
            Plan p = parse_plan(in, *run, scen, seed);
            const Scenario* sc = find(scen);
            if(!sc) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 2; }
            std::string r = run_child(*sc, seed, run->explicit_mode ? &p : nullptr, run);
            fputs(r.c_str(), stdout); fflush(stdout);
            delete run;
        }
        return 0;
    }
    return 2;
}
