"""Builds the simulator binaries from /repo's working tree (content-keyed object cache in /verif/build, git-ignored)."""
import glob, hashlib, os, re, subprocess, sys, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
OUT = os.path.join(VERIF, "build")
CXX = "g++"

COMMON = ["-DCPPTRACE_STATIC_DEFINE", "-DNOMINMAX", "-DHAS_ATTRIBUTE_PACKED", "-DCPPTRACE_HAS_CXX_EXCEPTION_TYPE"]
A2L = ["-DCPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE", '-DCPPTRACE_ADDR2LINE_PATH="/usr/bin/addr2line"']
DLFO = ["-DCPPTRACE_HAS_DL_FIND_OBJECT", "-DCPPTRACE_HAS_DLADDR1"]
ABI = ["-DCPPTRACE_DEMANGLE_WITH_CXXABI"]
CONFIGS = {
    # name: (defines, link libs)
    "a2l": (A2L + DLFO + ABI + ["-DCPPTRACE_UNWIND_WITH_UNWIND"], []),
    "unw": (A2L + DLFO + ABI + ["-DCPPTRACE_UNWIND_WITH_LIBUNWIND", "-DUNW_LOCAL_ONLY"], ["-lunwind"]),
    "dl": (["-DCPPTRACE_GET_SYMBOLS_WITH_LIBDL", "-DCPPTRACE_HAS_DLADDR1"] + ABI + ["-DCPPTRACE_UNWIND_WITH_UNWIND"], []),
    "a2e": (A2L + ["-DCPPTRACE_HAS_DLADDR1"] + ABI + ["-DCPPTRACE_UNWIND_WITH_EXECINFO"], []),
    "bt": (["-DCPPTRACE_GET_SYMBOLS_WITH_LIBBACKTRACE"] + DLFO + ABI + ["-DCPPTRACE_UNWIND_WITH_UNWIND"], []),
    "nothing": (["-DCPPTRACE_GET_SYMBOLS_WITH_NOTHING", "-DCPPTRACE_UNWIND_WITH_NOTHING", "-DCPPTRACE_DEMANGLE_WITH_NOTHING"], []),
}
SUT_FLAGS = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
             "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-builtin-memcmp", "-fno-builtin-strlen", "-w"]
PLAIN_SUT_FLAGS = ["-std=gnu++17", "-O2", "-g1", "-U_FORTIFY_SOURCE", "-w"]
HARNESS_FLAGS = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-w"]
WRAPS = ["memcpy", "memmove", "memset", "memcmp", "strlen"]


def _digest_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        for f in sorted(glob.glob(p, recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def gen_version():
    d = os.path.join(OUT, "gen", "cpptrace"); os.makedirs(d, exist_ok=True)
    m = re.search(r"^\s*VERSION\s+(\d+)\.(\d+)\.(\d+)", open(REPO + "/CMakeLists.txt").read(), re.M)
    t = open(REPO + "/cmake/in/version-hpp.in").read()
    for k, v in zip(("MAJOR", "MINOR", "PATCH"), m.groups()):
        t = t.replace("@CPPTRACE_VERSION_%s@" % k, v)
    f = os.path.join(d, "version.hpp")
    if not os.path.exists(f) or open(f).read() != t:
        tmp = f + ".%d" % os.getpid()
        open(tmp, "w").write(t); os.replace(tmp, f)
    return os.path.join(OUT, "gen")


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = "\n".join(l for l in r.stdout.splitlines() if "error" in l or "undefined" in l)
        raise BuildError("command failed: %s\n%s\n%s" % (" ".join(cmd), errs[:2500], r.stdout[-2500:]))


def _compile(args):
    cmd, src, key = args
    obj = os.path.join(OUT, "obj", hashlib.sha256((key + "\0" + src + "\0" + "\0".join(cmd)).encode()).hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d" % (os.getpid(), threading.get_ident())
        _run(cmd + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    return obj


def build_plugin(name, k, incs, ccv):
    """a shared library that uses the library's headers; loaded at run time by a scenario"""
    src = os.path.join(VERIF, "scen", "plugins", name + ".cpp")
    cmd = [CXX, "-std=gnu++17", "-O1", "-g1", "-w", "-fPIC", "-shared", "-fno-gnu-unique", "-DPLUGIN=%d" % k, "-DCPPTRACE_STATIC_DEFINE"] + incs
    if k == 3: cmd.append("-Wl,-z,norelro")     # its type_infos stay in writable pages
    key = ccv + _digest_tree([REPO + "/include/**/*.h*", VERIF + "/scen/plugins/*"])
    so = os.path.join(OUT, "plugin_%s_%d_%s.so" % (name, k, hashlib.sha256((key + "\0".join(cmd)).encode()).hexdigest()[:16]))
    if not os.path.exists(so):
        for old in glob.glob(os.path.join(OUT, "plugin_%s_%d_*" % (name, k))): os.unlink(old)
        tmp = so + ".tmp%d" % os.getpid()
        _run(cmd + [src, "-o", tmp]); os.replace(tmp, so)
    return so


def build(config, scenarios, plain=False):
    """returns the path of the simulator binary for one configuration and set of scenario files"""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    gen = gen_version()
    defs, libs = CONFIGS[config]
    incs = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + gen, "-I" + VERIF + "/sim", "-I" + VERIF + "/scen"]
    ccv = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE, text=True).stdout
    repo_key = ccv + _digest_tree([REPO + "/src/**/*.[ch]pp", REPO + "/include/**/*.h*", gen + "/**/*.hpp"])
    sim_key = ccv + _digest_tree([VERIF + "/sim/*", VERIF + "/scen/*.hpp"])
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    jobs = []
    for s in srcs:
        jobs.append(([CXX] + (PLAIN_SUT_FLAGS if plain else SUT_FLAGS) + COMMON + defs + incs[:3], s, repo_key))
    nsut = len(jobs)
    for s in ("rt.cpp", "kernel.cpp", "main.cpp"):
        jobs.append(([CXX] + HARNESS_FLAGS + incs, os.path.join(VERIF, "sim", s), sim_key))
    tag = config + ("_plain" if plain else "")
    for s in scenarios:
        src = os.path.join(VERIF, "scen", s + ".cpp")
        extra = ["-DSIM_CONFIG_" + config.upper(), '-DSIM_CONFIG="%s"' % tag]
        if plain: extra.append("-DSIM_PLAIN")
        m = re.search(r"//\s*flags:(.*)", open(src).read())
        if m: extra += m.group(1).split()
        m = re.search(r"//\s*plugins:\s*(\w+)\s+(\d+)", open(src).read())
        if m: extra.append('-DSIM_PLUGINS="%s"' % ":".join(build_plugin(m.group(1), k, incs, ccv) for k in range(int(m.group(2)))))
        jobs.append(([CXX] + HARNESS_FLAGS + COMMON + defs + incs + extra, src, sim_key + repo_key + _digest_tree([src])))
    # the slowest translation units first
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][1]) - (10**6 if i >= nsut else 0))
        futs = {i: ex.submit(_compile, jobs[i]) for i in order}
        objs = [futs[i].result() for i in range(len(jobs))]
    link = ["-no-pie", "-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAPS] + libs + ["-ldl", "-lpthread"]
    h = hashlib.sha256("\0".join(objs + link).encode()).hexdigest()[:16]
    exe = os.path.join(OUT, "sim_%s_%s_%s" % (tag, "_".join(scenarios), h))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(OUT, "sim_%s_%s_*" % (tag, "_".join(scenarios)))):
            try: os.unlink(old)
            except OSError: pass
        tmp = exe + ".tmp%d" % os.getpid()
        _run([CXX] + objs + link + ["-o", tmp])
        os.replace(tmp, exe)
    fcntl.flock(lock, fcntl.LOCK_UN); lock.close()
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        print(build(sys.argv[1].replace("_plain", ""), sys.argv[2].split(","), plain="_plain" in sys.argv[1]))
    except BuildError as e:
        print(e); sys.exit(2)
    print("%.1fs" % (time.time() - t), file=sys.stderr)
