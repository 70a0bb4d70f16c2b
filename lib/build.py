"""Out-of-tree builds of /repo's current sources.  Cached by content hash under /verif/build."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "build")
WSRC = os.path.join(VERIF, "lib", "worker")
SHIM = os.path.join(WSRC, "mpishim")
INC = ["-I" + REPO] + ["-I" + os.path.join(REPO, d) for d in
                       ("libman", "libkcommon", "libauto", "libdist")] + ["-I" + WSRC]
BASE = ["-std=c++11", "-fPIC", "-w", "-DSTATISTICS"]

VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "fast": ("g++", ["-O2", "-fopenmp", "-DUSE_NUMA"], ["-fopenmp", "-lnuma", "-lpthread", "-lrt"]),
    "asan": ("g++", ["-O1", "-g1", "-fopenmp", "-DUSE_NUMA", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
                     # &v[v.size()] and &v[0] of an empty vector name no memory
                     "-fno-sanitize=null,nonnull-attribute", "-D_GLIBCXX_SANITIZE_VECTOR"],
             ["-fopenmp", "-lnuma", "-lpthread", "-lrt", "-fsanitize=address,undefined",
              "-Wl,--wrap=numa_alloc_onnode", "-Wl,--wrap=numa_free"]),
    "vg": ("g++", ["-O1", "-g1", "-fopenmp", "-DUSE_NUMA"], ["-fopenmp", "-lnuma", "-lpthread", "-lrt",
           "-Wl,--wrap=numa_alloc_onnode", "-Wl,--wrap=numa_free"]),
    # thread-sanitizer instrumentation, linked against wrap_sched.cpp instead of its runtime
    "sched": ("g++", ["-O1", "-fopenmp", "-DUSE_NUMA", "-fsanitize=thread"],
              ["-lnuma", "-lpthread", "-lrt"] +
              ["-Wl,--wrap=pthread_" + f for f in ("cond_wait", "cond_signal", "cond_broadcast", "cond_init",
                                                   "cond_destroy", "mutex_lock", "mutex_unlock", "mutex_trylock",
                                                   "mutex_init", "mutex_destroy", "create", "join", "cond_timedwait")] +
              ["-Wl,--wrap=" + f for f in ("sched_yield", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
                                           "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
                                           "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
                                           "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE",
                                           "_ZNSt6thread4joinEv")]),
    # MPI programs against the strict stand-in under worker/mpishim, and against a real implementation
    "mpi": ("g++", ["-O2", "-fopenmp", "-I" + SHIM], ["-fopenmp", "-lpthread", "-lrt"]),
    "mpireal": ("mpicxx.openmpi", ["-O2", "-fopenmp"], ["-fopenmp", "-lpthread", "-lrt"]),
}
VARIANTS["mpiasan"] = ("g++", [f for f in VARIANTS["asan"][1] if f != "-DUSE_NUMA"] + ["-fno-sanitize=vptr", "-I" + SHIM],
                       ["-fopenmp", "-lpthread", "-lrt", "-fsanitize=address,undefined"])
# With the guard on, a task has a few rows instead of 8192: small inputs then make many tasks per thread.
def _tasks(rows):
    return "-DKNOR_VERIF_TASK_ROWS=%d" % rows


VARIANTS["tasks"] = ("g++", VARIANTS["fast"][1] + [_tasks(3)], VARIANTS["fast"][2])
for v, rows in (("sched", 5), ("asan", 7), ("vg", 4)):          # clustering routines (data structures: as shipped)
    VARIANTS[v + "t"] = (VARIANTS[v][0], VARIANTS[v][1] + [_tasks(rows)], VARIANTS[v][2])
VARIANTS["mpiasan"] = (VARIANTS["mpiasan"][0], VARIANTS["mpiasan"][1] + [_tasks(6)], VARIANTS["mpiasan"][2])
WEXTRA = {"asan": ["wrap_numa.cpp"], "vg": ["wrap_numa.cpp"], "sched": ["wrap_sched.cpp"]}


def srcs(dirs):
    r = []
    for d in dirs:
        r += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    return r


def _hash(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def _headers():
    r = []
    for d in ("libman", "libkcommon", "libauto", "libdist", "binding", "exec", "libkcommon/cxxopts"):
        for e in ("*.hpp", "*.cpp", "*.h"):
            r += glob.glob(os.path.join(REPO, d, e))
    return sorted(set(r))


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-3000:])


def build(variant, targets):
    """targets: dict binary name -> (list of repo source dirs, list of sources).  Sources that are
    relative are worker sources.  Returns the directory with the binaries."""
    cc, cf, lf = VARIANTS[variant]
    wfiles = sorted(f for f in glob.glob(os.path.join(WSRC, "**"), recursive=True) if os.path.isfile(f))
    key = _hash(_headers() + wfiles + [os.path.abspath(__file__)], (variant, sorted(targets.items())))
    d = os.path.join(OUT, variant + "-" + key)
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock-" + variant + "-" + key), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, ".done")):
            os.utime(os.path.join(d, ".done"))
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        jobs, objs = {}, {}
        for name, (dirs, ss) in targets.items():
            l = []
            for s in srcs(dirs) + [s if os.path.isabs(s) else os.path.join(WSRC, s) for s in ss]:
                o = os.path.join(d, s.strip("/").replace("/", "_") + ".o")
                own = cf
                if variant == "schedt" and s.startswith(WSRC):    # only the code under test is instrumented
                    own = [x for x in cf if x != "-fsanitize=thread"]
                jobs[o] = [cc] + BASE + own + INC + ["-c", s, "-o", o]
                l.append(o)
            objs[name] = l
        # biggest sources first keeps the pool busy
        order = sorted(jobs, key=lambda o: -os.path.getsize(jobs[o][-3]))
        # a driver of one part of knor that no longer compiles leaves the drivers of the others working
        part = lambda o: re.search(r"worker_(rt|ds)_\w+\.cpp\.o$", o) and not o.endswith("_main.cpp.o")
        order.sort(key=lambda o: 0 if part(o) else 1)
        broken = {}

        def compile(o):
            try:
                _run(jobs[o])
            except BuildError as e:
                if not part(o):
                    raise
                broken[o] = str(e)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(compile, order))
            for n in objs:
                objs[n] = [o for o in objs[n] if o not in broken]
            list(ex.map(lambda n: _run([cc] + objs[n] + ["-o", os.path.join(d, n)] + lf), list(objs)))
        for o in jobs:
            if o not in broken:
                os.unlink(o)
        if broken:
            with open(os.path.join(d, "broken.txt"), "w") as f:
                f.write("\n".join(broken.values()))
        open(os.path.join(d, ".done"), "w").close()
    _prune()
    return d


def _prune(keep=14):
    ds = [x for x in glob.glob(os.path.join(OUT, "*-*")) if os.path.exists(os.path.join(x, ".done"))]
    ds.sort(key=lambda x: -os.path.getmtime(os.path.join(x, ".done")))
    for x in ds[keep:]:
        shutil.rmtree(x, ignore_errors=True)


LIBS = ["libkcommon", "libman", "libauto"]


def worker(variant="fast", kind="routines"):
    extra = WEXTRA.get(variant, [])
    parts = [os.path.basename(f) for f in sorted(glob.glob(os.path.join(WSRC, ("rt" if kind == "routines" else kind) + "_*.cpp")))]
    if kind == "routines" and variant + "t" in VARIANTS:
        variant += "t"
    d = build(variant, {"w": (LIBS, ["main.cpp"] + parts + extra)})
    return os.path.join(d, "w")


def cli(variant="fast"):
    """All single-machine command-line tools, built with the project's own options."""
    names = [os.path.basename(f)[:-4] for f in sorted(glob.glob(os.path.join(REPO, "exec", "*.cpp")))]
    names = [n for n in names if n not in ("knord", "gmm")]
    return build(variant, {n: (LIBS, [os.path.join(REPO, "exec", n + ".cpp")] + WEXTRA.get(variant, [])) for n in names})


def knord(variant="mpi"):
    t = {"knord": (["libkcommon", "libman", "libdist"], [os.path.join(REPO, "exec", "knord.cpp")])}
    if variant == "mpireal":
        t["probe"] = ([], ["mpiprobe.cpp"])
    else:
        t["knord"][1].append("mpishim/mpishim.cpp")
    return os.path.join(build(variant, t), "knord")


if __name__ == "__main__":
    import time
    for a in sys.argv[1:]:
        t = time.time()
        print(eval(a), round(time.time() - t, 1))
