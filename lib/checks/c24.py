import importlib
import build
import c18
import c31
from c06 import cases as run_cases, args_of, HIER, INITS
from common import *
from vlib import Sub, Violation

RULE = ("Routines (from memory or file, one row to thousands, one column, one cluster (except for pruned routines, which require two), more threads than rows) and the operation "
        "histories of the other checks are run in builds with address and undefined-behaviour sanitizers, vector bounds annotations "
        "and assertions on, and (memcheck subs) under a memory checker that also tracks uninitialised values. Any report, abort, "
        "signal or internal assertion is a violation; a wrong answer is not this check's business. Non-trivial when two or more "
        "rows were processed or the underlying check counts the case as non-trivial.")
ASSUMPTIONS = ["NUMA allocations are served from the ordinary heap so that the sanitizers see their bounds",
               "leaks are not counted", "memory owned by the OpenMP runtime is not instrumented"]
A, V = ("asan", "routines"), ("vg", "routines")


@st.composite
def cases(draw, algs=tuple(INITS), **kw):
    c = draw(run_cases(algs=algs, **kw))
    if draw(st.integers(0, 3)) == 0:
        c["T"] = draw(st.integers(1, 16))
    if c["alg"] in ("full", "skmeans", "medoid", "fcm") and draw(st.integers(0, 7)) == 0:
        c["k"] = 1
        c["C"] = draw(start_centers(c["X"]["n"], c["X"]["m"], 1, allow_far=False))
    if draw(st.integers(0, 9)) == 0 and c["alg"] not in HIER:
        c["iters"] = 0
    c["file"] = not c["alg"].startswith("omp") and draw(st.integers(0, 2)) == 0
    return c


def t_run(ctx, c):
    X = matrix(c["X"])
    kw = args_of(c, X)
    if c["file"]:
        kw["file"] = ctx.tmp("x.bin")
    r = ctx.call("run", **dict(kw, timeout=100))
    if r["status"] != "ok":
        raise Violation("%s raised: %s" % (c["alg"], r["status"]), "crash")
    return X.shape[0] > 1, [c["alg"], c["init"], "file" if c["file"] else "memory"] + (["k=1"] if c["k"] == 1 else [])


def memory_only(f):
    """The wrapped check's test, of whose complaints only abnormal ends count."""
    def t(ctx, c):
        try:
            return f(ctx, c)
        except Violation as v:
            if v.kind == "crash":
                raise
            return False, ["other-property"]
    return t


def reuse(mod, names, n, variant="asan"):
    M = importlib.import_module(mod)
    out = []
    for s in M.SUBS:
        if s.name in names and s.build:
            out.append(Sub("%s-%s-%s" % (mod, s.name, variant), s.strategy, memory_only(s.test), n, n * 12, build=(variant, s.build[1])))
    return out


def prepare():
    return {"bins": build.cli("asan")}


OPS = (("c17", ("file-run", "redistributed", "binary", "text", "cluster-file"), 500), ("c19", ("dense", "prune", "h", "sparse", "algebra", "hids"), 600),
       ("c20", ("history", "square", "vectors"), 800), ("c21", ("half", "pairwise", "set"), 600), ("c22", ("queue", "ranges", "local", "runs"), 300),
       ("c25", ("pairs", "names"), 600), ("c26", ("small", "large"), 500), ("c27", ("streams",), 500), ("c32", ("prunings", "activation", "activity"), 200),
       ("c28", ("map", "bools", "ids", "remap", "equal", "results", "powers"), 500))
SUBS = [Sub("routines", cases(), t_run, 3600, 60000, build=A),
        Sub("routines-tiny", cases(max_n=6, max_m=3, max_T=16), t_run, 1600, 20000, build=A),
        Sub("routines-large", cases(max_n=1500, max_m=16, min_n=100, max_T=16), t_run, 400, 8000, build=A),
        Sub("routines-wide", cases(max_n=200, max_m=80, min_n=20, max_T=24, max_k=60), t_run, 400, 8000, build=A),
        Sub("routines-cols", grown(cases(), m=COLS), t_run, 200, 3000, build=A),
        Sub("routines-huge", grown(cases(algs=[a for a in INITS if a != "medoid"], max_m=3), (20000, 70000)), t_run, 64, 800, build=A),
        Sub("routines-many", grown(cases(algs=[a for a in INITS if a not in HIER], max_m=3), (400, 1200), (100, 290)), t_run, 120, 1600, build=A),
        Sub("routines-memcheck", cases(max_n=40), t_run, 400, 20000, build=V)]
SUBS += [Sub("c31-%s-asan" % s.name, s.strategy, memory_only(s.test), 160, 2400, build=A) for s in c31.SUBS if s.name in ("in-turn", "at-once")]
SUBS.append(Sub("cli-asan", c18.cases(max_n=30), memory_only(c18.t_cli), 1200, 20000, build=A))
for mod, names, n in OPS:
    SUBS += reuse(mod, names, n)
for mod, names, n in (("c19", ("dense", "prune", "h", "sparse", "algebra"), 40), ("c20", ("history", "square", "vectors"), 50),
                      ("c21", ("half", "pairwise", "set"), 40), ("c28", ("map", "equal", "results"), 40), ("c27", ("streams",), 40)):
    SUBS += reuse(mod, names, n, "vg")
