from c06 import cases as run_cases, args_of, HIER, INITS
from c03 import cases as sched_cases, undefined
from common import *
from vlib import Sub, Violation

RULE = ("A case picks a routine and configuration (also: created and destroyed without running, fewer rows than threads, several "
        "thread counts) and a scheduler seed. Every lock, condition, create, join and shared-memory access is a possible thread "
        "switch under the deterministic scheduler; a state in which no thread can continue is reported as a deadlock, use of a "
        "destroyed lock or condition as misuse, and a run that does not answer within its limit as a hang. Non-trivial when a "
        "worker thread ran and at least 20 switches happened.")
ASSUMPTIONS = ["condition waits may wake spuriously", "thread creation succeeds"]
ALGS = ("full", "prune", "mb", "skmeans", "medoid", "fcm", "hclust", "xmeans", "gmeans", "kmpp")


@st.composite
def cases(draw, **kw):
    c = draw(sched_cases(algs=ALGS, **kw))
    if draw(st.integers(0, 3)) == 0 and c["alg"] not in ("kmpp",):
        c["norun"] = 1
    c["seeds"] = draw(st.lists(st.integers(1, 1 << 30), min_size=2, max_size=4))
    c["T"] = draw(st.sampled_from([3, 2, 4, 5, 8, 1] * 3 + [17, 40]))
    c["iters"] = min(c["iters"], 4)
    return c


def t_term(ctx, c):
    X = matrix(c["X"])
    kw = args_of(c, X)
    if undefined(c, X, kw):
        return False, ["undefined-cos"]
    sw = 0
    for s in c["seeds"]:
        r = ctx.call("run", **dict(kw, sched=s, norun=c.get("norun", 0), timeout=120))
        if r["status"] != "ok":
            raise Violation("%s: %s" % (c["alg"], r["status"]), "crash")
        sw = max(sw, int(r["switches"]))
    return sw >= 20, [c["alg"], "norun" if c.get("norun") else "run", "T=%d" % c["T"]]


def t_nat(ctx, c):
    X = matrix(c["X"])
    kw = args_of(c, X)
    if undefined(c, X, kw):
        return False, ["undefined-cos"]
    kw.pop("T")
    r = ctx.call("run", **dict(kw, threads=[float(c["T"])], reps=15, norun=c.get("norun", 0), timeout=120))
    if r["status"] != "ok":
        raise Violation("%s: %s" % (c["alg"], r["status"]), "crash")
    return c["T"] > 1, [c["alg"], "norun" if c.get("norun") else "run", "T=%d" % c["T"]]


SUBS = [Sub("schedules", cases(max_n=24, min_n=6, max_m=3), t_term, 6000, 120000, build=("sched", "routines")),
        Sub("natural", cases(max_n=24, min_n=6, max_m=3), t_nat, 1600, 20000),
        Sub("natural-large", cases(max_n=1500, min_n=50, max_m=8, max_k=40), t_nat, 160, 3000)]
