from c06 import cases as run_cases, args_of, HIER, INITS
from common import *
from vlib import Sub, Violation

RULE = ("A case picks a routine and configuration, two thread counts and a scheduler seed. The reference run (first thread count, "
        "threads scheduled by the operating system or, for the OpenMP engines in this build, serially) is compared with a run under "
        "the deterministic scheduler that may switch threads at every shared-memory access, lock, condition or OpenMP operation. "
        "natural: repeated runs at several thread counts under the operating system's scheduler. Non-trivial when at least two "
        "threads ran, a switch happened and at least two clusters are non-empty.")
ASSUMPTIONS = ["data are continuous or integer-valued, so that a different summation order cannot decide a tie",
               "mini-batch runs use the whole data set as their batch; k-medoids sample every row"]
CONT = ("hash", "hblobs", "cont", "neg", "blobs", "wide", "hash", "hblobs")
EXACT = CONT + ("grid", "coarse", "idups", "idups")
EXACT_ALGS = ("full", "prune", "omp_full", "omp_prune", "mb")


@st.composite
def cases(draw, max_n=40, min_n=2, max_m=4, max_T=6, algs=tuple(INITS), max_k=20, modes=None):
    c = draw(run_cases(algs=algs, max_n=max_n, min_n=min_n, max_m=max_m, max_k=max_k))
    modes = modes or (EXACT if c["alg"] in EXACT_ALGS and c["metric"] != "cos" else ("neg",) if c["metric"] == "cos" else CONT)
    c["X"] = draw(mat_of(c["X"]["n"], c["X"]["m"], modes))
    if c["alg"] == "mb":
        c["mb"] = c["X"]["n"]
    if c["alg"] == "medoid":
        c["rate"] = 1.0
    if c["iters"] > 8:
        c["iters"] = 8
    Ts = [3, 2, 4, 1] + list(range(5, max_T + 1)) + ([17, 33, 70] if max_T > 6 else [])
    c["T"] = draw(st.sampled_from(Ts))
    c["T2"] = draw(st.sampled_from(Ts[::-1] + [2]))
    c["sched"] = draw(st.integers(1, 1 << 30))
    return c


def undefined(c, X, kw):
    if c["metric"] != "cos":
        return False
    C = kw.get("centers")
    return C is not None and lloyd(X, C, "cos", c["iters"], c["tol"]).undefined


def fragile(c, X, a, kw):
    """The answer hangs on a difference at rounding level, so summation order may decide it."""
    if c["alg"] in ("medoid", "kmpp"):
        D = dists(X, X, c["metric"])
        s = np.sort(D.ravel())
        return c["alg"] == "medoid" and _medoid_tie(X, a, D, c["metric"])
    if c["metric"] == "cos" and c["alg"] not in ("fcm", "kmpp") and a.k > 1:
        # parallel centers (always, in one dimension) differ by rounding only
        q = np.sort(dists(X, a.cen, "cos"), axis=1)
        if (q[:, 1] - q[:, 0] <= 1e-13).any():
            return True
    if c["alg"] == "fcm":
        d = dists(X, a.cen, c["metric"])
        q = np.sort(d, axis=1)
        if q.shape[1] > 1 and ((q[:, 1] - q[:, 0]) <= slack(X, c["metric"], 1e-6) + 1e-6 * q[:, 1]).any():
            return True
        E = dists(a.cen, a.cen, c["metric"]) + np.eye(a.k) * 1e9
        return bool((E < 1e-3 * scale_of(X)).any())
    return False


def _medoid_tie(X, a, D, metric):
    for j in range(a.k):
        w = np.flatnonzero(a.asg == j)
        if len(w) > 1:
            t = np.sort(D[np.ix_(w, w)].sum(0))
            if t[1] - t[0] <= slack(X, metric) + 1e-9 * abs(t[1]):
                return True
    return False


def compare(c, X, a, b, what):
    rel = 1e-6 if c["alg"] == "fcm" else 1e-8
    sc = scale_of(X) if c["alg"] != "skmeans" else 1.0
    same(a, b, what, sc, rel=rel, iters=True)


def t_sched(ctx, c):
    X = matrix(c["X"])
    kw = args_of(c, X)
    if undefined(c, X, kw):
        return False, ["undefined-cos"]
    a = Result(ctx.run(**kw))
    r = ctx.run(**dict(kw, T=c["T2"], sched=c["sched"], timeout=120))
    b = Result(r)
    try:
        compare(c, X, a, b, "%s with %d threads vs %d threads under schedule %d" % (c["alg"], c["T"], c["T2"], c["sched"]))
    except Violation:
        if fragile(c, X, a, kw) or fragile(c, X, b, kw):
            return False, ["tie"]
        raise
    return int(r["switches"]) > 0 and int(r["spawned"]) > 2 and int((a.cnt > 0).sum()) >= 2, [c["alg"], c["init"], "same-T" if c["T"] == c["T2"] else "T-differs"]


def t_natural(ctx, c):
    X = matrix(c["X"])
    kw = args_of(c, X)
    if undefined(c, X, kw):
        return False, ["undefined-cos"]
    T = [c["T"], c["T2"], c["T"], c["T2"]]
    kw.pop("T")
    r = ctx.run(**dict(kw, threads=[float(t) for t in T], reps=4))
    R = [Result(r, "%d." % i) for i in range(4)]
    for i in (1, 2, 3):
        try:
            compare(c, X, R[0], R[i], "%s: run 0 (%d threads) vs run %d (%d threads)" % (c["alg"], T[0], i, T[i]))
        except Violation:
            if fragile(c, X, R[0], kw) or fragile(c, X, R[i], kw):
                return False, ["tie"]
            raise
    return max(T) > 1 and int((R[0].cnt > 0).sum()) >= 2, [c["alg"], c["init"]]


SUBS = [Sub("schedule", cases(), t_sched, 10000, 160000, build=("sched", "routines")),
        Sub("schedule-omp", cases(algs=("omp_full", "omp_prune", "xmeans", "gmeans")), t_sched, 3000, 48000, build=("sched", "routines")),
        Sub("natural", cases(max_n=60, max_m=6, max_T=12), t_natural, 4000, 64000),
        Sub("natural-large", cases(max_n=900, min_n=200, max_m=12, max_T=16), t_natural, 600, 9600),
        Sub("natural-wide", cases(max_n=300, min_n=30, max_m=60, max_T=24, max_k=60), t_natural, 400, 6000),
        Sub("schedule-splits", cases(algs=("hclust", "xmeans", "gmeans"), max_n=80, min_n=20, max_m=2), t_sched, 1600, 24000, build=("sched", "routines")),
        # groups that are each asked to split in the same pass, and mostly refuse
        Sub("schedule-groups", cases(algs=("xmeans", "gmeans"), max_n=120, min_n=40, max_m=2, max_k=40, modes=("sep", "tree", "tree", "tree")), t_sched, 4000, 60000, build=("sched", "routines")),
        Sub("natural-cols", grown(cases(max_n=60, max_T=12), m=COLS), t_natural, 200, 3000),
        Sub("natural-huge", grown(cases(max_n=60, max_m=3, max_T=12, algs=[a for a in INITS if a != "medoid"]), HUGE), t_natural, 64, 800),
        Sub("natural-many", grown(cases(max_n=60, max_m=3, max_T=12, algs=[a for a in INITS if a not in HIER]), (400, 1200), (100, 290)), t_natural, 80, 1000)]
