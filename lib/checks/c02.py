from common import *
from vlib import Sub, TASKS

RULE = ("A case is a data matrix, Euclidean start (given centers, incl. far-moving ones, or forgy/random/k-means++), "
        "iteration limit, tolerance, thread count and engine (pthread or OpenMP); the pruned result is compared with "
        "the exhaustive one and with a Lloyd model. Non-trivial when k>=2, Lloyd needs >=3 passes (pruning active "
        "from the second) and no near-tie was met.")
ASSUMPTIONS = ["near-tied cases (1e-11 relative; after the first pass also exact ties, which pruning may "
               "leave with their current owner) are only checked for validity",
               "bounds are Euclidean, so the property is stated for the Euclidean metric only"]


@st.composite
def cases(draw, engine, max_n=60, max_m=5, wide=False):
    if wide:            # many columns, many clusters
        X = draw(mats(40, 400, 4, 120, modes=("hash", "hblobs", "neg", "wide", "sep", "blobs")))
        k = min(draw(st.one_of(st.integers(10, 70), st.integers(2, 12))), X["n"])
    else:
        X = draw(st.one_of(mats(10, max_n, 1, max_m, modes=("hash", "hblobs", "cont", "neg", "wide", "grid")),
                           mats(2, max_n, 1, max_m)))
        k = max(2, min(draw(st.integers(2, 9)), X["n"]))
    return {"X": X, "k": k, "C": draw(start_centers(X["n"], X["m"], k)), "engine": engine,
            "T": draw(nthr(16 if wide else 6)),
            # translation of the whole data set away from / onto the origin
            "shift": 0.0 if wide else draw(st.sampled_from([0.0, 0.0, 100.0, -37.5])),
            "iters": draw(st.one_of(st.sampled_from([100, 100000]), st.integers(1, 8))),
            "tol": draw(st.one_of(st.just(-1.0), st.just(-1.0), st.integers(0, 20).map(lambda q: q / 40.0)))}


def t_prune(ctx, c):
    X = matrix(c["X"]) + c["shift"]
    n, m = X.shape
    C = centers(c["C"], X)
    iters = c["iters"]
    ref = lloyd(X, C, "eucl", iters, c["tol"])
    kw = dict(nrow=n, ncol=m, k=c["k"], T=c["T"], data=X, centers=C, init="none", tol=c["tol"], dist="eucl",
              iters=iters)
    pre = "" if c["engine"] == "pthread" else "omp_"
    rp = Result(ctx.run(alg=pre + "prune", **kw))
    valid(rp, n, m, kexact=c["k"], X=X)
    tags = [c["C"]["kind"], "empty" if ref.empties else "noempty"]
    if ref.ambiguous or ref.dup:     # pruning may keep the current owner of an exactly tied sample
        return False, tags + ["near-tie"]
    rf = Result(ctx.run(alg=pre + "full", **kw))
    same(rp, rf, "pruned vs exhaustive", scale_of(X))
    vs_lloyd(rp, ref, X, "pruned k-means")
    return ref.passes >= 3, tags + (["passes>=3"] if ref.passes >= 3 else [])


SUBS = [Sub("slow", slow(st.sampled_from(["pthread", "openmp"]).flatmap(lambda e: cases(e))), t_prune, 120, 2000),
        Sub("pthread", cases("pthread"), t_prune, 4000, 80000), Sub("openmp", cases("openmp"), t_prune, 2500, 40000),
        Sub("tasks", cases("pthread"), t_prune, 4000, 80000, build=TASKS),
        Sub("wide", st.sampled_from(["pthread", "openmp"]).flatmap(lambda e: cases(e, wide=True)), t_prune, 1200, 16000),
        Sub("cols", grown(st.sampled_from(["pthread", "openmp"]).flatmap(lambda e: cases(e)), n=(60, 500), m=COLS), t_prune, 240, 3000),
        Sub("huge", st.sampled_from(["pthread", "openmp"]).flatmap(lambda e: grown(cases(e, max_m=3), HUGE)), t_prune, 48, 600),
        Sub("many", st.sampled_from(["pthread", "openmp"]).flatmap(lambda e: grown(cases(e, max_m=4), (500, 2500), MANY)), t_prune, 120, 1600)]
