from common import *
from vlib import Sub, TASKS

RULE = ("A case picks a routine, data matrix (any family, incl. duplicates and grids), k, initialisation, metric, "
        "limits and thread count; the returned object must be a valid, self-consistent partition. Non-trivial when at "
        "least two clusters are non-empty or the data has >=2 distinct rows and k>=2.")
ASSUMPTIONS = ["at least one pass is run; cosine only with non-zero samples and no empty (zero) center expected"]
INITS = {"full": ("none", "forgy", "random", "kmeanspp"), "prune": ("none", "forgy", "random", "kmeanspp"),
         "omp_full": ("none", "forgy", "random", "kmeanspp"), "omp_prune": ("none", "forgy", "random", "kmeanspp"),
         "mb": ("none", "forgy", "random", "kmeanspp"), "skmeans": ("none", "forgy", "random", "kmeanspp"),
         "medoid": ("forgy",), "fcm": ("none", "forgy"), "hclust": ("none", "forgy"), "xmeans": ("none", "forgy"),
         "gmeans": ("none", "forgy"), "kmpp": ("none",)}
MEANS = ("full", "prune", "omp_full", "omp_prune", "hclust", "xmeans", "gmeans")
HIER = ("hclust", "xmeans", "gmeans")


def metrics_of(alg):
    if alg == "omp_full":
        return ["eucl", "cos"]
    if alg == "prune" or alg == "omp_prune":
        return ["eucl"]
    if alg in HIER or alg == "skmeans" or alg == "fcm":
        return ["eucl", "sqeucl", "taxi"]
    return list(METRICS)


@st.composite
def cases(draw, algs=tuple(INITS), max_n=60, max_m=6, min_n=1, max_T=8, max_k=20):
    alg = draw(st.sampled_from(list(algs)))
    metric = draw(st.sampled_from(metrics_of(alg)))
    modes = ("neg",) if metric == "cos" else vlib.MODES
    X = draw(mats(max(min_n, 2), max_n, 1, max_m, modes=modes))
    k = draw(st.one_of(st.integers(2, 8), st.integers(2, max_k)))
    if alg not in HIER:
        k = max(2, min(k, X["n"]))
    c = {"alg": alg, "X": X, "k": k, "metric": metric, "init": draw(st.sampled_from(INITS[alg])),
         "T": draw(nthr(max_T)), "iters": draw(st.one_of(st.just(20), st.integers(1, 6))),
         "tol": draw(st.one_of(st.just(-1.0), st.integers(0, 20).map(lambda q: q / 40.0)))}
    c["C"] = draw(start_centers(X["n"], X["m"], 2 if alg in HIER else k, allow_far=False))
    if alg == "mb":
        c["mb"] = draw(st.integers(1, X["n"]))
    if alg == "medoid":
        c["rate"] = draw(st.sampled_from([1.0, .2, .5, .8]))
    if alg == "fcm":
        c["fuzz"] = draw(st.integers(2, 4))
    if alg in HIER:
        c["mcs"] = draw(st.integers(0, 6))
        c["strict"] = draw(st.integers(0, 4))
    if alg == "kmpp":
        c["nstart"] = draw(st.integers(1, 5))
    return c


def args_of(c, X):
    kw = dict(alg=c["alg"], nrow=X.shape[0], ncol=X.shape[1], k=c["k"], T=c["T"], data=X, init=c["init"],
              iters=c["iters"], tol=c["tol"], dist=c["metric"])
    if c["init"] == "none" and c["alg"] != "kmpp":
        C = centers(c["C"], X)
        if c["alg"] == "skmeans":
            lo, hi = X.min(0), X.max(0)
            C = (C - lo) / np.where(hi > lo, hi - lo, 1)
        kw["centers"] = C
    for q in ("mb", "rate", "fuzz", "mcs", "strict", "nstart"):
        if q in c:
            kw[q] = c[q]
    return kw


def scaled(X):
    lo, hi = X.min(0), X.max(0)
    return (X - lo) / np.where(hi > lo, hi - lo, 1)


def t_valid(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    kw = args_of(c, X)
    if c["metric"] == "cos":
        # an empty cluster has a zero center, for which the cosine is undefined
        C = kw.get("centers")
        if C is None:
            if c["alg"] in ("full", "omp_full"):
                C = Result(ctx.run(**dict(kw, iters=0))).cen
        if C is not None and c["alg"] in ("full", "omp_full"):
            ref = lloyd(X, C, "cos", c["iters"], c["tol"])
            if ref.undefined or ref.ambiguous:
                return False, ["undefined-cos"]
    r = ctx.run(**kw)
    res = Result(r)
    hier = c["alg"] in HIER
    means = c["alg"] in MEANS
    from hier import floor_pow2
    valid(res, n, m, kexact=None if hier else c["k"], kmax=floor_pow2(c["k"]) if hier else None,
          X=X if means else None, nonempty=hier)
    if c["alg"] == "skmeans":
        valid(res, n, m, kexact=c["k"], X=scaled(X))
    ne = int((res.cnt > 0).sum())
    if not hier and c["alg"] != "mb" and res.iters > c["iters"]:
        raise Violation("%s reports %d iterations with a limit of %d" % (c["alg"], res.iters, c["iters"]))
    return ne >= 2, [c["alg"], c["init"], c["metric"], "clusters>=2" if ne > 1 else "one"]


SUBS = [Sub("valid", cases(), t_valid, 9600, 160000),
        Sub("valid-large", cases(max_n=1200, max_m=16, min_n=100, max_T=16), t_valid, 800, 16000),
        Sub("valid-wide", cases(max_n=300, max_m=120, min_n=30, max_T=24, max_k=90), t_valid, 800, 12000),
        Sub("valid-tasks", cases(algs=("prune", "mb", "kmpp")), t_valid, 2000, 30000, build=TASKS),
        Sub("valid-cols", grown(cases(), m=COLS), t_valid, 500, 6000),
        Sub("valid-huge", grown(cases(algs=[a for a in INITS if a != "medoid"], max_m=3), HUGE), t_valid, 192, 2400),
        Sub("valid-many", grown(cases(algs=[a for a in INITS if a not in HIER], max_m=4), (500, 1500), MANY), t_valid, 360, 4800)]
