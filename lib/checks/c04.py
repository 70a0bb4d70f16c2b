from common import *
from vlib import Sub

RULE = ("A case is a data matrix, start (given centers or forgy/random/k-means++), metric, limits, thread counts and "
        "engine pair. The OpenMP entry point's result and the caller's buffers are compared with the pthread engine's "
        "result (and with a Lloyd model for given centers). Non-trivial when k>=2, at least two passes run and no "
        "near-tie was met.")
ASSUMPTIONS = ["near-tied cases are only checked for validity", "pruned engines are compared for the Euclidean metric"]
INITS = ("none", "none", "forgy", "random", "kmeanspp")


@st.composite
def cases(draw, big=False):
    if big:
        n, m = draw(st.integers(150, 2500)), draw(st.one_of(st.integers(1, 16), st.integers(17, 100)))
        X = draw(mat_of(n, m, modes=("hash", "hblobs", "sep", "wide")))
    else:
        X = draw(st.one_of(mats(8, 50, 1, 5, modes=("hash", "hblobs", "sep", "cont", "neg", "wide")), mats(2, 30, 1, 4)))
    k = min(draw(st.one_of(st.integers(2, 60) if big else st.integers(2, 8), st.just(2), st.integers(2, 8))), X["n"])
    eng = draw(st.sampled_from(["full", "prune"]))
    return {"X": X, "k": k, "C": draw(start_centers(X["n"], X["m"], k)), "init": draw(st.sampled_from(INITS)),
            "engine": eng, "metric": draw(st.sampled_from(["eucl", "cos"])) if eng == "full" else "eucl",
            "T": draw(nthr(6)), "To": draw(nthr(24 if big else 8)),
            "iters": draw(st.one_of(st.sampled_from([60, 100000]), st.integers(0, 8))),
            "tol": draw(st.one_of(st.just(-1.0), st.integers(0, 20).map(lambda q: q / 40.0)))}


def t_pair(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    kw = dict(nrow=n, ncol=m, k=c["k"], data=X, init=c["init"], iters=c["iters"], tol=c["tol"], dist=c["metric"])
    if c["metric"] == "cos" and (np.abs(X).sum(1) == 0).any():
        return False, ["undefined-cos"]
    C = None
    if c["init"] == "none":
        C = centers(c["C"], X)
        kw["centers"] = C
    if C is None:       # find the start both engines use
        z = Result(ctx.run(alg="full", T=1, **dict(kw, iters=0)))
        C = z.cen
    ref = lloyd(X, C, c["metric"], c["iters"], c["tol"])
    if ref.undefined:
        return False, ["undefined-cos"]
    ro = ctx.run(alg="omp_" + c["engine"], T=c["To"], **kw)
    o = Result(ro)
    tags = [c["engine"], c["init"], c["metric"]]
    if c["iters"] > 0:
        valid(o, n, m, kexact=c["k"], X=X)
        if not np.array_equal(ro["0.b_asg"].astype(int), o.asg):
            raise Violation("caller's assignment buffer differs from the returned assignments")
        if not np.array_equal(ro["0.b_cnt"].astype(int), o.cnt):
            raise Violation("caller's size buffer %s differs from the returned sizes %s" % (ro["0.b_cnt"], o.cnt))
    if ref.ambiguous or (c["engine"] == "prune" and ref.dup):
        return False, tags + ["near-tie"]
    p = Result(ctx.run(alg=c["engine"], T=c["T"], **kw))
    if c["iters"] > 0:
        same(o, p, "OpenMP vs pthread (%s, init %s)" % (c["engine"], c["init"]), scale_of(X))
        vs_lloyd(o, ref, X, "OpenMP %s" % c["engine"])
    elif not close(o.cen, p.cen, scale_of(X), 1e-9):
        raise Violation("start centers differ: OpenMP %s, pthread %s" % (o.cen.tolist(), p.cen.tolist()))
    if o.iters != p.iters:
        raise Violation("iterations differ: OpenMP %d, pthread %d" % (o.iters, p.iters))
    return c["k"] >= 2 and ref.passes >= 2, tags


SUBS = [Sub("pair", cases(), t_pair, 6000, 100000), Sub("pair-large", cases(True), t_pair, 400, 8000),
        Sub("pair-cols", grown(cases(), m=COLS), t_pair, 300, 4000),
        Sub("pair-huge", grown(cases(), HUGE), t_pair, 96, 1200), Sub("pair-many", grown(cases(), (500, 2500), MANY), t_pair, 240, 3200)]
