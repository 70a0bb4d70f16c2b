from common import *
from vlib import Sub, TASKS

RULE = ("A case is data, start, engine (pthread/OpenMP, exhaustive/pruned), limit and tolerance. The run is repeated with "
        "every limit 0..p, so the history of passes is known; the number of passes, the reason to stop, fixed points and "
        "the energy of successive limits are compared with the stated rules. Non-trivial when the history has >=3 "
        "passes and no near-tie.")
ASSUMPTIONS = ["near-tied cases (1e-11 relative) are skipped", "energy is compared for Euclidean metrics only"]
ENG = ("full", "prune", "omp_full", "omp_prune")


@st.composite
def cases(draw, max_n=40, max_m=5, max_k=7):
    X = draw(st.one_of(mats(8, max_n, 1, max_m, modes=("hash", "hblobs", "cont", "neg", "wide", "blobs", "grid")),
                       mats(2, max_n, 1, max_m)))
    k = max(2, min(draw(st.integers(2, max_k)), X["n"]))
    eng = draw(st.sampled_from(ENG))
    metric = "eucl" if "prune" in eng or eng.startswith("omp") else draw(st.sampled_from(["eucl", "sqeucl", "taxi"]))
    return {"X": X, "k": k, "C": draw(start_centers(X["n"], X["m"], k)), "engine": eng, "metric": metric,
            "T": draw(nthr(4)), "limit": draw(st.one_of(st.integers(0, 12), st.just(60), st.just(100000))),
            "tol": draw(st.one_of(st.just(-1.0), st.just(-1.0), st.integers(0, 30).map(lambda q: q / 60.0),
                                  st.integers(0, 40).map(lambda q: (q % X["n"]) / float(X["n"]))))}


def t_stop(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    C = centers(c["C"], X)
    kw = dict(alg=c["engine"], nrow=n, ncol=m, k=c["k"], T=c["T"], data=X, centers=C, init="none", dist=c["metric"])
    ref = lloyd(X, C, c["metric"], c.get("look", 200), -1, trace=True)
    if ref.ambiguous or ref.undefined or ref.dup:
        return False, ["near-tie"]
    run = lambda it, tol: Result(ctx.run(iters=it, tol=tol, **kw))
    res = run(c["limit"], c["tol"])
    tags = [c["engine"], "tol" if c["tol"] >= 0 else "notol"]
    if c["limit"] == 0:
        if res.iters != 0 or not np.array_equal(res.cen, C):
            raise Violation("limit 0: %d iterations, centers %s, given %s" % (res.iters, res.cen.tolist(), C.tolist()))
        return False, tags + ["limit0"]
    if res.iters > c["limit"] or res.iters < 1:
        raise Violation("%d passes reported, limit %d" % (res.iters, c["limit"]))
    # passes the stated rule allows, from the history of the reference
    want = None
    for p, ch in enumerate(ref.changed, 1):
        if p == c["limit"] or ch == 0 or ch / n <= c["tol"]:
            want = p
            break
    if want is None:
        return False, tags + ["long"]
    if res.iters != want:
        raise Violation("%d passes reported; changes per pass %s, tolerance %g, limit %d mean %d passes" % (
            res.iters, ref.changed, c["tol"], c["limit"], want))
    if not np.array_equal(res.asg, ref.trace[want - 1][0]):
        raise Violation("result is not that of pass %d" % want)
    if not close(res.cen, ref.trace[want - 1][1], scale_of(X), 1e-8):
        raise Violation("centers are not those of pass %d" % want)
    # one more pass
    more = run(want + 1, -1.0)
    if c["metric"] != "taxi" and (res.cnt > 0).all() and (more.cnt > 0).all():
        a, b = wcss(X, res.asg, res.cen), wcss(X, more.asg, more.cen)
        if b > a + 1e-9 * (a + scale_of(X) ** 2):
            raise Violation("one more pass raised the energy from %g to %g" % (a, b))
    if ref.changed[want - 1] == 0:
        tags.append("converged")
        D = dists(X, res.cen, c["metric"])
        own = D[np.arange(n), res.asg]
        if (own > D.min(1) + 1e-9 * (scale_of(X) + own + 1e-300) * (scale_of(X) if c["metric"] == "sqeucl" else 1)).any():
            raise Violation("stopped with no change but a sample is nearer to another center")
        valid(res, n, m, kexact=c["k"], X=X)
        if not np.array_equal(more.asg, res.asg) or more.iters != res.iters:
            raise Violation("raising the limit past convergence changed the answer")
    elif want < c["limit"]:
        tags.append("stopped-by-tolerance")
    else:
        tags.append("stopped-by-limit")
    return want >= 3, tags


def _slow():
    return slow(cases()).map(lambda c: dict(c, look=3000, metric="eucl"))


SUBS = [Sub("stop-slow", _slow(), t_stop, 120, 2000), Sub("stop", cases(), t_stop, 6000, 100000), Sub("stop-large", cases(300, 10), t_stop, 800, 16000),
        Sub("stop-wide", cases(200, 60, 40), t_stop, 400, 8000),
        Sub("stop-tasks", cases(), t_stop, 3000, 50000, build=TASKS),
        Sub("stop-cols", grown(cases(), n=(60, 400), m=COLS), t_stop, 160, 2000),
        Sub("stop-huge", grown(cases(max_m=3), HUGE), t_stop, 64, 800)]
