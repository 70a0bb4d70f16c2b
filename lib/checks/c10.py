from common import *
from vlib import Sub

RULE = ("A case is data, k, metric, sampling rate, limit, tolerance and threads. At any rate the result is checked to be a "
        "valid medoid clustering and the cost of every limit 0..p is compared; at full sampling the result is also "
        "compared with a reference model started from the same rows. Non-trivial when k>=2, some medoid moved and (model) "
        "no near-tie was met.")
ASSUMPTIONS = ["near-ties (1e-11 relative, between distances or between total distances of different rows) are only "
               "checked for validity", "the start is the rows the run itself reports for a limit of zero"]


def kmedoids(X, C, metric, iters, tol):
    """Alternating update: every cluster takes its member of least total distance if that improves on its medoid."""
    n, k = X.shape[0], C.shape[0]
    P = dists(X, X, metric)
    C = C.copy()
    sc = scale_of(X)
    state = {"amb": False}

    def assign():
        D = dists(X, C, metric)
        state["amb"] |= bool(near_ties(D, C, metric, sc).any())
        a = D.argmin(1)
        return a, D[np.arange(n), a]
    asg, own = assign()
    passes, moved = 0, 0
    while passes < iters:
        passes += 1
        for j in range(k):
            mem = np.where(asg == j)[0]
            if len(mem) == 0:
                continue
            cost = np.array([P[i, mem[mem != i]].sum() for i in mem])
            cur = own[mem].sum()
            b = int(np.argmin(cost))
            eps = 1e-10 * (sc ** (2 if metric == "sqeucl" else 0 if metric == "cos" else 1)) * len(mem) + 1e-10 * cost[b]
            close_ = np.where(np.abs(cost - cost[b]) <= eps)[0]
            if (len(mem) > 2 or metric == "cos") and not (X[mem[close_]] == X[mem[b]]).all():
                state["amb"] = True
            if abs(cost[b] - cur) <= eps and not (X[mem[b]] == C[j]).all():
                if len(mem) > 2 or metric == "cos" or cost[b] != cur:
                    state["amb"] = True
            if cost[b] < cur and not (X[mem[b]] == C[j]).all():
                C[j] = X[mem[b]]
                moved += 1
        na, own = assign()
        ch = int((na != asg).sum())
        asg = na
        if ch == 0 or ch / n <= tol:
            break
    return C, asg, passes, moved, state["amb"], ch == 0 if iters else False


@st.composite
def cases(draw, min_n=2, max_n=40, max_m=5, max_k=7):
    metric = draw(st.sampled_from(METRICS))
    X = draw(mats(min_n, max_n, 1, max_m, modes=("neg",) if metric == "cos" else vlib.MODES))
    return {"X": X, "k": max(2, min(draw(st.integers(2, max_k)), X["n"])), "metric": metric, "T": draw(nthr()),
            "iters": draw(st.one_of(st.integers(0, 6), st.just(50))), "rate": draw(st.sampled_from([1.0, 1.0, 1.0, .2, .5, .05])),
            "tol": draw(st.one_of(st.just(-1.0), st.just(-1.0), st.integers(0, 20).map(lambda q: q / 40.0)))}


def t_medoid(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    k = c["k"]
    metric = c["metric"]
    eps = slack(X, metric)

    def go(iters, tol):
        r = Result(ctx.run(alg="medoid", nrow=n, ncol=m, k=k, T=c["T"], data=X, init="forgy", iters=iters, tol=tol,
                           dist=metric, rate=c["rate"]))
        valid(r, n, m, kexact=k)
        for j in range(k):
            if not (X == r.cen[j]).all(1).any():
                raise Violation("medoid %d %s is not a data row" % (j, r.cen[j].tolist()))
        D = dists(X, r.cen, metric)
        own = D[np.arange(n), r.asg]
        if (own > D.min(1) + eps).any():
            i = int(np.argmax(own - D.min(1)))
            raise Violation("sample %d in cluster %d at %g, nearest medoid is at %g" % (i, r.asg[i], own[i], D[i].min()))
        return r, own.sum()
    r, cost = go(c["iters"], c["tol"])
    if r.iters > c["iters"] or (c["iters"] and r.iters < 1):
        raise Violation("%d passes reported, limit %d" % (r.iters, c["iters"]))
    r0, cost0 = go(0, -1.0)
    last, hist = cost0, [r0]
    for p in range(1, min(r.iters, 5) + 1):
        rp, cp = go(p, -1.0)
        hist.append(rp)
        if cp > last + eps * n:
            raise Violation("cost rose from %.15g to %.15g with pass %d" % (last, cp, p))
        last = cp
    if cost > (last if r.iters > 5 else cost0) + eps * n:
        raise Violation("cost %.15g after %d passes, %.15g after fewer" % (cost, r.iters, last))
    if 1 <= r.iters <= 5:
        same(r, hist[r.iters], "limit %d vs limit %d" % (c["iters"], r.iters), scale_of(X))
    moved = not np.array_equal(r.cen, r0.cen)
    tags = [metric, "rate=%g" % c["rate"], "moved" if moved else "still"]
    if c["rate"] < 1:
        return moved, tags
    C, asg, passes, mv, amb, conv = kmedoids(X, r0.cen, metric, c["iters"], c["tol"])
    if amb:
        return False, tags + ["near-tie"]
    if r.iters != passes:
        raise Violation("%d passes reported, the update gives %d" % (r.iters, passes))
    if not np.array_equal(r.cen, C):
        raise Violation("medoids %s, the update gives %s" % (r.cen.tolist(), C.tolist()))
    if not np.array_equal(r.asg, asg):
        raise Violation("assignment %s, the update gives %s" % (r.asg.tolist(), asg.tolist()))
    if conv:
        for j in range(k):
            mem = np.where(r.asg == j)[0]
            if len(mem) == 0:
                continue
            cost_all = dists(X[mem], X[mem], metric).sum(1)
            mine = dists(X[mem], r.cen[j:j + 1], metric).sum()
            if mine > cost_all.min() + eps * n or not (X[mem] == r.cen[j]).all(1).any():
                raise Violation("cluster %d: medoid is not its member of least total distance" % j)
    return mv > 0, tags + (["converged"] if conv else [])


SUBS = [Sub("medoid", cases(), t_medoid, 4000, 60000), Sub("medoid-large", cases(80, 500, 8), t_medoid, 200, 4000),
        Sub("medoid-wide", cases(30, 200, 60, 40), t_medoid, 300, 5000),
        Sub("medoid-cols", grown(cases(), m=COLS), t_medoid, 240, 3000),
        Sub("medoid-many", grown(cases(max_m=3), (300, 700), (60, 290)), t_medoid, 240, 3000)]
