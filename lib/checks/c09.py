from common import *
from vlib import Sub, TASKS

RULE = ("full-batch: data x start x metric x passes x tolerance x threads, batch = all rows, compared with a model of the "
        "sampled decaying-rate update. sampled: data whose rows are orthogonal, so the coefficients of the centers reveal "
        "which rows were drawn, in which order and with which rate. count: constant data, where the center reveals how "
        "many rows were drawn. hull: any data and batch, invariants of the result. Non-trivial: k>=2 and >=2 passes and "
        "no near-tie (full-batch), at least one row drawn and one not (sampled, count), >=2 non-empty clusters (hull).")
ASSUMPTIONS = ["updates of one pass are applied in row order", "'about batch-size' means within six standard deviations "
               "of independent draws, widened by the thread count because threads share their stream",
               "centers need not lie in the hull in the presence of clusters whose rows were never drawn (they stay put)"]


def mb_model(X, C, metric, iters, tol):
    """Every row in every batch."""
    C = np.array(C, float)
    n, k = X.shape[0], C.shape[0]
    passes, amb, asg = 0, False, None
    while passes < iters:
        D = dists(X, C, metric)
        if np.isnan(D).any():
            return None
        amb |= bool(near_ties(D, C, metric, scale_of(X, C)).any())
        asg = D.argmin(1)
        cnt = np.bincount(asg, minlength=k)
        N = C.copy()
        for j in range(k):
            if cnt[j]:
                e = 1.0 / cnt[j]
                for x in X[asg == j]:
                    N[j] = (1 - e) * N[j] + e * x
        passes += 1
        mv = float(np.sqrt(((N - C) ** 2).sum()))
        C = N
        if abs(mv - tol) < 1e-9 * abs(tol) + 1e-12 * scale_of(X, C):
            amb = True
        if mv < tol:
            break
    D = dists(X, C, metric)
    if np.isnan(D).any():
        return None
    amb |= bool(near_ties(D, C, metric, scale_of(X, C)).any())
    return C, D.argmin(1), passes, amb


@st.composite
def full_cases(draw, max_n=40, max_m=5):
    metric = draw(st.sampled_from(METRICS))
    X = draw(mats(2, max_n, 1, max_m, modes=("neg",) if metric == "cos" else vlib.MODES))
    k = min(draw(st.integers(2, 7)), X["n"])
    return {"X": X, "k": k, "C": draw(start_centers(X["n"], X["m"], k, allow_far=metric != "cos")), "metric": metric,
            "T": draw(nthr(6)), "iters": draw(st.one_of(st.integers(1, 6), st.just(25))),
            "tol": draw(st.one_of(st.just(-1.0), st.integers(0, 12).map(lambda q: 10.0 ** (q - 9))))}


def t_full(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    C = centers(c["C"], X)
    ref = mb_model(X, C, c["metric"], c["iters"], c["tol"])
    if ref is None:
        return False, ["undefined-cos"]
    cen, asg, passes, amb = ref
    r = Result(ctx.run(alg="mb", nrow=n, ncol=m, k=c["k"], T=c["T"], data=X, centers=C, init="none", iters=c["iters"],
                       tol=c["tol"], dist=c["metric"], mb=n))
    valid(r, n, m, kexact=c["k"])
    if amb:
        return False, ["near-tie"]
    if r.iters != passes:
        raise Violation("%d passes reported, the rule gives %d" % (r.iters, passes))
    if not close(r.cen, cen, scale_of(X, C), 1e-8):
        raise Violation("centers %s, the update gives %s" % (r.cen.tolist(), cen.tolist()))
    if not np.array_equal(r.asg, asg):
        raise Violation("final assignment %s is not the nearest center %s" % (r.asg.tolist(), asg.tolist()))
    return c["k"] >= 2 and passes >= 2, [c["metric"], "tolstop" if passes < c["iters"] else "limit"]


@st.composite
def sampled_cases(draw):
    n = draw(st.integers(3, 48))
    g = draw(st.integers(2, 4))
    return {"n": n, "g": g, "mb": draw(st.integers(1, n)), "T": draw(nthr()), "salt": draw(st.integers(0, 1 << 16)),
            "passes": draw(st.sampled_from([1, 2, 2, 3, 4])),
            "metric": draw(st.sampled_from(["eucl", "sqeucl", "taxi"]))}


def t_sampled(ctx, c):
    n, g = c["n"], c["g"]
    grp = np.minimum((vlib.hash01(n, c["salt"]) * g).astype(int), g - 1)
    X = np.zeros((n, n + 1))
    X[np.arange(n), np.arange(n)] = 1.0
    X[:, n] = grp * 1000.0
    C = np.zeros((g, n + 1))
    C[:, n] = np.arange(g) * 1000.0
    prev, total = C, 0
    for p in range(1, c["passes"] + 1):
        r = Result(ctx.run(alg="mb", nrow=n, ncol=n + 1, k=g, T=c["T"], data=X, centers=C, init="none", iters=p, tol=-1.0,
                           dist=c["metric"], mb=c["mb"]))
        valid(r, n, n + 1, kexact=g)
        if not np.array_equal(r.asg, grp):
            raise Violation("final assignment differs from the nearest centers")
        drawn = 0
        for j in range(g):
            co, was = r.cen[j][:n], prev[j][:n]
            if abs(r.cen[j][n] - 1000.0 * j) > 1e-6:
                raise Violation("center %d moved towards a sample that is not nearest to it" % j)
            sel = np.where(co != 0)[0]
            if (grp[sel] != j).any():
                raise Violation("center %d moved by samples %s of other centers" % (j, sel[grp[sel] != j].tolist()))
            v = len(sel)            # members so far: every row drawn in this pass or before
            if v == 0:
                continue
            e = 1.0 / v
            ok = []
            for s in range(v + 1):  # rows drawn in this pass: those that are not merely scaled down
                left = (1 - e) ** s
                step = co - left * was
                if np.allclose(np.sort(step[sel]), np.concatenate([np.zeros(v - s), e * (1 - e) ** np.arange(s - 1, -1, -1)]),
                               rtol=1e-9, atol=1e-13):
                    ok.append(s)    # (a sole member may have been drawn again: nothing moves)
            if not ok:
                raise Violation("pass %d, center %d: %d members, coefficients %s -> %s are not steps of 1/%d towards some of them, "
                                "once each" % (p, j, v, was[sel].tolist(), co[sel].tolist(), v))
            drawn += max(ok)
        if c["mb"] == n and drawn != n:
            raise Violation("batch of all %d rows drew %d in pass %d" % (n, drawn, p))
        prev, total = r.cen, total + drawn
    return 0 < total < n * c["passes"], ["groups=%d" % g, "T>1" if c["T"] > 1 else "T1", "passes=%d" % c["passes"]]


@st.composite
def count_cases(draw):
    n = draw(st.one_of(st.integers(50, 4000), st.integers(8000, 30000)))
    return {"n": n, "mb": draw(st.one_of(st.integers(1, n), st.integers(1, min(n, 200)))), "T": draw(nthr())}


def t_count(ctx, c):
    n = c["n"]
    X = np.ones((n, 1))
    r = Result(ctx.run(alg="mb", nrow=n, ncol=1, k=2, T=c["T"], data=X, centers=np.array([0.0, 1e9]), init="none", iters=1,
                       tol=-1.0, dist="eucl", mb=c["mb"]))
    z = float(r.cen_raw[0])
    if z == 0:
        s = 0
    elif abs(z - 1) < 1e-12:
        s = 1
    else:
        ss = np.arange(2, n + 1)
        v = -np.expm1(ss * np.log1p(-1.0 / ss))      # 1 - (1 - 1/s)^s
        i = int(np.argmin(np.abs(v - z)))
        s = int(ss[i])
        if abs(v[i] - z) > 1e-11 * max(1, s) ** .5 + 1e-12:
            raise Violation("center %.17g is not reachable by equal steps of 1/count" % z)
    # batches below the thread count are documented to become one
    mb = c["mb"] if c["mb"] >= c["T"] else 1
    p = mb / n
    lim = 6 * np.sqrt(c["T"] * n * max(0.0, p * (1 - p))) + 3 * c["T"]
    if abs(s - mb) > lim or (c["mb"] == n and s != n):
        raise Violation("%d rows drawn for a batch of %d of %d rows (%d threads, allowed deviation %.0f)" % (
            s, mb, n, c["T"], lim))
    return 0 < s < n, ["s<mb" if s < mb else "s>=mb", "T>1" if c["T"] > 1 else "T1"]


@st.composite
def hull_cases(draw):
    X = draw(mats(2, 60, 1, 5))
    k = min(draw(st.integers(2, 7)), X["n"])
    return {"X": X, "k": k, "C": draw(start_centers(X["n"], X["m"], k)), "mb": draw(st.integers(1, X["n"])),
            "init": draw(st.sampled_from(["none", "forgy", "random", "kmeanspp"])),
            "T": draw(nthr(6)), "iters": draw(st.one_of(st.integers(1, 6), st.just(30))),
            "tol": draw(st.one_of(st.just(-1.0), st.just(1e12), st.integers(0, 12).map(lambda q: 10.0 ** (q - 9))))}


def t_hull(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    C = centers(c["C"], X)
    kw = {"centers": C} if c["init"] == "none" else {}
    r = Result(ctx.run(alg="mb", nrow=n, ncol=m, k=c["k"], T=c["T"], data=X, init=c["init"], iters=c["iters"],
                       tol=c["tol"], dist="eucl", mb=c["mb"], **kw))
    valid(r, n, m, kexact=c["k"])
    # the hull of the previous centers and the samples; a random start with an empty part begins at zero
    pts = np.vstack([X, C] if c["init"] == "none" else [X, np.zeros((1, m))] if c["init"] == "random" else [X])
    eps = 1e-9 * scale_of(pts)
    dirs = np.vstack([np.eye(m), vlib.hash01(8 * m, 5).reshape(8, m) - .5])
    P, Q = pts @ dirs.T, r.cen @ dirs.T
    if (Q > P.max(0) + eps * m).any() or (Q < P.min(0) - eps * m).any():
        raise Violation("centers %s left the hull of the samples and start centers" % r.cen.tolist())
    D = dists(X, r.cen, "eucl")
    own = D[np.arange(n), r.asg]
    if (own > D.min(1) + eps).any():
        i = int(np.argmax(own - D.min(1)))
        raise Violation("sample %d is assigned to center %d at %g, nearest is at %g" % (i, r.asg[i], own[i], D[i].min()))
    if r.iters > c["iters"] or r.iters < 1:
        raise Violation("%d passes reported, limit %d" % (r.iters, c["iters"]))
    if c["tol"] < 0 and r.iters != c["iters"]:
        raise Violation("%d passes reported without a tolerance, limit %d" % (r.iters, c["iters"]))
    if c["tol"] == 1e12 and scale_of(pts) < 1e9 and r.iters != 1:
        raise Violation("centers moved less than the tolerance in the first pass but %d passes were run" % r.iters)
    return (r.cnt > 0).sum() >= 2, [c["init"], "full" if c["mb"] == n else "partial"]


SUBS = [Sub("full-batch", full_cases(), t_full, 5000, 80000), Sub("sampled", sampled_cases(), t_sampled, 3000, 50000),
        Sub("count", count_cases(), t_count, 600, 8000), Sub("hull", hull_cases(), t_hull, 4000, 60000),
        Sub("full-batch-tasks", full_cases(), t_full, 4000, 60000, build=TASKS),
        Sub("sampled-tasks", sampled_cases(), t_sampled, 2000, 40000, build=TASKS),
        Sub("count-tasks", count_cases(), t_count, 200, 4000, build=TASKS),
        Sub("hull-tasks", hull_cases(), t_hull, 2000, 40000, build=TASKS),
        Sub("hull-cols", grown(hull_cases(), m=COLS), t_hull, 400, 5000),
        Sub("hull-huge", grown(hull_cases(), HUGE), t_hull, 192, 2400), Sub("hull-many", grown(hull_cases(), (500, 2500), MANY), t_hull, 480, 6400)]
