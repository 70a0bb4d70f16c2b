from common import *
from vlib import Sub

RULE = ("A case is data, start (given, incl. rows and far points, or forgy), metric, fuzziness index, limit, tolerance and "
        "two thread counts; the result is compared with the textbook membership and center updates. Non-trivial when k>=2, "
        ">=2 passes and the case is well conditioned (below).")
ASSUMPTIONS = ["a sample coinciding with a center has membership 1 in it (shared when it coincides with several)",
               "the model is also run from centers perturbed by 1e-9 (after the first pass where a sample coincides with a center) and cases where that changes the answer by more than "
               "1e-5 are checked for validity only", "membership ties (1e-7) leave the reported cluster open"]


def fcm(X, C, metric, m, iters, tol, jog=0):
    n, k = X.shape[0], C.shape[0]
    C = C.copy()
    W = np.zeros((n, k))
    passes, amb, coin = 0, False, False
    near = 1e-9 if metric == "cos" else (1e-9 * scale_of(X, C)) if metric != "sqeucl" else (1e-9 * scale_of(X, C)) ** 2
    while passes < iters:
        D = dists(X, C, metric)
        # distances of rounding size say nothing (exact coincidence can only be relied on with the start centers)
        amb |= bool(((D < near) & (D != 0 if passes == 0 and metric != "cos" else True)).any())
        Z = D <= 0
        coin |= bool(Z.any())
        with np.errstate(all="ignore"):
            U = (D.min(1)[:, None] / D) ** (1.0 / (m - 1))
            rz = Z.any(1)
            U[rz] = Z[rz].astype(float)
        W = (U / U.sum(1)[:, None]) ** m
        s = W.sum(0)
        if not np.isfinite(W).all() or (s <= 0).any():
            return None
        N = (W.T @ X) / s[:, None]
        passes += 1
        if passes == 1:
            N = N + jog
        mv = np.sqrt(((N - C) ** 2).sum())
        C = N
        if abs(mv - tol) <= 1e-6 * (abs(tol) + mv):
            amb = True
        if mv < tol:
            break
    return C, W, passes, amb, coin


@st.composite
def cases(draw, min_n=2, max_n=40, max_m=5, max_k=7):
    metric = draw(st.sampled_from(METRICS))
    X = draw(mats(min_n, max_n, 1, max_m, modes=("neg",) if metric == "cos" else vlib.MODES))
    k = max(2, min(draw(st.integers(2, max_k)), X["n"]))
    return {"X": X, "k": k, "C": draw(start_centers(X["n"], X["m"], k, allow_far=metric != "cos")), "metric": metric,
            "init": draw(st.sampled_from(["none", "none", "none", "forgy"])), "fuzz": draw(st.integers(2, 6)),
            "T": draw(nthr()), "T2": draw(nthr()),
            "iters": draw(st.one_of(st.integers(1, 6), st.integers(0, 25))),
            "tol": draw(st.one_of(st.just(-1.0), st.integers(0, 14).map(lambda q: 10.0 ** (q / 2.0 - 5))))}


def t_fcm(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    k = c["k"]
    sc = scale_of(X)
    C = centers(c["C"], X)
    kw = dict(alg="fcm", nrow=n, ncol=m, k=k, data=X, init=c["init"], iters=c["iters"], tol=c["tol"], dist=c["metric"],
              fuzz=c["fuzz"])
    if c["init"] == "none":
        kw["centers"] = C
    else:
        C = Result(ctx.run(**dict(kw, iters=0, T=c["T"]))).cen
    a = Result(ctx.run(T=c["T"], **kw))
    valid(a, n, m, kexact=k)
    tags = [c["metric"], "fuzz=%d" % c["fuzz"]]
    if a.iters > c["iters"]:
        raise Violation("%d passes reported, limit %d" % (a.iters, c["iters"]))
    if c["iters"] == 0:
        if not np.array_equal(a.cen, C):
            raise Violation("no passes, but the centers changed")
        return False, tags + ["limit0"]
    ref = fcm(X, C, c["metric"], c["fuzz"], c["iters"], c["tol"])
    if ref is None:
        return False, tags + ["undefined"]
    cen, W, passes, amb, coin = ref
    f = vlib.hash01(k * m, 77).reshape(k, m) - .5
    span = np.ptp(X, axis=0) + 1e-300
    # perturbed start centers; or, where samples coincide with centers, perturbed centers after the first pass
    outs = [fcm(X, C if coin else C + f * 1e-9 * span * s, c["metric"], c["fuzz"], c["iters"], c["tol"],
                f * 1e-9 * span * s if coin else 0) for s in (1, -1)]
    if amb or any(o is None or o[2] != passes for o in outs):
        return False, tags + ["ambiguous"]
    dev = max(np.abs(o[0] - cen).max() for o in outs)
    wdev = max(np.abs(o[1] - W).max() for o in outs)
    if dev > 1e-5 * sc or wdev > 1e-4:
        return False, tags + ["ill-conditioned"]
    tags.append("coincident" if coin else "apart")
    if a.iters != passes:
        raise Violation("%d passes reported, the update takes %d" % (a.iters, passes))
    if not np.allclose(a.cen, cen, rtol=1e-8, atol=10 * dev + 1e-9 * sc):
        raise Violation("centers %s, the update gives %s" % (a.cen.tolist(), cen.tolist()))
    own = W[np.arange(n), a.asg]
    if (own < W.max(1) - 1e-7 - 10 * wdev).any():
        i = int(np.argmax(W.max(1) - own))
        raise Violation("sample %d reported in cluster %d with membership %g, largest is %g" % (i, a.asg[i], own[i], W[i].max()))
    b = Result(ctx.run(T=c["T2"], **kw))
    if not np.allclose(a.cen, b.cen, rtol=1e-8, atol=10 * dev + 1e-9 * sc) or a.iters != b.iters:
        raise Violation("%d threads give %s, %d threads %s" % (c["T"], a.cen.tolist(), c["T2"], b.cen.tolist()))
    return passes >= 2, tags + ["tolstop" if passes < c["iters"] else "limit"]


SUBS = [Sub("fcm", cases(), t_fcm, 5000, 80000), Sub("fcm-large", cases(100, 1200, 8), t_fcm, 300, 6000),
        Sub("fcm-wide", cases(30, 200, 60, 30), t_fcm, 400, 6000),
        Sub("fcm-cols", grown(cases(), m=COLS), t_fcm, 240, 3000),
        Sub("fcm-huge", grown(cases(max_m=3), HUGE), t_fcm, 128, 1600), Sub("fcm-many", grown(cases(), (300, 1200), (100, 290)), t_fcm, 320, 4000)]
