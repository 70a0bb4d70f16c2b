from common import *
from vlib import Sub

RULE = ("A case is data (incl. negative and constant columns), start, metric, limit, tolerance and threads. The caller's "
        "matrix on return, and the clustering, are compared with min-max scaling by definition followed by a Lloyd model, "
        "with ordinary k-means on pre-scaled data, and with the same run on rescaled and shifted columns. Non-trivial when "
        "k>=2, >=2 passes and no near-tie.")
ASSUMPTIONS = ["constant columns scale to 0", "near-tied cases (1e-11 relative) are only checked for validity",
               "shifts stay within 1000 column ranges so that the scaled values agree to 1e-12"]


@st.composite
def cases(draw, min_n=2, max_n=50, max_m=5, max_k=7):
    X = draw(mats(min_n, max_n, 1, max_m, modes=vlib.MODES + ("neg", "neg", "wide")))
    m = X["m"]
    k = max(2, min(draw(st.integers(2, max_k)), X["n"]))
    return {"X": X, "k": k, "C": draw(start_centers(X["n"], m, k)), "metric": draw(st.sampled_from(["eucl", "sqeucl", "taxi"])),
            "init": draw(st.sampled_from(["none", "none", "forgy", "random", "kmeanspp"])),
            "T": draw(nthr()), "iters": draw(st.one_of(st.just(60), st.integers(1, 6))),
            "const": draw(st.lists(st.integers(0, m - 1), max_size=1)),
            "mul": draw(st.lists(st.integers(-6, 6), min_size=m, max_size=m)),
            "add": draw(st.lists(st.integers(-8, 8), min_size=m, max_size=m)),
            "tol": draw(st.one_of(st.just(-1.0), st.just(-1.0), st.integers(0, 20).map(lambda q: q / 40.0)))}


def t_scaled(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    for j in c["const"]:
        X[:, j] = X[0, j]
    lo, hi = X.min(0), X.max(0)
    Z = (X - lo) / np.where(hi > lo, hi - lo, 1.0)
    C = centers(c["C"], Z)
    kw = dict(nrow=n, ncol=m, k=c["k"], T=c["T"], init=c["init"], iters=c["iters"], tol=c["tol"], dist=c["metric"])
    if c["init"] == "none":
        kw["centers"] = C
    r = ctx.run(alg="skmeans", data=X, **kw)
    a = Result(r)
    valid(a, n, m, kexact=c["k"])
    Y = r["0.data"].reshape(n, m) if "0.data" in r else X
    if not np.allclose(Y, Z, rtol=0, atol=1e-12):
        i, j = np.unravel_index(int(np.argmax(np.abs(Y - Z))), Y.shape)
        raise Violation("row %d column %d scaled to %.17g, min-max gives %.17g" % (i, j, Y[i, j], Z[i, j]))
    tags = [c["init"], c["metric"]] + (["const-col"] if (hi == lo).any() else []) + (["neg-col"] if (hi < 0).any() else [])
    if c["init"] == "none":
        C0 = C
    else:
        C0 = Result(ctx.run(alg="skmeans", data=X, **dict(kw, iters=0))).cen
    ref = lloyd(Y, C0, c["metric"], c["iters"], c["tol"])
    if ref.ambiguous or ref.undefined:
        return False, tags + ["near-tie"]
    vs_lloyd(a, ref, Y, "scaled k-means")
    if a.iters != ref.passes:
        raise Violation("%d passes reported, Lloyd on scaled data takes %d" % (a.iters, ref.passes))
    b = Result(ctx.run(alg="full", data=Y, **kw))
    same(a, b, "scaled k-means vs k-means on scaled data", 1.0, iters=True)
    # rescaled and shifted columns
    rng = np.where(hi > lo, hi - lo, 1.0)
    if (np.abs(X).max(0) > 1e3 * rng).any():
        return ref.passes >= 2, tags + ["no-shift"]
    mul, add = np.resize(c["mul"], m), np.resize(c["add"], m)
    V = X * 2.0 ** mul + add * 64 * rng * 2.0 ** mul
    if (hi == lo).any():      # keep constant columns constant under rounding
        V[:, hi == lo] = V[0, hi == lo]
    if c["init"] == "kmeanspp":
        tags.append("kmpp-noshift")
    else:
        d = Result(ctx.run(alg="skmeans", data=V, **kw))
        same(a, d, "rescaled columns", 1.0, rel=1e-7, iters=True)
    return ref.passes >= 2, tags


SUBS = [Sub("scaled", cases(), t_scaled, 4000, 60000), Sub("scaled-large", cases(100, 1500, 10), t_scaled, 300, 6000),
        Sub("scaled-wide", cases(30, 300, 80, 50), t_scaled, 400, 6000),
        Sub("scaled-cols", grown(cases(), m=COLS), t_scaled, 240, 3000),
        Sub("scaled-huge", grown(cases(max_m=3), HUGE), t_scaled, 64, 800), Sub("scaled-many", grown(cases(), (500, 2500), MANY), t_scaled, 160, 2000)]
