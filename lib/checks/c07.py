from common import *
from vlib import Sub, TASKS

RULE = ("A case is a data matrix, initialisation method, engine and two thread counts; with zero passes the returned "
        "centers must be legitimate for the method, equal across engines and thread counts. Non-trivial when k>=2 and the "
        "data has >=2 distinct rows.")
ASSUMPTIONS = ["random: partitions with an empty part give a zero center", "fewer than k distinct rows: distinctness of "
               "k-means++ centers is not demanded, nor for the cosine, under which parallel rows coincide", "after one further pass the centers of all engines are compared too"]
KM = ("full", "prune", "omp_full", "omp_prune", "mb")
ALGS = {"none": KM + ("fcm", "skmeans"), "forgy": KM + ("fcm", "medoid", "skmeans"), "random": KM + ("skmeans",),
        "kmeanspp": KM + ("skmeans",)}


@st.composite
def cases(draw, max_n=40, max_m=5, min_n=2, max_k=25):
    init = draw(st.sampled_from(["none", "forgy", "random", "kmeanspp", "kmeanspp"]))
    X = draw(st.one_of(mats(min_n, max_n, 1, max_m), mats(min_n, max_n, 1, max_m, modes=("dups", "coarse", "grid", "hash"))))
    k = max(2, min(draw(st.one_of(st.integers(2, 6), st.integers(2, max_k))), X["n"]))
    return {"X": X, "k": k, "init": init, "alg": draw(st.sampled_from(ALGS[init])),
            "alg2": draw(st.sampled_from([a for a in ALGS[init] if a != "skmeans"])),
            "C": draw(start_centers(X["n"], X["m"], k)), "T": draw(nthr()), "T2": draw(nthr()),
            "mb": draw(st.integers(1, X["n"])),
            "metric": draw(st.sampled_from(["eucl", "eucl", "cos"] if X["mode"] == "neg" else ["eucl"]))}


def rows_at(X, c, scale):
    return np.where((X == c[None, :]).all(1))[0]


def t_init(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    k = c["k"]
    kw = dict(nrow=n, ncol=m, k=k, data=X, init=c["init"], dist=c["metric"], mb=c["mb"])
    C = None
    if c["init"] == "none":
        C = centers(c["C"], X)
        kw["centers"] = C
    sk = c["alg"] == "skmeans"
    if sk and c["metric"] == "cos" and (X == X.min(0)).all(1).any():
        return False, ["undefined-cos"]          # scales to a zero vector
    r = ctx.run(alg=c["alg"], T=c["T"], iters=0, **kw)
    a = Result(r)
    Y = X
    if sk:
        Y = r["0.data"].reshape(n, m) if "0.data" in r else X
    if c["metric"] == "cos" and (np.abs(Y).sum(1) == 0).any():
        return False, ["undefined-cos"]
    tags = [c["alg"], c["init"]]
    what = "%s/%s" % (c["alg"], c["init"])
    if a.k != k or a.cen_raw.size != k * m:
        raise Violation("%s: returned k=%d and %d coordinates" % (what, a.k, a.cen_raw.size))
    if c["init"] == "none":
        if not np.array_equal(a.cen, C):
            raise Violation("%s: given centers changed: %s -> %s" % (what, C.tolist(), a.cen.tolist()))
    elif c["init"] in ("forgy", "kmeanspp"):
        for j in range(k):
            if len(rows_at(Y, a.cen[j], 0)) == 0:
                raise Violation("%s: center %d %s is not a data row" % (what, j, a.cen[j].tolist()))
    if c["init"] == "kmeanspp":
        distinct = len(np.unique(Y, axis=0))
        got = len(np.unique(a.cen, axis=0))
        if c["metric"] == "eucl" and got < min(k, distinct):
            raise Violation("%s: only %d distinct centers for k=%d, data has %d distinct rows" % (what, got, k, distinct))
        D = dists(Y, a.cen, c["metric"])
        if c["alg"] != "mb" or c["init"] == "kmeanspp":
            own = D[np.arange(n), np.clip(a.asg, 0, k - 1)]
            if (a.asg < 0).any() or (a.asg >= k).any() or (own > D.min(1) + slack(Y, c["metric"])).any():
                i = int(np.argmax(own - D.min(1)))
                raise Violation("%s: sample %d in cluster %d is not at its nearest chosen center" % (what, i, a.asg[i]))
        tags.append("few-distinct" if distinct < k else "enough")
    if c["init"] == "random" and c["alg"] != "mb":
        if (a.asg < 0).any() or (a.asg >= k).any():
            raise Violation("%s: ids outside [0,%d)" % (what, k))
        cnt, M = means_of(Y, a.asg, k)
        if not close(a.cen, M, scale_of(Y), 1e-9):
            raise Violation("%s: centers are not the means of the partition: %s vs %s" % (what, a.cen.tolist(), M.tolist()))
        tags.append("empty-part" if (cnt == 0).any() else "full-parts")
    # same start in another engine and with another thread count (medoid, fcm: rows by the same method)
    kw2 = dict(kw, data=Y) if sk else kw
    b = Result(ctx.run(alg=c["alg2"], T=c["T2"], iters=0, **kw2))
    if not close(a.cen, b.cen, scale_of(Y), 1e-10):
        raise Violation("start differs: %s with %d threads %s, %s with %d threads %s" % (
            what, c["T"], a.cen.tolist(), c["alg2"], c["T2"], b.cen.tolist()))
    return len(np.unique(X, axis=0)) >= 2, tags


@st.composite
def wcases(draw):
    alg = draw(st.sampled_from(KM + ("kmpp",)))
    return {"alg": alg, "n": draw(st.integers(120, 600)), "m": draw(st.integers(1, 5)), "k": draw(st.integers(6, 10)),
            "salt": draw(st.integers(0, 1 << 20)), "T": draw(nthr()), "front": draw(st.booleans())}


def t_weight(ctx, c):
    """A dense core (rows 1e-4 apart) and 24 rows far from it and each other: a draw weighted by the distance to the
    nearest center takes a second core row with probability < 1e-3, so three of them in one seeding never happen."""
    n, m, k, far = c["n"], c["m"], c["k"], 24
    X = vlib.hash01(n * m, c["salt"]).reshape(n, m) * 1e-4
    at = np.argsort(vlib.hash01(n, c["salt"] + 1))[:far] if c["front"] else np.arange(n - far, n)
    X[at] += (100.0 * (1 + np.arange(far)))[:, None]
    r = Result(ctx.run(alg=c["alg"], T=c["T"], iters=0, nrow=n, ncol=m, k=k, data=X, init="kmeanspp", mb=n, nstart=1))
    core = [int(i) for j in range(k) for i in rows_at(X, r.cen[j], 0)[:1] if i not in set(at.tolist())]
    if len(core) > 2:
        raise Violation("%s: k-means++ took %d rows %s of a dense core although far rows were left" % (c["alg"], len(core), core))
    return True, [c["alg"], "core=%d" % len(core)]


@st.composite
def pcases(draw):
    m = draw(st.integers(1, 5))
    n = draw(st.one_of(st.integers(2, 8), st.integers(2, 60)))
    g = 1 if m == 1 else draw(st.sampled_from([1, 1, 2, 3, 4]))
    return {"alg": draw(st.sampled_from(KM + ("kmpp",))), "n": n, "m": m, "g": min(g, n),
            "k": max(2, min(n, draw(st.integers(2, 6)))), "same": draw(st.booleans()),
            "salt": draw(st.integers(0, 1 << 20)), "T": draw(nthr()), "iters": draw(st.integers(0, 3))}


def t_parallel(ctx, c):
    """Rows in few directions under the cosine: parallel rows are at distance 0, up to rounding, of either sign."""
    n, m, g, k = c["n"], c["m"], c["g"], c["k"]
    V = 0.2 + vlib.hash01(g * m, c["salt"]).reshape(g, m)
    if m > 1:
        a = 0.1 + 1.3 * np.arange(g) / max(1, g - 1)
        V[:, 0], V[:, 1] = 3 * np.cos(a), 3 * np.sin(a)
    of = np.arange(n) % g
    X = V[of] * (1.0 if c["same"] else 0.2 + vlib.hash01(n, c["salt"] + 1)[:, None])
    kw = dict(alg=c["alg"], T=c["T"], nrow=n, ncol=m, k=k, data=X, init="kmeanspp", dist="cos", mb=n, nstart=3, tol=-1.0)
    what = "%s/kmeanspp, %d rows in %d directions" % (c["alg"], n, g)
    r = Result(ctx.run(iters=0, **kw))
    took = set()
    for j in range(k):
        at = rows_at(X, r.cen[j], 0)
        if len(at) == 0:
            raise Violation("%s: center %d %s is not a data row" % (what, j, r.cen[j].tolist()))
        took.add(int(of[at[0]]))
    if len(took) < min(k, g):
        raise Violation("%s: %d centers cover %d directions" % (what, k, len(took)))
    if c["alg"] != "kmpp":
        ctx.run(iters=c["iters"], **kw)
    return k > g, [c["alg"], "g=%d" % g, "same" if c["same"] else "scaled"]


SUBS = [Sub("weighted", wcases(), t_weight, 1200, 20000), Sub("parallel", pcases(), t_parallel, 2000, 30000),
        Sub("init", cases(), t_init, 8000, 120000), Sub("init-large", cases(1500, 12, 100), t_init, 500, 10000),
        Sub("init-wide", cases(300, 80, 30, 90), t_init, 600, 8000),
        Sub("init-tasks", cases(), t_init, 5000, 80000, build=TASKS),
        Sub("init-cols", grown(cases(), m=COLS), t_init, 400, 5000),
        Sub("init-huge", grown(cases(max_m=3), HUGE), t_init, 144, 1800), Sub("init-many", grown(cases(), (500, 2500), MANY), t_init, 360, 4800)]
