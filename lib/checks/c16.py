from common import *
from vlib import Sub, TASKS

RULE = ("A case is a data matrix, k, metric, number of starts and two thread counts. The returned seeding is compared "
        "with the definition of its energy and with the seedings of every smaller number of starts. Non-trivial when "
        "the best start is not the first, or >=3 starts were made with more distinct rows than k.")
ASSUMPTIONS = ["energies are compared up to 1e-9 relative"]


@st.composite
def cases(draw, min_n=2, max_n=50, max_m=5, max_k=12):
    metric = draw(st.sampled_from(METRICS))
    X = draw(mats(min_n, max_n, 1, max_m, modes=("neg",) if metric == "cos" else vlib.MODES + ("sep", "sep", "sep")))
    return {"X": X, "k": max(2, min(draw(st.integers(2, max_k)), X["n"])), "metric": metric,
            "nstart": draw(st.one_of(st.integers(1, 4), st.integers(2, 14))), "T": draw(nthr()),
            "T2": draw(nthr()), "file": draw(st.booleans())}


def t_kmpp(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    k = c["k"]
    eps = slack(X, c["metric"])

    def go(ns, T, **kw):
        r = ctx.run(alg="kmpp", nrow=n, ncol=m, k=k, T=T, data=X, nstart=ns, dist=c["metric"], **kw)
        return Result(r), int(r["0.start"]), float(r["0.energy"][0])
    a, start, energy = go(c["nstart"], c["T"], **({"file": ctx.tmp("x.bin")} if c["file"] else {}))
    valid(a, n, m, kexact=k)
    if not 1 <= start <= c["nstart"]:
        raise Violation("best start %d of %d" % (start, c["nstart"]))
    for j in range(k):
        if not (X == a.cen[j]).all(1).any():
            raise Violation("center %d %s is not a data row" % (j, a.cen[j].tolist()))
    D = dists(X, a.cen, c["metric"])
    own = D[np.arange(n), a.asg]
    if (own > D.min(1) + eps).any():
        i = int(np.argmax(own - D.min(1)))
        raise Violation("sample %d in cluster %d at %g, nearest chosen row is at %g" % (i, a.asg[i], own[i], D[i].min()))
    if abs(D.min(1).sum() - energy) > eps * n:
        raise Violation("energy %.15g, the returned seeding has %.15g" % (energy, D.min(1).sum()))
    # the history of starts: energies of 1..nstart starts
    prev = None
    for s in range(1, c["nstart"] + 1):
        if c["nstart"] > 4 and s not in (1, start - 1, start, c["nstart"] - 1):
            continue
        b, bs, e = go(s, c["T2"])
        if prev is not None and e > prev + eps * n:
            raise Violation("%d starts return energy %.15g, fewer returned %.15g" % (s, e, prev))
        prev = e
        if energy > e + eps * n:
            raise Violation("%d starts return energy %.15g, %d starts %.15g" % (c["nstart"], energy, s, e))
        if s == start - 1 and not e > energy - eps * n:
            raise Violation("start %d has energy %.15g but the first %d reach %.15g" % (start, energy, s, e))
        if s >= start and (bs != start or not np.array_equal(b.cen, a.cen) or not np.array_equal(b.asg, a.asg)):
            # an equal energy up to rounding may be met by another start with another thread count
            if abs(e - energy) > eps * n:
                raise Violation("start %d of %d was reported best; %d starts report start %d" % (start, c["nstart"], s, bs))
    d = len(np.unique(X, axis=0))
    return (start > 1 or c["nstart"] >= 3) and d > k, ["start>1" if start > 1 else "start1", c["metric"],
                                                       "file" if c["file"] else "mem"]


SUBS = [Sub("kmpp", cases(), t_kmpp, 4000, 60000), Sub("kmpp-large", cases(100, 1500, 10), t_kmpp, 300, 6000),
        Sub("kmpp-wide", cases(30, 300, 60, 60), t_kmpp, 400, 6000),
        Sub("kmpp-tasks", cases(), t_kmpp, 4000, 60000, build=TASKS),
        Sub("kmpp-cols", grown(cases(), m=COLS), t_kmpp, 160, 2000),
        Sub("kmpp-huge", grown(cases(max_m=3), HUGE), t_kmpp, 24, 300), Sub("kmpp-many", grown(cases(), (500, 2000), MANY), t_kmpp, 60, 800)]
