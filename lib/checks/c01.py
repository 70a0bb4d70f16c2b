from common import *
from vlib import Sub

RULE = ("A case is a data matrix (7 value families), start centers (data rows, free, far, mixed), metric, "
        "iteration limit, tolerance and thread count; non-trivial when k>=2 and Lloyd needs >=2 passes and the "
        "reference met no near-tie, so the full answer is compared exactly.")
ASSUMPTIONS = ["cases where two different centers are within 1e-11 relative of the same sample are only checked "
               "for validity", "cosine cases with a zero center or sample are skipped (undefined)"]


@st.composite
def cases(draw, max_n=40, max_m=6):
    X = draw(st.one_of(mats(8, max_n, 1, max_m), mats(1, max_n, 1, max_m)))
    k = draw(st.one_of(st.integers(2, 8), st.integers(1, 4)))
    k = max(1, min(k, X["n"]))
    return {"X": X, "k": k, "C": draw(start_centers(X["n"], X["m"], k)),
            "metric": draw(st.sampled_from(METRICS)),
            "T": draw(nthr()),
            "iters": draw(st.one_of(st.sampled_from([50, 100000]), st.integers(2, 8), st.integers(1, 3))),
            "tol": draw(st.one_of(st.just(-1.0), st.just(0.0), st.integers(1, 20).map(lambda q: q / 40.0)))}


def t_lloyd(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    C = centers(c["C"], X)
    ref = lloyd(X, C, c["metric"], c["iters"], c["tol"])
    if ref.undefined:
        return False, ["undefined-cos"]
    r = ctx.run(alg="full", nrow=n, ncol=m, k=c["k"], T=c["T"], data=X, centers=C, init="none",
                iters=c["iters"], tol=c["tol"], dist=c["metric"])
    res = Result(r)
    valid(res, n, m, kexact=c["k"], X=X)
    tags = [c["metric"], "empty" if ref.empties else "noempty", "T>1" if c["T"] > 1 else "T1"]
    if ref.ambiguous:
        return False, tags + ["near-tie"]
    vs_lloyd(res, ref, X, "exhaustive k-means (%s)" % c["metric"])
    return c["k"] >= 2 and ref.passes >= 2, tags + ["passes>=3" if ref.passes >= 3 else "passes<3"]


@st.composite
def big(draw):
    n = draw(st.integers(200, 3000))
    m = draw(st.integers(1, 20))
    X = draw(mat_of(n, m, modes=("cont", "wide", "neg", "blobs")))
    k = draw(st.integers(2, 24))
    return {"X": X, "k": k, "C": draw(start_centers(n, m, k)), "metric": draw(st.sampled_from(METRICS)),
            "T": draw(nthr(16)), "iters": draw(st.integers(1, 12)), "tol": -1.0}


@st.composite
def wide(draw):
    """Many columns and many clusters."""
    n, m = draw(st.integers(40, 260)), draw(st.one_of(st.integers(20, 140), st.integers(1, 40)))
    X = draw(mat_of(n, m, modes=("hash", "hblobs", "sep", "wide", "blobs", "neg")))
    k = min(n, draw(st.one_of(st.integers(16, 80), st.integers(2, 20))))
    return {"X": X, "k": k, "C": draw(start_centers(n, m, k)), "metric": draw(st.sampled_from(METRICS)),
            "T": draw(nthr(24)), "iters": draw(st.one_of(st.integers(1, 12), st.just(50))), "tol": -1.0}


SUBS = [Sub("lloyd-slow", slow(cases()), t_lloyd, 120, 2000), Sub("lloyd", cases(), t_lloyd, 6000, 60000), Sub("lloyd-large", big(), t_lloyd, 240, 4000),
        Sub("lloyd-wide", wide(), t_lloyd, 600, 8000),
        Sub("lloyd-cols", grown(cases(), m=COLS), t_lloyd, 300, 4000),
        Sub("lloyd-huge", grown(cases(max_m=3), HUGE), t_lloyd, 96, 1200), Sub("lloyd-many", grown(cases(max_m=4), (500, 2500), MANY), t_lloyd, 240, 3200)]
