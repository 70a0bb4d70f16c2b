from common import *
from vlib import Sub
from hier import *

HMODES = ("hash", "tree", "tree", "sep", "sep", "sep", "hblobs", "hblobs", "blobs", "cont", "grid", "dups", "wide", "neg", "coarse")


@st.composite
def hcases(draw, alg, max_n=60, max_m=5, min_n=2):
    X = draw(st.one_of(mats(min(20, max_n), max_n, 1, max_m, modes=HMODES),
                       mats(min_n, max_n, 1, max_m, modes=HMODES)))
    c = {"X": X, "k": draw(st.sampled_from([2, 3, 4, 4, 5, 8, 8, 9, 16, 17] + ([32, 40, 64, 100, 256, 300, 600] if max_n > 200 else []))), "alg": alg,
         "C": draw(start_centers(X["n"], X["m"], 2, allow_far=False)),
         "init": draw(st.sampled_from(["none", "none", "none", "forgy"])),
         "T": draw(nthr(16 if max_n > 200 else 6)),
         "metric": draw(st.sampled_from(["eucl", "eucl", "sqeucl", "taxi"])),
         "iters": draw(st.one_of(st.sampled_from([20, 20, 40, 100000, 4294967295]), st.integers(1, 6))),
         "tol": draw(st.one_of(st.just(-1.0), st.just(-1.0), st.integers(0, 20).map(lambda q: q / 40.0))),
         "mcs": draw(st.one_of(st.just(2), st.integers(0, 4), st.integers(1, 20)))}
    if alg == "gmeans":
        c["strict"] = draw(st.integers(0, 4))
    return c


def t_hier(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    kw = {}
    if c["init"] == "none":
        kw["centers"] = centers(c["C"], X)
    r = ctx.run(alg=c["alg"], nrow=n, ncol=m, k=c["k"], T=c["T"], data=X, init=c["init"], iters=c["iters"],
                tol=c["tol"], dist=c["metric"], mcs=c["mcs"], strict=c.get("strict", 4), **kw)
    res = Result(r)
    valid(res, n, m, kmax=floor_pow2(c["k"]), X=X, nonempty=True)
    tags = [c["metric"], "k'=%s" % (res.k if res.k < 5 else "5+"), c["init"]]
    if c["init"] != "none":
        return res.k > 1, tags
    ref = hier(X, kw["centers"], c["k"], c["iters"], c["tol"], c["mcs"], c["metric"], c["alg"], c.get("strict", 4))
    if ref.undefined or ref.ambiguous:
        return False, tags + ["near-tie"]
    if ref.order:
        return res.k > 1, tags + ["many-orders"]
    if ref.emptied:
        tags.append("empty-child")
    if ref.cut:
        tags.append("limit-cut")
    got = canon(res.asg)
    if not any(np.array_equal(got, l) for l in ref.labels):
        raise Violation("%s: partition into %d clusters %s, the model gives %s: %s" % (
            c["alg"], res.k, got.tolist(), ref.k, " or ".join(str(l.tolist()) for l in ref.labels[:3])))
    tags.append("splits=%s" % (ref.splits if ref.splits < 4 else "4+"))
    if ref.reverts and ref.splits:
        tags.append("kept+undone")
    return n > 2 and (ref.splits > 0 or ref.reverts > 0) and ref.passes > 1, tags
