from c06 import args_of, HIER, INITS
from c03 import CONT, EXACT_ALGS, cases as run_cases, compare, fragile, undefined
from common import *
from vlib import Sub, Violation

RULE = ("A case is 2-5 runs of any routines, each with data, options and thread count of its own. Every run is made alone in a fresh "
        "process, and then all in one process: one after the other (their objects destroyed at once or kept alive), or at the same "
        "time, each on a thread of its own, partly over one shared matrix. Answers must agree, and the caller's matrices and centers "
        "stay as they were. Non-trivial when at least two runs have two non-empty clusters.")
ASSUMPTIONS = ["the OpenMP engine keeps its parameters in file-scope variables: its runs only follow one another",
               "scaled k-means scales the caller's matrix in place", "data on which summation order decides nothing"]
PAR = tuple(a for a in INITS if not a.startswith("omp"))


@st.composite
def cases(draw, par, algs=tuple(INITS), **kw):
    runs = draw(st.lists(run_cases(algs=algs, **kw), min_size=2, max_size=5))
    for c in runs:
        c.pop("T2"), c.pop("sched")
    if draw(st.integers(0, 3)) == 0:        # the same routine again on other data
        for c in runs[1:]:
            if (c["alg"], runs[0]["alg"]) in ((a, b) for a in ("full", "prune", "mb") for b in ("full", "prune")):
                c["alg"] = runs[0]["alg"]
                c.pop("mb", None)
                c["metric"] = runs[0]["metric"]
                if c["metric"] == "cos":
                    c["X"] = dict(c["X"], mode="neg")
    return {"runs": runs, "par": int(par), "keep": draw(st.integers(0, 1)), "share": draw(st.integers(0, 1))}


def t_runs(ctx, c):
    runs, kws, Xs, share = list(c["runs"]), [], [], []
    first = None                                # a matrix that several runs read
    for i, r in enumerate(runs):
        X, j = matrix(r["X"]), i
        if c["share"] and r["alg"] != "skmeans" and r["metric"] != "cos":
            if first is None:
                first = (i, X)
            elif (r["alg"] in EXACT_ALGS or runs[first[0]]["X"]["mode"] in CONT) and r["k"] <= len(first[1]) and r.get("mb") is None:
                j, X = first
                r = runs[i] = dict(r, X=runs[j]["X"])
        Xs.append(X)
        share.append(j)
        kws.append(args_of(r, X))
    if any(undefined(r, X, kw) for r, X, kw in zip(runs, Xs, kws)):
        return False, ["undefined-cos"]
    req = {}
    for i, kw in enumerate(kws):
        for a, v in kw.items():
            if not (a == "data" and share[i] != i):
                req["%d.%s" % (i, a)] = v
        req["%d.share" % i] = share[i]
    g = ctx.call("multi", runs=len(runs), par=c["par"], keep=c["keep"], timeout=60, **req)
    if g["status"] != "ok":
        raise Violation("the runs together raised " + g["status"], "crash")
    what = "at the same time" if c["par"] else "one after the other"
    many = 0
    for i, (r, X, kw) in enumerate(zip(runs, Xs, kws)):
        name = "run %d of %d %s (%s)" % (i, len(runs), what, ", ".join(q["alg"] for q in runs))
        if g["%d.what" % i] != "ok":
            raise Violation("%s failed: %s" % (name, g["%d.what" % i]), "crash")
        a, b = Result(ctx.run(**kw)), Result(g, "%d." % i)
        try:
            compare(r, X, a, b, name + " and alone")
        except Violation:
            if fragile(r, X, a, kw) or fragile(r, X, b, kw):
                return False, ["tie"]
            raise
        if g["%d.same" % i] != "1" and r["alg"] != "skmeans":
            raise Violation("%s: the caller's matrix or centers changed" % name)
        many += int((a.cnt > 0).sum()) >= 2
    return many >= 2, ["at-once" if c["par"] else "in-turn", "shared" if share != sorted(set(share)) else "own"] + sorted({r["alg"] for r in runs})


SUBS = [Sub("in-turn", cases(False), t_runs, 1600, 24000),
        Sub("in-turn-omp", cases(False, algs=("omp_full", "omp_prune", "full", "xmeans")), t_runs, 800, 12000),
        Sub("at-once", cases(True, algs=PAR), t_runs, 1600, 24000),
        Sub("in-turn-large", cases(False, max_n=900, min_n=100, max_m=12, max_T=16), t_runs, 160, 2400),
        Sub("at-once-large", cases(True, algs=PAR, max_n=900, min_n=100, max_m=12, max_T=8), t_runs, 160, 2400)]
