from common import *
from vlib import Sub, hash01
import string

RULE = ("A case is a batch of vector pairs (1..300 columns; the data families, signed, equal, opposite, zero, scaled, together or one of them, by powers "
        "of two from 2^-300 to 2^400) whose four distances and the dispatch by name are compared with extended-precision definitions, "
        "plus the metric laws; or a metric/initialisation name, which must be mapped to its code or rejected. Non-trivial "
        "when the two vectors differ and have >=2 columns, or a name is tried.")
ASSUMPTIONS = ["rounding within (columns+4) units in the last place of the sum of magnitudes",
               "cosine is only defined for non-zero vectors"]
EPS = 2.0 ** -52


@st.composite
def pairs(draw, n=None):
    n = size_of(draw, n) if n else draw(st.one_of(st.integers(1, 40), st.integers(1, 300)))
    return {"n": n, "X": draw(mat_of(6, n)), "Y": draw(mat_of(6, n)), "rel": draw(st.sampled_from(
        ["free", "free", "same", "neg", "scaled", "perm", "zero", "near"])), "e": draw(st.one_of(st.integers(-60, 60), st.integers(-300, 400))), "s": draw(st.sampled_from([False, True, "one"]))}


def t_pairs(ctx, c):
    n, L = c["n"], np.longdouble
    X, Y = matrix(c["X"]), matrix(c["Y"])
    r = c["rel"]
    if r == "same": Y = X.copy()
    elif r == "neg": Y = -X
    elif r == "scaled": Y = X * 3.0
    elif r == "perm": Y = X[:, ::-1].copy()
    elif r == "zero": Y = np.zeros_like(X)
    elif r == "near": Y = X + Y * 2.0 ** -30
    if c["s"]:
        X, Y = X * 2.0 ** c["e"], Y * (1.0 if c["s"] == "one" else 2.0 ** c["e"])
    Z = np.vstack([X, Y, X[1:], X[:1]])          # rows for the triangle law
    W = np.vstack([Y, X, Y[1:], Y[:1]])
    g = ctx.call("dist", n=n, x=Z, y=W)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    o = g["out"].reshape(-1, 8)
    D = L(Z) - L(W)
    sq = (D * D).sum(1)
    want = np.vstack([np.sqrt(sq), sq, np.abs(D).sum(1)]).T
    u = (n + 6) * EPS
    for j, nm in enumerate(("eucl", "sqeucl", "taxi")):
        bad = ~(np.abs(o[:, j] - want[:, j]) <= u * want[:, j])
        if bad.any():
            i = int(np.argmax(bad))
            raise Violation("%s(%s, %s) = %.17g, definition gives %.17g" % (nm, Z[i].tolist(), W[i].tolist(), o[i, j], float(want[i, j])))
        if not np.array_equal(o[:, j], o[:, (4, 5, 6)[j]]):
            raise Violation("choosing %s by name gives another value" % nm)
    nz = ((Z * Z).sum(1) > 1e-290) & ((W * W).sum(1) > 1e-290)
    with np.errstate(all="ignore"):
        cw = 1 - (L(Z) * L(W)).sum(1) / (np.sqrt((L(Z) ** 2).sum(1)) * np.sqrt((L(W) ** 2).sum(1)))
    bad = nz & ~(np.abs(o[:, 3] - cw) <= (2 * n + 10) * EPS)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation("cos(%s, %s) = %.17g, definition gives %.17g" % (Z[i].tolist(), W[i].tolist(), o[i, 3], float(cw[i])))
    if not np.array_equal(o[nz, 3], o[nz, 7]):
        raise Violation("choosing cos by name gives another value")
    # laws: symmetric, zero for equal arguments
    for j in range(4):
        a, b = o[:6, j], o[6:12, j]
        ok = nz[:6] if j == 3 else np.ones(6, bool)
        if not np.array_equal(a[ok], b[ok]):
            raise Violation("distance %d is not symmetric" % j)
        if r == "same" and c["s"] != "one" and j < 3 and a.any():
            raise Violation("distance %d of equal vectors is not 0" % j)
        if j < 3 and (o[:, j] < 0).any():
            raise Violation("distance %d is negative" % j)
        if j == 3 and (nz & ((o[:, j] < -8 * u) | (o[:, j] > 2 + 8 * u))).any():
            raise Violation("cosine distance outside [0,2]")
    return n >= 2 and bool((X != Y).any()), [r]


@st.composite
def names(draw):
    return {"s": draw(st.one_of(st.sampled_from(["eucl", "cos", "taxi", "sqeucl", "random", "forgy", "kmeanspp", "none"]),
                                st.sampled_from(["euc", "eucll", "Eucl", "EUCL", "cosine", "tax", "l2", "", "sq", "kmeans++",
                                                 "plusplus", "None", "forg", "randomm", "sqeuclidean"]),
                                st.text(alphabet=string.ascii_letters + string.digits + "_+-", max_size=10))),
            "bad": draw(st.integers(4, 200))}


CODES = {"eucl": 0, "cos": 1, "taxi": 2, "sqeucl": 3, "random": 4, "forgy": 5, "kmeanspp": 6, "none": 7}


def t_names(ctx, c):
    g = ctx.call("names", s=c["s"].encode(), bad=c["bad"])
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    q = CODES.get(c["s"], -1)
    d, i, codes = g["dist"][0], g["init"][0], g["codes"]
    wd = codes[q] if 0 <= q < 4 else -1
    wi = codes[q] if q >= 4 else -1
    if d != wd or i != wi:
        raise Violation("name %r maps to metric %d, initialisation %d; expected %d, %d" % (c["s"], d, i, wd, wi))
    if len(set(codes[:4])) != 4 or len(set(codes[4:])) != 4:
        raise Violation("metric or initialisation codes collide")
    if g["threw"][0] != 1:
        raise Violation("unknown metric code %d was accepted" % c["bad"])
    return True, ["known" if q >= 0 else "unknown"]


D_ = ("fast", "ds")
SUBS = [Sub("pairs", pairs(), t_pairs, 8000, 120000, build=D_), Sub("pairs-wide", pairs((300, 70000)), t_pairs, 150, 3000, build=D_),
        Sub("names", names(), t_names, 1500, 20000, build=D_)]
