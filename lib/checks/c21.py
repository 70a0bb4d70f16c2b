from common import *
from vlib import Sub

RULE = ("A case is 1-4 successive sets of 2..30 centers (or rows) of 1..8 columns. The table is rebuilt for each set and every "
        "stored half-distance (or, for the pairwise table, distance), its symmetry, the diagonal, the nearest-other value of "
        "every center and the bounds the pruning relies on are compared with direct computation on that set. Non-trivial "
        "when there are >=3 centers and not all distances are equal.")
ASSUMPTIONS = ["relative rounding of 1e-12 in one distance", "the pairwise table rejects squared Euclidean, as it documents"]


@st.composite
def cases(draw, mode, ks=(2, 30), ms=(1, 8)):
    k = size_of(draw, ks)
    m = size_of(draw, ms)
    r = draw(st.integers(1, 4 if k * m < 4000 else 2))
    return {"k": k, "m": m, "r": r, "mode": draw(st.sampled_from(mode)), "X": draw(mat_of(k * r, m)),
            "P": draw(mats(1, 8, 1, 1))}


def t_table(ctx, c):
    k, m, mode = c["k"], c["m"], c["mode"]
    X = matrix(c["X"]).reshape(c["r"], k, m)
    if mode == "cos" and (np.abs(X).max(2) < 1e-9).any():
        return False, ["zero-row"]
    g = ctx.call("dmtable", C=X, k=k, m=m, mode=mode)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    o = g["out"]
    if o[0] != k - 1:
        raise Violation("table for %d has %d rows" % (k, o[0]))
    pos = 1
    nt = False
    for r in range(c["r"]):
        C = X[r]
        if mode == "set":
            D = np.zeros((k, k))
            for i in range(k):
                for j in range(i + 1, k):
                    D[i, j] = D[j, i] = C[i, 0] + 1000.0 * j
            tol = 0 * D
        else:
            met = "eucl" if mode == "half" else mode
            D = dists(C, C, met) * (.5 if mode == "half" else 1)
            tol = 1e-12 * D + (1e-13 * np.abs(C).max() if met != "cos" else 4e-15)
        q = o[pos:pos + 2 * k * k].reshape(k, k, 2)
        pos += 2 * k * k
        mn = o[pos:pos + 2 * k].reshape(k, 2)
        pos += 2 * k
        off = ~np.eye(k, dtype=bool)
        G, P = q[:, :, 0], q[:, :, 1]
        for nm, T in (("get", G), ("pw_get", P)):
            bad = off & ~(np.abs(T - D) <= tol)
            if bad.any():
                i, j = np.argwhere(bad)[0]
                raise Violation("round %d: %s(%d,%d) is %.17g, expected %.17g" % (r, nm, i, j, T[i, j], D[i, j]))
            if not np.array_equal(T[off], T.T[off]):
                raise Violation("round %d: %s is not symmetric" % (r, nm))
        if (np.diag(P) != 0).any():
            raise Violation("a row's distance to itself is not 0 in the pairwise view")
        if not (np.diag(G) == np.finfo(float).max).all():
            raise Violation("a center's bound against itself is not unbounded")
        near = np.where(off, G, np.inf).min(1)
        if not np.array_equal(mn[:, 0], near):
            raise Violation("round %d: nearest-other values %s, table says %s" % (r, mn[:, 0], near))
        if mode == "half" and not np.array_equal(mn[:, 1], near):
            raise Violation("round %d: bounds s(c) %s, table says %s" % (r, mn[:, 1], near))
        if mode == "half":
            # soundness: a point within the bound of its center has no strictly nearer center
            q = np.clip(matrix(c["P"]).ravel(), -16, 16)
            s_ = mn[:, 1]
            for f in q / 8:
                Y = C + f * s_[:, None] / np.sqrt(m)
                d = dists(Y, C, "eucl")
                own = np.diag(d)
                bad = (own <= s_) & (d.min(1) < own - 1e-9 * np.abs(C).max())
                if bad.any():
                    raise Violation("a point within s(%d) is nearer to another center" % int(np.argmax(bad)))
        nt = nt or (k >= 3 and np.ptp(D[off]) > 0)
    return bool(nt), [mode, "r%d" % c["r"]]


D_ = ("fast", "ds")
SUBS = [Sub("half", cases(["half"]), t_table, 4000, 60000, build=D_),
        Sub("pairwise", cases(["eucl", "cos", "taxi"], (2, 20)), t_table, 3000, 40000, build=D_),
        Sub("set", cases(["set"], (2, 12)), t_table, 1000, 10000, build=D_),
        Sub("half-many", cases(["half"], (30, 300)), t_table, 150, 3000, build=D_),
        Sub("pairwise-many", cases(["eucl", "cos", "taxi"], (20, 300)), t_table, 150, 3000, build=D_),
        Sub("set-many", cases(["set"], (12, 300)), t_table, 50, 1000, build=D_),
        Sub("half-cols", cases(["half"], ms=(8, 1100)), t_table, 200, 3000, build=D_),
        Sub("pairwise-cols", cases(["eucl", "cos", "taxi"], ms=(8, 1100)), t_table, 200, 3000, build=D_)]
