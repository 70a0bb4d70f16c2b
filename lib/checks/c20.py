import itertools
from fractions import Fraction
from common import *
from vlib import Sub, hash01

RULE = ("Histories: up to 25 operations on three matrices (all shapes 1..7, square and not); after each operation the state of "
        "all three and the answer are compared with numpy's definition, one step at a time. Helpers: determinant, adjoint and "
        "inverse against exact rational arithmetic, the others against compensated sums. Non-trivial: a history with at least "
        "one product, sum, scaling or arg-max on a matrix with >=2 rows and columns; a helper case with length >=2.")
ASSUMPTIONS = ["one step's rounding error is bounded by 1e-12 times the sum of magnitudes that enter it",
               "subtracting a vector from a square matrix is per row, as the code has it",
               "standardising near-constant vectors (spread below 1e-6 of their size) is numerically undefined"]


@st.composite
def hist(draw, big=False):
    ops = []
    for _ in range(draw(st.integers(1, 12 if big else 25))):
        ops.append([draw(st.one_of(st.integers(0, 26), st.sampled_from([7, 7, 5, 12, 21, 26]))), draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.integers(0, 7)),
                    draw(st.integers(0, 7)), draw(st.integers(0, 40)), draw(st.integers(-24, 24)) / 8.0])
    def shape():
        if not big:
            return draw(st.tuples(st.integers(1, 7), st.integers(1, 7)))
        how = draw(st.integers(0, 3))
        if how < 2:
            return (size_of(draw, (60, 1100)), draw(st.integers(1, 4)))[::1 - 2 * how]
        q = draw(st.integers(8, 70))
        return q, q if how == 2 else draw(st.integers(8, 140))
    shp = [shape() for _ in range(3)]
    if draw(st.booleans()):
        shp[1] = shp[0]
    if draw(st.booleans()):
        shp[2] = (shp[0][1], shp[2][1])
    return {"shp": [list(s) for s in shp], "ops": ops, "salt": draw(st.integers(0, 1 << 20)),
            "int": draw(st.booleans()), "pos": draw(st.booleans())}


def step(op, r, s, a, b, v, f, R, pool, fams, first):
    """Definition of one operation.  Returns (resolved arguments, answer, tolerance, {register: (matrix, tolerance)}),
    or None where the operation is not applicable (first pass) or rounding decides (second pass)."""
    A, B = R[r], R[s]
    n, m = A.shape
    E = 1e-12
    lim = lambda Z: Z.size == 0 or (np.isfinite(Z).all() and np.abs(Z).max() < 1e8)
    ans, tol, chg = None, 0, {}
    big = min(n, m) > 1
    if first and op in (1, 2, 3, 9):        # anywhere, from the front or from the end
        a, b = ((n - 1 - a) % n, (m - 1 - b) % m) if v % 2 else (a * 1009 % n, b * 1013 % m)
    if op == 0 or op == 22:
        a, b = max(a, 1), max(b, 1)
        chg = {r: (pool[v:v + a * b].reshape(a, b).copy(), 0)}
    elif op == 1:
        a %= n
        Z = A.copy(); Z[a] = pool[v:v + m]
        chg = {r: (Z, 0)}
    elif op in (2, 9):
        a %= n; b %= m
        Z = A.copy(); Z[a, b] = f if op == 2 else Z[a, b] + f
        chg = {r: (Z, E * (np.abs(A) + abs(f)) if op == 9 else 0)}
    elif op == 3:
        a %= n; b %= m
        ans = np.array([A[a, b]])
    elif op == 4:
        a %= 2
        ans, tol = A.mean(0) if a == 1 else A.mean(1), E * np.abs(A).max()
    elif op in (5, 6):
        if A.shape != B.shape: return None
        a %= 3
        chg = {(r + 1 + a) % 3: (A - B if op == 5 else A + B, E * (np.abs(A) + np.abs(B)))}
    elif op == 7:
        if m != B.shape[0] or not (lim(A) and lim(B)): return None
        a %= 3
        chg = {(r + 1 + a) % 3: (A @ B, E * (np.abs(A) @ np.abs(B)))}
        if big: fams.add("mul")
    elif op == 8:
        if A.shape != B.shape or not lim(A): return None
        chg = {r: (A + B, E * (np.abs(A) + np.abs(B)))}
    elif op == 10:
        ans = np.array([np.sqrt((A * A).sum())]); tol = E * ans[0]
    elif op == 11 or op == 24:
        if first and v % 3: return None
        if op == 24:
            a, b = max(a, 1), max(b, 1)
            chg = {r: (np.zeros((a, b)), 0)}
        else:
            chg = {r: (np.zeros_like(A), 0)}
        v = 0
    elif op == 12:
        a %= 3
        ans = A.sum(0) if a == 0 else A.sum(1) if a == 1 else np.array([-7777.0])
        tol = E * np.abs(A).sum()
        if big: fams.add("sum")
    elif op == 13:
        ans, tol = np.array([A.sum()]), E * np.abs(A).sum()
    elif op == 14:
        if f == 0: f = .5
        if not lim(A / f): return None
        chg = {r: (A / f, E * np.abs(A / f))}
    elif op in (15, 16, 17):
        if first:
            a = [n, m, n, m, n + m, 1, n, m][a]
        ln = a
        w = pool[v:v + ln]
        Z = None
        if op == 15:
            if n == m: ans = np.array([-7777.0])
            elif ln == n: Z = A / w[:, None]
            elif ln == m: Z = A / w[None, :]
            else: ans = np.array([-8888.0])
        else:
            if first: b %= 3
            if b == 0 and ln == m: Z = A / w[None, :]
            elif b == 1 and ln == n: Z = A / w[:, None]
            else: ans = np.array([-8888.0])
            if op == 17:
                f = float(int(abs(f)))
                if Z is not None: Z = Z ** f
        if Z is not None:
            if not lim(Z): return None
            chg = {r: (Z, E * np.abs(Z))}
            if big: fams.add("scale")
    elif op == 26:          # per row where the length is the number of rows, else per column
        if first:
            a, b = [n, m, n, m, n + m, 1, n, m][a], b % 3
        w = pool[v:v + a]
        if a == n or a == m:
            chg = {(r + 1 + b) % 3: (A - (w[:, None] if a == n else w[None, :]), E * (np.abs(A) + np.abs(w).max()))}
            if big: fams.add("sub")
        else: ans = np.array([-7777.0])
    elif op == 18:
        if (A <= 0).any(): f = float(int(abs(f)))
        with np.errstate(all="ignore"):
            Z = A ** f
        if not lim(Z): return None
        chg = {r: (Z, E * np.abs(Z))}
    elif op == 19:
        ans = np.array([float(A.shape == B.shape and bool((A == B).all()))])
    elif op in (20, 23):
        if op == 23 and r == s: return None
        chg = {r: (B.copy(), 0)}
    elif op == 21:
        a %= 3
        ans = np.array([-7777.0]) if a == 2 else (A.argmax(1) if a == 0 else A.argmax(0)).astype(float)
        if big: fams.add("argmax")
    else:
        ans = A.ravel().copy()
    return (op, r, s, a, b, v, f), ans, tol, chg


def t_hist(ctx, c):
    pool = hash01(max(128, 64 + 2 * sum(x * y for x, y in c["shp"])) + 2 * max(sum(q) for q in c["shp"]), c["salt"]) * 16 - 8
    if c["int"]:
        pool = np.floor(pool)
    if c["pos"]:
        pool = np.abs(pool)
    pool = np.where(pool == 0, 1.0, pool)
    R = [np.zeros((0, 0))] * 3
    fams, calls = set(), []
    todo = [(0, i, 0, p, q, i * 9, 0) for i, (p, q) in enumerate(c["shp"])] + [tuple(o) for o in c["ops"]]
    for o in todo:
        got = step(*o, R, pool, fams, True)
        if got is None:
            continue
        calls.append(got[0])
        for q, (Z, _) in got[3].items():
            R[q] = Z
    rr = ctx.call("dmat", pool=pool, prog=np.array(calls, float))
    if rr["status"] != "ok":
        raise Violation("raised: " + rr["status"], "crash")
    t, pos = rr["t"], 0
    S = [np.zeros((0, 0))] * 3
    for i, o in enumerate(calls):
        got = step(*o, S, pool, set(), False)
        k = int(t[pos]); out = t[pos + 1:pos + 1 + k]; pos += 1 + k
        ans, tol, chg = (None, 0, {}) if got is None else got[1:]
        skip = got is None or got[0] != o
        if not skip and (k != (0 if ans is None else ans.size) or (k and not (np.abs(out - ans) <= tol).all())):
            raise Violation("operation %d (code %d) answered %s, definition gives %s" % (i, o[0], out, ans))
        N = []
        for q in range(3):
            n, m, sz = (int(x) for x in t[pos:pos + 3])
            pos += 3
            if sz != n * m:
                raise Violation("after operation %d (code %d) %dx%d matrix %d stores %d" % (i, o[0], n, m, q, sz))
            G = t[pos:pos + n * m].reshape(n, m); pos += n * m
            N.append(G)
            if skip:
                continue
            Z, e = chg.get(q, (S[q], 0))
            if G.shape != Z.shape or not (np.abs(G - Z) <= e).all():
                raise Violation("operation %d (code %d on %s): matrix %d is %s, definition gives %s" % (
                    i, o[0], S[o[1]].tolist(), q, G.tolist(), Z.tolist()))
        S = N
    return bool(fams), sorted(fams)


def det(A):
    n = len(A)
    A = [[Fraction(x) for x in r] for r in A]
    d = Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            A[i], A[p] = A[p], A[i]
            d = -d
        d *= A[i][i]
        for r in range(i + 1, n):
            q = A[r][i] / A[i][i]
            if q:
                A[r] = [x - q * y for x, y in zip(A[r], A[i])]
    return d


def minor(A, i, j):
    return [[x for c, x in enumerate(r) if c != j] for q, r in enumerate(A) if q != i]


def absperm(A):
    """Permanent of the magnitudes, the scale of rounding in a cofactor expansion."""
    n = len(A)
    if n == 0:
        return 1.0
    return sum(abs(A[0][j]) * absperm(minor(A, 0, j)) for j in range(n)) if n > 1 else abs(A[0][0])


@st.composite
def squares(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6]))
    kind = draw(st.sampled_from(["int", "int", "real", "singular", "scaled", "perm"]))
    return {"n": n, "kind": kind, "salt": draw(st.integers(0, 1 << 20)), "e": draw(st.integers(-20, 20)),
            "b": draw(st.lists(st.integers(-9, 9), min_size=n * n, max_size=n * n))}


def t_square(ctx, c):
    n = c["n"]
    A = np.array(c["b"], float).reshape(n, n)
    if c["kind"] in ("real", "scaled"):
        A = A + hash01(n * n, c["salt"]).reshape(n, n)
    if c["kind"] == "scaled":
        A = A * 2.0 ** c["e"]
    if c["kind"] == "singular" and n > 1:
        A[-1] = A[0] * (1 + c["salt"] % 3) if c["salt"] % 2 else 0
    if c["kind"] == "perm":
        A = np.eye(n)[np.argsort(hash01(n, c["salt"]))] * np.array([x or 1 for x in c["b"][:n]], float)
    L = A.tolist()
    d = det(L)
    P = absperm(L)
    call = lambda f: ctx.call("la", f=f, n=n, m=n, x=A)
    g = call("det")
    if g["status"] != "ok" or abs(Fraction(g["out"][0]) - d) > Fraction(1e-13 * P):
        raise Violation("determinant of %s is %r, exactly %s" % (L, g.get("out"), float(d)))
    if not np.array_equal(g["x"], A.ravel()):
        raise Violation("determinant changed its argument")
    adj = [[(-1) ** (i + j) * det(minor(L, j, i)) if n > 1 else Fraction(1) for j in range(n)] for i in range(n)]
    sc = [[1e-13 * absperm(minor(L, j, i)) if n > 1 else 0 for j in range(n)] for i in range(n)]
    for f in ("adj", "adjm"):
        g = call(f)
        G = g["out"].reshape(n, n)
        for i in range(n):
            for j in range(n):
                if abs(Fraction(G[i, j]) - adj[i][j]) > Fraction(sc[i][j]):
                    raise Violation("%s of %s has [%d,%d]=%r, exactly %s" % (f, L, i, j, G[i, j], float(adj[i][j])))
    g = call("inv")
    exact = c["kind"] in ("int", "singular", "perm")
    if exact and d == 0:
        if g["tail"][0] != 0:
            raise Violation("singular matrix %s reported invertible" % L)
        return n > 1, ["singular"]
    if abs(float(d)) < 1e-6 * P:
        return False, ["ill-conditioned"]
    if g["tail"][0] != 1:
        raise Violation("invertible matrix %s reported singular" % L)
    G = g["out"].reshape(n, n)
    I = A @ G
    tol = 1e-11 * (np.abs(A) @ np.abs(G)).max() * (P / abs(float(d)))
    if not np.allclose(I, np.eye(n), rtol=0, atol=tol) or not np.allclose(G @ A, np.eye(n), rtol=0, atol=1e-11 * (
            np.abs(G) @ np.abs(A)).max() * (P / abs(float(d)))):
        raise Violation("matrix %s times its inverse %s is %s" % (L, G.tolist(), I.tolist()))
    return n > 1, ["inverse"]


@st.composite
def vecs(draw, nr=(1, 40), mr=(1, 8)):
    n, m = size_of(draw, nr), size_of(draw, mr)
    return {"n": n, "m": m, "f": draw(st.sampled_from(["vdiff", "norm", "vm", "dot", "vdot", "standardise", "scale", "pow",
                                                       "peq", "sphere"])),
            "X": draw(mat_of(n, m)), "Y": draw(mat_of(n, m)), "c": draw(st.integers(-40, 40)) / 8.0}


def t_vec(ctx, c):
    n, m, f = c["n"], c["m"], c["f"]
    X, Y = matrix(c["X"]), matrix(c["Y"])
    x, y, e = X[:, 0].copy(), Y[:, 0].copy(), c["c"]
    L = np.longdouble
    if f == "vm":
        a, b, want = x, Y, (L(x)[:, None] * L(Y)).sum(0)
        tol = (np.abs(x)[:, None] * np.abs(Y)).sum(0)
    elif f == "sphere":
        a, b = X, y
        nr = np.sqrt((L(X) ** 2).sum(1))
        if (nr == 0).any():
            return False, ["zero-row"]
        want, tol = (L(X) / nr[:, None]).ravel(), 1.0
    else:
        a, b = x, y
        if f == "vdiff": want, tol = L(x) - L(y), np.abs(x) + np.abs(y)
        elif f == "norm": want = np.array([np.sqrt((L(x) ** 2).sum())]); tol = want
        elif f in ("dot", "vdot"): want = np.array([(L(x) * L(y)).sum()]); tol = (np.abs(x) * np.abs(y)).sum()
        elif f == "scale": want = L(x) * e; tol = np.abs(want)
        elif f == "pow":
            if (x <= 0).any(): e = float(int(abs(e)))
            want = np.array([v ** e for v in x]); tol = np.abs(want)
            if not np.isfinite(want).all():
                return False, ["overflow"]
        elif f == "peq": want = L(x) + L(y); tol = np.abs(x) + np.abs(y)
        else:
            mu = L(x).mean(); sd = np.sqrt(((L(x) - mu) ** 2).mean())
            if x.max() > x.min() and sd < 1e-6 * np.abs(x).max():
                return False, ["near-constant"]
            if x.max() == x.min():
                # only centred; rounding of the mean may leave a non-zero spread
                if n & (n - 1):
                    return False, ["constant"]
                want, tol = np.zeros(n), 1.0
            else:
                want, tol = (L(x) - mu) / sd, 1e-0 + np.abs(x).max() / sd
    g = ctx.call("la", f=f, n=n, m=m, x=a, y=b, c=float(e))
    if g["status"] != "ok":
        raise Violation("%s raised %s" % (f, g["status"]), "crash")
    out = g["out"]
    if out.size != want.size or not (np.abs(L(out) - want) <= 1e-12 * L(tol) + 1e-300).all():
        raise Violation("%s gives %s, definition gives %s" % (f, out[:12].tolist(), np.asarray(want, float)[:12].tolist()))
    if f not in ("standardise", "peq", "sphere") and not np.array_equal(g["x"], np.asarray(a).ravel()):
        raise Violation("%s changed its argument" % f)
    if not np.array_equal(g["y"], np.asarray(b).ravel()):
        raise Violation("%s changed its second argument" % f)
    return n >= 2, [f]


D = ("fast", "ds")
SUBS = [Sub("history", hist(), t_hist, 6000, 100000, build=D), Sub("square", squares(), t_square, 4000, 60000, build=D),
        Sub("vectors", vecs(), t_vec, 4000, 60000, build=D), Sub("history-large", hist(True), t_hist, 400, 6000, build=D),
        Sub("vectors-large", vecs((60, 4100), (1, 3)), t_vec, 600, 9000, build=D),
        Sub("vectors-wide", vecs((1, 12), (60, 1100)), t_vec, 300, 4500, build=D)]
