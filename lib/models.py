"""Reference models, written from the textbook definitions (not from knor's code)."""
import numpy as np

METRICS = ("eucl", "sqeucl", "taxi", "cos")


def dists(X, C, metric):
    """n x k distances."""
    if metric in ("eucl", "sqeucl"):
        D = np.zeros((X.shape[0], C.shape[0]))
        for j in range(X.shape[1]):
            d = X[:, j:j + 1] - C[:, j][None, :]
            D += d * d
        return np.sqrt(D) if metric == "eucl" else D
    if metric == "taxi":
        D = np.zeros((X.shape[0], C.shape[0]))
        for j in range(X.shape[1]):
            D += np.abs(X[:, j:j + 1] - C[:, j][None, :])
        return D
    if metric == "cos":
        nx = np.sqrt((X * X).sum(1))[:, None]
        nc = np.sqrt((C * C).sum(1))[None, :]
        dot = np.zeros((X.shape[0], C.shape[0]))
        for j in range(X.shape[1]):     # identical centers get identical products, which @ does not promise
            dot += X[:, j:j + 1] * C[:, j][None, :]
        with np.errstate(all="ignore"):
            return 1 - dot / (nx * nc)
    raise ValueError(metric)


def scale_of(X, C=None):
    s = float(np.max(np.abs(X))) if X.size else 0.0
    if C is not None and C.size:
        s = max(s, float(np.max(np.abs(C))))
    return s


def slack(X, metric, rel=1e-9):
    """what is rounding level for a distance, in the units the data comes in"""
    return rel * (1 if metric == "cos" else scale_of(X) ** (2 if metric == "sqeucl" else 1))


def near_ties(D, C, metric, scale):
    """rows whose best two *different* centers are within rounding of each other.
    Exactly identical centers are not a tie to worry about: lowest index wins."""
    n, k = D.shape
    if k == 1:
        return np.zeros(n, bool)
    best = D.argmin(1)
    dup = np.ones((k, k), bool)
    for j in range(C.shape[1]):
        dup &= C[:, j][:, None] == C[:, j][None, :]
    E = D.copy()
    E[dup[best]] = np.inf          # ignore the winner and exact duplicates of it
    second = E.min(1)
    b = D[np.arange(n), best]
    if metric == "cos":
        tol = 1e-11 + 0 * b
    elif metric == "sqeucl":
        tol = 1e-11 * (np.abs(b) + scale * scale) 
    else:
        tol = 1e-11 * (np.abs(b) + scale)
    if metric == "eucl":           # sqrt amplifies near zero
        tol = np.maximum(tol, 1e-9 * scale * 0 + tol)
    return second - b <= tol


class LloydRun:
    """asg, cnt, cen, passes, converged, changed (per pass), ambiguous (a near tie was met)."""


def means_of(X, asg, k):
    cnt = np.bincount(asg, minlength=k)
    cen = np.zeros((k, X.shape[1]))
    for j in range(X.shape[1]):
        cen[:, j] = np.bincount(asg, weights=X[:, j], minlength=k)
    nz = cnt > 0
    cen[nz] /= cnt[nz][:, None]
    return cnt, cen


def lloyd(X, C0, metric="eucl", max_iters=100, tol=-1, trace=False):
    X = np.asarray(X, float)
    n = X.shape[0]
    C = np.array(C0, float).reshape(-1, X.shape[1])
    k = C.shape[0]
    r = LloydRun()
    r.asg = np.full(n, -1)
    r.cnt = np.zeros(k, int)
    r.cen = C
    r.passes, r.converged, r.ambiguous, r.undefined, r.dup = 0, False, False, False, False
    r.changed, r.empties, r.trace, r.move = [], False, [], []
    while r.passes < max_iters:
        D = dists(X, r.cen, metric)
        if np.isnan(D).any():
            r.undefined = True
            return r
        sc = scale_of(X, r.cen)
        if near_ties(D, r.cen, metric, sc).any():
            r.ambiguous = True
        a = D.argmin(1)
        if r.passes and not r.dup and (D == D[np.arange(n), a][:, None]).sum(1).max() > 1:
            r.dup = True        # exactly equal distances after the first pass (e.g. two centers at one place)
        ch = int((a != r.asg).sum())
        r.asg = a
        old = r.cen
        r.cnt, r.cen = means_of(X, a, k)
        r.move.append(float(np.sqrt(((old - r.cen) ** 2).sum(1)).max()))
        r.passes += 1
        r.changed.append(ch)
        if (r.cnt == 0).any():
            r.empties = True
        if trace:
            r.trace.append((a.copy(), r.cen.copy()))
        f = ch / n
        if tol >= 0 and abs(f - tol) < 1e-12 and ch != 0 and f != tol:
            r.ambiguous = True
        if ch == 0 or f <= tol:
            r.converged = True
            break
    return r


def wcss(X, asg, cen):
    return float(((X - cen[asg]) ** 2).sum())


def close(a, b, scale, rel=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= rel * (np.maximum(np.abs(a), np.abs(b)) + scale)))
