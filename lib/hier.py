"""Reference model of divisive two-means clustering (hierarchical, x-means, g-means)."""
import itertools

import numpy as np
from scipy.special import log_ndtr
from models import *

AD_CONST = (0.576, 0.656, 0.787, 0.918, 1.092)


def floor_pow2(k):
    p = 1
    while p * 2 <= k:
        p *= 2
    return p


def ad_statistic(v):
    """Anderson-Darling A^2 of a sample against the normal with its own mean and deviation."""
    v = np.sort(np.asarray(v, float))
    n = v.size
    s = v.std(ddof=1) if n > 1 else 0.0
    if not s > 0:
        return float("nan")
    y = (v - v.mean()) / s
    i = np.arange(1, n + 1)
    return float(-n - np.sum((2 * i - 1) / n * (log_ndtr(y) + log_ndtr(-y[::-1]))))


def ad_critical(n, strict):
    d = 1 + 4.0 / n - 25.0 / (n * n)
    return AD_CONST[strict] / d


def bic(N, sizes, ssq, dim):
    """Score of dividing N samples into len(sizes) groups with total squared distance ssq."""
    K = len(sizes)
    if N - K <= 0:
        return -np.inf
    var = ssq / (N - K)
    p = (K - 1) + dim * K + 1
    tot = 0.0
    for n in sizes:
        with np.errstate(all="ignore"):
            L = (n * np.log(n) if n else np.nan) - n * np.log(N) - n * np.log(2 * np.pi) / 2 \
                - n * dim * np.log(var) / 2 - (n - K) / 2
        tot += L - p / 2 * np.log(N)
    return tot


class HierRun:
    pass


TOO_MANY = 400      # ways a cluster limit may cut rounds off that are followed


def hier(X, C2, k, iters, tol=-1, mcs=2, metric="eucl", mode="hclust", strict=4):
    """Returns a HierRun: labels (the partitions the rules allow: more than one only when the cluster limit cuts off some
    of several candidates of a round, for which of them are divided depends on the order of processing), and flags:
    ambiguous (rounding may decide otherwise), order (the limit cut rounds off in too many ways to follow)."""
    n, m = X.shape
    cap = floor_pow2(k)
    r = HierRun()
    r.ambiguous = r.order = r.undefined = r.emptied = r.cut = False
    r.splits, r.reverts, r.passes = 0, 0, 0
    scX = scale_of(X)
    memo = {}

    def divide(rows, seeds):
        """-> (children, keep) of one group"""
        G = X[rows]
        ref = lloyd(G, seeds, metric, iters, tol, trace=True)
        if ref.undefined:
            r.undefined = True
            return None
        r.ambiguous |= ref.ambiguous
        r.passes = max(r.passes, ref.passes)
        used = seeds if ref.passes == 1 else ref.trace[-2][1]
        if (ref.cnt == 0).any():
            r.emptied = True
        keep = True
        if mode == "xmeans":
            sq = "sqeucl" if metric in ("eucl", "sqeucl") else metric
            N = len(rows)
            pm = G.mean(0)[None, :]
            ps = float(dists(G, pm, sq).sum())
            cs = float(dists(G, used, sq)[np.arange(N), ref.asg].sum())
            if min(ps, cs) <= 1e-12 * (1 if metric == "cos" else scX ** 1 if metric == "taxi" else scX * scX) * N:
                if not (ref.cnt == 0).any() and N > 2:
                    r.ambiguous = True      # rounding decides whether the spread is zero
            a, b = bic(N, [N], ps, m), bic(N, [int(c) for c in ref.cnt], cs, m)
            keep = bool(b > a)
            if np.isfinite(a) and np.isfinite(b) and abs(a - b) < 1e-7 * (abs(a) + abs(b) + 1):
                r.ambiguous = True
        elif mode == "gmeans":
            v = ref.cen[0] - ref.cen[1]
            vv = float(v @ v)
            pr = G @ v / vv if vv > 0 else np.zeros(len(rows))
            span = pr.max() - pr.min()
            mag = np.abs(pr).max()
            if (ref.cnt == 0).any() or (span < 1e-7 * (mag + 1e-300) and span > 0) or \
                    vv <= 1e-18 * (scX * scX + 1e-300):
                r.ambiguous = True
            st_ = ad_statistic(pr) if span > 0 else float("nan")
            crit = ad_critical(len(rows), strict)
            keep = bool(crit > 0 and st_ > crit)
            if crit > 0 and np.isfinite(st_) and abs(st_ - crit) < 1e-5 * (1 + crit):
                r.ambiguous = True
        if keep:
            r.splits += 1
        else:
            r.reverts += 1
        return [ch for ch in (rows[ref.asg == c] for c in (0, 1)) if len(ch)], keep

    out, seen = [], set()
    todo = [([(np.arange(n), np.array(C2, float).reshape(2, m))], 2, [])]
    steps = 0
    while todo:
        groups, leaves, final = todo.pop()
        steps += 1
        if steps > TOO_MANY:
            r.order = True
            break
        if not groups:
            lab = np.full(n, -1)
            for i, rows in enumerate(final):
                lab[rows] = i
            lab = canon(lab)
            if lab.tobytes() not in seen:
                seen.add(lab.tobytes())
                out.append(lab)
            continue
        final = list(final)
        cand = []
        for rows, seeds in groups:
            key = (rows.tobytes(), seeds.tobytes())
            if key not in memo:
                memo[key] = divide(rows, seeds)
            if memo[key] is None:
                return r
            kids, keep = memo[key]
            if keep:
                cand += kids
            else:
                leaves -= 1
                final.append(rows)
        can = [ch for ch in cand if len(ch) >= max(mcs, 2)]
        final += [ch for ch in cand if len(ch) < max(mcs, 2)]
        room = min(max(cap - leaves, 0), len(can))
        if 0 < room < len(can):
            r.cut = True
        for pick in itertools.combinations(range(len(can)), room):
            if len(todo) > TOO_MANY:
                r.order = True
                break
            todo.append(([(can[i], X[can[i][:2]]) for i in pick], leaves + room,
                         final + [can[i] for i in range(len(can)) if i not in pick]))
    r.labels = out
    r.k = sorted(set(int(l.max()) + 1 for l in out))
    return r


def canon(lab):
    """Relabels by first occurrence, so partitions can be compared."""
    _, first, inv = np.unique(lab, return_index=True, return_inverse=True)
    order = np.argsort(np.argsort(first))
    return order[inv]
