"""Strategies and oracles shared by several checks."""
import numpy as np
from hypothesis import strategies as st
import vlib
from vlib import Violation, matrix, mats, mat_of
from models import *


def nthr(few=8):
    """Thread counts: mostly a few, now and then more than there are processors."""
    return st.one_of(*[st.integers(1, few)] * 6, st.sampled_from([9, 12, 16, 17, 31, 33, 64, 70, 130]))


class Result:
    def __init__(self, r, p="0."):
        self.k = int(r[p + "k"])
        self.nrow, self.ncol = int(r[p + "nrow"]), int(r[p + "ncol"])
        self.iters = int(r[p + "iters"])
        self.asg = r[p + "asg"].astype(np.int64)
        self.cnt = r[p + "cnt"].astype(np.int64)
        c = r[p + "cen"]
        self.cen = c.reshape(self.k, self.ncol) if c.size == self.k * self.ncol else c
        self.cen_raw = c


def valid(res, n, m, kmax=None, kexact=None, X=None, rel=1e-8, means=True, nonempty=False):
    """Self-consistency of a result object (C06)."""
    if res.nrow != n or res.ncol != m:
        raise Violation("reported shape %dx%d, data is %dx%d" % (res.nrow, res.ncol, n, m))
    if res.asg.shape != (n,):
        raise Violation("%d assignments for %d samples" % (res.asg.size, n))
    if kexact is not None and res.k != kexact:
        raise Violation("reported k=%d, requested %d" % (res.k, kexact))
    if kmax is not None and not (1 <= res.k <= kmax):
        raise Violation("k=%d not in [1,%d]" % (res.k, kmax))
    if res.cnt.shape != (res.k,):
        raise Violation("%d sizes for k=%d" % (res.cnt.size, res.k))
    if res.cen_raw.size != res.k * m:
        raise Violation("%d center coordinates for k=%d, dim=%d" % (res.cen_raw.size, res.k, m))
    bad = (res.asg < 0) | (res.asg >= res.k)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation("sample %d has cluster id %d, k=%d" % (i, res.asg[i], res.k))
    h = np.bincount(res.asg, minlength=res.k)
    if not np.array_equal(h, res.cnt):
        raise Violation("sizes %s but ids occur %s times" % (res.cnt.tolist(), h.tolist()))
    if nonempty and (h == 0).any():
        raise Violation("empty cluster in result, sizes %s" % h.tolist())
    if not np.isfinite(res.cen_raw).all():
        raise Violation("non-finite center coordinate")
    if X is not None and means:
        cnt, cen = means_of(X, res.asg, res.k)
        nz = cnt > 0
        if not close(res.cen[nz], cen[nz], scale_of(X), rel):
            raise Violation("centers are not the means of their samples: %s vs %s" % (
                res.cen[nz].tolist(), cen[nz].tolist()))


def same(a, b, what, scale, rel=1e-8, centers=True, iters=False):
    if a.k != b.k:
        raise Violation("%s: k %d vs %d" % (what, a.k, b.k))
    if not np.array_equal(a.asg, b.asg):
        i = int(np.argmax(a.asg != b.asg))
        raise Violation("%s: sample %d in cluster %d vs %d (%d samples differ)" % (
            what, i, a.asg[i], b.asg[i], int((a.asg != b.asg).sum())))
    if not np.array_equal(a.cnt, b.cnt):
        raise Violation("%s: sizes %s vs %s" % (what, a.cnt.tolist(), b.cnt.tolist()))
    if centers and not close(a.cen, b.cen, scale, rel):
        raise Violation("%s: centers %s vs %s" % (what, a.cen.tolist(), b.cen.tolist()))
    if iters and a.iters != b.iters:
        raise Violation("%s: iterations %d vs %d" % (what, a.iters, b.iters))


def vs_lloyd(res, ref, X, what, rel=1e-8):
    if not np.array_equal(res.asg, ref.asg):
        i = int(np.argmax(res.asg != ref.asg))
        raise Violation("%s: sample %d assigned to %d, Lloyd gives %d (%d samples differ)" % (
            what, i, res.asg[i], ref.asg[i], int((res.asg != ref.asg).sum())))
    if not np.array_equal(res.cnt, ref.cnt):
        raise Violation("%s: sizes %s, Lloyd gives %s" % (what, res.cnt.tolist(), ref.cnt.tolist()))
    if not close(res.cen, ref.cen, scale_of(X), rel):
        raise Violation("%s: centers %s, Lloyd gives %s" % (what, res.cen.tolist(), ref.cen.tolist()))


@st.composite
def start_centers(draw, n, m, k, allow_far=True):
    """Description of k start centers: data rows, free points, far points, duplicates."""
    kinds = ["rows", "free", "mixed", "pair"] + (["far"] if allow_far else [])
    kind = draw(st.sampled_from(kinds))
    c = {"kind": kind, "k": k,
         "rows": draw(st.lists(st.integers(0, n - 1), min_size=k, max_size=k)),
         "salt": draw(st.integers(0, 1 << 16))}
    return c


def size_of(draw, r):
    """A size in the range, often one at which counters, blocks or unrolled loops end."""
    e = [v for v in EDGES if r[0] <= v <= r[1]]
    return draw(st.one_of(st.integers(*r), st.sampled_from(e)) if e else st.integers(*r))


@st.composite
def grown(draw, strategy, n=None, k=None, m=None):
    """A case of the given strategy with more samples, clusters or columns (same family of values)."""
    c = draw(strategy)
    N = size_of(draw, n) if n else c["X"]["n"]
    if "mb" in c:
        c["mb"] = max(1, c["mb"] * N // c["X"]["n"])
    c["X"] = dict(c["X"], n=N, m=size_of(draw, m) if m else c["X"]["m"])
    if k is not None:
        c["k"] = min(N, size_of(draw, k))
    if "C" in c:
        c["C"] = dict(draw(start_centers(N, c["X"]["m"], c["k"] if k is not None else c["C"]["k"])), kind=c["C"]["kind"])
    return c


@st.composite
def slow(draw, strategy, n=(700, 1600), k=(30, 60)):
    """A case of the given strategy in which hundreds of passes happen: all centers start at one end of a line."""
    c = draw(strategy)
    c["X"] = {"n": draw(st.integers(*n)), "m": draw(st.integers(1, 3)), "mode": "line", "b": "",
              "salt": draw(st.integers(0, 1 << 20))}
    c["k"] = draw(st.integers(*k))
    c["C"] = {"kind": "corner", "k": c["k"], "rows": [0], "salt": draw(st.integers(0, 1 << 16))}
    if c.get("tol") is not None:
        c["tol"] = draw(st.sampled_from([-1.0, -1.0, 0.0]))
    for f in ("iters", "limit"):
        if f in c:
            c[f] = draw(st.sampled_from([100000, 100000, 254, 255, 256, 257, 300]))
    return c


EDGES = [127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073]
HUGE = (40000, 140000)
MANY = (200, 700)
COLS = (100, 1100)


def centers(c, X):
    n, m = X.shape
    k = c["k"]
    rows = np.array(c["rows"], int) % n
    lo, hi = X.min(0), X.max(0)
    span = np.where(hi > lo, hi - lo, 1.0)
    f = vlib.hash01(k * m, c["salt"]).reshape(k, m)
    free = lo + f * span
    far = lo + (f * 7 - 3) * span
    kind = c["kind"]
    if kind == "corner":   # the samples at one end
        return X[np.argsort(X[:, 0], kind="stable")[:k]].copy()
    if kind == "rows":
        return X[rows].copy()
    if kind == "free":
        return free
    if kind == "far":
        return far
    if kind == "pair":     # rows shifted a little: distinct but close to data
        return X[rows] + (f - .5) * span * .3
    out = free.copy()
    out[::2] = X[rows][::2]
    if k > 2:
        out[k - 1] = far[k - 1]
    return out
