from common import *
from vlib import Sub

RULE = ("Queues: a start row, a row count (0, small, and around 1-5 multiples of the task size), and a history of takes, drains "
        "and resets on a queue built in dirty memory; tasks must tile the range in order with matching data pointers. Ranges: a real coordinator's row "
        "ranges and its row-to-data mapping, in memory, from a file and after redistribution, for all thread counts. Runs: "
        "inputs larger than a task give the same clustering as one thread on the task-less engine; a few runs have more than 2^32 values (zeros, but for some rows). Non-trivial: >=2 tasks; "
        ">=2 threads with a remainder; >=2 passes.")
ASSUMPTIONS = ["one NUMA node is present in this sandbox", "thread counts above the row count are reduced to it"]


@st.composite
def queues(draw):
    base = draw(st.one_of(st.integers(0, 40), st.integers(8150, 8240),
                          st.builds(lambda q, d: max(0, q * 8192 + d), st.integers(1, 5), st.integers(-3, 4)),
                          st.integers(8193, 60000)))
    return {"n": base, "m": draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 1 << 20))), "start": draw(st.one_of(st.just(0), st.integers(0, 1 << 20))),
            "ctor": draw(st.integers(0, 1)),
            "prog": draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=1, max_size=14))}


def t_queue(ctx, c):
    n, m, s0 = c["n"], c["m"], c["start"]
    g = ctx.call("tq", nrow=n, ncol=m, start=s0, ctor=c["ctor"], prog=c["prog"])
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    t = list(g["t"])
    pos = 2
    if bool(t[0]) != (bool(n) and bool(c["ctor"])):
        raise Violation("new queue over %d rows says has_task=%s" % (n, t[0]))
    done, tasks, seen = 0, 0, []

    def took(a, ln, off):
        nonlocal done, tasks
        if a != s0 + done or off != done * m:
            raise Violation("task starts at row %d offset %d, expected row %d offset %d" % (a, off, s0 + done, done * m))
        if ln < 1 or done + ln > n:
            raise Violation("task of %d rows at row %d of %d" % (ln, done, n))
        done += ln
        tasks += 1
        seen.append(ln)
    multi = 0
    for o in c["prog"]:
        if o == 0:
            has, nxt, a, ln, off = t[pos:pos + 5]
            pos += 5
            if bool(has) != (done < n):
                raise Violation("has_task=%s with %d of %d rows handed out" % (has, done, n))
            if has:
                if nxt != s0 + done:
                    raise Violation("next row %d, expected %d" % (nxt, s0 + done))
                took(a, ln, off)
            elif ln or off:
                raise Violation("an exhausted queue handed out %d rows" % ln)
        elif o == 1:
            while t[pos] != -1 or (s0 + done == -1):
                took(*t[pos:pos + 3])
                pos += 3
            pos += 1
            if done != n:
                raise Violation("drained after %d of %d rows" % (done, n))
        else:
            multi = max(multi, tasks)
            if bool(t[pos]) != (n > 0):
                raise Violation("after a reset of %d rows has_task=%s" % (n, t[pos]))
            pos += 1
            done = tasks = 0
    multi = max(multi, tasks)
    return multi >= 2, ["tasks%d" % min(multi, 4), "empty" if n == 0 else "rows"]


@st.composite
def ranges(draw):
    n = draw(st.one_of(st.integers(2, 40), st.integers(2, 400)))
    m = draw(st.integers(1, 5))
    return {"n": n, "m": m, "T": draw(st.one_of(st.integers(1, 16), st.integers(1, 64))), "task": draw(st.integers(0, 1)),
            "how": draw(st.sampled_from(["mem", "mem", "file", "reorg"])), "salt": draw(st.integers(0, 1 << 20))}


def t_ranges(ctx, c):
    n, m, T = c["n"], c["m"], c["T"]
    X = vlib.hash01(n * m, c["salt"])
    kw = dict(nrow=n, ncol=m, T=T, task=c["task"], data=X)
    if c["how"] == "file":
        kw["file"] = ctx.tmp("r.bin")
    if c["how"] == "reorg":
        kw["reorg"] = 1
    g = ctx.call("ranges", **kw)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    t = g["t"]
    nt = int(t[0])
    if nt != min(T, n):
        raise Violation("%d threads for %d rows and %d asked" % (nt, n, T))
    q = t[1:].reshape(nt, 5)
    at = 0
    for i, (a, ln, a2, sz, g3) in enumerate(q):
        if a != at or ln < 1:
            raise Violation("thread %d gets rows %d+%d, expected to start at %d" % (i, a, ln, at))
        if a2 != a or sz != ln * m * 8 or g3 != a + 3:
            raise Violation("thread %d: start %d, bytes %d, row 3 is %d for range %d+%d" % (i, a2, sz, g3, a, ln))
        at += ln
    if at != n:
        raise Violation("ranges cover %d of %d rows" % (at, n))
    if int(g["bad"]):
        raise Violation("rows %s are mapped to other data" % g["rows"])
    return nt >= 2 and n % nt != 0, [c["how"], "task" if c["task"] else "plain"]


@st.composite
def locs(draw):
    np_ = draw(st.integers(1, 8))
    n = draw(st.integers(np_, 500))
    return {"n": n, "p": np_, "m": draw(st.integers(1, 3))}


def t_locs(ctx, c):
    n, p = c["n"], c["p"]
    per = n // p
    node = [min(r // per, p - 1) for r in range(n)]
    g = ctx.call("localrid", nrow=n, ncol=c["m"], npart=p, g=list(range(n)), node=node)
    want = [r - d * per for r, d in zip(range(n), node)]
    if g["status"] != "ok" or list(g["t"]) != want:
        raise Violation("local row ids differ from position within the part")
    return p > 1, []


@st.composite
def runs(draw):
    T = draw(st.integers(1, 3))
    n = draw(st.sampled_from([8191, 8192, 8193, 8194, 16384, 16385, 16386, 24600])) * T + draw(st.integers(0, T))
    m = draw(st.integers(1, 2))
    return {"n": n, "m": m, "T": T, "k": draw(st.integers(2, 6)), "iters": draw(st.integers(1, 6)),
            "salt": draw(st.integers(0, 1 << 20)), "alg": draw(st.sampled_from(["prune", "prune", "mb"])),
            "init": draw(st.sampled_from(["none", "none", "none", "kmeanspp", "random"]))}


def t_runs(ctx, c):
    n, m, k = c["n"], c["m"], c["k"]
    X = vlib.hash01(n * m, c["salt"]).reshape(n, m) * 20
    C = X[np.argsort(vlib.hash01(k, c["salt"] + 1)) * (n // k)]
    kw = dict(data=X, nrow=n, ncol=m, k=k, init=c["init"], centers=C if c["init"] == "none" else None, dist="eucl", iters=c["iters"])
    if c["alg"] == "mb":
        # every row sampled: each pass must then assign every row to its nearest center
        a = Result(ctx.run(alg="mb", T=c["T"], mb=n, **kw))
        valid(a, n, m, kexact=k)
        if (a.asg == 4294967295).any() or (a.asg < 0).any():
            raise Violation("a row was left without a cluster although all rows were sampled")
        b = Result(ctx.run(alg="mb", T=1, mb=n, **kw)) if c["T"] == 1 else None
        return True, ["mb"]
    a = Result(ctx.run(alg="prune", T=c["T"], **kw))
    valid(a, n, m, kexact=k, X=X)
    if c["init"] == "none":
        ref = lloyd(X, C, "eucl", c["iters"])
        if not ref.ambiguous:
            vs_lloyd(a, ref, X, "input larger than a task")
            return a.iters >= 2, ["prune", "model"]
    b = Result(ctx.run(alg="full", T=1, **kw))
    if np.mean(a.asg != b.asg) > 2e-4 or (c["init"] == "none" and a.iters != b.iters and abs(a.iters - b.iters) > 1):
        raise Violation("large input: %d of %d rows differ from the task-less engine" % (int((a.asg != b.asg).sum()), n))
    return a.iters >= 2, ["prune", c["init"]]


D = ("fast", "ds")
# ---- matrices of more than 2^32 values: zeros, but for a few rows; untouched pages take no memory
@st.composite
def vasts(draw):
    alg = draw(st.sampled_from(VAST))
    m = draw(st.sampled_from([4096, 16384, 65536])) + draw(st.integers(0, 9))
    n = (1 << 32) // m + draw(st.integers(2, 5000))
    rows = draw(st.lists(st.one_of(st.integers(0, n - 1), st.integers(0, 20), st.integers(n - 20, n - 1),
                                   st.integers(n // 2, n - 1)), min_size=2, max_size=24, unique=True))
    return {"alg": alg, "n": n, "m": m, "k": draw(st.integers(2, 3)), "rows": sorted(rows), "T": draw(st.sampled_from([1, 1, 8, 7])), "passes": draw(st.integers(1, 2)),
            "salt": draw(st.integers(0, 1 << 20))}


VAST = ["full", "prune", "mb", "omp_full", "omp_prune"]


def t_vast(ctx, c):
    n, m, k = c["n"], c["m"], c["k"]
    rows = np.array(c["rows"], np.int64)
    lab = (vlib.hash01(len(rows), c["salt"]) * k).astype(int)
    # a row of group j has the value 10j in its first and last column
    at = np.concatenate([rows * m, rows * m + m - 1])
    v = np.concatenate([lab, lab]) * 10.0 + np.where(lab > 0, vlib.hash01(2 * len(rows), c["salt"] + 1).reshape(2, -1), 0).ravel()
    C = np.zeros((k, m))
    C[:, 0] = C[:, m - 1] = np.arange(k) * 10.0
    passes = c["passes"] if c["alg"] != "mb" else 0
    r = Result(ctx.run(alg=c["alg"], nrow=n, ncol=m, k=k, T=c["T"], vast_at=at, vast_v=v, centers=C, init="none", dist="eucl",
                       iters=passes, tol=-1, timeout=100, mb=100))
    want = np.zeros(n, np.int64)
    want[rows] = lab
    if not np.array_equal(r.asg, want):
        i = int(np.argmax(r.asg != want))
        raise Violation("row %d of %d x %d in cluster %d, not %d" % (i, n, m, r.asg[i], want[i]))
    if not np.array_equal(r.cnt, np.bincount(want, minlength=k)):
        raise Violation("sizes %s" % r.cnt.tolist())
    if passes:
        for j in range(1, k):
            w = np.flatnonzero(lab == j)
            e = np.zeros(m)
            if len(w):
                e[0], e[m - 1] = v[w].mean(), v[len(rows) + w].mean()
            if not close(r.cen[j], e, 30.0):
                raise Violation("center %d is not the mean of its rows" % j)
    return c["T"] > 1 or c["alg"] in ("prune", "mb"), [c["alg"], "T=%d" % c["T"]]


SUBS = [Sub("queue", queues(), t_queue, 6000, 100000, build=D), Sub("ranges", ranges(), t_ranges, 2500, 40000, build=D),
        Sub("local", locs(), t_locs, 400, 4000, build=D), Sub("runs", runs(), t_runs, 160, 2500),
        Sub("vast", vasts(), t_vast, 2, 60, shards=1)]
