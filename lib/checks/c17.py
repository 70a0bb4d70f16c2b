import os
from c06 import cases as run_cases, args_of, HIER, INITS
from common import *
from vlib import Sub, TASKS, Violation, hash01

RULE = ("file-run: any routine and configuration, run from memory and from a row-major file of the same doubles, must give the same "
        "result object, leave the caller's matrix (memory) or file (disk) as it was, and refuse a file shorter than the stated shape. "
        "binary/text/cluster: matrices of doubles, floats or unsigned words with extreme values, written by the project's writer or "
        "from a generated text and read back by every reader, whole, row by row or after seeks. Non-trivial when the matrix has "
        ">=2 rows and (file-run) at least two clusters are non-empty.")
ASSUMPTIONS = ["text rows carry the number of values the buffer was sized for", "values are not NaN",
               "only scaled k-means and the normality-testing routine may rescale their own input matrix"]
EXTREME = [0.0, -0.0, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 1.0 / 3, -1e-17, 123456789.123456789, 2.0 ** 53 + 2, 1.5, -7.25]


def t_run(ctx, c):
    X = matrix(c["X"])
    n, m = X.shape
    kw = args_of(c, X)
    if c["metric"] == "cos":
        C = kw.get("centers")
        if c["alg"] in ("full", "omp_full", "mb", "medoid", "fcm") and C is not None and lloyd(X, C, "cos", c["iters"], c["tol"]).undefined:
            return False, ["undefined-cos"]
    mem = ctx.run(**kw)
    if c["alg"].startswith("omp"):
        return False, ["memory-only"]
    if mem["touched"] != "0" and c["alg"] != "skmeans":
        raise Violation("%s modified the caller's matrix" % c["alg"])
    if mem["ctouched"] != "0":
        raise Violation("%s modified the caller's start centers" % c["alg"])
    fn = ctx.tmp("d.bin")
    raw = X.tobytes()
    with open(fn, "wb") as f:
        f.write(raw)
    kw2 = dict(kw, file=fn, filekeep=1)
    if c["T2"]:
        kw2["T"] = c["T2"]
    d = ctx.run(**kw2)
    with open(fn, "rb") as f:
        if f.read() != raw:
            raise Violation("the data file was changed")
    a, b = Result(mem), Result(d)
    X_ = matrix(c["X"])
    if not c["T2"] or c["T2"] == c["T"]:
        same(a, b, "%s from memory vs file" % c["alg"], scale_of(X_), centers=True, iters=True)
    else:
        valid(b, n, m, kmax=max(a.k, c["k"]))
        if b.k != a.k and c["alg"] not in HIER:
            raise Violation("k differs")
    if c["alg"] == "kmpp" and (mem["0.start"] != d["0.start"] or not close(float(mem["0.energy"][0]), float(d["0.energy"][0]), abs(float(mem["0.energy"][0])) + 1)):
        if not c["T2"] or c["T2"] == c["T"]:
            raise Violation("start/energy differ between memory and file")
    if c["cut"]:
        q = max(0, len(raw) - c["cut"])
        with open(fn, "wb") as f:
            f.write(raw[:q])
        r = ctx.call("run", _crash_ok=True, **dict(kw2, timeout=30))
        if r["status"] == "ok":
            raise Violation("%s clustered a file of %d bytes as a %dx%d matrix (%d bytes)" % (c["alg"], q, n, m, len(raw)))
        if r["status"] == "timeout":
            raise Violation("%s hangs on a short file" % c["alg"], "timeout")
    return int((a.cnt > 0).sum()) >= 2 and n >= 2, [c["alg"], c["init"], "short-file" if c["cut"] else "full"]


@st.composite
def runs(draw, **kw):
    kw.setdefault("algs", tuple(a for a in INITS if not a.startswith("omp")))
    c = draw(run_cases(**kw))
    c["T2"] = draw(st.one_of(st.just(0), st.just(0), st.just(0), nthr()))
    c["cut"] = draw(st.one_of(st.just(0), st.just(0), st.just(0), st.sampled_from([1, 7, 8, 9, 1 << 30]),
                              st.integers(1, 8 * c["X"]["n"] * c["X"]["m"])))
    return c


@st.composite
def bins(draw):
    n, m = draw(st.integers(1, 12)), draw(st.integers(1, 9))
    N = n * m
    ty = draw(st.sampled_from(["double", "double", "float", "unsigned"]))
    if ty == "unsigned":
        base = [0, 1, 2 ** 32 - 1, 2 ** 31, 77]
        v = draw(st.lists(st.one_of(st.sampled_from(base), st.integers(0, 2 ** 32 - 1)), min_size=N, max_size=N))
    else:
        v = draw(st.lists(st.one_of(st.sampled_from(EXTREME), st.floats(allow_nan=False, width=32 if ty == "float" else 64)),
                          min_size=N, max_size=N))
        if ty == "float":
            v = [float(np.float32(x)) if abs(x) < 3e38 else float(np.float32(np.sign(x) * 3e38)) for x in v]
    ch, left = [], N
    while left:
        q = draw(st.integers(0, left)) if len(ch) < 6 else left
        ch.append(q)
        left -= q
    return {"n": n, "m": m, "type": ty, "v": v, "chunks": ch, "seeks": draw(st.lists(st.integers(0, n - 1), max_size=8))}


def bits(a):
    return np.asarray(a, np.float64).view(np.int64)


def t_bin(ctx, c):
    n, m = c["n"], c["m"]
    v = np.array(c["v"], float)
    sz = 8 if c["type"] == "double" else 4
    g = ctx.call("binio", type=c["type"], file=ctx.tmp("b.bin"), nrow=n, ncol=m, data=v, chunks=[float(x) for x in c["chunks"]],
                 seeks=[float(x) for x in c["seeks"]])
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    if int(g["bytes"]) != n * m * sz or int(g["fsize"]) != n * m * sz:
        raise Violation("wrote %s bytes, filesize says %s, expected %d" % (g["bytes"], g["fsize"], n * m * sz))
    if g["exists"] != "1" or g["noexist"] != "0":
        raise Violation("is_file_exist answers %s/%s" % (g["exists"], g["noexist"]))
    for k in ("all_v", "all_p", "lines", "rm_all", "rm_lines"):
        if g[k].size != v.size or not np.array_equal(bits(g[k]), bits(v)):
            raise Violation("%s reads %s, written %s" % (k, g[k].tolist(), v.tolist()))
    if int(g["rm_nrow"]) != n or int(g["rm_ncol"]) != m:
        raise Violation("row reader counted %s rows of %d" % (g["rm_nrow"], n))
    want = np.concatenate([v.reshape(n, m)[i] for i in c["seeks"]]) if c["seeks"] else np.zeros(0)
    if not np.array_equal(bits(g["seeked"]), bits(want)):
        raise Violation("after seeking to rows %s reads %s, expected %s" % (c["seeks"], g["seeked"].tolist(), want.tolist()))
    if (g["beg"], g["end0"], g["end1"]) != ("1", "0", "0"):
        raise Violation("more-data flag at start/after read/after lines is %s/%s/%s" % (g["beg"], g["end0"], g["end1"]))
    return n >= 2, [c["type"]]


FORMS = ["%r", "%.17g", "%.3f", "%e", "%d"]


@st.composite
def texts(draw):
    n, m = draw(st.integers(1, 10)), draw(st.integers(1, 7))
    v = draw(st.lists(st.one_of(st.sampled_from([x for x in EXTREME if x == 0 or 1e-300 < abs(x)]),
                                st.floats(-1e12, 1e12).filter(lambda x: x == 0 or abs(x) > 1e-300)), min_size=n * m, max_size=n * m))
    return {"n": n, "m": m, "v": v, "form": draw(st.sampled_from(FORMS)), "sep": draw(st.sampled_from([" ", "\t", "  ", " \t "])),
            "lead": draw(st.sampled_from(["", "", "  "])), "trail": draw(st.sampled_from(["", " "])), "nl": draw(st.booleans())}


def t_text(ctx, c):
    n, m = c["n"], c["m"]
    rows = [[(c["form"] % (int(x) if c["form"] == "%d" else x)) for x in c["v"][i * m:(i + 1) * m]] for i in range(n)]
    txt = "\n".join(c["lead"] + c["sep"].join(r) + c["trail"] for r in rows) + ("\n" if c["nl"] else "")
    want = np.array([float(x) for r in rows for x in r])
    if (~np.isfinite(want)).any() or ((want != 0) & (np.abs(want) < 1e-300)).any():
        return False, ["denormal"]
    g = ctx.call("textio", file=ctx.tmp("t.txt"), nrow=n, ncol=m, text=txt.encode())
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    if not np.array_equal(bits(g["all"][:-1]), bits(want)) or g["all"][-1] != -1:
        raise Violation("read gives %s, the text says %s" % (g["all"].tolist(), want.tolist()))
    if not np.array_equal(bits(g["lines"]), bits(want)):
        raise Violation("row-wise reading gives %s, the text says %s" % (g["lines"].tolist(), want.tolist()))
    if int(g["nrow"]) != n or int(g["nrow2"]) != n or g["fn"] != "1":
        raise Violation("counted %s/%s rows of %d" % (g["nrow"], g["nrow2"], n))
    return n >= 2, [c["form"]]


@st.composite
def stores(draw):
    n, m = draw(st.integers(1, 30)), draw(st.integers(1, 5))
    k = draw(st.integers(1, 4))
    return {"n": n, "m": m, "asg": draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n)), "id": draw(st.integers(0, k - 1)),
            "salt": draw(st.integers(0, 1 << 20))}


def t_store(ctx, c):
    n, m = c["n"], c["m"]
    X = (hash01(n * m, c["salt"]) - .5).reshape(n, m) * 1e3
    asg = np.array(c["asg"])
    sel = asg == c["id"]
    d = ctx.tmp("st") + "/"
    os.makedirs(d, exist_ok=True)
    g = ctx.call("storecl", dir=d, data=X, asg=asg, id=c["id"], cnt=int(sel.sum()), nrow=n, ncol=m)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    files = os.listdir(d)
    want = "cluster_%d_r%d_c%d.bin" % (c["id"], sel.sum(), m)
    data = b"".join(open(d + f, "rb").read() for f in files)
    for f in files:
        os.unlink(d + f)
    if files != [want]:
        raise Violation("wrote %s, expected %s" % (files, want))
    if data != X[sel].tobytes():
        raise Violation("cluster file holds %d bytes, not the rows of cluster %d" % (len(data), c["id"]))
    return bool(sel.any()) and n >= 2, ["some" if sel.any() else "none"]


@st.composite
def numas(draw, **kw):
    c = draw(run_cases(**dict(dict(algs=("full", "prune")), **kw)))
    c["T2"] = draw(st.one_of(st.just(0), nthr()))
    c["nn"] = draw(st.sampled_from([1, 2, 3, 1]))
    return c


def t_numa(ctx, c):
    """As the language bindings do it: rows redistributed to per-thread copies first."""
    X = matrix(c["X"])
    n, m = X.shape
    kw = args_of(c, X)
    if c["metric"] == "cos" and kw.get("centers") is not None and lloyd(X, kw["centers"], "cos", c["iters"], c["tol"]).undefined:
        return False, ["undefined-cos"]
    a = Result(ctx.run(**kw))
    r = ctx.run(**dict(kw, numaopt=1, T=c["T2"] or c["T"], nnodes=c["nn"] if ctx.sub.build[0] == "asan" else 1))      # memory of other nodes only where it is stood in for
    b = Result(r)
    if r["touched"] != "0":
        raise Violation("the caller's matrix was modified")
    if not c["T2"] or c["T2"] == c["T"]:
        same(a, b, "%s from the caller's matrix vs redistributed rows" % c["alg"], scale_of(X), iters=True)
    else:
        valid(b, n, m, kexact=a.k)
    return int((a.cnt > 0).sum()) >= 2 and n >= 2, [c["alg"], c["init"], "T=%d" % c["T"]]


# ---- files of more than 2^31 and 2^32 bytes: zeros (a sparse file), but for a few rows
@st.composite
def vasts(draw):
    m = draw(st.sampled_from([512, 1024, 4096])) + draw(st.integers(0, 9))
    gb = 1 << 32
    T = draw(st.sampled_from([16, 9, 25]))
    n = gb // (8 * m) * T // (T - 1) + draw(st.integers(3 * T, 3000))      # the last thread starts past the mark
    edge = [r for b in (1 << 31, 1 << 32) for r in (b // (8 * m) - 1, b // (8 * m), b // (8 * m) + 1) if r < n]
    rows = draw(st.lists(st.one_of(st.integers(0, n - 1), st.integers(0, 20), st.integers(n - 20, n - 1), st.sampled_from(edge)),
                         min_size=2, max_size=24, unique=True))
    return {"n": n, "m": m, "rows": sorted(rows), "alg": draw(st.sampled_from(["full", "prune", "full"])), "T": T,
            "salt": draw(st.integers(0, 1 << 20))}


def vast_file(ctx, c):
    n, m, rows = c["n"], c["m"], np.array(c["rows"], np.int64)
    lab = (hash01(len(rows), c["salt"]) * 2).astype(int)
    v = 10.0 * lab + lab * hash01(len(rows), c["salt"] + 1)
    fn = ctx.tmp("vast.bin")
    with open(fn, "wb") as f:
        f.truncate(8 * n * m)
        for r, x in zip(rows, v):
            for col in (0, m - 1):
                f.seek(8 * (int(r) * m + col))
                f.write(np.float64(x).tobytes())
    return fn, rows, lab, v


def t_vast(ctx, c):
    n, m = c["n"], c["m"]
    fn, rows, lab, v = vast_file(ctx, c)
    C = np.zeros((2, m))
    C[1, 0] = C[1, m - 1] = 10.0
    try:
        r = Result(ctx.run(alg=c["alg"], file=fn, filekeep=1, nrow=n, ncol=m, k=2, T=c["T"], centers=C, init="none", dist="eucl",
                           iters=1, tol=-1, timeout=100))
    finally:
        os.unlink(fn)
    want = np.zeros(n, np.int64)
    want[rows] = lab
    if not np.array_equal(r.asg, want):
        i = int(np.argmax(r.asg != want))
        raise Violation("row %d of a file of %d x %d in cluster %d, not %d" % (i, n, m, r.asg[i], want[i]))
    if not np.array_equal(r.cnt, np.bincount(want, minlength=2)):
        raise Violation("sizes %s" % r.cnt.tolist())
    if lab.any():
        e = np.zeros(m)
        e[0] = e[m - 1] = v[lab == 1].mean()
        if not close(r.cen[1], e, 30.0):
            raise Violation("the center is not the mean of its rows")
    return True, [c["alg"]]


def t_vseek(ctx, c):
    fn, rows, lab, v = vast_file(ctx, c)
    n, m = c["n"], c["m"]
    at = [int(x) for x in rows] + [int(x) for x in rows[::-1]] + [n - 1, 0]
    full = dict(zip([int(x) for x in rows], v))
    try:
        g = ctx.call("binseek", file=fn, ncol=m, seeks=[float(x) for x in at])
    finally:
        os.unlink(fn)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    if int(g["fsize"]) != 8 * n * m:
        raise Violation("filesize says %s for %d bytes" % (g["fsize"], 8 * n * m))
    want = np.repeat([full.get(x, 0.0) for x in at], 2)
    if not np.array_equal(g["seeked"], want):
        raise Violation("after seeking to rows %s of %d x %d reads %s, expected %s" % (at, n, m, g["seeked"].tolist(), want.tolist()))
    return True, ["seek"]


SUBS = [Sub("vast-file", vasts(), t_vast, 2, 24, shards=1), Sub("vast-seek", vasts(), t_vseek, 60, 600, build=("fast", "ds")),
        Sub("redistributed", numas(), t_numa, 1500, 30000),
        Sub("file-run", runs(), t_run, 4000, 80000),
        Sub("file-run-large", runs(max_n=900, max_m=12, min_n=100, max_T=16), t_run, 400, 8000),
        Sub("file-run-tasks", runs(algs=("prune", "mb", "kmpp")), t_run, 1500, 20000, build=TASKS),
        Sub("redistributed-tasks", numas(algs=("prune",)), t_numa, 800, 10000, build=TASKS),
        Sub("redistributed-nodes", numas(max_n=30), t_numa, 600, 8000, build=("asan", "routines")),
        Sub("binary", bins(), t_bin, 3000, 60000, build=("fast", "ds")),
        Sub("text", texts(), t_text, 3000, 60000, build=("fast", "ds")),
        Sub("cluster-file", stores(), t_store, 1500, 30000, build=("fast", "ds")),
        Sub("file-run-cols", grown(runs(), m=COLS), t_run, 240, 3000),
        Sub("file-run-huge", grown(runs(algs=[a for a in INITS if a != "medoid" and not a.startswith("omp")], max_m=3), HUGE), t_run, 48, 600)]
