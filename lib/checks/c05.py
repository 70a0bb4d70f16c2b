import os, shutil, signal, subprocess, time
import build
from c18 import parse_yml
from common import *
from vlib import Sub, Violation

RULE = ("A case picks data, k, start (given centers or a built-in method), metric, limits, process count (also more processes than "
        "rows), threads per process and pruning. knord is run under mpirun with real processes; the file its root writes must equal "
        "the single-machine result for the same start. Built-in starts that differ from the single-machine ones are read back with "
        "a zero-pass run, checked to be legitimate for the whole data set, and used as the reference's given centers. Non-trivial "
        "when at least two processes own rows and two clusters are non-empty.")
ASSUMPTIONS = ["processes share one machine; most runs use a strict MPI stand-in (synchronous sends, sums in random order, matching "
               "enforced), sub real-mpi uses Open MPI", "near-tied cases are skipped: processes add in another order",
               "saved centers carry six significant digits"]
REAL = ["mpirun.openmpi", "--allow-run-as-root", "--oversubscribe", "--mca", "btl_vader_single_copy_mechanism", "none",
        "--mca", "btl", "self,vader", "--mca", "plm", "isolated"]


def prepare():
    e = {}
    try:
        e["shim"] = build.knord("mpi")
        e["asan"] = build.knord("mpiasan")
    except build.BuildError as x:       # an MPI call the stand-in lacks: the real library alone decides
        e["noshim"] = str(x)[-400:]
    try:
        real = build.knord("mpireal")
        out = subprocess.run(REAL + ["-n", "3", os.path.join(os.path.dirname(real), "probe")], stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=environ("/tmp")).stdout.decode()
        if "world 3 3" in out:
            e["real"] = real
        else:
            e["noreal"] = out[-400:]
    except (build.BuildError, OSError, subprocess.TimeoutExpired) as x:
        e["noreal"] = str(x)[-400:]
    if "shim" not in e and "real" not in e:
        raise build.BuildError(e["noshim"] + "\n" + e["noreal"])
    return e


def environ(tmp):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "OMPI_", "PMI"))}
    env.update(OMP_WAIT_POLICY="passive", OMP_NUM_THREADS="2", TMPDIR=tmp,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="abort_on_error=1")
    return env


@st.composite
def cases(draw, max_n=60, min_n=2, max_m=5, max_k=15, procs=(2, 3, 2, 4, 1, 5), init=None, on=("shim", "shim", "shim", "asan")):
    metric = draw(st.sampled_from(["eucl", "eucl", "eucl", "cos", "sqeucl", "taxi"]))
    modes = ("neg",) if metric == "cos" else ("hash", "hblobs", "cont", "blobs", "wide", "grid", "idups", "sep")
    X = draw(mats(min_n, max_n, 1, max_m, modes=modes))
    k = max(2, min(draw(st.one_of(st.integers(2, 6), st.integers(2, max_k))), X["n"]))
    c = {"X": X, "k": k, "metric": metric, "prune": metric == "eucl" and draw(st.integers(0, 2)) > 0,
         "P": draw(st.sampled_from(list(procs))), "T": draw(st.sampled_from([2, 1, 3, 4, 2, 1, 3, 4, 9])), "T1": draw(st.integers(1, 4)),
         "init": init or draw(st.sampled_from(["none", "none", "forgy", "random", "kmeanspp"])),
         "iters": draw(st.one_of(st.integers(1, 8), st.just(30))),
         "tol": draw(st.one_of(st.just(-1.0), st.just(-1.0), st.integers(0, 20).map(lambda q: q / 40.0))),
         "C": draw(start_centers(X["n"], X["m"], k, allow_far=False)),
         "on": draw(st.sampled_from(list(on))), "mseed": draw(st.integers(0, 1 << 20)),
         "zero": draw(st.integers(0, 3)) == 0, "N": draw(st.integers(0, 3)) == 0,
         "fault": draw(st.sampled_from([""] * 36 + ["dist", "size", "nofile", "noneC", "init"]))}
    return c


def world(exe, d, P, argv, seed, limit):
    """P processes over the stand-in.  -> (worst status, its stderr), None when they did not end."""
    fd = os.memfd_create("mpi")
    os.ftruncate(fd, 1 << 34)
    env = environ(d)
    ps, errs = [], []
    try:
        for r in range(P):
            env.update(MPISHIM_FD=str(fd), MPISHIM_RANK=str(r), MPISHIM_SIZE=str(P), MPISHIM_SEED=str(seed))
            ef = open(os.path.join(d, "err%d" % r), "w+b")
            errs.append(ef)
            with open(os.path.join(d, "said%d" % r), "wb") as of:
                ps.append(subprocess.Popen([exe] + argv, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=of,
                                           stderr=ef, pass_fds=[fd]))
        end = time.time() + limit
        pause = 0.001
        while time.time() < end:
            rc = [p.poll() for p in ps]
            bad = [r for r in range(P) if rc[r]]
            if bad or None not in rc:
                if not bad:
                    return 0, ""
                time.sleep(0.05)         # the first to fail explains itself
                w = bad[0]
                errs[w].seek(0)
                return rc[w], errs[w].read().decode("utf8", "replace")
            time.sleep(pause)
            pause = min(pause * 1.5, 0.02)
        return None
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
        for ef in errs:
            ef.close()
        os.close(fd)


def mpirun(exe, d, P, argv, limit):
    p = subprocess.Popen(REAL + ["-n", str(P), exe] + argv, cwd=d, env=environ(d), stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        return p.communicate(timeout=limit)[1].decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired:
        return None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def knord(ctx, d, c, argv, ok=True):
    how = c["on"] if c["on"] in ctx.extra else "real" if "shim" not in ctx.extra else "shim"
    if how == "real":
        r = mpirun(ctx.extra["real"], d, c["P"], argv, 60)
        r = r and r[::-1]
    else:
        r = world(ctx.extra[how], d, c["P"], argv, c["mseed"], 60)
    if r is None:
        raise Violation("knord on %d processes did not end: %s" % (c["P"], argv), "timeout")
    rc, err = r
    f = os.path.join(d, "out", "cluster_t.yml")
    txt = open(f).read() if os.path.exists(f) else None
    shutil.rmtree(os.path.join(d, "out"), ignore_errors=True)
    if ok and rc or "Sanitizer" in err:
        raise Violation("knord on %d processes, %s: status %d: %s" % (c["P"], argv, rc, err[:400] + " ... " + err[-100:]), "crash")
    if ok and txt is None:
        raise Violation("knord on %d processes, %s: no result file" % (c["P"], argv))
    return rc, txt


def read(txt, k, m):
    y = parse_yml(txt)
    C = y["centroids"]
    if len(C) != k or any(len(q) != m for q in C):
        raise Violation("saved centroids have shape %s" % [len(q) for q in C])
    y["cen"] = np.array(C, float).reshape(k, m)
    return y


def differs(y, g, n, m, scale):
    for f, v in (("k", g.k), ("nsamples", n), ("dim", m), ("niter", g.iters), ("size", g.cnt.tolist()), ("cluster", g.asg.tolist())):
        if y[f] != v:
            return "%s %s, single machine %s" % (f, str(y[f])[:150], str(v)[:150])
    if not (np.abs(y["cen"] - g.cen) <= 6e-6 * np.abs(g.cen) + 1e-7 * scale).all():
        return "centers %s, single machine %s" % (y["cen"].tolist(), g.cen.tolist())


def t_dist(ctx, c):
    d = ctx.tmp("mpi")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        return _t(ctx, c, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _t(ctx, c, d):
    X = matrix(c["X"])
    n, m = X.shape
    k = c["k"]
    X.tofile(os.path.join(d, "x.bin"))
    argv = ["x.bin", str(n), str(m), str(k), "-T", str(c["T"]), "-d", c["metric"], "-o", "out"]
    if not c["prune"]:
        argv.append("-P")
    if c["N"]:
        argv += ["-N", "1"]
    C = None
    if c["init"] == "none":
        C = centers(c["C"], X)
        C.tofile(os.path.join(d, "c.bin"))
        argv += ["-C", "c.bin"]
    else:
        argv += ["-t", c["init"]]
    run = argv + ["-i", str(c["iters"])] + (["-l", repr(c["tol"])] if c["tol"] >= 0 else [])
    what = "%d processes x %d threads, %s %s" % (c["P"], c["T"], "pruned" if c["prune"] else "full", c["init"])
    if c["fault"]:
        bad = list(run)
        if c["fault"] == "dist": bad[bad.index("-d") + 1] = "euclid"
        if c["fault"] == "size": bad[1] = str(n + 1)
        if c["fault"] == "nofile": bad[0] = "y.bin"
        if c["fault"] in ("noneC", "init"):
            bad = [a for a in bad if a not in ("-C", "c.bin", "-t", c["init"])] + ["-t", "none" if c["fault"] == "noneC" else "bogus"]
        rc, txt = knord(ctx, d, c, bad, ok=False)
        if rc == 0 or txt is not None:
            raise Violation("knord accepted wrong arguments (%s): status %d, %s" % (c["fault"], rc, "no file" if txt is None else "result saved"))
        return True, ["fault:" + c["fault"]]
    kw = dict(alg="prune" if c["prune"] else "full", nrow=n, ncol=m, k=k, T=c["T1"], data=X, iters=c["iters"], tol=c["tol"], dist=c["metric"])
    if C is not None and c["metric"] == "cos" and lloyd(X, C, "cos", c["iters"], c["tol"]).undefined:
        return False, ["undefined-cos"]
    y = read(knord(ctx, d, c, run)[1], k, m)
    g = Result(ctx.run(init=c["init"], centers=C, **kw))
    why = differs(y, g, n, m, scale_of(X))
    tags = [c["init"], "pruned" if c["prune"] else "full", "P=%d" % c["P"], "uneven" if n % c["P"] else "even", c["metric"]]
    if (why or c["zero"]) and c["init"] != "none":
        z = read(knord(ctx, d, c, argv + ["-i", "0"])[1], k, m)
        if c["init"] == "random":
            a = np.array(z["cluster"])
            if a.shape != (n,) or (a < 0).any() or (a >= k).any():
                raise Violation("%s: random start is not a partition of the data: %s" % (what, a.tolist()))
            C = means_of(X, a, k)[1]
            if not (np.abs(C - z["cen"]) <= 6e-6 * np.abs(C) + 1e-7 * scale_of(X)).all():
                raise Violation("%s: random start centers %s are not the means %s" % (what, z["cen"].tolist(), C.tolist()))
        else:
            C = np.empty((k, m))
            for j in range(k):
                e = np.abs(X - z["cen"][j]) - (6e-6 * np.abs(X) + 1e-12 * scale_of(X))
                w = int(np.argmin(e.max(1)))
                if e[w].max() > 0:
                    raise Violation("%s: start center %d %s is not a data row" % (what, j, z["cen"][j].tolist()))
                C[j] = X[w]
            if c["init"] == "kmeanspp" and c["metric"] == "eucl":
                u = min(k, len(np.unique(X, axis=0)))
                if len(np.unique(C, axis=0)) < u:
                    raise Violation("%s: k-means++ start centers coincide: %s" % (what, z["cen"].tolist()))
        tags.append("start-read-back")
        if why:
            tags.append("own-start")
            g = Result(ctx.run(init="none", centers=C, **kw))
            why = differs(y, g, n, m, scale_of(X))
    if why:
        if C is None:
            C = Result(ctx.run(init=c["init"], **dict(kw, iters=0))).cen
        ref = lloyd(X, C, c["metric"], c["iters"], c["tol"])
        if ref.ambiguous or ref.dup or ref.undefined:
            return False, tags + ["near-tie"]
        raise Violation("%s: %s" % (what, why))
    return c["P"] > 1 and n >= 2 * c["P"] and int((g.cnt > 0).sum()) > 1, tags


SUBS = [Sub("given", cases(init="none"), t_dist, 1500, 30000),
        Sub("builtin", cases(), t_dist, 1500, 30000),
        Sub("many-procs", cases(max_n=24, procs=(6, 8, 3, 7, 12)), t_dist, 400, 6000),
        Sub("large", cases(max_n=1500, min_n=200, max_m=10), t_dist, 300, 5000),
        Sub("wide", cases(max_n=300, min_n=30, max_m=80, max_k=50, procs=(2, 3, 4, 6)), t_dist, 300, 5000),
        Sub("real-mpi", cases(max_n=300, procs=(2, 3, 4), on=("real",)), t_dist, 120, 2000),
        Sub("cols", grown(cases(max_m=3, procs=(2, 3, 4)), m=COLS), t_dist, 64, 800),
        Sub("huge", grown(cases(max_m=3, procs=(2, 3, 4)), HUGE), t_dist, 32, 500),
        Sub("many", grown(cases(max_m=3, procs=(2, 3, 4)), (500, 2500), MANY), t_dist, 64, 800)]
