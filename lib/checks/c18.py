import json, os, shutil, subprocess
import build
from c06 import args_of, HIER, metrics_of, INITS
from c03 import cases as sched_cases, undefined, fragile
from common import *
from vlib import Sub, Violation

RULE = ("A case picks a command-line tool, a configuration, how each argument is spelled (positional, short, long, long with '=', or "
        "left to its default), an output directory name, and possibly one fault (unknown metric/initialisation/option, missing or "
        "mis-sized data or center file, centers required but absent). The saved file is parsed and compared with the library's "
        "result for the same arguments; where the library refuses the arguments, or a fault was planted, the tool must fail and "
        "leave no result. Non-trivial when a result with at least two non-empty clusters was compared, or a fault was planted.")
ASSUMPTIONS = ["data are continuous or integer-valued (see C03)", "one NUMA node", "printed precision is six significant digits"]
TOOLS = {"full": "knori", "prune": "knori", "omp_full": "knori", "omp_prune": "knori", "mb": "mb_knori", "skmeans": "skmeans",
         "medoid": "medoids", "fcm": "fcm", "hclust": "hmeans", "xmeans": "xmeans", "gmeans": "gmeans", "kmpp": "kmeanspp"}
DEF = {"dist": {"fcm": "sqeucl", "medoids": "taxi", "skmeans": "cos"}, "tol": {"knori": -1.0, "mb_knori": -1.0, "skmeans": -1.0, "medoids": -1.0}}
OUT = ["out", "o", "out dir", "a/b/c", "./out/", "it's", "ABS"]
FAULTS = ["dist", "nofile", "size-n", "size-m", "size-bytes", "init", "noneC", "missingC", "option"]


def prepare():
    return {"bins": build.cli()}


@st.composite
def cases(draw, max_n=60, min_n=2, max_m=5):
    c = draw(sched_cases(max_n=max_n, min_n=min_n, max_m=max_m))
    c.pop("sched"), c.pop("T2")
    tool = TOOLS[c["alg"]]
    if tool in ("knori", "mb_knori"):
        c["init"] = draw(st.sampled_from(["none", "forgy", "random", "kmeanspp"]))
    if draw(st.integers(0, 9)) == 0 and c["metric"] != "cos" and tool != "kmeanspp":
        c["metric"] = draw(st.sampled_from(["sqeucl", "taxi", "eucl"]))
    if tool not in ("knori", "mb_knori") and c["init"] != "none":
        c["init"] = "forgy"         # these tools have no -t
    c["forms"] = draw(st.lists(st.integers(0, 3), min_size=14, max_size=14))
    c["omit"] = draw(st.lists(st.sampled_from(["T", "iters", "dist", "init", "tol", "fuzz", "mcs", "strict", "rate", "mb", "nstart", "o"]), max_size=4, unique=True))
    c["order"] = draw(st.integers(0, 1 << 16))
    c["out"] = draw(st.sampled_from(OUT))
    c["pos"] = draw(st.integers(0, 4))
    c["fault"] = draw(st.sampled_from(["", "", "", ""] + FAULTS)) if draw(st.integers(0, 2)) == 0 else ""
    if c["alg"] == "mb":
        c["mb"] = draw(st.integers(1, c["X"]["n"]))
    if c["alg"] == "medoid":
        c["rate"] = draw(st.sampled_from([1.0, .2, .5, .8]))
    c["n_opt"] = draw(st.integers(0, 2)) == 0
    return c


def parse_yml(txt):
    want = ["k", "niter", "nsamples", "dim", "size", "cluster", "centroids"]
    out = {}
    for l in txt.split("\n"):
        if not l.strip():
            continue
        key, sep, val = l.partition(": ")
        if not sep or key in out:
            raise Violation("line %r of the saved file is not a field" % l[:60])
        try:
            out[key] = json.loads(val)
        except ValueError:
            raise Violation("field %s of the saved file does not parse: %r" % (key, val[:80]))
    if sorted(out) != sorted(want):
        raise Violation("the saved file has fields %s" % sorted(out))
    return out


def spell(form, short, long, val):
    if val is None:
        return ["-" + short] if form % 2 == 0 else ["--" + long]
    return [["-" + short, val], ["--" + long, val], ["--%s=%s" % (long, val)], ["-" + short, val]][form]


def t_cli(ctx, c, report=None):
    X = matrix(c["X"])
    n, m = X.shape
    tool, alg = TOOLS[c["alg"]], c["alg"]
    kw = args_of(c, X)
    T_used = c["T"]
    omit = set(c["omit"])
    if alg in ("mb", "medoid"):
        omit.discard("T")
    if alg in ("mb", "fcm"):
        omit.discard("iters")
    if tool == "skmeans" or c["metric"] == "cos":
        omit.discard("dist")
    if c["fault"]:
        omit.discard("o")
    d = ctx.tmp("cli")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        return _cli(ctx, c, X, n, m, tool, alg, kw, omit, d, report)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _cli(ctx, c, X, n, m, tool, alg, kw, omit, d, report):
    df = os.path.join(d, "data.bin")
    raw = X.tobytes()
    fault = c["fault"]
    if fault == "size-bytes":
        raw = raw[:-1] if c["order"] % 2 else raw + b"\0" * (1 + c["order"] % 9)
    if fault != "nofile":
        open(df, "wb").write(raw)
    nn, mm = n, m
    if fault == "size-n":
        nn = n + 1 if c["order"] % 2 else max(0, n - 1)
    if fault == "size-m":
        mm = m + 1 if c["order"] % 2 else m - 1
    kname = "kmax" if alg in HIER else "nclust"
    req = [("f", "datafn", df), ("n", "nsamples", str(nn)), ("m", "dim", str(mm)), ("k", kname, str(c["k"]))]
    opts, fi = [], iter(c["forms"])
    ref = dict(kw)
    # --- threads
    if "T" in omit:
        ref["T"] = os.cpu_count()
    else:
        opts.append(spell(next(fi), "T", "num_thread", str(c["T"])))
    if alg != "kmpp":
        if "iters" in omit:
            ref["iters"] = 4294967295
        else:
            opts.append(spell(next(fi), "i", "iters", str(c["iters"])))
        if "tol" in omit or c["tol"] < 0:
            ref["tol"] = DEF["tol"].get(tool, 1e-6)
        else:
            opts.append(spell(next(fi), "l", "tol", repr(c["tol"])))
    metric = c["metric"]
    if fault == "dist":
        opts.append(spell(next(fi), "d", "dist", ["euclid", "", "EUCL", "cosine", "eucl "][c["order"] % 5] or "none"))
    elif "dist" in omit:
        ref["dist"] = DEF["dist"].get(tool, "eucl")
    else:
        opts.append(spell(next(fi), "d", "dist", metric))
    expect_fail = bool(fault)
    centers = ref.get("centers")
    if tool in ("knori", "mb_knori"):
        if centers is not None:
            if c["order"] % 3:      # with -C whatever -t says is ignored
                opts.append(spell(next(fi), "t", "init", ["none", "forgy", "random"][c["order"] % 3]))
        elif "init" in omit:
            ref["init"] = "kmeanspp"
        else:
            opts.append(spell(next(fi), "t", "init", c["init"]))
        if alg in ("full", "omp_full"):
            opts.append(spell(next(fi), "P", "prune", None))
        if alg.startswith("omp"):
            opts.append(spell(next(fi), "O", "omp", None))
    if centers is not None:
        cf = os.path.join(d, "centers.bin")
        np.ascontiguousarray(centers, dtype=np.float64).tofile(cf)
        opts.append(spell(next(fi), "C", "centersfn", cf))
    if alg == "mb":
        opts.append(spell(next(fi), "M", "mb_size", str(c["mb"])))
    if alg == "medoid":
        if "rate" in omit: ref["rate"] = .2
        else: opts.append(spell(next(fi), "s", "srate", repr(c["rate"])))
    if alg == "fcm":
        if "fuzz" in omit: ref["fuzz"] = 2
        else: opts.append(spell(next(fi), "z", "fuzzindex", str(c["fuzz"])))
    if alg in HIER:
        if "mcs" in omit: ref["mcs"] = 2
        else: opts.append(spell(next(fi), "s", "min_clust_size", str(c["mcs"])))
    if alg == "gmeans":
        if "strict" in omit: ref["strict"] = 4
        else: opts.append(spell(next(fi), "S", "strictness", str(c["strict"])))
    if alg == "kmpp":
        if "nstart" in omit: ref["nstart"] = 10
        else: opts.append(spell(next(fi), "s", "num_starts", str(c["nstart"])))
    if c["n_opt"]:
        opts.append(["-N", "1"])
    # --- faults in the options
    if fault in ("init", "noneC"):
        if tool not in ("knori", "mb_knori"):
            return False, ["fault-n/a"]
        opts = [o for o in opts if o[0] not in ("-C", "-t") and not o[0].startswith(("--centersfn", "--init"))]
        opts.append(["-t", "none" if fault == "noneC" else ["kmeans++", "bogus", "FORGY"][c["order"] % 3]])
    if fault == "missingC":
        if tool == "kmeanspp":
            return False, ["fault-n/a"]
        opts = [o for o in opts if o[0] != "-C" and not o[0].startswith("--centersfn")]
        opts.append(["-C", os.path.join(d, "nowhere.bin")])
    if fault == "option":
        if c["order"] % 4 == 3:
            req[3] = ("k", kname, "x")
        else:
            opts.append([["--bogus"], ["-Z"], ["--iterz=3"]][c["order"] % 4])
    out = os.path.join(d, "abs") if c["out"] == "ABS" else c["out"]
    if "o" not in omit:
        opts.append(spell(next(fi, 0), "o", "outdir", out))
    # --- order and positionals
    r = np.random.RandomState(c["order"])
    r.shuffle(opts)
    pos = c["pos"]
    argv = [v for _, _, v in req[:pos]]
    for i, (s, l, v) in enumerate(req[pos:]):
        opts.append(spell(c["forms"][i], s, l, v))
    if len(opts) > 1:
        r.shuffle(opts)
    if c["order"] % 5 == 0:
        argv = [a for o in opts for a in o] + argv     # positionals last
    else:
        argv = argv + [a for o in opts for a in o]
    env = {k: v for k, v in os.environ.items() if not k.startswith("OMP_")}
    env.update(OMP_WAIT_POLICY="passive", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="abort_on_error=1")
    try:
        p = subprocess.run([os.path.join(ctx.extra["bins"], tool)] + argv, cwd=d, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE if report else subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        raise Violation("%s %s did not end" % (tool, argv), "timeout")
    shown = "%s %s" % (tool, " ".join(a.replace(d + "/", "") for a in argv))
    err = p.stderr.decode("utf8", "replace")
    if "Sanitizer" in err or "runtime error:" in err:
        raise Violation("%s: %s" % (shown, err[:500]), "crash")
    files = []
    for root, _, fs in os.walk(d):
        files += [os.path.relpath(os.path.join(root, f), d) for f in fs if f.endswith(".yml") or f.startswith("cluster")]
    if not expect_fail:
        g = ctx.call("run", _crash_ok=True, **dict(ref, timeout=60))
        if g["status"] != "ok":
            expect_fail = True
    if expect_fail:
        if p.returncode == 0:
            raise Violation("%s: status 0 although the arguments are refused (%s)" % (shown, fault or "library refuses"))
        if files:
            raise Violation("%s: failed, yet left %s" % (shown, files))
        return True, ["fault:" + (fault or "refused"), tool]
    if p.returncode:
        raise Violation("%s: status %d: %s" % (shown, p.returncode, err[-200:]), "crash" if p.returncode < 0 else "oracle")
    if open(df, "rb").read() != raw:
        raise Violation("%s changed the data file" % shown)
    if report:
        return report(ctx, c, X, tool, ref, g, p.stdout.decode("utf8", "replace") + "\n" + err, shown)
    if "o" in omit:
        if files:
            raise Violation("%s: no output directory asked for, yet wrote %s" % (shown, files))
        return False, ["no-output", tool]
    want = os.path.relpath(os.path.join(d, out, "cluster_t.yml"), d)
    if files != [want]:
        raise Violation("%s: result files %s, expected %s" % (shown, files, want))
    y = parse_yml(open(os.path.join(d, want)).read())
    res = Result(g)
    if undefined(c, X, ref):
        return False, ["undefined-cos"]
    try:
        for f, v in (("k", res.k), ("niter", res.iters), ("nsamples", n), ("dim", m), ("size", res.cnt.tolist()), ("cluster", res.asg.tolist())):
            if y[f] != v:
                raise Violation("%s: saved %s is %s, the library computes %s" % (shown, f, str(y[f])[:120], str(v)[:120]))
        S = y["centroids"]
        if len(S) != res.k or any(len(q) != m for q in S):
            raise Violation("%s: saved centroids have shape %s" % (shown, [len(q) for q in S]))
        S = np.array(S, float).reshape(res.k, m)
        tol = 6e-6 * np.abs(res.cen) + 1e-7 * scale_of(X)
        if not (np.abs(S - res.cen) <= tol).all():
            raise Violation("%s: saved centroids %s, the library computes %s" % (shown, S.tolist(), res.cen.tolist()))
    except Violation:
        if fragile(c, X, res, ref):
            return False, ["tie"]
        raise
    return int((res.cnt > 0).sum()) >= 2, [tool, alg, "positional=%d" % pos]


SUBS = [Sub("cli", cases(), t_cli, 20000, 200000),
        Sub("cli-large", cases(max_n=800, min_n=100, max_m=10), t_cli, 1600, 16000),
        Sub("cli-cols", grown(cases(), m=COLS), t_cli, 240, 3000),
        Sub("cli-huge", grown(cases(max_m=3), (20000, 70000)).filter(lambda c: c["alg"] != "medoid"), t_cli, 64, 800),
        Sub("cli-many", grown(cases(max_m=3).filter(lambda c: c["alg"] not in HIER), (400, 1200), (100, 290)), t_cli, 160, 2000)]
