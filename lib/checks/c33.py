import os, re, shutil
import build, c05
from c18 import cases as cli_cases, t_cli, fragile, undefined
from common import *
from vlib import Sub, Violation

RULE = ("A case picks a command-line tool and a configuration as in C18, without faults. What the tool prints (final sizes, number of "
        "passes, whether it converged, best start and energy) is compared with the library's result for the same arguments; "
        "that it converged or not is decided by a library run with one more pass. Non-trivial when a size report with at least "
        "two non-empty clusters was compared.")
ASSUMPTIONS = ["a line that is not printed is not judged", "data are continuous or integer-valued (see C03)"]
DENSE = re.compile(r"(?:Final cluster (?:counts|assignment count)|Best Clustering)[^\n\[]*\n?[^\n\[]*\[([ \d]+)\]")
SPARSE = re.compile(r"Final cluster counts[^\n]*\n((?:k: \d+, v: \d+\n)+)")
NITER = re.compile(r"(converged|failed to converge) in (\d+) iterations")
BEST = re.compile(r"Best start: (\d+), Best energy: (\S+)")
PASS = re.compile(r"(?:Cluster assignment counts: |Assignment counts:)\n(\[[ \d]+\]|(?:k: \d+, v: \d+\n)+)")


DIST = re.compile(r"Algorithm (converged|failed to converge) in (\d+) iterations")


def prepare():
    return {"bins": build.cli(), "shim": c05.prepare()["shim"]}


def numbers(s):
    if s[0] == "[":
        return [int(v) for v in s[1:-1].split()]
    return [int(v) for v in re.findall(r"v: (\d+)", s)]


def judge(ctx, c, X, tool, ref, g, out, shown):
    if undefined(c, X, ref):
        return False, ["undefined-cos"]
    res = Result(g)
    tags = [tool]
    try:
        sz = DENSE.findall(out)
        big = False
        if sz:
            got = [int(v) for v in sz[-1].split()]
            if got != res.cnt.tolist():
                raise Violation("%s: printed final sizes %s, the library computes %s" % (shown, got, res.cnt.tolist()))
            tags.append("sizes")
            big = int((res.cnt > 0).sum()) >= 2
        sp = SPARSE.findall(out)
        if sp:
            got = [int(v) for v in re.findall(r"v: (\d+)", sp[-1])]
            if sorted(got) != sorted(res.cnt[res.cnt > 0].tolist()):
                raise Violation("%s: printed final sizes %s, the library computes %s" % (shown, got, res.cnt.tolist()))
            tags.append("sizes")
            big = int((res.cnt > 0).sum()) >= 2
        for s in PASS.findall(out):
            if sum(numbers(s)) > len(X) or (tool == "medoids" and sum(numbers(s)) != len(X)):
                raise Violation("%s: sizes %s of a pass sum to %d, %d samples" % (shown, s, sum(numbers(s)), len(X)))
        b = BEST.findall(out)
        if b and tool == "kmeanspp":
            e, at, lib = float(g["0.energy"][0]), int(b[-1][0]), int(g["0.start"])
            if not abs(float(b[-1][1]) - e) <= 6e-7 + 1e-9 * abs(e):
                raise Violation("%s: printed best energy %s, the library's is %g" % (shown, b[-1][1], e))
            if at != lib:       # starts of the same energy differ by the order of a sum
                same = 1 <= at <= ref["nstart"] and ctx.call("run", _crash_ok=True, **dict(ref, nstart=at, timeout=60))
                if not same or not np.isclose(float(same["0.energy"][0]), e, rtol=1e-9) or at > lib and not np.isclose(
                        float(ctx.call("run", **dict(ref, nstart=lib, timeout=60))["0.energy"][0]), e, rtol=1e-9):
                    raise Violation("%s: printed best start %d, the library's is %d" % (shown, at, lib))
                return False, ["tied-starts"]
            tags.append("best")
        it = NITER.findall(out)
        if it and tool != "kmeanspp":
            how, num = it[-1][0], int(it[-1][1])
            if num != res.iters:
                raise Violation("%s: printed '%s in %d iterations', the library's result has %d" % (shown, how, num, res.iters))
            lim = ref["iters"]
            if res.iters < lim and how != "converged":
                raise Violation("%s: stopped after %d of %d passes, printed '%s'" % (shown, res.iters, lim, how))
            if res.iters == lim and lim < 1000 and c["alg"] != "mb":
                more = ctx.call("run", _crash_ok=True, **dict(ref, iters=lim + 1, timeout=60))
                if more["status"] == "ok" and (Result(more).iters == lim) != (how == "converged"):
                    raise Violation("%s: printed '%s in %d iterations', a limit of %d gives %d" % (
                        shown, how, num, lim + 1, Result(more).iters))
            tags.append(how)
    except Violation:
        if fragile(c, X, res, ref):
            return False, ["tie"]
        raise
    return big, tags


def t_report(ctx, c):
    return t_cli(ctx, c, judge)


def quiet(s):
    return s.map(lambda c: dict(c, fault=""))


def t_knord(ctx, c):
    d = ctx.tmp("mpi")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        return _knord(ctx, c, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _knord(ctx, c, d):
    """The distributed tool, with or without an output directory: only the root reports, once, and what it computed."""
    X = matrix(c["X"])
    n, m = X.shape
    k, lim = c["k"], c["iters"]
    X.tofile(os.path.join(d, "x.bin"))
    C = centers(c["C"], X)
    C.tofile(os.path.join(d, "c.bin"))
    argv = ["x.bin", str(n), str(m), str(k), "-T", str(c["T"]), "-d", c["metric"], "-C", "c.bin", "-i", str(lim)]
    argv += [] if c["prune"] else ["-P"]
    argv += ["-o", "out"] if c["N"] else []
    argv += ["-l", repr(c["tol"])] if c["tol"] >= 0 else []
    ref = lloyd(X, C, c["metric"], lim + 1, -1, trace=True)
    if ref.undefined or ref.ambiguous or ref.dup:
        return False, ["near-tie"]
    r = c05.world(ctx.extra["shim"], d, c["P"], argv, c["mseed"], 60)
    shown = "knord on %d processes, %s" % (c["P"], " ".join(argv))
    if r is None:
        raise Violation("%s did not end" % shown, "timeout")
    if r[0]:
        raise Violation("%s: status %d: %s" % (shown, r[0], r[1][:300]), "crash")
    if os.path.exists(os.path.join(d, "out")) != c["N"]:
        raise Violation("%s: result directory %s" % (shown, "absent" if c["N"] else "made unasked"))
    said = [DIST.findall(open(os.path.join(d, "said%d" % p), errors="replace").read()) for p in range(c["P"])]
    if sum(len(s) for s in said) == 0:
        return False, ["silent"]
    if sum(len(s) for s in said) != 1:
        raise Violation("%s: reports per process %s" % (shown, said))
    how, num = next(s[0] for s in said if s)
    want, end = lim, False
    for p, ch in enumerate(ref.changed[:lim], 1):
        if ch == 0 or ch / n <= c["tol"]:
            want, end = p, True
            break
    if int(num) != want or (how == "converged") != end:
        raise Violation("%s: printed '%s in %s iterations', it %s in %d" % (
            shown, how, num, "converges" if end else "does not converge", want))
    return c["P"] > 1, ["knord", how, "P=%d" % c["P"]]


SUBS = [Sub("report", quiet(cli_cases()), t_report, 8000, 100000),
        Sub("report-large", quiet(cli_cases(max_n=800, min_n=100, max_m=10)), t_report, 800, 10000),
        Sub("knord", quiet(c05.cases(init="none", on=("shim",))), t_knord, 800, 12000)]
