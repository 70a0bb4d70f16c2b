"""Check runner: seeded, sharded Hypothesis search over a fork-per-case C++ worker."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, shutil, signal, struct
import subprocess, sys, tempfile, time, traceback

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st
import hypothesis.internal.conjecture.engine as _eng

import build

VERIF = build.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    _eng.MAX_SHRINKING_SECONDS = 40
except Exception:
    pass
WALL = {"quick": 420.0, "thorough": 3300.0}   # generation stops after this; never a verdict


class Violation(Exception):
    def __init__(self, msg, kind="oracle"):
        super().__init__(msg if len(msg) < 3000 else msg[:2200] + " ... " + msg[-700:])
        self.kind = kind


class Reply(dict):
    """status: ok | exc <what>; arrays as numpy float64."""
    def ints(self, k):
        return self[k].astype(np.int64)


class Worker:
    def __init__(self, path):
        self.path = path
        self.p = None
        self.logs = None

    def start(self):
        env = dict(os.environ)
        env.update(OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1"
                                ":detect_stack_use_after_return=0:max_allocation_size_mb=4096",
                   UBSAN_OPTIONS="print_stacktrace=0:abort_on_error=1")
        env.pop("OMP_NUM_THREADS", None)
        cmd = [self.path]
        if os.path.basename(os.path.dirname(self.path)).startswith("vg"):     # under memcheck
            self.logs = self.logs or tempfile.mkdtemp(prefix="verif_vg_")
            cmd = ["valgrind", "-q", "--vgdb=no", "--error-exitcode=99", "--leak-check=no", "--num-callers=8", "--undef-value-errors=yes",
                   "--log-file=%s/%%p" % self.logs] + cmd
            env["OMP_NUM_THREADS"] = "4"
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd="/")

    def close(self):
        if self.p:
            try:
                self.p.kill()
            except Exception:
                pass
            self.p.wait()
            self.p = None
        if self.logs:
            shutil.rmtree(self.logs, ignore_errors=True)
            self.logs = None

    def memlog(self):
        """What memcheck wrote for the last case (its log is per process)."""
        out = []
        for f in os.listdir(self.logs):
            if f != str(self.p.pid):
                try:
                    out.append(open(os.path.join(self.logs, f), errors="replace").read())
                    os.unlink(os.path.join(self.logs, f))
                except OSError:
                    pass
        return " | ".join(l.split("== ", 1)[-1].strip() for l in "".join(out).splitlines() if l.strip())[:900]

    def raw(self, op, **kw):
        if self.p is None or self.p.poll() is not None:
            self.start()
        b = [b"s op " + op.encode() + b"\n"]
        for k, v in kw.items():
            if v is None:
                continue
            kb = k.encode()
            if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
                a = np.ascontiguousarray(np.asarray(v, dtype=np.float64)).ravel()
                b.append(b"a %s %d\n" % (kb, a.size) + a.tobytes() + b"\n")
            elif isinstance(v, bytes):
                b.append(b"t %s %d\n" % (kb, len(v)) + v + b"\n")
            elif isinstance(v, float):
                b.append(b"s %s %s\n" % (kb, v.hex().encode()))
            else:
                b.append(b"s %s %s\n" % (kb, str(v).encode()))
        body = b"".join(b)
        try:
            self.p.stdin.write(struct.pack("<I", len(body)) + body)
            self.p.stdin.flush()
            stat, err, res = (self._chunk() for _ in range(3))
        except (EOFError, BrokenPipeError, OSError) as e:
            self.close()
            raise RuntimeError("worker server died: %r" % (e,))
        return stat.decode(), err.decode("utf8", "replace"), res

    def _chunk(self):
        n, = struct.unpack("<I", self._rd(4))
        return self._rd(n)

    def _rd(self, n):
        r = self.p.stdout.read(n) if n else b""
        if len(r) != n:
            raise EOFError
        return r

    def call(self, op, _crash_ok=False, **kw):
        """Runs one op.  A crash, abort, sanitizer report or hang is a Violation."""
        stat, err, res = self.raw(op, **kw)
        if self.logs:
            err = self.memlog() or err
        if stat.startswith("timeout"):
            if _crash_ok:
                return Reply(status="timeout", err=err)
            raise Violation("no answer within the time limit", "timeout")
        if stat != "done 0":
            if _crash_ok:
                return Reply(status=stat, err=err)
            raise Violation("process ended abnormally (%s): %s" % (stat, _tail(err)), "crash")
        r = parse(res, err)
        if r.get("status", "").startswith("notbuilt"):
            b = os.path.join(os.path.dirname(self.path), "broken.txt")
            raise RuntimeError("%s: its driver did not compile against this tree\n%s" % (r["status"], open(b).read()[:3000] if os.path.exists(b) else ""))
        return r


def _tail(e):
    lines = [l for l in e.splitlines() if l.strip()]
    keep = [l for l in lines if "ERROR" in l or "Assertion" in l or "runtime error" in l or "terminate" in l
            or "what()" in l or "#0" in l or "#1 " in l or "#2 " in l]
    return " | ".join((keep or lines)[:8])[:900]


def parse(b, err=""):
    r = Reply(err=err)
    p = 0
    while p < len(b):
        e = b.index(b"\n", p)
        line = b[p:e]
        p = e + 1
        kind = line[:1]
        key, _, val = line[2:].partition(b" ")
        if kind == b"s":
            r[key.decode()] = val.decode("utf8", "replace")
        else:
            n = int(val)
            r[key.decode()] = np.frombuffer(b[p:p + 8 * n], dtype=np.float64)
            p += 8 * n + 1
    return r


# ---------------------------------------------------------------- generated data

def _mix(x):
    x = (x + np.uint64(0x9E3779B97F4A7C15))
    x = (x ^ (x >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
    x = (x ^ (x >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
    return x ^ (x >> np.uint64(31))


def hash01(n, salt):
    """n values in [0,1), a fixed function of the (generated) salt."""
    with np.errstate(over="ignore"):
        h = _mix(np.arange(n, dtype=np.uint64) * np.uint64(2654435761) + _mix(np.array([salt], dtype=np.uint64)))
    return (h >> np.uint64(11)).astype(np.float64) / float(1 << 53)


MODES = ("hash", "hblobs", "cont", "hash", "hblobs", "grid", "blobs", "dups", "wide", "neg", "coarse")


def matrix(spec):
    """Materialises a drawn description {n,m,mode,b(hex),salt} into an n x m float64 matrix."""
    n, m = spec["n"], spec["m"]
    b = bytes.fromhex(spec["b"]) or b"\0"
    N = n * m
    base = np.frombuffer((b * (N // len(b) + 1))[:N], dtype=np.uint8).astype(np.float64)
    salt = spec.get("salt", 0)
    jit = hash01(N, salt)
    mode = spec["mode"]
    if mode == "cont":
        X = (base - 128) / 16 + jit
    elif mode == "grid":
        X = np.floor(base / 32) - 4
    elif mode == "coarse":
        X = np.floor(base / 86) - 1
    elif mode == "blobs":
        g = np.floor(base.reshape(n, m)[:, :1] / 64)
        X = ((g * 37) % 11 * 9 - 40 + np.arange(m) * ((g % 3) - 1) * 4 + jit.reshape(n, m) * 2 +
             (base.reshape(n, m) % 8) / 4).ravel()
    elif mode == "dups":
        # rows repeat: few distinct rows
        q = max(1, spec.get("q", 3))
        idx = (np.frombuffer((b * (n // len(b) + 1))[:n], dtype=np.uint8).astype(int)) % q
        proto = (hash01(q * m, salt) * 20 - 10).reshape(q, m)
        X = proto[idx].ravel()
    elif mode == "idups":           # as dups, with integer coordinates (sums are exact)
        q = max(1, spec.get("q", 3))
        idx = np.minimum((hash01(n, salt + 5) * q).astype(int), q - 1)
        X = np.floor(hash01(q * m, salt) * 20 - 10).reshape(q, m)[idx].ravel()
    elif mode == "wide":
        X = (jit * 8 - 4 + (base - 128) / 64).reshape(n, m) * (10.0 ** ((np.arange(m) * 3 + salt) % 9 - 4))
        X = X.ravel()
    elif mode == "neg":
        X = -(jit * 9 + base / 64 + 0.5)
    elif mode == "hash":
        X = jit * 20 - 10
    elif mode == "hblobs":          # overlapping groups around drawn-salt centers
        q = 2 + salt % 7
        P = (hash01(q * m, salt + 1) * 30 - 15).reshape(q, m)
        g = np.minimum((hash01(n, salt + 2) * q).astype(int), q - 1)
        X = (P[g] + (jit.reshape(n, m) - .5) * (2 + salt % 11)).ravel()
    elif mode == "sep":             # well separated, roughly normal groups
        q = 1 + salt % 9
        P = np.floor(hash01(q * m, salt + 1) * 12).reshape(q, m) * 20 - 120
        g = np.minimum((hash01(n, salt + 2) * q).astype(int), q - 1)
        u = sum(hash01(N, salt + 3 + i) for i in range(6)) - 3
        X = (P[g] + u.reshape(n, m) * (.5 + salt % 5)).ravel()
    elif mode == "tree":            # 2^q groups, nested: every level of two-way splits stands out
        q = 1 + salt % 4
        g = np.minimum((hash01(n, salt + 2) * 2 ** q).astype(int), 2 ** q - 1)
        P = np.array([sum(((j >> i) & 1) * 12.0 ** (i + 1) for i in range(q)) for j in range(2 ** q)])
        u = sum(hash01(N, salt + 3 + i) for i in range(6)) - 3
        X = (P[g][:, None] * (1 + np.arange(m) % 2) + u.reshape(n, m) * (.2 + salt % 5 / 4)).ravel()
    elif mode == "line":            # evenly along a line, a little off it, in a mixed order
        t = (np.argsort(hash01(n, salt + 1)) + hash01(n, salt + 2)) * (20.0 / n)
        X = (t[:, None] * (1 + np.arange(m)) + (jit.reshape(n, m) - .5) * (1.0 / n)).ravel()
    else:
        raise ValueError(mode)
    # a power of two: nothing but the unit changes, not one rounding
    return np.ascontiguousarray(np.ldexp(X.reshape(n, m), spec.get("unit", 0)))


UNITS = (0,) * 9 + (-60, -33, -14, 14, 33, 60)


@st.composite
def mats(draw, min_n=1, max_n=40, min_m=1, max_m=6, modes=MODES, cap=400):
    n = draw(st.integers(min_n, max_n))
    m = draw(st.integers(min_m, max_m))
    return draw(mat_of(n, m, modes, cap))


@st.composite
def mat_of(draw, n, m, modes=MODES, cap=400):
    mode = draw(st.sampled_from(list(modes)))
    ln = min(n * m, cap)
    if mode == "dups":
        ln = min(n, cap)
    if mode in ("hash", "hblobs", "sep", "tree", "idups"):
        ln = 0
    b = draw(st.binary(min_size=ln, max_size=ln))
    s = {"n": n, "m": m, "mode": mode, "b": b.hex(),
         "salt": draw(st.one_of(st.integers(0, 1 << 20), st.integers(1000, 1 << 20)))}
    u = draw(st.sampled_from(UNITS))
    if u:
        s["unit"] = u
    if mode in ("dups", "idups"):
        s["q"] = draw(st.integers(1, 6))
    return s


def key_of(case):
    return hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()


# ---------------------------------------------------------------- running

TASKS = ("tasks", "routines")      # routines whose tasks have a few rows, so that threads have many


class Sub:
    """One generated-input search.  test(ctx, case) raises Violation, or returns
    (nontrivial: bool, tags: iterable of str)."""
    def __init__(self, name, strategy, test, quick, thorough=None, build=("fast", "routines"), shards=8,
                 needs=None):
        self.name, self.strategy, self.test = name, strategy, test
        self.n = {"quick": quick, "thorough": thorough or quick * 12}
        self.build, self.shards, self.needs = build, shards, needs


class Ctx:
    def __init__(self, sub, worker_path, scratch, extra):
        self.sub, self.scratch, self.extra = sub, scratch, extra
        self.w = Worker(worker_path) if worker_path else None

    def call(self, op, **kw):
        return self.w.call(op, **kw)

    def run(self, **kw):
        """A clustering run that must answer normally."""
        kw.setdefault("timeout", 60)
        r = self.w.call("run", **kw)
        if r["status"] != "ok":
            raise Violation("routine raised: %s" % r["status"], "crash")
        return r

    def tmp(self, name):
        return os.path.join(self.scratch, name)

    def close(self):
        if self.w:
            self.w.close()


_STOP = None


def _quiet_seed(prop, sub, shard):
    return int(hashlib.sha256(("%d|%s|%s|%d" % (SEED, prop, sub, shard)).encode()).hexdigest()[:12], 16)


def _job(args):
    prop, modname, subidx, shard, n, wpath, scratch, deadline, extra = args
    mod = importlib.import_module(modname)
    sub = mod.SUBS[subidx]
    sd = tempfile.mkdtemp(prefix="s%d_" % shard, dir=scratch)
    ctx = Ctx(sub, wpath, sd, extra)
    st_ = {"evals": 0, "tags": collections.Counter(), "keys": set(), "samples": [], "skipped": 0}
    fail = {}
    t0 = time.time()

    def body(case):
        if (_STOP is not None and _STOP.is_set() and not fail) or fail.get("final"):
            st_["skipped"] += 1
            return
        if time.time() > deadline and not fail:
            st_["skipped"] += 1
            st_["budget"] = True
            return
        if fail and time.time() > fail["t"] + 60:
            return
        try:
            out = sub.test(ctx, case)
        except Violation as v:
            st_["evals"] += 1
            if v.kind == "timeout":
                fail.update(case=case, msg=str(v), kind=v.kind, final=True, t=time.time())
                return
            if not fail:
                fail["t"] = time.time()
            fail.update(case=case, msg=str(v), kind=v.kind)
            raise
        st_["evals"] += 1
        nt, tags = out
        for t in tags:
            st_["tags"][t] += 1
        if nt:
            k = key_of(case)
            if k not in st_["keys"]:
                st_["keys"].add(k)
                if len(st_["samples"]) < 2 or (len(st_["samples"]) < 4 and len(st_["keys"]) % 97 == 0):
                    st_["samples"].append(case)

    fn = given(sub.strategy)(body)
    fn = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink))(fn)
    fn = hseed(_quiet_seed(prop, sub.name, shard))(fn)
    err = None
    try:
        fn()
    except Violation:
        pass
    except BaseException as e:     # Flaky etc.: the recorded case decides; else it is our error
        if not fail:
            err = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    finally:
        ctx.close()
        shutil.rmtree(sd, ignore_errors=True)
    if fail and _STOP is not None:
        _STOP.set()
    st_["tags"] = dict(st_["tags"])
    return {"sub": subidx, "shard": shard, "stats": st_, "fail": fail or None, "err": err,
            "t": time.time() - t0}


def _init(ev):
    global _STOP
    _STOP = ev
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _workers(subs):
    paths = {}
    for s in subs:
        if s.build and s.build not in paths:
            paths[s.build] = build.worker(*s.build)
    return paths


def _extras(mod):
    return mod.prepare() if hasattr(mod, "prepare") else {}


def replay(prop, mod, data, times=3, quiet=False):
    """Re-runs one saved case `times` times in fresh workers; returns the messages of failures."""
    sub = next(s for s in mod.SUBS if s.name == data["sub"])
    paths = _workers([sub])
    extra = _extras(mod)
    msgs = []
    for i in range(times):
        sd = tempfile.mkdtemp(prefix="verif_replay_")
        ctx = Ctx(sub, paths.get(sub.build), sd, extra)
        try:
            sub.test(ctx, data["case"])
        except Violation as v:
            msgs.append(str(v))
        finally:
            ctx.close()
            shutil.rmtree(sd, ignore_errors=True)
    return msgs


def findings(prop):
    """Known, unrepaired findings of this property: (name, text, replay data)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                _, _, rest = l.strip().partition("property=%s " % prop)
                name, _, text = rest.partition(" ")
                name = name.split("=", 1)[1]
                out.append((name, text, json.load(open(os.path.join(VERIF, "findings", name + ".json")))))
    return out


def main(prop, modname, argv):
    t0 = time.time()
    mod = importlib.import_module(modname)
    if len(argv) >= 2 and argv[0] == "--replay":
        data = json.load(open(argv[1]))
        msgs = replay(prop, mod, data)
        for m in msgs:
            print("replay:", m)
        if msgs:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(argv[1])))
            return 1
        print("replay: property held")
        return 0
    only = argv[1] if len(argv) >= 2 and argv[0] == "--sub" else None
    subs = mod.SUBS
    nbuild = time.time()
    try:
        paths = _workers([s for s in subs if not only or s.name == only])
        extra = _extras(mod)
    except build.BuildError as e:
        print("BUILD ERROR\n" + str(e))
        return 2
    nbuild = time.time() - nbuild
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    deadline = time.time() + WALL[TIER]
    jobs = []
    for i, s in enumerate(subs):
        if only and s.name != only:
            continue
        n = max(1, int(s.n[TIER] * scale))
        sh = min(s.shards, n)
        for k in range(sh):
            jobs.append((prop, modname, i, k, (n + sh - 1) // sh, paths.get(s.build), scratch, deadline, extra))
    # interleave subs so that a failure in any of them is met early
    jobs.sort(key=lambda j: (j[3], j[2]))
    ev = mp.Event()
    results, viols, errs = [], [], []
    ctxm = mp.get_context("fork")
    with ctxm.Pool(min(len(jobs), int(os.environ.get("VERIF_PROCS", "8"))), _init, (ev,), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_job, jobs):
            results.append(r)
            if r["err"]:
                errs.append(r["err"])
            if r["fail"]:
                viols.append(r)
    shutil.rmtree(scratch, ignore_errors=True)

    rdir = os.path.join(VERIF, "replays")
    confirmed, flaky = [], []
    viols.sort(key=lambda r: r["fail"]["kind"] == "timeout")
    for r in viols[:4]:
        if confirmed and r["fail"]["kind"] == "timeout":
            continue                     # one is enough; each replay waits for its full time
        sub = subs[r["sub"]]
        data = {"property": prop, "sub": sub.name, "case": r["fail"]["case"], "message": r["fail"]["msg"],
                "seed": SEED, "tier": TIER}
        times = 3
        msgs = replay(prop, mod, data, times)
        need = 3 if r["fail"]["kind"] == "timeout" else 1
        if r["fail"]["kind"] != "timeout" and not msgs:
            msgs = replay(prop, mod, data, 7)
        if len(msgs) >= need:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.json" % (prop, key_of(data["case"])[:10]))
            data["replay_messages"] = msgs
            with open(path, "w") as f:
                json.dump(data, f, indent=1)
            confirmed.append((path, data))
        else:
            flaky.append(data)

    agg = {"evaluations": 0, "distinct_nontrivial": 0, "rule": mod.RULE, "samples": [], "by_check": {}}
    for i, s in enumerate(subs):
        rs = [r for r in results if r["sub"] == i]
        if not rs:
            continue
        keys = set().union(*[r["stats"]["keys"] for r in rs])
        tags = collections.Counter()
        for r in rs:
            tags.update(r["stats"]["tags"])
        e = sum(r["stats"]["evals"] for r in rs)
        agg["evaluations"] += e
        agg["distinct_nontrivial"] += len(keys)
        agg["by_check"][s.name] = {"cases": e, "nontrivial": len(keys), "classes": dict(sorted(tags.items())),
                                   "skipped_after_stop_or_budget": sum(r["stats"]["skipped"] for r in rs),
                                   "cpu_s": round(sum(r["t"] for r in rs), 1)}
        for r in rs[:2]:
            for c in r["stats"]["samples"][:1]:
                agg["samples"].append({"check": s.name, "case": c})
    known = []
    for name, text, data in findings(prop):
        if only:
            continue
        msgs = replay(prop, mod, data, 1)
        if msgs:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
            known.append(name)
    agg["known_findings_reproduced"] = known
    ev_doc = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": agg,
              "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(confirmed)}
    ev_doc["coverage"]["build_s"] = round(nbuild, 1)
    if flaky:
        ev_doc["coverage"]["not_reproduced"] = [f["message"] for f in flaky]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev_doc, f, indent=1)
    for s, d in agg["by_check"].items():
        print("%s/%s: %s" % (prop, s, json.dumps(d)))
    for f in flaky:
        print("not reproduced:", f["message"])
    for path, data in confirmed:
        print("violated:", data["sub"], "-", data["message"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if confirmed:
        return 1
    if errs:
        print("HARNESS ERROR\n" + errs[0])
        return 2
    print("%s held on %d cases (%d distinct non-trivial) in %.1fs" % (
        prop, agg["evaluations"], agg["distinct_nontrivial"], time.time() - t0))
    return 0
