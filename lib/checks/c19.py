from common import *
from vlib import Sub, hash01

RULE = ("A case is 2-3 accumulator objects (dense, pruning, hierarchical or sparse; empty or started from means) and a history "
        "of up to 60 operations on them; after every operation the whole state (members, flags, sums or means, saved means, "
        "moves) is compared with a sum-and-count model. Non-trivial when the history has >=5 operations, at least one "
        "finalise, merge, copy or move, and the state is not all zero.")
ASSUMPTIONS = ["ids are within range unless the operation documents that it rejects or grows",
               "merging dense accumulators needs equal shapes (asserted by the library)"]
MAXD = np.finfo(float).max

ADD, REM, SWAP, MERGE, FIN, CLEAR, COPY, MEAN, COUNT, SCALE, FLAG, EQ, GET, PRUNE = range(14)


class M:
    """Sum-and-count model of one accumulator object."""
    def __init__(self, k, m, init=None, prune=False):
        self.k, self.m = k, m
        self.v = np.zeros((k, m)) if init is None else np.array(init, float).reshape(k, m)
        self.n = np.zeros(k, dtype=np.int64)
        self.f = np.full(k, init is not None)
        self.pm, self.pd, self.sv = np.zeros((k, m)), np.zeros(k), np.full(k, MAXD)
        self.sc = np.abs(self.v).max(initial=0) + 1      # largest magnitude ever held: rounding scale

    def grow(self, k):
        d = k - self.k
        if d > 0:
            self.v = np.vstack([self.v, np.zeros((d, self.m))])
            self.n = np.concatenate([self.n, np.zeros(d, dtype=np.int64)])
            self.f = np.concatenate([self.f, np.zeros(d, bool)])
            self.k = k

    def fin(self, i):
        if not self.f[i]:
            if self.n[i] > 1:
                self.v[i] = self.v[i] / self.n[i]
            self.f[i] = True

    def unfin(self, i):
        if self.f[i]:
            self.f[i] = False
            if self.n[i] > 1:
                self.v[i] = self.v[i] * self.n[i]


@st.composite
def hist(draw, kind, m=(1, 4), k=(2, 5), nops=60):
    m = size_of(draw, m)
    no = draw(st.integers(2, 3))
    k0 = size_of(draw, k)
    top = 7 if k[1] < 8 else 2 * k0
    ks = [draw(st.integers(1, k[1] + 1)) for _ in range(no)] if kind == "sparse" else [k0] * no
    wi = [0] * no if kind == "sparse" else [draw(st.integers(0, 1)) for _ in range(no)]
    kmax = max(ks)
    ops = []
    for _ in range(draw(st.integers(1, nops))):
        o = draw(st.integers(0, no - 1))
        fam = draw(st.sampled_from([ADD, ADD, ADD, ADD, REM, SWAP, MERGE, MERGE, FIN, FIN, FIN, CLEAR, COPY, MEAN, COUNT,
                                    SCALE, FLAG, EQ, GET] + ([PRUNE] * 4 if kind == "prune" else [])))
        ops.append([fam, o, draw(st.integers(0, top)), draw(st.integers(0, top)), draw(st.integers(0, 23)),
                    draw(st.integers(-16, 16)) / 16.0])
    return {"kind": kind, "m": m, "ks": ks, "wi": wi, "ops": ops, "salt": draw(st.integers(0, 1 << 20)),
            "int": draw(st.booleans()), "cmul": draw(st.sampled_from([1, 1, 1, 1, 20000, 1 << 30])), "amax": top + 1}


def t_hist(ctx, c):
    kind, m, ks = c["kind"], c["m"], c["ks"]
    pool = hash01(max(64, max(ks) + 2, c.get("amax", 8) + 2) * m, c["salt"]) * 32 - 16
    cmul = c.get("cmul", 1)
    if c["int"]:
        pool = np.floor(pool)
    inits, mods = [], []
    for i, k in enumerate(ks):
        x = hash01(k * m, c["salt"] + 1 + i) * 10 - 5
        inits.append(x)
        mods.append(M(k, m, x if c["wi"][i] else None))
    # first pass: resolve generated operations into valid calls while running the model
    prog, exp = [], []

    def snap(o):
        return (o.k, o.v.copy(), o.n.copy(), o.f.copy(), o.pm.copy(), o.pd.copy(), o.sv.copy(), o.sc)
    start = [snap(o) for o in mods]
    fams, nz = set(), False
    for fam, oi, a, b, v, f in c["ops"]:
        o = mods[oi]
        ret = 0.0
        x = pool[v * m:(v + 1) * m]
        ob = b % len(mods)
        o.sc = max(o.sc, 17.0)
        if fam == ADD:
            op = b % 2
            if kind == "sparse" and op == 0:
                a = a % c.get("amax", 8)
                o.grow(a + 1)
            else:
                a %= o.k
            o.v[a] += x
            o.n[a] += 1
        elif fam == REM:
            op = 2 + b % 2
            a %= o.k
            o.v[a] -= x
            o.n[a] -= 1
        elif fam == SWAP:
            op = 4 + v % 2
            a %= o.k
            b %= o.k
            o.v[a] -= x
            o.v[b] += x
            o.n[a] -= 1
            o.n[b] += 1
        elif fam == MERGE:
            op = 7 if (a % 2 and kind != "sparse") else 6
            b = ob
            s = mods[b]
            o.grow(s.k)
            sk = s.k
            if np.abs(o.v).max() + np.abs(s.v).max() > 1e6 * cmul or np.abs(o.n).max() + np.abs(s.n).max() > cmul << 20:
                continue
            o.v[:sk] += s.v.copy()
            o.n[:sk] += s.n.copy()
        elif fam == FIN:
            op = 8 + a % 4
            a = b % o.k
            if op in (9, 11) and np.abs(o.v * np.maximum(o.n, 1)[:, None]).max() > 1e6 * cmul:
                continue
            if op == 8:
                o.fin(a)
            elif op == 9:
                o.unfin(a)
            else:
                for i in range(o.k):
                    o.fin(i) if op == 10 else o.unfin(i)
        elif fam == CLEAR:
            op = 12
            if a % 3:
                continue
            o.v[:] = 0
            o.n[:] = 0
            o.f[:] = False
        elif fam == COPY:
            op = 13
            b = ob
            s = mods[b]
            o.k, o.v, o.n, o.f = s.k, s.v.copy(), s.n.copy(), s.f.copy()
            o.sc = max(o.sc, s.sc)
        elif fam == MEAN:
            op = 14 + b % 5
            a %= o.k
            if kind == "sparse" and op != 18:
                if op == 17 and o.k * m > pool.size:
                    continue
                ret = -102.0
            elif op in (16, 17):
                o.v = pool[:o.k * m].reshape(o.k, m).copy()
            else:
                o.v[a] = x
        elif fam == COUNT:
            op = 19 + v % 4
            if op == 19:
                if kind == "sparse" and a >= o.k:
                    ret = -101.0
                else:
                    a %= o.k
                    o.n[a] += b - 3
            elif op == 20:
                o.n[:] = [(a + i * b) % 7 * cmul for i in range(o.k)]
            elif op == 21:
                o.n += [(a + i * b) % 7 * cmul for i in range(o.k)]
            else:
                o.v += pool[:o.k * m].reshape(o.k, m)
        elif fam == SCALE:
            op = 23
            a %= o.k
            o.v[a] = (1 - f) * o.v[a] + f * x
        elif fam == FLAG:
            op = 24 + v % 2
            if op == 24:
                if kind == "sparse":
                    o.grow(a + 1)
                else:
                    a %= o.k
                o.f[a] = bool(b % 2)
            else:
                o.f[:] = bool(b % 2)
        elif fam == EQ:
            op = 26
            b = ob
            s = mods[b]
            if o.k == s.k and (o.n == s.n).all() and not np.array_equal(o.v, s.v) and \
                    np.abs(o.v - s.v).max() < 1e-7 * max(o.sc, s.sc):
                continue                   # rounding decides
            if b != oi and not c["int"] and np.array_equal(o.v, s.v) and np.abs(o.v).max() > 0:
                ret = None                 # equal in the model, perhaps by different roundings
            else:
                ret = float(o.k == s.k and bool((o.n == s.n).all()) and bool((o.v == s.v).all()))
                if not c["int"] or o.sc > 1e5:
                    ret = None if b != oi else 1.0
        elif fam == GET:
            op = 27 + v % 3
            if op == 27:
                a %= o.k * m
                ret = float(o.v.ravel()[a])
            elif kind == "sparse" and a >= o.k:
                ret = -101.0
            else:
                a %= o.k
                ret = float(o.v[a, b % m]) if op == 28 else float(o.f[a])
        else:
            op = 30 + v % 4
            a %= o.k
            if op == 30:
                o.pm = o.v.copy()
            elif op == 31:
                o.pd[a] = f
            elif op == 32:
                o.sv[a] = f
            else:
                o.sv[:] = MAXD
        o.sc = max(o.sc, float(np.abs(o.v).max()), float(np.abs(o.v * np.maximum(o.n, 1)[:, None]).max()))
        nz = nz or bool(o.v.any())
        if fam == COPY and kind == "prune":
            # copying base state leaves saved means and moves as they were
            if o.pm.shape != o.v.shape:
                raise AssertionError
        prog += [op, oi, a, b, v, f]
        exp.append((op, oi, ret, snap(o)))
        fams.add(fam)
    kw = dict(kind=kind, ncol=m, nclust=ks, withinit=c["wi"], init=np.concatenate(inits), pool=pool, prog=prog, cmul=cmul)
    r = ctx.call("clusters", **kw)
    if r["status"] != "ok":
        raise Violation("raised: " + r["status"], "crash")
    t = r["t"]
    pos = 0

    def cmp(where, s):
        nonlocal pos
        k, v, n, f, pm, pd, sv, sc = s
        if t[pos] != k or t[pos + 1] != m or t[pos + 2] != k * m:
            raise Violation("%s: shape is %s, expected %d x %d" % (where, t[pos:pos + 3], k, m))
        pos += 3
        gn, gf = t[pos:pos + 2 * k:2], t[pos + 1:pos + 2 * k:2]
        pos += 2 * k
        gv = t[pos:pos + k * m].reshape(k, m)
        pos += k * m
        if not np.array_equal(gn, n):
            raise Violation("%s: member counts %s, model %s" % (where, gn, n))
        if not np.array_equal(gf != 0, f):
            raise Violation("%s: finalised flags %s, model %s" % (where, gf, f))
        tol = 1e-10 * sc
        if not np.allclose(gv, v, rtol=0, atol=tol):
            raise Violation("%s: values %s, model %s" % (where, gv.tolist(), v.tolist()))
        if kind == "prune":
            gp = t[pos:pos + k * m].reshape(k, m)
            pos += k * m
            q = t[pos:pos + 2 * k].reshape(k, 2)
            pos += 2 * k
            if not np.allclose(gp, pm, rtol=0, atol=tol):
                raise Violation("%s: saved means %s, model %s" % (where, gp.tolist(), pm.tolist()))
            if not np.array_equal(q[:, 0], pd) or not np.array_equal(q[:, 1], sv):
                raise Violation("%s: moves/bounds %s, model %s %s" % (where, q.tolist(), pd, sv))
    for i, s in enumerate(start):
        cmp("object %d at the start" % i, s)
    for i, (op, oi, ret, s) in enumerate(exp):
        w = "after operation %d (code %d) on object %d" % (i, op, oi)
        g = t[pos]
        pos += 1
        if ret is not None and not close(g, ret, s[7], 1e-10):
            raise Violation("%s: answered %.17g, model %.17g" % (w, g, ret))
        cmp(w, s)
    for i, o in enumerate(mods):
        cmp("object %d at the end" % i, snap(o))
    nt = len(exp) >= 5 and nz and bool(fams & {FIN, MERGE, COPY, SWAP})
    return nt, [kind] + ["f%d" % f for f in sorted(fams)]


# the property's algebra, stated directly: order, grouping and finalise/undo make no difference
@st.composite
def algebra(draw):
    n = draw(st.integers(2, 30))
    m = draw(st.integers(1, 4))
    k = draw(st.integers(1, 4))
    return {"n": n, "m": m, "k": k, "salt": draw(st.integers(0, 1 << 20)),
            "asg": draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n)),
            "part": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
            "kind": draw(st.sampled_from(["dense", "prune", "h", "sparse"])),
            "moves": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, k - 1)), max_size=12))}


def t_algebra(ctx, c):
    n, m, k = c["n"], c["m"], c["k"]
    X = np.floor(hash01(n * m, c["salt"]) * 64 - 32).reshape(n, m)
    asg = list(c["asg"])
    prog = []
    for i in range(n):
        prog += [0, c["part"][i], asg[i], 0, i, 0.0]
    prog += [6, 0, 0, 1, 0, 0.0, 6, 0, 0, 2, 0, 0.0]      # 0 += 1, 0 += 2
    for row, to in c["moves"]:
        prog += [4, 0, asg[row], to, row, 0.0]
        asg[row] = to
    prog += [10, 0, 0, 0, 0, 0.0]
    nst = len(prog) // 6
    prog += [11, 0, 0, 0, 0, 0.0]
    r = ctx.call("clusters", kind=c["kind"], ncol=m, nclust=[k] * 3, withinit=[0] * 3, init=np.zeros(3 * k * m),
                 pool=X, prog=prog)
    if r["status"] != "ok":
        raise Violation("raised: " + r["status"], "crash")
    asg = np.array(asg)
    S = np.array([X[asg == i].sum(0) if (asg == i).any() else np.zeros(m) for i in range(k)])
    N = np.bincount(asg, minlength=k)
    ln = 3 + 2 * k + k * m + (k * m + 2 * k if c["kind"] == "prune" else 0)
    t = r["t"][3 * ln:]
    for what, step, want in (("means", nst - 1, S / np.maximum(N, 1)[:, None]), ("restored sums", nst, S)):
        d = t[step * (ln + 1) + 1:(step + 1) * (ln + 1)]
        if not np.array_equal(d[3:3 + 2 * k:2], N):
            raise Violation("%s: counts %s, expected %s" % (what, d[3:3 + 2 * k:2], N))
        got = d[3 + 2 * k:3 + 2 * k + k * m].reshape(k, m)
        if not np.allclose(got, want, rtol=1e-12, atol=1e-11):
            raise Violation("%s: %s, expected %s" % (what, got.tolist(), want.tolist()))
    return n > k and (N > 1).any(), [c["kind"]]


@st.composite
def hids(draw):
    return {"p": [draw(st.integers(0, 2 ** 31)) for _ in range(6)] + [draw(st.integers(0, 1))]}


def t_hids(ctx, c):
    r = ctx.call("hclusters", p=c["p"])
    p = c["p"]
    want = p[:3] + [0] + p[3:6] + [p[6], 5]
    if r["status"] != "ok" or list(r["t"]) != [float(x) for x in want]:
        raise Violation("ids and state read back %s, expected %s" % (list(r.get("t", [])), want))
    return True, []


D = ("fast", "ds")
KINDS = ("dense", "prune", "h", "sparse")
SUBS = [Sub(k, hist(k), t_hist, 2500, 40000, build=D) for k in KINDS] + [
    Sub("algebra", algebra(), t_algebra, 2000, 30000, build=D), Sub("hids", hids(), t_hids, 200, 1000, build=D)] + [
    Sub(k + "-many", hist(k, (1, 6), (20, 300), 25), t_hist, 160, 2500, build=D) for k in KINDS if k != "h"] + [
    Sub(k + "-cols", hist(k, (60, 600), (2, 5), 40), t_hist, 200, 3000, build=D) for k in KINDS] + [
    Sub(k + "-long", hist(k, nops=250), t_hist, 120, 2000, build=D) for k in KINDS]
