from common import *
from vlib import Sub, hash01

RULE = ("Histories of up to 60 operations on the index-keyed map (with its iterator), the shared boolean vector (with concurrent "
        "writers) and the id supply, against a dict, a list and a set of live ids; id compaction, result objects, equality of "
        "results and vectors, and powers of two against their definitions. Non-trivial when the map/vector/set has been non-empty "
        "and the history has >=4 operations, or the compared objects are non-empty.")
ASSUMPTIONS = ["set/get on the boolean vector are within range (only check_set grows)",
               "ids are only reclaimed once and only if handed out"]


@st.composite
def maps(draw, keys=11, ops=60):
    ev = draw(st.sampled_from([0.0, 0.0, -1.0, 5.0]))
    ops = draw(st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8, 9, 10, 11, 11, 12, 13, 14]),
                                  st.integers(0, keys), st.sampled_from([0.0, -1.0, 5.0, 1.0, 2.0, 3.0, 7.5])), max_size=ops))
    d = draw(st.integers(0, 3)) == 0
    return {"cap": draw(st.integers(0, keys // 2 + 1)), "ev": 0.0 if d else ev, "dflt": int(d), "ops": [list(o) for o in ops]}


def t_map(ctx, c):
    ev = c["ev"]
    D = [] if c["dflt"] else [ev] * c["cap"]
    want, prog = [], []
    had = False
    for op, a, f in c["ops"]:
        keys = [i for i, x in enumerate(D) if x != ev]
        had = had or bool(keys)
        grow = lambda: D.extend([ev] * (a + 1 - len(D)))
        if op in (0, 1): grow(); D[a] = f
        elif op in (2, 14): grow(); want.append(D[a])
        elif op == 3: want.append(D[a] if a < len(D) else -9999)
        elif op == 4:
            if a >= len(D): continue
            D[a] = ev
        elif op == 5: D[:] = [ev] * len(D)
        elif op == 6: want.append(float(a in keys))
        elif op == 7: want += [len(keys)] + keys
        elif op == 8: want.append(len(keys))
        elif op == 9: want.append(float(not keys))
        elif op == 10:
            if a % 3: continue
            D[:] = [ev] * a
        elif op in (11, 12):
            want.append(len(keys))
            for k in keys: want += [k, D[k]]
            if op == 12: want.append(0.0)
        else: want += [len(D), float(not D)]
        prog += [op, a, f]
    g = ctx.call("vmap", cap=c["cap"], empty=ev, dflt=c["dflt"], prog=prog)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    if list(g["t"]) != [float(x) for x in want]:
        t = list(g["t"])
        i = next((i for i, (p, q) in enumerate(zip(t, want)) if p != q), min(len(t), len(want)))
        raise Violation("answers %s, a map gives %s (first difference at %d)" % (t[max(0, i - 3):i + 5], want[max(0, i - 3):i + 5], i))
    return had and len(prog) >= 12, ["empty=%g" % ev]


@st.composite
def bools(draw, size=30):
    n = draw(st.integers(0, 30)) if size <= 30 else size_of(draw, (30, size))
    return {"len": n, "init": draw(st.integers(0, 1)),
            "ops": [list(o) for o in draw(st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5, 6]), st.integers(0, n + 10 if size > 30 else 40), st.integers(0, 1)), max_size=40))]}


def t_bools(ctx, c):
    V = [bool(c["init"])] * c["len"]
    want, prog = [], []
    for op, a, v in c["ops"]:
        if op in (0, 2, 3):
            if not V: continue
            a %= len(V)
        if op == 0: V[a] = bool(v)
        elif op == 1:
            V += [False] * (a + 1 - len(V))
            V[a] = bool(v)
        elif op in (2, 3): want.append(V[a])
        elif op in (4, 5): want.append(len(V))
        else: V[:] = [((j * 7 + v + 19) % 3) == 0 for j in range(len(V))]
        prog += [op, a, v]
    g = ctx.call("boolvec", len=c["len"], init=c["init"], prog=prog)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    want = [float(x) for x in want + V]
    if list(g["t"]) != want:
        raise Violation("answers %s, an array of booleans gives %s" % (list(g["t"])[:60], want[:60]))
    return len(V) > 0 and len(prog) >= 12, ["writers" if any(o[0] == 6 for o in c["ops"]) else "seq"]


@st.composite
def idhist(draw, size=60):
    return {"p": draw(st.lists(st.one_of(st.just(-1), st.just(-1), st.integers(0, size // 2)), min_size=min(size - 59, 150), max_size=size))}


def t_ids(ctx, c):
    g = ctx.call("idgen", prog=c["p"])
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    t, i, live, most = list(g["t"]), 0, {0}, 1       # id 0 is the root's
    while i < len(t):
        if t[i] == -1:
            a, b = t[i + 1], t[i + 2]
            if a == b or a in live or b in live:
                raise Violation("ids %d and %d handed out while %s are live" % (a, b, sorted(live)))
            live |= {a, b}
            most = max(most, len(live))
            if max(a, b) >= most:
                raise Violation("id %d handed out although at most %d were ever live" % (max(a, b), most))
            i += 3
        else:
            live.discard(t[i + 1])
            i += 2
    return most > 3 and any(x >= 0 for x in c["p"]), []


@st.composite
def remaps(draw, size=14, big=5):
    n = draw(st.integers(0, size))
    return {"c": draw(st.lists(st.one_of(st.just(0), st.integers(0, big)), min_size=n, max_size=n)), "m": draw(st.integers(1, 3)),
            "salt": draw(st.integers(0, 1 << 20))}


def t_remap(ctx, c):
    cnt, m = c["c"], c["m"]
    asg = [i for i, x in enumerate(cnt) for _ in range(x)]
    asg = [asg[i] for i in np.argsort(hash01(len(asg), c["salt"]))] if asg else []
    cen = hash01(len(cnt) * m, c["salt"] + 1)
    g = ctx.call("remap", c=cnt, asg=asg, cen=cen, m=m)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    mp = {int(a): int(b) for a, b in g["map"].reshape(-1, 2)}
    live = [i for i, x in enumerate(cnt) if x > 0]
    if sorted(mp) != live or sorted(mp.values()) != list(range(len(live))):
        raise Violation("counts %s renumbered as %s" % (cnt, mp))
    if any(g["out"][mp[i]] != cnt[i] for i in live) or g["out"].size != len(live):
        raise Violation("counts %s compacted to %s with %s" % (cnt, g["out"], mp))
    if asg:
        if int(g["k"]) != len(live) or int(g["iters"]) != 5:
            raise Violation("result says k=%s after %s, expected %d after 5" % (g["k"], g["iters"], len(live)))
        if [mp[i] for i in asg] != [int(x) for x in g["asg"]]:
            raise Violation("assignments %s became %s under %s" % (asg, g["asg"], mp))
        C = g["cen"].reshape(-1, m)
        for i in live:
            if not np.array_equal(C[mp[i]], cen[i * m:(i + 1) * m]) or g["cnt"][mp[i]] != cnt[i]:
                raise Violation("cluster %d did not keep its center and size under %s" % (i, mp))
    return len(live) >= 2 and len(live) < len(cnt), []


@st.composite
def eqs(draw, size=10):
    a = draw(st.lists(st.integers(0, 3), max_size=10))
    if size > 10:
        a = (a or [draw(st.integers(0, 3))]) * (1 + draw(st.integers(10, size)) // max(len(a), 1))
    b = list(a)
    how = draw(st.sampled_from(["same", "one", "longer", "shorter", "free"]))
    if how == "one" and b:
        b[draw(st.integers(0, len(b) - 1))] += draw(st.sampled_from([1, 1, 1, 256, 65536]))
    elif how == "longer":
        b += draw(st.lists(st.integers(0, 3), min_size=1, max_size=3))
    elif how == "shorter":
        b = b[:-1]
    elif how == "free":
        b = draw(st.lists(st.integers(0, 3), max_size=10))
    return {"a": a, "b": b, "c": draw(st.integers(0, 3)), "how": how}


def t_eq(ctx, c):
    a, b = c["a"], c["b"]
    g = ctx.call("equal", a=a, b=b, c=float(c["c"]))
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    e = float(a == b)
    want = [e, e, (e if len(a) == len(b) and a else -1.0), float(all(x == c["c"] for x in a))]
    if list(g["t"]) != want:
        raise Violation("comparing %s with %s (constant %d) gives %s, expected %s" % (a, b, c["c"], list(g["t"]), want))
    return bool(a), [c["how"]]


@st.composite
def results(draw, N=8, K=4, M=3):
    n, k, m = draw(st.integers(1, N)), draw(st.integers(1, K)), draw(st.integers(1, M))
    salt = draw(st.integers(0, 1 << 20))
    asg = (hash01(n, salt + 9) * k).astype(int).tolist()
    return {"n": n, "k": k, "m": m, "asg": asg, "salt": salt, "by": draw(st.sampled_from([1, 1, 256, 65536, 1 << 31, 1e-3, 1e-9, 1e-15])),
            "d": draw(st.sampled_from(["same", "asg", "cnt", "cen", "asg+", "cnt+", "cen+", "asg-", "cnt-", "cen-"])),
            "i": draw(st.integers(0, max(30, N)))}


def t_results(ctx, c):
    n, k, m = c["n"], c["k"], c["m"]
    A = {"asg": list(c["asg"]), "cnt": [c["asg"].count(i) for i in range(k)], "cen": list(hash01(k * m, c["salt"]))}
    B = {q: list(v) for q, v in A.items()}
    d = c["d"]

    def bump(v):
        """One changed entry: a count or assignment by a whole amount, a real value by as little as a rounding error."""
        i, by = c["i"] % len(v), c["by"]
        v[i] += by if isinstance(v[i], float) else max(1, int(by))
    if d != "same":
        q = B[d[:3]]
        if d.endswith("+"): q.append(0)
        elif d.endswith("-"): q.pop()
        else: bump(q)
    g = ctx.call("result_eq", **{q + "0": v for q, v in A.items()}, **{q + "1": v for q, v in B.items()})
    e = float(d == "same")
    if g["status"] != "ok" or list(g["t"]) != [e, e, 1.0]:
        raise Violation("results differing in %s compare as %s" % (d, g.get("t")), "oracle")
    h = ctx.call("result_build", nrow=n, ncol=m, k=k, **A)
    for p in ("0.", "1."):
        if [int(h[p + x]) for x in ("nrow", "ncol", "iters", "k")] != [n, m, 9, k] or \
                any(list(h[p + q]) != [float(x) for x in A[q]] for q in A):
            raise Violation("a result does not hold what it was built from")
    # mixtures
    H = [n, m, 5, k, m]
    G = {"h": H, "m": A["cen"], "r": A["asg"], "g": A["cnt"], "c": list(hash01(m * k, c["salt"] + 3))}
    F = {q: list(v) for q, v in G.items()}
    w = "hmrgc"[c["i"] % 5] if d != "same" else None
    if w == "h": F["h"][c["i"] % 4] += 1
    elif w == "c" and d.endswith("-"): F["c"] = F["c"][:-m]
    elif w:
        if d.endswith("+") and w != "c": F[w].append(1)
        elif d.endswith("-"): F[w].pop()
        else: bump(F[w])
    g = ctx.call("gmm_eq", **{q + "0": v for q, v in G.items()}, **{q + "1": v for q, v in F.items()})
    e = float(G == F)
    if g["status"] != "ok" or list(g["t"]) != [e, e, 1.0]:
        raise Violation("mixtures differing in %s compare as %s" % (w, g.get("t")))
    return True, [d]


@st.composite
def pows(draw):
    return {"k": draw(st.lists(st.one_of(st.integers(1, 70), st.integers(1, 1 << 20), st.builds(lambda e, d: max(1, (1 << e) + d), st.integers(0, 30), st.integers(-1, 1))), min_size=1, max_size=12)),
            "d": draw(st.lists(st.integers(0, 100), max_size=12)), "n": draw(st.integers(1, 1000)), "m": draw(st.integers(1, 20)), "kk": draw(st.integers(1, 30))}


def t_pows(ctx, c):
    g = ctx.call("pow2", k=c["k"], d=c["d"], nrow=c["n"], ncol=c["m"], kk=c["kk"])
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    for k, (ce, fl, mx) in zip(c["k"], g["t"].reshape(-1, 3)):
        f = 1 << (k.bit_length() - 1)
        want = (f if f == k else 2 * f, f, 2 * f - 1)
        if (ce, fl, mx) != want:
            raise Violation("k=%d: next power %d, previous power %d, nodes %d; expected %s" % (k, ce, fl, mx, want))
    b = 2 * sum(c["d"]) + np.log(c["n"]) * c["m"] * c["kk"]
    if abs(g["bic"][0] - b) > 1e-9 * (1 + abs(b)):
        raise Violation("information criterion %.12g, formula gives %.12g" % (g["bic"][0], b))
    return True, []


D_ = ("fast", "ds")
S = lambda *a: Sub(*a, build=D_)
SUBS = [S("map", maps(), t_map, 5000, 80000), S("bools", bools(), t_bools, 2500, 40000), S("ids", idhist(), t_ids, 2500, 40000),
        S("remap", remaps(), t_remap, 2000, 30000), S("equal", eqs(), t_eq, 2000, 30000),
        S("results", results(), t_results, 2000, 30000), S("powers", pows(), t_pows, 1000, 10000),
        S("map-large", maps(300, 200), t_map, 400, 8000), S("bools-large", bools(70000), t_bools, 150, 3000),
        S("ids-large", idhist(400), t_ids, 200, 4000), S("remap-large", remaps(300, 20), t_remap, 300, 6000),
        S("equal-large", eqs(2000), t_eq, 300, 6000), S("results-large", results(300, 100, 9), t_results, 500, 8000)]
