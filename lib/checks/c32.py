import collections
import os
from common import *
from vlib import Sub, Violation, hash01

RULE = ("Histories of up to 80 operations (counting, merging, closing an iteration, reading) on 1-3 pruning statistics; activation "
        "counts of 1-40 threads over several iterations, also counted concurrently; activity of up to 300 rows over up to 40 "
        "iterations, written raw and grouped. Answers and files must equal a plain count. Non-trivial when something was counted "
        "and an iteration was closed, or rows differ.")
ASSUMPTIONS = ["no more prunings are counted than there are row-cluster pairs, as the class asserts",
               "every row reports its activity once per iteration; percentages are read after an iteration was closed"]
NAMES = range(5)


@st.composite
def prunings(draw, big=False):
    N = draw(st.integers(1, 3))
    ops = draw(st.lists(st.tuples(st.sampled_from([0, 0, 1, 2, 3, 4, 4, 5, 6, 6, 7, 8]), st.integers(0, N - 1),
                                  st.one_of(st.integers(-1, 9), st.integers(0, 1 << (34 if big else 6)))), max_size=80))
    return {"objs": N, "nrow": draw(st.integers(1, (1 << 40) if big else 100)), "k": draw(st.integers(1, 1000 if big else 20)),
            "ops": [list(o) for o in ops]}


def t_prunings(ctx, c):
    N, cap = c["objs"], c["nrow"] * c["k"]
    cur, tot, its = [[0] * 5 for _ in range(N)], [[0] * 5 for _ in range(N)], [0] * N
    want, prog, closed = [], [], False
    for op, o, v in c["ops"] + [[q, o, 0] for o in range(N) for q in (8, 6, 7)]:
        if op < 5:
            v = min(v, cap // 3)
            d = (1 if v < 0 else v) if op == 0 else 1
            if sum(cur[o]) + d > cap:
                continue
            cur[o][op] += d
        elif op == 5:
            v = abs(v) % N
            if sum(cur[o]) + sum(cur[v]) > cap:
                continue
            cur[o] = [a + b for a, b in zip(cur[o], cur[v])]
        elif op == 6:
            closed = closed or sum(cur[o]) > 0
            its[o] += 1
            tot[o] = [a + b for a, b in zip(tot[o], cur[o])]
            cur[o] = [0] * 5
        elif op == 7:
            if not its[o]:
                continue
            want += [100.0 * x / (cap * its[o]) for x in tot[o] + [sum(tot[o])]]
        else:
            want += cur[o]
        prog += [op, o, v]
    g = ctx.call("prunestats", objs=N, nrow=c["nrow"], k=c["k"], prog=prog)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    t = list(g["t"])
    if len(t) != len(want) or any(abs(p - q) > 1e-12 * abs(q) for p, q in zip(t, want)):
        raise Violation("statistics %s, counting gives %s" % (t[:40], want[:40]))
    return closed and bool(want), ["objs=%d" % N]


@st.composite
def activations(draw):
    T, I = draw(st.one_of(st.integers(1, 8), st.integers(1, 40))), draw(st.integers(0, 8))
    par = draw(st.integers(0, 1))
    return {"T": T, "par": par, "per": draw(st.lists(st.integers(0, 3000 if par else 60), min_size=T * I, max_size=T * I))}


def t_activation(ctx, c):
    T = c["T"]
    g = ctx.call("activation", T=T, per=c["per"], par=c["par"])
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    want = [sum(c["per"][i:i + T]) for i in range(0, len(c["per"]), T)]
    if list(g["t"]) != want:
        raise Violation("activations per iteration %s, expected %s" % (list(g["t"]), want))
    return len(want) >= 2 and sum(want) > 0, ["par" if c["par"] else "seq"]


@st.composite
def activity(draw, n=20, I=8):
    return {"n": draw(st.one_of(st.integers(n // 4, n), st.integers(1, n))), "I": draw(st.one_of(st.integers(3, I), st.integers(1, I))), "salt": draw(st.integers(0, 1 << 20)),
            "dense": draw(st.sampled_from([.5, .5, .9, .1, 0, 1])), "groups": draw(st.integers(1, 8)),
            "rows": draw(st.one_of(st.just(1 << 20), st.integers(n // 2, n), st.integers(0, n)))}


def t_activity(ctx, c):
    n, I = c["n"], c["I"]
    B = hash01(I * n, c["salt"]).reshape(I, n) < c["dense"]
    if c["groups"] < 8:                        # rows that behave alike
        B = B[:, np.arange(n) % c["groups"]]
    raw, cons = ctx.tmp("raw"), ctx.tmp("cons")
    g = ctx.call("activity", n=n, b=B.astype(float), order=np.argsort(hash01(n, c["salt"] + 1)), raw=raw, cons=cons, rows=c["rows"])
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    A = np.vstack([np.zeros((1, n), bool), B[:-1]]) & B            # active now and in the iteration before
    p = min(n, c["rows"])
    R = open(raw).read()
    C = open(cons).read()
    os.unlink(raw), os.unlink(cons)
    line = lambda h, v: ", ".join([str(h)] + [str(int(x)) for x in v]) + "\n"
    w = "".join(line(r, A[:, r]) for r in range(p))
    if R != w:
        raise Violation("raw activity %r, expected %r" % (R[:200], w[:200]))
    cnt = collections.Counter(tuple(A[:, r]) for r in range(p))
    w = "".join(line(cnt[v], v) for v in sorted(cnt))
    if sorted(C.splitlines()) != sorted(w.splitlines()):
        raise Violation("grouped activity %r, expected %r" % (C[:200], w[:200]))
    return len(cnt) >= 2, ["all" if p == n else "some"]


D_ = ("fast", "ds")
S = lambda *a: Sub(*a, build=D_)
SUBS = [S("prunings", prunings(), t_prunings, 3000, 40000), S("prunings-large", prunings(True), t_prunings, 1500, 20000),
        S("activation", activations(), t_activation, 1000, 10000), S("activity", activity(), t_activity, 2000, 30000),
        S("activity-large", activity(300, 40), t_activity, 300, 5000)]
