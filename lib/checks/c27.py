from common import *
from vlib import Sub

RULE = ("A case is a range, seed, process count 1..12 and length; the streams of all processes interleaved, and every skipped-"
        "ahead stream, must equal the serial stream, which stays in the range. Non-trivial with >=2 processes or a positive skip "
        "and a range of >=2 values.")
ASSUMPTIONS = ["the range of a generator is at least one value wide"]


@st.composite
def cases(draw, n=40, P=12, skip=300):
    b = draw(st.one_of(st.just(0), st.integers(0, 1000), st.integers(0, (1 << 31) - 2)))
    w = draw(st.one_of(st.integers(0, 20), st.integers(0, 100000), st.sampled_from([2147483645, 2147483646, 1 << 30]),
                       st.integers(0, (1 << 32) - 1)))
    wide = draw(st.integers(0, 1))
    e = b + w if wide else min(b + w, (1 << 32) - 1)
    return {"b": b, "e": e, "wide": wide, "seed": draw(st.one_of(st.just(1234), st.integers(0, 1 << 31))),
            "n": draw(st.integers(1, n)), "P": draw(st.integers(1, P)), "kind": draw(st.integers(0, 1)),
            "skips": draw(st.lists(st.integers(0, skip), min_size=1, max_size=5))}


def t_streams(ctx, c):
    n, P = c["n"], c["P"]
    g = ctx.call("rng", b=c["b"], e=c["e"], wide=c["wide"], seed=c["seed"], n=n, P=P, kind=c["kind"], skips=c["skips"],
                 defseed=1 if c["seed"] == 1234 else 0)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    t = g["t"]
    if (c["seed"] == 1234):
        t, d = t[:-2 * n], t[-2 * n:]
        if d.any():
            raise Violation("default-seeded generators differ from the seed 1234 stream")
    if c["kind"] == 0:
        parts, serial = t[:P * n].reshape(P, n), t[P * n:]
        got = parts.T.ravel()
        if not np.array_equal(got, serial):
            i = int(np.argmax(got != serial))
            raise Violation("draw %d of process %d is %d, serial stream has %d" % (i // P, i % P, got[i], serial[i]))
    else:
        k = len(c["skips"])
        parts, serial = t[:k * n].reshape(k, n), t[k * n:]
        for s, p in zip(c["skips"], parts):
            if not np.array_equal(p, serial[s:s + n]):
                raise Violation("stream skipped by %d differs from the serial stream" % s)
    if (t < c["b"]).any() or (t > c["e"]).any():
        raise Violation("a draw lies outside [%d,%d]" % (c["b"], c["e"]))
    if c["e"] - c["b"] >= 1000 and len(serial) >= 12 and len(set(serial)) < 3:
        raise Violation("the stream is constant")
    return (P >= 2 if c["kind"] == 0 else max(c["skips"]) > 0) and c["e"] > c["b"], ["k%d" % c["kind"]]


SUBS = [Sub("streams", cases(), t_streams, 6000, 80000, build=("fast", "ds")),
        Sub("streams-long", cases(3000, 70, 70000), t_streams, 300, 6000, build=("fast", "ds"))]
