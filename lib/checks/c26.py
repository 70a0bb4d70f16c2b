from common import *
from vlib import Sub, hash01
from hier import ad_statistic, ad_critical

RULE = ("A case is a sample of 2..20000 values (normal-like, uniform, skewed, two-humped, heavy-tailed, with ties and outliers, shifted and scaled); "
        "statistic and critical values are compared with the formula evaluated with a log-cdf, and the statistic must not "
        "change with order, shift or scale. Non-trivial when the sample is not constant and has >=4 values.")
ASSUMPTIONS = ["tolerance 1e-9 relative plus the conditioning of the sample's spread", "a constant sample has no statistic"]


@st.composite
def cases(draw, hi=60):
    return {"n": draw(st.integers(2, hi)), "kind": draw(st.sampled_from(["normal", "uniform", "skew", "two", "heavy", "ties", "outlier", "ramp"])),
            "salt": draw(st.integers(0, 1 << 24)), "b": draw(st.binary(max_size=12)).hex(),
            "e": draw(st.integers(-20, 20)), "sh": draw(st.integers(-100, 100))}


def sample(c):
    n, s = c["n"], c["salt"]
    u = hash01(n, s)
    k = c["kind"]
    if k == "normal": x = sum(hash01(n, s + i) for i in range(12)) - 6
    elif k == "uniform": x = u
    elif k == "skew": x = -np.log(1 - u)
    elif k == "two": x = np.where(u < .5, u, u + 5)
    elif k == "heavy": x = np.tan(3.1 * (u - .5))
    elif k == "ties": x = np.floor(u * 4)
    elif k == "outlier":
        x = u.copy(); x[0] = 200.0
    else: x = np.arange(n) + 0.0
    b = np.frombuffer(bytes.fromhex(c["b"]), np.uint8)[:n]
    x = np.array(x, float)
    x[:len(b)] += b / 128
    return x


def t_ad(ctx, c):
    x = sample(c)
    n = len(x)
    g = ctx.call("ad", x=x)
    if g["status"] != "ok":
        raise Violation("raised " + g["status"], "crash")
    crit = [ad_critical(n, i) for i in range(5)]
    if g["crit"].size != 5 or not np.allclose(g["crit"], crit, rtol=1e-12):
        raise Violation("critical values for %d samples are %s, formula gives %s" % (n, g["crit"], crit))
    if not np.array_equal(np.sort(g["x"]), np.sort(x)):
        raise Violation("the sample's values changed")
    if np.ptp(x) == 0:
        return False, ["constant"]
    if np.ptp(x) < 1e-6 * np.abs(x).max():
        return False, ["narrow"]
    w = ad_statistic(x)
    tol = 1e-9 * (1 + abs(w)) * (1 + np.abs(x).max() / x.std())
    got = g["stat"][0]
    if not abs(got - w) <= tol:
        raise Violation("statistic of %s is %.12g, formula gives %.12g" % (x[:20].tolist(), got, w))
    # order, shift and scale do not matter
    y = x[np.argsort(hash01(n, c["salt"] + 99))] * 2.0 ** c["e"]
    y = y + c["sh"] * (y.max() - y.min())
    g2 = ctx.call("ad", x=y)
    w2 = g2["stat"][0]
    if not abs(w2 - got) <= 1e-6 * (1 + abs(got)):
        raise Violation("statistic changes from %.12g to %.12g under shuffle, shift and scale" % (got, w2))
    z = ctx.call("ad", x=-x)["stat"][0]
    if not abs(z - got) <= 1e-7 * (1 + abs(got)):
        raise Violation("statistic of the mirrored sample is %.12g, of the sample %.12g" % (z, got))
    return n >= 4, [c["kind"]]


D_ = ("fast", "ds")
SUBS = [Sub("small", cases(), t_ad, 4000, 60000, build=D_), Sub("large", cases(400), t_ad, 1600, 20000, build=D_),
        # the extreme value's probability goes through the subnormals to zero
        Sub("tail", st.builds(lambda c, n: dict(c, kind="outlier", n=n), cases(), st.integers(1300, 1700)), t_ad, 240, 4000, build=D_),
        Sub("huge", cases(20000), t_ad, 160, 3000, build=D_)]
