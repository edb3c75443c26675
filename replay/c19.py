"""Bounded search for C19: the detectors against a restatement of their rules, record by record."""
import numpy as np, math
from replay.util import *
from optbinning.binning.outlier import RangeDetector, ModifiedZScoreDetector, YQuantileDetector

RULE = ("random samples of 1 to 200 records (ties, integers, skewed, constant, outliers), interval lengths in [0, 1], k, thresholds, numbers of bins; "
        "the support of each detector against its rule; distinct = distinct inputs")


def sample(rs, n, t):
    if t == "normal": x = rs.normal(0, 1, n)
    elif t == "int": x = rs.randint(-5, 6, n).astype(float)
    elif t == "exp": x = np.exp(rs.normal(0, 2, n))
    elif t == "const": x = np.full(n, 3.0)
    else: x = rs.normal(0, 1, n); x[rs.randint(0, n, max(1, n // 15))] *= 50
    return x


def cases(rng, tier):
    T = ["normal", "int", "exp", "const", "out", "out"]
    while True:
        yield {"kind": rng.choice(["ETI", "HDI", "z", "yq", "yq"]), "n": rng.choice([1, 2, 3, 5, 10, 20, 37, 80, 200]), "t": rng.choice(T), "ty": rng.choice(T), "seed": rng.randint(0, 10 ** 6),
               "L": rng.choice([0, .1, .3, .5, .9, .95, 1, 1.0]), "k": rng.choice([0, .5, 1.5, 3]), "thr": rng.choice([0, .5, 2, 3.5]),
               "nb": rng.choice([1, 2, 3, 5, 8]), "det": rng.choice(["zscore", "range"]), "m": rng.choice(["ETI", "HDI"]), "par": rng.random() < .7}


def rng_rule(x, L, k, m):
    n = len(x)
    if m == "ETI": lb, ub = np.percentile(x, 100 * (1 - L) / 2), np.percentile(x, 100 * (1 + L) / 2)
    else:
        s = sorted(x); w = min(math.ceil(L * n), n - 1)
        d = [s[i + w] - s[i] for i in range(n - w)]
        j = d.index(min(d)); lb, ub = s[j], s[j + w]
    q = ub - lb
    return [bool(t > ub + k * q or t < lb - k * q) for t in x]


def z_rule(x, thr):
    med = np.median(x); mad = np.median(np.abs(np.asarray(x) - med))
    # a median absolute deviation of 0: whatever differs from the median is out, the median itself is not
    return [bool(0.6745 * abs(t - med) > thr * mad) if mad > 0 else bool(t != med) for t in x]


def check(c):
    rs = np.random.RandomState(c["seed"]); x, y = sample(rs, c["n"], c["t"]), sample(rs, c["n"], c["ty"])
    R = Rep()
    with np.errstate(all="ignore"):
        if c["kind"] in ("ETI", "HDI"):
            d = RangeDetector(interval_length=c["L"], k=c["k"], method=c["kind"]); want = rng_rule(x, c["L"], c["k"], c["kind"]); f = lambda: d.fit(x)
        elif c["kind"] == "z":
            d = ModifiedZScoreDetector(threshold=c["thr"]); want = z_rule(x, c["thr"]); f = lambda: d.fit(x)
        else:
            par = (dict(threshold=c["thr"]) if c["det"] == "zscore" else dict(interval_length=c["L"], k=c["k"], method=c["m"])) if c["par"] else None
            d = YQuantileDetector(outlier_detector=c["det"], outlier_params=par, n_bins=c["nb"]); f = lambda: d.fit(x, y)
            q = sorted(set(np.quantile(x, [i / c["nb"] for i in range(c["nb"] + 1)])))[1:-1]
            b = [sum(1 for s in q if s <= t) for t in x]; want = [None] * len(x)
            for k in set(b):
                I = [i for i in range(len(x)) if b[i] == k]; v = y[I]
                w = z_rule(v, par["threshold"] if par else 3.5) if c["det"] == "zscore" else rng_rule(v, *((c["L"], c["k"], c["m"]) if par else (.5, 1.5, "ETI")))
                for i, f_ in zip(I, w): want[i] = f_
        r, ex = guarded(f, "fit %s" % c["kind"])
        if ex: return ex
        got = d.get_support()
    R.true("%s: one flag per record" % c["kind"], len(got) == len(x))
    R.true("%s: flags" % c["kind"], [bool(t) for t in got] == want, "x=%s y=%s got %s want %s" % (short(x), short(y), short(got), short(want)))
    return R.res()
