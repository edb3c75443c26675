"""Bounded search for C04: the divergences and scores of binning/metrics.py against their definitions."""
import math
import numpy as np
from scipy import stats
from replay.util import *

RULE = "random vectors of 1..8 positive shares (or counts), p-values, ratios; distinct = distinct argument tuples"
DIV = {"jeffrey": lambda x, y: xlogy(x - y, x / y),
       "kullback_leibler": lambda x, y: xlogy(x, x / y),
       "jensen_shannon": lambda x, y: .5 * (xlogy(x, 2 * x / (x + y)) + xlogy(y, 2 * y / (x + y))),
       "hellinger": lambda x, y: .5 * (math.sqrt(x) - math.sqrt(y)) ** 2,
       "triangular": lambda x, y: (x - y) ** 2 / (x + y)}
C = 0.39573882184806863


def share(rng, n):
    v = [rng.choice([1, 2, 3, 5, 10, 100, 1000, rng.random() + 1e-3]) for _ in range(n)]
    return [a / sum(v) for a in v] if rng.random() < .7 else v


def cases(rng, tier):
    while True:
        n = rng.randint(1, 8)
        x, y = share(rng, n), share(rng, n)
        if rng.random() < .1: y = list(x)
        k = rng.random()
        if k < .35: yield {"f": rng.choice(list(DIV)), "x": x, "y": y, "aslist": rng.random() < .3}
        elif k < .5:
            z = lambda: [rng.choice([0, 0, 1, 2, 3, 7, 20, 150]) for _ in range(n)]
            e, ne = z(), z()
            if sum(e) and sum(ne): yield {"f": "gini", "x": e, "y": ne}
        elif k < .6: yield {"f": "entropy", "x": x if rng.random() < .7 else [0.0] + x}
        elif k < .7: yield {"f": "hhi", "x": x, "norm": rng.random() < .5}
        elif k < .85:
            yield {"f": "score", "kind": rng.choice(["binary", "multi", "cont"]), "iv": rng.choice([0, 1e-3, .1, .4, .9, 1., 1.5, 5.]),
                   "k": rng.randint(2, 6), "p": [rng.random() for _ in range(rng.randint(0, 4))], "h": rng.random()}
        elif k < .92: yield {"f": "prop", "v": [rng.randint(1, 60) for _ in range(4)]}
        elif k < .97:
            c = rng.randint(2, 4)
            X = np.array([[rng.randint(1, 50) for _ in range(c)] for _ in range(n)], dtype=float)
            X = X / X.sum(axis=0)
            w = None if rng.random() < .5 else ([.5, .25, .125, .125][:c - 1] + [0])
            if w is not None: w[-1] = 1 - sum(w[:-1])
            yield {"f": "jsm", "X": X.tolist(), "w": w}
        else:
            yield {"f": "cramer", "a": [rng.randint(1, 60) for _ in range(max(2, n))], "b": [rng.randint(1, 60) for _ in range(max(2, n))]}


def gini_def(e, ne):
    """1 - 2 AUC-type area: bins ordered by non-event rate, empty bins ignored"""
    b = [(a, c) for a, c in zip(e, ne) if a + c > 0]
    if len(b) <= 1: return 0
    te, tn = sum(a for a, _ in b), sum(c for _, c in b)
    # pairs (event in bin i, non-event in bin j): 1 if rate i < rate j ... Gini = concordant - discordant, independent of ties
    g = 0.0
    for i, (ei, ni) in enumerate(b):
        for j, (ej, nj) in enumerate(b):
            ri, rj = ni / (ei + ni), nj / (ej + nj)
            if ri < rj: g += ei * nj
            elif ri > rj: g -= ei * nj
    return g / (te * tn)


def check(c):
    from optbinning.binning import metrics as m
    R = Rep()
    f = c["f"]
    if f in DIV:
        x, y = (c["x"], c["y"]) if c.get("aslist") else (np.array(c["x"], float), np.array(c["y"], float))
        d = [DIV[f](a, b) for a, b in zip(c["x"], c["y"])]
        t = getattr(m, f)(x, y)
        R.eq(f + " terms", t, d, abs_=1e-12)
        R.eq(f + " sum", getattr(m, f)(x, y, return_sum=True), sum(d), abs_=1e-12)
        if f != "kullback_leibler":
            R.true(f + " nonnegative", (np.asarray(t) >= -1e-12).all(), short(t))
            R.eq(f + " symmetric", getattr(m, f)(y, x), t, abs_=1e-12)
            if c["x"] == c["y"]: R.true(f + " zero", np.allclose(t, 0, atol=1e-12), short(t))
    elif f == "gini":
        g = gini_def(c["x"], c["y"])
        r = m.gini(np.array(c["x"]), np.array(c["y"]))
        # ties in the rate make 1 - sum e(ne+2cum)/.. agree as well: within-tie contributions cancel on average only for equal rates
        R.eq("gini", r, g, abs_=1e-9)
    elif f == "entropy": R.eq("entropy", m.entropy(np.array(c["x"], float)), entropy(c["x"]), abs_=1e-12)
    elif f == "hhi":
        h = sum(v * v for v in c["x"])
        n = len(c["x"])
        if c["norm"]: h = 1 if n == 1 else (h - 1 / n) / (1 - 1 / n)
        R.eq("hhi", m.hhi(c["x"], c["norm"]), h)
    elif f == "score":
        s2 = 1.0
        for p in c["p"]: s2 *= 1 - p
        q = lambda iv: iv * math.exp(.5 * (1 - (iv / C) ** 2)) / C
        k, iv, h = c["kind"], c["iv"], c["h"]
        if k == "binary": R.eq("quality score", m.binning_quality_score(iv, c["p"], h), q(iv) * s2 * (1 - h), abs_=1e-12)
        elif k == "multi": R.eq("multiclass quality score", m.multiclass_binning_quality_score(iv, c["k"], c["p"], h),
                                q(iv / math.log(c["k"])) * s2 * (1 - h), abs_=1e-12)
        else: R.eq("continuous quality score", m.continuous_binning_quality_score(iv, c["p"], h),
                   (0 if iv == 0 else max(1 - 1 / iv, 0)) * s2 * (1 - h), abs_=1e-12)
    elif f == "prop":
        e1, n1, e2, n2 = c["v"]
        a, b = e1 + n1, e2 + n2
        p = (e1 + e2) / (a + b)
        z = abs((e1 / a - e2 / b) / math.sqrt(p * (1 - p) * (1 / a + 1 / b)))
        s, pv = m.test_proportions(e1, n1, e2, n2)
        R.eq("proportions z", s, z); R.eq("proportions p", pv, math.erfc(z / math.sqrt(2)), abs_=1e-9)
        o = np.array([[e1, n1], [e2, n2]])
        s, pv = m.frequentist_pvalue(o, "chi2")
        R.eq("chi2 stat", s, z * z); R.eq("chi2 p", pv, math.erfc(z / math.sqrt(2)), abs_=1e-9)
        s, pv = m.frequentist_pvalue(o, "fisher")
        R.eq("fisher", pv, stats.fisher_exact(o)[1])
    elif f == "jsm":
        X = np.array(c["X"])
        k = X.shape[1]
        w = c["w"] or [1 / k] * k
        want = entropy([sum(w[j] * X[i, j] for j in range(k)) for i in range(len(X))]) - sum(w[j] * entropy(X[:, j]) for j in range(k))
        R.eq("jensen_shannon_multivariate", m.jensen_shannon_multivariate(X, c["w"]), want, abs_=1e-10)
    elif f == "cramer":
        a, b = np.array(c["a"]), np.array(c["b"])
        N = a.sum() + b.sum()
        t = 0.0
        for i in range(len(a)):
            for row in (a, b):
                ex = (a[i] + b[i]) * row.sum() / N
                t += (row[i] - ex) ** 2 / ex
        s, v = m.chi2_cramer_v(a, b)
        R.eq("cramer chi2", s, t); R.eq("cramer v", v, math.sqrt(t / N))
        s, v = m.chi2_cramer_v_multi(np.array([a, b]).T)
        R.eq("cramer multi chi2", s, t); R.eq("cramer multi v", v, math.sqrt(t / N))
    return R.res()
