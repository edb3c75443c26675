"""Bounded search for C21: an object fitted repeatedly against fresh objects fitted once."""
import numpy as np
from replay.util import *
from replay import c02, c08

RULE = ("random histories of 2 or 3 fits of one object (binary, continuous, multiclass, scenario, piecewise, two-dimensional binnings, MDLP, "
        "possibly on other data and other parameters in between) against a fresh object; splits, counts, status, refinements, table and parameters "
        "compared; distinct = distinct inputs")


def cases(rng, tier):
    g = c08.cases(rng, tier)
    while True:
        if rng.random() < .7:
            c = next(g)
            if c["n"] > 150: continue
            c["kind"] = "1d"; c["other"] = rng.choice([None, "data", "data", "params", "nofix"]); c["s2"] = rng.randint(0, 10 ** 6); c["n2"] = rng.choice([40, 60, 150])
            yield c
        else:
            yield {"kind": rng.choice(["mdlp", "scen", "scen", "2d", "pw", "prebin"]), "seed": rng.randint(0, 10 ** 6), "n": rng.choice([60, 120]),
                   "us": rng.random() < .6, "fix": rng.random() < .6, "other": rng.choice([None, "data"]), "t": "x", "k": rng.randint(2, 6)}


def val(v):
    if isinstance(v, np.ndarray) and v.dtype != object: return v.tolist()
    if isinstance(v, (list, tuple, np.ndarray)): return [val(u) for u in v]
    return v


def state(o):
    st = {}
    for a in ("splits", "status"):
        try: st[a] = val(getattr(o, a))
        except Exception as e: st[a] = "raises " + type(e).__name__
    for a in ("_n_event", "_n_nonevent", "_n_records", "_sums", "_stds", "_n_zeros", "_n_prebins", "_n_refinements", "_solution", "_categories", "_cat_others", "_n_samples",
              "_n_event_missing", "_n_event_special"):
        if hasattr(o, a): st[a] = val(getattr(o, a))
    try: st["table"] = o.binning_table.build().astype(str).values.tolist()
    except Exception as e: st["table"] = "raises " + type(e).__name__
    return st


def eq(a, b):
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(eq(u, v) for u, v in zip(a, b))
    if isinstance(a, float) and isinstance(b, float): return close(a, b) or a != a and b != b
    return str(a) == str(b)


def params(o): return {k: val(v) for k, v in o.get_params().items()}


def fit(o, *a):
    try: o.fit(*a); return None
    except Exception as e: return "%s: %s" % (type(e).__name__, str(e)[:120])


def compare(R, nm, o, p, eo, ep, p0):
    R.true("%s: refit raises as a fresh fit does" % nm, eo == ep, "again: %s, fresh: %s" % (eo, ep))
    if eo is None and ep is None:
        a, b = state(o), state(p)
        for k in b:
            R.true("%s: same %s" % (nm, k), k in a and eq(a[k], b[k]), "again %s, fresh %s" % (short(a.get(k)), short(b[k])))


def one_worker():
    """a deterministic solver: tied optima are otherwise chosen by a race between its workers"""
    from ortools.sat.python import cp_model
    if getattr(cp_model.CpSolver, "_one", False): return
    init = cp_model.CpSolver.__init__
    def f(self, *a, **k):
        init(self, *a, **k)
        self.parameters.num_search_workers = 1
    cp_model.CpSolver.__init__ = f
    cp_model.CpSolver._one = True


def check(c):
    one_worker()
    if c["kind"] != "1d": return check_other(c)
    R = Rep()
    bl = c08.build(c)
    if bl is None: return None
    cls, kw, x, y, sw, us, fixed, T = bl
    import copy
    mk = lambda: cls(**copy.deepcopy(kw))
    args = (x.copy(), y.copy()) + (() if T == "multi" else (sw,))
    nm = {"bin": "binary", "cont": "continuous", "multi": "multiclass"}[T]
    o, p = mk(), mk()
    p0 = params(p)
    ep = fit(p, *args)
    if c["other"] in ("data", "params"):
        c2 = dict(c, seed=c["s2"], n=c["n2"])
        b2 = c08.build(c2)
        if b2 is not None:
            if c["other"] == "params": o.set_params(max_n_bins=2, special_codes=None)
            fit(o, *((b2[2].copy(), b2[3].copy()) + (() if T == "multi" else (b2[4],))))
            if c["other"] == "params": o.set_params(**copy.deepcopy({k: v for k, v in mk().get_params().items() if k in ("max_n_bins", "special_codes")}))
    elif c["other"] == "nofix" and fixed is not None:
        fit(o, *args)
        o.set_params(user_splits_fixed=None)
        p = mk(); p.set_params(user_splits_fixed=None); p0 = params(p); ep = fit(p, *args)
    else: fit(o, *args)
    eo = fit(o, *args)
    compare(R, nm, o, p, eo, ep, p0)
    return R.res()


def check_other(c):
    R = Rep()
    k = c["kind"]
    def data(seed):
        rs = np.random.RandomState(seed)
        n = c["n"]
        x = np.round(rs.normal(size=n), 1); z = np.round(rs.normal(size=n), 1)
        y = (rs.rand(n) < 1 / (1 + np.exp(-x - .5 * z))).astype(int)
        return x, z, y
    x, z, y = data(c["seed"])
    x2, z2, y2 = data(c["seed"] + 1)
    if k == "mdlp":
        from optbinning import MDLP
        o, p = MDLP(), MDLP()
        fit(p, x, y)
        for a in ([(x2, y2)] if c["other"] else []) + [(x, y), (x, y)]: fit(o, *a)
        R.true("MDLP: same splits", eq(val(o.splits), val(p.splits)), "again %s, fresh %s" % (short(o.splits), short(p.splits)))
        return R.res()
    if k == "prebin":
        from optbinning.binning.prebinning import PreBinning
        rs = np.random.RandomState(c["seed"])
        for m in ("cart", "quantile", "uniform", "mdlp"):
            o, p = [PreBinning(problem_type="classification", method=m, n_bins=c["k"], min_bin_size=1) for _ in (0, 1)]
            if fit(p, x, y): continue
            for a in ([(x2, y2)] if c["other"] else []) + [(x, y), (x, y)]: fit(o, *a)
            R.true("pre-binning %s: same splits" % m, eq(val(o.splits), val(p.splits)), "again %s, fresh %s" % (short(o.splits), short(p.splits)))
        return R.res()
    us = sorted(set(np.round(np.random.RandomState(c["seed"]).normal(size=c["k"]) * .8, 1)))
    np.random.RandomState(c["seed"]).shuffle(us)
    kw = {}
    if c["us"] and k != "2d":
        kw["user_splits"] = [float(v) for v in us]
        if c["fix"]: kw["user_splits_fixed"] = [i % 2 == 0 for i in range(len(us))]
    import copy
    if k == "scen":
        from optbinning.binning.uncertainty import SBOptimalBinning as C
        h = c["n"] // 2
        A = lambda x, y: ([x[:h], x[h:]], [y[:h], y[h:]])
        args, args2 = A(x, y), A(x2, y2)
        nm = "scenarios"
    elif k == "2d":
        from optbinning import OptimalBinning2D as C
        args, args2, nm = (x, z, y), (x2, z2, y2), "two-dimensional"
    else:
        from optbinning import OptimalPWBinning as C
        args, args2, nm = (x, y), (x2, y2), "piecewise"
    mk = lambda: C(**copy.deepcopy(kw))
    o, p = mk(), mk()
    p0 = params(p)
    ep = fit(p, *args)
    for a in ([args2] if c["other"] else []) + [args]: fit(o, *a)
    eo = fit(o, *args)
    compare(R, nm, o, p, eo, ep, p0)
    # fixed splits of the scenarios are splits of the result
    if k == "scen" and eo is None and kw.get("user_splits_fixed") and o.status in ("OPTIMAL", "FEASIBLE"):
        for s, f in zip(kw["user_splits"], kw["user_splits_fixed"]):
            if f: R.true("scenarios: a fixed split is a split of the result", any(close(s, t) for t in o.splits), "%s not in %s" % (s, short(list(o.splits))))
    return R.res()
