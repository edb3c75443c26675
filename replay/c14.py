"""Bounded search for C14: each column of a binning process against the transform of the variable's own binning."""
import os, shutil, tempfile
import numpy as np, pandas as pd
from replay.util import *
from optbinning import BinningProcess, OptimalBinning, OptimalPWBinning

RULE = ("about twenty fitted processes (2 to 5 variables, numerical and categorical, binary / continuous / multiclass target, missing and special values, selection criteria, piecewise variables), "
        "random per-variable transform parameters and call arguments, array, data frame with columns in another order, and csv chunks; distinct = distinct inputs")
FITTED = {}


def cases(rng, tier):
    while True:
        n = 5
        par = {}
        num = rng.random() < .7
        mets = [None, "woe", "event_rate", "indices"] if num else ["bins"]
        for i in range(n):
            e = {}
            if rng.random() < .4: e["metric"] = rng.choice(mets)
            if rng.random() < .4: e["metric_special"] = rng.choice([-7, 3, "empirical", 0])
            if rng.random() < .4: e["metric_missing"] = rng.choice([-5, 2, "empirical", 0])
            if rng.random() < .4: e["show_digits"] = rng.choice([1, 3, 4])
            if e: par[i] = e
        yield {"fit": rng.randint(0, 19), "par": par if rng.random() < .8 else None, "metric": rng.choice(mets), "sp": rng.choice([0, 11, "empirical"]), "ms": rng.choice([0, 13, "empirical"]), "dg": rng.choice([2, 0, 5]),
               "via": rng.choice(["frame", "frame", "array", "disk"]), "seed": rng.randint(0, 10 ** 6)}


def data(rs, k, n, cat):
    X = pd.DataFrame({"v%d" % j: np.where(rs.rand(n) < .1, np.nan, np.where(rs.rand(n) < .1, -99.0, np.round(rs.normal(0, 1, n), 2))) for j in range(k)})
    if cat: X["v1"] = rs.choice(["a", "b", "c", "d"], n)
    return X[["v%d" % j for j in rs.permutation(k)]]


def fitted(i):
    if i in FITTED: return FITTED[i]
    rs = np.random.RandomState(i); k = rs.randint(2, 6); n = 120
    cat, dt, pw = i % 4 == 1, ["binary", "binary", "continuous", "multiclass"][i % 4], i % 4 == 0 and i % 8 == 4
    X = data(rs, k, n, cat)
    s = X["v0"].fillna(.5).clip(-2) + rs.normal(0, 1, n)
    y = {"binary": (s > 0).astype(int).values, "continuous": s.values, "multiclass": np.digitize(s, [-.5, .6])}[dt]
    names = list(X.columns)
    crit = None if i % 3 else {{"binary": "iv", "continuous": "quality_score", "multiclass": "js"}[dt]: {"strategy": "highest", "top": max(1, k - 1)}}
    p = BinningProcess(names, categorical_variables=["v1"] if cat else None, special_codes=[-99.0], max_n_prebins=5, selection_criteria=crit)
    p.fit(X, y)
    if pw:
        o = OptimalPWBinning(name="v1", special_codes=[-99.0], max_n_prebins=4)
        o.fit(X["v1"].values, y)
        p.update_binned_variable("v1", o); p.summary()
    FITTED[i] = (p, names, k, cat, dt, pw)
    return FITTED[i]


def check(c):
    R = Rep()
    try: p, names, k, cat, dt, pw = fitted(c["fit"])
    except Exception: return None
    rs = np.random.RandomState(c["seed"]); n = rs.randint(1, 15)
    X = data(rs, k, n, cat)
    if cat and c["via"] == "array": return None
    pwn = {"v1"} if pw else set()
    def ok(m): return {None: None, "woe": "woe" if dt == "binary" else "mean" if dt == "continuous" else "mean_woe", "event_rate": "event_rate" if dt == "binary" else "mean" if dt == "continuous" else "weighted_mean_woe"}.get(m, m)
    metric = ok(c["metric"])
    par = None
    if c["par"] is not None:
        par = {}
        for i, e in c["par"].items():
            if int(i) < k: par["v%d" % int(i)] = dict(e, **({"metric": ok(e["metric"])} if "metric" in e else {}))
    get = lambda nm, key, d: ((par or {}).get(nm) or {}).get(key, d)
    if pw and (metric in ("indices", "bins") or any(get(q, "metric", metric) in ("indices", "bins") for q in pwn)): return None
    sel = list(p.get_support(names=True))
    ms = {get(q, "metric", metric) for q in sel}
    if "bins" in ms and (len(ms) > 1 or metric != "bins"): return None
    p.binning_transform_params = par
    want = []
    for nm in sel:
        o = p.get_binned_variable(nm)
        R.true("binning of the variable", o.name == nm, "%s %s" % (o.name, nm))
        a = {"metric_special": get(nm, "metric_special", c["sp"]), "metric_missing": get(nm, "metric_missing", c["ms"])}
        m = get(nm, "metric", metric)
        if m is not None: a["metric"] = m
        if nm not in pwn: a["show_digits"] = get(nm, "show_digits", c["dg"])
        try: want.append(np.asarray(o.transform(X[nm].values, **a)))
        except Exception: return None
    kw = {"metric_special": c["sp"], "metric_missing": c["ms"], "show_digits": c["dg"]}
    if metric is not None: kw["metric"] = metric
    if c["via"] == "frame":
        Z = X[list(rs.permutation(X.columns))]; Z.index = rs.permutation(n) + 5
        out, ex = guarded(lambda: p.transform(Z, **kw), "transform")
        if ex: return ex
        R.true("columns", list(out.columns) == sel, "%s %s" % (list(out.columns), sel)); R.true("index", list(out.index) == list(Z.index))
        got = [out.iloc[:, i].values for i in range(len(sel))]
    elif c["via"] == "array":
        out, ex = guarded(lambda: p.transform(X[names].values, **kw), "transform")
        if ex: return ex
        got = [out[:, i] for i in range(out.shape[1])]
    else:
        d = tempfile.mkdtemp(prefix="c14")
        try:
            X.to_csv(d + "/i.csv", index=False)
            _, ex = guarded(lambda: p.transform_disk(d + "/i.csv", d + "/o.csv", int(rs.randint(1, n + 2)), **kw), "transform_disk")
            if ex: return ex
            out = pd.read_csv(d + "/o.csv", dtype=str if "bins" in ms else None)
        finally: shutil.rmtree(d, ignore_errors=True)
        R.true("columns", list(out.columns) == sel, "%s %s" % (list(out.columns), sel))
        got = [out.iloc[:, i].values for i in range(out.shape[1])]
    R.true("number of columns", len(got) == len(want))
    for nm, g, w in zip(sel, got, want):
        if "bins" in ms: R.true("values of a variable", [str(t) for t in g] == [str(t) for t in w], "%s got %s want %s" % (nm, short(g), short(w)))
        else: R.eq("values of a variable", g, w, nm)
    return R.res()
