"""Bounded search for C10: scores against the linear predictor."""
import math
import numpy as np, pandas as pd
from replay.util import *
from optbinning import BinningProcess, Scorecard
from optbinning.scorecard.scorecard import _compute_scorecard_points, _compute_intercept_based
from sklearn.linear_model import LogisticRegression, LinearRegression

RULE = ("random tables of points for 1-4 variables, intercepts and scaling parameters through the points and intercept functions; "
        "some fitted scorecards (binary and continuous, missing and special values, refits); distinct = distinct inputs")


def cases(rng, tier):
    while True:
        yield {"kind": "fit" if rng.random() < .1 else "points", "method": rng.choice(["pdo_odds", "min_max"]), "scaling": rng.choice([None, "pdo_odds", "min_max"]), "rev": rng.random() < .5, "based": rng.random() < .5,
               "dt": rng.choice(["binary", "binary", "continuous"]), "ms": rng.choice(["empirical", 0, .7]), "mm": rng.choice(["empirical", 0, -.4]), "sp": rng.choice(["none", "list", "dict"]), "sw": rng.random() < .3,
               "nv": rng.randint(1, 4), "arr": rng.random() < .5, "refit": rng.random() < .5, "seed": rng.randint(0, 10 ** 6)}


def params(rs, m):
    if m == "pdo_odds": return {"pdo": float(rs.uniform(5, 50)), "odds": float(rs.uniform(.05, 60)), "scorecard_points": float(rs.uniform(1, 900))}
    a = int(rs.randint(-300, 400)); return {"min": a, "max": a + int(rs.randint(1, 800))}


def laws(R, method, pm, rev, lp, sc, lo=None, hi=None, lab=""):
    """lp: linear predictors; sc: their scores; lo, hi: smallest and largest predictor"""
    if method == "pdo_odds":
        F = pm["pdo"] / math.log(2); O = pm["scorecard_points"] - F * math.log(pm["odds"])
        R.eq("pdo_odds law", sc, O + (F if rev else -F) * lp, lab, rel=1e-7)
    elif method == "min_max":
        a, b = pm["min"], pm["max"]; t = (lp - lo) / (hi - lo)
        R.eq("min_max law", sc, a + (b - a) * (t if rev else 1 - t), lab, rel=1e-7)


def check(c):
    R = Rep(); rs = np.random.RandomState(c["seed"])
    if c["kind"] == "points":
        bts = [pd.DataFrame({"Variable": "v%d" % j, "Points": rs.normal(0, 2, rs.randint(2, 7))}) for j in range(c["nv"])]
        df = pd.concat(bts); I = rs.normal(0, 3); pm = params(rs, c["method"])
        new, ex = guarded(lambda: _compute_scorecard_points(df["Points"], bts, c["method"], pm, np.array([I]) if c["arr"] else I, c["rev"]), "points")
        if ex: return ex
        new = np.asarray(new); off = np.cumsum([0] + [len(b) for b in bts])
        rows = np.array([[rs.randint(off[j], off[j + 1]) for j in range(c["nv"])] for _ in range(20)])
        P = df.Points.values; ext = lambda f: np.array([[off[j] + f(P[off[j]:off[j + 1]]) for j in range(c["nv"])]])
        rows = np.vstack([rows, ext(np.argmin), ext(np.argmax)])
        lp = P[rows].sum(axis=1) + I; sc = new[rows].sum(axis=1)
        laws(R, c["method"], pm, c["rev"], lp, sc, lp[-2], lp[-1])
        d2 = df.copy(); d2["Points"] = new
        r, ex = guarded(lambda: _compute_intercept_based(d2), "intercept based")
        if ex: return ex
        q, ic = r
        R.eq("intercept based totals", q[rows].sum(axis=1) + ic, sc, rel=1e-7)
        for j in range(c["nv"]): R.eq("smallest points are zero", float(np.min(q[off[j]:off[j + 1]])), 0.)
        return R.res()
    n = 240; nv = c["nv"]; dt = c["dt"]
    if c["scaling"] == "pdo_odds": dt = "binary"
    X = pd.DataFrame({"v%d" % j: np.round(rs.normal(0, 1, n), 2) for j in range(nv)})
    for j in range(nv):
        X.loc[rs.rand(n) < .08, "v%d" % j] = np.nan; X.loc[rs.rand(n) < .06, "v%d" % j] = -9.; X.loc[rs.rand(n) < .06, "v%d" % j] = -8.
    z = X.fillna(.5).sum(axis=1) + rs.normal(0, 1, n); y = (z > np.median(z)).astype(int).values if dt == "binary" else z.values
    sp = {"none": None, "list": [-9., -8.], "dict": {"s9": [-9.], "s8": [-8.]}}[c["sp"]]
    pm = params(rs, c["scaling"]) if c["scaling"] else None
    try:
        sc = Scorecard(BinningProcess(list(X.columns), special_codes=sp), LogisticRegression() if dt == "binary" else LinearRegression(), scaling_method=c["scaling"], scaling_method_params=pm,
                       intercept_based=c["based"] or c["refit"], reverse_scorecard=c["rev"])
        kw = dict(metric_special=c["ms"], metric_missing=c["mm"])
        if c["sw"] and dt == "binary": kw["sample_weight"] = rs.randint(1, 4, n).astype(float)
        sc.fit(X, y, **kw)
        if c["refit"]: sc.set_params(intercept_based=c["based"]); sc.fit(X, y, **kw)
    except Exception as e:
        return guarded(lambda: (_ for _ in ()).throw(e), "fit")[1]
    (s, lp), ex = guarded(lambda: (sc.score(X), sc.decision_function(X) if dt == "binary" else sc.predict(X)), "score")
    if ex: return ex
    lp = np.asarray(lp).ravel(); I = float(np.ravel(sc.estimator_.intercept_)[0]); t = sc.table("detailed"); M = "WoE" if dt == "binary" else "Mean"
    tot = float(np.ravel(sc.intercept_)[0])
    if not c["based"]: R.eq("no intercept", tot, 0.)
    raw = t["Coefficient"].values * t[M].values.astype(float); ns = len(sp) if c["sp"] == "dict" else 1
    lo = hi = I; mn = mx = tot
    for v in pd.unique(t.Variable):
        k = np.flatnonzero(t.Variable.values == v); cf = t.Coefficient.values[k[0]]
        if c["ms"] != "empirical": raw[k[-1 - ns:-1]] = cf * c["ms"]
        if c["mm"] != "empirical": raw[k[-1]] = cf * c["mm"]
        lo += raw[k].min(); hi += raw[k].max(); mn += t.Points.values[k].min(); mx += t.Points.values[k].max()
        if c["based"]: R.eq("smallest points are zero", float(t.Points.values[k].min()), 0.)
    if c["scaling"] is None: R.eq("score without scaling", s, lp - I, rel=1e-6)
    elif c["scaling"] == "pdo_odds": laws(R, "pdo_odds", pm, c["rev"], lp, s)
    elif hi - lo > 1e-6:
        laws(R, "min_max", pm, c["rev"], lp, s, lo, hi); R.eq("attainable scores", [mn, mx], [pm["min"], pm["max"]], rel=1e-7)
    return R.res()
