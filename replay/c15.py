"""Bounded search for C15: monitoring tables against a restatement of their definitions."""
import math
import numpy as np, pandas as pd
from scipy import stats as sps
from replay.util import *
from optbinning import BinningProcess, Scorecard
from optbinning.scorecard import ScorecardMonitoring
from optbinning.metrics.classification import imbalanced_classification_metrics
from optbinning.metrics.regression import regression_metrics
from sklearn.linear_model import LogisticRegression, LinearRegression

RULE = ("random scores with ties and scores on the splits, random binary or continuous targets through a stub scorecard, the three pre-binning methods; random confusion matrices and regressions; "
        "some fitted scorecards with missing and special values in either sample; distinct = distinct inputs")


class Card(Scorecard):
    """a scorecard with given scores"""
    def __init__(self, f=None, dt="binary"): self.f, self.dt = f, dt
    def _check_is_fitted(self): pass
    def score(self, X): return self.f(X)
    def predict(self, X): return (self.f(X) > 50).astype(int) if self.dt == "binary" else self.f(X) * .1 + 1.5
    def predict_proba(self, X):
        p = 1 / (1 + np.exp(-(self.f(X) - 50) / 20.)); return np.column_stack([1 - p, p])


def cases(rng, tier):
    while True:
        r = rng.random()
        yield {"kind": "metrics" if r < .3 else "fitted" if r < .31 else "system", "dt": rng.choice(["binary", "continuous"]), "method": rng.choice(["cart", "quantile", "uniform"]), "nb": rng.randint(2, 8),
               "n": [rng.randint(12, 80), rng.randint(12, 80)], "step": rng.choice([1, 5, 10, 0]), "seed": rng.randint(0, 10 ** 6)}


def confusion(R, get, y, p, ctx=""):
    tp, fn, fp, tn = [int(np.sum((y == a) & (p == b))) for a, b in ((1, 1), (1, 0), (0, 1), (0, 0))]
    tpr, tnr = tp / (tp + fn), tn / (tn + fp)
    R.eq("true positive rate", get("True positive rate"), tpr, ctx); R.eq("true negative rate", get("True negative rate"), tnr, ctx)
    R.eq("false positive rate", get("False positive rate"), 1 - tnr, ctx); R.eq("false negative rate", get("False negative rate"), 1 - tpr, ctx)
    R.eq("balanced accuracy", get("Balanced accuracy"), (tpr + tnr) / 2, ctx)
    if 0 < tpr < 1 and 0 < tnr < 1: R.eq("discriminant power", get("Discriminant power"), math.sqrt(3) / math.pi * (math.log(tpr / (1 - tpr)) + math.log(tnr / (1 - tnr))), ctx)


def regr(R, get, y, p, ctx=""):
    e = y - p; ss = ((y - y.mean()) ** 2).sum()
    W = {"Mean absolute error": np.abs(e).mean(), "Mean squared error": (e ** 2).mean(), "Median absolute error": np.median(np.abs(e)), "Explained variance": 1 - e.var() / y.var(), "R^2": 1 - (e ** 2).sum() / ss,
         "MPE": (e / y).mean(), "MAPE": np.abs(e / y).mean(), "SMAPE": (np.abs(e) / (np.abs(y) + np.abs(p))).mean(), "MdAPE": np.median(np.abs(e / y)), "SMdAPE": np.median(np.abs(e) / (np.abs(y) + np.abs(p)))}
    for k, w in W.items(): R.eq(k, get(k), w, ctx, rel=1e-7)


def psi_rows(R, key, ca, ce, df, lab):
    R.eq(key + " counts", df["Count A"].values[:len(ca)].astype(float), ca, lab); R.eq(key + " counts", df["Count E"].values[:len(ce)].astype(float), ce, lab)
    for i, (a, e) in enumerate(zip(ca, ce)):
        pa, pe = a / sum(ca), e / sum(ce)
        R.eq(key + " shares", [df["Count A (%)"].values[i], df["Count E (%)"].values[i]], [pa, pe])
        if a > 0 and e > 0: R.eq(key, float(df["PSI"].values[i]), (pa - pe) * math.log(pa / pe), "%s bin %d" % (lab, i))


def check(c):
    R = Rep(); rs = np.random.RandomState(c["seed"]); na, ne = c["n"]; dt = c["dt"]
    if c["kind"] == "metrics":
        y = rs.randint(0, 2, na); p = np.where(rs.rand(na) < .3, 1 - y, y); y[0], y[1] = 0, 1
        d, ex = guarded(lambda: imbalanced_classification_metrics(y, p), "confusion")
        if ex and len(set(p) | set(y)) == 2: return ex
        confusion(R, d.__getitem__, y, p)
        yr = rs.normal(0, 5, na); pr = yr + rs.normal(0, 2, na)
        d, ex = guarded(lambda: regression_metrics(yr, pr), "regression")
        if ex: return ex
        regr(R, d.__getitem__, yr, pr)
        return R.res()
    if c["kind"] == "fitted":
        n = 300
        X = pd.DataFrame({"v%d" % j: np.where(rs.rand(n) < .1, np.nan, np.where(rs.rand(n) < .1, -9., np.round(rs.normal(0, 1, n), 2))) for j in range(3)})
        z = X["v0"].fillna(.3) + rs.normal(0, 1, n); y = (z > 0).astype(int) if dt == "binary" else z
        XE = X[["v0", "v1", "v2"]].copy(); drop = rs.rand() < .5
        if drop: XE = XE.fillna(0.0).clip(upper=1.0)
        try:
            sc = Scorecard(BinningProcess(["v0", "v1", "v2"], special_codes=[-9.]), LogisticRegression() if dt == "binary" else LinearRegression()).fit(X, y)
            m = ScorecardMonitoring(sc, psi_method=c["method"], psi_n_bins=c["nb"])
        except Exception: return None
        _, ex = guarded(lambda: m.fit(X, y, XE, y), "fit")
        if ex: return None if "zero element" in ex[0][1] else ex      # a score bin whose records are all of one class: chi-square undefined
        for nm in ("v0", "v1", "v2"):
            o = sc.binning_process_.get_binned_variable(nm); df = m.psi_variable_table(nm, "detailed")
            T = o.binning_table.build(); labels = list(T["Bin"][:-1])
            k = len(df); ca, ce = np.zeros(len(labels)), np.zeros(len(labels))
            for src, q in ((X, ca), (XE, ce)):
                for u in src[nm].values:
                    i = len(labels) - 1 if u != u else len(labels) - 2 if u == -9. else int(np.searchsorted(o.splits, u, side="right"))
                    q[i] += 1
            R.true("variable rows hold every record", ca[k:].sum() + ce[k:].sum() == 0, "%s %s %s" % (nm, ca, ce))
            psi_rows(R, "variable", ca[:k], ce[:k], df, nm)
            R.eq("variable summary", float(m.psi_variable_table(nm).iloc[0]), np.nansum(df["PSI"].values))
        return R.res()
    sa, se = rs.normal(50, 15, na), rs.normal(55, 15, ne)
    if c["step"]: sa, se = np.round(sa / c["step"]) * c["step"], np.round(se / c["step"]) * c["step"]
    if dt == "binary": ya, ye = [(v > 50 + rs.normal(0, 15, len(v))).astype(int) for v in (sa, se)]
    else: ya, ye = [v * .1 + rs.normal(0, 1, len(v)) for v in (sa, se)]
    if dt == "binary": ya[:2] = ye[:2] = [0, 1]
    XA, XE = pd.DataFrame({"x": sa}), pd.DataFrame({"x": se})
    m = ScorecardMonitoring(Card(lambda X: X["x"].values, dt), psi_method=c["method"], psi_n_bins=c["nb"], psi_min_bin_size=.1); m._target_dtype = dt
    try: m._fit_system(XA, ya, XE, ye)
    except ValueError as e:
        return None                    # chi-square of a bin without one of the classes
    S = list(m._splits); K = len(S)
    def bins(s): return np.array([sum(t < u for t in S) for u in s])
    ba, be = bins(sa), bins(se)
    ca, ce = [np.sum(ba == i) for i in range(K + 1)], [np.sum(be == i) for i in range(K + 1)]
    df = m._df_psi
    R.true("one row per bin and totals", len(df) == K + 2, "%d %d" % (len(df), K))
    psi_rows(R, "psi", ca, ce, df, c["method"])
    R.eq("psi totals", [df["Count A"].values[-1], df["Count E"].values[-1]], [na, ne]); R.eq("psi total", float(df["PSI"].values[-1]), float(np.sum(df["PSI"].values[:-1].astype(float))))
    t = m._df_tests
    for i in range(K + 1):
        if dt == "binary":
            a = [[np.sum((b == i) & (y == q)) for b, y in ((ba, ya), (be, ye))] for q in (0, 1)]
            try: w = sps.chi2_contingency(np.array(a), correction=False)
            except ValueError: continue
            R.eq("event rates", [t["Event rate A"][i], t["Event rate E"][i]], [a[1][0] / ca[i] if ca[i] else np.nan, a[1][1] / ce[i] if ce[i] else np.nan])
        else:
            if min(ca[i], ce[i]) < 2: continue
            u, v = ya[ba == i], ye[be == i]
            w = sps.ttest_ind_from_stats(u.mean(), u.std(), len(u), v.mean(), v.std(), len(v), False)
            R.eq("means", [t["Mean A"][i], t["Mean E"][i]], [u.mean(), v.mean()])
        R.eq("test", [t["statistic"][i], t["p-value"][i]], [w[0], w[1]], "bin %d" % i)
    P = m._df_performance.set_index("Metric"); card = m.scorecard
    for col, X, y in (("Actual", XA, ya), ("Expected", XE, ye)):
        if dt == "binary":
            p = card.predict(X)
            if len(set(p)) == 2: confusion(R, lambda k: P[col][k], y, p, col)
            q = card.predict_proba(X)[:, 1]; d = q[y == 1][:, None] - q[y == 0][None, :]
            R.eq("gini", P[col]["Gini"], 2 * ((d > 0).mean() + .5 * (d == 0).mean()) - 1, col)
        else: regr(R, lambda k: P[col][k], y, card.predict(X), col)
    T = m._df_target_analysis
    for col, y in (("Actual", ya), ("Expected", ye)):
        if dt == "binary":
            R.eq("target", [float(x) for x in T[col]], [len(y), y.sum(), (1 - y).sum()], col); R.eq("target share", [float(x) for x in T[col + " (%)"][1:]], [y.mean(), 1 - y.mean()], col)
        else: R.eq("target", [float(x) for x in T[col]], [y.mean(), y.std()] + list(np.percentile(y, [25, 50, 75])), col)
    return R.res()
