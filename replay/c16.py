"""Bounded search for C16: counterfactuals of small fitted scorecards against enumeration of every choice of bins."""
import itertools
import numpy as np, pandas as pd
from replay.util import *
from optbinning import BinningProcess, Scorecard
from optbinning.scorecard import Counterfactual
from optbinning.scorecard.counterfactual.utils import logistic_pw
from sklearn.linear_model import LogisticRegression, LinearRegression

RULE = ("fitted scorecards of 2-4 variables (binary and continuous target, numerical and categorical variables); random query, outcome, objectives, method, constraints, actionable features, 1-3 counterfactuals; "
        "feasibility by enumeration of the choices of bins; distinct = distinct inputs")
FITS = {}


def cases(rng, tier):
    while True:
        ot = rng.choice(["binary", "binary", "probability", "continuous"]); nv = rng.randint(2, 4); n = rng.choice([1, 1, 1, 2, 3])
        hard = rng.sample(["min_outcome", "max_outcome"], rng.choice([0, 1, 1, 1])) if ot != "binary" else []
        soft = ["diff_outcome"] if ot != "binary" and (not hard or rng.random() < .4) else []
        dv = rng.choice([[], [], ["diversity_features"], ["diversity_values"], ["diversity_features", "diversity_values"]])
        if rng.random() < .7: hard = hard + dv
        else: soft = soft + dv
        yield {"fit": rng.randint(0, 5), "nv": nv, "outcome": ot, "row": rng.randint(0, 239), "y": rng.random(), "yb": rng.randint(0, 1), "n": n, "method": rng.choice(["weighted", "hierarchical"]),
               "obj": rng.choice([None, ["proximity"], ["closeness"], ["proximity", "closeness"], ["closeness", "proximity"]]), "mc": rng.choice([None, 1, 2, 3, nv]), "act": rng.choice([None, None, [0], [1], [0, 1], list(range(nv))]),
               "hard": hard, "soft": soft, "sm": rng.random() < .5, "arr": rng.random() < .5}


def fitted(c):
    dt = "continuous" if c["outcome"] == "continuous" else "binary"
    k = (dt, c["fit"], c["nv"])
    if k not in FITS:
        rs = np.random.RandomState(c["fit"] * 10 + c["nv"]); n = 240; nv = c["nv"]
        X = pd.DataFrame({"v%d" % j: np.round(rs.normal(0, 1, n), 2) for j in range(nv)})
        z = sum(rs.uniform(-1.5, 1.5) * X["v%d" % j] for j in range(nv)) + rs.normal(0, 1, n)
        if c["fit"] % 2: X["v0"] = np.array(list("abcd"))[np.digitize(X["v0"], [-.7, 0, .7])]
        y = (z > 0).astype(int).values if dt == "binary" else z.values
        names = list(X.columns)
        bp = BinningProcess(names, categorical_variables=["v0"] if c["fit"] % 2 else None, max_n_bins=4)
        sc = Scorecard(bp, LogisticRegression() if dt == "binary" else LinearRegression()).fit(X, y)
        FITS[k] = (X, sc)
    return FITS[k]


def check(c):
    R = Rep()
    X, sc = fitted(c)
    cf, ex = guarded(lambda: Counterfactual(sc, special_missing=c["sm"]).fit(X), "fit")
    if ex:
        return None if "cholesky" in str(ex) or "singular" in str(ex) or "positive definite" in str(ex) else ex
    names = list(sc.binning_process_.get_support(names=True)); p = len(names)
    if p < 2: return None
    met = "Mean" if c["outcome"] == "continuous" else "WoE"
    T = sc.table("detailed"); q = X.iloc[[c["row"]]]
    x = sc.binning_process_.transform(q[names]).values.ravel()
    coef = sc.estimator_.coef_.ravel(); b0 = float(np.ravel(sc.estimator_.intercept_)[0])
    rows = []
    for i, nm in enumerate(names):
        t = T[T.Variable == nm]
        m, b = t[met].values.astype(float), [str(v) for v in t["Bin"].values]
        if not c["sm"]: m, b = m[:-2], b[:-2]
        rows.append([(b[j], m[j]) for j in range(len(m)) if m[j] != x[i]])
    act = [names[i] for i in c["act"] if i < p] if c["act"] is not None else None
    if act is not None and not act: return None
    free = [i for i in range(p) if act is None or names[i] in act]
    mc = c["mc"] if c["mc"] is not None else p // 2
    lo, hi = cf._min_p, cf._max_p
    y = c["yb"] if c["outcome"] == "binary" else c["y"] if c["outcome"] == "probability" else float(lo + (hi - lo) * c["y"])
    if c["outcome"] == "probability": b_pw, c_pw = logistic_pw(lo, hi, 15)

    def slack(a):
        """how far the requested outcome is met"""
        if c["outcome"] == "binary": return a - 1e-6 if y == 1 else -a
        if c["outcome"] == "probability":
            fs = [k[1] * a + k[0] for (l, u), k in zip(b_pw, c_pw) if l - 1e-9 <= a <= u + 1e-9]
            if not fs: return -1.
            v = [min([1.] + [f - y for h in c["hard"] if h == "min_outcome"] + [y - f for h in c["hard"] if h == "max_outcome"] + [f + 1e-9, 1 - f + 1e-9]) for f in fs]
            return max(v)
        return min([1.] + [a - y for h in c["hard"] if h == "min_outcome"] + [y - a for h in c["hard"] if h == "max_outcome"])
    pred = lambda ch: b0 + sum(coef[i] * (rows[i][ch[i]][1] if ch[i] is not None else x[i]) for i in range(p))
    choices = []
    for k in range(min(mc, len(free)) + 1):
        for S in itertools.combinations(free, k):
            for ch in itertools.product(*[range(len(rows[i])) if i in S else [None] for i in range(p)]): choices.append(ch)
    good = [ch for ch in choices if slack(pred(ch)) >= 1e-4]
    obj = None if c["obj"] is None else {o: k + 1 for k, o in enumerate(c["obj"])}
    hard = np.array(c["hard"]) if c["arr"] and c["hard"] else c["hard"] or None
    soft = {s: 5 + k for k, s in enumerate(c["soft"])} or None

    def run():
        try: cf.generate(q, y, c["outcome"], c["n"], method=c["method"], objectives=obj, max_changes=c["mc"], actionable_features=np.array(act) if act is not None and c["arr"] else act, hard_constraints=hard, soft_constraints=soft, time_limit=20)
        except Exception as e:
            if "problem in hierarchical model" in str(e): return str(e).split()[0]
            raise
        return cf.status
    status, ex = guarded(run, "generate")
    if ex: return ex
    if status not in ("OPTIMAL", "FEASIBLE"):
        if c["n"] == 1 and status == "INFEASIBLE" and good and c["method"] == "weighted":
            R.true("a counterfactual exists", False, "status %s but the bins %s satisfy every constraint" % (status, [rows[i][j] if j is not None else None for i, j in enumerate(good[0])]))
        return R.res()
    R.true("as many as requested", len(cf._cfs) == c["n"], "%d" % len(cf._cfs))
    picks = []
    for d in cf._cfs:
        ch, ms = [], 0
        for i, nm in enumerate(names):
            if nm not in d["features"]: ch.append(None); continue
            v = str(d["query"][nm].values[0])
            js = [j for j, (b, m) in enumerate(rows[i]) if b == v]
            if not js: R.true("a new bin is a candidate bin of the feature", False, "%s = %s" % (nm, v)); return R.res()
            ch.append(js[0])
        for i, nm in enumerate(names):
            if ch[i] is None: R.true("unchanged features keep their value", d["query"][nm].values[0] == q[nm].values[0], nm)
        chg = [i for i in range(p) if ch[i] is not None]
        R.true("at most max_changes features change", len(chg) <= mc, "%s, max_changes %d" % ([names[i] for i in chg], mc))
        R.true("only actionable features change", all(i in free for i in chg), str([names[i] for i in chg if i not in free]))
        a = pred(ch)
        R.true("score is the predictor at the counterfactual", abs(a - d["score"]) < 1e-6, "%s, predictor %s" % (d["score"], a))
        R.true("requested outcome", slack(a) >= -1e-5, "%s %s %s: predictor %s" % (c["outcome"], y, c["hard"], a))
        picks.append(ch)
    for A, B in itertools.combinations(picks, 2):
        if "diversity_features" in c["hard"]: R.true("different features change", [u is None for u in A] != [u is None for u in B], "%s %s" % (A, B))
        if "diversity_values" in c["hard"]: R.true("different bins of a feature changed by both", all(u is None or w is None or u != w for u, w in zip(A, B)), "%s %s" % (A, B))
    o, ex = guarded(lambda: cf.display(show_outcome=True), "display")
    if ex: return ex
    want = [d["score"] if c["outcome"] == "continuous" else 1 / (1 + np.exp(-d["score"])) for d in cf._cfs]
    R.eq("displayed outcome", o["outcome"].values.astype(float), want)
    return R.res()
