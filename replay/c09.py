"""Bounded search for C09: constructor + fit (with untouchable data) against the documented domains of lib/domains.py."""
import ast
import contextlib
import importlib
import inspect
import io
from lib import domains

RULE = ("one parameter dict per case: the defaults with one to three parameters replaced by candidate values in or out of "
        "their domain, chosen by VERIF_SEED; distinct = distinct dicts")


class Touched(BaseException):
    pass


def _boom(*a, **k):
    raise Touched()


class Sentinel:
    """any use of the data ends the parameter check"""
    __array__ = __len__ = __iter__ = __getitem__ = __eq__ = __lt__ = __gt__ = __add__ = __bool__ = _boom
    def __getattribute__(self, n): raise Touched()


class Est:
    def fit(self, *a): _boom()
    def predict(self, *a): _boom()
    def predict_proba(self, *a): _boom()


def decode(s):
    if isinstance(s, str) and s.startswith("$"):
        n = s[1:]
        if n == "RandomState":
            import numpy as np
            return np.random.RandomState(0)
        if n == "estimator": return Est()
        if n == "BinningProcess":
            from optbinning import BinningProcess
            return BinningProcess(["a"])
        if n == "Scorecard":
            from optbinning import Scorecard
            class S(Scorecard):
                def _check_is_fitted(self): _boom()
            S.__name__ = "Scorecard"
            return S.__new__(S)
        if n.startswith("array"):
            import numpy as np
            return np.array(ast.literal_eval(n[5:]))
    return s


SPECS = {S.eid: S for S in domains.specs()}


def klass(S):
    m, c = S.cls.split(":")
    return getattr(importlib.import_module(m), c)


REQ = {"variable_names": ["a"], "binning_process": "$BinningProcess", "estimator": "$estimator", "scorecard": "$Scorecard"}


def base(S):
    p = {}
    for n, par in inspect.signature(klass(S).__init__).parameters.items():
        if n == "self" or n not in S.doms: continue
        if par.default is inspect.Parameter.empty: p[n] = REQ.get(n)
        else: p[n] = par.default
    if S.eid == "Scorecard": p["scaling_method_params"] = None
    return p


def run(S, params):
    kw = {k: decode(v) for k, v in params.items()}
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            o = klass(S)(**kw)
            if S.entry is None: return "accepted"
            meth, k = S.entry
            getattr(o, meth)(*[Sentinel() for _ in range(k)])
        return "accepted"
    except Touched:
        return "accepted"
    except Exception as e:
        return "%s: %s" % (type(e).__name__, str(e)[:150])


def expected(S, params):
    """names of the violated clauses"""
    bad = [n for n, d in S.doms.items() if n in params and not d.ok(params[n])]
    if bad: return bad
    return [r.name for r in S.rels if not r.ok(params)]


def cases(rng, tier):
    order = list(SPECS)
    rng.shuffle(order)
    # every candidate of every parameter alone, then random combinations
    for eid in order:
        yield {"eid": eid, "set": {}}
    singles = [(eid, n, v) for eid in order for n, d in SPECS[eid].doms.items() for v in d.good + d.bad]
    rng.shuffle(singles)
    for eid, n, v in singles:
        yield {"eid": eid, "set": {n: repr(v)}}
    while True:
        eid = rng.choice(order)
        S = SPECS[eid]
        st = {}
        if rng.random() < .5 and S.rels:
            r = rng.choice(S.rels)
            names = [x for x in (getattr(r, "a", None), getattr(r, "b", None), getattr(r, "par", None)) if x]
            if r.name.startswith("user_splits_fixed"): names = ["user_splits", "user_splits_fixed"]
            if r.name.startswith("convex"): names = ["monotonic_trend", "degree"]
            if r.name.startswith("outlier"): names = ["outlier_detector", "outlier_params"]
            if "scaling" in r.name: names = ["scaling_method", "scaling_method_params", "rounding"]
            for n in names:
                d = S.doms[n]
                st[n] = rng.choice([x for x in d.good if x is not None] or d.good)
                if n == "outlier_params": st[n] = rng.choice([None, {}, [1], {"ETI": True}])
                if n == "scaling_method_params": st[n] = rng.choice([None, {}, [1], {"min": 1, "max": 2}])
        for _ in range(rng.randint(1, 3)):
            n = rng.choice(list(S.doms))
            d = S.doms[n]
            st[n] = rng.choice(d.good if rng.random() < .75 or not d.bad else d.bad)
        yield {"eid": eid, "set": {k: repr(v) for k, v in st.items()}}


def verdict(S, st):
    p = base(S)
    for k, v in st.items(): p[k] = ast.literal_eval(v)
    bad = expected(S, p)
    r = run(S, p)
    if r == "accepted" and bad: return "accepted", "accepted although out of domain: %s" % bad
    if r != "accepted":
        if not bad: return r.split(":")[0], "rejected although all parameters are in their domain: %s" % r
        if r.split(":")[0] not in S.errors: return r.split(":")[0], "not a TypeError or ValueError: %s" % r
    return None


def canon(v):
    x = ast.literal_eval(v)
    return repr(float(x)) if isinstance(x, (int, float)) and not isinstance(x, bool) else v


def check(case):
    S = SPECS[case["eid"]]
    st = dict(case["set"])
    f = verdict(S, st)
    if f is None: return None
    for k in list(st):                      # smallest set of replaced parameters with the same outcome
        t = {n: v for n, v in st.items() if n != k}
        g = verdict(S, t)
        if g and g[0] == f[0]: st, f = t, g
    key = "%s(%s) %s" % (case["eid"], ", ".join("%s=%s" % (k, canon(v)) for k, v in sorted(st.items())), f[0])
    return [(key, "%s with %s: %s" % (case["eid"], st, f[1]))]
