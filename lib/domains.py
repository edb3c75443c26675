"""Documented parameter domains, used by the proofs (as formulas over the dynamic-value datatype) and by the bounded
search on the real code (as Python predicates with candidate values)."""
import numbers


class D:
    good, bad = [], []
    def f(self, v): raise NotImplementedError      # z3 formula
    def ok(self, v): raise NotImplementedError     # python predicate


def _z():
    import z3
    from pyvc import values, ops
    return z3, values, ops


class Str(D):
    good, bad = ["", "x"], [1, None, ["x"], True]
    def f(self, v):
        z3, V, _ = _z(); return V.PV.is_PStr(v)
    def ok(self, v): return isinstance(v, str)


class In(D):
    def __init__(self, *opts):
        self.opts = opts
        self.good = list(opts)
        self.bad = [opts[0] + "x", opts[-1].upper(), "", 1, True, [opts[0]], "zscoree"]
        self.bad = [b for b in self.bad if not (isinstance(b, str) and b in opts)] + [None]
    def f(self, v):
        z3, V, _ = _z()
        return z3.Or(*[v == V.PV.PStr(z3.IntVal(V.str_id(o))) for o in self.opts])
    def ok(self, v): return isinstance(v, str) and v in self.opts


class Bool(D):
    good, bad = [True, False], [1, 0, None, "True", 0.5]
    def f(self, v):
        z3, V, _ = _z(); return V.PV.is_PBool(v)
    def ok(self, v): return isinstance(v, bool)


class NBool(Bool):
    """bool or numpy bool"""
    def f(self, v):
        z3, V, _ = _z(); return z3.Or(V.PV.is_PBool(v), z3.And(V.PV.is_PObj(v), V.PV.pkind(v) == V.kind_id("bool_")))
    def ok(self, v): return isinstance(v, bool) or type(v).__name__ in ("bool_", "bool")


class Num(D):
    """numbers with bounds; integral if integer=True (bool counts as an integer, as in Python)"""
    def __init__(self, gt=None, ge=None, lt=None, le=None, integer=False):
        self.gt, self.ge, self.lt, self.le, self.integer = gt, ge, lt, le, integer
        lo, hi = (gt if gt is not None else ge), (lt if lt is not None else le)
        c = [-3, -1, 0, 1, 2, 3, 5, 8, 9, 20, 50, 0.0, 1e-9, 0.05, 0.25, 0.5, 0.51, 0.75, 0.99, 1.0, 1.01, 1.5, -0.5, -1e-9]
        for b in (lo, hi):
            if b is not None: c += [b, b - 1, b + 1, b + 0.01, b - 0.01]
        c += ["1", None, [1]]
        u = []
        for x in c:
            if not any(type(x) is type(y) and x == y for y in u): u.append(x)
        self.good = [x for x in u if self.ok(x)]
        self.bad = [x for x in u if not self.ok(x)]
    def bounds(self, x):
        r = []
        if self.gt is not None: r.append(x > self.gt)
        if self.ge is not None: r.append(x >= self.ge)
        if self.lt is not None: r.append(x < self.lt)
        if self.le is not None: r.append(x <= self.le)
        return r
    def f(self, v):
        z3, V, ops = _z()
        x = ops.pv_real(v)
        ty = z3.Or(V.PV.is_PInt(v), V.PV.is_PBool(v)) if self.integer else ops.pv_isnum(v)
        b = [z3.simplify(c) if False else c for c in self.bounds_z(x)]
        return z3.And(ty, *b)
    def bounds_z(self, x):
        _, V, _ = _z()
        r = []
        if self.gt is not None: r.append(x > V.rr(self.gt))
        if self.ge is not None: r.append(x >= V.rr(self.ge))
        if self.lt is not None: r.append(x < V.rr(self.lt))
        if self.le is not None: r.append(x <= V.rr(self.le))
        return r
    def ok(self, v):
        return isinstance(v, numbers.Integral if self.integer else numbers.Number) and all(self.bounds(v))


def Int(**k): return Num(integer=True, **k)


class Opt(D):
    def __init__(self, d):
        self.d = d
        self.good = [None] + d.good
        self.bad = [b for b in d.bad if b is not None]
    def f(self, v):
        z3, V, _ = _z(); return z3.Or(V.PV.is_PNone(v), self.d.f(v))
    def ok(self, v): return v is None or self.d.ok(v)


class Alt(D):
    """union of domains"""
    def __init__(self, *ds):
        self.ds = ds
        self.good = [g for d in ds for g in d.good]
        self.bad = [b for d in ds for b in d.bad if not self.ok(b)]
    def f(self, v):
        z3, _, _ = _z(); return z3.Or(*[d.f(v) for d in self.ds])
    def ok(self, v): return any(d.ok(v) for d in self.ds)


KN = {"list": list, "dict": dict, "tuple": tuple}
class Kind(D):
    """container kinds: list, dict, tuple, ndarray (the data inside is not constrained here)"""
    def __init__(self, *kinds, good=(), bad=(), nonempty=False, elem=None):
        self.kinds, self.nonempty, self.elem = kinds, nonempty, elem
        self.good, self.bad = list(good), list(bad) + ["abc", 1, 0.5, True]
        for k, e in (("list", []), ("dict", {}), ("tuple", ())):
            if k not in kinds: self.bad.append(e)
        self.bad = [b for b in self.bad if not self.ok(b)]
    def f(self, v):
        z3, V, _ = _z()
        ks = [V.kind_id("numpy.ndarray" if k == "ndarray" else k) for k in self.kinds]
        i = V.PV.pid(v)
        c = [V.PV.is_PObj(v), z3.Or(*[V.PV.pkind(v) == k for k in ks])]
        if self.nonempty:
            c.append(z3.Implies(V.PV.pkind(v) == V.kind_id("dict"), V.plen(i) > 0) if len(self.kinds) > 1 else V.plen(i) > 0)
        if self.elem is not None:
            j = V.fresh("el")
            c.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < V.plen(i)), self.elem.f(V.pelem(i, j)))))
        return z3.And(*c)
    def ok(self, v):
        t = tuple(KN[k] for k in self.kinds if k in KN)
        r = isinstance(v, t) or ("ndarray" in self.kinds and type(v).__name__ == "ndarray")
        if r and self.nonempty: r = len(v) > 0 if (len(self.kinds) == 1 or isinstance(v, dict)) else True
        if r and self.elem is not None: r = all(self.elem.ok(x) for x in v)
        return bool(r)


class Inst(D):
    """instance of a class of /repo (or subclass)"""
    def __init__(self, cls): self.cls = cls; self.good, self.bad = ["$" + cls], [None, 1, "x", {}]
    def f(self, v):
        z3, V, _ = _z(); return z3.And(V.PV.is_PObj(v), V.PV.pkind(v) == V.kind_id(self.cls))
    def ok(self, v): return type(v).__name__ == self.cls or v == "$" + self.cls


class Has(D):
    """object with the given attributes"""
    def __init__(self, *names): self.names = names; self.good, self.bad = ["$estimator"], [1, {}, 0.5, "x"]
    def f(self, v):
        z3, V, _ = _z()
        return z3.And(V.PV.is_PObj(v), *[V.phas(V.PV.pid(v), V.str_id(n)) for n in self.names])
    def ok(self, v): return v == "$estimator" or all(hasattr(v, n) for n in self.names)


class Any(D):
    good = [0, None, "x"]
    def f(self, v):
        z3, _, _ = _z(); return z3.BoolVal(True)
    def ok(self, v): return True


# ---- relations between parameters: (name, z3 formula over dict, python predicate over dict)
class Le:
    def __init__(self, a, b): self.a, self.b, self.name = a, b, "%s <= %s" % (a, b)
    def f(self, p):
        z3, V, ops = _z()
        a, b = p[self.a], p[self.b]
        return z3.Or(V.PV.is_PNone(a), V.PV.is_PNone(b), ops.pv_real(a) <= ops.pv_real(b))
    def ok(self, p): return p[self.a] is None or p[self.b] is None or p[self.a] <= p[self.b]


class NeedsSplits:
    """user_splits_fixed only with user_splits, of the same length"""
    name = "user_splits_fixed requires user_splits of the same length"
    def f(self, p):
        z3, V, _ = _z()
        a, b = p["user_splits"], p["user_splits_fixed"]
        return z3.Or(V.PV.is_PNone(b), z3.And(z3.Not(V.PV.is_PNone(a)), V.plen(V.PV.pid(a)) == V.plen(V.PV.pid(b))))
    def ok(self, p):
        a, b = p["user_splits"], p["user_splits_fixed"]
        return b is None or (a is not None and len(a) == len(b))


class If:
    """domain of a parameter that only matters under a condition on another"""
    def __init__(self, name, cond_f, cond_ok, par, dom):
        self.name, self.cf, self.co, self.par, self.dom = name, cond_f, cond_ok, par, dom
    def f(self, p):
        z3, _, _ = _z(); return z3.Implies(self.cf(p), self.dom.f(p[self.par]))
    def ok(self, p): return (not self.co(p)) or self.dom.ok(p[self.par])


def notnone(n):
    def f(p):
        z3, V, _ = _z(); return z3.Not(V.PV.is_PNone(p[n]))
    return f, (lambda p: p[n] is not None)


class Rel:
    def __init__(self, name, f, ok): self.name, self.f, self.ok = name, f, ok


TREND = ("auto", "auto_heuristic", "auto_asc_desc", "ascending", "descending", "convex", "concave", "peak", "valley",
         "peak_heuristic", "valley_heuristic")
DIV = ("iv", "js", "hellinger", "triangular")
posint = lambda: Opt(Int(gt=0))
frac5 = lambda: Num(gt=0, le=0.5)
LST = dict(good=[[], [1.0, 2.0], [True]], bad=[{}, "ab"])

COMMON = dict(
    name=Str(), dtype=In("categorical", "numerical"), max_n_prebins=Int(gt=1), min_prebin_size=frac5(),
    min_n_bins=posint(), max_n_bins=posint(), min_bin_size=Opt(frac5()), max_bin_size=Opt(Num(gt=0, le=1)),
    min_bin_n_nonevent=posint(), max_bin_n_nonevent=posint(), min_bin_n_event=posint(), max_bin_n_event=posint(),
    min_event_rate_diff=Num(ge=0, le=1), max_pvalue=Opt(Num(gt=0, le=1)), max_pvalue_policy=In("all", "consecutive"),
    gamma=Num(ge=0), class_weight=Opt(Alt(Kind("dict", good=[{}, {0: 1, 1: 2}]), In("balanced"))),
    cat_cutoff=Opt(Num(gt=0, le=1)), cat_unknown=Opt(Alt(Num(), Str())), user_splits=Opt(Kind("list", "ndarray", **LST)),
    user_splits_fixed=Opt(Kind("list", "ndarray", elem=NBool(), good=[[], [True], [True, False]], bad=[[1, 0], ["a"], {}])),
    special_codes=Opt(Kind("list", "ndarray", "dict", nonempty=True, good=[[], [-9], {"a": -1}], bad=[{}, "a"])),
    split_digits=Opt(Int(ge=0, le=8)), mip_solver=In("bop", "cbc"), time_limit=Num(ge=0), verbose=Bool(),
    divergence=In(*DIV))
SIZES = [Le("min_n_bins", "max_n_bins"), Le("min_bin_size", "max_bin_size")]
COUNTS = [Le("min_bin_n_nonevent", "max_bin_n_nonevent"), Le("min_bin_n_event", "max_bin_n_event")]
LISTONLY = Opt(Kind("list", "ndarray", good=[[], [-9]], bad=[{}, {"a": 1}]))


def OUTL(*opts):
    nf, no = notnone("outlier_detector")
    return dict(outlier_detector=Opt(In(*opts)), outlier_params=Any()), \
        [If("outlier_params is a dict when a detector is set", nf, no, "outlier_params",
            Opt(Kind("dict", good=[{}, {"ETI": True}], bad=[[1]])))]


def pick(*names, **over):
    d = {n: COMMON[n] for n in names}
    d.update(over)
    return d


class SpecEntry:
    def __init__(self, eid, cls, doms, rels=(), entry=("fit", 2), fixed=None, errors=("TypeError", "ValueError"), kind="fit"):
        self.eid, self.cls, self.doms, self.rels, self.entry, self.fixed = eid, cls, doms, list(rels), entry, fixed or {}
        self.errors, self.kind = errors, kind


def specs():
    S = []
    od, orl = OUTL("range", "zscore")
    od3, orl3 = OUTL("range", "zscore", "yquantile")
    S.append(SpecEntry("OptimalBinning", "optbinning.binning.binning:OptimalBinning", dict(pick(*[k for k in COMMON]),
             prebinning_method=In("cart", "mdlp", "quantile", "uniform"), solver=In("cp", "ls", "mip"),
             monotonic_trend=Opt(In(*TREND)), **od), SIZES + COUNTS + orl + [NeedsSplits()]))
    S.append(SpecEntry("ContinuousOptimalBinning", "optbinning.binning.continuous_binning:ContinuousOptimalBinning",
             pick("name", "dtype", "max_n_prebins", "min_prebin_size", "min_n_bins", "max_n_bins", "min_bin_size",
                  "max_bin_size", "max_pvalue", "max_pvalue_policy", "gamma", "cat_cutoff", "cat_unknown", "user_splits",
                  "user_splits_fixed", "special_codes", "split_digits", "time_limit", "verbose",
                  prebinning_method=In("cart", "quantile", "uniform"), monotonic_trend=Opt(In(*TREND)),
                  min_mean_diff=Num(ge=0), **od3), SIZES + orl3 + [NeedsSplits()]))
    S.append(SpecEntry("MulticlassOptimalBinning", "optbinning.binning.multiclass_binning:MulticlassOptimalBinning",
             pick("name", "max_n_prebins", "min_prebin_size", "min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size",
                  "min_event_rate_diff", "max_pvalue", "max_pvalue_policy", "user_splits", "user_splits_fixed",
                  "special_codes", "split_digits", "mip_solver", "time_limit", "verbose",
                  prebinning_method=In("cart", "quantile", "uniform"), solver=In("cp", "mip"),
                  monotonic_trend=Opt(Alt(In("auto", "auto_heuristic", "auto_asc_desc"),
                                          Kind("list", elem=Opt(In(*TREND)), good=[[], ["peak", None], ["auto"]],
                                               bad=[["up"], [1], ("peak",)]))), **od),
             SIZES + orl + [NeedsSplits()]))
    S.append(SpecEntry("MDLP", "optbinning.binning.mdlp:MDLP", dict(min_samples_split=Int(ge=2), min_samples_leaf=Int(ge=1),
             max_candidates=Int(ge=1))))
    S.append(SpecEntry("SBOptimalBinning", "optbinning.binning.uncertainty.binning_scenarios:SBOptimalBinning",
             pick("name", "max_n_prebins", "min_prebin_size", "min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size",
                  "min_event_rate_diff", "max_pvalue", "max_pvalue_policy", "class_weight", "user_splits",
                  "user_splits_fixed", "split_digits", "time_limit", "verbose",
                  prebinning_method=In("cart", "quantile", "uniform"), special_codes=LISTONLY,
                  monotonic_trend=Opt(In("ascending", "descending", "convex", "concave", "peak", "valley"))),
             SIZES + [NeedsSplits()]))
    xy = lambda n, d: {n + "_x": d, n + "_y": d}
    b2 = {}
    for n, d in (("name", Str()), ("dtype", In("categorical", "numerical")), ("max_n_prebins", Int(gt=1)),
                 ("min_prebin_size", frac5()), ("monotonic_trend", Opt(In("ascending", "descending"))),
                 ("special_codes", LISTONLY)):
        b2.update(xy(n, d))
    b2.update(pick("min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size", "gamma", "split_digits", "time_limit",
                   "verbose", prebinning_method=In("cart", "mdlp", "quantile", "uniform"), strategy=In("grid", "cart"),
                   solver=In("cp", "mip"), n_jobs=Opt(Int())))
    S.append(SpecEntry("OptimalBinning2D", "optbinning.binning.multidimensional.binning_2d:OptimalBinning2D",
             dict(b2, **pick("divergence", "min_bin_n_nonevent", "max_bin_n_nonevent", "min_bin_n_event",
                             "max_bin_n_event"), **xy("min_event_rate_diff", Num(ge=0, le=1))),
             SIZES + COUNTS, entry=("fit", 3)))
    S.append(SpecEntry("ContinuousOptimalBinning2D",
             "optbinning.binning.multidimensional.continuous_binning_2d:ContinuousOptimalBinning2D",
             dict(b2, **xy("min_mean_diff", Num())), SIZES, entry=("fit", 3)))
    pw = pick("name", "min_prebin_size", "min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size", "max_pvalue",
              "max_pvalue_policy", "user_splits", "user_splits_fixed", "split_digits", "verbose", "max_n_prebins",
              special_codes=Opt(Kind("list", "ndarray", "dict", good=[[], [-9], {"a": 1}])),
              objective=In("l1", "l2", "huber", "quantile"), degree=Int(ge=0, le=5), continuous=Bool(),
              continuous_deriv=Bool(), prebinning_method=In("cart", "quantile", "uniform"),
              monotonic_trend=Opt(In("auto", "ascending", "descending", "convex", "concave", "peak", "valley")),
              n_subsamples=Opt(Int(gt=0)), solver=In("auto", "ecos", "osqp", "direct", "scs", "highs"),
              h_epsilon=Num(ge=1), quantile=Num(gt=0, lt=1), regularization=Opt(In("l1", "l2")), reg_l1=Num(ge=0),
              reg_l2=Num(ge=0), random_state=Opt(Alt(Int(), Kind("RandomState", good=[], bad=[{}, [1]]))), **od3)
    def ccf(p):
        z3, V, ops = _z()
        t = p["monotonic_trend"]
        isc = z3.Or(*[t == V.PV.PStr(z3.IntVal(V.str_id(o))) for o in ("convex", "concave")])
        return z3.Implies(isc, ops.pv_real(p["degree"]) <= 1)
    conv = Rel("convex/concave needs degree <= 1", ccf,
               lambda p: p["monotonic_trend"] not in ("convex", "concave") or p["degree"] <= 1)
    S.append(SpecEntry("OptimalPWBinning", "optbinning.binning.piecewise.binning:OptimalPWBinning",
             dict(pw, estimator=Opt(Has("fit", "predict_proba"))), SIZES + orl3 + [NeedsSplits(), conv]))
    S.append(SpecEntry("ContinuousOptimalPWBinning",
             "optbinning.binning.piecewise.continuous_binning:ContinuousOptimalPWBinning", dict(pw),
             SIZES + orl3 + [NeedsSplits(), conv]))
    lst = lambda **k: Kind("list", "ndarray", **k)
    bp = pick("max_n_prebins", "min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size", "max_pvalue",
              "max_pvalue_policy", "split_digits", "verbose",
              variable_names=lst(good=[["a"], []]), selection_criteria=Opt(Kind("dict", good=[], bad=[[1]])),
              categorical_variables=Opt(lst(elem=Str(), good=[[], ["a"]], bad=[[1]])),
              binning_fit_params=Opt(Kind("dict", good=[{}])), binning_transform_params=Opt(Kind("dict", good=[{}])))
    S.append(SpecEntry("BinningProcess", "optbinning.binning.binning_process:BinningProcess",
             dict(bp, min_prebin_size=frac5(), special_codes=COMMON["special_codes"],
                  fixed_variables=Opt(lst(good=[[], ["a"]])), n_jobs=Opt(Int())), SIZES))
    S.append(SpecEntry("BinningProcessSketch", "optbinning.binning.distributed.binning_process_sketch:BinningProcessSketch",
             dict(bp, special_codes=LISTONLY), SIZES, entry=None))
    S.append(SpecEntry("OptimalBinningSketch", "optbinning.binning.distributed.binning_sketch:OptimalBinningSketch",
             pick("name", "dtype", "divergence", "max_n_prebins", "min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size",
                  "min_bin_n_nonevent", "max_bin_n_nonevent", "min_bin_n_event", "max_bin_n_event", "min_event_rate_diff",
                  "max_pvalue", "max_pvalue_policy", "gamma", "cat_cutoff", "cat_unknown", "split_digits", "mip_solver",
                  "time_limit", "verbose", special_codes=LISTONLY, sketch=In("gk", "t-digest"), eps=Num(ge=0, le=1),
                  K=Int(gt=0), solver=In("cp", "mip"), monotonic_trend=Opt(In(*TREND)), cat_heuristic=Bool()),
             SIZES + COUNTS, entry=None))
    S.append(SpecEntry("BSketch", "optbinning.binning.distributed.bsketch:BSketch",
             dict(sketch=In("gk", "t-digest"), eps=Num(ge=0, le=1), K=Int(gt=0), special_codes=LISTONLY), entry=None))
    def scf(p):
        z3, V, ops = _z()
        return z3.Not(V.PV.is_PNone(p["scaling_method"]))
    S.append(SpecEntry("Scorecard", "optbinning.scorecard.scorecard:Scorecard",
             dict(binning_process=Inst("BinningProcess"), estimator=Has("fit", "predict"),
                  scaling_method=Opt(In("pdo_odds", "min_max")), scaling_method_params=Any(), intercept_based=Bool(),
                  reverse_scorecard=Bool(), rounding=Bool(), verbose=Bool()),
             [If("scaling_method needs a parameter dict", scf, lambda p: p["scaling_method"] is not None,
                 "scaling_method_params", Kind("dict", good=[{"min": 1, "max": 2}])),
              Rel("rounding needs a scaling method",
                  lambda p: _z()[0].Implies(_z()[1].PV.pb(p["rounding"]), _z()[0].Not(_z()[1].PV.is_PNone(p["scaling_method"]))),
                  lambda p: not (p["rounding"] is True and p["scaling_method"] is None))]))
    S.append(SpecEntry("ScorecardMonitoring", "optbinning.scorecard.monitoring:ScorecardMonitoring",
             dict(scorecard=Inst("Scorecard"), psi_method=In("uniform", "quantile", "cart"), psi_n_bins=posint(),
                  psi_min_bin_size=Opt(frac5()), show_digits=Int(ge=0, le=8), verbose=Bool()), entry=("fit", 4)))
    return S
