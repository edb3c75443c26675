"""C13  Variable selection is exactly what the criteria say (BaseBinningProcess._support_selection_criteria)."""
import itertools
import z3
from lib.vc import *

M = "optbinning.binning.binning_process"
SEARCH_BUDGET = 30
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles; no NaN among the metrics of the variables",
               "numpy.argsort returns a permutation sorting its argument (which of equal metrics come first is left open)",
               "pandas.DataFrame.from_dict(stats).T has one row per variable, in the order of the dictionary, and one column per entry of its info",
               "the metrics of the variables (IV, Gini, JS, quality score) are what their binning tables report (C03, C04)"]


def stats(v, n):
    """the metrics of the variables: one real function per column"""
    fr = {m: v.fun("m_" + m) for m in ("iv", "gini", "js", "quality_score", "woe")}
    def from_dict(eng, st, a, kw):
        if len(a) != 1 or kw: raise Unsupported("from_dict")
        cols = {m: st.alloc(HArr(Arr((n,), lambda i, f=f: f(rv(i)), "float"))) for m, f in fr.items()}
        return st.alloc(HInst("StatsByVariable", {"T": st.alloc(HInst("DataFrame", {"cols": cols, "rows": (), "index": None}))}))
    v.eng.ext["pandas.DataFrame.from_dict"] = from_dict
    return fr


def criteria(v, spec):
    """spec: {metric: dict(min, max, strategy, top in (None, 'int', 'frac'))} -> dictionary value and the symbolic settings"""
    d, sy = {}, {}
    for m, s in spec.items():
        e = {}
        for k in ("min", "max"):
            if k in s: e[k] = v.real("%s_%s" % (m, k))
        if "strategy" in s: e["strategy"] = s["strategy"]
        if s.get("top") == "int": e["top"] = v.int(m + "_top", lambda t: t >= 1)
        elif s.get("top") == "frac": e["top"] = v.real(m + "_top", lambda t: t > 0, lambda t: t < 1)
        sy[m] = e
        d[m] = v.st.alloc(HDict(dict(e)))
    return v.st.alloc(HDict(d)), sy


def select(dtype, order, spec, fixed=False):
    def g(ctx):
        v = VC(ctx); st = v.st
        n = v.int("n", lambda t: t >= 1)
        fr = stats(v, n)
        crit, sy = criteria(v, spec or {})
        N = v.fun("name", U)
        i1, i2 = z3.Ints("i1 i2")
        st.assume(z3.ForAll([i1, i2], z3.Implies(z3.And(0 <= i1, i1 < i2, i2 < n), N(i1) != N(i2)), patterns=[z3.MultiPattern(N(i1), N(i2))]))
        at = dict(_n_variables=n, selection_criteria=crit if spec is not None else None, _target_dtype=dtype, _variable_stats=v.st.alloc(HInst("Stats", {})),
                  variable_names=v.arr(n, N, islist=True), fixed_variables=None)
        if fixed:
            F, FV = v.int("F", lambda t: t >= 0), v.fun("fixed", U)
            at["fixed_variables"] = v.arr(F, FV, islist=True)
            W = z3.Function("position_of_fixed", INT, INT)
            st.assume(z3.ForAll([i1], z3.Implies(z3.And(0 <= i1, i1 < F), z3.And(W(i1) >= 0, W(i1) < n, N(W(i1)) == FV(i1))), patterns=[FV(i1)]))
        o = v.obj(M + ":BaseBinningProcess", at)
        i, j, k = z3.Ints("i j k")
        ctx.function("%s:BaseBinningProcess._support_selection_criteria" % M)
        for s, r in v.returns("select", v.method(o, "_support_selection_criteria", [])):
            a = v.eng.as_arr(v.attr(s, o, "_support"), s)
            v.prove("one entry per variable", s, z3.And(rv(a.n) == n, z3.BoolVal(a.mask is None)))
            cur, C, P = (lambda t: z3.BoolVal(True)), list(s.ghost.get("compact", ())), list(s.ghost.get("perms", ()))
            rng, ok = [i >= 0, i < n], True
            for m in order:
                if m not in (spec or {}): continue
                e, f, prev = sy[m], fr[m], cur
                el = lambda t, e=e, f=f, prev=prev: z3.And(prev(t), *([f(t) >= e["min"]] if "min" in e else []), *([f(t) <= e["max"]] if "max" in e else []))
                cur = el
                if not ("strategy" in e and "top" in e): continue
                if not C or not P: ctx.fact("%s: the eligible variables are ranked" % m, False); ok = False; break
                (mk, _, se, ra), (p, q, N_) = C.pop(0), P.pop(0)
                v.prove("%s: ranked are exactly the eligible variables" % m, s, bz(mk(i)) == el(i), rng)
                v.prove("%s: the number ranked is the number eligible" % m, s, rv(N_) == rv(v.sum(s, lambda b: z3.If(el(b), z3.IntVal(1), z3.IntVal(0)), 0, n)))
                u, w = f(se(p(j))), f(se(p(k)))
                v.prove("%s: ranked by the metric, the %s first" % (m, e["strategy"]), s, u >= w if e["strategy"] == "highest" else u <= w, [0 <= j, j < k, k < N_])
                top = e["top"] if e["top"].sort() == INT else -z3.ToInt(-(z3.ToReal(N_) * e["top"]))
                lim = z3.If(N_ <= top, N_, top)
                # the mask equals el (proved above), so it may stand for it from here on
                cur = lambda t, mk=mk, ra=ra, q=q, lim=lim: z3.And(bz(mk(t)), q(ra(t)) < lim)
            if not ok: continue
            fx = z3.BoolVal(False)
            if fixed: fx = z3.Exists([k], z3.And(k >= 0, k < F, FV(k) == N(i)))
            # the definitions of the ranked sets are needed for this variable only
            D = s.ghost.get("compactdef", ())
            hyp = [f for f in s.pc if not any(f.eq(d[2]) for d in D)] + [z3.Implies(z3.And(*rng), Mk(i) == bz(m0(i))) for Mk, m0, _ in D]
            ctx.prove("selected if and only if fixed or passing every criterion in turn", hyp + rng, bz(a.fn(i)) == z3.Or(cur(i), fx), timeout=30000)
        v.done()
    return g


B4 = ("iv", "js", "gini", "quality_score")
H = lambda t="int", **k: dict(strategy="highest", top=t, **k)
L = lambda t="int", **k: dict(strategy="lowest", top=t, **k)
SPECS = [("no criteria", "binary", (), None),
         ("bounds", "binary", B4, {"iv": dict(min=1), "gini": dict(max=1), "js": dict(min=1, max=1), "quality_score": dict(min=1)}),
         ("strategy without top", "binary", B4, {"iv": dict(strategy="highest"), "js": dict(top="int", min=1)}),
         ("top highest", "binary", B4, {"iv": H()}), ("top lowest", "binary", B4, {"quality_score": L(min=1)}),
         ("fraction highest", "binary", B4, {"gini": H("frac", min=1, max=1)}), ("fraction lowest", "multiclass", ("js", "quality_score"), {"js": L("frac", max=1)}),
         ("two tops", "binary", B4, {"js": H("frac", min=1), "iv": L(max=1)}), ("top then bounds", "continuous", ("woe", "quality_score"), {"woe": H(), "quality_score": dict(min=1)}),
         ("two tops continuous", "continuous", ("woe", "quality_score"), {"quality_score": H("frac"), "woe": H()}),
         ("two tops multiclass", "multiclass", ("js", "quality_score"), {"quality_score": L("frac", min=1), "js": H(min=1)})]
GROUPS = [(nm, select(dt, od, sp), 60) for nm, dt, od, sp in SPECS]
GROUPS += [("fixed, " + nm, select(dt, od, sp, True), 60) for nm, dt, od, sp in SPECS[1:4] + SPECS[7:8]]


def support_views(ctx):
    """get_support: the mask, the positions in increasing order, the names"""
    v = VC(ctx); st = v.st
    n, S, N = v.int("n", lambda t: t >= 1), v.fun("S", BOOL), v.fun("name", U)
    o = v.obj(M + ":BinningProcess", dict(_support=v.arr(n, S), variable_names=v.arr(n, N, islist=True), _is_fitted=True, _is_updated=False))
    i = z3.Int("i"); rng = [i >= 0, i < n]
    ctx.function("%s:BinningProcess.get_support" % M)
    for s, r in v.returns("mask", v.method(o, "get_support", [])):
        a = v.eng.as_arr(r, s)
        v.prove("get_support is the mask", s, z3.And(rv(a.n) == n, z3.BoolVal(a.mask is None), bz(a.fn(i)) == S(i)), rng)
    for kw, el in ((dict(indices=True), lambda t: rv(t)), (dict(names=True), lambda t: N(t))):
        for s, r in v.returns(str(kw), v.method(o, "get_support", [], kw)):
            a = v.eng.as_arr(r, s)
            v.prove("get_support(%s) lists the selected variables in order" % ",".join(kw), s, z3.And(rv(a.n) == n, (bz(a.mask(i)) if a.mask else z3.BoolVal(True)) == S(i), v.eq(a.fn(i), el(i))), rng)
    v.done()


GROUPS.append(("get_support", support_views, 30))
