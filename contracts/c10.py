"""C10  A score is the scaled linear predictor, additive over variables (Scorecard)."""
import z3
from lib.vc import *
from contracts.fitwire import names_of

S = "optbinning.scorecard.scorecard"
SEARCH_BUDGET = 40
ASSUMPTIONS = ["real arithmetic; the points of the attainable scores differ (max over the rows > min)",
               "no variable has its own transform options (binning_transform_params), so the estimator was fitted on the values of the tables",
               "a binning's transform gives the index of the row of its table that a record belongs to (C02), one column per selected variable (C14); the estimator is a function of its inputs",
               "pandas: concatenation keeps the rows of the tables in order; a boolean mask selects the rows where it is true, in order"]


class PointsOf:
    """column Points of the table of a variable"""
    def __init__(self, name): self.name = name


def tables(v, n):
    """a list of n tables (n symbolic), their number of rows and points; np.min / np.max of the points: an attained bound"""
    N = v.fun("name", U); NT = v.fun("rows", INT, U); PT = v.fun("points", REAL, U, INT)
    MN, MX, AMN, AMX = v.fun("min_points", REAL, U), v.fun("max_points", REAL, U), v.fun("argmin", INT, U), v.fun("argmax", INT, U)
    x, i = z3.Const("x", U), z3.Int("i")
    v.st.assume(z3.ForAll([x], NT(x) >= 1))
    for m, am, le in ((MN, AMN, lambda a, b: a <= b), (MX, AMX, lambda a, b: a >= b)):
        v.st.assume(z3.ForAll([x, i], z3.Implies(z3.And(i >= 0, i < NT(x)), le(m(x), PT(x, i))), patterns=[z3.MultiPattern(PT(x, i), m(x))]))
        v.st.assume(z3.ForAll([x], z3.And(m(x) == PT(x, am(x)), am(x) >= 0, am(x) < NT(x))))
    def attr(eng, o, nm, st):
        if nm == "Points": return PointsOf(o)
        raise Unsupported("table." + nm)
    v.eng.methods[("U", "Points")] = attr
    def wrap(dotted, m):
        old = v.eng.ext.get(dotted) or models_ext(dotted)
        v.eng.ext[dotted] = lambda eng, st, a, kw: m(a[0].name) if isinstance(a[0], PointsOf) and len(a) == 1 and not kw else old(eng, st, a, kw)
    wrap("numpy.min", MN); wrap("numpy.max", MX)
    return v.arr(n, N, islist=True), N, NT, PT, MN, MX


def models_ext(dotted):
    return lambda eng, st, a, kw: npmodels.FUNCS[dotted](eng, st, a, kw)


def points(method, reverse, arr):
    def g(ctx):
        v = VC(ctx); st = v.st
        n, m = v.int("n", lambda t: t >= 1), v.int("m", lambda t: t >= 1)
        bts, N, NT, PT, MN, MX = tables(v, n)
        P = v.fun("P"); I = z3.Real("intercept"); i = z3.Int("i")
        data = {"pdo": v.real("pdo", lambda t: t > 0), "odds": v.real("odds", lambda t: t > 0), "scorecard_points": v.real("base", lambda t: t > 0)} if method == "pdo_odds" else {"min": v.real("a"), "max": v.real("b")}
        if method == "min_max": st.assume(data["min"] <= data["max"])
        ic = v.arr(1, lambda t: I) if arr else I
        lo, hi = v.sum(st, lambda k: MN(N(k)), 0, n), v.sum(st, lambda k: MX(N(k)), 0, n)
        if method == "min_max": st.assume(lo < hi)
        for s, r in v.returns("points", v.run("%s:_compute_scorecard_points" % S, [v.arr(m, P), bts, method, st.alloc(HDict(data)), ic, reverse])):
            a = v.eng.as_arr(r, s)
            v.prove("one point per row", s, rv(a.shape[0]) == m)
            q = rr(a.fn(i)); nr = z3.ToReal(n)
            if method == "pdo_odds":
                F, = [data["pdo"] / LN(rr(2))]; O = data["scorecard_points"] - F * LN(data["odds"])
                sg = -1 if reverse else 1
                v.prove("share of offset - factor * linear predictor", s, q * nr == O - sg * F * (nr * P(i) + I), [i >= 0, i < m])
            else:
                A, B = z3.Reals("A B"); sl = z3.Real("slope")
                lo2, hi2 = v.sum(s, lambda k: MN(N(k)), 0, n), v.sum(s, lambda k: MX(N(k)), 0, n)
                a0, b0 = (data["min"], data["max"]) if reverse else (data["max"], data["min"])
                # a common affine map, whose total over one row per variable takes the sum lo of the smallest points to a0 and the sum hi of the largest to b0
                k = (b0 - a0) / (rr(hi2) - rr(lo2))
                v.prove("affine map from the summed points onto [min, max]", s, q * nr == a0 + k * (nr * P(i) - rr(lo2)), [i >= 0, i < m])
        v.done()
    return g


def lemma(method):
    """from the shares to the total score: one row per variable"""
    def g(ctx):
        v = VC(ctx); st = v.st
        n = v.int("n", lambda t: t >= 1); p, Q = v.fun("p"), v.fun("q")
        k = z3.Int("k"); C, F, lo, hi, a, b = z3.Reals("C F lo hi a b")
        nr = z3.ToReal(n)
        ctx.function("%s:Scorecard.score" % S)
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), Q(k) == C / nr + F * p(k))))
        t, law = v.sum_atom(st, lambda i: C / nr + F * p(i), n)
        sp = rr(v.sum(st, lambda i: p(i), 0, n)); sq = rr(v.sum(st, lambda i: Q(i), 0, n))
        v.prove("a total of shares is the constant plus the factor times the summed points", st, rr(v.sum(st, lambda i: C / nr + F * p(i), 0, n)) == C + F * sp)
        if method == "min_max":
            x = z3.Real("x")
            v.prove("an affine map of [lo, hi] onto its ends stays inside them", st, z3.And(a <= a + (b - a) / (hi - lo) * (x - lo), a + (b - a) / (hi - lo) * (x - lo) <= b), [lo < hi, lo <= x, x <= hi, a <= b])
        v.done()
    return g


def card(v, I):
    """the scorecard table by variable: PT(name, row), NT(name) rows; a mask Variable == name selects the rows of that name, in order"""
    eng, st = v.eng, v.st
    NT, PT = v.fun("rows", INT, U), v.fun("points", REAL, U, INT)
    x = z3.Const("x", U)
    st.assume(z3.ForAll([x], NT(x) >= 1))
    def block(st, nm): return st.alloc(HArr(Arr((NT(nm),), lambda i: PT(nm, rv(i)), "float")))
    def of(eng, st, k):
        r = st.get(k) if isinstance(k, Ref) else None
        if isinstance(r, HInst) and r.cls == "Mask": return r.attrs["name"]
        raise Unsupported("rows of the scorecard")
    def get(eng, st, a, kw):
        if isinstance(a[1], str): return eng.methods[("Card", "*")](eng, a[0], a[1], st)
        return st.alloc(HInst("Block", {"name": of(eng, st, a[1])}))
    def attr(eng, o, nm, st):
        if nm == "Variable": return st.alloc(HInst("Names", {}))
        if nm == "loc": return st.alloc(HInst("CardLoc", {}))
        raise Unsupported("scorecard." + nm)
    eng.methods[("Card", "__getitem__")], eng.methods[("Card", "*")] = get, attr
    eng.methods[("Names", "__eq__")] = lambda eng, st, a, kw: st.alloc(HInst("Mask", {"name": ops.u_of(a[1])}))
    eng.methods[("Names", "values")] = None
    def nattr(eng, o, nm, st):
        if nm == "values": return o
        if nm == "eq": return lambda eng, st, a, kw: st.alloc(HInst("Mask", {"name": ops.u_of(a[0])}))
        raise Unsupported("column." + nm)
    del eng.methods[("Names", "values")]; eng.methods[("Names", "*")] = nattr
    def lget(eng, st, a, kw):
        if isinstance(a[1], tuple) and len(a[1]) == 2 and a[1][1] == "Points": return block(st, of(eng, st, a[1][0]))
        raise Unsupported("scorecard.loc")
    eng.methods[("CardLoc", "__getitem__")] = lget
    def battr(eng, o, nm, st):
        if nm == "Points": return block(st, st.get(o).attrs["name"])
        raise Unsupported("rows." + nm)
    eng.methods[("Block", "*")] = battr
    eng.methods[("Block", "__getitem__")] = lambda eng, st, a, kw: battr(eng, a[0], a[1], st)
    return st.alloc(HInst("Card", {})), NT, PT


def process(v, N, n, ns, VN):
    """the fitted binning process: transform gives TRX(metric, special, missing, record data) by variable"""
    eng, st = v.eng, v.st
    TRX = z3.Function("transformed", U, U, U, U, INT, REAL)
    def tr(eng, st, a, kw):
        d = dict(zip(("X", "metric", "metric_special", "metric_missing", "show_digits", "check_input"), a[1:])); d.update(kw)
        return st.alloc(HInst("XT", {"g": tuple(ops.u_of(d.get(k, 0 if k.startswith("metric_") else None)) for k in ("metric", "metric_special", "metric_missing")), "X": d.get("X")}))
    eng.methods[("BP", "transform")] = tr
    def xget(eng, st, a, kw):
        g = st.get(a[0]).attrs["g"]; nm = ops.u_of(a[1])
        isint = v.eng.entails(st.pc, g[0] == ops.u_of("indices"))
        f = (lambda i: z3.ToInt(TRX(*g, nm, rv(i)))) if isint else (lambda i: TRX(*g, nm, rv(i)))
        return st.alloc(HArr(Arr((ns,), f, "int" if isint else "float")))
    eng.methods[("XT", "__getitem__")] = xget
    def xattr(eng, o, nm, st):
        if nm == "shape": return (ns, n)
        raise Unsupported("frame." + nm)
    eng.methods[("XT", "*")] = xattr
    eng.methods[("XT", "__len__")] = lambda eng, st, a, kw: ns
    eng.methods[("BP", "get_support")] = lambda eng, st, a, kw: v.arr(n, N, st=st)
    def battr(eng, o, nm, st):
        if nm == "variable_names": return VN
        raise Unsupported("process." + nm)
    eng.methods[("BP", "*")] = battr
    def dget(eng, st, a, kw):
        if a[1] is VN or (isinstance(a[1], Ref) and a[1] == VN): return st.alloc(HInst("XSel", {}))
        raise Unsupported("columns of X")
    eng.methods[("DataFrame", "__getitem__")] = dget
    return st.alloc(HInst("BP", {})), TRX


def score(ctx):
    """every record's score: the intercept plus the points of its row in the table of each selected variable"""
    v = VC(ctx); st = v.st
    n, ns = v.int("n_selected", lambda t: t >= 1), v.int("n_samples", lambda t: t >= 1)
    N = v.fun("name", U); I = z3.Real("intercept")
    df, NT, PT = card(v, I)
    VN = v.list(["a", "b"])
    bp, TRX = process(v, N, n, ns, VN)
    g = [ops.u_of(t) for t in ("indices", "empirical", "empirical")]
    st.assume(z3.Distinct(*[ops.u_of(t) for t in ("woe", "bins", "indices", "empirical", None, 0)]))
    x, r, j = z3.Const("x", U), z3.Int("r"), z3.Int("j")
    st.assume(z3.ForAll([x, r], z3.And(z3.ToInt(TRX(*g, x, r)) >= 0, z3.ToInt(TRX(*g, x, r)) < NT(x), z3.IsInt(TRX(*g, x, r))), patterns=[TRX(*g, x, r)]))
    o = v.obj(S + ":Scorecard", dict(binning_process_=bp, _df_scorecard=df, intercept_=I, _is_fitted=True))
    X = st.alloc(HInst("DataFrame", {}))
    ctx.function(S + ":Scorecard.score"); ctx.function(S + ":Scorecard._transform")
    for s, res in v.returns("score", v.method(o, "score", [X])):
        a = v.eng.as_arr(res, s)
        v.prove("one score per record", s, rv(a.shape[0]) == ns)
        i = z3.Int("i")
        want = v.sum(s, lambda k: PT(N(k), z3.ToInt(TRX(*g, N(k), i))), 0, n)
        v.prove("intercept plus the points of the record's rows", s, rr(a.fn(i)) == I + rr(want), [i >= 0, i < ns])
    v.done()


def wire(meth):
    """predictions are the estimator's on the transform with the values given to fit"""
    def g(ctx):
        v = VC(ctx); st = v.st; eng = v.eng
        n, ns = v.int("n_selected", lambda t: t >= 1), v.int("n_samples", lambda t: t >= 1)
        VN = v.list(["a", "b"])
        bp, TRX = process(v, v.fun("name", U), n, ns, VN)
        sp, ms = z3.Const("special", U), z3.Const("missing", U)
        got = []
        def est(name):
            def c(eng, st, a, kw):
                if len(a) != 2 or kw: raise Unsupported("estimator arguments")
                got.append((name, st.get(a[1]))); return Opaque("of " + name)
            return c
        for m in ("predict", "predict_proba", "decision_function"): eng.methods[("Est", m)] = est(m)
        o = v.obj(S + ":Scorecard", dict(binning_process_=bp, estimator_=st.alloc(HInst("Est", {})), _metric_special=sp, _metric_missing=ms, _is_fitted=True))
        ctx.function("%s:Scorecard.%s" % (S, meth))
        for s, res in v.returns(meth, v.method(o, meth, [st.alloc(HInst("DataFrame", {}))])):
            ctx.fact("%s of the estimator" % meth, isinstance(res, Opaque) and res.name == "of " + meth)
            c, xt = got[-1]
            ctx.fact("%s: called on the transformed records" % meth, c == meth and isinstance(xt, HInst) and xt.cls == "XT" and s.get(xt.attrs["X"]).cls == "XSel")
            for q, w in zip(xt.attrs["g"], (ops.u_of(None), sp, ms)): v.prove("%s: values for metric, special and missing" % meth, s, q == w)
        v.done()
    return g


def intercept(nv):
    """nv variables with any numbers of rows: totals unchanged, smallest points zero"""
    def g(ctx):
        v = VC(ctx); st = v.st; eng = v.eng
        nt = [v.int("rows%d" % k, lambda t: t >= 1) for k in range(nv)]
        off = [sum(nt[:k], z3.IntVal(0)) for k in range(nv + 1)]
        m = off[-1]; P = v.fun("P")
        names = ["v%d" % k for k in range(nv)]
        V = v.fun("variable", U)
        i = z3.Int("i")
        for k in range(nv): st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= off[k], i < off[k + 1]), V(i) == ops.u_of(names[k]))))
        st.assume(z3.Distinct(*[ops.u_of(t) for t in names + ["?"]]))
        eng.methods[("Names", "unique")] = lambda eng, st, a, kw: v.list(list(names), st)
        def is_(st, nm):
            k = names.index(nm)
            return st.alloc(HArr(Arr((m,), lambda t: z3.And(rv(t) >= off[k], rv(t) < off[k + 1]), "bool")))
        eng.methods[("Names", "__eq__")] = lambda eng, st, a, kw: is_(st, a[1])
        def attr(eng, o, nm, st):
            if nm == "Variable": return st.alloc(HInst("Names", {}))
            if nm == "Points": return st.alloc(HArr(Arr((m,), lambda t: P(rv(t)), "float")))
            if nm == "shape": return (m, 5)
            raise Unsupported("scorecard." + nm)
        def get(eng, st, a, kw):
            if isinstance(a[1], str): return attr(eng, a[0], a[1], st)
            k = eng.as_arr(a[1], st)
            if k is None or k.dtype != "bool": raise Unsupported("rows of the scorecard")
            return st.alloc(HInst("Sub", {"mask": k}))
        eng.methods[("Card", "*")], eng.methods[("Card", "__getitem__")] = attr, get
        eng.methods[("Card", "__len__")] = lambda eng, st, a, kw: m
        def sub(eng, o, nm, st):
            if nm == "Points":
                k = st.get(o).attrs["mask"]
                return st.alloc(HArr(Arr((m,), lambda t: P(rv(t)), "float", mask=lambda t: bz(k.fn(t)))))
            raise Unsupported("rows." + nm)
        eng.methods[("Sub", "*")] = sub
        df = st.alloc(HInst("Card", {}))
        for s, res in v.returns("intercept based", v.run(S + ":_compute_intercept_based", [df])):
            sc, ic = res
            a = eng.as_arr(sc, s)
            v.prove("one point per row", s, rv(a.shape[0]) == m)
            r = [z3.Int("r%d" % k) for k in range(nv)]
            inb = [z3.And(r[k] >= off[k], r[k] < off[k + 1]) for k in range(nv)]
            v.prove("no total score changes", s, sum([rr(a.fn(x)) for x in r], rr(ic)) == sum([P(x) for x in r], rr(0)), inb)
            for k in range(nv):
                v.prove("points are not negative", s, rr(a.fn(r[k])) >= 0, [inb[k]])
                v.prove("the smallest points of a variable are zero", s, z3.Exists([i], z3.And(i >= off[k], i < off[k + 1], rr(a.fn(i)) == 0)))
        v.done()
    return g


def frames(v):
    """frames with integer row labels 0..rows-1: a dict of columns; .loc with label slices (both ends included)"""
    eng = v.eng
    def col(st, o, nm):
        r = st.get(o)
        if nm not in r.attrs["cols"]: raise PyRaise("KeyError", nm)
        a = r.attrs["cols"][nm]
        return st.alloc(HArr(a))
    def attr(eng, o, nm, st):
        r = st.get(o)
        if nm == "loc": return st.alloc(HInst("TabLoc", {"o": o}))
        if nm == "index": return st.alloc(HInst("Index", {}))
        if nm == "shape": return (r.attrs["n"], len(r.attrs["cols"]))
        if nm == "columns": return v.list(list(r.attrs["cols"]), st)
        if nm == "reset_index":
            def ri(eng, st, a, kw):
                r = st.get(o)
                n = HInst("Tab", dict(r.attrs, labels=True))
                if not kw.get("inplace"): return st.alloc(n)
                st.put(o, n)
            return ri
        if nm in r.attrs["cols"]: return col(st, o, nm)
        raise Unsupported("frame." + nm)
    def put(st, o, nm, f, n):
        r = st.get(o)
        st.put(o, HInst("Tab", dict(r.attrs, cols=dict(r.attrs["cols"], **{nm: f}))))
    def setcol(eng, st, a, kw):
        o, nm, val = a
        if not isinstance(nm, str): raise Unsupported("frame[...] =")
        n = st.get(o).attrs["n"]
        w = eng.as_arr(val, st)
        put(st, o, nm, Arr((n,), (lambda i: w.fn(i)) if w is not None else (lambda i: val), w.dtype if w is not None else "obj" if isinstance(val, str) or is_z3(val) and val.sort() == U else "float"), n)
    def lset(eng, st, a, kw):
        lo, k, val = a
        o = st.get(lo).attrs["o"]; r = st.get(o); n = r.attrs["n"]
        if not isinstance(k, tuple) or len(k) != 2 or not isinstance(k[1], str): raise Unsupported("frame.loc[...] =")
        rows, nm = k
        w = eng.as_arr(val, st)
        if isinstance(rows, SliceVal):
            if rows.lo is None and rows.hi is None: return setcol(eng, st, [o, nm, val], {})
            if rows.step is not None or not r.attrs.get("rng"): raise Unsupported("frame.loc slice")
            sel = lambda i: z3.And(*([] if rows.lo is None else [rv(i) >= rv(rows.lo)]), *([] if rows.hi is None else [rv(i) <= rv(rows.hi)]))
        elif is_num(rows):
            if not r.attrs.get("rng"): raise Unsupported("frame.loc row")
            if not eng.entails(st.pc, z3.And(rv(rows) >= 0, rv(rows) < rv(n))): raise Unsupported("frame.loc row outside the frame")
            sel = lambda i: rv(i) == rv(rows)
        else: raise Unsupported("frame.loc[...] =")
        if w is not None: raise Unsupported("frame.loc rows = array")
        if nm not in r.attrs["cols"]: raise Unsupported("new column by rows")
        old = r.attrs["cols"][nm]
        put(st, o, nm, Arr((n,), lambda i: z3.If(sel(i), rr(val), rr(old.fn(i))), "float"), n)
    eng.methods[("Tab", "*")], eng.methods[("Tab", "__setitem__")], eng.methods[("TabLoc", "__setitem__")] = attr, setcol, lset
    eng.methods[("Tab", "__getitem__")] = lambda eng, st, a, kw: col(st, a[0], a[1]) if isinstance(a[1], str) else (_ for _ in ()).throw(Unsupported("frame[...]"))
    eng.methods[("Tab", "__len__")] = lambda eng, st, a, kw: st.get(a[0]).attrs["n"]
    def concat(eng, st, a, kw):
        ts = [st.get(t) for t in eng.as_items(a[0], st)]
        off = [sum((rv(t.attrs["n"]) for t in ts[:k]), z3.IntVal(0)) for k in range(len(ts) + 1)]
        def glue(nm):
            cs = [t.attrs["cols"][nm] for t in ts]
            def f(i):
                i = rv(i); out = cs[-1].fn(i - off[len(cs) - 1]); out = ops.u_of(out) if cs[-1].dtype == "obj" else rr(out)
                for k in reversed(range(len(cs) - 1)):
                    e = cs[k].fn(i - off[k]); out = z3.If(i < off[k + 1], ops.u_of(e) if cs[k].dtype == "obj" else rr(e), out)
                return out
            return Arr((off[-1],), f, cs[0].dtype)
        names = [nm for nm in ts[0].attrs["cols"] if all(nm in t.attrs["cols"] for t in ts)]
        return st.alloc(HInst("Tab", {"cols": {nm: glue(nm) for nm in names}, "n": off[-1], "rng": False}))
    eng.ext["pandas.concat"] = concat


def fit(target, scaling, nv=2, based=False, reverse=False, rounding=False, special="none", metrics=("num", "num"), weights=False, mip=True, stale=True):
    def g(ctx):
        v = VC(ctx); st = v.st; eng = v.eng
        frames(v)
        eng.ext["time.perf_counter"] = lambda eng, st, a, k: z3.Real("clock")
        names = ["v%d" % k for k in range(nv)]
        nt = [v.int("rows%d" % k) for k in range(nv)]
        sp = lambda st: None if special == "none" else v.list([-9, -8], st) if special == "list" else st.alloc(HDict({"a": -9, "b": v.list([-8, -7], st)}))
        nsp = 2 if special == "dict" else 1
        for t in nt: st.assume(t >= 2 + nsp)
        W, C = [v.fun("metric%d" % k) for k in range(nv)], v.fun("coef")
        I = z3.Real("estimator_intercept")
        ms = z3.Real("m_special") if metrics[0] == "num" else "empirical"
        mm = z3.Real("m_missing") if metrics[1] == "num" else "empirical"
        bp, est, bp0, est0 = [st.alloc(HInst(c, {})) for c in ("BP", "Est", "BP0", "Est0")]
        calls = st.alloc(HList([]))
        def rec(st, *t): st.put(calls, HList(list(st.get(calls).items) + [t]))
        def clone(eng, st, a, kw): return {bp0: bp, est0: est}.get(a[0]) or (_ for _ in ()).throw(Unsupported("clone"))
        eng.ext["sklearn.base.clone"] = clone
        VN = v.list(names)
        eng.methods[("BP0", "*")] = lambda eng, o, nm, st: VN if nm == "variable_names" else (_ for _ in ()).throw(Unsupported("process." + nm))
        eng.methods[("BP", "set_params")] = lambda eng, st, a, kw: a[0]
        XT, X, Y, SW = [st.alloc(HInst(c, {})) for c in ("XT", "DataFrame", "Y", "W")]
        XS = st.alloc(HInst("XSel", {}))
        eng.methods[("DataFrame", "__getitem__")] = lambda eng, st, a, kw: XS if a[1] == VN else (_ for _ in ()).throw(Unsupported("columns of X"))
        FN = ("X", "y", "sample_weight", "metric", "metric_special", "metric_missing", "show_digits", "check_input")
        def ftr(eng, st, a, kw):
            d = dict(zip(FN, a[1:])); d.update(kw); rec(st, "binning", d); return XT
        eng.methods[("BP", "fit_transform")] = ftr
        def bfit(eng, st, a, kw):
            d = dict(zip(FN[:3] + ("check_input",), a[1:])); d.update(kw); rec(st, "binning fit", d); return a[0]
        def supp(eng, st, a, kw):
            if kw.get("names") is not True: raise Unsupported("get_support")
            return v.list(list(names), st)
        eng.methods[("BP", "get_support")] = supp
        eng.methods[("BP", "get_binned_variable")] = lambda eng, st, a, kw: st.alloc(HInst("Optb", {"special_codes": sp(st), "binning_table": st.alloc(HInst("BT", {"k": names.index(a[1])}))}))
        bt_metric = "WoE" if target == "binary" else "Mean"
        def build(eng, st, a, kw):
            k = st.get(a[0]).attrs["k"]
            if kw.get("add_totals") is not False: raise Unsupported("table with totals")
            cols = {nm: Arr((nt[k],), lambda i, f=v.fun("%s%d" % (nm.replace(" ", "_"), k)): f(rv(i)), "float") for nm in ("Count", "WoE", "Mean", "Event rate")}
            cols["Bin"] = Arr((nt[k],), lambda i, f=v.fun("Bin%d" % k, U): f(rv(i)), "obj")
            cols[bt_metric] = Arr((nt[k],), lambda i: W[k](rv(i)), "float")
            return st.alloc(HInst("Tab", {"cols": cols, "n": nt[k], "rng": True}))
        eng.methods[("BT", "build")] = build
        def efit(eng, st, a, kw): rec(st, "estimator", {"a": tuple(a[1:]), "kw": dict(kw)}); return a[0]
        eng.methods[("Est", "fit")] = efit
        def eattr(eng, o, nm, st):
            if nm == "coef_": return st.alloc(HArr(Arr((1, nv), lambda i, j: C(rv(j)), "float"))) if target == "binary" else st.alloc(HArr(Arr((nv,), lambda j: C(rv(j)), "float")))
            if nm == "intercept_": return st.alloc(HArr(Arr((1,), lambda i: I, "float"))) if target == "binary" else I
            raise PyRaise("AttributeError", nm)
        eng.methods[("Est", "*")] = eattr
        eng.ext["sklearn.utils.multiclass.type_of_target"] = lambda eng, st, a, kw: target
        eng.contracts[S + "._check_parameters"] = eng.contracts[S + "._check_scorecard_scaling"] = lambda eng, st, a, kw: None
        SP, IP, RP, II = v.fun("scaled"), v.fun("shifted"), v.fun("rounded"), z3.Real("new_intercept")
        total = sum(nt[1:], nt[0])
        pn = names_of(v, S + "._compute_scorecard_points")
        def cpoints(eng, st, a, kw):
            d = dict(zip(pn, a)); d.update(kw); rec(st, "scale", dict(d, tabs=[st.get(t) for t in eng.as_items(d["binning_tables"], st)]))
            return st.alloc(HArr(Arr((total,), lambda i: SP(rv(i)), "float")))
        def cint(eng, st, a, kw):
            d = dict(zip(("df_scorecard",), a)); d.update(kw); rec(st, "base", {"df": st.get(d["df_scorecard"])})
            return (st.alloc(HArr(Arr((total,), lambda i: IP(rv(i)), "float"))), II)
        eng.contracts[S + "._compute_scorecard_points"], eng.contracts[S + "._compute_intercept_based"] = cpoints, cint
        eng.contracts["optbinning.scorecard.rounding.RoundingMIP"] = lambda eng, st, a, kw: st.alloc(HInst("RMIP", {}))
        def rbuild(eng, st, a, kw): rec(st, "mip", {"df": st.get(a[1])})
        eng.methods[("RMIP", "build_model")] = rbuild
        status = z3.Const("status", U)
        eng.methods[("RMIP", "solve")] = lambda eng, st, a, kw: (mip, st.alloc(HArr(Arr((total,), lambda i: RP(rv(i)), "float", islist=True))) if mip in ("OPTIMAL", "FEASIBLE") else None)
        params = st.alloc(HDict({"min": z3.Real("a"), "max": z3.Real("b")} if scaling == "min_max" else {"pdo": z3.Real("pdo"), "odds": z3.Real("odds"), "scorecard_points": z3.Real("pts")})) if scaling else None
        cls = eng.module(S).lookup("Scorecard")
        o = eng.instantiate(cls, [], dict(binning_process=bp0, estimator=est0, scaling_method=scaling, scaling_method_params=params, intercept_based=based, reverse_scorecard=reverse, rounding=rounding, verbose=False), st)
        at = dict(st.get(o).attrs)
        if stale: at.update(intercept_=z3.Real("stale_intercept"), _metric_special="stale", _metric_missing="stale", _df_scorecard=Opaque("stale"), _is_fitted=True)
        st.put(o, HInst(cls, at))
        kw = dict(metric_special=ms, metric_missing=mm)
        if weights: kw["sample_weight"] = SW
        ctx.function(S + ":Scorecard._fit"); ctx.function(S + ":Scorecard.fit")
        for s, res in v.returns("fit", v.method(o, "fit", [X, Y], kw)):
            L = s.get(calls).items
            one = lambda nm: ([c[1] for c in L if c[0] == nm] + [None])[0]
            b, e = one("binning"), one("estimator")
            ctx.fact("one binning, one estimator fit", b is not None and e is not None and [c[0] for c in L].count("binning") == 1 and [c[0] for c in L].count("estimator") == 1)
            if b is None or e is None: continue
            same = lambda x, y: x == y if isinstance(x, (Ref, str)) or x is None or isinstance(y, (Ref, str)) or y is None else (is_z3(x) and is_z3(y) and x.eq(y)) or (not is_z3(x) and not is_z3(y) and x == y)
            ctx.fact("binning of the data with the table's metric and the given special and missing values",
                     b.get("X") == XS and b.get("y") == Y and b.get("sample_weight") == (SW if weights else None) and b.get("metric") == ("woe" if target == "binary" else "mean") and same(b.get("metric_special"), ms) and same(b.get("metric_missing"), mm))
            ctx.fact("estimator fitted on the transformed data", e["a"][:2] == (XT, Y) and (e["kw"].get("sample_weight") == SW if weights else not e["kw"].get("sample_weight") and len(e["a"]) == 2))
            A = lambda nm: v.attr(s, o, nm)
            ctx.fact("estimator and binning process are the fitted clones", A("estimator_") == est and A("binning_process_") == bp)
            ctx.fact("the values of fit are kept for the predictions", same(A("_metric_special"), ms) and same(A("_metric_missing"), mm))
            off = [sum(nt[:k], z3.IntVal(0)) for k in range(nv + 1)]
            i = z3.Int("i")
            df = s.get(A("_df_scorecard"))
            def raw(k, i):
                x = W[k](i)
                if metrics[0] == "num": x = z3.If(z3.And(i >= nt[k] - 1 - nsp, i <= nt[k] - 2), ms, x)
                if metrics[1] == "num": x = z3.If(i == nt[k] - 1, mm, x)
                return C(k) * x
            def col(d, nm): return d.attrs["cols"][nm]
            v.prove("rows of all tables", s, rv(df.attrs["n"]) == total)
            for k in range(nv):
                inb = [i >= 0, i < nt[k]]
                p = rr(col(df, "Points").fn(i + off[k]))
                v.prove("variable of each row", s, ops.u_of(col(df, "Variable").fn(i + off[k])) == ops.u_of(names[k]), inb)
                v.prove("coefficient of each row", s, rr(col(df, "Coefficient").fn(i + off[k])) == C(k), inb)
                v.prove("metric of each row", s, rr(col(df, bt_metric).fn(i + off[k])) == W[k](i), inb)
                cur = raw(k, i)
                if scaling:
                    sc = one("scale")
                    if k == 0: ctx.fact("points are scaled with the method and parameters, once", sc is not None and [c[0] for c in L].count("scale") == 1 and sc["method"] == scaling and sc["method_data"] == params and sc["reverse_scorecard"] is reverse)
                    if sc is None: continue
                    ic = eng.as_arr(sc["intercept"], s)
                    if k == 0:
                        v.prove("the estimator's intercept is scaled", s, (rr(ic.fn(0)) if ic is not None else rr(sc["intercept"])) == I)
                        ctx.fact("all tables are scaled together", len(sc["tabs"]) == nv)
                    v.prove("scaled points are coefficient times metric", s, rr(eng.as_arr(sc["points"], s).fn(i + off[k])) == raw(k, i), inb)
                    v.prove("points of each table are coefficient times metric", s, rr(col(sc["tabs"][k], "Points").fn(i)) == raw(k, i), inb + [rv(sc["tabs"][k].attrs["n"]) == nt[k]])
                    cur = SP(i + off[k])
                if based:
                    d = one("base")
                    ctx.fact("the intercept based points are computed once", d is not None and [c[0] for c in L].count("base") == 1)
                    if d is None: continue
                    v.prove("the intercept based points start from the scaled points", s, z3.And(rr(col(d["df"], "Points").fn(i + off[k])) == cur, ops.u_of(col(d["df"], "Variable").fn(i + off[k])) == ops.u_of(names[k])), inb)
                    cur = IP(i + off[k])
                if rounding:
                    d = one("mip")
                    if scaling == "min_max":
                        ctx.fact("the rounding model is built from the scorecard", d is not None)
                        if d is None: continue
                        v.prove("the rounding model gets the points", s, z3.And(rr(col(d["df"], "Points").fn(i + off[k])) == cur, ops.u_of(col(d["df"], "Variable").fn(i + off[k])) == ops.u_of(names[k])), inb)
                    if scaling == "min_max" and mip in ("OPTIMAL", "FEASIBLE"): v.prove("points of the rounding model, by row", s, p == RP(i + off[k]), inb)
                    else: v.prove("points rounded to an integer next to them", s, z3.And(z3.IsInt(p), p - cur <= z3.RealVal("1/2"), cur - p <= z3.RealVal("1/2")), inb)
                else: v.prove("points of each row", s, p == cur, inb)
            it = A("intercept_")
            if not based: v.prove("no intercept when it is part of the points", s, rr(it) == 0)
            elif rounding: v.prove("intercept rounded to an integer next to it", s, z3.And(z3.IsInt(rr(it)), rr(it) - II <= z3.RealVal("1/2"), II - rr(it) <= z3.RealVal("1/2")))
            else: v.prove("intercept of the intercept based points", s, rr(it) == II)
        v.done()
    return g


GROUPS = [("points %s%s%s" % (m, " reversed" if r else "", " array intercept" if a else ""), points(m, r, a), 60) for m in ("pdo_odds", "min_max") for r in (False, True) for a in (False, True)]
GROUPS += [("total " + m, lemma(m), 30) for m in ("pdo_odds", "min_max")]
GROUPS += [("score", score, 60)] + [("wire " + m, wire(m), 30) for m in ("predict", "predict_proba", "decision_function")]
GROUPS += [("intercept based, %d variables" % k, intercept(k), 60) for k in (1, 2, 3)]
GROUPS += [("fit %s%s" % (t, "" if nv == 2 else ", %d variables" % nv), fit(t, None, nv), 60) for t in ("binary", "continuous") for nv in (1, 2, 3)]
GROUPS += [("fit binary, special %s, metrics %s %s" % (sp, a, b), fit("binary", None, special=sp, metrics=(a, b)), 60) for sp in ("none", "list", "dict") for a, b in (("num", "emp"), ("emp", "num"), ("emp", "emp"), ("num", "num")) if sp != "none" or a == b == "emp"]
GROUPS += [("fit %s %s%s%s" % (t, m, " reversed" if r else "", " intercept based" if b else ""), fit(t, m, based=b, reverse=r, weights=r and t == "binary"), 60)
           for t, m in (("binary", "pdo_odds"), ("binary", "min_max"), ("continuous", "min_max")) for r in (False, True) for b in (False, True)]
