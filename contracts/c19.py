"""C19  Outlier detectors flag exactly the records outside their bounds (optbinning/binning/outlier.py)."""
import z3
from lib.vc import *

M = "optbinning.binning.outlier"
SEARCH_BUDGET = 30
PCT, MED, QUANT = z3.Function("percentile_of_x", REAL, REAL), z3.Function("median_of", U, REAL), z3.Function("quantile_of_x", REAL, REAL)
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles; no NaN among the records",
               "numpy.percentile / numpy.quantile / numpy.median are functions of the data (the percentile of the data at the requested level)",
               "numpy.sort returns the sorted permutation, numpy.argmin the first minimum, numpy.digitize(x, s)[i] the number of splits at or below x[i]",
               "the detector used inside a quantile bin is taken by its own contract: one flag per record it is given, in their order"]


def fit_range(method):
    def g(ctx):
        v = VC(ctx); st = v.st
        n, X = v.int("n", lambda n: n >= 1), v.fun("X")
        x = v.arr(n, X)
        L, k = v.real("interval_length", lambda t: t >= 0, lambda t: t <= 1), v.real("k")
        got = []
        def pct(eng, st, a, kw):
            got.append(a[0])
            return st.alloc(HList([PCT(rr(q)) for q in eng.as_items(a[1], st)]))
        v.eng.ext["numpy.percentile"] = pct
        o = v.obj(M + ":RangeDetector", dict(interval_length=L, k=k, method=method, _support=None, _is_fitted=False))
        i, j = z3.Ints("i j")
        ctx.function("%s:RangeDetector._fit" % M); ctx.function("%s:OutlierDetector.get_support" % M)
        m = 0
        for s, r in v.returns("fit", v.method(o, "fit", [x])):
            m += 1
            a = v.eng.as_arr(v.attr(s, o, "_support"), s)
            if method == "ETI":
                ctx.fact("the percentiles are those of the data", all(g_ == x for g_ in got))
                lb, ub = PCT(100 * (1 - L) / 2), PCT(100 * (1 + L) / 2)
            else:
                P = s.ghost.get("perms", ())
                if len(P) != 1: ctx.fact("the data are sorted once", False); continue
                p = P[-1][0]; xs = lambda t: X(p(t))
                w, J = z3.Ints("w J")
                lb, ub = xs(J), xs(J + w)
                # the shortest interval between order statistics w apart, the first one among ties
                c = -z3.ToInt(-(L * z3.ToReal(n)))
                hyp = [w == z3.If(c <= n - 1, c, n - 1), J >= 0, J < n - w,
                       z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n - w), xs(j + w) - xs(j) >= xs(J + w) - xs(J)), patterns=[p(j)]),
                       z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < J), xs(j + w) - xs(j) > xs(J + w) - xs(J)), patterns=[p(j)])]
            iqr = ub - lb
            out = z3.Or(X(i) > ub + k * iqr, X(i) < lb - k * iqr)
            v.prove("one flag per record", s, z3.And(rv(a.n) == n, z3.BoolVal(a.mask is None)))
            v.prove("flagged exactly outside the interval widened by k times its length", s, bz(a.fn(i)) == out, [i >= 0, i < n] + (hyp if method == "HDI" else []), timeout=20000)
            for s2, g2 in v.returns("get_support", v.method(o, "get_support", [], st=s)):
                b = v.eng.as_arr(g2, s2)
                v.prove("get_support returns the flags", s2, z3.And(rv(b.n) == n, bz(b.fn(i)) == bz(a.fn(i))), [i >= 0, i < n])
        ctx.fact("fit returns", m > 0)
        v.done()
    return g


def zscore(ctx):
    v = VC(ctx); st = v.st
    n, X = v.int("n", lambda n: n >= 1), v.fun("X")
    T = v.real("threshold", lambda t: t >= 0)
    med, mad = z3.Reals("median mad")
    calls = []
    def median(eng, st, a, kw):
        calls.append(eng.as_arr(a[0], st))
        if len(calls) > 2: raise Unsupported("median")
        return (med, mad)[len(calls) - 1]
    v.eng.ext["numpy.median"] = median
    st.assume(mad > 0)
    o = v.obj(M + ":ModifiedZScoreDetector", dict(threshold=T, _support=None, _is_fitted=False))
    i = z3.Int("i")
    ctx.function("%s:ModifiedZScoreDetector._fit" % M)
    for s, r in v.returns("fit", v.method(o, "fit", [v.arr(n, X)])):
        a = v.eng.as_arr(v.attr(s, o, "_support"), s)
        d = z3.If(X(i) >= med, X(i) - med, med - X(i))
        rng = [i >= 0, i < n]
        if len(calls) != 2: ctx.fact("median of the data and median absolute deviation", False); continue
        v.prove("the first median is that of the data", s, z3.And(rv(calls[0].n) == n, v.eq(calls[0].fn(i), X(i))), rng)
        v.prove("the second median is that of the absolute deviations", s, z3.And(rv(calls[1].n) == n, v.eq(calls[1].fn(i), d)), rng)
        v.prove("one flag per record", s, z3.And(rv(a.n) == n, z3.BoolVal(a.mask is None)))
        v.prove("flagged exactly where 0.6745 |x - median| > threshold * mad", s, bz(a.fn(i)) == (rv(0.6745) * d > T * mad), rng, timeout=20000)
    v.done()


OUT = z3.Function("detector_flag", z3.ArraySort(INT, BOOL), z3.ArraySort(INT, REAL), INT, BOOL)


def yquantile(kind, params):
    """the quantile detector over the contract of the detector it uses: one flag per record handed over, a function of those records"""
    def g(ctx):
        v = VC(ctx); st = v.st
        n, X, Y = v.int("n", lambda n: n >= 1), v.fun("X"), v.fun("Y")
        nb = v.int("n_bins", lambda t: t >= 1)
        R, S = v.int("R", lambda t: t >= 0), v.fun("S")
        q1, q2, J = z3.Ints("q1 q2 J")
        st.assume(z3.ForAll([q1, q2], z3.Implies(z3.And(0 <= q1, q1 < q2, q2 < R + 2), S(q1) < S(q2))))
        lev, fits = [], []
        def quantile(eng, st, a, kw):
            lev.append((a[0], eng.as_arr(a[1], st))); return st.alloc(HInst("Quantiles", {}))
        def unique(eng, st, a, kw):
            if not (isinstance(a[0], Ref) and getattr(st.get(a[0]), "cls", None) == "Quantiles"): raise Unsupported("unique")
            return v.arr(R + 2, S, st=st)
        def linspace(eng, st, a, kw):
            lo, hi, m = a
            return st.alloc(HArr(Arr((m,), lambda i: rr(lo) + (rr(hi) - rr(lo)) * rr(i) / rr(m - 1), "real")))
        v.eng.ext["numpy.quantile"], v.eng.ext["numpy.unique"], v.eng.ext["numpy.linspace"] = quantile, unique, linspace
        def contract(c):
            def cf(eng, st, a, kw):
                d = dict(zip(("self", "x", "y"), a)); d.update(kw)
                ar, o = eng.as_arr(d["x"], st), d["self"]
                j = fresh("j")
                if c == "RangeDetector" and not eng.decide(z3.Exists([j], z3.And(j >= 0, j < rv(ar.n), bz(ar.mask(j)) if ar.mask is not None else z3.BoolVal(True))), st): raise PyRaise("IndexError", "no records")
                fits.append((c, dict(st.get(o).attrs)))
                sel = z3.Lambda([J], z3.And(J >= 0, J < rv(ar.n), bz(ar.mask(J)) if ar.mask is not None else z3.BoolVal(True)))
                val = z3.Lambda([J], rr(ar.fn(J)))
                at = dict(st.get(o).attrs); at["_is_fitted"] = True
                at["_support"] = st.alloc(HArr(Arr(ar.shape, lambda i: OUT(sel, val, rv(i)), "bool", ar.mask)))
                st.put(o, HInst(st.get(o).cls, at))
            return cf
        for c in ("ModifiedZScoreDetector", "RangeDetector"): v.eng.contracts["%s.%s._fit" % (M, c)] = contract(c)
        o = v.obj(M + ":YQuantileDetector", dict(outlier_detector=kind, outlier_params=st.alloc(HDict(dict(params))) if params else None, n_bins=nb,
                                                 _support=None, _is_fitted=False))
        i = z3.Int("i")
        ctx.function("%s:YQuantileDetector._fit" % M); ctx.function("%s:OutlierDetector.fit" % M); ctx.function("%s:OutlierDetector.get_support" % M)
        for s, r in v.returns("fit", v.method(o, "fit", [v.arr(n, X), v.arr(n, Y)])):
            a = v.eng.as_arr(v.attr(s, o, "_support"), s)
            b = z3.Int("b")
            inb = lambda t: z3.And(z3.Or(b == 0, S(b) <= X(t)), z3.Or(b == R, X(t) < S(b + 1)))
            rng = [i >= 0, i < n, b >= 0, b <= R, inb(i)]
            v.prove("one flag per record", s, z3.And(rv(a.n) == n, z3.BoolVal(a.mask is None)))
            cls = {"zscore": "ModifiedZScoreDetector", "range": "RangeDetector"}[kind]
            want = dict({"zscore": dict(threshold=3.5), "range": dict(interval_length=0.5, k=1.5, method="ETI")}[kind], **(params or {}))
            ctx.fact("the detector asked for, with its parameters", len(fits) > 0 and all(c == cls and all(at.get(k) == w for k, w in want.items()) for c, at in fits), str(fits)[:300])
            if len(lev) != 1: ctx.fact("one set of quantiles", False); continue
            q, l = v.eng.as_arr(lev[0][0], s), lev[0][1]
            v.prove("the quantiles are those of x", s, z3.And(rv(q.n) == n, v.eq(q.fn(i), X(i))), [i >= 0, i < n])
            v.prove("at the levels 0, 1/n_bins, ..., 1", s, z3.And(rv(l.n) == nb + 1, rr(l.fn(i)) * rr(nb) == rr(i)), [i >= 0, i <= nb])
            v.prove("flagged as by the detector on the targets of the record's bin", s, bz(a.fn(i)) == OUT(z3.Lambda([J], z3.And(J >= 0, J < n, inb(J))), z3.Lambda([J], Y(J)), i), rng, timeout=30000)
        v.done()
    return g


GROUPS = [("range ETI", fit_range("ETI"), 40), ("range HDI", fit_range("HDI"), 60), ("zscore", zscore, 40),
          ("quantile bins zscore", yquantile("zscore", None), 60), ("quantile bins zscore params", yquantile("zscore", dict(threshold=2.0)), 60),
          ("quantile bins range", yquantile("range", dict(interval_length=0.4, k=2.0, method="HDI")), 60)]
