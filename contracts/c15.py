"""C15  Stability index and system tests are exact functions of the counts (scorecard/monitoring.py, metrics/classification.py, metrics/regression.py)."""
import z3
from lib.vc import *
from pyvc import pdmodels

M = "optbinning.scorecard.monitoring"
SEARCH_BUDGET = 40
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles; integer counts unbounded; no NaN scores", "laws of ln: ln(a/b) = ln a - ln b, monotone",
               "the term of the stability index is specified for bins with records in both samples (it is infinite or undefined otherwise)",
               "numpy.digitize, scipy.stats.chi2_contingency and ttest_ind_from_stats, sklearn's confusion matrix, regression scores and roc_curve are what they document",
               "the loop over variables is unrolled for two variables (it carries only the list of tables); indices of known categories are not negative (C01)", "scores, predictions and probabilities of a scorecard: C10; pre-binning splits are strictly increasing (C08)"]


def cardinal(v, n, cond): return v.sum(v.st, lambda b: z3.If(cond(b), z3.IntVal(1), z3.IntVal(0)), 0, n)


J = z3.Int("J")
STD = z3.Function("std_of", z3.ArraySort(INT, BOOL), z3.ArraySort(INT, REAL), REAL)
def std_of(n, sel, val): return STD(z3.Lambda([J], z3.And(J >= 0, J < rv(n), bz(sel(J)))), z3.Lambda([J], rr(val(J))))
def m_std(eng, st, a, kw):
    if len(a) > 1 or kw: raise Unsupported("std with options")
    ar = eng.as_arr(a[0], st)
    return std_of(ar.n, (lambda t: True) if ar.mask is None else ar.mask, ar.fn)


def monitor(v, dtype, **at):
    d = dict(scorecard=None, psi_method="cart", psi_n_bins=20, psi_min_bin_size=0.05, show_digits=2, verbose=False, _target_dtype=dtype, _is_fitted=False)
    d.update(at)
    return v.obj(M + ":ScorecardMonitoring", d)


def method_capture(v, name, log, ret=None):
    cls = v.eng.module(M).lookup("ScorecardMonitoring")
    fn = v.eng.class_attr(cls, name).node
    names = [a.arg for a in fn.args.args]
    def c(eng, st, a, kw):
        d = dict(zip(names, a)); d.update(kw)
        log.append((name, d))
    v.eng.contracts["%s.ScorecardMonitoring.%s" % (M, name)] = c


def psi(ctx):
    v = VC(ctx); st = v.st
    n = v.int("n", lambda t: t >= 1)
    A, E = v.fun("A", INT), v.fun("E", INT)
    a, e = v.arr(n, A, cond=lambda i: A(i) > 0), v.arr(n, E, cond=lambda i: E(i) > 0)
    TA, TE = v.sum(st, A, 0, n), v.sum(st, E, 0, n)
    st.assume(TA > 0); st.assume(TE > 0)
    o = monitor(v, "binary")
    bs = v.arr(n, v.fun("label", U), islist=True)
    i = z3.Int("i"); rng = [i >= 0, i < n, A(i) > 0, E(i) > 0]
    ctx.function("%s:ScorecardMonitoring._system_psi" % M)
    for s, r in v.returns("psi", v.method(o, "_system_psi", [bs, a, e])):
        cols, rows = pdmodels.frame(s, v.attr(s, o, "_df_psi"))
        C = lambda nm: v.get(s, cols[nm], i)
        pa, pe = rr(A(i)) / rr(TA), rr(E(i)) / rr(TE)
        v.prove("Count A, Count E: the given counts", s, z3.And(v.eq(C("Count A"), A(i)), v.eq(C("Count E"), E(i))), rng)
        v.prove("Count A (%) is the share of the actual records", s, v.eq(C("Count A (%)"), pa), rng)
        v.prove("Count E (%) is the share of the expected records", s, v.eq(C("Count E (%)"), pe), rng)
        v.prove("PSI = (actual - expected share) ln(actual/expected share)", s, v.eq(C("PSI"), xlogy(pa - pe, pa / pe)), rng, timeout=20000)
        v.prove("PSI >= 0", s, rr(C("PSI")) >= 0, rng, timeout=20000)
        ctx.fact("one total row", len(rows) == 1, str(rows))
        if len(rows) == 1:
            t = dict(zip(cols, list(rows.values())[0]))
            v.prove("totals of the counts are their sums", s, z3.And(v.eq(t["Count A"], TA), v.eq(t["Count E"], TE)))
            v.prove("totals of the shares are 1", s, z3.And(v.eq(t["Count A (%)"], rv(1)), v.eq(t["Count E (%)"], rv(1))))
            v.prove("total PSI is the sum of the column", s, v.eq(t["PSI"], v.sum(s, lambda b: rr(v.eng.as_arr(cols["PSI"], s).fn(b)), 0, n)), timeout=20000)
    v.done()


def system(dtype):
    def g(ctx):
        v = VC(ctx); st = v.st; eng = v.eng
        na, ne = v.int("n_actual", lambda t: t >= 1), v.int("n_expected", lambda t: t >= 1)
        SA, SE = v.fun("score_actual"), v.fun("score_expected")
        ysort = INT if dtype == "binary" else REAL
        YA, YE = v.fun("y_actual", ysort), v.fun("y_expected", ysort)
        K, S = v.int("n_splits", lambda t: t >= 0), v.fun("split")
        q1, q2 = z3.Ints("q1 q2")
        st.assume(z3.ForAll([q1, q2], z3.Implies(z3.And(0 <= q1, q1 < q2, q2 < K), S(q1) < S(q2))))
        XA, XE = Opaque("X_actual"), Opaque("X_expected")
        card = st.alloc(HInst("Card", {}))
        def score(eng, st, a, kw):
            return v.arr(na, SA, st=st) if a[1] is XA else v.arr(ne, SE, st=st) if a[1] is XE else 1 / 0
        eng.methods[("Card", "score")] = score
        pre = []
        def mkpre(eng, st, a, kw):
            pre.append(("new", a, kw)); return st.alloc(HInst("PreBinning", {}))
        eng.contracts["optbinning.binning.prebinning.PreBinning"] = mkpre
        def pfit(eng, st, a, kw):
            pre.append(("fit", a, kw)); return st.alloc(HInst("PreBinning", {"splits": v.arr(K, S, st=st)}))
        eng.methods[("PreBinning", "fit")] = pfit
        eng.contracts["optbinning.binning.binning_statistics.bin_str_format"] = lambda eng, st, a, kw: Opaque("labels")
        log = []
        for nm in ("_system_target_binary", "_system_target_continuous", "_system_psi", "_system_tests_binary", "_system_tests_continuous", "_system_performance_binary", "_system_performance_continuous"):
            method_capture(v, nm, log)
        o = monitor(v, dtype, scorecard=card)
        ya, ye = v.arr(na, YA, cond=(lambda i: z3.Or(YA(i) == 0, YA(i) == 1)) if dtype == "binary" else None), v.arr(ne, YE, cond=(lambda i: z3.Or(YE(i) == 0, YE(i) == 1)) if dtype == "binary" else None)
        b = z3.Int("b")
        inb = lambda sc, t: z3.And(z3.Or(b == 0, S(b - 1) < sc(t)), z3.Or(b == K, sc(t) <= S(b)))
        rng = [b >= 0, b <= K]
        eng.methods[("ndarray", "std")] = m_std
        DIG = []
        for nm in ("numpy.digitize", "numpy.searchsorted"):
            def dg(eng, st, a, kw, m0=eng.ext[nm]):
                r = m0(eng, st, a, kw); DIG.append(eng.as_arr(r, st)); return r
            eng.ext[nm] = dg
        ctx.function("%s:ScorecardMonitoring._fit_system" % M)
        for s, r in v.returns("system", v.method(o, "_fit_system", [XA, ya, XE, ye])):
            ctx.fact("each table once", sorted(x[0] for x in log) == sorted(["_system_psi"] + ["_system_%s_%s" % (t, dtype) for t in ("target", "tests", "performance")]), str([x[0] for x in log]))
            L = dict(log)
            ctx.fact("splits from the scores and targets of the expected sample", len(pre) == 2)
            if len(pre) == 2:
                f, w = [eng.as_arr(x, s) for x in pre[1][1][1:3]]
                i = z3.Int("i")
                v.prove("splits: fitted on the expected scores and targets", s, z3.And(rv(f.n) == ne, rv(w.n) == ne, v.eq(f.fn(i), SE(i)), v.eq(w.fn(i), YE(i))), [i >= 0, i < ne])
            # D: the bin of each record, given by the code's digitize; it is the bin whose limits hold the score, and no other
            t, D = z3.Int("t"), {}
            for sc, n, nm in ((SA, na, "actual"), (SE, ne, "expected")):
                for a in DIG:
                    if rv(a.n).eq(n): D[nm] = a
                if nm not in D: ctx.fact("bins of the %s records" % nm, False); continue
                v.prove("%s: a record lies in exactly the bin whose limits hold its score" % nm, s, (rv(D[nm].fn(t)) == b) == inb(sc, t), rng + [t >= 0, t < n], timeout=20000)
                v.prove("%s: every record lies in one bin" % nm, s, z3.And(rv(D[nm].fn(t)) >= 0, rv(D[nm].fn(t)) <= K), [t >= 0, t < n])
            if len(D) < 2: continue
            true = lambda t: z3.BoolVal(True)
            def cnt(sc, n, c=true):
                d, Y = (D["actual"], YA) if sc is SA else (D["expected"], YE)
                cs = [c] if c is not true or dtype != "binary" else [lambda t: Y(t) == 0, lambda t: Y(t) != 0]
                return sum(v.sum(s, lambda t: z3.If(z3.And(rv(d.fn(t)) == b, c1(t)), z3.IntVal(1), z3.IntVal(0)), 0, n) for c1 in cs)
            inD = lambda sc, t: rv((D["actual"] if sc is SA else D["expected"]).fn(t)) == b
            def counts(label, val, sc, n, c=true):
                ar = eng.as_arr(val, s)
                v.prove("%s: one per score bin" % label, s, rv(ar.n) == K + 1)
                v.prove("%s: number of those records in the bin" % label, s, v.eq(ar.fn(b), cnt(sc, n, c)), rng, timeout=20000)
            p = L["_system_psi"]
            counts("PSI, actual records", p["n_records_a"], SA, na)
            counts("PSI, expected records", p["n_records_e"], SE, ne)
            counts("records kept, actual", v.attr(s, o, "_n_records_a"), SA, na)
            counts("records kept, expected", v.attr(s, o, "_n_records_e"), SE, ne)
            ts = L["_system_tests_" + dtype]
            counts("tests, actual records", ts["n_records_a"], SA, na)
            counts("tests, expected records", ts["n_records_e"], SE, ne)
            if dtype == "binary":
                for nm in ("_system_target_binary", "_system_tests_binary"):
                    p = L[nm]
                    for key, sc, n, Y in (("a", SA, na, YA), ("e", SE, ne, YE)):
                        counts("%s, events %s" % (nm, key), p["n_event_" + key], sc, n, lambda t: Y(t) != 0)
                        counts("%s, non-events %s" % (nm, key), p["n_nonevent_" + key], sc, n, lambda t: Y(t) == 0)
                for key, sc, n in (("a", SA, na), ("e", SE, ne)): counts("target, records %s" % key, L["_system_target_binary"]["n_records_" + key], sc, n)
            else:
                for key, sc, n, Y in (("a", SA, na, YA), ("e", SE, ne, YE)):
                    ar = eng.as_arr(ts["mean_" + key], s)
                    tot = v.sum(s, lambda t: z3.If(inD(sc, t), Y(t), z3.RealVal(0)), 0, n)
                    val = ar.fn(b); val = val.r if isinstance(val, Fl) else val
                    v.prove("mean of the targets of the bin, %s" % key, s, rr(val) * rr(cnt(sc, n)) == tot, rng + [cnt(sc, n) > 0], timeout=20000)
                    ar = eng.as_arr(ts["std_" + key], s)
                    v.prove("deviation of the targets of the bin, %s" % key, s, v.eq(ar.fn(b), std_of(n, lambda t: inD(sc, t), Y)), rng, timeout=20000)
                t2 = L["_system_target_continuous"]
                for k2, n, Y in (("y_actual", na, YA), ("y_expected", ne, YE)):
                    ar = eng.as_arr(t2[k2], s)
                    v.prove("target table: %s" % k2, s, z3.And(rv(ar.n) == n, v.eq(ar.fn(b), Y(b))), [b >= 0, b < n])
            pf = L["_system_performance_" + dtype]
            ctx.fact("performance on both samples", pf["X_actual"] is XA and pf["X_expected"] is XE)
            for k2, n, Y in (("y_actual", na, YA), ("y_expected", ne, YE)):
                ar = eng.as_arr(pf[k2], s)
                v.prove("performance: %s" % k2, s, z3.And(rv(ar.n) == n, v.eq(ar.fn(b), Y(b))), [b >= 0, b < n])
            # every record in exactly one bin
            i, b2 = z3.Ints("i b2")
            sp = eng.as_arr(v.attr(s, o, "_splits"), s)
            v.prove("splits kept", s, z3.And(rv(sp.n) == K, z3.Implies(z3.And(b >= 0, b < K), v.eq(sp.fn(b), S(b)))))
        v.done()
    return g



CT, CP = [z3.Function(nm, INT, INT, INT, INT, REAL) for nm in ("chi2_statistic", "chi2_pvalue")]
TT, TP = [z3.Function(nm, REAL, REAL, INT, REAL, REAL, INT, REAL) for nm in ("t_statistic", "t_pvalue")]


def tests_binary(ctx):
    v = VC(ctx); st = v.st; eng = v.eng
    n = v.int("n", lambda t: t >= 1)
    F = {k: v.fun(k, INT) for k in ("ea", "na", "ee", "ne")}
    def chi2(eng, st, a, kw):
        o = eng.as_arr(a[0], st)
        if kw.get("correction", True) is not False or len(a) > 1: raise PyRaise("Other", "another test")
        c = [rv(o.fn(i, j)) for i in range(2) for j in range(2)]
        # the test does not depend on the order of rows and columns: non-events first
        return (CT(*c), CP(*c), 1, Opaque("expected"))
    eng.ext["scipy.stats.chi2_contingency"] = chi2
    i = z3.Int("i")
    A = {k: v.arr(n, f, cond=lambda t, f=f: f(t) >= 0) for k, f in F.items()}
    ra, re_ = v.arr(n, lambda t: F["ea"](t) + F["na"](t), cond=lambda t: F["ea"](t) + F["na"](t) > 0), v.arr(n, lambda t: F["ee"](t) + F["ne"](t), cond=lambda t: F["ee"](t) + F["ne"](t) > 0)
    o = monitor(v, "binary")
    bs = v.arr(n, v.fun("label", U), islist=True)
    rng = [i >= 0, i < n, F["ea"](i) + F["na"](i) > 0, F["ee"](i) + F["ne"](i) > 0]
    ctx.function("%s:ScorecardMonitoring._system_tests_binary" % M)
    for s, r in v.returns("tests", v.method(o, "_system_tests_binary", [bs, ra, A["ea"], A["na"], re_, A["ee"], A["ne"]])):
        cols, rows = pdmodels.frame(s, v.attr(s, o, "_df_tests"))
        C = lambda nm: v.get(s, cols[nm], i)
        ctx.fact("no other rows", not rows)
        v.prove("counts", s, z3.And(v.eq(C("Count A"), F["ea"](i) + F["na"](i)), v.eq(C("Count E"), F["ee"](i) + F["ne"](i))), rng)
        for k, e, m in (("A", "ea", "na"), ("E", "ee", "ne")):
            v.prove("Event rate %s = events / records" % k, s, v.eq(C("Event rate " + k), rr(F[e](i)) / rr(F[e](i) + F[m](i))), rng)
        obs = [F["na"](i), F["ne"](i), F["ea"](i), F["ee"](i)]
        v.prove("statistic: chi-square test of the bin's contingency table", s, v.eq(C("statistic"), CT(*obs)), rng)
        v.prove("p-value: chi-square test of the bin's contingency table", s, v.eq(C("p-value"), CP(*obs)), rng)
        for k, c in (("a", "Event rate A"), ("e", "Event rate E")):
            v.prove("rates plotted, %s" % k, s, v.eq(v.get(s, v.attr(s, o, "_metric_" + k), i), C(c)), rng)
    v.done()


def tests_continuous(ctx):
    v = VC(ctx); st = v.st; eng = v.eng
    n = v.int("n", lambda t: t >= 1)
    F = {k: v.fun(k, INT if k[0] == "n" else REAL) for k in ("na", "ma", "sa", "ne", "me", "se")}
    def ttest(eng, st, a, kw):
        names = ("mean1", "std1", "nobs1", "mean2", "std2", "nobs2", "equal_var")
        d = dict(zip(names, a)); d.update(kw)
        if d.get("equal_var", True) is not False or set(d) - set(names): raise PyRaise("Other", "another test")
        c = [rr(d["mean1"]), rr(d["std1"]), rv(d["nobs1"]), rr(d["mean2"]), rr(d["std2"]), rv(d["nobs2"])]
        return (TT(*c), TP(*c))
    eng.ext["scipy.stats.ttest_ind_from_stats"] = ttest
    i = z3.Int("i"); A = {k: v.arr(n, f) for k, f in F.items()}
    o = monitor(v, "continuous")
    bs = v.arr(n, v.fun("label", U), islist=True)
    rng = [i >= 0, i < n]
    ctx.function("%s:ScorecardMonitoring._system_tests_continuous" % M)
    for s, r in v.returns("tests", v.method(o, "_system_tests_continuous", [bs, A["na"], A["ma"], A["sa"], A["ne"], A["me"], A["se"]])):
        cols, rows = pdmodels.frame(s, v.attr(s, o, "_df_tests"))
        C = lambda nm: v.get(s, cols[nm], i)
        ctx.fact("no other rows", not rows)
        for c, k in (("Count A", "na"), ("Count E", "ne"), ("Mean A", "ma"), ("Mean E", "me"), ("Std A", "sa"), ("Std E", "se")):
            v.prove("%s: the given values" % c, s, v.eq(C(c), F[k](i)), rng)
        c = [F[k](i) for k in ("ma", "sa", "na", "me", "se", "ne")]
        v.prove("statistic: Welch test of the two samples of the bin", s, v.eq(C("statistic"), TT(*c)), rng)
        v.prove("p-value: Welch test of the two samples of the bin", s, v.eq(C("p-value"), TP(*c)), rng)
    v.done()


def target_binary(ctx):
    v = VC(ctx); st = v.st; eng = v.eng
    n = v.int("n", lambda t: t >= 1)
    F = {k: v.fun(k, INT) for k in ("ea", "na", "ee", "ne")}
    A = {k: v.arr(n, f, cond=lambda t, f=f: f(t) >= 0) for k, f in F.items()}
    T = {k: v.sum(st, f, 0, n) for k, f in F.items()}
    st.assume(T["ea"] + T["na"] > 0); st.assume(T["ee"] + T["ne"] > 0)
    ra, re_ = v.arr(n, lambda t: F["ea"](t) + F["na"](t)), v.arr(n, lambda t: F["ee"](t) + F["ne"](t))
    o = monitor(v, "binary")
    ctx.function("%s:ScorecardMonitoring._system_target_binary" % M)
    for s, r in v.returns("target", v.method(o, "_system_target_binary", [ra, A["ea"], A["na"], re_, A["ee"], A["ne"]])):
        cols, rows = pdmodels.frame(s, v.attr(s, o, "_df_target_analysis"))
        for lab, e, m in (("Actual", "ea", "na"), ("Expected", "ee", "ne")):
            G = [v.eng.as_items(cols[c], s) for c in (lab, lab + " (%)")]
            tot = T[e] + T[m]
            ctx.fact("%s: three rows" % lab, all(len(g) == 3 for g in G))
            for j, (nm, w) in enumerate((("records", tot), ("event records", T[e]), ("non-event records", T[m]))):
                v.prove("%s: number of %s" % (lab, nm), s, v.eq(G[0][j], w))
            v.prove("%s: share of event records" % lab, s, v.eq(G[1][1], rr(T[e]) / rr(tot)))
            v.prove("%s: share of non-event records" % lab, s, v.eq(G[1][2], rr(T[m]) / rr(tot)))
    v.done()


def performance(dtype):
    def g(ctx):
        v = VC(ctx); st = v.st; eng = v.eng
        na, ne = v.int("n_actual", lambda t: t >= 1), v.int("n_expected", lambda t: t >= 1)
        X = {"a": Opaque("X_actual"), "e": Opaque("X_expected")}; n = {"a": na, "e": ne}
        Y, P, Q = [{k: v.fun("%s_%s" % (w, k), z) for k in "ae"} for w, z in (("y", INT), ("pred", INT if dtype == "binary" else REAL), ("proba", REAL))]
        key = lambda x: [k for k in "ae" if X[k] is x][0]
        card = st.alloc(HInst("Card", {}))
        eng.methods[("Card", "predict")] = lambda eng, st, a, kw: v.arr(n[key(a[1])], P[key(a[1])], st=st)
        eng.methods[("Card", "predict_proba")] = lambda eng, st, a, kw: st.alloc(HArr(Arr((n[key(a[1])], 2), lambda i, j, k=key(a[1]): z3.If(rv(j) == 1, Q[k](rv(i)), 1 - Q[k](rv(i))), "float")))
        calls = []
        names = ["first", "second", "third"]
        def metrics(eng, st, a, kw):
            calls.append(("metrics", a)); c = len(calls)
            return st.alloc(HDict({nm: z3.Real("metric_%s_%d" % (nm, c)) for nm in names}))
        def gini(eng, st, a, kw):
            calls.append(("gini", a)); return z3.Real("gini_%d" % len(calls))
        eng.contracts["optbinning.metrics.classification.imbalanced_classification_metrics"] = metrics
        eng.contracts["optbinning.metrics.regression.regression_metrics"] = metrics
        eng.contracts["optbinning.metrics.classification.gini"] = gini
        o = monitor(v, dtype, scorecard=card)
        y = {k: v.arr(n[k], Y[k]) for k in "ae"}
        f = "_system_performance_" + dtype
        ctx.function("%s:ScorecardMonitoring.%s" % (M, f))
        for s, r in v.returns("performance", v.method(o, f, [X["a"], y["a"], X["e"], y["e"]])):
            cols, rows = pdmodels.frame(s, v.attr(s, o, "_df_performance"))
            lab = names + (["Gini"] if dtype == "binary" else [])
            ctx.fact("names of the metrics", list(eng.as_items(cols["Metric"], s)) == lab)
            i = z3.Int("i")
            def src(kind, k):
                """index of the call of that kind on that sample"""
                for c, (kd, a) in enumerate(calls):
                    if kd != kind: continue
                    ar = [eng.as_arr(x, s) for x in a[:2]]
                    if all(rv(x.n).eq(n[k]) for x in ar): return c + 1, ar
            for k, col in (("a", "Actual"), ("e", "Expected")):
                val = eng.as_items(cols[col], s)
                for kind, F in (("metrics", P),) + ((("gini", Q),) if dtype == "binary" else ()):
                    q = src(kind, k)
                    ctx.fact("%s: %s of that sample" % (col, kind), q is not None)
                    if q is None: continue
                    v.prove("%s: %s of the targets and predictions" % (col, kind), s, z3.And(v.eq(q[1][0].fn(i), Y[k](i)), v.eq(q[1][1].fn(i), F[k](i))), [i >= 0, i < n[k]])
                    for j, nm in enumerate(lab):
                        if (nm == "Gini") == (kind == "gini"):
                            v.prove("%s: %s" % (col, nm), s, v.eq(val[j], z3.Real(("gini_%d" % q[0]) if kind == "gini" else "metric_%s_%d" % (nm, q[0]))))
            d = eng.as_arr(cols["Diff A - E"], s)
            for j, nm in enumerate(lab):
                v.prove("difference of %s" % nm, s, rr(d.fn(j)) == rr(eng.as_items(cols["Actual"], s)[j]) - rr(eng.as_items(cols["Expected"], s)[j]))
        v.done()
    return g


def confusion(ctx):
    v = VC(ctx); st = v.st; eng = v.eng
    tn, fp, fn, tp = [v.int(k, lambda t: t >= 0) for k in ("tn", "fp", "fn", "tp")]
    st.assume(tp + fn > 0); st.assume(fp + tn > 0)
    args = []
    def cm(eng, st, a, kw):
        args.append((a, kw)); return st.alloc(HArr(Arr((2, 2), lambda i, j: z3.If(rv(i) == 0, z3.If(rv(j) == 0, tn, fp), z3.If(rv(j) == 0, fn, tp)), "int")))
    eng.ext["sklearn.metrics.confusion_matrix"] = cm
    y, p = Opaque("y_true"), Opaque("y_pred")
    st0 = st.fork()
    PI = z3.Real("pi"); eng.consts = getattr(eng, "consts", {})
    for inner in (True, False):
        s1 = st.fork()
        if inner: s1.assume(z3.And(tp > 0, fn > 0, fp > 0, tn > 0))
        for s, r in v.returns("metrics", v.run("optbinning.metrics.classification:imbalanced_classification_metrics", [y, p], st=s1)):
            d = s.get(r).items
            ctx.fact("confusion matrix of the targets and predictions", all(a[0] is y and a[1] is p and not kw for a, kw in args))
            tpr, tnr = rr(tp) / rr(tp + fn), rr(tn) / rr(fp + tn)
            for k, w in (("True positive rate", tpr), ("True negative rate", tnr), ("False positive rate", rr(fp) / rr(fp + tn)), ("False negative rate", rr(fn) / rr(tp + fn)), ("Balanced accuracy", (tpr + tnr) / 2)):
                val = d[k]; val = val.r if isinstance(val, Fl) else val
                v.prove("%s%s" % (k, "" if inner else ", any matrix"), s, rr(val) == w)
            if inner:
                import math
                c = rr(SQRT(z3.RealVal(3))) / rv(math.pi)
                v.prove("Discriminant power", s, v.eq(d["Discriminant power"], c * (LN(tpr / (1 - tnr)) + LN(tnr / (1 - tpr)))), timeout=20000)
    v.done()


MED = z3.Function("median_of", INT, z3.ArraySort(INT, REAL), REAL)


def regression(ctx):
    v = VC(ctx); st = v.st; eng = v.eng
    n = v.int("n", lambda t: t >= 1)
    Y, P = v.fun("y"), v.fun("p")
    absz = lambda t: z3.If(t >= 0, t, -t)
    y, p = v.arr(n, Y, cond=lambda i: Y(i) != 0), v.arr(n, P)
    i = z3.Int("i")
    sk = {}
    for nm in ("explained_variance_score", "mean_absolute_error", "mean_squared_error", "median_absolute_error", "r2_score"):
        def f(eng, st, a, kw, nm=nm):
            sk.setdefault(nm, []).append((a, kw)); return z3.Real(nm)
        eng.ext["sklearn.metrics." + nm] = f
    def median(eng, st, a, kw):
        ar = eng.as_arr(a[0], st)
        if ar.mask is not None or len(a) > 1 or kw: raise Unsupported("median")
        t = fresh("t")
        e = ar.fn(t); e = e.r if isinstance(e, Fl) else e
        return MED(rv(ar.n), z3.Lambda([J], z3.If(z3.And(J >= 0, J < rv(ar.n)), rr(z3.substitute(rr(e), (t, J))), z3.RealVal(0))))
    eng.ext["numpy.median"] = median
    for s, r in v.returns("metrics", v.run("optbinning.metrics.regression:regression_metrics", [y, p])):
        d = s.get(r).items
        for k, nm in (("Mean absolute error", "mean_absolute_error"), ("Mean squared error", "mean_squared_error"), ("Median absolute error", "median_absolute_error"), ("Explained variance", "explained_variance_score"), ("R^2", "r2_score")):
            c = sk.get(nm, [])
            ctx.fact("%s: of the targets and predictions" % k, len(c) == 1 and not c[0][1] and len(c[0][0]) == 2)
            if len(c) == 1:
                a = [eng.as_arr(x, s) for x in c[0][0]]
                v.prove("%s: of the targets and predictions (values)" % k, s, z3.And(v.eq(a[0].fn(i), Y(i)), v.eq(a[1].fn(i), P(i))), [i >= 0, i < n])
            v.prove(k, s, v.eq(d[k], z3.Real(nm)))
        real = lambda x: rr(x.r if isinstance(x, Fl) else x)
        sm = lambda i: absz(Y(i) - P(i)) / (absz(Y(i)) + absz(P(i)))
        for k, t in (("MPE", lambda i: (Y(i) - P(i)) / Y(i)), ("MAPE", lambda i: absz((Y(i) - P(i)) / Y(i))), ("SMAPE", sm)):
            tot, law = v.sum_atom(s, t, n)
            v.prove(k, s, real(d[k]) * rr(n) == tot, [law], timeout=20000)
        for k, t in (("MdAPE", lambda i: absz((Y(i) - P(i)) / Y(i))), ("SMdAPE", sm)):
            v.prove(k, s, real(d[k]) == MED(n, z3.Lambda([J], z3.If(z3.And(J >= 0, J < n), t(J), z3.RealVal(0)))), timeout=20000)
    v.done()



TI = z3.Function("bin_index", U, REAL, U, U, INT)


def variables(ctx):
    """the loop over variables, unrolled for two of them (it carries only the list of tables)"""
    v = VC(ctx); st = v.st; eng = v.eng
    na, ne = v.int("n_actual", lambda t: t >= 1), v.int("n_expected", lambda t: t >= 1)
    names = ["v0", "v1"]
    XF = {k: v.fun("x_" + k, REAL, U, INT) for k in "ae"}
    n = {"a": na, "e": ne}
    X = {k: st.alloc(HInst("Frame", {"k": k})) for k in "ae"}
    def col(eng, st, a, kw):
        k = st.get(a[0]).attrs["k"]
        return st.alloc(HArr(Arr((n[k],), lambda i: XF[k](ops.u_of(a[1]), rv(i)), "float")))
    eng.methods[("Frame", "__getitem__")] = col
    i, b, j = z3.Ints("i b j"); xr = z3.Real("xr"); un, us, um = z3.Const("un", U), z3.Const("us", U), z3.Const("um", U)
    st.assume(z3.ForAll([un, xr, us, um], TI(un, xr, us, um) >= 0))          # known categories (C01)
    def transform(eng, st, a, kw):
        kw = dict(kw); x = eng.as_arr(kw.pop("x") if "x" in kw else a[1], st)
        if kw.pop("metric", None) != "indices": raise PyRaise("Other", "not the indices")
        ms, mm = ops.u_of(kw.pop("metric_special", 0)), ops.u_of(kw.pop("metric_missing", 0))
        if kw: raise Unsupported("transform")
        nm = ops.u_of(st.get(a[0]).attrs["name"])
        return st.alloc(HArr(Arr(x.shape, lambda i: TI(nm, rr(x.fn(i)), ms, mm), "int")))
    eng.methods[("Optb", "transform")] = transform
    bp = st.alloc(HInst("BP", {}))
    def support(eng, st, a, kw):
        if kw != {"names": True} or len(a) > 1: raise Unsupported("get_support")
        return st.alloc(HList(names))
    eng.methods[("BP", "get_support")] = support
    eng.methods[("BP", "get_binned_variable")] = lambda eng, st, a, kw: st.alloc(HInst("Optb", {"name": a[1]}))
    card = st.alloc(HInst("Card", {"binning_process_": bp}))
    eng.methods[("Card", "table")] = lambda eng, st, a, kw: st.alloc(HInst("Table", {"Variable": st.alloc(HInst("VarColumn", {}))}))
    eng.methods[("VarColumn", "__eq__")] = lambda eng, st, a, kw: st.alloc(HInst("RowsOf", {"of": a[1]}))
    RB, RN = z3.Function("row_label", U, INT, U), z3.Function("rows_of", U, INT)
    def sub(eng, st, a, kw):
        t = st.get(a[0]).attrs
        if a[1] == "Bin" and "of" in t: return st.alloc(HInst("Column", {"values": st.alloc(HArr(Arr((RN(ops.u_of(t["of"])),), lambda i: RB(ops.u_of(t["of"]), rv(i)), "obj")))}))
        if a[1] == "Variable": return t["Variable"]
        if isinstance(a[1], Ref) and st.get(a[1]).cls == "RowsOf": return st.alloc(HInst("Table", {"of": st.get(a[1]).attrs["of"]}))
        raise Unsupported("table[%r]" % (a[1],))
    eng.methods[("Table", "__getitem__")] = sub
    log = []
    eng.ext["pandas.concat"] = lambda eng, st, a, kw: (log.append(list(eng.as_items(a[0], st))), st.alloc(HInst("Concat", {})))[1]
    eng.methods[("Concat", "reset_index")] = lambda eng, st, a, kw: None
    o = monitor(v, "binary", scorecard=card)
    ctx.function("%s:ScorecardMonitoring._fit_variables" % M)
    for s, r in v.returns("variables", v.method(o, "_fit_variables", [X["a"], X["e"]])):
        ctx.fact("one table per selected variable, in their order", len(log) == 1 and len(log[0]) == 2 and "Concat" == s.get(v.attr(s, o, "_df_psi_variable")).cls)
        if len(log) != 1: continue
        for nm, ref in zip(names, log[0]):
            cols, rows = pdmodels.frame(s, ref)
            u, E_ = ops.u_of(nm), ops.u_of("empirical")
            ctx.fact("%s: no other rows" % nm, not rows)
            C = {c: eng.as_arr(cols[c], s) for c in cols}
            nb = rv(C["Count A"].n)
            v.prove("%s: name and label of each row" % nm, s, z3.And(v.eq(C["Variable"].fn(b), u), v.eq(C["Bin"].fn(b), RB(u, b))), [b >= 0, b < nb, b < rv(C["Bin"].n)])
            tot = {}
            for k, c in (("a", "A"), ("e", "E")):
                ind = lambda t: TI(u, XF[k](u, t), E_, E_)
                v.prove("%s: every %s record is in one of the rows" % (nm, {"a": "actual", "e": "expected"}[k]), s, z3.And(ind(i) >= 0, ind(i) < nb), [i >= 0, i < n[k]], timeout=20000)
                v.prove("%s: Count %s = records in the bin" % (nm, c), s, v.eq(C["Count " + c].fn(b), v.sum(s, lambda t: z3.If(ind(t) == b, z3.IntVal(1), z3.IntVal(0)), 0, n[k])), [b >= 0, b < nb], timeout=20000)
                tot[c] = v.sum(s, lambda t: rv(C["Count " + c].fn(t)), 0, nb)
                e = C["Count %s (%%)" % c].fn(b); e = e.r if isinstance(e, Fl) else e
                v.prove("%s: Count %s (%%) = share of the records" % (nm, c), s, rr(e) == rr(C["Count " + c].fn(b)) / rr(tot[c]), [b >= 0, b < nb, tot[c] > 0])
            e = C["PSI"].fn(b); e = e.r if isinstance(e, Fl) else e
            ca, ce = rr(C["Count A"].fn(b)) / rr(tot["A"]), rr(C["Count E"].fn(b)) / rr(tot["E"])
            v.prove("%s: PSI = (actual - expected share) ln(actual/expected share)" % nm, s, rr(e) == xlogy(ca - ce, ca / ce), [b >= 0, b < nb, tot["A"] > 0, tot["E"] > 0, rv(C["Count A"].fn(b)) > 0, rv(C["Count E"].fn(b)) > 0], timeout=20000)
    v.done()


GROUPS = [("variables", variables, 60), ("tests, binary", tests_binary, 40), ("tests, continuous", tests_continuous, 40), ("target, binary", target_binary, 40), ("performance, binary", performance("binary"), 40),
          ("performance, continuous", performance("continuous"), 40), ("confusion matrix", confusion, 60), ("regression metrics", regression, 60), ("psi table", psi, 40), ("score bins, binary", system("binary"), 60), ("score bins, continuous", system("continuous"), 60)]
