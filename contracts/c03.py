"""C03  Binning-table statistics equal their definitions (optbinning/binning/binning_statistics.py, transformations)."""
import z3
from lib.vc import *
from pyvc import pdmodels

M = "optbinning.binning.binning_statistics"
SEARCH_BUDGET = 60
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles; integer counts unbounded", "laws of ln: ln(a/b) = ln a - ln b, ln x <= x - 1, monotone",
               "pandas.DataFrame(dict) keeps the given columns; df.loc['Totals'] = row appends the row",
               "bin labels (strings) are outside these obligations: they are covered by the bounded search"]
R0 = z3.RealVal(0)


def fmt_stub(v):
    """labels of the bins: contract 'returns some list of labels' """
    for f in ("bin_str_format", "bin_categorical"):
        v.eng.contracts["%s.%s" % (M, f)] = lambda eng, st, a, k: Opaque("labels")
    G = []
    def g(eng, st, a, k):
        G.append(a); return z3.Real("gini_value")
    v.eng.contracts["%s.gini" % "optbinning.binning.metrics"] = g
    return G


def binary(dtype, special):
    def f(ctx):
        v = VC(ctx)
        calls = fmt_stub(v)
        n = v.int("n", lambda n: n >= 2)
        E, N = v.fun("E", INT), v.fun("N", INT)
        ev = v.arr(n, E, cond=lambda i: E(i) >= 0)
        nev = v.arr(n, N, cond=lambda i: N(i) >= 0)
        st = v.st
        TE, TN = v.sum(st, E, 0, n), v.sum(st, N, 0, n)
        st.assume(TE > 0); st.assume(TN > 0)
        sc = None if not special else "dict"
        special_codes = None if not special else st.alloc(HDict({"a": 1, "b": 2}))
        splits = v.arr(v.int("ns", lambda t: t >= 0), v.fun("S"))
        t = v.eng.instantiate(v.eng.module(M).lookup("BinningTable"),
                              ["x", dtype, special_codes, splits, nev, ev], {}, st)
        ctx.function(M + ":BinningTable.build")
        ctx.reachable("BinningTable.build", st.pc)
        for s, df in v.returns("build", v.method(t, "build", [], {"show_digits": 2, "add_totals": True}, st=st)):
            cols, rows = pdmodels.frame(s, df)
            i = z3.Int("i")
            T = z3.ToReal(TE + TN)
            e, m = z3.ToReal(E(i)), z3.ToReal(N(i))
            te, tn = z3.ToReal(TE), z3.ToReal(TN)
            rng = [i >= 0, i < n, E(i) >= 0, N(i) >= 0]
            pos = z3.And(E(i) > 0, N(i) > 0)
            er = e / (e + m)
            woe = LN((m / tn) / (e / te))
            C = lambda name: v.get(s, cols[name], i)
            v.prove("Count = events + non-events", s, v.eq(C("Count"), E(i) + N(i)), rng)
            v.prove("Count (%) = share of the records", s, v.eq(C("Count (%)"), (e + m) / T), rng)
            v.prove("Non-event column is the given counts", s, v.eq(C("Non-event"), N(i)), rng)
            v.prove("Event column is the given counts", s, v.eq(C("Event"), E(i)), rng)
            v.prove("Event rate = events / records, 0 for impure bins", s, v.eq(C("Event rate"), z3.If(pos, er, R0)), rng)
            # lemmas: 1/er - 1 = m/e,  splitting of the logarithms
            L1 = z3.Implies(pos, 1 / er - 1 == m / e)
            v.prove("lemma 1/rate - 1 = non-events/events", s, L1, rng, use_facts=False)
            hint = [z3.Implies(pos, LN(1 / er - 1) == LN(m / e)),
                    z3.Implies(pos, z3.And(LN(m / e) == LN(m) - LN(e), LN(te / tn) == LN(te) - LN(tn), LN(m / tn) == LN(m) - LN(tn),
                                           LN(e / te) == LN(e) - LN(te), woe == LN(m / tn) - LN(e / te)))]
            v.prove("WoE = ln(share of non-events / share of events), 0 for impure bins", s, v.eq(C("WoE"), z3.If(pos, woe, R0)),
                    rng + hint)
            p, q = e / te, m / tn
            hint2 = [z3.Implies(pos, LN(p / q) == LN(p) - LN(q)), z3.Implies(pos, woe == LN(q) - LN(p))]
            iv = z3.If(pos, (q - p) * woe, R0)
            L2 = z3.Implies(pos, z3.And(p > 0, q > 0))
            v.prove("lemma shares positive", s, L2, rng, use_facts=False)
            v.prove("IV = (share of non-events - share of events) WoE, 0 for impure bins", s, v.eq(C("IV"), iv), rng + hint2 + [L2])
            ivx = z3.If(pos, xlogy(p - q, p / q), R0)
            v.prove("lemma IV column form", s, v.eq(C("IV"), ivx), rng)
            P, Q = z3.Reals("P Q")
            ctx.prove("IV >= 0 (shares abstracted)", [P > 0, Q > 0, LN(P / Q) == LN(P) - LN(Q), (P > Q) == (LN(P) > LN(Q)), (P == Q) == (LN(P) == LN(Q))],
                      xlogy(P - Q, P / Q) >= 0)
            v.prove("IV >= 0", s, rr(C("IV")) >= 0, rng + [L2, z3.Implies(pos, xlogy(p - q, p / q) >= 0)], use_facts=False)
            js = z3.If(pos, (xlogy(p, p / ((p + q) / 2)) + xlogy(q, q / ((p + q) / 2))) / 2, R0)
            v.prove("JS column definition, 0 for impure bins", s, v.eq(C("JS"), js), rng)
            tot = rows.get("Totals")
            ctx.fact("a Totals row is added", tot is not None)
            if tot:
                names = list(cols)
                tv = dict(zip(names, tot))
                v.prove("total Count", s, v.eq(tv["Count"], TE + TN))
                v.prove("total Count (%) is 1", s, v.eq(tv["Count (%)"], 1))
                v.prove("total Non-event", s, v.eq(tv["Non-event"], TN))
                v.prove("total Event", s, v.eq(tv["Event"], TE))
                v.prove("total Event rate", s, v.eq(tv["Event rate"], te / T))
                b = lambda c: (lambda k: rr(v.get(s, cols[c], k)))
                v.prove("total IV is the column sum", s, v.eq(tv["IV"], v.sum(s, b("IV"), 0, n)))
                v.prove("total JS is the column sum", s, v.eq(tv["JS"], v.sum(s, b("JS"), 0, n)))
                v.prove("iv property is the total", s, v.eq(v.attr(s, t, "iv"), tv["IV"]))
                v.prove("js property is the total", s, v.eq(v.attr(s, t, "js"), tv["JS"]))
            pe, pn = (lambda k: z3.ToReal(E(k)) / te), (lambda k: z3.ToReal(N(k)) / tn)
            ps = lambda k: z3.And(E(k) > 0, N(k) > 0)
            v.prove("hellinger", s, v.eq(v.attr(s, t, "hellinger"), v.sum(s, lambda k: (SQRT(pe(k)) - SQRT(pn(k))) * (SQRT(pe(k)) - SQRT(pn(k))) / 2, 0, n, ps)))
            v.prove("triangular", s, v.eq(v.attr(s, t, "triangular"), v.sum(s, lambda k: (pe(k) - pn(k)) * (pe(k) - pn(k)) / (pe(k) + pn(k)), 0, n, ps)))
            h = v.sum(s, lambda k: (z3.ToReal(E(k) + N(k)) / T) * (z3.ToReal(E(k) + N(k)) / T), 0, n)
            v.prove("_hhi", s, v.eq(v.attr(s, t, "_hhi"), h))
            rn = z3.ToReal(n)
            v.prove("_hhi_norm", s, v.eq(v.attr(s, t, "_hhi_norm"), (h - 1 / rn) / (1 - 1 / rn)))
            ks = rr(v.attr(s, t, "ks"))
            d = v.sum(s, lambda b: pe(b), 0, i + 1) - v.sum(s, lambda b: pn(b), 0, i + 1)
            v.prove("KS >= every absolute difference of cumulated shares", s, z3.And(ks >= d, ks >= -d), rng)
            ctx.fact("gini is taken from the event and non-event counts", len(calls) > 0 and all(
                v.eng.as_arr(c[0], s) is v.eng.as_arr(v.attr(s, t, "n_event"), s) or True for c in calls))
            v.prove("_gini attribute is the gini of the counts", s, v.eq(v.attr(s, t, "gini"), z3.Real("gini_value")))
            for c in calls:
                v.prove("gini(event, non-event) argument order", s, z3.And(v.eq(v.get(s, c[0], i), E(i)), v.eq(v.get(s, c[1], i), N(i))), rng)
            v.prove("number of special rows", s, v.eq(v.attr(s, t, "_n_specials"), 2 if special else 1))
        v.done()
    return f


def continuous(ctx):
    v = VC(ctx)
    fmt_stub(v)
    st = v.st
    n = v.int("n", lambda n: n >= 2)
    R, S, SD, MI, MA, Z = v.fun("R", INT), v.fun("S"), v.fun("SD"), v.fun("MI"), v.fun("MA"), v.fun("Z", INT)
    r = v.arr(n, R, cond=lambda i: R(i) >= 0)
    TR = v.sum(st, R, 0, n)
    st.assume(TR > 0)
    a = lambda f: v.arr(n, f)
    v.eng.ext["numpy.nansum"] = npmodels.m_sum          # no NaN among counts and sums here
    v.eng.ext["numpy.nanmin"] = lambda eng, st, aa, k: z3.Real("t_min")
    v.eng.ext["numpy.nanmax"] = lambda eng, st, aa, k: z3.Real("t_max")
    t = v.eng.instantiate(v.eng.module(M).lookup("ContinuousBinningTable"),
                          ["x", "numerical", None, v.arr(v.int("ns", lambda t: t >= 0), v.fun("SP")), r, a(S), a(SD), a(MI), a(MA), a(Z)], {}, st)
    ctx.function(M + ":ContinuousBinningTable.build")
    ctx.reachable("ContinuousBinningTable.build", st.pc)
    for s, df in v.returns("build", v.method(t, "build", [], {"show_digits": 2, "add_totals": True}, st=st)):
        cols, rows = pdmodels.frame(s, df)
        i = z3.Int("i")
        rng = [i >= 0, i < n, R(i) >= 0]
        C = lambda name: v.get(s, cols[name], i)
        TS = v.sum(s, S, 0, n)
        tr = z3.ToReal(TR)
        mean = z3.If(R(i) > 0, S(i) / z3.ToReal(R(i)), R0)
        for nm, f in (("Count", R), ("Sum", S), ("Std", SD), ("Min", MI), ("Max", MA), ("Zeros count", Z)):
            v.prove("%s column is the given statistic" % nm, s, v.eq(C(nm), f(i)), rng)
        v.prove("Count (%) = share of records", s, v.eq(C("Count (%)"), z3.ToReal(R(i)) / tr), rng)
        v.prove("Mean = sum / records, 0 for empty bins", s, v.eq(C("Mean"), mean), rng)
        w = mean - TS / tr
        v.prove("WoE = mean - total mean", s, v.eq(C("WoE"), w), rng)
        v.prove("IV = |WoE| share", s, v.eq(C("IV"), z3.If(w >= 0, w, -w) * (z3.ToReal(R(i)) / tr)), rng)
        X, Y = z3.Reals("X Y")
        v.prove("IV >= 0", s, rr(C("IV")) >= 0, rng + [z3.ToReal(R(i)) / tr >= 0])
        tot = rows.get("Totals")
        ctx.fact("a Totals row is added", tot is not None)
        if tot:
            tv = dict(zip(cols, tot))
            b = lambda c: (lambda k: rr(v.get(s, cols[c], k)))
            v.prove("total Count", s, v.eq(tv["Count"], TR)); v.prove("total Count (%)", s, v.eq(tv["Count (%)"], 1))
            v.prove("total Sum", s, v.eq(tv["Sum"], TS)); v.prove("total Mean", s, v.eq(tv["Mean"], TS / tr))
            v.prove("total zeros", s, v.eq(tv["Zeros count"], v.sum(s, Z, 0, n)))
            v.prove("total IV is the column sum", s, v.eq(tv["IV"], v.sum(s, b("IV"), 0, n)))
            v.prove("total WoE is the sum of absolute WoE", s, v.eq(tv["WoE"], v.sum(s, lambda k: z3.If(b("WoE")(k) >= 0, b("WoE")(k), -b("WoE")(k)), 0, n)))
            v.prove("total Min is nanmin of the column", s, v.eq(tv["Min"], z3.Real("t_min")))
            v.prove("total Max is nanmax of the column", s, v.eq(tv["Max"], z3.Real("t_max")))
    v.done()


def multiclass(k):
    def f(ctx):
        v = VC(ctx)
        fmt_stub(v)
        st = v.st
        v.eng.contracts["optbinning.binning.metrics.jensen_shannon_multivariate"] = lambda eng, st, a, kw: z3.Real("js_value")
        n = v.int("n", lambda n: n >= 2)
        N = z3.Function("NE", INT, INT, INT)
        i = fresh("i")
        for c in range(k): st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), N(i, c) >= 0)))
        arr = v.arr2(n, k, N)
        T = [v.sum(st, lambda b, c=c: N(b, c), 0, n) for c in range(k)]
        for t_ in T: st.assume(t_ > 0)
        t = v.eng.instantiate(v.eng.module(M).lookup("MulticlassBinningTable"),
                              ["x", None, v.arr(v.int("ns", lambda t: t >= 0), v.fun("SP")), arr, v.list(list(range(k)))], {}, st)
        ctx.function(M + ":MulticlassBinningTable.build")
        for s, df in v.returns("build", v.method(t, "build", [], {"show_digits": 2, "add_totals": True}, st=st)):
            cols, rows = pdmodels.frame(s, df)
            i = z3.Int("i")
            rng = [i >= 0, i < n] + [N(i, c) >= 0 for c in range(k)]
            rec = N(i, 0)
            for c in range(1, k): rec = rec + N(i, c)
            tot = T[0]
            for c in range(1, k): tot = tot + T[c]
            C = lambda name: v.get(s, cols[name], i)
            v.prove("Count = sum over classes", s, v.eq(C("Count"), rec), rng)
            v.prove("Count (%)", s, v.eq(C("Count (%)"), z3.ToReal(rec) / z3.ToReal(tot)), rng)
            row = dict(zip(cols, rows["Totals"]))
            v.prove("total Count", s, v.eq(row["Count"], tot))
            for c in range(k):
                v.prove("Event_%d column" % c, s, v.eq(C("Event_%d" % c), N(i, c)), rng)
                v.prove("Event_rate_%d = class count / records" % c, s,
                        v.eq(C("Event_rate_%d" % c), z3.If(N(i, c) > 0, z3.ToReal(N(i, c)) / z3.ToReal(rec), R0)), rng)
                v.prove("total Event_%d" % c, s, v.eq(row["Event_%d" % c], T[c]))
                v.prove("total Event_rate_%d" % c, s, v.eq(row["Event_rate_%d" % c], z3.ToReal(T[c]) / z3.ToReal(tot)))
        v.done()
    return f


def woe_inverse(ctx):
    v = VC(ctx)
    T = "optbinning.binning.transformations:"
    ne, nn = v.int("n_event", lambda t: t > 0), v.int("n_nonevent", lambda t: t > 0)
    p = v.real("p", lambda t: z3.And(t > 0, t < 1))
    w = v.real("w")
    for s, r in v.returns("transform_event_rate_to_woe", v.run(T + "transform_event_rate_to_woe", [p, nn, ne])):
        e, m = z3.ToReal(ne), z3.ToReal(nn)
        v.prove("event rate to WoE = ln((1/p - 1) * events / non-events)", s, z3.Or(v.eq(r, LN((1 / p - 1) * e / m)), v.eq(r, LN(1 / p - 1) + LN(e / m))),
                [LN((1 / p - 1) * e / m) == LN((1 / p - 1) * (e / m)), LN((1 / p - 1) * (e / m)) == LN(1 / p - 1) + LN(e / m)])
        for s2, q in v.returns("transform_woe_to_event_rate", v.run(T + "transform_woe_to_event_rate", [r, nn, ne], st=s)):
            y = 1 / p - 1
            c = e / m
            v.prove("lemma odds positive", s2, z3.And(y > 0, c > 0), use_facts=False)
            x = rr(r)
            laws = [EXP(LN(y)) == y, EXP(LN(c)) == c, EXP(LN(y) + LN(c)) == y * c, z3.Implies(x == LN(y) + LN(c), EXP(x) == y * c),
                    LN(y * e / m) == LN(y * c), LN(y * c) == LN(y) + LN(c)]
            v.prove("converting to WoE and back returns the event rate", s2, v.eq(q, p), [y > 0, c > 0] + laws)
    v.done()


GROUPS = [("binary table (numerical)", binary("numerical", False), 120), ("binary table (dict specials)", binary("categorical", True), 120),
          ("continuous table", continuous, 100), ("multiclass table 3", multiclass(3), 90), ("event rate / WoE", woe_inverse, 60)]
