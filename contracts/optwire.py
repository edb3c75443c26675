"""Contracts over _fit_optimizer (shared by C05, C06, C07): which parameters reach the model, and what is made of its solution."""
import z3
from lib.vc import *
from contracts.fitwire import M, Log, record, names_of, mnames, B, common_env

M = dict(M, scen=(B + "uncertainty.binning_scenarios", "SBOptimalBinning", None))
OPT = {("bin", "cp"): (B + "cp", "BinningCP"), ("bin", "mip"): (B + "mip", "BinningMIP"), ("cont", "cp"): (B + "continuous_cp", "ContinuousBinningCP"),
       ("multi", "cp"): (B + "multiclass_cp", "MulticlassBinningCP"), ("multi", "mip"): (B + "multiclass_mip", "MulticlassBinningMIP"), ("scen", "cp"): (B + "cp", "BinningCP")}
ASSUMPTIONS = ["solver_statistics reads the solver's counters and changes nothing"]


def optimizer(kind, solver, dtype="numerical", sizes=True, user=False, trend=None, div="iv", what=("bounds",)):
    def g(ctx):
        v = VC(ctx)
        st = v.st
        mod, cls, _ = M[kind]
        common_env(v)
        v.eng.contracts["optbinning.binning.auto_monotonic.auto_monotonic"] = lambda eng, s, a, k: auto(s, a)
        v.eng.contracts["optbinning.binning.auto_monotonic.auto_monotonic_continuous"] = lambda eng, s, a, k: auto(s, a)
        autos = []
        def auto(s, a):
            autos.append(a); return "peak" if trend == "auto_heuristic" or isinstance(trend, list) else "descending"
        P = dict(min_n_bins=z3.Int("nmin"), max_n_bins=z3.Int("nmax"), max_pvalue=z3.Real("pv"), max_pvalue_policy="all", time_limit=z3.Int("tl"))
        if kind != "multi" and kind != "scen": P.update(dtype=dtype, gamma=z3.Real("gam"))
        P["min_mean_diff" if kind == "cont" else "min_event_rate_diff"] = z3.Real("diff")
        if sizes: P.update(min_bin_size=z3.Real("smin"), max_bin_size=z3.Real("smax"))
        if kind == "bin":
            P.update(divergence=div, max_bin_n_event=z3.Int("emax"), max_bin_n_nonevent=z3.Int("nemax"))
            if sizes: P.update(min_bin_n_event=z3.Int("emin"), min_bin_n_nonevent=z3.Int("nemin"))
        if kind in ("bin", "multi"): P["solver"] = solver
        if solver == "mip": P["mip_solver"] = "cbc"
        tr = v.list(trend) if isinstance(trend, list) else trend
        P["monotonic_trend"] = tr
        if user: P["user_splits"] = Opaque("user splits")
        c = v.eng.module(mod).lookup(cls)
        o = v.eng.instantiate(c, [], dict(P), st)
        at = dict(st.get(o).attrs)
        N = z3.Int("n_samples"); st.assume(N >= 1)
        NS = [z3.Int("n_samples_%d" % s) for s in range(3)]
        FLAG = z3.Bool("flag_min")
        FX = Opaque("fixed splits")
        at.update(_n_samples=N, _user_splits_fixed=FX)
        if kind == "bin": at["_flag_min_n_event_nonevent"] = FLAG
        if kind == "multi": at.update(_n_classes=3, _classes=v.list([0, 1, 2]))
        if kind == "scen": at.update(_n_samples_scenario=v.list(list(NS)), _n_scenarios=3)
        st.put(o, HInst(c, at))
        n = v.int("n", lambda n: n >= 2)
        SPL, SOL = v.fun("SPL"), v.fun("SOL", BOOL)
        cat = dtype == "categorical" and user
        spl = v.arr(n if cat else n - 1, SPL)
        log = Log(v)
        f2 = lambda nm: v.arr2(n, 3, v.fun(nm, INT, INT, INT))
        cols = [("n_nonevent", f2("NE") if kind in ("multi", "scen") else v.arr(n, v.fun("NE", INT))), ("n_event", f2("E") if kind in ("multi", "scen") else v.arr(n, v.fun("E", INT)))]
        if kind == "cont": cols = [("n_records", v.arr(n, v.fun("R", INT))), ("sums", v.arr(n, v.fun("SU"))), ("ssums", v.arr(n, v.fun("SS"))), ("stds", v.arr(n, v.fun("SD")))]
        om, oc = OPT[(kind, solver)]
        record(v, log, om + "." + oc, "optimizer", lambda eng, s, d: s.alloc(HInst("Optimizer", {"solver_": Opaque("solver")})))
        ocls = v.eng.module(om).lookup(oc)
        bm = "build_model_scenarios" if kind == "scen" else "build_model"
        bnames = [a.arg for a in v.eng.class_attr(ocls, bm).node.args.args]
        def build(eng, s, a, k):
            d = dict(zip(bnames, a)); d.update(k); log.add(s, "build", d)
        v.eng.methods[("Optimizer", bm)] = build
        def solve(eng, s, a, k):
            log.add(s, "solve", {}); return ("STATUS", v.arr(n, SOL, st=s))
        v.eng.methods[("Optimizer", "solve")] = solve
        v.eng.contracts["optbinning.information.solver_statistics"] = lambda eng, s, a, k: (Opaque("counters"), Opaque("time"))
        TC = z3.Int("trend_change")
        h = v.eng.module(mod).lookup("peak_valley_trend_change_heuristic") if kind != "scen" else None
        if h is not None: v.eng.contracts[B + "auto_monotonic.peak_valley_trend_change_heuristic"] = lambda eng, s, a, k: (log.add(s, "heur", dict(zip(("x", "trend"), a))), TC)[1]
        ctx.function("%s:%s._fit_optimizer" % (mod, cls))
        args = [spl] + [x for _, x in cols]
        if kind == "scen":
            W = [z3.Int("w%d" % s) for s in range(3)]
            wl = v.list(list(W)); args.append(wl)
        for s, _ in v.returns("fit the optimizer", v.method(o, "_fit_optimizer", args)):
            one = lambda nm: (log.calls(s, nm) + [None])[0]
            op, bd = one("optimizer"), one("build")
            ctx.fact("the model is built and solved once", op is not None and bd is not None and len(log.calls(s, "build")) == 1 and len(log.calls(s, "solve")) == 1)
            if op is None or bd is None: continue
            same = lambda nm, got, want: v.prove(nm, s, v.eq(got, want) if got is not None or want is None else z3.BoolVal(False))
            if "bounds" in what:
                same("min_n_bins reaches the model", op.get("min_n_bins"), P["min_n_bins"]); same("max_n_bins reaches the model", op.get("max_n_bins"), P["max_n_bins"])
                for q in ("min_bin_size", "max_bin_size"):
                    if not sizes: ctx.fact("no %s reaches the model" % q, op.get(q) is None); continue
                    got = v.eng.as_items(op[q], s) if kind == "scen" else [op.get(q)]
                    for t, x in enumerate(got):
                        p = P[q] * z3.ToReal(NS[t] if kind == "scen" else N)
                        v.prove("%s is the fraction of the records, rounded up (%d)" % (q, t), s, z3.And(rr(x) >= p, rr(x) < p + 1, z3.BoolVal(rv(x).sort() == INT)))
                    ctx.fact("%s of every scenario" % q, len(got) == (3 if kind == "scen" else 1))
                if kind == "bin":
                    for q in ("max_bin_n_event", "max_bin_n_nonevent"): same("%s reaches the model" % q, op.get(q), P[q])
                    for q in ("min_bin_n_event", "min_bin_n_nonevent"):
                        got = op.get(q)
                        one_min = z3.And(FLAG, z3.BoolVal(div == "hellinger"))
                        if not sizes and v.eng.entails(s.pc, one_min): v.prove("%s is one" % q, s, rv(got) == 1)
                        elif sizes: v.prove("%s is as requested, and at least one where the divergence needs it" % q, s, rv(got) == z3.If(z3.And(one_min, P[q] < 1), 1, P[q]))
                        elif sizes: same("%s reaches the model" % q, got, P[q])
                        else: ctx.fact("no %s reaches the model" % q, got is None)
                ctx.fact("the fixed splits reach the model", op.get("user_splits_fixed") == FX)
                for nm, ref in cols:
                    if nm in bd: ctx.fact("the model is built on the pre-bins' %s" % nm, bd[nm] == ref)
                ctx.fact("the model gets all pre-bin columns", set(nm for nm, _ in cols) - {"stds"} <= set(bd))
                sol = v.attr(s, o, "_solution"); so = v.attr(s, o, "_splits_optimal")
                k = z3.Int("k")
                a = v.eng.as_arr(sol, s)
                v.prove("the solution is the model's", s, z3.And(rv(a.n) == n, bz(a.fn(k)) == SOL(k)), [k >= 0, k < n])
                ctx.fact("the status is the model's", v.attr(s, o, "_status") == "STATUS")
                m = n if cat else n - 1
                check_filter(v, ctx, s, so, m, SPL, SOL, k)
                if kind == "scen": ctx.fact("the scenario weights reach the model", bd.get("w") == wl)
            if "diff" in what:
                dn = "min_mean_diff" if kind == "cont" else "min_event_rate_diff"
                same("%s reaches the model" % dn, op.get(dn), P[dn])
                same("max_pvalue reaches the model", op.get("max_pvalue"), P["max_pvalue"])
                ctx.fact("max_pvalue_policy reaches the model", op.get("max_pvalue_policy") == "all")
                mt = op.get("monotonic_trend")
                num = dtype == "numerical"
                heur = lambda t: isinstance(t, str) and t.endswith("heuristic")
                def expect(t):
                    if not num: return None if t is None else "ascending"
                    if t == "auto_heuristic": return "peak_heuristic"
                    if t in ("auto", "auto_asc_desc"): return "peak" if isinstance(trend, list) else "descending"
                    return t
                if kind == "multi":
                    it = v.eng.as_items(mt, s)
                    tl = trend if isinstance(trend, list) else [trend] * 3
                    exp = [expect(t) for t in tl]
                    if not isinstance(trend, list) and trend == "auto_heuristic": exp = ["peak"] * 3
                    ctx.fact("every class's trend reaches the model", it == exp)
                    tcs = v.eng.as_items(bd["trend_changes"], s)
                    ctx.fact("a heuristic trend has its change point", len(tcs) == 3 and all((is_z3(x) and x.eq(TC)) if heur(t) else True for x, t in zip(tcs, it)))
                else:
                    ctx.fact("the trend reaches the model", mt == expect(trend))
                    if "trend_change" in bd: ctx.fact("a heuristic trend has its change point", (is_z3(bd["trend_change"]) and bd["trend_change"].eq(TC)) if heur(mt) else True)
            if "objective" in what:
                if "gamma" in P: same("gamma reaches the model", op.get("gamma"), P["gamma"])
                if kind == "bin": ctx.fact("the divergence reaches the model", bd.get("divergence") == div)
        v.done()
    return g


def check_filter(v, ctx, s, so, m, SPL, SOL, k):
    """so = [SPL(k) for k < m if SOL(k)]"""
    a = v.eng.as_arr(so, s)
    if a is None or a.mask is None: ctx.fact("the optimal splits are those of the selected rows", False); return
    base = a.shape[0]
    v.prove("the optimal splits are those of the selected rows", s, z3.And(rv(base) == m, bz(a.mask(k)) == SOL(k), v.eq(a.fn(k), SPL(k))), [k >= 0, k < m])


def groups(what):
    out = []
    for (kind, solver) in OPT:
        dts = ("numerical", "categorical") if kind in ("bin", "cont") else ("numerical",)
        for dt in dts:
            if "bounds" in what:
                for sizes in (True, False):
                    for us in ((False, True) if dt == "categorical" else (False,)):
                        for div in (("iv", "hellinger") if kind == "bin" else ("iv",)):
                            out.append(("wiring %s %s %s%s%s %s" % (kind, solver, dt, " sizes" if sizes else "", " user splits" if us else "", div if kind == "bin" else ""),
                                        optimizer(kind, solver, dt, sizes, us, None, div, what), 40))
            if "diff" in what:
                trends = [None, "ascending", "descending", "concave", "convex", "peak", "valley"]
                if kind != "scen": trends += ["peak_heuristic", "valley_heuristic", "auto", "auto_heuristic", "auto_asc_desc"]
                if kind == "multi": trends = [None, "auto", "auto_heuristic"] + [[t, None, t] for t in trends[1:]] + [["peak_heuristic", "ascending", "auto_heuristic"]]
                if dt == "categorical": trends = [None, "ascending", "auto", "descending", "peak_heuristic"]
                def many(kind=kind, solver=solver, dt=dt, trends=trends):
                    def g(ctx):
                        for t in trends: optimizer(kind, solver, dt, True, False, t, "iv", what)(ctx)
                    return g
                out.append(("wiring %s %s %s trends" % (kind, solver, dt), many(), 60))
            if "objective" in what:
                for div in (("iv", "js", "hellinger", "triangular") if kind == "bin" else ("iv",)):
                    out.append(("wiring %s %s %s objective %s" % (kind, solver, dt, div), optimizer(kind, solver, dt, True, False, None, div, what), 40))
    return out


def solve_group(kind):
    """solve() returns the diagonal of an accepted assignment, and a single bin otherwise"""
    mip = kind in ("mip", "mmip")
    from contracts.optm import CLS
    def g(ctx):
        for acc, nm in [(True, "OPTIMAL"), (True, "FEASIBLE"), (False, "INFEASIBLE"), (False, "UNBOUNDED"), (False, "ABNORMAL"), (False, "UNKNOWN"), (False, "MODEL_INVALID"), (False, "NOT_SOLVED")]:
            one(ctx, acc, nm)
    def one(ctx, acc, name):
        v = VC(ctx)
        mod, cls = CLS[kind]
        n = v.int("n", lambda n: n >= 1)
        VAL = v.fun("VAL", INT, INT)
        st = v.st
        j = z3.Int("j")
        st.assume(z3.ForAll([j], z3.Or(VAL(j) == 0, VAL(j) == 1)))
        E = v.eng.ext
        status = Ext(("ortools.linear_solver.pywraplp.Solver." if mip else "ortools.sat.python.cp_model.") + name)
        E["ortools.sat.python.cp_model.CpSolver"] = lambda eng, s, a, k: s.alloc(HInst("Solver", {"parameters": s.alloc(HInst("Parameters", {}))}))
        Mt = v.eng.methods
        Mt[("Solver", "SetTimeLimit")] = lambda eng, s, a, k: None
        Mt[("Solver", "Solve")] = lambda eng, s, a, k: status
        Mt[("Solver", "StatusName")] = lambda eng, s, a, k: Opaque("status name")
        Mt[("Solver", "BooleanValue")] = lambda eng, s, a, k: VAL(rv(s.get(a[1]).attrs["row"])) == 1 if isinstance(s.get(a[1]), HInst) else None
        Mt[("Solver", "Value")] = lambda eng, s, a, k: VAL(rv(s.get(a[1]).attrs["row"]))
        Mt[("Var", "solution_value")] = lambda eng, s, a, k: rr(VAL(rv(s.get(a[0]).attrs["row"])))
        c = v.eng.module(mod).lookup(cls)
        X = HInst("Vars", {})
        x = st.alloc(X)
        Mt[("Vars", "__getitem__")] = lambda eng, s, a, k: var(s, a[1])
        def var(s, key):
            a_, b_ = key
            if not v.eng.entails(s.pc, rv(a_) == rv(b_)): raise Unsupported("off-diagonal variable read")
            return s.alloc(HInst("Var", {"row": a_}))
        at = {"_x": x, "_n": n, "_model": Opaque("model"), "time_limit": z3.Int("tl"), "solver_": st.alloc(HInst("Solver", {})) if mip else None, "!partial": True}
        o = st.alloc(HInst(c, at))
        ctx.function("%s:%s.solve" % (mod, cls))
        k = z3.Int("k")
        for s, r in v.returns("solve", v.method(o, "solve")):
            nm, sol = r
            a = v.eng.as_arr(sol, s)
            if acc: v.prove("%s: the selected rows are returned" % name, s, z3.And(rv(a.n) == n, bz(a.fn(k)) == (VAL(k) == 1)), [k >= 0, k < n])
            else: v.prove("%s: a single bin is returned" % name, s, z3.And(rv(a.n) == n, bz(a.fn(k)) == (k == n - 1)), [k >= 0, k < n])
        v.done()
    return g
