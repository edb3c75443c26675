"""Contracts over the multi-scenario fit (used by C02, C05, C08): which values reach which step, and the refinement of its pre-bins. Two scenarios (the loops over scenarios are unrolled)."""
import z3
from lib.vc import *
from contracts import fitwire as fw

MOD, CLS = "optbinning.binning.uncertainty.binning_scenarios", "SBOptimalBinning"
B = "optbinning.binning."
N = 2
ASSUMPTIONS = ["multi-scenario binning: two scenarios (the loops over scenarios are unrolled)"]


def mnames(v, m): return [a.arg for a in v.eng.class_attr(v.eng.module(MOD).lookup(CLS), m).node.args.args]


def fit(user):
    def g(ctx):
        v = VC(ctx); st = v.st
        fw.common_env(v); INF_OK[0] = True
        K, k, m = z3.Int("K"), z3.Int("k"), z3.Int("mm")
        US, FX = v.fun("US"), v.fun("FX", BOOL)
        params = {"special_codes": v.list([z3.Real("s1")])}
        if user:
            st.assume(K >= 1); params["user_splits"] = v.arr(K, US); params["user_splits_fixed"] = v.arr(K, FX)
        c = v.eng.module(MOD).lookup(CLS)
        o = v.eng.instantiate(c, [], dict(params), st)
        log = fw.Log(v)
        F, lists = {}, []
        for nm in ("x_clean", "y_clean", "x_missing", "y_missing", "x_special", "y_special"):
            items = []
            for s_ in range(N):
                n = z3.Int("n_x_%s%d" % (nm[2:], s_)); st.assume(n >= (1 if nm.endswith("clean") else 0))
                f = z3.Function("P_%s%d" % (nm, s_), INT, REAL); F[nm, s_] = (f, n); items.append(v.arr(n, f))
            lists.append(v.list(items))
        w = Opaque("weights_clean"); lists.append(w)
        X, Y = v.list([v.arr(v.int("m%d" % q, lambda t: t >= 1), v.fun("X%d" % q)) for q in range(N)]), v.list([v.arr(z3.Int("m%d" % q), v.fun("Y%d" % q)) for q in range(N)])
        v.eng.contracts[MOD + "._check_parameters"] = lambda eng, st, a, kk: None
        v.eng.contracts[MOD + "._check_X_Y_weights"] = lambda eng, st, a, kk: None
        fw.record(v, log, MOD + ".split_data_scenarios" if False else B + "preprocessing.split_data_scenarios", "split", lambda eng, st, d: tuple(lists))
        fw.record(v, log, fw.S + "target_info", "tinfo", lambda eng, st, d: tuple(z3.Int("tinfo_%d_%d" % (q, len(log.calls(st, "tinfo")))) for q in range(2)))
        R = z3.Int("R"); st.assume(R >= 0)
        SPL = v.fun("SPLITS")
        def prebins(eng, st, d):
            log.add(st, "state", {"fx": v.attr(st, d["self"], "_user_splits_fixed"), "us": v.attr(st, d["self"], "_user_splits")})
            def col(nm):
                f = z3.Function("PB_" + nm, INT, INT, INT)
                return st.alloc(HArr(Arr((R + 1, N), lambda i, j: f(rv(i), rv(j)), "int")))
            return (v.arr(R, SPL, st=st), col("nonevent"), col("event"))
        fw.record(v, log, "%s.%s._compute_prebins" % (MOD, CLS), "prebins", prebins, mnames(v, "_compute_prebins"))
        PS, NP = v.fun("PRESPLITS"), z3.Int("NP"); st.assume(NP >= 1)
        fw.record(v, log, B + "prebinning.PreBinning", "PreBinning", lambda eng, st, d: st.alloc(HInst("PreBinning", {})))
        def pfit(eng, st, a, kk):
            d = dict(zip(("self", "x", "y", "sample_weight"), a)); d.update(kk); log.add(st, "prefit", d)
            st.put(a[0], HInst("PreBinning", {"splits": v.arr(NP, PS, st=st)})); return a[0]
        v.eng.methods[("PreBinning", "fit")] = pfit
        def opt(eng, st, d):
            r = st.get(d["self"]); at = dict(r.attrs)
            at.update(_solution=Opaque("solution"), _splits_optimal=Opaque("splits_optimal"), _status=Opaque("status")); st.put(d["self"], HInst(r.cls, at))
        fw.record(v, log, "%s.%s._fit_optimizer" % (MOD, CLS), "optimizer", opt, mnames(v, "_fit_optimizer"))
        def info(eng, st, d):
            q = len(log.calls(st, "info"))
            return tuple(st.alloc(HArr(Arr((z3.Int("rows"),), (lambda i, f=z3.Function("ROW_%s%d" % (nm, q), INT, INT): f(rv(i))), "int"))) for nm in ("nonevent", "event"))
        fw.record(v, log, fw.S + "bin_info", "info", info)
        fw.record(v, log, fw.S + "BinningTable", "table", lambda eng, st, d: st.alloc(HInst("Table", {})))
        st.assume(z3.Int("rows") >= 1)
        ctx.function("%s:%s._fit" % (MOD, CLS))
        n = 0
        for s, out in v.method(o, "_fit", [X, Y, None, z3.Bool("check_input")]):
            if out.kind == "raise":
                if out.val.etype == "ValueError" and user and "not unique" in (out.val.msg or ""): continue
                ctx.prove("fit: no %s raised (%s)" % (out.val.etype, (out.val.msg or "")[:40]), s.pc, z3.BoolVal(False)); continue
            n += 1
            path(v, ctx, s, o, log, F, X, Y, params, user, K, US, FX, R, SPL, PS, NP, k, m)
        ctx.fact("fit: returns", n > 0)
        INF_OK[0] = False
        v.done()
    return g


def path(v, ctx, s, o, log, F, X, Y, params, user, K, US, FX, R, SPL, PS, NP, k, m):
    def arr(label, ref, Fx): v.prove(label, s, fw.is_arr(v, s, ref, Fx, k) if ref is not None else z3.BoolVal(False))
    sp = log.calls(s, "split")[0]
    ctx.fact("the scenarios are split with the special codes", sp.get("X") == X and sp.get("Y") == Y and sp.get("special_codes") == params["special_codes"])
    pb, stt = log.calls(s, "prebins"), log.calls(s, "state")
    if len(pb) != 1: ctx.fact("the pre-bins are refined once", False); return
    for nm in ("x", "y"):
        it = v.eng.as_items(pb[0][nm], s)
        for q in range(N): arr("refinement of the clean records (%s, scenario %d)" % (nm, q), it[q], F[nm + "_clean", q])
    a = v.eng.as_arr(pb[0]["splits_prebinning"], s)
    if user:
        f = v.eng.as_arr(stt[0]["fx"], s)
        if f is None: ctx.fact("the refinement gets the fixed flags", False); return
        rng = [k >= 0, k < K, m >= 0, m < K]
        v.prove("the fixed flag of each user split stays with it", s, z3.And(rv(a.n) == K, rv(f.n) == K, z3.Implies(v.eq(a.fn(k), US(m)), v.eq(f.fn(k), FX(m)))),
                rng + [z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < m, m < K), US(k) != US(m)))])
        v.prove("the splits are the user's, in ascending order", s, z3.And(z3.Implies(k < m, rr(a.fn(k)) <= rr(a.fn(m))), z3.Exists([m], z3.And(0 <= m, m < K, v.eq(a.fn(k), US(m))))), rng)
    else: v.prove("refinement of the pre-binning splits", s, z3.And(rv(a.n) == NP, v.eq(a.fn(k), PS(k))), [k >= 0, k < NP])
    op = log.calls(s, "optimizer")[0]
    a = v.eng.as_arr(op["splits"], s)
    v.prove("the optimizer gets the refined splits", s, z3.And(rv(a.n) == R, v.eq(a.fn(k), SPL(k))), [k >= 0, k < R])
    PB = {c: z3.Function("PB_" + c, INT, INT, INT) for c in ("nonevent", "event")}
    j = z3.Int("j")
    for c in PB:
        a = v.eng.as_arr(op["n_" + c], s)
        if a is None or len(a.shape) != 2: ctx.fact("the optimizer gets the pre-bins' %s" % c, False); continue
        v.prove("the optimizer gets the pre-bins' %s" % c, s, v.eq(a.fn(k, j), PB[c](k, j)), [k >= 0, k <= R, j >= 0, j < N])
    inf, tb, ti = log.calls(s, "info"), log.calls(s, "table"), log.calls(s, "tinfo")
    if len(inf) != N: ctx.fact("rows of each scenario", False); return
    ctx.fact("a table per scenario and one of all", len(tb) == N + 1)
    from pyvc.ops import conc
    for q in range(N):
        for c in PB:
            a = v.eng.as_arr(inf[q]["n_" + c], s)
            if a is None or len(a.shape) != 1: ctx.fact("scenario %d: rows from its pre-bins' %s" % (q, c), False); continue
            v.prove("scenario %d: rows from its pre-bins' %s" % (q, c), s, v.eq(a.fn(k), PB[c](k, q)), [k >= 0, k <= R])
            for part in ("missing", "special"):
                got, lab = inf[q]["n_%s_%s" % (c, part)], "scenario %d: %s of its %s records" % (q, c, part)
                hit = [d for i, d in enumerate(ti) if is_z3(got) and str(got) == "tinfo_%d_%d" % (("nonevent", "event").index(c), i + 1)]
                if not hit: ctx.fact(lab, False); continue
                arr(lab, hit[0].get("y"), F["y_" + part, q])
                ctx.fact(lab + " (events are the ones)", hit[0].get("cl", 0) == 0)
        ctx.fact("scenario %d: rows from the optimizer's solution" % q, getattr(inf[q]["solution"], "name", "") == "solution")
        for c in PB:
            a = v.eng.as_arr(tb[q]["n_" + c], s)
            v.prove("scenario %d: its table holds its %s" % (q, c), s, v.eq(a.fn(k), z3.Function("ROW_%s%d" % (c, q + 1), INT, INT)(k)) if a is not None else z3.BoolVal(False), [k >= 0, k < z3.Int("rows")])
    for c in PB:
        a = v.eng.as_arr(tb[N]["n_" + c], s)
        v.prove("the joint table holds the total %s" % c, s, v.eq(a.fn(k), sum(z3.Function("ROW_%s%d" % (c, q + 1), INT, INT)(k) for q in range(N))) if a is not None else z3.BoolVal(False), [k >= 0, k < z3.Int("rows")])
    for t in tb: ctx.fact("the tables hold the optimal splits", getattr(t.get("splits"), "name", "") == "splits_optimal" and t.get("special_codes") == params["special_codes"])


def groups(): return [("scenario fit", fit(False), 60), ("scenario fit user splits", fit(True), 60)]
