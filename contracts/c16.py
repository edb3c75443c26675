"""C16  Counterfactuals change few, actionable features and flip the outcome (CFMIP, MCFMIP, Counterfactual)."""
import z3
from lib.vc import *
from contracts import optm, c11
from contracts.c11 import quant, domf

P = "optbinning.scorecard.counterfactual."
SEARCH_BUDGET = 40
ASSUMPTIONS = ["OR-Tools: solver.Add registers exactly the constraint written, BoolVar ranges over {0,1}, IntVar and NumVar over the integers and reals of their interval, and an accepted solution (OPTIMAL, FEASIBLE) "
               "satisfies every constraint exactly (the solver's tolerances are not modelled; solution values of binary variables are 0 or 1)",
               "real arithmetic", "probability outcome: the piecewise linear approximation of the logistic function (utils.logistic_pw, ropwr) is used through its breakpoints and coefficients; the hard constraints bind that approximation",
               "the pieces of the approximation cover the linear predictor only as far as the model says so: h is confined to the piece selected"]
NPW = 15


class World(c11.World):
    """only the constraints of the last solver created count"""
    def __init__(self, v):
        super().__init__(v)
        def new(eng, st, a, k):
            st.events.append(self.ev("solver", ()))
            return st.alloc(HInst("Model", {"args": tuple(a)}))
        v.eng.ext["ortools.linear_solver.pywraplp.Solver"] = new
        v.eng.methods[("Model", "SetTimeLimit")] = v.eng.methods[("Model", "SetNumThreads")] = lambda eng, st, a, k: None


def parts(s):
    last = max([k for k, e in enumerate(s.events) if e.kind == "solver"])
    con, dom, obj = [], [], []
    for e in s.events[last:]:
        if e.kind == "con": con.append((e.bound, bz(e.guard), e.data[1]))
        elif e.kind == "var": dom.append((e.bound, bz(e.guard), e.data))
        elif e.kind in ("min", "max"): obj.append(e)
    return con, dom, obj


def hyps(s):
    con, dom, obj = parts(s)
    return [quant(*c) for c in con] + [quant(b, g, domf(d)) for b, g, d in dom]


class Inst: pass


def world(ctx, method, objectives, outcome, y=None, hard=(), soft=(), K=None, limit=True, p=None):
    v = VC(ctx); W = World(v); eng, st = v.eng, v.st
    I = Inst(); I.v, I.W, I.K = v, W, K
    I.p = p if p is not None else v.int("p", lambda t: t >= 1)
    I.NB = v.fun("nbins", INT); v.all(I.p, lambda i: I.NB(i) >= 0)
    mx = v.int("maxbins"); v.all(I.p, lambda i: I.NB(i) <= mx)
    I.X, I.C, I.MU, I.WR = v.fun("x0"), v.fun("coef"), v.fun("mu"), v.fun("wrange")
    I.M, I.F = v.fun("metric", REAL, INT, INT), v.fun("F", REAL, INT, INT)
    I.b0 = z3.Real("intercept")
    I.mc = v.int("max_changes", lambda t: t >= 1)
    I.na, I.NA = v.int("n_na", lambda t: t >= 0), v.fun("na", INT)
    v.all(I.na, lambda k: z3.And(I.NA(k) >= 0, I.NA(k) < I.p))
    I.ptol = v.real("priority_tol", lambda t: t >= 0)
    I.y = z3.Real("y") if y is None else y
    I.b = [(z3.Real("b%d" % r), z3.Real("b%d" % (r + 1))) for r in range(NPW)]
    I.c = [[z3.Real("c%d_0" % r), z3.Real("c%d_1" % r)] for r in range(NPW)]
    eng.contracts[P + "utils.logistic_pw"] = lambda eng, st, a, k: (v.list([v_ for v_ in I.b], st), v.list([v.list(c, st) for c in I.c], st))
    W_ = lambda nm: v.real("w_" + nm, lambda t: t > 0)
    D = lambda names: st.alloc(HDict({n: k + 1 if method == "hierarchical" else W_(n) for k, n in enumerate(names)}))
    par = dict(method=method, objectives=D(objectives), max_changes=I.mc, non_actionable=v.arr(I.na, I.NA, islist=True), hard_constraints=v.list(list(hard)),
               soft_constraints=st.alloc(HDict({n: (len(objectives) + k + 1 if method == "hierarchical" else W_(n)) for k, n in enumerate(soft)})), priority_tol=I.ptol, n_jobs=1, time_limit=10)
    if K: par["K"] = K
    mod, cls = ("multi_mip", "MCFMIP") if K else ("mip", "CFMIP")
    I.o = eng.instantiate(eng.module(P + mod).lookup(cls), [], par, st)
    I.cls = "%s:%s." % (P + mod, cls)
    a2 = lambda n, m, f: v.arr2(n, m, f)
    args = dict(scorecard=st.alloc(HInst("Card", {})), x=v.arr(I.p, I.X), y=I.y, outcome_type=outcome, intercept=I.b0, coef=v.arr(I.p, I.C), min_p=z3.Real("min_p"), max_p=z3.Real("max_p"),
                wrange=v.arr(I.p, I.WR), F=a2(I.p, I.p, I.F), mu=v.arr(I.p, I.MU), nbins=v.arr(I.p, I.NB, islist=True), metric=a2(I.p, mx, I.M))
    ctx.function(I.cls + "build_model", I.cls + "weighted_model" if method == "weighted" else I.cls + "hierarchical_model", I.cls + "decision_variables", I.cls + "compute_objectives",
                 *[I.cls + "add_constraint_" + n for n in ("features", "proximity", "closeness", "max_changes", "actionable", "opposite", "min_max_diff_outcome")])
    I.outs = v.method(I.o, "build_model", [], args)
    return I


def zof(I, s, k=None):
    zd = s.get(I.v.attr(s, I.o, "_z"))
    def z(i, j):
        key = ((rv(k),) if k is not None else ()) + (rv(i), rv(j))
        for f in zd.fams:
            g = f.guard(key)
            if g is not None and not z3.is_false(g): return rv(f.value(key))
        raise Unsupported("choice variables")
    return z


def pieces(I, s, H, kk, targets, tag, act):
    """the piecewise linear approximation: one piece is selected, the predictor is in it, and its line meets the target"""
    v = I.v
    con, dom, obj = parts(s)
    inf = lambda x: isinstance(x, float) and abs(x) == float("inf")
    flat = [d for b, g, d in dom if not b]
    S = [d[0] for d in flat if d[0].sort() == INT][kk * NPW:(kk + 1) * NPW]
    Hs = [d[0] for d in flat if d[0].sort() == REAL and inf(d[1]) and inf(d[2])][kk * NPW:(kk + 1) * NPW]
    if len(S) != NPW or len(Hs) != NPW: raise Unsupported("approximation of the logistic function with other variables than a choice and a value per piece")
    v.prove(tag + "one piece is selected", s, z3.Or(*[z3.And(*[S[q] == (1 if q == r else 0) for q in range(NPW)]) for r in range(NPW)]), H)
    v.prove(tag + "the values of the pieces sum to the predictor", s, z3.Sum(Hs) == act, H)
    H = [h for h in H if not z3.is_quantifier(h)] + [z3.Sum(Hs) == act]
    for r in range(NPW):
        H1 = [z3.simplify(z3.substitute(h, *[(S[q], z3.IntVal(1 if q == r else 0)) for q in range(NPW)])) for h in H]
        v.prove(tag + "piece %d: the other pieces are off" % r, s, z3.And(*[Hs[q] == 0 for q in range(NPW) if q != r]), H1)
        H2 = [z3.simplify(z3.substitute(h, *[(Hs[q], z3.RealVal(0)) for q in range(NPW) if q != r])) for h in H1]
        H2 = [h for h in H2 if not z3.is_true(h)]
        v.prove(tag + "piece %d: its value is the predictor" % r, s, act == Hs[r], H2)
        for h in targets:
            f = I.c[r][1] * Hs[r] + I.c[r][0]
            v.prove(tag + "piece %d: %s" % (r, h), s, z3.And(I.b[r][0] <= Hs[r], Hs[r] <= I.b[r][1], f >= I.y if h == "min_outcome" else f <= I.y), H2)


def model(method, objectives, outcome, y=None, hard=(), soft=(), K=None):
    def g(ctx):
        I = world(ctx, method, objectives, outcome, y, hard, soft, K)
        v = I.v
        outs = [(s, o) for s, o in I.outs]
        if method == "hierarchical":       # an infeasible stage ends in an exception
            outs = [(s, o) for s, o in outs if o.kind != "raise"]
        ctx.fact("a model is built", bool(outs))
        for s, _ in v.returns("build", outs):
            H = hyps(s)
            i, j, k = z3.Ints("i j k")
            targets = [h for h in hard if h.endswith("outcome")]
            for kk in (range(K) if K else [None]):
                tag = "" if kk is None else "counterfactual %d: " % (kk + 1)
                z = zof(I, s, kk)
                inb = [i >= 0, i < I.p, j >= 0, j < I.NB(i)]
                g0 = fresh("feature")
                s2 = s.fork(); s2.assume(z3.And(g0 >= 0, g0 < I.p))
                P0 = rv(v.sum(s2, lambda b: z(g0, b), 0, I.NB(g0)))
                X0 = I.X(g0) + rr(v.sum(s2, lambda b: (I.M(g0, rv(b)) - I.X(g0)) * z3.ToReal(z(g0, b)), 0, I.NB(g0)))
                picked, xp = (lambda a: z3.substitute(P0, (g0, rv(a)))), (lambda a: z3.substitute(X0, (g0, rv(a))))
                v.prove(tag + "a bin is picked or not", s, z3.Or(z(i, j) == 0, z(i, j) == 1), H + inb)
                v.prove(tag + "at most one new bin per feature", s, picked(i) <= 1, H + inb[:2])
                v.prove(tag + "at most max_changes features change", s, rv(v.sum(s, picked, 0, I.p)) <= I.mc, H)
                v.prove(tag + "non-actionable features keep their bin", s, picked(i) == 0, H + [k >= 0, k < I.na, i == I.NA(k)])
                tot, law = v.sum_atom(s, lambda a: I.C(a) * xp(a), I.p)
                act = I.b0 + rr(tot)
                if outcome == "binary":
                    v.prove(tag + "the predictor is on the requested side", s, act > 0 if y == 1 else act <= 0, H)
                elif outcome == "continuous":
                    for h in targets: v.prove(tag + h, s, act >= I.y if h == "min_outcome" else act <= I.y, H)
                else:
                    if targets: pieces(I, s, H, kk or 0, targets, tag, act)
            if K:
                z = [zof(I, s, kk) for kk in range(K)]
                Hd = [h for h in H if "nvar" not in h.sexpr()]        # the real variables play no part
                for kk in range(K):
                    for ll in range(kk + 1, K):
                        g0 = fresh("feature")
                        s2 = s.fork(); s2.assume(z3.And(g0 >= 0, g0 < I.p))
                        pk, pl = [rv(v.sum(s2, lambda b, q=q: z[q](g0, b), 0, I.NB(g0))) for q in (kk, ll)]
                        inb = [g0 >= 0, g0 < I.p]
                        if "diversity_values" in hard:
                            v.prove("counterfactuals %d, %d: a feature changed by both gets different bins" % (kk + 1, ll + 1), s, z3.BoolVal(False),
                                    Hd + [z3.substitute_vars(h.body(), g0) for h in Hd if z3.is_quantifier(h) and h.num_vars() == 1] + inb + [pk == 1, pl == 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I.NB(g0)), z[kk](g0, j) == z[ll](g0, j)))])
                        if "diversity_features" in hard:
                            v.prove("counterfactuals %d, %d: not the same features change" % (kk + 1, ll + 1), s, z3.BoolVal(False), Hd + [z3.ForAll([g0], z3.Implies(z3.And(*inb), pk == pl))])
        v.done()
    return g


SETS = [("proximity",), ("closeness",), ("proximity", "closeness")]
METH = ("weighted", "hierarchical")
GROUPS = [("%s %s, outcome %d" % (m, "+".join(o), y), model(m, o, "binary", y), 60) for m in METH for o in SETS for y in (0, 1)]
GROUPS += [("%s %s, %s %s" % (m, "+".join(o), t, "+".join(h + f)), model(m, o, t, None, h, f), 90) for m in METH for t in ("continuous", "probability")
           for o, h, f in ((SETS[2], ("min_outcome",), ()), (SETS[0], ("max_outcome",), ()), (SETS[1], ("min_outcome", "max_outcome"), ("diff_outcome",)))]
GROUPS += [("two counterfactuals, %s %s, %s %s" % (m, "+".join(o), "outcome %d" % y if y is not None else t, "+".join(h + f)), model(m, o, t, y, h, f, 2), 150)
           for m, o, t, y, h, f in (("weighted", SETS[2], "binary", 1, ("diversity_values", "diversity_features"), ()), ("hierarchical", SETS[1], "binary", 0, ("diversity_features",), ("diversity_values",)),
                                    ("weighted", SETS[1], "continuous", None, ("min_outcome", "diversity_values"), ("diversity_features",)), ("weighted", SETS[0], "probability", None, ("max_outcome",), ("diversity_features",)))]


def solve(p, K=None):
    """the solution is the picked bins, feature by feature; a solution only with a status that has one"""
    def g(ctx):
        I = world(ctx, "weighted", ("proximity",), "binary", 1, K=K, p=p)
        v = I.v
        ctx.function(I.cls + "solve")
        for s0, _ in v.returns("build", I.outs):
            for s, r in v.returns("solve", v.method(I.o, "solve", [], st=s0)):
                st_, sol = r
                if sol is None:
                    v.prove("no solution only with a status that has none", s, z3.And(I.W.status != 0, I.W.status != 1))
                    ctx.fact("without a solution the status is not a success", st_ not in ("OPTIMAL", "FEASIBLE"))
                    continue
                v.prove("a solution only with a success status", s, z3.And(z3.Implies(I.W.status == 0, z3.BoolVal(st_ == "OPTIMAL")), z3.Implies(I.W.status == 1, z3.BoolVal(st_ == "FEASIBLE")), z3.Or(I.W.status == 0, I.W.status == 1)))
                H = hyps(s); j = z3.Int("j")
                for kk in (range(K) if K else [None]):
                    z = zof(I, s, kk)
                    fs = v.eng.as_items(sol, s)
                    if kk is not None: ctx.fact("one solution per counterfactual", len(fs) == K); fs = v.eng.as_items(fs[kk], s)
                    ctx.fact("one selection per feature", fs is not None and len(fs) == p)
                    for i in range(p):
                        a = v.eng.as_arr(fs[i], s)
                        v.prove("as many entries as candidate bins", s, rv(a.shape[0]) == I.NB(i))
                        v.prove("the entries are the picked bins", s, bz(a.fn(j)) == (z(z3.IntVal(i), j) == 1), H + [j >= 0, j < I.NB(i)])
        v.done()
    return g


GROUPS += [("solution, %d features%s" % (p, ", two counterfactuals" if K else ""), solve(p, K), 60) for p in (1, 2, 3) for K in (None, 2) if not (K and p == 3)]

CF = P + "counterfactual"


def card_world(v, names):
    """the scorecard's table: rows of a variable labelled 0, 1, ... (c10: concatenated tables)"""
    M = v.eng.methods
    sel = lambda st, k: st.get(k).attrs["v"] if isinstance(k, Ref) and isinstance(st.get(k), HInst) and st.get(k).cls == "Mask" else None
    def get(eng, st, a, kw):
        if a[1] == "Variable": return st.alloc(HInst("Names", {}))
        x = sel(st, a[1])
        if x is None: raise Unsupported("scorecard table[...]")
        return st.alloc(HInst("Block", {"v": x}))
    M[("Card", "__getitem__")] = get
    M[("Card", "*")] = lambda eng, o, nm, st: st.alloc(HInst("Names", {})) if nm == "Variable" else (_ for _ in ()).throw(Unsupported("table." + nm))
    M[("Names", "__eq__")] = lambda eng, st, a, kw: st.alloc(HInst("Mask", {"v": a[1]}))
    M[("Block", "__getitem__")] = lambda eng, st, a, kw: st.alloc(HInst("Col", {"v": st.get(a[0]).attrs["v"], "c": a[1]}))
    M[("Col", "__getitem__")] = lambda eng, st, a, kw: st.alloc(HInst("Picked", dict(st.get(a[0]).attrs, idx=a[1])))
    M[("Picked", "*")] = lambda eng, o, nm, st: o if nm == "values" else (_ for _ in ()).throw(Unsupported("rows." + nm))


def inst(v, p, **at):
    names = ["v%d" % k for k in range(p)]
    C = v.fun("coef")
    o = v.obj(CF + ":Counterfactual", dict(dict(_variable_names=v.list(list(names)), _coef=v.arr(p, C), _intercept=z3.Real("intercept"), special_missing=z3.Bool("special_missing"), n_jobs=1, verbose=False), **at))
    return o, names, C


def readout(p):
    """_get_counterfactual: the bins reported are those picked; the score is the predictor at the counterfactual"""
    def g(ctx):
        v = VC(ctx); st, eng = v.st, v.eng
        o, names, C = inst(v, p)
        card_world(v, names)
        NB, X = v.fun("nbins", INT), v.fun("x0"); v.all(p, lambda i: NB(i) >= 0)
        M, IX, S = v.fun("metric", REAL, INT, INT), v.fun("index", INT, INT, INT), v.fun("picked", BOOL, INT, INT)
        row = lambda f, dt: v.list([v.arr(NB(i), lambda j, i=i: f(z3.IntVal(i), j), dt, islist=dt != "bool") for i in range(p)])
        sets = st.alloc(HList([]))
        eng.methods[("Query", "copy")] = lambda eng, st, a, kw: st.alloc(HInst("Query2", {}))
        eng.methods[("Query2", "__setitem__")] = lambda eng, st, a, kw: st.put(sets, HList(list(st.get(sets).items) + [(a[0], a[1], a[2])]))
        q = st.alloc(HInst("Query", {}))
        args = [q, st.alloc(HInst("Card", {})), v.arr(p, X), v.arr(p, NB, islist=True), row(M, "float"), row(IX, "int"), row(S, "bool")]
        ctx.function(CF + ":Counterfactual._get_counterfactual")
        j = z3.Int("j")
        for s, r in v.returns("read-out", v.method(o, "_get_counterfactual", args)):
            ni, nq, score = r
            want = z3.Real("intercept")
            for i in range(p):
                cnt = rv(v.sum(s, lambda b: z3.If(S(i, b), 1, 0), 0, NB(i)))
                want = want + C(i) * (X(i) + rr(v.sum(s, lambda b: z3.If(S(i, b), M(i, b) - X(i), 0), 0, NB(i))))
                mine = [w for w in s.get(sets).items if w[1] == names[i]]
                ctx.fact("one value per changed feature, in the copied query", len(mine) <= 1 and all(w[0] == nq for w in mine))
                changed = names[i] in s.get(ni).items
                ctx.fact("the features changed are those with a new value", changed == bool(mine))
                v.prove("a feature has a new value when a bin is picked, and only then", s, cnt >= 1 if mine else cnt == 0)
                for w in mine:
                    pk = s.get(w[2])
                    ctx.fact("the new value is a bin of the feature", isinstance(pk, HInst) and pk.attrs.get("v") == names[i] and pk.attrs.get("c") == "Bin")
                    a = eng.as_arr(pk.attrs["idx"], s)
                    if a is None or a.mask is None: raise Unsupported("picked indices")
                    v.prove("the new value is the picked bin", s, z3.And(rv(a.n) == NB(i), bz(a.mask(j)) == S(i, j), z3.Implies(S(i, j), rv(a.fn(j)) == IX(i, j))), [j >= 0, j < NB(i)])
            v.prove("the score is the predictor at the counterfactual", s, rr(score) == want)
        v.done()
    return g


def candidates(p, dtype):
    """model_data: the candidate bins of a feature are its bins with another metric, in order"""
    def g(ctx):
        v = VC(ctx); st, eng = v.st, v.eng
        names = ["v%d" % k for k in range(p)]
        card_world(v, names)
        NT, W, X = v.fun("rows", INT), v.fun("value", REAL, INT, INT), v.fun("x0"); v.all(p, lambda i: NT(i) >= 3)
        OW = v.fun("other", REAL, INT, INT)
        mt = "WoE" if dtype == "binary" else "Mean"
        def vals(eng, o, nm, st):
            r = st.get(o).attrs
            if nm != "values" or r["c"] not in ("WoE", "Mean", "Points", "Coefficient"): raise Unsupported("column")
            i = names.index(r["v"]); f = W if r["c"] == mt else OW
            return st.alloc(HArr(Arr((NT(i),), lambda j: f(z3.IntVal(i), rv(j)), "float")))
        eng.methods[("Col", "*")] = vals
        def table(eng, st, a, kw):
            if (kw.get("style") or (a[1] if len(a) > 1 else None)) != "detailed": raise PyRaise("KeyError")
            return st.alloc(HInst("Card", {}))
        eng.methods[("SC", "table")] = table
        eng.methods[("BP", "get_support")] = lambda eng, st, a, kw: v.list(list(names), st)
        sc = st.alloc(HInst("SC", {"_target_dtype": dtype, "binning_process_": st.alloc(HInst("BP", {}))}))
        sm = z3.Bool("special_missing")
        for smv in (True, False):
            j = z3.Int("j")
            for s, r in v.returns("model data", v.run(P + "model_data:model_data", [sc, v.arr(p, X), smv])):
                nb, me, ix = [eng.as_items(x, s) for x in r]
                ctx.fact("one entry per feature", all(x is not None and len(x) == p for x in (nb, me, ix)))
                for i in range(p):
                    n = NT(i) if smv else NT(i) - 2
                    inb = [j >= 0, j < n]
                    a, b = eng.as_arr(me[i], s), eng.as_arr(ix[i], s)
                    if a is None or b is None or a.mask is None or b.mask is None: raise Unsupported("candidate bins")
                    v.prove("candidates are the bins with another metric", s, z3.And(rv(a.n) == n, rv(b.n) == n, bz(a.mask(j)) == (W(i, j) != X(i)), bz(b.mask(j)) == (W(i, j) != X(i))), inb)
                    v.prove("index and metric of each candidate", s, z3.And(rr(a.fn(j)) == W(i, j), rv(b.fn(j)) == j), inb + [W(i, j) != X(i)])
                    v.prove("number of candidates", s, rv(nb[i]) == rv(v.sum(s, lambda t: z3.If(W(i, t) != X(i), 1, 0), 0, n)))
        v.done()
    return g


GROUPS += [("read-out, %d features" % p, readout(p), 60) for p in (1, 2, 3)]
GROUPS += [("candidate bins, %s, %d features" % (d, p), candidates(p, d), 60) for d in ("binary", "continuous") for p in (1, 2)]


def nonactionable(p, dt):
    def g(ctx):
        v = VC(ctx); st, eng = v.st, v.eng
        o, names, C = inst(v, p)
        ctx.function(CF + ":Counterfactual._non_actionable_indices")
        import itertools
        for af in [None] + [list(c) for k in range(p + 1) for c in itertools.combinations(names[::-1], k)]:
            arg = None if af is None else v.list(list(af)) if dt == "list" else st.alloc(HArr(ops.to_nd_list(eng, st, list(af)))) if af else None
            for s, r in v.returns("non-actionable", v.method(o, "_non_actionable_indices", [arg])):
                it = eng.as_items(r, s)
                ctx.fact("the features not actionable are those not listed", it is not None and sorted(it) == ([] if arg is None else [k for k in range(p) if names[k] not in af]))
        v.done()
    return g


def generate(n_cf, method, status, mc=True, obj=True, p=3, actionable=True, hard=("min_outcome", "diversity_values"), soft=("diff_outcome", "diversity_features"), otype="continuous"):
    """generate: the model is built from the request and the fitted data; its solution is read out, one counterfactual each"""
    def g(ctx):
        v = VC(ctx); st, eng = v.st, v.eng
        F = {k: st.alloc(HInst("Data", {"k": k})) for k in ("_min_p", "_max_p", "_wrange", "_F", "_mu")}
        o, names, C = inst(v, p, _is_fitted=True, **F)
        at = st.get(o).attrs
        card = st.alloc(HInst("SC", {"_target_dtype": "binary" if otype != "continuous" else "continuous"}))
        st.put(o, HInst(st.get(o).cls, dict(at, scorecard=card)))
        tab = st.alloc(HInst("Card", {}))
        eng.methods[("SC", "table")] = lambda eng, st, a, kw: tab
        eng.ext["time.perf_counter"] = lambda eng, st, a, k: z3.Real("clock")
        eng.contracts[CF + "._check_generate_params"] = lambda eng, st, a, kw: None
        q, q2, x = [st.alloc(HInst(c, {})) for c in ("Query", "Frame", "X0")]
        eng.contracts[CF + ".Counterfactual._transform_query"] = lambda eng, st, a, kw: (x, q2)
        md = tuple(st.alloc(HInst("MD", {"k": k})) for k in range(3))
        log = st.alloc(HList([]))
        def rec(st, *t): st.put(log, HList(list(st.get(log).items) + [t]))
        def names_of(f, drop=0): return [a.arg for a in eng.func(f).node.args.args][drop:]
        pm = names_of(P + "model_data:model_data")
        def mdc(eng, st, a, kw): d = dict(zip(pm, a)); d.update(kw); rec(st, "data", d); return md
        eng.contracts[P + "model_data.model_data"] = mdc
        sols = [st.alloc(HInst("Sol", {"k": k})) for k in range(n_cf)]
        def cls(nm, mod):
            pn, bn = names_of("%s%s:%s.__init__" % (P, mod, nm), 1), names_of("%smip:CFMIP.build_model" % P, 1)
            def mk(eng, st, a, kw):
                d = dict(zip(pn, a)); d.update(kw); rec(st, "new", dict(d, cls=nm)); return st.alloc(HInst("Opt", {}))
            eng.contracts[P + mod + "." + nm] = mk
            def bm(eng, st, a, kw): d = dict(zip(bn, a[1:])); d.update(kw); rec(st, "build", d)
            eng.methods[("Opt", "build_model")] = bm
            def sv(eng, st, a, kw):
                rec(st, "solve")
                return (status, None if status == "INFEASIBLE" else sols[0] if n_cf == 1 else v.list(list(sols), st))
            eng.methods[("Opt", "solve")] = sv
        cls("CFMIP", "mip"); cls("MCFMIP", "multi_mip")
        pr = names_of(CF + ":Counterfactual._get_counterfactual", 1)
        def ro(eng, st, a, kw):
            d = dict(zip(pr, a[1:] if a and a[0] == o else a)); d.update(kw)
            k = sols.index(d["solution"]); rec(st, "read", d)
            return (st.alloc(HDict({"changed%d" % k: 1})), st.alloc(HInst("NewQuery", {"k": k})), z3.Real("score%d" % k))
        eng.contracts[CF + ".Counterfactual._get_counterfactual"] = ro
        y, M, tl, tol = z3.Real("y"), v.int("max_changes", lambda t: t >= 1), v.int("time_limit", lambda t: t >= 1), v.real("priority_tol", lambda t: z3.And(t >= 0, t <= 1))
        D = lambda d: st.alloc(HDict(d))
        ob, so = D({"closeness": 3}), D({c: k + 1 for k, c in enumerate(soft)})
        kw = dict(query=q, y=y, outcome_type=otype, n_cf=n_cf, method=method, objectives=ob if obj else None, max_changes=M if mc else None, actionable_features=v.list([names[1]]) if actionable else None,
                  hard_constraints=v.list(list(hard)) if hard else None, soft_constraints=so if soft else None, priority_tol=tol, time_limit=tl)
        ctx.function(CF + ":Counterfactual.generate", CF + ":Counterfactual._prepare_constraints")
        for s, r in v.returns("generate", v.method(o, "generate", [], kw)):
            L = s.get(log).items
            kinds = [e[0] for e in L]
            ok = all(kinds.count(k) == 1 for k in ("new", "build", "data", "solve"))
            ctx.fact("one model: created, built, solved", ok and kinds.index("new") < kinds.index("build") < kinds.index("solve"))
            if not ok: continue
            nw, bd, da = [[e[1] for e in L if e[0] == k][0] for k in ("new", "build", "data")]
            ctx.fact("model for the number of counterfactuals", nw["cls"] == ("CFMIP" if n_cf == 1 else "MCFMIP") and (n_cf == 1 or nw["K"] == n_cf))
            ctx.fact("method", nw["method"] == method)
            it = s.get(nw["objectives"]).items
            ctx.fact("objectives", dict(it) == ({"closeness": 3} if obj else {"proximity": 1, "closeness": 1} if method == "weighted" else {"proximity": 2, "closeness": 1}))
            v.prove("max_changes", s, rv(nw["max_changes"]) == (M if mc else p // 2))
            ctx.fact("non-actionable features", sorted(eng.as_items(nw["non_actionable"], s)) == ([k for k in range(p) if k != 1] if actionable else []))
            keep = lambda cs: [c for c in cs if n_cf > 1 or not c.startswith("diversity")]
            hc = nw["hard_constraints"]; hs = list(s.get(hc).items) if isinstance(s.get(hc), HDict) else eng.as_items(hc, s)
            ctx.fact("hard constraints", sorted(hs) == sorted(keep(hard)))
            ctx.fact("soft constraints", dict(s.get(nw["soft_constraints"]).items) == {c: k + 1 for k, c in enumerate(soft) if c in keep(soft)})
            ctx.fact("tolerance, time limit, jobs", nw["priority_tol"] is tol and nw["time_limit"] is tl and nw["n_jobs"] == 1)
            ctx.fact("candidate bins of the scorecard at the query", da["scorecard"] == card and da["x"] == x and is_z3(da["special_missing"]) and da["special_missing"].eq(z3.Bool("special_missing")))
            A = s.get(o).attrs
            ctx.fact("the model is built from the request, the fitted data and the candidate bins",
                     bd["x"] == x and bd["y"] is y and bd["outcome_type"] == otype and bd["intercept"].eq(z3.Real("intercept")) and bd["coef"] == at["_coef"] and bd["nbins"] == md[0] and bd["metric"] == md[1]
                     and all(bd[k[1:]] == F[k] for k in F))
            ctx.fact("status", A["_status"] == status and A["_is_generated"] is True)
            if status == "INFEASIBLE": ctx.fact("no counterfactuals without a solution", A["_cfs"] is None or not eng.as_items(A["_cfs"], s)); continue
            rd = [e[1] for e in L if e[0] == "read"]
            ctx.fact("solutions read out with the query and the candidate bins", [d["solution"] for d in rd] == sols and all(d["query"] == q2 and d["sc"] == tab and d["x"] == x and (d["nbins"], d["metric"], d["indices"]) == md for d in rd))
            cf = [s.get(c).items for c in eng.as_items(A["_cfs"], s)]
            ctx.fact("one counterfactual per solution, with its query, score and changed features",
                     len(cf) == n_cf and all(c["outcome_type"] == otype and s.get(c["query"]).attrs == {"k": k} and c["score"].eq(z3.Real("score%d" % k)) and list(eng.as_items(c["features"], s) if eng.as_items(c["features"], s) is not None else []) == ["changed%d" % k] for k, c in enumerate(cf)))
        v.done()
    return g


GROUPS += [("non-actionable, %s" % d, nonactionable(3, d), 30) for d in ("list", "array")]
GROUPS += [("generate %d %s %s%s" % (n, m, t, "" if k.get("mc", True) else ", defaults"), generate(n, m, t, **k), 30) for n, m, t, k in
           ((1, "weighted", "OPTIMAL", {}), (2, "hierarchical", "FEASIBLE", {}), (1, "hierarchical", "INFEASIBLE", dict(mc=False, obj=False, actionable=False, hard=(), p=4)), (2, "weighted", "OPTIMAL", dict(mc=False, obj=False, soft=(), p=5)),
            (1, "hierarchical", "FEASIBLE", dict(mc=False, obj=False, actionable=False, soft=(), hard=(), otype="binary", p=2)))]
