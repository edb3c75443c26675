"""C17  Two-dimensional bins tile the pre-binning grid exactly once."""
import ast
from itertools import combinations
import z3
from lib.vc import *
from contracts import optm
from contracts.optm import World, constraints

B2 = "optbinning.binning.multidimensional."
CLS = {"cp": (B2 + "cp_2d", "Binning2DCP"), "mip": (B2 + "mip_2d", "Binning2DMIP")}
SEARCH_BUDGET = 60


# ------------------------------------------------------------------------------------------------------ the model
def model(kind, lo, hi, gamma=False):
    """build_model on any lists of covering rectangles"""
    def g(ctx):
        v = VC(ctx)
        st = v.st
        W = World(v, kind == "mip")
        mod, cls = CLS[kind]
        NG, NR = v.int("n_grid", lambda t: t >= 1), v.int("n_rectangles", lambda t: t >= 1)
        LEN, COL = v.fun("LEN", INT, INT), v.fun("COL", INT, INT, INT)
        j, q = z3.Ints("j q")
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < NG), LEN(j) >= 0)))
        st.assume(z3.ForAll([j, q], z3.Implies(z3.And(0 <= j, j < NG, 0 <= q, q < LEN(j)), z3.And(COL(j, q) >= 0, COL(j, q) < NR))))
        cols = st.alloc(HInst("Cols", {}))
        v.eng.methods[("Cols", "__getitem__")] = lambda eng, s, a, k: s.alloc(HArr(Arr((LEN(rv(a[1])),), lambda t, c=rv(a[1]): COL(c, rv(t)), "int", islist=True)))
        CS = REAL if kind == "mip" else INT
        c, er, rec = v.arr(NR, v.fun("COST", CS)), v.arr(NR, v.fun("RATE")), v.arr(NR, v.fun("REC", INT))
        REC = v.fun("REC", INT)
        v.all(NR, lambda t: REC(t) >= 1)
        mn, mx = v.int("min_n_bins", lambda t: t >= 1) if lo else None, v.int("max_n_bins", lambda t: t >= 1) if hi else None
        if lo and hi: st.assume(mn <= mx)
        gam = v.real("gam", lambda t: t > 0) if gamma else 0
        if gamma: st.assume(v.sum(st, REC, 0, NR) >= 1)
        o = v.eng.instantiate(v.eng.module(mod).lookup(cls), [], dict(monotonic_trend_x=None, monotonic_trend_y=None, min_n_bins=mn, max_n_bins=mx, min_diff_x=0, min_diff_y=0, gamma=gam, n_jobs=1, time_limit=100), st)
        ctx.function("%s:%s.__init__" % (mod, cls), "%s:%s.build_model" % (mod, cls), "%s:%s.decision_variables" % (mod, cls), "%s:%s.add_constraint_unique_assignment" % (mod, cls), "%s:%s.add_constraint_min_max_bins" % (mod, cls))
        for s, _ in v.returns("build", v.method(o, "build_model", [NG, NR, cols, c, None, None, er, rec])):
            x = optm.Built()
            x.con, x.dom, x.obj = constraints(s)
            xd = s.get(v.attr(s, o, "_x"))
            def X(i):
                for f in getattr(xd, "fams", ()):
                    if f.guard(rv(i)) is not None: return rv(f.value(rv(i)))
                raise Unsupported("model variables")
            i = z3.Int("i")
            h = [i >= 0, i < NR]
            pc = list(s.pc)
            v.prove("the variables are those of the rectangles", s, rv(v.attr(s, o, "_n_rectangles")) == NR)
            ctx.prove("a rectangle is selected or not", pc + optm.at(x, [i]) + h, z3.And(X(i) >= 0, X(i) <= 1))
            col = lambda jj, a, b: v.sum(s, lambda t: X(COL(jj, t)), a, b)
            ctx.prove("the rectangles of a cell: exactly one is selected", pc + optm.at(x, [j]) + [0 <= j, j < NG], col(j, 0, LEN(j)) == 1)
            tot = v.sum(s, lambda t: X(t), 0, NR)
            if lo: ctx.prove("at least the minimum number of rectangles", pc + optm.at(x, [i]), tot >= mn)
            if hi: ctx.prove("at most the maximum number of rectangles", pc + optm.at(x, [i]), tot <= mx)
        v.done()
    return g


def tiling(ctx):
    """a sum of one over the rectangles covering a cell, each listed once, means that exactly one selected rectangle covers it"""
    v = VC(ctx)
    X, COL = v.fun("X", INT), v.fun("COLj", INT)
    n = v.int("n", lambda t: t >= 0)
    i, a, b, m = z3.Ints("i a b m")
    S = lambda t: v.sum(v.st, lambda q: X(COL(q)), 0, t)
    pc = list(v.st.pc) + [z3.ForAll([m], z3.And(X(m) >= 0, X(m) <= 1))]
    ctx.prove("some rectangle covering the cell is selected", pc + [z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), X(COL(m)) == 0)), S(n) == 1], z3.BoolVal(False))
    ps = [S(t) for t in (z3.IntVal(0), a, a + 1, b, b + 1, n)]
    lem = [("start", [], ps[0] == 0), ("partial sums are not negative", [a >= 0], ps[1] >= 0), ("step", [a >= 0], ps[2] == ps[1] + X(COL(a))), ("partial sums grow", [0 <= a, a < b], ps[3] >= ps[2]),
           ("step", [b >= 0], ps[4] == ps[3] + X(COL(b))), ("partial sums grow to the end", [0 <= b, b < n], ps[5] >= ps[4])]
    for nm, hy, gl in lem: ctx.prove("sum over the rectangles of a cell: " + nm, pc + hy, gl)
    ctx.prove("only one rectangle covering the cell is selected", [0 <= a, a < b, b < n, X(COL(a)) == 1, X(COL(b)) == 1, ps[5] == 1] + [gl for _, _, gl in lem], z3.BoolVal(False), use_facts=False)
    v.done()


def solve(kind):
    """solve() returns the accepted assignment, and no rectangle otherwise"""
    mip = kind == "mip"
    def g(ctx):
        for acc, nm in [(True, "OPTIMAL"), (True, "FEASIBLE"), (False, "INFEASIBLE"), (False, "UNBOUNDED"), (False, "ABNORMAL"), (False, "UNKNOWN"), (False, "MODEL_INVALID"), (False, "NOT_SOLVED")]: one(ctx, acc, nm)
    def one(ctx, acc, name):
        v = VC(ctx)
        st = v.st
        mod, cls = CLS[kind]
        n = v.int("n", lambda n: n >= 1)
        VAL = v.fun("VAL", INT, INT)
        j = z3.Int("j")
        st.assume(z3.ForAll([j], z3.Or(VAL(j) == 0, VAL(j) == 1)))
        status = Ext(("ortools.linear_solver.pywraplp.Solver." if mip else "ortools.sat.python.cp_model.") + name)
        v.eng.ext["ortools.sat.python.cp_model.CpSolver"] = lambda eng, s, a, k: s.alloc(HInst("Solver", {"parameters": s.alloc(HInst("Parameters", {}))}))
        Mt = v.eng.methods
        for q in ("SetTimeLimit", "SetNumThreads"): Mt[("Solver", q)] = lambda eng, s, a, k: None
        Mt[("Solver", "Solve")] = lambda eng, s, a, k: status
        Mt[("Solver", "StatusName")] = lambda eng, s, a, k: name if a[1] is status else Opaque("status name")
        row = lambda s, r: VAL(rv(s.get(r).attrs["row"]))
        Mt[("Solver", "BooleanValue")] = lambda eng, s, a, k: row(s, a[1]) == 1
        Mt[("Solver", "Value")] = lambda eng, s, a, k: row(s, a[1])
        Mt[("Var", "solution_value")] = lambda eng, s, a, k: rr(row(s, a[0]))
        Mt[("Vars", "__getitem__")] = lambda eng, s, a, k: s.alloc(HInst("Var", {"row": a[1]}))
        o = v.obj(mod + ":" + cls, {"_x": st.alloc(HInst("Vars", {})), "_n_rectangles": n, "_model": Opaque("model"), "time_limit": z3.Int("tl"), "n_jobs": z3.Int("jobs"), "solver_": st.alloc(HInst("Solver", {})) if mip else None})
        ctx.function("%s:%s.solve" % (mod, cls))
        k = z3.Int("k")
        for s, r in v.returns("solve", v.method(o, "solve")):
            nm, sol = r
            a = v.eng.as_arr(sol, s)
            ctx.fact("%s: accepted as such" % name, (nm == name) if acc else nm not in ("OPTIMAL", "FEASIBLE"))
            want = (VAL(k) == 1) if acc else z3.BoolVal(False)
            v.prove("%s: %s" % (name, "the selected rectangles are returned" if acc else "no rectangle is returned"), s, z3.And(rv(a.n) == n, bz(a.fn(k)) == want), [k >= 0, k < n])
        v.done()
    return g


GROUPS = [("model %s%s%s%s" % (k, " min" if lo else "", " max" if hi else "", " gamma" if ga else ""), model(k, lo, hi, ga), 60) for k in CLS for lo in (0, 1) for hi in (0, 1) for ga in ((0, 1) if lo and hi else (0,))] + [
    ("a cell is covered once", tiling, 30), ("solve cp", solve("cp"), 40), ("solve mip", solve("mip"), 40)]
ASSUMPTIONS = list(optm.ASSUMPTIONS) + [
    "partial correctness: indices used on the grid's flattened counts are taken to be in range (an IndexError would be raised otherwise); counts are not negative",
    "the lists built by the candidate loops start empty and are only appended to in the loop nest (the nest is verified step by step: an arbitrary position of its four counters from an arbitrary state of the lists)",
    "the pre-bins' splits come from sklearn and are finite; numpy.where on a two-dimensional array gives the positions of its true cells",
    "the rate of a bin is the ratio of its events (sum) and records as real numbers"]
BOUNDED = ("bounded stand-in (never counted as proved): the candidate rectangles of the cart strategy (model_data_cart, continuous_model_data_cart) are compared with direct enumeration on random fits of the real code; "
           "the whole fit (grid and cart, cp and mip, both targets) is compared with the records' counts on random data")


# ------------------------------------------------------------------------------------------------------ the grid
OB = {"bin": (B2 + "binning_2d", "OptimalBinning2D"), "cont": (B2 + "continuous_binning_2d", "ContinuousOptimalBinning2D")}


def matrices(kind):
    """the counts of the grid are those of the clean records between the splits"""
    def g(ctx):
        v = VC(ctx)
        st = v.st
        mod, cls = OB[kind]
        N, KX, KY = v.int("n_clean", lambda t: t >= 1), v.int("n_splits_x", lambda t: t >= 0), v.int("n_splits_y", lambda t: t >= 0)
        NS, NM = v.int("n_special", lambda t: t >= 0), v.int("n_missing", lambda t: t >= 0)
        X, Y, SX, SY = [v.fun(q) for q in ("X", "Y", "SX", "SY")]
        zs = REAL if kind == "cont" else INT
        Z, ZS, ZM = v.fun("Z", zs), v.fun("ZS", zs), v.fun("ZM", zs)
        p, q, k = z3.Ints("p q k")
        for S_, K in ((SX, KX), (SY, KY)): st.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < K), S_(p) < S_(q))))
        if kind == "bin":
            for F, n in ((Z, N), (ZS, NS), (ZM, NM)): v.all(n, lambda t, F=F: z3.Or(F(t) == 0, F(t) == 1))
        o = v.obj(mod + ":" + cls, {})
        x, y = v.arr(N, X), v.arr(N, Y)
        DIG = {}
        def dg(eng, s, a, kw, m0=v.eng.ext["numpy.digitize"]):
            r = m0(eng, s, a, kw)
            DIG["x" if a[0] == x else "y" if a[0] == y else "?"] = eng.as_arr(r, s)
            return r
        v.eng.ext["numpy.digitize"] = v.eng.ext["numpy.searchsorted"] = dg
        other = lambda n, F: [v.arr(n, v.fun(F + "x")), v.arr(n, v.fun(F + "y"))]
        ctx.function("%s:%s._prebinning_matrices" % (mod, cls))
        if kind == "bin": ctx.function("optbinning.binning.binning:target_info") if False else None
        args = [v.arr(KX, SX), v.arr(KY, SY), x, y, v.arr(N, Z)] + other(NM, "M") + [v.arr(NM, ZM)] + other(NS, "S") + [v.arr(NS, ZS)]
        i, j = z3.Ints("i j")
        rng = [i >= 0, i <= KY, j >= 0, j <= KX]
        for s, r in v.returns("grid", v.method(o, "_prebinning_matrices", args)):
            if set(DIG) != {"x", "y"}: raise Unsupported("digitize calls")
            at = lambda nm, t: rv(DIG[nm].fn(t))
            plain = lambda V, S_, K, t, c: z3.And(z3.Or(c == 0, S_(c - 1) <= V(t)), z3.Or(c == K, V(t) < S_(c)))
            rec = [k >= 0, k < N]
            v.prove("the column of a record is the one whose limits hold it", s, (at("x", k) == j) == plain(X, SX, KX, k, j), rng + rec)
            v.prove("the row of a record is the one whose limits hold it", s, (at("y", k) == i) == plain(Y, SY, KY, k, i), rng + rec)
            cell = lambda t: z3.And(at("x", t) == j, at("y", t) == i)
            tot = lambda cond, val=None: v.sum(s, lambda t: z3.If(cond(t), z3.IntVal(1) if val is None else val(t), z3.IntVal(0) if val is None else z3.RealVal(0)), 0, N)
            it = v.eng.as_items(r, s)
            if kind == "bin":
                want = [("non-events", tot(lambda t: z3.And(cell(t), Z(t) == 0))), ("events", tot(lambda t: z3.And(cell(t), Z(t) == 1)))]
                for nm, F, n in (("special", ZS, NS), ("missing", ZM, NM)):
                    for w, tg in (("nonevent", 0), ("event", 1)):
                        v.prove("%s %s records" % (w, nm), s, rr(v.attr(s, o, "_n_%s_%s" % (w, nm))) == rr(v.sum(s, lambda t: z3.If(F(t) == tg, z3.IntVal(1), z3.IntVal(0)), 0, n)))
            else:
                want = [("records", tot(cell)), ("sums", tot(cell, Z)), ("sums of squares", tot(cell, lambda t: Z(t) * Z(t)))]
                for nm, F, n in (("special", ZS, NS), ("missing", ZM, NM)):
                    v.prove("%s records" % nm, s, rr(v.attr(s, o, "_n_records_%s" % nm)) == rr(n))
                    v.prove("sum of the %s records" % nm, s, rr(v.attr(s, o, "_sum_%s" % nm)) == rr(v.sum(s, F, 0, n)))
            ctx.form("as many grids as quantities", len(it) == len(want))
            for (nm, w), a in zip(want, it):
                sh = v.shape(s, a)
                v.prove("a cell for every pair of pre-bins (%s)" % nm, s, z3.And(rv(sh[0]) == KY + 1, rv(sh[1]) == KX + 1))
                v.prove("%s of a cell are those of its clean records" % nm, s, rr(v.get(s, a, i, j)) == rr(w), rng)
        v.done()
    return g


GROUPS += [("grid %s" % k, matrices(k), 150) for k in OB]


# ------------------------------------------------------------------------------------------------------ which values reach the model
def wiring(kind, solver, strategy, sizes):
    def g(ctx):
        from contracts.fitwire import Log, common_env
        v = VC(ctx)
        st = v.st
        mod, cls = OB[kind]
        common_env(v)
        log = Log(v)
        cont = kind == "cont"
        c = v.eng.module(mod).lookup(cls)
        P = dict(min_n_bins=z3.Int("nmin"), max_n_bins=z3.Int("nmax"), gamma=z3.Real("gam"), n_jobs=z3.Int("jobs"), time_limit=z3.Int("tl"), monotonic_trend_x="ascending", monotonic_trend_y="descending", solver=solver, strategy=strategy)
        if sizes: P.update(min_bin_size=z3.Real("smin"), max_bin_size=z3.Real("smax"))
        if not cont: P.update(divergence="iv", min_bin_n_event=z3.Int("emin"), max_bin_n_event=z3.Int("emax"), min_bin_n_nonevent=z3.Int("nemin"), max_bin_n_nonevent=z3.Int("nemax"))
        o = v.eng.instantiate(c, [], dict(P), st)
        N = v.int("n_samples", lambda t: t >= 1)
        at = dict(st.get(o).attrs, _n_samples=N, _clf=Opaque("tree"))
        st.put(o, HInst(c, at))
        f = ("continuous_model_data" if cont else "model_data") + ("_cart" if strategy == "cart" else "")
        fm = B2 + ("model_data_cart_2d" if strategy == "cart" else "model_data_2d")
        fn = [a.arg for a in v.eng.func(fm + ":" + f).node.args.args]
        out = ["n_grid", "n_rectangles", "rows", "cols", "c", "d_connected_x", "d_connected_y"] + (["mean", "n_records", "sums", "stds"] if cont else ["event_rate", "n_event", "n_nonevent", "n_records"])
        OUT = {q: Opaque("model data " + q) for q in out}
        def md(eng, s, a, k):
            d = dict(zip(fn, a)); d.update(k); log.add(s, "data", d)
            return tuple(OUT[q] for q in out)
        v.eng.contracts[fm + "." + f] = md
        om, oc = CLS[solver]
        onames = [a.arg for a in v.eng.class_attr(v.eng.module(om).lookup(oc), "__init__").node.args.args][1:]
        bnames = [a.arg for a in v.eng.class_attr(v.eng.module(om).lookup(oc), "build_model").node.args.args][1:]
        def new(eng, s, a, k):
            d = dict(zip(onames, a)); d.update(k); log.add(s, "optimizer", d)
            return s.alloc(HInst("Optimizer", {"solver_": Opaque("solver")}))
        v.eng.contracts[om + "." + oc] = new
        def build(eng, s, a, k):
            d = dict(zip(bnames, a[1:])); d.update(k); log.add(s, "build", d)
        v.eng.methods[("Optimizer", "build_model")] = build
        SOL = Opaque("solution")
        v.eng.methods[("Optimizer", "solve")] = lambda eng, s, a, k: (log.add(s, "solve", {}), ("STATUS", SOL))[1]
        v.eng.contracts["optbinning.information.solver_statistics"] = lambda eng, s, a, k: (Opaque("counters"), Opaque("time"))
        v.eng.ext["joblib.effective_n_jobs"] = lambda eng, s, a, k: Opaque("jobs")
        G = [Opaque("grid " + q) for q in (("R", "S", "SS") if cont else ("NE", "E"))]
        ctx.function("%s:%s._fit_optimizer" % (mod, cls))
        for s, r in v.returns("fit the optimizer", v.method(o, "_fit_optimizer", [Opaque("splits x"), Opaque("splits y")] + G)):
            one = lambda nm: (log.calls(s, nm) + [None])[0]
            op, bd, dt = one("optimizer"), one("build"), one("data")
            once = all(len(log.calls(s, q)) == 1 for q in ("optimizer", "build", "data", "solve"))
            ctx.form("rectangles, model and solution are made once", once)
            if not once: continue
            for q in ("min_n_bins", "max_n_bins"): v.prove("%s reaches the model" % q, s, v.eq(op[q], P[q]) if op.get(q) is not None else z3.BoolVal(False))
            for q in ("min_bin_size", "max_bin_size"):
                x = dt.get(q)
                if not sizes: ctx.fact("no %s" % q, x is None); continue
                p = P[q] * z3.ToReal(N)
                v.prove("%s is the fraction of the records, rounded up" % q, s, z3.And(rr(x) >= p, rr(x) < p + 1, z3.BoolVal(rv(x).sort() == INT)) if x is not None else z3.BoolVal(False))
            if not cont:
                for q in ("min_bin_n_event", "max_bin_n_event", "min_bin_n_nonevent", "max_bin_n_nonevent"): v.prove("%s reaches the rectangles" % q, s, v.eq(dt[q], P[q]) if dt.get(q) is not None else z3.BoolVal(False))
            for q, x in zip(("R", "S", "SS") if cont else ("NE", "E"), G): ctx.fact("the rectangles are those of the grid (%s)" % q, dt.get(q) is x)
            for q in ("n_grid", "n_rectangles", "cols", "c", "n_records"): ctx.fact("the model is that of the rectangles (%s)" % q, bd.get(q) is OUT[q])
            ctx.fact("the solution is the model's", v.attr(s, o, "_solution") is SOL)
            ctx.fact("the status is the model's", v.attr(s, o, "_status") == "STATUS")
            want = ["rows", "n_records", "sums", "stds"] if cont else ["rows", "n_nonevent", "n_event"]
            it = v.eng.as_items(r, s)
            ctx.fact("rows and totals of the rectangles are returned", it is not None and len(it) == len(want) and all(x is OUT[q] for x, q in zip(it, want)))
            for nm, q in (("_rows", "rows"), ("_cols", "cols")): ctx.fact("the %s of the rectangles are kept" % q, v.attr(s, o, nm) is OUT[q])
        v.done()
    return g


GROUPS += [("wiring %s %s %s%s" % (k, so, sg, " sizes" if sz else ""), wiring(k, so, sg, sz), 40) for k in OB for so in CLS for sg in ("grid", "cart") for sz in (False, True)]


# ------------------------------------------------------------------------------------------------------ the candidate rectangles
class Col(PyVal):
    """the list of rectangles covering a cell, being filled"""
    def __init__(self, c): self.c = c
    def subst(self, sub, f): return Col(f(self.c, sub))
    def same(self, o): return isinstance(o, Col) and rv(o.c).eq(rv(self.c))
    def getattr(self, eng, st, name):
        if name != "append": raise Unsupported("%s of a list of rectangles" % name)
        def app(eng, st, a, k): st.events.append(eng.loops.FamEvent("cover", (rv(self.c), rv(a[0])), True))
        return app


class Nest:
    """the loops over rectangles: whatever the number of rectangles found so far, a step adds nothing, or one rectangle to each of the lists and to the lists of its cells.
    The loops are those that advance the number of rectangles; every one is checked at an arbitrary iteration."""
    def __init__(self, ctx, v): self.ctx, self.v, self.snaps, self.lists, self.counter, self.cols = ctx, v, [], None, None, None

    def mine(self, node, st):
        from pyvc.loops import assigned_names
        if not isinstance(node, ast.For): return False
        if self.counter is not None: return self.counter in assigned_names(node.body)
        if not any(isinstance(x, ast.For) for x in ast.walk(ast.Module(node.body, []))): return False
        aug = {x.target.id for x in ast.walk(ast.Module(node.body, [])) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        c = [n for n in aug if isinstance(st.frame.vars.get(n), int) and st.frame.vars[n] == 0]
        return len(c) == 1

    def run(self, eng, node, st, it):
        from pyvc.loops import assigned_names, ops_same
        from pyvc.core import NORMAL, CONTINUE, RAISE, BREAK, Out, ON
        if it is None or it.mask is not None: raise Unsupported("loop over rectangles")
        ctx = self.ctx
        top = self.counter is None
        head = st.fork()
        fv = head.frame.vars
        if top:
            aug = {x.target.id for x in ast.walk(ast.Module(node.body, [])) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            self.counter, = [n for n in aug if isinstance(fv.get(n), int) and fv[n] == 0]
            self.lists = {}
            for nm, x in list(fv.items()):
                if isinstance(x, Ref) and isinstance(head.heap.get(x.id), HList) and not head.get(x).items: self.lists[nm] = None
                if isinstance(x, Ref) and isinstance(head.heap.get(x.id), HDict):
                    if self.emptylists(head, x): self.cols = nm
            for nm in self.lists: fv[nm] = self.lists[nm] = head.alloc(HInst("Recorder", {"name": nm, "n": z3.IntVal(0)}))
            if self.cols is None: raise Unsupported("lists of the cells")
            fv[self.cols] = head.alloc(HInst("Cover", {}))
        else: self.consistent(head, "before a nested loop")
        out = []
        self.havoc(head)
        k = fresh("it")
        body = head.fork()
        body.pc = body.pc + [k >= 0, k < rv(it.n)]
        names = assigned_names(node.body) | {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        for nm in names - {self.counter} - set(self.lists): body.frame.vars[nm] = Poison("local of the loops over rectangles")
        body.ghost = dict(body.ghost, binders=body.ghost.get("binders", ()))
        for s1, o1 in eng.run(lambda s: eng.assign(node.target, it.val(k), s), body):
            if o1.kind != NORMAL: out.append((s1, o1)); continue
            start = s1.fork()
            for s2, o2 in eng.exec_block(node.body, s1):
                if o2.kind == RAISE: out.append((s2, o2)); continue
                if o2.kind not in (NORMAL, CONTINUE): raise Unsupported("leaving the loops over rectangles")
                ids = {r.id for r in self.lists.values()}
                for hid, rec in start.heap.items():
                    if hid not in ids and hid in s2.heap and not ops_same(rec, s2.heap[hid]): raise Unsupported("the loops over rectangles change another object")
                self.snaps.append((start, s2, s2.events[len(start.events):]))
        ex = head.fork()
        self.havoc(ex)
        for nm in names - {self.counter} - set(self.lists): ex.frame.vars[nm] = Poison("local of the loops over rectangles")
        if top: self.leave(ex)
        return out + [(ex, ON)]

    def emptylists(self, s, ref):
        r = s.get(ref)
        fams = getattr(r, "fams", ())
        if len(fams) != 1 or r.items: return False
        v = fams[0].val
        v = s.get(v) if isinstance(v, Ref) else v
        return (isinstance(v, HList) and not v.items) or (isinstance(v, Arr) and v.islist and conc(v.n) == 0)

    def havoc(self, s):
        N = fresh("rects")
        s.pc = s.pc + [N >= 0]
        s.frame.vars[self.counter] = N
        for nm, r in self.lists.items(): s.put(r, HInst("Recorder", {"name": nm, "n": N}))
        return N

    def consistent(self, s, when): self.snaps.append((s, s, []))

    def leave(self, s):
        N = s.frame.vars[self.counter]
        self.N = N
        self.F = {}
        for nm, r in self.lists.items():
            F = self.F[nm] = self.v.fun("all_" + nm)
            s.frame.vars[nm] = s.alloc(HArr(Arr((N,), lambda t, F=F: F(rv(t)), "float", islist=True)))
            s.ghost["list " + nm] = s.frame.vars[nm]


BOUNDS = {"bin": ("smin", "smax", "emin", "emax", "nemin", "nemax"), "cont": ("smin", "smax")}


def rectangles(kind, mono=False):
    """model_data, for every subset of the bounds given"""
    def g(ctx):
        for q in range(len(BOUNDS[kind]) + 1):
            for bounds in combinations(BOUNDS[kind], q):
                if sum(o["status"] != "proved" for o in ctx.obls) > 2: return          # the other subsets are not looked at: this one failed
                rectangle_steps(kind, bounds, mono)(ctx)
    return g


def rectangle_steps(kind, bounds, mono=False):
    def g(ctx):
        v = VC(ctx)
        st = v.st
        cont = kind == "cont"
        mod = B2 + "model_data_2d:"
        fn = "continuous_model_data" if cont else "model_data"
        M, NX = v.int("m", lambda t: t >= 1), v.int("n", lambda t: t >= 1)
        GR = [v.fun(q, REAL if q in ("S", "SS") else INT, INT, INT) for q in (("R", "S", "SS") if cont else ("NE", "E"))]
        i, j, q, c = z3.Ints("i j q c")
        for F in GR:
            if F.range() == INT: st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < M, 0 <= j, j < NX), F(i, j) >= 0)))
        C = Nest(ctx, v)
        v.eng.loop_contract = lambda eng, node, s: C if s.frame.qual == mod.replace(":", ".") + fn and C.mine(node, s) or s.frame.qual == mod + fn and C.mine(node, s) else None
        def app(eng, s, a, k):
            r = s.get(a[0])
            s.events.append(eng.loops.FamEvent("append", (r.attrs["name"], r.attrs["n"], eng.loops.freeze(eng, s, a[1], None)), True))
            s.put(a[0], HInst("Recorder", dict(r.attrs, n=r.attrs["n"] + 1)))
        v.eng.methods[("Recorder", "append")] = app
        v.eng.methods[("Recorder", "__len__")] = lambda eng, s, a, k: s.get(a[0]).attrs["n"]
        v.eng.methods[("Cover", "__getitem__")] = lambda eng, s, a, k: Col(rv(a[1]))
        for nm in ("jeffrey", "jensen_shannon", "hellinger", "triangular"):
            v.eng.contracts["optbinning.binning.metrics." + nm] = lambda eng, s, a, k: s.alloc(HArr(Arr(eng.as_arr(a[0], s).shape, lambda t, F=v.fun("divergence"): F(rv(t)), "float")))
        v.eng.contracts[mod.replace(":", ".") + "_connected_rectangles"] = lambda eng, s, a, k: (Opaque("connected x"), Opaque("connected y"))
        names = ["smin", "smax"] + ([] if cont else ["emin", "emax", "nemin", "nemax"])
        b = {q_: v.int(q_, lambda t: t >= 1) if q_ in bounds else None for q_ in names}
        mats = [v.arr2(M, NX, F) for F in GR]
        args = ([] if cont else ["iv"]) + mats + (["ascending", "descending"] if mono else [None, None]) + [None if cont else 1000000] + [b[q_] for q_ in names]
        v.eng.opts["partial"] = True
        res = v.returns(fn, v.run(mod + fn, args))
        if C.counter is None: raise Unsupported("no loop over rectangles found")
        # roles of the lists
        flat = lambda F: (lambda t: F(QDIV(rv(t), NX), QMOD(rv(t), NX)))
        for s, r in res:
            it = v.eng.as_items(r, s)
            v.prove("number of cells", s, rv(it[0]) == M * NX)
            v.prove("number of rectangles", s, rv(it[1]) == C.N)
            role = {}
            for nm in C.lists:
                if it[2] == s.ghost.get("list " + nm): role[nm] = "cells"
            ctx.form("the cells of the rectangles are returned", list(role.values()) == ["cells"])
            ctx.form("the lists of the cells are returned", isinstance(it[3], Ref) and isinstance(s.get(it[3]), HInst) and s.get(it[3]).cls == "Cover")
            tot = {8: 0, 9: 1, 10: 2} if cont else {8: 1, 9: 0, 10: None}
            if cont: tot = {8: 0, 9: 1}
            for pos, gr in tot.items():
                a = v.eng.as_arr(it[pos], s)
                if gr is None:
                    names2 = {x: nm for nm, x in role.items()}
                    v.prove("records are events and non-events", s, rr(a.fn(q)) == rr(v.get(s, it[8], q)) + rr(v.get(s, it[9], q)), [q >= 0, q < C.N]); continue
                hit = [nm for nm in C.lists if nm not in role and z3.simplify(rr(a.fn(q))).eq(z3.simplify(C.F[nm](q)))]
                ctx.form("totals of the rectangles are returned (%d)" % pos, len(hit) == 1)
                if hit: role[hit[0]] = gr
                v.prove("a total for every rectangle (%d)" % pos, s, rv(a.n) == C.N)
            if cont:
                rest = [nm for nm in C.lists if nm not in role and not nm.startswith("outer")]
            C.role = role
        if not res: return
        rl = C.role
        grown = 0
        for s0, s, ev in C.snaps:
            n0 = rv(s0.frame.vars[C.counter]); n1 = rv(s.frame.vars[C.counter])
            app = [e for e in ev if e.kind == "append"]
            cov = [e for e in ev if e.kind == "cover"]
            if not app and not cov:
                ctx.prove("a step without a rectangle leaves the number", s.pc, z3.And(n1 == rv(s.get(C.lists[next(iter(rl))]).attrs["n"]), *[rv(s.get(C.lists[nm]).attrs["n"]) == n1 for nm in rl]))
                continue
            grown += 1
            one = all(len([e for e in app if e.data[0] == nm]) == 1 for nm in rl) and all(not e.bound and z3.is_true(z3.simplify(bz(e.guard))) for e in app)
            ctx.form("a rectangle is added once to every list", one)
            if not one: continue
            v.prove("the number of rectangles is advanced by one", s, n1 == rv(s.get(C.lists[next(iter(rl))]).attrs["n"]))
            val = {nm: [e.data[2] for e in app if e.data[0] == nm][0] for nm in rl}
            for nm in rl: v.prove("every list has the same length", s, z3.And(rv([e.data[1] for e in app if e.data[0] == nm][0]) == n1 - 1, rv(s.get(C.lists[nm]).attrs["n"]) == n1))
            row = [val[nm] for nm, x in rl.items() if x == "cells"][0]
            row = v.eng.as_arr(row, s)
            if row is None or len(row.shape) != 1 or row.mask is not None: raise Unsupported("cells of a rectangle")
            L = rv(row.n)
            # covered cells
            okc = len(cov) == 1 and len(cov[0].bound) == 1
            ctx.form("the rectangle is listed at cells of one loop", okc)
            if okc:
                e = cov[0]; t = e.bound[0]
                gd = z3.substitute(bz(e.guard), (t, q))
                v.prove("the rectangle is listed at every cell it covers", s, z3.And(gd, z3.substitute(e.data[0], (t, q)) == rv(row.fn(q)), z3.substitute(e.data[1], (t, q)) == n1 - 1), [q >= 0, q < L])
                v.prove("the rectangle is listed at no other cell", s, z3.And(q >= 0, q < L), [gd])
            S = {x: v.sum(s, lambda t, F=flat(GR[x]): F(rv(row.fn(t))), 0, L) for x in range(len(GR))}
            for nm, x in rl.items():
                if x == "cells": continue
                v.prove("totals of a rectangle are those of its cells (%s)" % GR[x].name(), s, rr(rv(val[nm])) == rr(S[x]))
            rec = rr(S[0]) if cont else rr(S[0]) + rr(S[1])
            for nm, what, t in [("s", "records of a rectangle", rec)] + ([] if cont else [("ne", "%s of a rectangle" % GR[0].name(), rr(S[0])), ("e", "%s of a rectangle" % GR[1].name(), rr(S[1]))]):
                if nm + "min" in bounds: v.prove("%s reach the minimum" % what, s, t >= b[nm + "min"])
                if nm + "max" in bounds: v.prove("%s within the maximum" % what, s, t <= b[nm + "max"])
            shape(v, ctx, s, row, M, NX, L)
        ctx.form("rectangles are added", grown >= 1)
        v.done()
    return g


def shape(v, ctx, s, row, M, NX, L):
    """the cells are those of rows a .. a+k-1 and columns b .. b+w-1 of the grid, in order"""
    q = z3.Int("q")
    e = rv(row.fn(q))
    ws = {}
    def walk(t):
        if z3.is_app(t) and t.decl().eq(QDIV) and t.arg(0).eq(q): ws[t.arg(1).sexpr()] = t.arg(1)
        for c in t.children(): walk(c)
    walk(e)
    if len(ws) != 1: raise Unsupported("shape of a rectangle")
    w, = ws.values()
    fs = L.children() if z3.is_mul(L) and L.num_args() == 2 else []
    ks = [fs[1 - t] for t in (0, 1) if fs and fs[t].eq(w)]
    if not ks: raise Unsupported("shape of a rectangle")
    k = ks[0]
    p = z3.simplify(e, som=True)
    R, C = [], []
    for t in (p.children() if z3.is_add(p) else [p]):
        f = t.children() if z3.is_mul(t) else [t]
        h = [x for x in f if x.eq(NX)]
        if not h: C.append(t); continue
        f.remove(h[0]) if False else f.pop([x.eq(NX) for x in f].index(True))
        r = f[0] if f else z3.IntVal(1)
        for x in f[1:]: r = r * x
        R.append(r)
    a, b = z3.simplify(sum(R, z3.IntVal(0)) - QDIV(q, w)), z3.simplify(sum(C, z3.IntVal(0)) - QMOD(q, w))
    if sums.has(a, q) or sums.has(b, q): raise Unsupported("shape of a rectangle")
    ctx.prove("cells of a rectangle by row and column", [], e == (a + QDIV(q, w)) * NX + b + QMOD(q, w))
    v.prove("a rectangle lies within the grid", s, z3.And(a >= 0, k >= 1, a + k <= M, b >= 0, w >= 1, b + w <= NX))
    ctx.prove("a rectangle has as many cells as rows times columns", [], L == k * w)


def rectangle(ctx):
    """the cells (a + q div w) n + b + q mod w, q < k w, of a rectangle within an m x n grid are different cells of the grid, and are those of its rows and columns"""
    v = VC(ctx)
    m, n, a, b, k, w, q, r, x, y, d, c = z3.Ints("m n a b k w q r x y d c")
    pos = lambda t: t >= 0
    ctx.prove("product of non-negative numbers", [x >= 0, y >= 0], x * y >= 0)
    H = [a >= 0, k >= 1, a + k <= m, b >= 0, w >= 1, b + w <= n, n >= 1]
    ax = lambda t, rows, wd: z3.Implies(z3.And(t >= 0, t < rows * wd), z3.And(QDIV(t, wd) >= 0, QDIV(t, wd) < rows, QMOD(t, wd) >= 0, QMOD(t, wd) < wd, t == QDIV(t, wd) * wd + QMOD(t, wd)))
    nn = lambda s, t: z3.Implies(z3.And(s >= 0, t >= 0), s * t >= 0)
    # unique decomposition
    D = [z3.And(0 <= c, c < n, 0 <= d, d < n, x * n + c == y * n + d, n >= 1)]
    ctx.prove("row and column of a cell are unique", D + [nn(x - y - 1, n), nn(y - x - 1, n)], z3.And(x == y, c == d))
    cell = lambda t: (a + QDIV(t, w)) * n + b + QMOD(t, w)
    uq = lambda t, u: z3.Implies(z3.And(0 <= b + QMOD(t, w), b + QMOD(t, w) < n, 0 <= b + QMOD(u, w), b + QMOD(u, w) < n, cell(t) == cell(u)), z3.And(QDIV(t, w) == QDIV(u, w), QMOD(t, w) == QMOD(u, w)))
    I = [q >= 0, q < k * w, r >= 0, r < k * w, ax(q, k, w), ax(r, k, w)]
    ctx.prove("a cell is listed once in a rectangle", H + I + [uq(q, r), cell(q) == cell(r)], q == r)
    ctx.prove("a cell of a rectangle is a cell of the grid", H + I + [nn(m - 1 - a - QDIV(q, w), n), nn(a + QDIV(q, w), n)], z3.And(cell(q) >= 0, cell(q) < m * n))
    # every cell of the rows and columns is listed
    X = [x >= a, x < a + k, y >= b, y < b + w]
    t = (x - a) * w + (y - b)
    ctx.prove("position of a cell of a rectangle", H + X + [nn(x - a, w), nn(k - 1 - (x - a), w)], z3.And(t >= 0, t < k * w))
    un = z3.Implies(z3.And(0 <= QMOD(t, w), QMOD(t, w) < w, 0 <= y - b, y - b < w, QDIV(t, w) * w + QMOD(t, w) == (x - a) * w + (y - b)), z3.And(QDIV(t, w) == x - a, QMOD(t, w) == y - b))
    ctx.prove("a cell of the rows and columns of a rectangle is listed", H + X + [t >= 0, t < k * w, ax(t, k, w), un], cell(t) == x * n + y)
    ctx.prove("no other cell is listed", H + I, z3.And(a + QDIV(q, w) >= a, a + QDIV(q, w) < a + k, b + QMOD(q, w) >= b, b + QMOD(q, w) < b + w))
    v.done()


GROUPS += [("rectangles %s%s" % (k, " monotonic" if m else ""), rectangles(k, m), 150) for k in OB for m in (False, True)] + [("cells of a rectangle", rectangle, 60)]


# ------------------------------------------------------------------------------------------------------ reading the solution
def readout(kind):
    """_fit: the bins are the selected rectangles, with their totals, and every cell of a selected rectangle gets its number and rate"""
    def g(ctx):
        from contracts.fitwire import Log, common_env, record
        v = VC(ctx)
        st = v.st
        mod, cls = OB[kind]
        cont = kind == "cont"
        common_env(v)
        log = Log(v)
        M, NX, NR = v.int("m", lambda t: t >= 1), v.int("n", lambda t: t >= 1), v.int("n_rectangles", lambda t: t >= 0)
        RL, ROW, SEL = v.fun("RL", INT), v.fun("ROW", INT, INT, INT), v.fun("SEL", BOOL)
        q, k, t = z3.Ints("q k t")
        v.all(NR, lambda i: RL(i) >= 1)
        c = v.eng.module(mod).lookup(cls)
        o = v.eng.instantiate(c, [], {}, st)
        for nm in ("_check_parameters",): v.eng.contracts["%s.%s" % (mod, nm)] = lambda eng, s, a, k: None
        v.eng.contracts[B2 + "binning_2d._check_parameters"] = lambda eng, s, a, k: None
        parts = ["x_clean", "y_clean", "z_clean", "x_missing", "y_missing", "z_missing", "x_special", "y_special", "z_special", "categories_x", "categories_y"]
        PT = {p: Opaque(p) for p in parts}
        def split(eng, s, a, k):
            log.add(s, "split", {"args": tuple(a), **k}); return tuple(PT[p] for p in parts)
        v.eng.contracts[B2 + "preprocessing_2d.split_data_2d"] = split
        SPL = [Opaque("splits of x"), Opaque("splits of y")]
        meth = {}
        def stub(name, fn):
            node = None
            for cc in v.eng.mro(c):
                if hasattr(cc, "node") and any(isinstance(x, ast.FunctionDef) and x.name == name for x in cc.node.body):
                    node = [x for x in cc.node.body if isinstance(x, ast.FunctionDef) and x.name == name][0]; qn = cc.qual; break
            names = [x.arg for x in node.args.args]
            def f(eng, s, a, k):
                d = dict(zip(names, a)); d.update(k); log.add(s, name, d); return fn(eng, s, d)
            v.eng.contracts[qn + "." + name] = f
            meth[name] = qn
        stub("_fit_prebinning", lambda eng, s, d: SPL[0] if d["x"] is PT["x_clean"] else SPL[1] if d["x"] is PT["y_clean"] else Opaque("?"))
        GR = [v.fun("G%d" % x, REAL if cont else INT, INT, INT) for x in range(3 if cont else 2)]
        EX = {nm: z3.Real(nm) if cont else z3.Int(nm) for nm in (("_n_records_special", "_sum_special", "_std_special", "_n_records_missing", "_sum_missing", "_std_missing") if cont else
                                                                   ("_n_nonevent_special", "_n_event_special", "_n_nonevent_missing", "_n_event_missing"))}
        if cont:
            for nm in EX:
                if "_n_" in nm: EX[nm] = z3.Int(nm)
        def mats(eng, s, d):
            s.put(d["self"], HInst(s.get(d["self"]).cls, dict(s.get(d["self"]).attrs, **EX)))
            return tuple(v.arr2(M, NX, F, st=s) for F in GR)
        stub("_prebinning_matrices", mats)
        TF = {nm: v.fun("T_" + nm, INT if nm.startswith("n_") else REAL) for nm in (("n_records", "sums", "stds") if cont else ("n_nonevent", "n_event"))}
        rows = []
        def fo(eng, s, d):
            s.put(d["self"], HInst(s.get(d["self"]).cls, dict(s.get(d["self"]).attrs, _solution=v.arr(NR, SEL, st=s), _status="OPTIMAL")))
            r = s.alloc(HArr(Arr((NR,), lambda i: Arr((RL(rv(i)),), lambda t, i=rv(i): ROW(i, rv(t)), "int", islist=True), "obj", islist=True)))
            return (r,) + tuple(v.arr(NR, F, st=s) for F in TF.values())
        stub("_fit_optimizer", fo)
        stub("_splits_xy_optimal", lambda eng, s, d: (Opaque("optimal splits x"), Opaque("optimal splits y")))
        tb = ("ContinuousBinningTable2D" if cont else "BinningTable2D")
        record(v, log, B2 + "binning_statistics_2d." + tb, "table", lambda eng, s, d: s.alloc(HInst("Table", {})))
        for fn in ("empty", "zeros", "full"):
            def mk(eng, s, a, kw, m0=v.eng.ext["numpy." + fn]):
                sh = a[0] if a else kw.get("shape")
                if is_z3(sh) and sh.sort() == INT and v.eng.entails(s.pc, sh == M * NX): return s.alloc(HInst("Cells", {"shape": 1}))
                if isinstance(sh, tuple) and len(sh) == 2 and v.eng.entails(s.pc, z3.And(rv(sh[0]) == M, rv(sh[1]) == NX)): raise Unsupported("grid written by row and column")
                return m0(eng, s, a, kw)
            v.eng.ext["numpy." + fn] = mk
        def put(eng, s, a, kw): s.events.append(eng.loops.FamEvent("cells", (a[0], eng.loops.freeze(eng, s, a[1], None), a[2]), True))
        v.eng.methods[("Cells", "__setitem__")] = put
        def resh(eng, s, a, kw):
            sh = a[1] if isinstance(a[1], tuple) else tuple(a[1:])
            if kw or len(sh) != 2 or not v.eng.entails(s.pc, z3.And(rv(sh[0]) == M, rv(sh[1]) == NX)): raise Unsupported("reshape of the grid")
            return s.alloc(HInst("Grid", {"of": a[0]}))
        v.eng.methods[("Cells", "reshape")] = resh
        v.eng.ext["numpy.reshape"] = lambda eng, s, a, kw: resh(eng, s, a, kw)
        ctx.function("%s:%s._fit" % (mod, cls))
        X, Y, Z = v.arr(v.int("len", lambda t: t >= 1), v.fun("x")), Opaque("y"), Opaque("z")
        for s, r in v.returns("fit", v.method(o, "_fit", [X, Y, Z, z3.Bool("check_input")])):
            one = lambda nm: (log.calls(s, nm) + [None])[0]
            tbl = one("table")
            if tbl is None or len(log.calls(s, "table")) != 1: ctx.form("a table is made", False); continue
            # values of the steps
            d = one("_prebinning_matrices")
            for nm in parts[:9]: ctx.fact("the grid is that of the split data (%s)" % nm, d.get(nm) is PT[nm])
            for nm, x in zip(("splits_x", "splits_y"), SPL): ctx.fact("the grid is that of the pre-bins (%s)" % nm, d.get(nm) is x)
            for pd, zz in zip(log.calls(s, "_fit_prebinning"), ("x", "y")): ctx.fact("pre-bins with the target", pd["z"] is PT["z_clean"])
            d = one("_fit_optimizer")
            for x, nm in enumerate(("R", "S", "SS") if cont else ("NE", "E")):
                a = v.eng.as_arr(d[nm], s)
                v.prove("the optimizer gets the grid (%s)" % nm, s, a.fn(q, t) == GR[x](q, t) if a is not None else z3.BoolVal(False))
            # rows
            cn = sums.compact(v.eng, s, Arr((NR,), lambda b: b, "int", lambda b: SEL(rv(b))))
            cnt, at = rv(cn.n), lambda x: rv(cn.fn(x))
            W = {"n_records": ("n_records", "_n_records_special", "_n_records_missing"), "sums": ("sums", "_sum_special", "_sum_missing"), "stds": ("stds", "_std_special", "_std_missing"),
                 "n_nonevent": ("n_nonevent", "_n_nonevent_special", "_n_nonevent_missing"), "n_event": ("n_event", "_n_event_special", "_n_event_missing")}
            for nm, (pn, sp, ms) in W.items():
                if nm not in TF: continue
                a = v.eng.as_arr(tbl[pn], s)
                v.prove("a row for every bin, special and missing (%s)" % nm, s, rv(a.n) == cnt + 2)
                v.prove("%s of a bin are those of its rectangle" % nm, s, rr(rv(a.fn(k))) == rr(TF[nm](at(k))), [k >= 0, k < cnt])
                v.prove("%s of the special records" % nm, s, rr(rv(a.fn(cnt))) == rr(EX[sp])); v.prove("%s of the missing records" % nm, s, rr(rv(a.fn(cnt + 1))) == rr(EX[ms]))
            rate = lambda x: rr(TF["sums"](x)) / rr(TF["n_records"](x)) if cont else rr(TF["n_event"](x)) / rr(TF["n_event"](x) + TF["n_nonevent"](x))
            for nm, val in (("P", lambda b: rr(b)), ("D", lambda b: rate(at(b)))):
                grid = s.get(tbl[nm]) if isinstance(tbl[nm], Ref) else None
                if not (isinstance(grid, HInst) and grid.cls == "Grid"): raise Unsupported("grid of the table")
                ev = [e for e in s.events if e.kind == "cells" and e.data[0] == grid.attrs["of"]]
                ctx.form("the cells of %s are written once for every bin" % nm, len(ev) == 1 and len(ev[0].bound) == 1)
                if len(ev) != 1 or len(ev[0].bound) != 1: continue
                b, row = ev[0].bound[0], v.eng.as_arr(ev[0].data[1], s)
                G = z3.BoolVal(True) if ev[0].guard is True else ev[0].guard
                v.prove("every bin has its cells in %s" % nm, s, z3.substitute(G, (b, k)), [k >= 0, k < cnt])
                ok = row is not None and len(row.shape) == 1 and row.mask is None
                v.prove("the cells of a bin in %s are those of its rectangle" % nm, s, z3.And(b >= 0, b < cnt, rv(row.n) == RL(at(b)), z3.Implies(z3.And(t >= 0, t < rv(row.n)), rv(row.fn(t)) == ROW(at(b), t))) if ok else z3.BoolVal(False), [G])
                v.prove("%s of the cells of a bin is its %s" % (nm, "number" if nm == "P" else "rate"), s, rr(rv(ev[0].data[2])) == val(b), [G])
            for nm in ("splits_x", "splits_y"): ctx.fact("the table gets the intervals of the bins (%s)" % nm, getattr(tbl[nm], "name", None) == "optimal splits " + nm[-1])
            for nm in ("categories_x", "categories_y"): ctx.fact("the table gets the %s" % nm, tbl[nm] is PT[nm])
            for nm, w in (("m", M), ("n", NX)): v.prove("the table gets the shape of the grid (%s)" % nm, s, rv(tbl[nm]) == w)
            d = one("_splits_xy_optimal")
            g = s.get(d["P"]) if isinstance(d["P"], Ref) else None
            ctx.form("the intervals are those of the grid", isinstance(g, HInst) and d["P"] == tbl["P"] or isinstance(g, HInst) and g.cls == "Grid" and g.attrs["of"] == s.get(tbl["P"]).attrs["of"])
            for nm, x in zip(("splits_x", "splits_y"), SPL): ctx.fact("the intervals are between the pre-bins' splits (%s)" % nm, d[nm] is x)
            w = v.eng.as_arr(d["selected_rows"], s)
            v.prove("an interval for every bin", s, sums.compact(v.eng, s, w).n == cnt if w.mask is not None else rv(w.n) == cnt)
        v.done()
    return g


GROUPS += [("read-out %s" % k, readout(k), 60) for k in OB]


def intervals(ctx):
    """_splits_xy_optimal: the interval of a bin in x (y) goes from the lower end of its first column (row) to the upper end of its last one"""
    v = VC(ctx)
    st = v.st
    mod, cls = OB["bin"]
    M, NX, NB = v.int("m", lambda t: t >= 1), v.int("n", lambda t: t >= 1), v.int("n_bins", lambda t: t >= 0)
    P = v.fun("P", INT, INT, INT)
    SX, SY = v.fun("SX"), v.fun("SY")
    i, y, x = z3.Ints("i y x")
    LO, HI = [v.fun("first%d" % a, INT, INT) for a in (0, 1)], [v.fun("last%d" % a, INT, INT) for a in (0, 1)]
    AT = [[[v.fun("at%d%d%d" % (a, b, c), INT, INT) for c in (0, 1)] for b in (0, 1)] for a in (0, 1)]
    inb = lambda y, x: z3.And(y >= 0, y < M, x >= 0, x < NX)
    # every bin has a cell; first and last row (column) of a bin: least and greatest index among its cells
    for a in (0, 1):
        st.assume(z3.ForAll([i, y, x], z3.Implies(z3.And(i >= 0, i < NB, inb(y, x), P(y, x) == i), z3.And(LO[a](i) <= (y, x)[a], (y, x)[a] <= HI[a](i))), patterns=[z3.MultiPattern(P(y, x), LO[a](i)), z3.MultiPattern(P(y, x), HI[a](i))]))
        for b, F in enumerate((LO[a], HI[a])):
            w = [AT[a][b][0](i), AT[a][b][1](i)]
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NB), z3.And(inb(*w), P(*w) == i, F(i) == w[a])), patterns=[F(i)]))
    def where(eng, s, a, k, m0=v.eng.ext["numpy.where"]):
        c = eng.as_arr(a[0], s)
        if len(a) > 1 or k or c is None or len(c.shape) != 2: return m0(eng, s, a, k)
        if not v.eng.entails(s.pc, z3.And(rv(c.shape[0]) == M, rv(c.shape[1]) == NX)): raise Unsupported("positions in another grid")
        return tuple(s.alloc(HInst("Pos", {"of": c, "axis": ax})) for ax in (0, 1))
    v.eng.ext["numpy.where"] = where
    def ext(F):
        def f(eng, s, a, k):
            if len(a) > 1 or k: raise Unsupported("extreme position")
            o = s.get(a[0]).attrs
            b = z3.Int("bin!%d" % len(FRESH)); FRESH.append(b)
            cond = rv(o["of"].fn(y, x)) if not isinstance(o["of"].fn(y, x), bool) else z3.BoolVal(o["of"].fn(y, x))
            for t in [eng.loops_bin(s)] if hasattr(eng, "loops_bin") else cands(cond):
                if eng.entails(s.pc, z3.And(t >= 0, t < NB)) and eng.entails(s.pc, z3.Implies(inb(y, x), cond == (P(y, x) == t))): return F[o["axis"]](t)
            raise Unsupported("positions of other cells")
        return f
    FRESH = []
    def cands(e):
        out, todo = [], [e]
        while todo:
            t = todo.pop()
            if z3.is_int(t) and not t.eq(x) and not t.eq(y): out.append(t)
            todo += t.children()
        return out
    v.eng.methods[("Pos", "min")], v.eng.methods[("Pos", "max")] = ext(LO), ext(HI)
    v.eng.consts = {"numpy.inf": z3.Real("inf")}  # only carried around
    o = v.eng.instantiate(v.eng.module(mod).lookup(cls), [], {}, st)
    sx, sy = v.arr(NX - 1, SX), v.arr(M - 1, SY)
    rows = v.arr(NB, v.fun("ROWID", INT, INT))
    ctx.function("%s:%s._splits_xy_optimal" % (mod, cls))
    for s, r in v.returns("intervals", v.method(o, "_splits_xy_optimal", [rows, sx, sy, v.arr2(M, NX, P)])):
        for ax, nm, F, n in ((1, "x", SX, NX), (0, "y", SY, M)):
            a = v.eng.as_arr(r[0 if nm == "x" else 1], s)
            v.prove("an interval of %s for every bin" % nm, s, rv(a.n) == NB)
            e = v.eng.as_items(a.fn(i), s) if isinstance(a.fn(i), (Ref, tuple)) else None
            if e is None:
                t = v.eng.as_arr(a.fn(i), s) if len(a.shape) == 1 else Arr((a.shape[1],), lambda q: a.fn(i, q), a.dtype)
                e = [t.fn(0), t.fn(1)]
            f, l = LO[ax](i), HI[ax](i)
            H = [i >= 0, i < NB, f >= 0, l < n]
            v.prove("lower end of the %s interval of a bin" % nm, s, z3.Implies(f > 0, rr(rv(e[0])) == F(f - 1)), H)
            v.prove("upper end of the %s interval of a bin" % nm, s, z3.Implies(l < n - 1, rr(rv(e[1])) == F(l)), H)
            v.prove("the %s interval of a bin with the first pre-bin starts at minus infinity" % nm, s, z3.Implies(f == 0, rr(rv(e[0])) == -z3.Real("inf")), H)
            v.prove("the %s interval of a bin with the last pre-bin ends at infinity" % nm, s, z3.Implies(l == n - 1, rr(rv(e[1])) == z3.Real("inf")), H)
    v.done()


GROUPS += [("intervals of the bins", intervals, 60)]
