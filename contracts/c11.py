"""C11  Rounded scorecard points are integers preserving the score range (RoundingMIP)."""
import z3
from lib.vc import *
from contracts import optm, c10

R = "optbinning.scorecard.rounding"
SEARCH_BUDGET = 40
ASSUMPTIONS = ["OR-Tools: solver.Add registers exactly the constraint written, IntVar ranges over the integers and NumVar over the reals of their interval, and an accepted solution satisfies every constraint (the solver's tolerances are not modelled)",
               "real arithmetic; np.min, np.max, .min() and .max() give an attained bound of the points; the rows of a variable are contiguous in the scorecard (they are concatenated tables, C10)"]
EXPLANATION = ("An expression over model variables is its value in the assignment considered. The constraints build_model registers are the hypotheses of the range and objective lemmas; "
               "conversely every assignment of integers within the bounds with the required sums satisfies every registered constraint.")


class World(optm.World):
    def __init__(self, v):
        super().__init__(v, True)
        M = v.eng.methods
        def var(sort, code):
            def f(eng, st, a, k):
                b = st.ghost.get("binders", ())
                lo, hi = a[1], a[2]
                nm = "%s%d" % (code, self.nid())
                x = z3.Function(nm, *([INT] * len(b) + [sort]))(*b) if b else z3.Const(nm, sort)
                st.events.append(self.ev("var", (x, lo, hi)))
                return x
            return f
        M[("Model", "IntVar")] = var(INT, "ivar")
        M[("Model", "NumVar")] = var(REAL, "nvar")
        def obj(kind): return lambda eng, st, a, k: st.events.append(self.ev(kind, (rr(a[1]),)))
        M[("Model", "Minimize")], M[("Model", "Maximize")] = obj("min"), obj("max")
        M[("Model", "SumT")] = M[("Model", "Sum")]
        M[("num", "solution_value")] = lambda eng, st, a, k: a[0]
        self.status = z3.Int("status")
        M[("Model", "Solve")] = lambda eng, st, a, k: self.status
        from pyvc import models
        self.codes = ("OPTIMAL", "FEASIBLE", "INFEASIBLE", "UNBOUNDED", "ABNORMAL", "NOT_SOLVED")
        for i, c in enumerate(self.codes): models.CONSTS["ortools.linear_solver.pywraplp.Solver." + c] = i


def points_world(v, nv=None):
    """scorecard: names N(i), rows NT(i), points PT(name, j); nv: a concrete number of variables"""
    eng, st = v.eng, v.st
    nb = nv if nv is not None else v.int("nb", lambda t: t >= 1)
    N = v.fun("name", U)
    NT, PT = v.fun("rows", INT, U), v.fun("points", REAL, U, INT)
    MN, MX, AMN, AMX = v.fun("min_points", REAL, U), v.fun("max_points", REAL, U), v.fun("argmin", INT, U), v.fun("argmax", INT, U)
    x, i = z3.Const("x", U), z3.Int("i")
    st.assume(z3.ForAll([x], NT(x) >= 1))
    for m, am, le in ((MN, AMN, lambda a, b: a <= b), (MX, AMX, lambda a, b: a >= b)):
        st.assume(z3.ForAll([x, i], z3.Implies(z3.And(i >= 0, i < NT(x)), le(m(x), PT(x, i))), patterns=[PT(x, i)]))
        st.assume(z3.ForAll([x], z3.And(m(x) == PT(x, am(x)), am(x) >= 0, am(x) < NT(x)), patterns=[m(x)]))
    # the points of a variable are denoted by its name
    red = {"min": MN, "max": MX}
    for nm, f in red.items():
        eng.methods[("U", nm)] = lambda eng, o, n, st, f=f: (lambda eng, st, a, kw: f(o))
        old = eng.ext.get("numpy." + nm)
        eng.ext["numpy." + nm] = lambda eng, st, a, kw, f=f, old=old: f(a[0]) if is_z3(a[0]) and a[0].sort() == U else old(eng, st, a, kw)
    eng.methods[("U", "values")] = lambda eng, o, n, st: o
    eng.methods[("U", "__len__")] = lambda eng, st, a, kw: NT(a[0])
    def uget(eng, st, a, kw):
        if not is_num(a[1]): raise Unsupported("points[...]")
        j = rv(a[1])
        if not eng.entails(st.pc, z3.And(j >= 0, j < NT(a[0]))): raise Unsupported("points out of range")
        return PT(a[0], j)
    eng.methods[("U", "__getitem__")] = uget
    def sub(eng, st, k):
        r = st.get(k) if isinstance(k, Ref) else None
        if isinstance(r, HInst) and r.cls == "Mask": return r.attrs["name"]
        raise Unsupported("rows of the scorecard")
    eng.methods[("Names", "__eq__")] = lambda eng, st, a, kw: st.alloc(HInst("Mask", {"name": a[1]}))
    eng.methods[("Names", "unique")] = lambda eng, st, a, kw: v.list([N(k) for k in range(nv)], st) if nv is not None else v.arr(nb, N, st=st)
    def attr(eng, o, nm, st):
        if nm == "Variable": return st.alloc(HInst("Names", {}))
        if nm == "loc": return st.alloc(HInst("CardLoc", {}))
        raise Unsupported("scorecard." + nm)
    def get(eng, st, a, kw):
        if isinstance(a[1], str): return attr(eng, a[0], a[1], st)
        return st.alloc(HInst("Block", {"name": sub(eng, st, a[1])}))
    eng.methods[("Card", "*")], eng.methods[("Card", "__getitem__")] = attr, get
    def battr(eng, o, nm, st):
        if nm == "Points": return st.get(o).attrs["name"]
        raise Unsupported("rows." + nm)
    eng.methods[("Block", "*")] = battr
    eng.methods[("Block", "__getitem__")] = lambda eng, st, a, kw: battr(eng, a[0], a[1], st)
    def lget(eng, st, a, kw):
        if isinstance(a[1], tuple) and len(a[1]) == 2 and a[1][1] == "Points": return sub(eng, st, a[1][0])
        raise Unsupported("scorecard.loc")
    eng.methods[("CardLoc", "__getitem__")] = lget
    return st.alloc(HInst("Card", {})), nb, N, NT, PT, MN, MX


def built(v, W, df):
    o = v.eng.instantiate(v.eng.module(R).lookup("RoundingMIP"), [], {}, v.st)
    v.ctx.function(R + ":RoundingMIP.build_model")
    return o, v.returns("build", v.method(o, "build_model", [df]))


def parts(s):
    con, dom, obj = [], [], []
    for e in s.events:
        if e.kind == "con": con.append((e.bound, bz(e.guard), e.data[1]))
        elif e.kind == "var": dom.append((e.bound, bz(e.guard), e.data))
        elif e.kind in ("min", "max"): obj.append(e)
    return con, dom, obj


def quant(b, g, f): return z3.ForAll(list(b), z3.Implies(g, f)) if b else z3.Implies(g, f)


def domf(d):
    x, lo, hi = d; c = []
    if not (isinstance(lo, float) and lo == float("-inf")): c.append(rr(x) >= rr(lo))
    if not (isinstance(hi, float) and hi == float("inf")): c.append(rr(x) <= rr(hi))
    return z3.And(*c)


def hyps(s):
    con, dom, obj = parts(s)
    return [quant(*c) for c in con] + [quant(b, g, domf(d)) for b, g, d in dom]


def fam(s, o, v, nm):
    from contracts.optm import value_of
    return s.get(v.attr(s, o, nm))


def roles(v, s, o, n, NT, N, PT):
    """the points variable p(i, j) from the object's dictionary; the other variables by kind"""
    con, dom, obj = parts(s)
    P = fam(s, o, v, "_p")
    i, j = z3.Ints("i j")
    from pyvc.loops import DFam
    return lambda a, b: rv(next(f.value((rv(a), rv(b))) for f in P.fams if f.guard((rv(a), rv(b))) is not None))


def sound(ctx):
    """constraints imply: integers, range of totals, deviations"""
    v = VC(ctx); W = World(v)
    df, nb, N, NT, PT, MN, MX = points_world(v)
    o, outs = built(v, W, df)
    from pyvc.npmodels import f_round
    for s, _ in outs:
        con, dom, obj = parts(s)
        p = roles(v, s, o, nb, NT, N, PT)
        i, j = z3.Ints("i j")
        inb = [i >= 0, i < nb, j >= 0, j < NT(N(i))]
        H = hyps(s)
        ctx.fact("points variables are integers", p(i, j).sort() == INT)
        ints = [(b, g, d) for b, g, d in dom if d[0].sort() == INT and len(b) == 1]
        reals = [(b, g, d) for b, g, d in dom if d[0].sort() == REAL and len(b) == 2]
        if len(ints) != 2 or len(reals) != 2: raise Unsupported("rounding model with other variables than a lower and an upper bound per variable and two deviations per point")
        at1 = lambda d, a: z3.substitute(d[2][0], (d[0][0], a))
        at2 = lambda d, a, b: z3.substitute(d[2][0], (d[0][1], a), (d[0][0], b))       # innermost loop variable first
        # which bound is the lower one is decided by proof
        lo, hi = None, None
        from pyvc import prove as pv
        for a, b in ((ints[0], ints[1]), (ints[1], ints[0])):
            if v.eng.entails(list(s.pc) + H + inb, z3.And(at1(a, i) <= p(i, j), p(i, j) <= at1(b, i))): lo, hi = a, b; break
        if lo is None: lo, hi = ints
        v.prove("no points below the variable's bound", s, at1(lo, i) <= p(i, j), H + inb)
        v.prove("no points above the variable's bound", s, p(i, j) <= at1(hi, i), H + inb)
        sc = [c for c in H if not z3.is_quantifier(c)]
        smin, smax = rr(v.sum(s, lambda k: MN(N(k)), 0, nb)), rr(v.sum(s, lambda k: MX(N(k)), 0, nb))
        for tag, d, t in (("lower", lo, smin), ("upper", hi, smax)):
            tot = rr(v.sum(s, lambda k, d=d: at1(d, k), 0, nb))
            v.prove("%s bounds sum to an integer next to the total of the points" % tag, s, z3.And(tot - t <= z3.RealVal("1/2"), t - tot <= z3.RealVal("1/2")), H)
            v.prove("%s bounds sum to the rounded total" % tag, s, tot == rr(f_round(t)), H)
        X, Y = [at2(d, i, j) for d in reals]
        v.prove("the deviations of a point are its distance or more", s, z3.And(X >= 0, Y >= 0, X + Y >= PT(N(i), j) - rr(p(i, j)), X + Y >= rr(p(i, j)) - PT(N(i), j)), H + inb)
        ctx.fact("one objective, minimised", len(obj) == 1 and obj[0].kind == "min")
        if len(obj) == 1:
            want = rr(v.sum(s, lambda a: v.sum(s, lambda b: at2(reals[0], a, b) + at2(reals[1], a, b), 0, NT(N(a))), 0, nb))
            v.prove("the objective is the sum of all deviations", s, rr(obj[0].data[0]) == want)
        # conversely: integers within the bounds whose lower and upper bounds have the required sums satisfy every constraint with the distances as deviations
        L, H2, Q = v.fun("L", INT), v.fun("Hi", INT), v.fun("Q", INT, INT, INT)
        dv = lambda a, b: PT(N(a), b) - z3.ToReal(Q(a, b))
        pname = p(i, j).decl(); ln, hn = at1(lo, i).decl(), at1(hi, i).decl(); xn, yn = X.decl(), Y.decl()
        pos = v.eng.entails(list(s.pc) + H + inb, X - Y == dv(i, j) + rr(Q(i, j)) - rr(p(i, j)))
        def interp(f):
            fs = [(pname, Q(z3.Var(0, INT), z3.Var(1, INT))), (ln, L(z3.Var(0, INT))), (hn, H2(z3.Var(0, INT)))]
            d = dv(z3.Var(0, INT), z3.Var(1, INT))
            up, dn = z3.If(d >= 0, d, z3.RealVal(0)), z3.If(d >= 0, z3.RealVal(0), -d)
            fs += [(xn, up if pos else dn), (yn, dn if pos else up)]
            return z3.substitute_funs(f, *fs)
        a, b = z3.Ints("a b")
        gmin, gmax = z3.Real("gmin"), z3.Real("gmax")
        dp = [d for bb, g, d in dom if d[0].decl().eq(pname)][0]
        box = lambda t: z3.And(rr(t) >= rr(dp[1]), rr(t) <= rr(dp[2]))
        good = [z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < nb, b >= 0, b < NT(N(a))), z3.And(box(Q(a, b)), L(a) <= Q(a, b), Q(a, b) <= H2(a))), patterns=[Q(a, b)]),
                z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < nb), z3.And(box(L(a)), box(H2(a)))), patterns=[L(a), H2(a)])]
        sums_ = [rr(v.sum(s, lambda k: L(k), 0, nb)) == rr(f_round(smin)), rr(v.sum(s, lambda k: H2(k), 0, nb)) == rr(f_round(smax))]
        # box: every point's interval contains all points
        v.prove("the interval of the points variables contains every unrounded point", s, z3.And(rr(dp[1]) <= PT(N(i), j), PT(N(i), j) <= rr(dp[2])), inb)
        for k, (bb, g, d) in enumerate(reals): v.prove("deviations of any size are admitted (%d)" % k, s, interp(domf(d)), good + [bz(g)])
        for k, (bb, g, f) in enumerate(con):
            if not bb and f.num_args() == 2:
                tl, th = rr(v.sum(s, lambda k: at1(lo, k), 0, nb)), rr(v.sum(s, lambda k: at1(hi, k), 0, nb))
                v.prove("no further restriction of the totals (%d)" % k, s, f, [tl == rr(f_round(smin)), th == rr(f_round(smax))])
                continue
            v.prove("no further restriction (%d)" % k, s, interp(f), good + [bz(g)])
    v.done()


def induction(ctx):
    """from the rows to the totals: a sum of terms between two bounds is between the sums of the bounds (induction over the variables)"""
    v = VC(ctx); st = v.st
    n = v.int("n", lambda t: t >= 0); L, P, H = v.fun("L"), v.fun("p"), v.fun("H")
    k, m = z3.Ints("k m")
    ctx.function("%s:RoundingMIP.build_model" % R)
    S = lambda f, t: rr(v.sum(st, lambda b: f(b), 0, t))
    b = [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(L(k) <= P(k), P(k) <= H(k))))]
    v.prove("no variables", st, z3.And(S(L, z3.IntVal(0)) <= S(P, z3.IntVal(0)), S(P, z3.IntVal(0)) <= S(H, z3.IntVal(0))))
    v.prove("one more variable", st, z3.And(S(L, m + 1) <= S(P, m + 1), S(P, m + 1) <= S(H, m + 1)), b + [m >= 0, m < n, S(L, m) <= S(P, m), S(P, m) <= S(H, m)])
    v.done()


def solve(nv):
    """the solution in the order of the rows"""
    def g(ctx):
        v = VC(ctx); W = World(v)
        df, nb, N, NT, PT, MN, MX = points_world(v, nv)
        v.st.assume(z3.Distinct(*[N(k) for k in range(nv)]))
        o, outs = built(v, W, df)
        ctx.function(R + ":RoundingMIP.solve")
        for s0, _ in outs:
            for s, r in v.returns("solve", v.method(o, "solve", [], st=s0)):
                st_, sol = r
                ok = v.eng.entails(s.pc, z3.Or(W.status == 0, W.status == 1))
                if not ok:
                    v.prove("no solution only with a status that has none", s, z3.And(W.status != 0, W.status != 1))
                    ctx.fact("no points without a solution, and its status is not a success", sol is None and st_ not in ("OPTIMAL", "FEASIBLE"))
                    continue
                v.prove("success status", s, z3.And(z3.Implies(W.status == 0, z3.BoolVal(st_ == "OPTIMAL")), z3.Implies(W.status == 1, z3.BoolVal(st_ == "FEASIBLE"))))
                a = v.eng.as_arr(sol, s)
                if a is None and v.eng.as_items(sol, s) is not None: ctx.fact("list of points", False); continue
                off = [sum((NT(N(q)) for q in range(k)), z3.IntVal(0)) for k in range(nv + 1)]
                v.prove("as many points as rows", s, rv(a.shape[0]) == off[-1])
                con, dom, obj = parts(s)
                H = hyps(s); j = z3.Int("j")
                for k in range(nv):
                    reals = [(b, g, d) for b, g, d in dom if d[0].sort() == REAL and len(b) == 1]
                    e = rr(a.fn(j + off[k])); inb = [j >= 0, j < NT(N(k))]
                    best = None
                    for x in reals:
                        for y in reals:
                            if x is y: continue
                            X, Y = z3.substitute(x[2][0], (x[0][0], j)), z3.substitute(y[2][0], (y[0][0], j))
                            if best is None: best = (X, Y)
                            if v.eng.entails(list(s.pc) + H + inb, PT(N(k), j) - e == X - Y): best = (X, Y)
                    v.prove("row order: the returned point deviates from the row's by its deviations", s, PT(N(k), j) - e == best[0] - best[1], H + inb)
                    ctx.fact("returned points are integer variables", rv(a.fn(z3.Int("q"))).sort() == INT)
        v.done()
    return g


GROUPS = [("model", sound, 120), ("totals", induction, 30)] + [("solution, %d variables" % k, solve(k), 60) for k in (1, 2, 3)]
GROUPS += [("fit %s %s rounded%s, %s" % (t, m, " intercept based" if b else "", mip), c10.fit(t, m, based=b, rounding=True, mip=mip), 60)
           for t, m, mip in (("binary", "pdo_odds", ""), ("binary", "min_max", "OPTIMAL"), ("continuous", "min_max", "FEASIBLE"), ("continuous", "min_max", "INFEASIBLE"), ("binary", "min_max", "ABNORMAL")) for b in (False, True)]
