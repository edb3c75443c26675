"""Contracts over the binning models (shared by C05, C06, C07): every constraint a model builder adds is an event; the properties are lemmas
over the events.  A model variable is its value in the assignment considered; an expression over variables is its value."""
import itertools
import z3
from pyvc import models
from lib.vc import *

B = "optbinning.binning."
CLS = {"cp": (B + "cp", "BinningCP"), "mip": (B + "mip", "BinningMIP"), "cont": (B + "continuous_cp", "ContinuousBinningCP"),
       "mcp": (B + "multiclass_cp", "MulticlassBinningCP"), "mmip": (B + "multiclass_mip", "MulticlassBinningMIP"), "scen": (B + "cp", "BinningCP")}
MIP = ("mip", "mmip")
ASSUMPTIONS = ["OR-Tools: model.Add / solver.Add, AddImplication and OnlyEnforceIf register exactly the constraint written, NewBoolVar/BoolVar range over {0,1}, "
               "NewIntVar/IntVar over the integers of their interval, and an accepted solution (OPTIMAL, FEASIBLE) satisfies every registered constraint",
               "expressions over model variables are identified with their values; CP coefficients are exact integers, MIP arithmetic is exact real arithmetic "
               "(the solver's feasibility tolerance is not modelled)"]


class World:
    """symbolic OR-Tools"""
    def __init__(self, v, mip):
        self.v, self.cid = v, 0
        eng = v.eng
        bs = lambda st: st.ghost.get("binders", ())
        def var(sort, boolean):
            def f(eng, st, a, k):
                b = bs(st)
                F = z3.Function("var%d" % self.nid(), *([INT] * len(b) + [sort])) if b else None
                x = F(*b) if b else z3.Const("var%d" % self.nid(), sort)
                lo, hi = (0, 1) if boolean else (a[1], a[2])
                st.events.append(self.ev("var", (x, lo, hi)))
                return x
            return f
        def add(eng, st, a, k):
            c = a[1]
            if not (is_z3(c) and z3.is_bool(c) or isinstance(c, bool)): raise Unsupported("constraint is not a comparison")
            n = "c%d" % self.nid()
            st.events.append(self.ev("con", (n, bz(c))))
            return st.alloc(HInst("Constraint", {"id": n}))
        def imp(eng, st, a, k):
            n = "c%d" % self.nid()
            st.events.append(self.ev("con", (n, z3.Implies(rv(a[1]) == 1, rv(a[2]) == 1))))
            return st.alloc(HInst("Constraint", {"id": n}))
        def enf(eng, st, a, k):
            lits = a[1:] if len(a) > 2 else (eng.as_items(a[1], st) if not is_num(a[1]) else [a[1]])
            st.events.append(self.ev("enf", (st.get(a[0]).attrs["id"],) + tuple(rv(x) for x in lits)))
            return a[0]
        def obj(eng, st, a, k):
            st.events.append(self.ev("max", (rv(a[1]),)))
        kind = "Model"
        mk = lambda eng, st, a, k: st.alloc(HInst(kind, {"args": tuple(a)}))
        eng.ext["ortools.sat.python.cp_model.CpModel"] = mk
        eng.ext["ortools.linear_solver.pywraplp.Solver"] = mk
        M = eng.methods
        for n in ("NewBoolVar", "BoolVar"): M[(kind, n)] = var(INT, True)
        for n in ("NewIntVar", "IntVar"): M[(kind, n)] = var(INT, False)
        M[(kind, "NumVar")] = var(REAL, False)
        M[(kind, "Add")] = add; M[(kind, "AddImplication")] = imp
        M[(kind, "Maximize")] = obj
        M[(kind, "Sum")] = lambda eng, st, a, k: models.b_sum(eng, st, [a[1]], {})
        M[("Constraint", "OnlyEnforceIf")] = enf
        M[("num", "Not")] = lambda eng, st, a, k: 1 - rv(a[0])
    def nid(self): self.cid += 1; return self.cid
    def ev(self, kind, data):
        from pyvc.loops import FamEvent
        return FamEvent(kind, data)


def constraints(s):
    """[(bound, guard, formula)] of the added constraints with their enforcement literals; variables' domains"""
    con, enf, dom, obj = {}, {}, [], []
    for e in s.events:
        if e.kind == "con": con[e.data[0]] = (e.bound, bz(e.guard), e.data[1])
        elif e.kind == "enf": enf.setdefault(e.data[0], []).append((e.bound, e.data[1:]))
        elif e.kind == "var": dom.append((e.bound, bz(e.guard), e.data))
        elif e.kind == "max": obj.append(e)
    out = []
    for n, (b, g, f) in con.items():
        for b2, lits in enf.get(n, ()):
            f = z3.Implies(z3.And(*[z3.substitute(l, *list(zip(b2, b))) == 1 for l in lits]) if b else z3.And(*[l == 1 for l in lits]), f)
        out.append((b, g, f))
    return out, dom, obj


class Built:
    pass


def trend_cfg(kind, trend):
    return v_list(trend) if kind in ("mcp", "mmip") else trend


def build(ctx, kind, trend=None, bounds=(), fixed=False, viol=False, gamma=False, diff=0, ncls=3, solver="cbc", tpos=1, equal=False):
    """runs the real constructor and the real build_model on symbolic pre-bins; returns one Built per path"""
    v = VC(ctx)
    W = World(v, kind in MIP)
    mod, cls = CLS[kind]
    mip = kind in MIP
    n = v.int("n", lambda n: n >= 2)
    DS = REAL if mip else INT
    multi = kind in ("mcp", "mmip", "scen")
    K = ncls if multi else 1
    D = [v.fun("D%d" % c, DS, INT, INT) for c in range(K)]
    V = [v.fun("V%d" % c, DS, INT, INT) for c in range(K)]
    q, i, j = z3.Ints("q i j")
    P = [[v.fun("P%d_%d" % (c, x), INT) for x in range(4)] for c in range(2 * K)]
    np_ = [z3.Int("np%d" % c) for c in range(2 * K)]
    if viol:
        for c in range(2 * K):
            p = P[c]
            v.st.assume(np_[c] >= 0)
            v.st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < np_[c]), z3.And(0 <= p[1](q), p[1](q) <= p[0](q), p[0](q) < p[3](q), p[3](q) <= p[2](q), p[2](q) < n))))
    calls = []
    def mat(f, eng, st): return st.alloc(HArr(Arr((n, n), lambda a, b: f(rv(a), rv(b)), "float" if mip else "int", islist=True)))
    def vio(c, eng, st):
        if not viol: return st.alloc(HList([]))
        p = P[c]
        return st.alloc(HArr(Arr((np_[c],), lambda x: ((p[0](rv(x)), p[1](rv(x))), (p[2](rv(x)), p[3](rv(x)))), "obj", islist=True)))
    def md(names):
        def f(eng, st, a, k):
            d = dict(zip(names, a)); d.update(k); calls.append(d)
            up = d.get("scale") if d.get("scale") is not None else 1
            if kind != "cont":      # rates lie in [0, 1] (moddata: events/records)
                for c in range(K): st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= j, j <= i, i < n), z3.And(D[c](i, j) >= 0, D[c](i, j) <= up))))
            if multi:
                L = lambda xs: st.alloc(HList(xs))
                return (L([mat(x, eng, st) for x in D]), L([mat(x, eng, st) for x in V]), L([vio(c, eng, st) for c in range(K)]), L([vio(K + c, eng, st) for c in range(K)]))
            return (mat(D[0], eng, st), mat(V[0], eng, st), vio(0, eng, st), vio(1, eng, st))
        return f
    for f in ("model_data", "multiclass_model_data", "continuous_model_data"):
        node = v.eng.func(B + "model_data:" + f).node
        v.eng.contracts[B + "model_data." + f] = md([a.arg for a in node.args.args])
    b = {}
    for x in bounds: b[x] = v.int(x, lambda t: t >= 1)
    for lo, hi in (("nmin", "nmax"), ("smin", "smax"), ("emin", "emax"), ("nemin", "nemax")):
        if lo in b and hi in b: v.st.assume(b[lo] <= b[hi])
    FX = v.fun("FX", BOOL)
    g = v.real("gam", lambda t: t > 0) if gamma else (None if kind in ("cp", "mip", "cont") else None)
    par = dict(monotonic_trend=v.list([trend if c == tpos else None for c in range(K)]) if kind in ("mcp", "mmip") else trend,
               min_n_bins=b.get("nmin"), max_n_bins=b.get("nmax"), max_pvalue=None, max_pvalue_policy="consecutive",
               user_splits_fixed=v.arr(n - 1, FX) if fixed else None, time_limit=100)
    S_ = (lambda x: None if b.get(x) is None else v.list([b[x]] * K)) if kind == "scen" else b.get
    par.update(min_bin_size=S_("smin"), max_bin_size=S_("smax"))
    par["min_mean_diff" if kind == "cont" else "min_event_rate_diff"] = diff
    if kind in ("cp", "mip", "scen"):
        par.update(min_bin_n_event=b.get("emin"), max_bin_n_event=b.get("emax"), min_bin_n_nonevent=b.get("nemin"), max_bin_n_nonevent=b.get("nemax"))
    if kind in ("cp", "mip", "cont", "scen"): par["gamma"] = g
    if mip: par["mip_solver"] = solver
    c = v.eng.module(mod).lookup(cls)
    o = v.eng.instantiate(c, [], par, v.st)
    nm = "build_model_scenarios" if kind == "scen" else "build_model"
    ctx.function("%s:%s.__init__" % (mod, cls), "%s:%s.%s" % (mod, cls, nm))
    B_ = Built()
    B_.v, B_.kind, B_.n, B_.D, B_.V, B_.b, B_.FX, B_.o, B_.calls, B_.P, B_.np, B_.K, B_.gam, B_.mip = v, kind, n, D, V, b, FX, o, calls, P, np_, K, g, mip
    tc = v.int("tc", lambda t: t >= 0, lambda t: t <= n) if trend and trend.endswith("heuristic") else None
    if kind in ("cp", "mip"):
        NE, E = v.fun("NE", INT), v.fun("E", INT)
        v.all(n, lambda i: z3.And(NE(i) >= 0, E(i) >= 0))
        B_.ne, B_.e = v.arr(n, NE), v.arr(n, E)
        B_.rec = [lambda i: NE(i) + E(i)]; B_.NE, B_.E = NE, E
        B_.div = Opaque("divergence")
        args = [B_.div, B_.ne, B_.e, tc]
    elif kind == "cont":
        R = v.fun("R", INT); SU, SS = v.fun("SU"), v.fun("SS")
        v.all(n, lambda i: R(i) >= 0)
        B_.rec = [R]; B_.data = (v.arr(n, R), v.arr(n, SU), v.arr(n, SS))
        args = list(B_.data) + [tc]
    else:
        NE, E = v.fun("NE", INT, INT, INT), v.fun("E", INT, INT, INT)
        v.st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < K), z3.And(NE(i, j) >= 0, E(i, j) >= 0))))
        if kind != "scen":       # the classes share the records of a pre-bin
            v.st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < K), NE(i, j) + E(i, j) == NE(i, 0) + E(i, 0))))
        B_.ne, B_.e = v.arr2(n, K, NE), v.arr2(n, K, E); B_.NE, B_.E = NE, E
        B_.rec = [(lambda i, s=s: NE(i, z3.IntVal(s)) + E(i, z3.IntVal(s))) for s in range(K if kind == "scen" else 1)]
        if kind == "scen":
            B_.w = [1] * K if equal else [v.int("w%d" % s, lambda t: t >= 1) for s in range(K)]
            args = [B_.ne, B_.e, v.list(list(B_.w))]
        else:
            args = [B_.ne, B_.e, v.list([tc if c == tpos else None for c in range(K)])]
    if gamma:
        for r in B_.rec: v.st.assume(v.sum(v.st, r, 0, n) >= 1)
    outs = v.method(o, nm, args)
    res = []
    for s, r in v.returns(nm, outs):
        x = Built(); x.__dict__.update(B_.__dict__)
        x.s = s
        x.con, x.dom, x.obj = constraints(s)
        xd = v.attr(s, o, "_x")
        X = lambda a, b_, xd=xd, s=s: value_of(v, s, xd, a, b_)
        x.X = X
        res.append(x)
    return v, res


def value_of(v, s, xd, a, b):
    """the model variable of row a, column b (0 <= b <= a < n), as a term"""
    from pyvc.loops import DFam
    r = s.get(xd)
    for f in getattr(r, "fams", ()):
        if f.guard((rv(a), rv(b))) is not None: return rv(f.value((rv(a), rv(b))))
    raise Unsupported("model variables")


def offsets(b, fs, binders):
    """the offsets with which a loop variable indexes: terms o such that b + o is an argument of an uninterpreted function"""
    out, seen, todo = {}, set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for c in t.children():
                if c.sort() != INT: continue
                o = z3.simplify(c - b)
                if not any(sums.has(o, q) for q in binders): out.setdefault(o.sexpr(), o)
        todo.extend(t.children())
    if any(z3.is_int_value(o) and o.as_long() == 0 for o in out.values()): return [z3.IntVal(0)]
    return sorted(out.values(), key=lambda o: o.sexpr())[:2] or [z3.IntVal(0)]


def at(x, idx):
    """instances of the constraints and domains whose indices are the given terms"""
    out = []
    def inst(b, g, f):
        if not b: out.append(z3.Implies(g, f)); return
        offs = [offsets(q, [f, g], b) for q in b]
        for t in itertools.product(*[[z3.simplify(i - o) for i in idx for o in os] for os in offs]):
            c = z3.simplify(z3.substitute(z3.Implies(g, f), *list(zip(b, t))))
            if not z3.is_true(c): out.append(c)
    for b, g, f in x.con: inst(b, g, f)
    for b, g, (var, lo, hi) in x.dom: inst(b, g, z3.And(rv(var) >= rv(lo), rv(var) <= rv(hi)))
    return out


def only(x, fn):
    """the constraints whose formula satisfies fn, as quantified facts"""
    out = []
    for b, g, f in x.con:
        if fn(b, f): out.append(z3.ForAll(list(b), z3.Implies(g, f)) if b else z3.Implies(g, f))
    return out


def binary(x, *pairs): return [z3.And(x.X(a, b) >= 0, x.X(a, b) <= 1) for a, b in pairs]


def rng(x, *cs): return z3.And(*cs)


def structure(x, ctx, hyps=None):
    """unique assignment and continuity make the selected rows the bins; leaves the lemmas as functions of index terms on x"""
    v, s, n, X = x.v, x.s, x.n, x.X
    i, j, k, m = z3.Ints("i j k m")
    pc = [c for c in s.pc]
    col = lambda j, lo, hi: v.sum(s, lambda b: X(b, j), lo, hi)
    A1 = lambda a, b: z3.And(0 <= b, b <= a, a < n)
    dom = lambda idx: at(x, idx)
    ctx.prove("variables are binary", pc + dom([i, j]) + [A1(i, j)], z3.And(X(i, j) >= 0, X(i, j) <= 1))
    ctx.prove("each pre-bin is assigned exactly once", pc + dom([j]) + [0 <= j, j < n], col(j, j, n) == 1)
    ctx.prove("rows are contiguous: X(i,j) <= X(i,j+1)", pc + dom([i, j, j + 1]) + [A1(i, j), j < i], X(i, j) <= X(i, j + 1))
    bq = lambda: z3.ForAll([m], z3.Implies(z3.And(j <= m, m < n), z3.And(X(m, j) >= 0, X(m, j) <= 1)))
    uni = z3.Implies(z3.And(j <= n), col(j, j, n) == 1)
    ctx.prove("some row holds pre-bin j", pc + [0 <= j, j < n, col(j, j, n) == 1, z3.ForAll([m], z3.Implies(z3.And(j <= m, m < n), X(m, j) == 0))], z3.BoolVal(False))
    ps = [col(j, j, t) for t in (i, i + 1, k, k + 1, n)]
    ctx.prove("only one row holds pre-bin j", pc + [0 <= j, j <= i, i < k, k < n, bq(), X(i, j) == 1, X(k, j) == 1, col(j, j, n) == 1,
                                                    z3.And(*[p == p for p in ps]), z3.And(*[z3.Or(p == 0, p != 0) for p in ps])] +
              [ps[0] >= 0, ps[1] == ps[0] + X(i, j), ps[2] >= ps[1], ps[3] == ps[2] + X(k, j), ps[4] >= ps[3]], z3.BoolVal(False))
    for nm, hy, gl in (("partial column sums are not negative", [j <= i], ps[0] >= 0), ("partial column sum step", [j <= i], ps[1] == ps[0] + X(i, j)),
                       ("partial column sums grow", [j <= i, i + 1 <= k], ps[2] >= ps[1]), ("partial column sums grow to n", [j <= k], ps[4] >= ps[3])):
        ctx.prove(nm, pc + [0 <= j, i < n, k < n, bq()] + hy, gl)
    # S1 by induction on the column: step
    ctx.prove("row suffix: X(i,j)=1 implies X(i,k)=1 up to the diagonal (induction step)", pc + [A1(i, k), k < i, X(i, k) == 1, X(i, k) <= X(i, k + 1), X(i, k + 1) <= 1], X(i, k + 1) == 1)
    suf = lambda a, b, c: z3.Implies(z3.And(0 <= b, b <= c, c <= a, a < n, X(a, b) == 1), X(a, c) == 1)
    one = lambda a, c, b: z3.Implies(z3.And(0 <= b, b <= a, b <= c, a < n, c < n, X(a, b) == 1, X(c, b) == 1), a == c)
    own = z3.Function("own", INT, INT)       # the row that holds a pre-bin (exists and is unique)
    has = lambda b: z3.Implies(z3.And(0 <= b, b < n), z3.And(own(b) >= b, own(b) < n, X(own(b), b) == 1))
    sel = lambda a: X(a, a) == 1
    b1 = binary(x, (i, j), (k, j), (i, k), (k, k), (i, i))
    ctx.prove("a row that holds a pre-bin is selected, and no selected row lies between", pc + b1 + [A1(i, j), X(i, j) == 1, j <= k, k < i, suf(i, j, i), suf(i, j, k), one(i, k, k)],
              z3.And(sel(i), X(k, k) == 0))
    w = own(j)
    ctx.prove("the first selected row at or after a pre-bin holds it", pc + [A1(i, j), sel(i), z3.ForAll([k], z3.Implies(z3.And(j <= k, k < i), X(k, k) == 0)), has(j),
              suf(w, j, w), suf(w, j, i), one(w, i, i)], X(i, j) == 1)
    ctx.prove("the last row is selected", pc + [has(n - 1)], sel(n - 1))
    ST = z3.Function("ST", INT, INT)
    st_ = lambda a: z3.Implies(z3.And(0 <= a, a < n, sel(a)), z3.And(0 <= ST(a), ST(a) <= a, X(a, ST(a)) == 1))
    stj = lambda a, b: z3.Implies(z3.And(0 <= b, b <= a, a < n, sel(a)), (X(a, b) == 1) == (b >= ST(a)))
    non = lambda a, b: z3.Implies(z3.And(0 <= b, b <= a, a < n, X(a, a) == 0), X(a, b) == 0)
    ctx.prove("an unselected row holds nothing", pc + binary(x, (i, j)) + [A1(i, j), suf(i, j, i)], non(i, j))
    u = ST(i) - 1
    w = own(u)
    ctx.prove("a bin starts after the previous selected row", pc + [0 <= i, i < n, sel(i), st_(i), stj(i, u), ST(i) > 0, has(u), suf(w, u, w), suf(w, u, ST(i)), one(w, i, ST(i))] + binary(x, (i, u)),
              X(u, u) == 1)
    x.ST, x.sel, x.st_, x.stj, x.non, x.suf, x.one, x.own, x.has = ST, sel, st_, stj, non, suf, one, own, has


def telescope(x, ctx, F, tag):
    """sum_{j<i} (F(i,j)-F(i,j+1)) X(i,j) + F(i,i) X(i,i) = F(i, start of row i) for a selected row, 0 otherwise"""
    v, s, n, X, ST = x.v, x.s, x.n, x.X, x.ST
    i, m = z3.Ints("i m")
    G = lambda a, t: v.sum(s, lambda b: (F(a, b) - F(a, b + 1)) * X(a, b), 0, t)
    base = list(s.pc) + [0 <= i, i < n]
    Gm, G1 = G(i, m), G(i, m + 1)
    inv = lambda t: G(i, t) == z3.If(t <= ST(i), 0, F(i, ST(i)) - F(i, t))
    step = list(s.pc) + [0 <= m, m < i, i < n]
    rec = G1 == Gm + (F(i, m) - F(i, m + 1)) * X(i, m)
    ctx.prove("telescoping %s: sum step" % tag, step, rec)
    lhs = step + [x.sel(i), x.st_(i), x.stj(i, m), inv(m), rec] + binary(x, (i, m))
    for nm, cs in (("before the start", [m < ST(i)]), ("at the start", [m == ST(i)]), ("after the start", [m > ST(i)])):
        ctx.prove("telescoping %s: induction step %s" % (tag, nm), lhs + cs + [z3.Implies(m >= ST(i), X(i, m) == 1), z3.Implies(m < ST(i), X(i, m) == 0)], inv(m + 1), use_facts=False)
    ctx.prove("telescoping %s: X is the indicator" % tag, lhs, z3.And(z3.Implies(m >= ST(i), X(i, m) == 1), z3.Implies(m < ST(i), X(i, m) == 0)))
    ctx.prove("telescoping %s: start of the induction" % tag, base, G(i, z3.IntVal(0)) == 0)
    T = lambda a: G(a, a) + F(a, a) * X(a, a)
    ctx.prove("telescoping %s: a selected row" % tag, base + [x.sel(i), x.st_(i), inv(i)], T(i) == F(i, ST(i)), use_facts=False)
    ctx.prove("telescoping %s: an unselected row (induction step)" % tag, step + [X(i, i) == 0, x.non(i, m), Gm == 0, rec], G1 == 0)
    ctx.prove("telescoping %s: an unselected row" % tag, base + [X(i, i) == 0, G(i, i) == 0], T(i) == 0, use_facts=False)
    def inst(a):
        return z3.And(z3.Implies(z3.And(0 <= a, a < n, X(a, a) == 1), T(a) == F(a, ST(a))), z3.Implies(z3.And(0 <= a, a < n, X(a, a) == 0), T(a) == 0))
    return T, inst


def size(x, f, a):
    """sum of f over the pre-bins of row a"""
    return x.v.sum(x.s, lambda b: f(b) * x.X(a, b), 0, a + 1)


def bounds_group(kind, bounds, fixed=True, gamma=False):
    def g(ctx):
        v, res = build(ctx, kind, bounds=bounds, fixed=fixed, gamma=gamma)
        for x in res:
            structure(x, ctx)
            s, n, X, b = x.s, x.n, x.X, x.b
            i = z3.Int("i")
            pc = list(s.pc) + at(x, [i]) + [0 <= i, i < n]
            tot = v.sum(s, lambda a: X(a, a), 0, n)
            if "nmin" in b: ctx.prove("at least min_n_bins rows are selected", pc, tot >= b["nmin"])
            if "nmax" in b: ctx.prove("at most max_n_bins rows are selected", pc, tot <= b["nmax"])
            for q, r in enumerate(x.rec):
                sz = size(x, r, i)
                if "smin" in b: ctx.prove("records of a bin reach min_bin_size (%d)" % q, pc + [x.sel(i)], sz >= b["smin"])
                if "smax" in b: ctx.prove("records of a bin within max_bin_size (%d)" % q, pc + [x.sel(i)], sz <= b["smax"])
            if kind in ("cp", "mip"):
                for nm, f, lo, hi in (("events", x.E, "emin", "emax"), ("non-events", x.NE, "nemin", "nemax")):
                    if lo in b: ctx.prove("%s of a bin reach the minimum" % nm, pc + [x.sel(i)], size(x, f, i) >= b[lo])
                    if hi in b: ctx.prove("%s of a bin within the maximum" % nm, pc + [x.sel(i)], size(x, f, i) <= b[hi])
            if fixed: ctx.prove("a fixed split is kept", pc + [i < n - 1, x.FX(i)], x.sel(i))
        v.done()
    return g
