"""C07  The optimizer scores a binning by its true divergence."""
from contracts import optm, optwire, moddata
from contracts.optm import *

SEARCH_BUDGET = 45
ASSUMPTIONS = list(optm.ASSUMPTIONS) + optwire.ASSUMPTIONS


def scalar_vars(x):
    """(pmax, pmin): the two free variables of the objective, by sign"""
    term = x.obj[0].data[0]
    out = {}
    for b, g, (var, lo, hi) in x.dom:
        if b or not is_z3(var) or not sums.has(term, var): continue
        t = z3.simplify(z3.substitute(term, (var, z3.IntVal(1))) - z3.substitute(term, (var, z3.IntVal(0))))
        out.setdefault("down" if x.v.eng.entails(x.s.pc, t <= 0) else "up", []).append((var, lo, hi))
    return out


def objective_group(kind, gamma=False):
    def g(ctx):
        v, res = build(ctx, kind, gamma=gamma, equal=True)     # scenarios: equal weights (the default)
        for x in res:
            structure(x, ctx)
            s, n, X = x.s, x.n, x.X
            t = z3.Int("t")
            ctx.fact("one objective is maximised", len(x.obj) == 1 and not x.obj[0].bound)
            if len(x.obj) != 1: continue
            if z3.is_true(z3.simplify(bz(x.obj[0].guard))) is False: ctx.prove("the objective is always set", s.pc, bz(x.obj[0].guard))
            parts, W_, lem = [], [], []
            ws = [1] * x.K
            for c in range(x.K):
                F = lambda a, b, c=c: x.V[c](a, b)
                T, inst = telescope(x, ctx, F, "contribution %d" % c)
                own = lambda a, F=F: z3.If(x.sel(a), F(a, x.ST(a)), zero_of(F(a, a)))
                OBJ = lambda u, T=T: v.sum(s, lambda a: T(a), 0, u)
                W = lambda u, own=own: v.sum(s, lambda a: own(a), 0, u)
                rngt = [0 <= t, t < n]
                pc = list(s.pc)
                ctx.prove("objective %d: start" % c, pc, OBJ(z3.IntVal(0)) == W(z3.IntVal(0)))
                ctx.prove("objective %d: row step" % c, pc + rngt, OBJ(t + 1) == OBJ(t) + T(t))
                ctx.prove("objective %d: bin step" % c, pc + rngt, W(t + 1) == W(t) + own(t))
                ctx.prove("objective %d: a row contributes its bin's value" % c, pc + rngt + [inst(t), X(t, t) >= 0, X(t, t) <= 1], T(t) == own(t), use_facts=False)
                parts.append(OBJ(n)); W_.append(W(n)); lem.append(OBJ(n) == W(n))
            term = rr(x.obj[0].data[0])
            total = z3.Sum([rr(w) * rr(p) for w, p in zip(ws, parts)]) if len(parts) > 1 else rr(parts[0])
            goal = z3.Sum([rr(w) * rr(p) for w, p in zip(ws, W_)]) if len(parts) > 1 else rr(W_[0])
            if not gamma:
                ctx.prove("the objective is the sum of the bins' contributions", list(s.pc) + lem, term == goal)
                continue
            sv = scalar_vars(x)
            if sorted(len(z) for z in sv.values()) != [1, 1]: ctx.fact("the penalty is over the largest and the smallest bin", False); continue
            (pmax, l1, h1), (pmin, l2, h2) = sv["down"][0], sv["up"][0]
            N = z3.Sum([rr(v.sum(s, r, 0, n)) for r in x.rec[:1]])
            M = x.calls[0].get("scale") or 1
            reg = M * x.gam / N
            if not x.mip: reg = z3.ToReal(-z3.ToInt(-reg))
            ctx.prove("the objective is the sum of the bins' contributions less the dominance penalty", list(s.pc) + lem + [N > 0], term == goal - reg * (pmax - pmin), timeout=20000)
            a, b = z3.Ints("a b")
            sz = lambda q: size(x, x.rec[0], q)
            ctx.prove("the penalty covers the difference of any two bins", list(s.pc) + at(x, [a, b]) + [0 <= a, a < n, 0 <= b, b < n, x.sel(a), x.sel(b)],
                      pmax - pmin >= sz(a) - sz(b))
        v.done()
    return g


def zero_of(t): return z3.RealVal(0) if t.sort() == REAL else z3.IntVal(0)


def complete_group(kind, bounds, gamma=False):
    """an arbitrary binning that meets the bounds satisfies every constraint, with values for the auxiliary variables"""
    def g(ctx):
        v, res = build(ctx, kind, bounds=bounds, gamma=gamma)
        for x in res:
            s, n, X, bd = x.s, x.n, x.X, x.b
            SEL, NXT = z3.Function("SEL", INT, BOOL), z3.Function("NXT", INT, INT)
            i, j, t, k = z3.Ints("i j t k")
            pc = list(s.pc) + [SEL(n - 1)]
            nxt = lambda a: z3.Implies(z3.And(0 <= a, a < n), z3.And(NXT(a) >= a, NXT(a) < n, SEL(NXT(a)), z3.Implies(SEL(a), NXT(a) == a), z3.Implies(NXT(a) == a, SEL(a)),
                                                                     z3.Implies(z3.And(a + 1 < n, z3.Not(SEL(a))), NXT(a) == NXT(a + 1))))
            xd = lambda a, b: z3.Implies(z3.And(0 <= b, b <= a, a < n), X(a, b) == z3.If(NXT(b) == a, 1, 0))
            # column sums
            col = lambda b, u: v.sum(s, lambda a: X(a, b), b, u)
            inv = lambda b, u: col(b, u) == z3.If(u > NXT(b), 1, 0)
            ctx.prove("column sum of a binning: start", pc + [0 <= j, j < n, nxt(j)], inv(j, j))
            ctx.prove("column sum of a binning: step", pc + [0 <= j, j <= t, t < n, nxt(j), xd(t, j), inv(j, t), col(j, t + 1) == col(j, t) + X(t, j)], inv(j, t + 1))
            ctx.prove("column sum of a binning: sum step", pc + [0 <= j, j <= t, t < n], col(j, t + 1) == col(j, t) + X(t, j))
            colz = lambda b: z3.Implies(z3.And(0 <= b, b < n), col(b, n) == 1)
            fs = list(x.rec) + ([x.E, x.NE] if kind in ("cp", "mip") else [])
            lem = []
            for q, f in enumerate(fs):
                part = lambda a, u, f=f: v.sum(s, lambda b: f(b) * X(a, b), 0, u)
                ctx.prove("row total of an unselected row: step (%d)" % q, pc + [0 <= i, i < n, z3.Not(SEL(i)), 0 <= t, t <= i, nxt(t), nxt(i), xd(i, t), part(i, t) == 0, part(i, t + 1) == part(i, t) + f(t) * X(i, t)],
                          part(i, t + 1) == 0)
                ctx.prove("row total: sum step (%d)" % q, pc + [0 <= i, i < n, 0 <= t, t <= i], part(i, t + 1) == part(i, t) + f(t) * X(i, t))
                ctx.prove("row total: start (%d)" % q, pc + [0 <= i, i < n], part(i, z3.IntVal(0)) == 0)
                lem.append(lambda a, part=part: z3.Implies(z3.And(0 <= a, a < n, z3.Not(SEL(a))), part(a, a + 1) == 0))
            # totals of a row lie between 0 and the total of all rows
            for q, f in enumerate(x.rec):
                part = lambda a, u, f=f: v.sum(s, lambda b: f(b) * X(a, b), 0, u)
                allp = lambda u, f=f: v.sum(s, f, 0, u)
                hy = pc + [0 <= i, i < n, 0 <= t, t <= i, xd(i, t), f(t) >= 0]
                ctx.prove("row total at most the total: step (%d)" % q, hy + [part(i, t) >= 0, part(i, t) <= allp(t), part(i, t + 1) == part(i, t) + f(t) * X(i, t), allp(t + 1) == allp(t) + f(t)],
                          z3.And(part(i, t + 1) >= 0, part(i, t + 1) <= allp(t + 1)))
                ctx.prove("total: sum step (%d)" % q, pc + [0 <= t, t < n], allp(t + 1) == allp(t) + f(t))
                ctx.prove("total grows (%d)" % q, pc + [0 <= t, t <= n], allp(n) >= allp(t))
                lem.append(lambda a, part=part, allp=allp: z3.Implies(z3.And(0 <= a, a < n), z3.And(part(a, a + 1) >= 0, part(a, a + 1) <= allp(n))))
            # what the requested bounds say of the binning
            hyp = []
            tr = v.sum(s, lambda a: X(a, a), 0, n)
            if "nmin" in bd: pc.append(tr >= bd["nmin"])
            if "nmax" in bd: pc.append(tr <= bd["nmax"])
            def meets(a):
                c = [z3.BoolVal(True)]
                for f in x.rec:
                    if "smin" in bd: c.append(size(x, f, a) >= bd["smin"])
                    if "smax" in bd: c.append(size(x, f, a) <= bd["smax"])
                if kind in ("cp", "mip"):
                    for f, lo, hi in ((x.E, "emin", "emax"), (x.NE, "nemin", "nemax")):
                        if lo in bd: c.append(size(x, f, a) >= bd[lo])
                        if hi in bd: c.append(size(x, f, a) <= bd[hi])
                return z3.Implies(z3.And(0 <= a, a < n, SEL(a)), z3.And(*c))
            # auxiliary variables: solved from the equalities, the penalty's from the bin sizes
            aux, defs = [], []
            xdecl = None
            probe = X(i, j)
            xdecl = probe.decl().name()
            for b, g_, (var, lo, hi) in x.dom:
                if is_z3(var) and var.decl().name() != xdecl: aux.append((b, bz(g_), var, lo, hi))
            pm = scalar_vars(x) if gamma else {}
            A, Z = z3.Ints("largest smallest")
            sub_aux = []
            if gamma:
                ctx.fact("the penalty variables are found", all(len(pm.get(z, ())) == 1 for z in ("up", "down")))
                sz = lambda a: size(x, x.rec[0], a)
                vmax, vmin = pm["down"][0][0], pm["up"][0][0]
                pc += [0 <= A, A < n, SEL(A), 0 <= Z, Z < n, SEL(Z)]
                pc += [z3.Implies(z3.And(0 <= A, A < n), l(A)) for l in lem] + [z3.Implies(z3.And(0 <= Z, Z < n), l(Z)) for l in lem]
                sub_aux += [(vmax, sz(A)), (vmin, sz(Z))]
                ext = lambda a: z3.Implies(z3.And(0 <= a, a < n, SEL(a)), z3.And(sz(a) <= sz(A), sz(a) >= sz(Z)))
                pc += [sz(A) >= sz(Z)]
            else: ext = lambda a: z3.BoolVal(True)
            solved = {}
            for b, g_, f in x.con:
                if not z3.is_eq(f): continue
                for (ab, ag, var, lo, hi) in aux:
                    nm = var.decl().name()
                    if nm in solved or len(ab) != len(b): continue
                    vv = z3.substitute(var, *list(zip(ab, b))) if ab else var
                    d = f.arg(0) - f.arg(1)
                    if not sums.has(d, vv): continue
                    c0 = z3.simplify(z3.substitute(d, (vv, z3.IntVal(0))))
                    co = z3.simplify(z3.substitute(d, (vv, z3.IntVal(1))) - c0)
                    co = z3.simplify(co, som=True)
                    if not (z3.is_int_value(co) or z3.is_rational_value(co)): continue
                    cv = co.as_long() if z3.is_int_value(co) else int(co.as_fraction())
                    if abs(cv) != 1: continue
                    val = -c0 if cv == 1 else c0
                    solved[nm] = (ab, b, val)
            def fill(f):
                """replace the auxiliary variables by their values"""
                f = z3.substitute(f, *sub_aux) if sub_aux else f
                for (ab, ag, var, lo, hi) in aux:
                    nm = var.decl().name()
                    if nm not in solved: continue
                    pb, cb, val = solved[nm]
                    if not pb: f = z3.substitute(f, (var, val)); continue
                    for app in apps_of(f, nm):
                        f = z3.substitute(f, (app, z3.substitute(val, *[(c, a) for c, a in zip(cb, app.children())])))
                return f
            def facts_for(b, f):
                offs = [z3.simplify(q + o) for q in b for o in offsets(q, [f], b)]
                ts = []
                for o in offs + [z3.simplify(o + 1) for o in offs]:
                    if not any(o.eq(z) for z in ts): ts.append(o)
                out = [nxt(o) for o in ts] + [colz(o) for o in ts] + [meets(o) for o in ts] + [ext(o) for o in ts] + [l(o) for l in lem for o in ts]
                out += [xd(a, c) for a in ts for c in ts]
                return out
            for q, (b, g_, f) in enumerate(x.con):
                f2 = fill(f)
                left = [nm for (ab, ag, var, lo, hi) in aux for nm in [var.decl().name()] if nm not in solved and not any(var.eq(z[0]) for z in sub_aux) and (apps_of(f2, nm) or not ab and sums.has(f2, var))]
                if left: ctx.fact("constraint %d: auxiliary variables have values (%s)" % (q, left), False); continue
                ctx.prove("constraint %d admits every binning within the bounds" % q, pc + facts_for(b, f) + [g_], f2, timeout=20000)
            for b, g_, (var, lo, hi) in x.dom:
                nm = var.decl().name()
                if nm != xdecl and nm not in solved and not any(var.eq(z[0]) for z in sub_aux):
                    ctx.prove("an unused variable has a value", pc + [g_], rv(lo) <= rv(hi)); continue
                f = fill(z3.And(rv(var) >= rv(lo), rv(var) <= rv(hi)))
                ctx.prove("domain of %s admits every binning within the bounds" % ("the assignment" if nm == xdecl else "an auxiliary variable"), pc + facts_for(b, z3.And(rv(var) >= rv(lo), rv(var) <= rv(hi))) + [g_], f, timeout=20000)
        v.done()
    return g


def apps_of(f, nm):
    out, seen, todo = [], set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t) and t.num_args() > 0 and t.decl().name() == nm: out.append(t)
        todo.extend(t.children())
    return out


def handed_group(kind):
    """what build_model hands to the data builder"""
    def g(ctx):
        v, res = build(ctx, kind, gamma=False)
        x = res[0]
        ctx.fact("the data are built once", len(x.calls) == 1)
        d = x.calls[0]
        if kind == "cont":
            ctx.fact("the model data are built from the pre-bins", (d.get("n_records"), d.get("sums"), d.get("ssums")) == x.data)
        else: ctx.fact("the model data are built from the pre-bins", d.get("n_nonevent") == x.ne and d.get("n_event") == x.e)
        if kind in ("cp", "mip"): ctx.fact("with the requested divergence", d.get("divergence") is x.div)
        sc = d.get("scale")
        ctx.fact("scaled where the formulation is integral", (sc is None) if x.mip else (isinstance(sc, int) and sc > 0))
        v.done()
    return g


ALL = ("nmin", "nmax", "smin", "smax", "emin", "emax", "nemin", "nemax")
GROUPS = []
for k in ("cp", "mip", "cont", "mcp", "mmip", "scen"):
    q = ALL if k in ("cp", "mip") else ALL[:4]
    GROUPS.append(("objective %s" % k, objective_group(k), 60))
    if k in ("cp", "mip", "cont"): GROUPS.append(("objective %s gamma" % k, objective_group(k, True), 60))
    for nm, b in (("all bounds", q), ("minima", [z for z in q if z.endswith("min")]), ("maxima", [z for z in q if z.endswith("max")])):
        GROUPS.append(("complete %s %s" % (k, nm), complete_group(k, b), 90))
    if k in ("cp", "mip", "cont"): GROUPS.append(("complete %s gamma" % k, complete_group(k, ("nmin", "nmax"), True), 90))
    GROUPS.append(("handed %s" % k, handed_group(k), 30))
GROUPS += moddata.groups(("value", "rates"))
GROUPS += optwire.groups(("objective",))
