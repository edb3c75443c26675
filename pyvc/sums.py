"""Sums over symbolic ranges: normalised into prefix-sum functions PS_k(params, t) = sum_{b<t} body(b)."""
import re
import z3
from .values import *

B0 = z3.Int("!b")
REG = {}          # key -> entry
BYDECL = {}       # decl name -> entry


def has(e, x):
    """x occurs in e"""
    seen, todo = set(), [e]
    xid = x.get_id()
    while todo:
        t = todo.pop()
        if t.get_id() == xid: return True
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): todo.append(t.body())
        else: todo.extend(t.children())
    return False


class Entry:
    pass


def rename_bound(sx):
    """bound variables renamed in order of appearance, so that equal bodies share one prefix sum"""
    if "(exists" not in sx and "(forall" not in sx: return sx
    for q, nm in enumerate(dict.fromkeys(n for b in re.findall(r"(?:exists|forall) \(((?:\(\S+ [^()]+\)\s*)+)\)", sx) for n in re.findall(r"\((\S+) [^()]+\)", b))):
        sx = re.sub(r"(?<![^\s()])%s(?![^\s()])" % re.escape(nm), "?b%d" % q, sx)
    return sx


def has_var(e):
    todo = [e]
    while todo:
        t = todo.pop()
        if z3.is_var(t): return True
        if z3.is_app(t): todo.extend(t.children())
    return False


def ps_entry(body):
    """canonical prefix-sum function for a body over B0; returns (entry, params)"""
    consts, seen, order = [], set(), {}
    def walk(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            walk(t.body()); return
        if z3.is_var(t): return
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.get_id() != B0.get_id():
            consts.append(t)
        app = t.decl().kind() == z3.Z3_OP_UNINTERPRETED
        for c in t.children():
            if app and c.sort() == INT and z3.is_app(c) and c.num_args() > 0 and not has_var(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and not has(c, B0):
                if c.get_id() not in seen: seen.add(c.get_id()); consts.append(c)     # an index term is a parameter as a whole
                continue
            walk(c)
    walk(body)
    consts.sort(key=lambda c: c.num_args() == 0)
    subs = [(c, z3.Const("!p%d_%s" % (i, c.sort()), c.sort())) for i, c in enumerate(consts)]
    tmpl = z3.substitute(body, *subs) if subs else body
    key = rename_bound(tmpl.sexpr()) + str(body.sort())
    if key not in REG:
        e = Entry()
        e.id = len(REG)
        e.tmpl, e.ps = tmpl, [p for _, p in subs]
        e.sort = body.sort()
        e.decl = z3.Function("PS%d" % e.id, *([p.sort() for p in e.ps] + [INT, e.sort]))
        REG[key] = e
        BYDECL[e.decl.name()] = e
    return REG[key], consts


def body_at(e, params, t):
    return z3.substitute(e.tmpl, *(list(zip(e.ps, params)) + [(B0, t)]))


def zero(sort): return z3.IntVal(0) if sort == INT else z3.RealVal(0)


def is_zero(e):
    return (z3.is_int_value(e) and e.as_long() == 0) or (z3.is_rational_value(e) and e.numerator_as_long() == 0)


def ssum(eng, st, fn, lo, hi, mask=None):
    """sum_{lo <= b < hi, mask(b)} fn(b)"""
    t = fresh("sb")         # not B0 itself: the body may hold further sums over B0
    e = rv(fn(t))
    if mask is not None:
        m = mask(t)
        m = bz(m)
        e = z3.If(m, e, zero(e.sort()))
    e = z3.substitute(e, (t, B0))
    lo, hi = rv(lo), rv(hi)
    pc = st.pc if st is not None else []
    if not (eng.entails(pc, lo <= hi)):
        return z3.If(lo <= hi, dec(eng, pc, e, lo, hi), zero(e.sort()))
    return dec(eng, pc, e, lo, hi)


def add(xs, sort):
    xs = [x for x in xs if not is_zero(x)]
    if not xs: return zero(sort)
    if any(x.sort() == REAL for x in xs): xs = [rr(x) for x in xs]
    r = xs[0]
    for x in xs[1:]: r = r + x
    return r


def dec(eng, pc, e, lo, hi):
    e = z3.simplify(e, som=False, push_ite_arith=False) if False else e
    if is_zero(e): return e
    if not has(e, B0):
        d = z3.simplify(hi - lo)
        return e * (z3.ToReal(d) if e.sort() == REAL else d)
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD: return add([dec(eng, pc, c, lo, hi) for c in e.children()], e.sort())
    if k == z3.Z3_OP_SUB:
        cs = [dec(eng, pc, c, lo, hi) for c in e.children()]
        return add([cs[0]] + [-c for c in cs[1:]], e.sort())
    if k == z3.Z3_OP_UMINUS: return -dec(eng, pc, e.arg(0), lo, hi)
    if k == z3.Z3_OP_TO_REAL:
        return z3.ToReal(dec(eng, pc, e.arg(0), lo, hi))
    if k == z3.Z3_OP_MUL:
        fs = factors(e)
        cs = [c for c in fs if not has(c, B0)]
        vs = [c for c in fs if has(c, B0)]
        if cs:
            f = cs[0]
            for c in cs[1:]: f = f * c
            v = vs[0]
            for c in vs[1:]: v = v * c
            return f * dec(eng, pc, v, lo, hi)
        # distribute over sums / ites
        for i, v in enumerate(vs):
            rest = vs[:i] + vs[i + 1:]
            r = rest[0]
            for c in rest[1:]: r = r * c
            if v.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                parts = [c * r for c in v.children()]
                if v.decl().kind() == z3.Z3_OP_SUB: parts = [parts[0]] + [-p for p in parts[1:]]
                return add([dec(eng, pc, p, lo, hi) for p in parts], e.sort())
            if v.decl().kind() == z3.Z3_OP_ITE:
                return dec(eng, pc, z3.If(v.arg(0), v.arg(1) * r if not is_zero(v.arg(1)) else zero(e.sort()),
                                          v.arg(2) * r if not is_zero(v.arg(2)) else zero(e.sort())), lo, hi)
            if v.decl().kind() == z3.Z3_OP_TO_REAL and v.arg(0).decl().kind() == z3.Z3_OP_ITE:
                w = v.arg(0)
                return dec(eng, pc, z3.If(w.arg(0), z3.ToReal(w.arg(1)) * r if not is_zero(w.arg(1)) else zero(e.sort()),
                                          z3.ToReal(w.arg(2)) * r if not is_zero(w.arg(2)) else zero(e.sort())), lo, hi)
    if k == z3.Z3_OP_DIV and not has(e.arg(1), B0):
        return dec(eng, pc, e.arg(0), lo, hi) / e.arg(1)
    if k == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if not has(c, B0):
            return z3.If(c, dec(eng, pc, a, lo, hi), dec(eng, pc, b, lo, hi))
        if not is_zero(b) and not is_zero(a):
            return add([dec(eng, pc, z3.If(c, a, zero(a.sort())), lo, hi),
                        dec(eng, pc, z3.If(neg(c), b, zero(a.sort())), lo, hi)], e.sort())
        if is_zero(a) and is_zero(b): return zero(e.sort())
        if is_zero(a):
            return dec(eng, pc, z3.If(neg(c), b, a), lo, hi)
        # If(c, a, 0)
        ak = a.decl().kind()
        z = zero(a.sort())
        if ak == z3.Z3_OP_ITE:
            return add([dec(eng, pc, z3.If(z3.And(c, a.arg(0)), a.arg(1), z), lo, hi) if not is_zero(a.arg(1)) else z,
                        dec(eng, pc, z3.If(z3.And(c, neg(a.arg(0))), a.arg(2), z), lo, hi) if not is_zero(a.arg(2)) else z],
                       e.sort())
        if ak in (z3.Z3_OP_ADD,):
            return add([dec(eng, pc, z3.If(c, x, z), lo, hi) for x in a.children()], e.sort())
        if ak == z3.Z3_OP_SUB:
            xs = [dec(eng, pc, z3.If(c, x, z), lo, hi) for x in a.children()]
            return add([xs[0]] + [-x for x in xs[1:]], e.sort())
        if ak == z3.Z3_OP_UMINUS: return -dec(eng, pc, z3.If(c, a.arg(0), z), lo, hi)
        if ak == z3.Z3_OP_TO_REAL:
            return z3.ToReal(dec(eng, pc, z3.If(c, a.arg(0), z3.IntVal(0)), lo, hi))
        if ak == z3.Z3_OP_DIV and not has(a.arg(1), B0):
            return dec(eng, pc, z3.If(c, a.arg(0), z), lo, hi) / a.arg(1)
        if ak == z3.Z3_OP_MUL:
            cs = [x for x in a.children() if not has(x, B0)]
            vs = [x for x in a.children() if has(x, B0)]
            if cs:
                f = cs[0]
                for x in cs[1:]: f = f * x
                v = vs[0] if vs else (z3.RealVal(1) if a.sort() == REAL else z3.IntVal(1))
                for x in vs[1:]: v = v * x
                return f * dec(eng, pc, z3.If(c, v, z), lo, hi)
        if not has(a, B0) and not (z3.is_int_value(a) or z3.is_rational_value(a)):
            one = z3.IntVal(1)
            s = dec(eng, pc, z3.If(c, one, z3.IntVal(0)), lo, hi)
            return a * (z3.ToReal(s) if a.sort() == REAL else s)
        if z3.is_rational_value(a) and not z3.is_int_value(a) or (z3.is_int_value(a) and a.as_long() != 1):
            s = dec(eng, pc, z3.If(c, z3.IntVal(1), z3.IntVal(0)), lo, hi)
            return a * (z3.ToReal(s) if a.sort() == REAL else s)
        # interval conditions move into the bounds
        conj = conjuncts(c)
        rest, nlo, nhi = [], lo, hi
        for x in conj:
            if not has(x, B0):
                rest_c = [y for y in conj if y is not x]
                inner = z3.If(z3.And(*rest_c), a, z) if len(rest_c) > 1 else (z3.If(rest_c[0], a, z) if rest_c else a)
                return z3.If(x, dec(eng, pc, inner, lo, hi), z)
            r = bound_of(x)
            if r is None: rest.append(x); continue
            which, t = r
            if which == "eq":
                rest_c = [y for y in conj if y is not x]
                v = z3.substitute(a, (B0, t))
                cond = [z3.substitute(y, (B0, t)) for y in rest_c] + [t >= lo, t < hi]
                return z3.If(z3.And(*cond), v, z)
            if which == "lo":
                nlo = mx(eng, pc, nlo, t)
            else:
                nhi = mn(eng, pc, nhi, t)
        if len(rest) < len(conj):
            inner = a if not rest else z3.If(z3.And(*rest) if len(rest) > 1 else rest[0], a, z)
            if eng.entails(pc, nlo <= nhi): return dec(eng, pc, inner, nlo, nhi)
            return z3.If(nlo <= nhi, dec(eng, pc, inner, nlo, nhi), z)
    return atom(eng, pc, e, lo, hi)


def factors(e):
    """the factors of a product, nested products and signs flattened"""
    if z3.is_app_of(e, z3.Z3_OP_MUL): return [f for c in e.children() for f in factors(c)]
    if z3.is_app_of(e, z3.Z3_OP_UMINUS): return [z3.IntVal(-1) if e.sort() == INT else z3.RealVal(-1)] + factors(e.arg(0))
    return [e]


def mx(eng, pc, a, b):
    if a.eq(b): return a
    if eng.entails(pc, a <= b): return b
    if eng.entails(pc, b <= a): return a
    return z3.If(a <= b, b, a)


def mn(eng, pc, a, b):
    if a.eq(b): return a
    if eng.entails(pc, a <= b): return a
    if eng.entails(pc, b <= a): return b
    return z3.If(a <= b, a, b)


def conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children(): out.extend(conjuncts(x))
        return out
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        out = []
        for x in c.arg(0).children(): out.extend(conjuncts(neg(x)))
        return out
    return [c]


def neg(c):
    if z3.is_not(c): return c.arg(0)
    k = c.decl().kind()
    if k == z3.Z3_OP_LE: return c.arg(0) > c.arg(1)
    if k == z3.Z3_OP_GE: return c.arg(0) < c.arg(1)
    if k == z3.Z3_OP_LT: return c.arg(0) >= c.arg(1)
    if k == z3.Z3_OP_GT: return c.arg(0) <= c.arg(1)
    return z3.Not(c)


def bound_of(x):
    """b >= t -> ('lo', t);  b < t -> ('hi', t);  b == t -> ('eq', t)  for integer terms linear in B0 with coefficient +-1"""
    n = False
    while z3.is_not(x): x, n = x.arg(0), not n
    k = x.decl().kind()
    ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
    if k not in ops: return None
    a, b = x.children()
    if a.sort() != INT: return None
    o = ops[k]
    if n:
        if o == "==": return None
        o = {"<=": ">", ">=": "<", "<": ">=", ">": "<="}[o]
    la = lin(a); lb = lin(b)
    if la is None or lb is None: return None
    coef, rest = la[0] - lb[0], z3.simplify(la[1] - lb[1])     # coef*B0 + rest  o  0
    if coef == -1:
        coef, rest = 1, z3.simplify(-rest)
        o = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "==": "=="}[o]
    if coef != 1: return None
    t = z3.simplify(-rest)                                     # B0 o t
    if o == "==": return ("eq", t)
    if o == ">=": return ("lo", t)
    if o == ">": return ("lo", z3.simplify(t + 1))
    if o == "<": return ("hi", t)
    return ("hi", z3.simplify(t + 1))


def lin(e):
    """integer term as c*B0 + rest"""
    if not has(e, B0): return (0, e)
    if e.get_id() == B0.get_id(): return (1, z3.IntVal(0))
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        c, r = 0, z3.IntVal(0)
        for x in e.children():
            l = lin(x)
            if l is None: return None
            c, r = c + l[0], r + l[1]
        return (c, r)
    if k == z3.Z3_OP_SUB:
        l = lin(e.arg(0))
        if l is None: return None
        c, r = l
        for x in e.children()[1:]:
            l = lin(x)
            if l is None: return None
            c, r = c - l[0], r - l[1]
        return (c, r)
    if k == z3.Z3_OP_UMINUS:
        l = lin(e.arg(0))
        return None if l is None else (-l[0], -l[1])
    if k == z3.Z3_OP_MUL and len(e.children()) == 2 and z3.is_int_value(e.arg(0)):
        l = lin(e.arg(1))
        return None if l is None else (l[0] * e.arg(0).as_long(), l[1] * e.arg(0))
    return None


def atom(eng, pc, e, lo, hi):
    # canonical index shift / reversal
    offs = set()
    ok = [True]
    seen = set()
    def walk(t, top):
        if (t.get_id(), top) in seen: return
        seen.add((t.get_id(), top))
        if not has(t, B0): return
        if t.sort() == INT and lin(t) is not None:
            c, r = lin(t)
            offs.add((c, z3.simplify(r).sexpr())); OFFS[(c, z3.simplify(r).sexpr())] = z3.simplify(r)
            return
        if z3.is_quantifier(t): ok[0] = False; return
        for x in t.children(): walk(x, False)
    OFFS = {}
    walk(e, True)
    if ok[0] and len(offs) == 1:
        (c, rs), = offs
        r = OFFS[(c, rs)]
        if c == 1 and not is_zero(r):
            e = z3.simplify(z3.substitute(e, (B0, B0 - r)))
            lo, hi = z3.simplify(lo + r), z3.simplify(hi + r)
        elif c == -1:
            e = z3.simplify(z3.substitute(e, (B0, r - B0)))
            lo, hi = z3.simplify(r - hi + 1), z3.simplify(r - lo + 1)
    e = z3.simplify(e)
    if is_zero(e): return e
    if not has(e, B0):
        d = hi - lo
        return e * (z3.ToReal(d) if e.sort() == REAL else d)
    ent, params = ps_entry(canon(e))
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    f = lambda t: ent.decl(*(params + [t]))
    if is_zero(lo): return f(hi)
    return f(hi) - f(lo)


def _shape(e, memo):
    """text of a term with its free constants masked, and the text itself"""
    k = e.get_id()
    if k not in memo:
        consts, seen, todo = [], set(), [e]
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): todo.append(t.body()); continue
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.get_id() != B0.get_id(): consts.append(t)
            todo.extend(t.children())
        m = z3.substitute(e, *[(c, z3.Const("!m_%s" % c.sort(), c.sort())) for c in consts]) if consts else e
        memo[k] = (m.sexpr(), e.sexpr(), e)
    return memo[k][:2]


def canon(e):
    """condition of a guarded summand as a sorted conjunction, equalities oriented"""
    if z3.is_app_of(e, z3.Z3_OP_MUL):
        memo = {}
        fs = sorted(factors(e), key=lambda t: _shape(t, memo))
        r = fs[0]
        for f in fs[1:]: r = r * f
        return r
    if not z3.is_app_of(e, z3.Z3_OP_ITE): return e
    memo = {}
    cs = []
    for c in conjuncts(e.arg(0)):
        n = z3.is_not(c)
        x = c.arg(0) if n else c
        if z3.is_distinct(x) and x.num_args() == 2: x, n = x.arg(0) == x.arg(1), not n
        if z3.is_eq(x) and x.num_args() == 2 and not z3.is_bool(x.arg(0)):
            a, b = sorted(x.children(), key=lambda t: (not has(t, B0),) + _shape(t, memo))
            x = a == b
        c = z3.Not(x) if n else x
        if not any(c.eq(y) for y in cs): cs.append(c)
    cs.sort(key=lambda t: _shape(t, memo))
    c = cs[0] if len(cs) == 1 else z3.And(*cs)
    return z3.If(c, e.arg(1), e.arg(2))


def count(eng, st, a):
    """number of elements of a filtered array; remembered, so that an array created with that length has its domain"""
    t = ssum(eng, st, lambda i: z3.IntVal(1), 0, a.n, a.mask)
    if a.mask is not None and is_z3(t):
        d = eng.__dict__.setdefault("cdims", [])
        if not any(t.eq(x[0]) for x in d): d.append((t, a.n, a.mask))
    return t


def domain(eng, dim):
    """(parent length, mask) when dim is the length of a filtered array"""
    if is_z3(dim):
        for t, n, m in getattr(eng, "cdims", ()):
            if t.eq(dim): return n, m
    return dim, None


def ps_apps(exprs):
    apps, seen, todo = {}, set(), list(exprs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t) and t.num_args() > 0 and t.decl().name() in BYDECL:
            apps[t.get_id()] = t
        todo.extend(t.children())
    return list(apps.values())


def indicator(e):
    t = e.tmpl
    return z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)) and \
        t.arg(1).as_long() >= 0 and t.arg(2).as_long() >= 0


def facts(exprs, rounds=2, ext=True, cap=10):
    """quantifier-free valid facts about the prefix-sum terms occurring in exprs"""
    out, done = [], set()
    cur = list(exprs)
    for rnd in range(rounds):
        apps = ps_apps(cur + out)
        groups = {}
        for a in apps:
            groups.setdefault((a.decl().name(), tuple(c.get_id() for c in a.children()[:-1])), []).append(a)
        new = []
        if len(apps) > 150: break
        for (nm, _), g in groups.items():
            g = g[:cap]
            e = BYDECL[nm]
            ps = g[0].children()[:-1]
            z0 = e.decl(*(ps + [z3.IntVal(0)]))
            key = (nm, "0", tuple(p.get_id() for p in ps))
            if key not in done:
                done.add(key)
                new.append(z0 == zero(e.sort))
                if all(not is_zero(a.arg(a.num_args() - 1)) for a in g): g = g + [z0]
            for i, a in enumerate(g):
                for b in g[i + 1:]:
                    key = ("m", a.get_id(), b.get_id())
                    if key in done: continue
                    done.add(key)
                    ta, tb = a.arg(a.num_args() - 1), b.arg(b.num_args() - 1)
                    for (x, tx, y, ty) in ((a, ta, b, tb), (b, tb, a, ta)):
                        d = z3.simplify(ty - tx)
                        if z3.is_int_value(d) and d.as_long() <= 0 and not (d.as_long() == 0): continue
                        w = fresh("w")
                        bw = body_at(e, ps, w)
                        new.append(z3.Or(z3.And(tx <= w, w < ty, bw < 0), tx > ty, x <= y))
                        w2 = fresh("w")
                        new.append(z3.Or(z3.And(tx <= w2, w2 < ty, body_at(e, ps, w2) != 0), tx > ty, x == y))
                        new.append(z3.Implies(ty == tx + 1, y == x + body_at(e, ps, tx)))
                        new.append(z3.Implies(ty == tx, y == x))
                        if e.sort == INT:
                            w3 = fresh("w")
                            new.append(z3.Or(z3.And(tx <= w3, w3 < ty, body_at(e, ps, w3) > 1), tx > ty, y - x <= ty - tx))
        if ext and rnd == 0 and len(groups) <= 16:
            gl = list(groups.items())
            for i, ((n1, p1), g1) in enumerate(gl):
                for ((n2, p2), g2) in gl[i + 1:]:
                    e1, e2 = BYDECL[n1], BYDECL[n2]
                    for (ea, ga), (eb, gb) in (((e1, g1), (e2, g2)), ((e2, g2), (e1, g1))):
                        # a count that is zero: no element, hence any sum over (part of) those elements is zero
                        if not indicator(ea): continue
                        for a in ga[:4]:
                            for b in gb[:4]:
                                t = a.arg(a.num_args() - 1)
                                if not t.eq(b.arg(b.num_args() - 1)): continue
                                w = fresh("w")
                                new.append(z3.Or(z3.And(0 <= w, w < t, body_at(eb, b.children()[:-1], w) != 0, body_at(ea, a.children()[:-1], w) == 0),
                                                 t < 0, a != 0, b == 0))
                    if e1.sort != e2.sort: continue
                    for a in g1[:4]:
                        for b in g2[:4]:
                            ta, tb = a.arg(a.num_args() - 1), b.arg(b.num_args() - 1)
                            w = fresh("w")
                            ba, bb = body_at(e1, a.children()[:-1], w), body_at(e2, b.children()[:-1], w)
                            new.append(z3.Or(z3.And(0 <= w, w < ta, ba != bb), ta != tb, ta < 0, a == b))
                            w = fresh("w")
                            ba, bb = body_at(e1, a.children()[:-1], w), body_at(e2, b.children()[:-1], w)
                            new.append(z3.Or(z3.And(0 <= w, w < ta, ba > bb), ta != tb, ta < 0, a <= b))
                            w = fresh("w")
                            ba, bb = body_at(e1, a.children()[:-1], w), body_at(e2, b.children()[:-1], w)
                            new.append(z3.Or(z3.And(0 <= w, w < ta, ba < bb), ta != tb, ta < 0, a >= b))
        if not new: break
        out.extend(new)
    return out


def ops_hasq(e):
    from .prove import _hasq
    return _hasq(e)


def compact(eng, st, a):
    """the elements of a filtered array at positions 0..N-1: e enumerates the selected base positions in increasing order, r is its inverse"""
    from . import ops
    if a.mask is None: return a
    N, n = count(eng, st, a), rv(a.n)
    defs = st.ghost.get("compactdef", ())
    for q, (m, nn, e, r) in enumerate(st.ghost.get("compact", ())):
        if not nn.eq(n): continue
        if q < len(defs):
            t = fresh("km")
            s = z3.Solver(); s.set("timeout", 1000)
            s.add(*[c for c in st.pc if is_z3(c) and not z3.is_quantifier(c) and not ops_hasq(c)]); s.add(t >= 0, t < n, bz(a.mask(t)) != bz(defs[q][1](t)))
            if s.check() == z3.unsat: N = st.ghost["compactN"][q]; break
        if ops.same_mask(eng, st, a, Arr((n,), None, None, m)): N = st.ghost["compactN"][q]; break
    else:
        e, r = fresh_fun("sel", INT, INT), fresh_fun("selrank", INT, INT)
        i, j, m0, M = fresh("i"), fresh("j"), a.mask, fresh_fun("selected", INT, BOOL)
        d = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), M(i) == bz(m0(i))), patterns=[M(i)])
        m = lambda t: M(rv(t))
        st.ghost["compactdef"] = st.ghost.get("compactdef", ()) + ((M, m0, d),)
        st.assume(rv(N) >= 0); st.assume(d)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rv(N)), z3.And(e(i) >= 0, e(i) < n, bz(m(e(i))), r(e(i)) == i)), patterns=[e(i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, bz(m(i))), z3.And(r(i) >= 0, r(i) < rv(N), e(r(i)) == i)), patterns=[r(i)]))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < rv(N)), e(i) < e(j)), patterns=[z3.MultiPattern(e(i), e(j))]))
        st.ghost["compact"] = st.ghost.get("compact", ()) + ((m, n, e, r),)
        st.ghost["compactN"] = st.ghost.get("compactN", ()) + (N,)
    return Arr((N,) + tuple(a.shape[1:]), lambda i, *x: a.fn(e(rv(i)), *x), a.dtype)


def filtered_element(eng, st, a, k):
    """element k of a filtered sequence: first / last via skolem positions"""
    k = conc(k)
    if isinstance(k, int) and k in (0, -1) and len(a.shape) == 1:
        n = count(eng, st, a)
        if not eng.decide(rv(n) > 0, st): raise PyRaise("IndexError")
        p = fresh("fpos")
        j = fresh("j")
        st.assume(z3.And(p >= 0, p < rv(a.n), bz(a.mask(p))))
        side = j < p if k == 0 else j > p
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < rv(a.n), side), z3.Not(bz(a.mask(j))))))
        return a.fn(p)
    if len(a.shape) == 1 and not isinstance(k, int):
        from . import ops
        c = compact(eng, st, a)
        return c.fn(ops.norm_index(eng, st, k, c.n))
    raise Unsupported("element of a filtered sequence")
