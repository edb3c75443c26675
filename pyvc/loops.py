"""Loops and comprehensions over symbolic ranges: summarised by inferred, checked invariants."""
import ast
import z3
from .values import *
from . import ops


class FamEvent:
    """event raised for every value of the bound variables satisfying the guard"""
    __slots__ = ("kind", "data", "guard", "bound")
    def __init__(self, kind, data, guard=True, bound=()):
        self.kind, self.data, self.guard, self.bound = kind, data, guard, tuple(bound)
    def __repr__(self): return "Ev(%s,%s|%s|%s)" % (self.kind, self.data, self.guard, self.bound)


class HAcc:
    """a list being appended to inside a symbolic loop: base record, guarded items of this iteration"""
    __slots__ = ("base", "items")
    def __init__(self, base, items=()): self.base, self.items = base, tuple(items)


class HFam:
    """a list built by nested symbolic loops: the set of its elements, as guarded families (bound variables, guard, value); the order is not kept"""
    __slots__ = ("items",)
    def __init__(self, items=()): self.items = tuple(items)


class HDictAcc:
    __slots__ = ("base", "items")
    def __init__(self, base, items=()): self.base, self.items = base, tuple(items)


class DFam:
    """symbolic-key family of a dict: bound vars, guard, key exprs, value"""
    def __init__(self, bound, guard, key, value): self.bound, self.g, self.key, self.val = tuple(bound), guard, key, value
    def _sub(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if len(ks) != len(self.key): return None
        sub, eqs = [], []
        for a, b in zip(self.key, ks):
            if is_z3(a) and any(a.eq(v) for v in self.bound) and not any(a.eq(s[0]) for s in sub):
                try:
                    sub.append((a, rv(b)))
                except Unsupported:
                    return None
            elif is_z3(a) and a.sort() == INT and self._shift(a) is not None and not any(self._shift(a)[0].eq(s[0]) for s in sub):
                try:
                    sub.append((self._shift(a)[0], z3.simplify(rv(b) - self._shift(a)[1])))
                except Unsupported:
                    return None
            else: eqs.append((a, b))
        if len(sub) != len(self.bound): return None
        return sub, eqs
    def _shift(self, a):
        """a = bound variable + number"""
        for v in self.bound:
            d = z3.simplify(a - v) if v.sort() == INT else None
            if d is not None and z3.is_int_value(d): return v, d
        return None
    def guard(self, k):
        r = self._sub(k)
        if r is None: return None
        sub, eqs = r
        g = z3.substitute(bz(self.g), *sub)
        for a, b in eqs:
            if isinstance(a, str) or isinstance(b, str):
                if a != b: return None
            else:
                a2 = z3.substitute(rv(a), *sub)
                g = z3.And(g, a2 == rv(b))
        return z3.simplify(g)
    def value(self, k):
        sub, _ = self._sub(k)
        return subst_val(self.val, sub)


def subst_val(v, sub):
    if is_z3(v): return conc(z3.simplify(z3.substitute(v, *sub))) if z3.is_arith(v) or z3.is_bool(v) else z3.substitute(v, *sub)
    if isinstance(v, tuple): return tuple(subst_val(x, sub) for x in v)
    if isinstance(v, list): return [subst_val(x, sub) for x in v]
    if isinstance(v, PyVal): return v.subst(sub, subst_val)
    if isinstance(v, Fl): return Fl(subst_val(v.r, sub), subst_val(v.nan, sub))
    if isinstance(v, Arr):
        # protect index arguments: evaluate the element at a fresh index, substitute, then put the index back
        def mk(f, nd):
            def g(*idx):
                ks = [fresh("sx") for _ in idx]
                # concrete indices may matter to the element function
                use = [i if isinstance(conc(i), int) else k for i, k in zip(idx, ks)]
                r = subst_val(f(*use), sub)
                back = [(k, rv(i)) for i, k in zip(idx, ks) if not isinstance(conc(i), int)]
                return subst_val(r, back) if back else r
            return g
        nd = len(v.shape)
        return Arr([conc(z3.simplify(z3.substitute(rv(d), *sub))) for d in v.shape], mk(v.fn, nd), v.dtype,
                   mk(v.mask, 1) if v.mask else None, v.islist)
    return v


def freeze(eng, st, v, base):
    """turn references to objects created in a generic iteration into immutable values"""
    if isinstance(v, Ref):
        r = st.get(v)
        if isinstance(r, HArr): return r.arr
        if isinstance(r, HList):
            its = [freeze(eng, st, x, base) for x in r.items]
            return ops.to_nd_list(eng, st, its)
        if base is not None and v.id in base.heap: return v
        from . import models
        return models.freeze_special(eng, st, v, r, base)
    if isinstance(v, tuple): return tuple(freeze(eng, st, x, base) for x in v)
    return v


def generic(eng, st, k, guard, fn):
    """value of fn at a generic index k (0<=k<n): one merged value; raising paths fork the caller"""
    from .core import Out, RAISE, RETURN
    s0 = st.fork()
    s0.pc = list(st.pc) + [g for g in guard if g is not True]
    binders = s0.ghost.get("binders", ())
    s0.ghost["binders"] = binders + (k,)
    base = s0.fork()
    npc = len(s0.pc)
    outs = eng.run(lambda s: Out(RETURN, freeze(eng, s, fn(s), base)), s0)
    rets = [(s, o) for s, o in outs if o.kind == RETURN]
    raises = [(s, o) for s, o in outs if o.kind == RAISE]
    if raises:
        if st.oracle is None: raise Unsupported("raise in generic evaluation")
        c = st.oracle.choose(1 + len(raises)) if rets else 1 + st.oracle.choose(len(raises))
        if c > 0:
            s, o = raises[c - 1]
            st.become_pc = None
            st.pc = list(s.pc)
            raise o.val
        for s, o in raises:
            suf = s.pc[npc:]
            cond = And(*suf)
            st.assume(z3.ForAll([k], bz(z3.Implies(bz(And(*guard)), bz(Not(bz(cond)))))))
    if not rets: raise Infeasible()
    for s, o in rets:
        for i, r in s.heap.items():
            if i in base.heap and not (base.heap[i] is r):
                raise Unsupported("side effect inside a symbolic comprehension")
        if len(s.events) != len(base.events):
            pass
    if len(rets) == 1:
        s, o = rets[0]
        newpc = s.pc[npc:]
        evs = s.events[len(base.events):]
        val = o.val
    else:
        conds = [bz(And(*s.pc[npc:])) for s, _ in rets]
        val = eng.merge_vals([o.val for _, o in rets], conds, [s for s, _ in rets])
        if isinstance(val, tuple) and val and val[0] == "__newref__": raise Unsupported("merge of objects")
        evs = []
        for (s, o), c in zip(rets, conds):
            for e in s.events[len(base.events):]:
                evs.append(FamEvent(e.kind, e.data, bz(And(c, e.guard)), e.bound))
        newpc = []
    for e in evs:
        st.events.append(FamEvent(e.kind, e.data, bz(And(*(list(guard) + [e.guard]))), e.bound + (k,)))
    # facts learned at the generic index (definitions of fresh symbols) hold for all indices
    for c in newpc:
        st.assume(z3.ForAll([k], z3.Implies(bz(And(*guard)), c)))
    st.nid = max([st.nid] + [s.nid for s, _ in rets])
    return val


def comprehension(eng, elt, gens, st):
    g = gens[0]
    it = eng.iter_of(eng.eval(g.iter, st), st)
    frame = st.frame
    names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
    saved = {n: frame.vars[n] for n in names if n in frame.vars}
    def restore():
        fv = st.frame.vars
        for n in names:
            fv.pop(n, None)
            if n in saved: fv[n] = saved[n]
    try:
        if isinstance(it, list):
            out, sym = [], []
            for v in it:
                eng.assign(g.target, v, st)
                ok = True
                for c in g.ifs:
                    if not eng.truth(eng.eval(c, st), st): ok = False; break
                if not ok: continue
                if len(gens) > 1:
                    r = comprehension(eng, elt, gens[1:], st)
                    if isinstance(r, list): out.extend(r); sym.append(None)
                    else: sym.append(r)
                else: out.append(eng.eval(elt, st))
            if any(s is not None for s in sym):
                if any(s is None for s in sym): raise Unsupported("mixed comprehension")
                return ops.concat(eng, st, sym, islist=True)
            return out
        k = fresh("k")
        n = rv(it.n)
        guard = [k >= 0, k < n]
        if it.mask is not None: guard.append(bz(it.mask(k)))
        def body(s):
            eng.assign(g.target, it.val(k), s)
            cs = []
            for c in g.ifs:
                b = eng.to_bool(eng.eval(c, s), s)
                if b is False: return (False, None)
                if b is not True:
                    cs.append(b)
            cond = And(*cs)
            if cs:
                s.pc.append(bz(cond))       # the element is only evaluated where the filter holds
            if len(gens) > 1:
                r = comprehension(eng, elt, gens[1:], s)
                if isinstance(r, list): r = ops.to_nd_list(eng, s, r)
                v = r
            else: v = eng.eval(elt, s)
            if cs: s.pc.pop() if s.pc and s.pc[-1] is not None and s.pc[-1].eq(bz(cond)) else None
            return (cond, v)
        cond, v = generic(eng, st, k, guard, body)
        if cond is False: return []
        mask = it.mask
        if cond is not True:
            c0 = cond
            if it.mask is None: mask = lambda i: subst_val(bz(c0), [(k, rv(i))])
            else: mask = lambda i: bz(And(it.mask(i), subst_val(bz(c0), [(k, rv(i))])))
        fn = lambda i: subst_val(v, [(k, rv(i))])
        if len(gens) > 1:
            return Arr((n,), fn, "nested", mask, islist=True)
        if isinstance(v, Arr) and False: pass
        return Arr((conc(n),), fn, ops.dt_of(v), mask, islist=True)
    finally:
        restore()


# ------------------------------------------------------------------------------------------------- for loops
def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
            if isinstance(n, ast.FunctionDef): out.add(n.name)
    return out


def rebound_names(stmts):
    """names assigned other than by augmented assignment"""
    nodes = [n for st in stmts for n in ast.walk(st)]
    aug = {id(n.target) for n in nodes if isinstance(n, ast.AugAssign)}
    return {n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in aug} | {n.name for n in nodes if isinstance(n, (ast.FunctionDef, ast.ClassDef))}


def delta(e, V):
    """e - V where e = ite-tree of V + d; None if not of that form"""
    from .sums import has
    if not is_z3(e): return None
    if not has(e, V): return None
    if e.get_id() == V.get_id(): return z3.IntVal(0) if V.sort() == INT else z3.RealVal(0)
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE:
        if has(e.arg(0), V): return None
        a, b = delta(e.arg(1), V), delta(e.arg(2), V)
        if a is None or b is None: return None
        return z3.If(e.arg(0), a, b)
    if k == z3.Z3_OP_ADD:
        cs = e.children()
        hv = [c for c in cs if has(c, V)]
        if len(hv) != 1: return None
        d = delta(hv[0], V)
        if d is None: return None
        for c in cs:
            if c is not hv[0] and c.get_id() != hv[0].get_id(): d = d + c
        return d
    if k == z3.Z3_OP_SUB:
        cs = e.children()
        if has(cs[0], V) and not any(has(c, V) for c in cs[1:]):
            d = delta(cs[0], V)
            if d is None: return None
            for c in cs[1:]: d = d - c
            return d
        return None
    if k == z3.Z3_OP_TO_REAL and V.sort() == INT: return None
    return None


class Carry:
    """a loop-carried scalar location"""
    def __init__(self, kind, key, init, const): self.kind, self.key, self.init, self.const = kind, key, init, const


def numlike(v):
    return is_num(v) and not isinstance(v, bool) and not is_sbool(v) and not (isinstance(v, float) and (v != v or infconst(v)))


def for_symbolic(eng, node, st, it):
    from .core import Out, ON, NORMAL, RAISE, RETURN, BREAK, CONTINUE
    k = fresh("k")
    n = rv(it.n)
    guard = [k >= 0, k < n]
    if it.mask is not None: guard.append(bz(it.mask(k)))
    written = assigned_names(node.body) | assigned_names([ast.Expr(node.target)] if False else [])
    tnames = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
    heapw, attrw = set(), {}       # heap ids written; instance attrs written {id: {attr}}
    realish, realarr = set(), set()
    inplace = written - rebound_names(node.body)
    for attempt in range(12):
        s = st.fork()
        s.pc = list(st.pc) + guard
        s.ghost["binders"] = st.ghost.get("binders", ()) + (k,)
        carries, locarr = [], []
        for nm in sorted(written - tnames):
            v0 = st.frame.vars.get(nm)
            if nm in st.frame.vars and numlike(v0):
                real = dt_real(v0) or ("l", nm) in realish
                c = fresh("carry_" + nm, REAL if real else INT)
                s.frame.vars[nm] = c
                carries.append(Carry("l", nm, v0, c))
            elif nm in st.frame.vars and (isinstance(v0, bool) or is_sbool(v0)):
                c = fresh("carry_" + nm, BOOL)
                s.frame.vars[nm] = c
                carries.append(Carry("l", nm, v0, c))
            elif isinstance(v0, Ref) and isinstance(st.heap.get(v0.id), HArr) and not st.heap[v0.id].arr.islist and nm in inplace:
                pass                    # only updated in place: the same array throughout
            elif isinstance(v0, Ref) and isinstance(st.heap.get(v0.id), HArr) and not st.heap[v0.id].arr.islist and st.heap[v0.id].arr.mask is None and st.heap[v0.id].arr.dtype in ("int", "float", "bool"):
                # an array rebound in the loop: unknown elements at iteration start
                a = st.heap[v0.id].arr
                sort = {"int": INT, "float": REAL, "bool": BOOL}[a.dtype] if nm not in realarr else REAL
                bs = s.ghost["binders"]
                F = fresh_fun("arr", *([INT] * (len(bs) + len(a.shape)) + [sort]))
                used = []
                s.frame.vars[nm] = s.alloc(HArr(a.like(lambda *i, F=F, bs=bs, used=used: used.append(1) or F(*(list(bs) + [rv(x) for x in i])), dtype="float" if sort == REAL else a.dtype)))
                locarr.append((nm, v0, a, F, bs, sort, used))
            elif nm in st.frame.vars and isinstance(v0, Ref):
                # a local rebound in the loop; unknown at iteration start
                s.frame.vars[nm] = Poison("loop-carried reference %s" % nm)
                carries.append(Carry("lr", nm, v0, None))
            else:
                s.frame.vars[nm] = Poison("loop-carried %s" % nm)
                carries.append(Carry("lr", nm, v0, None))
        accs, arrw = {}, {}
        for hid in sorted(heapw):
            rec = st.heap[hid]
            if isinstance(rec, (HList, HFam, HSet)) or (isinstance(rec, HArr) and rec.arr.islist): s.heap[hid] = HAcc(rec); accs[hid] = rec
            elif isinstance(rec, (HDict,)): s.heap[hid] = HDictAcc(rec); accs[hid] = rec
            elif isinstance(rec, (HAcc, HDictAcc)):
                s.heap[hid] = type(rec)(rec, ()); accs[hid] = rec
            elif isinstance(rec, HArr):
                a = rec.arr
                sort = {"int": INT, "float": REAL, "bool": BOOL}.get(a.dtype)
                if sort is None: sort = U
                nd = len(a.shape)
                bs = s.ghost["binders"]
                F = fresh_fun("arr", *([INT] * (len(bs) + nd) + [sort]))
                arrw[hid] = (a, F, bs, sort)
                s.heap[hid] = HArr(a.like(lambda *i, F=F, bs=bs: F(*(list(bs) + [rv(x) for x in i]))))
            else:
                raise Unsupported("loop writes %r" % (rec,))
        for hid, names in attrw.items():
            rec = s.heap[hid]
            at = dict(rec.attrs)
            for nm in sorted(names):
                v0 = at.get(nm)
                if nm in at and numlike(v0):
                    c = fresh("carry_" + nm, REAL if dt_real(v0) or ("a", hid, nm) in realish else INT)
                    at[nm] = c; carries.append(Carry("a", (hid, nm), v0, c))
                elif nm in at and (isinstance(v0, bool) or is_sbool(v0)):
                    c = fresh("carry_" + nm, BOOL); at[nm] = c
                    carries.append(Carry("a", (hid, nm), v0, c))
                else:
                    at[nm] = Poison("loop-carried attribute %s" % nm)
                    carries.append(Carry("ar", (hid, nm), v0, None))
            s.heap[hid] = HInst(rec.cls, at)
        base = s.fork()
        npc = len(s.pc)
        nev = len(s.events)
        def bind(s2):
            eng.assign(node.target, it.val(k), s2)
        outs = []
        try:
            for s1, o1 in eng.run(bind, s):
                if o1.kind != NORMAL: outs.append((s1, o1)); continue
                outs.extend(eng.exec_block(node.body, s1))
        except NeedAcc as e:
            if e.hid in heapw: raise Unsupported("loop-carried object read")
            heapw.add(e.hid); continue
        # newly discovered writes
        more = False
        for s2, o in outs:
            for hid, rec in s2.heap.items():
                if hid not in base.heap: continue
                b = base.heap[hid]
                if rec is b: continue
                if isinstance(rec, HInst) and isinstance(b, HInst):
                    for nm in rec.attrs:
                        if nm not in b.attrs or not ops_same(rec.attrs[nm], b.attrs[nm]):
                            if nm not in attrw.get(hid, ()):
                                attrw.setdefault(hid, set()).add(nm); more = True
                elif hid not in heapw:
                    heapw.add(hid); more = True
        if more: continue
        # sort promotion of carries
        for c in carries:
            if c.const is None or c.const.sort() != INT: continue
            for s2, o in outs:
                v = carry_val(c, s2)
                if dt_real(v): realish.add((c.kind,) + ((c.key,) if c.kind == "l" else c.key)); more = True
        for nm, v0, a, F, bs, sort, used in locarr:
            for s2, o in outs:
                x = s2.frame.vars.get(nm)
                if sort == INT and isinstance(x, Ref) and isinstance(s2.heap.get(x.id), HArr) and s2.heap[x.id].arr.dtype == "float": realarr.add(nm); more = True
        if more: continue
        break
    else:
        raise Unsupported("loop write set did not stabilise")

    normal = [(s2, o) for s2, o in outs if o.kind in (NORMAL, CONTINUE)]
    brk = [(s2, o) for s2, o in outs if o.kind == BREAK]
    other = [(s2, o) for s2, o in outs if o.kind in (RAISE, RETURN)]
    if brk: return loop_break(eng, node, st, it, k, n, guard, outs)
    results = []
    if other:
        carried_used = [c.const for c in carries if c.const is not None]
        for s2, o in other:
            # leaves the loop at some iteration k; valid only if the state does not depend on carried values
            bad = any(has_any(x, carried_used) for x in s2.pc[npc:]) or accs or arrw
            s3 = s2
            if bad and o.kind == RETURN: raise Unsupported("return inside a loop with carried state")
            suf = bz(And(*s2.pc[npc:]))
            others = bz(Or(*[bz(And(*x.pc[npc:])) for x, _ in other]))
            if not any(has_any(x.pc[i], carried_used) for x, _ in other for i in range(npc, len(x.pc))):
                t = fresh("t")
                s3.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < k, *( [bz(it.mask(t))] if it.mask else [])),
                                                    z3.Not(z3.substitute(others, (k, t))))))
            s3.ghost["binders"] = st.ghost.get("binders", ())
            if o.kind == RAISE and bad: s3.ghost["approx"] = True
            results.append((s3, o))
    if not normal:
        z = st.fork(); z.pc.append(n == 0 if it.mask is None else bz(z3.BoolVal(True)))
        if eng.feasible(z.pc): results.append((z, ON))
        return results
    merged = eng.merge_group(base, [s2 for s2, _ in normal])
    if len(merged) != 1:
        # objects built within the body under names of its own end with the iteration
        for s2, _ in normal:
            for nm, x in list(s2.frame.vars.items()):
                if isinstance(x, Ref) and x.id not in base.heap and (nm not in base.frame.vars or isinstance(base.frame.vars[nm], Poison)): s2.frame.vars[nm] = Poison("value of %s after the iteration" % nm)
        merged = eng.merge_group(base, [s2 for s2, _ in normal])
    if len(merged) != 1: raise Unsupported("loop body paths do not merge")
    m = merged[0]
    # ---- closed forms of carried scalars
    from .sums import ssum, has
    closed = {}           # const -> expression in k (value at start of iteration k)
    final = {}
    pending = [c for c in carries if c.const is not None]
    fs = st.fork(); fs.pc = list(st.pc) + [g for g in guard]
    starts = {}
    progress = True
    while pending and progress:
        progress = False
        for c in list(pending):
            v = carry_val(c, m)
            others = [x.const for x in pending if x is not c]
            if isinstance(v, Poison): pending.remove(c); final[c] = v; progress = True; continue
            if is_z3(v): v = z3.substitute(v, *[(a, b) for a, b in closed.items()]) if closed else v
            zc = c.const
            if not is_z3(v) or not has(v, zc):
                if is_z3(v) and has_any(v, others): continue
                # shift pattern: value at start of iteration k is e(k-1)
                if it.mask is None:
                    init = coerce(c.init, zc.sort())
                    zv = coerce(v, zc.sort())
                    prev = z3.substitute(zv, (k, k - 1))
                    closed[zc] = z3.If(k == 0, init, prev)
                    final[c] = z3.If(n == 0, init, z3.substitute(zv, (k, n - 1)))
                    pending.remove(c); progress = True
                    continue
                if is_z3(v) and not has(v, k) or not is_z3(v):
                    pass
                continue
            if zc.sort() == BOOL:
                d = bool_acc(eng, fs, v, zc)
                if d is None or has_any(d[1], others) or has(d[1], zc): continue
                t = fresh("t")
                mk = [bz(it.mask(t))] if it.mask else []
                def quant(up, d=d, t=t, mk=mk):
                    body = z3.substitute(d[1], (k, t))
                    r = z3.And(t >= 0, t < up, *mk)
                    return z3.Exists([t], z3.And(r, body)) if d[0] == "or" else z3.ForAll([t], z3.Implies(r, body))
                ini = bz(c.init)
                mkv = (lambda q: z3.Or(ini, q)) if d[0] == "or" else (lambda q: z3.And(ini, q))
                closed[zc] = mkv(quant(k)); final[c] = mkv(quant(n))
                pending.remove(c); progress = True
                continue
            rs = reset_split(eng, st, v, zc, c) if it.mask is None else None
            if rs is not None and not has_any(rs[0], others):
                g, body = rs
                start = start_fun(st, g, k, n, starts)
                d = delta(body, zc)
                if d is not None and not has(d, zc) and not has_any(d, others):
                    if d.sort() != zc.sort(): d = rr(d)
                    dfn = lambda b, d=d: z3.substitute(d, (k, b))
                    init = coerce(c.init, zc.sort())
                    closed[zc] = init + coerce(ssum(eng, fs_with(fs, start(k) <= k), dfn, start(k), k), zc.sort())
                    final[c] = init + coerce(ssum(eng, fs_with(st, start(n) <= n), dfn, start(n), n), zc.sort())
                    pending.remove(c); progress = True
                    continue
                mmf = minmax_acc(eng, st, body, zc, k, n, guard, it, c, start)
                if mmf is not None and not has_any(mmf[0], others):
                    closed[zc], final[c] = mmf[1], mmf[2]
                    pending.remove(c); progress = True
                continue
            d = delta(v, zc)
            if d is None or has(d, zc):
                mmf = minmax_acc(eng, st, v, zc, k, n, guard, it, c)
                if mmf is not None and not has_any(mmf[0], others):
                    closed[zc], final[c] = mmf[1], mmf[2]
                    pending.remove(c); progress = True
                continue
            if has_any(d, others): continue
            if d.sort() != zc.sort(): d = rr(d)
            dfn = lambda b, d=d: z3.substitute(d, (k, b))
            mask = it.mask
            init = coerce(c.init, zc.sort())
            closed[zc] = init + coerce(ssum(eng, fs, dfn, 0, k, mask), zc.sort())
            final[c] = init + coerce(ssum(eng, st, dfn, 0, n, mask), zc.sort())
            pending.remove(c); progress = True
    unresolved = [c.const for c in pending]
    for c in pending: final[c] = Poison("loop-carried value without a closed form")
    sub = list(closed.items())
    def close(v):
        if not sub: chk = v
        else: chk = subst_val(v, sub)
        if unresolved and val_has(chk, unresolved): raise Unsupported("value depends on an unresolved loop-carried variable")
        return chk
    res = st.fork()
    res.nid = max(res.nid, m.nid)
    # facts learned in the generic iteration
    for c in m.pc[npc:]:
        c2 = z3.substitute(c, *sub) if sub else c
        if not has_any(c2, unresolved):
            res.pc.append(z3.ForAll([k], z3.Implies(z3.And(*guard), c2)))
    # events
    for e in m.events[nev:]:
        data = close(e.data) if not isinstance(e.data, str) else e.data
        g = close(bz(e.guard))
        res.events.append(FamEvent(e.kind, data, bz(And(*(guard + [bz(g)]))), e.bound + (k,)))
    # appended lists
    for hid, rec0 in accs.items():
        rec = m.heap[hid]
        if isinstance(rec, HDictAcc):
            fams = list(getattr(rec0, "fams", ()))
            newf = []
            for (g, key, val, bound) in rec.items:
                newf.append((bz(And(*(guard + [bz(close(bz(g)))]))), close(key), close(freeze(eng, m, val, base)), bound + (k,)))
            if isinstance(rec0, HDictAcc):
                res.heap[hid] = HDictAcc(rec0.base, rec0.items + tuple(newf))
            else:
                res.heap[hid] = HDict(rec0.items, tuple(fams) + tuple(DFam(b, g, key, val) for g, key, val, b in newf))
            continue
        items = rec.items
        if isinstance(rec0, (HAcc, HFam)) or any(len(x) > 2 for x in items):
            # appended in a loop nested in this one: families over the loop variables
            new = tuple((bz(And(*(guard + [bz(close(bz(x[0])))]))), close(freeze(eng, m, x[1], base)), (x[2] if len(x) > 2 else ()) + (k,)) for x in items)
            if isinstance(rec0, HAcc): res.heap[hid] = HAcc(rec0.base, rec0.items + new)
            elif isinstance(rec0, HFam): res.heap[hid] = HFam(rec0.items + new)
            elif isinstance(rec0, HList) and not rec0.items: res.heap[hid] = HFam(new)
            else: raise Unsupported("nested appends to a non-empty list")
            continue
        basearr = rec0.arr if isinstance(rec0, HArr) else None
        if not items:
            res.heap[hid] = rec0; continue
        new = acc_array(eng, m, res, items, guard, k, n, it, close, base)
        if isinstance(rec0, HSet) or basearr is not None and basearr.dtype == "set":
            b = Arr(basearr.shape, basearr.fn, "obj", basearr.mask, islist=True) if basearr is not None else ops.to_nd_list(eng, res, list(rec0.items)) if rec0.items else None
            if b is not None:
                new = ops.concat(eng, res, [b, new], islist=True)
            res.heap[hid] = HArr(Arr(new.shape, new.fn, "set", new.mask, islist=True))
            continue
        if isinstance(rec0, HList) and not rec0.items: res.heap[hid] = HArr(new)
        else:
            b = basearr if basearr is not None else ops.to_nd_list(eng, res, list(rec0.items))
            if new.mask is not None: raise Unsupported("filtered append to a non-empty list")
            res.heap[hid] = HArr(ops.concat(eng, res, [b, new], islist=True))
    # arrays
    for hid, (a0, F, bs, sort) in arrw.items():
        res.heap[hid] = HArr(array_summary(eng, st, res, m, base, hid, a0, F, bs, sort, k, n, guard, it, close))
    for nm, v0, a0, F, bs, sort, used in locarr:
        x = m.frame.vars.get(nm)
        rec = m.heap.get(x.id) if isinstance(x, Ref) else None
        try:
            if not isinstance(rec, HArr) or rec.arr.islist or rec.arr.mask is not None: raise Unsupported("rebound array")
            if len(rec.arr.shape) != len(a0.shape) or not all(eng.entails(list(res.pc) + guard, rv(p) == rv(q)) for p, q in zip(rec.arr.shape, a0.shape)): raise Unsupported("array reshaped in a loop")
            a1 = a0.like(a0.fn, "float") if sort == REAL else a0
            v = res.alloc(HArr(array_summary(eng, st, res, m, base, x.id, a1, F, bs, sort, k, n, guard, it, close)))
        except Unsupported as e:
            if used: raise
            v = last_value(eng, st, m, Carry("lr", nm, v0, None), k, n, it, close, base)
        res.frame.vars[nm] = v
    # scalars
    for c in carries:
        v = final.get(c)
        if c.const is None:
            v = last_value(eng, st, m, c, k, n, it, close, base)
        if isinstance(v, z3.ExprRef): v = conc(z3.simplify(v)) if not z3.is_quantifier(v) else v
        if c.kind in ("l", "lr"):
            res.frame.vars[c.key] = v
        else:
            hid, nm = c.key
            rec = res.heap[hid]
            at = dict(rec.attrs); at[nm] = v
            res.heap[hid] = HInst(rec.cls, at)
    for nm in tnames:
        try:
            res.frame.vars[nm] = subst_val(m.frame.vars[nm], [(k, n - 1)]) if it.mask is None and eng.entails(st.pc, n > 0) \
                and nm in m.frame.vars and not isinstance(m.frame.vars[nm], (Ref,)) else Poison("loop target after loop")
        except Unsupported:
            res.frame.vars[nm] = Poison("loop target")
    # new heap objects created inside the body and reachable only from poisoned locals are dropped
    if other:
        for s2, o in other:
            suf = bz(And(*s2.pc[npc:]))
            suf = z3.substitute(suf, *sub) if sub else suf
            if not has_any(suf, unresolved):
                res.pc.append(z3.ForAll([k], z3.Implies(z3.And(*guard), z3.Not(suf))))
    results.append((res, ON))
    if node.orelse:
        out2 = []
        for s2, o in results:
            if o.kind == NORMAL: out2.extend(eng.exec_block(node.orelse, s2))
            else: out2.append((s2, o))
        results = out2
    return results


class NeedAcc(Exception):
    def __init__(self, hid): self.hid = hid


def ops_same(a, b):
    from .core import same
    return same(a, b)


def dt_real(v):
    return isinstance(v, float) or (is_z3(v) and v.sort() == REAL) or (not isinstance(v, (int, bool)) and v.__class__.__name__ == "Fraction")


def coerce(v, sort):
    if sort == BOOL: return bz(v)
    v = rv(v)
    return rr(v) if sort == REAL else v


def carry_val(c, s):
    if c.kind in ("l", "lr"): return s.frame.vars.get(c.key, Poison("unset"))
    hid, nm = c.key
    return s.heap[hid].attrs.get(nm, Poison("unset"))


def has_any(e, xs):
    from .sums import has
    if not is_z3(e): return False
    return any(has(e, x) for x in xs)


def val_has(v, xs):
    if is_z3(v): return has_any(v, xs)
    if isinstance(v, tuple): return any(val_has(x, xs) for x in v)
    if isinstance(v, Fl): return val_has(v.r, xs) or val_has(v.nan, xs)
    if isinstance(v, Arr):
        try:
            i = [fresh("vh") for _ in v.shape]
            return val_has(v.fn(*i), xs) or any(val_has(rv(d), xs) for d in v.shape) or \
                (v.mask is not None and val_has(bz(v.mask(i[0])), xs))
        except Unsupported:
            return True
    return False


def bool_acc(eng, st, v, V):
    """v == V or d / v == V and d"""
    t = z3.simplify(z3.substitute(v, (V, z3.BoolVal(True))))
    f = z3.simplify(z3.substitute(v, (V, z3.BoolVal(False))))
    if z3.is_true(t) or eng.entails(st.pc, t): return ("or", f)
    if z3.is_false(f) or eng.entails(st.pc, z3.Not(f)): return ("and", t)
    return None


def fs_with(st, *conds):
    s = st.fork(); s.pc = list(st.pc) + list(conds)
    return s


def reset_split(eng, st, v, V, c):
    """v == if g then init else body(V): (g, body)"""
    from .sums import has
    if not z3.is_app_of(v, z3.Z3_OP_ITE) or has(v.arg(0), V): return None
    g, a, b = v.children()
    if has(a, V) and has(b, V) or not (has(a, V) or has(b, V)): return None
    g, r, body = (g, a, b) if has(b, V) else (z3.Not(g), b, a)
    if not eng.entails(st.pc, r == coerce(c.init, V.sort())): return None
    return g, body


def start_fun(st, g, k, n, starts):
    """start(u): first iteration after the last one before u in which g held (0 if none): the accumulator's window is [start(u), u)"""
    key = z3.simplify(g).sexpr()
    if key in starts: return starts[key]
    F = fresh_fun("start", INT, INT)
    u, t = fresh("u"), fresh("t")
    at = lambda x: z3.substitute(g, (k, x))
    st.pc.append(F(0) == 0)
    st.pc.append(z3.ForAll([u], z3.Implies(z3.And(u >= 0, u <= n), z3.And(F(u) >= 0, F(u) <= u, z3.Or(F(u) == 0, at(F(u) - 1)))), patterns=[F(u)]))
    st.pc.append(z3.ForAll([u, t], z3.Implies(z3.And(u >= 0, u <= n, F(u) <= t, t < u), z3.Not(at(t)))))
    st.ghost.setdefault("starts", []) if isinstance(st.ghost.get("starts"), list) else st.ghost.__setitem__("starts", [])
    st.ghost["starts"] = list(st.ghost["starts"]) + [(F, at)]
    starts[key] = F
    return F


def minmax_acc(eng, st, v, V, k, n, guard, it, c, start=None):
    """v == max(V, e(k)) or min(V, e(k))"""
    from .sums import has
    # solve by probing: v at V := very small / very large is not definable; look for ite(cmp(e,V), e, V)
    if not (z3.is_app_of(v, z3.Z3_OP_ITE)): return None
    c0, a, b = v.children()
    for e, keep in ((a, b), (b, a)):
        if keep.get_id() == V.get_id() and not has(e, V):
            if eng.entails(list(st.pc) + guard, v == z3.If(V >= e, V, e)): kind = "max"
            elif eng.entails(list(st.pc) + guard, v == z3.If(V <= e, V, e)): kind = "min"
            else: continue
            M = fresh_fun("run" + kind, INT, V.sort())
            init = coerce(c.init, V.sort())
            t = fresh("t")
            mk = [bz(it.mask(t))] if it.mask else []
            et = z3.substitute(e, (k, t))
            for up in (k, n):
                pass
            u = fresh("u")
            rng = lambda up: z3.And(t >= (0 if start is None else start(up)), t < up, *mk)
            bound = (lambda up: z3.And(M(up) >= init, z3.ForAll([t], z3.Implies(rng(up), M(up) >= et)),
                     z3.Or(M(up) == init, z3.Exists([t], z3.And(rng(up), M(up) == et))))) if kind == "max" else \
                    (lambda up: z3.And(M(up) <= init, z3.ForAll([t], z3.Implies(rng(up), M(up) <= et)),
                     z3.Or(M(up) == init, z3.Exists([t], z3.And(rng(up), M(up) == et)))))
            st.pc.append(bound(n))
            st.pc.append(z3.ForAll([u], z3.Implies(z3.And(u >= 0, u <= n), bound(u)), patterns=[M(u)]))
            return (e, M(k), M(n))
    return None


def acc_array(eng, m, res, items, guard, k, n, it, close, base):
    """list built by appends of one iteration, as a symbolic sequence over iterations"""
    if len(items) == 1:
        g, v = items[0]
        g = close(bz(g)); v = close(freeze(eng, m, v, base))
        g = conc(z3.simplify(bz(g)))
        if g is not True:
            chk = eng.entails(list(res.pc) + guard, bz(g))
            if chk: g = True
        mask = it.mask
        if g is not True:
            if it.mask is None: mask = lambda i: subst_val(bz(g), [(k, rv(i))])
            else: mask = lambda i: bz(And(it.mask(i), subst_val(bz(g), [(k, rv(i))])))
        return Arr((conc(n),), lambda i: subst_val(v, [(k, rv(i))]), ops.dt_of(v), mask, islist=True)
    gs = [close(bz(g)) for g, _ in items]
    vs = [close(freeze(eng, m, v, base)) for _, v in items]
    if all(eng.entails(list(res.pc) + guard, bz(g)) for g in gs) and it.mask is None:
        q = len(items)
        def fn(i):
            i = conc(i)
            if isinstance(i, int): return subst_val(vs[i % q], [(k, rv(i // q))])
            vals = [subst_val(v, [(k, rv(i) / q)]) for v in vs]
            r = vals[-1]
            for j in range(q - 2, -1, -1):
                r = eng.merge_vals([vals[j], r], [rv(i) % q == j, z3.BoolVal(True)], [res, res])
            return r
        return Arr((z3.simplify(n * q),), fn, ops.promote([ops.dt_of(v) for v in vs]), islist=True)
    # mutually exclusive guards
    excl = all(eng.entails(list(res.pc) + guard, z3.Not(z3.And(gs[i], gs[j]))) for i in range(len(gs)) for j in range(i))
    if excl:
        g = bz(Or(*gs))
        v = vs[-1]
        for j in range(len(vs) - 2, -1, -1):
            v = eng.merge_vals([vs[j], v], [gs[j], z3.BoolVal(True)], [res, res])
        return acc_array(eng, m, res, [(g, v)], guard, k, n, it, lambda x: x, base)
    raise Unsupported("several conditional appends per iteration")


def last_value(eng, st, m, c, k, n, it, close, base):
    v = carry_val(c, m)
    if isinstance(v, Poison) or it.mask is not None: return Poison("value after loop")
    try:
        v = close(freeze(eng, m, v, base)) if not isinstance(v, Ref) or v.id in m.heap else v
        if isinstance(v, Ref): return Poison("reference after loop")
        if eng.entails(st.pc, n > 0): return subst_val(v, [(k, n - 1)])
        from .core import same
        if c.init is not None and same(v, c.init): return v
        if not isinstance(v, (tuple, Arr)) and is_num(v) and is_num(c.init) and c.init is not None:
            return z3.If(n > 0, coerce(subst_val(v, [(k, n - 1)]), rv(v).sort()), coerce(c.init, rv(v).sort()))
    except (Unsupported, z3.Z3Exception):
        pass
    return Poison("value after loop")


def array_summary(eng, st, res, m, base, hid, a0, F, bs, sort, k, n, guard, it, close):
    from .sums import has, ssum
    arr = m.heap[hid].arr
    if len(arr.shape) != len(a0.shape): raise Unsupported("array reshaped in a loop")
    nd = len(a0.shape)
    idx = [fresh("ai") for _ in range(nd)]
    E = arr.fn(*idx)
    isfl = isinstance(E, Fl)
    if isfl: raise Unsupported("NaN-carrying array written in loop")
    if not is_z3(E):
        E = rv(E) if sort != BOOL else bz(E)
    E = close(E)
    if not is_z3(E): E = rv(E)
    if sort == REAL: E = rr(E)
    cur = F(*(list(bs) + idx))
    rng = [And(*[z3.And(x >= 0, x < rv(d)) for x, d in zip(idx, a0.shape)])]
    hyp = list(res.pc) + guard + rng
    elem_sort = lambda v: (ops.u_of(v) if sort == U else coerce(v, sort))
    own = lambda ii: elem_sort(a0.fn(*ii))
    # (a) cell (k+c, ...) written by iteration k only
    for ax in range(nd):
        for c in (0, 1, -1, 2):
            at = idx[:]
            at[ax] = k + c
            if eng.entails(hyp + [idx[ax] != k + c], E == cur):
                e = z3.substitute(E, (idx[ax], k + c))
                # replace reads of the own cell by the initial value
                apps = find_apps(e, F)
                sub, bad = [], False
                for ap in apps:
                    ii = ap.children()[len(bs):]
                    same_cell = eng.entails(hyp, ii[ax] == k + c)
                    later = same_cell or eng.entails(hyp, ii[ax] > k + c)
                    if not later: bad = True; break
                    sub.append((ap, own(ii)))
                if bad: continue
                if sub: e = z3.substitute(e, *sub)
                # written on every iteration; untouched elsewhere
                def fn(*ii, ax=ax, c=c, e=e):
                    i = rv(ii[ax])
                    body = z3.substitute(e, *([(k, i - c)] + [(idx[j], rv(ii[j])) for j in range(nd) if j != ax]))
                    cond = z3.And(i >= c, i < n + c)
                    if it.mask is not None: cond = z3.And(cond, bz(it.mask(i - c)))
                    cond = z3.simplify(cond)
                    if z3.is_true(cond): return conc(z3.simplify(body)) if sort != U else body
                    return ops.mite(eng, res, cond, conc(z3.simplify(body)) if sort != U else body, a0.fn(*ii))
                return a0.like(fn)
    # (b) additive
    if sort in (INT, REAL):
        d = delta(E, cur)
        if d is not None and not find_apps(d, F):
            def fn(*ii):
                dd = z3.substitute(d, *[(x, rv(i)) for x, i in zip(idx, ii)])
                s = ssum(eng, st, lambda b: z3.substitute(dd, (k, b)), 0, n, it.mask)
                return ops.arith(eng, "+", a0.fn(*ii), s, res)
            return a0.like(fn)
    # (c) conditional overwrite independent of the array: last writer wins
    if z3.is_app_of(E, z3.Z3_OP_ITE):
        def prune(t):
            """(condition under which the cell is written, value written)"""
            if t.eq(cur): return z3.BoolVal(False), None
            if z3.is_app_of(t, z3.Z3_OP_ITE) and find_apps(t, F) and not find_apps(t.arg(0), F):
                c, (wa, va), (wb, vb) = t.arg(0), prune(t.arg(1)), prune(t.arg(2))
                if va is None and vb is None: return z3.BoolVal(False), None
                w = z3.And(c, wa) if vb is None else z3.And(z3.Not(c), wb) if va is None else z3.Or(z3.And(c, wa), z3.And(z3.Not(c), wb))
                return z3.simplify(w) if z3.is_true(wa) or z3.is_true(wb) else w, va if vb is None else vb if va is None else z3.If(c, va, vb)
            if find_apps(t, F): raise Unsupported("array recurrence")
            return z3.BoolVal(True), t
        cond, val = prune(E)
        if val is not None:
            bnd = list(bs[:-1])
            K = fresh_fun("lastw", *([INT] * (len(bnd) + nd) + [INT]))
            def at(ii, kk, e):
                return z3.substitute(e, *([(x, rv(i)) for x, i in zip(idx, ii)] + [(k, kk)]))
            Ki = K(*(bnd + idx))
            mk = (lambda x: [bz(it.mask(x))]) if it.mask else (lambda x: [])
            t = fresh("t")
            ax1 = z3.Or(z3.And(Ki >= 0, Ki < n, at(idx, Ki, cond), *mk(Ki)), Ki == -1)
            ax2 = z3.ForAll([t], z3.Implies(z3.And(t > Ki, t >= 0, t < n, *mk(t)), z3.Not(at(idx, t, cond))))
            res.pc.append(z3.ForAll(idx, z3.Implies(rng[0], z3.And(ax1, ax2)), patterns=[Ki]))
            def fn(*ii):
                kk = K(*(bnd + [rv(i) for i in ii]))
                return ops.mite(eng, res, kk >= 0, at(ii, kk, val), a0.fn(*ii))
            return a0.like(fn)
    raise Unsupported("array written in a loop in a form without an inferred invariant")


def find_apps(e, F):
    out, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().eq(F): out.append(t)
        if z3.is_quantifier(t): todo.append(t.body())
        else: todo.extend(t.children())
    return out


def loop_break(eng, node, st, it, k, n, guard, outs):
    raise Unsupported("break in a symbolic loop")


def while_loop(eng, node, st):
    """only loops that unroll to a concrete end"""
    from .core import Out, ON, NORMAL, RAISE, BREAK, CONTINUE
    states, done = [st], []
    for _ in range(64):
        nxt = []
        for s in states:
            for s2, o in eng.run(lambda s: Out("t" if eng.truth(eng.eval(node.test, s), s) else "f"), s):
                if o.kind == RAISE: done.append((s2, o)); continue
                if o.kind == "f": done.append((s2, ON)); continue
                for s3, o3 in eng.exec_block(node.body, s2):
                    if o3.kind in (NORMAL, CONTINUE): nxt.append(s3)
                    elif o3.kind == BREAK: done.append((s3, ON))
                    else: done.append((s3, o3))
        states = eng.merge_group(st, nxt) if len(nxt) > 1 else nxt
        if not states: break
        if len(states) > 40: raise Unsupported("while loop")
    else:
        raise Unsupported("while loop without a contract")
    return eng.merge_outs(st, done)


def contract_loop(eng, node, st, C, it=None):
    """a loop under a contract: the invariant is proved on entry and after every iteration, everything the loop changes is havocked in between.
    C.ctx; C.havoc(s, k) -> (names of locals, ids of heap objects) replaced in s; C.inv(s, k) -> [(name, formula)]; C.step(s0, s1, k) -> further obligations of an iteration; C.variant(s) (while loops)"""
    from .core import Out, ON, NORMAL, RAISE, RETURN, BREAK, CONTINUE
    if node.orelse: raise Unsupported("else clause of a loop under contract")
    if hasattr(C, "run"): return C.run(eng, node, st, it)
    k = n = None
    if it is not None:
        if it.mask is not None: raise Unsupported("loop contract over a filtered sequence")
        k, n = fresh("k"), rv(it.n)
    for nm, f in C.inv(st, z3.IntVal(0)): C.ctx.prove("%s: on entry: %s" % (C.name, nm), st.pc, f)
    head = st.fork()
    names, ids = C.havoc(head, k)
    if it is not None: head.pc += [k >= 0, k <= n]
    head.pc += [bz(f) for _, f in C.inv(head, k)]
    written = assigned_names(node.body) | ({x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)} if it is not None else set())
    for nm in written - set(names): head.frame.vars[nm] = Poison("local of a loop under contract")
    nev = len(head.events)
    exits, out = [], []
    if it is None:
        tests = eng.run(lambda s: Out("t" if eng.truth(eng.eval(node.test, s), s) else "f"), head)
    else:
        a, b = head.fork(), head.fork()
        a.pc = a.pc + [k < n]; b.pc = b.pc + [k == n]
        tests = []
        for s2, o in eng.run(lambda s: eng.assign(node.target, it.val(k), s), a): tests.append((s2, Out("t") if o.kind == NORMAL else o))
        tests.append((b, Out("f")))
    for s, o in tests:
        if o.kind == RAISE: out.append((s, o)); continue
        if o.kind == "f": exits.append((s, ON)); continue
        start = s.fork()
        for s2, o2 in eng.exec_block(node.body, s):
            if o2.kind in (NORMAL, CONTINUE):
                for hid, rec in head.heap.items():
                    if hid not in ids and hid in s2.heap and not ops_same(rec, s2.heap[hid]): raise Unsupported("a loop under contract changes an object its contract does not name")
                k1 = None if k is None else k + 1
                for nm, f in list(C.inv(s2, k1)) + list(C.step(start, s2, k)): C.ctx.prove("%s: kept by an iteration: %s" % (C.name, nm), s2.pc, f)
                if it is None and C.variant(start) is not None:
                    C.ctx.prove("%s: the variant is bounded and decreases" % C.name, s2.pc, z3.And(C.variant(start) >= 0, C.variant(s2) < C.variant(start)))
            elif o2.kind == BREAK: out.append((s2, ON))
            else: out.append((s2, o2))
    return exits + out


def list_append(eng, st, ref, v):
    r = st.get(ref)
    if isinstance(r, HAcc):
        st.put(ref, HAcc(r.base, r.items + ((z3.BoolVal(True), v),)))
        return None
    if isinstance(r, HList):
        st.put(ref, HList(r.items + (v,)))
        return None
    if isinstance(r, HArr) and r.arr.islist and r.arr.dtype != "set":
        st.put(ref, HArr(ops.concat(eng, st, [r.arr, ops.to_nd_list(eng, st, [freeze(eng, st, v, None)])], islist=True)))
        return None
    raise Unsupported("append")


def dict_symbolic_store(eng, o, k, v, st):
    r = st.get(o)
    if isinstance(r, HDictAcc):
        key = k if isinstance(k, tuple) else (k,)
        st.put(o, HDictAcc(r.base, r.items + ((z3.BoolVal(True), key, v, ()),)))
        return
    raise NeedAcc(o.id)
