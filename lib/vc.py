"""Helpers to write contracts: symbolic inputs, running a function of /repo on all paths, stating obligations."""
import z3
from pyvc.core import Engine
from pyvc.values import *
from pyvc import ops, sums, models, npmodels, prove
from pyvc.models import uf

LN, EXP, SQRT = npmodels.LN, npmodels.EXP, npmodels.SQRT


class VC:
    def __init__(self, ctx, **opts):
        self.ctx = ctx
        self.eng = Engine()
        self.eng.opts.update(opts)
        self.st = self.eng.start()

    # ---- inputs
    def int(self, name, *cond):
        v = z3.Int(name)
        for c in cond: self.st.assume(c(v))
        return v
    def real(self, name, *cond):
        v = z3.Real(name)
        for c in cond: self.st.assume(c(v))
        return v
    def bool(self, name): return z3.Bool(name)

    def fun(self, name, sort=REAL, *doms): return z3.Function(name, *((doms or (INT,)) + (sort,)))

    def arr(self, n, f, dtype=None, cond=None, islist=False, nan=None, st=None):
        """array of length n with elements f(i); cond(i) is assumed for every index; nan(i): NaN condition"""
        st = st or self.st
        s = f(z3.IntVal(0)).sort() if callable(f) else None
        dt = dtype or ("float" if s == REAL else "int" if s == INT else "bool" if s == BOOL else "obj")
        fn = (lambda i: Fl(f(rv(i)), nan(rv(i)))) if nan is not None else (lambda i: f(rv(i)))
        if cond is not None: self.all(n, cond, st)
        return st.alloc(HArr(Arr((n,), fn, dt, islist=islist)))

    def arr2(self, n, m, f, dtype=None, cond=None, st=None):
        st = st or self.st
        s = f(z3.IntVal(0), z3.IntVal(0)).sort()
        dt = dtype or ("float" if s == REAL else "int" if s == INT else "bool" if s == BOOL else "obj")
        return st.alloc(HArr(Arr((n, m), lambda i, j: f(rv(i), rv(j)), dt)))

    def all(self, n, cond, st=None):
        i = fresh("i")
        c = cond(i)
        if c is True: return
        (st or self.st).assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rv(n)), c)))

    def list(self, items, st=None): return (st or self.st).alloc(HList(items))
    def obj(self, cls, attrs, st=None):
        """instance of a class of /repo with the given attributes (constructor not run)"""
        m, c = cls.split(":")
        return (st or self.st).alloc(HInst(self.eng.module(m).lookup(c), dict(attrs, **{"!partial": True})))

    # ---- running
    def run(self, f, args=(), kw=None, st=None):
        st = (st or self.st).fork()
        fv = self.eng.func(f) if isinstance(f, str) else f
        if isinstance(f, str): self.ctx.function(f)
        return self.eng.call_multi(fv, list(args), dict(kw or {}), st)

    def method(self, obj, name, args=(), kw=None, st=None):
        st = (st or self.st).fork()
        return self.eng.call_multi(self.eng.getattr(obj, name, st), list(args), dict(kw or {}), st)

    def returns(self, label, outs, ok=("return",), timeout=5000):
        """every path returns (a raising path must be infeasible); yields the returning ones"""
        res = []
        for s, o in outs:
            if o.kind in ok or (o.kind == "normal"): res.append((s, o.val)); continue
            self.ctx.prove("%s: no %s raised (%s)" % (label, o.val.etype, (o.val.msg or "")[:40]), s.pc, z3.BoolVal(False), timeout=timeout)
        if not res: self.ctx.fact("%s: returns" % label, False)
        return res

    # ---- values
    def get(self, s, v, *idx):
        a = self.eng.as_arr(v, s)
        if a is None:
            it = self.eng.as_items(v, s)
            return it[idx[0]] if len(idx) == 1 else self.get(s, it[idx[0]], *idx[1:])
        return a.fn(*idx)
    def shape(self, s, v): return self.eng.as_arr(v, s).shape
    def attr(self, s, o, name): return self.eng.getattr(o, name, s)
    def sum(self, s, f, lo, hi, mask=None): return sums.ssum(self.eng, s, f, lo, hi, mask)
    def sum_atom(self, s, f, n):
        """(t, law): t denotes sum_{b<n} f(b) as one prefix sum; law: linearity links it to the decomposed form"""
        b = fresh("sb")         # not B0 itself: f may hold further sums
        t = sums.atom(self.eng, s.pc, z3.substitute(rv(f(b)), (b, sums.B0)), rv(0), rv(n))
        return t, rr(t) == rr(self.sum(s, f, 0, n))
    def div(self, a, b): return rr(a) / rr(b)

    def eq(self, a, b):
        """equality of scalar values as formula (NaN equals NaN)"""
        if isinstance(a, Fl) or isinstance(b, Fl):
            (ra, na), (rb, nb) = ops.fl_parts(a), ops.fl_parts(b)
            return bz(And(bz(na) == bz(nb), Or(na, self.eq(ra, rb))))
        if is_z3(a) and a.sort() == U or is_z3(b) and b.sort() == U: return ops.u_of(a) == ops.u_of(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str): return z3.BoolVal(type(a) is type(b) and a == b)
        x, y = rv(a), rv(b)
        if x.sort() != y.sort(): x, y = rr(x), rr(y)
        return x == y

    def prove(self, name, s, goal, extra=(), **kw):
        return self.ctx.prove(name, list(s.pc) + list(extra), goal, **kw)

    def witness(self, s):
        """skolem constants of the path condition's existential facts, and those facts for the constants"""
        cs, hyp = [], []
        for f in s.pc:
            if z3.is_quantifier(f) and not f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == INT:
                c = fresh("wit"); cs.append(c); hyp.append(z3.substitute_vars(f.body(), c))
        return cs, hyp

    def done(self): self.ctx.used(self.eng)


def xlogy(x, y): return z3.If(rr(x) == 0, z3.RealVal(0), rr(x) * LN(rr(y)))


def capture(v, dotted, ret=None):
    """replace a function of /repo by a recorder of its (name -> value) arguments; returns the list of calls.
    ret(eng, st, named) gives the value it returns (default: an opaque value)"""
    m, f = dotted.split(":")
    node = v.eng.func(dotted).node
    names = [a.arg for a in node.args.posonlyargs + node.args.args]
    calls = []

    def c(eng, st, args, kw):
        d = dict(zip(names, args)); d.update(kw)
        calls.append(d)
        return Opaque(f) if ret is None else ret(eng, st, d)
    v.eng.contracts[m + "." + f] = c
    return calls
