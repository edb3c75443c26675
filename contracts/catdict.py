"""The dictionary category -> [non-events, events] (optbinning/binning/distributed/bsketch.py, BCatSketch) as seen by contracts:
dom(c), ne(c), e(c) and the totals over the stored categories; the lists inside are cells of the dictionary."""
import z3
from lib.vc import *
from pyvc.values import PyVal, SliceVal


def new(st, name, **tot):
    D, N, E = fresh_fun(name + "_dom", U, BOOL), fresh_fun(name + "_ne", U, INT), fresh_fun(name + "_e", U, INT)
    at = {"dom": lambda c: D(c), "ne": lambda c: N(c), "e": lambda c: E(c), "Tne": fresh(name + "_total_ne"), "Te": fresh(name + "_total_e"), "epoch": 0, "enum": None}
    ref = st.alloc(HInst("CatDict", at))
    for f in well(st, ref): st.assume(f)
    return ref


def empty(st):
    z = z3.IntVal(0)
    return st.alloc(HInst("CatDict", {"dom": lambda c: z3.BoolVal(False), "ne": lambda c: z, "e": lambda c: z, "Tne": z, "Te": z, "epoch": 0, "enum": None}))


def well(st, ref):
    r = st.get(ref).attrs
    c = fresh("c", U)
    return [z3.ForAll([c], z3.And(r["ne"](c) >= 0, r["e"](c) >= 0, z3.Implies(z3.Not(r["dom"](c)), z3.And(r["ne"](c) == 0, r["e"](c) == 0)), z3.Implies(r["dom"](c), r["ne"](c) + r["e"](c) >= 1)))]


def havoc(st, ref, totals=None):
    D, N, E = fresh_fun("h_dom", U, BOOL), fresh_fun("h_ne", U, INT), fresh_fun("h_e", U, INT)
    st.put(ref, HInst("CatDict", {"dom": lambda c: D(c), "ne": lambda c: N(c), "e": lambda c: E(c), "Tne": fresh("h_total_ne"), "Te": fresh("h_total_e"), "epoch": st.get(ref).attrs["epoch"], "enum": None}))


F = ("ne", "e")


def enumeration(st, ref):
    """an enumeration of the stored categories: key(t) for t < size, pos its inverse; the totals are the sums over it"""
    r = st.get(ref).attrs
    if r["enum"] is not None: return r["enum"]
    key, pos, n = fresh_fun("key", INT, U), fresh_fun("pos", U, INT), fresh("size")
    t, c = fresh("t"), fresh("c", U)
    st.assume(n >= 0)
    st.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), z3.And(r["dom"](key(t)), pos(key(t)) == t)), patterns=[key(t)]))
    st.assume(z3.ForAll([c], z3.Implies(r["dom"](c), z3.And(pos(c) >= 0, pos(c) < n, key(pos(c)) == c)), patterns=[pos(c)]))
    en = (key, pos, n)
    st.put(ref, HInst("CatDict", dict(r, enum=en)))
    return en


def uc(c):
    if is_z3(c) and c.sort() == U: return c
    raise Unsupported("category %r" % (c,))


def cget(st, d, c, i):
    i = conc(i)
    r = st.get(d).attrs
    if isinstance(i, int) and i in (0, 1, -1, -2): return r[F[i]](c)
    if isinstance(i, SliceVal) and i.lo is None and i.hi is None and i.step is None: return st.alloc(HList((r["ne"](c), r["e"](c))))
    raise Unsupported("index %r" % (i,))


def cset(st, d, c, i, y):
    i, y = conc(i), rv(y)
    if not (isinstance(i, int) and i in (0, 1, -1, -2)) or y.sort() != INT: raise Unsupported("store of a count")
    f = F[i]
    r = dict(st.get(d).attrs)
    old = r[f]
    r[f] = lambda q: z3.If(q == c, y, old(q))
    r["T" + f] = r["T" + f] + y - old(c)
    st.put(d, HInst("CatDict", r))


class Cell(PyVal):
    """the list stored for a category; unusable after the next store into the dictionary"""
    def __init__(self, d, c, epoch): self.d, self.c, self.epoch = d, c, epoch
    def chk(self, st):
        if st.get(self.d).attrs["epoch"] != self.epoch: raise Unsupported("list of a category held across a store")
    def subst(self, sub, f): return Cell(self.d, f(self.c, sub), self.epoch)
    def same(self, o): return isinstance(o, Cell) and o.d == self.d and o.c.eq(self.c) and o.epoch == self.epoch
    def getitem(self, eng, st, i): self.chk(st); return cget(st, self.d, self.c, i)
    def setitem(self, eng, st, i, v): self.chk(st); cset(st, self.d, self.c, i, v)
    def iter(self, eng, st): self.chk(st); return [cget(st, self.d, self.c, i) for i in (0, 1)]
    def length(self, eng, st): return 2
    def getattr(self, eng, st, name):
        if name == "copy": return lambda e, s, a, k: s.alloc(HList(self.iter(e, s)))
        raise Unsupported("attribute %s of a list of counts" % name)


def install(v, alias):
    """alias(st, list, guard): a list held elsewhere is stored"""
    m = v.eng.methods

    def at(st, d, c): return Cell(d, c, st.get(d).attrs["epoch"])
    def contains(eng, st, a, k): return st.get(a[0]).attrs["dom"](uc(a[1]))
    def getitem(eng, st, a, k):
        c = uc(a[1])
        if not eng.decide(st.get(a[0]).attrs["dom"](c), st): raise PyRaise("KeyError")
        return at(st, a[0], c)
    def setitem(eng, st, a, k):
        d, c, val = a[0], uc(a[1]), a[2]
        mine = isinstance(val, Ref) and not isinstance(st.get(val), HInst)
        if isinstance(val, Cell): alias(st, val); x = val.iter(eng, st)
        elif mine: x = eng.as_items(val, st)
        else: raise Unsupported("stored value %r" % (val,))
        if x is None or len(x) != 2: raise Unsupported("stored list")
        r = dict(st.get(d).attrs)
        for f, y in zip(F, x):
            old, y = r[f], rv(y)
            if y.sort() != INT: raise Unsupported("count %s" % y)
            r[f] = (lambda old, y: lambda q: z3.If(q == c, y, old(q)))(old, y)
            r["T" + f] = r["T" + f] + y - old(c)
        dom = r["dom"]
        r["dom"] = lambda q: z3.Or(q == c, dom(q))
        r["epoch"], r["enum"] = r["epoch"] + 1, None
        st.put(d, HInst("CatDict", r))
        if mine: st.put(val, HInst("CatCell", {"cell": at(st, d, c)}))
    def items(kind):
        def g(eng, st, a, k):
            d = a[0]
            key, pos, n = enumeration(st, d)
            r = st.get(d).attrs
            for f in F: st.assume(rv(v.sum(st, lambda b, f=f: r[f](key(rv(b))), 0, n)) == r["T" + f])
            def val(t):
                c = key(rv(t))
                return c if kind == "keys" else at_(c) if kind == "values" else (c, at_(c))
            at_ = lambda c, ep=r["epoch"]: Cell(d, c, ep)
            return ops.SymIter(n, val)
        return g
    def get(eng, st, a, k):
        c = uc(a[1])
        if eng.decide(st.get(a[0]).attrs["dom"](c), st): return at(st, a[0], c)
        return a[2] if len(a) > 2 else None
    def setdefault(eng, st, a, k):
        c = uc(a[1])
        if not eng.decide(st.get(a[0]).attrs["dom"](c), st): setitem(eng, st, a[:3], {})
        return at(st, a[0], c)
    m[("CatDict", "__contains__")], m[("CatDict", "__getitem__")], m[("CatDict", "__setitem__")] = contains, getitem, setitem
    m[("CatDict", "items")], m[("CatDict", "keys")], m[("CatDict", "values")], m[("CatDict", "__iter__")] = items("items"), items("keys"), items("values"), items("keys")
    m[("CatDict", "__len__")] = lambda eng, st, a, k: enumeration(st, a[0])[2]
    m[("CatDict", "get")], m[("CatDict", "setdefault")] = get, setdefault
    c_ = lambda st, a: st.get(a[0]).attrs["cell"]
    m[("CatCell", "__getitem__")] = lambda eng, st, a, k: c_(st, a).getitem(eng, st, a[1])
    m[("CatCell", "__setitem__")] = lambda eng, st, a, k: c_(st, a).setitem(eng, st, a[1], a[2])
    m[("CatCell", "__iter__")] = lambda eng, st, a, k: c_(st, a).iter(eng, st)
    m[("CatCell", "__len__")] = lambda eng, st, a, k: 2
