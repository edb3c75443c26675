"""Lists of weighted entries (optbinning/binning/distributed/gk.py) as seen by contracts: fields value, g, delta by position and the suffix sums of g."""
import z3
from lib.vc import *
from pyvc.values import PyVal, Rec

FIELDS = (("value", REAL), ("g", INT), ("delta", INT))


class Elem(PyVal):
    """the object at a position of a list under contract"""
    def __init__(self, lst, idx): self.lst, self.idx = lst, idx
    def getattr(self, eng, st, name):
        F = st.get(self.lst).attrs["F"]
        if name not in F: raise Unsupported("attribute %s of an entry" % name)
        return F[name](rv(self.idx))
    def setattr(self, eng, st, name, v):
        r = st.get(self.lst); F = dict(r.attrs["F"]); idx = rv(self.idx)
        if name not in F: raise Unsupported("attribute %s of an entry" % name)
        old = F[name]
        v = rv(v)
        F[name] = lambda i: z3.If(i == idx, v, old(i))
        suf = r.attrs["suf"]
        new = (lambda i: suf(i) + z3.If(i <= idx, v - old(idx), 0)) if name == "g" else suf
        st.put(self.lst, HInst("Entries", {"n": r.attrs["n"], "F": F, "suf": new}))
        st.events.append(eng.loops.FamEvent("store", (self.lst, idx), True))
    def same(self, o): return isinstance(o, Elem) and o.lst == self.lst and rv(o.idx).eq(rv(self.idx))
    def subst(self, sub, f): return Elem(self.lst, f(rv(self.idx), sub))


def install(v):
    m = v.eng.methods
    m[("Entries", "__len__")] = lambda eng, st, a, k: st.get(a[0]).attrs["n"]
    def item(eng, st, a, k):
        n = st.get(a[0]).attrs["n"]
        return Elem(a[0], ops.norm_index(eng, st, a[1], n))
    m[("Entries", "__getitem__")] = item
    m[("Entries", "__iter__")] = lambda eng, st, a, k: ops.SymIter(rv(st.get(a[0]).attrs["n"]), lambda i: Elem(a[0], i))

    def seqsorted(eng, st, args, kw):
        """sorted(key=...): a permutation of the elements in the order of the key; sums are those of the argument"""
        a = eng.as_arr(args[0], st)
        if a is None or a.mask is not None or set(kw) - {"key", "reverse"} or not isinstance(kw.get("reverse", False), bool): raise Unsupported("sorted")
        n = rv(a.n)
        ref = new(st, n, "sorted")
        i, j, b = fresh("i"), fresh("j"), fresh("b")
        F = st.get(ref).attrs["F"]
        p = fresh_fun("perm", INT, INT)
        el = a.fn(p(i))
        if not isinstance(el, Rec): raise Unsupported("sorted of %r" % (el,))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(p(i) >= 0, p(i) < n, *[F[f](i) == rv(el.attrs[f]) for f, _ in FIELDS])), patterns=[F["value"](i)]))
        key = lambda x: rv(eng.call(kw["key"], [Elem(ref, x)], {}, st))
        le = key(i) >= key(j) if kw.get("reverse") else key(i) <= key(j)
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), le)))
        w = lambda x: rv(a.fn(x).attrs["g"])
        v.ctx.prove("sorted entries: weights are positive", list(st.pc) + [b >= 0, b < n], w(b) > 0)
        st.assume(st.get(ref).attrs["suf"](z3.IntVal(0)) == rv(v.sum(st, lambda x: w(x), 0, n)))
        st.assume(sums_of(st, ref))
        st.ghost["sorted"] = ref
        return ref
    m[("sequence", "sorted")] = seqsorted


def new(st, n, name):
    F = {f: fresh_fun(name + "_" + f, INT, so) for f, so in FIELDS}
    suf = fresh_fun(name + "_suf", INT, INT)
    return st.alloc(HInst("Entries", {"n": n, "F": {f: (lambda g: lambda i: g(i))(g) for f, g in F.items()}, "suf": lambda i: suf(i)}))


def facts(st, ref, lo=0):
    """name -> formula about the elements from position lo on"""
    r = st.get(ref).attrs
    n, F, suf = rv(r["n"]), r["F"], r["suf"]
    i, j = fresh("i"), fresh("j")
    rng = z3.And(i >= lo, i < n)
    return {"weights are positive": z3.ForAll([i], z3.Implies(rng, F["g"](i) > 0)),
            "the sums are suffix sums": z3.And(suf(n) == 0, z3.ForAll([i], z3.Implies(rng, suf(i) == F["g"](i) + suf(i + 1)))),
            "suffix sums are not negative": z3.ForAll([i], z3.Implies(z3.And(i >= lo, i <= n), suf(i) >= 0)),
            "sorted": z3.ForAll([i, j], z3.Implies(z3.And(i >= lo, i < j, j < n), F["value"](i) <= F["value"](j)))}


def sums_of(st, ref):
    """suffix sums of positive weights (lemma by induction on the length)"""
    f = facts(st, ref)
    return z3.And(f["the sums are suffix sums"], f["suffix sums are not negative"])


def bounded(st, ref, lo=0):
    """the uncertainty of an entry is at most the weight of those behind it"""
    r = st.get(ref).attrs
    i = fresh("i")
    return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < rv(r["n"])), r["F"]["delta"](i) <= r["suf"](i + 1)))


def seen(st, ref, S, lo=0):
    r = st.get(ref).attrs
    i = fresh("i")
    return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < rv(r["n"])), S(r["F"]["value"](i))))
