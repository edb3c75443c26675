"""C18  The quantile sketch keeps its count, order and extremes (GK)."""
import ast
import z3
from lib.vc import *
from contracts import reclist
from contracts.reclist import Elem

G = "optbinning.binning.distributed.gk"
MC = G + ".GK.merge_compress"
SEARCH_BUDGET = 30
INF = float("inf")


class LC:
    """loop contract bound to the function and the kind of loop"""
    def __init__(self, ctx, name): self.ctx, self.name = ctx, name
    def step(self, s0, s1, k): return []
    def variant(self, s): return None


def bind(v, func, kind, C):
    old = v.eng.loop_contract
    v.eng.loop_contract = lambda eng, node, st: C if st.frame.qual == func and isinstance(node, kind) else (old(eng, node, st) if old else None)


class Sk: pass


def sketch(v, name, eps, count=None, seen=None):
    """an arbitrary sketch satisfying the invariant of the class"""
    st = v.st
    k = Sk(); k.v = v
    k.S = seen or v.fun("seen_" + name, BOOL, REAL)
    k.nE, k.nI = v.int("nE_" + name, lambda t: t >= 0), v.int("nI_" + name, lambda t: t >= 0)
    k.E = reclist.new(st, k.nE, "E_" + name)
    for f in reclist.facts(st, k.E).values(): st.assume(f)
    st.assume(reclist.bounded(st, k.E)); st.assume(reclist.seen(st, k.E, k.S))
    k.INC = v.fun("inc_" + name)
    v.all(k.nI, lambda i: k.S(k.INC(i)))
    k.suf0 = st.get(k.E).attrs["suf"](z3.IntVal(0))
    if count == 0:
        k.count, k.mn, k.mx, k.sum = 0, INF, -INF, 0
        st.assume(z3.And(k.nE == 0, k.nI == 0))
    else:
        k.count = v.int("count_" + name, lambda t: t >= 1)
        st.assume(k.suf0 + k.nI == k.count)
        k.mn, k.mx, k.sum = z3.Real("min_" + name), z3.Real("max_" + name), z3.Real("sum_" + name)
        x = z3.Real("x")
        st.assume(z3.And(k.S(k.mn), k.S(k.mx)))
        st.assume(z3.ForAll([x], z3.Implies(k.S(x), z3.And(k.mn <= x, x <= k.mx)), patterns=[k.S(x)]))
    thr = v.int("threshold_" + name, lambda t: t >= 1)
    k.inc = v.arr(k.nI, k.INC, islist=True)
    k.o = v.obj(G + ":GK", dict(eps=eps, entries=k.E, incoming=k.inc, _min=k.mn, _max=k.mx, _count=k.count, _sum=k.sum, _compress_threshold=thr))
    k.thr = thr
    return k


def merged(s, ref):
    """what is known of a list built by appending entries: number, total weight, last value"""
    r = s.get(ref)
    if isinstance(r, HInst) and r.cls == "Appended": return r.attrs
    if isinstance(r, HList):
        its = [s.get(x).attrs if isinstance(x, Ref) else x.attrs for x in r.items]
        return {"n": len(its), "w": sum([rv(x["g"]) for x in its], z3.IntVal(0)), "last": its[-1]["value"] if its else z3.RealVal(0), "items": its}
    raise Unsupported("list of entries")


def field(v, s, t, name): return rv(v.eng.getattr(t, name, s))


def appended(v):
    """a list built by appending: keeps number, sum of the weights and last value; each append is an event"""
    def app(eng, st, a, k):
        r, t = st.get(a[0]).attrs, a[1]
        f = {n: field(v, st, t, n) for n in ("value", "g", "delta")}
        st.events.append(eng.loops.FamEvent("append", (a[0], t, f, dict(r)), True))
        st.put(a[0], HInst("Appended", {"n": r["n"] + 1, "w": r["w"] + f["g"], "last": f["value"]}))
    v.eng.methods[("Appended", "append")] = app
    v.eng.methods[("Appended", "__len__")] = lambda eng, st, a, k: st.get(a[0]).attrs["n"]


def havoc_appended(s):
    n = fresh("appended_n")
    s.pc.append(n >= 0)
    return s.alloc(HInst("Appended", {"n": n, "w": fresh("appended_w"), "last": fresh("appended_last", REAL)}))


def havoc_entries(s, ref):
    F = {f: fresh_fun("h_" + f, INT, so) for f, so in reclist.FIELDS}
    suf = fresh_fun("h_suf", INT, INT)
    s.put(ref, HInst("Entries", {"n": s.get(ref).attrs["n"], "F": {f: (lambda g: lambda i: g(i))(g) for f, g in F.items()}, "suf": lambda i: suf(i)}))


# --------------------------------------------------------------------------------------------------------- compression
class CompressLoop(LC):
    """merging the sorted buffer into the sorted entries: the weight left over plus the weight kept is the weight that came in"""
    def __init__(self, ctx, v, S):
        super().__init__(ctx, "merge_compress loop"); self.v, self.S = v, S
    def refs(self, s):
        C, o = s.frame.vars["incoming"], s.frame.self_ if isinstance(s.frame.self_, Ref) else s.frame.vars["self"]
        return C, self.v.eng.getattr(o, "entries", s)
    def ptr(self, s): return rv(s.frame.vars["i"]), rv(s.frame.vars["j"])
    def inv(self, s, k):
        C, E = self.refs(s)
        i, j = self.ptr(s)
        nC, nE = rv(s.get(C).attrs["n"]), rv(s.get(E).attrs["n"])
        m = merged(s, s.frame.vars["merged"])
        w, n, last = rv(m["w"]), rv(m["n"]), m["last"]
        sC, sE = s.get(C).attrs["suf"], s.get(E).attrs["suf"]
        if "compress W" not in s.ghost: s.ghost["compress W"] = sC(z3.IntVal(0)) + sE(z3.IntVal(0))
        W = s.ghost["compress W"]
        r = [("the cursors are within the lists", z3.And(0 <= i, i <= nC, 0 <= j, j <= nE)),
             ("kept weight and weight left over add up to the total", w + sC(i) + sE(j) == W)]
        for nm, ref, p in (("buffer", C, i), ("entries", E, j)):
            for f, c in reclist.facts(s, ref, p).items(): r.append(("%s: %s" % (nm, f), c))
            r.append(("%s: values were added" % nm, reclist.seen(s, ref, self.S, p)))
        r.append(("entries: uncertainty within the weight behind", reclist.bounded(s, E, j)))
        x = fresh("x")
        r.append(("buffer: no uncertainty", z3.ForAll([x], z3.Implies(z3.And(x >= i, x < nC), s.get(C).attrs["F"]["delta"](x) == 0))))
        r.append(("kept values are not above the values left", z3.Implies(n > 0, z3.And(z3.Implies(i < nC, last <= s.get(C).attrs["F"]["value"](i)), z3.Implies(j < nE, last <= s.get(E).attrs["F"]["value"](j))))))
        return r
    def havoc(self, s, k):
        C, E = self.refs(s)
        s.frame.vars["i"], s.frame.vars["j"] = fresh("i"), fresh("j")
        havoc_entries(s, C); havoc_entries(s, E)
        m = s.frame.vars["merged"] = havoc_appended(s)
        return ("i", "j", "merged"), (C.id, E.id, m.id)
    def step(self, s0, s1, k):
        C, E = self.refs(s1)
        ptr = {C: 0, E: 1}
        p0, p1 = self.ptr(s0), self.ptr(s1)
        ev = s1.events[len(s0.events):]
        r = []
        for q, e in enumerate(ev):
            if e.kind == "store":
                ref, idx = e.data
                if ref not in ptr: raise Unsupported("store into another list")
                before = [x.data[1] for x in ev[:q] if x.kind == "append"]
                r.append(("an entry is not changed once it is kept", z3.Implies(bz(e.guard), z3.And(idx >= p0[ptr[ref]], *[rv(t.idx) != idx for t in before if t.lst == ref]))))
            elif e.kind == "append":
                lst, t, f, m = e.data
                if lst != s1.frame.vars["merged"] or not isinstance(t, Elem): raise Unsupported("append of %r" % (t,))
                g = bz(e.guard)
                r.append(("a kept entry is behind the cursor", z3.Implies(g, rv(t.idx) < p1[ptr[t.lst]])))
                r.append(("a kept entry has a positive weight", z3.Implies(g, f["g"] > 0)))
                r.append(("a kept value was added", z3.Implies(g, self.S(f["value"]))))
                r.append(("kept values are sorted", z3.Implies(z3.And(g, rv(m["n"]) > 0), m["last"] <= f["value"])))
                r.append(("the uncertainty kept is within the weight behind", z3.Implies(g, f["delta"] <= s1.ghost["compress W"] - rv(m["w"]) - f["g"])))
        return r
    def variant(self, s):
        C, E = self.refs(s)
        i, j = self.ptr(s)
        return rv(s.get(C).attrs["n"]) - i + rv(s.get(E).attrs["n"]) - j


def use_compress(v, S, label):
    """contract of merge_compress at its call sites"""
    def c(eng, st, a, kw):
        o, X = a[0], (a[1] if len(a) > 1 else kw.get("entries"))
        E, inc = eng.getattr(o, "entries", st), eng.as_arr(eng.getattr(o, "incoming", st), st)
        if inc is None:
            its = eng.as_items(eng.getattr(o, "incoming", st), st)
            if its is None: raise Unsupported("incoming values")
            inc = ops.to_nd_list(eng, st, its)
        i = fresh("i")
        w = rv(inc.n)
        if rv(inc.n).get_id() != z3.IntVal(0).get_id():
            v.ctx.prove(label + ": compress: buffered values were added", list(st.pc) + [i >= 0, i < rv(inc.n)], S(rr(inc.fn(i))))
        if isinstance(st.get(E), HInst):
            for nm, f in reclist.facts(st, E).items(): v.ctx.prove(label + ": compress: " + nm, st.pc, f)
            v.ctx.prove(label + ": compress: entries were added", st.pc, reclist.seen(st, E, S))
            v.ctx.prove(label + ": compress: uncertainty", st.pc, reclist.bounded(st, E))
            w = w + st.get(E).attrs["suf"](z3.IntVal(0))
        elif st.get(E).items: raise Unsupported("entries")
        if X is not None:
            w = w + rv(merged(st, X)["w"])
            for t in merged(st, X).get("items", ()):
                v.ctx.prove(label + ": compress: given entries are positive, exact and were added", st.pc, z3.And(rv(t["g"]) > 0, rv(t["delta"]) == 0, S(rr(t["value"]))))
        n = fresh("nE"); st.assume(n >= 0)
        N = reclist.new(st, n, "E")
        for f in reclist.facts(st, N).values(): st.assume(f)
        st.assume(reclist.bounded(st, N)); st.assume(reclist.seen(st, N, S))
        st.assume(st.get(N).attrs["suf"](z3.IntVal(0)) == w)
        eng.setattr(o, "entries", N, st); eng.setattr(o, "incoming", st.alloc(HList([])), st)
    v.eng.contracts[MC] = c


def compress(given):
    def g(ctx):
        v = VC(ctx); reclist.install(v); appended(v)
        eps = v.real("eps", lambda t: t > 0, lambda t: t <= 1)
        k = sketch(v, "self", eps)
        st = v.st
        args, W = [], k.nI + k.suf0
        if given:
            nX = v.int("nX", lambda t: t >= 0)
            X = reclist.new(st, nX, "X")
            r = st.get(X).attrs
            v.all(nX, lambda i: z3.And(r["F"]["g"](i) > 0, r["F"]["delta"](i) == 0, k.S(r["F"]["value"](i))))
            args = [X]
            W = W + rv(v.sum(st, lambda b: r["F"]["g"](rv(b)), 0, nX))
        bind(v, MC, ast.While, CompressLoop(ctx, v, k.S))
        for s, _ in v.returns("merge_compress", v.method(k.o, "merge_compress", args)):
            E, inc = v.attr(s, k.o, "entries"), v.attr(s, k.o, "incoming")
            ctx.fact("the entries are the list the loop built", s.get(E) .cls == "Appended" if isinstance(s.get(E), HInst) else False)
            ctx.fact("the buffer is empty", isinstance(s.get(inc), HList) and not s.get(inc).items)
            if isinstance(s.get(E), HInst) and s.get(E).cls == "Appended":
                v.prove("compression keeps the total weight", s, rv(s.get(E).attrs["w"]) == W)
            for nm, val in (("_count", k.count), ("_min", k.mn), ("_max", k.mx)): v.prove("compression keeps %s" % nm, s, v.eq(v.attr(s, k.o, nm), val))
            if given:
                r1 = s.get(X).attrs
                i = fresh("i")
                v.prove("the given entries are not changed", s, z3.And(*[r1["F"][f](i) == r["F"][f](i) for f, _ in reclist.FIELDS]), [i >= 0, i < nX])
        ctx.reachable("merge_compress", v.st.pc)
        v.done()
    return g


# ------------------------------------------------------------------------------------------------------------ the rest
def init(ctx):
    v = VC(ctx)
    eps = v.real("eps", lambda t: t > 0, lambda t: t <= 1)
    cls = v.eng.func(G + ":GK")
    for s, o in v.returns("GK()", v.eng.call_multi(cls, [eps], {}, v.st.fork())):
        at = lambda n: v.attr(s, o, n)
        ctx.fact("a new sketch is empty", isinstance(s.get(at("entries")), HList) and not s.get(at("entries")).items and isinstance(s.get(at("incoming")), HList) and not s.get(at("incoming")).items
                 and at("entries") != at("incoming") and at("_count") == 0 and at("_min") == INF and at("_max") == -INF)
        v.prove("the compression period is positive", s, rv(at("_compress_threshold")) >= 1)
        v.prove("eps is kept", s, v.eq(at("eps"), eps))
        try: n = v.eng.getattr(o, "n", s)
        except PyRaise: n = None
        ctx.fact("n is 0", n == 0)
    v.done()


def invariant(v, s, k, label, S, total):
    """the class invariant in state s: weights and buffer add up to the count"""
    E, inc = v.attr(s, k.o, "entries"), v.attr(s, k.o, "incoming")
    a = v.eng.as_arr(inc, s)
    n = rv(a.n) if a is not None else z3.IntVal(len(s.get(inc).items))
    count = rv(v.attr(s, k.o, "_count"))
    if isinstance(s.get(E), HInst):
        w = s.get(E).attrs["suf"](z3.IntVal(0))
        for nm, f in reclist.facts(s, E).items(): v.prove("%s: %s" % (label, nm), s, f)
        v.prove(label + ": entries were added", s, reclist.seen(s, E, S))
        v.prove(label + ": uncertainty within the weight behind", s, reclist.bounded(s, E))
    else:
        w = z3.IntVal(0); v.ctx.fact(label + ": no entries", not s.get(E).items)
    v.prove(label + ": weights and buffer add up to the count", s, w + n == count)
    v.prove(label + ": the count is the number of values", s, count == total)
    if a is not None:
        i = fresh("i")
        v.prove(label + ": buffered values were added", s, S(rr(a.fn(i))), [i >= 0, i < n])
    try: nn = v.eng.getattr(k.o, "n", s)
    except PyRaise: nn = None
    v.ctx.fact(label + ": n is readable", nn is not None)
    if nn is not None: v.prove(label + ": n is the number of values", s, rv(nn) == total)
    return E, inc, a


def extremes(v, s, k, label, S):
    x = fresh("x", REAL)
    mn, mx = v.attr(s, k.o, "_min"), v.attr(s, k.o, "_max")
    v.prove(label + ": the minimum was added", s, S(rr(mn)))
    v.prove(label + ": the maximum was added", s, S(rr(mx)))
    v.prove(label + ": nothing is below the minimum", s, rr(mn) <= x, [S(x)])
    v.prove(label + ": nothing is above the maximum", s, x <= rr(mx), [S(x)])


def add(count):
    def g(ctx):
        v = VC(ctx); reclist.install(v)
        eps = v.real("eps", lambda t: t > 0, lambda t: t <= 1)
        k = sketch(v, "self", eps, count)
        val = z3.Real("value")
        S = lambda x: z3.Or(k.S(x), x == val)
        if count == 0:
            x = z3.Real("x0"); v.st.assume(z3.ForAll([x], z3.Not(k.S(x)), patterns=[k.S(x)]))
        use_compress(v, S, "add")
        for s, _ in v.returns("add", v.method(k.o, "add", [val])):
            invariant(v, s, k, "after add", S, k.count + 1)
            extremes(v, s, k, "after add", S)
        ctx.function(G + ":GK.add")
        v.done()
    return g


def length(ctx):
    v = VC(ctx); reclist.install(v)
    k = sketch(v, "self", v.real("eps", lambda t: t > 0, lambda t: t <= 1))
    use_compress(v, k.S, "len")
    for s, n in v.returns("len", v.method(k.o, "__len__")):
        E, inc, a = invariant(v, s, k, "after len", k.S, k.count)
        v.prove("len is the number of entries", s, rv(n) == rv(s.get(E).attrs["n"]))
        v.prove("nothing is left in the buffer", s, rv(a.n if a is not None else len(s.get(inc).items)) == 0)
    v.done()


def copy(ctx):
    v = VC(ctx); reclist.install(v)
    eps = v.real("eps", lambda t: t > 0, lambda t: t <= 1)
    k, q = sketch(v, "self", eps, 0), sketch(v, "other", eps)
    for s, _ in v.returns("copy", v.method(k.o, "copy", [q.o])):
        copied(v, s, k, q, "copy")
    v.done()


def copied(v, s, k, q, label):
    E, inc = v.attr(s, k.o, "entries"), v.attr(s, k.o, "incoming")
    a, b = v.eng.as_arr(E, s), v.eng.as_arr(inc, s)
    E0, i0 = v.attr(s, q.o, "entries"), v.attr(s, q.o, "incoming")
    v.ctx.fact(label + ": the lists are new", E not in (E0, q.E) and inc not in (i0, q.inc) and a is not None and b is not None)
    if a is None or b is None: return
    i = fresh("i")
    r = v.st.get(q.E).attrs
    v.prove(label + ": as many entries", s, rv(a.n) == rv(r["n"]))
    el = a.fn(i)
    v.ctx.fact(label + ": the entries are new", isinstance(el, reclist.Rec))
    for f, _ in reclist.FIELDS: v.prove(label + ": entry %s" % f, s, field(v, s, el, f) == r["F"][f](i), [i >= 0, i < rv(r["n"])])
    v.prove(label + ": as many buffered values", s, rv(b.n) == q.nI)
    v.prove(label + ": buffered values", s, rr(b.fn(i)) == q.INC(i), [i >= 0, i < q.nI])
    for n, x in (("_count", q.count), ("_min", q.mn), ("_max", q.mx)): v.prove("%s: %s" % (label, n), s, v.eq(v.attr(s, k.o, n), x))
    unchanged(v, s, q, label)


def unchanged(v, s, q, label):
    for n, x in (("_count", q.count), ("_min", q.mn), ("_max", q.mx)):
        y = v.attr(s, q.o, n)
        if isinstance(x, float): v.ctx.fact("%s: the other sketch keeps %s" % (label, n), isinstance(y, float) and x == y)
        else: v.prove("%s: the other sketch keeps %s" % (label, n), s, v.eq(y, x))


class CarryLoop(LC):
    """weights handed over by the other sketch: what was handed over plus what is carried is the highest rank so far"""
    def __init__(self, ctx, v, q, S): super().__init__(ctx, "merge loop"); self.v, self.q, self.S = v, q, S
    def entries(self, s): return s.get(self.v.attr(s, self.q.o, "entries")).attrs
    def inv(self, s, k):
        e = self.entries(s)
        m = merged(s, s.frame.vars["entries"])
        w, g, spread = rv(m["w"]), rv(s.frame.vars["g"]), rv(s.frame.vars["spread"])
        N = self.q.count
        r = [("handed over plus carried is the rank bound", w + g == N - e["suf"](k + 1) + e["F"]["delta"](k) - 1 - spread),
             ("handed over stays below the number of values", z3.Or(w == 0, w <= N - 1 - spread)),
             ("handed over is not negative", w >= 0), ("nothing positive is carried", g <= 0)]
        for t in m.get("items", ()): r.append(("first entry", z3.And(rv(t["g"]) > 0, rv(t["delta"]) == 0, self.S(rr(t["value"])))))
        return r
    def havoc(self, s, k):
        s.frame.vars["g"] = fresh("g")
        m = s.frame.vars["entries"] = havoc_appended(s)
        return ("g", "entries"), (m.id,)
    def step(self, s0, s1, k): return [x for e in s1.events[len(s0.events):] if e.kind == "append" for x in given(self, e)]


def given(C, e):
    f = e.data[2]
    g = bz(e.guard)
    return [("an entry handed over is positive", z3.Implies(g, f["g"] > 0)), ("an entry handed over is exact", z3.Implies(g, f["delta"] == 0)), ("an entry handed over was added", z3.Implies(g, C.S(f["value"])))]


def merge(count, other):
    def g(ctx):
        v = VC(ctx); reclist.install(v); appended(v)
        e1, e2 = v.real("eps", lambda t: t > 0, lambda t: t <= 1), v.real("eps2", lambda t: t > 0, lambda t: t <= 1)
        k, q = sketch(v, "self", e1, count), sketch(v, "other", e2, other)
        x = z3.Real("x0")
        for t in (k, q):
            if rv(t.count).eq(z3.IntVal(0)): v.st.assume(z3.ForAll([x], z3.Not(t.S(x)), patterns=[t.S(x)]))
        S = lambda x: z3.Or(k.S(x), q.S(x))
        if count != 0 and other != 0:
            bind(v, G + ".GK.merge", ast.For, CarryLoop(ctx, v, q, S))
            def comp(eng, st, a, kw):        # each sketch compresses its own values
                own = a[0] == q.o
                use_compress(v, q.S if own else S, "merge (%s)" % ("other" if own else "self"))
                c = v.eng.contracts[MC]; v.eng.contracts[MC] = comp
                return c(eng, st, a, kw)
            v.eng.contracts[MC] = comp
        outs = v.method(k.o, "merge", [q.o])
        for s, o in outs:
            if o.kind == "raise":
                v.prove("merge is refused only for another eps", s, e1 != e2)
                ctx.fact("merge is refused by an exception", o.val.etype == "Exception")
        rets = v.returns("merge", [(s, o) for s, o in outs if o.kind != "raise"])
        ctx.fact("merge is refused for another eps", any(o.kind == "raise" for s, o in outs))
        for s, _ in rets:
            v.prove("merged sketches have the same eps", s, e1 == e2)
            label = "after merge"
            if count == 0 and other != 0: copied(v, s, k, q, label); continue
            invariant(v, s, k, label, S, rv(k.count) + rv(q.count))
            if count != 0: extremes(v, s, k, label, S)
            for e in s.events:
                if e.kind == "append":
                    for nm, f in given(type("C", (), {"S": staticmethod(S)}), e): v.prove(nm, s, f)
            unchanged(v, s, q, label)
            if other != 0:
                ctx.fact(label + ": the lists are not shared", v.attr(s, k.o, "entries") != v.attr(s, q.o, "entries") and v.attr(s, k.o, "incoming") != v.attr(s, q.o, "incoming"))
        v.done()
    return g


class QuantileLoop(LC):
    def __init__(self, ctx, v, k): super().__init__(ctx, "quantile loop"); self.v, self.k = v, k
    def entries(self, s): return s.get(self.v.attr(s, self.k.o, "entries")).attrs
    def inv(self, s, k):
        e = self.entries(s)
        i, gs, rk, sp = rv(s.frame.vars["i"]), rr(s.frame.vars["g_sum"]), rr(s.frame.vars["rank"]), rr(s.frame.vars["spread"])
        x = fresh("x")
        suf = e["suf"]
        return [("the cursor is within the entries", z3.And(0 <= i, i <= rv(e["n"]))), ("g_sum is the weight before the cursor", gs == z3.ToReal(suf(z3.IntVal(0)) - suf(i))),
                ("every entry before the cursor is within the rank", z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < i), z3.ToReal(suf(z3.IntVal(0)) - suf(x + 1) + e["F"]["delta"](x)) <= rk + sp)))]
    def havoc(self, s, k):
        s.frame.vars["i"], s.frame.vars["g_sum"] = fresh("i"), fresh("g_sum", REAL)
        return ("i", "g_sum"), ()
    def variant(self, s): return rv(self.entries(s)["n"]) - rv(s.frame.vars["i"])


def quantile(ctx):
    v = VC(ctx); reclist.install(v)
    eps = v.real("eps", lambda t: t > 0, lambda t: t <= 1)
    k = sketch(v, "self", eps)
    use_compress(v, k.S, "quantile")
    bind(v, G + ".GK.quantile", ast.While, QuantileLoop(ctx, v, k))
    q = z3.Real("q")
    outs = v.method(k.o, "quantile", [q])
    inside = z3.And(q >= 0, q <= 1)
    for s, o in outs:
        if o.kind == "raise":
            v.prove("only a quantile outside [0, 1] is refused", s, z3.Not(inside)); ctx.fact("refused by ValueError", o.val.etype == "ValueError")
    ctx.fact("a quantile can be refused", any(o.kind == "raise" for s, o in outs))
    for s, r in v.returns("quantile", [(s, o) for s, o in outs if o.kind != "raise"]):
        v.prove("a quantile outside [0, 1] is refused", s, inside)
        v.prove("a quantile is a value that was added", s, k.S(rr(r)))
        v.prove("a quantile is not below the minimum", s, rr(r) >= k.mn)
        v.prove("a quantile is not above the maximum", s, rr(r) <= k.mx)
        e = s.get(v.attr(s, k.o, "entries")).attrs
        suf, n, F = e["suf"], rv(e["n"]), e["F"]
        m, x = fresh("m"), fresh("x")
        lim = z3.ToReal(z3.ToInt(q * (k.count - 1) + 1)) + z3.ToReal(z3.ToInt(eps * (k.count - 1)))
        H = lambda y: z3.ToReal(suf(z3.IntVal(0)) - suf(y + 1) + F["delta"](y))
        first = z3.And(m >= 0, m <= n, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < m), H(x) <= lim)), z3.Or(m == n, H(m) > lim))
        v.prove("the quantile is the value before the first entry beyond its rank", s, rr(r) == z3.If(m == 0, k.mn, F["value"](m - 1)), [first])
        invariant(v, s, k, "after quantile", k.S, k.count)
    # order: first entry beyond a rank, for two ranks
    st = v.st.fork()
    r = st.get(k.E).attrs
    suf, n, F = r["suf"], rv(r["n"]), r["F"]
    m1, m2, l1, l2, x = z3.Int("m1"), z3.Int("m2"), z3.Real("l1"), z3.Real("l2"), fresh("x")
    H = lambda y: z3.ToReal(suf(z3.IntVal(0)) - suf(y + 1) + F["delta"](y))
    first = lambda m, l: z3.And(m >= 0, m <= n, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < m), H(x) <= l)), z3.Or(m == n, H(m) > l))
    val = lambda m: z3.If(m == 0, k.mn, F["value"](m - 1))
    hyp = [first(m1, l1), first(m2, l2), l1 <= l2]
    v.prove("a higher rank is met later", st, m1 <= m2, hyp)
    v.prove("values found are non-decreasing in the rank", st, val(m1) <= val(m2), hyp + [m1 <= m2])
    q1, q2, N, e = z3.Real("q1"), z3.Real("q2"), z3.Int("N"), z3.Real("e")
    ctx.prove("ranks are non-decreasing in q", [q1 <= q2, N >= 1], z3.ToInt(q1 * (N - 1) + 1) <= z3.ToInt(q2 * (N - 1) + 1))
    v.done()


def empty_quantile(ctx):
    v = VC(ctx); reclist.install(v)
    k = sketch(v, "self", v.real("eps", lambda t: t > 0, lambda t: t <= 1), 0)
    for s, o in v.method(k.o, "quantile", [z3.Real("q")]):
        ctx.fact("a quantile of an empty sketch is refused", o.kind == "raise" and o.val.etype == "ValueError")
    v.done()


GROUPS = [("merge_compress of the buffer", compress(False), 150), ("merge_compress with entries of another sketch", compress(True), 250), ("empty sketch", init, 30), ("add to an empty sketch", add(0), 60), ("add", add(None), 60),
          ("len", length, 60), ("copy", copy, 60), ("merge", merge(None, None), 200), ("merge into an empty sketch", merge(0, None), 60), ("merge of an empty sketch", merge(None, 0), 60), ("merge of empty sketches", merge(0, 0), 60),
          ("quantile", quantile, 120), ("quantile of an empty sketch", empty_quantile, 30)]
ASSUMPTIONS = ["values are finite real numbers (no NaN)", "sorted() returns a permutation of its argument in the order of the key; sums over a permutation are equal", "real and integer arithmetic are exact",
               "the entries of a sketch are distinct objects, and two merged sketches are two objects",
               "lists built by append: a fact proved of each element when it is appended, and kept by every later store, holds of every element of the list",
               "suffix sums of positive weights are not negative (induction on the length)"]
