"""Symbolic interpreter over the real source of /repo (read at run time), producing paths with symbolic results."""
import ast
import os
import time
from fractions import Fraction
import z3
from .values import *

REPO = os.environ.get("VERIF_REPO", "/repo")
MAXPATHS = 4000


class Module:
    def __init__(self, name, path, eng):
        self.name, self.path, self.eng = name, path, eng
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.is_pkg = path.endswith("__init__.py")
        self.globals = {}
        self.defs = {}
        for node in self.tree.body:
            self._scan(node)

    def _scan(self, node):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            self.defs[node.name] = node
        elif isinstance(node, (ast.Import, ast.ImportFrom)):
            for a in node.names:
                self.defs[a.asname or a.name.split(".")[0]] = (node, a)
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = node
        elif isinstance(node, (ast.Try, ast.If)):
            for n in node.body: self._scan(n)

    def pkg(self, level):
        parts = self.name.split(".")
        if not self.is_pkg: parts = parts[:-1]
        if level > 1: parts = parts[:len(parts) - (level - 1)]
        return ".".join(parts)

    def lookup(self, name):
        if name in self.globals: return self.globals[name]
        if name not in self.defs: raise KeyError(name)
        node = self.defs[name]
        v = self._resolve(name, node)
        self.globals[name] = v
        return v

    def _resolve(self, name, node):
        eng = self.eng
        if isinstance(node, ast.FunctionDef):
            return FuncVal(node, self, self.name + "." + node.name)
        if isinstance(node, ast.ClassDef):
            return ClassVal(node, self, self.name + "." + node.name)
        if isinstance(node, tuple):
            return eng.do_import(node[0], node[1], self)
        if isinstance(node, ast.Assign):
            if name == "logger": return Opaque("logger")
            st = State(eng)
            st.frames.append(Frame({}, self, "<module>"))
            st.oracle = Oracle([])
            # module-level containers live in a heap shared by all states, under ids of their own
            st.nid = eng.static_nid
            v = eng.eval(node.value, st)
            eng.static.update(st.heap); eng.static_nid = st.nid
            return v
        raise Unsupported("module level %s" % name)


class Frame:
    __slots__ = ("vars", "module", "qual", "cls", "self_", "closure")
    def __init__(self, vars, module, qual, cls=None, self_=None, closure=None):
        self.vars, self.module, self.qual, self.cls, self.self_, self.closure = vars, module, qual, cls, self_, closure
    def copy(self):
        return Frame(dict(self.vars), self.module, self.qual, self.cls, self.self_, self.closure)


class Oracle:
    def __init__(self, seq):
        self.seq, self.pos, self.pending = list(seq), 0, []
    def choose(self, n):
        if self.pos < len(self.seq):
            c = self.seq[self.pos]
        else:
            c = 0
            for alt in range(1, n):
                self.pending.append(self.seq[:self.pos] + [alt])
            self.seq.append(0)
        self.pos += 1
        return c


class State:
    def __init__(self, eng):
        self.eng = eng
        self.frames, self.heap, self.pc, self.events = [], {}, [], []
        self.oracle = None
        self.nid = 0
        self.ghost = {}

    def fork(self):
        s = State(self.eng)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.events = list(self.events)
        s.nid = self.nid
        s.ghost = dict(self.ghost)
        return s

    def become(self, o):
        self.frames, self.heap, self.pc, self.events, self.nid, self.ghost = \
            o.frames, o.heap, o.pc, o.events, o.nid, o.ghost

    def alloc(self, rec):
        self.nid += 1
        self.heap[self.nid] = rec
        return Ref(self.nid)

    def get(self, r): return self.heap[r.id] if r.id in self.heap else self.eng.static[r.id]
    def put(self, r, rec): self.heap[r.id] = rec
    def assume(self, c):
        if c is True: return
        if c is False: raise Infeasible()
        if z3.is_true(c): return
        self.pc.append(c)

    @property
    def frame(self): return self.frames[-1]


NORMAL, RETURN, RAISE, BREAK, CONTINUE = "normal", "return", "raise", "break", "continue"


class Out:
    __slots__ = ("kind", "val")
    def __init__(self, kind, val=None): self.kind, self.val = kind, val
    def __repr__(self): return "Out(%s,%r)" % (self.kind, self.val)
ON = Out(NORMAL)


def same(a, b):
    if a is b: return True
    if isinstance(a, Opaque) and isinstance(b, Opaque): return type(a) is type(b) and a.name == b.name
    if is_z3(a) and is_z3(b): return a.sort() == b.sort() and a.eq(b)
    if is_z3(a) or is_z3(b): return False
    if type(a) is not type(b): return False
    if isinstance(a, (int, float, str, bytes, bool, Fraction)): return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Ref): return a.id == b.id
    if isinstance(a, (HList, HSet)): return same(a.items, b.items)
    if isinstance(a, HDict):
        return list(a.items) == list(b.items) and all(same(a.items[k], b.items[k]) for k in a.items) \
            and a.fams == b.fams
    if isinstance(a, HInst):
        return a.cls is b.cls and set(a.attrs) == set(b.attrs) and all(same(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, HArr): return a.arr is b.arr
    if isinstance(a, Fl): return same(a.r, b.r) and same(a.nan, b.nan)
    if isinstance(a, Ext): return a.name == b.name
    if isinstance(a, BoundMethod): return same(a.self_, b.self_) and a.func is b.func
    if isinstance(a, OpaqueStr): return True
    if isinstance(a, FuncVal): return a.node is b.node and not a.closure and not b.closure
    if isinstance(a, ModVal): return a.mod is b.mod
    if isinstance(a, PyVal): return a.same(b)
    if isinstance(a, Rng): return same((a.lo, a.hi, a.step), (b.lo, b.hi, b.step))
    return False


class CantMerge(Exception):
    pass


HE = {}


def has_exists(f):
    k = f.get_id()
    if k not in HE:
        q = z3.is_quantifier(f)
        HE[k] = (f, (q and not f.is_forall()) or any(has_exists(c) for c in ([f.body()] if q else f.children())))
    return HE[k][1]


class Engine:
    def __init__(self):
        self.modules = {}
        self.static, self.static_nid = {}, 10 ** 9          # module-level containers
        self.contracts = {}       # qualified name -> python function(eng, st, args, kwargs)
        self.ext = {}             # dotted external name -> model
        self.loop_contract = None # (eng, node, st) -> contract of that loop or None
        self.methods = {}         # (kind, method name) -> model
        self.opts = {"divcheck": False}
        self.fcache = {}
        self.stats = {"feas": 0, "feas_s": 0.0, "inlined": set(), "contracts_used": set(), "ext_used": set()}
        self.depth = 0
        self.seen_funcs = {}
        from . import models, loops
        models.install(self)
        self.loops = loops

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.modules:
            p = os.path.join(REPO, *name.split("."))
            if os.path.isdir(p): p = os.path.join(p, "__init__.py")
            else: p = p + ".py"
            if not os.path.exists(p): raise Unsupported("module %s" % name)
            self.modules[name] = Module(name, p, self)
        return self.modules[name]

    def do_import(self, node, alias, mod):
        if isinstance(node, ast.Import):
            if alias.name.startswith("optbinning"): return ModVal(self.module(alias.name))
            return Ext(alias.name if alias.asname else alias.name.split(".")[0])
        if node.level:
            base = mod.pkg(node.level)
            full = base + ("." + node.module if node.module else "")
        else:
            full = node.module
        if full.startswith("optbinning"):
            m = self.module(full)
            try:
                return m.lookup(alias.name)
            except KeyError:
                return ModVal(self.module(full + "." + alias.name))
        return Ext(full + "." + alias.name)

    def func(self, dotted):
        """optbinning.binning.metrics:jeffrey  or  optbinning.binning.binning:OptimalBinning.fit"""
        m, q = dotted.split(":")
        mod = self.module(m)
        parts = q.split(".")
        v = mod.lookup(parts[0])
        for p in parts[1:]:
            v = self.class_attr(v, p)
            if v is None: raise Unsupported("no such function %s" % dotted)
        return v

    # ------------------------------------------------------------------ classes
    def class_bases(self, cls):
        out = []
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                try:
                    out.append(cls.module.lookup(b.id))
                except KeyError:
                    out.append(Ext(b.id))
            else:
                out.append(Ext(ast.unparse(b)))
        return out

    def mro(self, cls):
        res = [cls]
        if isinstance(cls, ClassVal):
            for b in self.class_bases(cls):
                for c in self.mro(b):
                    if c not in res: res.append(c)
        return res

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if not isinstance(c, ClassVal): continue
            if name in c.cache: return c.cache[name]
            for n in c.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    kind = "func"
                    for d in n.decorator_list:
                        s = ast.unparse(d)
                        if s in ("property", "staticmethod", "classmethod"): kind = s
                        elif s.endswith(".setter"): kind = None
                        elif s in ("abstractmethod",): pass
                        else: kind = kind
                    if kind is None: continue
                    f = FuncVal(n, c.module, c.qual + "." + name, cls=c, kind=kind)
                    c.cache[name] = f
                    return f
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    st = State(self); st.frames.append(Frame({}, c.module, c.qual)); st.oracle = Oracle([])
                    c.cache[name] = self.eval(n.value, st)
                    return c.cache[name]
        return None

    def is_subclass(self, cls, name):
        for c in self.mro(cls):
            n = c.name if isinstance(c, ClassVal) else c.name.split(".")[-1]
            if n == name: return True
        return False

    def init_params(self, cls):
        f = self.class_attr(cls, "__init__")
        if f is None: return []
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]

    # ------------------------------------------------------------------ feasibility
    def feasible(self, pc):
        from .prove import slice_pc, fvs
        # the path condition without its last conjunct is feasible: only the connected part matters
        pc = [c for c in pc if not z3.is_quantifier(c)]
        if pc: pc = slice_pc(pc[:-1], fvs(pc[-1])) + [pc[-1]]
        key = tuple(sorted(set(c.get_id() for c in pc)))
        if key in self.fcache: return self.fcache[key][0]
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*pc)
        r = s.check()
        ok = r != z3.unsat
        self.fcache[key] = (ok, list(pc))
        self.stats["feas"] += 1
        self.stats["feas_s"] += time.time() - t
        return ok

    def entails(self, pc, c, timeout=1500):
        """quick proof used inside the interpreter (dimension checks, case selection)"""
        c = conc(z3.simplify(c)) if is_z3(c) else c
        if isinstance(c, bool): return c
        s = z3.Solver(); s.set("timeout", timeout)
        s.add(*pc); s.add(z3.Not(c))
        t = time.time()
        r = s.check()
        if r == z3.unknown:
            # facts about sets and existentials hide simple consequences of the others
            light = [f for f in pc if not has_exists(f)]
            if len(light) < len(pc):
                s = z3.Solver(); s.set("timeout", timeout)
                s.add(*light); s.add(z3.Not(c))
                r = s.check()
        r = r == z3.unsat
        self.stats["feas"] += 1; self.stats["feas_s"] += time.time() - t
        return r

    # ------------------------------------------------------------------ exploration
    def run(self, fn, st):
        """run fn(st) under all oracle choices; list of (state, Out)"""
        outs, work, n = [], [[]], 0
        while work:
            seq = work.pop()
            n += 1
            if n > MAXPATHS: raise Unsupported("too many paths")
            s = st.fork()
            s.oracle = Oracle(seq)
            try:
                o = fn(s)
                if o is None: o = ON
            except PyRaise as e:
                o = Out(RAISE, e)
            except Infeasible:
                o = None
            work.extend(s.oracle.pending)
            s.oracle = None
            if o is not None: outs.append((s, o))
        return outs

    def truth(self, v, st):
        """decide the truth value of v on this path (forks when symbolic)"""
        b = self.to_bool(v, st)
        if isinstance(b, bool): return b
        return self.decide(b, st)

    def decide(self, b, st):
        b = conc(z3.simplify(b)) if is_z3(b) else b
        if isinstance(b, bool): return b
        if st.oracle is None: raise Unsupported("decision outside exploration")
        if st.oracle.pos >= len(st.oracle.seq):
            t = self.feasible(st.pc + [b]); f = self.feasible(st.pc + [z3.Not(b)])
            if t and not f:
                return True
            if f and not t:
                return False
            if not t and not f: raise Infeasible()
            c = st.oracle.choose(2)
        else:
            # replay: the same feasibility answers are cached, so the same branch structure is met
            t = self.feasible(st.pc + [b]); f = self.feasible(st.pc + [z3.Not(b)])
            if t and not f: return True
            if f and not t: return False
            if not t and not f: raise Infeasible()
            c = st.oracle.choose(2)
        st.pc.append(b if c == 0 else Not(b))
        return c == 0

    def to_bool(self, v, st):
        """python truthiness as a formula"""
        touch(v)
        if v is None: return False
        if isinstance(v, (bool, int, float, str, tuple)): return bool(v)
        if isinstance(v, OpaqueStr): raise Unsupported("truth of message string")
        if is_z3(v):
            if z3.is_bool(v): return v
            if z3.is_arith(v): return v != 0
            if v.sort() == PV:
                v2 = z3.Or(z3.And(PV.is_PBool(v), PV.pb(v)), z3.And(PV.is_PInt(v), PV.pi(v) != 0),
                           z3.And(PV.is_PReal(v), PV.pr(v) != 0), z3.And(PV.is_PStr(v), PV.ps(v) != str_id("")),
                           z3.And(PV.is_PObj(v), z3.Or(z3.And(PV.pkind(v) != kind_id("list"),
                                                              PV.pkind(v) != kind_id("tuple"),
                                                              PV.pkind(v) != kind_id("dict")),
                                                       plen(PV.pid(v)) > 0)))
                return v2
            raise Unsupported("truth of %s" % v.sort())
        if isinstance(v, Fl): return Or(v.nan, bv(v.r))
        if isinstance(v, Ref):
            r = st.get(v)
            if isinstance(r, (HList, HSet)): return bool(r.items)
            if isinstance(r, HDict): return bool(r.items)
            if isinstance(r, HInst): return True
            if isinstance(r, HArr):
                return self.to_bool(r.arr, st)
        if isinstance(v, Arr):
            if v.islist:
                return self.length(v, st) > 0
            if all(isinstance(d, int) and d == 1 for d in v.shape) and v.mask is None:
                return self.to_bool(v.fn(*[0] * len(v.shape)), st)
            raise PyRaise("ValueError", "truth value of array")
        if isinstance(v, (FuncVal, ClassVal, BoundMethod, Ext, ModVal)): return True
        raise Unsupported("truth of %r" % (v,))

    # ------------------------------------------------------------------ merging
    def merge_vals(self, vals, conds, sts):
        v0 = vals[0]
        if all(same(v0, v) for v in vals[1:]): return v0
        if any(isinstance(v, Poison) for v in vals): return Poison("merge")
        if all(isinstance(v, (str, OpaqueStr)) for v in vals):
            raise CantMerge()
        if all(isinstance(v, str) or is_z3(v) and v.sort() == U for v in vals):
            from . import ops
            vals = [ops.u_of(v) for v in vals]; v0 = vals[0]
        if all(isinstance(v, bool) or is_sbool(v) for v in vals):
            r = bz(vals[-1])
            for v, c in list(zip(vals, conds))[-2::-1]: r = z3.If(c, bz(v), r)
            return r
        if all(is_num(v) and not (isinstance(v, float) and (v != v or infconst(v))) for v in vals):
            zs = [rv(v) for v in vals]
            if any(z.sort() == REAL for z in zs): zs = [rr(z) for z in zs]
            r = zs[-1]
            for v, c in list(zip(zs, conds))[-2::-1]: r = z3.If(c, v, r)
            return r
        if any(isinstance(v, float) and infconst(v) for v in vals): raise CantMerge()
        if all(is_num(v) or isinstance(v, Fl) for v in vals):
            fs = [v if isinstance(v, Fl) else Fl(v, False) if not (isinstance(v, float) and v != v) else Fl(0, True)
                  for v in vals]
            return Fl(self.merge_vals([f.r for f in fs], conds, sts),
                      self.merge_vals([f.nan for f in fs], conds, sts))
        if all(is_z3(v) for v in vals) and len({v.sort() for v in vals}) == 1:
            r = vals[-1]
            for v, c in list(zip(vals, conds))[-2::-1]: r = z3.If(c, v, r)
            return r
        if any(is_pv(v) for v in vals):
            zs = [self.to_pv(v, s) for v, s in zip(vals, sts)]
            r = zs[-1]
            for v, c in list(zip(zs, conds))[-2::-1]: r = z3.If(c, v, r)
            return r
        if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
            return tuple(self.merge_vals([v[i] for v in vals], conds, sts) for i in range(len(v0)))
        if all(isinstance(v, Arr) for v in vals):
            return self.merge_arrs(vals, conds, sts)
        if isinstance(v0, PyVal):
            r = v0.merge(vals, lambda vs: self.merge_vals(vs, conds, sts))
            if r is not None: return r
        if all(isinstance(v, Ref) for v in vals):
            recs = [s.get(v) for v, s in zip(vals, sts)]
            rec = self.merge_recs(recs, conds, sts)
            return ("__newref__", rec)
        raise CantMerge()

    def merge_arrs(self, vals, conds, sts):
        a0 = vals[0]
        for a in vals[1:]:
            if len(a.shape) != len(a0.shape) or a.islist != a0.islist: raise CantMerge()
            if any(not same(rv(x), rv(y)) for x, y in zip(a.shape, a0.shape)):
                if not all(self.entails(s.pc, rv(x) == rv(y)) for s in sts for x, y in zip(a.shape, a0.shape)):
                    raise CantMerge()
        masks = [a.mask for a in vals]
        if any(m is not None for m in masks):
            k = fresh("mk")
            ms = [z3.BoolVal(True) if m is None else bz(m(k)) for m in masks]
            if not all(x.eq(ms[0]) for x in ms): raise CantMerge()
        # dtype promotion only sound element-wise; int/float mixture keeps values
        dts = {a.dtype for a in vals}
        if len(dts) > 1 and not dts <= {"int", "float", "bool"}: raise CantMerge()
        dt = a0.dtype if len(dts) == 1 else "mixed"
        # elements must be mergeable
        idx = [fresh("mi") for _ in a0.shape]
        self.merge_vals([a.fn(*idx) for a in vals], conds, sts)
        fns = [a.fn for a in vals]
        return Arr(a0.shape, lambda *i: self.merge_vals([f(*i) for f in fns], conds, sts), dt, a0.mask, a0.islist)

    def merge_recs(self, recs, conds, sts):
        r0 = recs[0]
        if all(same(r0, r) for r in recs[1:]): return r0
        if len({type(r) for r in recs}) > 1: raise CantMerge()
        if isinstance(r0, HList):
            if len({len(r.items) for r in recs}) > 1: raise CantMerge()
            return HList([self.merge_nr([r.items[i] for r in recs], conds, sts) for i in range(len(r0.items))])
        if isinstance(r0, HInst):
            if any(r.cls is not r0.cls for r in recs): raise CantMerge()
            keys = [k for k in r0.attrs if all(k in r.attrs for r in recs)]
            at = {k: self.merge_nr([r.attrs[k] for r in recs], conds, sts) for k in keys}
            for r in recs:
                for k in r.attrs:
                    if k not in at: at[k] = Poison("attribute %s set on some paths only" % k)
            return HInst(r0.cls, at)
        if isinstance(r0, HArr):
            if any(r.view is not None for r in recs): raise CantMerge()
            return HArr(self.merge_arrs([r.arr for r in recs], conds, sts))
        if isinstance(r0, HDict):
            if any(list(r.items) != list(r0.items) or r.fams != r0.fams for r in recs): raise CantMerge()
            return HDict({k: self.merge_nr([r.items[k] for r in recs], conds, sts) for k in r0.items}, r0.fams)
        if isinstance(r0, (self.loops.HAcc, self.loops.HDictAcc)):
            np_ = 0
            its = [r.items for r in recs]
            while all(len(i) > np_ for i in its) and all(i[np_] is its[0][np_] for i in its): np_ += 1
            out = list(its[0][:np_])
            if isinstance(r0, self.loops.HAcc) and all(len(i) == np_ + 1 and len(i[np_]) == 2 and z3.is_true(i[np_][0]) for i in its):
                try:
                    v = self.merge_nr([i[np_][1] for i in its], conds, sts)
                    return self.loops.HAcc(r0.base, out + [(z3.BoolVal(True), v)])
                except CantMerge:
                    pass
            for c, i in zip(conds, its):
                for x in i[np_:]:
                    out.append((bz(And(c, x[0])),) + tuple(x[1:]))
            return type(r0)(r0.base, out)
        raise CantMerge()

    def merge_nr(self, vals, conds, sts):
        v = self.merge_vals(vals, conds, sts)
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == "__newref__": raise CantMerge()
        return v

    def merge_states(self, base, sts):
        """try to merge all states into one; raises CantMerge"""
        if len(sts) == 1: return sts[0]
        n = 0
        pcs = [s.pc for s in sts]
        while all(len(p) > n for p in pcs) and all(p[n].eq(pcs[0][n]) for p in pcs): n += 1
        sufs = [p[n:] for p in pcs]
        conds = [z3.And(*s) if len(s) > 1 else (s[0] if s else z3.BoolVal(True)) for s in sufs]
        evs = [s.events for s in sts]
        ne = 0
        while all(len(e) > ne for e in evs) and all(e[ne] is evs[0][ne] for e in evs): ne += 1
        events = list(evs[0][:ne])
        for c, e in zip(conds, evs):
            for x in e[ne:]:
                events.append(self.loops.FamEvent(x.kind, x.data, bz(And(c, x.guard)), x.bound))
        m = sts[0].fork()
        m.events = events
        m.nid = max(s.nid for s in sts)
        if any(len(s.frames) != len(m.frames) for s in sts): raise CantMerge()
        # heap: objects allocated after the fork point and no longer reachable are dropped
        keep = set(base.heap) if base is not None else set()
        hs = []
        for s in sts:
            live = keep | self.reach(s)
            hs.append({i: r for i, r in s.heap.items() if i in live})
        heap = {}
        for i in set().union(*hs):
            have = [h[i] for h in hs if i in h]
            if len(have) < len(hs):
                if all(same(have[0], h) for h in have[1:]): heap[i] = have[0]
                else: raise CantMerge()
                continue
            heap[i] = have[0] if all(same(have[0], r) for r in have[1:]) else self.merge_recs(have, conds, sts)
        m.heap = heap
        newrefs = {}
        for fi in range(len(m.frames)):
            names = set()
            for s in sts: names |= set(s.frames[fi].vars)
            for nm in names:
                vs = [s.frames[fi].vars.get(nm, Poison("unset on some path")) for s in sts]
                v = self.merge_vals(vs, conds, sts)
                if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == "__newref__":
                    key = tuple(x.id for x in vs)
                    if key not in newrefs: newrefs[key] = m.alloc(v[1])
                    v = newrefs[key]
                m.frames[fi].vars[nm] = v
        g = {}
        for k in set().union(*[set(s.ghost) for s in sts]):
            vs = [s.ghost.get(k) for s in sts]
            if not all(same(vs[0], v) for v in vs[1:]): raise CantMerge()
            g[k] = vs[0]
        m.ghost = g
        m.pc = list(pcs[0][:n])
        if len(sts) == 2 and len(sufs[0]) == 1 and len(sufs[1]) == 1 and \
                (Not(sufs[0][0]) is not None) and z3.is_true(z3.simplify(z3.Or(sufs[0][0], sufs[1][0]))):
            pass
        else:
            d = z3.simplify(z3.Or(*conds))
            if not z3.is_true(d): m.pc.append(z3.Or(*conds))
        m.oracle = None
        return m

    def reach(self, s):
        live, todo = set(), []
        def scan(v):
            if isinstance(v, Ref):
                if v.id not in live and v.id in s.heap:
                    live.add(v.id); todo.append(s.get(v))
            elif isinstance(v, (tuple, list)):
                for x in v: scan(x)
            elif isinstance(v, BoundMethod): scan(v.self_)
            elif isinstance(v, FuncVal) and v.closure:
                for x in v.closure.values():
                    if x is not v: scan(x)
            elif isinstance(v, dict):
                for x in v.values(): scan(x)
        for f in s.frames:
            scan(f.vars)
            scan(f.self_)
        scan(s.ghost)
        for e in s.events: scan(e.data)
        while todo:
            r = todo.pop()
            if isinstance(r, (HList, HSet)): scan(r.items)
            elif isinstance(r, HDict): scan(r.items)
            elif isinstance(r, HInst): scan(r.attrs)
            elif isinstance(r, (self.loops.HAcc, self.loops.HDictAcc)):
                for x in r.items: scan(list(x[1:]))
            elif isinstance(r, self.loops.HFam):
                for x in r.items: scan(list(x[1:2]))
        return live

    def merge_outs(self, base, outs):
        """merge normal outcomes where possible (pairwise greedy); other outcomes kept"""
        res = []
        for kind in (NORMAL, CONTINUE, BREAK):
            grp = [s for s, o in outs if o.kind == kind]
            if not grp: continue
            for s in self.merge_group(base, grp): res.append((s, Out(kind)))
        rets = [(s, o) for s, o in outs if o.kind == RETURN]
        if len(rets) > 1:
            for s, o in rets: s.frames[-1].vars["$ret"] = o.val
            for s in self.merge_group(base, [s for s, _ in rets]):
                res.append((s, Out(RETURN, s.frames[-1].vars.pop("$ret"))))
        else:
            res.extend(rets)
        res.extend((s, o) for s, o in outs if o.kind == RAISE)
        return res

    def merge_group(self, base, grp):
        if len(grp) == 1: return grp
        try:
            return [self.merge_states(base, grp)]
        except CantMerge:
            pass
        if len(grp) == 2: return grp
        cur = []
        for s in grp:
            for i, t in enumerate(cur):
                try:
                    cur[i] = self.merge_states(base, [t, s])
                    break
                except CantMerge:
                    continue
            else:
                cur.append(s)
        return cur

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        states = [st]
        done = []
        base = st.fork() if len(stmts) > 1 else st
        for stmt in stmts:
            nxt = []
            for s in states:
                for s2, o in self.exec_stmt(stmt, s):
                    if o.kind == NORMAL: nxt.append(s2)
                    else: done.append((s2, o))
            if len(nxt) > 1: nxt = self.merge_group(base, nxt)
            states = nxt
            if len(states) > 300: raise Unsupported("state explosion")
            if not states: break
        return done + [(s, ON) for s in states]

    def exec_stmt(self, stmt, st):
        m = getattr(self, "st_" + type(stmt).__name__, None)
        if m is not None:
            return m(stmt, st)
        m = getattr(self, "ss_" + type(stmt).__name__, None)
        if m is None: raise Unsupported("statement %s" % type(stmt).__name__)
        return self.merge_outs(st, self.run(lambda s: m(stmt, s), st))

    # ---- statements whose value is a call: the callee's outcomes become the statement's outcomes directly
    def call_parts(self, n, st):
        f = self.eval(n.func, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.as_items(self.eval(a.value, st), st)
                if it is None: raise Unsupported("*args symbolic")
                args.extend(it)
            else: args.append(self.eval(a, st))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(st.get(v), HDict): kw.update(st.get(v).items)
                elif is_pv(v) or isinstance(v, Opaque): kw["**"] = v
                else: raise Unsupported("**kwargs of %r" % (v,))
            else: kw[k.arg] = v
        return f, args, kw

    def call_multi(self, f, args, kwargs, st):
        """all outcomes of a call, as (state, Out)"""
        if isinstance(f, BoundMethod) and isinstance(f.func, FuncVal):
            return self.call_multi(f.func, [f.self_] + list(args), kwargs, st)
        if isinstance(f, ClassVal) and f.qual not in self.contracts:
            init = self.class_attr(f, "__init__")
            if isinstance(init, FuncVal):
                s0 = st.fork()
                ref = s0.alloc(HInst(f, {}))
                return [(s, Out(RETURN, ref) if o.kind == RETURN else o)
                        for s, o in self.call_multi(init, [ref] + list(args), kwargs, s0)]
        if isinstance(f, FuncVal) and not isinstance(f.node, ast.Lambda) and \
                not (f.qual in self.contracts and not self.seen_funcs.get(f.qual)):
            res = []
            for s1, o1 in self.run(lambda s: Out(RETURN, self.bind(f, list(args), dict(kwargs), s)), st):
                if o1.kind == RAISE: res.append((s1, o1))
                else: res.extend(self.body_outs(f, o1.val, args[0] if args else None, s1))
            return res
        return self.run(lambda s: Out(RETURN, self.call(f, list(args), dict(kwargs), s)), st)

    def stmt_call(self, n, st, done):
        outs = []
        for s1, o1 in self.run(lambda s: Out(RETURN, self.call_parts(n, s)), st):
            if o1.kind == RAISE: outs.append((s1, o1)); continue
            f, args, kw = o1.val
            if "**" in kw:
                rs = self.run(lambda s: Out(RETURN, self.call(f, args, kw, s)), s1)
            else:
                rs = self.call_multi(f, args, kw, s1)
            for s2, o2 in rs:
                if o2.kind == RAISE: outs.append((s2, o2))
                else: outs.extend(self.run(lambda s: done(s, o2.val), s2))
        return self.merge_outs(st, outs)

    def plain_call(self, v):
        return isinstance(v, ast.Call) and not (isinstance(v.func, ast.Name) and v.func.id == "super" and not v.args)

    def st_Expr(self, n, st):
        if self.plain_call(n.value): return self.stmt_call(n.value, st, lambda s, v: ON)
        return self.merge_outs(st, self.run(lambda s: self.ss_Expr(n, s), st))

    def st_Return(self, n, st):
        if n.value is not None and self.plain_call(n.value): return self.stmt_call(n.value, st, lambda s, v: Out(RETURN, v))
        return self.merge_outs(st, self.run(lambda s: self.ss_Return(n, s), st))

    def st_Assign(self, n, st):
        if self.plain_call(n.value):
            def done(s, v):
                for t in n.targets: self.assign(t, v, s)
                return ON
            return self.stmt_call(n.value, st, done)
        return self.merge_outs(st, self.run(lambda s: self.ss_Assign(n, s), st))

    def ss_Expr(self, n, st):
        if isinstance(n.value, ast.Constant): return ON
        self.eval(n.value, st)

    def ss_Pass(self, n, st): return ON
    def ss_Import(self, n, st):
        for a in n.names:
            st.frame.vars[a.asname or a.name.split(".")[0]] = self.do_import(n, a, st.frame.module)
    ss_ImportFrom = ss_Import
    def ss_Global(self, n, st): raise Unsupported("global")
    def ss_Return(self, n, st):
        return Out(RETURN, self.eval(n.value, st) if n.value is not None else None)
    def ss_Break(self, n, st): return Out(BREAK)
    def ss_Continue(self, n, st): return Out(CONTINUE)

    def ss_Raise(self, n, st):
        if n.exc is None:
            raise PyRaise("Exception")
        et = None
        e = n.exc
        if isinstance(e, ast.Call):
            f = self.eval(e.func, st)
            et = f.name.split(".")[-1] if isinstance(f, (Ext, ClassVal)) else None
        else:
            v = self.eval(e, st)
            if isinstance(v, ExcVal): et = v.etype
            elif isinstance(v, (Ext, ClassVal)): et = v.name.split(".")[-1]
        if et is None: raise Unsupported("raise")
        raise PyRaise(et, ast.unparse(e)[:80])

    def ss_Assert(self, n, st):
        if not self.truth(self.eval(n.test, st), st): raise PyRaise("AssertionError")

    def ss_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name): st.frame.vars.pop(t.id, None)
            else: raise Unsupported("del")

    def ss_Assign(self, n, st):
        v = self.eval(n.value, st)
        for t in n.targets: self.assign(t, v, st)

    def ss_AnnAssign(self, n, st):
        if n.value is not None: self.assign(n.target, self.eval(n.value, st), st)

    def ss_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            st.frame.vars[t.id] = self.augop(n.op, cur, self.eval(n.value, st), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr(o, t.attr, st)
            self.setattr(o, t.attr, self.augop(n.op, cur, self.eval(n.value, st), st), st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval_index(t.slice, st)
            cur = self.getitem(o, k, st)
            val = self.eval(n.value, st)
            new = self.augop(n.op, cur, val, st)
            self.setitem(o, k, new, st)
        else:
            raise Unsupported("augassign")

    def augop(self, op, cur, val, st):
        if isinstance(cur, Ref):
            r = st.get(cur)
            if isinstance(r, HList) and isinstance(op, ast.Add):
                vr = self.as_items(val, st)
                if vr is None: raise Unsupported("list += symbolic")
                st.put(cur, HList(r.items + tuple(vr)))
                return cur
            if isinstance(r, HArr) and not r.arr.islist:
                res = self.binop(op, cur, val, st)
                ra = self.as_arr(res, st)
                if r.view is not None: raise Unsupported("in-place op on a view")
                a = ra
                if r.arr.dtype == "int" and ra.dtype == "float":
                    raise PyRaise("UFuncTypeError")
                st.put(cur, HArr(Arr(a.shape, a.fn, r.arr.dtype if r.arr.dtype != "bool" else a.dtype, a.mask)))
                return cur
        return self.binop(op, cur, val, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name): st.frame.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.as_items(v, st)
            if vs is None: raise Unsupported("unpack %r" % (v,))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]; k = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], vs[:i]): self.assign(x, y, st)
                self.assign(t.elts[i].value, st.alloc(HList(vs[i:len(vs) - k])), st)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - k:]): self.assign(x, y, st)
                return
            if len(vs) != len(t.elts): raise PyRaise("ValueError", "unpack")
            for x, y in zip(t.elts, vs): self.assign(x, y, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            self.setitem(o, self.eval_index(t.slice, st), v, st)
        else:
            raise Unsupported("assign %s" % type(t).__name__)

    def st_If(self, n, st):
        res = self.run(lambda s: Out("t" if self.truth(self.eval(n.test, s), s) else "f"), st)
        outs = [(s, o) for s, o in res if o.kind == RAISE]
        for kind, body in (("t", n.body), ("f", n.orelse)):
            grp = [s for s, o in res if o.kind == kind]
            if not grp: continue
            for s in self.merge_group(st, grp):
                outs.extend(self.exec_block(body, s) if body else [(s, ON)])
        return self.merge_outs(st, outs)

    def st_FunctionDef(self, n, st):
        f = FuncVal(n, st.frame.module, st.frame.qual + "." + n.name, closure=dict(st.frame.vars))
        f.closure[n.name] = f
        st.frame.vars[n.name] = f
        return [(st, ON)]

    def st_With(self, n, st):
        def go(s):
            for it in n.items:
                v = self.eval(it.context_expr, s)
                if it.optional_vars is not None: self.assign(it.optional_vars, v, s)
        outs = []
        for s, o in self.run(go, st):
            if o.kind != NORMAL: outs.append((s, o))
            else: outs.extend(self.exec_block(n.body, s))
        return outs

    def st_Try(self, n, st):
        outs = []
        for s, o in self.exec_block(n.body, st):
            if o.kind == NORMAL and n.orelse:
                outs.extend(self.exec_block(n.orelse, s)); continue
            if o.kind != RAISE:
                outs.append((s, o)); continue
            handled = False
            for h in n.handlers:
                names = None
                if h.type is not None:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [ast.unparse(x).split(".")[-1] for x in ts]
                if names is None or o.val.etype in names or "Exception" in names or "BaseException" in names:
                    if h.name: s.frame.vars[h.name] = ExcVal(o.val.etype)
                    outs.extend(self.exec_block(h.body, s)); handled = True
                    break
            if not handled: outs.append((s, o))
        if n.finalbody:
            o2 = []
            for s, o in outs:
                for s3, o3 in self.exec_block(n.finalbody, s):
                    o2.append((s3, o if o3.kind == NORMAL else o3))
            outs = o2
        return outs

    def st_For(self, n, st):
        outs = []
        for s, o in self.run(lambda s: Out("it", self.iter_of(self.eval(n.iter, s), s)), st):
            if o.kind == RAISE:
                outs.append((s, o)); continue
            it = o.val
            c = self.loop_contract and self.loop_contract(self, n, s)
            if c and not isinstance(it, list):
                outs.extend(self.loops.contract_loop(self, n, s, c, it))
            elif isinstance(it, list):
                outs.extend(self.unroll(n, s, it))
            else:
                outs.extend(self.loops.for_symbolic(self, n, s, it))
        return self.merge_outs(st, outs)

    def unroll(self, n, st, items):
        states, outs = [st], []
        for v in items:
            nxt = []
            for s in states:
                def go(s2, v=v):
                    self.assign(n.target, v, s2)
                for s1, o1 in self.run(go, s):
                    if o1.kind == RAISE:
                        outs.append((s1, o1)); continue
                    for s2, o in self.exec_block(n.body, s1):
                        if o.kind in (NORMAL, CONTINUE): nxt.append(s2)
                        elif o.kind == BREAK: outs.append((s2, ON))
                        else: outs.append((s2, o))
            states = self.merge_group(st, nxt) if len(nxt) > 1 else nxt
            if len(states) > 200: raise Unsupported("state explosion in loop")
        if n.orelse:
            for s in states: outs.extend(self.exec_block(n.orelse, s))
        else:
            outs.extend((s, ON) for s in states)
        return outs

    def st_While(self, n, st):
        c = self.loop_contract and self.loop_contract(self, n, st)
        if c: return self.merge_outs(st, self.loops.contract_loop(self, n, st, c))
        return self.loops.while_loop(self, n, st)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, st):
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs, st)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), dict(kwargs), st)
        if isinstance(f, ClassVal):
            return self.instantiate(f, list(args), dict(kwargs), st)
        if isinstance(f, Ext):
            return self.call_ext(f.name, list(args), dict(kwargs), st)
        touch(f)
        if isinstance(f, Opaque):
            return Opaque(f.name + "()")
        if is_pv(f) and self.opts.get("pvcall") == "data":
            raise PyRaise("__DATA__", "method of a user object called")
        if callable(f) and not is_z3(f):
            return f(self, st, list(args), dict(kwargs))
        if isinstance(f, Ref) and isinstance(st.get(f), HInst):
            m = self.class_attr(st.get(f).cls, "__call__") if isinstance(st.get(f).cls, ClassVal) else None
            if m: return self.call(BoundMethod(f, m), args, kwargs, st)
        raise Unsupported("call of %r" % (f,))

    def call_ext(self, name, args, kwargs, st):
        touch(*args); touch(*kwargs.values())
        m = self.ext.get(name)
        if m is None:
            m = self.ext.get(name.split(".")[-1]) if name in ("builtins." + name.split(".")[-1],) else None
        if m is None:
            raise Unsupported("external function %s" % name)
        self.stats["ext_used"].add(name)
        return m(self, st, args, kwargs)

    def instantiate(self, cls, args, kwargs, st):
        q = cls.qual
        if q in self.contracts:
            self.stats["contracts_used"].add(q)
            return self.contracts[q](self, st, args, kwargs)
        ref = st.alloc(HInst(cls, {}))
        init = self.class_attr(cls, "__init__")
        if init is not None:
            self.call_func(init, [ref] + args, kwargs, st)
        return ref

    def bind(self, f, args, kwargs, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        if len(args) > len(pos) and a.vararg is None:
            raise PyRaise("TypeError", "too many arguments to %s" % f.qual)
        for nm, v in zip(pos, args): vars[nm] = v
        if a.vararg is not None: vars[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in vars: raise PyRaise("TypeError", "multiple values for %s" % k)
                vars[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: raise PyRaise("TypeError", "unexpected keyword %s in %s" % (k, f.qual))
        if a.kwarg is not None: vars[a.kwarg.arg] = st.alloc(HDict(extra))
        dstart = len(pos) - len(a.defaults)
        for i, nm in enumerate(pos):
            if nm not in vars:
                if i >= dstart: vars[nm] = self.eval_in(a.defaults[i - dstart], f.module, st)
                else: raise PyRaise("TypeError", "missing argument %s of %s" % (nm, f.qual))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vars:
                if d is None: raise PyRaise("TypeError", "missing kwonly %s" % x.arg)
                vars[x.arg] = self.eval_in(d, f.module, st)
        return vars

    def eval_in(self, node, module, st):
        st.frames.append(Frame({}, module, "<default>"))
        try:
            return self.eval(node, st)
        finally:
            st.frames.pop()

    def call_func(self, f, args, kwargs, st):
        if f.qual in self.contracts and not (self.seen_funcs.get(f.qual)):
            self.stats["contracts_used"].add(f.qual)
            return self.contracts[f.qual](self, st, args, kwargs)
        if f.kind == "classmethod" and args and isinstance(args[0], Ref): pass
        vars = self.bind(f, args, kwargs, st)
        if self.depth > 60: raise Unsupported("recursion depth")
        if isinstance(f.node, ast.Lambda):
            st.frames.append(Frame(vars, f.module, f.qual, f.cls, None, f.closure))
            try:
                return self.eval(f.node.body, st)
            finally:
                st.frames.pop()
        outer = st.oracle
        outs = self.body_outs(f, vars, args[0] if args else None, st)
        if not outs: raise Infeasible()
        if len(outs) == 1: k = 0
        else:
            if outer is None: raise Unsupported("call forks outside exploration")
            k = outer.choose(len(outs))
        s, o = outs[k]
        st.become(s)
        st.oracle = outer
        if o.kind == RAISE: raise o.val
        return o.val

    def body_outs(self, f, vars, self_, st):
        """execute a function body: merged (state, RETURN/RAISE) outcomes with the callee frame removed"""
        self.stats["inlined"].add(f.qual)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)): raise Unsupported("generator function %s" % f.qual)
        if self.depth > 60: raise Unsupported("recursion depth")
        sub = st.fork()
        sub.frames.append(Frame(vars, f.module, f.qual, f.cls, self_, f.closure))
        self.depth += 1
        try:
            outs = self.exec_block(f.node.body, sub)
        finally:
            self.depth -= 1
        outs = [(s, o if o.kind != NORMAL else Out(RETURN, None)) for s, o in outs]
        for s, o in outs:
            s.frames[-1].vars = {}
        outs = self.merge_outs(st, outs)
        for s, o in outs: s.frames.pop()
        return outs

    # ------------------------------------------------------------------ expressions
    def eval(self, n, st):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(n).__name__)
        return m(n, st)

    def ex_Constant(self, n, st): return n.value
    def ex_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.eval(v.value, st)
                if isinstance(x, (str, int)) and v.format_spec is None and v.conversion == -1: parts.append(str(x))
                else: return OpaqueStr()
        return "".join(parts)

    def ex_Name(self, n, st):
        f = st.frame
        if n.id in f.vars:
            v = f.vars[n.id]
        elif f.closure is not None and n.id in f.closure:
            v = f.closure[n.id]
        else:
            try:
                v = f.module.lookup(n.id)
            except KeyError:
                v = Ext(n.id)
        if isinstance(v, Poison): raise Unsupported("read of %s: %s" % (n.id, v.why))
        return v

    def ex_Tuple(self, n, st): return tuple(self.elts(n.elts, st))
    def ex_List(self, n, st): return st.alloc(HList(self.elts(n.elts, st)))
    def ex_Set(self, n, st): return st.alloc(HSet(self.elts(n.elts, st)))
    def elts(self, es, st):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                it = self.as_items(self.eval(e.value, st), st)
                if it is None: raise Unsupported("starred symbolic")
                out.extend(it)
            else: out.append(self.eval(e, st))
        return out

    def ex_Dict(self, n, st):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                r = self.eval(v, st)
                rec = st.get(r) if isinstance(r, Ref) else None
                if not isinstance(rec, HDict): raise Unsupported("** of non dict")
                d.update(rec.items)
            else:
                d[self.hashkey(self.eval(k, st))] = self.eval(v, st)
        return st.alloc(HDict(d))

    def hashkey(self, k):
        k = conc(k)
        if isinstance(k, (str, int, float, bool, type(None))): return k
        if isinstance(k, tuple): return tuple(self.hashkey(x) for x in k)
        raise Unsupported("symbolic dict key")

    def ex_IfExp(self, n, st):
        c = self.to_bool(self.eval(n.test, st), st)
        if is_z3(c): c = conc(z3.simplify(c))
        if isinstance(c, bool): return self.eval(n.body if c else n.orelse, st)
        return self.eval(n.body if self.decide(c, st) else n.orelse, st)

    def ex_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, st)
            if i == len(n.values) - 1: return v
            t = self.truth(v, st)
            if isand and not t: return v if not is_z3(v) or not z3.is_bool(v) else False
            if not isand and t: return v if not is_z3(v) or not z3.is_bool(v) else True
        return v

    def ex_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            b = self.to_bool(v, st)
            return Not(b)
        return self.unop(n.op, v, st)

    def unop(self, op, v, st):
        from . import ops
        return ops.unop(self, op, v, st)

    def ex_BinOp(self, n, st):
        return self.binop(n.op, self.eval(n.left, st), self.eval(n.right, st), st)

    def binop(self, op, a, b, st):
        from . import ops
        return ops.binop(self, op, a, b, st)

    def ex_Compare(self, n, st):
        left = self.eval(n.left, st)
        res = None
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, st)
            c = self.compare(op, left, right, st)
            if i == len(n.ops) - 1:
                return c
            if not self.truth(c, st): return False
            left = right
        return res

    def compare(self, op, a, b, st):
        from . import ops
        return ops.compare(self, op, a, b, st)

    def ex_Lambda(self, n, st):
        return FuncVal(n, st.frame.module, st.frame.qual + ".<lambda>", closure=self.captured(st))

    def captured(self, st):
        c = dict(st.frame.closure or {})
        c.update(st.frame.vars)
        return c

    def ex_Attribute(self, n, st):
        return self.getattr(self.eval(n.value, st), n.attr, st)

    def ex_Subscript(self, n, st):
        o = self.eval(n.value, st)
        k = self.eval_index(n.slice, st)
        return self.getitem(o, k, st)

    def eval_index(self, n, st):
        if isinstance(n, ast.Slice):
            return SliceVal(*[self.eval(x, st) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return tuple(self.eval_index(x, st) for x in n.elts)
        return self.eval(n, st)

    def ex_Slice(self, n, st): return self.eval_index(n, st)

    def ex_Call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return SuperVal(st.frame.self_, st.frame.cls)
        # all()/any()/sum() over generator expressions keep their generator form
        f = self.eval(n.func, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.as_items(self.eval(a.value, st), st)
                if it is None: raise Unsupported("*args symbolic")
                args.extend(it)
            else: args.append(self.eval(a, st))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(st.get(v), HDict): kw.update(st.get(v).items)
                elif is_pv(v) or isinstance(v, Opaque): kw["**"] = v
                else: raise Unsupported("**kwargs of %r" % (v,))
            else: kw[k.arg] = v
        return self.call(f, args, kw, st)

    # comprehensions
    def ex_ListComp(self, n, st):
        r = self.loops.comprehension(self, n.elt, n.generators, st)
        if isinstance(r, list): return st.alloc(HList(r))
        return st.alloc(HArr(r))
    def ex_GeneratorExp(self, n, st):
        r = self.loops.comprehension(self, n.elt, n.generators, st)
        if isinstance(r, list): return tuple(r)
        return r
    def ex_SetComp(self, n, st):
        r = self.loops.comprehension(self, n.elt, n.generators, st)
        if isinstance(r, list): return st.alloc(HSet(r))
        raise Unsupported("symbolic set comprehension")
    def ex_DictComp(self, n, st):
        r = self.loops.comprehension(self, ast.Tuple([n.key, n.value], ast.Load()), n.generators, st)
        if isinstance(r, list):
            return st.alloc(HDict({self.hashkey(k): v for k, v in r}))
        k = fresh("dk")
        e = r.fn(k) if r.mask is None and r.dtype != "nested" else None
        if isinstance(e, tuple) and len(e) == 2 and is_z3(e[0]) and e[0].sort() == INT:
            f = self.loops.DFam((k,), z3.And(k >= 0, k < rv(r.n)), (e[0],), e[1])
            if f._shift(e[0]) is not None: return st.alloc(HDict({}, (f,)))        # distinct keys
        raise Unsupported("symbolic dict comprehension")

    # ------------------------------------------------------------------ iteration helpers
    def iter_of(self, v, st):
        """python list of values, or a symbolic iteration: Arr-like (count, value fn)"""
        from . import ops
        return ops.iter_of(self, v, st)

    def as_items(self, v, st):
        if isinstance(v, tuple): return list(v)
        if isinstance(v, list): return v
        if isinstance(v, str): return list(v)
        if isinstance(v, Ref):
            r = st.get(v)
            if isinstance(r, (HList, HSet)): return list(r.items)
            if isinstance(r, HDict) and not r.fams: return list(r.items)
            if isinstance(r, HArr): return self.as_items(r.arr, st)
        if isinstance(v, Arr) and v.mask is None and isinstance(conc(v.n), int):
            k = conc(v.n)
            if len(v.shape) == 1: return [v.fn(i) for i in range(k)]
            return [Arr(v.shape[1:], (lambda i: lambda *r: v.fn(i, *r))(i), v.dtype) for i in range(k)]
        if isinstance(v, Rng):
            lo, hi, s = conc(v.lo), conc(v.hi), conc(v.step)
            if all(isinstance(x, int) for x in (lo, hi, s)): return list(range(lo, hi, s))
        return None

    def as_arr(self, v, st):
        if isinstance(v, Arr): return v
        if isinstance(v, Ref):
            r = st.get(v)
            if isinstance(r, HArr): return r.arr
        return None

    def length(self, v, st):
        from . import ops
        return ops.length(self, v, st)

    def getattr(self, o, name, st):
        from . import ops
        return ops.getattr_(self, o, name, st)

    def setattr(self, o, name, v, st):
        if isinstance(o, PyVal): return o.setattr(self, st, name, v)
        if isinstance(o, Ref):
            r = st.get(o)
            if isinstance(r, HInst):
                at = dict(r.attrs); at[name] = v
                st.put(o, HInst(r.cls, at))
                return
        raise Unsupported("setattr on %r" % (o,))

    def getitem(self, o, k, st):
        from . import ops
        return ops.getitem(self, o, k, st)

    def setitem(self, o, k, v, st):
        from . import ops
        return ops.setitem(self, o, k, v, st)

    def to_pv(self, v, st):
        if is_pv(v): return v
        if v is None: return PV.PNone
        if isinstance(v, bool): return PV.PBool(z3.BoolVal(v))
        if is_sbool(v): return PV.PBool(v)
        if isinstance(v, int): return PV.PInt(z3.IntVal(v))
        if isinstance(v, (float, Fraction)): return PV.PReal(rv(v))
        if is_z3(v) and v.sort() == INT: return PV.PInt(v)
        if is_z3(v) and v.sort() == REAL: return PV.PReal(v)
        if isinstance(v, str): return PV.PStr(z3.IntVal(str_id(v)))
        raise CantMerge()

    # ------------------------------------------------------------------ top level
    def start(self, module="optbinning"):
        st = State(self)
        st.frames.append(Frame({}, self.module(module), "<spec>"))
        return st

    def paths(self, fn, st):
        """explore a spec-level python function fn(st) -> value; list of (state, 'return'|'raise', value)"""
        outs = self.run(lambda s: Out(RETURN, fn(s)), st)
        outs = self.merge_outs(st, outs)
        return outs
