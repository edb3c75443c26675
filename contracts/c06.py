"""C06  Optimal bins respect the requested trend and minimum differences."""
from contracts import optm, optwire
from contracts.optm import *

SEARCH_BUDGET = 45
ASSUMPTIONS = list(optm.ASSUMPTIONS) + optwire.ASSUMPTIONS
ORDER = {"ascending": 1, "descending": -1}


def trend_group(kind, trend, tpos=1, diff=0):
    def g(ctx):
        v, res = build(ctx, kind, trend=trend, diff=diff, tpos=tpos)
        multi = kind in ("mcp", "mmip")
        for x in res:
            structure(x, ctx)
            n = x.n
            for c in ([tpos] if multi else range(x.K)):
                F = lambda a, b, c=c: x.D[c](a, b)
                T, inst = telescope(x, ctx, F, "rates %d" % c)
                r = lambda a: F(a, x.ST(a))
                a, b, d = z3.Ints("a b d")
                sel = lambda *t: [z3.And(0 <= q, q < n, x.sel(q)) for q in t]
                two, three = list(x.s.pc) + at(x, [a, b]), list(x.s.pc) + at(x, [a, b, d])
                pa = [inst(a), inst(b)]
                if trend in ORDER:
                    ctx.prove("bins %s (%d)" % (trend, c), two + sel(a, b) + [a < b] + pa, (r(b) - r(a)) * ORDER[trend] >= 0)
                elif trend in ("concave", "convex"):
                    sg = 1 if trend == "concave" else -1
                    ctx.prove("bins %s (%d)" % (trend, c), three + sel(a, b, d) + [a < b, b < d] + pa + [inst(d)], (2 * r(b) - r(a) - r(d)) * sg >= 0)
                else:
                    sg = 1 if trend.startswith("peak") else -1
                    ctx.prove("bins %s: no bin between two that both turn the other way (%d)" % (trend, c), three + sel(a, b, d) + [a < b, b < d] + pa + [inst(d)],
                              z3.Or((r(b) - r(a)) * sg >= 0, (r(b) - r(d)) * sg >= 0), timeout=20000)
        v.done()
    return g


def violation_group(kind):
    """no accepted solution holds both groups of a listed pair"""
    def g(ctx):
        v, res = build(ctx, kind, viol=True)
        for x in res:
            q = z3.Int("q")
            for c in range(2 * x.K):
                p = x.P[c]
                i, j, z, l = (p[t](q) for t in range(4))
                rng_ = [q >= 0, q < x.np[c], 0 <= j, j <= i, i < l, l <= z, z < x.n]
                ctx.prove("%s violations are excluded (%d)" % ("p-value" if c < x.K else "difference", c % x.K),
                          list(x.s.pc) + at(x, [q]) + rng_ + binary(x, (i, j), (z, l), (z, l - 1)) + [z3.Implies(j >= 1, z3.And(x.X(i, j - 1) >= 0, x.X(i, j - 1) <= 1))],
                          z3.Not(z3.And(x.X(i, j) == 1, x.X(z, l) == 1, x.X(z, l - 1) == 0, z3.Implies(j >= 1, x.X(i, j - 1) == 0))))
        v.done()
    return g


GROUPS = []
T1 = ["ascending", "descending", "concave", "convex", "peak", "valley"]
for k in ("cp", "mip", "cont", "mcp", "mmip", "scen"):
    for t in T1 + (["peak_heuristic", "valley_heuristic"] if k != "scen" else []):
        for pos in ((0, 1, 2) if k in ("mcp", "mmip") else (1,)):
            GROUPS.append(("%s %s%s" % (k, t, " class %d" % pos if k in ("mcp", "mmip") else ""), trend_group(k, t, pos), 90))
    GROUPS.append(("%s violations" % k, violation_group(k), 60))
from contracts import moddata
GROUPS += moddata.groups(("lists", "rates"))
GROUPS += [("list diff", moddata.find("diff"), 40), ("test_proportions", moddata.proportions, 30)]
for p in ("all", "consecutive"): GROUPS += [("list pvalue " + p, moddata.find("pvalue", p), 40), ("list pvalue continuous " + p, moddata.find("cont", p), 40)]
GROUPS += optwire.groups(("diff",))
