"""C05  Optimal bins respect every size, count and fixed-split bound."""
from contracts import optm
from contracts.optm import *

SEARCH_BUDGET = 45
ASSUMPTIONS = list(optm.ASSUMPTIONS)
ALL = ("nmin", "nmax", "smin", "smax", "emin", "emax", "nemin", "nemax")
GROUPS = []
for k in ("cp", "mip", "cont", "mcp", "mmip", "scen"):
    q = ALL if k in ("cp", "mip") else ALL[:4]
    for nm, b in (("all bounds", q), ("minima", [z for z in q if z.endswith("min")]), ("maxima", [z for z in q if z.endswith("max")])):
        GROUPS.append(("%s %s" % (k, nm), bounds_group(k, b), 90))
from contracts import optwire
GROUPS += optwire.groups(("bounds",))
GROUPS += [("solve %s" % k, optwire.solve_group(k), 40) for k in ("cp", "mip", "cont", "mcp", "mmip")]
ASSUMPTIONS += optwire.ASSUMPTIONS
GROUPS += [("gamma %s" % k, bounds_group(k, ("nmin", "nmax", "smin", "smax"), True, True), 60) for k in ("cp", "mip", "cont")]
from contracts import fitwire
GROUPS += [("samples " + nm[4:], f, b) for nm, f, b in fitwire.groups("samples")]
GROUPS += [("fixed " + nm[4:], f, b) for nm, f, b in fitwire.groups("fixed")]
from contracts import scenfit
GROUPS += scenfit.groups()[1:]
ASSUMPTIONS += scenfit.ASSUMPTIONS
