"""C21  Fitting again on the same data gives the same binning."""
from contracts import fitwire

SEARCH_BUDGET = 60
ASSUMPTIONS = ["the functions fit calls (split_data, pre-binning, refinement, solver, row builder) are functions of their arguments; the solver may choose among tied optima"]
GROUPS = fitwire.groups("fresh")
