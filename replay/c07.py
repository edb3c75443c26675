"""Bounded search for C07 (see replay/optm.py)."""
from replay import optm

RULE = "random problems of up to 6 pre-bins: each of (at most 12 of) the 2^(n-1) binnings is fixed in the real model and solved; admissibility and objective compared with the definitions; distinct = distinct problems"


def cases(rng, tier): return optm.cases(rng, tier, "C07")


def check(c): return optm.check(c, "C07")
