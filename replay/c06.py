"""Bounded search for C06 (see replay/optm.py)."""
from replay import optm

RULE = "the same random problems with random trends, minimum differences and p-values; rates of the accepted bins recomputed from the counts; distinct = distinct problems"


def cases(rng, tier): return optm.cases(rng, tier, "C06")


def check(c): return optm.check(c, "C06")
