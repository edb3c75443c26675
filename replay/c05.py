"""Bounded search for C05 (see replay/optm.py)."""
from replay import optm

RULE = "random binning problems of up to 7 pre-bins handed to the real model builders and solvers (binary CP and MIP with CBC, continuous, multiclass, scenarios) with random subsets of bounds and fixed splits, and random fits; every accepted solution recomputed from the counts; distinct = distinct problems"


def cases(rng, tier): return optm.cases(rng, tier, "C05")


def check(c): return optm.check(c, "C05")
