"""Iterative rankings satisfy their defining equations."""
from ._group import ASSUMPTIONS, RULE, expect, make_case  # noqa: F401

ID = "C08"
CASES = {"quick": 20000, "thorough": 200000}
NAMES = {
    "pagerank": 3,
    "google_matrix": 2,
    "hits": 2,
    "eigenvector_centrality": 2,
    "katz_centrality": 2,
}
EXPECT = expect(NAMES, CASES["quick"], True)
case = make_case(NAMES, ("opt_hits", "opt_hits", "opt_pagerank", "opt_defaults"))
