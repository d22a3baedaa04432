"""Matrices of a graph follow the requested node order."""
from ._group import ASSUMPTIONS, RULE, expect, make_case  # noqa: F401

ID = "C12"
CASES = {"quick": 100000, "thorough": 1200000}
NAMES = {
    "adjacency_matrix": 2,
    "laplacian_matrix": 2,
    "normalized_laplacian_matrix": 2,
    "modularity_matrix": 2,
    "directed_modularity_matrix": 2,
    "bethe_hessian_matrix": 2,
    "tournament_matrix": 1,
}
EXPECT = expect(NAMES, CASES["quick"], True)
case = make_case(NAMES, ("opt_matrix",))
