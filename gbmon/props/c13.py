"""Degrees, regularity, tournaments, reciprocity and isomorphism screens are exact."""
from ._group import ASSUMPTIONS, RULE, expect, make_case  # noqa: F401

ID = "C13"
CASES = {"quick": 100000, "thorough": 1200000}
NAMES = {
    "degree_centrality": 2,
    "in_degree_centrality": 2,
    "out_degree_centrality": 2,
    "is_isolate": 1,
    "isolates": 1,
    "number_of_isolates": 1,
    "is_regular": 2,
    "is_k_regular": 2,
    "is_tournament": 2,
    "score_sequence": 2,
    "is_triad": 2,
    "s_metric": 2,
    "reciprocity": 2,
    "overall_reciprocity": 2,
    "is_simple_path": 3,
    "fast_could_be_isomorphic": 2,
    "faster_could_be_isomorphic": 2,
}
EXPECT = expect(NAMES, CASES["quick"], True)
case = make_case(NAMES, ("opt_reciprocity_masks",))
