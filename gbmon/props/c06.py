"""Hop distances and cutoffs are exact."""
from ._group import ASSUMPTIONS, RULE, expect, make_case  # noqa: F401

ID = "C06"
CASES = {"quick": 60000, "thorough": 800000}
NAMES = {
    "single_source_shortest_path_length": 3,
    "single_target_shortest_path_length": 3,
    "all_pairs_shortest_path_length": 3,
    "efficiency": 2,
}
EXPECT = expect(NAMES, CASES["quick"], True)
case = make_case(NAMES, ("opt_hop_rows", "opt_hop_rows", "opt_bidirectional"))
