"""Weighted distances, shortest paths and negative cycles are exact."""
from ._group import ASSUMPTIONS, RULE, expect, make_case  # noqa: F401

ID = "C07"
CASES = {"quick": 40000, "thorough": 500000}
NAMES = {
    "single_source_bellman_ford_path_length": 2,
    "bellman_ford_path_length": 2,
    "bellman_ford_path": 3,
    "all_pairs_bellman_ford_path_length": 2,
    "negative_edge_cycle": 2,
    "floyd_warshall": 2,
    "floyd_warshall_numpy": 2,
    "floyd_warshall_predecessor_and_distance": 2,
}
EXPECT = expect(NAMES, CASES["quick"], True)
case = make_case(NAMES, ("opt_cost_rows", "opt_negative", "opt_negative", "opt_bf_cutoff", "opt_fw"))
