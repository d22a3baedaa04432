"""Reachability, components and breadth-first layers are exact."""
from ._group import ASSUMPTIONS, RULE, expect, make_case  # noqa: F401

ID = "C05"
CASES = {"quick": 80000, "thorough": 1000000}
NAMES = {
    "descendants": 2,
    "ancestors": 2,
    "is_connected": 1,
    "node_connected_component": 2,
    "is_weakly_connected": 1,
    "has_path": 2,
    "bfs_layers": 2,
    "descendants_at_distance": 2,
    "lowest_common_ancestor": 2,
}
EXPECT = expect(NAMES, CASES["quick"])
case = make_case(NAMES)
