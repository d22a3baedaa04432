"""Graphs derived from graphs have exactly the right nodes, edges and weights."""
from ._group import ASSUMPTIONS, RULE, expect, make_case  # noqa: F401

ID = "C11"
CASES = {"quick": 90000, "thorough": 1200000}
NAMES = {
    "union": 2,
    "full_join": 2,
    "disjoint_union": 2,
    "intersection": 2,
    "compose": 2,
    "difference": 2,
    "symmetric_difference": 2,
    "complement": 2,
    "reverse": 2,
    "k_truss": 3,
    "ego_graph": 3,
}
EXPECT = expect(NAMES, CASES["quick"], True)
case = make_case(NAMES, ("opt_rename",))
