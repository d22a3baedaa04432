"""Triangle counts and clustering are exact."""
from ._group import ASSUMPTIONS, RULE, expect, make_case  # noqa: F401

ID = "C09"
CASES = {"quick": 50000, "thorough": 600000}
NAMES = {
    "triangles": 2,
    "transitivity": 2,
    "clustering": 3,
    "average_clustering": 2,
    "square_clustering": 2,
    "generalized_degree": 2,
}
EXPECT = expect(NAMES, CASES["quick"], True)
case = make_case(NAMES, ("opt_triangle_masks",))
