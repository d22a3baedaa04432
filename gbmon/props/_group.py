"""Properties decided by one monitored call per case against an independent definition."""
from .. import diffs

RULE = ("a case draws one function of the family, a graph (18 topology families x 10 label schemes x weight "
        "schemes x loops x insertion history), arguments, and one of three ways in: dispatch from networkx, a "
        "converted native graph, or a native graph built from a matrix (dtype, storage form, iso or not, scrambled "
        "ids); where the array-level functions take options of their own, 8 % of the cases drive those instead. The "
        "oracle computes the value, the acceptable set, or the exception from the definition. "
        "Non-trivial: the graph has an edge; distinct by (function, way in, family, labels, sizes, arguments, edges)")
ASSUMPTIONS = ["native graphs with narrow integer types only where sums fit the type",
               "functions that read the stored values of a native graph are driven with weight=None only on unit weights"]


def make_case(weights, arrays=()):
    """arrays: families of C19 that drive the same guarantee through the array-level functions."""
    names, ws = zip(*weights.items())

    def case(c):
        if arrays and c.rng.random() < 0.08:
            from . import c19

            G, what, detail = getattr(c19, c.rng.choice(arrays))(c)
            c.ev("array_level")
            c.judged((what, repr(detail), sorted(map(repr, G.edges))[:60]), G.number_of_edges() > 0)
            return
        diffs.one_call(c, c.rng.choices(names, ws)[0])

    return case


def expect(weights, quick, arrays=False):
    """Every function must have been called, and both outcomes of the dispatch monitored."""
    tot = sum(weights.values())
    out = {f"call:{n}": max(1, int(quick * w / tot / 3)) for n, w in weights.items()}
    out.update({f"mode:{m}": quick // 8 for m in diffs.MODES})
    if arrays:
        out["array_level"] = quick // 20
    return out
