"""Cuts, boundaries, communities and dominating sets are exact."""
from collections import Counter

from ..build import nx_to_ga
from ..catalog import Lazy, fresh, nx_public
from ..env import Dispatcher
from ..gen import describe, make_graph
from ._group import ASSUMPTIONS, RULE, expect, make_case  # noqa: F401

RULE += ("; a data case asks edge_boundary for the attribute of every reported edge (data=name and data=True) on graphs "
         "where every edge carries it")

ID = "C10"
CASES = {"quick": 100000, "thorough": 1200000}
NAMES = {
    "edge_boundary": 2,
    "node_boundary": 2,
    "cut_size": 2,
    "conductance": 2,
    "normalized_cut_size": 2,
    "edge_expansion": 2,
    "mixing_expansion": 2,
    "volume": 2,
    "node_expansion": 2,
    "boundary_expansion": 2,
    "is_dominating_set": 2,
    "intra_community_edges": 1,
    "inter_community_edges": 1,
    "mutual_weight": 2,
}
EXPECT = {**expect(NAMES, CASES["quick"], True), "data_case": CASES["quick"] // 40, "data_edges": CASES["quick"] // 80}
common = make_case(NAMES, ("opt_cuts", "opt_boundary_masks"))


def data_case(c):
    """edge_boundary with data: which attribute value goes with which edge."""
    rng = c.rng
    g, info = make_graph(rng, rng.random() < 0.5, weights=("int", "float", "iso", "isof", "ties", "zeros", "negint"), lo=2)
    attr = rng.choice(("weight", "cost"))
    for _, _, d in g.edges(data=True):
        w = d.pop("weight", 3)
        d.clear()
        d[attr] = w
    nodes = list(g)
    S = rng.sample(nodes, rng.randint(0, len(nodes)))
    rest = [v for v in nodes if v not in set(S)]
    T = None if rng.random() < 0.4 else rng.sample(rest, rng.randint(0, len(rest)))
    mode = rng.choice(("backend", "direct", "native"))
    data = attr if rng.random() < 0.6 else True
    if data is True and mode != "backend":  # the one attribute of a native graph goes by the name "weight"
        data = attr if attr != "weight" else True
    if data is True and attr != "weight":
        data = attr
    kw = {"data": data}
    if rng.random() < 0.3:
        kw["default"] = None if mode == "backend" else rng.choice((None, -7))
    args = (Lazy(rng.choice(("list", "set", "gen")), S),) + (() if T is None else (Lazy(rng.choice(("list", "set")), T),))
    c.say(f"edge_boundary via {mode} on {describe(g)} args={args!r} kw={kw!r}")
    c.ev("data_case")
    c.ev(f"data:{'True' if data is True else 'name'}:{mode}")
    h = g
    if mode == "native":
        h = nx_to_ga(g, weight=attr)
    try:
        raw, exc = raw_call("edge_boundary", mode, [h], args, kw), None
    except Exception as e:
        raw, exc = None, e
    c.check(exc is None, "edge_boundary:data-raised", lambda: f"edge_boundary via {mode} {kw!r}: {exc!r}")
    if exc is None:
        Ts = set(rest) if T is None else set(T)
        Ss = set(S)
        want = Counter()
        for u in Ss:
            for v in g[u]:
                if v in Ts:
                    want[u, v, float(g[u][v][attr])] += 1
        got = Counter()
        bad = None
        for e in raw:
            try:
                u, v, x = e
                if data is True:
                    if list(x) != [attr]:
                        bad = f"{e!r}: the data should be a dict of {attr!r}"
                        break
                    x = x[attr]
                got[u, v, float(x)] += 1
            except (TypeError, ValueError) as err:
                bad = f"{e!r}: {err}"
                break
        c.check(bad is None and got == want, "edge_boundary:data",
                lambda: f"edge_boundary via {mode} {kw!r}: {bad or ''} missing {want - got} extra {got - want}")
        if want:
            c.ev("data_edges")
    c.judged(("edge_boundary data", mode, repr(kw), repr(args), sorted(map(repr, g.edges))[:40]), info["m"] > 0)


def raw_call(name, mode, graphs, args, kw):
    a = [fresh(x) for x in args]
    if mode == "backend":
        return list(nx_public(name)(*graphs, *a, **kw, backend="graphblas"))
    return list(getattr(Dispatcher, name)(*graphs, *a, **kw))


def case(c):
    if c.idx % 16 == 3:
        data_case(c)
    else:
        common(c)
