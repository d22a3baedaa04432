"""The monitored API: for every backend function, how to drive it and what it must agree with."""
from dataclasses import dataclass, field
from typing import Callable

from .env import nx, np
from .gen import NONNEG, POSITIVE, make_graph

ANYW = ("none",)
NEG = ("negint", "negfloat", "negdag", "isoneg", "potential", "potential", "potentialf", "nearneg", "nearneg",
       "negloop", "negloop")
W_ALL = ("none", "unit", "iso", "isof", "int", "float", "missing", "zeros", "isozero", "bool", "wide", "ties")


class Lazy:
    """An argument that must be rebuilt for every call (generators, fresh containers)."""

    def __init__(self, kind, items):
        self.kind, self.items = kind, list(items)

    def make(self):
        k = self.kind
        if k == "gen":
            return (x for x in list(self.items))
        if k == "iter":
            return iter(list(self.items))
        if any(isinstance(x, Lazy) for x in self.items):
            return [fresh(x) for x in self.items]
        return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
                "dictkeys": lambda it: dict.fromkeys(it).keys()}[k](self.items)

    def __repr__(self):
        return f"{self.kind}({self.items!r})"


class DictArg(Lazy):
    def __init__(self, d):
        super().__init__("dict", d.items())

    def make(self):
        return dict(self.items)

    def __repr__(self):
        return f"{dict(self.items)!r}"


def fresh(x):
    if isinstance(x, Lazy):
        return x.make()
    if isinstance(x, (list, tuple)) and any(isinstance(y, Lazy) for y in x):
        return type(x)(fresh(y) for y in x)
    return x


def subset(rng, G, lo=0, hi=None, kinds=("list", "tuple", "set", "gen", "iter", "dictkeys"), extra=False, p=None):
    nodes = list(G)
    n = len(nodes)
    hi = n if hi is None else min(hi, n)
    lo = min(lo, hi)
    if p is None:
        p = rng.random()
    k = max(lo, min(hi, round(p * n)))
    items = rng.sample(nodes, k)
    if extra and rng.random() < 0.25:
        items.insert(rng.randint(0, len(items)), ("not", "there"))
    return Lazy(rng.choice(kinds), items)


def anode(rng, G):
    """Any node; often one that is easy to get wrong: with a self-loop, with the most neighbours, with one."""
    x = rng.random()
    if x < 0.2 and (loops := [v for v in G if G.has_edge(v, v)]):
        return rng.choice(loops)
    if x > 0.9:
        deg = dict(G.degree)
        top = max(deg.values())
        return rng.choice([v for v in G if deg[v] == top] if rng.random() < 0.6 else [v for v in G if deg[v] <= 1] or list(G))
    return rng.choice(list(G))


@dataclass
class Spec:
    name: str
    kinds: str = "UD"  # graph classes accepted
    group: str = ""
    weights: tuple = ANYW
    args: Callable = lambda rng, G: ((), {})
    wkw: str | None = None  # keyword naming the weight attribute
    wdefault: str | None = None  # its default in networkx
    min_n: int = 0
    hi: int = 60
    big: float = 0.02  # share of large graphs
    bigfam: tuple | None = None
    cap: int = 70  # most nodes of a dense large graph
    graph: Callable | None = None  # custom graph builder (rng, directed) -> (G, info)
    second: str | None = None  # 'same' | 'disjoint' | 'any': a second graph argument
    rtol: float = 1e-8
    atol: float = 1e-8
    ref: Callable | None = None  # reference instead of networkx's own function
    post: Callable | None = None  # canonical result -> comparable
    ordered: bool = False
    extra: dict = field(default_factory=dict)


SPECS = {}


def add(name, **kw):
    SPECS[name] = Spec(name, **kw)


def nx_func(name):
    from networkx.utils import backends as b

    return b._registered_algorithms[name]


def nx_public(name):
    """The function a networkx user calls: dispatching, and decorated with its graph class checks."""
    f = nx_func(name)
    import importlib

    return getattr(importlib.import_module(f.orig_func.__module__), f.orig_func.__name__)


# ------------------------------------------------------------------ traversal / reachability
def one(rng, G):
    return (anode(rng, G),), {}


def two(rng, G):
    return (anode(rng, G), anode(rng, G)), {}


add("descendants", group="reach", min_n=1, args=one)
add("ancestors", group="reach", min_n=1, args=one)
add("is_connected", kinds="U", group="reach")
add("node_connected_component", kinds="U", group="reach", min_n=1, args=one)
add("is_weakly_connected", kinds="D", group="reach")
add("has_path", group="reach", min_n=1, args=two)
add("bfs_layers", group="reach", min_n=1,
    args=lambda rng, G: ((anode(rng, G),), {}) if rng.random() < 0.4 else
    ((subset(rng, G, 1, 4, kinds=("list", "set")),), {}),
    post=lambda r: [frozenset(x) if len(set(x)) == len(x) else x for x in r])
add("descendants_at_distance", group="reach", min_n=1,
    args=lambda rng, G: ((anode(rng, G), rng.choice((0, 1, 1, 2, 2, 3, 4, 7, len(G), len(G) + 3))), {}))


def dag_graph(rng, directed):
    return make_graph(rng, True, family="dag", self_loops=False, lo=1, hi=40)


def lca_args(rng, G):
    kw = {} if rng.random() < 0.5 else {"default": rng.choice((None, -1, "nothing"))}
    return (anode(rng, G), anode(rng, G)), kw


add("lowest_common_ancestor", kinds="D", group="reach", min_n=1, graph=dag_graph, args=lca_args)
add("ego_graph", group="reach", min_n=1, wkw="distance", weights=POSITIVE + ("zeros", "isozero"),
    args=lambda rng, G: ((anode(rng, G),), dict(
        [("radius", rng.choice((0, 1, 1, 2, 3, 5, 2.5, 4.75, 7.0, 256, 300, float("inf"), -1 if rng.random() < 0.3 else 2)))] * (rng.random() < 0.8)
        + [("center", False)] * (rng.random() < 0.3)
        + [("undirected", True)] * (rng.random() < 0.3))))

# ------------------------------------------------------------------ unweighted distances
CUT = lambda rng, G: {} if rng.random() < 0.4 else {"cutoff": rng.choice((0, 1, 2, 3, 5, len(G), 2.5, 1.75, 0.6, 3.9, -1, float("inf"), None))}  # noqa: E731
add("single_source_shortest_path_length", group="dist", min_n=1,
    args=lambda rng, G: ((anode(rng, G),), CUT(rng, G)))
add("single_target_shortest_path_length", group="dist", min_n=1,
    args=lambda rng, G: ((anode(rng, G),), CUT(rng, G)), post=lambda r: dict(r) if isinstance(r, list) else r)
add("all_pairs_shortest_path_length", group="dist", hi=40,
    args=lambda rng, G: ((), CUT(rng, G)), post=lambda r: dict(r) if isinstance(r, list) else r,
    extra={"chunk": True})
add("efficiency", kinds="U", group="dist", min_n=2, args=two)

# ------------------------------------------------------------------ weighted distances
add("single_source_bellman_ford_path_length", group="wdist", min_n=1, wkw="weight", wdefault="weight",
    weights=W_ALL + NEG, args=one)
add("bellman_ford_path_length", group="wdist", min_n=1, wkw="weight", wdefault="weight",
    weights=W_ALL + NEG, args=two)
add("bellman_ford_path", group="wdist", min_n=1, wkw="weight", wdefault="weight",
    weights=W_ALL + NEG, args=two)
add("all_pairs_bellman_ford_path_length", group="wdist", hi=30, wkw="weight", wdefault="weight",
    weights=W_ALL + NEG, post=lambda r: dict(r) if isinstance(r, list) else r, extra={"chunk": True})
add("negative_edge_cycle", group="wdist", wkw="weight", wdefault="weight",
    weights=W_ALL + NEG)
add("floyd_warshall", group="wdist", hi=30, wkw="weight", wdefault="weight", weights=W_ALL + NEG)
add("floyd_warshall_numpy", group="wdist", hi=30, wkw="weight", wdefault="weight", weights=W_ALL + NEG, min_n=1,
    args=lambda rng, G: ((), {} if rng.random() < 0.5 else {"nodelist": rng.sample(list(G), len(G))}))
add("floyd_warshall_predecessor_and_distance", group="wdist", hi=30, wkw="weight", wdefault="weight",
    weights=W_ALL + NEG)

# ------------------------------------------------------------------ centrality / link analysis
add("degree_centrality", group="degree")
add("in_degree_centrality", kinds="D", group="degree")
add("out_degree_centrality", kinds="D", group="degree")


def vec(rng, G, full, lo=0.05):
    nodes = list(G)
    x = rng.random() if nodes else 1.0
    if x < 0.12 and not full:  # all on one node
        return DictArg({rng.choice(nodes): rng.choice((1, 1, 1.0, 4))})
    if x < 0.2:  # even
        w = rng.choice((1, 1 / len(nodes), 3))
        d = {v: w for v in nodes}
    elif x < 0.35:  # already adds up to one (exactly: sixteenths)
        k = 1 << max(4, len(nodes).bit_length())
        d = {v: 1 / k for v in nodes}
        d[rng.choice(nodes)] += 1 - len(nodes) / k
    else:
        d = {v: round(rng.uniform(lo, 3), 3) for v in nodes}
    if not full:
        for v in rng.sample(nodes, rng.randint(0, max(0, len(nodes) - 1)) if x > 0.3 else 0):
            del d[v]
    return DictArg(d)


def iters(rng, many, fine, few):
    """Mostly a tight tolerance; sometimes the defaults, or too few rounds to get there."""
    x = rng.random()
    if x < 0.75:
        return {"max_iter": many, "tol": fine}
    if x < 0.85:
        return {}
    return {"max_iter": rng.randint(1, few * 4), "tol": rng.choice((1e-3, 1e-6, 1e-9))}


def pr_args(rng, G):
    kw = iters(rng, 2000, 1e-11, 5)
    if rng.random() < 0.5:
        kw["alpha"] = rng.choice((0.5, 0.85, 0.9, 0.3, 0.95))
    if rng.random() < 0.4:
        kw["personalization"] = vec(rng, G, rng.random() < 0.5)
    if rng.random() < 0.3:
        kw["dangling"] = vec(rng, G, rng.random() < 0.5)
    if rng.random() < 0.3:
        kw["nstart"] = vec(rng, G, rng.random() < 0.7)
    return (), kw


add("pagerank", group="central", wkw="weight", wdefault="weight", weights=POSITIVE + ("ties",), min_n=1,
    args=pr_args, rtol=1e-6, atol=1e-8)


def gm_args(rng, G):
    kw = {}
    if rng.random() < 0.5:
        kw["alpha"] = rng.choice((0.5, 0.85, 0.9))
    if rng.random() < 0.4:
        kw["personalization"] = vec(rng, G, rng.random() < 0.5)
    if rng.random() < 0.3:
        kw["dangling"] = vec(rng, G, rng.random() < 0.5)
    if rng.random() < 0.3:
        kw["nodelist"] = rng.sample(list(G), len(G))
    return (), kw


add("google_matrix", group="central", wkw="weight", wdefault="weight", weights=POSITIVE, min_n=1, hi=30,
    args=gm_args)
add("hits", group="central", min_n=1, weights=POSITIVE, wkw=None, extra={"implicit_weight": "weight"},
    args=lambda rng, G: ((), iters(rng, 3000, 1e-10, 8) | dict([("normalized", False)] * (rng.random() < 0.3)
                                  + [("nstart", vec(rng, G, True))] * (rng.random() < 0.3))),
    rtol=1e-5, atol=1e-6)
add("eigenvector_centrality", group="central", min_n=1, wkw="weight", weights=POSITIVE,
    args=lambda rng, G: ((), iters(rng, 600, 1e-8, 10)
                         | dict([("nstart", vec(rng, G, True))] * (rng.random() < 0.4))),
    rtol=1e-5, atol=1e-6)


def katz_args(rng, G):
    kw = {"alpha": rng.choice((0.1, 0.05, 0.01, 0.2)), **iters(rng, 400, 1e-9, 8)}
    if rng.random() < 0.4:
        kw["beta"] = rng.choice((0.5, 2.0, 1)) if rng.random() < 0.5 else vec(rng, G, True)
    if rng.random() < 0.3:
        kw["normalized"] = False
    if rng.random() < 0.3:
        kw["nstart"] = vec(rng, G, True)
    return (), kw


add("katz_centrality", group="central", wkw="weight", weights=("none", "unit", "iso", "isof", "float", "missing"),
    args=katz_args, rtol=1e-5, atol=1e-6)

# ------------------------------------------------------------------ clustering


def nodes_arg(rng, G, kinds=("list", "tuple", "set"), single=True):
    x = rng.random()
    if not len(G) or x < 0.4:
        return {}
    if single and x < 0.7:
        return {"nodes": anode(rng, G)}
    return {"nodes": subset(rng, G, kinds=kinds)}


add("triangles", kinds="U", group="cluster", cap=160, args=lambda r, G: ((), nodes_arg(r, G)))
add("transitivity", group="cluster", cap=160)
add("clustering", group="cluster", cap=160, wkw="weight", weights=("none",) + POSITIVE + ("zeros",),
    args=lambda r, G: ((), nodes_arg(r, G)))
add("average_clustering", group="cluster", wkw="weight", weights=("none",) + POSITIVE + ("zeros",),
    args=lambda r, G: ((), nodes_arg(r, G, single=False) | ({"count_zeros": False} if r.random() < 0.4 else {})))
add("square_clustering", kinds="U", group="cluster", args=lambda r, G: ((), nodes_arg(r, G)), extra={"chunk": True})
add("generalized_degree", kinds="U", group="cluster", cap=160, args=lambda r, G: ((), nodes_arg(r, G)))

# ------------------------------------------------------------------ cuts / boundaries / communities
B2 = lambda r, G: ((subset(r, G, extra=True),) + ((subset(r, G, extra=True),) if r.random() < 0.5 else ()), {})  # noqa: E731
add("edge_boundary", group="cut", args=B2, post=lambda r: frozenset(r) if len(r) == len(set(r)) else r)
add("node_boundary", group="cut", args=B2)


def st(r, G, T=True, lo=1, extra=False):
    S = subset(r, G, lo, max(lo, len(G) - 1), kinds=("list", "tuple", "set"), extra=extra)
    if not T or r.random() < 0.5:
        return (S,), {}
    rest = [v for v in G if v not in set(S.items)] or list(G)
    if r.random() < 0.6:
        k = r.randint(1, len(rest))
        return (S, Lazy("list", r.sample(rest, k) + [("nor", "there")] * (extra and r.random() < 0.3))), {}
    return (S, subset(r, G, 1, kinds=("list", "set"), extra=extra)), {}


CW = ("none", "int", "float", "missing", "iso", "ties", "zeros", "isozero", "bool")
for _n in ("cut_size", "conductance", "normalized_cut_size", "edge_expansion", "mixing_expansion"):
    # nodes that are not in the graph do not count (the expansions divide by a number of nodes: left alone)
    add(_n, group="cut", min_n=2, wkw="weight", weights=CW,
        args=st if _n == "edge_expansion" else lambda r, G: st(r, G, extra=True))
add("volume", group="cut", min_n=1, wkw="weight", weights=CW,
    args=lambda r, G: st(r, G, False))
add("node_expansion", group="cut", min_n=1, args=lambda r, G: st(r, G, False))
add("boundary_expansion", group="cut", min_n=1, args=lambda r, G: st(r, G, False))
add("is_dominating_set", group="cut", min_n=1, args=lambda r, G: ((subset(r, G, p=r.choice((0.2, 0.5, 0.8, 1.0)), kinds=("list", "set", "tuple")),), {}))


def part(r, G):
    k = r.randint(1, 4)
    blocks = [[] for _ in range(k)]
    for v in G:
        blocks[r.randrange(k)].append(v)
    return ((Lazy("list", [Lazy(r.choice(("list", "set", "tuple")), b) for b in blocks if b]),), {})


add("intra_community_edges", group="cut", min_n=1, args=part)
add("inter_community_edges", group="cut", min_n=1, args=part)
add("mutual_weight", group="cut", min_n=2, wkw="weight", weights=CW, args=two)

# ------------------------------------------------------------------ structure
add("is_isolate", group="struct", min_n=1, args=one)
add("isolates", group="struct", post=lambda r: frozenset(r) if isinstance(r, list) else r)
add("number_of_isolates", group="struct")
add("is_regular", group="struct", min_n=1)
add("is_k_regular", kinds="U", group="struct", args=lambda r, G: ((r.choice((0, 1, 2, 3, 4, len(G) - 1)),), {}))
add("is_tournament", kinds="D", group="struct")
add("score_sequence", kinds="D", group="struct")
add("is_triad", group="struct")
add("s_metric", group="struct")
add("reciprocity", kinds="D", group="struct", min_n=1, args=lambda r, G: ((), nodes_arg(r, G)))
add("overall_reciprocity", kinds="D", group="struct")


def sp_args(r, G):
    nodes = list(G)
    x = r.random()
    if x < 0.5 and nodes:  # a real walk
        p = [r.choice(nodes)]
        for _ in range(r.randint(0, 8)):
            nb = list(G[p[-1]])
            if not nb:
                break
            p.append(r.choice(nb))
        if r.random() < 0.2 and len(p) > 2:
            i = r.randrange(len(p))
            p[i] = r.choice(nodes)
        return (p,), {}
    k = r.randint(0, 4)
    p = [r.choice(nodes) for _ in range(k)] if nodes else []
    if r.random() < 0.1:
        p.append(("not", "there"))
    return (p,), {}


add("is_simple_path", group="struct", args=sp_args)
add("fast_could_be_isomorphic", kinds="U", group="iso", second="iso", min_n=1)
add("faster_could_be_isomorphic", group="iso", second="iso", min_n=1)

# ------------------------------------------------------------------ operators
OPW = ("none", "unit", "int", "float", "ties")
RENAMES = (("G-", "H-"), ("a", None), (None, "x"), ("g1", "g2"))
for _n in ("union", "full_join"):
    add(_n, group="ops", second=("disjoint", "disjoint", "any"), weights=OPW, hi=20,
        args=lambda r, G, n=_n: ((), {} if r.random() < 0.6 else {"rename": r.choice(RENAMES + ((("p",),) if n == "union" else ()))}))
add("disjoint_union", group="ops", second="any", weights=OPW, hi=20)
add("intersection", group="ops", second="any", weights=OPW, hi=20)
add("compose", group="ops", second="any", weights=OPW, hi=20)
add("difference", group="ops", second="same", weights=OPW, hi=20)
add("symmetric_difference", group="ops", second="same", weights=OPW, hi=20)
add("complement", group="ops", hi=25, weights=OPW)
add("reverse", kinds="D", group="ops", weights=OPW,
    args=lambda r, G: ((), {} if r.random() < 0.6 else {"copy": r.random() < 0.5}))
add("k_truss", kinds="U", group="ops", weights=OPW, cap=160, big=0.03, bigfam=("complete", "complete", "dense", "lollipop", "cliques", "grid"),
    args=lambda r, G: ((r.choice((0, 1, 2, 3, 3, 4, 4, 5, 6) if len(G) < 60 or r.random() < 0.5 else
                                 (3, len(G) // 3, len(G) // 2, len(G) - 4)),), {}))

# ------------------------------------------------------------------ matrices
NL = lambda r, G: {} if r.random() < 0.5 else {"nodelist": r.sample(list(G), r.randint(1, len(G)))}  # noqa: E731
MW = ("none", "unit", "int", "float", "missing", "iso", "isof", "ties", "zeros", "isozero", "negint", "bool")
for _n, _k, _d in (("adjacency_matrix", "UD", "weight"), ("laplacian_matrix", "U", "weight"),
                   ("normalized_laplacian_matrix", "U", "weight"), ("modularity_matrix", "U", None),
                   ("directed_modularity_matrix", "D", None)):
    add(_n, kinds=_k, group="matrix", min_n=1, wkw="weight", wdefault=_d, weights=MW, hi=30,
        args=lambda r, G: ((), NL(r, G)))
add("bethe_hessian_matrix", kinds="U", group="matrix", min_n=1, hi=30,
    args=lambda r, G: ((), NL(r, G) | ({"r": r.choice((1, 2, 0.5, 3.25))} if r.random() < 0.5 else {})))
add("tournament_matrix", kinds="D", group="matrix", min_n=1, hi=30)
