"""Shared machinery of the relational properties: the same call observed twice (after another history,
under other labels, in another storage form, through another way in) must give the same outcome."""
import math

from . import diffs
from .canon import Odd, canon, dense, diff, scalar
from .catalog import SPECS, DictArg, Lazy
from .env import ga, gb, nx, np
from .gen import make_labels


class Tok:
    """Abstract node name: equal to nothing else, so arguments can be translated without ambiguity."""

    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return hash(("tok", self.i))

    def __eq__(self, other):
        return isinstance(other, Tok) and other.i == self.i

    def __repr__(self):
        return f"n{self.i}"


# what the parts of a result are: node names or plain values
NODESET = {"descendants", "ancestors", "node_connected_component", "descendants_at_distance", "node_boundary",
           "isolates"}
GRAPHS = {"union", "full_join", "disjoint_union", "intersection", "compose", "difference", "symmetric_difference",
          "complement", "reverse", "k_truss", "ego_graph"}
MATRICES = {"adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "modularity_matrix",
            "directed_modularity_matrix", "bethe_hessian_matrix", "tournament_matrix", "google_matrix",
            "floyd_warshall_numpy"}
MAPS = {"single_source_shortest_path_length", "single_target_shortest_path_length",
        "single_source_bellman_ford_path_length", "degree_centrality", "in_degree_centrality",
        "out_degree_centrality", "pagerank", "katz_centrality", "eigenvector_centrality", "triangles", "clustering",
        "square_clustering", "reciprocity", "generalized_degree"}
MAPS2 = {"all_pairs_shortest_path_length", "all_pairs_bellman_ford_path_length", "floyd_warshall"}
# several results are right: judged against the definition, not against each other
CHOICE = {"bellman_ford_path", "lowest_common_ancestor", "floyd_warshall_predecessor_and_distance", "hits",
          "eigenvector_centrality"}


def translate(x, m):
    """Arguments with node names replaced through m."""
    if isinstance(x, DictArg):
        return DictArg({m.get(k, k) if isinstance(k, Tok) else k: translate(v, m) for k, v in x.items})
    if isinstance(x, Lazy):
        return Lazy(x.kind, [translate(v, m) for v in x.items])
    if isinstance(x, Tok):
        return m[x]
    if isinstance(x, (list, tuple)):
        return type(x)(translate(v, m) for v in x)
    if isinstance(x, dict):
        return {k: translate(v, m) for k, v in x.items()}
    return x


class Unknown(Exception):
    pass


def _inv(inv, k):
    try:
        return inv[k]
    except (KeyError, TypeError):
        raise Unknown(f"{k!r} in the result is not a node") from None


def as_matrix(r, order):
    """{(node, node): value} of a dense matrix in this order."""
    r = np.asarray(r, dtype=float)
    if r.shape != (len(order), len(order)):
        return Odd(f"matrix of shape {r.shape} for {len(order)} nodes")
    return {(a, b): float(r[i, j]) for i, a in enumerate(order) for j, b in enumerate(order)}


def translate_result(name, r, inv, order=None):
    """The canonical result with node names replaced through inv (name -> Tok)."""
    f = lambda k: _inv(inv, k)  # noqa: E731
    try:
        if isinstance(r, Odd):
            return r
        if name in NODESET:
            if isinstance(r, list):
                if len(set(r)) != len(r):
                    return Odd(f"repeated nodes {r!r}")
            elif not isinstance(r, frozenset):
                return Odd(r)
            return frozenset(f(k) for k in r)
        if name == "bfs_layers":
            return [frozenset(f(k) for k in x) for x in r]
        if name == "edge_boundary":
            es = [(f(u), f(v)) for u, v in r]
            return frozenset(es) if len(set(es)) == len(es) else Odd(f"repeated edges {es!r}")
        if name in GRAPHS:
            e = {}
            for k, w in r["edges"].items():
                e[frozenset(map(f, k)) if isinstance(k, frozenset) else tuple(map(f, k))] = w
            return {"directed": r["directed"], "nodes": frozenset(map(f, r["nodes"])), "edges": e}
        if name in MATRICES:
            return as_matrix(r, [f(k) for k in order])
        if name in MAPS:
            if not isinstance(r, dict) or name == "generalized_degree" and not all(isinstance(v, dict) for v in r.values()):
                return r
            return {f(k): v for k, v in r.items()}
        if name in MAPS2:
            r = dict(r) if isinstance(r, list) else r
            return {f(k): {f(j): v for j, v in row.items()} for k, row in r.items()}
        if name == "hits":
            return tuple({f(k): v for k, v in m.items()} for m in r)
        if name == "bellman_ford_path":
            return [f(k) for k in r]
        return r
    except Unknown as e:
        return Odd(e)
    except (TypeError, ValueError, AttributeError) as e:
        return Odd(f"{e!r} on {r!r}")


class Outcome:
    """What one call did, in comparable form."""

    def __init__(self, value=None, exc=None, raw=None):
        self.value, self.exc, self.raw = value, exc, raw

    def __repr__(self):
        return f"raised {type(self.exc).__name__}: {self.exc}" if self.exc is not None else f"{self.value!r}"[:1500]


def observe(name, mode, graphs, args, kw, ctx=None, invoke=diffs.invoke):
    try:
        raw = invoke(name, mode, graphs, args, kw)
    except Exception as e:
        return Outcome(exc=e)
    v = canon(raw)
    if ctx is not None:
        v = diffs.fix_missing(raw, v, ctx)
    spec = SPECS[name]
    if spec.post and name not in NODESET and name != "edge_boundary" and name != "bfs_layers":
        v = spec.post(v)
    elif name in NODESET and isinstance(v, list) and len(set(v)) == len(v):
        v = frozenset(v)
    elif name == "bfs_layers" and isinstance(v, list):
        v = [frozenset(x) if len(set(x)) == len(x) else Odd(x) for x in v]
    elif name == "edge_boundary":
        v = frozenset(v) if len(set(v)) == len(v) else Odd(v)
    return Outcome(v, raw=raw)


KEYISH = (KeyError, nx.NodeNotFound, nx.NetworkXError)


def same_kind(a, b):
    """Two exceptions tell the caller the same thing."""
    return type(a) is type(b) or isinstance(a, type(b)) or isinstance(b, type(a))


def tolerance(name, kw):
    s = SPECS[name]
    if name in ("pagerank", "katz_centrality", "eigenvector_centrality"):
        t = kw.get("tol", 1e-6)
        return 1e-7, max(1e-9, 1e-6 * t)
    return min(s.rtol, 1e-7), min(s.atol, 1e-8)


def disagreement(name, a, b, kw, topology=False):
    """None, or how the outcomes a and b differ."""
    if (a.exc is None) != (b.exc is None):
        return f"{a} vs {b}"
    if a.exc is not None:
        return None if same_kind(a.exc, b.exc) else f"{a} vs {b}"
    x, y = a.value, b.value
    if topology:
        x, y = diffs.plain_graph(x), diffs.plain_graph(y)
    rtol, atol = tolerance(name, kw)
    return diff(x, y, rtol, atol)


def tokenise(gs, args=None):
    """The same graphs over abstract node names."""
    m = {}
    for g in gs:
        for v in g:
            m.setdefault(v, Tok(len(m)))
    return [nx.relabel_nodes(g, m) for g in gs], m


def realise(rng, gs, args, kw, scheme=None, shuffle=True):
    """Concrete labels, node order and insertion history for abstract graphs; -> gs, args, kw, inverse."""
    toks = list(dict.fromkeys(v for g in gs for v in g))
    _, labels = make_labels(rng, len(toks), scheme)
    m = dict(zip(toks, labels))
    out = []
    for g in gs:
        nodes = list(g)
        if shuffle:
            rng.shuffle(nodes)
        edges = list(g.edges(data=True))
        if shuffle:
            rng.shuffle(edges)
        h = type(g)()
        h.add_nodes_from(m[v] for v in nodes)
        for u, v, d in edges:
            if not g.is_directed() and shuffle and rng.random() < 0.5:
                u, v = v, u
            h.add_edge(m[u], m[v], **d)
        out.append(h)
    return out, translate(args, m), translate(kw, m), {v: k for k, v in m.items()}, m


def draw_abstract(c, name, **kw_over):
    """diffs.draw over abstract node names."""
    spec, gs, info, args, kw = diffs.draw(c, name, relabel=tokenise)
    kw.pop("rename", None)  # new names are made from the old ones
    return spec, gs, info, args, kw


def result_order(kw, ctx):
    nl = kw.get("nodelist")
    return list(ctx.order) if nl is None else list(nl)
