"""Derived properties of a graph agree with their definition after any history of accesses."""
from ..build import build_matrix, entries, ga_graph, nx_to_ga, ventries
from ..canon import num_eq
from ..env import ga, gb, nx, nxapi, np
from ..gen import describe, make_graph

from graphblas import Vector, Scalar

ID = "C02"
CASES = {"quick": 30000, "thorough": 600000}
RULE = ("a case builds one graph (class, dtype, iso or not, scrambled ids, loops, signs), then makes a "
        "random history of derived-property reads (masked and unmasked, single and grouped) and algorithm "
        "calls; after every read the oracle recomputes the value from the raw entries. Non-trivial: the "
        "graph has an edge and the property was not the first one read; distinct by (class, property, "
        "preceding reads, entries)")
EXPECT = {"read": 1000, "masked_read": 100, "grouped_read": 100, "algorithm_call": 100}
ASSUMPTIONS = ["is_iso may be False for a matrix whose equal values are stored one by one (documented in the code)"]

MATS = ("A", "AT", "offdiag", "U+", "L+", "U-", "L-")
VECS_U = ("degrees+", "degrees-", "row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-",
          "count_rowwise+", "count_rowwise-", "count_columnwise+", "count_columnwise-", "total_degrees+")
VECS_D = ("row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-", "total_degrees+",
          "total_degrees-", "recip_degrees+", "recip_degrees-", "count_rowwise+", "count_columnwise-")
RED = tuple(f"{op}_{d}{s}" for op in ("plus", "min", "max") for d in ("rowwise", "columnwise") for s in "+-")
SCAL = tuple(f"{op}_element{s}" for op in ("plus", "min", "max", "count") for s in "+-")
DIAG = ("min_diagonal", "max_diagonal", "plus_diagonal")
FLAGS = ("has_self_edges", "is_iso", "iso_value", "has_negative_diagonal", "has_negative_edges+",
         "has_negative_edges-")
TOT = ("total_recip+", "total_recip-")


class Oracle:
    """Definitions over the raw entries {(i, j): w}; nothing is shared with the code under test."""

    def __init__(self, E, n, directed):
        self.E, self.n, self.directed = E, n, directed

    def ent(self, sign):
        return self.E if sign == "+" else {k: v for k, v in self.E.items() if k[0] != k[1]}

    def value(self, name):
        E = self.E
        if name == "A":
            return "mat", E
        if name == "AT":
            return "mat", {(j, i): v for (i, j), v in E.items()}
        if name == "offdiag":
            return "mat", self.ent("-")
        if name in ("U+", "U-", "L+", "L-"):
            up = name[0] == "U"
            return "mat", {(i, j): v for (i, j), v in self.ent(name[1]).items() if i == j or (i < j) == up}
        if name == "diag":
            return "vec", {i: v for (i, j), v in E.items() if i == j}
        if name == "has_self_edges":
            return "flag", any(i == j for i, j in E)
        if name == "has_negative_diagonal":
            return "flag", any(v < 0 for (i, j), v in E.items() if i == j)
        if name.startswith("has_negative_edges"):
            return "flag", any(v < 0 for v in self.ent(name[-1]).values())
        if name == "is_iso":
            return "iso", len(set(E.values())) <= 1
        if name == "iso_value":
            return "isoval", set(E.values())
        if name.startswith("total_recip"):
            X = self.ent(name[-1])
            return "num", sum((j, i) in X for i, j in X)
        if name.endswith("_diagonal"):
            return self._scalar(name.split("_")[0], [v for (i, j), v in E.items() if i == j])
        sign = name[-1]
        X = self.ent(sign)
        base = name[:-1]
        if base.endswith("_element"):
            return self._scalar(base[: -len("_element")], list(X.values()))
        if base == "total_degrees":
            out = {}
            if self.directed:
                for i, j in X:
                    out[i] = out.get(i, 0) + 1
                    out[j] = out.get(j, 0) + 1
            else:
                for i, j in X:
                    out[i] = out.get(i, 0) + 1 + (i == j)
            return "vec", out
        if base == "recip_degrees":
            out = {}
            for i, j in X:
                if (j, i) in X:
                    out[i] = out.get(i, 0) + 1
            return "vec", out
        base = {"degrees": "count_rowwise", "row_degrees": "count_rowwise",
                "column_degrees": "count_columnwise"}.get(base, base)
        op, way = base.rsplit("_", 1)
        groups = {}
        for (i, j), v in X.items():
            groups.setdefault(i if way == "rowwise" else j, []).append(v)
        return "vec", {k: self._red(op, vs) for k, vs in groups.items()}

    def _red(self, op, vs):
        return {"plus": sum, "min": min, "max": max, "count": len}[op](vs)

    def _scalar(self, op, vs):
        if not vs:
            return "empty", 0
        return "num", self._red(op, vs)


def plain(x):
    if isinstance(x, Scalar):
        return x.get()
    if isinstance(x, np.generic):
        return x.item()
    return x


def compare(kind, want, got, mask=None):
    """None or a description of the disagreement."""
    if kind == "mat":
        g = entries(got)
        if g.keys() != want.keys():
            return f"stored positions differ: missing {list(want.keys() - g.keys())[:4]}, extra {list(g.keys() - want.keys())[:4]}"
        for k in want:
            if not num_eq(g[k], want[k], 1e-12, 1e-12):
                return f"entry {k}: {g[k]!r} instead of {want[k]!r}"
        return None
    if kind == "vec":
        g = ventries(got)
        if mask is not None:
            want = {k: v for k, v in want.items() if k in mask}
        if g.keys() != want.keys():
            return f"indices differ: missing {sorted(want.keys() - g.keys())[:4]}, extra {sorted(g.keys() - want.keys())[:4]}"
        for k in want:
            if not num_eq(g[k], want[k], 1e-9, 1e-9):
                return f"index {k}: {g[k]!r} instead of {want[k]!r}"
        return None
    g = plain(got)
    if kind == "flag":
        return None if bool(g) == want and g is not None else f"{g!r} instead of {want!r}"
    if kind == "iso":
        return f"claims equal values but they differ" if g and not want else None
    if kind == "isoval":
        if g is None:
            return None
        return None if len(want) == 0 or (len(want) == 1 and num_eq(g, next(iter(want)), 0, 0)) else f"{g!r} but values are {sorted(want)[:5]}"
    if kind == "empty":
        return None if g is None or g == 0 else f"{g!r} for a reduction of nothing"
    if g is None:
        return f"empty instead of {want!r}"
    return None if num_eq(g, want, 1e-9, 1e-9) else f"{g!r} instead of {want!r}"


W = {"float64": ("float", "negfloat", "none", "unit", "isof", "zeros", "wide", "missing"),
     "int64": ("int", "negint", "none", "iso", "isoneg", "zeros", "negdag"),
     "int32": ("int", "negint", "negdag", "none"),
     "uint64": ("int", "none", "iso"),
     "bool": ("none",)}


def positive_only(info):
    return info["weights"] not in ("negint", "negfloat", "negdag", "isoneg", "zeros")


def algorithms(G, rng, pos):
    nodes = list(G)
    d = G.is_directed()
    calls = [("transitivity", ()), ("degree_centrality", ()), ("clustering", ()), ("average_clustering", ()),
             ("descendants", (rng.choice(nodes),)), ("ancestors", (rng.choice(nodes),)),
             ("has_path", (rng.choice(nodes), rng.choice(nodes))), ("number_of_isolates", ()),
             ("is_regular", ()), ("s_metric", ()), ("is_isolate", (rng.choice(nodes),)),
             ("single_source_shortest_path_length", (rng.choice(nodes),)),
             ("single_target_shortest_path_length", (rng.choice(nodes),)),
             ("edge_boundary", (set(nodes[:1]),)), ("volume", (nodes[:2],))]
    if d:
        calls += [("reciprocity", ()), ("overall_reciprocity", ()), ("is_weakly_connected", ()),
                  ("in_degree_centrality", ()), ("out_degree_centrality", ()), ("is_tournament", ()),
                  ("score_sequence", ()), ("reciprocity", (rng.choice(nodes),))]
    else:
        calls += [("triangles", ()), ("square_clustering", ()), ("generalized_degree", ()), ("is_connected", ()),
                  ("triangles", (rng.choice(nodes),)), ("clustering", (rng.choice(nodes),)),
                  ("node_connected_component", (rng.choice(nodes),)), ("k_truss", (3,)),
                  ("is_k_regular", (2,))]
    if pos:
        calls += [("pagerank", ()), ("single_source_bellman_ford_path_length", (rng.choice(nodes),)),
                  ("negative_edge_cycle", ())]
        if not d:
            calls += [("laplacian_matrix", ()), ("normalized_laplacian_matrix", ())]
    return rng.choice(calls)


def case(c):
    rng = c.rng
    dt = rng.choice(("float64", "float64", "int64", "int64", "int32", "uint64", "bool"))
    nxg, info = make_graph(rng, None, weights=W[dt], lo=1, hi=14, self_loops=rng.random() < 0.55)
    iso = info["weights"] in ("iso", "isof", "isoneg", "none", "unit") and rng.random() < 0.6
    if dt == "float64" and rng.random() < 0.25:
        G = nx_to_ga(nxg, weight="weight" if info["weights"] != "none" else None)
    else:
        G = ga_graph(rng, nxg, dtype=dt, iso=iso)
    E = entries(G.matrix)
    n, d = len(G), G.is_directed()
    orc = Oracle(E, n, d)
    isbool = dt == "bool" or str(G.matrix.dtype) == "BOOL"
    vocab = list(MATS) + list(VECS_D if d else VECS_U) + ["diag"] + list(FLAGS) * 2 + (list(TOT) if d else [])
    vocab += ["count_element+", "count_element-"]
    if not isbool:
        vocab += list(RED) + [s for s in SCAL if not s.startswith("count")] + list(DIAG)
    else:  # a sum of booleans counts them
        vocab += [s for s in RED + SCAL if s.startswith("plus")]
    c.say(f"{type(G).__name__} {dt} iso={iso} entries={sorted(E.items())[:40]} n={n}")
    hist = []
    steps = rng.randint(4, 26)
    focus = rng.sample(vocab, min(len(vocab), rng.randint(3, 9))) if rng.random() < 0.5 else vocab
    for step in range(steps):
        x = rng.random()
        if x < 0.12:
            name, args = algorithms(G, rng, positive_only(info))
            c.say(f"call {name}{args!r}")
            hist.append("call:" + name)
            c.ev("algorithm_call")
            f = getattr(nxapi, name, None)
            if f is None:
                import networkx as _nx

                continue
            try:
                r = f(G, *args)
                if hasattr(r, "__next__"):
                    list(r)
            except (ZeroDivisionError, nx.NetworkXException):
                pass
            continue
        if x < 0.3:
            names = [rng.choice(focus) for _ in range(rng.randint(2, 4))]
            got = G.get_properties(rng.choice((" ".join(names), ",".join(names), names)))
            c.ev("grouped_read")
            mask, items = None, list(zip(names, got))
            if len(got) != len(names):
                c.fail("get_properties:length", f"{names} gave {len(got)} results")
        else:
            name = rng.choice(focus)
            kind = orc.value(name)[0]
            mask = None
            if kind == "vec" and rng.random() < 0.35:
                mask = set(rng.sample(range(n), rng.randint(0, n)))
                mv = Vector.from_coo(sorted(mask), True, size=n, dtype=bool)
                got = G.get_property(name, mask=mv.S)
                c.ev("masked_read")
            else:
                got = G.get_property(name)
            items = [(name, got)]
        for name, g in items:
            c.say(f"read {name} mask={sorted(mask) if mask is not None else None}")
            kind, want = orc.value(name)
            c.ev("read")
            c.ev(f"kind:{kind}")
            bad = compare(kind, want, g, mask)
            c.judged((type(G).__name__, name, tuple(hist[-3:]), tuple(sorted(E))[:30]), bool(E) and bool(hist))
            if bad:
                c.fail(f"{type(G).__name__}:{name}", f"after {hist[-8:]}: {bad}", graph=describe(nxg), dtype=dt)
            hist.append(name + ("|m" if mask is not None else ""))
    order = list(dict.fromkeys(vocab))
    rng.shuffle(order)
    for name in order[:20]:
        kind, want = orc.value(name)
        bad = compare(kind, want, G.get_property(name))
        c.ev("sweep_read")
        c.judged()
        if bad:
            c.fail(f"{type(G).__name__}:{name}", f"in the final sweep after {hist[-8:]}: {bad}", graph=describe(nxg), dtype=dt)
    iso_v = plain(G.get_property("iso_value"))
    c.check(bool(G.get_property("is_iso")) == (iso_v is not None), f"{type(G).__name__}:is_iso/iso_value",
            f"is_iso {G.get_property('is_iso')} but iso_value {iso_v!r}")
    c.check(entries(G.matrix) == E, "matrix:changed", "the adjacency matrix itself changed")
