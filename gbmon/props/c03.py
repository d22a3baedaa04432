"""Results do not depend on what was computed on the graph before."""
from .. import diffs
from ..build import entries, ga_graph, nx_to_ga
from ..canon import graph_form
from ..catalog import SPECS
from ..env import Dispatcher, ga, nx, np
from ..gen import describe, make_graph
from ..diffs import READS
from ..meta import disagreement, observe, tolerance

from graphblas import Vector

ID = "C03"
CASES = {"quick": 8000, "thorough": 100000}
RULE = ("a case builds one native graph (class, weights, dtype, iso or not, scrambled ids, loops) and makes a random "
        "history of 4-18 calls on it: algorithms drawn from all 81 functions with recurring arguments, unknown "
        "nodes, derived-property reads (masked or not) and graphs derived from it. Every outcome is compared with "
        "the outcome of the same single call on a graph freshly built the same way. Non-trivial: the graph has an "
        "edge and something was called before; distinct by (function, last two calls, graph)")
EXPECT = {"compared": 20000, "repeat_call": 2000, "exception_compared": 200, "derived_graph": 500, "read": 2000, "result_changed_by_caller": 1000,
          "averted:after_error": 100}
ASSUMPTIONS = ["calls are made one after another in one thread"]

NAMES_ALL = sorted(SPECS)
BINARY = [n for n in NAMES_ALL if SPECS[n].second]
SLOW = {"hits", "google_matrix", "floyd_warshall", "floyd_warshall_numpy", "floyd_warshall_predecessor_and_distance"}
CACHED = ["transitivity", "average_clustering", "clustering", "triangles", "square_clustering", "generalized_degree",
          "degree_centrality", "in_degree_centrality", "out_degree_centrality", "reciprocity", "overall_reciprocity",
          "is_regular", "is_k_regular", "pagerank", "google_matrix", "laplacian_matrix",
          "normalized_laplacian_matrix", "modularity_matrix", "directed_modularity_matrix", "volume", "cut_size",
          "conductance", "number_of_isolates", "isolates", "is_isolate", "s_metric", "mutual_weight", "k_truss",
          "all_pairs_bellman_ford_path_length", "single_source_bellman_ford_path_length", "bellman_ford_path",
          "negative_edge_cycle", "floyd_warshall", "ancestors", "descendants", "is_tournament", "score_sequence",
          "single_target_shortest_path_length", "katz_centrality", "eigenvector_centrality", "hits",
          "fast_could_be_isomorphic", "faster_could_be_isomorphic", "bethe_hessian_matrix", "has_path"]


def recipe(c, rng, directed):
    """() -> a new native graph, always the same."""
    import random

    scheme = rng.choice(("none", "none", "unit", "iso", "isof", "int", "float", "missing", "ties", "negint", "negdag", "zeros"))
    G, info = make_graph(rng, directed, weights=scheme, lo=1, hi=16)
    attr = "weight" if scheme != "none" else None
    if rng.random() < 0.4:
        c.say(f"from_networkx({describe(G)}, weight={attr})")
        return G, info, lambda: nx_to_ga(G, weight=attr)
    ints = scheme not in ("isof", "float")
    neg = scheme in ("negint", "negdag")
    dt = rng.choice(["float64"] + (["int64", "int32", "int8"] if ints else [])
                    + (["uint8", "uint64"] if ints and not neg else []) + (["bool"] if scheme in ("none", "unit") else []))
    iso = scheme in ("none", "unit", "iso", "isof") and rng.random() < 0.5
    form = rng.choice((None, None, "csr", "hypercsr", "csc") if dt == "float64" else (None, None, "csr", "hypercsr"))
    k = rng.random()
    c.say(f"matrix graph {dt} iso={iso} form={form} of {describe(G)}")
    return G, info, lambda: ga_graph(random.Random(k), G, weight=attr, dtype=dt, iso=iso, form=form)


def derive(rng, G):
    """A graph made from this one (applied to the shared and to the fresh graph alike)."""
    d = G.is_directed()
    ways = [("complement", lambda g: Dispatcher.complement(g)),
            ("compose with itself", lambda g: Dispatcher.compose(g, g)),
            ("symmetric difference with itself", lambda g: Dispatcher.symmetric_difference(g, g))]
    if d:
        ways += [("reverse", lambda g: Dispatcher.reverse(g)), ("reverse", lambda g: g.reverse()),
                 ("reverse without copy", lambda g: g.reverse(copy=False)),
                 ("to_undirected", lambda g: g.to_undirected()),
                 ("reciprocal part", lambda g: g.to_undirected(reciprocal=True))]
    else:
        ways += [("k_truss", lambda g: Dispatcher.k_truss(g, 3))]
    return rng.choice(ways)


def plan_call(c, rng, G, info, H, pool):
    if pool and rng.random() < 0.45:
        c.ev("repeat_call")
        return rng.choice(pool)
    for _ in range(30):
        name = rng.choice(CACHED if rng.random() < 0.6 else NAMES_ALL)
        spec = SPECS[name]
        if ("D" if G.is_directed() else "U") not in spec.kinds or len(G) < spec.min_n:
            continue
        if name == "lowest_common_ancestor" and not nx.is_directed_acyclic_graph(G):
            continue
        if name in SLOW and rng.random() < 0.5:
            continue
        neg = info["weights"] in ("negint", "negdag", "zeros")
        if neg and spec.group in ("central", "cluster", "matrix", "cut"):
            if name in diffs.STORED_ALWAYS or name == "hits":
                continue
        if info["weights"] == "zeros" and spec.group == "central":
            continue
        args, kw = spec.args(rng, G)
        kw = dict(kw)
        if spec.wkw and info["weights"] != "none" and (not neg or spec.group in ("wdist", "matrix")):
            x = rng.random()
            if x < 0.7 and info["weights"] in spec.weights + ("negint", "negdag"):
                kw[spec.wkw] = "weight"
            elif x < 0.85 and name not in diffs.STORED_ALWAYS:
                kw[spec.wkw] = None
        if name == "average_clustering" and rng.random() < 0.5:
            kw = {k: v for k, v in kw.items() if k in ("weight",)} | ({"count_zeros": rng.random() < 0.5} if rng.random() < 0.7 else {})
        if rng.random() < 0.05 and args and name != "lowest_common_ancestor" and not spec.second:
            args = (("no", "such", "node"),) + tuple(args[1:])
        call = (name, args, kw, bool(spec.second))
        pool.append(call)
        return call
    return None


def do(name, graphs, args, kw):
    return observe(name, "native", graphs, args, kw)


def case(c):
    from .c18 import change, parts

    rng = c.rng
    d = rng.random() < 0.5
    G, info, make = recipe(c, rng, d)
    H = make_graph(rng, d, n=info["n"], labels="range", weights="none")[0]
    H = nx.relabel_nodes(H, dict(zip(sorted(H), G)))
    mode = rng.random()
    if rng.random() < 0.3:  # a partner the isomorphism screens cannot tell apart
        nodes = list(G)
        rng.shuffle(nodes)
        H = nx.relabel_nodes(G, dict(zip(G, nodes)), copy=True)
        H.remove_nodes_from([v for v in H if v not in G])
        for *_, dd in H.edges(data=True):
            dd.clear()
    if mode < 0.3:  # disjoint names
        H = nx.relabel_nodes(H, {v: ("H", v) for v in H})
    makeH = lambda: nx_to_ga(H)  # noqa: E731
    shared, sharedH = make(), makeH()
    before = entries(shared.matrix)
    pool, hist, fresh_seen = [], [], {}
    derived = []
    errors = False
    for step in range(rng.randint(4, 18)):
        x = rng.random()
        if x < 0.13:
            names = [r for r in rng.sample(READS, rng.randint(1, 3))]
            for r in names:
                mask = None
                try:
                    if "degrees" in r and rng.random() < 0.4:
                        mask = Vector.from_coo(rng.sample(range(len(G)), rng.randint(0, len(G))), True, size=len(G)).S
                    shared.get_property(r, mask=mask)
                except KeyError:
                    continue
                c.ev("read")
                hist.append(r + ("|m" if mask is not None else ""))
            continue
        call = plan_call(c, rng, G, info, H, pool)
        if call is None:
            continue
        name, args, kw, second = call
        target, ctarget, dname = shared, None, ""
        if not second and x > 0.86 and name not in ("lowest_common_ancestor",):
            if derived and rng.random() < 0.5:
                dname, f, D = rng.choice(derived)
            else:
                dname, f = derive(rng, G)
                D = f(shared)
                derived.append((dname, f, D))
            target, ctarget = D, f(make())
            c.ev("derived_graph")
            if ("D" if D.is_directed() else "U") not in SPECS[name].kinds:
                continue
        order = rng.random() < 0.5 if second else True
        partner = sharedH if rng.random() < 0.6 else makeH()
        gs = [target] + ([partner] if second else [])
        fr = [make() if ctarget is None else ctarget] + ([makeH()] if second else [])
        if not order:
            gs.reverse(), fr.reverse()
        c.say(f"{dname and dname + '; '}{name} args={args!r} kw={kw!r}{'' if order else ' (operands swapped)'}")
        key = (name, repr(args), repr(sorted(kw.items(), key=str)), order, dname, dname and id(target))
        got = do(name, gs, args, kw)
        if key in fresh_seen:
            want = fresh_seen[key]
        else:
            want = fresh_seen[key] = do(name, fr, args, kw)
        c.ev("compared")
        c.ev(f"call:{name}")
        if got.exc is not None:
            c.ev("exception_compared")
            errors = True
        elif errors:
            c.ev("averted:after_error")
        bad = disagreement(name, want, got, kw)
        c.judged((name, tuple(hist[-2:]), repr(args), sorted(map(repr, G.edges))[:25], dname), info["m"] > 0 and bool(hist))
        if bad:
            c.fail(f"{name}:depends-on-history",
                   f"after {hist[-10:]}: fresh graph vs this graph: {bad}")
        hist.append(name + (f" on {dname}" if dname else ""))
        if got.exc is None and got.raw is not None and rng.random() < 0.3:  # what was returned is the caller's to change
            objs = [o for o in parts(got.raw) if all(o is not g for g in (*gs, *fr))]
            what = change(rng, rng.choice(objs), [v for v in gs[0] if v in gs[-1]]) if objs else None
            if what is not None:
                c.ev("result_changed_by_caller")
                c.say(f"change the {what} returned")
                hist.append(f"changed {what}")
    c.check(entries(shared.matrix) == before, "matrix:changed", "the adjacency matrix changed")
