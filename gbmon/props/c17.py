"""Asking for one node, some nodes or all nodes is consistent; so are all ways of asking for the same quantity."""
import math

from .. import diffs
from ..build import nx_to_ga
from ..canon import canon, diff
from ..catalog import SPECS, Lazy, subset
from ..env import ga, gb, nx
from ..gen import describe, make_graph
from ..meta import Outcome

ID = "C17"
CASES = {"quick": 24000, "thorough": 250000}
RULE = ("a case draws one graph (networkx, converted or hand-built native) and cross-checks a family of calls on it: "
        "per-node functions for one node, for collections (list, tuple, set, frozenset, dict keys, generator; empty, "
        "repeated, in any order) and for all nodes; hop counts from all-pairs, single-source, single-target, layers, "
        "fixed distance, reachability, efficiency and ego graphs; weighted lengths from all-pairs, single-source, "
        "pairwise, path and Floyd-Warshall calls; isolates; degrees; community and cut counts. Calls are made in "
        "random order on a shared graph. Non-trivial: the graph has an edge; distinct by (family, call, arguments, "
        "edges)")
EXPECT = {"family:nodes": 4000, "family:hops": 1500, "family:weighted": 1500, "family:isolates": 300,
          "family:counts": 500, "family:arrays": 1000, "relation": 60000, "single": 5000, "collection": 8000, "duplicates": 1000}
ASSUMPTIONS = ["a tuple or frozenset that is itself a node of the graph is that node, not a collection"]
PER_NODE = {"triangles": "U", "clustering": "UD", "square_clustering": "U", "generalized_degree": "U",
            "reciprocity": "D"}


class Ask:
    """Calls on one graph, canonical results."""

    def __init__(self, c, mode, G):
        self.c, self.mode, self.G = c, mode, G

    def __call__(self, name, *args, **kw):
        self.c.ev(f"call:{name}")
        r = canon(diffs.invoke(name, self.mode, [self.G], list(args), kw))
        if name in ("single_target_shortest_path_length", "all_pairs_shortest_path_length",
                    "all_pairs_bellman_ford_path_length") and isinstance(r, list):
            keys = [k for k, _ in r]
            self.c.check(len(keys) == len(set(keys)), f"{name}:repeated", lambda: f"{name} lists a node twice: {r}")
            r = dict(r)
        return r

    def outcome(self, name, *args, **kw):
        try:
            return Outcome(self(name, *args, **kw))
        except Exception as e:
            return Outcome(exc=e)


def same(c, name, what, a, b, rtol=1e-9, atol=1e-9):
    c.ev("relation")
    d = diff(a, b, rtol, atol)
    c.check(not d, f"{name}:inconsistent", lambda: f"{what}: {d}")


# ------------------------------------------------------------------ per-node functions
def collection(rng, G):
    kinds = ("list", "tuple", "set", "frozenset", "dictkeys", "list")
    s = subset(rng, G, kinds=kinds)
    if s.items and s.kind in ("list", "tuple") and rng.random() < 0.3:
        s = Lazy(s.kind, s.items + rng.choices(s.items, k=rng.randint(1, 3)))
        if rng.random() < 0.5:
            rng.shuffle(s.items)
    return s


def nodes_family(c, ask, H, name, kw):
    rng = c.rng
    nodes = list(H)
    empty = lambda v: v in ({}, None)  # noqa: E731  (undefined or empty rows may be left out)
    loose = name in ("generalized_degree", "reciprocity")
    asks = [("one", rng.choice(nodes)) for _ in range(rng.randint(1, 4))]
    asks += [("some", collection(rng, H)) for _ in range(rng.randint(1, 3))]
    if name != "reciprocity":
        asks.append(("all", None))
    asks.append(("some", Lazy("list", nodes)))
    rng.shuffle(asks)
    known = {}

    def note(v, val, how):
        if v in known:
            same(c, name, f"{name} of {v!r}: {known[v][1]} against {how}", known[v][0], val)
        else:
            known[v] = (val, how)

    for kind, x in asks:
        if kind == "one":
            c.ev("single")
            o = ask.outcome(name, nodes=x, **kw)
            if o.exc is not None:
                c.check(name == "reciprocity" and isinstance(o.exc, nx.NetworkXError), f"{name}:raised",
                        lambda: f"{name} of {x!r}: {o}")
                note(x, None, f"nodes={x!r}")
            else:
                c.check(loose or not isinstance(o.value, dict), f"{name}:not-a-value",
                        lambda: f"{name}(nodes={x!r}) gives {o.value!r}")
                note(x, o.value, f"nodes={x!r}")
            continue
        args = {} if kind == "all" else {"nodes": x}
        c.ev("collection")
        want = set(nodes) if kind == "all" else set(x.items)
        if kind == "some" and len(x.items) != len(want):
            c.ev("duplicates")
        r = ask(name, **args, **kw)
        how = "all nodes" if kind == "all" else f"nodes={x!r}"
        c.check(isinstance(r, dict), f"{name}:not-a-map", lambda: f"{name} of {how} gives {r!r}")
        extra = r.keys() - want
        c.check(not extra, f"{name}:extra-nodes", lambda: f"{name} of {how} also answers for {list(extra)[:5]!r}")
        missing = want - r.keys()
        if loose:
            degree0 = {v for v in missing if not any(u != v for u in nx.all_neighbors(H, v))}
            if name == "reciprocity":
                degree0 = {v for v in missing if H.degree(v) == 0}
            for v in degree0:
                note(v, {} if name == "generalized_degree" else None, how)
            missing -= degree0
        c.check(not missing, f"{name}:missing-nodes", lambda: f"{name} of {how} has no answer for {list(missing)[:5]!r}")
        for v, val in r.items():
            note(v, val, how)
    if name == "clustering":
        x = rng.choice([Lazy("list", nodes), collection(rng, H), None])
        want = nodes if x is None else list(dict.fromkeys(x.items))
        vals = [known[v][0] for v in want if v in known]
        if len(vals) == len(want) and want:
            args = {} if x is None else {"nodes": x}
            same(c, name, f"average_clustering({args}) against the mean of clustering",
                 ask("average_clustering", **args, **kw), math.fsum(vals) / len(vals))
            pos = [v for v in vals if v != 0]
            if pos and all(abs(v) > 1e-12 for v in pos):
                same(c, name, "average_clustering without zeros against the mean of clustering",
                     ask("average_clustering", count_zeros=False, **args, **kw), math.fsum(pos) / len(pos))
    if name == "triangles" and all(v in known for v in nodes):
        d = {v: sum(1 for u in H[v] if u != v) for v in nodes}
        trios = sum(k * (k - 1) for k in d.values())
        t = sum(known[v][0] for v in nodes)
        same(c, name, "transitivity against triangles", ask("transitivity"), 2 * t / trios if t else 0)
        for v in rng.sample(nodes, min(3, len(nodes))):
            if d[v] > 1:
                same(c, name, f"clustering of {v!r} against triangles", ask("clustering", nodes=v),
                     2 * known[v][0] / (d[v] * (d[v] - 1)))


# ------------------------------------------------------------------ hop counts
def hops_family(c, ask, H, cutoff):
    rng = c.rng
    nodes = list(H)
    d = H.is_directed()
    cut = {} if cutoff is None else {"cutoff": cutoff}
    D = ask("all_pairs_shortest_path_length", **cut)
    same(c, "all_pairs_shortest_path_length", "sources", set(D), set(nodes))
    free = D if cutoff is None else None
    picks = rng.sample(nodes, min(len(nodes), rng.randint(2, 5)))
    jobs = [(s, k) for s in picks for k in ("source", "target", "layers", "at", "reach", "path", "ego", "eff")]
    rng.shuffle(jobs)
    for s, k in jobs[: rng.randint(6, 20)]:
        if k == "source":
            same(c, "single_source_shortest_path_length", f"from {s!r} (cutoff {cutoff}): all pairs against single source",
                 D[s], ask("single_source_shortest_path_length", s, **cut))
        elif k == "target":
            same(c, "single_target_shortest_path_length", f"to {s!r} (cutoff {cutoff}): all pairs against single target",
                 {v: row[s] for v, row in D.items() if s in row}, ask("single_target_shortest_path_length", s, **cut))
        if free is None:
            continue
        if k == "layers":
            layers = ask("bfs_layers", s)
            flat = [v for x in layers for v in x]
            c.check(len(flat) == len(set(flat)), "bfs_layers:repeated", lambda: f"bfs_layers({s!r}) = {layers!r}")
            same(c, "bfs_layers", f"layers of {s!r} against distances", D[s], {v: i for i, x in enumerate(layers) for v in x})
            if len(picks) > 1:
                o = rng.choice(picks)
                layers = ask("bfs_layers", Lazy("list", list({s: 1, o: 1})))
                want = {v: min(D[s].get(v, math.inf), D[o].get(v, math.inf)) for v in {**D[s], **D[o]}}
                same(c, "bfs_layers", f"layers of {s!r} and {o!r} against distances", want,
                     {v: i for i, x in enumerate(layers) for v in x})
        elif k == "at":
            h = rng.choice((0, 1, 2, 3))
            same(c, "descendants_at_distance", f"at {h} of {s!r} against distances",
                 frozenset(v for v, x in D[s].items() if x == h), frozenset(ask("descendants_at_distance", s, h)))
        elif k == "reach":
            same(c, "descendants", f"of {s!r} against distances", frozenset(D[s]) - {s}, frozenset(ask("descendants", s)))
            same(c, "ancestors", f"of {s!r} against distances", frozenset(v for v in D if s in D[v]) - {s},
                 frozenset(ask("ancestors", s)))
            if not d:
                same(c, "node_connected_component", f"of {s!r} against distances", frozenset(D[s]),
                     frozenset(ask("node_connected_component", s)))
                same(c, "is_connected", "against distances", len(D[s]) == len(nodes), ask("is_connected"))
            elif rng.random() < 0.3 and all(len(D[v]) == len(nodes) for v in D):
                same(c, "is_weakly_connected", "against distances", True, ask("is_weakly_connected"))
        elif k == "path":
            for t in rng.sample(nodes, min(3, len(nodes))):
                same(c, "has_path", f"{s!r} to {t!r} against distances", t in D[s], ask("has_path", s, t))
        elif k == "ego":
            r = rng.choice((0, 1, 2, 3))
            e = ask("ego_graph", s, radius=r)
            same(c, "ego_graph", f"nodes within {r} of {s!r} against distances",
                 frozenset(v for v, x in D[s].items() if x <= r), frozenset(e["nodes"]))
        elif k == "eff" and not d:
            t = rng.choice(nodes)
            if t != s:
                same(c, "efficiency", f"{s!r}, {t!r} against distances", 1 / D[s][t] if t in D[s] else 0,
                     ask("efficiency", s, t))


# ------------------------------------------------------------------ weighted lengths
def weighted_family(c, ask, H, kw, costs):
    rng = c.rng
    nodes = list(H)
    o = ask.outcome("all_pairs_bellman_ford_path_length", **kw)
    neg = ask("negative_edge_cycle", **kw)
    c.ev("relation")
    if neg:
        c.ev("negative_cycle")
        c.check(o.exc is None or isinstance(o.exc, nx.NetworkXUnbounded), "all_pairs_bellman_ford_path_length:raised",
                lambda: f"{o}")
    else:
        c.check(o.exc is None, "all_pairs_bellman_ford_path_length:raised",
                lambda: f"no negative cycle was reported, yet all pairs: {o}")
    jobs = [(s, k) for s in rng.sample(nodes, min(len(nodes), 4)) for k in ("source", "pair", "path", "fw")]
    rng.shuffle(jobs)
    for s, k in jobs[: rng.randint(5, 12)]:
        if o.exc is not None:
            if k == "source":
                # some source meets the cycle; each single source either agrees or says so
                one = ask.outcome("single_source_bellman_ford_path_length", s, **kw)
                c.ev("relation")
                c.check(one.exc is None or isinstance(one.exc, nx.NetworkXUnbounded),
                        "single_source_bellman_ford_path_length:raised", lambda: f"{one}")
            continue
        D = o.value
        if k == "source":
            same(c, "single_source_bellman_ford_path_length", f"from {s!r}: all pairs against single source", D[s],
                 ask("single_source_bellman_ford_path_length", s, **kw))
        elif k == "pair":
            for t in rng.sample(nodes, min(3, len(nodes))):
                x = ask.outcome("bellman_ford_path_length", s, t, **kw)
                if t in D[s]:
                    c.check(x.exc is None, "bellman_ford_path_length:raised", lambda: f"{s!r} to {t!r}: {x}, all pairs {D[s][t]}")
                    same(c, "bellman_ford_path_length", f"{s!r} to {t!r} against all pairs", D[s][t], x.value)
                else:
                    c.ev("relation")
                    c.check(isinstance(x.exc, nx.NetworkXNoPath), "bellman_ford_path_length:no-path",
                            lambda: f"{s!r} to {t!r}: {x}, all pairs has none")
        elif k == "path":
            t = rng.choice(nodes)
            p = ask.outcome("bellman_ford_path", s, t, **kw)
            c.ev("relation")
            if t not in D[s]:
                c.check(isinstance(p.exc, nx.NetworkXNoPath), "bellman_ford_path:no-path", lambda: f"{s!r} to {t!r}: {p}")
                continue
            c.check(p.exc is None and p.value and p.value[0] == s and p.value[-1] == t
                    and all((a, b) in costs for a, b in zip(p.value, p.value[1:])), "bellman_ford_path:not-a-path",
                    lambda: f"{s!r} to {t!r}: {p}")
            same(c, "bellman_ford_path", f"cost of {p.value!r} against all pairs",
                 sum(costs[e] for e in zip(p.value, p.value[1:])), D[s][t], 1e-6)
        elif k == "fw" and not neg and len(nodes) <= 20:
            f = ask("floyd_warshall", **kw)
            got = {a: {b: x for b, x in row.items() if x != math.inf} for a, row in f.items()}
            same(c, "floyd_warshall", "against all-pairs Bellman-Ford", D, got, 1e-6, 1e-6)
            if rng.random() < 0.5:
                pred, dist = ask("floyd_warshall_predecessor_and_distance", **kw)
                dist = {a: {b: x for b, x in row.items() if x != math.inf} for a, row in dist.items()}
                same(c, "floyd_warshall_predecessor_and_distance", "distances against Floyd-Warshall", got, dist, 1e-6, 1e-6)


# ------------------------------------------------------------------ array-level functions
def solid(x):
    return x.new() if hasattr(x, "new") else x


def rows_of(M):
    d = {}
    for i, j, x in zip(*(a.tolist() for a in M.to_coo())):
        d.setdefault(i, {})[j] = x
    return d


def arrays_family(c, G, H, weighted):
    """Rows, masks and ids: part of the answer against all of it, on the vectors and matrices themselves."""
    rng = c.rng
    alg = ga.algorithms
    n = len(H)
    d = H.is_directed()
    nodes = list(G)
    pick = rng.sample(nodes, n if rng.random() < 0.3 else rng.randint(1, n))
    ids = [G._key_to_id[v] for v in pick]
    kind = rng.choice(("hops", "costs", "mask", "mask", "ids") if not d else ("hops", "costs", "mask"))
    c.ev(f"arrays:{kind}")
    if kind in ("hops", "costs"):
        kw = {}
        if kind == "hops":
            f, name = alg.all_pairs_shortest_path_length, "all_pairs_shortest_path_length"
            cutoff = rng.choice((None, None, 0, 1, 2, 4, 1.7, 0.6))
            if cutoff is not None:
                kw["cutoff"] = cutoff
        else:
            f, name = alg.bellman_ford_path_lengths, "bellman_ford_path_lengths"
        c.ev(f"call:algorithms.{name}")
        try:
            full = rows_of(solid(f(G, **kw)))
        except alg.exceptions.Unbounded:
            c.ev("negative_cycle")
            single = []
            for v in pick[:4]:
                try:
                    single.append(solid(alg.single_source_bellman_ford_path_length(G, v)).to_dict())
                except alg.exceptions.Unbounded:
                    single.append(None)
            try:
                got = rows_of(solid(f(G, nodes=pick[:4], **kw)))
            except alg.exceptions.Unbounded:
                got = None
            want = None if None in single else dict(enumerate(single))
            c.check((want is None) == (got is None), f"{name}:unbounded",
                    lambda: f"{name}(nodes={pick[:4]!r}) {'refuses' if got is None else 'answers'}, one by one: {single}")
            if want is not None and got is not None:
                c.ev("negative_cycle_unreached")
                same(c, name, f"rows {ids[:4]} against one by one", want, got)
            return
        expand = rng.random() < 0.5
        D = solid(f(G, nodes=pick, expand_output=expand, **kw))
        c.check(D.shape == ((n, n) if expand else (len(pick), n)), f"{name}:shape",
                lambda: f"{name}(nodes={pick!r}, expand_output={expand}) has shape {D.shape} for {n} nodes")
        got = rows_of(D)
        want = {i if expand else k: full[i] for k, i in enumerate(ids) if i in full}
        same(c, name, f"rows {ids} (expand_output={expand}, {kw}) against all rows", want, got)
        return
    if kind == "ids":
        full = solid(alg.square_clustering(G)).to_dict()
        got = solid(alg.square_clustering(G, ids)).to_dict()
        zeros = {i: 0 for i in ids}
        same(c, "square_clustering", f"ids {ids} against all", {**zeros, **{i: full[i] for i in ids if i in full}}, {**zeros, **got})
        for i in ids[:3]:
            same(c, "single_square_clustering", f"id {i} against all", full.get(i, 0), alg.single_square_clustering(G, i))
        return
    v = gb.Vector.from_coo(ids, [rng.random() < 0.8 for _ in ids], dtype=bool, size=n)
    how = rng.choice(("S", "~S", "V", "~V"))
    m = {"S": lambda: v.S, "~S": lambda: ~v.S, "V": lambda: v.V, "~V": lambda: ~v.V}[how]()
    truth = v.to_dict()
    inside = {i for i in range(n) if ((i in truth) if "S" in how else bool(truth.get(i))) != ("~" in how)}
    kw = {"weighted": True} if weighted else {}
    if d:
        name = rng.choice(("clustering_directed", "reciprocity"))
        if name == "reciprocity":
            kw = {}
    else:
        name = rng.choice(("clustering", "triangles", "generalized_degree"))
        if name == "generalized_degree":
            if how != "S":
                return
            kw = {}
    f = getattr(alg, name)
    c.ev(f"call:algorithms.{name}")
    full, got = solid(f(G, **kw)), solid(f(G, mask=m, **kw))
    full, got = (rows_of(full), rows_of(got)) if name == "generalized_degree" else (full.to_dict(), got.to_dict())
    zeros = {i: 0 for i in inside}
    if name == "reciprocity" or name == "generalized_degree":
        zeros = {}
    same(c, name, f"mask {how} {truth} ({kw}) against all", {**zeros, **{i: full[i] for i in inside if i in full}}, {**zeros, **got})


# ------------------------------------------------------------------ counts
def isolates_family(c, ask, H):
    rng = c.rng
    iso = ask("isolates")
    c.check(len(iso) == len(set(iso)), "isolates:repeated", lambda: f"isolates = {iso!r}")
    same(c, "number_of_isolates", "against isolates", len(list(iso)), ask("number_of_isolates"))
    for v in rng.sample(list(H), min(6, len(H))):
        same(c, "is_isolate", f"{v!r} against isolates", v in set(iso), ask("is_isolate", v))


def counts_family(c, ask, H):
    rng = c.rng
    nodes = list(H)
    n = len(nodes)
    d = H.is_directed()
    if n > 1:
        deg = ask("degree_centrality")
        if d:
            i, o = ask("in_degree_centrality"), ask("out_degree_centrality")
            same(c, "degree_centrality", "against in plus out degree centrality", {v: i[v] + o[v] for v in nodes}, deg)
        elif len(set(deg.values())) == 1 and not nx.number_of_selfloops(H):
            k = round(deg[nodes[0]] * (n - 1))
            same(c, "is_k_regular", "against equal degrees", True, ask("is_k_regular", k))
            same(c, "is_regular", "against equal degrees", True, ask("is_regular"))
            same(c, "is_k_regular", "against equal degrees", False, ask("is_k_regular", k + 1))
        elif not d:
            same(c, "is_regular", "against unequal degrees", len(set(deg.values())) == 1, ask("is_regular"))
    S = rng.sample(nodes, rng.randint(1, max(1, n - 1)))
    T = [v for v in nodes if v not in set(S)]
    if T:
        eb = ask("edge_boundary", Lazy("list", S))
        eb2 = ask("edge_boundary", Lazy("set", S), Lazy("list", T))
        same(c, "edge_boundary", f"of {S!r}: implicit against explicit complement", frozenset(map(tuple, eb)), frozenset(map(tuple, eb2)))
        nb = ask("node_boundary", Lazy("list", S))
        same(c, "node_boundary", f"of {S!r} against edge_boundary", frozenset(v for _, v in eb), frozenset(nb))
        if not d:
            cut = ask("cut_size", Lazy("list", S))
            same(c, "cut_size", f"of {S!r} against edge_boundary", len(eb), cut)
            vs, vt = ask("volume", Lazy("list", S)), ask("volume", Lazy("list", T))
            if vs and vt:
                same(c, "normalized_cut_size", f"of {S!r} against cut and volumes", cut / vs + cut / vt,
                     ask("normalized_cut_size", Lazy("list", S)))
                same(c, "conductance", f"of {S!r} against cut and volumes", cut / min(vs, vt), ask("conductance", Lazy("list", S)))
            same(c, "edge_expansion", f"of {S!r} against cut", cut / min(len(S), len(T)), ask("edge_expansion", Lazy("list", S)))
            same(c, "boundary_expansion", f"of {S!r} against node_boundary", len(nb) / len(S), ask("boundary_expansion", Lazy("list", S)))
        part = Lazy("list", [Lazy("list", S), Lazy("set", T)])
        both = ask("intra_community_edges", part) + ask("inter_community_edges", part)
        same(c, "intra_community_edges", "plus inter_community_edges against the edges", H.number_of_edges(), both)
        dom = {v for v in nodes if v in set(S)} | {v for _, v in eb}
        same(c, "is_dominating_set", f"{S!r} against edge_boundary", len(dom) == n, ask("is_dominating_set", Lazy("list", S)))


def case(c):
    rng = c.rng
    fam = rng.choices(("nodes", "hops", "weighted", "isolates", "counts", "arrays"), weights=(8, 4, 4, 1, 2, 3))[0]
    kw = {}
    weights = ("none",)
    directed = rng.random() < 0.5
    name = fam
    lo, hi = 1, 30
    if fam == "nodes":
        name = rng.choice(sorted(PER_NODE))
        directed = rng.choice(PER_NODE[name]) == "D"
        weights = SPECS[name].weights
        spec = SPECS[name]
    elif fam in ("weighted", "arrays"):
        weights = SPECS["negative_edge_cycle"].weights
        if fam == "arrays" and rng.random() < 0.5:
            weights = SPECS["clustering"].weights
        spec = SPECS["all_pairs_bellman_ford_path_length"]
        hi = 20
    else:
        spec = SPECS["has_path"]
    G, info = make_graph(rng, directed, weights=weights, lo=lo, hi=hi)
    if spec.wkw and info["weights"] != "none":
        kw = {spec.wkw: "weight"}
    mode = rng.choice(diffs.MODES)
    graphs, ctx = diffs.prepare(rng, spec, [G], info, kw, mode)
    c.say(f"{name} family via {mode} on {describe(G)} kw={kw!r}")
    c.ev(f"family:{fam}")
    c.ev(f"mode:{mode}")
    ask = Ask(c, mode, graphs[0])
    cutoff = None
    if fam == "nodes":
        nodes_family(c, ask, G, name, kw)
    elif fam == "hops":
        cutoff = rng.choice((None, None, 0, 1, 2, 3, 5, 1.7, 2.5))
        hops_family(c, ask, G, cutoff)
    elif fam == "weighted":
        weighted_family(c, ask, G, kw, ctx.stored)
    elif fam == "isolates":
        isolates_family(c, ask, G)
    elif fam == "arrays":
        g = graphs[0] if mode != "backend" else nx_to_ga(G, kw.get("weight"))
        arrays_family(c, g, G, bool(kw) and info["weights"] in SPECS["clustering"].weights)
    else:
        counts_family(c, ask, G)
    c.judged((name, mode, info["family"], info["labels"], repr(kw), cutoff, sorted(map(repr, G.edges))[:60]), info["m"] > 0)
