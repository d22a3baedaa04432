"""Array-level calls (graphblas_algorithms.algorithms, .linalg): nothing that goes in, or came out earlier, changes."""
from .build import entries, ga_graph
from .canon import canon, diff
from .env import ga, gb, nx
from .gen import describe, make_graph

from graphblas import Matrix, Vector
from graphblas_algorithms import algorithms as alg
from graphblas_algorithms import generators, linalg


def floats(rng, n, full=True):
    v = Vector(float, n)
    for i in range(n):
        if full or rng.random() < 0.7 or i == 0:
            v[i] = rng.choice((0.25, 0.5, 1.0, 1.5, 2.0, 3.0))
    return v


def bools(rng, n, lo=0):
    v = Vector(bool, n)
    for i in rng.sample(range(n), rng.randint(min(lo, n), n)):
        v[i] = True
    return v


def seeds(rng, n, lo=0):
    v = bools(rng, n, lo)
    return v


def iters(rng):
    return {"max_iter": rng.choice((1, 2, 5, 200)), "tol": rng.choice((1e-3, 1e-6))}


def one(rng, G, n):
    return (rng.choice(list(G)),), {}


def two(rng, G, n):
    return (rng.choice(list(G)), rng.choice(list(G))), {}


def cut(rng, G, n):
    S = seeds(rng, n, 1)
    T = None
    if rng.random() < 0.5:
        T = Vector(bool, n)
        for i in range(n):
            if S.get(i) is None and rng.random() < 0.7:
                T[i] = True
    return (S,) + (() if T is None else (T,)), {"is_weighted": rng.random() < 0.5}


def masked(rng, G, n, w=True):
    kw = {"weighted": True} if w and rng.random() < 0.5 else {}
    if rng.random() < 0.7:
        v = bools(rng, n)
        kw["mask"] = ("mask", v, rng.choice(("S", "~S", "V")))
    return (), kw


def pieces(rng, G, n):
    kw = {}
    if rng.random() < 0.6:
        kw["nodes"] = rng.sample(range(n), rng.randint(1, n))
        kw["expand_output"] = rng.random() < 0.5
    return (), kw


def start(rng, G, n):
    kw = iters(rng)
    if rng.random() < 0.8:
        kw["nstart"] = floats(rng, n)
    return (), kw


def pagerank(rng, G, n):
    kw = iters(rng)
    for k in ("nstart", "personalization", "dangling"):
        if rng.random() < 0.5:
            kw[k] = floats(rng, n, rng.random() < 0.5)
    if rng.random() < 0.3:
        kw["row_degrees"] = floats(rng, n)
    return (), kw


def katz(rng, G, n):
    (_, kw) = start(rng, G, n)
    kw["alpha"] = 0.05
    kw["normalized"] = rng.random() < 0.5
    if rng.random() < 0.5:
        kw["beta"] = floats(rng, n)
    return (), kw


def google(rng, G, n):
    kw = {k: floats(rng, n, rng.random() < 0.5) for k in ("personalization", "dangling") if rng.random() < 0.6}
    if rng.random() < 0.5:
        kw["nodelist"] = rng.sample(list(G), n)
    return (), kw


def hits(rng, G, n):
    _, kw = start(rng, G, n)
    kw["with_authority"] = rng.random() < 0.5
    kw["normalized"] = rng.random() < 0.5
    return (), kw


def nodelist(rng, G, n):
    kw = {"is_weighted": rng.random() < 0.5}
    if rng.random() < 0.5:
        kw["nodelist"] = rng.sample(list(G), rng.randint(1, n))
    return (), kw


def bethe(rng, G, n):
    kw = {}
    if rng.random() < 0.5:
        kw["nodelist"] = rng.sample(list(G), n)
    if rng.random() < 0.5:
        kw["r"] = 1.5
    return (), kw


def adj(rng, G, n):
    _, kw = nodelist(rng, G, n)
    if rng.random() < 0.6:
        kw["dtype"] = rng.choice((float, int))
    return (), kw


def none(rng, G, n):
    return (), {}


U, D = "U", "D"
TABLE = {
    "eigenvector_centrality": ("UD", start, 3), "katz_centrality": ("UD", katz, 3), "pagerank": ("UD", pagerank, 4),
    "google_matrix": ("UD", google, 3), "hits": ("UD", hits, 3),
    "edge_boundary": ("UD", cut, 2), "cut_size": ("UD", cut, 1), "conductance": ("UD", cut, 1),
    "normalized_cut_size": ("UD", cut, 1), "edge_expansion": ("UD", cut, 1), "mixing_expansion": ("UD", cut, 1),
    "volume": ("UD", lambda r, G, n: ((seeds(r, n, 1),), {"weighted": r.random() < 0.5}), 1),
    "node_expansion": ("UD", lambda r, G, n: ((seeds(r, n, 1),), {}), 1),
    "boundary_expansion": ("UD", lambda r, G, n: ((seeds(r, n, 1),), {}), 1),
    "node_boundary": ("UD", lambda r, G, n: ((seeds(r, n),), {"mask": ("mask", bools(r, n), "S")} if r.random() < 0.5 else {}), 2),
    "is_dominating_set": ("UD", lambda r, G, n: ((seeds(r, n, 1),), {}), 1),
    "triangles": ("U", masked, 2), "clustering": ("U", masked, 2), "clustering_directed": ("D", masked, 2),
    "average_clustering": ("U", lambda r, G, n: ((), {}), 1),
    "generalized_degree": ("U", lambda r, G, n: masked(r, G, n, False), 2),
    "reciprocity": ("D", lambda r, G, n: masked(r, G, n, False), 2),
    "square_clustering": ("U", lambda r, G, n: ((), {"node_ids": r.sample(range(n), r.randint(1, n))} if r.random() < 0.5 else {}), 2),
    "transitivity": ("U", none, 1), "total_triangles": ("U", none, 1), "transitivity_directed": ("D", none, 1),
    "all_pairs_shortest_path_length": ("UD", pieces, 2), "bellman_ford_path_lengths": ("UD", pieces, 2),
    "single_source_shortest_path_length": ("UD", one, 1), "single_target_shortest_path_length": ("UD", one, 1),
    "single_source_bellman_ford_path_length": ("UD", one, 1), "bellman_ford_path": ("UD", two, 1),
    "floyd_warshall": ("UD", lambda r, G, n: ((), {"is_weighted": r.random() < 0.5}), 1),
    "floyd_warshall_predecessor_and_distance": ("UD", lambda r, G, n: ((), {
        "is_weighted": r.random() < 0.5, "compute_predecessors": r.random() < 0.5,
        **({"permutation": r.sample(range(n), n)} if r.random() < 0.6 else {})}), 2),
    "bfs_layers": ("UD", one, 2), "descendants": ("UD", one, 1), "ancestors": ("UD", one, 1),
    "descendants_at_distance": ("UD", lambda r, G, n: ((r.choice(list(G)), r.randint(0, 3)), {}), 1),
    "degree_centrality": ("UD", none, 1), "in_degree_centrality": ("D", none, 1), "out_degree_centrality": ("D", none, 1),
    "complement": ("UD", none, 1), "k_truss": ("U", lambda r, G, n: ((r.choice((2, 3, 4)),), {}), 2),
    "isolates": ("UD", none, 1), "score_sequence": ("D", none, 1), "tournament_matrix": ("D", none, 1),
    "node_connected_component": ("U", one, 1), "reverse": ("D", none, 1),
    "ego_graph": ("UD", lambda r, G, n: ((r.choice(list(G)), r.choice((0, 1, 2))), {"center": r.random() < 0.7}), 1),
    "adjacency_matrix": ("UD", adj, 2), "laplacian_matrix": ("U", nodelist, 1), "normalized_laplacian_matrix": ("U", nodelist, 1),
    "modularity_matrix": ("U", nodelist, 1), "directed_modularity_matrix": ("D", nodelist, 1),
    "bethe_hessian_matrix": ("U", bethe, 1),
}
NAMES = list(TABLE)


def function(name):
    for m in (alg, linalg, generators):
        if hasattr(m, name):
            return getattr(m, name)
    return None  # not offered at this level


def form(x):
    if isinstance(x, Vector):
        i, v = x.to_coo()
        return ("V", x.size, dict(zip(i.tolist(), v.tolist())))
    if isinstance(x, Matrix):
        return ("M", x.shape, entries(x))
    if isinstance(x, tuple):
        return tuple(form(y) for y in x)
    if isinstance(x, list):
        return [form(y) for y in x]
    if isinstance(x, (ga.Graph, ga.DiGraph)):
        return ("G", list(x), entries(x.matrix))
    return canon(x) if not isinstance(x, (int, float, bool, str, type(None))) else x


def objects(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from objects(y)
    elif isinstance(x, (Vector, Matrix)):
        yield x
    elif isinstance(x, (ga.Graph, ga.DiGraph)):
        yield x.matrix


def real(x):
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "mask":
        return {"S": lambda v: v.S, "~S": lambda v: ~v.S, "V": lambda v: v.V}[x[2]](x[1])
    return x


def held(args, kw):
    out = []
    for nm, x in [*enumerate(args), *kw.items()]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "mask":
            x = x[1]
        if isinstance(x, (Vector, list)):
            out.append((nm, x, form(x) if isinstance(x, Vector) else list(x)))
    return out


def now(x):
    return form(x) if isinstance(x, Vector) else list(x)


def state(h):
    A = h.matrix
    return (entries(A), A.shape, A.dtype, list(h))


def spoil(rng, x):
    """Modify a returned vector or matrix."""
    if isinstance(x, Vector):
        k = rng.randrange(3)
        if k == 0 or not x.size:
            x.clear()
        elif k == 1:
            x[:] = 1
        else:
            x[rng.randrange(x.size)] = 1
    elif not x.nrows or rng.random() < 0.4:
        x.clear()
    else:
        x[rng.randrange(x.nrows), :] = 1


def case(c):
    rng = c.rng
    d = rng.random() < 0.5
    G, info = make_graph(rng, d, weights=("none", "int", "float", "iso"), lo=1, hi=14)
    use = "weight" if info["weights"] != "none" else None
    h = ga_graph(rng, G, weight=use, dtype="float64")
    n = len(h)
    c.say(f"array level on {describe(G)}")
    before = state(h)
    reads = ("row_degrees+", "plus_rowwise+", "has_self_edges", "offdiag", "iso_value", "row_degrees-")
    results, hist = [], []

    def verify(after, args):
        s = state(h)
        c.check(s == before or repr(s) == repr(before), "array:graph-changed",
                lambda: f"{after} changed the graph: {before[0]} -> {s[0]}"[:1200])
        for nm, x, was in args:
            c.ev("array:argument")
            c.check(now(x) == was, "array:argument-changed", lambda: f"{after} changed argument {nm}: {was} -> {now(x)}"[:1200])
        for lab, raw, was in results[-6:]:
            c.ev("array:reread")
            dd = diff(was, form(raw), 0, 0)
            c.check(not dd, "array:result-changed", lambda: f"{after} changed the earlier result of {lab}: {dd}")

    for _ in range(rng.randint(3, 8)):
        name = rng.choices(NAMES, [TABLE[k][2] for k in NAMES])[0]
        kinds, make, _w = TABLE[name]
        f = function(name)
        if f is None or (D if d else U) not in kinds:
            continue
        args, kw = make(rng, G, n)
        kept = held(args, kw)
        tag = f"{name}{tuple(args)!r} {sorted(kw)}"
        c.say(f"{name} args={[form(a) if isinstance(a, Vector) else a for a in args]!r} kw={ {k: form(v) if isinstance(v, Vector) else v for k, v in kw.items()}!r}")
        c.ev("array:call")
        c.ev(f"array:{name}")
        try:
            r = f(h, *[real(a) for a in args], **{k: real(v) for k, v in kw.items()})
            if hasattr(r, "__next__"):
                out, forms = [], []
                for x in r:  # what was handed out must not change as the generator goes on
                    out.append(x)
                    forms.append(form(x))
                    dd = diff(forms, form(out), 0, 0)
                    c.check(not dd, "array:result-changed", lambda: f"{name}: an earlier item changed: {dd}")
                r = out
        except (gb.exceptions.GraphblasException, KeyError, ZeroDivisionError, ValueError,
                alg.exceptions.GraphBlasAlgorithmException) as e:
            c.ev("array:raised")
            verify(f"{name} (raised {type(e).__name__})", kept)
            hist.append(name)
            continue
        verify(name, kept)
        was = form(r)
        for o in objects(r):
            c.check(o is not h.matrix and not any(o is x for _, x, _w in kept), "array:aliased",
                    lambda: f"{name} returned the graph's matrix or its own argument")
        c.judged((name, tuple(sorted(kw)), tuple(hist[-2:]), sorted(map(repr, G.edges))[:25]), info["m"] > 0)
        results.append((name, r, was))
        objs = [o for o in objects(r)]
        if objs and rng.random() < 0.4:
            results.pop()
            spoil(rng, rng.choice(objs))
            c.ev("array:mutated")
            verify(f"changing the result of {name}", kept)
            a, kwn = [real(x) for x in args], {k: real(v) for k, v in kw.items()}
            again = f(h, *a, **kwn)
            again = list(again) if hasattr(again, "__next__") else again
            if name not in ("bellman_ford_path",):
                dd = diff(was, form(again), 1e-9, 1e-12)
                c.check(not dd, "array:answer-changed", lambda: f"{tag} answers differently after its result was changed: {dd}")
            for p in reads:
                try:
                    want = fresh_read(h, p)
                except KeyError:
                    continue
                c.ev("array:property")
                dd = diff(form(want), form(h.get_property(p)), 1e-9, 1e-12)
                c.check(not dd, f"array:property-changed:{p}", lambda: f"after changing the result of {name}, {p}: {dd}")
        hist.append(name)


def fresh_read(h, p):
    g = type(h)(h.matrix.dup(), key_to_id=dict(h._key_to_id)) if hasattr(h, "_key_to_id") else type(h)(h.matrix.dup())
    return g.get_property(p)
