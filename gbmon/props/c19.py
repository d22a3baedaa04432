"""Results do not depend on how the graph is stored, nor on the options of the array-level functions."""
import math

import graphblas_algorithms.algorithms as alg
import graphblas_algorithms.linalg as linalg
from graphblas import Matrix, Vector
from graphblas_algorithms import nxapi
from graphblas_algorithms.algorithms.exceptions import PointlessConcept

from .. import diffs, oracle
from ..build import FORMS, build_matrix, entries, ga_graph, nx_to_ga, ventries
from ..canon import diff
from ..catalog import SPECS, subset
from ..env import ga, nx, np
from ..gen import describe, make_graph
from ..meta import CHOICE, disagreement, observe

ID = "C19"
CASES = {"quick": 54000, "thorough": 700000}
RULE = ("a storage case stores the drawn graphs two to four times as hand-built native graphs: with every element type "
        "that holds the weights and the results (integer types by range, floating types if the weights are exactly "
        "representable), row- or column-wise, hypersparse, coordinate-imported or duplicated, with equal weights "
        "stored once or one by one, and with another internal numbering; the outcomes must be equal, and where several "
        "answers are right each is judged by its definition. An option case calls a function of the array level "
        "(algorithms.*, linalg.*) with an option (mask, node list, permutation, with_authority, row_degrees, "
        "expand_output, single-node form, bidirectional search, dtype, prefix renaming) and compares with the plain "
        "call. Non-trivial: the graph has an edge; distinct by (function, storage forms or option, graph, arguments)")
EXPECT = {"compared": 6000, "judged_choice": 300, "option": 3000, "iso_stored_once": 1500, "column_wise": 1500}
ASSUMPTIONS = ["element types too narrow for the intermediate sums and products are outside the claim",
               "iterative rankings on column-wise storage are driven with float64 only (SuiteSparse:GraphBLAS 8.2.1 "
               "reads by-column operands that need a typecast wrongly when accumulating in place)"]
NAMES = sorted(SPECS)
TYPES = ("bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64")
SUBTRACTS = {"laplacian_matrix", "normalized_laplacian_matrix", "modularity_matrix", "directed_modularity_matrix",
             "bethe_hessian_matrix"}


def holders(name, spec, gs, use, keeps):
    """Element types that hold the weights and everything computed from them."""
    ws = [d.get(use, 1) if use else 1 for g in gs for *_, d in g.edges(data=True)]
    n = max(len(g) for g in gs)
    total = 2 * sum(abs(w) for w in ws) + n * max([abs(w) for w in ws], default=1) + n + 2
    need = total**2 if spec.group in ("matrix", "central", "cluster") or name in SUBTRACTS else total
    out = []
    ints = all(isinstance(w, (int, np.integer)) for w in ws)
    neg = any(w < 0 for w in ws)
    for t in TYPES:
        if t == "bool":
            if all(w == 1 for w in ws):
                out.append(t)
            continue
        dt = np.dtype(t)
        if dt.kind in "iu":
            if not ints or need > np.iinfo(dt).max:
                continue
            if dt.kind == "u" and (neg or spec.group == "matrix" or name in SUBTRACTS):
                continue
        elif t == "float32":
            if need > 2**20 or any(float(np.float32(w)) != w for w in ws) or spec.group in ("central", "matrix"):
                continue
            if name in ("floyd_warshall_predecessor_and_distance",) or spec.group == "wdist" and any(
                    w * 64 != int(w * 64) for w in ws):
                continue
        out.append(t)
    return out or ["float64"]


def storages(c, name, spec, gs, info, kw):
    """Two to four stored versions of the same graphs: (label, graphs, context)."""
    rng = c.rng
    attr = kw.get(spec.wkw, spec.wdefault) if spec.wkw else None
    keeps = spec.group == "ops" or name in ("hits", "ego_graph", "bethe_hessian_matrix", "tournament_matrix")
    if name == "hits":
        attr = "weight"
    use = attr if attr else ("weight" if info["weights"] != "none" else None)
    if not attr and name in diffs.STORED_ALWAYS:
        use = None
    work = list(gs)
    if use is None and not keeps and name not in diffs.STORED_ALWAYS and rng.random() < 0.4:
        work = [diffs.attach_weights(rng, g) for g in gs]
        use = "weight"
    types = holders(name, spec, work, use, keeps)
    vals = {x.get(use, 1) if use else 1 for g in work for *_, x in g.edges(data=True)}
    out = []
    for k in range(rng.choice((2, 2, 3, 4))):
        hs = []
        label = []
        for g in work:
            dt = rng.choice(types) if k else ("float64" if "int64" not in types or rng.random() < 0.5 else "int64")
            form = rng.choice((None,) + FORMS)
            if spec.group == "central" and dt != "float64":
                form = rng.choice((None, "csr", "hypercsr", "coo", "dup"))
            iso = len(vals) == 1 and rng.random() < 0.6
            h = ga_graph(rng, g, weight=use, dtype=dt, iso=iso, form=form, scramble=rng.random() < 0.5)
            if g.number_of_edges():
                c.ev(f"type:{dt}")
                c.ev(f"form:{form}")
                c.ev("iso_stored_once", iso)
                c.ev("column_wise", form in ("csc", "hypercsc"))
            hs.append(h)
            label.append(f"{dt}/{form}{'/iso' if iso else ''}")
        ctx = oracle.context()
        ctx.topology = False
        ctx.order = diffs.ga_order(hs[0])
        ctx.stored = diffs.stored_of(work[0], use)
        if len(hs) > 1:
            ctx.order2, ctx.stored2 = diffs.ga_order(hs[1]), diffs.stored_of(work[1], use)
        out.append(("+".join(label), hs, ctx))
    return out


def by_label(name, o, ctx, kw):
    """Results that list nodes by position, put in terms of node names."""
    from ..meta import MATRICES, result_order, translate_result

    if o.exc is not None:
        return
    if name == "disjoint_union":
        both = [(0, v) for v in ctx.order] + [(1, v) for v in ctx.order2]
        o.value = translate_result(name, o.value, dict(enumerate(both)))
    elif name in MATRICES:
        o.value = translate_result(name, o.value, {v: v for v in ctx.order}, result_order(kw, ctx))


def stored_case(c):
    rng = c.rng
    name = rng.choice(NAMES)
    if name in ("hits", "google_matrix") and rng.random() < 0.5:
        name = rng.choice(NAMES)
    spec, gs, info, args, kw = diffs.draw(c, name)
    c.say(f"{name} on {' and '.join(describe(g) for g in gs)} args={args!r} kw={kw!r}")
    runs = []
    loose = False
    for label, hs, ctx in storages(c, name, spec, gs, info, kw):
        c.say(f"stored {label}, order {ctx.order!r}")
        o = observe(name, "direct", hs, args, kw, ctx)
        loose |= "float32" in label or "int8" in label or "int16" in label
        if name in CHOICE:
            want = diffs.expected(name, spec, gs, args, kw, ctx)
            if want[0] != "skip" and not isinstance(o.exc, diffs.ALLOWED_FAILURES.get(name, ())):
                c.ev("judged_choice")
                diffs.judge(c, name, spec, o.raw, o.exc, want, ctx, f"{name} stored {label}")
            continue
        by_label(name, o, ctx, kw)
        runs.append((label, ctx, o))
    for b in runs[1:]:
        a = runs[0]
        give_up = diffs.ALLOWED_FAILURES.get(name, ())
        if isinstance(a[2].exc, give_up) or isinstance(b[2].exc, give_up):
            c.ev("gave_up")
            if (a[2].exc is None) != (b[2].exc is None):
                diffs.expected(name, spec, gs, args, kw, a[1])
                k = a[1].settles() if a[1].settles else None
                limit = kw.get("max_iter", 1000 if name == "katz_centrality" else 100)
                c.check(k is None or abs(k - limit) <= 2, f"{name}:gave-up-differs",
                        lambda: f"{a[0]}: {a[2]} but {b[0]}: {b[2]} ({k} rounds are enough of {limit})")
            continue
        want = diffs.expected(name, spec, gs, args, kw, a[1]) if name == "ego_graph" or name.startswith("floyd") else ("value",)
        if want[0] == "skip":
            c.ev("unspecified")
            break
        if loose and a[2].exc is None and b[2].exc is None:
            d = diff(a[2].value, b[2].value, 2e-5, 1e-6)
        else:
            d = disagreement(name, a[2], b[2], kw)
        c.ev("compared")
        c.check(not d, f"{name}:depends-on-storage", lambda: f"{name} stored {a[0]} against {b[0]}: {d}")
    c.ev(f"call:{name}")
    c.judged((name, tuple(r[0] for r in runs), repr(args), sorted(map(repr, kw.items())),
              sorted(map(repr, gs[0].edges))[:40]), info["m"] > 0)


# ------------------------------------------------------------------ options of the array level
def outcome(f):
    try:
        r = f()
        if hasattr(r, "new") and not isinstance(r, (Matrix, Vector)):
            r = r.new()
    except Exception as e:
        return type(e), e
    if isinstance(r, tuple):
        return "value", tuple(form(x) for x in r)
    return "value", form(r)


def form(x):
    if isinstance(x, Matrix):
        return ("M", x.shape, entries(x))
    if isinstance(x, Vector):
        return ("V", x.size, ventries(x))
    return x


def stored(c, d, weights=("none", "int", "float", "iso", "isof"), lo=1, hi=16, **kw):
    rng = c.rng
    G, info = make_graph(rng, d, weights=weights, lo=lo, hi=hi, **kw)
    use = "weight" if info["weights"] != "none" else None
    ints = diffs.all_int(G, use) if use else True
    vals = {x.get(use, 1) if use else 1 for *_, x in G.edges(data=True)}
    h = ga_graph(rng, G, weight=use, dtype=rng.choice(("int64", "float64", "int32")) if ints else "float64",
                 iso=len(vals) == 1 and rng.random() < 0.6, form=rng.choice((None, "csr", "hypercsr")))
    order = diffs.ga_order(h)
    c.say(f"{describe(G)} stored {h.matrix.dtype}, order {order!r}")
    if rng.random() < 0.5:
        h.get_properties("offdiag is_iso degrees- degrees+" if not d else "offdiag is_iso total_degrees- AT")
    return G, info, h, order, use


def mask_of(rng, n, p=None, dtype=bool):
    ids = [i for i in range(n) if rng.random() < (rng.random() if p is None else p)]
    v = Vector(dtype, n)
    for i in ids:
        v[i] = True if dtype is bool else rng.randint(1, 3)
    return v, set(ids)


def restrict(r, ids):
    """('value', ('V', n, entries)) with only these positions."""
    if r[0] == "value" and isinstance(r[1], tuple) and r[1][0] == "V":
        return "value", ("V", r[1][1], {i: x for i, x in r[1][2].items() if i in ids})
    return r


def same(c, what, a, b, rtol=1e-9, atol=1e-9):
    c.ev("option")
    c.ev(f"option:{what}")
    if a[0] != "value" or b[0] != "value":
        ok = a[0] == b[0] or isinstance(a[0], type) and isinstance(b[0], type) and (
            issubclass(a[0], b[0]) or issubclass(b[0], a[0]))
        c.check(ok, f"{what}:option-outcome", lambda: f"{what}: {a} vs {b}")
        return
    d = diff(a[1], b[1], rtol, atol)
    c.check(not d, f"{what}:option-result", lambda: f"{what}: plain vs option {d}")


def rows_of(M, ids):
    _, (nr, nc), e = M
    return {(k, j): v for k, i in enumerate(ids) for (a, j), v in e.items() if a == i}


def opt_all_pairs(c, weighted):
    rng = c.rng
    d = rng.random() < 0.5
    G, info, h, order, use = stored(c, d)
    n = len(order)
    f = alg.bellman_ford_path_lengths if weighted else alg.all_pairs_shortest_path_length
    kw = {} if weighted or rng.random() < 0.5 else {"cutoff": rng.choice((0, 1, 2, 3, 2.5, n))}
    nodes = rng.sample(order, rng.randint(1, n))
    if rng.random() < 0.2:
        nodes = list(order)
    ids = [order.index(v) for v in nodes]
    expand = rng.random() < 0.5
    plain = outcome(lambda: f(h, **kw))
    part = outcome(lambda: f(h, nodes=nodes, expand_output=expand, **kw))
    what = f"{f.__name__}(nodes,{expand=})"
    c.say(f"{what} nodes={nodes!r} {kw}")
    if part[0] == "value":
        full_size = expand
        want_shape = (n, n) if full_size else (len(nodes), n)
        e = rows_of(plain[1], ids)
        if full_size:
            e = {(ids[k], j): v for (k, j), v in e.items()}
        same(c, what, ("value", ("M", want_shape, e)), part)
        # the definition
        if weighted:
            A = {}
            for u, v, dd in G.edges(data=True):
                A.setdefault(u, {})[v] = dd.get(use, 1) if use else 1
                if not d:
                    A.setdefault(v, {})[u] = dd.get(use, 1) if use else 1
            H = (nx.DiGraph if d else nx.Graph)()
            H.add_nodes_from(G)
            H.add_weighted_edges_from((u, v, w) for u, r in A.items() for v, w in r.items())
            ref = {(order.index(u), order.index(v)): x for u in G
                   for v, x in nx.single_source_dijkstra_path_length.orig_func(H, u).items()}
        else:
            cut = math.inf if kw.get("cutoff") is None else kw["cutoff"]
            ref = {(order.index(u), order.index(v)): x for u in G
                   for v, x in nx.single_source_shortest_path_length.orig_func(G, u).items() if x <= cut}
        same(c, what + ":definition", ("value", ("M", (n, n), ref)), plain)
    else:
        c.check(False, f"{what}:raised", lambda: f"{what} {part}")
    return G, what, nodes


def opt_fw(c):
    rng = c.rng
    d = rng.random() < 0.5
    G, info, h, order, use = stored(c, d, hi=12)
    n = len(order)
    w = rng.random() < 0.6
    pred = rng.random() < 0.5
    perm = rng.sample(range(n), n)
    P0, D0 = alg.floyd_warshall_predecessor_and_distance(h, w, compute_predecessors=False)
    c.check(P0 is None, "floyd_warshall:predecessors", "predecessors although not asked for")
    how = rng.choice(("list", "array"))
    P1, D1 = alg.floyd_warshall_predecessor_and_distance(
        h, w, compute_predecessors=pred, permutation=perm if how == "list" else np.array(perm))
    e = entries(D0)
    want = {(i, j): e[perm[i], perm[j]] for i in range(n) for j in range(n) if (perm[i], perm[j]) in e}
    what = f"floyd_warshall_predecessor_and_distance(permutation,compute_predecessors={pred})"
    same(c, what, ("value", ("M", (n, n), want)), ("value", form(D1)))
    same(c, "floyd_warshall", ("value", form(alg.floyd_warshall(h, w))), ("value", form(D0)))
    c.check((P1 is None) == (not pred), "floyd_warshall:predecessors", "predecessors given/missing")
    if pred:  # a predecessor lies on a minimum path
        dist, pr = entries(D1), entries(P1)
        A = {}
        for u, v, dd in G.edges(data=True):
            x = (dd.get(use, 1) if use else 1) if w else 1
            a, b = perm.index(order.index(u)), perm.index(order.index(v))
            A[a, b] = x
            if not d:
                A[b, a] = x
        c.check(set(pr) == {k for k in dist if k[0] != k[1]}, "floyd_warshall:predecessor-keys",
                lambda: f"{sorted(set(pr) ^ {k for k in dist if k[0] != k[1]})[:5]}")
        for (i, j), p in pr.items():
            ok = (p, j) in A and (i, p) in dist and math.isclose(dist[i, p] + A[p, j], dist[i, j], rel_tol=1e-9,
                                                                 abs_tol=1e-9)
            c.check(ok, "floyd_warshall:predecessor", lambda: f"predecessor {p} of {j} from {i}: {dist}, {A}")
    bad = rng.sample(range(n), n - 1)
    from graphblas_algorithms.algorithms.exceptions import GraphBlasAlgorithmException

    r = outcome(lambda: alg.floyd_warshall_predecessor_and_distance(h, w, permutation=bad))
    c.check(r[0] is GraphBlasAlgorithmException, "floyd_warshall:short-permutation", lambda: f"{r}")
    return G, what, perm


def few_rounds(c, G, h, order, kw):
    """Either variant answers or gives up as its own iteration does."""
    from graphblas_algorithms.algorithms.exceptions import ConvergenceFailure

    rng = c.rng
    n = len(order)
    A = np.zeros((n, n))
    for (i, j), x in entries(h.matrix).items():
        A[i, j] = x
    auth = rng.random() < 0.6
    kw["tol"] = tol = rng.choice((1e-2, 1e-4, 1e-6, 1e-8))
    x0 = np.full(n, 1 / n)
    if rng.random() < 0.5:
        v = np.array([rng.uniform(0.2, 2) for _ in range(n)])
        kw["nstart"] = Vector.from_dense(v)
        x0 = v / v.sum()
    B = A.T @ A if auth else A @ A.T

    def step(y):
        z = B @ y
        return z / (np.abs(z).max() or 1.0)

    k = oracle.settles(step, x0, tol, 3000)()
    limit = kw["max_iter"] = max(1, rng.choice((rng.randint(1, 8), (k or 5) + rng.randint(-4, 4), 2 * (k or 40))))
    r = outcome(lambda: alg.hits(h, with_authority=auth, **kw))
    what = f"hits(max_iter,with_authority={auth})"
    c.say(f"{what} {kw} rounds needed {k}")
    c.ev("option")
    c.ev("option:hits(max_iter)")
    if r[0] is ConvergenceFailure:
        c.ev("gave_up")
        c.check(k is None or k > limit - 2, f"{what}:gave-up", lambda: f"{k} rounds are enough, not {limit}?")
        return G, what, (repr(kw),)
    c.check(r[0] == "value", f"{what}:raised", lambda: f"{r}")
    c.check(k is not None and k < limit + 2, f"{what}:settled-early", lambda: f"needs {k} rounds, answered in {limit}")
    x = [np.array([r[1][q][2].get(i, 0.0) for i in range(n)]) for q in (0, 1)]
    for v, nm in zip(x, ("hubs", "authorities")):
        t = v.sum() if kw.get("normalized", True) else np.abs(v).max()
        c.check(abs(t - 1) < 1e-9, f"{what}:norm", lambda: f"{nm} normalized to {t}")
    slack = 300 * n * tol + 1e-9
    for y, z, nm in ((A @ x[1], x[0], "hubs"), (A.T @ x[0], x[1], "authorities")):
        d = np.abs(y / y.max() - z / z.max()).max()
        c.check(d < slack, f"{what}:equation", lambda: f"{nm} off by {d}")
    return G, what, (repr(kw),)


def opt_hits(c):
    rng = c.rng
    d = rng.random() < 0.7
    G, info, h, order, use = stored(c, d, hi=12, family=rng.choice(("dense", "medium", "complete", "hub")))
    kw = {"max_iter": 5000, "tol": 1e-13}
    if rng.random() < 0.4:
        kw["normalized"] = False
    if rng.random() < 0.4 and G.number_of_edges():
        return few_rounds(c, G, h, order, kw)
    a = outcome(lambda: alg.hits(h, **kw))
    b = outcome(lambda: alg.hits(h, with_authority=True, **kw))
    what = f"hits(with_authority,{kw.get('normalized', True)})"
    from graphblas_algorithms.algorithms.exceptions import ConvergenceFailure

    if a[0] is ConvergenceFailure or b[0] is ConvergenceFailure:
        c.ev("gave_up")
        return G, what, ()
    if a[0] != "value" or b[0] != "value":
        same(c, what, a, b)
        return G, what, ()
    # the singular pair is only unique when the largest singular value is
    A = np.zeros((len(order),) * 2)
    for (i, j), x in entries(h.matrix).items():
        A[i, j] = x
    s = np.linalg.svd(A, compute_uv=False)
    if len(s) > 1 and s[0] > 0 and s[1] / s[0] > 0.9 or s[0] == 0:
        c.ev("unspecified")
        return G, what, ()
    dense = lambda r: tuple({i: r[1][k][2].get(i, 0.0) for i in range(len(order))} for k in (0, 1))  # noqa: E731
    same(c, what, ("value", dense(a)), ("value", dense(b)), 1e-6, 1e-6)
    # norms and equation
    ha = [dense(b)[k] for k in (0, 1)]
    x, y = (np.array([ha[k][i] for i in range(len(order))]) for k in (0, 1))
    for v, nm in ((x, "hubs"), (y, "authorities")):
        s1 = v.sum() if kw.get("normalized", True) else np.abs(v).max()
        c.check(abs(s1 - 1) < 1e-6, "hits:norm", lambda: f"{nm} normalized to {s1}")
    return G, what, ()


def opt_null(c):
    """The graph without nodes: the array-level functions answer or refuse as the interface does."""
    name = c.rng.choice(("pagerank", "hits", "google_matrix", "floyd_warshall", "triangles", "adjacency_matrix",
                         "all_pairs_shortest_path_length", "bellman_ford_path_lengths",
                         "floyd_warshall_predecessor_and_distance", "eigenvector_centrality"))
    G = (nx.DiGraph if c.rng.random() < 0.5 and name != "triangles" else nx.Graph)()
    h = nx_to_ga(G)
    c.say(f"{name} of the null graph")
    o = outcome(lambda: getattr(linalg if name == "adjacency_matrix" else alg, name)(h))
    c.ev("option")
    c.ev("null_graph")
    if name == "eigenvector_centrality":
        c.check(o[0] is PointlessConcept, f"{name}:null-graph", lambda: f"{o}")
    else:
        flat = o[1] if isinstance(o[1], tuple) and o[1] and isinstance(o[1][0], tuple) else (o[1],)
        c.check(o[0] == "value" and all(not x[2] for x in flat), f"{name}:null-graph", lambda: f"{o}")
    return G, f"{name}(null)", ()


KINDS = ("triangles", "clustering", "clustering_directed", "average", "generalized", "reciprocity", "node_boundary",
         "square")


def opt_masks(c, kinds=KINDS):
    rng = c.rng
    kind = rng.choice(kinds)
    d = kind in ("clustering_directed", "reciprocity") or kind in ("average", "node_boundary") and rng.random() < 0.5
    weights = ("none",) if kind in ("square",) else ("none", "int", "float", "iso")
    G, info, h, order, use = stored(c, d, weights, hi=22)
    n = len(order)
    w = rng.random() < 0.4
    if kind in ("generalized", "average"):
        v, ids = mask_of(rng, n)
        neg = False
    else:
        v, ids = mask_of(rng, n)
        neg = kind not in ("square",) and rng.random() < 0.3
    if neg:
        ids = set(range(n)) - ids
    m = ~v.S if neg else (v.S if kind in ("average", "generalized") or rng.random() < 0.6 else v.V)
    before = ventries(v)
    what = f"{kind}(mask)"
    if kind == "triangles":
        a, b = outcome(lambda: alg.triangles(h, weighted=w)), outcome(lambda: alg.triangles(h, weighted=w, mask=m))
        same(c, what, restrict(a, ids), b, 1e-6)
        if not w:
            c.check(alg.total_triangles(h) * 3 == sum(a[1][2].values()), "total_triangles",
                    lambda: f"{alg.total_triangles(h)} against {a}")
        for i in rng.sample(range(n), min(n, 4)):
            one = alg.single_triangle(h, order[i], weighted=w)
            same(c, "single_triangle", ("value", a[1][2].get(i, 0)), ("value", one or 0), 1e-6)
    elif kind in ("clustering", "clustering_directed"):
        f, g = ((alg.clustering, alg.single_clustering) if kind == "clustering" else
                (alg.clustering_directed, alg.single_clustering_directed))
        a, b = outcome(lambda: f(h, weighted=w)), outcome(lambda: f(h, weighted=w, mask=m))
        same(c, what, restrict(a, ids), b, 1e-6)
        for i in rng.sample(range(n), min(n, 4)):
            same(c, g.__name__, ("value", a[1][2].get(i, 0)), ("value", g(h, order[i], weighted=w)), 1e-6)
    elif kind == "average":
        f, g = ((alg.average_clustering_directed, alg.clustering_directed) if d else
                (alg.average_clustering, alg.clustering))
        full = outcome(lambda: g(h, weighted=w))[1][2]
        pick = [full.get(i, 0.0) for i in ids]
        nz = [x for x in (full[i] for i in ids if i in full)]
        if ids:
            same(c, what, ("value", sum(pick) / len(pick)), outcome(lambda: f(h, weighted=w, mask=m)), 1e-6)
        everything = [full.get(i, 0.0) for i in range(n)]
        same(c, "average(plain)", ("value", sum(everything) / n), outcome(lambda: f(h, weighted=w)), 1e-6)
        if nz and all(nz):
            same(c, "average(mask,nonzero)", ("value", sum(nz) / len(nz)),
                 outcome(lambda: f(h, weighted=w, mask=m, count_zeros=False)), 1e-6)
    elif kind == "generalized":
        if n < 2:
            return G, what, ()
        a, b = outcome(lambda: alg.generalized_degree(h)), outcome(lambda: alg.generalized_degree(h, mask=m))
        part = ("value", ("M", a[1][1], {k: x for k, x in a[1][2].items() if k[0] in ids}))
        same(c, what, part, b)
        for i in rng.sample(range(n), min(n, 3)):
            same(c, "single_generalized_degree", ("value", {j: x for (r, j), x in a[1][2].items() if r == i}),
                 ("value", ventries(alg.single_generalized_degree(h, order[i]))))
    elif kind == "reciprocity":
        a, b = outcome(lambda: alg.reciprocity(h)), outcome(lambda: alg.reciprocity(h, mask=m))
        same(c, what, restrict(a, ids), b)
    elif kind == "node_boundary":
        s, sids = mask_of(rng, n)
        a = outcome(lambda: alg.node_boundary(h, s))
        b = outcome(lambda: alg.node_boundary(h, s, mask=m))
        same(c, what, restrict(a, ids), b)
        ref = {order.index(x) for i in sids for x in G[order[i]]} - sids
        c.check(set(a[1][2]) == ref, "node_boundary:definition", lambda: f"{a} against {ref}")
        c.check(set(ventries(s)) == sids, "node_boundary:argument-changed", "node set vector changed")
    else:
        a = outcome(lambda: alg.square_clustering(h))
        pick = sorted(ids) if rng.random() < 0.5 else rng.sample(sorted(ids), len(ids))
        if pick:
            b = outcome(lambda: alg.square_clustering(h, node_ids=pick))
            same(c, "square_clustering(node_ids)", restrict(a, ids), b)
        for i in rng.sample(range(n), min(n, 4)):
            same(c, "single_square_clustering", ("value", a[1][2].get(i, 0)),
                 ("value", alg.single_square_clustering(h, i)))
    c.check(ventries(v) == before, f"{what}:mask-changed", lambda: f"{before} became {ventries(v)}")
    return G, what, (sorted(ids), w)


def opt_pagerank(c):
    rng = c.rng
    d = rng.random() < 0.6
    G, info, h, order, use = stored(c, d, hi=14)
    n = len(order)
    kw = {"max_iter": 3000, "tol": 1e-12, "alpha": rng.choice((0.5, 0.85, 0.3))}
    for k in ("personalization", "nstart", "dangling"):
        if rng.random() < 0.3:
            v = Vector(float, n)
            for i in range(n):
                if rng.random() < 0.8 or i == 0:
                    v[i] = rng.uniform(0.2, 2)
            kw[k] = v
    before = {k: ventries(v) for k, v in kw.items() if isinstance(v, Vector)}
    deg = h.matrix.reduce_rowwise().new()
    db = ventries(deg)
    a = outcome(lambda: alg.pagerank(h, **kw))
    b = outcome(lambda: alg.pagerank(h, row_degrees=deg, **kw))
    same(c, "pagerank(row_degrees)", a, b, 1e-7, 1e-9)
    c.check(db == ventries(deg) and all(ventries(kw[k]) == v for k, v in before.items()),
            "pagerank:argument-changed", lambda: f"{before} {db} became { {k: ventries(kw[k]) for k in before} }")
    return G, "pagerank(row_degrees)", sorted(before)


def opt_bidirectional(c):
    rng = c.rng
    d = rng.random() < 0.5
    G, info, h, order, use = stored(c, d, hi=30)
    from graphblas_algorithms.algorithms.shortest_paths import unweighted

    f = getattr(unweighted, "bidirectional_shortest_path_length", None)
    if f is None:  # not public: only reached through efficiency
        return G, "bidirectional", ()
    for _ in range(4):
        s, t = rng.choice(order), rng.choice(order)
        r = outcome(lambda: f(h, s, t))
        ref = nx.single_source_shortest_path_length.orig_func(G, s).get(t)
        from graphblas_algorithms.algorithms.exceptions import NoPath

        c.ev("option")
        c.ev("option:bidirectional")
        c.check(r[0] is NoPath if ref is None else r == ("value", ref), "bidirectional_shortest_path_length",
                lambda: f"{s!r} to {t!r}: {r} instead of {ref}")
    return G, "bidirectional", ()


def opt_matrix(c):
    rng = c.rng
    name = rng.choice(("adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "modularity_matrix",
                       "directed_modularity_matrix", "bethe_hessian_matrix"))
    d = name == "directed_modularity_matrix" or name in ("adjacency_matrix",) and rng.random() < 0.5
    G, info, h, order, use = stored(c, d, hi=14)
    n = len(order)
    f = getattr(linalg, name)
    kw = {} if name == "bethe_hessian_matrix" else {"is_weighted": rng.random() < 0.5}
    if name == "adjacency_matrix" and rng.random() < 0.6:
        dts = ("float64", "int64", "float32") if kw["is_weighted"] and not diffs.all_int(G, use) else \
            ("float64", "int64", "int8", "uint8", "bool")
        dt = rng.choice(dts)
        if kw["is_weighted"] and dt in ("bool", "int64") and not (dt == "int64" and diffs.all_int(G, use)):
            dt = "float64"
        a = f(h, dtype=dt, **kw)
        c.check(a.dtype.name.lower() in (dt, dt.replace("float32", "fp32").replace("float64", "fp64")),
                "adjacency_matrix:dtype", lambda: f"{a.dtype} for {dt}")
        same(c, "adjacency_matrix(dtype)", ("value", form(f(h, **kw))), ("value", form(a)), 1e-6)
    if not G.number_of_edges() and name not in ("adjacency_matrix", "laplacian_matrix"):
        return G, name, ()
    perm = rng.sample(order, n)
    ids = [order.index(v) for v in perm]
    if name == "bethe_hessian_matrix":
        kw["r"] = rng.choice((None, 1.5, 2))
    a = outcome(lambda: f(h, **kw))
    b = outcome(lambda: f(h, nodelist=perm, name="other", **kw))
    if a[0] == "value":
        z = lambda r, i, j: r[1][2].get((i, j), 0)  # noqa: E731
        want = {(i, j): float(z(a, ids[i], ids[j])) for i in range(n) for j in range(n)}
        got = {(i, j): float(z(b, i, j)) for i in range(n) for j in range(n)} if b[0] == "value" else b
        same(c, f"{name}(nodelist)", ("value", want), ("value", got), 1e-6)
    else:
        same(c, f"{name}(nodelist)", a, b)
    return G, name, (perm, repr(kw))


def opt_rename(c):
    rng = c.rng
    d = rng.random() < 0.5
    f = rng.choice((alg.union, alg.full_join))
    G, info, h, order, use = stored(c, d, ("none", "int"), lo=0, hi=8)
    H, _, h2, order2, _ = stored(c, d, ("none", "int"), lo=0, hi=8)
    ren = rng.choice((("G-", "H-"), ("a", None), (None, "x"), ("p",), ("g1", "g2")))
    lab = lambda v, p: v if p is None else f"{p}{v}"  # noqa: E731
    p1, p2 = (tuple(ren) + (None, None))[:2]
    n1, n2 = [lab(v, p1) for v in order], [lab(v, p2) for v in order2]
    keys1, keys2 = list(h), list(h2)
    r = None
    try:
        r = f(h, h2, rename=ren)
    except Exception as e:
        from graphblas_algorithms.algorithms.exceptions import GraphBlasAlgorithmException

        c.check(isinstance(e, GraphBlasAlgorithmException) and (
            set(n1) & set(n2) or len(set(n1)) < len(n1) or len(set(n2)) < len(n2)), f"{f.__name__}(rename):raised",
            lambda: f"{e!r} for {n1} and {n2}")
        c.ev("option")
        return G, "rename", ren
    c.check(not set(n1) & set(n2), f"{f.__name__}(rename):not-disjoint", lambda: f"{n1} and {n2}")
    if len(set(n1)) < len(n1) or len(set(n2)) < len(n2):
        return G, "rename", ren
    c.ev("option")
    c.ev("option:rename")
    c.check(list(h) == keys1 and list(h2) == keys2, "rename:operand-changed", "the operand was renamed")
    c.check(set(r) == set(n1) | set(n2), f"{f.__name__}(rename):nodes", lambda: f"{list(r)} for {n1} and {n2}")
    es = {}
    for (i, j), x in entries(r.matrix).items():
        es[r.id_to_key[i], r.id_to_key[j]] = x
    want = {}
    for names, g in ((n1, h), (n2, h2)):
        for (i, j), x in entries(g.matrix).items():
            want[names[i], names[j]] = x
    if f is alg.full_join:
        want.update({(u, v): 1 for u in n1 for v in n2})
        want.update({(v, u): 1 for u in n1 for v in n2})
    dd = diff(want, es, 1e-9, 1e-9)
    c.check(not dd, f"{f.__name__}(rename):edges", lambda: f"{ren}: {dd}")
    return G, "rename", ren


def opt_cuts(c):
    rng = c.rng
    d = rng.random() < 0.5
    G, info, h, order, use = stored(c, d, hi=20)
    n = len(order)
    S, sids = mask_of(rng, n)
    T, tids = mask_of(rng, n)
    w = rng.random() < 0.5
    wt = {}
    for u, v, dd in G.edges(data=True):
        i, j = order.index(u), order.index(v)
        wt[i, j] = (dd.get(use, 1) if use else 1) if w else 1
        if not d:
            wt[j, i] = wt[i, j]
    one = rng.random() < 0.4
    B = outcome(lambda: alg.edge_boundary(h, S, None if one else T, is_weighted=w))
    other = set(range(n)) - sids if one else tids
    ref = {(i, j): x for (i, j), x in wt.items() if i in sids and j in other}
    got = B[1][2] if B[0] == "value" else B
    dd = diff(ref, got if w else dict.fromkeys(got, 1), 1e-9, 1e-9)
    c.ev("option")
    c.ev("option:edge_boundary")
    c.check(not dd, "edge_boundary(vectors)", lambda: f"S={sids} other={other} weighted={w}: {dd}")
    tids -= sids
    T = Vector(bool, n)
    for i in tids:
        T[i] = True
    other = set(range(n)) - sids if one else tids
    if sids and other:
        r = outcome(lambda: alg.cut_size(h, S, None if one else T, is_weighted=w))
        x = sum(v for (i, j), v in wt.items() if i in sids and j in other)
        if d:
            x += sum(v for (i, j), v in wt.items() if i in other and j in sids)
        same(c, "cut_size(vectors)", ("value", x), r)
        volume = lambda ids: sum(v for (i, j), v in wt.items() if i in ids) + (  # noqa: E731
            0 if d else sum(v for (i, j), v in wt.items() if i == j and i in ids))
        same(c, "volume(vectors)", ("value", volume(sids)), outcome(lambda: alg.volume(h, S, weighted=w)))
        vs, vt, T2 = volume(sids), volume(other), None if one else T
        if vs > 0 and vt > 0:
            same(c, "conductance(vectors)", ("value", x / min(vs, vt)),
                 outcome(lambda: alg.conductance(h, S, T2, is_weighted=w)), 1e-6)
            same(c, "normalized_cut_size(vectors)", ("value", x / vs + x / vt),
                 outcome(lambda: alg.normalized_cut_size(h, S, T2, is_weighted=w)), 1e-6)
        same(c, "edge_expansion(vectors)", ("value", x / min(len(sids), len(other))),
             outcome(lambda: alg.edge_expansion(h, S, T2, is_weighted=w)), 1e-6)
    c.check(set(ventries(S)) == sids and set(ventries(T)) == tids, "cuts:argument-changed", "a node set vector changed")
    return G, "cuts", (sorted(sids), sorted(tids), w)


def opt_negative(c):
    """Rows of distances with negative weights: refused exactly if a chosen node reaches a negative cycle."""
    from graphblas_algorithms.algorithms.exceptions import Unbounded

    rng = c.rng
    d = rng.random() < 0.8
    G, info, h, order, use = stored(c, d, ("negint", "negdag", "isoneg", "potential", "nearneg", "negloop", "negloop"),
                                    hi=14)
    n = len(order)
    adj = oracle.arcs(G, use)
    ref = [oracle.bellman_ford(adj, u) for u in order]
    calm = [i for i in range(n) if ref[i] is not None]
    pool = calm if calm and rng.random() < 0.6 else list(range(n))
    ids = rng.sample(pool, rng.randint(1, len(pool)))
    want = None if any(ref[i] is None for i in ids) else {(k, order.index(v)): x for k, i in enumerate(ids) for v, x in ref[i].items()}
    what = "bellman_ford_path_lengths(nodes,negative)"
    expand = rng.random() < 0.3
    c.say(f"{what} {ids} {expand}")
    r = outcome(lambda: alg.bellman_ford_path_lengths(h, nodes=[order[i] for i in ids], expand_output=expand))
    c.ev("negative_rows" if want is not None else "negative_refused")
    if want is None:
        c.ev("option")
        c.check(isinstance(r[0], type) and issubclass(r[0], Unbounded), f"{what}:no-exception", lambda: f"{r}")
    else:
        if expand:
            want = {(ids[k], j): x for (k, j), x in want.items()}
        same(c, what, ("value", ("M", (n if expand else len(ids), n), want)), r)
    i = ids[0]
    r = outcome(lambda: alg.single_source_bellman_ford_path_length(h, order[i]))
    if ref[i] is None:
        c.check(isinstance(r[0], type) and issubclass(r[0], Unbounded), f"{what}:no-exception", lambda: f"{r}")
    else:
        same(c, "single_source(negative)", ("value", ("V", n, {order.index(v): x for v, x in ref[i].items()})), r)
    return G, what, (ids, expand)


def opt_bf_cutoff(c):
    """A cutoff keeps exactly the distances up to it."""
    rng = c.rng
    G, info, h, order, use = stored(c, rng.random() < 0.5, hi=16)
    s = rng.choice(order)
    plain = outcome(lambda: alg.single_source_bellman_ford_path_length(h, s))
    what = "single_source_bellman_ford_path_length(cutoff)"
    c.check(plain[0] == "value", f"{what}:raised", lambda: f"{plain}")
    ds = sorted(plain[1][2].values())
    x = rng.choice(ds)
    cut = rng.choice((x, x + 0.4, x + 0.6, x - 0.3, 0, 0.5, -1, 2, 7, 10**6, math.inf, x * 1.5))
    c.say(f"{what} from {s!r} cutoff {cut}")
    got = outcome(lambda: alg.single_source_bellman_ford_path_length(h, s, cutoff=cut))
    if cut < 0:  # only the start itself can be meant
        c.check(got[0] == "value" and set(got[1][2]) <= {order.index(s)}, f"{what}:option-result", lambda: f"cutoff {cut}: {got}")
        return G, what, (s, cut)
    if any(abs(v - cut) < 1e-9 and v != cut for v in ds) or not isinstance(x, int) and any(v == cut for v in ds):
        c.ev("unspecified")  # sums of floating-point weights at the limit may round either way
        return G, what, (s, cut)
    want = {i: v for i, v in plain[1][2].items() if v <= cut}
    same(c, what, ("value", ("V", plain[1][1], want)), got)
    return G, what, (s, cut)


def opt_defaults(c):
    """Options left out mean the same at the array level as in the interface networkx users know."""
    rng = c.rng
    name = rng.choice(("pagerank", "pagerank", "katz_centrality", "hits", "eigenvector_centrality", "google_matrix"))
    d = rng.random() < 0.6
    G, info, h, order, use = stored(c, d, ("none", "int", "float", "iso", "isof"), hi=14)
    n = len(order)
    kw, akw = {}, {}

    def vec(k):
        v = {u: rng.uniform(0.2, 2) for u in G}
        kw[k] = v
        akw[k] = Vector.from_coo([order.index(u) for u in v], list(v.values()), size=n)

    def put(k, choices, q=0.3):
        if rng.random() < q:
            kw[k] = akw[k] = rng.choice(choices)

    if name != "google_matrix":
        put("tol", (1e-3, 1e-9))
        put("max_iter", (3, 20, 150, 700))
        if rng.random() < 0.3:
            vec("nstart")
    if name in ("pagerank", "google_matrix"):
        put("alpha", (0.5, 0.99))
        for k in ("personalization", "dangling"):
            if rng.random() < 0.3:
                vec(k)
    elif name == "katz_centrality":
        rho = max(abs(np.linalg.eigvals(h.matrix.to_dense(0.0))), default=0)
        if rng.random() < 0.6 and rho:  # from a few to thousands of rounds
            kw["alpha"] = akw["alpha"] = rng.choice((0.5, 0.9, 0.97, 0.988, 0.995)) / rho
        put("beta", (0.5, 2.0))
        put("normalized", (True, False))
    elif name == "hits":
        put("normalized", (True, False))
    if name in ("pagerank", "google_matrix", "eigenvector_centrality"):
        kw["weight"] = use
    what = f"{name}(omitted options)"
    c.say(f"{what} {akw}")
    f = getattr(nxapi, name)

    def through():
        r = f(h, **kw)
        if name == "google_matrix":
            return r
        if name == "hits":
            return tuple(x.vector for x in r)
        return r.vector

    a, b = outcome(through), outcome(lambda: getattr(alg, name)(h, **akw))
    if a[0] != "value" or b[0] != "value":
        c.ev("option")
        c.check((a[0] == "value") == (b[0] == "value"), f"{what}:option-outcome", lambda: f"{what}: {a} vs {b}")
    else:
        same(c, what, a, b)
    return G, what, sorted(kw)


def opt_hop_rows(c):
    return opt_all_pairs(c, False)


def opt_cost_rows(c):
    return opt_all_pairs(c, True)


def opt_triangle_masks(c):
    return opt_masks(c, ("triangles", "clustering", "clustering_directed", "average", "generalized", "square"))


def opt_reciprocity_masks(c):
    return opt_masks(c, ("reciprocity",))


def opt_boundary_masks(c):
    return opt_masks(c, ("node_boundary",))


OPTIONS = [(opt_null, 0.2), (opt_defaults, 3), (opt_bf_cutoff, 2), (opt_negative, 2), (opt_hop_rows, 3), (opt_cost_rows, 3),
           (opt_fw, 3), (opt_hits, 2), (opt_masks, 8), (opt_pagerank, 1), (opt_bidirectional, 2), (opt_matrix, 3),
           (opt_rename, 2), (opt_cuts, 3)]


def case(c):
    if c.rng.random() < 0.65:
        return stored_case(c)
    f = c.rng.choices([f for f, _ in OPTIONS], weights=[w for _, w in OPTIONS])[0]
    G, what, detail = f(c)
    c.judged((what, repr(detail), sorted(map(repr, G.edges))[:60]), G.number_of_edges() > 0)
