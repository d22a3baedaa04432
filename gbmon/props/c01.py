"""Graph conversion keeps nodes, edges, direction and weights."""
from ..build import build_matrix, entries, ga_graph, FORMS
from ..canon import num_eq
from ..env import Dispatcher, ga, gb, nx, np
from ..gen import describe, make_graph

from graphblas import Matrix

ID = "C01"
CASES = {"quick": 100000, "thorough": 1000000}
RULE = ("a case converts one graph (simple or multi, 18 families x 10 label schemes x weight schemes, several attributes, "
        "numpy weights) with random options, or makes a native graph from a matrix in some storage form, and compares nodes, order, "
        "edges, weights, direction, attributes, and the reversed and undirected forms with the definition; or asks for a "
        "conversion that must be refused. Non-trivial: the graph has an edge; distinct by (what, options, nodes, edges)")
EXPECT = {"from_nx": 3000, "to_nx": 3000, "matrix_result": 800, "refused": 800, "undirected_form": 800, "reversed_form": 500,
          "multigraph": 500, "round_trip": 1500}
ASSUMPTIONS = ["to_networkx carries nodes, edges and weights; graph attributes are only kept by convert_from_nx when asked for",
               "the undirected form of a directed graph may take the weight of either direction, but the same for both"]
W = ("none", "unit", "iso", "isof", "int", "float", "missing", "zeros", "bool", "wide", "negint", "negfloat", "isoneg", "ties")
CLS = {nx.Graph: "Graph", nx.DiGraph: "DiGraph", nx.MultiGraph: "MultiGraph", nx.MultiDiGraph: "MultiDiGraph"}


def want_edges(G, attr):
    """{(u, v): weight}, both directions for undirected graphs; parallel edges summed."""
    out = {}
    for u, v, d in G.edges(data=True):
        w = d.get(attr, 1) if attr is not None else 1
        out[u, v] = out.get((u, v), 0) + w
        if not G.is_directed() and u != v:
            out[v, u] = out.get((v, u), 0) + w
    return out


def native_edges(c, H, what):
    """Edges of a native graph through its public face."""
    ids = {k: i for i, k in H.id_to_key.items()}
    c.check(len(ids) == len(H) and set(H.id_to_key) == set(range(len(H))), f"{what}:positions",
            lambda: f"positions {H.id_to_key!r}")
    k = H.id_to_key
    return {(k[i], k[j]): v for (i, j), v in entries(H.matrix).items()}


def edges_diff(want, got, exact=True):
    if want.keys() != got.keys():
        return f"missing {list(want.keys() - got.keys())[:4]!r}, extra {list(got.keys() - want.keys())[:4]!r}"
    for k in want:
        if not num_eq(float(want[k]), float(got[k]), 1e-12, 1e-12):
            return f"edge {k!r} weighs {got[k]!r} instead of {want[k]!r}"
    return None


def check_native(c, H, nodes, directed, multi, want, what):
    cls = ("Multi" if multi else "") + ("DiGraph" if directed else "Graph")
    c.check(type(H).__name__ == cls and H.is_directed() is directed and H.is_multigraph() is multi, f"{what}:class",
            lambda: f"{type(H).__name__} directed={H.is_directed()} multi={H.is_multigraph()} instead of {cls}")
    c.check(list(H) == nodes, f"{what}:nodes", lambda: f"iterates {list(H)!r} instead of {nodes!r}")
    c.check(len(H) == len(nodes) == H.order() == H.number_of_nodes(), f"{what}:size",
            lambda: f"len {len(H)} order {H.order()} number_of_nodes {H.number_of_nodes()} instead of {len(nodes)}")
    for v in nodes:
        c.check(v in H, f"{what}:contains", lambda: f"{v!r} is not in the graph")
    for v in ("nope", ("no",), -98765, 2.75, [], {}, None):
        if not any(type(v) is type(x) and v == x for x in nodes):
            c.check(v not in H, f"{what}:contains", lambda: f"foreign {v!r} is in the graph")
    d = edges_diff(want, native_edges(c, H, what))
    c.check(d is None, f"{what}:edges", lambda: d)


def check_nx(c, R, nodes, directed, want, attr, what, ordered=True):
    c.check(type(R) is (nx.DiGraph if directed else nx.Graph), f"{what}:class", lambda: f"{type(R)!r}")
    c.check(list(R) == nodes if ordered else set(R) == set(nodes) and len(R) == len(nodes), f"{what}:nodes",
            lambda: f"nodes {list(R)!r} instead of {nodes!r}")
    got = {}
    for u, v, d in R.edges(data=True):
        c.check(list(d) == ([] if attr is None else [attr]), f"{what}:attributes", lambda: f"edge {u!r},{v!r} has {d!r}, wanted {attr!r}")
        w = 1 if attr is None else d[attr]
        got[u, v] = w
        if not directed:
            got[v, u] = w
    d = edges_diff(dict.fromkeys(want, 1) if attr is None else want, got)
    c.check(d is None, f"{what}:edges", lambda: d)


def add_attrs(rng, G, how):
    """Edge attributes besides 'weight'."""
    for *e, d in G.edges(data=True):
        if how == "other":
            d.clear()
            d["cost"] = rng.randint(1, 9)
        elif how == "two":
            d["cost"] = rng.randint(1, 9)
        elif how == "sometimes" and rng.random() < 0.5:
            d["cost"] = rng.randint(1, 9) / 2
        elif how == "numpy" and "weight" in d:
            d["weight"] = np.float64(d["weight"]) if rng.random() < 0.5 else np.int64(d["weight"]) if float(d["weight"]).is_integer() else d["weight"]


def to_multi(rng, G):
    M = (nx.MultiDiGraph if G.is_directed() else nx.MultiGraph)()
    M.add_nodes_from(G)
    for u, v, d in G.edges(data=True):
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            M.add_edge(u, v, **d) if rng.random() < 0.8 else M.add_edge(v, u, **d) if not G.is_directed() else M.add_edge(u, v, **d)
    if rng.random() < 0.5:  # parallel edges need not carry the same attributes
        for *_, d in M.edges(data=True):
            for a in list(d):
                if rng.random() < 0.4:
                    del d[a]
                elif rng.random() < 0.3 and isinstance(d[a], int):
                    d[a] += 1
    return M


def make_nx(rng):
    G, info = make_graph(rng, None, weights=W, lo=0, hi=40)
    how = rng.choice(("", "", "", "other", "two", "sometimes", "numpy"))
    add_attrs(rng, G, how)
    if rng.random() < 0.2 and info["weights"] != "bool":  # the sum of parallel True edges is not specified
        G = to_multi(rng, G)
    if rng.random() < 0.4:
        G.graph.update(rng.choice(({"name": "the graph"}, {"k": 1, "name": "x"}, {"list": [1, 2]}, {3: "three"})))
    return G, info, how


def sig(c, what, G, *opts):
    c.judged((what, type(G).__name__, list(G), sorted(map(repr, G.edges(data=True)))[:40], *map(repr, opts)), G.number_of_edges() > 0)


def attrs_of(G):
    s = set()
    for *_, d in G.edges(data=True):
        s |= set(d)
    return s


def case_from(c):
    """Conversion from networkx with every option, and back again."""
    rng = c.rng
    G, info, how = make_nx(rng)
    nodes, directed, multi = list(G), G.is_directed(), G.is_multigraph()
    c.ev("from_nx")
    if multi:
        c.ev("multigraph")
    present = sorted(attrs_of(G))
    way = rng.choice(("class", "class", "edge_attrs", "edge_attrs", "preserve", "weight", "plain", "dtype"))
    attr = rng.choice(present + ["weight", None, "absent"])
    kw = {}
    if way == "class":
        cls = {"Graph": ga.Graph, "DiGraph": ga.DiGraph}.get(type(G).__name__)
        if cls is None:
            from graphblas_algorithms.classes.graph import MultiGraph
            from graphblas_algorithms.classes.digraph import MultiDiGraph

            cls = MultiDiGraph if directed else MultiGraph
        f = lambda: cls.from_networkx(G, weight=attr)  # noqa: E731
    elif way == "dtype":
        cls = ga.DiGraph if directed else ga.Graph
        vals = [d.get(attr, 1) if attr else 1 for *_, d in G.edges(data=True)]
        dt = rng.choice(("float64", "int64")) if all(float(v).is_integer() and abs(v) < 2**40 for v in vals) else "float64"
        if multi:
            return c.judged()
        f = lambda: cls.from_networkx(G, weight=attr, dtype=dt)  # noqa: E731
        kw = {"dtype": dt}
    elif way == "edge_attrs":
        if attr is None:
            kw = {"edge_attrs": rng.choice((None, {}))}
        else:
            kw = {"edge_attrs": {attr: rng.choice((None, 1, 1.0))}}
        f = lambda: Dispatcher.convert_from_nx(G, **kw)  # noqa: E731
    elif way == "weight":
        kw = {"weight": attr}
        f = lambda: Dispatcher.convert_from_nx(G, **kw)  # noqa: E731
    elif way == "preserve":
        kw = {"preserve_edge_attrs": True}
        if len(present) > 1:
            c.ev("refused")
            try:
                H = Dispatcher.convert_from_nx(G, **kw)
            except NotImplementedError:
                return sig(c, "refused", G, kw)
            c.fail("preserve_edge_attrs:accepted", f"{present} converted to {entries(H.matrix)}")
        attr = present[0] if present else None
        f = lambda: Dispatcher.convert_from_nx(G, **kw)  # noqa: E731
    else:
        attr = None
        f = lambda: Dispatcher.convert_from_nx(G)  # noqa: E731
    if way not in ("class", "dtype"):
        if rng.random() < 0.4:
            kw["preserve_graph_attrs"] = rng.random() < 0.7
        if rng.random() < 0.3:
            kw["preserve_node_attrs"] = rng.random() < 0.5
        if rng.random() < 0.3:
            kw["name"], kw["graph_name"] = "f", "G"
        if way == "plain":
            f = lambda: Dispatcher.convert_from_nx(G, **kw)  # noqa: E731
    c.say(f"{way} {attr!r} {kw!r} on {describe(G)} graph={G.graph!r}")
    before = (list(G.nodes(data=True)), [(*e[:-1], dict(e[-1])) for e in G.edges(data=True)], dict(G.graph))
    H = f()
    want = want_edges(G, attr)
    check_native(c, H, nodes, directed, multi, want, "from_nx")
    if kw.get("preserve_graph_attrs"):
        c.check(H.graph == G.graph and H.name == G.graph.get("name", ""), "from_nx:graph-attributes",
                lambda: f"{H.graph!r} name {H.name!r} instead of {G.graph!r}")
        c.check(H.graph is not G.graph, "from_nx:shared-attributes", "the attribute dict is the very same object")
    after = (list(G.nodes(data=True)), [(*e[:-1], dict(e[-1])) for e in G.edges(data=True)], dict(G.graph))
    c.check(before == after, "from_nx:input-changed", "the networkx graph changed")
    if kw.get("dtype"):
        c.check(H.matrix.dtype == getattr(gb.dtypes, {"float64": "FP64", "int64": "INT64"}[kw["dtype"]]), "from_nx:dtype",
                lambda: f"{H.matrix.dtype} instead of {kw['dtype']}")
    sig(c, "from", G, way, attr, sorted(kw.items()))
    if multi or rng.random() < 0.3:
        return
    c.ev("round_trip")
    e = rng.choice(("weight", None, attr or "weight", "w"))
    back = H.to_networkx(edge_attribute=e) if rng.random() < 0.7 else (Dispatcher.convert_to_nx(H) if e == "weight" else H.to_networkx(e))
    check_nx(c, back, nodes, directed, want, e, "round_trip")
    c.judged()
    again = Dispatcher.convert_from_nx(back, edge_attrs={e: None} if e else None)
    check_native(c, again, nodes, directed, False, want if e else dict.fromkeys(want, 1), "round_trip")
    c.judged()
    if rng.random() < 0.3:
        H.name = "renamed"
        c.check(H.name == "renamed" and H.graph["name"] == "renamed", "name", lambda: f"{H.name!r} {H.graph!r}")


def case_to(c):
    """A native graph made from a matrix, seen as a networkx graph."""
    rng = c.rng
    G, info = make_graph(rng, None, weights=W, lo=0, hi=30)
    if rng.random() < 0.15:
        nodes = list(range(len(G)))
        ids = dict(zip(G, nodes))
        A = build_matrix(G, ids, "weight", "float64")
        H = (ga.DiGraph if G.is_directed() else ga.Graph)(A)
        G = nx.relabel_nodes(G, ids)
    else:
        ints = all(isinstance(d.get("weight", 1), int) and not isinstance(d.get("weight", 1), bool) for *_, d in G.edges(data=True))
        H = ga_graph(rng, G, dtype=rng.choice(("float64", "int64")) if ints else "float64",
                     iso=len({d.get("weight", 1) for *_, d in G.edges(data=True)}) == 1 and rng.random() < 0.6,
                     form=rng.choice((None, *FORMS)))
    nodes = list(H)
    c.check(set(nodes) == set(G) and len(nodes) == len(G), "native:nodes", lambda: f"{nodes!r}")
    want = want_edges(G, "weight")
    c.ev("to_nx")
    c.say(f"{type(H).__name__} {H.matrix.dtype} order {nodes!r} of {describe(G)}")
    check_native(c, H, nodes, G.is_directed(), False, want, "native")
    for _ in range(rng.randint(0, 3)):  # derived properties may have been read before
        H.get_property(rng.choice(("L+", "U-", "offdiag", "has_self_edges", "row_degrees+", "AT", "diag")))
    e = rng.choice(("weight", "weight", None, "cost"))
    R = H.to_networkx(e) if e != "weight" or rng.random() < 0.5 else Dispatcher.convert_to_nx(H, name=rng.choice((None, "reverse")))
    check_nx(c, R, nodes, G.is_directed(), want, e, "to_nx")
    sig(c, "to", G, e, nodes)
    for obj in (3, "x", None, {"a": 1}, [1], frozenset((2,))):
        c.check(Dispatcher.convert_to_nx(obj) is obj, "convert_to_nx:other", lambda: f"{obj!r} was changed")


def case_forms(c):
    """Reversed and undirected forms of directed graphs."""
    rng = c.rng
    G, info = make_graph(rng, True, weights=W, lo=0, hi=25)
    if rng.random() < 0.5:
        H = ga.DiGraph.from_networkx(G, weight="weight")
    else:
        H = ga_graph(rng, G, dtype="float64", iso=len({d.get("weight", 1) for *_, d in G.edges(data=True)}) == 1 and rng.random() < 0.6)
    attrs = rng.choice(({}, {"name": "n", "x": [1]}))
    H.graph.update(attrs)
    nodes = list(H)
    want = want_edges(G, "weight")
    for p in rng.sample(("AT", "L+", "U-", "offdiag", "has_self_edges", "row_degrees+", "recip_degrees+", "is_iso"), rng.randint(0, 4)):
        H.get_property(p)
    c.say(f"order {nodes!r} of {describe(G)}")
    if rng.random() < 0.4:
        c.ev("reversed_form")
        copy = rng.choice((True, True, False))
        R = H.reverse(copy=copy) if rng.random() < 0.7 else H.reverse() if copy else H.reverse(False)
        check_native(c, R, nodes, True, False, {(v, u): w for (u, v), w in want.items()}, "reverse")
        c.check(R.graph == attrs, "reverse:attributes", lambda: f"{R.graph!r} instead of {attrs!r}")
        if attrs and copy:
            c.check(R.graph is not H.graph and R.graph["x"] is not H.graph["x"], "reverse:shared-attributes", "a copy shares its attributes")
        R2 = R.reverse()
        check_native(c, R2, nodes, True, False, want, "reverse twice")
        sig(c, "reverse", G, copy)
    else:
        c.ev("undirected_form")
        rec = rng.random() < 0.5
        try:
            H.to_undirected(as_view=True)
            c.fail("to_undirected:view", "as_view=True gave a graph")
        except NotImplementedError:
            pass
        U = H.to_undirected(reciprocal=rec) if rec or rng.random() < 0.5 else H.to_undirected()
        keep = {(u, v) for u, v in want if not rec or (v, u) in want}
        keep |= {(v, u) for u, v in keep}
        got = native_edges(c, U, "to_undirected")
        check_native(c, U, nodes, False, False, got, "to_undirected")
        c.check(got.keys() == keep, "to_undirected:edges", lambda: f"missing {list(keep - got.keys())[:4]}, extra {list(got.keys() - keep)[:4]}")
        for (u, v), w in got.items():
            c.check(num_eq(got[v, u], w, 0, 0), "to_undirected:asymmetric", lambda: f"{u!r},{v!r} weighs {w} and {got[v, u]}")
            c.check(any(k in want and num_eq(float(want[k]), float(w), 1e-12, 1e-12) for k in ((u, v), (v, u))), "to_undirected:weight",
                    lambda: f"{u!r},{v!r} weighs {w}")
        check_nx(c, U.to_networkx(), nodes, False, got, "weight", "to_undirected")
        d = edges_diff(want, native_edges(c, H, "to_undirected"))
        c.check(d is None, "to_undirected:input-changed", lambda: d)
        sig(c, "undirected", G, rec)
        c.check(U.to_directed_class() is ga.DiGraph and U.to_undirected_class() is ga.Graph and
                H.to_directed_class() is ga.DiGraph and H.to_undirected_class() is ga.Graph, "class-factories", "wrong classes")


NEED = {"adjacency_matrix": "sparse", "bethe_hessian_matrix": "sparse", "laplacian_matrix": "sparse", "normalized_laplacian_matrix": "sparse",
        "tournament_matrix": "sparse", "directed_modularity_matrix": "dense", "google_matrix": "dense", "modularity_matrix": "dense"}


def case_matrix(c):
    """Matrix results as networkx users expect them."""
    rng = c.rng
    r, k = rng.choice(((0, 0), (1, 1), (2, 3), (4, 4), (6, 5), (7, 7)))
    r, k = max(r, 1), max(k, 1)
    E = {(i, j): rng.choice((1, 2.5, -3.0, 0.0, 7)) for i in range(r) for j in range(k) if rng.random() < 0.4}
    M = Matrix("FP64", r, k) if not E else Matrix.from_coo([e[0] for e in E], [e[1] for e in E], list(E.values()), nrows=r, ncols=k, dtype="FP64")
    name = rng.choice(list(NEED))
    c.ev("matrix_result")
    c.say(f"{name} {E!r}")
    R = Dispatcher.convert_to_nx(M, name=name)
    want = np.zeros((r, k))
    for (i, j), w in E.items():
        want[i, j] = w
    if NEED[name] == "sparse":
        c.check(hasattr(R, "tocsr") and R.shape == (r, k), "matrix:kind", lambda: f"{name}: {type(R)!r}")
        got = np.asarray(R.todense())
    else:
        c.check(isinstance(R, np.ndarray) and R.shape == (r, k), "matrix:kind", lambda: f"{name}: {type(R)!r}")
        got = R
    c.check((got == want).all(), "matrix:entries", lambda: f"{name}: {got!r} instead of {want!r}")
    c.judged((name, r, k, sorted(E.items())), bool(E))


def case_refuse(c):
    rng = c.rng
    G, info, how = make_nx(rng)
    c.ev("refused")
    what = rng.choice(("node_attrs", "preserve_node", "two_attrs", "default", "both", "foreign", "square", "edge_preserve"))
    c.say(f"{what} on {describe(G)}")

    def refused(f, exc):
        try:
            r = f()
        except exc:
            return sig(c, what, G)
        except Exception as e:
            c.fail(f"refuse:{what}", f"{type(e).__name__}: {e}")
        c.fail(f"refuse:{what}", f"accepted: {r!r}")

    if what == "node_attrs":
        refused(lambda: Dispatcher.convert_from_nx(G, node_attrs={"color": None}), NotImplementedError)
    elif what == "preserve_node":
        if not len(G):
            return c.judged()
        G.nodes[rng.choice(list(G))]["color"] = "red"
        refused(lambda: Dispatcher.convert_from_nx(G, preserve_node_attrs=True), NotImplementedError)
    elif what == "two_attrs":
        refused(lambda: Dispatcher.convert_from_nx(G, edge_attrs={"a": None, "b": 1}), NotImplementedError)
    elif what == "default":
        refused(lambda: Dispatcher.convert_from_nx(G, edge_attrs={"weight": rng.choice((2, 0.5, -1, 3))}), NotImplementedError)
    elif what == "both":
        refused(lambda: Dispatcher.convert_from_nx(G, edge_attrs={"weight": 1}, weight="weight"), TypeError)
    elif what == "foreign":
        refused(lambda: Dispatcher.convert_from_nx(rng.choice((ga.Graph(), ga.DiGraph()))), TypeError)
    elif what == "edge_preserve":
        for *_, d in G.edges(data=True):
            d["p"] = d["q"] = 1
        if not G.number_of_edges():
            return c.judged()
        refused(lambda: Dispatcher.convert_from_nx(G, preserve_edge_attrs=True), NotImplementedError)
    else:
        cls = rng.choice((ga.Graph, ga.DiGraph))
        r, k = rng.randint(0, 5), rng.randint(0, 5)
        if r == k:
            H = cls(Matrix("INT64", r, k), k=1)
            c.check(len(H) == r and list(H) == list(range(r)) and H.graph == {"k": 1}, "native:empty", lambda: f"{list(H)} {H.graph}")
            return c.judged()
        refused(lambda: cls(Matrix("INT64", r, k)), ValueError)


def case(c):
    f = c.rng.choices((case_from, case_to, case_forms, case_matrix, case_refuse), (5, 4, 3, 1, 1.5))[0]
    f(c)
