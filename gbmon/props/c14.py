"""Calling through networkx, natively or by namespace is the same; errors are reported, never answered."""
import types
from collections import Counter

from .. import diffs, oracle
from ..build import nx_to_ga
from ..canon import canon, graph_form
from ..catalog import SPECS, DictArg, Lazy, fresh, nx_func, nx_public
from ..env import Dispatcher, ga, gb, nx, nxapi, np
from ..gen import describe, make_graph
from ..meta import CHOICE, MATRICES, Outcome, disagreement, observe, same_kind

ID = "C14"
CASES = {"quick": 24000, "thorough": 400000}
RULE = ("a case draws a function, graphs and arguments, valid (two thirds) or spoilt in one way (unknown, unhashable "
        "or None node, unknown node inside a collection or node list, empty collection, unsupported graph class, "
        "multigraph, null graph, mixed directions, zero start vector, no iterations, ...) and makes the same call "
        "in up to six ways: dispatch from networkx, the nxapi function on the networkx graph, on the converted native "
        "graph, networkx's own function on the native graph, the function found by its namespace path, and the bare "
        "adjacency matrix. All outcomes must agree with each other and with pure networkx (value or exception "
        "class; a table lists where the library refuses differently). Non-trivial: at least two ways compared; "
        "distinct by (function, kind of input, ways, arguments, edges)")
EXPECT = {"valid": 3000, "spoilt": 2000, "way:backend": 5000, "way:nxapi": 3000, "way:native": 3000,
          "way:auto": 3000, "way:path": 1000, "way:matrix": 300, "both_raise": 500, "null graph": 100,
          "multi": 100, "wrong class": 100}
ASSUMPTIONS = ["callable edge weights are not supported by the backend and are not driven"]
MISS = ("no", "such", "node")
NAMES = sorted(SPECS)


# ------------------------------------------------------------------ where functions live
def _paths():
    """name -> callables found by walking the namespace modules (the same walk a user's import does)."""
    out, seen = {}, set()

    def walk(mod, prefix):
        if id(mod) in seen:
            return
        seen.add(id(mod))
        for k, v in sorted(vars(mod).items()):
            if isinstance(v, types.ModuleType) and v.__name__.startswith("graphblas_algorithms.nxapi"):
                walk(v, prefix + [k])
            elif callable(v) and k in SPECS:
                out.setdefault(k, []).append((".".join(prefix + [k]), v))

    walk(nxapi, ["nxapi"])
    return out


PATHS = _paths()


def to_native(G, weight):
    return Dispatcher.convert_from_nx(G, edge_attrs={weight: 1} if weight else None)


def implicit_weight(name, kw):
    """The attribute networkx would hand to the backend when it converts the graph."""
    spec = SPECS[name]
    if spec.wkw:
        return kw.get(spec.wkw, spec.wdefault)
    return "weight" if name == "hits" else None


def call(name, way, gs, args, kw):
    a = [fresh(x) for x in args]
    k = {x: fresh(v) for x, v in kw.items()}
    spec = SPECS[name]
    if way == "reference":
        return nx_public(name)(*gs, *a, **k)
    if way == "backend":
        return nx_public(name)(*gs, *a, **k, backend="graphblas")
    if way == "nxapi":
        return getattr(Dispatcher, name)(*gs, *a, **k)
    w = implicit_weight(name, kw)
    if spec.group == "ops" or name == "ego_graph" and not w:
        w = only_attr(gs)
    if way == "matrix":
        G = gs[0]
        return getattr(Dispatcher, name)(to_native(G, w).matrix, *a, **k)
    h = [to_native(g, w) for g in gs]
    if way == "native":
        return getattr(Dispatcher, name)(*h, *a, **k)
    if way == "auto":
        return nx_public(name)(*h, *a, **k)
    if way == "path":
        f = k.pop("_path")
        return f(*h, *a, **k)
    raise ValueError(way)


def only_attr(gs):
    attrs = {x for g in gs for *_, d in g.edges(data=True) for x in d}
    return attrs.pop() if len(attrs) == 1 else None


def outcome(name, way, gs, args, kw):
    def inv(name, mode, graphs, a, k):
        r = call(name, way, graphs, a, k)
        return list(r) if hasattr(r, "__next__") else r

    ctx = oracle.context()
    if name == "floyd_warshall_numpy":
        ctx.missing = float("inf")
    o = observe(name, way, gs, args, kw, ctx, invoke=inv)
    if name == "edge_boundary" and o.exc is None and gs[0].is_multigraph():
        o.value = dict(Counter(canon(o.raw)))  # parallel edges are listed one by one
    return o


# ------------------------------------------------------------------ spoiling a call
NODE_ARGS = {"descendants_at_distance": (0,), "is_k_regular": (), "k_truss": ()}


def put(args, i, v):
    a = list(args)
    a[i] = v
    return tuple(a)


def spoilt(rng, name, gs, args, kw):
    """All the ways this call can be spoilt: (kind, graphs, args, kw)."""
    spec, G = SPECS[name], gs[0]
    out = []
    for i, a in enumerate(args):
        if isinstance(a, Lazy):
            if a.kind in ("list", "tuple", "set") and not any(isinstance(z, Lazy) for z in a.items):
                out.append((f"missing in arg{i}", gs, put(args, i, Lazy(a.kind, [*a.items, MISS])), kw))
                out.append((f"empty arg{i}", gs, put(args, i, Lazy(a.kind, [])), kw))
        elif not isinstance(a, list) and i in NODE_ARGS.get(name, range(9)):
            out.append((f"missing arg{i}", gs, put(args, i, MISS), kw))
            out.append((f"unhashable arg{i}", gs, put(args, i, ["x", "y"]), kw))
            out.append((f"None arg{i}", gs, put(args, i, None), kw))
    full = {"nodes": list(G)[:2] * 2, "nodelist": list(G) + list(G)[:1]}
    for k in ("nodes", "nodelist"):
        if k in spec_kwargs(name):
            out.append((f"missing in {k}", gs, args, {**kw, k: list(G)[:1] + [MISS]}))
            out.append((f"empty {k}", gs, args, {**kw, k: []}))
            out.append((f"repeated {k}", gs, args, {**kw, k: full[k]}))
        if k == "nodelist" and len(G) > 1:
            out.append((f"repeated {k}", gs, args, {**kw, k: list(G)[:-1] + list(G)[:1]}))
    if "nodes" in spec_kwargs(name) and name != "average_clustering":
        out.append(("missing nodes", gs, args, {**kw, "nodes": MISS}))
    for k, v in kw.items():
        if isinstance(v, DictArg):
            out.append((f"missing in {k}", gs, args, {**kw, k: DictArg({**dict(v.items), MISS: 1.0})}))
            if len(v.items) > 1:
                out.append((f"partial {k}", gs, args, {**kw, k: DictArg(dict(v.items[1:]))}))
            out.append((f"empty {k}", gs, args, {**kw, k: DictArg({})}))
            out.append((f"zero {k}", gs, args, {**kw, k: DictArg({x: 0.0 for x in G})}))
    if spec.group == "central" and "max_iter" in spec_kwargs(name) and name != "hits":
        out.append(("max_iter 0", gs, args, {**kw, "max_iter": 0}))
        out.append(("max_iter 1", gs, args, {**kw, "max_iter": 1, "tol": 1e-12}))
    if name == "hits":
        out.append(("max_iter 0", gs, args, {**kw, "max_iter": rng.choice((0, -1))}))
    if name == "katz_centrality":
        out.append(("bad beta", gs, args, {**kw, "beta": rng.choice(("x", DictArg({}), Lazy("list", [1, 2])))}))
    if name == "s_metric":
        out.append(("old keyword", gs, args, {**kw, "normalized": rng.random() < 0.5}))
        out.append(("no such keyword", gs, args, {**kw, "nosuch": 1}))
    for k in ("cutoff", "radius"):
        if k in kw:
            out.append((f"{k} -1", gs, args, {**kw, k: -1}))
    if name == "descendants_at_distance":
        out.append(("negative distance", gs, (args[0], rng.choice((-1, -3))), kw))
    if spec.wkw:
        out.append(("no such weight", gs, args, {**kw, spec.wkw: "nosuch"}))
    if spec.kinds != "UD":
        C = nx.DiGraph if spec.kinds == "U" else nx.Graph
        out.append(("wrong class", [C(g) for g in gs], args, kw))
    M = nx.MultiDiGraph if G.is_directed() else nx.MultiGraph
    ms = [M(g) for g in gs]
    if rng.random() < 0.7:
        for m in ms:
            for u, v in list(m.edges())[: rng.randint(0, 4)]:
                m.add_edge(u, v)
    if spec.group != "wdist" or all(d.get("weight", 1) >= 0 for *_, d in G.edges(data=True)):
        # the sum of parallel negative edges is another graph
        out.append(("multi", ms, args, kw))
    E = [type(G)() for _ in gs]
    out.append(("null graph", E, args, {k: v for k, v in kw.items() if args or not isinstance(v, Lazy)
                                        and k not in ("nodes", "nodelist")}))
    if spec.second:
        other = nx.Graph if G.is_directed() else nx.DiGraph
        out.append(("mixed", [gs[0], other(gs[1])], args, kw))
    return out


_KW = {}


def spec_kwargs(name):
    if name not in _KW:
        import inspect

        _KW[name] = set(inspect.signature(nx_func(name).orig_func).parameters)
    return _KW[name]


def ways_for(rng, name, gs, spoiled):
    ws = ["backend", "nxapi", "native", "auto"]
    if PATHS.get(name):
        ws.append("path")
    G = gs[0]
    if not spoiled and not SPECS[name].second and list(G) == list(range(len(G))) and len(G) \
            and SPECS[name].group != "cut" and name != "is_simple_path" \
            and (G.is_directed() or SPECS[name].kinds == "U" and "laplacian" not in name):
        ws.append("matrix")
    return ws


# ------------------------------------------------------------------ the error contract
MISSING = (KeyError, nx.NetworkXError, nx.NodeNotFound)
INVALID = MISSING + (TypeError,)
CLASS = (nx.NetworkXNotImplemented, NotImplementedError)
NODELIST = MATRICES - {"floyd_warshall_numpy"}
ANYEXC = object()


def table(text):
    out = {}
    for line in text.strip().splitlines():
        kind, names = line.split(":")
        out.setdefault(kind.strip(), set()).update(names.split())
    return out


_OPS = "union full_join disjoint_union intersection compose difference symmetric_difference"
_DEG = "in_degree_centrality out_degree_centrality"
# networkx raises, this library raises another exception (of the family given below)
LOOSE = table(f"""
None arg: ancestors descendants efficiency ego_graph lowest_common_ancestor node_connected_component bellman_ford_path_length descendants_at_distance
unhashable arg: bellman_ford_path bellman_ford_path_length descendants_at_distance efficiency ego_graph lowest_common_ancestor
missing arg: efficiency ego_graph is_isolate bellman_ford_path bellman_ford_path_length lowest_common_ancestor
missing in arg: node_expansion
missing in beta: katz_centrality
missing in nstart: hits
missing in nodelist: {' '.join(sorted(MATRICES))}
missing in nodes: average_clustering
null graph: efficiency ego_graph is_isolate is_regular lowest_common_ancestor mixing_expansion node_expansion
wrong class: reciprocity
zero nstart: hits pagerank
zero dangling: pagerank
""")
LOOSE_EXC = {"null graph": INVALID + (IndexError, ZeroDivisionError), "wrong class": CLASS + (TypeError,),
             "multi": CLASS + (TypeError, ZeroDivisionError), "zero nstart": (ZeroDivisionError, ValueError),
             "zero dangling": (ZeroDivisionError, ValueError)}
# networkx answers (or fails only later), this library refuses
REFUSE = table(f"""
None arg: has_path bellman_ford_path is_isolate
unhashable arg: is_isolate
missing arg: is_isolate
missing in nodes: average_clustering clustering generalized_degree reciprocity square_clustering triangles
missing nodes: clustering generalized_degree reciprocity square_clustering triangles
missing in arg: volume
missing in dangling: google_matrix pagerank
missing in nstart: pagerank
missing in personalization: google_matrix pagerank
null graph: boundary_expansion edge_expansion is_isolate volume
zero dangling: google_matrix
mixed: fast_could_be_isomorphic
wrong class: fast_could_be_isomorphic overall_reciprocity reciprocity square_clustering
multi: {_OPS}
""")
REFUSE_EXC = {"null graph": INVALID + (ZeroDivisionError,), "zero dangling": (ZeroDivisionError, ValueError),
              "mixed": CLASS, "wrong class": CLASS + (TypeError, KeyError), "multi": CLASS + (TypeError,)}
# networkx raises (a limit of its implementation), this library gives a value
ANSWER = table(f"""
None arg: bfs_layers
empty arg: cut_size mixing_expansion normalized_cut_size
missing in arg: cut_size mixing_expansion normalized_cut_size
valid: cut_size mixing_expansion normalized_cut_size
no such weight: cut_size mixing_expansion normalized_cut_size
multi: triangles transitivity clustering average_clustering generalized_degree hits cut_size mixing_expansion normalized_cut_size
empty nodelist: {' '.join(sorted(NODELIST))}
repeated nodelist: {' '.join(sorted(NODELIST))}
null graph: {' '.join(sorted(NODELIST))} inter_community_edges cut_size hits
zero dangling: pagerank
""")
# several values are right, or networkx's own value is an artefact (see DESIGN.md)
UNSPECIFIED = table(f"""
missing in arg: boundary_expansion conductance cut_size normalized_cut_size edge_expansion edge_boundary mixing_expansion
multi: all_pairs_bellman_ford_path_length single_source_bellman_ford_path_length bellman_ford_path_length bellman_ford_path floyd_warshall floyd_warshall_numpy floyd_warshall_predecessor_and_distance conductance cut_size normalized_cut_size edge_boundary edge_expansion mixing_expansion volume degree_centrality {_DEG} s_metric is_regular faster_could_be_isomorphic fast_could_be_isomorphic intra_community_edges inter_community_edges mutual_weight overall_reciprocity reciprocity reverse ego_graph hits isolates is_k_regular negative_edge_cycle adjacency_matrix laplacian_matrix normalized_laplacian_matrix google_matrix pagerank triangles generalized_degree boundary_expansion complement square_clustering clustering
no such weight: bellman_ford_path conductance cut_size directed_modularity_matrix modularity_matrix edge_expansion ego_graph floyd_warshall_predecessor_and_distance mixing_expansion normalized_cut_size
mixed: symmetric_difference
repeated nodes: reciprocity
""")
# what an incomplete start vector or a dangling vector that sums to 0 mean is left to the implementation
FREE = {("partial nstart", "eigenvector_centrality"), ("partial nstart", "katz_centrality"), ("partial nstart", "hits"),
        ("empty nstart", "eigenvector_centrality"), ("empty nstart", "katz_centrality"), ("empty nstart", "hits"),
        ("empty dangling", "google_matrix")}
DISAGREE_OK = {("multi", "ego_graph"), ("multi", "hits")}


def base(kind):
    """'missing arg1' -> 'missing arg'."""
    return kind.rstrip("0123456789")


def listed(t, name, kind):
    return name in t.get(base(kind), ())


def contract(name, kind, ref, o, kw, loops=False):
    """None, or how the outcome breaks the promise given what networkx does with the same call."""
    b = base(kind)
    if (b, name) in FREE:
        return None
    if ref.exc is not None and o.exc is not None:
        if same_kind(ref.exc, o.exc):
            return None
        if listed(LOOSE, name, kind) and isinstance(o.exc, LOOSE_EXC.get(b, INVALID)):
            return None
        if listed(REFUSE, name, kind) and isinstance(o.exc, REFUSE_EXC.get(b, INVALID)):
            return None
        if listed(ANSWER, name, kind) and isinstance(o.exc, ZeroDivisionError):
            return None
        return f"networkx raises {type(ref.exc).__name__} ({ref.exc}), got {o}"
    if ref.exc is not None:
        return None if listed(ANSWER, name, kind) else \
            f"networkx raises {type(ref.exc).__name__} ({ref.exc}), got the value {o}"
    if o.exc is not None:
        if isinstance(o.exc, diffs.ALLOWED_FAILURES.get(name, ())):
            return None
        if listed(REFUSE, name, kind) and isinstance(o.exc, REFUSE_EXC.get(b, INVALID)):
            return None
        return f"networkx gives {ref}, got {o}"
    if listed(UNSPECIFIED, name, kind) or name in CHOICE or name == "square_clustering" and loops:
        return None
    if kw.get("cutoff") is not None and kw["cutoff"] % 1:  # (infinity % 1 is nan)
        if kw["cutoff"] in (float("inf"), float("-inf")):
            return disagreement(name, ref, o, kw, topology=True)
        return None  # networkx goes one hop too far in some of its functions
    if name == "generalized_degree" and isinstance(ref.value, dict) and isinstance(o.value, dict):
        # isolated nodes: known finding of C09
        full = [{k: v for k, v in x.value.items() if v not in ({}, 0)} for x in (ref, o)]
        return None if full[0] == full[1] else f"{full[0]} vs {full[1]}"
    return disagreement(name, ref, o, kw, topology=True)


def case(c):
    rng = c.rng
    name = rng.choice(NAMES)
    spec, gs, info, args, kw = diffs.draw(c, name)
    kind = "valid"
    if rng.random() < 0.45 and len(gs[0]):
        options = spoilt(rng, name, gs, args, kw)
        kind, gs, args, kw = rng.choice(options)
    spoiled = kind != "valid"
    c.ev("spoilt" if spoiled else "valid")
    if kind in ("null graph", "multi", "wrong class", "mixed"):
        c.ev(kind)
    c.say(f"{name} [{kind}] on {' and '.join(describe(g) for g in gs)} args={args!r} kw={kw!r}")
    ws = ways_for(rng, name, gs, spoiled)
    got = {}
    for w in ws:
        k = kw
        if w == "path":
            where, f = rng.choice(PATHS[name])
            k = {**kw, "_path": f}
        c.ev(f"way:{w}")
        got[w] = outcome(name, w, gs, args, k)
        if w == "path" and got[w].exc is not None:
            c.say(f"path {where}")
    c.ev(f"call:{name}")
    # (1) every way in does the same
    first = got[ws[0]]
    specified = True
    want = None
    if not spoiled:
        ctx = oracle.context()
        attr = kw.get(spec.wkw, spec.wdefault) if spec.wkw else None
        ctx.topology = True
        ctx.order, ctx.stored = list(gs[0]), diffs.stored_of(gs[0], attr)
        if len(gs) > 1:
            ctx.order2, ctx.stored2 = list(gs[1]), diffs.stored_of(gs[1], None)
        if name == "hits":
            ctx.stored = diffs.stored_of(gs[0], "weight")
        want = diffs.expected(name, spec, gs, args, kw, ctx)
        specified = want[0] != "skip"
    iterative = name in ("pagerank", "eigenvector_centrality", "katz_centrality", "hits")
    if (base(kind), name) not in DISAGREE_OK and specified:
        for w in ws[1:]:
            o = got[w]
            if o.exc is not None and first.exc is not None:
                c.check(same_kind(o.exc, first.exc), f"{name}:ways-differ:{kind}", lambda: f"{ws[0]}: {first}; {w}: {o}")
                c.ev("both_raise")
                continue
            if name in CHOICE and o.exc is None and first.exc is None:
                continue
            d = disagreement(name, first, o, kw, topology=True)
            c.check(not d, f"{name}:ways-differ:{kind}", lambda: f"{ws[0]} against {w}: {d}")
    # (2) networkx's own word on the call
    if spoiled:
        ref = outcome(name, "reference", gs, args, kw)
        if isinstance(ref.exc, (nx.PowerIterationFailedConvergence,)) and iterative or "max_iter" in kind:
            if ref.exc is None and first.exc is None:
                pass  # rounds are counted alike up to one: C08 judges this
            return done(c, name, kind, ws, args, kw, gs)
        if any(p is not None and len({f"{p}{v}" for v in g}) < len(g) for p, g in zip(kw.get("rename") or (), gs)):
            # names that merge nodes: networkx glues, this library refuses
            return done(c, name, kind, ws, args, kw, gs)
        if kind == "multi" and spec.group == "wdist" and any(
                isinstance(x, (int, float)) and x < 0 for g in gs for *_, dd in g.edges(data=True) for x in dd.values()):
            # parallel edges are added up: another graph, with other negative cycles
            return done(c, name, kind, ws, args, kw, gs)
        loops = nx.number_of_selfloops(gs[0]) > 0
        for w in ws:
            if (base(kind), name) in DISAGREE_OK and w != "backend":
                continue
            d = contract(name, kind, ref, got[w], kw, loops)
            c.check(not d, f"{name}:contract:{kind}", lambda: f"{name} [{kind}] via {w}: {d}")
    elif specified and name in CHOICE:
        for w in ws:
            o = got[w]
            if isinstance(o.exc, diffs.ALLOWED_FAILURES.get(name, ())):
                continue
            diffs.judge(c, name, spec, o.raw, o.exc, want, ctx, f"{name} via {w}")
    elif specified and not iterative and want[0] == "value" and first.exc is None:
        diffs.judge(c, name, spec, first.raw, first.exc, want, ctx, f"{name} via {ws[0]}")
    done(c, name, kind, ws, args, kw, gs)


def done(c, name, kind, ws, args, kw, gs):
    c.judged((name, kind, tuple(ws), repr(args), repr(sorted(map(repr, kw.items()))),
              sorted(map(repr, gs[0].edges))[:30]), len(ws) > 1)
