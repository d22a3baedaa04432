"""The online checker shared by the algorithm properties: one call of the real code, one definition."""
import inspect

from . import oracle
from .build import entries, ga_graph, nx_to_ga
from .canon import canon, diff, graph_form
from .catalog import SPECS, DictArg, fresh, nx_func, nx_public
from .env import Dispatcher, ga, nx, np
from .gen import BIG, describe, make_graph

UNW_DTYPES = ("bool", "int8", "int32", "int64", "uint8", "uint64", "float32", "float64")


def second_graph(rng, spec, G, info):
    d = info["directed"]
    kind = spec.second
    if isinstance(kind, (tuple, list)):
        kind = rng.choice(kind)
    w = info["weights"] if info["weights"] in spec.weights else "none"
    if spec.group == "ops" and w != "none" and rng.random() < 0.5:
        w = rng.choice([x for x in spec.weights if x != "none"])
    if kind == "iso":
        x = rng.random()
        if x < 0.45:
            m = list(G)
            rng.shuffle(m)
            H = nx.relabel_nodes(G, dict(zip(G, m)))
            if x < 0.15 and H.number_of_edges():  # near miss: one edge moved
                e = rng.choice(list(H.edges))
                H.remove_edge(*e)
                H.add_edge(rng.choice(m), rng.choice(m))
            K = type(H)()
            m = list(H)
            rng.shuffle(m)
            K.add_nodes_from(m)
            K.add_edges_from(H.edges)
            if rng.random() < 0.12:  # the same but for nodes nobody is joined to
                K.add_nodes_from([("more", i) for i in range(rng.randint(1, 2))])
            return K
        if x < 0.7:  # degree-preserving switch
            H = nx.Graph(G) if not d else nx.DiGraph(G)
            es = list(H.edges)
            for _ in range(6):
                if len(es) < 2:
                    break
                (a, b), (p, q) = rng.sample(es, 2)
                if len({a, b, p, q}) == 4 and not H.has_edge(a, q) and not H.has_edge(p, b):
                    H.remove_edges_from([(a, b), (p, q)])
                    H.add_edges_from([(a, q), (p, b)])
                    break
            return nx.relabel_nodes(H, {v: ("h", v) for v in H})
        return make_graph(rng, d, n=info["n"] if rng.random() < 0.85 else None,
                          family=info["family"] if rng.random() < 0.5 else None, labels="shuffled")[0]
    if kind == "disjoint":
        H = make_graph(rng, d, hi=spec.hi, weights=w)[0]
        return nx.relabel_nodes(H, {v: ("H", v) for v in H})
    if kind == "any":
        return make_graph(rng, d, hi=spec.hi, weights=w, labels=info["labels"] if rng.random() < 0.7 else None)[0]
    H = type(G)()
    nodes = list(G)
    if rng.random() < 0.6:
        rng.shuffle(nodes)
    H.add_nodes_from(nodes)
    if nodes and rng.random() < 0.05:  # not the same nodes after all
        H.remove_node(nodes[0])
        nodes = nodes[1:]
    p = rng.choice((0.0, 0.1, 0.3))
    for u in nodes:
        for v in nodes:
            if rng.random() < p:
                H.add_edge(u, v)
    for u, v in G.edges:
        if rng.random() < 0.5 and u in H and v in H:
            H.add_edge(u, v)
    return attach_weights(rng, H) if w != "none" and rng.random() < 0.8 else H


def stored_of(G, attr):
    out = {}
    for u, v, d in G.edges(data=True):
        w = d.get(attr, 1) if attr else 1
        out[u, v] = w
        if not G.is_directed():
            out[v, u] = w
    return out


def ga_order(g):
    return [g.id_to_key[i] for i in range(len(g))]


def all_int(G, attr):
    return all(isinstance(d.get(attr, 1), (int, np.integer)) for _, _, d in G.edges(data=True))


def attach_weights(rng, G):
    """Weights an unweighted function must not notice."""
    pool = rng.choice(((1, 2, 3, 4, 5), (7,), (0.5, 2.25, 3.0), (-1, 2, -3, 0, 5), (0,), (100, 1)))
    H = G.copy()
    for u, v in H.edges:
        H[u][v]["weight"] = rng.choice(pool)
    if rng.random() < 0.3:  # a self-loop is one whatever it weighs
        for v in nx.nodes_with_selfloops(H):
            H[v][v]["weight"] = rng.choice((0, 0, -1))
    return H


# With a native graph these always read the stored values, whatever weight= says.
STORED_ALWAYS = {"single_source_bellman_ford_path_length", "bellman_ford_path_length", "bellman_ford_path",
                 "all_pairs_bellman_ford_path_length", "negative_edge_cycle", "pagerank", "google_matrix",
                 "eigenvector_centrality", "katz_centrality", "mutual_weight"}


def draw(c, name, spec=None, relabel=None):
    rng = c.rng
    spec = spec or SPECS[name]
    d = rng.choice(spec.kinds) == "D"
    if spec.graph:
        G, info = spec.graph(rng, d)
    else:
        # long paths, high degrees and many triangles: beyond what the narrow integer types can count
        big = rng.random() < spec.big
        if big:
            c.large()
            c.ev("large_graph")
        G, info = make_graph(rng, d, weights=spec.weights, lo=spec.min_n, hi=spec.hi,
                             family=rng.choice(spec.bigfam or BIG) if big else None, cap=spec.cap,
                             n=rng.randint(spec.hi, 5 * spec.hi) if big else None)
    gs = [G]
    if spec.second:
        gs.append(second_graph(rng, spec, G, info))
    if relabel:
        gs, _ = relabel(gs)
    args, kw = spec.args(rng, gs[0]) if not spec.extra.get("args2") else spec.extra["args2"](rng, *gs)
    kw = dict(kw)
    if spec.wkw:
        if info["weights"] != "none" and rng.random() < 0.85:
            kw[spec.wkw] = "weight"
        elif spec.wdefault and rng.random() < 0.5:
            kw[spec.wkw] = None
    if spec.wkw and kw.get(spec.wkw) == "weight" and rng.random() < 0.2:
        kw[spec.wkw] = "cost"
        gs = [other_name(rng, g) for g in gs]
        c.ev("other_attribute_name")
    return spec, gs, info, args, kw


def other_name(rng, G):
    """The weights under another name; what is called "weight" now means nothing."""
    H = G.copy()
    decoy = rng.random() < 0.6
    for *_, d in H.edges(data=True):
        if "weight" in d:
            d["cost"] = d.pop("weight")
        if decoy and rng.random() < 0.7:
            d["weight"] = rng.choice((1, 2, 17, 0.5))
    return H


MODES = ("backend", "native", "direct")


def prepare(rng, spec, gs, info, kw, mode):
    """(callable graphs, context) for one way of handing the graphs to the code under test."""
    attr = kw.get(spec.wkw, spec.wdefault) if spec.wkw else None
    keeps = spec.group == "ops" or spec.name in ("hits", "ego_graph", "bethe_hessian_matrix", "tournament_matrix")
    ctx = oracle.context()
    if spec.name == "hits":
        attr = "weight"
    if mode == "backend":
        ctx.order = list(gs[0])
        ctx.stored = stored_of(gs[0], attr)
        ctx.topology = keeps and not attr and info["weights"] != "none"
        if len(gs) > 1:
            ctx.order2, ctx.stored2 = list(gs[1]), stored_of(gs[1], None)
        return list(gs), ctx
    ctx.topology = False
    use = attr if attr else ("weight" if info["weights"] != "none" else None)
    if not attr and spec.name in STORED_ALWAYS:
        use = None
    work = list(gs)
    if use is None and not keeps and spec.name not in STORED_ALWAYS and rng.random() < 0.35:
        work = [attach_weights(rng, g) for g in gs]
        use = "weight"
    out = []
    for g in work:
        if mode == "native":
            h = nx_to_ga(g, weight=use)
        else:
            ints = all_int(g, use) if use else True
            if not ints:
                dt = "float64"
            elif not use:
                dt = rng.choice(UNW_DTYPES) if not keeps and not spec.wkw and spec.group != "matrix" else \
                    rng.choice(("int64", "float64", "bool"))
            elif attr or keeps or spec.group == "matrix":
                dt = rng.choice(("int64", "float64"))
                if all(x.get(use, 1) == 1 for *_, x in g.edges(data=True)) and rng.random() < 0.4:
                    dt = "bool"
            else:
                big = any(abs(x.get(use, 1)) > 100 for *_, x in g.edges(data=True))
                neg = any(x.get(use, 1) < 0 for *_, x in g.edges(data=True))
                dt = rng.choice(["int64", "float64", "int32"] + ([] if big else ["int8", "float32"])
                                + ([] if big or neg else ["uint8", "uint64"]))
            forms = (None, None, "csr", "csc", "hypercsr", "hypercsc")
            if spec.group == "central" and dt != "float64":
                # SuiteSparse:GraphBLAS 8.2.1 ignores or misreads by-column operands that need a typecast
                # when it accumulates in place (see DESIGN.md); no graph made by this package is stored that way
                forms = (None, None, "csr", "hypercsr")
            vals = {x.get(use, 1) if use else 1 for *_, x in g.edges(data=True)}
            h = ga_graph(rng, g, weight=use, dtype=dt, iso=len(vals) == 1 and rng.random() < 0.6,
                         form=rng.choice(forms))
        out.append(h)
    ctx.order = ga_order(out[0])
    ctx.stored = stored_of(work[0], use)
    if len(out) > 1:
        ctx.order2, ctx.stored2 = ga_order(out[1]), stored_of(work[1], use)
    return out, ctx


def plain_graph(r):
    if isinstance(r, dict) and set(r) == {"directed", "nodes", "edges"}:
        return {**r, "edges": dict.fromkeys(r["edges"], 1)}
    return r


def fix_missing(raw, value, ctx):
    from graphblas import Matrix

    from .canon import dense

    if ctx.missing and isinstance(raw, Matrix):
        return dense(raw, ctx.missing)
    return value


def invoke(name, mode, graphs, args, kw):
    a = [fresh(x) for x in args]
    k = {key: fresh(v) for key, v in kw.items()}
    if mode == "backend":
        r = nx_public(name)(*graphs, *a, **k, backend="graphblas")
    elif mode == "reference":
        r = nx_public(name)(*graphs, *a, **k)
    else:
        r = getattr(Dispatcher, name)(*graphs, *a, **k)
    if hasattr(r, "__next__"):
        r = list(r)
    return r


def respell(rng, name, graphs, args, kw):
    """The same call with more arguments by position, or more by keyword (networkx's own names and order)."""
    ps = list(inspect.signature(nx_func(name).orig_func).parameters.values())[graphs:]
    if any(p.kind is not p.POSITIONAL_OR_KEYWORD for p in ps):
        return args, kw
    if rng.random() < 0.5:
        k = rng.randint(0, len(args))
        return args[:k], {**{p.name: a for p, a in zip(ps[k:], args[k:])}, **kw}
    named = [p.name for p in ps]
    last = max((named.index(k) for k in kw), default=-1)
    rest = ps[len(args):last + 1]
    if any(p.name not in kw and p.default is p.empty for p in rest):
        return args, kw
    return (*args, *(kw[p.name] if p.name in kw else p.default for p in rest)), {}


def expected(name, spec, gs, args, kw, ctx):
    f = oracle.ORACLE.get(name)
    if f is not None:
        return f(gs, args, kw, ctx)
    try:
        r = canon(invoke(name, "reference", gs, args, kw))
    except Exception as e:
        return "raise", (type(e),)
    return "value", spec.post(r) if spec.post else r


def judge(c, name, spec, raw, exc, want, ctx, where):
    """Online verdict on one observed call."""
    kind, val = want
    tag = f"{name}"
    if kind == "raise":
        if exc is None:
            c.fail(f"{tag}:no-exception", f"{where}: returned {str(raw)[:200]} instead of raising {val[0].__name__}")
        if not isinstance(exc, val):
            c.fail(f"{tag}:wrong-exception", f"{where}: raised {type(exc).__name__}: {exc} instead of {val[0].__name__}")
        return
    if exc is not None:
        import traceback

        c.fail(f"{tag}:raised:{type(exc).__name__}", f"{where}: {type(exc).__name__}: {exc}",
               traceback="".join(traceback.format_exception(exc))[-2500:])
    got = fix_missing(raw, canon(raw), ctx)
    if spec.post:
        got = spec.post(got)
    if kind == "check":
        d = val(got)
    else:
        if ctx.topology:
            val, got = plain_graph(val), plain_graph(got)
        d = diff(val, got, spec.rtol if ctx.rtol is None else ctx.rtol, spec.atol if ctx.atol is None else ctx.atol)
    if d:
        (c.soft if ctx.mech else c.fail)(ctx.mech or f"{tag}:wrong-result", f"{where}: expected vs got {d}")


ALLOWED_FAILURES = {
    "pagerank": (nx.PowerIterationFailedConvergence,),
    "eigenvector_centrality": (nx.PowerIterationFailedConvergence,),
    "katz_centrality": (nx.PowerIterationFailedConvergence,),
}
try:
    from scipy.sparse.linalg import ArpackNoConvergence

    ALLOWED_FAILURES["hits"] = (ArpackNoConvergence,)
except ImportError:
    pass


READS = ("AT", "offdiag", "U+", "L+", "U-", "L-", "diag", "degrees+", "degrees-", "row_degrees+", "row_degrees-",
         "column_degrees+", "column_degrees-", "total_degrees+", "total_degrees-", "recip_degrees+", "recip_degrees-",
         "total_recip+", "total_recip-", "has_self_edges", "is_iso", "iso_value", "has_negative_diagonal",
         "has_negative_edges+", "has_negative_edges-", "max_element-", "max_element+", "min_element-",
         "plus_rowwise+", "plus_rowwise-", "plus_columnwise+", "min_diagonal", "count_element-")


def read_before(c, graphs):
    """Derived properties that happen to be known already when the call is made."""
    names = c.rng.sample(READS, c.rng.randint(1, 3))
    for g in graphs:
        if not isinstance(g, nx.Graph):
            for r in names:
                try:
                    g.get_property(r)
                except KeyError:  # not a property of this class
                    continue
                c.ev("read_before")
    c.say(f"read before the call: {names}")


def one_call(c, name, spec=None, modes=MODES):
    spec, gs, info, args, kw = draw(c, name, spec)
    mode = c.rng.choice(modes)
    graphs, ctx = prepare(c.rng, spec, gs, info, kw, mode)
    c.say(f"{name} via {mode} on {' and '.join(describe(g) for g in gs)} args={args!r} kw={kw!r}")
    if mode == "direct":
        c.say(f"stored dtype {graphs[0].matrix.dtype}, order {ctx.order!r}")
    if mode != "backend" and c.rng.random() < 0.3:
        read_before(c, graphs)
    want = expected(name, spec, gs, args, kw, ctx)
    if ctx.settles and c.rng.random() < 0.12:
        x = ctx.settles.limit()
        if x is not None:  # starting from the answer, a few rounds at a loose tolerance are enough
            kw = {**kw, "nstart": DictArg(dict(zip(gs[0], x.tolist()))), "tol": c.rng.choice((1e-4, 1e-6)),
                  "max_iter": c.rng.randint(3, 5)}
            ctx.settles = ctx.rtol = ctx.atol = None
            want = expected(name, spec, gs, args, kw, ctx)
            c.say(f"warm start: {kw!r}")
            c.ev(f"warm:{name}")
    c.ev(f"call:{name}")
    c.ev(f"mode:{mode}")
    if want[0] == "skip":
        c.ev(f"unspecified:{name}")
    raw = exc = None
    extra = {}
    if spec.extra.get("chunk") and c.rng.random() < 0.4:  # the backend's own option: computing in pieces
        extra["chunksize"] = c.rng.choice((1, 2, 3, 5, len(gs[0]) // 2 + 1, "2 chunks", "3 chunks", None, "all"))
        c.say(f"in pieces: {extra!r}")
        c.ev("chunked")
    cargs, ckw = args, kw
    if c.rng.random() < 0.15:
        cargs, ckw = respell(c.rng, name, len(graphs), args, kw)
        if (cargs, ckw) != (args, kw):
            c.say(f"spelled: args={cargs!r} kw={ckw!r}")
            c.ev("respelled")
    try:
        raw = invoke(name, mode, graphs, cargs, {**ckw, **extra})
    except Exception as e:
        exc = e
    if want[0] == "skip":
        return
    if exc is not None and isinstance(exc, ALLOWED_FAILURES.get(name, ())):
        c.ev(f"gave_up:{name}")
        if ctx.settles:
            k = ctx.settles()
            limit = kw.get("max_iter", 1000 if name == "katz_centrality" else 100)
            c.check(k is None or k > limit - 2, f"{name}:gave-up",
                    lambda: f"{name} via {mode} gave up after {limit} rounds, {k} are enough")
            c.judged((name, mode, "gave up", info["n"], info["m"], repr(kw)))
        return
    if exc is None and ctx.settles and kw.get("max_iter", 100) < 100:
        k = ctx.settles()
        c.check(k is not None, f"{name}:settled-early",
                lambda: f"{name} via {mode} answered within {kw['max_iter']} rounds, the iteration needs more")
    if want[0] == "raise":
        c.ev("expected_exception")
    c.judged((name, mode, info["family"], info["labels"], info["weights"], info["n"], info["m"], info["loops"],
              repr(args), sorted(map(repr, kw.items())), sorted(map(repr, gs[0].edges))[:40]),
             info["m"] > 0)
    where = f"{name} via {mode}"
    judge(c, name, spec, raw, exc, want, ctx, where)
    return True
