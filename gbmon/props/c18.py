"""Calls never modify the graph, its arguments or earlier results."""
import copy
from collections.abc import MutableMapping, MutableSet

from .. import arrays, diffs
from ..build import entries, ga_graph, nx_to_ga
from ..canon import canon, diff
from ..catalog import SPECS, Lazy, nx_public
from ..env import Dispatcher, ga, gb, nx, np
from ..gen import describe, make_graph
from ..meta import CHOICE, disagreement, observe
from .c03 import READS, derive, plan_call, recipe

from graphblas_algorithms.classes.nodemap import NodeMap, NodeNodeMap, VectorNodeMap
from graphblas_algorithms.classes.nodeset import NodeSet

ID = "C18"
CASES = {"quick": 16000, "thorough": 150000}
RULE = ("a case builds a native graph, a networkx copy of it (with node, edge and graph attributes) and a second graph, "
        "and makes 4-14 random calls (all 81 functions, natively, through the namespace on the networkx graph, or by "
        "dispatch), derived graphs and conversions. Around every call the raw contents of all graphs and of every "
        "container argument are compared, all earlier results are re-read, and derived properties are compared with "
        "those of a fresh graph; returned maps, sets, graphs, matrices and arrays are modified at random, after which "
        "graphs, other results and repeated calls must be unaffected. A quarter of the cases makes 3-8 array-level calls "
        "(algorithms, linalg, generators; 55 functions) with start vectors, personalizations, masks, node-set vectors, "
        "permutations and id lists, and holds vectors, matrices and yielded items to the same rules. Distinct by "
        "(function, way, previous calls, graph)")
EXPECT = {"call": 40000, "argument": 8000, "result_reread": 100000, "mutated": 8000, "mutated:NodeMap": 800,
          "mutated:NodeSet": 300, "mutated:graph": 800, "mutated:matrix": 500, "recall": 2000, "property": 20000,
          "derived": 1000, "array:call": 8000, "array:argument": 5000, "array:mutated": 1500, "array:reread": 15000}
ASSUMPTIONS = ["Graph(matrix) keeps the given matrix and get_property returns the stored value itself: both documented "
               "as not copying, so modifying those objects is not driven"]


# ------------------------------------------------------------------ arguments
def build_arg(x):
    """The concrete argument and a function telling whether it changed."""
    if isinstance(x, Lazy):
        v = x.make()
        if hasattr(v, "__next__"):
            return v, None
        if isinstance(v, dict):
            before = list(v.items())
            return v, lambda: list(v.items()) == before
        if isinstance(v, list):
            before, deep = list(v), [(list(y) if isinstance(y, (list, tuple)) else set(y)) for y in v
                                     if isinstance(y, (list, set, tuple))] if any(isinstance(y, Lazy) for y in x.items) else None
            if deep is not None:
                return v, lambda: len(v) == len(before) and all(a is b for a, b in zip(v, before)) and deep == [
                    (list(y) if isinstance(y, (list, tuple)) else set(y)) for y in v]
            return v, lambda: v == before
        if isinstance(v, set):
            before = set(v)
            return v, lambda: v == before
        return v, None
    if isinstance(x, list):
        v = list(x)
        before = list(x)
        return v, lambda: v == before
    return x, None


def nx_state(G):
    return (type(G), {n: dict(d) for n, d in G.nodes(data=True)}, [(u, v, dict(d)) for u, v, d in G.edges(data=True)],
            copy.deepcopy(G.graph), list(G))


def ga_state(G):
    A = G.matrix
    return (type(G), entries(A), A.shape, A.dtype, dict(G.graph), list(G), len(G), G.is_directed())


def same_entries(a, b):
    return a == b or repr(a) == repr(b)


# ------------------------------------------------------------------ results
def parts(raw):
    """The objects a caller can hold on to and change."""
    if isinstance(raw, tuple):
        for x in raw:
            yield from parts(x)
    elif isinstance(raw, list) and raw and isinstance(raw[0], tuple) and isinstance(raw[0][-1], MutableMapping):
        yield raw
        for x in raw:
            yield x[-1]
    elif isinstance(raw, (MutableMapping, MutableSet, list, ga.Graph, ga.DiGraph, gb.Matrix, gb.Vector, np.ndarray, nx.Graph)):
        yield raw


def change(rng, x, nodes):
    """Modify a returned object; -> what was done, or None."""
    if isinstance(x, (NodeNodeMap, VectorNodeMap)):
        kind = type(x).__name__
        keys = list(x)
        if not keys:
            return None
        k = rng.choice(keys)
        how = rng.choice(("del", "clear", "row"))
        if how == "del":
            del x[k]
        elif how == "clear":
            x.clear()
        elif isinstance(x, NodeNodeMap):
            x[k] = x[rng.choice(keys)]
            return kind
        else:
            x.pop(k)
        return kind
    if isinstance(x, NodeMap):
        keys = list(x)
        if not keys:
            return None
        k = rng.choice(keys)
        how = rng.choice(("set", "set", "del", "clear", "update", "popitem"))
        if how == "set":
            x[k] = x[rng.choice(keys)] if rng.random() < 0.3 else 1
        elif how == "del":
            del x[k]
        elif how == "clear":
            x.clear()
        elif how == "update":
            x.update(dict.fromkeys(rng.sample(keys, (len(keys) + 1) // 2), 1))
        else:
            try:
                x.popitem()
            except KeyError:  # only defaults are left in a map with a default
                return None
        return "NodeMap"
    if isinstance(x, NodeSet):
        how = rng.choice(("add", "add", "discard", "clear", "pop"))
        if how == "add":
            for v in rng.sample(nodes, min(3, len(nodes))):
                x.add(v)
        elif how == "discard":
            for v in list(x)[:2]:
                x.discard(v)
        elif how == "clear":
            x.clear()
        elif len(x):
            x.pop()
        return "NodeSet"
    if isinstance(x, (ga.Graph, ga.DiGraph)):
        A = x.matrix
        n = A.nrows
        if n and A.nvals and rng.random() < 0.7:
            how = rng.choice(("edge", "clear", "drop", "all"))
            if how == "edge":
                A[rng.randrange(n), rng.randrange(n)] << 1
            elif how == "clear":
                A.clear()
            elif how == "drop":
                i, j, _ = A.to_coo()
                k = rng.randrange(len(i))
                del A[int(i[k]), int(j[k])]
            else:
                A[:, :] = 1
        else:
            x.graph["touched"] = True
            x.name = "touched"
        return "graph"
    if isinstance(x, gb.Matrix):
        if not x.nrows:
            return None
        how = rng.choice(("clear", "all", "one"))
        if how == "clear":
            x.clear()
        elif how == "all":
            x[:, :] = 1
        else:
            x[0, rng.randrange(x.ncols)] = 1
        return "matrix"
    if isinstance(x, gb.Vector):
        x.clear()
        return "vector"
    if isinstance(x, np.ndarray):
        if not x.flags.writeable or not x.size:
            return None
        x[...] = 1
        return "array"
    if isinstance(x, nx.Graph):
        x.clear()
        return "nxgraph"
    if isinstance(x, (dict, set, list)):
        x.clear()
        return "container"
    return None


def snap(raw):
    return canon(raw)


def case(c):
    if c.idx % 4 == 1:
        return arrays.case(c)
    rng = c.rng
    d = rng.random() < 0.5
    G, info, make = recipe(c, rng, d)
    H = make_graph(rng, d, n=info["n"], labels="range", weights="none")[0]
    H = nx.relabel_nodes(H, dict(zip(sorted(H), G)))
    if rng.random() < 0.4:
        H = nx.relabel_nodes(H, {v: ("H", v) for v in H})
    nodes = list(G)
    shared, sharedH = make(), nx_to_ga(H)
    shared.graph["kept"] = ["x"]
    nxG, nxH = G.copy(), H.copy()
    nxG.graph["title"] = ["deep", {"a": 1}]
    watched = {"native graph": (shared, ga_state), "second native graph": (sharedH, ga_state),
               "networkx graph": (nxG, nx_state), "second networkx graph": (nxH, nx_state)}
    before = {k: f(g) for k, (g, f) in watched.items()}
    results = []  # [label, raw, canonical]
    answers = {}
    pool, hist = [], []

    def verify(after):
        for k, (g, f) in watched.items():
            now = f(g)
            if now != before[k] and repr(now) != repr(before[k]):
                c.fail("graph-changed", f"{after} changed the {k}: {before[k]!r} -> {now!r}"[:1500])
        for label, raw, was in results if len(results) < 7 else rng.sample(results, 6):
            now = snap(raw)
            c.ev("result_reread")
            dd = diff(was, now, 0, 0)
            c.check(not dd, "result-changed", lambda: f"{after} changed the earlier result of {label}: {dd}")

    def properties(after):
        fresh = make()
        for name in rng.sample(READS, 3):
            try:
                want = fresh.get_property(name)
            except KeyError:
                continue
            got = shared.get_property(name)
            c.ev("property")
            dd = diff(canon(want), canon(got), 1e-12, 1e-12)
            c.check(not dd, f"property-changed:{name}", lambda: f"after {after}, {name}: fresh against used graph: {dd}")

    for step in range(rng.randint(4, 14)):
        x = rng.random()
        if x < 0.25 and results:  # change something returned earlier
            label, raw, _ = entry = rng.choice(results)
            objs = list(parts(raw))
            objs = [o for o in objs if not any(o is r for e in results if e is not entry for r in parts(e[1]))]
            if not objs:
                continue
            what = change(rng, rng.choice(objs), nodes)
            if what is None:
                continue
            c.ev("mutated")
            c.ev(f"mutated:{what}")
            results.remove(entry)
            c.say(f"change the {what} returned by {label}")
            hist.append(f"changed {label}")
            verify(f"changing the {what} returned by {label}")
            properties(f"changing the {what} returned by {label}")
            c.judged(("mutate", label, what, tuple(hist[-3:]), info["n"], info["m"]), info["m"] > 0)
            continue
        if x < 0.34:  # a derived graph or a conversion
            k = rng.random()
            if k < 0.7:
                how, f = derive(rng, G)
                if "without copy" in how:
                    continue
                r = f(shared)
            elif k < 0.85:
                how, r = "to_networkx", shared.to_networkx()
            else:
                how, r = "from_networkx", nx_to_ga(nxG, weight="weight" if info["weights"] != "none" else None)
            c.check(r is not shared, "aliased-graph", f"{how} returned the graph itself")
            c.say(how)
            c.ev("derived")
            verify(how)
            results.append((how, r, snap(r)))
            hist.append(how)
            continue
        call = plan_call(c, rng, G, info, H, pool)
        if call is None:
            continue
        name, args, kw, second = call
        way = rng.choices(("native", "nxapi", "backend"), weights=(7, 2, 1))[0]
        gs = [shared] if way == "native" else [nxG]
        if second:
            gs.append(sharedH if way == "native" else nxH)
        built = [build_arg(a) for a in args]
        bkw = {k: build_arg(v) for k, v in kw.items()}
        a, k = [b[0] for b in built], {n: b[0] for n, b in bkw.items()}
        c.say(f"{name} via {way} args={args!r} kw={kw!r}")
        c.ev("call")
        c.ev(f"call:{name}")

        def inv(nm, mode, graphs, _a, _k):
            r = nx_public(nm)(*graphs, *a, **k, backend="graphblas") if way == "backend" else \
                getattr(Dispatcher, nm)(*graphs, *a, **k)
            return list(r) if hasattr(r, "__next__") else r

        o = observe(name, way, gs, args, kw, invoke=inv)
        for b, shown in [*zip(built, args), *((bkw[n], f"{n}={v!r}") for n, v in kw.items())]:
            if b[1] is not None:
                c.ev("argument")
                c.check(b[1](), f"{name}:argument-changed", lambda: f"{name} changed its argument {shown!r} to {b[0]!r}")
        verify(f"{name} via {way}")
        key = (name, way, repr(args), repr(sorted(kw.items(), key=str)))
        if name not in CHOICE:
            if key in answers:
                c.ev("recall")
                dd = disagreement(name, answers[key], o, kw)
                c.check(not dd, f"{name}:answer-changed", lambda: f"{name} answers differently after {hist[-8:]}: {dd}")
            else:
                answers[key] = o
                if o.exc is None:
                    o.value = copy.deepcopy(o.value)
        if rng.random() < 0.3:
            properties(name)
        if o.exc is None:
            for part in parts(o.raw):
                for k2, (g, _) in watched.items():
                    c.check(part is not g and (not hasattr(part, "matrix") or not hasattr(g, "matrix") or part.matrix is not g.matrix),
                            f"{name}:aliased-graph", lambda: f"{name} returned the {k2} itself")
                for n2, b in [*zip(args, built), *((n, bkw[n]) for n in kw)]:
                    c.check(part is not b[0] or not isinstance(part, (dict, set, list)), f"{name}:aliased-argument",
                            lambda: f"{name} returned its own argument {n2!r}")
            results.append((f"{name} via {way} (call {step})", o.raw, snap(o.raw)))
        c.judged((name, way, tuple(hist[-2:]), repr(args), sorted(map(repr, G.edges))[:25]), info["m"] > 0)
        hist.append(name)
