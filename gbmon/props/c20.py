"""Label and vector translation round-trips exactly."""
from ..canon import num_eq
from ..env import ga, gb, np
from ..gen import make_labels
from .c04 import FOREIGN, same, vec_of

from graphblas import Matrix, Vector
from graphblas_algorithms.classes.nodemap import NodeMap, NodeNodeMap, VectorMap, VectorNodeMap
from graphblas_algorithms.classes.nodeset import NodeSet

ID = "C20"
CASES = {"quick": 140000, "thorough": 2500000}
RULE = ("a case makes a graph (or a map or set) whose label order is unrelated to the storage order, then runs a random history of "
        "translations between labels and vectors, masks, ids, lists, sets, dicts, maps and nested dicts, each compared with the plain "
        "Python meaning. Non-trivial: at least one label was translated; distinct by (translation, options, labels, contents)")
EXPECT = {"translate": 40000, "round_trip": 3000, "foreign": 1500, **{f"do:{k}": 500 for k in (
    "dict_to_vector", "list_to_vector", "list_to_ids", "list_to_mask", "set_to_vector", "vector_to_dict", "vector_to_list",
    "vector_to_nodemap", "vector_to_set", "matrix_to_dicts", "matrix_to_map", "renumber", "none")}}
ASSUMPTIONS = ["with a mask, the vector given has no entries outside the mask", "lists given to list_to_vector have no duplicates"]
DT = {"FP64": (0.0, 1.5, -2.25, 7.0, 1e9, float("inf")), "INT64": (0, 1, -3, 5, 2**40), "UINT8": (0, 1, 200), "BOOL": (True, False)}


class World:
    def __init__(self, c):
        rng = self.rng = c.rng
        self.c = c
        self.n = rng.choice((1, 2, 3, 4, 5, 7, 10, 16))
        _, self.nodes = make_labels(rng, self.n)
        o = list(range(self.n))
        if rng.random() < 0.8:
            rng.shuffle(o)
        self.ids = dict(zip(self.nodes, o))
        self.back = {i: k for k, i in self.ids.items()}
        kind = rng.choice(("Graph", "DiGraph", "Graph", "NodeMap", "NodeSet", "VectorNodeMap", "NodeNodeMap"))
        n = self.n
        ids = dict(self.ids)
        if kind in ("Graph", "DiGraph"):
            self.obj = getattr(ga, kind)(Matrix("FP64", n, n), key_to_id=ids)
        elif kind == "NodeMap":
            self.obj = NodeMap(Vector("FP64", n), key_to_id=ids)
        elif kind == "NodeSet":
            self.obj = NodeSet(Vector(bool, n), key_to_id=ids)
        elif kind == "VectorNodeMap":
            self.obj = VectorNodeMap(Matrix("FP64", n, n), key_to_id=ids)
        else:
            self.obj = NodeNodeMap(Matrix("FP64", n, n), key_to_id=ids)
        self.kind = kind
        self.graph = kind in ("Graph", "DiGraph")
        # size defaults to len(object): only a graph's length is its number of nodes
        self.size = {} if self.graph else {"size": n}
        c.say(f"{kind} ids={self.ids!r}")

    def some(self, lo=0):
        k = self.rng.randint(min(lo, self.n), self.n)
        return self.rng.sample(self.nodes, k)

    def foreign(self):
        self.c.ev("foreign")
        return self.rng.choice([f for f in FOREIGN if f not in self.ids])

    def read(self, v):
        i, x = v.to_coo()
        return dict(zip(i.tolist(), x.tolist()))

    def vector(self, content, dt):
        return vec_of(self.rng, content, self.ids, self.n, dt)

    def content(self, dt, lo=0):
        return {k: self.rng.choice(DT[dt]) for k in self.some(lo)}

    def eq(self, what, got, want):
        ok = got.keys() == want.keys() and all(same(got[k], want[k]) for k in want) and len(got) == len(want)
        self.c.check(ok, what, lambda: f"{got!r} instead of {want!r}")

    def raises(self, what, exc, f):
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            self.c.fail(what, f"{type(e).__name__}: {e} instead of {exc.__name__}")
        self.c.fail(what, f"no {exc.__name__}, but {r!r}")


def do_dict_to_vector(w):
    rng = w.rng
    dt = rng.choice(list(DT))
    d = w.content(dt)
    explicit = rng.random() < 0.6 or not d
    size = w.size or ({"size": w.n + 3} if rng.random() < 0.1 else {})
    if rng.random() < 0.2 and d:
        f = w.foreign()
        items = list(d.items())
        items.insert(rng.randint(0, len(items)), (f, items[0][1]))
        w.raises("dict_to_vector:foreign", KeyError, lambda: w.obj.dict_to_vector(dict(items), **size))
        return ("foreign", f, d)
    v = w.obj.dict_to_vector(d, **size, **({"dtype": getattr(gb.dtypes, dt)} if explicit else {}))
    w.c.check(v.size == size.get("size", w.n), "dict_to_vector:size", lambda: f"{v.size}")
    if explicit:
        w.c.check(str(v.dtype) == dt, "dict_to_vector:dtype", lambda: f"{v.dtype} instead of {dt}")
    w.eq("dict_to_vector", w.read(v), {w.ids[k]: x for k, x in d.items()})
    if not size or w.size:
        w.c.ev("round_trip")
        w.eq("dict_to_vector:back", w.obj.vector_to_dict(v), d)
    return (d, dt)


def do_list_to_vector(w):
    rng = w.rng
    nodes = w.some()
    size = w.size
    if rng.random() < 0.2:
        bad = nodes + [w.foreign()]
        rng.shuffle(bad)
        w.raises("list_to_vector:foreign", KeyError, lambda: w.obj.list_to_vector(bad, **size))
        return ("foreign", bad)
    x = rng.random()
    if x < 0.4:
        v = w.obj.list_to_vector(nodes if rng.random() < 0.6 else iter(nodes), **size)
        want = dict.fromkeys(nodes, True)
        dt = "BOOL"
    elif x < 0.6:
        dt = rng.choice(("INT64", "FP64", "BOOL"))
        val = rng.choice(DT[dt])
        v = w.obj.list_to_vector(nodes, dt, values=val, **size)
        want = dict.fromkeys(nodes, val)
    else:
        dt = rng.choice(("INT64", "FP64"))
        vals = [rng.choice(DT[dt]) for _ in nodes]
        v = w.obj.list_to_vector(nodes, dt, values=vals if vals else True, **size)
        want = dict(zip(nodes, vals))
    w.c.check(v.size == w.n, "list_to_vector:size", lambda: f"{v.size}")
    w.eq("list_to_vector", w.read(v), {w.ids[k]: q for k, q in want.items()})
    if nodes:
        w.c.check(str(v.dtype) == dt, "list_to_vector:dtype", lambda: f"{v.dtype} instead of {dt}")
    if x < 0.4:
        w.c.ev("round_trip")
        got = w.obj.vector_to_list(v)
        w.c.check(got == sorted(nodes, key=w.ids.__getitem__), "vector_to_list", lambda: f"{got!r} from {nodes!r}")
    return (want,)


def do_list_to_mask(w):
    nodes = w.some()
    if w.rng.random() < 0.15:
        bad = nodes + [w.foreign()]
        w.raises("list_to_mask:foreign", KeyError, lambda: w.obj.list_to_mask(bad, **w.size))
        return ("foreign", bad)
    m = w.obj.list_to_mask(nodes, **w.size)
    u = Vector(int, w.n)
    u(m) << 1
    w.eq("list_to_mask", w.read(u), {w.ids[k]: 1 for k in nodes})
    u = Vector(int, w.n)
    u(~m) << 1
    w.eq("list_to_mask:complement", w.read(u), {i: 1 for i in range(w.n)} if not nodes else
         {i: 1 for i in range(w.n) if w.back[i] not in nodes})
    return (nodes,)


def do_list_to_ids(w):
    rng = w.rng
    nodes = [rng.choice(w.nodes) for _ in range(rng.randint(0, w.n + 2))]
    if rng.random() < 0.15:
        bad = nodes + [w.foreign()]
        w.raises("list_to_ids:foreign", KeyError, lambda: w.obj.list_to_ids(bad))
        return ("foreign", bad)
    a = w.obj.list_to_ids(nodes if rng.random() < 0.7 else iter(nodes))
    w.c.check(a.tolist() == [w.ids[k] for k in nodes] and a.dtype == np.uint64, "list_to_ids", lambda: f"{a!r} from {nodes!r}")
    back = w.obj.list_to_keys(a.tolist() if rng.random() < 0.5 else a)
    w.c.ev("round_trip")
    w.c.check(back == nodes, "list_to_keys", lambda: f"{back!r} instead of {nodes!r}")
    w.raises("list_to_keys:outside", KeyError, lambda: w.obj.list_to_keys([0, w.n + 1]))
    return (nodes,)


def do_set_to_vector(w):
    rng = w.rng
    nodes = w.some()
    extra = []
    form = rng.choice((set, list, frozenset, tuple, iter, lambda x: dict.fromkeys(x).keys()))
    if rng.random() < 0.5:
        extra = [w.foreign()]
    ign = rng.random() < 0.5
    src = form(nodes + extra)
    keep = set(src) if isinstance(src, set) else None
    if extra and not ign:
        w.raises("set_to_vector:foreign", KeyError, lambda: w.obj.set_to_vector(src, **w.size))
        return ("foreign", nodes)
    dt = rng.choice((bool, bool, "INT64"))
    v = w.obj.set_to_vector(src, dt, ignore_extra=ign, **w.size) if dt is not bool or ign or rng.random() < 0.5 else \
        w.obj.set_to_vector(src, **w.size)
    w.c.check(v.size == w.n, "set_to_vector:size", lambda: f"{v.size}")
    w.eq("set_to_vector", w.read(v), {w.ids[k]: 1 for k in nodes})
    w.c.check(str(v.dtype) == ("BOOL" if dt is bool else "INT64"), "set_to_vector:dtype", lambda: f"{v.dtype}")
    if keep is not None:
        w.c.check(src == keep, "set_to_vector:argument", "the set given was changed")
    w.c.ev("round_trip")
    got = w.obj.vector_to_set(v)
    w.c.check(type(got) is set and got == set(nodes), "vector_to_set", lambda: f"{got!r} instead of {nodes!r}")
    ns = w.obj.vector_to_nodeset(v)
    w.c.check(isinstance(ns, NodeSet) and set(ns) == set(nodes) and len(ns) == len(nodes) and all(k in ns for k in nodes),
              "vector_to_nodeset", lambda: f"{set(ns)!r} instead of {nodes!r}")
    return (nodes, ign, bool(extra))


def masked(w, content):
    """A structural mask that covers the vector's entries."""
    nodes = set(w.some()) | set(content)
    x = w.rng.random()
    vals = True if x < 0.6 else [w.rng.random() < 0.5 for _ in nodes]
    m = Vector.from_coo([w.ids[k] for k in nodes], vals if nodes else True, size=w.n, dtype=bool)
    return nodes, m.S


def do_vector_to_dict(w, nodemap=False):
    rng = w.rng
    dt = rng.choice(("FP64", "INT64", "UINT8"))
    content = w.content(dt)
    v = w.vector(content, dt)
    kw, want = {}, dict(content)
    x = rng.random()
    fill = rng.choice((None, *[f for f in DT[dt] if f == f and f != float("inf")]))
    if x < 0.4:
        nodes, m = masked(w, content)
        kw["mask"] = m
        if fill is not None:
            kw["fill_value"] = fill
            want = {k: content.get(k, fill) for k in nodes}
    elif x < 0.75 and fill is not None:
        kw["fill_value"] = fill
        want = {k: content.get(k, fill) for k in w.nodes}
    got = (w.obj.vector_to_nodemap if nodemap else w.obj.vector_to_dict)(v, **kw)
    what = "vector_to_nodemap" if nodemap else "vector_to_dict"
    if nodemap:
        w.c.check(isinstance(got, NodeMap), what, lambda: f"{type(got)!r}")
        for k in w.nodes:
            w.c.check((k in got) is (k in want), what, lambda: f"{k!r} in -> {k in got}, contents {want!r}")
            w.c.check(same(got.get(k, "absent"), want.get(k, "absent")), what, lambda: f"get({k!r}) -> {got.get(k)!r}, contents {want!r}")
    else:
        w.c.check(type(got) is dict, what, lambda: f"{type(got)!r}")
    w.eq(what, got, want)
    return (content, want, "mask" in kw, fill)


def do_vector_to_nodemap(w):
    if w.rng.random() < 0.3:  # values are nodes
        d = {k: w.rng.choice(w.nodes) for k in w.some()}
        v = w.vector({k: w.ids[x] for k, x in d.items()}, "INT64")
        m = w.obj.vector_to_nodemap(v, values_are_keys=True)
        w.eq("vector_to_nodemap:keys", m, d)
        ls = w.obj.vector_to_list(v, values_are_keys=True)
        want = [d[k] for k in sorted(d, key=w.ids.__getitem__)]
        w.c.check(ls == want, "vector_to_list:keys", lambda: f"{ls!r} instead of {want!r}")
        return (d,)
    return do_vector_to_dict(w, True)


def do_vector_to_list(w):
    content = w.content("INT64")
    v = w.vector(content, "INT64")
    got = w.obj.vector_to_list(v)
    want = sorted(content, key=w.ids.__getitem__)
    w.c.check(got == want, "vector_to_list", lambda: f"{got!r} instead of {want!r}")
    return (want,)


def do_vector_to_set(w):
    content = w.content(w.rng.choice(list(DT)))
    v = w.vector(content, "FP64")
    got = w.obj.vector_to_set(v)
    w.c.check(got == set(content), "vector_to_set", lambda: f"{got!r} instead of {set(content)!r}")
    return (sorted(map(repr, content)),)


def matrix(w, keys=False):
    rng = w.rng
    dt = "INT64" if keys else rng.choice(("FP64", "INT64", "BOOL"))
    q = rng.choice((0.0, 0.2, 0.6, 1.0))
    one = rng.choice(w.nodes if keys else DT[dt]) if rng.random() < 0.4 else None
    rows = {}
    for a in w.nodes:
        if rng.random() < 0.7:
            row = {b: one if one is not None else rng.choice(w.nodes if keys else DT[dt]) for b in w.nodes if rng.random() < q}
            if row:
                rows[a] = row
    r, k, v = [], [], []
    for a, row in rows.items():
        for b, x in row.items():
            r.append(w.ids[a]), k.append(w.ids[b]), v.append(w.ids[x] if keys else x)
    if not r:
        return Matrix(dt, w.n, w.n), rows
    iso = one is not None and rng.random() < 0.7
    A = Matrix.from_coo(r, k, v[0] if iso else v, nrows=w.n, ncols=w.n, dtype=dt)
    return A, rows


def do_matrix_to_dicts(w):
    rng = w.rng
    keys = rng.random() < 0.3
    A, rows = matrix(w, keys)
    before = A.dup()
    ri, ci = rng.random() < 0.35, rng.random() < 0.35
    arg = A
    if rng.random() < 0.35:
        arg = A.T
        t = {}
        for a, row in rows.items():
            for b, x in row.items():
                t.setdefault(b, {})[a] = x
        rows = t
    got = w.obj.matrix_to_dicts(arg, use_row_index=ri, use_column_index=ci, values_are_keys=keys) if ri or ci or keys else \
        w.obj.matrix_to_dicts(arg)
    want = {(w.ids[a] if ri else a): {(w.ids[b] if ci else b): x for b, x in row.items()} for a, row in rows.items()}
    w.c.check(got.keys() == want.keys(), "matrix_to_dicts", lambda: f"{got!r} instead of {want!r}")
    for a in want:
        w.eq("matrix_to_dicts", got[a], want[a])
    w.c.check(A.isequal(before, check_dtype=True), "matrix_to_dicts:argument", "the matrix given was changed")
    return (want, ri, ci, keys)


def do_matrix_to_map(w):
    rng = w.rng
    if not w.graph:
        return do_matrix_to_dicts(w)
    if rng.random() < 0.35:
        A, rows = matrix(w)
        m = w.obj.matrix_to_vectornodemap(A)
        w.c.check(isinstance(m, VectorNodeMap) and m.keys() == rows.keys() and len(m) == len(rows), "matrix_to_vectornodemap",
                  lambda: f"{list(m)!r} instead of {list(rows)!r}")
        for a in rows:
            w.eq("matrix_to_vectornodemap", m[a], {w.ids[b]: x for b, x in rows[a].items()})
        return ("vectors", rows)
    keys = rng.random() < 0.3
    A, rows = matrix(w, keys)
    kw = {"values_are_keys": True} if keys else {}
    want = rows
    if not keys and rng.random() < 0.4:
        f = kw["fill_value"] = rng.choice((0, 1, 7))
        want = {a: {b: rows.get(a, {}).get(b, f) for b in w.nodes} for a in w.nodes}
    m = w.obj.matrix_to_nodenodemap(A, **kw)
    w.c.check(isinstance(m, NodeNodeMap) and m.keys() == want.keys() and len(m) == len(want), "matrix_to_nodenodemap",
              lambda: f"{list(m)!r} instead of {list(want)!r}")
    for a in want:
        w.eq("matrix_to_nodenodemap", m[a], want[a])
    return ("nodes", want, sorted(kw))


def do_renumber(w):
    if not w.graph:
        return do_list_to_ids(w)
    nodes = w.some()
    idx = [w.ids[k] for k in nodes]
    got = w.obj.renumber_key_to_id(idx if w.rng.random() < 0.5 else np.array(idx, dtype=np.uint64))
    w.c.check(got == {k: i for i, k in enumerate(nodes)} and list(got) == nodes, "renumber_key_to_id",
              lambda: f"{got!r} for {nodes!r}")
    return (nodes,)


def do_none(w):
    for f in ("dict_to_vector", "list_to_vector", "list_to_mask", "list_to_ids", "list_to_keys", "set_to_vector"):
        r = getattr(w.obj, f)(None)
        w.c.check(r is None, f"{f}:None", lambda: f"{r!r}")
    k = w.obj.id_to_key
    w.c.check(dict(k) == w.back, "id_to_key", lambda: f"{k!r} instead of {w.back!r}")
    return ("none",)


DO = {k[3:]: f for k, f in list(globals().items()) if k.startswith("do_")}


def case(c):
    w = World(c)
    for _ in range(c.rng.randint(2, 6)):
        name = c.rng.choice(list(DO))
        c.ev("translate")
        c.ev(f"do:{name}")
        r = DO[name](w)
        c.say(f"{name}: {r!r}")
        c.judged((name, w.kind, w.ids, repr(r)), name != "none")
    got = w.obj.id_to_key
    c.check(dict(got) == w.back, "id_to_key", lambda: f"{got!r} instead of {w.back!r}")
