"""Result maps and sets behave like dicts and sets: random operation histories against a model."""
import collections

from ..build import nx_to_ga, ga_graph
from ..canon import num_eq
from ..env import Dispatcher, ga, np
from ..gen import make_graph, make_labels

from graphblas import Matrix, Vector
from graphblas_algorithms.classes.nodemap import NodeMap, NodeNodeMap, VectorMap, VectorNodeMap
from graphblas_algorithms.classes.nodeset import NodeSet

ID = "C04"
CASES = {"quick": 20000, "thorough": 300000}
RULE = ("a case takes one map or set (made from a vector or matrix with a label order unrelated to the storage order, or "
        "returned by an algorithm), then runs a random history of operations on it and on an independent dict/set model; "
        "after every operation the returned value or exception and, regularly, the whole contents are compared. "
        "Non-trivial: at least one mutation took effect; distinct by (kind, way made, contents, operations)")
ASSUMPTIONS = ["a map with a default has every node as a key; deleting a key resets it to the default",
               "rows of nested maps are copies: writing to a row is not observed through the map",
               "union-like set operations are driven with nodes of the same graph only"]
KINDS = ("NodeMap", "NodeMap", "NodeMap+fill", "NodeMap+keys", "VectorMap", "VectorNodeMap", "NodeNodeMap",
         "NodeNodeMap+fill", "NodeNodeMap+keys", "NodeSet", "NodeSet", "result")
EXPECT = {"op": 20000, "mutation": 5000, "audit": 5000, "foreign_key": 1000, "kind:result": 300,
          **{f"kind:{k}": 200 for k in set(KINDS)}}
FOREIGN = ("nope", ("no", "node"), -12345, 10**9, 3.25, frozenset(("q",)), None)
MISSING = object()


def same(a, b):
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b) and a == b
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return num_eq(float(a), float(b), 0, 0) if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)) else int(a) == int(b)
    return type(a) is type(b) and a == b or a == b


def row_plain(r):
    return {k: r[k] for k in r}


def same_val(a, b):
    """b is the model's value: a scalar, or a dict for a row."""
    if isinstance(b, dict):
        try:
            p = row_plain(a)
        except TypeError:
            return False
        return p.keys() == b.keys() and all(same(p[k], b[k]) for k in b) and len(a) == len(b)
    return same(a, b)


class Universe:
    def __init__(self, rng):
        self.n = rng.choice((1, 2, 3, 4, 5, 6, 8, 12, 20))
        _, self.nodes = make_labels(rng, self.n)
        self.order = list(range(self.n))
        if rng.random() < 0.75:
            rng.shuffle(self.order)
        self.ids = dict(zip(self.nodes, self.order))

    def permuted(self, rng):
        o = list(range(self.n))
        rng.shuffle(o)
        return dict(zip(self.nodes, o))


def values(rng, dt):
    if dt == "FP64":
        return lambda: rng.choice((0.0, 1.5, -2.25, 7.0, 1e9, 0.125, float("inf")))
    if dt == "INT64":
        return lambda: rng.choice((0, 1, -3, 5, 2**40, 7))
    if dt == "UINT8":
        return lambda: rng.choice((0, 1, 2, 255))
    return lambda: rng.random() < 0.6


def vec_of(rng, contents, ids, n, dt):
    """A vector holding {key: value}, optionally equal values stored once."""
    idx = [ids[k] for k in contents]
    vals = list(contents.values())
    if not idx:
        return Vector(dt, n)
    if len(set(vals)) == 1 and rng.random() < 0.6:
        return Vector.from_coo(idx, vals[0], size=n, dtype=dt)
    return Vector.from_coo(idx, vals, size=n, dtype=dt)


def mat_of(rng, contents, rid, cid, nr, nc, dt):
    r, c, v = [], [], []
    for a, row in contents.items():
        for b, x in row.items():
            r.append(rid[a]), c.append(cid[b]), v.append(x)
    if not r:
        return Matrix(dt, nr, nc)
    if len(set(v)) == 1 and rng.random() < 0.6:
        return Matrix.from_coo(r, c, v[0], nrows=nr, ncols=nc, dtype=dt)
    return Matrix.from_coo(r, c, v, nrows=nr, ncols=nc, dtype=dt)


class Subject:
    """The real object, its model, and how to make keys and values for it."""

    def __init__(self, c):
        self.c, self.rng = c, c.rng
        self.ops = []
        self.mutations = 0

    # -- reporting
    def bad(self, op, msg):
        self.c.fail(f"{self.kind}.{op}", f"after {self.ops[-10:]}: {msg}")

    def foreign(self):
        pool = [f for f in FOREIGN if f not in self.universe]
        self.c.ev("foreign_key")
        return self.rng.choice(pool)

    def key(self, want=None):
        rng = self.rng
        x = rng.random()
        if want == "present" and self.model:
            return rng.choice(list(self.model))
        if x < 0.5 and self.model:
            return rng.choice(list(self.model))
        if x < 0.85:
            return rng.choice(self.universe)
        return self.foreign()

    def attempt(self, f):
        try:
            return f(), None
        except Exception as e:
            return None, e


class MapSubject(Subject):
    """model: {key: value}; total when there is a default."""

    def value(self):
        if self.nested:
            k = self.rng.randint(0, len(self.colkeys)) if self.rng.random() < 0.85 else 0
            return {b: self.scalar() for b in self.rng.sample(self.colkeys, k)}
        return self.scalar()

    def put(self, k, v):
        """What the model does on assignment."""
        if self.nested:
            if self.fill is not MISSING:
                v = {b: v.get(b, self.fill) for b in self.colkeys}
            elif not v:
                self.model.pop(k, None)
                return
            self.model[k] = dict(v)
        else:
            self.model[k] = v

    def drop(self, k):
        if self.fill is not MISSING:
            self.model[k] = {b: self.fill for b in self.colkeys} if self.nested else self.fill
        else:
            del self.model[k]

    def default_value(self):
        return {b: self.fill for b in self.colkeys} if self.nested else self.fill

    def as_arg(self, v):
        """The same value in one of the forms assignment accepts."""
        if not self.nested or self.rng.random() < 0.6:
            return v
        if self.row_type == "VectorMap":
            return VectorMap(vec_of(self.rng, v, {b: b for b in self.colkeys}, len(self.colkeys), self.dt))
        if self.keys_ or self.fill is not MISSING:
            return v
        if self.ids is None:
            return v
        return NodeMap(vec_of(self.rng, v, self.ids, len(self.universe), self.dt), key_to_id=self.ids)

    def op_getitem(self):
        k = self.key()
        self.ops.append(f"[{k!r}]")
        r, e = self.attempt(lambda: self.obj[k])
        if k in self.model:
            if e is not None or not same_val(r, self.model[k]):
                self.bad("getitem", f"obj[{k!r}] -> {e!r} {r!r}, model {self.model[k]!r}")
        elif not isinstance(e, KeyError):
            self.bad("getitem", f"obj[{k!r}] of an absent key -> {r!r} {e!r} instead of KeyError")

    def op_contains(self):
        k = self.key()
        self.ops.append(f"{k!r} in")
        r, e = self.attempt(lambda: k in self.obj)
        if e is not None or r is not (k in self.model):
            self.bad("contains", f"{k!r} in obj -> {r!r} {e!r}, model {k in self.model}")

    def op_get(self):
        k = self.key()
        d = self.rng.choice((MISSING, None, -1, "dflt", 0))
        self.ops.append(f"get({k!r})")
        r, e = self.attempt(lambda: self.obj.get(k) if d is MISSING else self.obj.get(k, d))
        if e is not None:
            self.bad("get", f"get({k!r}) raised {e!r}")
        if k in self.model:
            if not same_val(r, self.model[k]):
                self.bad("get", f"get({k!r}) -> {r!r}, model {self.model[k]!r}")
        elif r is not (None if d is MISSING else d):
            self.bad("get", f"get({k!r}, {d!r}) of an absent key -> {r!r}")

    def op_len(self):
        self.ops.append("len")
        if len(self.obj) != len(self.model) or bool(self.obj) != bool(self.model):
            self.bad("len", f"len {len(self.obj)}, model {len(self.model)}")

    def op_views(self):
        self.ops.append("views")
        ks = self.obj.keys()
        other = set(self.rng.sample(self.universe, self.rng.randint(0, len(self.universe)))) | {self.foreign()}
        m = set(self.model)
        for nm, got, want in (("keys&", set(ks & other), m & other), ("keys|", set(ks | other), m | other),
                              ("keys-", set(ks - other), m - other), ("keys^", set(ks ^ other), m ^ other)):
            if got != want:
                self.bad(nm, f"{got!r} instead of {want!r}")
        if (ks <= other) != (m <= other) or (ks >= other) != (m >= other) or ks.isdisjoint(other) != m.isdisjoint(other):
            self.bad("keys-compare", f"keys {sorted(map(repr, m))} against {other!r}")
        vals = list(self.obj.values())
        if len(vals) != len(self.model):
            self.bad("values", f"{len(vals)} values, model {len(self.model)}")
        left = list(self.model.values())
        for v in vals:
            for i, w in enumerate(left):
                if same_val(v, w):
                    del left[i]
                    break
            else:
                self.bad("values", f"value {v!r} is not in the model {self.model!r}")
        it = iter(self.obj)
        seen = list(it)
        if next(it, MISSING) is not MISSING:
            self.bad("iter", "an exhausted iterator went on")
        for k, v in zip(seen, self.obj.values()):
            if not same_val(v, self.model[k]):
                self.bad("values-order", f"values() and keys() disagree at {k!r}")

    def twin(self, contents):
        """Another object with these contents, stored in another way, or a plain dict."""
        x = self.rng.random()
        if x < 0.5 or self.remake is None:
            return {k: dict(v) if isinstance(v, dict) else v for k, v in contents.items()}
        return self.remake(contents, x)

    def op_eq(self):
        self.ops.append("==")
        t = self.twin(self.model)
        r = (self.obj == t, t == self.obj, self.obj != t)
        if r != (True, True, False):
            self.bad("eq", f"compared with an equal {type(t).__name__}: ==, reflected, != gave {r}; {self.model!r}")
        if self.refill is not None and self.rng.random() < 0.4:
            found = self.refill()
            if found is not None:
                t, equal, f = found
                want = (True, True, False) if equal else (False, False, True)
                r = (self.obj == t, t == self.obj, self.obj != t)
                if r != want:
                    self.bad("eq", f"compared with the same stored values and {f!r} for the rest: ==, reflected, != gave {r}; {self.model!r}")
        other = {k: dict(v) if isinstance(v, dict) else v for k, v in self.model.items()}
        x = self.rng.random()
        if other and x < 0.45 and self.fill is MISSING:
            del other[self.rng.choice(list(other))]
        elif other and x < 0.9:
            k = self.rng.choice(list(other))
            if self.nested:
                if not other[k]:
                    return
                b = self.rng.choice(list(other[k]))
                new = self.scalar()
                if same(new, other[k][b]):
                    return
                other[k][b] = new
            else:
                new = self.scalar()
                if same(new, other[k]):
                    return
                other[k] = new
        else:
            return
        t = self.twin(other)
        r = (self.obj == t, t == self.obj, self.obj != t)
        if r != (False, False, True):
            self.bad("eq", f"compared with a different {type(t).__name__} {other!r}: ==, reflected, != gave {r}; {self.model!r}")

    def op_set(self):
        k, v = self.key(), self.value()
        self.ops.append(f"[{k!r}]={v!r}")
        arg = self.as_arg(v)
        _, e = self.attempt(lambda: self.obj.__setitem__(k, arg))
        if k not in self.universe:
            if not isinstance(e, (KeyError, IndexError, TypeError)):
                self.bad("setitem", f"assigning to foreign {k!r} -> {e!r}")
            return
        if e is not None:
            self.bad("setitem", f"obj[{k!r}] = {v!r} raised {type(e).__name__}: {e}")
        self.put(k, v)
        self.mutations += 1

    def op_del(self):
        k = self.key()
        self.ops.append(f"del [{k!r}]")
        _, e = self.attempt(lambda: self.obj.__delitem__(k))
        if k in self.model:
            if e is not None:
                self.bad("delitem", f"del obj[{k!r}] raised {e!r}")
            self.drop(k)
            self.mutations += 1
        elif not isinstance(e, KeyError):
            self.bad("delitem", f"del obj[{k!r}] of an absent key -> {e!r}")

    def op_pop(self):
        k = self.key()
        d = self.rng.choice((MISSING, None, "dflt"))
        self.ops.append(f"pop({k!r})")
        r, e = self.attempt(lambda: self.obj.pop(k) if d is MISSING else self.obj.pop(k, d))
        if k in self.model:
            if e is not None or not same_val(r, self.model[k]):
                self.bad("pop", f"pop({k!r}) -> {r!r} {e!r}, model {self.model[k]!r}")
            self.drop(k)
            self.mutations += 1
        elif d is MISSING:
            if not isinstance(e, KeyError):
                self.bad("pop", f"pop({k!r}) of an absent key -> {r!r} {e!r}")
        elif e is not None or r is not d:
            self.bad("pop", f"pop({k!r}, {d!r}) of an absent key -> {r!r} {e!r}")

    def op_popitem(self):
        self.ops.append("popitem")
        r, e = self.attempt(lambda: self.obj.popitem())
        if e is not None:
            if not isinstance(e, KeyError):
                self.bad("popitem", f"raised {e!r}")
            if self.fill is not MISSING:
                if any(not same_val_model(v, self.default_value()) for v in self.model.values()):
                    self.bad("popitem", f"claims to be empty: {self.model!r}")
            elif self.model:
                self.bad("popitem", f"claims to be empty: {self.model!r}")
            return
        k, v = r
        if k not in self.model or not same_val(v, self.model[k]):
            self.bad("popitem", f"-> {k!r}: {v!r}, model {self.model!r}")
        self.drop(k)
        self.mutations += 1

    def op_setdefault(self):
        k, v = self.key(), self.value()
        if self.nested and not v and k not in self.model:
            return
        if isinstance(self, MapSubject) and self.kind.startswith("VectorMap") and k not in self.universe:
            return
        self.ops.append(f"setdefault({k!r},{v!r})")
        r, e = self.attempt(lambda: self.obj.setdefault(k, v))
        if k in self.model:
            if e is not None or not same_val(r, self.model[k]):
                self.bad("setdefault", f"({k!r}, {v!r}) -> {r!r} {e!r}, model {self.model[k]!r}")
            return
        if k not in self.universe:
            if not isinstance(e, (KeyError, IndexError, TypeError)):
                self.bad("setdefault", f"of a foreign key -> {r!r} {e!r}")
            return
        if e is not None or not same_val(r, v):
            self.bad("setdefault", f"({k!r}, {v!r}) -> {r!r} {e!r}")
        self.put(k, v)
        self.mutations += 1

    def op_update(self):
        ks = self.rng.sample(self.universe, self.rng.randint(0, min(4, len(self.universe))))
        new = {k: self.value() for k in ks}
        self.ops.append(f"update({new!r})")
        how = self.rng.random()
        arg = {k: self.as_arg(v) for k, v in new.items()}
        _, e = self.attempt(lambda: self.obj.update(arg if how < 0.5 else list(arg.items())))
        if e is not None:
            self.bad("update", f"update({new!r}) raised {e!r}")
        for k, v in new.items():
            self.put(k, v)
        self.mutations += bool(new)

    def op_clear(self):
        if self.rng.random() < 0.75:
            return
        self.ops.append("clear")
        self.obj.clear()
        self.model.clear()
        self.fill = MISSING
        self.mutations += 1

    def op_badvalue(self):
        """Assigning a value that is no node to a map of nodes."""
        if not self.keys_ or self.nested:
            return self.op_getitem()
        k, v = self.rng.choice(self.universe), self.foreign()
        self.ops.append(f"[{k!r}]={v!r}!")
        _, e = self.attempt(lambda: self.obj.__setitem__(k, v))
        if not isinstance(e, KeyError):
            self.bad("setitem", f"assigning {v!r}, which is no node -> {e!r}")

    def audit(self):
        self.c.ev("audit")
        ks = list(self.obj)
        if len(ks) != len(set(ks)) or set(ks) != set(self.model) or len(self.obj) != len(self.model):
            self.bad("audit", f"keys {ks!r} (len {len(self.obj)}), model {list(self.model)!r}")
        for k, v in self.obj.items():
            if not same_val(v, self.model[k]) or not same_val(self.obj[k], self.model[k]):
                self.bad("audit", f"obj[{k!r}] = {v!r}, model {self.model[k]!r}")
        for k in self.universe:
            if (k in self.obj) is not (k in self.model):
                self.bad("audit", f"{k!r} in obj is {k in self.obj}, model {k in self.model}")

    OPS = ("getitem", "getitem", "contains", "get", "get", "len", "views", "eq", "eq", "set", "set", "set", "del", "del",
           "pop", "popitem", "setdefault", "setdefault", "update", "clear", "badvalue")


def same_val_model(a, b):
    if isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in b)
    return same(a, b)


class SetSubject(Subject):
    OPS = ("contains", "contains", "len", "add", "add", "discard", "discard", "remove", "pop", "clear", "copy", "union",
           "algebra", "algebra", "algebra", "inplace", "inplace", "compare", "compare", "isdisjoint", "iter")

    def other(self, inside=False):
        rng = self.rng
        el = set(rng.sample(self.universe, rng.randint(0, len(self.universe))))
        x = rng.random()
        if x < 0.15:
            el = set(self.model)
        elif x < 0.3 and self.model:
            el = set(self.model) - {rng.choice(list(self.model))}
        elif x < 0.4:
            el = set(self.model) | {rng.choice(self.universe)}
        elif x < 0.5:
            el = set(self.universe) - self.model
        kind = rng.choice(("set", "frozenset", "NodeSet", "NodeSet", "NodeSet*", "keys", "foreign", "NodeSet+"))
        if kind == "foreign" and inside:
            kind = "set"
        if kind == "set":
            return el, set(el)
        if kind == "frozenset":
            return el, frozenset(el)
        if kind == "keys":
            return el, dict.fromkeys(el).keys()
        if kind == "foreign":
            el = el | {self.foreign()}
            return el, set(el)
        n = len(self.universe)
        if kind == "NodeSet" and self.ids is not None:
            return el, NodeSet(vec_of(rng, dict.fromkeys(el, True), self.ids, n, bool), key_to_id=self.ids)
        if kind == "NodeSet+" and not inside:  # another graph with other nodes as well
            ks = list(self.universe) + [self.foreign(), ("more", 1)]
            rng.shuffle(ks)
            ids = {k: i for i, k in enumerate(ks)}
            if rng.random() < 0.5:
                el = el | {("more", 1)}
            return el, NodeSet(vec_of(rng, dict.fromkeys(el, True), ids, len(ks), bool), key_to_id=ids)
        ks = list(self.universe)
        rng.shuffle(ks)
        ids = {k: i for i, k in enumerate(ks)}
        return el, NodeSet(vec_of(rng, dict.fromkeys(el, True), ids, n, bool), key_to_id=ids)

    def op_contains(self):
        k = self.rng.choice(self.universe) if self.rng.random() < 0.8 else self.foreign()
        self.ops.append(f"{k!r} in")
        r, e = self.attempt(lambda: k in self.obj)
        if e is not None or r is not (k in self.model):
            self.bad("contains", f"{k!r} in -> {r!r} {e!r}")

    def op_len(self):
        if len(self.obj) != len(self.model) or bool(self.obj) != bool(self.model):
            self.bad("len", f"{len(self.obj)} instead of {len(self.model)}")

    def op_iter(self):
        ks = list(self.obj)
        if len(ks) != len(self.model) or set(ks) != self.model:
            self.bad("iter", f"{ks!r} instead of {self.model!r}")

    def op_add(self):
        k = self.rng.choice(self.universe)
        self.ops.append(f"add({k!r})")
        self.obj.add(k)
        self.model.add(k)
        self.mutations += 1

    def op_discard(self):
        k = self.rng.choice(self.universe) if self.rng.random() < 0.8 else self.foreign()
        self.ops.append(f"discard({k!r})")
        _, e = self.attempt(lambda: self.obj.discard(k))
        if e is not None:
            self.bad("discard", f"discard({k!r}) raised {e!r}")
        self.mutations += k in self.model
        self.model.discard(k)

    def op_remove(self):
        k = self.rng.choice(self.universe) if self.rng.random() < 0.8 else self.foreign()
        self.ops.append(f"remove({k!r})")
        _, e = self.attempt(lambda: self.obj.remove(k))
        if k in self.model:
            if e is not None:
                self.bad("remove", f"remove({k!r}) raised {e!r}")
            self.model.remove(k)
            self.mutations += 1
        elif not isinstance(e, KeyError):
            self.bad("remove", f"remove({k!r}) of an absent element -> {e!r}")

    def op_pop(self):
        self.ops.append("pop")
        r, e = self.attempt(lambda: self.obj.pop())
        if not self.model:
            if not isinstance(e, KeyError):
                self.bad("pop", f"from an empty set -> {r!r} {e!r}")
            return
        if e is not None or r not in self.model:
            self.bad("pop", f"-> {r!r} {e!r}, model {self.model!r}")
        self.model.remove(r)
        self.mutations += 1

    def op_clear(self):
        if self.rng.random() < 0.7:
            return
        self.ops.append("clear")
        self.obj.clear()
        self.model.clear()
        self.mutations += 1

    def op_copy(self):
        self.ops.append("copy")
        t = self.obj.copy()
        if set(t) != self.model or not (t == self.obj):
            self.bad("copy", f"copy has {set(t)!r}, model {self.model!r}")
        k = self.rng.choice(self.universe)
        (t.discard if k in t else t.add)(k)
        if set(self.obj) != self.model:
            self.bad("copy", "changing a copy changed the original")

    def op_union(self):
        a, oa = self.other()
        b, ob = self.other()
        self.ops.append("union")
        got = set(self.obj.union(list(oa), ob)) if self.rng.random() < 0.6 else set(self.obj.union(oa)) | b
        if got != self.model | a | b:
            self.bad("union", f"{got!r} instead of {self.model | a | b!r}")

    def op_algebra(self):
        op = self.rng.choice("&|-^")
        el, o = self.other(inside=op in "|^")
        left = self.rng.random() < 0.35
        if left and op in "-" and not el <= set(self.universe):
            left = False  # the difference would hold nodes of another graph
        self.ops.append(f"{op}{type(o).__name__}{' reflected' if left else ''}")
        f = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "-": lambda x, y: x - y, "^": lambda x, y: x ^ y}[op]
        x, y = (o, self.obj) if left else (self.obj, o)
        r, e = self.attempt(lambda: f(x, y))
        want = f(el, self.model) if left else f(self.model, el)
        if e is not None or set(r) != want or len(r) != len(want):
            self.bad(op, f"{self.model!r} {op} {el!r} ({type(o).__name__}{', reflected' if left else ''}) -> "
                         f"{None if r is None else set(r)!r} {e!r} instead of {want!r}")
        if set(o) != el:
            self.bad(op, "the other operand changed")
        if isinstance(r, NodeSet) and r is not self.obj and r is not o:  # independent of both operands
            k = self.rng.choice(self.universe)
            if k in r:
                r.discard(k)
            else:
                self.attempt(lambda: r.add(k))
            if set(self.obj) != self.model or set(o) != el:
                self.bad(op, "changing the result changed an operand")

    def op_inplace(self):
        op = self.rng.choice("&|-^")
        el, o = self.other(inside=op in "|^")
        self.ops.append(f"{op}={type(o).__name__}")
        t = self.obj
        if self.rng.random() < 0.1:
            el, o = set(self.model), self.obj
        if op == "&":
            t &= o
            self.model &= el
        elif op == "|":
            t |= o
            self.model |= el
        elif op == "-":
            t -= o
            self.model -= el
        else:
            t ^= o
            self.model ^= el
        if t is not self.obj:
            self.bad(op + "=", "gave another object")
        self.mutations += 1
        if o is not self.obj and set(o) != el:
            self.bad(op + "=", "the other operand changed")
        self.audit()

    def op_compare(self):
        el, o = self.other()
        m = self.model
        self.ops.append(f"compare {type(o).__name__}")
        want = (m == el, m != el, m <= el, m < el, m >= el, m > el, el == m, el <= m, el < m)
        x = self.obj
        got = (x == o, x != o, x <= o, x < o, x >= o, x > o, o == x, o <= x, o < x)
        if got != want:
            self.bad("compare", f"{m!r} with {el!r} ({type(o).__name__}): (== != <= < >= > reflected == <= <) {got} instead of {want}")
        if self.obj == list(m):
            self.bad("compare", "a set equals a list")

    def op_isdisjoint(self):
        el, o = self.other()
        if self.rng.random() < 0.2:
            o = list(o)
        self.ops.append("isdisjoint")
        r = self.obj.isdisjoint(o)
        if bool(r) != self.model.isdisjoint(el) or not isinstance(r, (bool, np.bool_)):
            self.bad("isdisjoint", f"{self.model!r} and {el!r} ({type(o).__name__}) -> {r!r}")

    def audit(self):
        self.c.ev("audit")
        self.op_iter()
        self.op_len()
        for k in self.universe:
            if (k in self.obj) is not (k in self.model):
                self.bad("audit", f"{k!r} in -> {k in self.obj}, model {k in self.model}")


# --------------------------------------------------------------------------- making subjects
def map_subject(c, kind):
    rng = c.rng
    s = MapSubject(c)
    s.kind, s.nested = kind, kind.startswith(("NodeNodeMap", "VectorNodeMap"))
    s.keys_ = kind.endswith("+keys")
    s.row_type = "VectorMap" if kind.startswith("VectorNodeMap") else "NodeMap"
    u = Universe(rng)
    s.fill = MISSING
    s.dt = "INT64" if s.keys_ else rng.choice(("INT64", "FP64", "FP64", "BOOL", "UINT8"))
    gen = values(rng, s.dt)
    s.ids = u.ids
    s.universe = list(u.nodes)
    if kind.startswith("VectorMap"):
        s.universe = list(range(u.n))
        s.ids = {i: i for i in s.universe}
    elif rng.random() < 0.1:
        s.universe = list(range(u.n))
        s.ids = {i: i for i in s.universe}
    plain_ids = all(k == v and type(k) is int for k, v in s.ids.items()) and list(s.ids) == sorted(s.ids)
    s.scalar = (lambda: rng.choice(s.universe)) if s.keys_ else gen
    n = len(s.universe)
    ncol = n if s.row_type == "NodeMap" else rng.choice((1, 3, 6))
    s.colkeys = list(s.universe) if s.row_type == "NodeMap" else list(range(ncol))
    if kind.endswith("+fill"):
        s.fill = gen()
    p = rng.choice((0.0, 0.3, 0.6, 1.0))
    nodes = [k for k in s.universe if rng.random() < p]
    kw = {} if plain_ids and rng.random() < 0.7 else {"key_to_id": s.ids}
    internal = (lambda v, ids: ids[v]) if s.keys_ else (lambda v, ids: v)
    cls = {"NodeMap": NodeMap, "VectorMap": VectorMap, "VectorNodeMap": VectorNodeMap, "NodeNodeMap": NodeNodeMap}[kind.split("+")[0]]
    opts = {}
    if s.fill is not MISSING:
        opts["fill_value"] = s.fill
    if s.keys_:
        opts["values_are_keys"] = True
    if not s.nested:
        content = {k: s.scalar() for k in nodes}
        s.obj = cls(vec_of(rng, {k: internal(v, s.ids) for k, v in content.items()}, s.ids, n, s.dt), **opts,
                    **({} if cls is VectorMap else kw))
        s.model = {**({k: s.fill for k in s.universe} if s.fill is not MISSING else {}), **content}
    else:
        q = rng.choice((0.3, 0.7, 1.0))
        content = {a: {b: s.scalar() for b in s.colkeys if rng.random() < q} for a in nodes}
        content = {a: row for a, row in content.items() if row}
        cid = s.ids if s.row_type == "NodeMap" else {b: b for b in s.colkeys}
        s.obj = cls(mat_of(rng, {a: {b: internal(v, s.ids) for b, v in row.items()} for a, row in content.items()},
                           s.ids, cid, n, ncol, s.dt), **opts, **kw)
        s.model = dict(content)
        if s.fill is not MISSING:
            s.model = {a: {b: content.get(a, {}).get(b, s.fill) for b in s.colkeys} for a in s.universe}

    def remake(contents, x):
        """The same contents in another storage order, or with other things stored explicitly."""
        ids = s.ids
        if cls is not VectorMap and x < 0.8:
            o = list(range(n))
            rng.shuffle(o)
            ids = dict(zip(s.universe, o))
        extra = {}
        body = dict(contents)
        if s.keys_:
            extra["values_are_keys"] = True
        if s.fill is not MISSING and rng.random() < 0.7:
            extra["fill_value"] = s.fill
            if not s.nested:
                body = {k: v for k, v in body.items() if not same(v, s.fill) or rng.random() < 0.3}
            else:
                body = {a: {b: v for b, v in row.items() if not same(v, s.fill) or rng.random() < 0.3} for a, row in body.items()}
        if not s.nested:
            return cls(vec_of(rng, {k: internal(v, ids) for k, v in body.items()}, ids, n, s.dt), **extra,
                       **({} if cls is VectorMap else {"key_to_id": ids}))
        body = {a: {b: internal(v, ids) for b, v in row.items()} for a, row in body.items()}
        return cls(mat_of(rng, body, ids, ids if s.row_type == "NodeMap" else {b: b for b in s.colkeys}, n, ncol, s.dt),
                   **extra, key_to_id=ids)

    def refill():
        """What is stored now in a map with another value for the rest; None if that value came out the same."""
        f = s.value() if not s.nested else s.scalar()
        if s.fill is MISSING or s.keys_ or same(f, s.fill):
            return None
        store = (s.obj.matrix if s.nested else s.obj.vector).dup()
        kw2 = {} if cls is VectorMap else {"key_to_id": s.ids}
        full = store.nvals == (n * ncol if s.nested else n)
        return cls(store, fill_value=f, **kw2), full, f

    s.remake = remake
    s.refill = refill
    return s


def set_subject(c):
    rng = c.rng
    s = SetSubject(c)
    s.kind = "NodeSet"
    u = Universe(rng)
    s.universe, s.ids = list(u.nodes), u.ids
    if rng.random() < 0.12:
        s.universe = list(range(u.n))
        s.ids = {i: i for i in s.universe}
    p = rng.choice((0.0, 0.3, 0.6, 1.0))
    s.model = {k for k in s.universe if rng.random() < p}
    x = rng.random()
    content = {k: (True if x < 0.6 else rng.choice((0, 1, 5)) if x < 0.8 else False) for k in s.model}
    v = vec_of(rng, content, s.ids, len(s.universe), bool if x < 0.6 or x >= 0.8 else "INT64")
    plain = s.universe == list(range(len(s.universe))) and s.ids == {i: i for i in s.universe}
    s.obj = NodeSet(v) if plain and rng.random() < 0.8 else NodeSet(v, key_to_id=s.ids)
    return s


RESULTS = {
    "U": ("triangles", "generalized_degree", "square_clustering", "clustering", "degree_centrality", "node_connected_component"),
    "D": ("in_degree_centrality", "out_degree_centrality", "reciprocity", "clustering", "descendants", "ancestors"),
    "*": ("pagerank", "single_source_shortest_path_length", "single_target_shortest_path_length", "floyd_warshall",
          "floyd_warshall_predecessor_and_distance", "all_pairs_shortest_path_length", "all_pairs_bellman_ford_path_length",
          "single_source_bellman_ford_path_length", "descendants", "ancestors", "node_boundary", "descendants_at_distance"),
}


def result_subject(c):
    rng = c.rng
    nxg, info = make_graph(rng, None, weights=("none", "int", "isof", "float"), lo=1, hi=12)
    d = nxg.is_directed()
    G = ga_graph(rng, nxg, dtype="float64", weight="weight") if rng.random() < 0.5 else \
        nx_to_ga(nxg, weight="weight" if info["weights"] != "none" else None)
    name = rng.choice(RESULTS["*"] + RESULTS["D" if d else "U"] * 2)
    nodes = list(nxg)
    v = rng.choice(nodes)
    args = ()
    if name in ("single_source_shortest_path_length", "single_target_shortest_path_length", "single_source_bellman_ford_path_length",
                "descendants", "ancestors", "node_connected_component"):
        args = (v,)
    elif name == "node_boundary":
        args = (rng.sample(nodes, rng.randint(0, len(nodes))),)
    elif name == "descendants_at_distance":
        args = (v, rng.choice((0, 1, 2)))
    elif name in ("triangles", "clustering", "square_clustering", "generalized_degree", "reciprocity"):
        args = (rng.sample(nodes, rng.randint(1, len(nodes))),) if rng.random() < 0.6 or name == "reciprocity" else ()
    c.say(f"result of {name}{args!r} on {type(G).__name__} nodes={nodes!r} edges={list(nxg.edges(data=True))[:30]!r}")
    try:
        r = getattr(Dispatcher, name)(G, *args)
    except Exception:  # judged by other checks
        return None
    if hasattr(r, "__next__"):
        r = dict(r)
    if name == "floyd_warshall_predecessor_and_distance":
        r = rng.choice(r)
    if isinstance(r, dict) and r:
        r = r[rng.choice(list(r))]
    if isinstance(r, (NodeSet,)):
        s = SetSubject(c)
        s.kind, s.universe, s.obj, s.ids = "NodeSet", nodes, r, None
        s.model = set(r)
        return s
    cls = {NodeMap: "NodeMap", NodeNodeMap: "NodeNodeMap", VectorNodeMap: "VectorNodeMap", VectorMap: "VectorMap"}.get(type(r))
    if cls is None:
        return None
    s = MapSubject(c)
    s.kind, s.obj, s.ids, s.remake, s.universe = cls, r, None, None, nodes
    s.refill = None
    s.nested = cls in ("NodeNodeMap", "VectorNodeMap")
    s.row_type = "VectorMap" if cls == "VectorNodeMap" else "NodeMap"
    s.keys_ = name == "floyd_warshall_predecessor_and_distance" and \
        any(not isinstance(x, (float, np.floating)) for row in r.values() for x in row.values())
    s.model = {k: (row_plain(r[k]) if s.nested else r[k]) for k in r}
    flat = [x for v in s.model.values() for x in (v.values() if s.nested else (v,))]
    if not flat:
        return None
    s.fill = MISSING
    s.dt = "FP64" if isinstance(flat[0], (float, np.floating)) else "INT64"
    s.colkeys = nodes
    pool = list(flat)
    s.scalar = lambda: rng.choice(pool)
    s.frozen = set(s.model) == set(nodes) or s.row_type == "VectorMap"
    return s


READS = {"getitem", "contains", "get", "len", "views", "eq", "iter", "compare", "isdisjoint", "union", "copy"}


def case(c):
    rng = c.rng
    kind = rng.choice(KINDS)
    if kind == "result":
        s = result_subject(c)
        if s is None:
            c.ev("kind:result")
            c.ev("result_not_a_view")
            return
    elif kind == "NodeSet":
        s = set_subject(c)
    else:
        s = map_subject(c, kind)
    c.ev(f"kind:{kind}")
    ops = s.OPS
    if kind == "result" and getattr(s, "frozen", False):
        # such a map may have a default, which the model cannot know before it is read: reads and overwrites only
        ops = tuple(o for o in ops if o in READS) + (("set",) if s.row_type == "NodeMap" and not s.nested else ())
    c.say(f"{s.kind} universe={s.universe!r} ids={s.ids!r} contents={s.model!r}")
    s.audit()
    done = []
    for _ in range(rng.randint(3, 22)):
        op = rng.choice(ops)
        before = s.mutations
        getattr(s, "op_" + op)()
        c.ev("op")
        c.ev(f"op:{op}")
        c.judged()
        if s.mutations > before:
            c.ev("mutation")
            if rng.random() < 0.5:
                s.audit()
        done.append(op)
    s.audit()
    c.say(f"history {s.ops!r}")
    c.judged((kind, s.kind, repr(s.model)[:300], tuple(done)), s.mutations > 0)
