"""Canonical forms of results and tolerant comparison (the deciding step of the monitors)."""
import math
from collections.abc import Mapping, Set

from .env import ga, gb, np, nx


class Odd:
    """A result of a kind no caller could use as documented (kept so that it never compares equal)."""

    def __init__(self, obj):
        self.text = f"<{type(obj).__module__}.{type(obj).__name__}: {str(obj)[:200]}>"

    def __repr__(self):
        return self.text


def scalar(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.generic):
        return x.item()
    return x


def canon(obj, name=None):
    """Plain Python value for any result of the nxapi or of networkx."""
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, gb.Scalar):
        # python-graphblas scalars behave as numbers (comparison, arithmetic, float())
        return obj.get()
    if isinstance(obj, (ga.Graph, nx.Graph)):
        return graph_form(obj)
    if isinstance(obj, gb.Matrix):
        return dense(obj)
    if isinstance(obj, gb.Vector):
        idx, vals = obj.to_coo()
        return {"size": obj.size, **dict(zip(idx.tolist(), vals.tolist()))}
    if hasattr(obj, "todense") and hasattr(obj, "shape"):
        return np.asarray(obj.todense())
    if isinstance(obj, np.matrix):
        return np.asarray(obj)
    if isinstance(obj, np.ndarray):
        return obj
    if isinstance(obj, Mapping):
        out = {}
        for k in obj:
            if k in out:
                return Odd(f"mapping lists key {k!r} twice")
            out[scalar(k)] = canon(obj[k])
        if len(obj) != len(out):
            return Odd(f"mapping of len {len(obj)} lists {len(out)} keys")
        return out
    if isinstance(obj, Set):
        out = [scalar(k) for k in obj]
        if len(out) != len(set(out)) or len(obj) != len(out):
            return Odd(f"set with repeated elements {out!r}")
        return frozenset(out)
    if isinstance(obj, tuple):
        return tuple(canon(x) for x in obj)
    if isinstance(obj, list):
        return [canon(x) for x in obj]
    if hasattr(obj, "__next__"):
        return [canon(x) for x in obj]
    if hasattr(obj, "new") and hasattr(obj, "dtype"):
        return Odd(obj)
    return obj


def dense(M, missing=0.0):
    """Dense float array of a GraphBLAS Matrix (missing -> `missing`)."""
    out = np.full(M.shape, missing, dtype=float)
    r, c, v = M.to_coo()
    out[r.astype(np.int64), c.astype(np.int64)] = v.astype(float)
    return out


def graph_form(G, weight="weight"):
    """{'directed', 'nodes', 'edges'}; edges maps (u, v) (or frozenset) to weight (default 1)."""
    if isinstance(G, nx.Graph):
        directed, nodes = G.is_directed(), list(G)
        edges = {}
        for u, v, d in G.edges(data=True):
            key = (u, v) if directed else frozenset((u, v))
            edges[key] = scalar(d.get(weight, 1))
        return {"directed": directed, "nodes": frozenset(nodes), "edges": edges}
    directed, nodes = G.is_directed(), list(G)
    if len(nodes) != len(G) or G.matrix.shape != (len(nodes), len(nodes)):
        return Odd(f"graph with {len(nodes)} names and matrix {G.matrix.shape}")
    full = dict(matrix_edges(G))
    edges = {}
    for (u, v), w in full.items():
        if directed:
            edges[(u, v)] = w
        else:
            if full.get((v, u), "absent") != w:
                return Odd(f"undirected graph stored asymmetrically at {(u, v)!r}")
            edges[frozenset((u, v))] = w
    return {"directed": directed, "nodes": frozenset(nodes), "edges": edges}


def matrix_edges(G):
    """(u, v) -> stored value for every stored entry, by node name (public API only)."""
    r, c, v = G.matrix.to_coo()
    ids = G.id_to_key
    return [((ids[a], ids[b]), w) for a, b, w in zip(r.tolist(), c.tolist(), v.tolist())]


# --------------------------------------------------------------------------- comparison
def num_eq(a, b, rtol, atol):
    if a == b:
        return True
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError, OverflowError):
        return False
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    return abs(fa - fb) <= atol + rtol * max(abs(fa), abs(fb))


def diff(a, b, rtol=1e-9, atol=1e-9, path=""):
    """None when equal within tolerance, else a short description of the first difference."""
    if isinstance(a, Odd) or isinstance(b, Odd):
        return f"{path}: {a!r} vs {b!r}"
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            return f"{path}: {a!r} vs {b!r}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} vs {b.shape}"
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if ok.all():
            return None
        ij = tuple(int(x) for x in np.argwhere(~ok)[0])
        return f"{path}[{ij}]: {a[ij]!r} vs {b[ij]!r}"
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return f"{path}: keys differ; only left {list(a.keys() - b.keys())[:5]!r}, only right {list(b.keys() - a.keys())[:5]!r}"
        for k in a:
            if d := diff(a[k], b[k], rtol, atol, f"{path}[{k!r}]"):
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}: {str(a)[:200]} vs {str(b)[:200]}"
        for i, (x, y) in enumerate(zip(a, b)):
            if d := diff(x, y, rtol, atol, f"{path}[{i}]"):
                return d
        return None
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if a != b:
            return f"{path}: only left {list(a - b)[:5]!r}, only right {list(b - a)[:5]!r}"
        return None
    if isinstance(a, bool) != isinstance(b, bool) and (isinstance(a, bool) or isinstance(b, bool)):
        # True == 1 is fine for a caller
        return None if num_eq(a, b, rtol, atol) else f"{path}: {a!r} vs {b!r}"
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return None if a == b and type(a) is type(b) else f"{path}: {a!r} vs {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if num_eq(a, b, rtol, atol) else f"{path}: {a!r} vs {b!r}"
    try:
        return None if a == b else f"{path}: {a!r} vs {b!r}"
    except Exception as exc:  # incomparable
        return f"{path}: {a!r} vs {b!r} ({exc!r})"
