"""Building the real graph objects the monitors drive."""
from .env import ga, gb, nx, nxapi, np

from graphblas import Matrix, Vector


def nx_to_ga(G, weight=None, dtype=None):
    cls = ga.DiGraph if G.is_directed() else ga.Graph
    return cls.from_networkx(G, weight=weight, dtype=dtype)


def build_matrix(G, ids, weight="weight", dtype=float, iso=False, form=None):
    """Adjacency matrix of nx graph G with node -> index map `ids`, in a chosen storage form."""
    n = len(ids)
    r, c, v = [], [], []
    for a, b, d in G.edges(data=True):
        w = d.get(weight, 1) if weight else 1
        r.append(ids[a]), c.append(ids[b]), v.append(w)
        if not G.is_directed() and a != b:
            r.append(ids[b]), c.append(ids[a]), v.append(w)
    if not r:
        A = Matrix(dtype, n, n)
    elif iso:
        A = Matrix.from_coo(r, c, v[0], nrows=n, ncols=n, dtype=dtype)
    else:
        A = Matrix.from_coo(r, c, v, nrows=n, ncols=n, dtype=dtype)
    if form:
        A = reform(A, form)
    return A


FORMS = ("csr", "csc", "hypercsr", "hypercsc", "coo", "dup")


def reform(A, form):
    if A.nvals == 0 or form == "dup":
        return A.dup()
    d = A.ss.export(format=form)
    imp = getattr(Matrix.ss, f"import_{form}")
    d.pop("format", None)
    return imp(**d)


def ga_graph(rng, G, weight="weight", dtype=float, iso=False, scramble=True, form=None):
    """ga graph made from an explicit Matrix; node order in the matrix may differ from list(G)."""
    nodes = list(G)
    order = list(range(len(nodes)))
    if scramble:
        rng.shuffle(order)
    ids = dict(zip(nodes, order))
    if scramble and rng.random() < 0.5:  # dict order = node order, not index order
        key_to_id = ids
    else:
        key_to_id = dict(sorted(ids.items(), key=lambda kv: kv[1]))
    A = build_matrix(G, ids, weight, dtype, iso, form)
    cls = ga.DiGraph if G.is_directed() else ga.Graph
    return cls(A, key_to_id=key_to_id)


def entries(M):
    """{(i, j): value} of a Matrix / TransposedMatrix / expression."""
    if not isinstance(M, Matrix):
        M = M.new()
    r, c, v = M.to_coo()
    return dict(zip(zip(r.tolist(), c.tolist()), v.tolist()))


def ventries(v):
    if not isinstance(v, Vector):
        v = v.new()
    i, x = v.to_coo()
    return dict(zip(i.tolist(), x.tolist()))


def snapshot(G):
    """What a user can see of a ga graph without calling anything that caches."""
    return (type(G).__name__, entries(G.matrix), G.matrix.shape, str(G.matrix.dtype), list(G),
            dict(G.graph))
