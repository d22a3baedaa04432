"""Definitions the monitors compare with.

Every function takes (gs, args, kw, ctx) with plain networkx graphs and returns one of
    ("value", plain value)      the result must equal it (within the spec's tolerance)
    ("check", f)                f(canonical result) -> None or a description of the disagreement
    ("raise", (type, ...))      the call must raise one of these
    ("skip", why)               not specified for this input
ctx.stored is the mapping (u, v) -> value of the graph as the code under test sees it.
Functions without an entry here are judged against networkx's own implementation.
"""
import heapq
import math
from collections import Counter, deque
from types import SimpleNamespace

from .canon import diff
from .env import nx, np

INF = math.inf


def fresh_list(x):
    from .catalog import fresh

    return list(fresh(x))


# ------------------------------------------------------------------ walking
def succ(G, u):
    return G._adj[u]


def pred(G, u):
    return G._pred[u] if G.is_directed() else G._adj[u]


def bfs(G, sources, nbrs=succ, cutoff=INF):
    dist = dict.fromkeys(sources, 0)
    q = deque(dist)
    while q:
        u = q.popleft()
        if dist[u] + 1 > cutoff:
            continue
        for v in nbrs(G, u):
            if v not in dist:
                dist[v] = dist[u] + 1
                q.append(v)
    return dist


def both(G, u):
    return [*succ(G, u), *pred(G, u)]


def descendants(gs, args, kw, ctx):
    d = bfs(gs[0], [args[0]])
    return "value", frozenset(d) - {args[0]}


def ancestors(gs, args, kw, ctx):
    d = bfs(gs[0], [args[0]], pred)
    return "value", frozenset(d) - {args[0]}


def is_connected(gs, args, kw, ctx):
    G = gs[0]
    if not len(G):
        return "raise", (nx.NetworkXPointlessConcept,)
    return "value", len(bfs(G, [next(iter(G))], both)) == len(G)


def node_connected_component(gs, args, kw, ctx):
    return "value", frozenset(bfs(gs[0], [args[0]]))


def has_path(gs, args, kw, ctx):
    return "value", args[1] in bfs(gs[0], [args[0]])


def bfs_layers(gs, args, kw, ctx):
    from .catalog import Lazy

    G, s = gs[0], args[0]
    src = s.items if isinstance(s, Lazy) else [s]
    lev = {}
    for v, d in bfs(G, src).items():
        lev.setdefault(d, set()).add(v)
    return "value", [frozenset(lev[i]) for i in sorted(lev)]


def descendants_at_distance(gs, args, kw, ctx):
    return "value", frozenset(v for v, d in bfs(gs[0], [args[0]]).items() if d == args[1])


def lowest_common_ancestor(gs, args, kw, ctx):
    G = gs[0]
    common = set(bfs(G, [args[0]], pred)) & set(bfs(G, [args[1]], pred))
    default = kw.get("default")
    if not common:
        return "value", default
    lowest = {v for v in common if not any(w in common for w in succ(G, v) if w != v)}

    def check(r):
        try:
            ok = r in lowest
        except TypeError:
            ok = False
        return None if ok else f"{r!r} is not one of the lowest common ancestors {sorted(map(repr, lowest))[:6]}"

    return "check", check


# ------------------------------------------------------------------ unweighted distances
def _cut(kw):
    c = kw.get("cutoff")
    return INF if c is None else c


def sssp(gs, args, kw, ctx):
    return "value", bfs(gs[0], [args[0]], succ, _cut(kw))


def stsp(gs, args, kw, ctx):
    return "value", bfs(gs[0], [args[0]], pred, _cut(kw))


def apsp(gs, args, kw, ctx):
    G = gs[0]
    return "value", {v: bfs(G, [v], succ, _cut(kw)) for v in G}


def efficiency(gs, args, kw, ctx):
    d = bfs(gs[0], [args[0]])
    u, v = args
    if u == v:
        return "skip", "same node"
    return "value", 1 / d[v] if v in d else 0


# ------------------------------------------------------------------ weighted distances
def weight_of(kw, default="weight"):
    return kw.get("weight", default)


def arcs(G, attr):
    out = {u: [] for u in G}
    for u, v, d in G.edges(data=True):
        w = float(d.get(attr, 1)) if attr else 1.0
        out[u].append((v, w))
        if not G.is_directed() and u != v:
            out[v].append((u, w))
    return out


def bellman_ford(adj, source):
    """Distances from source, or None when a negative cycle can be reached."""
    neg = any(w < 0 for vs in adj.values() for _, w in vs)
    dist = {source: 0.0}
    if not neg:
        heap, done, k = [(0.0, 0, source)], set(), 0
        while heap:
            d, _, u = heapq.heappop(heap)
            if u in done:
                continue
            done.add(u)
            for v, w in adj[u]:
                if d + w < dist.get(v, INF):
                    dist[v] = d + w
                    k += 1
                    heapq.heappush(heap, (d + w, k, v))
        return dist
    front = {source}
    for _ in range(len(adj)):
        new = {}
        for u in front:
            for v, w in adj[u]:
                if dist[u] + w < dist.get(v, INF) - 1e-12 and dist[u] + w < new.get(v, INF):
                    new[v] = dist[u] + w
        if not new:
            return dist
        dist.update(new)
        front = set(new)
    # still improving after n rounds: a negative cycle is reachable
    return None


def unbounded():
    return "raise", (nx.NetworkXUnbounded,)


def ss_bf(gs, args, kw, ctx):
    d = bellman_ford(arcs(gs[0], weight_of(kw)), args[0])
    return unbounded() if d is None else ("value", d)


def ap_bf(gs, args, kw, ctx):
    adj = arcs(gs[0], weight_of(kw))
    out = {}
    for u in gs[0]:
        d = bellman_ford(adj, u)
        if d is None:
            return unbounded()
        out[u] = d
    return "value", out


def bf_length(gs, args, kw, ctx):
    d = bellman_ford(arcs(gs[0], weight_of(kw)), args[0])
    if d is None:
        if args[0] == args[1]:
            return "skip", "a node to itself with a negative cycle in reach"
        return unbounded()
    if args[1] not in d:
        return "raise", (nx.NetworkXNoPath,)
    return "value", d[args[1]]


def bf_path(gs, args, kw, ctx):
    G = gs[0]
    kind, want = bf_length(gs, args, kw, ctx)
    if kind != "value":
        return kind, want
    attr = weight_of(kw)

    def check(p):
        if not isinstance(p, list) or not p or p[0] != args[0] or p[-1] != args[1]:
            return f"{p!r} is not a path from {args[0]!r} to {args[1]!r}"
        if len(set(p)) != len(p):
            return f"{p!r} repeats a node"
        total = 0.0
        for a, b in zip(p, p[1:]):
            if not G.has_edge(a, b):
                return f"{p!r} uses the missing edge {(a, b)!r}"
            total += float(G[a][b].get(attr, 1)) if attr else 1.0
        return None if abs(total - want) <= 1e-9 * max(1.0, abs(want)) else f"{p!r} has length {total}, shortest is {want}"

    return "check", check


def negative_edge_cycle(gs, args, kw, ctx):
    G = gs[0]
    adj = arcs(G, weight_of(kw))
    root = object()
    adj[root] = [(v, 0.0) for v in G]
    return "value", bellman_ford(adj, root) is None


def _all_dist(gs, kw):
    adj = arcs(gs[0], weight_of(kw))
    D = {}
    for u in gs[0]:
        D[u] = bellman_ford(adj, u)
        if D[u] is None:
            return None
    return D


def floyd_warshall(gs, args, kw, ctx):
    D = _all_dist(gs, kw)
    if D is None:
        return "skip", "negative cycle"
    want = {u: {v: D[u].get(v, INF) for v in gs[0]} for u in gs[0]}

    def check(r):
        if not isinstance(r, dict):
            return f"not a mapping: {r!r}"
        return diff(want, r, 1e-9, 1e-9)

    return "check", check


def floyd_warshall_numpy(gs, args, kw, ctx):
    D = _all_dist(gs, kw)
    if D is None:
        return "skip", "negative cycle"
    order = kw.get("nodelist") or (args[0] if args else None) or ctx.order
    want = np.array([[D[u].get(v, INF) for v in order] for u in order], dtype=float).reshape(len(order), len(order))
    ctx.missing = INF
    return "value", want


def floyd_warshall_pd(gs, args, kw, ctx):
    G = gs[0]
    D = _all_dist(gs, kw)
    if D is None:
        return "skip", "negative cycle"
    attr = weight_of(kw)
    want = {u: {v: D[u].get(v, INF) for v in G} for u in G}

    def check(r):
        P, dist = r
        if d := diff(want, dist, 1e-9, 1e-9, "distance"):
            return d
        for u in G:
            for v in G:
                if u == v:
                    continue
                p = P.get(u, {}).get(v)
                if (v in D[u]) != (p is not None or (u in P and v in P[u])):
                    return f"predecessor of {v!r} from {u!r} is {p!r} but distance is {want[u][v]}"
                if v in D[u]:
                    if not G.has_edge(p, v):
                        return f"predecessor {p!r} of {v!r} from {u!r} has no edge to it"
                    w = float(G[p][v].get(attr, 1)) if attr else 1.0
                    if abs(want[u][p] + w - want[u][v]) > 1e-9 * max(1, abs(want[u][v])):
                        return f"predecessor {p!r} of {v!r} from {u!r} is on no shortest path"
        for u in G:  # chains of predecessors lead back to the source
            for v in D[u]:
                x, k = v, 0
                while x != u and k <= len(G):
                    x = P[u][x]
                    k += 1
                if k > len(G):
                    return f"predecessors from {u!r} to {v!r} go round in circles"
        return None

    return "check", check


# ------------------------------------------------------------------ centrality
def adjacency(G, attr, order):
    ix = {v: i for i, v in enumerate(order)}
    A = np.zeros((len(order), len(order)))
    for u, v, d in G.edges(data=True):
        if u not in ix or v not in ix:
            continue
        w = float(d.get(attr, 1)) if attr else 1.0
        A[ix[u], ix[v]] = w
        if not G.is_directed():
            A[ix[v], ix[u]] = w
    return A


def stored_matrix(ctx, order):
    ix = {v: i for i, v in enumerate(order)}
    A = np.zeros((len(order), len(order)))
    for (u, v), w in ctx.stored.items():
        if u in ix and v in ix:
            A[ix[u], ix[v]] = float(w)
    return A


def _vecarg(kw, name, order):
    d = kw.get(name)
    if d is None:
        return None
    d = dict(d.make() if hasattr(d, "make") else d)
    return np.array([float(d.get(v, 0)) for v in order])


def _transition(gs, kw, order):
    """(row-stochastic matrix with dangling rows filled, personalization), as documented for pagerank."""
    G = gs[0]
    A = adjacency(G, weight_of(kw), order)
    N = len(order)
    p = _vecarg(kw, "personalization", order)
    p = np.full(N, 1 / N) if p is None else p / p.sum()
    dang = _vecarg(kw, "dangling", order)
    dang = p if dang is None else dang / dang.sum()
    out = A.sum(axis=1)
    M = np.where(out[:, None] > 0, A / np.where(out > 0, out, 1)[:, None], dang[None, :])
    return M, p


def settles(step, x, tol, max_iter):
    """Rounds the documented iteration needs until its total step is below N * tol (None: more than max_iter + 3)."""
    def run():
        y = x
        for i in range(1, max_iter + 4):
            z = step(y)
            if np.abs(z - y).sum() < len(y) * tol:
                return i
            y = z
        return None

    def limit(rounds=4000):
        y = x
        for _ in range(rounds):
            z = step(y)
            if np.abs(z - y).sum() < 1e-12 * max(1.0, np.abs(z).max()):
                return z
            y = z
        return None

    run.limit = limit
    return run


def pagerank(gs, args, kw, ctx):
    order = list(gs[0])
    if not order:
        return "value", {}
    alpha = kw.get("alpha", 0.85)
    M, p = _transition(gs, kw, order)
    x = np.linalg.solve(np.eye(len(order)) - alpha * M.T, (1 - alpha) * p)
    x0 = _vecarg(kw, "nstart", order)
    x0 = np.full(len(order), 1 / len(order)) if x0 is None else x0 / x0.sum()
    ctx.settles = settles(lambda y: alpha * M.T @ y + (1 - alpha) * p, x0, kw.get("tol", 1e-6), kw.get("max_iter", 100))
    # the iteration stops when the total step is below N * tol, so the error is below N * tol * a / (1 - a)
    ctx.atol = 2 * len(order) * kw.get("tol", 1e-6) * alpha / (1 - alpha) + 1e-12
    ctx.rtol = 1e-9
    return "value", dict(zip(order, x.tolist()))


def google_matrix(gs, args, kw, ctx):
    order = kw.get("nodelist") or ctx.order
    alpha = kw.get("alpha", 0.85)
    M, p = _transition(gs, kw, order)
    return "value", alpha * M + (1 - alpha) * p[None, :]


def katz(gs, args, kw, ctx):
    order = list(gs[0])
    if not order:
        return "value", {}
    A = adjacency(gs[0], kw.get("weight"), order)
    alpha, N = kw.get("alpha", 0.1), len(order)
    rho = max(abs(np.linalg.eigvals(A)), default=0.0) * alpha
    if rho > 0.9:
        return "skip", "alpha too close to 1 / largest eigenvalue"
    beta = kw.get("beta", 1.0)
    b = _vecarg(kw, "beta", order) if hasattr(beta, "make") else np.full(N, float(beta))
    x0 = _vecarg(kw, "nstart", order)
    ctx.settles = settles(lambda y: alpha * A.T @ y + b, np.zeros(N) if x0 is None else x0, kw.get("tol", 1e-6),
                          kw.get("max_iter", 1000))
    Inv = np.linalg.inv(np.eye(N) - alpha * A.T)
    x = Inv @ b
    scale = np.linalg.norm(x) if kw.get("normalized", True) else 1.0
    if scale == 0:
        return "skip", "all zero"
    # error after a step of total size e is at most |alpha A^T (I - alpha A^T)^-1| e
    err = np.abs(alpha * A.T @ Inv).sum(axis=0).max() * N * kw.get("tol", 1e-6)
    ctx.atol, ctx.rtol = 3 * err / scale + 1e-12, 1e-9
    return "value", dict(zip(order, (x / scale).tolist()))


def eigenvector(gs, args, kw, ctx):
    order = list(gs[0])
    A = adjacency(gs[0], kw.get("weight"), order)
    N = len(order)
    B = A.T + np.eye(N)
    x0 = _vecarg(kw, "nstart", order)
    x0 = np.full(N, 1.0) if x0 is None else x0
    def step(y):
        y = B @ y
        return y / (np.linalg.norm(y) or 1.0)

    ctx.settles = settles(step, x0 / x0.sum(), kw.get("tol", 1e-6), kw.get("max_iter", 100))
    # limit of the power iteration from that start (symmetric matrices only)
    sym = np.array_equal(A, A.T)
    ratio, lim = 1.0, x0
    if sym:
        w, V = np.linalg.eigh(B)
        near = w > w[-1] * (1 - 1e-9)
        lim = V[:, near] @ (V[:, near].T @ x0)
        ratio = max(abs(w[~near]), default=0.0) / w[-1]
        if np.linalg.norm(lim) < 1e-9:
            return "skip", "degenerate"
        lim /= np.linalg.norm(lim)
    tol = kw.get("tol", 1e-6)

    def check(r):
        if not isinstance(r, dict) or set(r) != set(order):
            return f"keys differ: {r!r}"[:300]
        x = np.array([r[v] for v in order], dtype=float)
        if abs(np.linalg.norm(x) - 1) > 1e-9:
            return f"norm is {np.linalg.norm(x)}"
        if (x < -1e-12).any():
            return "negative entries"
        y = B @ x
        y /= np.linalg.norm(y)
        if np.abs(y - x).sum() > 4 * N * tol * max(1.0, np.linalg.cond(B) if N < 3 else 1.0) + 1e-9:
            # steps can grow again when the matrix is far from symmetric: compare with the iteration itself
            k, z, near_it = ctx.settles() or 0, x0 / x0.sum(), False
            for j in range(k + 2):
                if j >= k - 1 and np.abs(z - x).max() < 1e-6:
                    near_it = True
                z = step(z)
            if not near_it:
                return f"one more step moves it by {np.abs(y - x).sum()}"
        if sym and ratio < 0.995 and tol <= 1e-8:
            if np.abs(x - lim).max() > 10 * N * tol / (1 - ratio) + 1e-9:
                i = int(np.abs(x - lim).argmax())
                return f"entry of {order[i]!r} is {x[i]}, the power iteration tends to {lim[i]}"
        return None

    return "check", check


def hits(gs, args, kw, ctx):
    order = list(gs[0])
    N = len(order)
    A = stored_matrix(ctx, order)
    tol = kw.get("tol", 1e-8)
    if not A.any():
        return "skip", "no edges"
    AAT = A @ A.T
    x0 = _vecarg(kw, "nstart", order)
    x0 = np.ones(N) if x0 is None else x0
    def step(y):
        y = AAT @ y
        return y / (np.abs(y).max() or 1.0)

    ctx.settles = settles(step, x0 / x0.sum(), tol, kw.get("max_iter", 100))
    w, V = np.linalg.eigh(AAT)
    top = w[-1]
    near = w > top * (1 - 1e-9)
    lim = V[:, near] @ (V[:, near].T @ x0)
    below = w[~near]
    ratio = (below[-1] / top) if len(below) else 0.0
    if not np.abs(lim).max() > 1e-9:
        return "skip", "start has no part in the leading space"
    normalized = kw.get("normalized", True)

    def norm(v):
        s = v.sum() if normalized else np.abs(v).max()
        return v / s

    def check(r):
        h, a = ({} if not isinstance(z, dict) else z for z in r)
        if set(h) != set(order) or set(a) != set(order):
            return f"keys differ: {str(r)[:200]}"
        h = np.array([h[v] for v in order], float)
        a = np.array([a[v] for v in order], float)
        for nm, z in (("hubs", h), ("authorities", a)):
            s = z.sum() if normalized else z.max()
            if abs(s - 1) > 1e-9:
                return f"{nm} are scaled to {s}"
            if (z < -1e-12).any():
                return f"negative {nm}"
        # h is proportional to A a and a to A^T h, up to the size of the last step
        big = h.max()
        slack = 30 * N * tol + 1e-9
        y = A @ a
        if np.abs(y / y.max() - h / big).max() > slack:
            return f"hubs are not proportional to A times authorities (off by {np.abs(y / y.max() - h / big).max()})"
        y = A.T @ h
        if np.abs(y / y.max() - a / a.max()).max() > slack * 10:
            return f"authorities are not proportional to A^T times hubs (off by {np.abs(y / y.max() - a / a.max()).max()})"
        if ratio < 0.995:
            want = norm(lim)
            if np.abs(h - want).max() > (10 * N * tol / (1 - ratio) + 1e-9) * max(1.0, 1 / np.abs(lim).max()):
                i = int(np.abs(h - want).argmax())
                return f"hub of {order[i]!r} is {h[i]} instead of {want[i]}"
        return None

    return "check", check


# ------------------------------------------------------------------ clustering
def noloops(G):
    H = G.copy()
    H.remove_edges_from(list(nx.selfloop_edges(H)))
    return H


def _und(G):
    return {u: set(G._adj[u]) - {u} for u in G}


def _pick(G, kw, f):
    """Apply f to the nodes= argument the way the clustering functions document it."""
    x = kw.get("nodes")
    if x is None:
        return {v: f(v) for v in G}
    if hasattr(x, "make"):
        return {v: f(v) for v in x.items}
    return f(x)


def triangles(gs, args, kw, ctx):
    nb = _und(gs[0])
    return "value", _pick(gs[0], kw, lambda v: sum(len(nb[v] & nb[u]) for u in nb[v]) // 2)


def transitivity(gs, args, kw, ctx):
    G = gs[0]
    nb = _und(G)
    if not G.is_directed():
        closed = sum(len(nb[v] & nb[u]) for v in nb for u in nb[v])
        paths = sum(len(nb[v]) * (len(nb[v]) - 1) for v in nb)
        return "value", closed / paths if closed else 0
    closed = sum(len(nb[v] & nb[u]) for v in nb for u in nb[v])
    paths = sum(len(nb[v]) * (len(nb[v]) - 1) for v in nb)
    return "value", closed / paths if closed else 0


def _clustering(G, weight):
    # "normalized by the maximum weight in the network": self-loops are edges of the network too
    mx = max((float(d.get(weight, 1)) for *_, d in G.edges(data=True)), default=1.0) if weight else 1.0
    G = noloops(G)
    W = {}
    for u, v, d in G.edges(data=True):
        w = float(d.get(weight, 1)) if weight else 1.0
        W[u, v] = w
        if not G.is_directed():
            W[v, u] = w
    c = {k: (w / mx) ** (1 / 3) if weight else 1.0 for k, w in W.items()}
    nb = {u: set(succ(G, u)) | set(pred(G, u)) for u in G}

    if not G.is_directed():
        def f(v):
            k = len(nb[v])
            s = sum(c[v, a] * c[a, b] * c[b, v] for a in nb[v] for b in nb[v] if b in nb[a])
            return s / (k * (k - 1)) if s else 0
    else:
        def f(v):
            s = 0.0
            for a in nb[v]:
                for b in nb[v]:
                    if a != b:
                        s += ((c.get((v, a), 0) + c.get((a, v), 0)) * (c.get((v, b), 0) + c.get((b, v), 0))
                              * (c.get((a, b), 0) + c.get((b, a), 0)))
            dt = len(succ(G, v)) + len(pred(G, v))
            db = len(set(succ(G, v)) & set(pred(G, v)))
            return s / (2 * (dt * (dt - 1) - 2 * db)) if s else 0
    return f


def _no_scale(G, weight):
    """Nothing to divide the weights by."""
    return weight and G.number_of_edges() and not any(d.get(weight, 1) > 0 for *_, d in G.edges(data=True))


def clustering(gs, args, kw, ctx):
    if _no_scale(gs[0], kw.get("weight")):
        return "skip", "all weights are 0"
    return "value", _pick(gs[0], kw, _clustering(gs[0], kw.get("weight")))


def average_clustering(gs, args, kw, ctx):
    G = gs[0]
    if _no_scale(G, kw.get("weight")):
        return "skip", "all weights are 0"
    if not len(G):
        return "raise", (ZeroDivisionError,)
    f = _clustering(G, kw.get("weight"))
    x = kw.get("nodes")
    vals = [f(v) for v in (G if x is None else x.items)]
    if not kw.get("count_zeros", True):
        vals = [v for v in vals if abs(v) > 0]
    if not vals:
        return "raise", (ZeroDivisionError,)
    return "value", sum(vals) / len(vals)


def square_clustering(gs, args, kw, ctx):
    nb = _und(gs[0])

    def f(v):
        num = den = 0
        ns = list(nb[v])
        for i, u in enumerate(ns):
            for w in ns[:i]:
                q = len((nb[u] & nb[w]) - {v})
                num += q
                deg = q + 1 + (w in nb[u])
                den += (len(nb[u]) - deg) + (len(nb[w]) - deg) + q
        return num / den if num else 0

    return "value", _pick(gs[0], kw, f)


def generalized_degree(gs, args, kw, ctx):
    nb = _und(gs[0])
    want = _pick(gs[0], kw, lambda v: dict(Counter(len(nb[v] & nb[u]) for u in nb[v])))
    x = kw.get("nodes")
    if x is not None and not hasattr(x, "make"):
        return "value", want

    def check(r):
        if not isinstance(r, dict):
            return f"not a mapping: {r!r}"
        if r.keys() != want.keys() and want.keys() - r.keys() == {v for v in want if not want[v]} \
                and not r.keys() - want.keys():
            ctx.mech = "generalized_degree:isolated-omitted"
            if d := diff({v: k for v, k in want.items() if k}, r):
                ctx.mech = None
                return d
            return f"nodes without neighbours are left out: {list(want.keys() - r.keys())[:5]!r}"
        return diff(want, r)

    return "check", check


# ------------------------------------------------------------------ cuts and boundaries
def _known(G, x):
    return {v for v in (x.items if hasattr(x, "items") and hasattr(x, "make") else x) if v in G}


def _ST(gs, args):
    G = gs[0]
    S = _known(G, args[0])
    T = _known(G, args[1]) if len(args) > 1 and args[1] is not None else set(G) - S
    return G, S, T


def edge_boundary(gs, args, kw, ctx):
    G, S, T = _ST(gs, args)
    if S & T:
        return "skip", "overlapping sets"
    return "value", frozenset((u, v) for u in S for v in succ(G, u) if v in T)


def node_boundary(gs, args, kw, ctx):
    G, S, T = _ST(gs, args)
    return "value", frozenset(v for u in S for v in succ(G, u) if v in T and v not in S)


def _w(G, u, v, attr):
    return float(G[u][v].get(attr, 1)) if attr else 1


def _cut_value(G, S, T, attr):
    c = sum(_w(G, u, v, attr) for u in S for v in succ(G, u) if v in T)
    if G.is_directed():
        c += sum(_w(G, u, v, attr) for u in T for v in succ(G, u) if v in S)
    return c


def _vol(G, S, attr):
    return sum(_w(G, u, v, attr) * (2 if u == v and not G.is_directed() else 1) for u in S for v in succ(G, u))


def cuts(kind):
    def f(gs, args, kw, ctx):
        G, S, T = _ST(gs, args)
        if S & T:
            return "skip", "overlapping sets"
        attr = kw.get("weight")
        try:
            c = _cut_value(G, S, T, attr)
            if kind == "cut_size":
                return "value", c
            if kind == "conductance":
                return "value", c / min(_vol(G, S, attr), _vol(G, T, attr))
            if kind == "normalized_cut_size":
                return "value", c * (1 / _vol(G, S, attr) + 1 / _vol(G, T, attr))
            if kind == "edge_expansion":
                return "value", c / min(len(S), len(T))
            if kind == "mixing_expansion":
                return "value", c / (2 * G.number_of_edges())
        except ZeroDivisionError:
            return "raise", (ZeroDivisionError,)

    return f


def volume(gs, args, kw, ctx):
    G = gs[0]
    return "value", _vol(G, _known(G, args[0]), kw.get("weight"))


def node_expansion(gs, args, kw, ctx):
    G = gs[0]
    S = _known(G, args[0])
    return "value", len({v for u in S for v in succ(G, u)}) / len(S)


def boundary_expansion(gs, args, kw, ctx):
    G = gs[0]
    S = _known(G, args[0])
    return "value", len({v for u in S for v in succ(G, u)} - S) / len(S)


def is_dominating_set(gs, args, kw, ctx):
    G = gs[0]
    S = _known(G, args[0])
    return "value", set(G) == S | {v for u in S for v in succ(G, u)}


def _block_of(args):
    out = {}
    for i, b in enumerate(args[0].items):
        for v in b.items:
            out[v] = i
    return out


def intra(gs, args, kw, ctx):
    b = _block_of(args)
    return "value", sum(b[u] == b[v] for u, v in gs[0].edges)


def inter(gs, args, kw, ctx):
    b = _block_of(args)
    return "value", sum(b[u] != b[v] for u, v in gs[0].edges)


# ------------------------------------------------------------------ operators
def ego_graph(gs, args, kw, ctx):
    G, c = gs[0], args[0]
    radius = kw.get("radius", 1)
    attr = kw.get("distance")
    H = G
    if kw.get("undirected") and G.is_directed():
        if attr:
            if any(G.has_edge(v, u) and G[v][u].get(attr, 1) != w for u, v, w in G.edges(data=attr, default=1)):
                return "skip", "reciprocal arcs of different weight"
        H = G.to_undirected()
    if attr:
        d = bellman_ford(arcs(H, attr), c)
        if any(abs(x - radius) < 1e-9 and x != radius for x in d.values()):
            return "skip", "rounding"
        ball = {v for v, x in d.items() if x <= radius or v == c}
    else:
        ball = set(bfs(H, [c], succ, radius))
    if kw.get("center", True) is False:
        ball.discard(c)
    edges = {}
    for u, v in G.edges:
        if u in ball and v in ball:
            edges[(u, v) if G.is_directed() else frozenset((u, v))] = ctx.stored[u, v]
    return "value", {"directed": G.is_directed(), "nodes": frozenset(ball), "edges": edges}


def k_truss(gs, args, kw, ctx):
    G, k = gs[0], args[0]
    nb = _und(G)
    changed = k >= 3
    while changed:
        changed = False
        for u in list(nb):
            for v in list(nb[u]):
                if len(nb[u] & nb[v]) < k - 2:
                    nb[u].discard(v)
                    nb[v].discard(u)
                    changed = True
    nodes = frozenset(u for u in nb if nb[u])
    return "value", {"directed": False, "nodes": nodes,
                     "edges": {frozenset((u, v)): ctx.stored[u, v] for u in nb for v in nb[u]}}


def _gform(directed, nodes, edges):
    if not directed:
        edges = {frozenset(k): v for k, v in edges.items()}
    return {"directed": directed, "nodes": frozenset(nodes), "edges": edges}


def reverse(gs, args, kw, ctx):
    return "value", _gform(True, gs[0], {(v, u): w for (u, v), w in ctx.stored.items()})


def complement(gs, args, kw, ctx):
    G = gs[0]
    return "value", _gform(G.is_directed(), G, {(u, v): 1 for u in G for v in G if u != v and not G.has_edge(u, v)})


def binary_op(kind):
    def f(gs, args, kw, ctx):
        G, H = gs
        d = G.is_directed()
        E, F = ctx.stored, ctx.stored2
        if kind in ("difference", "symmetric_difference") and set(G) != set(H):
            return "raise", (nx.NetworkXError,)
        if kind in ("union", "full_join"):
            g, h = {v: v for v in G}, {v: v for v in H}
            ren = kw.get("rename") or ()
            if len(ren) > 0 and ren[0] is not None:
                g = {v: f"{ren[0]}{v}" for v in G}
            if len(ren) > 1 and ren[1] is not None:
                h = {v: f"{ren[1]}{v}" for v in H}
            if set(g.values()) & set(h.values()) or len(set(g.values())) < len(g) or len(set(h.values())) < len(h):
                # (new names that merge nodes are refused: networkx glues the nodes together)
                return "raise", (nx.NetworkXError,)
            ed = {(g[u], g[v]): w for (u, v), w in E.items()} | {(h[u], h[v]): w for (u, v), w in F.items()}
            if kind == "full_join":
                for a in g.values():
                    for b in h.values():
                        ed[a, b] = 1
                        ed[b, a] = 1
            return "value", _gform(d, [*g.values(), *h.values()], ed)
        if kind == "compose":
            return "value", _gform(d, set(G) | set(H), E | F)
        if kind == "intersection":
            return "value", _gform(d, set(G) & set(H), {k: 1 for k in E if k in F})
        if kind == "difference":
            return "value", _gform(d, G, {k: 1 for k in E if k not in F})
        if kind == "symmetric_difference":
            return "value", _gform(d, G, {k: 1 for k in E.keys() ^ F.keys()})
        if kind == "disjoint_union":
            n = len(G)
            ig, ih = ({v: i for i, v in enumerate(o)} for o in (ctx.order, ctx.order2))
            ed = {(ig[u], ig[v]): w for (u, v), w in E.items()} | \
                 {(ih[u] + n, ih[v] + n): w for (u, v), w in F.items()}
            return "value", _gform(d, range(n + len(H)), ed)

    return f


# ------------------------------------------------------------------ matrices
def _nl(kw, ctx):
    return kw.get("nodelist") or ctx.order


def adjacency_matrix(gs, args, kw, ctx):
    return "value", adjacency(gs[0], weight_of(kw), _nl(kw, ctx))


def laplacian(gs, args, kw, ctx):
    A = adjacency(gs[0], weight_of(kw), _nl(kw, ctx))
    return "value", np.diag(A.sum(axis=1)) - A


def normalized_laplacian(gs, args, kw, ctx):
    A = adjacency(gs[0], weight_of(kw), _nl(kw, ctx))
    d = A.sum(axis=1)
    if (d < 0).any():
        return "skip", "negative degree"
    s = np.where(d > 0, 1 / np.sqrt(np.where(d > 0, d, 1)), 0)
    return "value", s[:, None] * (np.diag(d) - A) * s[None, :]


def modularity(gs, args, kw, ctx):
    A = adjacency(gs[0], kw.get("weight"), _nl(kw, ctx))
    kout, kin = A.sum(axis=1), A.sum(axis=0)
    if A.sum() == 0:
        return "skip", "no edges"
    return "value", A - np.outer(kout, kin) / A.sum()


def bethe_hessian(gs, args, kw, ctx):
    G = gs[0]
    A = stored_matrix(ctx, _nl(kw, ctx))
    r = kw.get("r")
    if r is None:
        deg = dict(G.degree)
        if not sum(deg.values()):
            return "skip", "no edges"
        r = sum(x * x for x in deg.values()) / sum(deg.values()) - 1
    n = len(A)
    return "value", (r * r - 1) * np.eye(n) - r * A + np.diag(A.sum(axis=1))


def tournament_matrix(gs, args, kw, ctx):
    A = stored_matrix(ctx, ctx.order)
    return "value", A - A.T


# ------------------------------------------------------------------ structure
def degree_centrality(way):
    def f(gs, args, kw, ctx):
        G = gs[0]
        n = len(G)
        if n <= 1:
            return "value", {v: 1 for v in G}
        out = {}
        for v in G:
            if way == "in":
                k = len(pred(G, v))
            elif way == "out":
                k = len(succ(G, v))
            else:
                k = len(succ(G, v)) + (len(pred(G, v)) if G.is_directed() else (v in succ(G, v)))
            out[v] = k / (n - 1)
        return "value", out

    return f


def is_tournament(gs, args, kw, ctx):
    G = gs[0]
    nodes = list(G)
    ok = not any(G.has_edge(v, v) for v in nodes) and all(
        G.has_edge(u, v) != G.has_edge(v, u) for i, u in enumerate(nodes) for v in nodes[:i])
    return "value", ok


def could_be(kind):
    def f(gs, args, kw, ctx):
        G, H = gs

        def sig(X):
            if kind == "degree":
                return sorted(d for _, d in X.degree)
            if X.is_directed():
                return None
            nb = _und(X)
            return sorted((d, sum(len(nb[v] & nb[u]) for u in nb[v]) // 2) for v, d in X.degree)

        a, b = sig(G), sig(H)
        if a is None:
            return "skip", "triangles of directed graphs"
        return "value", a == b

    return f


def reciprocity(gs, args, kw, ctx):
    G = gs[0]

    def one(v):
        p, s = set(pred(G, v)), set(succ(G, v))
        t = len(p) + len(s)
        return None if t == 0 else 2 * len(p & s) / t

    x = kw.get("nodes")
    if x is None:
        return overall_reciprocity(gs, args, kw, ctx)
    if hasattr(x, "make"):
        want = {v: one(v) for v in x.items}

        def check(r):
            if not isinstance(r, dict) or r.keys() - want.keys():
                return f"unexpected keys in {r!r}"[:300]
            return diff({v: w for v, w in want.items() if w is not None},
                        {v: w for v, w in r.items() if w is not None})

        return "check", check
    w = one(x)
    return ("raise", (nx.NetworkXError,)) if w is None else ("value", w)


def overall_reciprocity(gs, args, kw, ctx):
    G = gs[0]
    m = G.number_of_edges()
    if not m:
        return "raise", (nx.NetworkXError,)
    return "value", sum(u != v and G.has_edge(v, u) for u, v in G.edges) / m


ORACLE = {
    "descendants": descendants, "ancestors": ancestors, "is_connected": is_connected,
    "is_weakly_connected": is_connected, "node_connected_component": node_connected_component,
    "has_path": has_path, "bfs_layers": bfs_layers, "descendants_at_distance": descendants_at_distance,
    "lowest_common_ancestor": lowest_common_ancestor, "ego_graph": ego_graph,
    "single_source_shortest_path_length": sssp, "single_target_shortest_path_length": stsp,
    "all_pairs_shortest_path_length": apsp, "efficiency": efficiency,
    "single_source_bellman_ford_path_length": ss_bf, "all_pairs_bellman_ford_path_length": ap_bf,
    "bellman_ford_path_length": bf_length, "bellman_ford_path": bf_path,
    "negative_edge_cycle": negative_edge_cycle, "floyd_warshall": floyd_warshall,
    "floyd_warshall_numpy": floyd_warshall_numpy,
    "floyd_warshall_predecessor_and_distance": floyd_warshall_pd,
    "pagerank": pagerank, "google_matrix": google_matrix, "katz_centrality": katz,
    "eigenvector_centrality": eigenvector, "hits": hits,
    "triangles": triangles, "transitivity": transitivity, "clustering": clustering,
    "average_clustering": average_clustering, "square_clustering": square_clustering,
    "generalized_degree": generalized_degree,
    "edge_boundary": edge_boundary, "node_boundary": node_boundary, "volume": volume,
    "node_expansion": node_expansion, "boundary_expansion": boundary_expansion,
    "is_dominating_set": is_dominating_set, "intra_community_edges": intra,
    "inter_community_edges": inter,
    "k_truss": k_truss, "reverse": reverse, "complement": complement,
    "adjacency_matrix": adjacency_matrix, "laplacian_matrix": laplacian,
    "normalized_laplacian_matrix": normalized_laplacian, "modularity_matrix": modularity,
    "directed_modularity_matrix": modularity, "bethe_hessian_matrix": bethe_hessian,
    "tournament_matrix": tournament_matrix,
    "degree_centrality": degree_centrality("all"), "in_degree_centrality": degree_centrality("in"),
    "out_degree_centrality": degree_centrality("out"), "is_tournament": is_tournament,
    "fast_could_be_isomorphic": could_be("triangle"), "faster_could_be_isomorphic": could_be("degree"),
    "reciprocity": reciprocity, "overall_reciprocity": overall_reciprocity,
    **{k: cuts(k) for k in ("cut_size", "conductance", "normalized_cut_size", "edge_expansion", "mixing_expansion")},
    **{k: binary_op(k) for k in ("union", "full_join", "compose", "intersection", "difference",
                                 "symmetric_difference", "disjoint_union")},
}


def context(**kw):
    return SimpleNamespace(**{"stored": {}, "stored2": {}, "order": None, "order2": None, "missing": 0.0,
                              "rtol": None, "atol": None, "mech": None, "settles": None, **kw})
