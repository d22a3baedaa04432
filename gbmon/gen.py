"""Workload generation: graphs, labels, weights.  Every choice comes from the case's own
`random.Random`, so a case is replayed from (seed, property, index)."""
from .env import nx

# --------------------------------------------------------------------------- labels
LABELS = ("range", "shuffled", "offset", "negative", "str", "tuple", "mixed", "float", "frozenset",
          "bigint", "falsy", "clash", "pairs")


class Clash:
    """A label whose hash says nothing."""

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, Clash) and self.i == other.i

    def __repr__(self):
        return f"Clash({self.i})"


FALSY = ("", 0, b"", "0")


def make_labels(rng, n, scheme=None):
    if scheme is None:
        scheme = rng.choices(LABELS, weights=(20, 22, 10, 8, 14, 8, 7, 4, 3, 3, 5, 2, 3))[0]
        if scheme == "clash" and n > 40:
            scheme = "falsy"
    if scheme == "range":
        labels = list(range(n))
    elif scheme == "shuffled":
        labels = list(range(n))
        rng.shuffle(labels)
    elif scheme == "offset":
        k = rng.randint(1, 7)
        labels = list(range(k, n + k))
        if rng.random() < 0.5:
            rng.shuffle(labels)
    elif scheme == "negative":
        labels = list(range(-n // 2, -n // 2 + n))
        rng.shuffle(labels)
    elif scheme == "str":
        labels = [chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
        rng.shuffle(labels)
    elif scheme == "tuple":
        labels = [(i // 4, i % 4) for i in range(n)]
        rng.shuffle(labels)
    elif scheme == "mixed":
        labels = []
        for i in range(n):
            labels.append([i, f"s{i}", (i, "t"), i + 0.5, frozenset((i,)), -i - 1][i % 6])
        rng.shuffle(labels)
    elif scheme == "float":
        labels = [i / 4 - 1.125 for i in range(n)]
        rng.shuffle(labels)
    elif scheme == "frozenset":
        labels = [frozenset((i, "x")) for i in range(n)]
        rng.shuffle(labels)
    elif scheme == "bigint":
        labels = [10**12 + 7 * i for i in range(n)]
        rng.shuffle(labels)
    elif scheme == "falsy":
        labels = [FALSY[i] if i < len(FALSY) else f"n{i}" for i in range(n)]
        rng.shuffle(labels)
    elif scheme == "clash":
        labels = [Clash(i) for i in range(n)]
        rng.shuffle(labels)
    elif scheme == "pairs":  # some look like edges
        labels = [str(i // 2) if i % 2 else (str(i // 2), i // 2 + 1) for i in range(n)]
        rng.shuffle(labels)
    else:
        raise ValueError(scheme)
    return scheme, labels


# --------------------------------------------------------------------------- topology
def _edges_gnp(rng, n, p, directed):
    for i in range(n):
        for j in range(n) if directed else range(i + 1, n):
            if i != j and rng.random() < p:
                yield i, j


def _topology(rng, n, directed, family):
    """Edges over 0..n-1 without self-loops."""
    r = rng.random
    E = set()
    if family == "empty" or n == 0:
        return E
    if family == "sparse":
        E.update(_edges_gnp(rng, n, min(1.0, rng.uniform(0.3, 1.6) / max(n, 1)), directed))
    elif family == "medium":
        E.update(_edges_gnp(rng, n, min(1.0, rng.uniform(2, 4) / max(n, 1)), directed))
    elif family == "dense":
        E.update(_edges_gnp(rng, n, rng.uniform(0.4, 0.95), directed))
    elif family == "complete":
        E.update((i, j) for i in range(n) for j in range(n) if i != j)
        for e in rng.sample(sorted(E), min(len(E), rng.randint(0, 3))):
            E.discard(e)
            if not directed:
                E.discard(e[::-1])
    elif family == "path":
        p = list(range(n))
        rng.shuffle(p)
        E.update(zip(p, p[1:]))
    elif family == "cycle":
        p = list(range(n))
        rng.shuffle(p)
        if n > 2:
            E.update(zip(p, p[1:] + p[:1]))
        if r() < 0.3 and n > 4:
            E.add((p[0], p[n // 2]))
    elif family == "star":
        for i in range(1, n):
            E.add((0, i) if (not directed or r() < 0.5) else (i, 0))
    elif family == "tree":
        for i in range(1, n):
            j = rng.randrange(max(0, i - rng.choice((1, 3, n))), i)
            E.add((j, i) if not directed or r() < 0.7 else (i, j))
    elif family == "bipartite":
        k = rng.randint(1, max(1, n - 1))
        for i in range(k):
            for j in range(k, n):
                if r() < 0.5:
                    E.add((i, j) if not directed or r() < 0.5 else (j, i))
    elif family == "grid":
        w = max(1, int(n**0.5))
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                E.add((i, i + 1))
            if i + w < n:
                E.add((i, i + w))
    elif family == "cliques":
        k = rng.randint(2, 5)
        for c in range(0, n, k):
            mem = range(c, min(n, c + k))
            E.update((i, j) for i in mem for j in mem if i < j or (directed and i != j and r() < 0.7))
        for c in range(k, n, k):
            if r() < 0.7:
                E.add((c - 1, c))
    elif family == "components":
        cut = sorted(rng.sample(range(n + 1), min(n + 1, rng.randint(1, 3))))
        bounds = [0, *cut, n]
        for lo, hi in zip(bounds, bounds[1:]):
            sub = rng.choice(("sparse", "medium", "path", "cycle", "dense"))
            E.update((a + lo, b + lo) for a, b in _topology(rng, hi - lo, directed, sub))
    elif family == "dag":
        p = rng.choice((1.2 / max(n, 1), 3 / max(n, 1), 0.4))
        E.update((i, j) for i in range(n) for j in range(i + 1, n) if r() < p)
    elif family == "tournament":
        E.update((i, j) if r() < 0.5 else (j, i) for i in range(n) for j in range(i + 1, n))
        if r() < 0.25 and E:
            e = rng.choice(sorted(E))
            E.discard(e)
            if r() < 0.7:
                E.add(e[::-1] if r() < 0.5 else (e[0], rng.randrange(n)))
        E = {(a, b) for a, b in E if a != b}
    elif family == "regular":
        k = rng.randint(1, max(1, min(4, n - 1)))
        x = r()
        for i in range(n):
            if directed and x < 0.4:  # every node sends (or gets) as many; the other way round they only all have some
                js = rng.sample([j for j in range(n) if j not in (i, (i + 1) % n)], max(0, min(k, n - 1) - 1))
                js += [(i + 1) % n] if n > 1 else []
                E.update((i, j) if x < 0.2 else (j, i) for j in js)
                continue
            for d in range(1, k + 1):
                j = (i + d) % n
                if i != j:
                    E.add((i, j))
        if r() < 0.3 and E:
            E.discard(rng.choice(sorted(E)))
    elif family == "hub":
        E.update(_edges_gnp(rng, n, min(1.0, 1.5 / max(n, 1)), directed))
        for h in range(min(2, n)):
            for j in range(n):
                if j != h and r() < 0.6:
                    E.add((h, j) if not directed or r() < 0.6 else (j, h))
    elif family == "lollipop":
        k = max(1, n // 2)
        E.update((i, j) for i in range(k) for j in range(k) if i < j or (directed and i != j))
        E.update((i, i + 1) for i in range(k - 1, n - 1))
    else:
        raise ValueError(family)
    if directed and family not in ("dag", "tournament") and r() < 0.35:
        E |= {(b, a) for a, b in sorted(E) if r() < 0.4}  # reciprocal arcs
    return E


FAMILIES = ("sparse", "medium", "dense", "complete", "path", "cycle", "star", "tree", "bipartite",
            "grid", "cliques", "components", "dag", "tournament", "regular", "hub", "lollipop",
            "empty")
_FW = (14, 16, 12, 4, 4, 5, 4, 6, 5, 4, 6, 8, 6, 3, 5, 5, 3, 2)


def pick_n(rng, lo=0, hi=60):
    x = rng.random()
    if x < 0.05:
        n = rng.randint(0, 2)
    elif x < 0.55:
        n = rng.randint(3, 9)
    elif x < 0.85:
        n = rng.randint(8, 22)
    else:
        n = rng.randint(20, max(20, hi))
    return max(lo, min(hi, n))


# --------------------------------------------------------------------------- weights
WEIGHTS = ("none", "unit", "iso", "isof", "int", "float", "missing", "zeros", "bool", "wide",
           "negint", "negfloat", "negdag", "isoneg", "isozero", "ties", "negloop")
NONNEG = ("none", "unit", "iso", "isof", "int", "float", "missing", "bool", "wide", "ties")
POTENTIAL = ("potential", "potentialf", "nearneg")
POSITIVE = ("none", "unit", "iso", "isof", "int", "float", "missing", "wide", "ties")


def weight_fn(rng, scheme):
    c = rng.randint(2, 9)
    cf = rng.choice((0.5, 2.5, 0.125, 3.75, 10.0))
    r = rng.random
    return {
        "none": lambda: None,
        "unit": lambda: 1,
        "iso": lambda: c,
        "isof": lambda: cf,
        "int": lambda: rng.randint(1, 12),
        "ties": lambda: rng.randint(1, 3),
        "float": lambda: round(rng.uniform(0.05, 6.0), 3),
        "missing": lambda: None if r() < 0.4 else rng.randint(2, 7),
        "zeros": lambda: rng.choice((0, 0, 1, 2, 5)),
        "bool": lambda: True,
        "wide": lambda: rng.choice((1e-6, 1.0, 3.5, 1e6, 2**33, 7)),
        "negint": lambda: rng.randint(-2, 9),
        "negfloat": lambda: rng.randint(-5, 40) / 8,
        "negdag": lambda: rng.randint(-6, 6),
        "isoneg": lambda: -c,
        "isozero": lambda: 0,
        "negloop": lambda: rng.choice((0, 1, 2, 5)),
    }[scheme]


def make_graph(rng, directed=None, *, family=None, n=None, weights="none", attr="weight",
               self_loops=None, labels=None, lo=0, hi=60, cap=28):
    """Return (G, info): an nx.Graph/DiGraph built by a shuffled insertion history."""
    if directed is None:
        directed = rng.random() < 0.5
    if family is None:
        family = rng.choices(FAMILIES, weights=_FW)[0]
    if n is None:
        n = pick_n(rng, lo, hi)
    if family in ("complete", "dense", "lollipop", "tournament", "bipartite"):
        n = min(n, max(cap, 28))
    E = sorted(_topology(rng, n, directed, family))
    if not directed:
        E = sorted({tuple(sorted(e)) for e in E})
    if rng.random() < 0.3:  # relabel positions so structure is not aligned with index order
        perm = list(range(n))
        rng.shuffle(perm)
        E = [(perm[a], perm[b]) for a, b in E]
    if isinstance(weights, (tuple, list)):
        weights = rng.choice(weights)
    loop = None
    if weights == "negloop" and n:  # one negative self-loop, at a node that not everybody reaches
        indeg = [0] * n
        for a, b in E:
            indeg[b] += 1
            indeg[a] += not directed
        loop = min(range(n), key=lambda i: (indeg[i], rng.random())) if rng.random() < 0.6 else rng.randrange(n)
        E.append((loop, loop))
    if self_loops is None:
        self_loops = rng.random() < 0.3
    if self_loops and n:
        k = n if rng.random() < 0.1 else rng.randint(1, max(1, n // 3))
        E += [(i, i) for i in rng.sample(range(n), k) if i != loop]
    scheme, lab = make_labels(rng, n, labels)
    wf = weight_fn(rng, weights if weights not in POTENTIAL else "int")
    rng.shuffle(E)
    pot = None
    if weights in POTENTIAL:  # negative arcs, no negative cycle (nearneg: one arc may make one)
        k = rng.choice((3, 9))
        f = 8 if weights == "potentialf" else 1
        pot = [rng.randint(-k * f, k * f) / f if f > 1 else rng.randint(-k, k) for _ in range(n)]
        top = rng.choice((0, 1, 4))
        odd = rng.randrange(len(E)) if E and weights == "nearneg" else -1
        steps = iter(range(len(E)))

        def base():
            return rng.randint(-1, 0) if next(steps) == odd else rng.randint(0, top * f) / f if f > 1 else rng.randint(0, top)

    G = (nx.DiGraph if directed else nx.Graph)()
    how = rng.random()
    if how < 0.6:
        G.add_nodes_from(lab)
    elif how < 0.8:  # nodes appear as edges are inserted, leftovers at the end
        pass
    else:
        G.add_nodes_from(lab[: n // 2])
    for a, b in E:
        if not directed and rng.random() < 0.5:
            a, b = b, a
        w = wf() if not pot or not directed else base() + pot[a] - pot[b]
        if loop is not None and a == b == loop:
            w = -rng.choice((1, 3))
        if w is None:
            G.add_edge(lab[a], lab[b])
        else:
            G.add_edge(lab[a], lab[b], **{attr: w})
    G.add_nodes_from(lab)
    if n and rng.random() < 0.15:  # delete and re-insert: order of adjacency differs from node order
        v = rng.choice(lab)
        ed = list(G.edges(v, data=True)) + (list(G.in_edges(v, data=True)) if directed else [])
        G.remove_node(v)
        G.add_node(v)
        G.add_edges_from(ed)
    info = {"directed": directed, "family": family, "n": n, "m": G.number_of_edges(),
            "weights": weights, "labels": scheme, "loops": nx.number_of_selfloops(G), "attr": attr}
    return G, info


BIG = ("path", "path", "cycle", "grid", "star", "complete", "dense", "hub", "cliques", "tree", "lollipop", "bipartite",
       "sparse", "medium", "components")


def describe(G, limit=60):
    """Printable reconstruction of a (small) graph."""
    if not isinstance(G, nx.Graph):
        return repr(G)[:400]
    cls = type(G).__name__
    ed = list(G.edges(data=True))
    if G.is_multigraph():
        ed = list(G.edges(keys=True, data=True))
    if len(G) + len(ed) > 3 * limit:
        return f"nx.{cls} with {len(G)} nodes, {len(ed)} edges"
    return f"nx.{cls} nodes={list(G)!r} edges={ed!r}"
