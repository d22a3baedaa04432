"""Results do not depend on how the work is split into chunks."""
import math
import random
from fractions import Fraction

from .. import diffs
from ..build import ga_graph, nx_to_ga
from ..canon import canon, diff
from ..catalog import SPECS, Lazy, fresh
from ..env import Dispatcher, ga, nx, np
from ..gen import describe

from graphblas_algorithms.nxapi import _utils as U

ID = "C16"
CASES = {"quick": 14000, "thorough": 200000}
RULE = ("a case is one of: (a) one chunkable call (all-pairs hops with and without cutoff, all-pairs Bellman-Ford with "
        "and without weights, square clustering of all nodes or a selection) made on the same graph with 3-6 chunk "
        "specifications - counts, numbers of chunks, byte sizes, defaults, everything - all results equal to each "
        "other and to the definition, every source exactly once, rows kept while the generator runs on unchanged; "
        "(b) chunk specifications parsed and compared with an independent reading of the format; (c) partition and "
        "split_evenly of several kinds of sequences: concatenation is the input, no empty or oversized chunk, "
        "near-equal chunks. A few large sparse graphs are split by the default specification. Distinct by (call, "
        "effective chunk sizes, graph) resp. input")
EXPECT = {"calls": 20000, "parsed": 3000, "partitions": 3000, "split_run": 8000, "single_row_run": 1500, "large": 3,
          "bad_spec": 300}
ASSUMPTIONS = ["negative byte sizes and non-finite numbers are not chunk specifications"]
FUNCS = ("all_pairs_shortest_path_length", "all_pairs_bellman_ford_path_length", "square_clustering")
BYTES = {"b": 1}
for _i, _p in enumerate("kmgtpez"):
    BYTES[f"{_p}b"] = 1000 ** (_i + 1)
    BYTES[f"{_p}ib"] = 1024 ** (_i + 1)


# ------------------------------------------------------------------ reading a specification
def meaning(spec, itemsize=1, N=None):
    """('all', None) | ('rows', lo, hi) | ('error', class): rows per chunk, give or take rounding."""
    if spec is None:
        return ("all",)
    if isinstance(spec, (int, float, np.number, Fraction)):
        k = int(spec)
        return ("all",) if k <= 0 or (N is not None and k >= N) else ("rows", k, k)
    if not isinstance(spec, str):
        return ("error", TypeError)
    s = "".join(ch for ch in spec if ch not in " _").lower()
    if s in ("", "all"):
        return ("all",)
    k = len(s)
    while k and not s[k - 1].isdigit():
        k -= 1
    num, unit = (s[:k], s[k:]) if k else ("1", s)
    try:
        x = Fraction(num) if "/" not in num else None
    except (ValueError, ZeroDivisionError):
        x = None
    if x is None:
        try:
            x = Fraction(float(num))
        except (ValueError, OverflowError):
            return ("error", ValueError)
    if unit in ("chunk", "chunks"):
        if x <= 1:
            return ("all",)
        if N is None:
            return ("error", TypeError)
        r = math.ceil(N / x)
        lo = hi = r
        if abs(N / x - round(N / x)) < Fraction(1, 10**9):
            lo, hi = r - 1, r + 1
    elif unit == "":
        lo, hi = math.floor(x), math.ceil(x)
    elif unit in BYTES:
        y = max(Fraction(1), x * BYTES[unit] / max(1, itemsize))
        lo, hi = math.floor(y), math.ceil(y)
        slack = max(0, int(y / 10**12))
        lo, hi = lo - slack, hi + slack
        frac = y - math.floor(y)
        if not slack and abs(frac - Fraction(1, 2)) > Fraction(1, 10**6):
            lo = hi = round(y)
    else:
        return ("error", ValueError)
    if unit == "" and abs(x - math.floor(x) - Fraction(1, 2)) > Fraction(1, 10**6):
        lo = hi = round(x)
    if hi <= 0 or (N is not None and lo >= N):
        return ("all",)
    if lo <= 0 or (N is not None and hi >= N):
        return ("rows or all", max(1, lo), hi)
    return ("rows", lo, hi)


def random_spec(rng, n, itemsize, bad=True):
    x = rng.random()
    if x < 0.06:
        return None
    if x < 0.12:
        return rng.choice(("all", "", " ", "ALL", "_"))
    if x < 0.35:
        return rng.choice((0, -1, 1, 2, 3, 4, 5, 7, n - 1, n, n + 1, n // 2, 10**6, 2.0, 3.7, np.int64(3), np.float64(2.5), True))
    if x < 0.42:
        return rng.choice(("1", "2", "3", "5", " 4 ", "1_0", "2.0", "1e1", str(n), str(max(1, n - 1)), "0"))
    if x < 0.62:
        k = rng.choice((0, 1, 2, 3, 4, 5, 7, n, n + 1, 2 * n, 1.5, 2.5))
        return f"{k}{rng.choice((' ', '', '_'))}{rng.choice(('chunks', 'chunk', 'Chunks', 'CHUNK'))}"
    if x < 0.95 or not bad:
        unit = rng.choice(("b", "B", "kb", "KB", "kB", "kib", "KiB", "mb", "MiB", "MB", "gb", "GiB", "tb", "TiB", "pb",
                           "PiB", "eb", "EiB", "zb", "ZiB"))
        u = BYTES[unit.lower()]
        if rng.random() < 0.6:  # aim at few rows
            rows = rng.choice((0.3, 1, 1.4, 2, 2.6, 3, 5, n / 2 if n else 1, n))
            num = rows * itemsize / u
            num = rng.choice((repr(num), f"{num:.6g}", f"{num:.3f}"))
        else:
            num = rng.choice(("1", "2", "0.5", "10", ".25", "1e-3", "1_000", "100", "", "3."))
            if num == "3.":
                num = "3.0"
        return f"{num}{rng.choice((' ', '', '  '))}{unit}"
    return rng.choice(("5 parts", "x", "kbs", "1 kbit", "1..2 kb", "a1b", "one chunk", "3 chunkz", "1 k", "1,5 mb", [], (2,), {},
                       b"1kb", "1 2 3 mi", "--1", "12 mbb", object()))


def parse_case(c):
    rng = c.rng
    for _ in range(rng.randint(3, 8)):
        n = rng.choice((0, 1, 2, 3, 5, 10, 100, 1000, 10**6))
        N = None if rng.random() < 0.25 else n
        item = rng.choice((1, 8, 80, 800, 4, 7, 0, 8000, 10**6))
        s = random_spec(rng, n, max(1, item))
        want = meaning(s, item, N)
        c.say(f"normalize_chunksize({s!r}, {item}, {N})")
        c.ev("parsed")
        try:
            got = U.normalize_chunksize(s, item, N)
        except Exception as e:
            got = e
        if want[0] == "error":
            c.ev("bad_spec")
            ok = isinstance(got, want[1])
        elif want[0] == "all":
            ok = got is None
        elif want[0] == "rows or all":
            ok = got is None or isinstance(got, int) and want[1] <= got <= want[2]
        else:
            ok = isinstance(got, (int, np.integer)) and want[1] <= got <= want[2]
        c.check(ok, "normalize_chunksize", lambda: f"normalize_chunksize({s!r}, {item}, {N}) = {got!r}, expected {want!r}")
        c.judged(("parse", repr(s) if not type(s) is object else "object", item, N))


# ------------------------------------------------------------------ partitions
def seqs(rng, n):
    return rng.choice((list(range(n)), tuple(range(n)), range(n), np.arange(n), [("x", i % 3) for i in range(n)],
                       "".join(chr(97 + i % 26) for i in range(n)), np.arange(n, dtype=np.uint64)))


def flat(chunks):
    out = []
    for x in chunks:
        out.extend(list(x))
    return out


def partition_case(c):
    rng = c.rng
    for _ in range(rng.randint(3, 8)):
        n = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 16, 17, 31, 64, 100, 257))
        L = seqs(rng, n)
        c.ev("partitions")
        if rng.random() < 0.65:
            k = rng.choice((0, -1, 1, 2, 3, 4, 5, 6, 7, 10, n - 1, n, n + 1, n // 2, n // 2 + 1, n // 3 + 1, 2.0, 3.9))
            kw = rng.choice(({}, {"evenly": True}, {"evenly": False}))
            c.say(f"partition({k}, {type(L).__name__} of {n}, {kw})")
            got = list(U.partition(k, L, **kw))
            size = int(k) if 0 < int(k) < n else n
            tag = f"partition({k}, {n} items, {kw})"
            sizes = [len(x) for x in got]
            c.check(all(0 < z <= size for z in sizes), "partition", lambda: f"{tag} gave chunks of {sizes}")
            c.check(len(got) == (math.ceil(n / size) if n else 0), "partition", lambda: f"{tag} gave {len(got)} chunks: {sizes}")
            if sizes:
                if kw.get("evenly", True):
                    c.check(max(sizes) - min(sizes) <= 1, "partition", lambda: f"{tag} is uneven: {sizes}")
                else:
                    c.check(all(z == size for z in sizes[:-1]), "partition", lambda: f"{tag} gave {sizes}")
        else:
            k = rng.choice((0, -1, 1, 2, 3, 4, 5, 6, 7, 10, n - 1, n, n + 1, 2 * n + 1, n // 2, 2.0, 3.9))
            c.say(f"split_evenly({k}, {type(L).__name__} of {n})")
            got = list(U.split_evenly(k, L))
            kk = max(1, int(k))
            sizes = [len(x) for x in got]
            tag = f"split_evenly({k}, {n} items)"
            c.check(len(got) == min(kk, n), "split_evenly", lambda: f"{tag} gave {len(got)} parts: {sizes}")
            c.check(all(sizes) and (not sizes or max(sizes) - min(sizes) <= 1), "split_evenly", lambda: f"{tag} gave {sizes}")
        c.check(flat(got) == list(L), "partition-loses", lambda: f"{tag}: {flat(got)!r} instead of {list(L)!r}")
        c.judged((tag, type(L).__name__))


# ------------------------------------------------------------------ chunked calls
def pairs_of(c, gen, keep, tag):
    """Consume the generator, remembering rows as first seen; every source once."""
    rows, first = {}, {}
    for src, row in gen:
        c.check(src not in rows, "source-twice", lambda: f"{tag}: {src!r} is yielded twice")
        rows[src] = row
        if keep:
            first[src] = canon(row)
    out = {k: canon(v) for k, v in rows.items()}
    if keep:
        d = diff(first, out)
        c.check(not d, "row-changed-later", lambda: f"{tag}: a row changed after the generator went on: {d}")
    return out


def run(c, name, g, args, kw, chunk, default, keep):
    k = {x: fresh(v) for x, v in kw.items()}
    if not default:
        k["chunksize"] = chunk
    r = getattr(Dispatcher, name)(g, *args, **k)
    if name == "square_clustering":
        return canon(r)
    return pairs_of(c, r, keep, f"{name}, chunksize {chunk!r}")


def call_case(c):
    rng = c.rng
    name = rng.choice(FUNCS)
    spec, gs, info, args, kw = diffs.draw(c, name)
    if name == "square_clustering" and kw.get("nodes") is not None and isinstance(kw["nodes"], Lazy) and kw["nodes"].items \
            and rng.random() < 0.3:
        kw = {**kw, "nodes": Lazy("list", kw["nodes"].items + kw["nodes"].items[:2])}
    mode = rng.choice(("native", "direct", "nx"))
    graphs, ctx = diffs.prepare(rng, spec, gs, info, kw, "backend" if mode == "nx" else mode)
    G = graphs[0]
    n = len(gs[0])
    item = n * (G.matrix.dtype.np_type.itemsize if mode != "nx" else 8)
    c.say(f"{name} ({mode}) on {describe(gs[0])} args={args!r} kw={kw!r}")
    want = diffs.expected(name, spec, gs, args, kw, ctx)
    base = None
    effective = []
    for i in range(rng.randint(3, 6)):
        default = i > 0 and rng.random() < 0.06
        chunk = None if i == 0 else random_spec(rng, n, max(1, item))
        if i == 1 and n > 3:
            chunk = rng.randint(2, n - 1)
        if i == 2 and rng.random() < 0.4:
            chunk = 1
        m = meaning(chunk, item, n) if not default else ("default",)
        c.say(f"chunksize {'default' if default else repr(chunk)} -> {m}")
        c.ev("calls")
        try:
            got = run(c, name, G, args, kw, chunk, default, rng.random() < 0.5)
        except (TypeError, ValueError) as e:
            c.check(m[0] == "error" and isinstance(e, m[1]), f"{name}:raised",
                    lambda: f"{name} with chunksize {chunk!r}: {type(e).__name__}: {e}")
            c.ev("bad_spec")
            continue
        except nx.NetworkXUnbounded as e:
            c.check(want[0] == "raise", f"{name}:unbounded",
                    lambda: f"{name} with chunksize {chunk!r} raised {e!r}, expected {want}")
            c.ev("negative_cycle")
            continue
        lazy = name == "square_clustering" and (not n or "nodes" in kw and not isinstance(kw["nodes"], Lazy))
        c.check(m[0] != "error" or lazy, f"{name}:bad-spec-accepted", lambda: f"{name} accepted chunksize {chunk!r}")
        c.check(want[0] != "raise", f"{name}:depends-on-chunks",
                lambda: f"{name} with chunksize {chunk!r} gave a value, expected {want[1]}")
        if spec.post:
            got = spec.post(got)
        if m[0] == "rows":
            effective.append(m[1])
            c.ev("single_row_run" if m[1] == 1 else "split_run")
        if base is None:
            base = got
            if want[0] == "value":
                d = diff(want[1], got, 1e-8, 1e-8)
                c.check(not d, f"{name}:wrong-result", lambda: f"{name} in one piece: expected vs got {d}")
        else:
            d = diff(base, got, 1e-9, 1e-12)
            c.check(not d, f"{name}:depends-on-chunks", lambda: f"{name}: chunksize None against {chunk!r}: {d}")
    c.judged((name, mode, tuple(sorted(set(effective))), repr(kw), sorted(map(repr, gs[0].edges))[:40]),
             bool(effective) and info["m"] > 0)


def large_case(c):
    """Graphs the default specification really splits (n*n*itemsize above 10 MiB)."""
    c.large()
    rng = c.rng
    name = rng.choice(FUNCS)
    square = name == "square_clustering"  # its default is 256 MiB
    n = rng.randint(5800, 6100) if square else rng.randint(1200, 1500)
    directed = rng.random() < 0.5 and not square
    g = (nx.DiGraph if directed else nx.Graph)()
    labels = list(range(n))
    rng.shuffle(labels)
    g.add_nodes_from(labels)
    i = 0
    while i < n - 1:  # small components
        k = min(rng.randint(1, 12), n - i)
        part = labels[i:i + k]
        for j in range(1, k):
            g.add_edge(part[j], part[rng.randrange(j)], weight=rng.randint(1, 9))
        for _ in range(k if square else k // 3):
            g.add_edge(rng.choice(part), rng.choice(part), weight=rng.randint(1, 9))
        i += k
    weight = "weight" if "ford" in name else None
    G = nx_to_ga(g, weight="weight")
    if n * n * G.matrix.dtype.np_type.itemsize <= (2**28 if square else 10 * 2**20):
        c.ev("large_in_one_piece")
    kw = {"weight": "weight"} if weight else {}
    c.say(f"{name} on a sparse graph of {n} nodes ({g.number_of_edges()} edges, directed {directed}), default chunks")
    a = run(c, name, G, (), kw, None, True, False)
    if square:
        _, want = diffs.expected(name, SPECS[name], [nx.Graph(g)], (), {}, None)
    elif weight:
        want = dict(nx.all_pairs_dijkstra_path_length(g))
    else:
        want = dict(nx.utils.backends._registered_algorithms["all_pairs_shortest_path_length"].orig_func(g))
    d = diff(want, a, 1e-9, 1e-9)
    c.check(not d, f"{name}:default-chunks", lambda: f"{name} with default chunks on {n} nodes: {d}")
    k = rng.choice((None, 100, "7 chunks", "1 MB", 37, n - 1))
    b = run(c, name, G, (), kw, k, False, False)
    d = diff(a, b, 1e-9, 1e-9)
    c.check(not d, f"{name}:default-chunks", lambda: f"{name} default against {k!r}: {d}")
    c.ev("large")
    c.judged((name, "large", n, directed, repr(k)))


def case(c):
    if c.idx % 2000 == 11:
        return large_case(c)
    x = c.rng.random()
    if x < 0.6:
        call_case(c)
    elif x < 0.8:
        parse_case(c)
    else:
        partition_case(c)
