"""Results follow the labels, not the storage order."""
from .. import diffs
from ..catalog import SPECS
from ..gen import describe
from ..meta import CHOICE, disagreement, draw_abstract, observe, realise, result_order, translate_result

ID = "C15"
CASES = {"quick": 24000, "thorough": 400000}
RULE = ("a case draws a function, abstract graphs and arguments, and realises them two or three times: different label "
        "types (strings, tuples, negative or huge integers, floats, integers that collide with internal positions, "
        "mixed), different node and edge insertion orders, different internal numbering, handed over as networkx "
        "graph, converted graph or hand-built native graph. The results, with labels translated back, must be equal; "
        "where several answers are right each is judged by its definition. Non-trivial: the graph has an edge; "
        "distinct by (function, schemes, ways, arguments, edges)")
EXPECT = {"compared": 15000, "judged_choice": 500, "call:disjoint_union": 50, "scrambled": 5000, "collide": 3000}
ASSUMPTIONS = ["labels are hashable and unequal to each other"]
NAMES = sorted(SPECS)
SLOW = {"hits", "google_matrix"}


def case(c):
    rng = c.rng
    name = rng.choice(NAMES)
    if name in SLOW and rng.random() < 0.5:
        name = rng.choice(NAMES)
    spec, ags, info, aargs, akw = draw_abstract(c, name)
    c.say(f"{name} on {' and '.join(describe(g) for g in ags)} args={aargs!r} kw={akw!r}")
    c.ev(f"call:{name}")
    runs = []
    for i in range(2 if rng.random() < 0.8 else 3):
        scheme = rng.choice((None, "range", "shuffled", "shuffled")) if i else None
        gs, args, kw, inverse, m = realise(rng, ags, aargs, akw, scheme, shuffle=i > 0 or rng.random() < 0.5)
        mode = rng.choice(diffs.MODES)
        graphs, ctx = diffs.prepare(rng, spec, gs, info, kw, mode)
        c.say(f"run {i}: {mode}, order {ctx.order!r}, labels {inverse!r}")
        c.ev(f"mode:{mode}")
        if ctx.order != list(gs[0]):
            c.ev("scrambled")
        if scheme == "shuffled":
            c.ev("collide")
        o = observe(name, mode, graphs, args, kw, ctx)
        want = diffs.expected(name, spec, gs, args, kw, ctx) if name in CHOICE or name == "ego_graph" or name.startswith("floyd") else None
        if o.exc is None and name not in CHOICE:
            inv = inverse
            if name == "disjoint_union":  # labelled by position: first operand, then second
                both = [(0, inverse[v]) for v in ctx.order] + [(1, inverse[v]) for v in ctx.order2]
                inv = dict(enumerate(both))
            o.value = translate_result(name, o.value, inv, [v for v in result_order(kw, ctx)])
        runs.append((mode, ctx, o, want, scheme))
        if want is not None and want[0] == "skip" and name not in CHOICE:
            c.ev("unspecified")  # undirected ego graph with different weights in the two directions; negative cycle
            return
        if name in CHOICE and want[0] != "skip":
            if isinstance(o.exc, diffs.ALLOWED_FAILURES.get(name, ())):
                continue
            c.ev("judged_choice")
            diffs.judge(c, name, spec, o.raw, o.exc, want, ctx, f"{name} via {mode}")
    if name not in CHOICE:
        a = runs[0]
        for b in runs[1:]:
            give_up = diffs.ALLOWED_FAILURES.get(name, ())
            if isinstance(a[2].exc, give_up) or isinstance(b[2].exc, give_up):
                c.ev("gave_up")
                if (a[2].exc is None) == (b[2].exc is None):
                    continue
                if a[1].settles is None:
                    diffs.expected(name, spec, gs, args, kw, ctx)
                k = ctx.settles() if ctx.settles else None
                limit = kw.get("max_iter", 1000 if name == "katz_centrality" else 100)
                c.check(k is None or abs(k - limit) <= 2, f"{name}:gave-up-differs",
                        lambda: f"{a[0]}: {a[2]} but {b[0]}: {b[2]} ({k} rounds are enough of {limit})")
                continue
            d = disagreement(name, a[2], b[2], akw, topology=a[1].topology or b[1].topology)
            c.ev("compared")
            c.check(not d, f"{name}:depends-on-labels", lambda: f"{name} via {a[0]} against {b[0]}: {d}")
    c.judged((name, tuple((r[0], r[4]) for r in runs), repr(aargs), sorted(map(repr, akw.items())),
              sorted(map(repr, ags[0].edges))[:40]), info["m"] > 0)
