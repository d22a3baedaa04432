"""Systematic small changes to the code under test, to find out what the monitors miss (a development tool:
no check uses it).

  python tools/mutate.py list                 the changes, one per line
  python tools/mutate.py cover DIR            which checks run which lines (writes DIR/cover.json)
  python tools/mutate.py run DIR [re] [secs]  try them, 8 at a time; results appended to DIR/results.jsonl
"""
import ast
import collections
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

REPO = "/repo"
PKG = os.path.join(REPO, "graphblas_algorithms")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEMI = {"min_plus": "max_plus", "plus_times": "plus_plus", "plus_pair": "plus_times", "any_pair": "plus_pair",
        "lor_pair": "any_pair", "any_plus": "min_plus", "min_second": "any_second", "plus_first": "plus_second",
        "plus_second": "plus_first", "min_secondi": "max_secondi", "any_secondi": "min_secondi",
        "min": "max", "max": "min", "plus": "times", "times": "plus", "any": "max", "lor": "land", "land": "lor",
        "pair": "second", "first": "second", "second": "first", "one": "identity", "tril": "triu", "triu": "tril",
        "offdiag": "diag", "rowwise": "columnwise", "columnwise": "rowwise", "isub": "minus", "minus": "plus",
        "lt": "le", "gt": "ge", "le": "lt", "ge": "gt", "eq": "ne", "ne": "eq", "truediv": "rdiv", "abs": "identity",
        "reduce_rowwise": "reduce_columnwise", "reduce_columnwise": "reduce_rowwise", "valuene": "valueeq",
        "successors": "predecessors", "S": "V", "T": None, "rowgt": "rowge", "colgt": "colge"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "*",
       ast.Mod: "//", ast.MatMult: None, ast.LShift: None, ast.Pow: "*"}
SKIPKW = {"name"}


def files():
    out = []
    for root, dirs, fs in os.walk(PKG):
        dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
        out += [os.path.join(root, f) for f in fs if f.endswith(".py") and f not in ("__init__.py", "_version.py", "exception.py", "exceptions.py")]
    return sorted(out)


class Src:
    def __init__(self, text):
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for ln in self.lines:
            self.starts.append(self.starts[-1] + len(ln))
        self.text = text

    def pos(self, line, col):
        b = self.lines[line - 1].encode()[:col].decode()
        return self.starts[line - 1] + len(b)

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def get(self, n):
        a, b = self.span(n)
        return self.text[a:b]


def mutants(path):
    text = open(path).read()
    tree = ast.parse(text)
    src = Src(text)
    out = []
    parents = {}
    for p in ast.walk(tree):
        for ch in ast.iter_child_nodes(p):
            parents[ch] = p

    def infunc(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return n.name
        return None

    def isdoc(n):
        p = parents.get(n)
        return isinstance(p, ast.Expr)

    def in_raise(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.Raise, ast.JoinedStr)):
                return True
            if isinstance(n, ast.stmt):
                return False
        return False

    def in_namekw(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, ast.keyword) and n.arg in SKIPKW:
                return True
            if isinstance(n, ast.stmt):
                return False
        return False

    def add(n, a, b, new, what):
        f = infunc(n)
        if f and f not in ("on_start_tests", "__repr__", "_repr_html_"):
            out.append({"file": os.path.relpath(path, PKG), "line": n.lineno, "func": f, "what": what,
                        "a": a, "b": b, "new": new, "old": text[a:b]})

    for n in ast.walk(tree):
        if in_namekw(n):
            continue
        if isinstance(n, ast.Compare):
            a = src.span(n.left)[1]
            b = src.span(n.comparators[0])[0]
            add(n, a, b, f" {CMP[type(n.ops[0])]} ", "compare")
        elif isinstance(n, ast.BinOp):
            r = BIN.get(type(n.op))
            a, b = src.span(n.left)[1], src.span(n.right)[0]
            mid = text[a:b]
            if r and mid.strip(" ()\n") and mid.count("(") == 0 and mid.count(")") == 0:
                add(n, a, b, f" {r} ", "binop")
        elif isinstance(n, ast.BoolOp):
            a, b = src.span(n.values[0])[1], src.span(n.values[1])[0]
            mid = text[a:b]
            new = mid.replace("and", "or") if isinstance(n.op, ast.And) else mid.replace("or", "and")
            add(n, a, b, new, "boolop")
            a, b = src.span(n)
            add(n, a, b, src.get(n.values[0]), "drop-operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            a, b = src.span(n)
            add(n, a, b, "(" + src.get(n.operand) + ")", "unary")
        elif isinstance(n, ast.Constant) and not isdoc(n) and not in_raise(n):
            a, b = src.span(n)
            v = n.value
            if v is True or v is False:
                add(n, a, b, str(not v), "const")
            elif isinstance(v, int):
                add(n, a, b, str(v + 1), "const")
                if v > 1:
                    add(n, a, b, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, a, b, repr(v * 2 if v else 1.0), "const")
            elif isinstance(v, str) and v and not isinstance(parents.get(n), ast.JoinedStr):
                if v[-1] in "+-" and len(v) > 3:
                    add(n, a, b, repr(v[:-1] + ("-" if v[-1] == "+" else "+")), "prop")
        elif isinstance(n, ast.Attribute) and n.attr in SEMI:
            a, b = src.span(n)
            v = src.span(n.value)[1]
            r = SEMI[n.attr]
            if r is None:
                add(n, v, b, "", "drop-T")
            else:
                a2 = b - len(n.attr)
                add(n, a2, b, r, "attr")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and k.arg not in SKIPKW:
                    a, b = src.span(k)
                    # swallow the comma before
                    i = a - 1
                    while i > 0 and text[i] in " \n":
                        i -= 1
                    if text[i] == ",":
                        add(k.value, i, b, "", f"drop-kw {k.arg}")
            for x in n.args:
                if isinstance(x, ast.Name) and x.id in ("replace",):
                    a, b = src.span(x)
                    i = a - 1
                    while i > 0 and text[i] in " \n":
                        i -= 1
                    if text[i] == ",":
                        add(x, i, b, "", "drop-replace")
            if len(n.args) == 2 and not n.keywords and src.get(n.args[0]) != src.get(n.args[1]) \
                    and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = src.span(n.args[0])[0], src.span(n.args[1])[1]
                add(n, a, b, src.get(n.args[1]) + ", " + src.get(n.args[0]), "swap-args")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("dup", "copy") and not n.args:
                a, b = src.span(n)
                add(n, a, b, src.get(n.func.value), "drop-copy")
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            a, b = src.span(n)
            add(n, a, b, "pass", "delete")
        elif isinstance(n, ast.If):
            a, b = src.span(n.test)
            add(n.test, a, b, f"not ({src.get(n.test)})", "if-not")
            add(n.test, a, b, "False", "if-false")
            if not n.orelse:
                add(n.test, a, b, "True", "if-true")
        elif isinstance(n, ast.IfExp):
            a, b = src.span(n)
            add(n, a, b, "(" + src.get(n.body) + ")", "ifexp")
            add(n, a, b, "(" + src.get(n.orelse) + ")", "ifexp")
        elif isinstance(n, ast.Raise):
            a, b = src.span(n)
            add(n, a, b, "pass", "delete-raise")
        elif isinstance(n, (ast.Break, ast.Continue)):
            a, b = src.span(n)
            add(n, a, b, "pass", "delete-jump")
        elif isinstance(n, (ast.FunctionDef,)):
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                pass
    seen, res = set(), []
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k in seen or m["new"] == m["old"]:
            continue
        seen.add(k)
        t = text[:m["a"]] + m["new"] + text[m["b"]:]
        try:
            compile(t, path, "exec")
        except SyntaxError:
            continue
        m["id"] = f"{m['file']}:{m['line']}:{m['a']}:{m['what']}:{m['new'][:20]}"
        res.append(m)
    return res


def allm():
    return [m for f in files() for m in mutants(f)]


CHILD = r"""
import os, sys, json, time, random, signal
sys.path.insert(0, os.environ["MUT_VERIF"])
os.environ["PYTHONHASHSEED"] = "0"
from gbmon import core
spec = json.loads(sys.argv[1])
known = {(k["property"], k["mechanism"]) for k in core.known_findings()["known"]}
signal.signal(signal.SIGPROF, core._on_prof)
core.WATCH.start()
res = {}
t00 = time.time()
for prop in spec["checks"]:
    mod = core.load(prop)
    t0 = time.time()
    n = 0
    bad = None
    harness = 0
    i = spec.get("start", 0)
    core.WATCH.lines = set()
    while time.time() - t0 < spec["secs"] and i < mod.CASES["quick"]:
        case, status = core.run_case(mod, prop, spec["seed"], i, "quick")
        i += spec.get("stride", 1)
        n += 1
        if status == "harness":
            harness += 1
        f = [f for f in case.fails if (prop, f.mech) not in known]
        if f:
            bad = f[0].mech + ": " + f[0].msg[:200]
            break
    res[prop] = [n, bad, harness]
    if spec.get("lines"):
        res[prop].append(sorted(map(list, core.WATCH.lines)))
        core.sys.monitoring.restart_events()
    if bad and not spec.get("all"):
        break
print("RESULT " + json.dumps(res))
"""


def child(repo, checks, secs, **kw):
    env = {**os.environ, "GBMON_REPO": repo, "MUT_VERIF": VERIF, "PYTHONHASHSEED": "0"}
    spec = {"checks": checks, "secs": secs, "seed": 1, **kw}
    return subprocess.Popen([PY, "-c", CHILD, json.dumps(spec)], env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.DEVNULL, text=True, cwd="/tmp", start_new_session=True)


ALL = [f"C{i:02d}" for i in range(1, 21)]


def cover(d):
    os.makedirs(d, exist_ok=True)
    ps = {p: child(REPO, [p], 60, lines=True) for p in ALL}
    out = {}
    for p, pr in ps.items():
        o = pr.communicate()[0]
        r = json.loads(o[o.index("RESULT ") + 7:])
        out[p] = r[p]
        print(p, r[p][0], r[p][1], len(r[p][3]))
    json.dump(out, open(os.path.join(d, "cover.json"), "w"))


def run(d, pat=None, secs=10, limit=6):
    cov = json.load(open(os.path.join(d, "cover.json")))
    lines = collections.defaultdict(list)
    for p in ALL:
        for f, ln in cov[p][3]:
            lines[f, ln].append(p)
    size = {p: len(cov[p][3]) for p in ALL}
    done = set()
    rf = os.path.join(d, "results.jsonl")
    if os.path.exists(rf):
        done = {json.loads(x)["id"] for x in open(rf)}
    ms = [m for m in allm() if m["id"] not in done and (not pat or re.search(pat, m["id"]))]
    random.Random(5).shuffle(ms)
    print(len(ms), "to try")
    slots = {}
    for i in range(8):
        w = os.path.join(d, f"w{i}")
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(REPO, w, ignore=shutil.ignore_patterns(".git", "__pycache__", "tests"))
        slots[i] = None
    out = open(rf, "a")
    k = 0
    while ms or any(slots.values()):
        for i, s in slots.items():
            w = os.path.join(d, f"w{i}")
            if s is not None:
                pr, m, t0, checks = s
                if pr.poll() is None and time.time() - t0 < secs * len(checks) + 240:
                    continue
                late = pr.poll() is None
                if late:
                    os.killpg(pr.pid, signal.SIGKILL)
                o = pr.communicate()[0]
                if "RESULT " in o:
                    r = json.loads(o[o.index("RESULT ") + 7:])
                    hit = [p for p, x in r.items() if x[1]]
                    v = "killed" if hit else ("harness" if any(x[2] for x in r.values()) else "survived")
                else:
                    r, v = {"out": o[-200:]}, "hang" if late else "crash"
                shutil.copy(os.path.join(PKG, m["file"]), os.path.join(w, "graphblas_algorithms", m["file"]))
                out.write(json.dumps({**m, "verdict": v, "res": r, "covered": bool(checks)}) + "\n")
                out.flush()
                slots[i] = None
                k += 1
                if k % 50 == 0:
                    print(k, "done", flush=True)
            if ms and slots[i] is None:
                m = ms.pop()
                cs = sorted(lines.get((m["file"], m["line"]), []), key=lambda p: size[p])
                if len(cs) > limit:
                    pref = [p for p in ("C02", "C03", "C01", "C04", "C20", "C14", "C19", "C18") if p in cs]
                    cs = (cs[:limit - 3] + [p for p in pref if p not in cs[:limit - 3]])[:limit]
                if not cs:
                    out.write(json.dumps({**m, "verdict": "uncovered", "res": {}}) + "\n")
                    continue
                t = open(os.path.join(PKG, m["file"])).read()
                t = t[:m["a"]] + m["new"] + t[m["b"]:]
                open(os.path.join(w, "graphblas_algorithms", m["file"]), "w").write(t)
                slots[i] = (child(w, cs, secs), m, time.time(), cs)
        time.sleep(0.05)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "list":
        for m in allm():
            print(m["id"], "|", m["old"][:40].replace("\n", " "), "->", m["new"][:40].replace("\n", " "))
    elif cmd == "cover":
        cover(sys.argv[2])
    elif cmd == "run":
        run(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None, float(sys.argv[4]) if len(sys.argv) > 4 else 10)
