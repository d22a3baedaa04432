"""Runner: shards deterministic cases over processes, watches executions with sys.monitoring, collects
verdicts, writes evidence.

A case is fully determined by (seed, property, index).  A check ends with exactly one of
  0  every monitor that saw something was satisfied (known findings are printed, not alarms)
  1  a VIOLATION line with a replay file
  3  inconclusive: the monitors observed too little, or a run was cut short
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

from . import env
from .env import REPO, VERIF

GA_DIR = os.path.join(os.path.realpath(REPO), "graphblas_algorithms") + os.sep
LOOP_BUDGET = 400_000  # backward jumps inside graphblas_algorithms per case (normal cases: < 20 000)
CPU_BACKSTOP = 150  # CPU seconds of one case before it is given up as inconclusive


class Runaway(BaseException):
    """The monitored code went round its loops more often than any terminating run could."""


class Backstop(BaseException):
    pass


class Fail(Exception):
    def __init__(self, mech, msg, info=None):
        super().__init__(f"{mech}: {msg}")
        self.mech, self.msg, self.info = mech, msg, info or {}


class Watch:
    """Execution monitor on the code under test: which lines ran, and how often loops went round."""

    def __init__(self):
        self.lines = set()
        self.jumps = 0
        self.max_jumps = 0
        self.budget = LOOP_BUDGET
        self._ga = {}

    def _is_ga(self, code):
        f = code.co_filename
        r = self._ga.get(f)
        if r is None:
            r = self._ga[f] = os.path.realpath(f).startswith(GA_DIR)
        return r

    def start(self):
        mon = sys.monitoring
        tid = 4
        mon.use_tool_id(tid, "gbmon")
        ev = mon.events

        def on_line(code, line):
            if self._is_ga(code):
                self.lines.add((os.path.relpath(os.path.realpath(code.co_filename), GA_DIR), line))
            return mon.DISABLE

        def on_jump(code, off, dest):
            if dest > off or not self._is_ga(code):
                return mon.DISABLE
            self.jumps += 1
            if self.jumps > self.budget:
                self.jumps = 0
                raise Runaway(f"{os.path.basename(code.co_filename)}:{code.co_name}")

        mon.register_callback(tid, ev.LINE, on_line)
        mon.register_callback(tid, ev.JUMP, on_jump)
        mon.set_events(tid, ev.LINE | ev.JUMP)

    def reset(self):
        self.max_jumps = max(self.max_jumps, self.jumps)
        self.budget = LOOP_BUDGET
        self.jumps = 0


WATCH = Watch()


class Case:
    """What one case reports while it runs."""

    def __init__(self, prop, seed, idx, tier):
        self.prop, self.seed, self.idx, self.tier = prop, seed, idx, tier
        self.rng = random.Random(f"{seed}:{prop}:{idx}")
        self.events = collections.Counter()
        self.sigs = set()
        self.evals = 0
        self.story = []  # human-readable trace of what was done
        self.samples = []
        self.fails = []

    def ev(self, kind, k=1):
        """A monitor observed an event of this kind."""
        self.events[kind] += k

    def large(self):
        """This case drives a large graph: allow it more loop iterations."""
        WATCH.budget = 10**9

    def judged(self, sig=None, nontrivial=True, k=1):
        """The oracle decided one observation."""
        self.evals += k
        if nontrivial and sig is not None:
            self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).digest())

    def say(self, text):
        if len(self.story) < 200:
            self.story.append(str(text)[:3000])

    def fail(self, mech, msg, **info):
        raise Fail(mech, msg, info)

    def soft(self, mech, msg, **info):
        """Record a violation and go on with the case."""
        self.fails.append(Fail(mech, msg, info))

    def check(self, ok, mech, msg, **info):
        if not ok:
            raise Fail(mech, msg() if callable(msg) else msg, info)


def load(prop):
    return importlib.import_module(f"gbmon.props.{prop.lower()}")


def run_case(mod, prop, seed, idx, tier):
    case = Case(prop, seed, idx, tier)
    WATCH.reset()
    signal.setitimer(signal.ITIMER_PROF, CPU_BACKSTOP)
    status = "ok"
    try:
        mod.case(case)
    except Fail as f:
        case.fails.append(f)
    except Runaway as r:
        case.fails.append(Fail(f"runaway:{r}", f"more than {LOOP_BUDGET} loop iterations in {r}"))
    except Backstop:
        status = "cut"
    except MemoryError:
        status = "cut"
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        where = ga_frame(e)
        if where:  # the code under test raised where the case allows no exception
            case.fails.append(Fail(f"raised:{type(e).__name__}:{where}", f"{type(e).__name__}: {e}",
                                   {"traceback": "".join(traceback.format_exception(e))[-3000:]}))
        else:  # the harness itself failed: never silently a pass
            status = "harness"
            case.say(traceback.format_exc())
            case.fails = []
            case.error = f"{type(e).__name__}: {e}"
    except BaseException as e:
        status = "harness"
        case.say(traceback.format_exc())
        case.fails = []
        case.error = f"{type(e).__name__}: {e}"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return case, status


def ga_frame(e):
    """Function of the code under test in which the exception was raised (or passed through)."""
    where, tb = None, e.__traceback__
    while tb is not None:
        code = tb.tb_frame.f_code
        if os.path.realpath(code.co_filename).startswith(GA_DIR):
            where = code.co_name
        tb = tb.tb_next
    return where


def _on_prof(sig, frame):
    raise Backstop()


def worker(prop, seed, tier, idxs, out, cur, deadline):
    signal.signal(signal.SIGPROF, _on_prof)
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    mod = load(prop)
    WATCH.start()
    res = {"evals": 0, "sigs": set(), "events": collections.Counter(), "fails": [], "cases": 0,
           "cut": 0, "harness": [], "samples": [], "stopped": False}
    nfail = 0
    for idx in idxs:
        if time.monotonic() > deadline:
            res["stopped"] = True
            break
        cur.seek(0)
        cur.write(b"%12d" % idx)
        cur.flush()
        case, status = run_case(mod, prop, seed, idx, tier)
        res["cases"] += 1
        res["evals"] += case.evals
        res["sigs"] |= case.sigs
        res["events"].update(case.events)
        if status == "cut":
            res["cut"] += 1
        elif status == "harness":
            if len(res["harness"]) < 5:
                res["harness"].append((idx, case.error, case.story))
            else:
                res["harness"].append((idx, case.error, []))
        for f in case.fails:
            nfail += 1
            if nfail <= 200:
                res["fails"].append((idx, f.mech, f.msg, {k: str(v)[:4000] for k, v in f.info.items()},
                                     case.story))
        if len(res["samples"]) < 2 and case.story and not case.fails and idx % 7 == 3:
            res["samples"].append({"case": idx, "trace": [s[:400] for s in case.story[:6]]})
    res["lines"] = WATCH.lines
    WATCH.reset()
    res["max_jumps"] = WATCH.max_jumps
    with open(out, "wb") as fh:
        pickle.dump(res, fh)
    os._exit(0)


def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def source_lines():
    """Executable lines of the code under test, per file (for the coverage figure)."""
    total = {}
    for root, dirs, files in os.walk(GA_DIR):
        dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(root, f)
            try:
                code = compile(open(p).read(), p, "exec")
            except SyntaxError:
                continue
            lines, todo = set(), [code]
            while todo:
                c = todo.pop()
                if c is not code:
                    lines |= {ln for _, _, ln in c.co_lines() if ln and ln > c.co_firstlineno}
                todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
            total[os.path.relpath(p, GA_DIR)] = lines
    return total


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    a = ap.parse_args(argv)
    prop = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "gbmon.run", *sys.argv[1:]])
    mod = load(prop)
    if a.replay or a.case is not None:
        seed, idx = a.seed, a.case
        if a.replay:
            r = json.load(open(a.replay))
            seed, idx, tier = r["seed"], r["case"], r["tier"]
        signal.signal(signal.SIGPROF, _on_prof)
        WATCH.start()
        case, status = run_case(mod, prop, seed, idx, tier)
        print("\n".join(case.story))
        print("status", status, "evaluations", case.evals, dict(case.events))
        for f in case.fails:
            print(f"FAIL {f.mech}: {f.msg} {f.info}")
        return 1 if case.fails else (0 if status == "ok" else 3)

    t0 = time.monotonic()
    n = a.cases or mod.CASES[tier]
    limit = 600 if tier == "quick" else 3300
    deadline = t0 + limit
    import tempfile

    tmp = tempfile.mkdtemp(prefix="gbmon-")
    procs = {}
    sys.stdout.flush()

    def spawn(w, idxs):
        cur = open(os.path.join(tmp, f"cur{w}"), "w+b")
        out = os.path.join(tmp, f"out{w}")
        pid = os.fork()
        if pid == 0:
            try:
                worker(prop, a.seed, tier, idxs, out, cur, deadline)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(9)
        procs[pid] = (w, idxs, out, cur)

    results, crashes, lost = [], [], 0
    for w in range(a.jobs):
        spawn(w, range(w, n, a.jobs))
    nxt = a.jobs
    while procs:
        pid, st = os.wait()
        if pid not in procs:
            continue
        w, idxs, out, cur = procs.pop(pid)
        if os.path.exists(out):
            with open(out, "rb") as fh:
                results.append(pickle.load(fh))
            continue
        cur.seek(0)
        txt = cur.read().strip()
        bad = int(txt) if txt else None
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        crashes.append((bad, sig))
        if bad is not None and len(crashes) < 12:  # go on with the rest of that shard
            rest = [i for i in idxs if i > bad]
            lost += 1
            if rest:
                spawn(nxt, rest)
                nxt += 1
    # a crash is judged by running that case again, alone
    crash_fail = []
    for bad, sig in crashes:
        if bad is None or sig not in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            continue
        spawn(nxt, [bad])
        nxt += 1
        pid, st = os.wait()
        _, _, out, _ = procs.pop(pid)
        if not os.path.exists(out) and os.WIFSIGNALED(st):
            crash_fail.append((bad, f"crash:signal{os.WTERMSIG(st)}", "the process died twice on this case", {}, []))
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)

    evals = sum(r["evals"] for r in results)
    sigs = set().union(*(r["sigs"] for r in results)) if results else set()
    events = collections.Counter()
    for r in results:
        events.update(r["events"])
    fails = crash_fail + [f for r in results for f in r["fails"]]
    fails.sort(key=lambda f: f[0])
    cut = sum(r["cut"] for r in results)
    harness = [h for r in results for h in r["harness"]]
    stopped = any(r["stopped"] for r in results)
    cases = sum(r["cases"] for r in results)
    lines = set().union(*(r["lines"] for r in results)) if results else set()
    if os.environ.get("GBMON_LINES"):  # for development: where the monitors never looked
        with open(os.path.join(os.environ["GBMON_LINES"], f"{prop}.json"), "w") as f:
            json.dump(sorted(lines), f)

    known = {k["mechanism"]: k for k in known_findings()["known"] if k["property"] == prop}
    hit = collections.Counter()
    fresh = []
    for f in fails:
        if f[1] in known:
            hit[f[1]] += 1
        else:
            fresh.append(f)
    for mech in hit:
        print(f"KNOWN-FINDING: property={prop} {known[mech]['what']} (seen {hit[mech]} times)")

    wall = round(time.monotonic() - t0, 2)
    per_file = collections.defaultdict(lambda: [0, 0])
    for f, ls in source_lines().items():
        per_file[f] = [len({ln for g, ln in lines if g == f} & ls), len(ls)]
    need = getattr(mod, "EXPECT", {})
    missing = sorted(k for k, v in need.items() if events[k] < v) if n >= mod.CASES["quick"] else []
    samples = [s for r in results for s in r["samples"]][:6]
    evid = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
            "samples": samples or [{"note": "no trace kept"}],
            "cases": cases, "events": dict(sorted(events.items())),
            "monitored_lines": {f: f"{x}/{y}" for f, (x, y) in sorted(per_file.items()) if x},
            "max_loop_iterations_in_a_case": max((r["max_jumps"] for r in results), default=0),
            "cases_cut_short": cut, "harness_errors": len(harness), "worker_crashes": len(crashes),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "known_findings_seen": dict(hit),
        "wall_s": wall,
    }
    rc = 0
    if fresh:
        rc = 1
        bymech = {}
        for f in fresh:
            bymech.setdefault(f[1], []).append(f)
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        evid["violations"] = len(fresh)
        evid["violation_kinds"] = []
        for mech, fl in sorted(bymech.items(), key=lambda kv: -len(kv[1]))[:12]:
            idx, _, msg, info, story = fl[0]
            path = os.path.join(rdir, f"{prop}-{a.seed}-{idx}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "seed": a.seed, "case": idx, "tier": tier, "mechanism": mech,
                           "message": msg, "info": info, "trace": story,
                           "replay": f"cd {VERIF} && {sys.executable} -m gbmon.run {prop} --replay {path}"}, fh, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  mechanism={mech} ({len(fl)} times) {msg[:600]}")
            evid["violation_kinds"].append({"mechanism": mech, "count": len(fl), "message": msg[:1000], "replay": path})
    elif harness or cut > cases // 200 or stopped and cases < n // 4 or lost or crashes or not evals \
            or len(sigs) < 10 or missing:
        rc = 3
        print(f"INCONCLUSIVE property={prop} harness_errors={len(harness)} cut={cut} stopped={stopped} "
              f"cases={cases}/{n} crashes={crashes} evaluations={evals} missing={missing}")
        for h in harness[:3]:
            print("  case", h[0], h[1])
            print("   ", "\n    ".join(str(s) for s in h[2][-3:]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evid, fh, indent=1, default=str)
    print(f"{prop} {tier} seed={a.seed}: {cases} cases, {evals} judged observations, {len(sigs)} distinct, "
          f"{len(fails)} deviations ({sum(hit.values())} known), {wall}s, exit {rc}")
    return rc
