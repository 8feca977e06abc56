"""Exhaustive explorer: sharding, counting, watchdog, known findings, replay, evidence.

A driver (checks/cNN.py) provides

    PROP, LEVEL, RULE, ASSUMPTIONS
    def units(tier) -> list of (name, args...) tuples      # the whole bounded space, partitioned
    def run(unit, ctx) -> None                             # explores one unit exhaustively

`run` executes the real library and judges each execution against a reference model.  It calls
`ctx.case()` once per execution, `ctx.trans(n)` for every model transition taken along with the
implementation, `ctx.state(key)` for every model state visited and `ctx.fail(...)` on disagreement.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)
# Wall-clock limit for a whole check; only reached by a hung or blown-up implementation.
DEADLINE_S = float(os.environ.get("VERIF_DEADLINE", "800"))
MAX_FAILS_PER_UNIT = 3
CPU_TICKS = 30  # CPU seconds spent in one case before it counts as non-terminating
WALL_TICKS = 30  # x5 s of wall clock in one case


class Hang(BaseException):
    """One single case did not terminate."""


class StopUnit(BaseException):
    """Enough failures in this unit."""


def load_target():
    """Import the library from the working tree, never from stale bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache-%d" % os.getpid()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import jsonpath

    where = os.path.dirname(os.path.abspath(jsonpath.__file__))
    if os.path.realpath(where) != os.path.realpath(os.path.join(REPO, "jsonpath")):
        raise RuntimeError(f"jsonpath came from {where}, not {REPO}")
    return jsonpath


class Ctx:
    def __init__(self, unit, known):
        self.unit = unit
        self.known = known
        self.n_exec = 0
        self.n_trans = 0
        self.n_skip = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.known_hit = {}
        self.cur = None
        self.extra = {}

    # -- counting ---------------------------------------------------------
    def case(self, cur=None):
        self.n_exec += 1
        self.cur = cur

    def trans(self, n=1):
        self.n_trans += n

    def state(self, key):
        self.states.add(hash(key))

    def outcome(self, key):
        self.outcomes.add(hash(key))

    def sample(self, obj, cap=2):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def bump(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- verdicts ---------------------------------------------------------
    def fail(self, key, message, script=None, detail=None):
        """Report one failing execution.

        key     canonical identification of the specific input / history (matched with known findings)
        script  body of a stand-alone Python program that replays it without the explorer
        """
        if key in self.known:
            self.known_hit[key] = message
            return
        self.fails.append(
            {"key": key, "message": message, "script": script, "detail": detail, "unit": repr(self.unit)}
        )
        if len(self.fails) >= MAX_FAILS_PER_UNIT:
            raise StopUnit


def _in_target(exc) -> bool:
    root = os.path.realpath(REPO) + os.sep
    for fs in traceback.extract_tb(exc.__traceback__):
        if os.path.realpath(fs.filename).startswith(root):
            return True
    return False


def _run_unit(modname, unit, known):
    mod = importlib.import_module(modname)
    ctx = Ctx(unit, known)
    last = {"n": -1, "cpu": 0, "wall": 0}

    def on_cpu(_s, _f):
        if ctx.n_exec == last["n"]:
            last["cpu"] += 1
            if last["cpu"] >= CPU_TICKS:
                last["cpu"] = 0
                raise Hang
        else:
            last["n"] = ctx.n_exec
            last["cpu"] = last["wall"] = 0

    def on_wall(_s, _f):
        if ctx.n_exec == last["n"]:
            last["wall"] += 1
            if last["wall"] >= WALL_TICKS:
                last["wall"] = 0
                raise Hang
        else:
            last["n"] = ctx.n_exec
            last["cpu"] = last["wall"] = 0

    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.signal(signal.SIGALRM, on_wall)
    signal.setitimer(signal.ITIMER_VIRTUAL, 1.0, 1.0)
    signal.setitimer(signal.ITIMER_REAL, 5.0, 5.0)
    t0 = time.time()
    error = None
    try:
        try:
            mod.run(unit, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except StopUnit:
        pass
    except Hang:
        ctx.fails.append(
            {
                "key": f"hang {ctx.cur!r}",
                "message": f"execution did not terminate: {ctx.cur!r}",
                "script": None,
                "detail": None,
                "unit": repr(unit),
            }
        )
    except BaseException as err:  # noqa: BLE001
        tb = traceback.format_exc()
        if _in_target(err) and not isinstance(err, (KeyboardInterrupt, SystemExit)):
            ctx.fails.append(
                {
                    "key": f"exception {type(err).__name__} {ctx.cur!r}",
                    "message": f"unexpected {type(err).__name__}: {err} in case {ctx.cur!r}",
                    "script": None,
                    "detail": tb,
                    "unit": repr(unit),
                }
            )
        else:
            error = tb
    return {
        "unit": unit,
        "n_exec": ctx.n_exec,
        "n_trans": ctx.n_trans,
        "n_skip": ctx.n_skip,
        "states": ctx.states,
        "outcomes": ctx.outcomes,
        "samples": ctx.samples,
        "fails": ctx.fails,
        "known": ctx.known_hit,
        "extra": ctx.extra,
        "error": error,
        "wall": time.time() - t0,
    }


def _worker(modname, units, known, task_q, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    warnings.simplefilter("ignore")
    while True:
        i = task_q.get()
        if i is None:
            conn.send(None)
            return
        conn.send(("start", i))
        conn.send(("done", i, _run_unit(modname, units[i], known)))


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    try:
        with open(path, encoding="utf-8") as fd:
            data = json.load(fd)
    except FileNotFoundError:
        return out
    for f in data.get("findings", []):
        if f["property"] == prop:
            for k in f["keys"]:
                out[k] = f["what"]
    return out


def explore(modname, tier, jobs=None):
    mod = importlib.import_module(modname)
    units = list(mod.units(tier))
    known = load_known(mod.PROP)
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)
    jobs = max(1, min(jobs, len(units)))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    # The space is explored completely whatever the seed; the seed only rotates the order.
    order = list(range(len(units)))
    rot = seed % len(order)
    order = order[rot:] + order[:rot]
    if os.environ.get("VERIF_FAILFAST"):
        # development aid: interleave the units, so that each kind is met early
        import random

        random.Random(seed).shuffle(order)
    mctx = mp.get_context("fork")
    task_q = mctx.SimpleQueue()
    procs, conns = [], []
    t0 = time.time()
    results, running = {}, {}
    # one pipe per worker; a worker that dies is noticed as EOF on its pipe
    for _ in range(jobs):
        r, w = mctx.Pipe(duplex=False)
        p = mctx.Process(target=_worker, args=(modname, units, known, task_q, w), daemon=True)
        p.start()
        w.close()
        procs.append(p)
        conns.append(r)
    import threading

    def feed():
        for i in order:
            task_q.put(i)
        for _ in range(jobs):
            task_q.put(None)

    threading.Thread(target=feed, daemon=True).start()
    crashed = []
    # development aid: stop at the first unit that fails (never set by the registered commands)
    failfast = bool(os.environ.get("VERIF_FAILFAST"))
    failed = False
    open_conns = list(conns)
    while open_conns:
        left = DEADLINE_S - (time.time() - t0)
        if left <= 0 or failed:
            break
        ready = mp.connection.wait(open_conns, timeout=min(left, 5))
        for c in ready:
            try:
                msg = c.recv()
            except (EOFError, OSError):
                open_conns.remove(c)
                if c in running:
                    crashed.append(running.pop(c))
                continue
            if msg is None:
                open_conns.remove(c)
            elif msg[0] == "start":
                running[c] = msg[1]
            else:
                running.pop(c, None)
                results[msg[1]] = msg[2]
                if failfast and msg[2]["fails"]:
                    failed = True
    hung = [] if failed else sorted(running.values())
    for p in procs:
        if p.is_alive():
            p.kill()
    for i in crashed:
        results[i] = {"crash": True, "unit": units[i]}
    missing = [i for i in range(len(units)) if i not in results]
    return mod, units, results, hung, missing, known, time.time() - t0


def _slug(s):
    return hashlib.sha1(s.encode("utf-8", "surrogatepass")).hexdigest()[:12]


def write_replay(prop, f):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{_slug(f['key'])}.py")
    body = [
        "# Stand-alone replay of one violation (no explorer).",
        f"# property: {prop}",
        f"# unit: {f['unit']}",
        "# key: " + repr(f["key"]),
    ]
    for line in f["message"].splitlines():
        body.append("# " + ascii(line)[1:-1])
    if f.get("detail"):
        for line in str(f["detail"]).splitlines():
            body.append("#   " + ascii(line)[1:-1])
    body.append("import sys; sys.path.insert(0, %r); sys.path.insert(0, %r)" % (VERIF, REPO))
    if f.get("script"):
        body.append(f["script"])
    else:
        body.append("raise SystemExit('see the comments above')")
    with open(path, "w", encoding="utf-8", errors="surrogatepass") as fd:
        fd.write("\n".join(body) + "\n")
    return path


def main(modname):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod, units, results, hung, missing, known, wall = explore(modname, tier)
    prop = mod.PROP
    rs = [r for r in results.values() if not r.get("crash")]
    states, outcomes = set(), set()
    known_hit, extra, fails, errors = {}, {}, [], []
    samples = []
    for i in sorted(results):
        r = results[i]
        if r.get("crash"):
            fails.append(
                {
                    "key": f"crash {r['unit']!r}",
                    "message": f"the process exploring {r['unit']!r} died (memory or interpreter crash)",
                    "script": None,
                    "detail": None,
                    "unit": repr(r["unit"]),
                }
            )
            continue
        states |= r["states"]
        outcomes |= r["outcomes"]
        known_hit.update(r["known"])
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
        fails.extend(r["fails"])
        if r["error"]:
            errors.append((r["unit"], r["error"]))
        samples.extend(r["samples"])
    for i in hung:
        fails.append(
            {
                "key": f"deadline {units[i]!r}",
                "message": f"unit {units[i]!r} did not finish within {DEADLINE_S} s",
                "script": None,
                "detail": None,
                "unit": repr(units[i]),
            }
        )
    n_exec = sum(r["n_exec"] for r in rs)
    n_trans = sum(r["n_trans"] for r in rs)
    exhaustive = not missing and not errors and not fails
    step = max(1, len(samples) // 12)
    coverage = {
        "states": len(states),
        "transitions": n_trans,
        "traces_validated_against_impl": n_exec,
        "evaluations": n_exec,
        "distinct_nontrivial": len(outcomes),
        "rule": mod.RULE,
        "units": len(units),
        "units_completed": len(rs),
        "exhaustive": exhaustive,
        "samples": samples[::step][:12],
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})),
        "extra": extra,
    }
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w", encoding="utf-8") as fd:
        json.dump(ev, fd, indent=1, default=repr)
        fd.write("\n")
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(rs, key=lambda r: -r["wall"])[:15]:
            print(f"  {r['wall']:7.2f}s exec={r['n_exec']} {r['unit']!r:.120}")
        groups = {}
        for r in rs:
            g = groups.setdefault(repr(r["unit"][:2 if len(r["unit"]) > 2 else 1]), [0, 0.0, 0])
            g[0] += 1
            g[1] += r["wall"]
            g[2] += r["n_exec"]
        for k, (n, w, e) in sorted(groups.items(), key=lambda kv: -kv[1][1])[:12]:
            print(f"  group {k:.60}: units={n} cpu={w:.0f}s exec={e}")
    print(
        f"{prop} [{tier}] units={len(rs)}/{len(units)} states={len(states)} transitions={n_trans} "
        f"executions={n_exec} outcomes={len(outcomes)} wall={wall:.1f}s"
    )
    shown = set()
    for k, msg in sorted(known_hit.items()):
        what = known[k]
        if what not in shown:
            shown.add(what)
            print(f"KNOWN-FINDING: property={prop} {what}")
    if fails:
        maxshow = int(os.environ.get("VERIF_SHOW", "8"))
        uniq = {}
        for f in fails:
            uniq.setdefault(f["key"], f)
        fails = sorted(uniq.values(), key=lambda f: len(f["message"]))
        for f in fails[:maxshow]:
            path = write_replay(prop, f)
            print(f"  {ascii(f['message'])[1:-1]:.400}")
            if f.get("detail") and os.environ.get("VERIF_VERBOSE"):
                print(f["detail"])
            print(f"VIOLATION property={prop} replay={path}")
        if len(fails) > maxshow:
            print(f"  ... {len(fails) - maxshow} more")
        sys.stdout.flush()
        return 1
    if errors or missing:
        for u, e in errors[:5]:
            print(f"ERROR in unit {u!r}\n{e}", file=sys.stderr)
        if missing:
            print(f"ERROR: {len(missing)} units not explored", file=sys.stderr)
        return 2
    if n_exec == 0:
        print("ERROR: nothing was explored", file=sys.stderr)
        return 2
    return 0
