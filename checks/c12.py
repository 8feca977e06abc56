"""C12: query iterator operations behave as list slicing on the match sequence."""

from __future__ import annotations

import itertools
import sys

import jsonpath
from jsonpath import JSONPathMatch
from jsonpath.fluent_api import Query
from vlib.util import freeze

PROP = "C12"
LEVEL = "model_checking"
TECHNIQUE = (
    "stateless exploration of every history of query iterator operations up to a length, with every count, on every live "
    "iterator, over match sequences of every length; each history runs on the real implementation in lockstep with a list model"
)
LEVEL_NOTE = "every history within the stated bounds is executed from scratch and drained in every order listed"
RULE = "an execution is one history with one way of draining the live iterators; outcomes are distinct observations"
ASSUMPTIONS = [
    "first_one, one and next() take the first remaining match from the iterator; last_one uses up the iterator",
    "an iterator that tee has split is not used again (as documented)",
    "an operation's return value stands for the iterator it was applied to",
    "views are drained after the last operation on their iterator",
]
BOUNDS = {
    "quick": {
        "deep": "sequences of length 0-3, 4 operations out of (limit, skip, tail, take) x counts -1..length+1, tee x 0-3, first_one, "
        "last_one, next, on any of up to 5 live iterators (4 or 2 in the 4th step)",
        "wide": "sequences of length 0-7, 2-3 operations under every name, counts -1..length+2",
        "counts": "counts around sys.maxsize and far beyond, 2 operations",
        "sources": "14 kinds of queries, documents and iterables, 2 operations, 4 views",
    },
    "thorough": {"deep": "5 operations on sequences of length 0-2, 4 on lengths 4-5", "wide": "3 operations on lengths 0-7"},
}


# ------------------------------------------------------------------------------------------ sources
FALSY = [0, None, "", False, [], {}, -0.0]


def src_array(n):
    return jsonpath.query("$[*]", [FALSY[i % 7] if i % 2 else i * 10 for i in range(n)])


def src_object(n):
    return jsonpath.compile("$.*").query({f"k~/{i}": {"v": i} for i in range(n)})


def src_dups(n):
    return jsonpath.query("$[%s]" % ", ".join("0" for _ in range(n)), [[7]]) if n else jsonpath.query("$[1]", [[7]])


def src_compound(n):
    half = n // 2
    return jsonpath.query("$.a[*] | $.b[*]", {"a": list(range(half)), "b": [[x] for x in range(n - half)]})


def src_filter(n):
    return jsonpath.query("$[?@ != 'no']", [x for i in range(n) for x in ("no", i)])


def src_descend(n):
    doc = None
    for _ in range(n):
        doc = [doc]
    return jsonpath.query("$..[*]", doc)


def src_list(n):
    return Query(list(src_array(n)), jsonpath.JSONPathEnvironment())


def src_tuple(n):
    return Query(tuple(src_object(n)), jsonpath.JSONPathEnvironment())


def src_gen(n):
    return Query((m for m in src_compound(n)), jsonpath.JSONPathEnvironment())


def src_text(n):
    return jsonpath.query("$[*]", "[" + ", ".join(str(i) for i in range(n)) + "]")


MIXED = jsonpath.compile("$.a.b.c | $.d | $.a.b | $.e[1] | $.a.b.c | $.e[-3:] | $.a")
MIXED_DOC = {"d": 0, "a": {"b": {"c": 0}}, "e": ["x", 0, False]}


def src_mixed(n):
    """Neighbouring matches at different depths, out of document order, with equal values and repeated nodes."""
    env = jsonpath.JSONPathEnvironment()
    ms = list(MIXED.finditer(MIXED_DOC))
    return Query(iter([ms[i % len(ms)] for i in range(n)]), env)


def src_nested(n):
    """Descendants: parents before children, then back up."""
    doc = {"z": {"y": {"x": 0}}, "b": [[], 0], "a": 0, "c": {"z": None}}
    return Query(iter(list(jsonpath.finditer("$..*", doc))[:n]), jsonpath.JSONPathEnvironment())


def src_backwards(n):
    return jsonpath.query("$[::-1]", [str(n - i) for i in range(n)])


def src_union(n):
    """As a chain over a lazy compound query."""
    half = n // 2
    doc = {"q": {"r": {"s": [1.0] * (n - half)}}, "a": [1] * half}
    return jsonpath.query("$.q.r.s[*] | $.a[*]", doc)


SOURCES = {f.__name__[4:]: f for f in (
    src_array, src_object, src_dups, src_compound, src_filter, src_descend, src_list, src_tuple, src_gen, src_text,
    src_mixed, src_nested, src_backwards, src_union,
)}  # fmt: skip


def show(m):
    return None if m is None else (m.path, freeze(m.obj))


VIEWS = {
    "values": (lambda q: [freeze(v) for v in q.values()], lambda m: freeze(m.obj)),
    "locations": (lambda q: list(q.locations()), lambda m: m.path),
    "items": (lambda q: [(p, freeze(v)) for p, v in q.items()], lambda m: (m.path, freeze(m.obj))),
    "pointers": (lambda q: [(type(p).__name__, str(p)) for p in q.pointers()], lambda m: ("JSONPointer", str(m.pointer()))),
    "iter": (lambda q: [show(m) for m in q], show),
}

LIMIT, SKIP, TAIL = ("limit", "head", "first"), ("skip", "drop"), ("tail", "last")


# ------------------------------------------------------------------------------------------ model
class Refused(Exception):
    pass


def model_step(state, op):
    """state: tuple of live iterators (tuples of indices; None is dead). Returns (state, what the call gives)."""
    name, k, n = op
    s = state[k]
    if n is not None and n < 0:
        return state, "ValueError"
    if name in LIMIT:
        new = s[:n]
    elif name in SKIP:
        new = s[n:]
    elif name in TAIL:
        new = s[len(s) - n :] if n < len(s) else s
        new = () if n == 0 else new
    elif name == "take":
        return (*state[:k], s[n:], *state[k + 1 :], s[:n]), None
    elif name == "tee":
        return (*state[:k], None, *state[k + 1 :], *([s] * n)), None
    elif name in ("first_one", "one", "next"):
        return (*state[:k], s[1:], *state[k + 1 :]), (s[0] if s else None)
    elif name == "last_one":
        return (*state[:k], (), *state[k + 1 :]), (s[-1] if s else None)
    else:
        raise AssertionError(name)
    return (*state[:k], new, *state[k + 1 :]), None


def real_step(live, op):
    name, k, n = op
    q = live[k]
    if name == "next":
        return next(iter(q), None)
    if name in ("first_one", "one", "last_one"):
        return getattr(q, name)()
    try:
        r = getattr(q, name)() if n is None else getattr(q, name)(n)
    except ValueError:
        return "ValueError"
    if name == "take":
        live.append(r)
    elif name == "tee":
        live[k] = None
        live.extend(r)
    else:
        live[k] = r
    return None


def text(op):
    name, k, n = op
    return f"q{k}.{name}({'' if n is None else n})"


SCRIPT = """
from checks.c12 import *
source, n, history, order, view = {args!r}
live = [SOURCES[source](n)]
full = list(SOURCES[source](n))
state = (tuple(range(n)),)
for op in history:
    got = real_step(live, op)
    state, want = model_step(state, op)
    print(text(op), '->', got, ' expected', want if not isinstance(want, int) else full[want])
print(drain(live, order, view))
print('expected', expected(state, full, order, view))
"""


def drain(live, order, view):
    ks = [k for k in range(len(live)) if live[k] is not None]
    if order == "reversed":
        ks.reverse()
    if order == "interleaved":
        its = {k: iter(live[k]) for k in ks}
        out = {k: [] for k in ks}
        while its:
            for k in list(its):
                m = next(its[k], None)
                if m is None:
                    del its[k]
                else:
                    out[k].append(show(m))
        return out
    return {k: VIEWS[view][0](live[k]) for k in ks}


def expected(state, full, order, view):
    conv = show if order == "interleaved" else VIEWS[view][1]
    return {k: [conv(full[i]) for i in s] for k, s in enumerate(state) if s is not None}


class Run:
    def __init__(self, ctx, source, n):
        self.ctx, self.source, self.n = ctx, source, n
        self.full = list(SOURCES[source](n))
        if len(self.full) != n or not all(isinstance(m, JSONPathMatch) for m in self.full):
            raise RuntimeError(f"source {source} gives {len(self.full)} matches instead of {n}")
        self.shown = [show(m) for m in self.full]
        self.exp = {}

    def history(self, hist, state, results, order, view):
        ctx = self.ctx
        ctx.case((self.source, self.n, hist))
        ctx.trans(len(hist))
        live = [SOURCES[self.source](self.n)]
        for op, (_, want) in zip(hist, results):
            got = real_step(live, op)
            if isinstance(want, int):
                want = self.shown[want]
            if got is not None and got != "ValueError":
                got = show(got)
            if got != want:
                self.fail(hist, order, view, f"{text(op)} gives {got}, expected {want}")
                return
        key = (state, order == "interleaved" or view)
        if key not in self.exp:
            self.exp[key] = expected(state, self.full, order, view)
        got = drain(live, order, view)
        if got != self.exp[key]:
            self.fail(hist, order, view, f"{view} drained {order} are {got}, expected {self.exp[key]}")
        ctx.outcome((self.n, state, view))
        ctx.state((self.n, state))

    def fail(self, hist, order, view, msg):
        h = "; ".join(text(op) for op in hist)
        self.ctx.fail(
            f"{self.source} {self.n} {h} {order} {view}", f"{self.n} matches ({self.source}), {h}: {msg}",
            SCRIPT.format(args=(self.source, self.n, hist, order, view)),
        )  # fmt: skip


def moves(state, names, counts, live=5):
    for k, s in enumerate(state):
        if s is None:
            continue
        for name in names:
            if name in ("first_one", "one", "last_one", "next"):
                yield (name, k, None)
            elif name == "tee":
                for n in (None, -1, 0, 1, 2, 3):
                    if len(state) + (2 if n is None else max(n, 0)) <= live + 1:
                        yield (name, k, n)
            elif name == "take" and len(state) > live:
                continue
            else:
                for n in counts:
                    yield (name, k, n)


def explore(run, depth, names, counts, drains, first=None, live=5):
    """Every history of exactly `depth` operations."""

    def go(hist, state, results):
        if len(hist) == depth:
            for order, view in drains:
                run.history(hist, state, results, order, view)
            return
        ms = list(moves(state, names, counts, live))
        if not hist and first is not None:
            ms = ms[first[0] :: first[1]]
        for op in ms:
            # tee() makes two
            mop = (op[0], op[1], 2) if op[0] == "tee" and op[2] is None else op
            new, res = model_step(state, mop)
            go((*hist, op), new, (*results, (op, res)))

    go((), (tuple(range(run.n)),), ())


CORE = ("limit", "skip", "tail", "take", "tee", "first_one", "last_one", "next")
ALL = LIMIT + SKIP + TAIL + ("take", "tee", "first_one", "one", "last_one", "next")
TWO = (("in order", "iter"), ("interleaved", "iter"))
ONE = (("reversed", "values"),)
EVERY = tuple((o, v) for o in ("in order", "reversed") for v in VIEWS) + (("interleaved", "iter"),)
BIG = (0, 2, 1000, sys.maxsize - 1, sys.maxsize, sys.maxsize + 1, 10**30, -1, -sys.maxsize - 2, -(10**30))


def units(tier):
    th = tier == "thorough"
    out = []
    for n in range(4):
        for d in (0, 1, 2, 3):
            for i in range(4):
                out.append(("deep", n, d, TWO, i, 4, 5))
        for i in range(24):
            out.append(("deep", n, 4, ONE, i, 24, 4 if n < 2 or th else 2))
    if th:
        for n in range(3):
            for i in range(40):
                out.append(("deep", n, 5, ONE, i, 40, 2))
        for n in (4, 5):
            for i in range(40):
                out.append(("deep", n, 4, ONE, i, 40, 2))
    for n in range(8):
        for d in (1, 2):
            out.append(("wide", n, d, EVERY, 0, 1))
        if n < 5 or th:
            for i in range(12):
                out.append(("wide", n, 3, ONE, i, 12))
    for n in (0, 1, 3):
        out.append(("big", n))
    for s in SOURCES:
        for n in (0, 1, 2, 5):
            out.append(("source", s, n))
    return out


def run(unit, ctx):
    k = unit[0]
    if k == "deep":
        _, n, d, drains, i, m, live = unit
        explore(Run(ctx, "mixed", n), d, CORE, tuple(range(-1, n + 2)), drains, (i, m), live)
    elif k == "wide":
        _, n, d, drains, i, m = unit
        explore(Run(ctx, "nested", n), d, ALL, tuple(range(-1, n + 3)), drains, (i, m))
    elif k == "big":
        _, n = unit
        for d in (1, 2):
            explore(Run(ctx, "object", n), d, CORE, BIG, TWO)
    else:
        _, s, n = unit
        for d in (0, 1, 2):
            explore(Run(ctx, s, n), d, ALL, (-1, 0, 1, n, n + 1), EVERY)
