"""C09: evaluation is pure, repeatable, and unaffected by caching or interleaving."""

from __future__ import annotations

import copy
import itertools

import jsonpath
from checks import c08
from jsonpath import JSONPathEnvironment
from vlib import corpus as Q
from vlib import threads as T
from vlib.util import freeze

PROP = "C09"
LEVEL = "model_checking"
TECHNIQUE = (
    "stateless exploration of the real implementation: every history of evaluations, every interleaving of lazy result "
    "iterators, every schedule of two threads to a preemption bound (each line of the library a scheduling point) and every "
    "task interleaving, for every cacheable query of a bounded grammar, against a fresh uncached evaluation of the text"
)
LEVEL_NOTE = (
    "complete within the bounds; threads are scheduled cooperatively at line granularity (opcode granularity in the filter "
    "and selector modules in the thorough tier), so races inside one line between those opcodes are reached only there"
)
RULE = (
    "an execution is one history, one interleaving of iterators or one schedule; the expected result is that of the query text "
    "freshly compiled in a new environment without caching, evaluated on a fresh copy of the document and filter context"
)
ASSUMPTIONS = [
    "filter functions and item getters are pure",
    "results are compared by location and value; the identity of result containers is not",
    "a compiled query is unmodified when its string form, its equality with a re-compiled query and its results are",
]
BOUNDS = {
    "quick": {
        "caching on/off": "9583 comparisons, 53 tests, 4224 logical expressions at 2 places x 4 documents x 3 contexts; 1-2 segments",
        "custom functions": "functions of 1-4 arguments (untyped, value-typed, node-typed), every tuple of arguments out of 7 (5) expressions, reused on 4 pairs",
        "histories": "every sequence of 3 evaluations over 4 (document, context) pairs for 450 queries; 100 repetitions for some",
        "edits": "one document and context edited in place between 3 evaluations, every sequence of 4 states, for 450 queries; sync and async",
        "operations": "every sequence of 5 (3 queries) or 4 (14 queries) operations out of 8 (new iterator, advance, drain, close, find-all)",
        "iterators": "every interleaving of 2 iterators (to 6 results each) x 3 pairings; of 3 iterators (to 2 results)",
        "threads": "2 threads, every single preemption at every line of the library; 2 preemptions at calls (every 3rd call, every 11th where texts are compiled)",
        "tasks": "every interleaving of the C08 scenarios",
    },
    "thorough": {
        "histories": "3 evaluations over 4 pairs for 2900 queries, 4 evaluations for 450",
        "edits": "3 evaluations for 2900 queries, 5 evaluations for 450",
        "operations": "6 operations (4 queries) or 5; 3 iterators to 3 results",
        "threads": "every single preemption at every opcode of filter.py, selectors.py, path.py; 2 preemptions at lines (stride 3)",
    },
}

ENV = JSONPathEnvironment()
NOCACHE = JSONPathEnvironment(filter_caching=False)

H1 = {"a": 1, "b": {"a": [1, 2], "b": "ab"}, "c": [{"a": 1, "b": "a"}, {"a": 2, "b": "b"}, {"b": "a"}, 1]}
H2 = {"a": 2, "b": {"a": [2, 3, "a"], "b": "b"}, "c": [{"a": 1, "b": "b"}, {"a": 2, "b": "a"}, 2, {"a": {"a": 2}}]}
H3 = [{"a": 1}, {"a": "a", "b": 1}, ["a", {"a": 1}], "a", 1]
CX1 = {"x": 1, "n": ["a", 0, {"b": 2}], "m": {"a": "b", "b": [1]}, "b": None}
CX2 = {"x": 2, "n": ["b", 1, "c"], "m": {"b": 1, "c": 2}}
PAIRS = [(H1, CX1), (H2, CX1), (H1, CX2), (H3, None)]


def obs(m):
    return (m.path, tuple((type(p).__name__, p) for p in m.parts), freeze(m.obj))


def collect(q, doc, fctx):
    out = []
    try:
        for m in q.finditer(doc, filter_context=fctx):
            out.append(obs(m))
    except Exception as e:  # noqa: BLE001
        return out, type(e).__name__
    return out, None


_memo = {}


def expected(text, doc, fctx):
    """What the query text alone says, on private copies."""
    key = (text, id(doc), id(fctx))
    if key not in _memo:
        if len(_memo) > 4000:
            _memo.clear()
        env = JSONPathEnvironment(filter_caching=False)
        _memo[key] = (collect(env.compile(text), copy.deepcopy(doc), copy.deepcopy(fctx)), doc, fctx)
    return _memo[key][0]


SCRIPT = """
import copy, jsonpath
from jsonpath import JSONPathEnvironment
text = {text!r}
pairs = {pairs!r}
q = jsonpath.compile(text)
def show(q, d, c):
    try:
        return [(m.path, m.obj) for m in q.finditer(d, filter_context=c)]
    except Exception as e:
        return repr(e)
for d, c in pairs:
    print('reused  ', show(q, d, c))
    print('uncached', show(JSONPathEnvironment(filter_caching=False).compile(text), copy.deepcopy(d), copy.deepcopy(c)))
"""


def frozen(pairs):
    return [(freeze(d), freeze(c)) for d, c in pairs]


def intact(ctx, text, pairs, before, where):
    if frozen(pairs) != before:
        ctx.fail(
            f"mutated {text!r} {where}", f"evaluating {text!r} ({where}) changed a document or filter context: now {pairs!r:.300}",
            SCRIPT.format(text=text, pairs=pairs),
        )  # fmt: skip


def same_query(ctx, text, q, where):
    """The compiled query still equals, and prints like, a re-compiled one."""
    again = q.env.compile(text)
    if not (q == again) or q != again or str(q) != str(again):
        ctx.fail(
            f"recompiled {text!r}", f"compiling {text!r} again gives an unequal query ({where}): {q} / {again}",
            f"import jsonpath\na, b = jsonpath.compile({text!r}), jsonpath.compile({text!r})\nprint(a == b, str(a) == str(b))",
        )  # fmt: skip


# ------------------------------------------------------------------------------------------ caching on and off
def caching(ctx, texts, pairs):
    before = frozen(pairs)
    for text in texts:
        on = ENV.compile(text)
        ctx.state(text)
        for d, c in pairs:
            ctx.case((text, d))
            want = expected(text, d, c)
            got = collect(on, d, c)
            ctx.trans(len(want[0]) + 1)
            ctx.outcome((tuple(o[0] for o in want[0]), want[1]))
            if got != want:
                ctx.fail(
                    f"caching {text!r} on {d!r} with {c!r}",
                    f"{text!r} on {d!r} with context {c!r}: with caching {got!r:.200}, without {want!r:.200}",
                    SCRIPT.format(text=text, pairs=[(d, c)]),
                )
        same_query(ctx, text, on, "after use")
        intact(ctx, text, pairs, before, "caching on")
    ctx.sample({"kind": "caching on/off", "queries": len(texts), "first": texts[0] if texts else None})


# ------------------------------------------------------------------------------------------ histories
def histories(ctx, text, depth, pairs=PAIRS):
    before = frozen(pairs)
    want = [expected(text, d, c) for d, c in pairs]
    for h in itertools.product(range(len(pairs)), repeat=depth):
        ctx.case((text, h))
        q = ENV.compile(text)
        for k, i in enumerate(h):
            ctx.trans()
            got = collect(q, *pairs[i])
            if got != want[i]:
                ctx.fail(
                    f"history {text!r} {h[: k + 1]}",
                    f"{text!r} after the history {h[:k]} of evaluations, on pair {i}: got {got!r:.200}, fresh {want[i]!r:.200}",
                    SCRIPT.format(text=text, pairs=[pairs[j] for j in h[: k + 1]]),
                )
    ctx.outcome(("history", text, repr(want)))
    intact(ctx, text, pairs, before, "histories")
    same_query(ctx, text, q, "after a history")


def become(old, new):
    """Edit a container in place until it equals another, keeping the identity of the containers inside."""
    if isinstance(old, dict) and isinstance(new, dict):
        for k in [k for k in old if k not in new]:
            del old[k]
        for k, v in new.items():
            # the order of members matters to the order of results
            old[k] = become(old.pop(k), v) if k in old else copy.deepcopy(v)
        return old
    if isinstance(old, list) and isinstance(new, list):
        del old[len(new) :]
        for i, v in enumerate(new):
            if i < len(old):
                old[i] = become(old[i], v)
            else:
                old.append(copy.deepcopy(v))
        return old
    return copy.deepcopy(new)


EDITED = [(H1, CX1), (H2, CX1), (H1, CX2), (H2, CX2)]


def edits(ctx, text, depth):
    """One document and one filter context, edited in place by their owner between evaluations."""
    want = [expected(text, d, c) for d, c in EDITED]
    for h in itertools.product(range(len(EDITED)), repeat=depth):
        if any(a == b for a, b in zip(h, h[1:])):
            continue
        ctx.case((text, "edited", h))
        q = ENV.compile(text)
        doc, fctx = {}, {}
        for k, i in enumerate(h):
            ctx.trans()
            become(doc, EDITED[i][0])
            become(fctx, EDITED[i][1])
            now = freeze((doc, fctx))
            got = collect(q, doc, fctx)
            how = "finditer"
            if got == want[i] and k == depth - 1:
                how = "finditer_async"
                got = c08.drive(_acollect(q, doc, fctx))[0]
            if got != want[i]:
                ctx.fail(
                    f"edited {text!r} {h[: k + 1]}",
                    f"{text!r} on a document and context edited in place through the states {h[: k + 1]}, {how}: got {got!r:.200}, "
                    f"fresh {want[i]!r:.200}",
                    f"import jsonpath\nfrom checks.c09 import become, EDITED\nq = jsonpath.compile({text!r})\nd, c = {{}}, {{}}\n"
                    f"for i in {h[: k + 1]!r}:\n    become(d, EDITED[i][0]), become(c, EDITED[i][1])\n"
                    f"    print('reused', [(m.path, m.obj) for m in q.finditer(d, filter_context=c)])\n"
                    f"    print('fresh ', [(m.path, m.obj) for m in jsonpath.finditer({text!r}, d, filter_context=c)])",
                )
                return
            if freeze((doc, fctx)) != now:
                ctx.fail(f"edited, mutated {text!r}", f"evaluating {text!r} changed the document or the filter context", "")
                return


async def _acollect(q, doc, fctx):
    out = []
    try:
        async for m in await q.finditer_async(doc, filter_context=fctx):
            out.append(obs(m))
    except Exception as e:  # noqa: BLE001
        return out, type(e).__name__
    return out, None


def repeat(ctx, text, n=100):
    q = ENV.compile(text)
    for k in range(n):
        d, c = PAIRS[k % len(PAIRS)] if k % 7 else PAIRS[0]
        ctx.case((text, "repeat", k))
        ctx.trans()
        got, want = collect(q, d, c), expected(text, d, c)
        if got != want:
            ctx.fail(f"repeat {text!r}", f"{text!r}: use number {k + 1} gave {got!r:.200}, fresh {want!r:.200}", SCRIPT.format(text=text, pairs=PAIRS))


# ------------------------------------------------------------------------------------------ custom functions
def _custom(env):
    """Pure filter functions of one to four arguments, typed, untyped and with keyword defaults."""
    from jsonpath.function_extensions import ExpressionType as X
    from jsonpath.function_extensions import FilterFunction

    def eq(args):
        return len({repr(freeze(plain(a))) for a in args}) == 1

    def plain(a):
        return [m.obj for m in a] if isinstance(a, list) and a and hasattr(a[0], "obj") else a

    for n in range(1, 5):
        class Typed(FilterFunction):
            arg_types = [X.VALUE] * n
            return_type = X.VALUE

            def __call__(self, *args):
                return [plain(a) for a in args]

        class Logic(FilterFunction):
            arg_types = [X.NODES] * n
            return_type = X.LOGICAL

            def __call__(self, *args):
                return eq([list(a.values()) if hasattr(a, "values") else a for a in args])

        env.function_extensions[f"same{n}"] = lambda *args: eq(args)
        env.function_extensions[f"list{n}"] = Typed()
        env.function_extensions[f"nodes{n}"] = Logic()
    return env


CUSTOM = _custom(JSONPathEnvironment())
VALUE_ARGS = ["1", "$.a", "_.x", "@", "@.a", "#", "'a'"]
NODE_ARGS = ["$.a", "@.a", "_.x", "$.c[*]", "@.*"]


def custom_queries():
    out = []
    for n in range(1, 5):
        vs = VALUE_ARGS if n < 4 else VALUE_ARGS[:5]
        for args in itertools.product(vs, repeat=n):
            call = ", ".join(args)
            out.append(f"$.c[?same{n}({call})]")
            if n < 4:
                out += [f"$.c[?list{n}({call}) == [1, 1]]", f"$..[?!same{n}({call})]", f"$.c[?same2(list{n}({call}), list{n}({', '.join(args[::-1])}))]"]
        for args in itertools.product(NODE_ARGS if n < 4 else NODE_ARGS[:3], repeat=n):
            out.append(f"$.c[?nodes{n}({', '.join(args)})]")
            if n < 4:
                out.append(f"$[?@[?nodes{n}({', '.join(args)})]]")
    return out


def custom(ctx, texts):
    off = _custom(JSONPathEnvironment(filter_caching=False))
    before = frozen(PAIRS)
    for text in texts:
        try:
            plainq = off.compile(text)
        except jsonpath.JSONPathError:
            try:
                CUSTOM.compile(text)
                ctx.fail(f"custom {text!r}", f"{text!r} compiles with caching, not without", "")
            except jsonpath.JSONPathError:
                ctx.bump("refused")
            continue
        on = CUSTOM.compile(text)
        want = [collect(plainq, copy.deepcopy(d), copy.deepcopy(c)) for d, c in PAIRS]
        # used again and again, forwards and back
        for k in (0, 1, 2, 3, 2, 0):
            ctx.case((text, k))
            ctx.trans()
            got = collect(on, *PAIRS[k])
            if got != want[k]:
                ctx.fail(
                    f"custom {text!r} on pair {k}", f"{text!r} on {PAIRS[k]!r:.200}: with caching {got!r:.200}, without {want[k]!r:.200}",
                    f"from jsonpath import JSONPathEnvironment\nfrom checks.c09 import _custom, collect\ntext, pairs = {text!r}, {PAIRS!r}\n"
                    f"for caching in (True, False):\n    q = _custom(JSONPathEnvironment(filter_caching=caching)).compile(text)\n"
                    f"    print(caching, [collect(q, d, c) for d, c in pairs])",
                )
                break
        ctx.outcome((tuple(tuple(o[0] for o in w[0]) for w in want)))
        if frozen(PAIRS) != before:
            ctx.fail(f"custom mutates {text!r}", f"evaluating {text!r} changed a document or filter context", "")
            return


# ------------------------------------------------------------------------------------------ iterator interleavings
def schedules(lens):
    """Every interleaving of len(lens) sequences."""

    def go(left):
        if not any(left):
            yield ()
            return
        for i, k in enumerate(left):
            if k:
                nxt = left[:i] + (k - 1,) + left[i + 1 :]
                for rest in go(nxt):
                    yield (i,) + rest

    return go(tuple(lens))


def iterators(ctx, text, pairing, limit, env=ENV):
    pairs = [PAIRS[i] for i in pairing]
    before = frozen(pairs)
    want = [expected(text, d, c)[0] for d, c in pairs]
    err = [expected(text, d, c)[1] for d, c in pairs]
    lens = [min(len(w), limit) + 1 for w in want]
    q = env.compile(text)
    for s in schedules(lens):
        ctx.case((text, pairing, s))
        its = [iter(q.finditer(d, filter_context=c)) for d, c in pairs]
        pos = [0] * len(its)
        for i in s:
            ctx.trans()
            try:
                got = obs(next(its[i]))
            except StopIteration:
                got = None
            except Exception as e:  # noqa: BLE001
                got = type(e).__name__
            w = want[i][pos[i]] if pos[i] < len(want[i]) else err[i]
            if got != w:
                ctx.fail(
                    f"interleaving {text!r} {pairing}",
                    f"iterators of {text!r} on pairs {pairing} advanced as {s}: iterator {i} gave {got!r:.200} at its step {pos[i]}, alone {w!r:.200}",
                    f"import jsonpath\nq = jsonpath.compile({text!r})\npairs = {pairs!r}\n"
                    f"its = [iter(q.finditer(d, filter_context=c)) for d, c in pairs]\n"
                    f"for i in {s!r}:\n    m = next(its[i], None)\n    print(i, m and (m.path, m.obj))\n"
                    f"for d, c in pairs:\n    print('alone', [(m.path, m.obj) for m in q.finditer(d, filter_context=c)])",
                )
                return
            pos[i] += 1
    ctx.outcome(("interleave", text, pairing, repr(want)))
    intact(ctx, text, pairs, before, "interleaved iterators")


def operations(ctx, text, depth, first):
    """All sequences of operations on one compiled query, against a model of lists and cursors."""
    pairs = PAIRS[:2]
    before = frozen(pairs)
    want = [expected(text, d, c)[0] for d, c in pairs]
    ops = [("new", 0), ("new", 1), ("next", 0), ("next", 1), ("close", 0), ("drain", 1), ("all", 0), ("all", 1)]
    # histories that start by advancing nothing repeat shorter ones
    start = [o for o in ops if o[0] in ("new", "all")][first]
    for seq in itertools.product(ops, repeat=depth - 1):
        seq = (start, *seq)
        ctx.case((text, seq))
        q = ENV.compile(text)
        its, model = [], []
        for op, k in seq:
            ctx.trans()
            got = exp = None
            if op == "new":
                its.append(iter(q.finditer(pairs[k][0], filter_context=pairs[k][1])))
                model.append([k, 0])
            elif op == "all":
                got, exp = [obs(m) for m in q.finditer(pairs[k][0], filter_context=pairs[k][1])], want[k]
            elif k >= len(its):
                continue
            elif op == "next":
                m = next(its[k], None)
                got = m and obs(m)
                d, p = model[k]
                exp = want[d][p] if 0 <= p < len(want[d]) else None
                if p >= 0:
                    model[k][1] += 1
            elif op == "drain":
                d, p = model[k]
                got, exp = [obs(m) for m in its[k]], want[d][p:] if p >= 0 else []
                model[k][1] = 10**6
            else:
                its[k].close()
                model[k][1] = -1
            if got != exp:
                ctx.fail(
                    f"operations {text!r}",
                    f"{text!r}: operation {op} {k} of {seq} gave {got!r:.200}, expected {exp!r:.200}",
                    f"# operations: {seq}\n" + SCRIPT.format(text=text, pairs=pairs),
                )
                return
    intact(ctx, text, pairs, before, "operations")


# ------------------------------------------------------------------------------------------ threads
S1 = {"a": 1, "c": [{"a": 1}, {"a": 2}]}
S2 = {"a": 2, "c": [{"a": 1}, {"a": 2}]}
THREADS = {
    # (text, document, context, compile inside the thread) x 2
    "cached root": [("$.c[?@.a == $.a]", S1, None, 0), ("$.c[?@.a == $.a]", S2, None, 0)],
    "cached context": [("$.c[?_.x == @.a]", S1, {"x": 1}, 0), ("$.c[?_.x == @.a]", S1, {"x": 2}, 0)],
    "cached function": [("$.c[?count($.c[0, 0]) == @.a]", S1, None, 0), ("$.c[?count($.c[0, 0]) == @.a]", {"c": [{"a": 0}, {"a": 2}]}, None, 0)],
    "logic": [("$.c[?@.a && !($.a == 1)]", S1, None, 0), ("$.c[?@.a && !($.a == 1)]", S2, None, 0)],
    "nested": [("$[?@[?@.a == $.a]]", S1, None, 0), ("$[?@[?@.a == $.a]]", S2, None, 0)],
    "regex": [("$.c[?match(@.b, _.r)]", {"c": [{"b": "a"}, {"b": "b"}]}, {"r": "a"}, 0), ("$.c[?match(@.b, _.r)]", {"c": [{"b": "b"}, {"b": "a"}]}, {"r": "b"}, 0)],
    "key": [("$[?# == 'a']", S1, None, 0), ("$[?# == 'a']", {"b": 1, "a": 2}, None, 0)],
    "descendant": [("$..a", S1, None, 0), ("$..a", {"c": {"a": {"a": 1}}}, None, 0)],
    "slice list": [("$.c[-1, 0:2].a", S1, None, 0), ("$.c[-1, 0:2].a", {"c": [{"a": 5}]}, None, 0)],
    "compound": [("$.c[?@.a == $.a] | $.a & $.c[*]", S1, None, 0), ("$.c[?@.a == $.a] | $.a & $.c[*]", S2, None, 0)],
    "fake root": [("^[?@.a == 1].a", S1, None, 0), ("^[?@.a == 1].a", S2, None, 0)],
    "member": [("$.c[?@.a in _.x]", S1, {"x": [1]}, 0), ("$.c[?@.a in _.x]", S1, {"x": [2]}, 0)],
    "compile same": [("$.c[?@.a == $.a]", S1, None, 1), ("$.c[?@.a == $.a]", S2, None, 1)],
    "compile other": [("$['c'][0, 1][?@ == 1]", S1, None, 1), ("^..a | $.c[-1:] & $.*", S2, None, 1)],
    "compile and use": [("$.c[?@.a == $.a || !@.a]", S1, None, 1), ("$.c[?@.a == $.a]", S2, None, 0)],
    "compile error": [("$.c[?@.a == ]", S1, None, 1), ("$.c[?length(@.a) == 1]", S2, None, 1)],
    "compile strings": [("$[?@['\\u0061'] == \"a\\u0062\"]", {"x": {"a": "ab"}}, None, 1), ("$[?@ =~ /A./i]", ["ab", "b"], None, 1)],
}


def threads(ctx, name, unit, bound, only, stride):
    specs = THREADS[name]
    env = ENV
    qs = {t: env.compile(t) for t, _, _, c in specs if not c}
    want = []
    for t, d, c, _ in specs:
        try:
            want.append((expected(t, d, c), None))
        except Exception as e:  # noqa: BLE001
            want.append((None, f"{type(e).__name__}: {e}"))

    def body(spec):
        t, d, c, comp = spec
        return lambda: collect(env.compile(t) if comp else qs[t], d, c)

    before = frozen([(d, c) for _, d, c, _ in specs])
    switched = 0
    for plan, res, switches in T.explore(lambda: [body(s) for s in specs], unit, bound, only, stride):
        ctx.case((name, unit, plan))
        ctx.trans(1 + switches)
        ctx.bump("schedules")
        switched += switches
        if res != want:
            bad = 0 if res[0] != want[0] else 1
            ctx.fail(
                f"threads {name} {unit}",
                f"threads {name!r}: {specs[bad][0]!r} under schedule {plan} ({unit}s of the library before each switch): got {res[bad]!r:.200}, "
                f"alone {want[bad]!r:.200}",
                f"# thread {plan[0]} starts; it is preempted after {plan[1]} {unit} events in {only or 'the library'}\n"
                f"from vlib import core, threads as T\nfrom checks import c09\n"
                f"import jsonpath\nspecs = c09.THREADS[{name!r}]\nenv = c09.ENV\nqs = {{t: env.compile(t) for t, _, _, c in specs if not c}}\n"
                f"def body(s):\n    t, d, c, comp = s\n    return lambda: c09.collect(env.compile(t) if comp else qs[t], d, c)\n"
                f"first, plan = {plan!r}\nb = [body(s) for s in specs]\n"
                f"print(T.rot(T.Run(b[first:] + b[:first], plan, {unit!r}, {only!r}).go(), first))",
            )
            return
    if frozen([(d, c) for _, d, c, _ in specs]) != before:
        ctx.fail(f"threads mutate {name}", f"threads {name!r} changed a document or filter context", "")
    ctx.outcome(("threads", name, repr(want)))
    ctx.sample({"threads": name, "unit": unit, "preemptions": bound, "switches taken": switched})


# ------------------------------------------------------------------------------------------ tasks
def tasks(ctx, name):
    specs, _ = c08.SCENARIOS[name]
    qs = {t: ENV.compile(t) for t, _, _ in specs}
    docs = [c08.wrap(d, c08.KINDS["abc"]) for _, d, _ in specs]
    want = [c08.sync_iter(NOCACHE.compile(t), d, c) for t, d, c in specs]

    def make():
        return [c08.aiter_(qs[t], docs[i], c, 0) for i, (t, _, c) in enumerate(specs)]

    lens = [c08.drive(t)[1] + 1 for t in make()]
    ways, total = 1, sum(lens)
    for i in range(len(lens)):
        for j in range(lens[i]):
            ways = ways * (sum(lens[: i + 1]) - j) // (j + 1)
    s = c08.Sched(make, total if ways < 10_000 else 2, 100_000)

    def check(results, trace):
        ctx.case((name, tuple(trace)))
        ctx.trans(len(trace))
        if results != want:
            ctx.fail(f"tasks {name}", f"tasks {name!r} under schedule {trace}: got {results!r:.300}, alone and uncached {want!r:.300}", "")

    s.explore(check)
    ctx.bump("schedules", s.runs)


# ------------------------------------------------------------------------------------------ read-only containers
class Frozen(Exception):
    pass


def _no(*_a, **_k):
    raise Frozen("a document or filter context was modified")


RODict = type("RODict", (dict,), {n: _no for n in ("__setitem__", "__delitem__", "clear", "pop", "popitem", "setdefault", "update", "__ior__")})
ROList = type(
    "ROList", (list,),
    {n: _no for n in ("__setitem__", "__delitem__", "append", "clear", "extend", "insert", "pop", "remove", "reverse", "sort", "__iadd__", "__imul__")},
)  # fmt: skip


def readonly(v):
    if isinstance(v, dict):
        return RODict((k, readonly(x)) for k, x in v.items())
    if isinstance(v, list):
        return ROList(readonly(x) for x in v)
    return v


def guard(ctx, texts):
    pairs = [(readonly(d), readonly(c)) for d, c in PAIRS]
    before = frozen(pairs)
    for text in texts:
        q = ENV.compile(text)
        for (d, c), (pd, pc) in zip(pairs, PAIRS):
            ctx.case((text, "read only"))
            ctx.trans()
            got, want = collect(q, d, c), expected(text, pd, pc)
            # Frozen is raised by any attempt to modify, even one undone later
            if got != want:
                ctx.fail(f"read only {text!r} {pd!r}", f"{text!r} on read-only {pd!r}: got {got!r:.200}, expected {want!r:.200}", SCRIPT.format(text=text, pairs=[(pd, pc)]))
            try:
                q.match(d, filter_context=c)
                list(q.query(d, filter_context=c).limit(2).values())
            except Frozen:
                ctx.fail(f"read only match {text!r}", f"match/query {text!r} modifies {pd!r}", "")
            except Exception:  # noqa: BLE001
                pass
        intact(ctx, text, pairs, before, "read only")


# ------------------------------------------------------------------------------------------ units
KEY_QUERIES = [
    "$.c[?@.a == $.a]", "$.c[?_.x == @.a]", "$.c[?count($..a) > 2 && @.a]", "$.c[?# == _.n[1]]", "$..[?@.a == $.a]", "$[?@[?@.a == $.a]]",
    "$.c[?@.a == $.a] | $.c[?@.b == 'a']", "$.c[*] & $.c[?@.a == $.a]", "^[?@.a == $.a].c[*]", "$.c[?@.b in _.n]", "$.c[?1 == 1]",
    "$.c[?!(@.a == $.a)]", "$.c[?value($.a) == @.a || _.zz]", "$.c[?@.a == $.a, ?@.a != $.a]",
]  # fmt: skip


def history_queries(full):
    fs = list(Q.tests()) + list(Q.logic(Q.FEW_ATOMS, Q.FEW_ATOMS[:2]))[::3]
    fs += [f for f in itertools.islice(Q.comparisons(), 0, None, 1 if full else 9)]
    places = Q.FEW_PLACES if full else [Q.PLACES[2] if i % 2 else Q.PLACES[0] for i in range(1)]
    out = [Q.spell(p % f) for f in fs for p in places]
    out += KEY_QUERIES + [Q.spell(s) for s in Q.segments(1, roots=(Q.R, Q.F))]
    return out


def units(tier):
    full = tier == "thorough"
    out = []
    for lo in range(0, 9583, 300):
        out.append(("cache", "compare-full", lo, lo + 300, 7 if full else 2))
    for lo in range(0, 4224, 200):
        out.append(("cache", "logic", lo, lo + 200, 7 if full else 2))
    for lo in range(0, 53, 9):
        out.append(("cache", "tests", lo, lo + 9, 7))
    for lo in range(0, len(custom_queries()), 200):
        out.append(("custom", lo, lo + 200))
    for lo in range(0, 3000, 300):
        out.append(("segs", lo, lo + 300))
    hq = len(history_queries(full))
    for lo in range(0, hq, 25):
        out.append(("hist", full, lo, lo + 25, 3))
        if full:
            out.append(("hist", False, lo, lo + 25, 4))
    for lo in range(0, hq, 25):
        out.append(("edits", full, lo, lo + 25, 3))
        if full:
            out.append(("edits", False, lo, lo + 25, 5))
    for lo in range(0, hq, 20):
        out.append(("iters", full, lo, lo + 20))
    for i in range(len(KEY_QUERIES)):
        for first in range(4):
            out.append(("ops", i, 6 if full and i < 4 else 5 if full or i < 3 else 4, first))
        for pairing in ((0, 0, 0), (0, 0, 1), (0, 1, 2), (0, 0, 2)):
            out.append(("iter3", i, 3 if full else 2, pairing))
    for name in THREADS:
        out.append(("threads", name, "line", 1, None, 1))
        out.append(("threads", name, "call", 2, None, 1 if full else 11 if "compile" in name else 3))
        if full:
            out.append(("threads", name, "opcode", 1, ("filter.py", "selectors.py", "path.py"), 1))
            out.append(("threads", name, "line", 2, ("filter.py", "selectors.py", "path.py", "parse.py", "lex.py"), 7))
    for name in c08.SCENARIOS:
        out.append(("tasks", name))
    for lo in range(0, hq, 100):
        out.append(("guard", full, lo, lo + 100))
    out.append(("repeat",))
    return out


def run(unit, ctx):
    kind = unit[0]
    if kind == "cache":
        _, fam, lo, hi, np = unit
        places = Q.PLACES if np == 7 else Q.FEW_PLACES
        texts = [Q.spell(p % f) for f in Q.filters(fam)[lo:hi] for p in places]
        caching(ctx, texts, PAIRS)
    elif kind == "custom":
        custom(ctx, custom_queries()[unit[1] : unit[2]])
    elif kind == "segs":
        texts = [Q.spell(t) for t in itertools.islice(Q.segments(2, roots=(Q.R, Q.F)), unit[1], unit[2])]
        if unit[1] == 0:
            texts += [Q.spell(t) for t in Q.compound(2)]
        caching(ctx, texts, PAIRS)
    elif kind == "hist":
        for text in history_queries(unit[1])[unit[2] : unit[3]]:
            histories(ctx, text, unit[4])
    elif kind == "edits":
        for text in history_queries(unit[1])[unit[2] : unit[3]]:
            edits(ctx, text, unit[4])
    elif kind == "iters":
        for text in history_queries(unit[1])[unit[2] : unit[3]]:
            for pairing in ((0, 0), (0, 1), (0, 2)):
                iterators(ctx, text, pairing, 6 if text in KEY_QUERIES else 4)
    elif kind == "iter3":
        iterators(ctx, KEY_QUERIES[unit[1]], unit[3], unit[2])
    elif kind == "ops":
        operations(ctx, KEY_QUERIES[unit[1]], unit[2], unit[3])
    elif kind == "threads":
        threads(ctx, *unit[1:])
    elif kind == "tasks":
        tasks(ctx, unit[1])
    elif kind == "guard":
        guard(ctx, history_queries(unit[1])[unit[2] : unit[3]])
    elif kind == "repeat":
        for text in KEY_QUERIES:
            repeat(ctx, text)
