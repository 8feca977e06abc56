"""C08: the asynchronous entry points return exactly what the synchronous ones return."""

from __future__ import annotations

import asyncio
import io
import itertools
from collections.abc import Mapping
from collections.abc import Sequence

import jsonpath
from jsonpath import JSONPathEnvironment
from jsonpath.exceptions import JSONPathTypeError
from jsonpath.function_extensions import ExpressionType
from jsonpath.function_extensions import FilterFunction
from vlib import corpus as Q
from vlib import docs as D
from vlib.util import freeze

PROP = "C08"
LEVEL = "model_checking"
TECHNIQUE = (
    "bounded exhaustive exploration of the real implementation: every query of a bounded grammar on every document, "
    "asynchronous against synchronous result, with awaitable item getters; stateless exploration of every interleaving "
    "of concurrent evaluations under a controlled task scheduler"
)
LEVEL_NOTE = (
    "every query, document and interleaving within the stated bounds is executed; the schedules are all interleavings at "
    "await points of two or three tasks (bounded by the number of preemptions where stated)"
)
RULE = (
    "an execution is one comparison of an asynchronous evaluation with its synchronous twin, or one complete schedule of "
    "concurrent evaluations; outcomes are distinct (locations, error kind) results"
)
ASSUMPTIONS = [
    "item getters return the items the synchronous getters return, suspending any number of times first",
    "a match is compared by value (with JSON types kept apart), normalized path and parts; match classes, parents and "
    "children are not compared",
    "errors are of the same kind when their classes are equal",
    "queries and documents so large that the interpreter's recursion limit decides are not judged at the boundary "
    "(both modes are checked well below and, for documents, well above it)",
]
BOUNDS = {
    "quick": {
        "segments": "every sequence of 1-2 out of 31 segments x 3 roots x 12 documents",
        "filters": "9583 comparisons, 4224 logical expressions x 2 places x 4 documents, 53 tests x 7 places x 12 documents",
        "nested filters": "13 roots x 16 tests x 8 outer expressions x 4 places, with a filter context read at every depth",
        "compound": "2 operands out of 16 with every operator; 3 operands out of 9",
        "malformed": "every single-character deletion, duplication and insertion of 24 queries",
        "errors": "filter functions raising 6 kinds of errors at every call position",
        "getters": "5 kinds of mappings and sequences with asynchronous getters, suspending 0-2 times",
        "schedules": "every interleaving of 2 tasks (to 12 870 schedules each), 3 tasks to 3 preemptions",
    },
    "thorough": {
        "segments": "1-3 segments",
        "filters": "comparisons and logical expressions at 7 places x 6 documents",
        "compound": "3 operands out of 16",
        "schedules": "3 tasks to 5 preemptions, more scenarios",
    },
}

ENV = JSONPathEnvironment()
NOCACHE = JSONPathEnvironment(filter_caching=False)


# ------------------------------------------------------------------------------------------ driving
class Pause:
    """Suspends the awaiting task once."""

    def __await__(self):
        yield self


def drive(coro):
    """Run a coroutine alone, resuming it whenever it suspends."""
    n = 0
    while True:
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value, n
        n += 1
        if n > 100_000:
            raise RuntimeError("a task never finishes")


def obs(m):
    return (m.path, tuple((type(p).__name__, p) for p in m.parts), value(m.obj))


def value(v):
    try:
        return freeze(plain(v))
    except RecursionError:
        return "a deeply nested value"


def plain(v):
    if isinstance(v, Mapping):
        return {k: plain(v[k]) for k in v}
    if isinstance(v, Sequence) and not isinstance(v, str):
        return [plain(v[i]) for i in range(len(v))]
    return v


def kind(e):
    return type(e).__module__ + "." + type(e).__name__


def sync_iter(q, doc, fctx):
    out = []
    try:
        for m in q.finditer(doc, filter_context=fctx):
            out.append(obs(m))
    except Exception as e:  # noqa: BLE001
        return out, kind(e)
    return out, None


async def aiter_(q, doc, fctx, gap=0):
    out = []
    try:
        async for m in await q.finditer_async(doc, filter_context=fctx):
            out.append(obs(m))
            for _ in range(gap):
                await Pause()
    except Exception as e:  # noqa: BLE001
        return out, kind(e)
    return out, None


def sync_all(q, doc, fctx):
    try:
        return [value(v) for v in q.findall(doc, filter_context=fctx)], None
    except Exception as e:  # noqa: BLE001
        return [], kind(e)


async def aall(q, doc, fctx):
    try:
        return [value(v) for v in await q.findall_async(doc, filter_context=fctx)], None
    except Exception as e:  # noqa: BLE001
        return [], kind(e)


SCRIPT = """
import asyncio, io, jsonpath
{pre}
query, doc, context = {q!r}, {doc}, {fctx!r}
def sync():
    try:
        for m in jsonpath.finditer(query, doc, filter_context=context):
            print('sync ', m.path, m.parts, m.obj)
    except Exception as e:
        print('sync  raised', type(e).__name__, e)
async def main():
    try:
        async for m in await jsonpath.finditer_async(query, doc, filter_context=context):
            print('async', m.path, m.parts, m.obj)
    except Exception as e:
        print('async raised', type(e).__name__, e)
    try:
        print('findall_async', await jsonpath.findall_async(query, doc, filter_context=context))
    except Exception as e:
        print('findall_async raised', type(e).__name__, e)
sync()
asyncio.run(main())
"""


def both(ctx, text, q, doc, fctx, name=None, make=None):
    """Compare the four entry points of a compiled query on one document."""
    ctx.case((text, name or doc))
    fresh = make or (lambda: doc)
    want = sync_iter(q, fresh(), fctx)
    got, n = drive(aiter_(q, fresh(), fctx))
    ctx.trans(len(want[0]) + n)
    ctx.outcome((tuple(o[0] for o in want[0]), want[1]))
    if got != want:
        report(ctx, text, doc, fctx, name, "finditer_async", got, want)
    wall = sync_all(q, fresh(), fctx)
    gall, _ = drive(aall(q, fresh(), fctx))
    if gall != wall:
        report(ctx, text, doc, fctx, name, "findall_async", gall, wall)
    if wall != (([v for _, _, v in want[0]], None) if want[1] is None else ([], want[1])):
        report(ctx, text, doc, fctx, name, "findall (sync) against finditer (sync)", wall, want)
    return want


def report(ctx, text, doc, fctx, name, what, got, want):
    ctx.fail(
        f"{what} {text!r} on {name or repr(doc)}",
        f"{what} of {text!r} on {name or repr(doc)}: got {got!r:.300}, the synchronous call gives {want!r:.300}",
        SCRIPT.format(pre="", q=text, doc=repr(doc) if name is None else "None  # " + name, fctx=fctx),
    )


def compile_(text, env=ENV):
    try:
        return env.compile(text)
    except Exception as e:  # noqa: BLE001
        return e


# ------------------------------------------------------------------------------------------ module and environment level
def level(ctx, text, doc, fctx):
    """Module-level and environment-level twins, including compile errors."""
    ctx.case(("level", text, doc))
    pairs = [
        ("jsonpath.findall", jsonpath.findall, jsonpath.findall_async),
        ("env.findall", ENV.findall, ENV.findall_async),
        ("env.findall, no cache", NOCACHE.findall, NOCACHE.findall_async),
    ]
    for name, s, a in pairs:
        try:
            want = [value(v) for v in s(text, doc, filter_context=fctx)], None
        except Exception as e:  # noqa: BLE001
            want = [], kind(e)
        try:
            got = [value(v) for v in drive(a(text, doc, filter_context=fctx))[0]], None
        except Exception as e:  # noqa: BLE001
            got = [], kind(e)
        ctx.trans(len(want[0]))
        if got != want:
            report(ctx, text, doc, fctx, None, name + "_async", got, want)
    pairs = [("jsonpath.finditer", jsonpath.finditer, jsonpath.finditer_async), ("env.finditer", ENV.finditer, ENV.finditer_async)]
    for name, s, a in pairs:
        try:
            want = [obs(m) for m in s(text, doc, filter_context=fctx)], None
        except Exception as e:  # noqa: BLE001
            want = [], kind(e)

        async def go(a=a):
            return [obs(m) async for m in await a(text, doc, filter_context=fctx)]

        try:
            got = drive(go())[0], None
        except Exception as e:  # noqa: BLE001
            got = [], kind(e)
        if got != want:
            report(ctx, text, doc, fctx, None, name + "_async", got, want)
    ctx.outcome(("level", want[1], len(want[0])))


# ------------------------------------------------------------------------------------------ asynchronous getters
class Base:
    pauses = 1
    twin = True

    async def __getitem_async__(self, key):
        for _ in range(self.pauses):
            await Pause()
        return self[key]


class AMap(Base, Mapping):
    def __init__(self, items):
        self._d = items

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __repr__(self):
        return f"AMap({self._d})"


class ASeq(Base, Sequence):
    def __init__(self, items):
        self._l = items

    def __getitem__(self, k):
        return self._l[k]

    def __len__(self):
        return len(self._l)

    def __repr__(self):
        return f"ASeq({self._l})"


class ADict(Base, dict):
    pass


class AList(Base, list):
    pass


class ATuple(Base, tuple):
    pass


class OwnMap(AMap):
    """Raises its own subclass of KeyError."""

    class Missing(KeyError):
        pass

    def __getitem__(self, k):
        if k not in self._d:
            raise self.Missing(k)
        return self._d[k]


class OwnSeq(ASeq):
    class Outside(IndexError):
        pass

    def __getitem__(self, k):
        if isinstance(k, int) and not -len(self._l) <= k < len(self._l):
            raise self.Outside(k)
        return self._l[k]


KINDS = {
    "abc": (AMap, ASeq),
    "builtin": (ADict, AList),
    "tuple": (AMap, ATuple),
    "own errors": (OwnMap, OwnSeq),
    "mapping only": (ADict, list),
    "sequence only": (dict, AList),
}


def wrap(v, kinds, pauses=1):
    m, s = kinds
    if isinstance(v, dict):
        out = m({k: wrap(x, kinds, pauses) for k, x in v.items()})
    elif isinstance(v, list):
        out = s([wrap(x, kinds, pauses) for x in v])
    else:
        return v
    if isinstance(out, Base) and pauses != 1:
        out.pauses = pauses
    return out


# ------------------------------------------------------------------------------------------ failing functions
ERRORS = [JSONPathTypeError, jsonpath.JSONPathSyntaxError, ValueError, KeyError, IndexError, RecursionError, StopAsyncIteration, TypeError]


class Boom(FilterFunction):
    """Raises at its n-th call."""

    arg_types = [ExpressionType.VALUE]
    return_type = ExpressionType.LOGICAL

    def __init__(self):
        self.calls = 0
        self.at = -1
        self.error = ValueError

    def __call__(self, _):
        self.calls += 1
        if self.calls == self.at:
            raise self.error("boom")
        return True


def boom_env(**kw):
    env = JSONPathEnvironment(**kw)
    fn = Boom()
    env.function_extensions["boom"] = fn
    return env, fn


BOOM_QUERIES = [
    "$[?boom(@)]", "$..[?boom(@)]", "$[?@.a || boom(@)]", "$[?@.zz && boom(@)]", "$[?!boom(@.a)]", "$[?boom(#)]", "$[?boom($.a)]",
    "$[?boom(_.x)]", "$[0, ?boom(@)]", "$[?boom(@), 0]", "$[?@[?boom(@)]]", "$[?count(@[?boom(@)]) == 1]", "$[?boom(@)].a", "$.*[?boom(@)]",
    "$[?boom(@)] | $.a", "$.a | $[?boom(@)]", "$[?boom(@)] & $.*", "$.* & $[?boom(@)]", "$.a | $.* & $[?boom(@)]", "^[?boom(@)]",
    "$[?@.a == value($[?boom(@)].a)]", "$[?boom(value(@.*))]", "$[?boom(@)][?boom(@)]",
]  # fmt: skip


# ------------------------------------------------------------------------------------------ schedules
class Sched:
    """Stateless exploration of all interleavings of freshly made tasks, to a bound on preemptions."""

    def __init__(self, make, bound, cap):
        self.make, self.bound, self.cap = make, bound, cap
        self.runs = 0

    def run(self, prefix):
        tasks = self.make()
        results = [None] * len(tasks)
        live = list(range(len(tasks)))
        trace = []
        cur = None
        while live:
            enabled = ([cur] if cur in live else []) + [t for t in live if t != cur]
            i = len(trace)
            if i < len(prefix):
                if prefix[i] >= len(enabled):
                    raise AssertionError("a replayed schedule diverged")
                c = prefix[i]
            else:
                c = 0
            trace.append((c, len(enabled), cur in live))
            cur = enabled[c]
            try:
                tasks[cur].send(None)
            except StopIteration as e:
                results[cur] = e.value
                live.remove(cur)
        return results, trace

    def explore(self, check):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            results, trace = self.run(prefix)
            self.runs += 1
            if self.runs > self.cap:
                raise AssertionError("more schedules than planned")
            check(results, [t[0] for t in trace])
            cost = sum(1 for c, _, alive in trace[: len(prefix)] if c and alive)
            for i in range(len(prefix), len(trace)):
                _, n, alive = trace[i]
                if cost + (1 if alive else 0) > self.bound:
                    continue
                for alt in range(1, n):
                    stack.append([t[0] for t in trace[:i]] + [alt])


SD1 = {"a": 1, "c": [{"a": 1}, {"a": 2}]}
SD2 = {"a": 2, "c": [{"a": 1}, {"a": 2}]}
SD3 = {"c": [{"b": 1}, {"a": {"a": 1}}], "a": {"a": 1}}
SCENARIOS = {
    # same compiled query, different documents, cached root-relative operands
    "cached root": ([("$.c[?@.a == $.a]", SD1, None), ("$.c[?@.a == $.a]", SD2, None)], True),
    "cached context": ([("$.c[?_.x == @.a]", SD1, {"x": 1}), ("$.c[?_.x == @.a]", SD1, {"x": 2})], True),
    "cached function": ([("$.c[?count($.*) == @.a]", SD1, None), ("$.c[?count($.*) == @.a]", {"c": [{"a": 1}, {"a": 3}], "a": 1, "b": 2}, None)], True),
    "same document": ([("$.c[?@.a == $.a]", SD1, None), ("$.c[?@.a == $.a]", SD1, None)], True),
    "nested": ([("$[?@[?@.a == $.a]]", SD1, None), ("$[?@[?@.a == $.a]]", SD2, None)], True),
    "constant": ([("$.c[?@.a && $.a == _.x]", SD1, {"x": 1}), ("$.c[?@.a && $.a == _.x]", SD2, {"x": 1})], True),
    "union": ([("$.c[0].a | $.a", SD1, None), ("$.c[1].a | $.c[0].a", SD2, None)], False),
    "intersection": ([("$.c[?@.a == $.a].a & $.a", SD1, None), ("$.c[?@.a == $.a].a & $.a", SD2, None)], True),
    "slices": ([("$.c[0:2].a", SD1, None), ("$.c[::-1].a", SD2, None)], False),
    "descendant": ([("$..a", SD1, None), ("$..a", SD3, None)], True),
    "key": ([("$[?# == 'a' || @[0].a == 1]", SD1, None), ("$[?# == 'a' || @[0].a == 1]", SD2, None)], True),
    "list": ([("$['a', 'c']", SD1, None), ("$['c', 'a'][0]", SD2, None)], False),
    "fake root": ([("^[?@.a == 1].c[0]", SD1, None), ("$.c[0]", SD2, None)], False),
    "membership": ([("$.c[?@.a in _.x]", SD1, {"x": [1]}), ("$.c[?@.a in _.x]", SD2, {"x": [2]})], True),
    "three tasks": ([("$.c[?@.a == $.a]", SD1, None), ("$.c[?@.a == $.a]", SD2, None), ("$.c[?@.a == $.a]", SD3, None)], True),
    "three queries": ([("$.c[?@.a == $.a]", SD1, None), ("$.c[?@.a != $.a]", SD1, None), ("$..a", SD2, None)], False),
}


def scenario(ctx, name, variant, full):
    specs, _ = SCENARIOS[name]
    env = ENV if variant != "nocache" else NOCACHE
    queries = {t: env.compile(t) for t, _, _ in specs}
    kinds = KINDS["abc"] if variant != "plain" else (dict, list)
    gap = 1 if variant in ("plain", "gaps") else 0
    docs = [wrap(d, kinds) for _, d, _ in specs]
    expected = [sync_iter(queries[t], d, c) for (t, d, c) in specs]

    def make():
        return [aiter_(queries[t], docs[i], c, gap) for i, (t, _, c) in enumerate(specs)]

    # number of suspensions of each task when it runs alone
    lens = []
    for t in make():
        lens.append(drive(t)[1] + 1)
    total, ways = sum(lens), 1
    for i, k in enumerate(lens):
        for j in range(k):
            ways = ways * (sum(lens[: i + 1]) - j) // (j + 1)
    cap = 200_000
    limit = 13_000 if not full else 60_000
    bound = total if ways <= limit else 1
    if bound == 1:
        for b in range(2, 9):
            if b > (5 if full else 3) and len(specs) > 2:
                break
            # coarse upper estimate of the schedules with at most b preemptions
            est = len(specs) ** 2
            for j in range(b):
                est = est * (total - j) // (j + 1) * (len(specs) - 1)
            if est > limit * 3:
                break
            bound = b
    s = Sched(make, bound, cap)
    seen = set()

    def check(results, trace):
        ctx.case((name, variant, tuple(trace)))
        ctx.trans(len(trace))
        seen.add(tuple(trace))
        for i, (got, want) in enumerate(zip(results, expected)):
            if got != want:
                ctx.fail(
                    f"schedule {name} {variant}",
                    f"scenario {name!r} ({variant}): task {i} ({specs[i][0]!r}) under schedule {trace}: got {got!r:.200}, alone "
                    f"{want!r:.200}",
                    f"# schedule: choices {trace} among the enabled tasks (the running one first)\n"
                    f"from checks import c08\nimport jsonpath\n"
                    f"specs = c08.SCENARIOS[{name!r}][0]\n"
                    f"qs = {{t: c08.{'ENV' if variant != 'nocache' else 'NOCACHE'}.compile(t) for t, _, _ in specs}}\n"
                    f"docs = [c08.wrap(d, {'c08.KINDS[chr(97)+chr(98)+chr(99)]' if variant != 'plain' else '(dict, list)'}) for _, d, _ in specs]\n"
                    f"s = c08.Sched(lambda: [c08.aiter_(qs[t], docs[i], c, {gap}) for i, (t, _, c) in enumerate(specs)], 99, 10**9)\n"
                    f"print(s.run({trace!r})[0])\nprint('alone:', [c08.sync_iter(qs[t], docs[i], c) for i, (t, _, c) in enumerate(specs)])",
                )

    s.explore(check)
    # the same schedule gives the same observations
    one = s.run([1])
    two = s.run([1])
    assert one == two, "a schedule is not reproducible"
    ctx.bump("schedules", s.runs)
    ctx.outcome(("sched", name, variant, repr(expected)))
    ctx.sample({"scenario": name, "variant": variant, "suspensions": lens, "interleavings": ways, "preemption bound": bound if ways > limit else "none", "schedules": s.runs})


def loop_case(ctx, names):
    """The real event loop: many evaluations gathered."""
    specs = [s for n in names for s in SCENARIOS[n][0]]
    qs = {t: ENV.compile(t) for t, _, _ in specs}

    class LMap(AMap):
        async def __getitem_async__(self, key):
            await asyncio.sleep(0)
            return self[key]

    class LSeq(ASeq):
        async def __getitem_async__(self, key):
            await asyncio.sleep(0)
            return self[key]

    docs = [wrap(d, (LMap, LSeq)) for _, d, _ in specs]

    async def main():
        return await asyncio.gather(*(aiter_(qs[t], docs[i], c) for i, (t, _, c) in enumerate(specs)))

    ctx.case(("gather", tuple(names)))
    got = asyncio.run(main())
    for i, (t, _, c) in enumerate(specs):
        want = sync_iter(qs[t], docs[i], c)
        ctx.trans(len(want[0]))
        if got[i] != want:
            ctx.fail(f"gather {names} {t}", f"gathering {names}: {t!r} gave {got[i]!r}, alone {want!r}", "")


def abandon(ctx, text, doc, fctx):
    """Closing or cancelling one evaluation leaves the query as it was."""
    q = ENV.compile(text)
    adoc = wrap(doc, KINDS["abc"])
    want = sync_iter(q, adoc, fctx)
    n = drive(aiter_(q, adoc, fctx))[1]
    for cut in range(n + 1):
        for how in ("close", "throw"):
            ctx.case(("abandon", text, cut, how))
            ctx.trans()
            t = aiter_(q, adoc, fctx)
            done = False
            for _ in range(cut):
                try:
                    t.send(None)
                except StopIteration:
                    done = True
                    break
            if not done:
                if how == "close":
                    t.close()
                else:
                    try:
                        t.throw(asyncio.CancelledError())
                    except asyncio.CancelledError:
                        pass
                    except StopIteration:
                        pass
            got = drive(aiter_(q, adoc, fctx))[0]
            if got != want or sync_iter(q, adoc, fctx) != want:
                ctx.fail(
                    f"abandon {text} {cut} {how}",
                    f"after abandoning an evaluation of {text!r} at suspension {cut} ({how}): got {got!r:.200}, before {want!r:.200}",
                    "",
                )


# ------------------------------------------------------------------------------------------ filters inside filters
INNER_ROOTS = ["$", "@", "_", "$.c", "@.a", "_.m", "$.c[*]", "@.*", "_.*", "$..a", "@..*", "_..*", "^[0]"]
INNER_TESTS = [
    "@ == _.x", "@ == $.a", "@.a == _.x", "_.m", "# == 'a'", "# == _.k", "@ in _.n", "_.x", "$.a == _.x", "@", "count(_.n[*]) == 3", "_.m[?@ == _.m.a]", "@[?@ == _.x || @ == $.a]",
    "$.c[?@.a == _.x]", "match(@, _.m.a)", "@[?# == _.k]",
]  # fmt: skip
OUTER = ["%s", "!%s", "count(%s) == 1", "value(%s) == 1", "@.a && %s", "%s || @.b", "count($..[?%s]) > 1", "value(_.*[?%s]) == 'b'"]
NESTED_DOC = {"a": 1, "b": {"a": [1, 2], "b": "ab"}, "c": [{"a": 1, "b": "a"}, {"a": 2, "b": "b"}, {"b": "a"}, 1]}
NESTED_CTX = {"x": 1, "k": "a", "n": ["a", 1, {"b": 2}], "m": {"a": "b", "b": 1}}


def nested(ctx, r, full):
    for t in INNER_TESTS:
        for o in OUTER:
            for place in ("$[?%s]", "$.c[?%s]", "$..[?%s]", "^[?%s]", "$.c[0, ?%s] | $[?%s]")[: 5 if full else 4]:
                inner = o % f"{INNER_ROOTS[r]}[?{t}]"
                text = place.replace("%s", inner)
                q = compile_(text)
                if isinstance(q, Exception):
                    ctx.bump("refused")
                    continue
                for c in (NESTED_CTX, None) if full or o == "%s" else (NESTED_CTX,):
                    both(ctx, text, q, NESTED_DOC, c)
                adoc = wrap(NESTED_DOC, KINDS["abc"])
                actx = wrap(NESTED_CTX, KINDS["abc"])
                if full or o == "%s":
                    both(ctx, text, q, adoc, actx, name="the nested document with asynchronous getters")


# ------------------------------------------------------------------------------------------ units
MALFORMED = [
    "$.a", "$[0]", "$['a', 1:2]", "$..[*]", "$[?@.a == 1]", "$[?@.a && (@.b || !@.c)]", "$[?count(@.*) > 1]", "$.a | $.b", "$.a & ^.b",
    "$[?match(@.a, 'x')]", "$[?@.a =~ /x/i]", "$[?@ in [1, 'a']]", "$.~", "$[?# == 'a']", "$[?_.x]", "[?length(@) > 1]", "$[?value(@.a) == nil]",
    '$["\\u0061"]', "$[9007199254740992]", "$[?nope(@)]", "$[?length(@.*) == 1]", "$[?@.* == 1]", "$[?count(1) == 1]", "$[?length(@)]",
]  # fmt: skip
INS = list("$@_#~^.*?,:()[]&|!<='\"/\\0-a ") + ["undefined", "in", "\u00e9"]
TEXTS = [
    "{}", "[]", "[1, {\"a\": [1, \"b\"]}]", '"a"', "a", "abc def", "1", "null", "true", "1.5", "[1", "{\"a\": }", "", " ", "[1e400]", '{"a": 1, "a": 2}', "nul]",
]  # fmt: skip


def units(tier):
    full = tier == "thorough"
    out = []
    out += [("seg", 1, 0, 9999, d) for d in range(len(Q.DOCS))]
    n2 = len(list(Q.segments(2, roots=(Q.R, Q.F))))
    for lo in range(0, n2, 120):
        out.append(("seg2", lo, lo + 120, 12 if full else 5))
    if full:
        for lo in range(0, 31):
            out.append(("seg3", lo))
    for lo in range(0, 9583, 240):
        out.append(("filter", "compare-full", lo, lo + 240, 7 if full else 2, 6 if full else 4))
    for lo in range(0, 53, 4):
        out.append(("filter", "tests", lo, lo + 4, 7, 12))
    for lo in range(0, 4224, 140):
        out.append(("filter", "logic", lo, lo + 140, 7 if full else 2, 6 if full else 4))
    for lo in range(0, 512, 50):
        out.append(("compound", 2, lo, lo + 50, 16))
    n3 = 16**3 * 4 if full else 9**3 * 4
    for lo in range(0, n3, 150):
        out.append(("compound", 3, lo, lo + 150, 16 if full else 9))
    for i in range(len(INNER_ROOTS)):
        out.append(("nested", i, full))
    for i in range(len(MALFORMED)):
        out.append(("malformed", i))
    for i in range(len(BOOM_QUERIES)):
        out.append(("boom", i))
    for k in KINDS:
        for p in (0, 1, 2):
            out.append(("getter", k, p))
    for i in range(len(TEXTS)):
        out.append(("text", i))
    for name in SCENARIOS:
        for v in ("getters", "gaps", "plain", "nocache"):
            out.append(("sched", name, v, full))
    out.append(("loop",))
    out.append(("abandon",))
    out.append(("scale",))
    for lo in range(0, 20, 5):
        out.append(("level", lo, lo + 5))
    return out


def run(unit, ctx):
    kind_ = unit[0]
    if kind_ == "seg":
        _, n, lo, hi, d = unit
        for t in itertools.islice(Q.segments(n, roots=(Q.R, Q.F)), lo, hi):
            one(ctx, Q.spell(t), [Q.DOCS[d]])
    elif kind_ == "seg2":
        for t in itertools.islice(Q.segments(2, roots=(Q.R, Q.F)), unit[1], unit[2]):
            one(ctx, Q.spell(t), Q.DOCS[: unit[3]])
    elif kind_ == "seg3":
        for a, b in itertools.product(Q.SEGS, repeat=2):
            one(ctx, Q.spell(Q.R + Q.SEGS[unit[1]] + a + b), Q.DOCS[:3])
    elif kind_ == "filter":
        _, fam, lo, hi, np, nd = unit
        places = Q.PLACES if np == 7 else Q.FEW_PLACES[:np]
        for f in Q.filters(fam)[lo:hi]:
            for p in places:
                one(ctx, Q.spell(p % f), Q.DOCS[:nd])
    elif kind_ == "compound":
        _, n, lo, hi, _ = unit
        paths = Q.PATHS[: unit[4]]
        for t in itertools.islice(Q.compound(n, paths), lo, hi):
            one(ctx, Q.spell(t), Q.DOCS[:4] if n == 2 else Q.DOCS[:2])
    elif kind_ == "nested":
        nested(ctx, unit[1], unit[2])
    elif kind_ == "malformed":
        base = MALFORMED[unit[1]]
        variants = [base]
        for i in range(len(base) + 1):
            variants.append(base[:i])
            variants.append(base[:i] + base[i + 1 :])
            variants.append(base[: i + 1] + base[i:])
            for c in INS:
                variants.append(base[:i] + c + base[i:])
        for t in dict.fromkeys(variants):
            level(ctx, t, Q.DOCS[0], Q.CONTEXT)
    elif kind_ == "level":
        docs = Q.DOCS + [[1, {"a": 2}]] * 8
        for t in ["$", "a", "$..*", "$[?@.a]", "$[?@.a == $.a]", "$.a | $..b", "$..* & $.a", "^[?@]", "$.~", "$[?_.x == @]", "$[?# == 'a']"]:
            for d in docs[unit[1] : unit[2]]:
                for c in (None, {}, Q.CONTEXT):
                    level(ctx, t, d, c)
    elif kind_ == "boom":
        text = BOOM_QUERIES[unit[1]]
        for kw in ({}, {"filter_caching": False}):
            env, fn = boom_env(**kw)
            q = env.compile(text)
            for doc in (*Q.DOCS[:4], {"a": 5, "b": 6}):
                for wrapkind in (None, "abc"):
                    d = doc if wrapkind is None else wrap(doc, KINDS[wrapkind])
                    fn.calls, fn.at = 0, -1
                    sync_iter(q, d, Q.CONTEXT)
                    total = fn.calls
                    for err in ERRORS:
                        for at in range(1, min(total, 12) + 2):
                            boom(ctx, text, q, fn, d, err, at, kw)
    elif kind_ == "getter":
        getter(ctx, unit[1], unit[2])
    elif kind_ == "text":
        forms(ctx, TEXTS[unit[1]])
    elif kind_ == "sched":
        scenario(ctx, unit[1], unit[2], unit[3])
    elif kind_ == "loop":
        names = list(SCENARIOS)
        for a in names:
            loop_case(ctx, [a])
            loop_case(ctx, [a] * 5)
            for b in names:
                loop_case(ctx, [a, b])
        loop_case(ctx, names)
    elif kind_ == "abandon":
        for specs, _ in SCENARIOS.values():
            for t, d, c in specs:
                abandon(ctx, t, d, c)
    elif kind_ == "scale":
        scale(ctx)


def one(ctx, text, docs, fctx=Q.CONTEXT):
    q = compile_(text)
    if isinstance(q, Exception):
        level(ctx, text, docs[0], fctx)
        return
    ctx.state(text)
    for d in docs:
        both(ctx, text, q, d, fctx)
    ctx.sample({"query": text, "documents": len(docs)})


def boom(ctx, text, q, fn, d, err, at, kw):
    ctx.case(("boom", text, err.__name__, at))
    fn.error, fn.at = err, at
    fn.calls = 0
    want = sync_iter(q, d, Q.CONTEXT)
    fn.calls = 0
    got, n = drive(aiter_(q, d, Q.CONTEXT))
    ctx.trans(len(want[0]) + n)
    ctx.outcome(("boom", text, want[1], len(want[0])))
    fn.calls = 0
    wall = sync_all(q, d, Q.CONTEXT)
    fn.calls = 0
    gall, _ = drive(aall(q, d, Q.CONTEXT))
    fn.at = -1
    if err is StopAsyncIteration:
        # inside a coroutine Python itself turns this one into a RuntimeError
        return
    if got != want or gall != wall:
        ctx.fail(
            f"boom {text!r} {err.__name__} at call {at} {kw}",
            f"{text!r} with boom() raising {err.__name__} at call {at} on {plain(d)!r}: async {got!r:.200} / {gall!r:.100}, sync {want!r:.200} / {wall!r:.100}",
            "",
        )


GETTER_QUERIES = (
    [Q.spell(t) for t in Q.segments(1, roots=(Q.R, Q.F))]
    + [Q.spell(t) for t in Q.segments(2, Q.FEW_SEGS)]
    + [Q.spell(Q.PLACES[0] % f) for f in Q.tests()]
    + [Q.spell(Q.PLACES[1] % f) for f in Q.tests()]
    + [Q.spell(Q.PLACES[0] % f) for f in itertools.islice(Q.comparisons(), 0, 1419, 5)]
    + [Q.spell(t) for t in Q.compound(2, Q.PATHS[:8])]
)


def getter(ctx, kind_, pauses):
    kinds = KINDS[kind_]
    docs = [d for d in Q.DOCS if isinstance(d, (dict, list))]
    wrapped = [(d, wrap(d, kinds, pauses) if pauses != 1 else wrap(d, kinds)) for d in docs]
    if kind_ == "tuple" and pauses != 1:
        return
    for text in GETTER_QUERIES:
        q = compile_(text)
        if isinstance(q, Exception):
            continue
        for d, w in wrapped:
            want = both(ctx, text, q, w, Q.CONTEXT, name=f"{kind_} getters ({pauses} suspensions) over {d!r}")
            if kind_ in ("abc", "builtin"):
                # the same items as a plain document
                p = sync_iter(q, d, Q.CONTEXT)
                if p != want and kind_ == "builtin":
                    report(ctx, text, d, Q.CONTEXT, f"{kind_} getters over {d!r}", "finditer", want, p)


def forms(ctx, text):
    """Documents given as JSON text or files."""
    for t in ["$", "$.a", "$..*", "$[?@.a]", "$[?@ == $[0]]", "$ | $.*", "$.* & $..*", "^[0]"]:
        q = ENV.compile(t)
        both(ctx, t, q, text, None)
        both(ctx, t, q, text, None, name=f"text file {text!r}", make=lambda: io.StringIO(text))
        both(ctx, t, q, text, None, name=f"binary file {text!r}", make=lambda: io.BytesIO(text.encode()))


def scale(ctx):
    docs = [
        D.long_array(130), D.long_object(130), D.deep(60, "a"), D.deep(60, "o"), D.deep(60, "m"), [D.long_array(40)] * 3,
        {"a": D.long_array(40), "b": D.long_object(40)}, [[i, {"a": i % 3, "b": str(i)}] for i in range(60)],
    ]  # fmt: skip
    deep = D.deep(5000, "m")
    for t in [
        "$[*]", "$..*", "$..a", "$[100]", "$[-130]", "$[::7]", "$[::-1]", "$..[?@ == $[5]]", "$.*[?@.a == 1]", "$[?@ > 50]", "$.~", "$..[0]",
        "$[?# == 'k7']", "$.b.~", "$ | $[*]", "$[*] & $[10:20]", "$" + ".a" * 60, "$" + "[0]" * 60, "$[" + ",".join("0123456789") + "]",
        "$" + " | $[0]" * 60, "$[?" + " && ".join(["@"] * 60) + "]", "$[?" + "(" * 40 + "@" + ")" * 40 + "]", "$[?@" + "[?@" * 12 + "]" * 12 + "]",
    ]:
        q = compile_(t)
        if isinstance(q, Exception):
            level(ctx, t, docs[0], None)
            continue
        for i, d in enumerate(docs):
            both(ctx, t[:60], q, d, None, name=f"large document {i}")
        ctx.case(("deep", t))
        want, (got, _) = sync_kind(q, deep), drive(async_kind(q, deep))
        if want != got:
            report(ctx, t[:60], None, None, "document of depth 5000", "findall_async", got, want)


def sync_kind(q, doc):
    """Matches found before the stack is exhausted are not comparable."""
    try:
        return len(q.findall(doc))
    except Exception as e:  # noqa: BLE001
        return kind(e)


async def async_kind(q, doc):
    try:
        return len(await q.findall_async(doc))
    except Exception as e:  # noqa: BLE001
        return kind(e)
