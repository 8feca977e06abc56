"""C11: every query entry point agrees with every other, for every document form."""

from __future__ import annotations

import io
import itertools
import json
import os
import tempfile

import jsonpath
from jsonpath import JSONPathEnvironment
from checks.c08 import kind, obs, value
from vlib import corpus as Q
from vlib import docs as D
from vlib.rfc9535 import jeq

PROP = "C11"
LEVEL = "model_checking"
TECHNIQUE = (
    "bounded exhaustive exploration of the real implementation: every query of a bounded grammar on every document in every "
    "form through every entry point, against find-iter of the parsed value; compound queries against a model built from "
    "the operands' own results; every bounded history of union() and intersection() calls"
)
LEVEL_NOTE = (
    "every combination of query, document, form and entry point within the stated bounds is executed; what a simple query "
    "selects is the implementation's own answer (C01, C02 decide that), the combination is the model's"
)
RULE = "an execution is one call of one entry point; outcomes are distinct results of one (query, document)"
ASSUMPTIONS = [
    "a value is also produced by the other operand when the two are equal JSON values (numbers by value, Booleans are not numbers)",
    "a match is compared by value (with JSON types kept apart), normalized path and parts",
    "text and files hold JSON texts of arrays or objects; files are io objects and objects with a read() method as made by the "
    "standard library's tempfile, gzip, zipfile and codecs modules",
]
BOUNDS = {
    "quick": {
        "simple": "1-2 out of 31 segments x 3 roots x 12 documents; 53 tests x 7 places; 1419 comparisons; 1228 logical expressions",
        "compound": "1-2 operators over 16 operands x 12 documents, 3 operators over 6 (thorough: 8), 4 over 4",
        "small documents": "1 operator over 5 operands (2 over 4: every eighth document) x every document to 4 nodes over 6 leaves",
        "forms": "17 forms of text and file x 44 queries x 150 documents",
        "api": "every history of 4 union / intersection calls on any earlier compiled query, 3 operands",
        "errors": "malformed queries, type errors, failing functions at every call position",
    },
    "thorough": {
        "simple": "3 segments; 1419 comparisons at 7 places, all 9583 at 2",
        "compound": "5 operands out of 4",
        "small documents": "documents to 5 nodes",
        "api": "histories of 5 calls",
    },
}

ENV = JSONPathEnvironment()


# ------------------------------------------------------------------------------------------ entry points
def gather(it):
    out = []
    try:
        for m in it():
            out.append(obs(m))
    except Exception as e:  # noqa: BLE001
        return out, kind(e)
    return out, None


def one(fn):
    try:
        m = fn()
    except Exception as e:  # noqa: BLE001
        return None, kind(e)
    return None if m is None else obs(m), None


def listed(fn):
    try:
        r = fn()
        if not isinstance(r, list):
            return type(r).__name__, None
        return [value(v) for v in r], None
    except Exception as e:  # noqa: BLE001
        return [], kind(e)


def lazily(fn, conv):
    out = []
    try:
        for v in fn():
            out.append(conv(v))
    except Exception as e:  # noqa: BLE001
        return out, kind(e)
    return out, None


class Owner:
    """Calls bound to (something with findall, ...), and the leading arguments."""

    def __init__(self, name, obj, lead):
        self.name, self.obj, self.lead = name, obj, lead

    def calls(self, fctx, quick=False):
        o, lead = self.obj, self.lead
        kw = {} if fctx is None else {"filter_context": fctx}
        yield "findall", lambda d: listed(lambda: o.findall(*lead, d, **kw)), "all"
        yield "match", lambda d: one(lambda: o.match(*lead, d, **kw)), "first"
        yield "finditer", lambda d: gather(lambda: o.finditer(*lead, d, **kw)), "iter"
        yield "query.values", lambda d: lazily(lambda: o.query(*lead, d, **kw).values(), value), "values"
        if quick:
            return
        yield "query", lambda d: gather(lambda: o.query(*lead, d, **kw)), "iter"
        yield "query.locations", lambda d: lazily(lambda: o.query(*lead, d, **kw).locations(), str), "paths"
        yield "query.items", lambda d: lazily(lambda: o.query(*lead, d, **kw).items(), lambda p: (p[0], value(p[1]))), "items"
        yield "query.first_one", lambda d: one(lambda: o.query(*lead, d, **kw).first_one()), "first"


def want(ref, what):
    ms, err = ref
    if what == "iter":
        return ms, err
    if what == "first":
        return (ms[0], None) if ms else (None, err)
    if what == "all":
        return [] if err else [m[2] for m in ms], err
    if what == "values":
        return [m[2] for m in ms], err
    if what == "paths":
        return [m[0] for m in ms], err
    return [(m[0], m[2]) for m in ms], err


def owners(q):
    out = [Owner("jsonpath", jsonpath, (q,)), Owner("env", JSONPathEnvironment(), (q,))]
    try:
        p = ENV.compile(q)
    except Exception:  # noqa: BLE001
        return out, None
    return out + [Owner("compiled", p, ())], p


SCRIPT = """
import io, json, jsonpath
from jsonpath import *
query, doc, context = {q!r}, {doc}, {fctx!r}
for v in ({texts}):
    for name, fn in [
        ('finditer', lambda: [(m.path, m.obj) for m in jsonpath.finditer(query, v(), filter_context=context)]),
        ('findall ', lambda: jsonpath.findall(query, v(), filter_context=context)),
        ('match   ', lambda: jsonpath.match(query, v(), filter_context=context)),
        ('query   ', lambda: list(jsonpath.query(query, v(), filter_context=context).values())),
        ('compiled finditer', lambda: [(m.path, m.obj) for m in jsonpath.compile(query).finditer(v(), filter_context=context)]),
        ('compiled findall ', lambda: jsonpath.compile(query).findall(v(), filter_context=context)),
        ('compiled match   ', lambda: jsonpath.compile(query).match(v(), filter_context=context)),
    ]:
        try:
            print(name, fn())
        except Exception as e:
            print(name, type(e).__name__, e)
# {msg}
"""


def src(doc):
    return repr(doc).replace("inf", "float('inf')")


def report(ctx, q, doc, name, got, exp, fctx, form="value"):
    msg = f"{name} of {q!r} ({form}) gives {str(got)[:140]}, expected {str(exp)[:140]} on {str(doc)[:80]}"
    texts = "lambda: doc, lambda: json.dumps(doc), lambda: io.StringIO(json.dumps(doc))" if isinstance(doc, (list, dict)) else "lambda: doc,"
    ctx.fail(
        f"{name} {form} {q} {str(doc)[:60]}", msg,
        SCRIPT.format(q=q, doc=src(doc), fctx=fctx, msg=msg.replace("\n", " "), texts=texts),
    )  # fmt: skip


def agree(ctx, q, docs, fctx=Q.CONTEXT, model=None, quick=False, text=True):
    """Every entry point agrees with find-iter of the value (or with the model)."""
    os_, p = owners(q)
    for doc in docs:
        if model is not None:
            ref = model(doc)
        elif p is None:
            ref = gather(lambda: ENV.finditer(q, doc, filter_context=fctx))
        else:
            ref = gather(lambda: p.finditer(doc, filter_context=fctx))
        ctx.outcome((tuple(m[:2] for m in ref[0]), ref[1]))
        ctx.state((q, len(ref[0]), ref[1]))
        forms = [("value", lambda d=doc: d)]
        if text and isinstance(doc, (list, dict)):
            t = json.dumps(doc)
            forms += [("text", lambda t=t: t), ("file", lambda t=t: io.StringIO(t)), ("bytes file", lambda t=t: io.BytesIO(t.encode()))]
        for form, mk in forms:
            for o in os_:
                if form != "value" and o.name == "env":
                    continue
                for name, fn, what in o.calls(fctx, quick or form != "value"):
                    ctx.case(q)
                    ctx.trans()
                    got = fn(mk())
                    exp = want(ref, what)
                    if got != exp:
                        report(ctx, q, doc, f"{o.name}.{name}", got, exp, fctx, form)
    ctx.sample({"query": q, "documents": len(docs)}, 1)


# ------------------------------------------------------------------------------------------ compound queries
class Model:
    """The result of a compound query from the results of its operands."""

    def __init__(self, fctx=Q.CONTEXT):
        self.fctx = fctx
        self.single = {}

    def operand(self, path, doc, key):
        k = (path, key)
        if k not in self.single:
            p = ENV.compile(path)
            ms = list(p.finditer(doc, filter_context=self.fctx))
            self.single[k] = [(obs(m), m.obj) for m in ms]
        return self.single[k]

    def run(self, paths, ops, doc, key):
        out = self.operand(paths[0], doc, key)
        for op, p in zip(ops, paths[1:]):
            r = self.operand(p, doc, key)
            if op == "|":
                out = out + r
            else:
                out = [m for m in out if any(jeq(m[1], x[1]) for x in r)]
        return [m[0] for m in out], None


def compound(ctx, paths, n, i, m, docs, quick=False, text=True, spaced=True, few=False):
    model = Model()
    keyed = list(enumerate(docs))
    for ps in itertools.islice(itertools.product(paths, repeat=n + 1), i, None, m):
        for ops in itertools.product("|&", repeat=n):
            sep = " %s " if spaced else "%s"
            q = ps[0] + "".join((sep % o) + p for o, p in zip(ops, ps[1:]))
            ids = {id(d): k for k, d in keyed}
            agree(
                ctx, q, docs, model=lambda d, ps=ps, ops=ops, ids=ids: model.run(ps, ops, d, ids[id(d)]), quick=quick, text=text,
            )  # fmt: skip


PATHS = [Q.spell(p) for p in Q.PATHS]
PATHS8 = ["$", "^", "$.a", "$..a", "$.*", "$[?@.a]", "a", "$.~"]
PATHS4 = ["$.a", "$..a", "$.*", "$..*"]
SMALL_PATHS = ["$.*", "$..*", "$[0]", "$.a", "$[?@ == 1]", "^.*", "$..b"]
LEAVES = (1, True, 1.0, "a", None, 0)


# ------------------------------------------------------------------------------------------ documents in every form
class Reads:
    """Has a read() method, and nothing else."""

    def __init__(self, text):
        self.text = text

    def read(self, n=-1):
        t, self.text = self.text, ""
        return t


def spaced(doc):
    return json.dumps(doc, indent="\t").replace("\n", "\r\n")


def at_offset(text):
    f = io.StringIO("# [header]\n" + text)
    f.seek(11)
    return f


class Chunky(io.RawIOBase):
    """A raw stream that returns few bytes at a time."""

    def __init__(self, data):
        self.data, self.pos = data, 0

    def readable(self):
        return True

    def readinto(self, b):
        chunk = self.data[self.pos : self.pos + min(3, len(b))]
        b[: len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)


def forms(doc, folder):
    t = json.dumps(doc)
    u = json.dumps(doc, ensure_ascii=False)
    uni = True
    try:
        u.encode()
    except UnicodeEncodeError:
        uni = False
    out = [
        ("text", lambda: t), ("compact", lambda: json.dumps(doc, separators=(",", ":"))), ("indented", lambda: spaced(doc)),
        ("padded", lambda: " \n\t" + t + "\r\n "), ("unescaped", lambda: u), ("StringIO", lambda: io.StringIO(t)),
        ("unescaped StringIO", lambda: io.StringIO(u)), ("indented StringIO", lambda: io.StringIO(spaced(doc))),
        ("StringIO at offset", lambda: at_offset(t)), ("BytesIO", lambda: io.BytesIO(t.encode())),
        ("raw stream", lambda: Chunky(t.encode())), ("buffered", lambda: io.BufferedReader(Chunky(t.encode()))),
        ("text over bytes", lambda: io.TextIOWrapper(io.BytesIO(t.encode()), encoding="utf-8")),
    ]  # fmt: skip
    if uni:
        out.append(("utf-8 bytes", lambda: io.BytesIO(u.encode())))
        out.append(("utf-16 bytes", lambda: io.BytesIO(u.encode("utf-16-le"))))
    if folder:
        name = os.path.join(folder, "doc.json")

        def disk(mode, **kw):
            with open(name, "w", encoding="utf-8") as fd:
                fd.write(t)
            return open(name, mode, **kw)  # noqa: SIM115

        def temp(cls, mode="w+"):
            f = cls(mode=mode, dir=folder)
            f.write(t if "b" not in mode else t.encode())
            f.seek(0)
            return f

        out += [
            ("open()", lambda: disk("r", encoding="utf-8")), ("open('rb')", lambda: disk("rb")),
            ("unbuffered", lambda: disk("rb", buffering=0)), ("TemporaryFile", lambda: temp(tempfile.TemporaryFile)),
            ("NamedTemporaryFile", lambda: temp(tempfile.NamedTemporaryFile)),
            ("NamedTemporaryFile bytes", lambda: temp(tempfile.NamedTemporaryFile, "w+b")),
            ("SpooledTemporaryFile", lambda: temp(tempfile.SpooledTemporaryFile)), ("read() only", lambda: Reads(t)),
        ]  # fmt: skip
    return out


FORM_QUERIES = [
    "$", "$.*", "$..*", "$.a", "$['\u00e9', 'a']", "$[0]", "$[?@ == 1]", "$[?@.a == $.a]", "^[?@.a]", "$.~", "$..a | $.a", "$.* & $..*",
    "$..* & $.* | ^", "^ | $.a", "$[?@ == 'a'] & $.*", "^.* & ^",
]  # fmt: skip
TEXTY = ["[", "{}", '"', "\\", "\u2028", "\u00e9", "\U0001f600", "\ud800", "\x00", " ", "/", "1", "null", "a: b", "#", "'"]
NUMBERY = [0, -0.0, 1, 1.0, 1e100, 10**30, 1e-9, float("inf"), 0.1, 12345678901234567890]


def form_docs():
    out = list(Q.DOCS)
    for s in TEXTY:
        out += [[s], {s: s}, {"a": s, "b": [s, {s: 1}]}]
    for n in NUMBERY:
        out += [[n, [n]], {"a": n, "b": n}]
    return [d for d in out if isinstance(d, (list, dict))]


# ------------------------------------------------------------------------------------------ histories of union() and intersection()
OPERANDS3 = ["$.*", "$..a", "^[?@.a == 1]"]


def api(ctx, n, first):
    """States are lists of compiled queries; a step combines any earlier one with an operand."""
    docs = [Q.DOCS[0], [1, {"a": 1}, {"a": True}], {"a": 1, "b": 1.0, "c": {"a": 1}}]
    model = Model()

    def check(p, expr, hist):
        for k, d in enumerate(docs):
            exp = model.run([e[1] for e in expr], [e[0] for e in expr[1:]], d, k)
            for name, fn, what in Owner("api", p, ()).calls(Q.CONTEXT):
                ctx.case(hist)
                got = fn(d)
                if got != want(exp, what):
                    ctx.fail(
                        f"api {hist} {name}", f"{name} after {hist} gives {str(got)[:150]}, expected {str(want(exp, what))[:150]}",
                        f"import jsonpath\n# {hist}\n",
                    )  # fmt: skip
            t = "".join(f" {o} {x}" if o else x for o, x in expr)
            q = ENV.compile(t)
            got, exp2 = gather(lambda d=d: p.finditer(d, filter_context=Q.CONTEXT)), gather(lambda d=d: q.finditer(d, filter_context=Q.CONTEXT))
            if got != exp2:
                ctx.fail(f"api text {hist}", f"{hist} and {t!r} disagree on {d!r}: {got} != {exp2}", f"# {hist}")

    moves = [("|", o) for o in OPERANDS3] + [("&", o) for o in OPERANDS3]
    for seq in itertools.product(range(len(moves)), repeat=n):
        if seq[0] != first:
            continue
        for bases in itertools.product(*[range(k + 1) for k in range(n)]):
            pool = [(ENV.compile("$.* | $..a"), ((None, "$.*"), ("|", "$..a")))]
            # the operands are shared by every step
            operands = {o: ENV.compile(o) for o in OPERANDS3}
            hist = []
            for mv, b in zip(seq, bases):
                op, o = moves[mv]
                p, expr = pool[b]
                r = p.union(operands[o]) if op == "|" else p.intersection(operands[o])
                pool.append((r, (*expr, (op, o))))
                hist.append(f"q{len(pool) - 1} = q{b}.{'union' if op == '|' else 'intersection'}({o})")
                ctx.trans()
            ctx.state(tuple(e for _, e in pool))
            check(*pool[-1], "; ".join(hist))
            # building new queries left the earlier ones alone
            for j, (p, expr) in enumerate(pool[:-1]):
                t = "".join(f" {o} {x}" if o else x for o, x in expr)
                if str(p) != str(ENV.compile(t)):
                    ctx.fail(f"api old {hist}", f"{'; '.join(hist)}: q{j} became {p}", f"# {hist}")
            if n <= 3:
                for j, (p, expr) in enumerate(pool[:-1]):
                    check(p, expr, "; ".join(hist) + f" (q{j})")


# ------------------------------------------------------------------------------------------ errors
BAD = [
    "$[", "$.", "$['a", "$[?@.a ==]", "$[?count(@.a, 1)]", "$[?nosuch(@)]", "$[?length(@.*) == 1]", "$.a |", "$.a & ", "| $.a", "$[1.5]", "$[?@.* == 1]",
    "$.a | $[", "$[?'a']", "$[99999999999999999999]", "$[?@ < ]", "\x00", "$.a b", "$.a | $.b c", "$.a & $[?nosuch(@)] | $",
]  # fmt: skip


class Fails(Exception):
    pass


class Boom:
    """A filter function that raises at its n-th call."""

    def __init__(self, n, exc):
        self.n, self.exc = n, exc

    def __call__(self, *args):
        self.n -= 1
        if self.n == 0:
            raise self.exc
        return True


def failing(ctx, q, doc, n, exc):
    def fresh():
        env = JSONPathEnvironment()
        env.function_extensions["boom"] = Boom(n, exc)
        return env

    ref = gather(lambda: fresh().finditer(q, doc))
    for name in ("findall", "match", "finditer", "query.values", "query", "query.items", "query.first_one"):
        for how in ("env", "compiled"):
            env = fresh()
            o = Owner("env", env, (q,)) if how == "env" else Owner("compiled", env.compile(q), ())
            for nm, fn, what in o.calls(None):
                if nm == name:
                    ctx.case((q, n))
                    ctx.trans()
                    got, exp = fn(doc), want(ref, what)
                    if got != exp:
                        report(ctx, q, doc, f"{how}.{name} with {exc!r} at call {n}", got, exp, None)
    ctx.outcome((q, n, repr(exc), len(ref[0]), ref[1]))


# ------------------------------------------------------------------------------------------ units
def units(tier):
    th = tier == "thorough"
    out = []
    for i in range(16):
        out.append(("segs", 1, 2, "all", i, 16))
        if th:
            out.append(("segs", 3, 3, "few", i, 16))
    for fam in ("tests", "compare", "logic" if th else "logic-few") + (("compare-full",) if th else ()):
        for i in range(16):
            out.append(("filters", fam, 7 if (th and fam != "compare-full") or fam == "tests" else 2, i, 16))
    for i in range(8):
        out.append(("compound", "16", 1, i, 8))
    for i in range(24):
        out.append(("compound", "16", 2, i, 24))
    for i in range(24):
        out.append(("compound", "8" if th else "6", 3, i, 24))
    for i in range(8):
        out.append(("compound", "4", 4, i, 8))
    if th:
        for i in range(24):
            out.append(("compound", "4", 5, i, 24))
    for i in range(24):
        out.append(("small", 5 if th else 4, i, 24))
    for i in range(8):
        out.append(("tight", i, 8))
    for i in range(16):
        out.append(("forms", i, 16))
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        for f in range(6):
            out.append(("api", n, f))
    out.append(("errors",))
    return out


def run(unit, ctx):
    k = unit[0]
    if k == "segs":
        _, lo, hi, which, i, n = unit
        for a in range(lo, hi + 1):
            for q in itertools.islice(Q.segments(a, Q.SEGS if which == "all" else Q.FEW_SEGS, (Q.R, Q.F)), i, None, n):
                agree(ctx, Q.spell(q), Q.DOCS)
    elif k == "filters":
        _, fam, places, i, n = unit
        ps = Q.PLACES if places == 7 else Q.FEW_PLACES
        for f in itertools.islice(Q.filters(fam), i, None, n):
            for p in ps:
                agree(ctx, Q.spell(p % f), Q.DOCS if fam == "tests" else Q.DOCS[:4], text=fam == "tests")
    elif k == "compound":
        _, which, n, i, m = unit
        ps = {"16": PATHS, "8": PATHS8, "6": PATHS8[:6], "4": PATHS4}[which]
        docs = Q.DOCS if n == 1 else Q.DOCS[:3] if n < 4 else Q.DOCS[:1]
        compound(ctx, ps, n, i, m, docs, quick=n > 1, text=n < 2)
    elif k == "small":
        _, n, i, m = unit
        docs = [d for d in D.trees_upto(n, leaves=LEAVES) if isinstance(d, (list, dict))]
        docs = docs[i::m]
        compound(ctx, SMALL_PATHS[:5], 1, 0, 1, docs, quick=True, text=False)
        compound(ctx, SMALL_PATHS[:4], 2, 0, 1, docs[::8], quick=True, text=False)
    elif k == "tight":
        _, i, m = unit
        compound(ctx, PATHS, 1, i, m, Q.DOCS[:3], quick=True, text=False, spaced=False)
    elif k == "forms":
        _, i, m = unit
        docs = form_docs()[i::m]
        with tempfile.TemporaryDirectory() as folder:
            for doc in docs:
                for q in FORM_QUERIES:
                    p = ENV.compile(q)
                    ref = gather(lambda p=p, doc=doc: p.finditer(doc, filter_context=Q.CONTEXT))
                    for form, mk in forms(doc, folder if q in FORM_QUERIES[::3] else None):
                        for o in owners(q)[0]:
                            for name, fn, what in o.calls(Q.CONTEXT):
                                ctx.case((q, form))
                                ctx.trans()
                                f = mk()
                                got, exp = fn(f), want(ref, what)
                                if hasattr(f, "close"):
                                    f.close()
                                if got != exp:
                                    report(ctx, q, doc, f"{o.name}.{name}", got, exp, Q.CONTEXT, form)
                        ctx.state((q, form))
    elif k == "api":
        _, n, first = unit
        api(ctx, n, first)
    elif k == "errors":
        for q in BAD:
            agree(ctx, q, Q.DOCS[:4])
        doc = {"a": [1, 2, 3], "b": {"a": 1, "c": [4]}, "c": 1}
        for q in ("$[?boom(@)]", "$..[?boom(@)]", "$.a | $[?boom(@)]", "$[?boom(@)] & $.*", "$.* & $[?boom(@)]", "$[?boom(@)] | $[?boom(@)] & $.*"):
            for n in range(1, 14):
                for exc in (Fails("x"), ValueError("x"), KeyError("x"), jsonpath.JSONPathTypeError("x"), TypeError("x"), IndexError("x")):
                    failing(ctx, q, doc, n, exc)
