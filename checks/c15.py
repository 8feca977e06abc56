"""C15: a patch is a faithful, reusable value: document, builder and dict forms agree."""

from __future__ import annotations

import io
import itertools
import json
from urllib.parse import unquote

import jsonpath
from jsonpath import JSONPatch
from jsonpath import JSONPointer
from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPatchTestFailure

from checks import c03, c05
from vlib import docs as D
from vlib import patchmodel as M
from vlib import ptr as P
from vlib.util import freeze

PROP = "C15"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation lists x construction forms x application histories against an RFC 6902 model"
LEVEL_NOTE = (
    "Every operation list within the bounds is constructed in every form; the printed dicts, the effect of "
    "every application in a history of applications, and aliasing between patch, caller and results are checked "
    "on the real code against vlib/patchmodel.py (trusted)."
)
RULE = "a distinct (operation names, result class, reached document) triple"
ASSUMPTIONS = [
    "addap with a token that is not an array index applied to an array is not judged (the documentation speaks of "
    "an index that cannot be resolved)",
    "results are independent when they share no list or dict with another result, the patch or the caller's list",
]
BOUNDS = {
    "quick": "all lists of 1 and 2 over 52 operations and of 3 over 20 operations, on 8 documents, 6 construction "
    "forms, 3 applications each; every pointer of docs <=4 nodes for addne/addap/add; 37 values of every JSON kind x 5 operations x 10 paths, alone and in pairs; 19 x 19 spelled tokens under every decoding option in 7 forms",
    "thorough": "all lists of 3 over 52 operations, of 4 over 20; 5 applications",
}

DOCS = c05.HISTORY_DOCS + [{"a": [], "1": {"k": []}, "0": 1}, [[[]], {"k": [1]}]]


# every kind of JSON value an operation can carry
VALUES = [
    None, False, True, 0, 1, -1, 0.0, -0.0, 1.0, 1.5, -2e-7, 1e20, 10**20, "", " ", "0", "-", "a", "/a", "null", "~1", "\u263a", "\U0001d11e",
    "a\"b\\c", "\n\x00", [], {}, [None], [[]], [{}], {"": None}, {"a": {}}, [0, False, None, ""], {"op": "test", "path": "", "value": None},
    [{"op": "remove", "path": "/a"}], {"a": [None, {"b": [1, {}]}]}, {"0": 0, "1": [1], "-": "-"},
]  # fmt: skip
VALUE_PATHS = ["", "/a", "/z", "/0", "/-", "/a/0", "/a/-", "/a/5", "/b/c", "/9"]


def value_docs(v):
    return [{"a": v, "b": {"c": v}}, {"a": [v, v], "b": {}}, [v], [[v], v], {"a": [], "b": {"c": 0}}, [], {}, v]


def extra_ops():
    v = {"k": [0]}
    return [
        {"op": "addne", "path": "/a", "value": v},
        {"op": "addne", "path": "/1", "value": [1]},
        {"op": "addne", "path": "/0", "value": "ne"},
        {"op": "addne", "path": "/9", "value": "ne9"},
        {"op": "addne", "path": "/a/k/-", "value": [2]},
        {"op": "addne", "path": "", "value": {"a": 1}},
        {"op": "addap", "path": "/a", "value": v},
        {"op": "addap", "path": "/0", "value": "ap"},
        {"op": "addap", "path": "/9", "value": [9]},
        {"op": "addap", "path": "/a/9", "value": {"z": []}},
        {"op": "addap", "path": "/a/k/5", "value": 5},
        {"op": "addap", "path": "", "value": [{}]},
    ]


def op_set(big):
    if big:
        return c05.op_set(True) + extra_ops()
    e = extra_ops()
    b = c05.op_set(True)
    return [b[i] for i in (0, 1, 2, 4, 5, 8, 9, 11, 12, 13, 15, 16)] + [e[i] for i in (0, 1, 3, 4, 7, 8, 9, 11)]


def attempt(f):
    try:
        return f()
    except Exception as err:  # noqa: BLE001
        return err


def build(ops, pointer=str, base=None):
    p = JSONPatch() if base is None else base
    for op in ops:
        o = op["op"]
        m = getattr(p, o)
        if o in ("move", "copy"):
            r = m(pointer(op["from"]), pointer(op["path"]))
        elif o == "remove":
            r = m(pointer(op["path"]))
        else:
            r = m(pointer(op["path"]), op["value"])
        if r is not p:
            raise AssertionError(f"{o} does not return the patch")
    return p


def build_kw(ops, base=None):
    p = JSONPatch() if base is None else base
    for op in ops:
        kw = {("from_" if k == "from" else k): v for k, v in op.items() if k != "op"}
        p = getattr(p, op["op"])(**kw)
    return p


FORMS = [
    ("document", lambda ops: JSONPatch(ops)),
    ("builder", lambda ops: build(ops)),
    ("builder with JSONPointer", lambda ops: build(ops, JSONPointer)),
    ("builder with keywords", lambda ops: build_kw(ops)),
    ("asdicts", lambda ops: JSONPatch(JSONPatch(ops).asdicts())),
    ("JSON text", lambda ops: JSONPatch(json.dumps(ops))),
    ("file", lambda ops: JSONPatch(io.StringIO(json.dumps(ops)))),
    ("iterator", lambda ops: JSONPatch(iter(ops))),
]


def value_ids(ops):
    return {i for op in ops for i in M.containers(op.get("value"))}


def check(ctx, ops, documents, times=3, esc=True):
    snapshot = M.dup(ops)

    def bad(what, doc=None):
        ctx.fail(
            f"{ops!r} on {doc!r}: {what.split(':')[0]}",
            f"{what} -- operations {snapshot!r} on {doc!r}",
            "from jsonpath import JSONPatch\n"
            f"ops, doc = {snapshot!r}, {doc!r}\n"
            "import copy\np = JSONPatch(ops)\nprint(p.asdicts())\n"
            "for i in range(3):\n    try: print(p.apply(copy.deepcopy(doc)))\n    except Exception as e: print(type(e).__name__, e)\n"
            "    print(p.asdicts(), ops)\n"
            f"print({what!r})",
        )

    patches = []
    for form, make in FORMS:
        mine = M.dup(ops)
        ctx.case((form, snapshot))
        p = attempt(lambda: make(mine))
        if isinstance(p, Exception):
            bad(f"{form}: raises {type(p).__name__} {p}")
            continue
        if not M.same(p.asdicts(), snapshot):
            bad(f"{form}: prints {p.asdicts()!r}")
        patches.append((form, p, mine))
    for doc in documents:
        try:
            want, failed = M.apply(ops, doc), None
        except M.PatchError as err:
            want, failed = None, err
        except M.Unjudged:
            continue
        ctx.trans(len(ops))
        ctx.outcome((tuple(o["op"] for o in ops), type(failed).__name__, None if failed else freeze(want)))
        if failed is None:
            ctx.state(freeze(want))
        for form, p, mine in patches:
            results = []
            seen = value_ids(mine)
            for op in p.asdicts():
                seen |= set(M.containers(op.get("value")))
            for n in range(times if form in ("document", "builder") else 1):
                ctx.case((form, snapshot, doc, n))
                got = attempt(lambda: p.apply(c05.arg(doc)))
                if failed is not None:
                    ok = isinstance(got, JSONPatchTestFailure if isinstance(failed, M.TestFailed) else JSONPatchError)
                    if not ok:
                        bad(f"{form}, application {n + 1}: gives {got!r}, expected a failure ({type(failed).__name__})", doc)
                elif isinstance(got, Exception) or not M.same(got, want):
                    bad(f"{form}, application {n + 1}: gives {got!r}, expected {want!r}", doc)
                else:
                    ids = M.containers(got)
                    if seen & set(ids):
                        bad(f"{form}, application {n + 1}: the result shares a container with the patch, the caller's list or another result", doc)
                    seen |= set(ids)
                    results.append(got)
                if not M.same(p.asdicts(), snapshot):
                    bad(f"{form}, application {n + 1}: changed the patch to {p.asdicts()!r}", doc)
                    break
                if not M.same(mine, snapshot):
                    bad(f"{form}, application {n + 1}: changed the caller's list to {mine!r}", doc)
                    break


# the decoding a patch was asked to do applies to each of its pointers once, in whichever form they were given
OPTIONS = [{"unicode_escape": u, "uri_decode": d} for u in (True, False) for d in (True, False)]
OPTION_TEXTS = ["a", "a%20b", "%61", "%7E1", "%2Fa", "%25", "%2541", "\\u0061", "a\\u00e9", "~1", "~01", "%C3%A9", "+", "a+b", "0", "%30", "\u263a", "%", "a b"]


def decoded(text, opts):
    """The reference token that one spelled token denotes (percent sign and backslash escapes are decoded first)."""
    if opts["uri_decode"]:
        text = unquote(text)
    if opts["unicode_escape"] and "\\" in text:
        text = json.loads(f'"{text}"')
    return text


def options(ctx, opts):
    forms = [
        ("document", lambda ops: JSONPatch(ops, **opts)),
        ("JSON text", lambda ops: JSONPatch(json.dumps(ops), **opts)),
        ("file", lambda ops: JSONPatch(io.StringIO(json.dumps(ops)), **opts)),
        ("builder", lambda ops: build(ops, base=JSONPatch(**opts))),
        ("builder with keywords", lambda ops: build_kw(ops, base=JSONPatch(**opts))),
        ("builder on a document", lambda ops: build(ops[1:], base=JSONPatch(ops[:1], **opts))),
        ("patch.apply", None),
    ]
    for a, b in itertools.product(OPTION_TEXTS, repeat=2):
        ta, tb = decoded(a, opts), decoded(b, opts)
        pa, pb = "/" + a, "/" + b
        ra, rb = "/" + ta, "/" + tb
        try:
            toks = P.decode(ra), P.decode(rb)
        except P.PointerError:
            continue
        lists = []
        for name in ("add", "addne", "addap", "replace", "test"):
            lists.append([{"op": name, "path": "%s", "value": [1]}, {"op": "add", "path": "%t", "value": {"%41": "%41", "\\u0061": None}}])
        lists.append([{"op": "copy", "from": "%s", "path": "%t"}, {"op": "remove", "path": "%s"}])
        lists.append([{"op": "move", "from": "%s", "path": "%t"}, {"op": "test", "path": "%t", "value": [0]}])
        docs = [nest(toks[0], [0]), nest(toks[1], [1]), {"a": [0], "%41": 1, "\\u0061": 2}, merge(nest(toks[0], [0]), nest(toks[1], 1))]
        for ops in lists:
            given = [{k: (pa if v == "%s" else pb if v == "%t" else v) for k, v in o.items()} for o in ops]
            plain = [{k: (ra if v == "%s" else rb if v == "%t" else v) for k, v in o.items()} for o in ops]
            for form, make in forms:
                ctx.case((form, given, opts))
                if make is not None:
                    p = attempt(lambda: make(M.dup(given)))
                    got = p if isinstance(p, Exception) else p.asdicts()
                    if isinstance(p, Exception) or not M.same(got, plain):
                        ctx.fail(f"{form} {opts} {given!r}", f"{form} with {opts}: {given!r} prints {got!r}, expected {plain!r}",
                                 f"from jsonpath import JSONPatch\nprint(JSONPatch({given!r}, **{opts!r}).asdicts())")  # fmt: skip
                        continue
                for d in docs:
                    ctx.trans(len(ops))
                    try:
                        want = M.apply(plain, d)
                    except M.Unjudged:
                        continue
                    except M.PatchError as err:
                        want = err
                    got = attempt(lambda: p.apply(M.dup(d)) if make else jsonpath.patch.apply(M.dup(given), M.dup(d), **opts))
                    ok = isinstance(got, JSONPatchError) if isinstance(want, Exception) else not isinstance(got, Exception) and M.same(got, want)
                    if not ok:
                        ctx.fail(f"{form} {opts} {given!r} {d!r}", f"{form} with {opts}: {given!r} on {d!r} gives {got!r}, expected {want!r}",
                                 f"import jsonpath\nprint(jsonpath.patch.apply({given!r}, {d!r}, **{opts!r}))")  # fmt: skip
                    ctx.outcome((form, str(opts), a, b, type(got).__name__))


def nest(tokens, value):
    for t in reversed(tokens):
        value = {t: value}
    return value


def merge(a, b):
    if not (isinstance(a, dict) and isinstance(b, dict)):
        return b
    out = dict(a)
    for k, v in b.items():
        out[k] = merge(out[k], v) if k in out else v
    return out


def units(tier):
    full = tier == "thorough"
    out = []
    for i in range(len(op_set(True))):
        out.append(("lists", True, i, 3 if full else 2))
    for i in range(len(op_set(False))):
        out.append(("lists", False, i, 4 if full else 3))
    n = len(c05.doc_list(4))
    for i in range(0, n, 20):
        out.append(("add", i, i + 20))
    for i in range(len(c05.SPECIAL)):
        out.append(("special", i))
    for i in range(0, len(c03.NAMES), 8):
        out.append(("names", i))
    for i in range(len(VALUES)):
        out.append(("values", i))
    for i in range(len(OPTIONS)):
        out.append(("options", i))
    out.append(("alternate",))
    return out


def run(unit, ctx):
    k = unit[0]
    if k == "lists":
        _, big, first, depth = unit
        ops = op_set(big)

        def go(hist):
            live = []
            for d in DOCS:
                try:
                    M.apply(hist, d)
                    live.append(d)
                except M.Unjudged:
                    pass
                except M.PatchError as err:
                    if err.index == len(hist) - 1:
                        live.append(d)
            if big and len(hist) > 2:
                live = live[:3]
            check(ctx, hist, live if len(hist) < 3 else live[:4], times=3 if len(hist) < 3 else 2)
            if len(hist) < depth:
                for o in ops:
                    go([*hist, o])

        go([ops[first]])
    elif k == "add":
        for d in c05.doc_list(4)[unit[1] : unit[2]]:
            for p in c05.pointers(d):
                for o in ("add", "addne", "addap"):
                    check(ctx, [{"op": o, "path": p, "value": {"v": [1]}}], [d], times=2)
    elif k == "special":
        d = c05.SPECIAL[unit[1]]
        for p in c05.pointers(d):
            for o in ("add", "addne", "addap", "replace", "test"):
                check(ctx, [{"op": o, "path": p, "value": [1, {}]}], [d])
            check(ctx, [{"op": "remove", "path": p}], [d])
            for o in ("move", "copy"):
                check(ctx, [{"op": o, "from": p, "path": "/0"}], [d], times=2)
                check(ctx, [{"op": o, "from": "/0", "path": p}], [d], times=2)
    elif k == "names":
        for n in c03.NAMES[unit[1] : unit[1] + 8]:
            if c03.beyond(n) or "\\" in n:
                continue
            p = P.encode((n,))
            docs = [{n: [1], "o": 2}, {"o": 2}, [{n: 0}, 1], {n: {n: [0, 1]}}, [0] * 11]
            for q in (p, p + p, "/0" + p, p + "/-", p + "/0", p + "/7"):
                for o in ("add", "addne", "addap", "replace", "test"):
                    check(ctx, [{"op": o, "path": q, "value": {n: []}}], docs)
                check(ctx, [{"op": "remove", "path": q}], docs)
                check(ctx, [{"op": "copy", "from": q, "path": "/o"}, {"op": "move", "from": "/o", "path": q}], docs)
    elif k == "values":
        v = VALUES[unit[1]]
        for p in VALUE_PATHS:
            for o in ("add", "addne", "addap", "replace", "test"):
                check(ctx, [{"op": o, "path": p, "value": v}], value_docs(v), times=2)
                for w in (None, 0, False, "", [], {"k": [0]}):
                    check(ctx, [{"op": o, "path": p, "value": v}, {"op": "test", "path": p, "value": w}], value_docs(w)[:3], times=1)
                    check(ctx, [{"op": "addne", "path": p, "value": w}, {"op": o, "path": p, "value": v}], value_docs(w)[:3], times=1)
    elif k == "options":
        options(ctx, OPTIONS[unit[1]])
    elif k == "alternate":
        # one patch object applied to different documents in turn, failures in between; dict forms taken in between
        for a, b in itertools.product(op_set(True), repeat=2):
            ops = [a, b]
            mine = M.dup(ops)
            p = JSONPatch(mine)
            q = JSONPatch(p.asdicts())
            keep = []
            for d in DOCS + DOCS[::-1]:
                for form, x in (("patch", p), ("patch of asdicts", q)):
                    ctx.case((form, ops, d))
                    try:
                        want = M.apply(ops, d)
                    except M.Unjudged:
                        continue
                    except M.PatchError as err:
                        want = err
                    got = attempt(lambda x=x, d=d: x.apply(c05.arg(d)))
                    ok = isinstance(got, JSONPatchError) if isinstance(want, Exception) else not isinstance(got, Exception) and M.same(got, want)
                    if not ok:
                        ctx.fail(f"alternate {ops!r} {d!r}", f"{form} applied to several documents in turn: {ops!r} on {d!r} gives {got!r}, expected {want!r}",
                                 f"from jsonpath import JSONPatch\nfrom checks import c05, c15\np = JSONPatch({ops!r})\nfor d in c15.DOCS + c15.DOCS[::-1]:\n    try: print(d, p.apply(c05.arg(d)))\n    except Exception as e: print(repr(e))")  # fmt: skip
                    if not isinstance(want, Exception):
                        keep.append((got, want))
                    # a caller may edit the result it got
                    if isinstance(got, list):
                        got.append("edited")
                        want.append("edited")
                    elif isinstance(got, dict):
                        got["edited"] = "edited"
                        want["edited"] = "edited"
            for got, want in keep:
                if not M.same(got, want):
                    ctx.fail(f"alternate {ops!r} results", f"{ops!r}: an earlier result changed from {want!r} to {got!r}", None)
            if not M.same(p.asdicts(), ops) or not M.same(mine, ops):
                ctx.fail(f"alternate {ops!r} patch", f"{ops!r} became {p.asdicts()!r} / {mine!r}", None)
    else:
        raise AssertionError(unit)
