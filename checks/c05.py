"""C05: JSON Patch application conforms to RFC 6902 for every document and patch."""

from __future__ import annotations

import itertools
import json

import jsonpath
from jsonpath import JSONPatch
from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPatchTestFailure

from checks import c03
from vlib import docs as D
from vlib import patchmodel as M
from vlib import ptr as P
from vlib.util import freeze

PROP = "C05"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of patch histories x documents against an RFC 6902 model"
LEVEL_NOTE = (
    "Every single operation and every operation history within the bounds is applied by the real code and by "
    "the model (vlib/patchmodel.py, trusted); results, error kinds and aliasing are compared."
)
RULE = "a distinct (operation kinds, result class, reached document) triple"
ASSUMPTIONS = [
    "RFC 6902: removing the root is an error (as the existing tests require)",
    "a test operation whose target does not exist fails with any patch error",
    "negative and '#'-prefixed tokens are extensions of pointer resolution only; in a patch they are not "
    "canonical indices (RFC 6901 section 4)",
    "move with from equal to path leaves the document as it is",
]
BOUNDS = {
    "quick": "every single operation (all pointer pairs for move/copy) on all docs <=5 nodes plus special docs; all "
    "histories of 3 over ~40 operations and of 4 over ~16 on 6 documents; hostile member names; every entry point",
    "thorough": "docs <=6 nodes; histories of 4 over ~40 operations, of 5 over ~16",
}

SPECIAL = [
    {"1": "one", "0": ["x"], "a": {"1": [1, 2]}},
    {"-": 1, "-1": 2, "+1": 3, "01": 4, "": {"": 5}, "#a": 6, "a": 7},
    [[], {}, "", "str", 0, 0.0, False, None, [True], {"k": False}],
    [1, True, 1.0, "1", [1], [True], {"a": 1}, {"a": True}, {"a": [0, {"b": False}]}],
    {"a/b": {"c~d": [1]}, "~1": 2, "~0": 3, "/": {"~": 4}},
    {"\u00e9": ["\u0663", {"\U0001f600": 1}], "\u0663": [0, 1, 2]},
    [f"i{i}" for i in range(12)],
    [[1, 2], [3, [4, 5]], {"x": [6]}],
    [],
    {},
    "text",
    0,
    None,
    True,
    [{"a": [{"a": []}]}],
]
VALUES = [9, True, 1, {"n": [0]}, [], None, "1"]


def attempt(f):
    try:
        return f()
    except Exception as err:  # noqa: BLE001
        return err


def arg(doc):
    """What to pass for a document: text is read as JSON by the library."""
    return json.dumps(doc) if isinstance(doc, str) else M.dup(doc)


def run_patch(ctx, ops, doc, esc=True, via_module=False):
    ctx.case((ops, doc))
    ctx.trans(len(ops))
    try:
        want = M.apply(ops, doc)
        failed = None
    except M.PatchError as err:
        want, failed = None, err
    except M.Unjudged:
        return None
    kw = {} if esc else {"unicode_escape": False}
    given = M.dup(ops)
    if via_module:
        got = attempt(lambda: jsonpath.patch.apply(given, arg(doc), **kw))
    else:
        got = attempt(lambda: JSONPatch(given, **kw).apply(arg(doc)))

    def bad(what):
        ctx.fail(
            f"{ops!r} on {doc!r}",
            f"{what} -- patch {ops!r} on {doc!r}",
            "import jsonpath\nfrom vlib import patchmodel as M\n"
            f"ops, doc = {ops!r}, {arg(doc)!r}\n"
            f"try: print(jsonpath.patch.apply(ops, doc, **{kw!r}))\n"
            "except Exception as e: print(type(e).__name__, e)\n"
            f"try: print('RFC 6902:', M.apply({ops!r}, {doc!r}))\n"
            "except M.PatchError as e: print('RFC 6902:', type(e).__name__, e)",
        )

    if failed is not None:
        ctx.outcome((tuple(o["op"] for o in ops), type(failed).__name__, failed.index))
        if not isinstance(got, JSONPatchError):
            bad(f"gives {got!r}, RFC 6902 fails ({type(failed).__name__} {failed})")
        elif isinstance(failed, M.TestFailed) and not isinstance(got, JSONPatchTestFailure):
            bad(f"a failed test is reported as {type(got).__name__}")
        elif not isinstance(failed, (M.TestFailed, M.TestMissing)) and isinstance(got, JSONPatchTestFailure):
            bad("reported as a test failure though no test failed")
        return None
    ctx.outcome((tuple(o["op"] for o in ops), freeze(want)))
    ctx.state(freeze(want))
    if isinstance(got, Exception):
        bad(f"raises {type(got).__name__}: {got}, RFC 6902 gives {want!r}")
        return None
    if not M.same(got, want):
        bad(f"gives {got!r}, RFC 6902 gives {want!r}")
        return None
    ids = M.containers(got)
    if len(ids) != len(set(ids)):
        bad("the result holds one container in two places (a copied value is not independent)")
    return got


def pointers(doc, full=True):
    """Existing locations, one-step extensions, boundary indices and misses."""
    out = [()]
    for loc, v in D.nodes(doc):
        t = P.tokens_of(loc)
        out.append(t)
        if isinstance(v, list):
            n = len(v)
            ext = ["-", str(n), str(n + 1)]
            if full:
                ext += ["01", "-1", "+1", "a", "", "#0", f"0{n}", f"{n}.0", "1_0", "\u0661"]
        elif isinstance(v, dict):
            ext = ["c", "-"]
            if full:
                ext += ["0", "7", "#a", "", "~", "\u00e9"] + ["#" + k for k in list(v)[:1]]
        else:
            ext = ["0", "-"] if full else ["0"]
        out += [t + (e,) for e in ext]
        if full:
            out.append(t + ("zz", "0"))
    return [P.encode(t) for t in dict.fromkeys(out)]


def singles(doc, ptrs, values=VALUES):
    for p in ptrs:
        yield {"op": "remove", "path": p}
        for v in values:
            for o in ("add", "replace", "test"):
                yield {"op": o, "path": p, "value": v}
        try:
            yield {"op": "test", "path": p, "value": P.resolve(P.decode(p), doc)}
        except P.PointerError:
            pass


def pairs(ptrs, others=None):
    for a in ptrs:
        for b in others or ptrs:
            yield {"op": "move", "from": a, "path": b}
            yield {"op": "copy", "from": a, "path": b}


def doc_list(n):
    small = [d for k in range(1, n + 1) for d in D.trees(k, names=("a", "1"), leaves=(1, True))] if n <= 4 else []
    if n > 4:
        small = doc_list(4) + D.trees(5, names=("a", "1"), leaves=("x",))
    if n > 5:
        small += D.trees(6, names=("a", "1"), leaves=("x",))
    return small


HISTORY_DOCS = [
    {"a": [1, {"1": 2}], "1": {}},
    [[0], {"a": True}],
    {"1": [], "-": {"1": 0}},
    [],
    {"a": {"a": {"a": 0}}},
    ["x", ["y", "z"], "w"],
]


def op_set(big):
    v = {"k": []}
    base = [
        {"op": "add", "path": "/a", "value": [1]},
        {"op": "add", "path": "/1", "value": v},
        {"op": "add", "path": "/-", "value": {}},
        {"op": "add", "path": "/0", "value": 0},
        {"op": "add", "path": "/a/-", "value": "n"},
        {"op": "add", "path": "", "value": {"a": [[]]}},
        {"op": "remove", "path": "/0"},
        {"op": "remove", "path": "/a"},
        {"op": "remove", "path": "/1"},
        {"op": "replace", "path": "/a", "value": {"1": []}},
        {"op": "replace", "path": "/1", "value": v},
        {"op": "copy", "from": "/a", "path": "/1"},
        {"op": "copy", "from": "", "path": "/a"},
        {"op": "move", "from": "/1", "path": "/a"},
        {"op": "move", "from": "/0", "path": "/-"},
        {"op": "test", "path": "/1", "value": v},
    ]
    if not big:
        return base
    return base + [
        {"op": "add", "path": "/1/k/-", "value": 7},
        {"op": "add", "path": "/a/0", "value": True},
        {"op": "add", "path": "/a/1", "value": {"q": 1}},
        {"op": "add", "path": "/1/1", "value": 1},
        {"op": "add", "path": "", "value": []},
        {"op": "remove", "path": "/a/0"},
        {"op": "remove", "path": "/1/k"},
        {"op": "replace", "path": "", "value": [[2], {"a": 1}]},
        {"op": "replace", "path": "/0", "value": [True]},
        {"op": "replace", "path": "/a/0", "value": []},
        {"op": "copy", "from": "/a", "path": "/a/-"},
        {"op": "copy", "from": "/1", "path": "/-"},
        {"op": "copy", "from": "/0", "path": "/1"},
        {"op": "copy", "from": "/a", "path": "/a/a"},
        {"op": "copy", "from": "/1/k", "path": ""},
        {"op": "move", "from": "/a", "path": "/1"},
        {"op": "move", "from": "/1", "path": "/0"},
        {"op": "move", "from": "/a/0", "path": "/a/-"},
        {"op": "move", "from": "/a", "path": "/a/a"},
        {"op": "move", "from": "/1", "path": ""},
        {"op": "test", "path": "/a", "value": [1]},
        {"op": "test", "path": "/0", "value": 0},
        {"op": "test", "path": "/a/0", "value": 1},
        {"op": "test", "path": "", "value": []},
    ]


def units(tier):
    full = tier == "thorough"
    out = []
    n = len(doc_list(6 if full else 5))
    step = 24
    for i in range(0, n, step):
        out.append(("single", 6 if full else 5, i, i + step))
    for i in range(len(SPECIAL)):
        out.append(("special", i))
        out.append(("special pairs", i))
    for d in range(len(HISTORY_DOCS)):
        for i in range(len(op_set(True))):
            out.append(("hist", d, True, i, 4 if full else 3))
        for i in range(len(op_set(False))):
            out.append(("hist", d, False, i, 5 if full else 4))
    for i in range(0, len(c03.NAMES), 6):
        out.append(("names", i))
    for n in (0, 1, 2, 9, 10, 11, 12, 101):
        out.append(("arrays", n))
    out.append(("test equality",))
    out.append(("entry",))
    return out


def run(unit, ctx):
    k = unit[0]
    if k == "single":
        for d in doc_list(unit[1])[unit[2] : unit[3]]:
            ctx.state(freeze(d))
            full = len(D.nodes(d)) <= 3
            ptrs = pointers(d, full)
            for op in singles(d, ptrs, VALUES if full else VALUES[1:4]):
                run_patch(ctx, [op], d)
            ptrs = pointers(d, False)
            for op in pairs(ptrs):
                run_patch(ctx, [op], d)
        ctx.sample({"document": d, "operations": list(singles(d, ptrs[:2], [1]))})
    elif k == "special":
        d = SPECIAL[unit[1]]
        for op in singles(d, pointers(d)):
            run_patch(ctx, [op], d)
    elif k == "special pairs":
        d = SPECIAL[unit[1]]
        small, big = pointers(d, False), pointers(d)
        for op in itertools.chain(pairs(small, big), pairs(big, small)):
            run_patch(ctx, [op], d)
    elif k == "hist":
        _, di, big, first, depth = unit
        d = HISTORY_DOCS[di]
        ops = op_set(big)
        ctx.state(freeze(d))

        def go(hist):
            run_patch(ctx, hist, d)
            try:
                M.apply(hist, d)
            except M.PatchError:
                return  # every longer history fails at the same operation
            if len(hist) < depth:
                for o in ops:
                    go([*hist, o])

        go([ops[first]])
    elif k == "names":
        for n in c03.NAMES[unit[1] : unit[1] + 6]:
            if c03.beyond(n):
                continue
            p = P.encode((n,))
            esc = "\\" not in n
            docs = [{n: [1], "o": 2, n + "0": 3, n.strip() + "_": 4}, {"o": 2}, [{n: {n: 0}}], {n: {n: [0, 1]}}]
            ptrs = [p, "/o", "/0" + p, "/0" + p + p, p + p, p + p + "/0", p + "/-", p + p + "/-", p + p + "/2", p + "/0", ""]
            for d in docs:
                for op in singles(d, ptrs, [7, {"v": 1}]):
                    run_patch(ctx, [op], d, esc)
                    run_patch(ctx, [op], d, esc, True)
                for op in pairs(ptrs):
                    run_patch(ctx, [op], d, esc)
                    run_patch(ctx, [op], d, esc, True)
                    run_patch(ctx, [op, {"op": "replace", "path": p, "value": 5}], d, esc)
    elif k == "arrays":
        n = unit[1]
        base = [[i] for i in range(n)]
        idx = [i for i in range(n + 3)] if n < 20 else [0, 1, 50, 99, 100, 101, 102]
        toks = [str(i) for i in idx] + ["-", "-1", "00", "+0", str(2**31), str(2**53 - 1)]
        for d, pre in ((base, ""), ({"k": base, "l": [0]}, "/k")):
            for t in toks:
                p = f"{pre}/{t}"
                for op in singles(d, [p, p + "/0", p + "/1"], [7]):
                    run_patch(ctx, [op], d)
                for u in toks:
                    for op in pairs([p], [f"{pre}/{u}"]):
                        run_patch(ctx, [op], d)
                if pre:
                    for op in pairs([p], ["/l/0", "/l/1", "/l/2", "/l/-"]):
                        run_patch(ctx, [op], d)
                        run_patch(ctx, [{"op": op["op"], "from": op["path"], "path": op["from"]}], d)
    elif k == "test equality":
        vals = [None, True, False, 0, -0.0, 1, 1.0, -1, 2**53, 2**53 + 1, float(2**53), "", "1", "a", "A", "\u00e9", "e\u0301", [], {}, [[]],
                [1], [True], [1.0], ["1"], [None], [False], [0], {"a": 1}, {"a": True}, {"a": 1.0}, {"a": None}, {"b": 1}, {"a": 1, "b": 2},
                {"b": 2, "a": 1}, [1, 2], [2, 1], [1, 2, 3], {"a": [True, {"b": 0}]}, {"a": [1, {"b": 0}]}, {"a": [True, {"b": False}]}]  # fmt: skip
        for a in vals:
            for b in vals:
                run_patch(ctx, [{"op": "test", "path": "/k", "value": b}], {"k": a})
                run_patch(ctx, [{"op": "test", "path": "/0", "value": b}], [a])
                run_patch(ctx, [{"op": "test", "path": "", "value": b}], a)
                run_patch(ctx, [{"op": "test", "path": "/k", "value": [b]}, {"op": "remove", "path": "/k"}], {"k": [a]})
    elif k == "entry":
        # the other entry points, and documents given as text
        for d in HISTORY_DOCS + SPECIAL:
            for op in singles(d, pointers(d, False), [1]):
                ops = [op]
                for how, f in (
                    ("patch.apply", lambda: jsonpath.patch.apply(M.dup(ops), arg(d))),
                    ("text patch", lambda: jsonpath.patch.apply(json.dumps(ops), arg(d))),
                    ("text document", lambda: jsonpath.patch.apply(M.dup(ops), json.dumps(d))),
                    ("iterator", lambda: jsonpath.patch.apply(iter(M.dup(ops)), arg(d))),
                ):
                    ctx.case((ops, d, how))
                    try:
                        want = M.apply(ops, d)
                    except M.PatchError:
                        want = None
                        got = attempt(f)
                        ok = isinstance(got, JSONPatchError)
                    else:
                        got = attempt(f)
                        ok = M.same(got, want)
                    if not ok:
                        ctx.fail(f"{how} {ops!r} on {d!r}", f"{how}: {ops!r} on {d!r} gives {got!r}, RFC 6902 {want!r}", None)
    else:
        raise AssertionError(unit)
