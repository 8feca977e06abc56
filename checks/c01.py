"""C01: RFC 9535 segments and selectors yield exactly the specified nodelist."""

from __future__ import annotations

import itertools
import json

import jsonpath

from vlib import docs as D
from vlib import rfc9535 as R
from vlib.util import chunks, freeze, same_values, script

PROP = "C01"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of query x document executions against an RFC 9535 reference evaluator"
LEVEL_NOTE = (
    "Every execution within the stated bounds is explored on the real code and compared with the reference "
    "model; nothing is claimed beyond the bounds. Trusts the reference evaluator (vlib/rfc9535.py)."
)
RULE = (
    "an outcome is a distinct (selector kinds and segment kinds of the query, shape of the nodelist's "
    "locations) pair produced by both model and implementation"
)
ASSUMPTIONS = [
    "reference evaluator in vlib/rfc9535.py transcribes RFC 9535 2.3/2.5",
    "documents are Python dict/list/str/int/float/bool/None as produced by json.loads",
]
BOUNDS = {
    "quick": "docs<=5 nodes x all 2-segment queries over 36 segments; docs<=4 x 3-segment queries over 14 "
    "segments; slice cube on arrays 0..6; name strings <=2 over 45 characters; spellings <=2 deviations",
    "thorough": "docs<=6 nodes x 2 segments; docs<=4 x 3 segments over 24; docs<=3 x 4 segments over 14; slice "
    "cube to length 9; names <=2 with 2 spelling deviations; spellings <=3 deviations",
}

SEL = [
    ("n", "a"),
    ("n", "b"),
    ("i", 0),
    ("i", 1),
    ("i", -1),
    ("i", -2),
    ("w",),
    ("s", None, None, None),
    ("s", 1, None, None),
    ("s", None, -1, None),
    ("s", None, None, -1),
    ("s", -1, None, -2),
    ("s", 0, 5, 2),
    ("s", 1, 0, 0),
]
LISTS = [
    (("n", "b"), ("n", "a")),
    (("i", 0), ("i", 0)),
    (("w",), ("i", -1)),
    (("s", 0, 1, None), ("n", "a"), ("w",)),
]
SEGS_FULL = [(k, (s,)) for s in SEL for k in "cd"] + [(k, l) for l in LISTS for k in "cd"]
SEGS_24 = [(k, (s,)) for s in SEL[:2] + SEL[2:3] + SEL[4:5] + SEL[6:9] + SEL[10:11] for k in "cd"] + [
    (k, l) for l in LISTS for k in "cd"
]
SEGS_14 = [(k, (s,)) for s in (SEL[0], SEL[1], SEL[2], SEL[4], SEL[6], SEL[10]) for k in "cd"] + [
    ("c", LISTS[0]),
    ("d", LISTS[2]),
]

NAME_CHARS = list("ab0_-'\"\\/ .[]$@*~#%") + [
    "\b", "\f", "\n", "\r", "\t", "\x00", "\x1f", "\x7f", "\x80", "\x85", "\u00a0", "\u00e9", "e\u0301",
    "\u2028", "\u2029", "\u212b", "\u3000", "\ud7ff", "\ue000", "\ufeff", "\uffff", "\U0001f600", "\U00010000",
    "\U0010ffff", "\u263a", "A",
]  # fmt: skip


def kinds(q):
    return tuple((k, tuple(s[0] for s in sels)) for k, sels in q[1])


def check(ctx, text, path, q, doc, docarg=None):
    ctx.case((text, doc))
    nodes, steps = R.nodelist(q, doc)
    want = [v for _, v in nodes]
    ctx.trans(steps)
    ctx.outcome((kinds(q), tuple(len(l) for l, _ in nodes)))
    try:
        got = path.findall(doc if docarg is None else docarg)
    except Exception as err:  # noqa: BLE001
        got = err
    if isinstance(got, list) and same_values(got, want):
        return
    ctx.fail(
        f"{text!r} on {json.dumps(doc)}",
        f"{text!r} on {doc!r}: got {got!r}, RFC 9535 says {want!r}",
        script(text, doc if docarg is None else docarg, want),
    )


def compile_(ctx, text, q):
    ctx.cur = text
    try:
        return jsonpath.compile(text)
    except Exception as err:  # noqa: BLE001
        ctx.case(text)
        ctx.fail(
            f"compile {text!r}",
            f"valid RFC 9535 query {text!r} does not compile: {type(err).__name__}: {err}",
            f"import jsonpath\nprint(jsonpath.compile({text!r}))",
        )
        return None


def doc_set(name):
    if name == "n<=5":
        return [d for n in range(1, 6) for d in D.shapes(n)]
    if name == "n<=6":
        return [d for n in range(1, 7) for d in D.shapes(n)]
    if name == "n<=4":
        return [d for n in range(1, 5) for d in D.shapes(n)]
    if name == "n<=3":
        return [d for n in range(1, 4) for d in D.shapes(n)]
    if name == "scale":
        out = [D.long_array(n) for n in (9, 10, 11, 12, 17, 33, 100, 130)]
        out += [D.long_object(n) for n in (9, 11, 17, 33, 130)]
        out += [D.deep(n, k) for n in (5, 9, 17, 33, 60) for k in "aom"]
        out += [[D.long_array(12), D.long_object(12)], {"a": D.long_array(20), "b": {"a": D.long_array(11)}}]
        shared = {"a": [1, 2], "b": 3}
        out += [[shared, shared], {"a": shared, "b": [shared, {"a": shared}]}]
        out += [[[], {}, "", 0, False, None, [[]], {"a": {}}], {"": {"": 0}, "a": "", "b": False}]
        out += [["abc", {"a": "abc", "0": "zero", "-1": "minus"}, ["x", "yz"]]]
        out += [{"0": {"1": "x", "-1": "y", "00": "z", "1.0": "w", "+1": "q"}, "1": [1, 2], "a": {"0": [7]}}]
        out += [[1, 1, 1, True, 1.0], [{"a": 1}, {"a": 1}, {"a": True}], [[0], [0], [False]]]
        return out
    raise AssertionError(name)


def leafdocs():
    """Root values of every kind, passed so that the library does not re-read text as JSON."""
    out = []
    for v in (0, 1, -1, 1.5, True, False, None, [], {}):
        out.append((v, v))
    for s in ("", "a", "abc", "0", "true", "[1,2]", '{"a":1}'):
        out.append((s, json.dumps(s)))
    return out


SPELL_QUERIES = [
    ("$", (("c", (("n", "a"),)), ("c", (("i", 0),)))),
    ("$", (("c", (("w",),)), ("d", (("n", "b"),)))),
    ("$", (("d", (("w",),)), ("c", (("s", 1, None, None),)))),
    ("$", (("c", (("s", 1, 3, 2), ("n", "a b"))),)),
    ("$", (("c", (("s", None, None, -1),)), ("d", (("i", -1), ("w",))))),
    ("$", (("d", (("n", "in"),)), ("c", (("n", "a'\"\\/"),)))),
    ("$", (("c", (("n", "\U0001f600\u00e9"),)), ("c", (("n", "true"),)))),
    ("$", (("d", (("n", "a"), ("i", 0), ("s", None, 2, None))), ("c", (("w",),)))),
    ("$", (("c", (("n", "a"), ("n", "a"), ("w",), ("i", -1))),)),
    ("$", (("c", (("s", None, -1, None),)), ("c", (("s", -2, None, None),)))),
    ("$", (("c", (("n", "null"),)), ("d", (("n", "_x1"),)), ("c", (("n", "\ud7ff\ue000"),)))),
    ("$", ()),
]
SPELL_DOCS = [
    {"a": [[{"b": 1, "a": [5, 6, 7]}, {"b": 2}, 3], {"b": {"b": 4}}, 9], "a b": 8, "in": {"a'\"\\/": 1, "in": 0}},
    [[1, 2, 3, 4], {"a": [1, {"a": [2, 3]}], "b": [{"b": 5}], "a b": 6}, {"in": {"a'\"\\/": 7}}, 8],
    {"\U0001f600\u00e9": {"true": 1}, "null": {"a": {"_x1": {"\ud7ff\ue000": 2}, "x1": 3}}, "a": 1},
]
# member names worth spelling in shorthand although they resemble other syntax
WORDS = [
    "and", "or", "not", "in", "contains", "true", "false", "True", "nil", "null", "none", "None", "undefined",
    "missing", "andx", "orx", "notx", "inx", "in1", "truex", "nullx", "and_", "_and", "_", "__", "_a", "_0", "a_",
    "e1", "E5", "a1", "length", "count", "in\u263a", "\u263ain", "or\u00e9", "true\u2028", "null\U0001f600",
    "\U0001f600", "\u00e9", "\u2028", "\u0085", "\u00a0", "\u3000", "\ud7ff", "\ue000", "\uffff", "\U0010ffff",
    "a\U00010000", "aims", "A", "Z9", "__proto__", "not\u0301", "in\u203f", "in\u00b2",
]  # fmt: skip


def units(tier):
    full = tier == "thorough"
    out = []
    dset = "n<=6" if full else "n<=5"
    for i in range(len(SEGS_FULL)):
        if full:
            for j in range(0, len(SEGS_FULL), 12):
                out.append(("two", dset, i, j, j + 12))
        else:
            out.append(("two", dset, i, 0, 99))
    three = SEGS_24 if full else SEGS_14
    for i in range(len(three)):
        for j in range(0, len(three), 4):
            out.append(("three", full, "n<=4", i, j, j + 4))
    if full:
        for i in range(len(SEGS_14)):
            for j in range(len(SEGS_14)):
                out.append(("four", "n<=3", i, j))
    out.append(("one", dset))
    for i in range(0, len(SEGS_FULL), 4):
        out.append(("scale", i))
    for n in range(10 if full else 7):
        out.append(("slices", n))
    out.append(("bigslices",))
    for i in range(len(NAME_CHARS)):
        out.append(("names", i, 2 if full else 1))
    out.append(("words",))
    for i in range(len(SPELL_QUERIES)):
        out.append(("spell", i, 3 if full else 2))
    for i in range(len(SEL)):
        out.append(("lists", i, dset if full else "n<=4"))
    out.append(("leaf",))
    return out


def explore(ctx, queries, documents):
    for q in queries:
        text = R.text_of(q)
        path = compile_(ctx, text, q)
        if path is None:
            continue
        for doc in documents:
            check(ctx, text, path, q, doc)


def run(unit, ctx):
    kind = unit[0]
    if kind == "two":
        _, dset, i, lo, hi = unit
        documents = doc_set(dset)
        for d in documents:
            ctx.state(freeze(d))
        qs = [("$", (SEGS_FULL[i], s)) for s in SEGS_FULL[lo:hi]]
        ctx.sample(R.text_of(qs[0]))
        explore(ctx, qs, documents)
    elif kind == "one":
        explore(ctx, [("$", ())] + [("$", (s,)) for s in SEGS_FULL], doc_set(unit[1]))
    elif kind == "three":
        _, full, dset, i, lo, hi = unit
        segs = SEGS_24 if full else SEGS_14
        explore(ctx, [("$", (segs[i], b, c)) for b in segs[lo:hi] for c in segs], doc_set(dset))
    elif kind == "four":
        _, dset, i, j = unit
        segs = SEGS_14
        explore(ctx, [("$", (segs[i], segs[j], c, d)) for c in segs for d in segs], doc_set(dset))
    elif kind == "scale":
        documents = doc_set("scale")
        extra = [("c", (("i", n),)) for n in (9, 10, 11, 12, -10, -11, -12, -13, 99, 100, 2**53 - 1, -(2**53) + 1)]
        extra += [("d", (("i", 11),)), ("c", (("s", 2, 30, 7),)), ("d", (("s", 11, 8, -2),))]
        extra += [("c", (("n", n),)) for n in ("k0", "k10", "", "0", "-1", "1")] + [("d", (("n", ""),))]
        first = SEGS_FULL[unit[1] : unit[1] + 4]
        qs = [("$", (a, b)) for a in first for b in SEGS_FULL + extra]
        if unit[1] == 0:
            qs += [("$", (b,)) for b in extra] + [("$", (a, b)) for a in extra for b in SEGS_FULL]
            qs += [("$", (("c", (("n", "a"),)),) * n) for n in (3, 9, 33, 60)]
            qs += [("$", (("c", (("i", 0),)),) * n) for n in (3, 9, 33, 60)]
            qs += [("$", (("c", (("w",),)),) * n) for n in (3, 9, 33, 60)]
        # descendant after descendant on the deep chains is quadratic; that is fine at this size
        explore(ctx, qs, documents)
    elif kind == "slices":
        n = unit[1]
        doc = [f"v{i}" for i in range(n)]
        r = [None] + list(range(-n - 2, n + 3))
        steps = [None] + list(range(-n - 1, n + 2))
        qs = [("$", (("c", (("s", a, b, c),)),)) for a in r for b in r for c in steps]
        explore(ctx, qs, [doc, {"a": 1, "0": 2}])
        # under a second segment, where the node is not the root
        for q in [("$", (("c", (("n", "x"),)), q[1][0])) for q in qs[:: 1 if n < 5 else 3]]:
            text = R.text_of(q)
            p = compile_(ctx, text, q)
            if p:
                check(ctx, text, p, q, {"x": doc, "y": "abcdef"})
                check(ctx, text, p, q, {"x": "abcdef"})
    elif kind == "bigslices":
        m = 2**53 - 1
        r = [None, m, -m, 2**31, -(2**31), 2**63 % m, 0, 1, -1, 10, 11, 12, -10, -11, -13]
        docs = [D.long_array(n) for n in (0, 1, 5, 12, 40)]
        steps = [None, m, -m, 2**31, -(2**31), 1, -1, 11, -11, 0]
        explore(ctx, [("$", (("c", (("s", a, b, c),)),)) for a in r for b in r for c in steps], docs)
    elif kind == "lists":
        a = SEL[unit[1]]
        documents = doc_set(unit[2])
        qs = [("$", ((k, (a, b)),)) for b in SEL for k in "cd"]
        explore(ctx, qs, documents)
        small = [d for d in documents if len(D.nodes(d)) <= 3] + doc_set("scale")[-12:]
        qs = [("$", (("c", (a, b, c)),)) for b in SEL for c in SEL]
        qs += [("$", ((k, (a, b, c, a)), ("c", (("w",),)))) for b in SEL[::2] for c in SEL[::3] for k in "cd"]
        explore(ctx, qs, small)
    elif kind == "names":
        c1 = NAME_CHARS[unit[1]]
        names = [c1] + [c1 + c2 for c2 in NAME_CHARS]
        names += [c1 * 3, "x" + c1 + c1 + "y", c1 + "x" * 20] + ["a" + c1 + c2 for c2 in "\\'\"/u"]
        if unit[1] == 0:
            names.append("")
        for name in dict.fromkeys(names):
            decoys = {name + " ": 1, " " + name: 2, name[:-1]: 3, name + name: 4, name.replace("\\", ""): 5,
                      name.upper(): 6, json.dumps(name)[1:-1]: 7, "\\" + name: 8, name + "\\": 9}  # fmt: skip
            decoys.pop(name, None)
            doc = dict(decoys)
            doc[name] = {"hit": [name], name: 10}
            ctx.state(("name", name))
            for q in (
                ("$", (("c", (("n", name),)),)),
                ("$", (("c", (("n", name),)), ("d", (("n", name), ("n", "hit"))))),
            ):
                budget = unit[2] if len(name) < 5 and len(q[1]) == 1 else 1
                for text in R.spellings(R.render_query(q), budget):
                    p = compile_(ctx, text, q)
                    if p:
                        check(ctx, text, p, q, doc)
    elif kind == "words":
        for w in WORDS:
            doc = {w: {w: 1, "x": {w: [2]}}, "x": [{w: 3}], w + "x": 4, w[:1]: {w: 5}}
            for q in (
                ("$", (("c", (("n", w),)),)),
                ("$", (("d", (("n", w),)),)),
                ("$", (("c", (("n", w),)), ("c", (("n", w),)))),
                ("$", (("d", (("n", w),)), ("d", (("n", w),)))),
                ("$", (("d", (("n", w),)), ("c", (("i", 0),)))),
                ("$", (("d", (("n", w),)), ("c", (("w",),)))),
                ("$", (("c", (("n", w), ("n", w))),)),
            ):
                for text in R.spellings(R.render_query(q), 1):
                    p = compile_(ctx, text, q)
                    if p:
                        check(ctx, text, p, q, doc)
    elif kind == "spell":
        q = SPELL_QUERIES[unit[1]]
        for text in R.spellings(R.render_query(q), unit[2]):
            p = compile_(ctx, text, q)
            if p:
                for doc in SPELL_DOCS:
                    check(ctx, text, p, q, doc)
    elif kind == "leaf":
        qs = [("$", ())] + [("$", (s,)) for s in SEGS_FULL] + [
            ("$", (a, b)) for a in SEGS_FULL for b in SEGS_14
        ]
        for q in qs:
            text = R.text_of(q)
            p = compile_(ctx, text, q)
            for doc, arg in leafdocs():
                check(ctx, text, p, q, doc, arg)
    else:
        raise AssertionError(unit)
