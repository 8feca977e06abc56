"""C02: RFC 9535 filter expressions select exactly the nodes the RFC makes true."""

from __future__ import annotations

import itertools
import json

import jsonpath

from vlib import docs as D
from vlib import rfc9535 as R
from vlib.util import chunks, freeze, same_values, script

PROP = "C02"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of filter expression x document executions against an RFC 9535 evaluator"
LEVEL_NOTE = (
    "Every filter expression of the bounded grammar is run on every document of the bounded universe on the real "
    "code and compared with the reference evaluator (vlib/rfc9535.py, which is trusted, as is its I-Regexp "
    "matcher). Nothing is claimed beyond the bounds."
)
RULE = "a distinct (expression skeleton, truth vector over the candidates) pair"
ASSUMPTIONS = [
    "RFC 9535 2.3.5.2.2: a <= b and a >= b are also true when a == b (null <= null, absent <= absent), as the "
    "RFC and the compliance suite have it",
    "numbers compare mathematically as Python ints/floats",
]
BOUNDS = {
    "quick": "64x64 operand values x 6 operators x 5 operand forms; logical trees with <=4 atoms and every "
    "placement of !; 3 levels of nested filters over 14 templates; documents <=5 nodes",
    "thorough": "as quick with 9 operand forms, <=5 atoms, 4 levels, documents <=6 nodes, 2 spelling deviations",
}

LONG = list(range(20))
U = [
    R.NOTHING, None, True, False, 0, -0.0, 1, 1.0, -1, 1.5, 2, 10, 9, 2**53, 2**53 + 1, -(2**53) - 1, 1e300, 1e-7,
    123456789012345678901234567890, "", "a", "b", "ab", "A", "B", "1", "10", "9", "true", "null", "[]", "{}",
    "\u00e9", "e\u0301", "\U0001f600", "\uffff", "a\nb", '{"a": 1}', [], [1], [True], [1.0], [0], [False], [[1]],
    [[True]], [1, 2], [2, 1], ["1"], [None], {}, {"a": 1}, {"a": True}, {"a": 1.0}, {"a": None}, {"b": 1},
    {"a": 1, "b": 2}, {"b": 2, "a": 1}, {"a": [1]}, {"a": [True]}, {"a": {"b": 0}}, {"a": {"b": False}},
    LONG, LONG[:-1] + [True], LONG[:-1] + [19.0],
]  # fmt: skip
OPS = ["==", "!=", "<", "<=", ">", ">="]


def at(*names):
    return ("q", ("@", tuple(("c", (("n", n) if isinstance(n, str) else ("i", n),)) for n in names)))


def root(*names):
    return ("q", ("$", tuple(("c", (("n", n) if isinstance(n, str) else ("i", n),)) for n in names)))


def lit(v, text=None):
    return ("lit", v) if text is None else ("lit", v, text)


def filt(e, pre=(), post=(), kind="c"):
    return ("$", tuple(pre) + ((kind, (("f", e),)),) + tuple(post))


def skeleton(x):
    if isinstance(x, tuple):
        if x and x[0] == "lit":
            return ("lit", type(x[1]).__name__)
        if x and x[0] in ("n", "i", "s"):
            return x[0]
        return tuple(skeleton(y) for y in x)
    return x


def run_one(ctx, q, documents, budget=0):
    parts = R.render_query(q)
    for text in R.spellings(parts, budget) if budget else (R.default_text(parts),):
        ctx.cur = text
        try:
            path = jsonpath.compile(text)
        except Exception as err:  # noqa: BLE001
            ctx.case(text)
            ctx.fail(
                f"compile {text!r}",
                f"valid RFC 9535 query {text!r} does not compile: {type(err).__name__}: {err}",
                f"import jsonpath\nprint(jsonpath.compile({text!r}))",
            )
            continue
        for doc in documents:
            ctx.case((text, doc))
            nodes, steps = R.nodelist(q, doc)
            want = [v for _, v in nodes]
            ctx.trans(steps + 1)
            ctx.outcome((skeleton(q[1]), tuple(l for l, _ in nodes)))
            try:
                got = path.findall(doc)
            except Exception as err:  # noqa: BLE001
                got = err
            if not isinstance(got, list) or not same_values(got, want):
                ctx.fail(
                    f"{text!r} on {json.dumps(doc)}",
                    f"{text!r} on {doc!r}: got {got!r}, RFC 9535 says {want!r}",
                    script(text, doc, want),
                )


# ------------------------------------------------------------------ comparison table
def obj(a, b):
    d = {"z": "tag"}
    if a is not R.NOTHING:
        d["l"] = a
    if b is not R.NOTHING:
        d["r"] = b
    return d


def primitive(v):
    return v is None or isinstance(v, (bool, int, float, str))


FORMS = ["rel", "litR", "litL", "root", "value", "self", "index", "lengthlike", "nested"]


def compare_form(ctx, form, op, a):
    if form == "rel":
        # every right operand in one document: one candidate per pair
        doc = [obj(a, b) for b in U]
        run_one(ctx, filt(("cmp", op, at("l"), at("r"))), [doc, {f"m{i}": c for i, c in enumerate(doc)}])
    elif form in ("litR", "litL"):
        if not primitive(a):
            return
        cands = [b for b in U if b is not R.NOTHING]
        doc = [obj(R.NOTHING, b) for b in U]
        l, r = (lit(a), at("r")) if form == "litL" else (at("r"), lit(a))
        run_one(ctx, filt(("cmp", op, l, r)), [doc])
        l, r = (lit(a), at()) if form == "litL" else (at(), lit(a))
        run_one(ctx, filt(("cmp", op, l, r)), [cands])
        # literal against literal
        for b in U:
            if primitive(b):
                run_one(ctx, filt(("cmp", op, lit(a), lit(b))), [[1]])
    elif form == "root":
        doc = {"x": [obj(R.NOTHING, b) for b in U]}
        if a is not R.NOTHING:
            doc["k"] = a
        run_one(ctx, filt(("cmp", op, root("k"), at("r")), pre=(("c", (("n", "x"),)),)), [doc])
        run_one(ctx, filt(("cmp", op, at("r"), root("k")), pre=(("c", (("n", "x"),)),)), [doc])
    elif form == "value":
        doc = [obj(a, b) for b in U]
        va = ("fn", "value", (("q", ("@", (("d", (("n", "l"),)),))),))
        run_one(ctx, filt(("cmp", op, va, at("r"))), [doc])
        run_one(ctx, filt(("cmp", op, at("l"), ("fn", "value", (at("r"),)))), [doc])
    elif form == "self":
        cands = [b for b in U if b is not R.NOTHING]
        doc = {"k": a, "x": cands, "o": {f"m{i}": c for i, c in enumerate(cands)}}
        if a is R.NOTHING:
            del doc["k"]
        for name in "xo":
            run_one(ctx, filt(("cmp", op, at(), root("k")), pre=(("c", (("n", name),)),)), [doc])
    elif form == "index":
        def pair(b):
            return [a if a is not R.NOTHING else 0, b] if b is not R.NOTHING else [a if a is not R.NOTHING else 0]

        doc = [pair(b) for b in U]
        run_one(ctx, filt(("cmp", op, at(0), at(1))), [doc])
        run_one(ctx, filt(("cmp", op, at(-1), at(0))), [doc])
    elif form == "lengthlike":
        doc = [obj(a, b) for b in U]
        run_one(ctx, filt(("cmp", op, ("fn", "length", (at("l"),)), ("fn", "length", (at("r"),)))), [doc])
        run_one(ctx, filt(("cmp", op, ("fn", "length", (at("l"),)), at("r"))), [doc])
    elif form == "nested":
        # operand reached two levels down, inside a nested filter
        doc = [[obj(a, b)] for b in U]
        run_one(ctx, filt(("q", ("@", (("c", (("f", ("cmp", op, at("l"), at("r"))),)),)))), [doc])
        e = ("cmp", op, ("fn", "count", (("q", ("@", (("c", (("f", ("cmp", op, at("l"), at("r"))),)),))),)), lit(1))
        run_one(ctx, filt(e), [doc])


# ------------------------------------------------------------------ literal spellings
NUMBERS = [
    ("0", 0), ("-0", 0), ("1", 1), ("-1", -1), ("10", 10), ("1.0", 1.0), ("1.5", 1.5), ("-1.5", -1.5), ("0.1", 0.1),
    ("1e2", 100), ("1E2", 100), ("1e+2", 100), ("1e-2", 0.01), ("1.5e2", 150.0), ("-1.5E-2", -0.015), ("1.0e0", 1.0),
    ("0e0", 0), ("-0.0", 0.0), ("100e-2", 1.0), ("1e0", 1), ("12e1", 120), ("9007199254740993", 9007199254740993),
    ("-9007199254740993", -9007199254740993), ("123456789012345678901234567890", 123456789012345678901234567890),
    ("1e22", 1e22), ("1e23", 1e23), ("5e-324", 5e-324), ("1.7976931348623157e308", 1.7976931348623157e308),
    ("0.30000000000000004", 0.30000000000000004), ("1e15", 10**15), ("1E-2", 0.01), ("0.0", 0.0), ("1.50", 1.5),
]  # fmt: skip


# ------------------------------------------------------------------ logical trees
def shapes(n):
    """All binary trees with n leaves over || and && with ! at any node; leaves are numbered."""

    def go(lo, hi):
        if hi - lo == 1:
            yield ("leaf", lo)
            yield ("not", ("leaf", lo))
            return
        for mid in range(lo + 1, hi):
            for l in go(lo, mid):
                for r in go(mid, hi):
                    for op in ("or", "and"):
                        yield (op, l, r)
                        yield ("not", (op, l, r))

    return go(0, n)


def subst(t, leaves):
    if t[0] == "leaf":
        return leaves[t[1]]
    return (t[0],) + tuple(subst(x, leaves) for x in t[1:])


def presence_doc(names):
    out = []
    for bits in itertools.product((0, 1), repeat=len(names)):
        out.append({n: i for i, (n, b) in enumerate(zip(names, bits)) if b})
    return out


LEAF_SETS = {
    # existence tests; values 0/false/""/null must count as present
    "exist": lambda n: ([at(c) for c in "pqrst"[:n]], presence_doc("pqrst"[:n])),
    "falsy": lambda n: (
        [at(c) for c in "pqrst"[:n]],
        [{k: v for k, v in zip("pqrst", vs) if v != "absent"}
         for vs in itertools.product(("absent", False), repeat=n)]
        + [{"p": 0, "q": ""}, {"p": None}, {"q": [], "r": {}}],
    ),
    "cmp": lambda n: (
        [("cmp", "==", at(c), lit(1)) for c in "pqrst"[:n]],
        [dict(zip("pqrst", vs)) for vs in itertools.product((1, True), repeat=n)],
    ),
    "mixed": lambda n: (
        [at("p"), ("cmp", "<", at("q"), lit(2)), ("fn", "match", (at("r"), lit("a.*"))),
         ("cmp", "!=", ("fn", "count", (("q", ("@", (("c", (("w",),)),))),)), lit(3)), root("p")][:n],
        [{"p": 0, **q, **r, **s} for q in ({"q": 1}, {"q": 2}) for r in ({"r": "ab"}, {"r": "b"})
         for s in ({}, {"s": 1})]
        + [{**q, **r} for q in ({"q": 1}, {"q": 2}) for r in ({"r": "ab"}, {})],
    ),
}  # fmt: skip

# ------------------------------------------------------------------ existence tests
EXIST = [
    ("@", ()),
    ("@", (("c", (("n", "a"),)),)),
    ("@", (("c", (("i", 0),)),)),
    ("@", (("c", (("i", -1),)),)),
    ("@", (("c", (("w",),)),)),
    ("@", (("d", (("w",),)),)),
    ("@", (("d", (("n", "a"),)),)),
    ("@", (("c", (("s", None, None, None),)),)),
    ("@", (("c", (("s", 1, None, None),)),)),
    ("@", (("c", (("n", "a"), ("i", 0))),)),
    ("@", (("c", (("n", "a"),)), ("c", (("n", "b"),)))),
    ("$", ()),
    ("$", (("c", (("n", "a"),)),)),
    ("$", (("c", (("i", 0),)),)),
    ("$", (("c", (("n", "nope"),)),)),
    ("$", (("d", (("n", "b"),)),)),
]

# ------------------------------------------------------------------ functions
QS = EXIST[:12] + [("@", (("c", (("f", at("a")),)),)), ("@", (("d", (("f", ("cmp", "==", at(), lit(1))),)),))]
# nodelists that hold a node more than once
DUPS = [
    ("@", (("c", (("i", 0), ("i", 0))),)),
    ("@", (("c", (("n", "a"), ("n", "a"))),)),
    ("@", (("c", (("i", 0), ("i", -1))),)),
    ("@", (("c", (("w",), ("w",))),)),
    ("@", (("d", (("i", 0), ("n", "a"), ("i", 0))),)),
    ("@", (("c", (("s", None, 2, None), ("s", None, None, -1))),)),
    ("@", (("c", (("f", at()), ("n", "a"))),)),
    ("@", (("d", (("w",), ("w",))), ("c", (("n", "a"), ("n", "b"), ("n", "a"))))),
    ("$", (("c", (("i", 0), ("i", 0))),)),
    ("$", (("c", (("n", "a"), ("w",))),)),
]
STRINGS = [
    "", "a", "b", "ab", "abc", "aab", "ba", "a\nb", "\n", "A", "1", "12", "a.b", "[", "\u00e9", "\U0001f600",
    "a\U0001f600b", "xaby", "aaaa", "-", "^", "$a", "\\", "a b", "\ta", "\u2028", "a\n", "ab\n", "\nab",
]  # fmt: skip
PATTERNS = [
    "", "a", "ab", "a|b", "a*", "a+", "a?", "a{2}", "a{1,2}", "a{2,}", "(a|b)*", "(ab)+", "[ab]", "[^ab]", "[a-c]+",
    "[^a]b", ".", "a.b", ".*", ".b", "\\.", "a\\.b", "\\[", "\\\\", "[0-9]", "[0-9]+", "(a|ab)(c|bcd)?", "\u00e9",
    "\U0001f600", "a.b|\u00e9", "[\u00e0-\u00ff]", "x(ab)?y", "(a*)b", "((a))", "a|", "[a\\-z]", "\\n", "a\\nb",
    "\\t.", "[^\\n]", "(", "[", "*", "a)", "\\", "(a", "[b-a]", "a**",
]  # fmt: skip

# ------------------------------------------------------------------ nesting
def q_at(*segs):
    return ("q", ("@", tuple(segs)))


def c(*sels):
    return ("c", tuple(sels))


def d(*sels):
    return ("d", tuple(sels))


INNER = [
    at("a"),
    at(),
    root("k"),
    root("a"),
    ("cmp", "==", at("a"), root("k")),
    ("cmp", "==", at(), root("k")),
    ("cmp", "!=", root("a"), root("k")),
    ("not", at("a")),
    ("cmp", "==", ("fn", "count", (q_at(c(("w",))),)), root("n")),
    ("cmp", ">", ("fn", "length", (at("a"),)), ("fn", "length", (root("a"),))),
    ("cmp", "==", root("a", "a"), at("a")),
    ("q", ("$", (c(("f", ("cmp", "==", at(), root("k")))),))),
    ("or", ("cmp", "==", at("k"), root("k")), at("b")),
    ("cmp", "==", ("fn", "value", (("q", ("$", (d(("n", "k")),))),)), at()),
]
WRAPS = [
    lambda e: q_at(c(("f", e))),
    lambda e: ("not", q_at(c(("f", e)))),
    lambda e: q_at(c(("n", "a")), c(("f", e))),
    lambda e: q_at(d(("f", e))),
    lambda e: ("cmp", "==", ("fn", "count", (q_at(c(("f", e))),)), lit(1)),
    lambda e: ("cmp", "==", ("fn", "value", (q_at(c(("f", e))),)), root("k")),
    lambda e: ("q", ("$", (c(("n", "a")), c(("f", e))))),
    lambda e: ("and", e, q_at(c(("f", e), ("n", "a")))),
    lambda e: ("or", q_at(c(("f", e)), c(("n", "k"))), ("cmp", "==", at("k"), root("k"))),
]
NEST_DOCS = [
    {"k": 1, "n": 2, "a": [1, {"a": 1, "k": 2}, [1, 2], {"a": [1], "b": 0}]},
    {"k": [1], "n": 1, "a": {"a": [1], "k": {"k": 1, "a": [[1], [True]]}, "b": {"a": "x", "n": 1}}},
    {"n": 0, "x": [{"k": 1, "a": {"a": 1, "k": 1}}, {"k": 2, "a": {"a": 2}}, [], {}, 0, "", None, False, "k"]},
    [{"k": 1, "a": [{"a": 1}, {"a": 2}]}, {"k": 2, "a": {"a": {"a": {"k": 1}}}}, [[{"a": 1}], [0, False]]],
    {"k": "s", "a": "s", "n": 3, "b": [{"a": "s"}, {"a": "t", "k": "s"}, "s", ["s"], {"a": ["s"], "x": 1, "y": 2}]},
    {"k": True, "n": 1, "a": [True, 1, {"a": True}, {"a": 1}, [True], [1], {"a": {"a": True}}]},
    {"k": '[{"a":1}]', "a": ['[{"a":1}]', "[1]", '{"k": 1}'], "n": 1, "b": {"a": '{"a":1}', "k": "1"}},
    {"a": {"a": {"a": {"a": {"a": 1, "k": 1}, "k": 1}, "k": 1}, "k": 1}, "k": 1, "n": 2},
]
GENERAL = (
    [at("a"), at("b"), at(), at(0), ("not", at("a")), ("cmp", "==", at("a"), at("b")), ("cmp", "==", at(), lit(True)),
     ("cmp", ">", ("fn", "count", (q_at(c(("w",))),)), lit(1)), ("cmp", "==", at(0), root(0)),
     ("cmp", "<=", at(), root("a")), ("cmp", "!=", at("a"), lit(None)), ("cmp", ">=", ("fn", "length", (at(),)), lit(1)),
     q_at(c(("f", at("a")))), ("q", ("$", (c(("f", at("a"))),))), q_at(d(("n", "b"))),
     ("and", at("a"), ("not", at("b"))), ("or", ("cmp", "==", at("a"), lit("s1")), at(1)),
     ("cmp", "==", ("fn", "value", (q_at(d(("n", "a"))),)), lit(0)), ("fn", "search", (at(), lit("s"))),
     ("cmp", "==", at(-1), lit(0.5))]
)  # fmt: skip
PLACES = [
    ((), (), "c"),
    ((), (), "d"),
    ((), (c(("w",)),), "c"),
    ((c(("n", "a")),), (), "c"),
    ((c(("w",)),), (), "d"),
    ((d(("n", "a")),), (d(("w",)),), "c"),
]


def units(tier):
    full = tier == "thorough"
    out = []
    for form in FORMS:
        for op in OPS:
            for i in range(0, len(U), 16):
                out.append(("cmp", form, op, i, i + 16))
    out.append(("numbers",))
    n_max = 5 if full else 4
    for name in LEAF_SETS:
        for n in range(1, n_max + 1):
            total = {1: 2, 2: 16, 3: 256, 4: 5120, 5: 114688}[n]
            if n == 5 and name != "exist" and name != "mixed":
                continue
            step = 32 if n == 3 else 1024
            for lo in range(0, total, step):
                out.append(("logic", name, n, lo, lo + step, 2 if full and n <= 2 else (1 if n <= 3 else 0)))
    for i in range(len(EXIST) + len(DUPS)):
        out.append(("exist", i))
    for fn in ("length", "count", "value", "fnnest"):
        out.append(("fn", fn))
    for i in range(len(PATTERNS)):
        out.append(("regex", i))
    for depth in range(1, 5 if full else 4):
        for i in range(len(INNER)):
            if depth >= 3:
                for w in range(len(WRAPS)):
                    out.append(("nest", depth, i, w))
            else:
                out.append(("nest", depth, i, None))
    dn = 6 if full else 5
    for i in range(len(GENERAL)):
        for pl in range(len(PLACES)):
            out.append(("general", i, pl, dn))
        out.append(("spell", i, 2))
    out.append(("lists",))
    out.append(("scale",))
    for i in range(16):
        out.append(("deepeq", i, 16, 4 if full else 3))
    return out


def run(unit, ctx):
    kind = unit[0]
    if kind == "cmp":
        _, form, op, lo, hi = unit
        for a in U[lo:hi]:
            ctx.state(("cmp", form, op, freeze(a) if a is not R.NOTHING else "nothing"))
            compare_form(ctx, form, op, a)
        ctx.sample(f"{form} {op}")
    elif kind == "numbers":
        for text, v in NUMBERS:
            cands = [b for b in U if b is not R.NOTHING] + [x for _, x in NUMBERS] + [v, [v], str(v)]
            for op in OPS:
                run_one(ctx, filt(("cmp", op, at(), lit(v, text))), [cands])
                run_one(ctx, filt(("cmp", op, lit(v, text), at("v"))), [[{"v": x} for x in cands]])
                run_one(ctx, filt(("cmp", op, ("fn", "length", (lit(v, text),)), at())), [cands])
    elif kind == "logic":
        _, name, n, lo, hi, budget = unit
        leaves, doc = LEAF_SETS[name](n)
        ctx.state(("logic", name, n, lo))
        for t in itertools.islice(shapes(n), lo, hi):
            e = subst(t, leaves)
            run_one(ctx, filt(e), [doc], budget)
    elif kind == "exist":
        q = (EXIST + DUPS)[unit[1]]
        cands = [b for b in U if b is not R.NOTHING]
        cands += [{"a": v} for v in cands] + [[v] for v in cands] + [{"x": v, "y": [v]} for v in cands]
        docs = [cands, {f"m{i}": v for i, v in enumerate(cands)}, [0, {"a": False}], {"a": {"b": 0}, "c": [""]}]
        for v in (b for b in U if b is not R.NOTHING):
            docs += [[v], {"a": v}, {"a": {"a": v}, "c": [v]}]
        for e in (("q", q), ("not", ("q", q)), ("and", ("q", q), at("a")), ("or", ("not", ("q", q)), at("a"))):
            run_one(ctx, filt(e), docs, 1 if e[0] in ("q", "not") else 0)
            run_one(ctx, filt(e, kind="d"), docs[2:])
    elif kind == "fn":
        cands = [b for b in U if b is not R.NOTHING]
        docs = [cands, [{"a": v} for v in cands], {"a": {"a": [1, 2]}, "b": [0, [1], "s"], "c": {"a": 1, "b": {"a": 2}}}]
        if unit[1] == "length":
            args = [("q", q) for q in QS if R.singular(q)] + [lit(v) for v in cands if primitive(v)]
            args += [("fn", "value", (("q", q),)) for q in QS] + [("fn", "count", (("q", QS[4]),))]
            args.append(("fn", "length", (at(),)))
            for a in args:
                for op in OPS:
                    for r in (lit(0), lit(1), lit(2), lit(20), ("fn", "length", (a,)), at("nope")):
                        run_one(ctx, filt(("cmp", op, ("fn", "length", (a,)), r)), docs)
        elif unit[1] in ("count", "value"):
            for q in QS + DUPS:
                for op in OPS:
                    rs = [lit(0), lit(1), lit(2), lit(4), lit(None), lit("a"), lit(False), at(), at("nope"), at("a")]
                    for r in rs:
                        run_one(ctx, filt(("cmp", op, ("fn", unit[1], (("q", q),)), r)), docs)
                        run_one(ctx, filt(("cmp", op, r, ("fn", unit[1], (("q", q),)))), docs[2:])
        else:
            vs = [at(), at("a"), root("a"), root(0)]
            vs += [("fn", "value", (("q", q),)) for q in (QS[1], QS[4], QS[6])]
            vs += [("fn", "length", (v,)) for v in list(vs)] + [("fn", "count", (("q", QS[5]),))]
            for l in vs:
                for r in vs:
                    for op in OPS:
                        run_one(ctx, filt(("cmp", op, l, r)), docs)
    elif kind == "regex":
        p = PATTERNS[unit[1]]
        cands = [{"s": s, "p": p} for s in STRINGS]
        cands += [{"s": v, "p": p} for v in (None, 1, True, [], ["a"], {}, {"a": 1})] + [{"p": p}]
        cands += [{"s": "a", "p": v} for v in (None, 1, False, [], {}, ["a"])] + [{"s": "a"}, {}, []]
        for fn in ("match", "search"):
            for e in (("fn", fn, (at("s"), lit(p))), ("fn", fn, (at("s"), at("p"))), ("not", ("fn", fn, (at("s"), lit(p)))),
                      ("fn", fn, (at("s"), root("pat"))), ("fn", fn, (("fn", "value", (at("s"),)), at("p")))):  # fmt: skip
                run_one(ctx, filt(e), [cands])
                run_one(ctx, filt(e, pre=(c(("n", "x")),)), [{"x": cands, "pat": p}])
            for s in STRINGS:
                run_one(ctx, filt(("fn", fn, (lit(s), lit(p)))), [[1]])
    elif kind == "nest":
        _, depth, i, w = unit

        def build(n, e):
            if n == 0:
                yield e
                return
            for wrap in WRAPS if (n < depth or w is None) else [WRAPS[w]]:
                for inner in build(n - 1, e):
                    yield wrap(inner)

        for e in build(depth, INNER[i]):
            run_one(ctx, filt(e), NEST_DOCS)
            if depth < 3:
                run_one(ctx, filt(e, kind="d"), NEST_DOCS)
                run_one(ctx, filt(e, pre=(c(("n", "a")),), post=(c(("w",)),)), NEST_DOCS)
    elif kind == "general":
        e = GENERAL[unit[1]]
        pre, post, k = PLACES[unit[2]]
        documents = [x for n in range(1, unit[3] + 1) for x in D.shapes(n)]
        for x in documents:
            ctx.state(freeze(x))
        run_one(ctx, filt(e, pre, post, k), documents)
    elif kind == "spell":
        run_one(ctx, filt(GENERAL[unit[1]]), NEST_DOCS[:3], unit[2])
        ctx.sample(R.text_of(filt(GENERAL[unit[1]])))
    elif kind == "lists":
        small = [x for n in range(1, 5) for x in D.shapes(n)] + NEST_DOCS
        for e in GENERAL:
            for e2 in GENERAL[::4]:
                run_one(ctx, ("$", (("c", (("f", e), ("f", e2))),)), small)
            run_one(ctx, ("$", (("d", (("f", e), ("n", "a"), ("i", 0), ("w",))),)), small)
            run_one(ctx, ("$", (("c", (("s", None, None, -1), ("f", e))), ("c", (("f", e),)))), small)
    elif kind == "deepeq":
        _, i, n, size = unit
        leaves = (1, True, "1", None)
        pool = [x for m in range(1, 4) for x in D.trees(m, leaves=leaves)]
        left = pool if size == 3 else pool + D.trees(4, leaves=(1, True))[::3]
        for a in left[i::n]:
            doc = [{"l": a, "r": b} for b in pool]
            for op in ("==", "!=", "<="):
                run_one(ctx, filt(("cmp", op, at("l"), at("r"))), [doc])
    elif kind == "scale":
        arr = [{"id": i, "v": i % 7, "t": [i, i % 3], "n": {"m": {"k": i}}} for i in range(60)]
        big = {"want": 3, "x": arr, "lim": [3, 55], "s": "x" * 50}
        es = [
            ("cmp", "==", at("v"), root("want")),
            ("cmp", ">=", at("id"), root("lim", 1)),
            ("and", ("cmp", ">", at("id"), lit(9)), ("cmp", "<", at("id"), root("lim", 1))),
            q_at(c(("n", "t")), c(("f", ("cmp", "==", at(), root("want"))))),
            ("cmp", "==", at("n", "m", "k"), root("x", 12, "id")),
            ("cmp", "==", ("fn", "length", (root("s"),)), lit(50)),
            ("cmp", "==", ("fn", "count", (("q", ("$", (d(("n", "id")),))),)), lit(60)),
            ("q", ("$", (c(("n", "x")), c(("f", ("cmp", "==", at("id"), root("want"))))))),
        ]
        for e in es:
            run_one(ctx, filt(e, pre=(c(("n", "x")),)), [big])
            run_one(ctx, filt(e, kind="d"), [big])
            run_one(ctx, filt(("not", e), pre=(c(("n", "x")),), post=(c(("n", "id")),)), [big])
        for n in (2, 5, 9, 17, 30):
            e = at("p")
            for _ in range(n):
                e = ("not", e)
            run_one(ctx, filt(e), [[{"p": 0}, {"q": 0}]])
            names = [f"p{i}" for i in range(n)]
            for op in ("or", "and"):
                run_one(ctx, filt((op,) + tuple(at(x) for x in names)),
                        [[{x: 0 for x in names}, {names[-1]: 0}, {names[0]: 0}, {}, {x: 0 for x in names[:-1]}]])  # fmt: skip
            e = at("a")
            for _ in range(n):
                e = q_at(c(("f", e)))
            run_one(ctx, filt(e), [D.deep(n + 2, "m"), D.deep(n + 2, "o"), D.deep(n + 1, "a")])
    else:
        raise AssertionError(unit)
