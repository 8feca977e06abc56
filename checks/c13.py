"""C13: documented non-standard syntax means what the documentation says."""

from __future__ import annotations

import itertools
import json
from collections import ChainMap, OrderedDict, UserDict
from types import MappingProxyType

import jsonpath

from checks import c02
from vlib import corpus
from vlib import docs as D
from vlib import ext as E
from vlib import rfc9535 as R
from vlib.util import freeze, same_values

PROP = "C13"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of extension query x spelling x document x filter context executions against a reference evaluator"
LEVEL_NOTE = (
    "Every query of a bounded grammar of the documented extensions, in every documented alias spelling within the "
    "deviation budget, is run on the real code for every document and filter context of the bounded universe and "
    "compared with a reference evaluator (vlib/ext.py on top of vlib/rfc9535.py, both trusted). Alias families are "
    "also compared implementation against implementation, through the same enumeration. Nothing beyond the bounds."
)
RULE = "a distinct (query skeleton, selected locations) pair"
ASSUMPTIONS = [
    "Python's re module is the definition of the regular expression dialect of =~ (flags a, i, m, s)",
    "member names are strings: an integer or null is never `in` an object",
    "not judged, because the documentation does not say: truthiness of a bare `#`, membership operands that are "
    "queries selecting several nodes, =~ with something other than a regular expression literal on its right",
]
BOUNDS = {
    "quick": "extension selectors: 8 prefixes x 9 forms x 10 suffixes x documents <=4 nodes and 14 larger ones; 56x56 "
    "membership operands x 5 forms; 40 patterns x 16 flag sets x 32 strings x 8 operand forms; undefined against 33 "
    "operands; every alias spelling of logical trees with <=3 atoms; 26 extension filters x 9 wraps nested 3 deep; "
    "5 kinds of filter context mapping",
    "thorough": "as quick with documents <=6 nodes, logical trees with 4 atoms, 4 levels of nesting, "
    "spelling deviations 2, all segment triples for queries without a root",
}

at, root, lit, q_at, c, d = c02.at, c02.root, c02.lit, c02.q_at, c02.c, c02.d
CUR, UNDEF = ("cur",), ("undef",)


def head(h, *names):
    return ("q", (h, tuple(("c", (("n", n) if isinstance(n, str) else ("i", n),)) for n in names)))


def qh(h, *segs):
    return ("q", (h, tuple(segs)))


def filt(e, pre=(), post=(), kind="c", h="$"):
    return (h, tuple(pre) + ((kind, (("f", e),)),) + tuple(post))


class Plain(UserDict):
    pass


CONTEXT = {
    "x": 1, "n": ["a", 0, {"b": 2}, None], "m": {"a": "b", "b": [1]}, "b": None, "k": "a", "t": True, "e": {}, "s": "abc",
    "0": "zero", "a": {"a": {"a": 1}},
}  # fmt: skip
CONTEXTS = {
    "none": None,
    "empty": {},
    "dict": CONTEXT,
    "falsy": {"x": 0, "n": [], "m": {}, "b": False, "k": "", "t": None, "e": [], "s": "", "a": 0},
    "ordered": OrderedDict(x="a", n=[1, [1]], m={"0": 1}, k="0", a={"a": True}),
    "proxy": MappingProxyType(CONTEXT),
    "chain": ChainMap({"x": "a"}, CONTEXT),
    "user": Plain(CONTEXT),
}
PLAINS = {k: None if v is None else E.plain(v) for k, v in CONTEXTS.items()}

SCRIPT = """
import jsonpath
from collections import ChainMap, OrderedDict, UserDict
from types import MappingProxyType
query = {q!r}
doc = {doc!r}
context = {ctx!r}
print('query   ', query)
print('document', doc)
print('context ', context)
try:
    print('got     ', jsonpath.findall(query, doc, filter_context=context))
except Exception as e:
    print('raised  ', type(e).__name__, e)
print('expected', {want!r})
"""


def check(ctx, q, texts, documents, contexts=("none",)):
    """Every text is a spelling of q."""
    paths = []
    for text in texts:
        ctx.cur = text
        try:
            paths.append((text, jsonpath.compile(text)))
        except Exception as err:  # noqa: BLE001
            ctx.case(text)
            ctx.fail(
                f"compile {text!r}",
                f"documented query {text!r} does not compile: {type(err).__name__}: {err}",
                f"import jsonpath\nprint(jsonpath.compile({text!r}))",
            )
    skel = None
    for doc in documents:
        for cname in contexts:
            want, steps = E.findall(q, doc, PLAINS[cname])
            for text, path in paths:
                ctx.case((text, doc, cname))
                ctx.trans(steps + 1)
                try:
                    if cname == "none":
                        got = path.findall(doc)
                    else:
                        got = path.findall(doc, filter_context=CONTEXTS[cname])
                except Exception as err:  # noqa: BLE001
                    got = err
                if isinstance(got, list) and cname not in ("none", "empty", "dict", "falsy"):
                    got = [E.plain(v) for v in got]
                if not isinstance(got, list) or not same_values(got, want):
                    ctx.fail(
                        f"{text!r} on {json.dumps(doc)} context {cname}",
                        f"{text!r} on {doc!r} with context {PLAINS[cname]!r}: got {got!r}, documented meaning {want!r}",
                        SCRIPT.format(q=text, doc=doc, ctx=PLAINS[cname], want=want),
                    )
            if skel is None:
                skel = c02.skeleton(q[1:])
            ctx.outcome((skel, len(want), freeze(want) if len(want) < 4 else len(want)))


def run_one(ctx, q, documents, budget=0, contexts=("none",), alias=None):
    """alias: number of alias deviations (99: all), budget: deviations over every spelling choice."""
    parts = E.render_query(q)
    texts = [R.default_text(parts)]
    if alias is not None:
        texts = list(R.spellings(E.aliases(parts), alias))
    if budget:
        texts = list(dict.fromkeys(texts + list(R.spellings(parts, budget))))
    check(ctx, q, texts, documents, contexts)


# ------------------------------------------------------------------ documents
WEIRD = [
    {"": 1, " ": 2, "'": 3, '"': 4, "\\": 5, "~": 6, "#": 7, "_": 8, "^": 9, "$": 10, "@": 11},
    {"0": "z", "1": {"0": 1}, "-1": [1], "a": {"0": [], "true": True}, "\u00e9": {"\U0001f600": 1}},
    {"true": {"null": 1}, "in": {"or": {"and": 1}}, "not": 2, "nil": [{"in": 1}], "contains": "in", "undefined": 0},
]
BIG = c02.NEST_DOCS + WEIRD + corpus.DOCS[:4]


def docs_upto(n):
    return [x for m in range(1, n + 1) for x in D.shapes(m)]


# ------------------------------------------------------------------ keys selector
K = ("k",)
KEY_FORMS = [c(K), d(K), c(K, K), c(K, ("n", "a")), c(("n", "a"), K), c(("s", 1, None, None), K, ("i", 0)), d(K, ("w",)),
             c(("f", at("a")), K), c(K, ("f", ("cmp", "==", CUR, lit("a"))))]  # fmt: skip
PRE = [(), (c(("n", "a")),), (c(("w",)),), (d(("n", "a")),), (c(("n", "a"), ("i", 0)),), (d(("w",)),), (c(("f", at("a"))),), (c(K),)]
POST = [(), (c(("n", "a")),), (c(("i", 0)),), (c(("w",)),), (c(K),), (d(("w",)),), (d(K),), (c(("s", None, 1, None)),),
        (c(("f", at())),), (c(("f", ("cmp", "==", at(), lit("a")))),)]  # fmt: skip
KEY_TESTS = [
    qh(h, *pre, seg)
    for h in "@$^_" for pre in ((), (c(("n", "a")),), (c(("i", 0)),)) for seg in (c(K), d(K), c(("n", "b"), K))
]  # fmt: skip
KEY_TESTS += [
    ("cmp", op, ("fn", fn, (q,)), r)
    for q in (qh("@", c(K)), qh("@", d(K)), qh("$", c(K)), qh("_", c(K)), qh("@", c(("n", "a")), c(K)))
    for fn in ("count", "value") for op in ("==", "!=", "<") for r in (lit(1), lit("a"), CUR, at("a"))
]  # fmt: skip
KEY_TESTS += [
    ("fn", "match", (("fn", "value", (qh("@", c(K)),)), lit("[ab]"))),
    ("fn", "search", (("fn", "value", (qh("@", d(K)),)), lit("a"))),
    ("cmp", "==", ("fn", "length", (("fn", "value", (qh("@", c(K)),)),)), lit(1)),
    ("in", ("fn", "value", (qh("@", c(K)),)), head("_", "n")),
    ("re", ("fn", "value", (qh("@", c(K)),)), "A|b", "i"),
    ("not", qh("@", c(K))), ("and", qh("@", c(K)), ("not", qh("@", c(K), c(("w",))))),
    qh("@", c(("f", ("cmp", ">", ("fn", "count", (qh("@", c(K)),)), lit(1))))),
]  # fmt: skip

# ------------------------------------------------------------------ fake root
FAKE_SEGS = [
    (), (c(("i", 0)),), (c(("i", -1)),), (c(("i", 1)),), (c(("w",)),), (d(("w",)),), (d(("n", "a")),), (c(("n", "a")),),
    (c(("i", 0)), c(("n", "a"))), (c(("s", None, None, -1)),), (d(("i", 0)),), (c(K),), (d(K),), (c(("i", 0), ("w",)),),
    (c(("i", 0)), c(("i", 0))), (d(("f", at("a"))),),
]  # fmt: skip
FAKE_FILTERS = [
    at("a"), at(), at(0), ("not", at("a")), ("cmp", "==", CUR, lit(0)), ("cmp", "==", at(), root()), ("cmp", "==", at("a"), root("a")),
    ("cmp", ">", ("fn", "length", (at(),)), lit(1)), ("cmp", "==", at(), head("^", 0)), ("cmp", "!=", at(), head("^", 0)),
    q_at(c(("f", ("cmp", "==", at(), root("a"))))), ("cmp", ">", ("fn", "count", (q_at(d(("w",))),)), lit(2)), head("^", 0, "a"),
    ("cmp", "==", ("fn", "count", (qh("^", c(("w",))),)), lit(1)), ("cmp", "==", head("^", 0, "a"), at("a")), qh("^"),
    ("cmp", "==", head("_", "x"), at("a")), ("in", lit("a"), at()), ("has", at(), lit(1)), qh("^", c(("f", at("a")))),
    qh("^", c(("f", ("cmp", "==", at("a"), root("a"))))), ("cmp", "==", at("zz"), UNDEF), ("cmp", "==", at(), lit(None)),
    qh("@", c(("f", ("cmp", "==", ("fn", "count", (qh("^", d(("n", "a"))),)), lit(1))))), ("cmp", "==", head("^", "a"), UNDEF),
    ("cmp", "==", qh("^"), at()), ("cmp", "==", ("fn", "length", (qh("^"),)), lit(1)),
]  # fmt: skip

# ------------------------------------------------------------------ current key
CUR_TESTS = [("cmp", op, CUR, r) for op in c02.OPS for r in (
    lit("a"), lit(0), lit(1), lit("0"), lit(""), lit(None), lit(True), lit(False), lit(0.0), lit(1.5), at(), at("a"), root("k"), root("a"),
    head("_", "k"), head("_", "x"), CUR, UNDEF)]  # fmt: skip
CUR_TESTS += [("cmp", op, l, CUR) for op in ("==", "<", ">=", "!=") for l in (lit("a"), lit(0), at(), root("k"), head("_", "k"), UNDEF)]
CUR_TESTS += [
    ("in", CUR, ("list", (lit("a"), lit(0)))), ("in", CUR, ("list", (lit("0"), lit(True), lit(None)))), ("in", CUR, head("_", "n")),
    ("in", CUR, head("_", "m")), ("in", CUR, at()), ("in", CUR, root()), ("in", CUR, lit("abc")), ("has", CUR, lit("a")),
    ("has", at(), CUR), ("has", head("_", "n"), CUR), ("has", root("a"), CUR), ("in", at(), CUR), ("in", lit(""), CUR),
    ("re", CUR, "a.*", ""), ("re", CUR, "[A-Z]*", "i"), ("re", CUR, "[0-9]", ""), ("fn", "match", (CUR, lit("a|b"))),
    ("fn", "search", (CUR, lit("[0-9b]"))), ("fn", "match", (lit("a"), CUR)), ("fn", "search", (at(), CUR)),
    ("not", ("cmp", "==", CUR, lit("a"))), ("not", ("re", CUR, "a", "")), ("or", ("cmp", "==", CUR, lit("a")), ("cmp", "==", CUR, lit(1))),
    ("and", ("cmp", ">=", CUR, lit(0)), at("a")), ("cmp", "==", ("fn", "length", (CUR,)), lit(1)),
    ("cmp", ">", ("fn", "length", (CUR,)), lit(0)), ("cmp", "==", ("fn", "length", (CUR,)), UNDEF),
    q_at(c(("f", ("cmp", "==", CUR, lit("a"))))), q_at(c(("f", ("cmp", "==", CUR, lit(0))))), q_at(d(("f", ("cmp", "==", CUR, at())))),
    ("and", ("cmp", "!=", CUR, lit("a")), q_at(c(("f", ("cmp", "==", CUR, lit("a")))))),
    ("cmp", "==", ("fn", "count", (q_at(c(("f", ("cmp", "!=", CUR, lit(0))))),)), CUR),
    ("cmp", "==", ("fn", "value", (q_at(c(("f", ("in", CUR, head("_", "n"))))),)), CUR),
    q_at(c(("f", ("and", ("cmp", "==", CUR, lit(0)), q_at(c(("f", ("cmp", "==", CUR, lit("a"))))))))),
    qh("$", c(("f", ("cmp", "==", CUR, lit("a"))))), qh("_", c(("f", ("cmp", "==", CUR, lit("x"))))), qh("^", c(("f", ("cmp", "==", CUR, lit(0))))),
    qh("_", c(("n", "n")), c(("f", ("cmp", "==", CUR, lit(1))))), ("cmp", "==", ("fn", "count", (qh("$", d(("f", ("cmp", "==", CUR, lit("a"))))),)), lit(1)),
]  # fmt: skip

# ------------------------------------------------------------------ filter context
CTX_OPERANDS = [head("_", *p) for p in (
    (), ("x",), ("n",), ("n", 0), ("n", -1), ("n", 9), ("m",), ("m", "a"), ("m", "b", 0), ("b",), ("t",), ("e",), ("s",), ("zz",),
    ("zz", "a"), ("a", "a", "a"), (0,))]  # fmt: skip
CTX_QUERIES = [
    ("_", (c(("w",)),)), ("_", (d(("w",)),)), ("_", (d(("n", "a")),)), ("_", (c(("n", "n")), c(("s", 0, 2, None)))), ("_", (c(K),)),
    ("_", (c(("n", "zz"), ("n", "x")),)), ("_", (c(("n", "n")), c(("f", ("cmp", "==", at(), head("_", "x"))))),),
    ("_", (c(("n", "n")), c(("f", ("cmp", "==", at(), root("a"))))),), ("_", (c(("n", "m")), c(("f", at(0))))),
    ("_", (c(("n", "n")), c(("f", ("cmp", "==", CUR, lit(0)))))), ("_", (c(("b", "m")), c(("b", "a")))),
    ("_", (c(("b", "x"), ("n", "b")),)),
]  # fmt: skip
CTX_TESTS = list(CTX_OPERANDS) + [("q", q) for q in CTX_QUERIES] + [("not", q) for q in CTX_OPERANDS]
CTX_TESTS += [("cmp", op, at(*p), q) for q in CTX_OPERANDS for p, op in (((), "=="), (("a",), "=="), (("a",), "<="), (("k",), "!="), (("a",), ">"))]
CTX_TESTS += [("cmp", "==", q, r) for q in CTX_OPERANDS for r in (root("k"), lit(1), lit(None), UNDEF, head("_", "x"))]
CTX_TESTS += [(op, a, b) for q in CTX_OPERANDS for op in ("in", "has") for a, b in ((at(), q), (q, at()), (at("a"), q), (lit("a"), q))]
CTX_TESTS += [("cmp", "==", ("fn", fn, (("q", q),)), r) for q in CTX_QUERIES for fn in ("count", "value") for r in (lit(1), at(), head("_", "x"), CUR)]
CTX_TESTS += [("cmp", ">=", ("fn", "length", (q,)), lit(1)) for q in CTX_OPERANDS]
CTX_TESTS += [("fn", fn, (at(), q)) for q in CTX_OPERANDS[1:4] for fn in ("match", "search")] + [("re", q, "a.*", "") for q in CTX_OPERANDS]
CTX_PLACES = [
    lambda e: filt(e), lambda e: filt(e, kind="d"), lambda e: filt(q_at(c(("f", e)))), lambda e: filt(q_at(c(("w",)), d(("f", e)))),
    lambda e: filt(("q", ("$", (c(("f", e)),)))), lambda e: filt(e, h="^"), lambda e: filt(("cmp", ">=", ("fn", "count", (q_at(c(("f", e))),)), lit(1))),
    lambda e: filt(qh("_", c(("n", "n")), c(("f", e)))), lambda e: filt(e, pre=(c(("w",)),), post=(d(("w",)),)),
    lambda e: ("$", (c(("n", "a"), ("f", e), ("s", 1, None, None)),)), lambda e: ("|", ("$", (c(("n", "a")),)), filt(e)),
    lambda e: ("|", filt(e), filt(("not", e) if e[0] in ("q", "not") else e, kind="d")), lambda e: filt(q_at(c(("f", q_at(c(("f", e))))))),
    lambda e: filt(e, h=""), lambda e: filt(q_at(c(("n", "a")), c(("f", ("or", e, q_at(c(("f", e)))))))),
]  # fmt: skip

# ------------------------------------------------------------------ regex
PATTERNS = [
    "a", "ab", "A", "a|b", "a|ab", "a*", ".", ".*", "a.b", "^a$", "^b", "a$", "[a-c]+", "[^a]", "\\w+", "\\w", "\\W", "\\d+", "\\s",
    "\\.", "a\\.b", "(a|b)*", "(?:ab)+", "a{2}", "a{1,2}", "\\bab\\b", "\u00e9", "\u00c9", "k", "\\ba", "a\\n", "\\n", ".b", "a?b?",
    "[A-Z]", "\\S+", "(a)\\1", "a b", "s1", "[?@.a]", "'", '"', "\\\\", "a#b", "(?=a).*", ".+?", "(?!b).",
]  # fmt: skip
STRINGS = c02.STRINGS + ["ab\nb", "B", "Ab", "\u00c9", "k", "\u212a", "\u0130", "\u0661", "\u00a0", "aA", "aa", "a#b", "s1", "[", "'", '"', "?@xa"]
STRINGS = [s for s in STRINGS if "\r" not in s]
FLAGSETS = ["".join(f) for n in range(5) for f in itertools.combinations("aims", n)]

# ------------------------------------------------------------------ undefined
UNDEF_OPERANDS = [("q", q) for q in c02.EXIST if R.singular(q)] + CTX_OPERANDS[:14] + [head("^"), head("^", 0), head("^", 0, "a"), head("^", 1)]
UNDEF_OPERANDS += [("fn", "length", (at(),)), ("fn", "length", (at("a"),)), ("fn", "value", (q_at(c(("w",))),)), ("fn", "value", (q_at(d(("n", "a"))),)),
                   ("fn", "count", (q_at(c(("w",))),)), lit(None), lit(False), lit(0), lit(""), lit("undefined"), CUR, UNDEF]  # fmt: skip

# ------------------------------------------------------------------ bare names
BARE = [
    "a", "b", "ab", "A", "_a", "a_", "a1", "a-b", "a-", "a--b", "b-1", "\u00e9", "\u00e9a", "a\u00e9", "\U0001f600", "android", "order",
    "inner", "int", "notable", "nota", "nothing", "true1", "truex", "Truex", "falsey", "nullable", "null_", "nil0", "nilx", "Nonex", "nonesuch",
    "undefinedx", "missing_", "missing1", "contains1", "containsx", "length", "count", "value", "match", "orb", "and1", "in1", "in_", "or-a", "and-b",
    "not-c", "true-x", "null-y", "x0", "e1", "E5", "__proto__", "_0", "__", "constructor", "is", "typeof", "aims", "\u4e2d", "\u00b5", "_x",
]  # fmt: skip

# ------------------------------------------------------------------ operators
ATOMS3 = [at("p"), ("cmp", "!=", at("q"), lit(None)), ("in", at("r"), ("list", (lit(True), lit("x"))))]
ATOMS4 = [("cmp", "==", at("p"), UNDEF), at("q"), ("cmp", "==", at("r"), lit(None)), ("has", lit("ab"), at("s"))]
LOGIC_DOCS = [
    [dict(x) for x in (
        [(k, v) for k, v in zip("pqrs", vs) if v != "no"] for vs in itertools.product(("no", None, "a"), ("no", None, 1), ("no", True, None), ("no", "b"))
    )],
]  # fmt: skip

# ------------------------------------------------------------------ nesting
INNER = [
    ("cmp", "==", CUR, lit("a")), ("cmp", "==", CUR, lit(0)), ("cmp", "!=", CUR, root("k")), ("in", CUR, head("_", "n")),
    head("_", "x"), ("cmp", "==", at(), head("_", "x")), ("cmp", "==", at("a"), head("_", "x")), head("_", "zz"),
    ("in", at(), head("_", "n")), ("has", at(), root("k")), ("in", root("k"), at()), ("in", lit("a"), at()), ("has", at("a"), lit(1)),
    ("in", at("k"), ("list", (lit(1), lit("s"), lit(True)))), ("re", at("k"), "S", "i"), ("re", CUR, "[a-k]", ""),
    ("cmp", "==", at("b"), UNDEF), ("cmp", "!=", at("a"), UNDEF), ("cmp", "!=", UNDEF, root("k")),
    q_at(c(K)), ("cmp", "==", ("fn", "count", (q_at(c(K)),)), root("n")), ("cmp", "==", ("fn", "value", (q_at(c(K)),)), lit("a")),
    head("^", 0, "k"), ("cmp", "==", head("^", 0, "k"), at("k")), q_at(c(("b", "a"), ("b", "b"))), ("cmp", "==", ("q", ("@", (c(("b", "k")),))), root("k")),
]  # fmt: skip
WRAPS = [
    lambda e: q_at(c(("f", e))), lambda e: ("not", q_at(c(("f", e)))), lambda e: q_at(d(("f", e))),
    lambda e: q_at(c(("b", "a")), c(("f", e))), lambda e: qh("^", c(("i", 0)), c(("f", e))),
    lambda e: qh("_", c(("n", "n")), c(("f", e))), lambda e: ("cmp", "==", ("fn", "count", (q_at(c(("f", e))),)), CUR),
    lambda e: ("or", ("cmp", "==", CUR, lit("k")), q_at(c(("f", e), K))),
    lambda e: ("and", ("cmp", "!=", ("fn", "value", (q_at(c(("f", e))),)), UNDEF), ("not", e)),
]  # fmt: skip

# segments with extension selectors, for queries without a root
SEGS = [
    c(("n", "a")), c(("b", "a")), c(("b", "b"), ("n", "a")), c(("i", 0)), c(("i", -1)), c(("s", 1, None, None)), c(("s", None, None, -1)), c(("w",)), c(K),
    d(("n", "a")), d(("w",)), d(K), d(("b", "a"), ("i", 0)), c(("f", at("a"))), c(("f", ("cmp", "==", CUR, lit("a")))), c(("i", 0), ("w",), K),
    d(("f", ("cmp", "==", at("a"), root("a")))),
]  # fmt: skip


def units(tier):
    full = tier == "thorough"
    n = 6 if full else 4
    out = []
    for i in range(len(KEY_FORMS)):
        for j in range(len(PRE)):
            out.append(("keys", i, j, n))
    for i in range(0, len(KEY_TESTS), 8):
        out.append(("keytests", i, i + 8))
    for i in range(len(FAKE_SEGS)):
        out.append(("fakesegs", i, n + 1 if n == 4 else n))
    for i in range(len(FAKE_FILTERS)):
        out.append(("fakefilters", i, n))
    for i in range(0, len(CUR_TESTS), 6):
        out.append(("current", i, i + 6, n))
    for i in range(0, len(CTX_TESTS), 12):
        for place in range(len(CTX_PLACES)):
            out.append(("context", i, i + 12, place))
    for form in ("rel", "list", "ctx", "root", "lit"):
        for i in range(0, len(c02.U), 8):
            out.append(("member", form, i, i + 8))
    for i in range(len(PATTERNS)):
        out.append(("regex", i))
    for i in range(len(UNDEF_OPERANDS)):
        out.append(("undef", i))
    for i in range(0, len(BARE), 3):
        out.append(("bare", i, i + 3))
    for name, k in (("3", 1), ("3", 2), ("3", 3)) + ((("4", 4),) if full else ()):
        total = {1: 2, 2: 16, 3: 256, 4: 5120}[k]
        for lo in range(0, total, 16):
            out.append(("logic", name, k, lo, lo + 16))
    for i in range(4):
        out.append(("literals", i))
    for depth in range(1, 5 if full else 4):
        for i in range(len(INNER)):
            for w in range(len(WRAPS)) if depth >= 3 else (None,):
                out.append(("nest", depth, i, w))
    for i in range(len(INNER)):
        out.append(("place", i, n, 2 if full else 1))
    for i in range(len(SEGS)):
        for j in range(len(SEGS)):
            out.append(("rootless", i, j, 3 if full else 2))
    for i in range(8):
        out.append(("aliascorpus", i, 8, full))
    out.append(("combined",))
    return out


def sub_aliases(template):
    """(standard, alias) texts by substitution of operators outside string and regex literals."""
    table = [("&&", " and "), ("||", " or "), ("!=", "<>"), ("<>", "!="), ("true", "True"), ("False", "false"), ("null", "none"), ("nil", "None"),
             ("undefined", "missing"), ("missing", "undefined"), ("None", "null"), ("nil", "Nil"), ("null", "Null")]  # fmt: skip
    for a, b in table:
        if a in template:
            yield template.replace(a, b)
    if "!" in template:
        yield "".join(
            "not " if ch == "!" and template[i + 1 : i + 2] != "=" else ch for i, ch in enumerate(template)
        )


def run(unit, ctx):
    kind = unit[0]
    if kind == "keys":
        _, i, j, n = unit
        documents = docs_upto(n) + BIG
        for post in POST:
            q = ("$", PRE[j] + (KEY_FORMS[i],) + post)
            ctx.state(q)
            run_one(ctx, q, documents, alias=99, contexts=("none",))
        ctx.sample(E.text_of(("$", PRE[j] + (KEY_FORMS[i],))))
    elif kind == "keytests":
        for e in KEY_TESTS[unit[1] : unit[2]]:
            for mk in (filt(e), filt(e, kind="d"), filt(q_at(c(("f", e))))):
                run_one(ctx, mk, BIG + docs_upto(3), alias=1, contexts=("none", "dict"))
    elif kind == "fakesegs":
        _, i, n = unit
        documents = docs_upto(n) + BIG + [0, None, True, 1.5]
        run_one(ctx, ("^", FAKE_SEGS[i]), documents, alias=99)
        run_one(ctx, ("^", FAKE_SEGS[i]), BIG[:3], budget=2)
        for e in (qh("^", *FAKE_SEGS[i]), ("not", qh("^", *FAKE_SEGS[i])), ("cmp", "==", ("fn", "count", (qh("^", *FAKE_SEGS[i]),)), lit(1)),
                  ("cmp", "==", ("fn", "value", (qh("^", *FAKE_SEGS[i]),)), at()), q_at(c(("f", ("and", at(), qh("^", *FAKE_SEGS[i])))))):  # fmt: skip
            run_one(ctx, filt(e), documents)
            run_one(ctx, filt(e, h="^"), documents)
    elif kind == "fakefilters":
        _, i, n = unit
        documents = docs_upto(n) + BIG + [0, None, True]
        e = FAKE_FILTERS[i]
        for q in (filt(e, h="^"), filt(e, h="^", kind="d"), filt(e, h="^", post=(c(("n", "a")),)), filt(e, h="^", post=(d(("f", e)),)), filt(e),
                  ("^", (c(("f", e), ("i", 0)),)), ("|", filt(e, h="^"), filt(e)), ("^", (c(("i", 0)), c(("f", e)))), filt(e, h="^", post=(c(K),))):  # fmt: skip
            ctx.state(q)
            run_one(ctx, q, documents, alias=1, contexts=("none", "dict") if "_" in repr(e) else ("none",))
        run_one(ctx, filt(e, h="^"), BIG[:4], budget=2)
    elif kind == "current":
        _, lo, hi, n = unit
        documents = docs_upto(n) + BIG
        for e in CUR_TESTS[lo:hi]:
            for q in (filt(e), filt(e, kind="d"), filt(e, pre=(c(("w",)),), post=(c(("w",)),)), ("$", (c(("f", e), ("n", "a"), K, ("f", e)),)),
                      filt(q_at(c(("f", e)))), filt(e, h="^"), filt(("not", e))):  # fmt: skip
                ctx.state(q)
                run_one(ctx, q, documents, alias=1, contexts=("dict",) if "'_'" in repr(e) else ("none",))
            run_one(ctx, filt(e), BIG[:3], budget=1, contexts=("dict",))
    elif kind == "context":
        _, lo, hi, place = unit
        for e in CTX_TESTS[lo:hi]:
            q = CTX_PLACES[place](e)
            ctx.state(q)
            run_one(ctx, q, BIG, contexts=list(CONTEXTS))
            if place in (0, 2, 10):
                run_one(ctx, q, BIG[:2], budget=1, contexts=("dict", "falsy"))
    elif kind == "member":
        member(ctx, *unit[1:])
    elif kind == "regex":
        regexes(ctx, PATTERNS[unit[1]])
    elif kind == "undef":
        undefined(ctx, UNDEF_OPERANDS[unit[1]])
    elif kind == "bare":
        for name in BARE[unit[1] : unit[2]]:
            doc = {name: {name: [1, {name: 2}], "z": 0}, "z": [{name: 3}, 4], "y": {"z": {name: 5}}}
            documents = [doc, [doc, {name: 0}], {"z": doc, "a": 1}]
            b, z = ("b", name), ("n", "z")
            shapes = [(c(b),), (c(b), c(b)), (d(b),), (c(b, z),), (c(z, b),), (c(z), c(("i", 0)), c(b)), (c(b, b),), (c(("w",)), c(b)), (d(b, ("i", 0)),),
                      (c(b), c(z)), (c(("n", name)),), (d(("n", name)),), (c(("w",)), c(K, b)), (c(b), c(("s", None, None, None)))]  # fmt: skip
            for segs in shapes:
                ctx.state((name, segs))
                run_one(ctx, ("$", segs), documents, alias=99, budget=2)
                run_one(ctx, ("", segs), documents, alias=99, budget=1)
                for e in (("q", ("@", segs)), ("q", ("$", segs)), ("cmp", "==", ("fn", "count", (("q", ("@", segs)),)), lit(1)), ("not", ("q", ("@", segs)))):
                    run_one(ctx, filt(e), documents, alias=2)
                if R.singular(("@", tuple((k, tuple(("n", x[1]) if x[0] == "b" else x for x in s)) for k, s in segs))):
                    for e in (("cmp", "==", ("q", ("@", segs)), lit(3)), ("cmp", "!=", ("q", ("$", segs)), ("q", ("@", segs))), ("in", lit("z"), ("q", ("@", segs)))):
                        run_one(ctx, filt(e), documents, alias=99)
            # a name is not a keyword just because it starts with one, next to operators too
            for e in (("and", ("q", ("@", (c(b),))), ("q", ("@", (c(z),)))), ("or", ("q", ("@", (c(b),))), ("not", ("q", ("@", (c(z),))))),
                      ("in", ("q", ("@", (c(b),))), ("list", (lit(3), lit(None)))), ("has", ("q", ("@", (c(b),))), lit(1))):  # fmt: skip
                run_one(ctx, filt(e), documents, alias=99)
    elif kind == "logic":
        _, name, k, lo, hi = unit
        leaves = (ATOMS3 if name == "3" else ATOMS4)[:k]
        for t in itertools.islice(c02.shapes(k), lo, hi):
            e = c02.subst(t, leaves)
            run_one(ctx, filt(e), LOGIC_DOCS, alias=99 if k < 3 else (2 if k == 3 else 1), budget=1 if k < 3 else 0)
    elif kind == "literals":
        literals(ctx, unit[1])
    elif kind == "nest":
        _, depth, i, w = unit

        def build(n, e):
            if n == 0:
                yield e
                return
            for wrap in WRAPS if (n < depth or w is None) else [WRAPS[w]]:
                for inner in build(n - 1, e):
                    yield wrap(inner)

        for e in build(depth, INNER[i]):
            has_ctx = "'_'" in repr(e)
            documents = c02.NEST_DOCS if depth < 4 else c02.NEST_DOCS[:4]
            contexts = ("dict", "none") if has_ctx and depth < 3 else (("dict",) if has_ctx else ("none",))
            run_one(ctx, filt(e), documents, contexts=contexts, alias=1 if depth < 3 else None)
            if depth < 3:
                run_one(ctx, filt(e, kind="d"), documents, contexts=contexts)
                run_one(ctx, filt(e, h="^"), documents, contexts=contexts)
    elif kind == "place":
        _, i, n, budget = unit
        e = INNER[i]
        documents = docs_upto(n + 1 if n < 6 else n)
        for x in documents:
            ctx.state(freeze(x))
        for pre, post, k in c02.PLACES:
            run_one(ctx, filt(e, pre, post, k), documents, contexts=("dict",))
        run_one(ctx, filt(e), c02.NEST_DOCS[:3], budget=budget, contexts=("dict",))
        for e2 in INNER[::3]:
            run_one(ctx, ("$", (c(("f", e), ("f", e2)),)), c02.NEST_DOCS, contexts=("dict",))
            run_one(ctx, filt(("and", e, ("not", e2))), c02.NEST_DOCS, contexts=("dict",), alias=1)
            run_one(ctx, filt(("or", e2, e)), c02.NEST_DOCS, contexts=("dict",), alias=1)
    elif kind == "rootless":
        _, i, j, depth = unit
        documents = docs_upto(3) + BIG
        tails = [()] + [(s,) for s in (SEGS if depth == 3 else SEGS[:2])]
        if j == 0:
            run_one(ctx, ("", (SEGS[i],)), docs_upto(4) + BIG, alias=99, budget=1)
            if i == 0:
                run_one(ctx, ("", ()), docs_upto(5) + BIG)
        for tail in tails:
            segs = (SEGS[i], SEGS[j]) + tail
            ctx.state(segs)
            run_one(ctx, ("", segs), documents, alias=2)
            run_one(ctx, ("|", ("", segs), ("$", segs)), BIG[:4])
    elif kind == "aliascorpus":
        alias_corpus(ctx, *unit[1:])
    elif kind == "combined":
        for e1, e2, e3 in itertools.product(INNER[::3], INNER[1::3], INNER[2::3]):
            run_one(ctx, filt(("or", ("and", e1, ("not", e2)), e3)), c02.NEST_DOCS[:5], contexts=("dict",), alias=1)
    else:
        raise AssertionError(unit)


def member(ctx, form, lo, hi):
    U = [x for x in c02.U]
    for a in U[lo:hi]:
        ctx.state((form, freeze(a) if a is not R.NOTHING else "nothing"))
        for op in ("in", "has"):
            if form == "rel":
                doc = [c02.obj(a, b) for b in U]
                run_one(ctx, filt((op, at("l"), at("r"))), [doc], alias=1)
                run_one(ctx, filt(("not", (op, at("l"), at("r")))), [doc])
                run_one(ctx, filt(("q", ("@", (c(("f", (op, at("l"), at("r")))),)))), [[[x] for x in doc]])
                run_one(ctx, filt((op, ("fn", "value", (at("l"),)), at("r"))), [doc])
                # wrapped, so that the operand is an element or a member
                for w in (lambda v: [v], lambda v: [0, [v]], lambda v: {"k": v}, lambda v: [{"k": v}]):
                    if a is not R.NOTHING:
                        run_one(ctx, filt((op, at("l"), at("r"))), [[c02.obj(w(a), b) for b in U] + [c02.obj(b, w(a)) for b in U]])
            elif form == "list":
                prims = [b for b in U if b is not R.NOTHING and c02.primitive(b)]
                cands = [x for x in U if x is not R.NOTHING]
                if a is R.NOTHING or not c02.primitive(a):
                    items = [("list", ()), ("list", tuple(lit(p) for p in prims))]
                else:
                    items = [("list", (lit(a),)), ("list", (lit("zz"), lit(a))), ("list", (lit(a), lit(a), lit(None)))]
                    items += [("list", (lit(b), lit(a))) for b in prims]
                for item in items:
                    e = (op, at(), item) if op == "in" else (op, item, at())
                    run_one(ctx, filt(e), [cands], alias=1 if len(item[1]) < 3 else None)
            elif form == "ctx":
                # the context holds the container
                doc = [c02.obj(a, b) for b in U]
                for q in CTX_OPERANDS:
                    run_one(ctx, filt((op, at("l"), q)), [[c02.obj(a, 0)]], contexts=("dict", "falsy"))
                    run_one(ctx, filt((op, q, at("l"))), [[c02.obj(a, 0)]], contexts=("dict", "ordered"))
            elif form == "root":
                doc = {"x": [c02.obj(R.NOTHING, b) for b in U]}
                if a is not R.NOTHING:
                    doc["k"] = a
                run_one(ctx, filt((op, root("k"), at("r")), pre=(c(("n", "x")),)), [doc])
                run_one(ctx, filt((op, at("r"), root("k")), pre=(c(("n", "x")),)), [doc])
                run_one(ctx, filt((op, head("^", 0, "k"), at("r")), pre=(c(("n", "x")),)), [doc])
            elif form == "lit":
                if a is R.NOTHING or not c02.primitive(a):
                    continue
                doc = [c02.obj(R.NOTHING, b) for b in U]
                run_one(ctx, filt((op, lit(a), at("r"))), [doc], alias=2)
                run_one(ctx, filt((op, at("r"), lit(a))), [doc], alias=2)
                for b in U:
                    if b is not R.NOTHING and c02.primitive(b):
                        run_one(ctx, filt((op, lit(a), lit(b))), [[1]])
    ctx.sample(f"{form} {lo}")


def regexes(ctx, p):
    cands = [{"s": s} for s in STRINGS] + [{"s": v} for v in (None, 1, True, [], ["a"], {}, {"a": 1}, p)] + [{}, [], "a", "ab", "A", p, 0]
    members = {s: {"s": s} for s in STRINGS}
    for flags in FLAGSETS:
        ctx.state((p, flags))
        for e in (("re", at("s"), p, flags), ("re", at(), p, flags)):
            run_one(ctx, filt(e), [cands])
        run_one(ctx, filt(("re", CUR, p, flags)), [members, cands])
        run_one(ctx, filt(("re", ("fn", "value", (q_at(d(("n", "s"))),)), p, flags)), [cands])
        run_one(ctx, filt(("not", ("re", at("s"), p, flags))), [cands], alias=1)
        run_one(ctx, filt(("q", ("@", (c(("f", ("re", at(), p, flags))),)))), [cands])
        for s in STRINGS:
            run_one(ctx, filt(("re", root("k"), p, flags), pre=(c(("n", "x")),)), [{"x": [1], "k": s}])
            if len(flags) < 2:
                run_one(ctx, filt(("re", lit(s), p, flags)), [[1]])
    for flags in itertools.chain(itertools.permutations("aims", 2), itertools.permutations("aims", 4), itertools.product("is", repeat=3)):
        run_one(ctx, filt(("re", at("s"), p, "".join(flags))), [cands])
    for post in ((), (c(("n", "s")),), (c(("f", ("re", at(), "a.*", "s"))),)):
        # what follows the literal
        for f in ("", "i"):
            run_one(ctx, filt(("re", at("s"), p, f), post=post), [cands], budget=1)
            run_one(ctx, filt(("and", ("re", at("s"), p, f), ("re", at("s"), "a.*", "is"))), [cands], alias=1)
            run_one(ctx, ("$", (c(("f", ("re", at("s"), p, f)), ("i", 0)),)), [cands])
            run_one(ctx, ("|", filt(("re", at("s"), p, f)), filt(("re", at(), p, f))), [cands])


def undefined(ctx, o):
    cands = [b for b in c02.U if b is not R.NOTHING]
    cands += [{"a": v} for v in cands] + [[v] for v in cands] + [{"a": {"b": 0}}, {"a": [0]}, {"x": 1}, {"k": {"a": 1}}]
    documents = [cands, {f"m{i}": v for i, v in enumerate(cands)}, {"a": {"a": None}, "b": []}, [[], [{}]], {"a": [None, [None]]}]
    contexts = ("none", "dict", "falsy") if "'_'" in repr(o) else ("none",)
    for op in c02.OPS:
        for e in (("cmp", op, o, UNDEF), ("cmp", op, UNDEF, o)):
            for q in (filt(e), filt(e, kind="d"), filt(("not", e)), filt(q_at(c(("f", e)))), filt(("and", e, at("a"))), filt(("or", at("zz"), e)),
                      ("$", (c(("f", e), ("i", 0)),)), filt(e, h="^")):  # fmt: skip
                ctx.state(q)
                run_one(ctx, q, documents, alias=99, contexts=contexts)
    for op in ("in", "has"):
        for e in ((op, o, UNDEF), (op, UNDEF, o)):
            if o[0] != "lit" and o != UNDEF:
                run_one(ctx, filt(e), documents, contexts=contexts, alias=1)
    # the (negated) existence test itself, implementation against implementation
    if o[0] == "q":
        text = R.default_text(E.render_comparand(o))
        for word, side in itertools.product(("undefined", "missing"), (0, 1)):
            for op, neg in (("==", True), ("!=", False), ("<>", False)):
                left, right = (text, word) if side == 0 else (word, text)
                one = jsonpath.compile(f"$[?{left} {op} {right}]")
                two = jsonpath.compile(f"$[?{'!' if neg else ''}{text}]")
                for doc in documents:
                    for cname in contexts:
                        ctx.case((text, op, word, cname))
                        kw = {} if cname == "none" else {"filter_context": CONTEXTS[cname]}
                        a, b = one.findall(doc, **kw), two.findall(doc, **kw)
                        if not same_values(a, b):
                            ctx.fail(
                                f"{left} {op} {right} on {json.dumps(doc)}",
                                f"$[?{left} {op} {right}] gives {a!r} but the existence test {b!r} on {doc!r}",
                                SCRIPT.format(q=f"$[?{left} {op} {right}]", doc=doc, ctx=PLAINS[cname], want=b),
                            )


def literals(ctx, part):
    cands = [b for b in c02.U if b is not R.NOTHING]
    docs = [cands, {f"m{i}": v for i, v in enumerate(cands)}]
    rel = [[{"a": v} for v in cands]]
    for v in (None, True, False):
        if part == 0:
            for op in c02.OPS:
                for e in (("cmp", op, at(), lit(v)), ("cmp", op, lit(v), at()), ("not", ("cmp", op, at(), lit(v)))):
                    run_one(ctx, filt(e), docs, alias=99, budget=1)
                    run_one(ctx, filt(e, kind="d"), docs, alias=99)
                for e in (("cmp", op, at("a"), lit(v)), ("cmp", op, root(0), lit(v)), ("cmp", op, CUR, lit(v)), ("cmp", op, head("_", "b"), lit(v))):
                    run_one(ctx, filt(e), rel + docs, alias=99, contexts=("dict",))
        elif part == 1:
            for w in (None, True, False, 0, 1, "null", "true", "None"):
                for op in c02.OPS:
                    run_one(ctx, filt(("cmp", op, lit(v), lit(w))), [[0]], alias=99)
                for op in ("in", "has"):
                    items = ("list", (lit(v), lit(w)))
                    run_one(ctx, filt((op, at(), items) if op == "in" else (op, items, at())), docs, alias=99)
                    one = ("list", (lit(w),))
                    run_one(ctx, filt((op, lit(v), one) if op == "in" else (op, one, lit(v))), [[0]], alias=99)
        elif part == 2:
            for fn in ("match", "search"):
                run_one(ctx, filt(("fn", fn, (lit(v), lit("a")))), [[0]], alias=99)
                run_one(ctx, filt(("fn", fn, (lit("a"), lit(v)))), [[0]], alias=99)
            for op in c02.OPS:
                run_one(ctx, filt(("cmp", op, ("fn", "length", (lit(v),)), lit(v))), [[0]], alias=99)
                run_one(ctx, filt(("cmp", op, ("fn", "length", (lit(v),)), UNDEF)), [[0]], alias=99)
        else:
            e = ("cmp", "==", at("a"), lit(v))
            for w in WRAPS:
                run_one(ctx, filt(w(e)), c02.NEST_DOCS + rel, alias=99, contexts=("dict",))
            for place in CTX_PLACES:
                run_one(ctx, place(e), c02.NEST_DOCS + rel, alias=99, contexts=("dict",))


def alias_corpus(ctx, i, n, full):
    """Implementation against implementation over filters the model does not cover."""
    documents = corpus.DOCS[:4] + WEIRD[1:2]
    exprs = corpus.filters("compare-full" if full else "compare") + corpus.filters("tests") + corpus.filters("logic")
    places = corpus.PLACES if full else corpus.FEW_PLACES
    for expr in exprs[i::n]:
        std = corpus.spell(expr)
        for alias in sub_aliases(std):
            for place in places:
                p = corpus.spell(place)
                outs = []
                for text in (p % std, p % alias):
                    ctx.cur = text
                    try:
                        path = jsonpath.compile(text)
                        outs.append([path.findall(x, filter_context=corpus.CONTEXT) for x in documents])
                    except Exception as err:  # noqa: BLE001
                        outs.append(type(err).__name__)
                ctx.case(p % alias)
                ctx.trans(len(documents))
                if outs[0] != outs[1] or repr(outs[0]) != repr(outs[1]):
                    ctx.fail(
                        f"alias {p % alias!r}",
                        f"{p % alias!r} differs from its standard spelling {p % std!r}: {outs[1]!r} vs {outs[0]!r}",
                        SCRIPT.format(q=p % alias, doc=documents, ctx=corpus.CONTEXT, want=f"as {p % std!r}"),
                    )
