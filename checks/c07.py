"""C07: the compile-time gate, against an independent recogniser of the RFC's grammar and typing rules."""

from __future__ import annotations

import itertools
from collections.abc import Mapping
from collections.abc import Sequence

from jsonpath import JSONPathEnvironment
from jsonpath.exceptions import JSONPathError
from vlib import grammar as G
from vlib import rfc9535 as R
from vlib.util import freeze

PROP = "C07"
LEVEL = "model_checking"
TECHNIQUE = (
    "bounded exhaustive enumeration of token sequences, expression trees in every position, spellings and bounds; "
    "each compiled by the implementation and classified by an independent recogniser of RFC 9535's grammar and typing"
)
LEVEL_NOTE = (
    "accept/refuse decisions are compared on every enumerated text that the (relaxed) RFC grammar covers; texts outside "
    "it (library extensions, garbage) are not judged here"
)
RULE = (
    "a trace is one text classified by the reference recogniser and compiled by the implementation; outcomes are "
    "distinct by (class, reason or accepted shape)"
)
ASSUMPTIONS = [
    "type checks enabled (well_typed=True, the default)",
    "not judged: texts outside the RFC grammar relaxed by exactly the listed rules, names that are reserved words after "
    "'..', blank space inside the brackets of a singular query used as an operand (the RFC's grammar has none), '-0' and "
    "zero-padded slice bounds, lone surrogate escapes, leading and trailing blank space",
    "a rejected query is never evaluated: the one-step entry points are called with a document that records any access",
]
BOUNDS = {
    "quick": {
        "token sequences": "in $[?...]: length 4 over 30 tokens, 6 over 11; in $[...]/$..[...]: 5 over 14; after $: 5 over 13",
        "expressions": "atoms (9200 comparisons and calls) in 26 positions; pairs of 44 atoms under every connective; call arguments to arity 3 over 32",
        "spellings": "190 valid queries with up to 2 deviations",
        "bounds": "indices and slices at +-1 of the limits for 4 configurations in 12 positions",
        "texts": "every code point as a shorthand name character; number spellings to length 6 over 7 characters; escapes",
    },
    "thorough": {
        "token sequences": "length 5 over 30 tokens, 7 over 11, 6 over 14",
        "expressions": "as quick plus triples of 20 atoms",
        "spellings": "3 deviations",
        "texts": "number spellings to length 7",
    },
}

ENV = JSONPathEnvironment()


class Touched(Exception):
    pass


class Spy(Mapping, Sequence):
    """A document that must not be looked at."""

    def boom(self, *_a, **_k):
        raise Touched

    __getitem__ = __iter__ = __len__ = __contains__ = __eq__ = keys = items = values = get = boom
    __hash__ = None


SPY = Spy()

SCRIPT = """
import jsonpath
{pre}
query = {q!r}
try:
    print('compiled to', {env}.compile(query))
except Exception as e:
    print('refused with', type(e).__name__, e)
print('expected:', {want!r})
"""


def judge(ctx, text, env=ENV, lo=-G.MAXI, hi=G.MAXI, want=None, pre="", envtext="jsonpath"):
    ctx.case(text)
    ctx.trans()
    cls, info = G.classify(text, lo, hi)
    if cls == "unknown":
        ctx.bump("not judged")
        return cls
    if want is not None and want != cls:
        raise AssertionError(f"the two reference models disagree on {text!r}: {cls} {info}, not {want}")
    ctx.state(info)
    key = text if env is ENV else f"{text} {lo} {hi}"
    try:
        q = env.compile(text)
    except JSONPathError as e:
        if cls == "valid":
            ctx.fail(f"valid {key}", f"valid query {text!r} refused: {type(e).__name__}: {e}", SCRIPT.format(q=text, want="accepted", pre=pre, env=envtext))
        ctx.outcome((cls, info if cls == "bad" else "", type(e).__name__))
    except Exception as e:  # noqa: BLE001
        ctx.fail(f"{cls} {key}", f"{cls} query {text!r}: {type(e).__name__} escaped: {e}", SCRIPT.format(q=text, want=cls, pre=pre, env=envtext))
    else:
        if cls == "bad":
            ctx.fail(f"bad {key}", f"query {text!r} accepted as {str(q)!r}: {info}", SCRIPT.format(q=text, want="refused: " + info, pre=pre, env=envtext))
        ctx.outcome((cls, tuple(type(s).__name__ for s in getattr(q, "selectors", ()))))
    ctx.bump(cls)
    if cls == "bad" and ctx.extra["bad"] % 16 == 0:
        for name, fn in (("findall", env.findall), ("finditer", env.finditer), ("match", env.match), ("query", env.query)):
            try:
                fn(text, SPY)
            except JSONPathError:
                pass
            except Touched:
                ctx.fail(f"evaluated {name} {key}", f"{name}({text!r}) evaluated a query that must be refused: {info}", SCRIPT.format(q=text, want="refused: " + info, pre=pre, env=envtext))
            else:
                ctx.fail(f"{name} {key}", f"{name}({text!r}) accepted: {info}", SCRIPT.format(q=text, want="refused: " + info, pre=pre, env=envtext))
    return cls


def refused(ctx, text, why):
    """A text that has to be refused for a reason independent of the syntax around it."""
    ctx.case(text)
    ctx.trans()
    try:
        q = ENV.compile(text)
    except JSONPathError as e:
        ctx.outcome(("embedded", why, type(e).__name__))
        return
    except Exception as e:  # noqa: BLE001
        ctx.fail(f"bad {text}", f"bad query {text!r}: {type(e).__name__} escaped: {e}", SCRIPT.format(q=text, want="refused: " + why, pre="", env="jsonpath"))
        return
    ctx.fail(f"bad {text}", f"query {text!r} accepted as {str(q)!r}: {why}", SCRIPT.format(q=text, want="refused: " + why, pre="", env="jsonpath"))


# ---------------------------------------------------------------- token alphabets
FTOK = [
    "@", "$", "@.a", "@.*", "$..a", "@['a']", "@[0]", ".b", "[*]", "1", "-1.5e3", "'x'", "true", "null", "!", "(", ")", "&&", "||",
    "==", "<", ",", "length(", "count(", "match(", "value(", "zz(", "[?", "]", " ",
]  # fmt: skip
FTINY = ["@.a", "@.*", "1", "!", "(", ")", "&&", "==", "count(", "length(", ","]
BTOK = ["'a'", '"b"', "0", "-1", "01", "-0", "*", "?@.a", "1:2", "::-1", ":", ",", " ", str(2**53)]
QTOK = [".a", "..", ".", "*", "[0]", "['a']", "[*]", "..a", "..*", "a", " ", "[?@.a]", "_x"]

# ---------------------------------------------------------------- atoms
OPERANDS = [
    "1", "-0", "1.5", "1e3", "'x'", '"y"', "true", "false", "null",
    "@", "$", "@.a", "@['a']", "@[0]", "@[-1]", "$.a[1].b", '@["a"]["b"]', "@.*", "@..a", "@[0:1]", "@['a','b']", "@[?@.a]", "@[0, 0]", "$..*",
    "@[01]", "@[9007199254740992]", "@[0,]", "@[]",
    "length(@)", "length('abc')", "length(1)", "length(@.a.b)", "length(@.*)", "length(value(@.*))", "length(count(@))", "length(match(@,'a'))", "length(@.a == 1)", "length()", "length(@, @)",
    "count(@)", "count(@.*)", "count($..a)", "count(@[?@.a])", "count(1)", "count('a')", "count(true)", "count(length(@))", "count((@.a))", "count(!@.a)", "count()", "count(@,@)", "count(@[?length(@)])",
    "value(@)", "value(@..a)", "value(1)", "value(value(@))", "value()", "value(@.a == 1)",
    "match(@, 'a')", "match(@.a, $.b)", "match('a', value(@.*))", "match(@.*, 'a')", "match(@)", "match(@, 'a', 'b')", "match(@, match(@, 'a'))", "match(1, 2)",
    "search(@, 'a')", "search(@, @.*)", "search(@ == 1, 'a')", "search(!@, 'a')", "search(@, ('a'))",
    "zz(@)", "zz()", "Length(@)", "isinstance(@.*, 'str')", "isinstance(@, @.*)", "is(@, 'int')", "typeof(@)", "type(@..a)", "typeof(1)",
]  # fmt: skip
CMPS = ["==", "!=", "<", "<=", ">", ">="]
POSITIONS = [
    "$[?%s]", "$[? %s ]", "$.a[?%s]", "$..[?%s]", "$[0, ?%s]", "$[?%s, 'a']", "$[?@.x, ?%s, *]", "$[?(%s)]", "$[?!(%s)]", "$[?((%s))]",
    "$[?@.x && %s]", "$[?%s && @.x]", "$[?@.x || %s]", "$[?%s || @.x]", "$[?@.x == 1 && %s]", "$[?(@.x || %s) && @.y]", "$[?!(@.x && %s)]",
    "$[?@[?%s]]", "$[?!@[?%s]]", "$[?count(@[?%s]) > 1]", "$[?@.x == value($[?%s])]", "$[?@..[?@.y || %s].z]", "$[?@.x && (@.y || !(%s))]",
    "$[?@[?@[?%s]]]", "$[?@.a][?%s].b", "$[?length(value(@[?%s])) < 3]",
]  # fmt: skip
PAIR_ATOMS = [
    "@.a", "$..b", "@.*", "@[?@.c]", "@['a'][0]", "@.a == 1", "@.a < $.b", "1 == 2", "length(@) > 1", "count(@.*) == 2", "match(@.a, 'x')", "search(@, 'y')", "value(@..a) != null",
    "(@.a)", "!@.a", "!(@.a == 1)", "!match(@, 'x')", "(@.a || @.b)", "(@.a && @.b)", "isinstance(@, 'str')", "((@.a))", "!@[?@.a == 1]",
    "1", "'x'", "true", "null", "length(@)", "count(@.*)", "value(@.a)", "@.* == 1", "@..a < 2", "match(@, 'x') == true", "zz(@)", "count(1)", "length(@.*)",
    "match(@)", "@[01]", "@[0,]", "@[]", "@.a == @.*", "(1)", "(length(@))", "!count(@)", "!(true)",
]  # fmt: skip
CONN = ["%s && %s", "%s || %s", "(%s) && %s", "%s && !(%s)", "!(%s || %s)", "(%s && %s) || @.z", "@.z || %s && %s", "%s && %s && @.z", "%s || @.z || %s", "%s || (@.z && %s)"]
ARGS = [
    "@", "$", "@.a", "@.*", "$..a", "@[0]", "@[0:1]", "@[?@.a]", "@[?length(@)]", "1", "-1.5", "'a'", "true", "null", "@.a == 1", "@.a && @.b", "@.a || 'x' == @.b", "!@.a", "(@.a)", "(1)", "('a')",
    "length(@)", "length(@.*)", "count(@.*)", "match(@, 'a')", "value(@.*)", "zz(@)", "!match(@, 'a')", "length()", "@ == 1 && 1", "(length(@))", "typeof(@)",
]  # fmt: skip
FUNCS = ["length", "count", "value", "match", "search", "isinstance", "is", "typeof", "type", "zz", "lengthh", "coun"]
ARGPOS = ["$[?%s]", "$[?%s == 1]", "$[?'a' < %s]", "$[?!%s]", "$[?@.a && %s]", "$[?(%s > 1) || @.b]", "$[?length(%s) == 1]", "$[?count(@[?%s]) == 1]", "$[?match(%s, 'a')]"]

# an ill-typed expression is ill-typed wherever it stands: positions that need the library's own syntax, with the standard
# position that decides
EMBED = [
    ("$.a | $[?%s]", "$[?%s]"), ("$[?%s] | $.a", "$[?%s]"), ("$.a & $..[?%s]", "$[?%s]"), ("$.a | $.b & $[0, ?%s]", "$[?%s]"), ("^[?%s]", "$[?%s]"),
    ("[?%s]", "$[?%s]"), ("a[?%s].b", "$[?%s]"), ("..[?%s]", "$[?%s]"), ("$.~[?%s]", "$[?%s]"), ("$[~, ?%s]", "$[?%s]"), ("$.a.?%s", "$[?%s]"), ("$?%s", "$[?%s]"),
    ("$[?# == 'a' && %s]", "$[?@.x && %s]"), ("$[?%s or # > 1]", "$[?%s || @.x]"), ("$[?@.x and %s]", "$[?@.x && %s]"), ("$[?@.x or %s]", "$[?@.x || %s]"),
    ("$[?not %s]", "$[?!%s]"), ("$[?not (%s)]", "$[?!(%s)]"), ("$[?_.x[?%s]]", "$[?@.x[?%s]]"), ("$[?@.q in [1, 'a'] && %s]", "$[?@.x && %s]"),
    ("$[?%s && [1] contains @.a]", "$[?%s && @.x]"), ("$[?@.q =~ /x/ || %s]", "$[?@.x || %s]"), ("$[?@.x <> 1 && %s]", "$[?@.x && %s]"), ("$[?@.x == undefined || %s]", "$[?@.x || %s]"),
    ("$[?@.x == Nil && (%s)]", "$[?@.x && (%s)]"), ("$[?@.a in $[?%s]]", "$[?@[?%s]]"), ("$[?$[?%s] contains @.a]", "$[?@[?%s]]"), ("$[?count(_[?%s]) == 1]", "$[?count(@[?%s]) == 1]"),
    ("$[?keys(@[?%s])]", "$[?@[?%s]]"), ("$[?value(^[?%s]) == 1]", "$[?value($[?%s]) == 1]"), ("$[?@.~[?%s]]", "$[?@[?%s]]"),
]  # fmt: skip
# comma-terminated bracket lists of the library's own syntax
LISTS = ["1", "'a'", "1, 2", "'a', 1.5", "true", "null, 'b'", "-1,2,3"]
LISTPOS = ["$[?@.a in [%s]]", "$[?[%s] contains @.a]", "$[?@.x && @ in [%s]]", "$[?!(@.a in [%s])]", "$[?@[?@.b in [%s]]]", "$[?(@.a in [%s]) || @.b == 1]", "$.a | $[?@ in [%s]]", "$[?count(@[?@.a in [%s]]) > 1]"]
KEYLISTS = ["a", "~", "a, b", "~, *", "~, 'a'", "a, ?@.b", "#", "~'a'"]

# ---------------------------------------------------------------- spellings
N = lambda s: ("n", s)  # noqa: E731
AT = lambda *segs: ("q", ("@", tuple(segs)))  # noqa: E731
C = lambda *sels: ("c", tuple(sels))  # noqa: E731
DS = lambda *sels: ("d", tuple(sels))  # noqa: E731
L = lambda v: ("lit", v)  # noqa: E731
A = AT(C(N("a")))
B = ("q", ("$", (C(N("b")), C(("i", -1)))))
EXPRS = [
    A, B, ("q", ("@", ())), AT(DS(("w",))), AT(C(N("a"), N("b"))), AT(C(("f", A))), ("not", A), ("not", ("not", A)), ("and", A, B), ("or", A, B, A),
    ("or", ("and", A, B), A), ("and", ("or", A, B), A), ("not", ("and", A, B)), ("not", ("cmp", "==", A, L(1))), ("cmp", "==", A, L("it's")), ("cmp", "<=", L(-1.5), B),
    ("cmp", "!=", L(True), L(None)), ("cmp", ">", ("fn", "length", (A,)), L(0)), ("cmp", "==", ("fn", "count", (AT(C(("w",))),)), L(1)), ("fn", "match", (A, L("a.*"))), ("fn", "search", (("fn", "value", (A,)), L("b"))),
    ("not", ("fn", "match", (A, L("x")))), ("and", ("fn", "search", (A, L("é"))), ("not", ("cmp", "<", A, B))), ("or", A, ("and", B, ("not", ("or", A, B)))),
]  # fmt: skip
SELS = [N("a"), N(""), N("it's \"q\" \\ /\n"), N("\u263a\U0001f600"), ("i", 0), ("i", -12), ("s", 1, -2, 3), ("s", None, None, -1), ("s", None, 5, None), ("w",)]


def queries():
    out = [("$", ())]
    for s in SELS:
        out += [("$", (C(s),)), ("$", (DS(s),)), ("$", (C(s, N("b")), C(s)))]
    for a, b in itertools.product(SELS[:1] + SELS[4:7], repeat=2):
        out += [("$", (C(a, b),)), ("$", (C(a), DS(b))), ("$", (DS(b, a), C(a)))]
    for e in EXPRS:
        out += [("$", (C(("f", e)),)), ("$", (DS(("f", e)),)), ("$", (C(("i", 0), ("f", e), ("w",)),)), ("$", (C(("f", AT(C(("f", e))))),))]
    return out


# ---------------------------------------------------------------- bounds
CONFIGS = [(None, None), (-3, 3), (0, 0), (-(10**20), 10**20), (-1, 5)]


def limited(lo, hi):
    if lo is None:
        return ENV, -G.MAXI, G.MAXI, ""

    class Env(JSONPathEnvironment):
        min_int_index = lo
        max_int_index = hi

    return Env(), lo, hi, f"class E(jsonpath.JSONPathEnvironment): min_int_index={lo}; max_int_index={hi}"


IPOS = [
    "$[%s]", "$..[%s]", "$.a[%s].b", "$['a',%s]", "$[%s,*]", "$[?@[%s] == 1]", "$[?@[%s]]", "$[?!@.a[%s]]", "$[?count(@[%s, 0]) == 1]", "$[?length($[%s]) == 1]", "$[?@.a && $.b[0][%s] < 1]", "$[?@[?@[%s]]]",
]  # fmt: skip


def units(tier):
    deep = tier == "thorough"
    out = []
    for i in range(len(FTOK)):
        if deep:
            out += [("ftok", i, j, 5) for j in range(len(FTOK))]
        else:
            out.append(("ftok", i, None, 4))
    for i in range(len(FTINY)):
        for j in range(len(FTINY)):
            out.append(("ftiny", i, j, 7 if deep else 6))
    for i in range(len(BTOK)):
        out.append(("btok", i, 6 if deep else 5))
    for i in range(len(QTOK)):
        out.append(("qtok", i, 6 if deep else 5))
    for i in range(len(OPERANDS)):
        out.append(("cmp", i))
    for i in range(len(PAIR_ATOMS)):
        out.append(("pairs", i))
    for i in range(0, len(queries()), 2):
        out.append(("spell", i, 3 if deep else 2))
    for i in range(len(EMBED)):
        out.append(("embed", i))
    out.append(("lists",))
    for f in FUNCS:
        for n in (0, 1, 2):
            out.append(("args", f, n))
        if deep or f in ("match", "length"):
            out.append(("args", f, 3))
    for i in range(len(CONFIGS)):
        out.append(("limits", i))
    for lo in range(0, 0x110000, 0x4000):
        out.append(("chars", lo))
    out += [("escapes", q) for q in "'\""]
    for c in "-01.eE+":
        out.append(("numbers", c, 7 if deep else 6))
    if deep:
        for i in range(20):
            out.append(("triples", i))
    return out


def run(unit, ctx):
    kind = unit[0]
    if kind == "ftok":
        first = FTOK[unit[1]] + (FTOK[unit[2]] if unit[2] is not None else "")
        used = 1 if unit[2] is None else 2
        for n in range(0, unit[3] - used + 1):
            for w in itertools.product(FTOK, repeat=n):
                judge(ctx, f"$[?{first}{''.join(w)}]")
    elif kind == "ftiny":
        first = FTINY[unit[1]] + FTINY[unit[2]]
        for w in itertools.product(FTINY, repeat=unit[3] - 2):
            judge(ctx, f"$[?{first}{''.join(w)}]")
    elif kind == "btok":
        for n in range(0, unit[2]):
            for w in itertools.product(BTOK, repeat=n):
                s = BTOK[unit[1]] + "".join(w)
                judge(ctx, f"$[{s}]")
                if n < 3:
                    judge(ctx, f"$..[{s}]")
                    judge(ctx, f"$.a[?@[{s}]][1]")
                    judge(ctx, f"$[?@[{s}] == 1]")
                    judge(ctx, f"$[?@.a || count($[{s}]) == 1]")
    elif kind == "qtok":
        for n in range(0, unit[2]):
            for w in itertools.product(QTOK, repeat=n):
                s = QTOK[unit[1]] + "".join(w)
                judge(ctx, "$" + s)
                if n < 3:
                    judge(ctx, f"$[?@{s}]")
                    judge(ctx, f"$[?@{s} == 1]")
                    judge(ctx, f"$[?length(${s}) == 1]")
    elif kind == "cmp":
        a = OPERANDS[unit[1]]
        for p in POSITIONS:
            judge(ctx, p % a)
            judge(ctx, p % ("!" + a))
        for b in OPERANDS:
            for op in CMPS:
                judge(ctx, f"$[?{a}{op}{b}]")
            for p in POSITIONS:
                judge(ctx, p % f"{a} == {b}")
                judge(ctx, p % f"{a}< {b}")
    elif kind == "pairs":
        a = PAIR_ATOMS[unit[1]]
        for b in PAIR_ATOMS:
            for c in CONN:
                e = c % (a, b)
                for p in POSITIONS:
                    judge(ctx, p % e)
    elif kind == "embed":
        form, twin = EMBED[unit[1]]
        atoms = dict.fromkeys(PAIR_ATOMS + OPERANDS + [f"{a} {op} {b}" for a in OPERANDS for b in ("1", "@.a", "@.*", "count(@.*)", "match(@, 'a')") for op in ("==", "<")])
        atoms.update(dict.fromkeys(c % (a, b) for a in PAIR_ATOMS for b in ("@.a", "@.a == @.*", "1") for c in CONN))
        for a in atoms:
            cls, info = G.classify(twin % a)
            if cls == "bad":
                refused(ctx, form % a, f"{info} (as {twin % a!r})")
    elif kind == "lists":
        for i in LISTS:
            for p in LISTPOS:
                for end in (",", " ,", ", ", " , "):
                    refused(ctx, p % (i + end), "comma-terminated list")
        for i in KEYLISTS:
            for end in (",", " ,", ", ", " , "):
                for p in ("$[%s]", "$..[%s]", "$[?@[%s]]", "[%s]", "$.a | $[%s]"):
                    refused(ctx, p % (i + end), "comma-terminated list")
        for p in ("$[%s]", "$..[%s]", "[%s]", "^[%s]", "$.a | $[%s]", "$.a & a[%s]", "$[?_[%s]]", "$.~[%s]", "$[?count(_[%s]) == 1]"):
            for i in ("", " ", "\t", "\n"):
                refused(ctx, p % i, "empty list")
    elif kind == "triples":
        atoms = PAIR_ATOMS[:8] + PAIR_ATOMS[22:34]
        a = atoms[unit[1]]
        for b, c in itertools.product(atoms, repeat=2):
            for x, y in itertools.product(("&&", "||"), repeat=2):
                for e in (f"{a}{x}{b}{y}{c}", f"{a} {x} ({b} {y} {c})", f"!({a} {x} {b}) {y} !({c})", f"!(!({a} {x} {b}) {y} {c})"):
                    judge(ctx, f"$[?{e}]")
                    judge(ctx, f"$..[?@[?{e}]]")
    elif kind == "args":
        for args in itertools.product(ARGS if unit[2] < 3 else ARGS[::2], repeat=unit[2]):
            call = f"{unit[1]}({', '.join(args)})"
            for p in ARGPOS if unit[2] < 3 else ARGPOS[:3]:
                judge(ctx, p % call)
            judge(ctx, f"$[?{unit[1]}({','.join(args)},)]")
            judge(ctx, f"$[?{unit[1]}( {' , '.join(args)} )]")
    elif kind == "spell":
        for q in queries()[unit[1] : unit[1] + 2]:
            if not R.valid_query(q):
                raise AssertionError(q)
            for t in R.spellings(R.render_query(q), unit[2]):
                judge(ctx, t)
            # every spelling with one kind of blank everywhere
            for i in range(1, len(R.BLANKS)):
                judge(ctx, uniform(R.render_query(q), i))
    elif kind == "limits":
        env, lo, hi, pre = limited(*CONFIGS[unit[1]])
        vals = sorted({x for b in (lo, hi, 0, -(2**53) + 1, 2**53 - 1) for x in (b - 1, b, b + 1)} | {10**30, -(10**30), 7, -7})
        txt = [str(v) for v in vals] + ["01", "-01", "00", "-00", "007", "0" * 40 + "1", "9" * 5000, "-" + "9" * 5000]
        kw = {"env": env, "lo": lo, "hi": hi, "pre": pre, "envtext": "E()" if pre else "jsonpath"}
        for v in txt:
            for p in IPOS:
                judge(ctx, p % v, **kw)
        svals = [""] + [str(v) for v in vals]
        for p in IPOS:
            for a in svals:
                for b, c in (("", ""), ("1", ""), ("", "1"), ("1", "1")):
                    for s in (f"{a}:{b}:{c}", f"{b}:{a}:{c}", f"{b}:{c}:{a}"):
                        judge(ctx, p % s, **kw)
                judge(ctx, p % f"{a}:", **kw)
                judge(ctx, p % f":{a}", **kw)
        for a, b, c in itertools.product(svals, repeat=3):
            judge(ctx, f"$[{a}:{b}:{c}]", **kw)
    elif kind == "chars":
        for cp in range(unit[1], unit[1] + 0x4000):
            ch = chr(cp)
            judge(ctx, f"$.{ch}..a{ch}['{ch}']")
            if cp < 0x3000 or 0xD700 < cp < 0xE100 or 0xFE00 < cp < 0x10100:
                judge(ctx, f"$.{ch}")
                judge(ctx, f"$..a{ch}.a{ch}b")
                judge(ctx, f"$['{ch}'][\"{ch}\"]")
                judge(ctx, f"$..{ch}")
                judge(ctx, f"$[?@.{ch} == '{ch}']")
                judge(ctx, f"$[?@.a{ch}]")
                judge(ctx, f"$[?@.a{ch}== 1]")
    elif kind == "escapes":
        q = unit[1]
        for cp in range(0x180):
            for t in (f"\\{chr(cp)}", f"\\\\{chr(cp)}", f"a\\u00{chr(cp)}1", f"\\u00e{chr(cp)}", chr(cp)):
                for c in ("$[%s]", "$..[%s, 0]", "$[?@[%s] == %s]", "$[?match(@, %s)]"):
                    judge(ctx, c.replace("%s", q + t + q))
        hexes = ["0000", "001F", "0020", "d7ff", "D800", "d83d", "dBfF", "DC00", "de00", "dfff", "E000", "ffff", "00G0", "0"]
        for a, b in itertools.product(hexes, repeat=2):
            for t in (f"\\u{a}\\u{b}", f"\\u{a}", f"\\U{a}", f"\\u{a}x\\u{b}"):
                judge(ctx, f"$[{q}{t}{q}]")
    elif kind == "numbers":
        for n in range(0, unit[2]):
            for w in itertools.product("-01.eE+", repeat=n):
                s = unit[1] + "".join(w)
                judge(ctx, f"$[?@.a == {s}]")
                if n < 4:
                    judge(ctx, f"$[?{s} < @]")
                    judge(ctx, f"$[?{s}]")
                    judge(ctx, f"$[?length({s}) == 1]")
                    judge(ctx, f"$[?!({s} == 1) && @.b]")
    else:
        raise AssertionError(unit)
    ctx.state(freeze([str(x) for x in unit]))


def uniform(parts, n):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif p == R.S:
            out.append(p[n])
        elif isinstance(p, tuple):
            out.append(uniform([p[0]], n))
        else:
            out.append(uniform(p, n))
    return "".join(out)
