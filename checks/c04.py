"""C04: JSON Pointer resolution conforms to RFC 6901 for every document and pointer."""

from __future__ import annotations

import io
import itertools
import json
import re

import jsonpath
from jsonpath import JSONPointer
from jsonpath.exceptions import JSONPointerResolutionError
from jsonpath.pointer import UNDEFINED

from checks import c03
from vlib import docs as D
from vlib import ptr as P
from vlib.util import freeze, words

PROP = "C04"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of pointer x document resolutions against an RFC 6901 evaluator"
LEVEL_NOTE = (
    "Every pointer of the bounded universe (all locations, all one-token mutations and extensions, all short "
    "tokens) is resolved on the real code through every entry point and compared with vlib/ptr.py, which is "
    "trusted. Nothing is claimed beyond the bounds."
)
RULE = "a distinct (kind of target value, token class, result class) triple"
ASSUMPTIONS = [
    "a 'pointer resolution error' is jsonpath.exceptions.JSONPointerResolutionError",
    "negative indices into arrays, tokens starting with '#' or '~' that name no member, and integers beyond "
    "2**53-1 that name no member are the documented extensions and are not judged",
    "resolve_parent of a location whose last token does not exist gives (parent, UNDEFINED) or a resolution "
    "error, as documented, never a value",
]
BOUNDS = {
    "quick": "tokens <=3 over 17 characters x 14 target values; all node pairs of docs <=4 nodes; hostile names "
    "at depth 1-3; arrays to length 130 with every index to 140",
    "thorough": "tokens <=4; docs <=6 nodes; two-token pointers over tokens <=2",
}

ALPHA = ["0", "1", "2", "9", "-", "+", "_", " ", "~", "/", "#", "a", ".", "e", "\u0661", "\uff11", "\\"]
MUT = c03.NAMES + ["3", "9", "11", "12", "100", "n", "A", "\u0660", "\u0967", "\u00b2", "\u2460", "0x1", "0b1", "1e1",
                   "\n1", "1\n", "\u30001", "1\u00a0", "1\x00", "Infinity", "NaN", "1/", "0/0", "__len__", "__class__", "0 "]  # fmt: skip

TARGETS = [
    [],
    ["zero"],
    ["zero", "one", ["x"]],
    [f"i{i}" for i in range(12)],
    {},
    {"0": "s0", "1": "s1", "-1": "m", "a": "A", "": "empty", "-": "dash"},
    {"a": {"a": 1}, "~": "t", "/": "s", "#": "h", "01": "z", "+1": "p", " ": "b", "~1": "t1", "~0": "t0", "/a": 9},
    {"\u0661": "ar", "\uff11": "fw", "\\": "bs", "\\a": "ba", "1_0": "u", "1.0": "f", "1e1": "e", "-0": "n0", "1 ": 3},
    "",
    "abc",
    0,
    1.5,
    True,
    None,
]


def kind(v):
    return "array" if isinstance(v, list) else "object" if isinstance(v, dict) else type(v).__name__


def outside(doc, tokens):
    """The documented extensions, which the property does not judge."""
    v = doc
    for t in tokens:
        try:
            v = P.step(v, t)
        except P.PointerError:
            if t[:1] in ("#", "~"):
                return isinstance(v, (dict, list))
            if re.fullmatch("-?[1-9][0-9]*", t):
                if isinstance(v, list) and t[0] == "-":
                    return True
                return len(t) < 4000 and abs(int(t)) > 2**53 - 1
            return False
    return False


def tclass(t):
    if re.fullmatch("0|[1-9][0-9]*", t):
        return "index"
    if re.fullmatch("-[1-9][0-9]*", t):
        return "negative"
    if t[:1] in "#~-+ 0":
        return t[:1]
    return "ascii" if t.isascii() else "unicode"


def attempt(f):
    try:
        return f()
    except Exception as err:  # noqa: BLE001
        return err


def check(ctx, doc, tokens, arg=None, entry="all"):
    text = P.encode(tokens)
    try:
        want = P.resolve(tokens, doc)
        found = True
    except P.PointerError:
        want, found = None, False
    if not found and outside(doc, tokens):
        ctx.bump("outside the clause (documented extension)")
        return
    if any(c03.beyond(t) for t in tokens):
        return  # unit "beyond"
    data = doc if arg is None else arg
    parent_exists = True
    parent = None
    if tokens:
        try:
            parent = P.resolve(tokens[:-1], doc)
        except P.PointerError:
            parent_exists = False
    ctx.trans(len(tokens))
    ctx.outcome((kind(parent) if parent_exists else "?", tclass(tokens[-1]) if tokens else "", found, len(tokens)))
    modes = [False] if "\\" in text else [True, False]
    for esc in modes:
        kw = {"unicode_escape": esc}
        ctx.case((text, esc, doc))

        def bad(what, text=text, kw=kw, data=data):
            ctx.fail(
                f"{text!r} {kw} on {data!r}: {what.split(':')[0]}",
                f"{what} -- pointer {text!r} {kw} on {data!r}",
                "import jsonpath\nfrom jsonpath import JSONPointer\n"
                f"text, doc = {text!r}, {data!r}\np = JSONPointer(text, **{kw!r})\n"
                "for f in (lambda: p.resolve(doc), lambda: p.exists(doc), lambda: p.resolve_parent(doc), lambda: "
                f"p.resolve(doc, default='DEFAULT'), lambda: jsonpath.pointer.resolve(text, doc, **{kw!r})):\n"
                "    try: print(repr(f()))\n    except Exception as e: print(type(e).__name__, e)\n"
                f"print('RFC 6901:', {('value ' + repr(want)) if found else 'an error'!r})",
            )

        p = attempt(lambda: JSONPointer(text, **kw))
        if isinstance(p, Exception):
            bad(f"JSONPointer() raises {type(p).__name__}: {p}")
            continue
        default = object()
        calls = [
            ("resolve", lambda: p.resolve(data)),
            ("pointer.resolve", lambda: jsonpath.pointer.resolve(text, data, **kw)),
            ("resolve(default)", lambda: p.resolve(data, default=default)),
            ("pointer.resolve(default)", lambda: jsonpath.pointer.resolve(text, data, default=default, **kw)),
            ("pointer.resolve(parts)", lambda: jsonpath.pointer.resolve(list(tokens), data, **kw)),
            ("pointer.resolve(parts, default)", lambda: jsonpath.pointer.resolve(list(tokens), data, default=default, **kw)),
        ]  # fmt: skip
        for name, f in calls:
            got = attempt(f)
            if found:
                if got is not want and not (arg is not None and type(got) is type(want) and got == want):
                    bad(f"{name} gives {got!r} instead of {want!r}")
            elif "default" in name:
                if got is not default:
                    bad(f"{name} gives {got!r} instead of the default")
            elif not isinstance(got, JSONPointerResolutionError):
                bad(f"{name} gives {got!r} instead of a resolution error")
        got = attempt(lambda: p.exists(data))
        if got is not found:
            bad(f"exists gives {got!r}")
        if arg is not None:
            continue
        got = attempt(lambda: p.resolve_parent(data))
        if found:
            ok = isinstance(got, tuple) and len(got) == 2 and got[0] is parent and got[1] is want
        else:
            ok = isinstance(got, JSONPointerResolutionError)
            if parent_exists and isinstance(got, tuple):
                ok = len(got) == 2 and got[0] is parent and got[1] is UNDEFINED
                # documented: when the object does not exist but its parent does
            elif parent_exists and isinstance(parent, dict):
                ok = False
        if not ok:
            bad(f"resolve_parent gives {got!r}")


def every_node(ctx, doc, mutations, deep=False):
    """All locations of doc, every location extended by a token, and every location with one token replaced."""
    ctx.state(freeze(doc))
    for loc, _ in D.nodes(doc):
        toks = P.tokens_of(loc)
        check(ctx, doc, toks)
        for m in mutations:
            check(ctx, doc, toks + (m,))
            if deep:
                for i in range(len(toks)):
                    check(ctx, doc, toks[:i] + (m,) + toks[i + 1 :])


def text_entry(ctx, doc):
    """The document given as JSON text or as a file."""
    text = json.dumps(doc)
    for loc, _ in D.nodes(doc):
        toks = P.tokens_of(loc)
        for t in (toks, toks + ("0",), toks + ("a",), toks + ("-",)):
            check(ctx, doc, t, arg=text)
            try:
                want = P.resolve(t, doc)
            except P.PointerError:
                want = "DEFAULT"
                if outside(doc, t):
                    continue
            ctx.case((t, text))
            got = attempt(lambda t=t: JSONPointer(P.encode(t), unicode_escape=False).resolve(io.StringIO(text), default="DEFAULT"))
            if got != want or type(got) is not type(want):
                ctx.fail(f"file {t!r} {text}", f"{P.encode(t)!r} on a file holding {text}: {got!r}, expected {want!r}", None)


def named(names):
    return {n: [n + "!", {n: {n + "x": n + "?"}}] for n in names}


def units(tier):
    full = tier == "thorough"
    out = []
    for i in range(len(ALPHA)):
        out.append(("tokens", i, 4 if full else 3))
    out.append(("short",))
    n = 6 if full else 4
    count = len([0 for k in range(1, n + 1) for _ in D.shapes(k)])
    step = 40 if not full else 120
    for i in range(0, count, step):
        out.append(("trees", n, i, i + step))
    for i in range(0, len(c03.NAMES), 4):
        out.append(("names", i))
    chars = c03.name_chars()
    for i in range(len(chars)):
        out.append(("pairs", i))
    for i in range(len(TARGETS)):
        out.append(("two", i, full))
    for n in (0, 1, 2, 9, 10, 11, 12, 99, 100, 101, 130):
        out.append(("arrays", n))
    out.append(("deep",))
    out.append(("text",))
    out.append(("beyond",))
    return out


def run(unit, ctx):
    k = unit[0]
    if k == "tokens":
        first = ALPHA[unit[1]]
        for rest in words(ALPHA, unit[2] - 1):
            t = first + "".join(rest)
            for v in TARGETS:
                check(ctx, v, (t,))
            # the same token as the name of an existing member, beside look-alikes
            decoys = {x: "decoy " + x for x in (t + "0", "0" + t, t.strip(), t[1:], t.lstrip("+0"), t.replace("_", "")) if x != t}
            decoys[t] = ["hit"]
            check(ctx, decoys, (t,))
            check(ctx, decoys, (t, "0"))
            del decoys[t]
            check(ctx, decoys, (t,))
        ctx.sample({"token": first, "targets": len(TARGETS)})
    elif k == "short":
        for v in TARGETS:
            every_node(ctx, v, MUT + [""], deep=True)
    elif k == "trees":
        docs = [d for m in range(1, unit[1] + 1) for d in D.shapes(m)]
        for d in docs[unit[2] : unit[3]]:
            every_node(ctx, d, ["a", "b", "0", "1", "2", "-", "01", "+0", "00", "", "-1", "c", "1.0"], deep=True)
    elif k == "names":
        ns = c03.NAMES[unit[1] : unit[1] + 4]
        every_node(ctx, named(ns), MUT)
        every_node(ctx, [named(ns)], ns, deep=True)
        for n in ns:
            every_node(ctx, {n: {n: [0.5]}}, [n, n + " ", "0", n[:-1], n + n, "0" + n, n.upper()], deep=True)
    elif k == "pairs":
        chars = c03.name_chars()
        c = chars[unit[1]]
        ns = list(dict.fromkeys([c + d for d in chars] + [c]))
        doc = named(ns)
        every_node(ctx, doc, [c, c + c, "0"])
        for n in ns:
            small = {n: [n]}
            for m in ns:
                check(ctx, small, (m,))
                check(ctx, small, (m, "0"))
                check(ctx, small, (n, m))
    elif k == "two":
        inner = TARGETS[unit[1]]
        toks = ["".join(w) for w in words(ALPHA, 2 if unit[2] else 1)] + ["10", "11", "01"]
        for name, doc in (("0", [inner, inner]), ("a", {"a": inner, "0": [inner]}), ("", {"": inner})):
            for t in toks:
                check(ctx, doc, (name, t))
                check(ctx, doc, (t, name))
                for u in toks if len(t) < 2 else ["0", "a"]:
                    check(ctx, doc, (t, u))
                    if len(u) < 2:
                        check(ctx, doc, (name, t, u))
    elif k == "arrays":
        a = D.long_array(unit[1])
        docs = [a, {"k": a}, [a, a]]
        for d, pre in zip(docs, ((), ("k",), ("1",))):
            for i in range(unit[1] + 12):
                for t in (str(i), "0" + str(i), "+" + str(i), " " + str(i), str(i) + " ", str(i) + ".0", f"{i}e0", f"{i}_0"):
                    check(ctx, d, pre + (t,))
            for t in (2**31, 2**31 - 1, 2**32, 2**53 - 1, 10**12, 1000):
                check(ctx, d, pre + (str(t),))
    elif k == "deep":
        for n in (5, 17, 60, 200):
            for kind_ in "aom":
                every_node(ctx, D.deep(n, kind_), ["a", "0", "1", "-"])
    elif k == "text":
        for d in TARGETS:
            text_entry(ctx, d)
            text_entry(ctx, {"k": d, "l": [d]})
    elif k == "beyond":
        for n in c03.BEYOND:
            doc = {n: ["hit"]}
            for how, kw in (("default", {}), ("unicode_escape=False", {"unicode_escape": False})):
                for t in ((n,), (n, "0")):
                    s = P.encode(t)
                    ctx.case((n, how))
                    got = attempt(lambda s=s, kw=kw: JSONPointer(s, **kw).resolve(doc))
                    want = P.resolve(t, doc)
                    if got is not want:
                        ctx.fail(f"{s!r} {how}", f"{s!r} ({how}) on {doc!r}: {got!r}, expected {want!r}",
                                 f"import jsonpath\nprint(jsonpath.JSONPointer({s!r}, **{kw!r}).resolve({doc!r}))")  # fmt: skip
    else:
        raise AssertionError(unit)
