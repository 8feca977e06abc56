"""C03: every match location (path, parts, pointer, parent) identifies exactly that node."""

from __future__ import annotations

import json
import re

import jsonpath
from jsonpath import JSONPointer

from checks import c01
from vlib import docs as D
from vlib import ptr as P
from vlib import rfc9535 as R
from vlib.util import freeze

PROP = "C03"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of query x document executions; every reported location re-evaluated and checked"
LEVEL_NOTE = (
    "For every execution within the bounds each match's path, parts, pointer and parent chain are compared with "
    "the location the reference evaluator gives that node and are fed back into the real library. Trusts "
    "vlib/rfc9535.py (locations, normalized paths) and vlib/ptr.py."
)
RULE = "a distinct (query skeleton, tuple of matched locations) pair whose every match was checked"
ASSUMPTIONS = [
    "a pointer string that contains a backslash is parsed again with unicode_escape=False, since the default "
    "escape decoding is documented to rewrite backslash escapes; every other pointer is parsed both ways",
    "member names are Unicode scalar strings (no lone surrogates)",
]
BOUNDS = {
    "quick": "docs<=4 nodes x all 2-segment queries over 36 segments; slice cube to length 6; member names <=2 "
    "over 55 characters and look-alike words, at depth 1-2, under objects and arrays; compound and filter queries",
    "thorough": "docs<=5 nodes x 2 segments, docs<=4 x 3 segments over 14; slice cube to 9; names <=3",
}

NAMES = [
    "", " ", "  a", "a ", "0", "1", "2", "10", "-1", "-0", "00", "01", "+1", "1.0", "1e0", "1_0", "_1", " 1", "1 ",
    "\t1", "-", "--", "~", "~0", "~1", "~01", "~10", "~~", "/", "//", "a/b", "~/", "/~1", "#", "#a", "#0", "#1", "~a",
    "'", '"', "''", "'\"", "\\", "\\\\", "\\'", "\\\"", "a\\", "\\a", "\\n", "\\u0041", "\\/", "\\x41", "\\N{DASH}",
    "$", "@", "*", "..", ".", "[", "]", "['a']", "$.a", "%2F", "%", "\x00", "\x1f", "\x7f", "\x80", "\x85", "\u00a0",
    "\b\f\n\r\t", "\u00e9", "e\u0301", "\u00ff", "\u0100", "\u0661", "\uff11", "\u00b9", "\u2028", "\u3000", "\u3000a",
    "\ufeff", "\ufeffa", "\uffff", "\ud7ff\ue000", "\U0001f600", "\U0010ffff", "\U00010000x", "\u00e9\\", "true", "null", "None",
    "9" * 16, "1" + "0" * 40, "9007199254740991", "9007199254740992", "-9007199254740991", "-9007199254740992", "9" * 5000, "length", "keys", "a", "b", "A",
]  # fmt: skip
BEYOND = ["9007199254740992", "-9007199254740992", "9" * 16, "-1" + "0" * 40]


def beyond(name):
    """A member name spelled like an integer that no array index can be (documented limit 2**53 - 1)."""
    if not isinstance(name, str) or len(name) > 4000:
        return False
    return re.fullmatch("-?[1-9][0-9]*", name) is not None and abs(int(name)) > 2**53 - 1


class Checker:
    """Feeds the locations found in one document back into the library, once per distinct path."""

    def __init__(self, ctx, doc):
        self.ctx, self.doc = ctx, doc
        self.paths = {}

    def bad(self, text, what):
        self.ctx.fail(
            f"{text!r} on {json.dumps(self.doc)}: {what}",
            f"{what} -- {text!r} on {self.doc!r}",
            "import jsonpath\nfrom vlib import ptr\n"
            f"doc = {self.doc!r}\n"
            f"for m in jsonpath.finditer({text!r}, doc):\n"
            "    print(repr(m.path), m.parts, repr(m.obj))\n"
            "    for what, f in [('path finds', lambda: jsonpath.findall(m.path, doc)),\n"
            "                    ('pointer', lambda: str(m.pointer())), ('resolves', lambda: m.pointer().resolve(doc)),\n"
            "                    ('reparsed', lambda: jsonpath.JSONPointer(str(m.pointer())).resolve(doc))]:\n"
            "        try: print('  ', what, repr(f()))\n"
            "        except Exception as e: print('  ', what, type(e).__name__, e)\n"
            f"print({what!r})",
        )

    def match(self, text, m, loc=None):
        """Check one match; `loc` is the model's location when there is a model for the query."""
        doc, obj = self.doc, m.obj
        parts = m.parts
        if not isinstance(parts, tuple) or any(type(p) not in (str, int) for p in parts):
            return self.bad(text, f"parts {parts!r}")
        if loc is not None and (parts != loc or any(type(a) is not type(b) for a, b in zip(parts, loc))):
            return self.bad(text, f"parts {parts!r}, but the node is at {loc!r}")
        try:
            here = D.at(doc, parts)
        except (LookupError, TypeError):
            return self.bad(text, f"parts {parts!r} lead nowhere")
        if any(isinstance(p, int) and p < 0 for p in parts) or here is not obj:
            return self.bad(text, f"parts {parts!r} do not lead to the matched object")
        if m.path != R.normalized_path(parts):
            return self.bad(text, f"path {m.path!r}, but the normalized path of {parts!r} is {R.normalized_path(parts)!r}")
        if m.value is not obj:
            return self.bad(text, "value is not obj")
        # parent chain
        up, n = m, len(parts)
        while n:
            parent = up.parent
            if parent is None:
                return self.bad(text, f"match at {up.parts!r} has no parent")
            n -= 1
            if parent.parts != parts[:n] or parent.path != R.normalized_path(parts[:n]):
                return self.bad(text, f"parent of {up.parts!r} is {parent.parts!r} {parent.path!r}")
            if parent.obj is not D.at(doc, parts[:n]):
                return self.bad(text, f"parent of {up.parts!r} holds another object")
            up = parent
        if up.parent is not None or up.obj is not doc:
            return self.bad(text, "the chain of parents does not end in the root match")
        # what depends on the location alone is asked of the library once per location
        if self.paths.get(parts) == str(m.pointer()):
            return None
        return self.location(text, m, parts, obj)

    def location(self, text, m, parts, obj):
        doc = self.doc
        self.ctx.trans(1)
        try:
            back = jsonpath.compile(m.path).findall(doc)
        except Exception as err:  # noqa: BLE001
            return self.bad(text, f"path {m.path!r} raises {type(err).__name__}: {err}")
        if len(back) != 1 or back[0] is not obj:
            return self.bad(text, f"path {m.path!r} finds {back!r}")
        want = P.encode(parts)
        pointer = m.pointer()
        s = str(pointer)
        if s != want:
            return self.bad(text, f"pointer {s!r}, expected {want!r}")
        ways = [
            ("pointer()", lambda: pointer),
            ("from_parts", lambda: JSONPointer.from_parts(parts, unicode_escape=False)),
        ]
        # the text of a pointer through a member that looks like an integer beyond the index limit: unit "beyond"
        if not any(beyond(p) for p in parts):
            ways.append(("re-parsed with unicode_escape=False", lambda: JSONPointer(s, unicode_escape=False)))
            if "\\" not in s:
                ways.append(("re-parsed", lambda: JSONPointer(s)))
        for how, make in ways:
            try:
                got = make().resolve(doc)
            except Exception as err:  # noqa: BLE001
                self.bad(text, f"pointer {s!r} {how} raises {type(err).__name__}: {err}")
                continue
            if got is not obj:
                self.bad(text, f"pointer {s!r} {how} resolves to {got!r}")
        self.paths[parts] = s
        return None

    def query(self, text, q=None):
        ctx, doc = self.ctx, self.doc
        ctx.case((text, doc))
        try:
            path = jsonpath.compile(text)
            matches = list(path.finditer(doc))
        except Exception as err:  # noqa: BLE001
            return self.bad(text, f"raises {type(err).__name__}: {err}")
        if q is not None:
            nodes, steps = R.nodelist(q, doc)
            ctx.trans(steps)
            locs = [loc for loc, _ in nodes]
            if len(locs) != len(matches):
                return self.bad(text, f"{len(matches)} matches, expected {len(locs)}")
        else:
            locs = [None] * len(matches)
        for m, loc in zip(matches, locs):
            self.match(text, m, loc)
        ctx.outcome((skel(q) if q else text, tuple(m.parts for m in matches)))
        # equal paths <=> same node
        by_path = {}
        for m in matches:
            if by_path.setdefault(m.path, m.parts) != m.parts:
                self.bad(text, f"path {m.path!r} denotes both {by_path[m.path]!r} and {m.parts!r}")
        if len({m.parts for m in matches}) != len(by_path):
            self.bad(text, "two paths for one node")
        return matches

    def views(self, text):
        """The same locations through the list and iterator interfaces."""
        doc = self.doc
        want = [m.path for m in jsonpath.finditer(text, doc)]
        pw = [str(m.pointer()) for m in jsonpath.finditer(text, doc)]
        views = {
            "Query.locations": lambda: list(jsonpath.query(text, doc).locations()),
            "Query.items": lambda: [p for p, _ in jsonpath.query(text, doc).items()],
            "Query.pointers": lambda: [str(p) for p in jsonpath.query(text, doc).pointers()],
            "NodeList.paths": lambda: jsonpath.NodeList(jsonpath.finditer(text, doc)).paths(),
            "match": lambda: [jsonpath.match(text, doc).path] if want else [],
        }
        for name, f in views.items():
            self.ctx.case((text, doc, name))
            got = f()
            exp = pw if name == "Query.pointers" else want[:1] if name == "match" else want
            if got != exp:
                self.bad(text, f"{name} gives {got!r}, expected {exp!r}")


def skel(q):
    return tuple((k, tuple(s[0] for s in sels)) for k, sels in q[1])


def fresh(doc):
    """Distinct objects for distinct nodes (as far as Python lets leaves be distinct)."""
    n = [0]

    def go(v):
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        if isinstance(v, list):
            return [go(x) for x in v]
        n[0] += 1
        if n[0] % 5 == 0:
            return [True, False, None][n[0] // 5 % 3]
        if n[0] % 2:
            return float(n[0]) + 0.25
        return f"leaf {n[0]}"

    return go(doc)


def uni(n):
    return [fresh(d) for d in c01.doc_set(f"n<={n}")]


TEXTS = [
    "$", "$ | $", "$..*", "$..[*]", "$.* | $..*", "$..* & $.*", "$.a | $.b", "$..a & $..*", "$.* & $.* & $.a",
    "$.a | $..b | $[0]", "$[?@]", "$..[?@.a]", "$..[?@.a == 1 || @[0]]", "$..[?#]", "$..[?# == 'a']", "$..[?(# == 0)]",
    "$..[?@ =~ /.*/]", "$[?@.a in ['x', 0]]", "$..[?not @.b]", "$..[?@ <> 1]", "$..[?count(@.*) > 0]", "$..[?@..*]",
    "$..[?@.a == undefined]", "$..[?_.x]", "a", "*", "..*", "a.b", "[0]", "['a']", "$['a', \"b\", 0, *, ::-1]",
    "$..['a', 0, -1]", "$..[-1]", "$..[::-1]", "$..[-1:-3:-1]", "$[a, b]", "$..[a, *]", "$..[?$.a]", "$[-1] | $[0]",
    "$..[?length(@) > 0]", "$.a..*", "$.*.*", "$.*[-1].*", "$..*..*", "$[?@[?@[0]]]", "$..[?@.a && !@.b, 'a']",
    "$[?is(@, 'x')]", "$..[?isinstance(@, 'number')]", "$..[?typeof(@) == 'object']",
]  # fmt: skip


def units(tier):
    full = tier == "thorough"
    out = []
    for i in range(len(c01.SEGS_FULL)):
        out.append(("two", 5 if full else 4, i))
    if full:
        for i in range(len(c01.SEGS_14)):
            for j in range(len(c01.SEGS_14)):
                out.append(("three", 4, i, j))
    else:
        for i in range(len(c01.SEGS_14)):
            out.append(("three", 3, i, None))
    for n in range(10 if full else 7):
        out.append(("slices", n))
    for i in range(0, len(TEXTS), 4):
        out.append(("texts", i, 5 if full else 4))
    out.append(("scale",))
    out.append(("beyond",))
    for i in range(0, len(NAMES), 8):
        out.append(("words", i))
    chars = name_chars()
    for i in range(len(chars)):
        out.append(("names", i, 3 if full else 2))
    return out


def name_chars():
    return c01.NAME_CHARS + ["1", "+", "\uff11", "\u0661", "\u00b2", "n", "x", "u", "N"]


def hostile(ctx, names):
    """One document holding every name at several depths, and the queries that reach each of them."""
    doc = {}
    for n in names:
        doc[n] = [{n: n + "!", "x" + n: [0.5, n + "?"]}, n + "."]
    # every name as sibling of every other, one and two levels down, and below an array
    docs = [doc, {"k": {n: n + "=" for n in names}}, [{n: [n + "#"]} for n in names]]
    for d in docs:
        ctx.state(freeze(d))
        ck = Checker(ctx, d)
        ck.query("$..*", ("$", (("d", (("w",),)),)))
        ck.query("$.*.*", ("$", (("c", (("w",),)), ("c", (("w",),)))))
        ck.query("$[?@]", ("$", (("c", (("f", ("q", ("@", ()))),)),)))
        ck.views("$..*")
        for n in names:
            q1 = ("$", (("c", (("n", n),)),))
            q2 = ("$", (("d", (("n", n),)),))
            for q in (q1, q2):
                ck.query(R.text_of(q), q)


def run(unit, ctx):
    kind = unit[0]
    if kind in ("two", "three"):
        docs = uni(unit[1])
        if kind == "two":
            a = c01.SEGS_FULL[unit[2]]
            qs = [("$", (a, b)) for b in c01.SEGS_FULL] + [("$", (a,))]
        else:
            segs = c01.SEGS_14
            js = range(len(segs)) if unit[3] is None else [unit[3]]
            qs = [("$", (segs[unit[2]], segs[j], c)) for j in js for c in segs]
        texts = [(R.text_of(q), q) for q in qs]
        for d in docs:
            ctx.state(freeze(d))
            ck = Checker(ctx, d)
            for t, q in texts:
                ck.query(t, q)
        ctx.sample({"query": texts[0][0], "document": docs[-1]})
    elif kind == "slices":
        n = unit[1]
        doc = fresh([0] * n)
        r = [None] + list(range(-n - 1, n + 2))
        for d, pre in ((doc, ()), ({"x": doc}, (("c", (("n", "x"),)),)), ([doc, doc], (("c", (("w",),)),))):
            ck = Checker(ctx, d)
            for a in r:
                for i in ("c", "d"):
                    if a is not None:
                        q = ("$", pre + ((i, (("i", a),)),))
                        ck.query(R.text_of(q), q)
                for b in r:
                    for c in [None] + list(range(-n - 1, n + 2)):
                        q = ("$", pre + (("c", (("s", a, b, c),)),))
                        ck.query(R.text_of(q), q)
    elif kind == "texts":
        for d in uni(unit[2]):
            ck = Checker(ctx, d)
            for t in TEXTS[unit[1] : unit[1] + 4]:
                ck.query(t)
                ck.views(t)
    elif kind == "scale":
        docs = [D.long_array(12), D.long_array(120), D.long_object(120)] + [D.deep(n, k) for n in (9, 33) for k in "aom"]
        docs += [{"a": [D.long_array(11)], "0": {"1": [0, {"-1": "x"}]}}]
        docs = [fresh(d) for d in docs]
        shared = {"a": [1.25, "s"], "b": "t"}
        docs += [[shared, shared], {"a": shared, "b": [shared, {"a": shared}]}, [[], [], {}, {}, [[]], ""]]
        for d in docs:
            ck = Checker(ctx, d)
            for a in c01.SEGS_FULL:
                q = ("$", (a,))
                ck.query(R.text_of(q), q)
                q = ("$", (("d", (("w",),)), a))
                ck.query(R.text_of(q), q)
            ck.views("$..*")
    elif kind == "beyond":
        for n in BEYOND:
            doc = {n: [0.5]}
            for how, kw in (("default", {}), ("unicode_escape=False", {"unicode_escape": False})):
                for m in jsonpath.finditer("$..*", doc):
                    ctx.case((n, how, m.path))
                    s = str(m.pointer())
                    try:
                        got = JSONPointer(s, **kw).resolve(doc)
                    except Exception as err:  # noqa: BLE001
                        got = err
                    if got is not m.obj:
                        ctx.fail(
                            f"re-parse {s!r} {how}",
                            f"pointer {s!r} of the match {m.path!r} in {doc!r} parsed again ({how}) gives {got!r}",
                            f"import jsonpath\nprint(jsonpath.JSONPointer({s!r}, **{kw!r}).resolve({doc!r}))",
                        )
    elif kind == "words":
        ns = NAMES[unit[1] : unit[1] + 8]
        hostile(ctx, ns)
        for n in ns:
            hostile(ctx, [n, n + "0", "0" + n, n + n])
    elif kind == "names":
        chars = name_chars()
        c = chars[unit[1]]
        hostile(ctx, list(dict.fromkeys([c] + [c + d for d in chars] + [c * 3, "a" + c + "a"])))
        if unit[2] > 2:
            for d in chars:
                hostile(ctx, list(dict.fromkeys(c + d + e for e in chars)))
    else:
        raise AssertionError(unit)
