"""C06: every call ends, with a result or with an error of the documented family."""

from __future__ import annotations

import copy
import itertools
import json
import sys

import jsonpath
from jsonpath import JSONPatch
from jsonpath import JSONPathEnvironment
from jsonpath import JSONPointer
from jsonpath import RelativeJSONPointer
from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPathError
from jsonpath.exceptions import JSONPointerError
from jsonpath.exceptions import JSONPointerResolutionError
from jsonpath.exceptions import RelativeJSONPointerError
from vlib import docs as D
from vlib.util import freeze

PROP = "C06"
LEVEL = "model_checking"
TECHNIQUE = (
    "bounded exhaustive exploration of the real implementation: every token sequence and character string up to a "
    "length, every single edit of a corpus, every operator and function on every tuple of operand types, every "
    "malformed operation and operation pair; each execution monitored for its exception family and for termination"
)
LEVEL_NOTE = (
    "all inputs within the stated bounds are executed; longer arbitrary texts are covered only through single edits "
    "of valid queries, repetition (1000 fold) and nesting (100 levels)"
)
RULE = (
    "an execution is one compile / evaluate / parse / resolve / build / apply call sequence for one input; it is "
    "distinct by (kind of call, error class or result shape)"
)
ASSUMPTIONS = [
    "a query, pointer or patch is given as text or parsed JSON; documents given as text are valid JSON texts (or, "
    "as documented, plain strings without brackets), so JSONDecodeError for malformed documents is not judged",
    "well_typed=False environments are out of scope: their functions may be called with any arguments",
    "numbers are those json.loads produces, infinity included (NaN and Infinity texts are not JSON)",
    "a case is taken not to terminate after 30 s of CPU time; ordinary cases take well under 10 ms",
    "the pointer error family is JSONPointerError and RelativeJSONPointerError",
]
BOUNDS = {
    "quick": {
        "token sequences": "length 3 over 62 tokens in 6 contexts, length 4 over 24 tokens in 3 contexts",
        "character strings": "length 3 over 33 characters in 5 contexts",
        "single edits": "52 valid texts x every position x (delete, truncate, 33 characters inserted and replaced)",
        "operands": "27 x 27 values x 11 operators x 3 operand forms; functions x all operand tuples",
        "regular expressions": "pattern strings to length 3 over 25 characters as literal, constant and data; flags to length 3",
        "pointers": "strings to length 3 over 24 characters, 40 tokens to depth 2, 4 decoding modes, documents of each type",
        "relative pointers": "strings to length 4 over 14 characters x 8 bases",
        "patches": "every op dict over 10 names x 15 paths x 15 sources x values; pairs over 36 ops; 12 documents",
        "flat and nested": "1000 fold repetition, 100 fold nesting",
    },
    "thorough": {
        "token sequences": "length 4 over 62 tokens in 2 contexts, length 5 over 16 tokens",
        "character strings": "length 4 over 33 characters",
        "single edits": "as quick, plus every pair of deletions and every token insertion pair",
        "pointers": "strings to length 4",
        "relative pointers": "strings to length 5",
        "patches": "triples over 36 ops",
    },
}

# ------------------------------------------------------------------------------------------ alphabets
TOKENS = [
    "$", "@", "_", "#", "~", "^", "*", "?", ".", "..", ",", ":", "(", ")", "[", "]", "{", "}", "&", "|",
    "&&", "||", "!", "and", "or", "not", "in", "contains", "==", "!=", "<>", "<", ">=", "=~", "=",
    "'a'", '"b"', "'", '"', "'\\u00'", "'\\ud800'", "/a/i", "/[/", "/", "0", "-1", "-0", "01", "1e2", "1.5", "1e400", "9" * 20,
    "true", "null", "undefined", "a", ".a", "@.a", "$..a", "count(", "match(@.a, 'x')", " ",
]  # fmt: skip
SMALL = [
    "$", "@", "#", "~", "*", "?", "..", ",", ":", "(", ")", "[", "]", "!", "&&", "==", "in", "'a'", "/a/", "1", "-1.5e3",
    "a", "@.a", "length(",
]  # fmt: skip
TINY = ["[", "]", "?", "(", ")", "@", ".a", "==", "'a'", "!", "&&", ",", "1", "*", "..", "in"]
CONTEXTS = ["%s", "$%s", "$[%s]", "$[?%s]", "$[?@.a %s]", "$[?count(%s) == 1]"]
CHARS = [
    "$", "@", "_", "#", "~", ".", "*", "?", ",", ":", "(", ")", "[", "]", "&", "|", "!", "<", "=", "'", '"', "/", "\\",
    "0", "1", "-", "+", "e", "a", " ", "\n", "\u0661", "\U0001f600",
]  # fmt: skip
CHAR_CTX = ["%s", "$[%s]", "$[?%s]", "$['%s']", "$[?@ %s]"]

CORPUS = [
    "$", "$.a", "$['a']", "$.a.b[0]", "$..a", "$..*", "$[*]", "$[0]", "$[-1]", "$[1:2]", "$[::-1]", "$[0:10:2]",
    "$['a', \"b\", 0, 1:2, *]", "$[?@.a]", "$[?@.a == 1]", "$[?@.a != 'x']", "$[?@.a < 1.5 && @.b >= -2]",
    "$[?!@.a || (@.b && @.c)]", "$[?length(@.a) == 2]", "$[?count(@.*) > 1]", "$[?match(@.a, 'a.*')]",
    "$[?search(@, '[ab]')]", "$[?value(@..a) == null]", "$[?@.a == $.b]", "$[?@.a == true]", "$[?@['a'][0] == 1e3]",
    "$[?@.a =~ /a.*/i]", "$[?@.a in ['x', 1]]", "$[?@.a contains 'x']", "$[?not @.a and @.b]", "$[?# == 'a']",
    "$[?_.a == @.a]", "$.a | $.b", "$.a & $..b", "^[?@.a]", "$.~", "$.*~", "$[~]", "$[?@.a == undefined]", "$[?@.a <> nil]",
    "$[?isinstance(@.a, 'str')]", "$[?is(@, 'int')]", "$[?typeof(@.a) == 'string']", "$[?type(@) == 'array']",
    "a.b", "[a, 'b']", "$['\\u263a\\ud83d\\ude00\\n']", "$[?@[?@.a > 1]]", "$[?(@.a == 1) && !(@.b in $.c)]",
    "$[?@.a == \"it's\"]", "$..[?@.a, 0]", "$[?@.a in $.b || 'x' in @.c]",
]  # fmt: skip

INF = json.loads("1e400")
VALUES = [
    None, True, False, 0, 1, -1, 2, 1.5, -0.0, 10**30, 10**400, INF, -INF, "", "a", "1", "\ud800", "\U0001f600", [], [1], ["a"],
    [[1]], {}, {"a": 1}, {"1": None}, [None, True, {"a": []}], {"b": [1, "x", {"c": 1.5}]},
]  # fmt: skip
DOCS = [
    {"a": 1, "b": "x", "c": [1, "x", None], "d": {"a": "ab", "b": [True, {"a": 1.5}]}},
    [0, "a", "", None, True, 1.5, [], {}, [1, [2]], {"a": 1, "b": {"a": "x"}}, {"a": [{"a": "b"}], "c": INF}],
    {"a": {"a": {"a": None}}, "b": [10**400, "\ud800", ""]},
    None, True, 0, -1.5, "plain", "\ud800", "1e400", '"s"', '[1, {"a": 2}]', [], {},
]  # fmt: skip
EVAL_DOCS = DOCS[:2] + [None, "plain", 1.5]
CTX = {"a": 1, "b": [1, "x"]}


def script(body):
    return "import jsonpath\nfrom jsonpath import *\nfrom jsonpath.exceptions import *\n" + body


def render(ctx, err, key, msg, body):
    """Turning the error into text succeeds."""
    try:
        if not isinstance(str(err), str) or not isinstance(repr(err), str):
            raise TypeError("not a string")
    except Exception as e:  # noqa: BLE001
        ctx.fail(f"str({type(err).__name__}) {key}", f"{msg}: rendering the error raised {type(e).__name__}: {e}", body)


class Mon:
    """Runs calls, monitors how they end."""

    def __init__(self, ctx):
        self.ctx = ctx

    def call(self, kind, key, fn, family, body):
        ctx = self.ctx
        ctx.case((kind, key))
        ctx.trans()
        try:
            r = fn()
        except family as e:
            render(ctx, e, f"{kind} {key}", f"{kind} {key}", script(body))
            ctx.outcome((kind, type(e).__name__))
            return False, e
        except Exception as e:  # noqa: BLE001
            m = f"{kind} {key}: {type(e).__name__} escaped: {str(e)[:80]}"
            ctx.fail(f"{kind} {key}", m, script(body))
            return False, e
        ctx.outcome((kind, type(r).__name__, len(r) if isinstance(r, (list, tuple)) else 0))
        return True, r


ENV = JSONPathEnvironment()
ENVS = [ENV, JSONPathEnvironment(unicode_escape=False), JSONPathEnvironment(filter_caching=False)]


def short(x, n=160):
    r = ascii(x)
    return r if len(r) <= n else r[:n] + "...%d" % len(r)


def q_compile(m, text, env=ENV):
    return m.call("compile", short(text), lambda: env.compile(text), JSONPathError, f"print(jsonpath.compile({text!r}))" if len(text) < 5000 else "")


def q_eval(m, text, query, docs):
    for d in docs:
        m.call(
            "evaluate", f"{short(text)} on {short(d)}", lambda: [x.obj for x in query.finditer(d, filter_context=CTX)],
            JSONPathError, f"inf = float('inf')\nprint(jsonpath.compile({text!r}).findall({d!r}, filter_context={CTX!r}))",
        )  # fmt: skip


def q_both(m, text, docs=EVAL_DOCS, env=ENV):
    ok, q = q_compile(m, text, env)
    if ok:
        m.ctx.state(text)
        q_eval(m, text, q, docs)
        return q
    return None


# ------------------------------------------------------------------------------------------ pointers
PCHARS = [
    "/", "~", "0", "1", "9", "-", "+", "#", "a", "\\", "u", "x", "N", "{", "%", " ", "\t", ".", '"', "é", "\u0661", "\ud800",
    "\U0001f600", "\x00",
]  # fmt: skip
PTOKENS = [
    "", "a", "b", "0", "1", "2", "-1", "-2", "-", "00", "01", "+1", " 1", "1 ", "1_0", "\u0661", "#", "#0", "#1", "#9", "#a", "#-1", "#-9",
    "#+1", "# 1", "#\u0661", "#" + "9" * 5000, "~", "~0", "~1", "~a", "~~", "~2", "a~", "9007199254740991", "9007199254740992",
    "9" * 5000, "-" + "9" * 5000, "é", "1.0", "1e2", "None", "length", "\\", "\\u0061", "\\ud800", "%", "%41", "%ff",
]  # fmt: skip
ESCAPES = [
    "\\", "\\u", "\\u0", "\\u0061", "\\ud83d", "\\ude00", "\\x", "\\x4", "\\x41", "\\xff", "\\N", "\\N{DASH}", "\\N{EM DASH}", "\\7",
    "\\777", "\\U00110000", "\\U0001f600", "\\/", '\\"', "\\'", "\\n", "\\\n", "\ud800", "é", "a", "/", "~1", "%5C",
]  # fmt: skip
PDOCS = [
    {"a": [0, "x", {"b": None}], "": {"": 1}, "0": "zero", "-1": [1], "#": 1, "~": {"a": 1}, "é": 1, "1": {"0": []}, "#a": 2},
    [10, [20, "s"], {"a": 1, "0": 2, "b": [1]}], None, True, 1, 1.5, "text", "", [], {}, '{"a": [1]}', {"a": "\ud800"},
]  # fmt: skip
MODES = [dict(unicode_escape=u, uri_decode=d) for u in (True, False) for d in (False, True)]
FAM_P = (JSONPointerError, RelativeJSONPointerError)


def p_parse(m, s, mode):
    return m.call("JSONPointer", f"{short(s)} {mode}", lambda: JSONPointer(s, **mode), FAM_P, f"print(JSONPointer({s!r}, **{mode}))" if len(s) < 9999 else "")


def p_resolve(m, p, s, docs):
    for d in docs:
        key = f"{short(s)} on {short(d)}"
        body = f"print(JSONPointer({s!r}, unicode_escape=False).resolve({d!r}))" if len(str(s)) < 9999 else ""
        ok, _ = m.call("resolve", key, lambda: p.resolve(d), JSONPointerResolutionError, body)
        m.call("resolve_parent", key, lambda: p.resolve_parent(d), JSONPointerResolutionError, body)
        ok2, e = m.call("exists", key, lambda: p.exists(d), JSONPointerResolutionError, body)
        if ok2 and e is not ok:
            m.ctx.fail(f"exists {key}", f"exists {key} is {e} but resolving {'succeeds' if ok else 'fails'}", body)
        ok, _ = m.call("resolve default", key, lambda: p.resolve(d, default=0), (), body)


def p_all(m, s, docs, modes=MODES):
    seen = set()
    for mode in modes:
        ok, p = p_parse(m, s, mode)
        if ok:
            for k, f in (("str", str), ("repr", repr), ("parent", JSONPointer.parent), ("hash", hash)):
                m.call(k, f"{short(s)} {mode}", lambda: f(p), (), "")
            if p.parts not in seen:
                seen.add(p.parts)
                m.ctx.state(p.parts)
                p_resolve(m, p, str(p), docs)


RCHARS = ["0", "1", "2", "9", "+", "-", "#", "/", "~", "a", " ", "\\", "%", "\u0661"]
BASES = ["", "/", "/a", "/0", "/a/1", "/a/-1", "/#0", "/1/x/3"]


def r_all(m, s, bases, modes=MODES[:2], docs=()):
    for mode in modes:
        ok, r = m.call("RelativeJSONPointer", f"{short(s)} {mode}", lambda: RelativeJSONPointer(s, **mode), FAM_P, f"print(RelativeJSONPointer({s!r}, **{mode}))" if len(s) < 9999 else "")
        if ok:
            m.call("str relative", f"{short(s)} {mode}", lambda: str(r), (), "")
            m.ctx.state(s)
        for b in bases:
            body = f"print(JSONPointer({b!r}).to({s!r}, **{mode}))" if len(s) + len(b) < 9999 else ""
            key = f"{short(b)} . {short(s)} {mode}"
            ok, p = m.call("to", key, lambda: JSONPointer(b).to(s, **mode), FAM_P, body)
            if ok:
                m.call("str", key, lambda: str(p), (), body)
                p_resolve(m, p, str(p), docs)


# ------------------------------------------------------------------------------------------ patches
MISSING = object()
OPN = ["add", "addne", "addap", "remove", "replace", "move", "copy", "test", "bogus", None, 1, [], {}, "", MISSING]
PATHS = ["", "/", "/a", "/a/b", "/0", "/1", "/-", "/a/0", "/a/-", "/a/-/x", "/#0", "/~a", "/-1", "a", "/\\", "/\\ud800", "/9007199254740992", "/" + "9" * 5000, None, 1, ["/a"], {}, MISSING]
PVALS = [1, None, {}, MISSING]
APPLY_DOCS = [{"a": [1, {"b": 2}], "0": {"a": 1}}, {"a": {"b": None}}, [1, [2, {"a": 3}]], [], {}, None, True, 0, 1.5, "text", "", '{"a": [1]}', "[1, 2]"]
ODD_OPS = [None, True, 1, 1.5, "str", "", [], ["op"], [["op", "add"]], {}, {"op": "add"}, {"path": "/a"}, {1: 2}, {"op": "add", "path": "/a", "value": 1, "x": 2}]
ODD_PATCHES = [1, True, 1.5, "abc"[:0], {}, {"op": "add", "path": "/a", "value": 1}, [[]], [None], (), ({"op": "remove", "path": ""},), "[]", '[{"op": "remove", "path": "/a"}]', "{}", "1", "null", "[null]", '"s"', b"[]"]


def op_dict(op, path, from_, value):
    d = {}
    for k, v in (("op", op), ("path", path), ("from", from_), ("value", value)):
        if v is not MISSING:
            d[k] = v
    return d


def patch_all(m, ops, docs, modes=MODES[:1]):
    for mode in modes:
        key = f"{short(ops)} {mode if mode is not MODES[0] else ''}"
        body = f"print(JSONPatch({ops!r}, **{mode}).asdicts())" if len(key) < 5000 else ""
        ok, p = m.call("JSONPatch", key, lambda: JSONPatch(copy.deepcopy(ops), **mode), JSONPatchError, body)
        if not ok:
            continue
        m.ctx.state(repr(ops)[:500])
        m.call("asdicts", key, p.asdicts, (), body)
        for d in docs:
            body = f"print(JSONPatch({ops!r}, **{mode}).apply({d!r}))"
            m.call("apply", f"{key} on {short(d)}", lambda: p.apply(copy.deepcopy(d)), JSONPatchError, body)


def builder(m, calls, docs):
    """The same through the builder."""

    def build():
        p = JSONPatch()
        for c in calls:
            getattr(p, c[0])(*c[1:])
        return p

    body = "p = JSONPatch()\n" + "".join(f"p.{c[0]}(*{c[1:]!r})\n" for c in calls)
    ok, p = m.call("builder", short(calls), build, JSONPatchError, body)
    if ok:
        for d in docs:
            m.call("apply built", f"{short(calls)} on {short(d)}", lambda: p.apply(copy.deepcopy(d)), JSONPatchError, body + f"print(p.apply({d!r}))")


PAIR_OPS = [
    {"op": o, "path": p, **x}
    for o, ps, xs in (
        ("add", ["", "/a", "/a/0", "/0", "/-", "/a/b/c"], [{"value": {"a": [1]}}, {"value": "s"}]),
        ("remove", ["", "/a", "/0"], [{}]),
        ("replace", ["", "/a", "/0"], [{"value": [1]}, {"value": None}]),
        ("move", ["", "/a/0", "/b"], [{"from": ""}, {"from": "/a"}, {"from": "/0"}]),
        ("copy", ["", "/-", "/a/x"], [{"from": ""}, {"from": "/a"}]),
        ("test", ["", "/a"], [{"value": {}}]),
        ("addne", ["", "/a", "/-"], [{"value": 1}]),
        ("addap", ["/a/9", "/a"], [{"value": 1}]),
    )
    for p in ps
    for x in xs
]


# ------------------------------------------------------------------------------------------ operands
OPS = ["==", "!=", "<>", "<", "<=", ">", ">=", "in", "contains", "&&", "||"]


def lit(v):
    """A literal spelling of a value, or None."""
    if isinstance(v, (dict,)):
        return None
    if isinstance(v, list):
        parts = [lit(x) for x in v]
        return None if None in parts or not parts else "[" + ", ".join(parts) + "]"
    if isinstance(v, float) and v in (INF, -INF):
        return "1e400" if v > 0 else "-1e400"
    if isinstance(v, str):
        return json.dumps(v)
    return json.dumps(v)


def operands(m, op):
    q1 = f"$[?@.a {op} @.b]"
    ok, c = q_compile(m, q1)
    docs = []
    for a, b in itertools.product(VALUES, VALUES):
        docs.append([{"a": a, "b": b}])
    docs += [[{"a": a}] for a in VALUES] + [[{"b": a}] for a in VALUES] + [[{}]]
    if ok:
        q_eval(m, q1, c, docs)
    for v in VALUES:
        t = lit(v)
        if t is None:
            continue
        for text in (f"$[?@ {op} {t}]", f"$[?{t} {op} @]", f"$[?!(@ {op} {t})]", f"$[?@[0] {op} {t} || {t} {op} $[0]]"):
            ok, c = q_compile(m, text)
            if ok:
                q_eval(m, text, c, [[x] for x in VALUES] + [VALUES, {"a": VALUES}])
        for w in VALUES:
            u = lit(w)
            if u is not None:
                ok, c = q_compile(m, f"$[?{t} {op} {u}]")
                if ok:
                    q_eval(m, f"$[?{t} {op} {u}]", c, [[1], {"a": None}])
    for f in ("length(@)", "count(@.*)", "value(@.*)", "typeof(@)", "#", "_.a", "_.zz", "undefined", "missing", "$", "@", "@.*", "$..*", "[@, 1]", "['a']", "/a/", "match(@, 'a')", "(@.a)"):
        for text in (f"$[?@.a {op} {f}]", f"$[?{f} {op} @]", f"$[?1 {op} {f}]", f"$[?{f} {op} {f}]"):
            ok, c = q_compile(m, text)
            if ok:
                q_eval(m, text, c, [[x, {"a": x, "b": 1}] for x in VALUES] + VALUES)


FUNCS = ["length", "count", "value", "match", "search", "isinstance", "is", "typeof", "type"]
FARGS = ["@", "@.a", "@.*", "@..b", "$", "$.zz", "#", "_.a", "'a'", "'['", "1", "1e400", "null", "true", "undefined", "@.a == 1", "!@.a", "(@.a)", "length(@)", "count(@)", "match(@, 'a')", "value(@.a)", "['a']", "/a/", "@[?@.a]"]  # fmt: skip
FCTX = ["$[?%s]", "$[?!%s]", "$[?%s == 1]", "$[?'x' < %s]", "$[?%s in ['array', 1, true]]", "$[?@ == 1 || %s]"]


def functions(m, f, n):
    for args in itertools.product(FARGS, repeat=n):
        call = f"{f}({', '.join(args)})"
        for c in FCTX:
            q_both(m, c % call, [[*VALUES], {"a": VALUES, "b": {"a": "x"}}, "text", None, 1])
    if n == 2:
        for a, b in itertools.product(("@.a", "value(@.a)", "$.a", "_.a"), ("@.b", "value(@.b)", "#", "'\\\\'")):
            text = f"$[?{f}({a}, {b})]"
            ok, q = q_compile(m, text)
            if ok:
                q_eval(m, text, q, [[{"a": x, "b": y}] for x in VALUES for y in VALUES])


RCH = list("a1.*+?|()[]{}^$\\-,:!<dpL") + ["é"]
FLAGS = list("aimsxuLgI ")
# longer pieces of regular expressions: overflowing counts and references, groups, classes, escapes
RTOK = [
    "a", "{99999999999999999999}", "{2,99999999999999999999}", "{2,1}", "{4294967295}", "{1" + "0" * 4400 + "}", "(?P<n>", "(?P=n)", "(?P=m)", "(?P<1>", "(", ")", "\\1", "\\99", "\\99999999999999999999", "\\400",
    "(?(1)a)", "(?(99999999999999999999)a)", "(?i)", "(?L)", "(?i:", "(?-i:", "(?<=a*)", "(?<=a)", "(?<!", "(?#", "(?>", "[", "]", "[z-a]", "[^", "[[:alpha:]]", "\\N{DIGIT ONE}", "\\N{NOPE}", "\\x4", "\\u12", "\\U00110000",
    "\\p{Lu}", "\\p{Nope}", "\\P", "\\", "*", "*+", "??", "|", "^", "$", ".", "\\b", "\\Z", "\\z", "\\g<1>",
]  # fmt: skip


def regexes(m, words):
    pats = ["".join(w) for w in words]
    docs = [{"p": p, "s": s} for p in pats for s in ("a", "")]
    for f in ("match", "search"):
        for text in (f"$[?{f}(@.s, @.p)]",):
            ok, q = q_compile(m, text)
            for i in range(0, len(docs), 50):
                q_eval(m, text, q, [docs[i : i + 50]])
                if len(m.ctx.fails):
                    for d in docs[i : i + 50]:
                        q_eval(m, text, q, [[d]])
    for p in pats:
        q_both(m, f"$[?@ =~ /{p}/]", [["a", "", 1]])
        q_both(m, f"$[?match(@, '{p}')]", [["a", "", None]])


REPEATS = [
    ("$", ".a", ""), ("$", "..a", ""), ("$", "..*", ""), ("$", "['a']", ""), ("$", "[0]", ""), ("$[", "'a', ", "'a']"), ("$[", "0,", "0]"),
    ("$[", "*,", "*]"), ("$[", "?@.a,", "?@.a]"), ("$[?@.a", " && @.a", "]"), ("$[?@.a", " || @.a", "]"), ("$[?@.a == 1", " && @.a == 1", "]"),
    ("$[?@", ".a", "]"), ("$[?@ in [", "1, ", "1]]"), ("$['", "a", "']"), ("$[?@ == '", "a", "']"), ("$[?@ == ", "1", "]"), ("$[", "1", "]"),
    ("$[?@ == 1e", "9", "]"), ("$[?@ == 1.", "0", "]"), ("$.", "a", ""), ("$", " ", ".a"), ("$[", " ", "0]"), ("$.a", " | $.a", ""),
    ("$.a", " & $.a", ""), ("$[?@ =~ /", "a", "/]"), ("$['", "\\n", "']"), ("$['", "\\ud83d\\ude00", "']"), ("$", "~", ""), ("$", "$", ""),
    ("", ".", ""), ("$", "[", ""), ("$[?", "(", ""), ("$[?", "!", "@.a]"), ("$", "]", ""), ("$[?@.a == ", "-", "1]"), ("$[", ":", "]"), ("", "'", ""),
    ("$[?", "match(", ""), ("", "$ | ", "$"), ("$[?", "@.a <> 1 or ", "@.b]"), ("$[?", "not ", "@.a]"), ("$", "[?@.a]", ""), ("$", "[::-1]", ""),
    ("$[?count(", "@.a, ", "@.a) == 1]"), ("$[?", "# == 1 || ", "# == 2]"),
]  # fmt: skip
NESTS = [
    ("$", "[?@", "]"), ("$", "[?@.a", "]"), ("$[?", "(", "@.a", ")", "]"), ("$[?", "!(", "@.a", ")", "]"), ("$[?", "(@.a && ", "@.a", ")", "]"), ("$[?", "(@.a == 1 || ", "@.a == 2", ")", "]"),
    ("$[?", "length(", "@.a", ")", " == 1]"), ("$[?", "count(@[?", "@.a", "])>0", "]"), ("$[?", "value(@[?", "@.a", "]) == 1", "]"), ("$[?", "match(", "@.a, 'a'", ")", "]"),
    ("$[?@ in ", "[", "1", "]", "]"), ("$[?", "!", "@.a", "", "]"), ("$[?", "not ", "@.a", "", "]"), ("$", "[", "0", "]", ""),
]  # fmt: skip


def nested(spec, n):
    if len(spec) == 3:
        a, b, c = spec
        return a + b * n + c * n
    a, b, mid, c, d = spec
    return a + b * n + mid + c * n + d


NUMBERS = [
    s + d
    for s in ("", "-", "+")
    for d in (
        "0", "00", "0.0", "1.", ".5", "1.5", "1e5", "1E5", "1e+5", "1e-5", "1e", "1e+", "1.5e5", "1.5e", "1e400", "1e-400", "1.5e400", "0e0", "1e99999", "1e99999999999999999999",
        "1" * 400, "1" * 5000, "1" * 400 + ".5", "9007199254740991", "9007199254740992", "1" * 5000 + "e2", "1e" + "1" * 5000, "1.5.5", "1e5.5", "1_0", "0x1", "\u0661", "1\u0661", "Infinity", "inf", "NaN", "nan", "1e0400",
    )
]  # fmt: skip
NUM_CTX = ["$[%s]", "$.%s", "$..%s", "$[%s:]", "$[:%s]", "$[::%s]", "$[%s,0]", "$['a'][%s]", "$[?@ == %s]", "$[?%s < @]", "$[?@ in [%s]]", "$[?count(@.*) >= %s]", "$[?@[%s]]", "$[?@.a[%s:] == 1]", "$[?%s]", "$[?length(%s) == 1]", "$[?match(%s, 'a')]", "%s"]  # fmt: skip


# ------------------------------------------------------------------------------------------ units
def units(tier):
    deep = tier == "thorough"
    out = []
    for c in range(len(CONTEXTS)):
        for i in range(len(TOKENS)):
            out.append(("tokens", c, i, 4 if deep and c in (1, 3) else 3))
    for c in (1, 2, 3):
        for i in range(len(SMALL)):
            out.append(("small", c, i, 4))
    if deep:
        for c in (1, 3):
            for i in range(len(TINY)):
                out.append(("tiny", c, i, 5))
    for c in range(len(CHAR_CTX)):
        for i in range(len(CHARS)):
            out.append(("chars", c, i, 4 if deep else 3))
    for i in range(len(CORPUS)):
        out.append(("edits", i, deep))
    for op in OPS:
        out.append(("operands", op))
    for f in FUNCS:
        for n in (0, 1, 2):
            out.append(("functions", f, n))
    out.append(("functions", "zz", 1))
    for i in range(len(RCH)):
        out.append(("regex", i, 4 if deep else 3))
    out.append(("flags",))
    for i in range(len(RTOK)):
        out.append(("rtok", i, 3 if deep else 2))
    out += [("repeat", i) for i in range(len(REPEATS))] + [("nest", i) for i in range(len(NESTS))]
    out += [("numbers",), ("deepdocs",), ("bytes",)]
    for i in range(len(PCHARS)):
        out.append(("pchars", i, 4 if deep else 3))
    for i in range(len(PTOKENS)):
        out.append(("ptokens", i))
    for i in range(len(ESCAPES)):
        out.append(("escapes", i))
    for i in range(len(RCHARS)):
        out.append(("rchars", i, 5 if deep else 4))
    out += [("rlong",), ("join",)]
    for op in OPN:
        out.append(("ops", OPN.index(op)))
    out += [("oddops",), ("oddpatch",), ("builder",)]
    for i in range(len(PAIR_OPS)):
        out.append(("pairs", i, 3 if deep else 2))
    return out


def run(unit, ctx):
    m = Mon(ctx)
    kind = unit[0]
    if kind in ("tokens", "small", "tiny"):
        alpha = {"tokens": TOKENS, "small": SMALL, "tiny": TINY}[kind]
        c = CONTEXTS[unit[1]]
        first = alpha[unit[2]]
        for n in range(0, unit[3]) if kind == "tokens" else (unit[3] - 1,):
            for w in itertools.product(alpha, repeat=n):
                # the shorter sequences also without separators
                q_both(m, c % " ".join((first,) + w))
                if n <= 1 and kind == "tokens":
                    q_both(m, c % "".join((first,) + w))
    elif kind == "chars":
        c = CHAR_CTX[unit[1]]
        for n in range(0, unit[3]):
            for w in itertools.product(CHARS, repeat=n):
                q_both(m, c % (CHARS[unit[2]] + "".join(w)))
    elif kind == "edits":
        t = CORPUS[unit[1]]
        q = q_both(m, t, DOCS)
        if q is None:
            raise AssertionError(t)
        seen = {t}

        def go(x):
            if x not in seen:
                seen.add(x)
                q_both(m, x, EVAL_DOCS[:2])

        for i in range(len(t) + 1):
            go(t[:i])
            go(t[i:])
            go(t[:i] + t[i + 1 :])
            go(t[:i] + t[i : i + 1] + t[i:])
            for ch in CHARS:
                go(t[:i] + ch + t[i:])
                go(t[:i] + ch + t[i + 1 :])
        for env in ENVS[1:]:
            for i in range(len(t) + 1):
                for ch in "'\"\\/":
                    q_both(m, t[:i] + ch + t[i:], EVAL_DOCS[:2], env)
        for i in range(len(t)):
            for j in range(i + 1, len(t) + 1):
                go(t[:i] + t[j:])
        if unit[2]:
            for i in range(len(t) + 1):
                for tok in TOKENS:
                    go(t[:i] + tok + t[i:])
                    go(t[:i] + tok + t[i + 1 :])
                    go(t[:i] + " " + tok + " " + t[i:])
            for i in range(len(t) + 1):
                for j in range(i, len(t) + 1):
                    for a, b in itertools.product("'\"[]()/\\?,-", repeat=2):
                        go(t[:i] + a + t[i:j] + b + t[j:])
    elif kind == "operands":
        operands(m, unit[1])
    elif kind == "functions":
        functions(m, unit[1], unit[2])
    elif kind == "regex":
        for n in range(0, unit[2]):
            regexes(m, ((RCH[unit[1]],) + w for w in itertools.product(RCH, repeat=n)))
    elif kind == "rtok":
        for n in range(0, unit[2]):
            regexes(m, ((RTOK[unit[1]],) + w for w in itertools.product(RTOK, repeat=n)))
            if n < 2:
                for w in itertools.product(RTOK, repeat=n):
                    p = RTOK[unit[1]] + "".join(w)
                    for text in (f"$[?@ =~ /{p}/i]", f"$[?search(@, '{p}')]", f"$[?match(@, \"(?i){p}\")]"):
                        q_both(m, text, [["a", "", None]])
    elif kind == "flags":
        for n in range(0, 4):
            for w in itertools.product(FLAGS, repeat=n):
                q_both(m, f"$[?@ =~ /a/{''.join(w)}]", [["a", 1, None]])
                q_both(m, f"$[?@ =~ /(?{''.join(w)})a/]", [["a", 1, None]])
    elif kind == "repeat":
        a, b, c = REPEATS[unit[1]]
        sys.setrecursionlimit(1000)
        # chains of descendant segments visit combinatorially many nodes of a deep document
        deep = [] if ".." in b + b else [D.deep(100, "o"), D.deep(20, "m")]
        for n in (2, 10, 99, 100, 101, 300, 999, 1000, 1001, 5000):
            q_both(m, a + b * n + c, [DOCS[0], DOCS[1]] + deep if b != "." or n < 12 else [None, [], [1]])
    elif kind == "nest":
        sys.setrecursionlimit(1000)
        for n in (1, 2, 10, 50, 90, 99, 100):
            q_both(m, nested(NESTS[unit[1]], n), [DOCS[0], [1, [1]], D.deep(100, "a"), D.deep(100, "o")])
    elif kind == "deepdocs":
        sys.setrecursionlimit(1000)
        qs = CORPUS + ["$..*..*", "$..[?@.a]", "$..[?@ == $]", "$[?@ in $]", "$[?$ == $]", "$..[?@..a]", "$ & $", "$..* & $..*", "$.. | $..a"]
        for k in "aom":
            d = D.deep(100, k)
            e = D.deep(100, k)
            for t in qs:
                ok, q = q_compile(m, t)
                if ok:
                    q_eval(m, t, q, [d, [d, e], {"a": d, "b": e}])
            p = "/" + "/".join({"a": ["0"], "o": ["a"], "m": ["a", "0"]}[k] * (100 if k != "m" else 50))
            p_all(m, p, [d, [d]])
            p_all(m, p + "/x", [d])
            for op in ("add", "replace", "test", "addne", "addap"):
                patch_all(m, [{"op": op, "path": p, "value": e}, {"op": "test", "path": "", "value": d}], [d, [d], {"a": d}])
                patch_all(m, [{"op": op, "path": "", "value": e}, {"op": "test", "path": "", "value": d}], [d])
            patch_all(m, [{"op": "copy", "from": "", "path": p}], [d])
            patch_all(m, [{"op": "move", "from": "", "path": p}], [d])
    elif kind == "numbers":
        for t in NUMBERS:
            for c in NUM_CTX:
                q_both(m, c % t, EVAL_DOCS[:2] + [[1, 1.5, "1"]])
    elif kind == "bytes":
        for cp in list(range(0, 0x180)) + [0x2028, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFEFF, 0xFFFF, 0x10000, 0x10FFFF]:
            ch = chr(cp)
            for c in ("%s", "$%s", "$.%s", "$..%s", "$[%s]", "$['%s']", "$['\\%s']", "$['\\u%s']", "$[?%s]", "$[?@.a %s 1]", "$[?@ == %s]", "$[?@ =~ /%s/]", "$[?@ =~ /\\%s/]", "$[?%s(@)]", "$[0:%s]"):
                q_both(m, c % ch, EVAL_DOCS[:2] + [{ch: 1}])
            for c in ("%s", "/%s", "/a%s", "/\\%s", "/\\u%s", "/0%s", "/%s0", "/~%s", "/%%%s"):
                p_all(m, c % ch, PDOCS[:2])
                r_all(m, "0" + c % ch, ["/a/0"])
        for h in ("0000", "001f", "d800", "dc00", "d83d", "ffff", "00g0", "+123", "-123", " 123", "12 3", "0x12", "1_23", "\u0661123", "123", ""):
            for tail in ("", "\\u", "\\ude00", "\\ud83d", "\\u0041", "a", "\\"):
                for c in ("$['\\u%s%s']", '$["\\u%s%s"]', "$[?@ == '\\u%s%s']", "$[?match(@, '\\u%s%s')]"):
                    q_both(m, c % (h, tail), EVAL_DOCS[:2])
    elif kind == "pchars":
        for n in range(0, unit[2]):
            for w in itertools.product(PCHARS, repeat=n):
                s = PCHARS[unit[1]] + "".join(w)
                p_all(m, s, PDOCS[:3] if n > 1 else PDOCS)
                if n < 3:
                    p_all(m, "/" + s, PDOCS[:2] + PDOCS[6:7])
    elif kind == "ptokens":
        a = PTOKENS[unit[1]]
        p_all(m, a, PDOCS)
        p_all(m, "/" + a, PDOCS)
        for b in PTOKENS:
            p_all(m, f"/{a}/{b}", PDOCS[:6] + PDOCS[6:8])
            p_all(m, f"/a/{a}/{b}", PDOCS[:2])
            p_all(m, f"/1/{a}/{b}", PDOCS[:2])
        for d in PDOCS:
            for mode in MODES:
                m.call("resolve()", f"{short(a)} {short(d)}", lambda: jsonpath.pointer.resolve("/" + a, d, **mode), FAM_P, "")
                m.call("resolve() parts", f"{short(a)} {short(d)}", lambda: jsonpath.pointer.resolve([a], d, **mode), FAM_P, "")
                m.call("from_parts", f"{short(a)}", lambda: JSONPointer.from_parts([a, 0, a], **mode), FAM_P, "")
    elif kind == "escapes":
        a = ESCAPES[unit[1]]
        for n in range(0, 3):
            for w in itertools.product(ESCAPES, repeat=n):
                s = a + "".join(w)
                p_all(m, "/" + s, PDOCS[:1] if n > 1 else PDOCS)
                r_all(m, "0/" + s, ["/a"], MODES)
                if n < 2:
                    patch_all(m, [{"op": "add", "path": "/" + s, "value": 1}], APPLY_DOCS[:3], MODES)
    elif kind == "rchars":
        for n in range(0, unit[2]):
            for w in itertools.product(RCHARS, repeat=n):
                r_all(m, RCHARS[unit[1]] + "".join(w), BASES if n < 3 else BASES[:1] + BASES[4:6], docs=PDOCS[:2] if n < 3 else ())
    elif kind == "rlong":
        big = ["9" * n for n in (1, 16, 17, 400, 4299, 4300, 4301, 5000)]
        for x in big + ["1" + "0" * 4300, "0" * 5000]:
            for s in (x, "0+" + x, "0-" + x, x + "#", "0+" + x + "#", "1/" + x, "0/" + x, "0#" + x, x + "+" + x, "1+1/" + x):
                r_all(m, s, BASES + ["/" + b for b in big], docs=PDOCS[:2])
        for s in ("", "#", "/", "+1", "-1", "1", "1 ", " 1", "1\n", "1##", "1#/a", "1+", "1-", "1+#", "1+1#", "1+1+1", "01", "00", "1.0", "1e2", "\u0661", "0\u0661", "0+\u0661", "0+01", "0+0", "0-0"):
            r_all(m, s, BASES, MODES, docs=PDOCS)
    elif kind == "join":
        for a in PTOKENS:
            p = JSONPointer.from_parts([a], unicode_escape=False)
            for b in PTOKENS + ESCAPES:
                for body, fn in (("/", lambda: p / b), ("join", lambda: p.join(b, "x", b)), ("join/", lambda: p.join("/" + b))):
                    key = f"{short(a)} {body} {short(b)}"
                    ok, r = m.call("join", key, fn, FAM_P, "")
                    if ok:
                        p_resolve(m, r, str(r), PDOCS[:2])
                        m.call("is_relative_to", key, lambda: r.is_relative_to(p), (), "")
    elif kind == "ops":
        op = OPN[unit[1]]
        for path in PATHS:
            if op in ("move", "copy"):
                for f in PATHS:
                    patch_all(m, [op_dict(op, path, f, MISSING)], APPLY_DOCS if isinstance(f, str) and len(f) < 10 else APPLY_DOCS[:2])
                patch_all(m, [op_dict(op, path, MISSING, 1)], APPLY_DOCS)
            else:
                for v in PVALS:
                    patch_all(m, [op_dict(op, path, MISSING, v)], APPLY_DOCS)
                patch_all(m, [op_dict(op, path, "/a", 1), {"op": "add", "path": "/x", "value": 1}], APPLY_DOCS)
    elif kind == "oddops":
        for n in (1, 2):
            for ops in itertools.product(ODD_OPS, repeat=n):
                patch_all(m, list(ops), APPLY_DOCS)
        for o in ODD_OPS:
            patch_all(m, [{"op": "add", "path": "/a", "value": 1}, o], APPLY_DOCS)
            patch_all(m, [{"op": "test", "path": "", "value": o}], APPLY_DOCS)
            m.call("patch.apply", short(o), lambda: jsonpath.patch.apply([o], {}), JSONPatchError, "")
        for v, w in itertools.product(VALUES, repeat=2):
            patch_all(m, [{"op": "test", "path": "", "value": v}], [[w], {"a": w}] if isinstance(w, str) else [w])
            patch_all(m, [{"op": "test", "path": "/0", "value": v}], [[w]])
    elif kind == "oddpatch":
        for p in ODD_PATCHES:
            ctx.case(p)
            body = f"JSONPatch({p!r}).apply({{'a': 1}})"
            m.call("patch.apply", short(p), lambda: jsonpath.patch.apply(p, {"a": 1}), JSONPatchError, body)
    elif kind == "builder":
        for p in PATHS:
            if isinstance(p, str):
                for name in ("add", "addne", "addap", "replace", "test"):
                    builder(m, [(name, p, 1)], APPLY_DOCS)
                builder(m, [("remove", p)], APPLY_DOCS)
                for f in PATHS:
                    if isinstance(f, str):
                        builder(m, [("move", f, p)], APPLY_DOCS[:3])
                        builder(m, [("copy", f, p)], APPLY_DOCS[:3])
                        builder(m, [("add", f, 1), ("remove", p)], APPLY_DOCS[:3])
    elif kind == "pairs":
        for w in itertools.product(PAIR_OPS, repeat=unit[2] - 1):
            patch_all(m, [PAIR_OPS[unit[1]], *w], APPLY_DOCS if unit[2] == 2 else APPLY_DOCS[:3])
    else:
        raise AssertionError(unit)
    ctx.state(freeze([str(x) for x in unit]))
