"""C17: renaming the environment's identifier tokens never changes what a query means."""

from __future__ import annotations

import itertools
import json
import re

import jsonpath
from jsonpath.function_extensions import ExpressionType
from jsonpath.function_extensions import FilterFunction

from vlib import corpus as Q
from vlib.rfc9535 import jsame
from vlib.util import memoise_charsets

PROP = "C17"
LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of identifier token assignments x query templates x documents on the real code, against the "
    "default environment running the default spelling"
)
LEVEL_NOTE = (
    "the default environment (judged by C01, C02, C10 and C13) is the oracle; every assignment runs on the real lexer, "
    "parser and evaluator, and the string form is compiled again in the same environment. Nothing beyond the bounds."
)
RULE = "a distinct (token assignment, query template) pair; outcomes are distinct (template, result) pairs"
ASSUMPTIONS = [
    "a spelling overlaps with the rest of the syntax, and is not judged, when it contains white space, a digit first, a "
    "quote, or one of . , : ; * ? ( ) [ ] < > = ! / -, starts with && or ||, or is a reserved word, a function name followed by "
    "a parenthesis, or a name that the query writes without quotes or dot",
    "a keys selector spelled like a name is only judged in brackets, `.name` being that member's name",
    "locations are compared modulo the spelling of the root and of the keys selector",
]
BOUNDS = {
    "quick": "each identifier x every string of length 1-3 over $ @ % r, and 52 other spellings; every pair of identifiers x "
    "every ordered pair out of 13 spellings (prefix-related, name-like, regex special); all permutations of the default tokens "
    "(stride 23); 112 assignments of all 8 identifiers over prefix chains; the corpus of 1-2 segments, filters and compounds "
    "under 16 assignments of all 8",
    "thorough": "pairs out of 24 spellings; every permutation of the default tokens; triples of identifiers over 6 spellings; larger corpus",
}


class Both(FilterFunction):
    """A function with tests as arguments."""

    arg_types = [ExpressionType.LOGICAL, ExpressionType.LOGICAL]
    return_type = ExpressionType.LOGICAL

    def __call__(self, a, b):
        return bool(a) and bool(b)


class Nodes(FilterFunction):
    arg_types = [ExpressionType.NODES]
    return_type = ExpressionType.NODES

    def __call__(self, nodes):
        return nodes


class Base(jsonpath.JSONPathEnvironment):
    def setup_function_extensions(self):
        super().setup_function_extensions()
        self.function_extensions["both"] = Both()
        self.function_extensions["nodes"] = Nodes()


DEFAULT_ENV = Base()
R, S, K, C, W, F, U, I = Q.R, Q.S, Q.K, Q.C, Q.W, Q.F, Q.U, Q.I  # noqa: E741

CORE = [
    f"{R}", f"{F}", "", f"{R}.a", f"{F}[0].a", "a.b", f"{R}..*", f"{R}[*]",
    f"{R}.{W}", f"{R}..{W}", f"{R}[{W}, 'a', {W}]", f"{R}..[{W}, 0]", f"{F}[0].{W}",
    f"{R}[?{S}.a]", f"{R}..[?{S}.a == {R}.a]", f"{F}[?{S}.a]", f"{R}[?{F}[0].a == {S}.a]", f"{R}[?{F}]", f"{R}[?!{F}..zz]",
    f"{R}[?{K} == 'a']", f"{R}..[?{K} == 0 || {K} == 'b']", f"{R}[?{S}[?{K} == 'a']]", f"{R}[?{K} in {C}.n]", f"{R}[?match({K}, 'a|b')]",
    f"{R}[?{S} == {C}.x]", f"{R}..[?{C}.x == {S}.a]", f"{R}[?{C}]", f"{R}[?!{C}.zz]", f"{R}[?{S} in {C}.n]", f"{R}[?{C}.n[?{S} == {R}.a]]",
    f"{R}[?count({S}.{W}) == 1]", f"{R}[?count({S}[{W}, 'a']) > 1]", f"{R}[?value({S}..a) == {K}]", f"{R}[?{S}.{W}]", f"{R}[?count({C}.{W}) > {K}]",
    f"{R}.a {U} {R}.b", f"{R}.* {I} {R}.a", f"{R}..a {U} {F}[0].b {I} {R}..*", f"{R}.{W} {I} {R}..{W}", f"a {U} b {U} {R}.c",
    f"{R}[?{S}.a] {U} {R}[?{K} == 'b' && {C}.x == 1] {I} {R}.*", f"{R}.a{U}{R}.b", f"{R}.*{I}{R}.a",
    f"{R}[?both({S}.a, {S}.b)]", f"{R}[?both({S}.a && {R}.a, ({S}.b))]", f"{R}[?nodes({S}.a)]", f"{R}[?count(nodes({R}..a)) > 1]",
    f"{R}[?!({S}.a == {R}.a && {K} != 'a') || {C}.n[0] == {S}]", f"{R}[?({S}.a)&&({S}.b)]", f"{R}[?not {S}.a and {R}.a or {C}.zz]",
    f"{R}[?{S} == {S}]", f"{R}[?{R} == {R}]", f"{R}[?{S}=={R}.a||{R}.a=={S}]", f"{R}[?{K}<{K}]", f"{R}[?{S}.a =~ /a.*/i && {S}]",
    f"{R}[?{S}['a'] == {R}['a']]", f"{R}[?{S}[0] == {R}[0]]", f"{R}[?{S}[?{S}[?{S}.a == {R}.a]]]", f"{R}.b[?{S}.a == {R}.b.b, 'a', ?{K} == 1]",
    f"{R}[a, 'b']", f"{R}..b", f"{S}" + ".a" if False else f"{R}..['a']",
]  # fmt: skip
FEW = CORE[:1] + [CORE[i] for i in range(8, len(CORE), 3)]

# names related to the name-like spellings
NAME_QUERIES = [
    f"{R}[rx, cx_, selx]", f"{R}..rx", f"rx", f"cx_.rx", f"{R}.r", f"{R}.cx", f"{R}.sel", f"{R}['r', 'cx', 'sel', 'n']", f"{R}[?{S}.rx == {R}.rx]",
    f"{R}[?{S}[rx]]", f"{R}[?{C}.rx == {S}.r]", f"{R}.r.cx", f"{R}..*[?{K} == 'r']", f"{R}[?{S}.r == {C}['r'] and {S}]", f"{R}[?{S}.n in {C}.n]",
    f"selx {U} rx", f"{R}.rx {I} {R}.*", f"rx{U}cx_" if False else f"{R}[?not {S}.rx]", f"{R}[?{S}.r == nil or {S}.n == true]", f"{R}[r-x, n1, ty]",
]  # fmt: skip
NAME_DOC = {
    "r": {"cx": 1, "r": 0, "n": None}, "rx": 5, "cx": [0], "cx_": {"rx": 1, "r": 2}, "sel": 1, "selx": {"rx": 5, "r": 1}, "n": {"n": 0, "r": 1},
    "r-x": 1, "n1": 2, "ty": 3, "x": {"rx": 0, "r": 5},
}  # fmt: skip
CONTEXT = dict(Q.CONTEXT, r=1, rx=5)
DOCS = [Q.DOCS[0], Q.DOCS[1], Q.DOCS[2], NAME_DOC, {"a": 1, "b": [1, {"a": 1}], "c": {"a": 0}}]

LONE = ["".join(p) for n in (1, 2, 3) for p in itertools.product("$@%r", repeat=n)]
LONE += [
    "#", "_", "~", "^", "|", "&", "+", "{", "}", "`", "\\", "\\\\", "%", "|&", "&|", "~~", "^^", "##", "__", "$$", "+1", "@1", "^$", "\\d", "{2}", "$|@",
    "x", "n", "t", "i", "no", "nul", "tru", "an", "co", "sel", "self", "ctx", "root", "Z", "_r", "r_", "r1", "orx", "andy", "notx", "inn", "\u00e9",
    "\u00e9\u00e9", "\u2713", "\U0001f600", "contain", "undef", "@-r"[:2],
]  # fmt: skip
LONE = list(dict.fromkeys(LONE))
POOL_Q = ["@", "@@", "@@@", "$", "$@", "%", "+", "|", "&", "r", "r_", "\\", "sel"]
POOL_T = POOL_Q + ["$$", "@$", "^", "^^", "_", "__", "#", "~", "~~", "rr", "\u00e9"]
TRIPLE = ["%", "%%", "%%%", "r", "r%", "%r"]
CHAINS = [
    ["@", "@@", "@@@", "$", "$$", "$$$", "@$", "$@", "@$$", "@@$", "$@@", "$$@", "@$@", "$@$"],
    ["r", "rr", "rrr", "r_", "_r", "_", "__", "_r_", "r_r", "rr_", "r__", "__r", "___", "_rr"],
    ["%", "%r", "%%", "r%", "%%r", "+", "+%", "%+", "+r", "r+", "r", "\\", "\\%", "\\r"],
    ["|", "&", "|&", "&|", "^", "^|", "^&", "~", "~|", "~&", "&~", "|~", "^~", "~^"],
]
NAMELIKE = re.compile(r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*\Z")
WORDISH = re.compile(r"[\u0080-\U0010FFFFa-zA-Z0-9_-]")


def overlapping(tokens):
    """A spelling this check does not judge."""
    if len(set(tokens)) != 8:
        return True
    for t in tokens:
        if t.startswith(("&&", "||")) or t in RESERVED or t[0].isdigit() or "-" in t:
            return True
    # a union or intersection token in front of another identifier must not read as || or &&, or as another token
    for name, t in zip(Q.NAMES, tokens):
        if name in ("union_token", "intersection_token"):
            continue
    return False


RESERVED = {
    "and", "or", "not", "in", "contains", "true", "True", "false", "False", "nil", "Nil", "null", "Null", "none", "None", "undefined", "missing",
}  # fmt: skip

def environment(tokens):
    return type("Custom", (Base,), dict(zip(Q.NAMES, tokens)))()


def tight_ok(template, tokens):
    """Identifiers written side by side, or next to a name, must stay apart."""
    for m in re.finditer(f"[{R}{S}{K}{C}{W}{F}{U}{I}]+", template):
        run = m.group()
        before, after = template[: m.start()][-1:], template[m.end() :][:1]
        toks = [tokens[ord(ch) - 0xE100] for ch in run]
        text = "".join(toks)
        if len(run) > 1:
            # only when splitting at every prefix is unambiguous: no token is a prefix of what is there, except itself
            pos = 0
            for t in toks:
                rest = text[pos:]
                longest = max((x for x in tokens if rest.startswith(x)), key=len)
                if longest != t or rest.startswith(("||", "&&")):
                    return False
                if NAMELIKE.search(t) and rest[len(t) :] and WORDISH.match(rest[len(t)]):
                    return False
                pos += len(t)
        if WORDISH.match(before or " ") and WORDISH.match(text[0]):
            return False
        if WORDISH.match(after or " ") and WORDISH.match(text[-1]):
            return False
        if before and (before + text[:1]) in ("||", "&&"):
            return False
    return True


def write(template, tokens):
    w = tokens[4]
    if WORDISH.match(w):
        template = re.sub(rf"(?<!\.)\.{W}", f"[{W}]", template)
    return Q.spell(template, tokens)


def results(path, docs, root, keys):
    out = []
    for doc in docs:
        try:
            ms = [(m.path, m.parts, m.obj) for m in path.finditer(doc, filter_context=CONTEXT)]
        except Exception as err:  # noqa: BLE001
            out.append((type(err).__name__,))
            continue
        out.append([(normal(p, root, keys), normal_parts(p, parts, keys), v) for p, parts, v in ms])
    return out


def normal(path, root, keys):
    if path.startswith(root):
        path = "\0" + path[len(root) :]
    return path.replace(f"[{keys}]", "[\1]")


def normal_parts(path, parts, keys):
    """A key selected by the keys selector has nothing below it: only the last part can carry the token."""
    if f"[{keys}]" in path and parts and isinstance(parts[-1], str) and parts[-1].startswith(keys):
        return (*parts[:-1], "\1" + parts[-1][len(keys) :])
    return tuple(parts)


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if x != y:
                return False
            continue
        if len(x) != len(y):
            return False
        for (p1, q1, v1), (p2, q2, v2) in zip(x, y):
            if p1 != p2 or q1 != q2 or not (v1 is v2 or jsame(v1, v2)):
                return False
    return True


_WANT = {}


def want(template, docs_key, docs):
    key = (template, docs_key)
    r = _WANT.get(key)
    if r is None:
        text = Q.spell(template)
        try:
            r = results(DEFAULT_ENV.compile(text), docs, "$", "~")
        except jsonpath.JSONPathError as err:
            r = type(err).__name__
        _WANT[key] = r
    return r


SCRIPT = """
import jsonpath
from jsonpath.function_extensions import ExpressionType, FilterFunction
class Both(FilterFunction):
    arg_types = [ExpressionType.LOGICAL, ExpressionType.LOGICAL]
    return_type = ExpressionType.LOGICAL
    def __call__(self, a, b):
        return bool(a) and bool(b)
class Nodes(FilterFunction):
    arg_types = [ExpressionType.NODES]
    return_type = ExpressionType.NODES
    def __call__(self, nodes):
        return nodes
class Base(jsonpath.JSONPathEnvironment):
    def setup_function_extensions(self):
        super().setup_function_extensions()
        self.function_extensions['both'] = Both()
        self.function_extensions['nodes'] = Nodes()
class Custom(Base):
{attrs}
ctx = {context!r}
a, b = {default!r}, {text!r}
for doc in {docs}:
    print('default', Base().compile(a).findall(doc, filter_context=ctx))
    path = Custom().compile(b)
    print('custom ', path.findall(doc, filter_context=ctx))
    print('text   ', str(path))
    print('again  ', Custom().compile(str(path)).findall(doc, filter_context=ctx))
"""


def judge(ctx, env, tokens, template, docs=DOCS, docs_key="d"):
    expected = want(template, docs_key, docs)
    text = write(template, tokens)
    if not tight_ok(template, tokens):
        ctx.n_skip += 1
        return
    ctx.case((tokens, text))
    ctx.trans(2 * len(docs))

    def fail(what):
        ctx.fail(
            f"{' '.join(tokens)} :: {template_name(template)}",
            f"tokens {tokens!r}: {text!r} (default spelling {Q.spell(template)!r}) {what}",
            SCRIPT.format(
                attrs="\n".join(f"    {n} = {t!r}" for n, t in zip(Q.NAMES, tokens)), context=CONTEXT, default=Q.spell(template), text=text,
                docs=json.dumps(docs, ensure_ascii=True).replace("null", "None").replace("true", "True").replace("false", "False"),
            ),
        )  # fmt: skip

    try:
        path = env.compile(text)
    except jsonpath.JSONPathError as err:
        if type(err).__name__ != expected:
            fail(f"does not compile: {type(err).__name__}: {err}")
        return
    except Exception as err:  # noqa: BLE001
        fail(f"does not compile: {type(err).__name__}: {err}")
        return
    if isinstance(expected, str):
        fail(f"compiles, but the default spelling raises {expected}")
        return
    got = results(path, docs, env.root_token, env.keys_selector_token)
    if not same(got, expected):
        fail(f"selects {brief(got, expected)}")
        return
    string = str(path)
    try:
        again = env.compile(string)
    except Exception as err:  # noqa: BLE001
        fail(f"has the string form {string!r}, which does not compile: {type(err).__name__}: {err}")
        return
    got = results(again, docs, env.root_token, env.keys_selector_token)
    if not same(got, expected):
        fail(f"has the string form {string!r}, which selects {brief(got, expected)}")
    ctx.outcome((template, string))


def template_name(template):
    return Q.spell(template)


def brief(got, expected):
    for i, (g, w) in enumerate(zip(got, expected)):
        if not same([g], [w]):
            return f"{g!r} instead of {w!r} (document {i})"[:400]
    return "something else"


def assign(changes):
    """The default tokens with some replaced; a displaced default moves to the identifier whose spelling was taken."""
    tokens = list(Q.DEFAULT)
    spare = ["\u00a7", "\u00b6", "\u00a4", "\u00a6"]
    for idx, t in changes.items():
        tokens[idx] = t
    for j, t in enumerate(tokens):
        if j not in changes and t in changes.values():
            tokens[j] = next(s for s in ("%0", "{", "}", "`") if s not in tokens)
    del spare
    return tuple(tokens)


def chain_assignments():
    out = []
    for chain in CHAINS:
        n = len(chain)
        for off in range(n):
            for stride in (1, 5):
                out.append(tuple(chain[(off + stride * k) % n] for k in range(8)))
    return out


FULL = [
    ("R", "S", "K", "C", "W", "F", "U", "I"), ("@", "$", "_", "#", "^", "~", "&", "|"), ("$$", "$", "$$$", "$@", "@", "@@", "@$", "@@@"),
    ("r", "rr", "rrr", "r_", "_r", "_", "__", "r1"), ("%", "%%", "%%%", "%r", "r%", "%+", "+", "++"), ("\\", "\\\\", "\\d", "{2}", "}", "^$", "$|", "+"),
    ("root", "self", "key", "ctx", "keys", "wrap", "U", "X"), ("\u00e9", "\u00e9\u00e9", "\u2713", "\U0001f600", "\u00a7", "\u00b6", "\u4e2d", "\u4e2d\u4e2d"),
    ("^", "&", "|", "~", "$", "@", "_", "#"), ("#", "_", "$", "@", "|", "&", "~", "^"), ("|&", "&|", "~~", "^^", "##", "__", "|", "&"),
    ("n", "t", "i", "x", "no", "tru", "orx", "andy"), ("$a", "$b", "$c", "$d", "$e", "$f", "$", "$g"), ("@r", "@", "@rr", "@_", "@_r", "@1", "@2", "@3"),
    ("+", "{", "}", "`", "%", "\\", "^", "~"), ("~", "^", "&", "|", "#", "$", "@", "_"),
]  # fmt: skip


memoise_charsets()


def units(tier):
    full = tier == "thorough"
    out = []
    for idx in range(8):
        for i in range(0, len(LONE), 12):
            out.append(("lone", idx, i, i + 12))
    pool = POOL_T if full else POOL_Q
    for a, b in itertools.combinations(range(8), 2):
        for p in range(len(pool)):
            out.append(("pair", a, b, p, full))
    for i in range(64):
        out.append(("perm", i, 64, 1 if full else 23))
    for i in range(16):
        out.append(("chain", i, 16))
    for i in range(len(FULL)):
        for fam in ("segs1", "segs2", "tests", "compare", "logic", "compound", "names"):
            for j in range(4):
                out.append(("corpus", i, fam, j, 4, full))
    if full:
        for trio in itertools.combinations(range(8), 3):
            out.append(("triple", trio))
    return out


def run(unit, ctx):
    kind = unit[0]
    if kind == "lone":
        _, idx, lo, hi = unit
        for t in LONE[lo:hi]:
            tokens = assign({idx: t})
            go(ctx, tokens, CORE + NAME_QUERIES)
            # and with every other identifier respelled, so that nothing but the environment tells the token
            others = ["R", "S", "K", "C", "W", "F", "U", "I"]
            others[idx] = t
            go(ctx, tuple(others), FEW)
    elif kind == "pair":
        _, a, b, p, full = unit
        pool = POOL_T if full else POOL_Q
        for q in range(len(pool)):
            if p != q:
                go(ctx, assign({a: pool[p], b: pool[q]}), FEW + NAME_QUERIES[::4] if not full else CORE)
    elif kind == "triple":
        for ts in itertools.permutations(TRIPLE, 3):
            go(ctx, assign(dict(zip(unit[1], ts))), FEW)
    elif kind == "perm":
        _, i, n, stride = unit
        for tokens in itertools.islice(itertools.permutations(Q.DEFAULT), i * stride, None, n * stride):
            go(ctx, tokens, FEW[::2])
    elif kind == "chain":
        _, i, n = unit
        for tokens in chain_assignments()[i::n]:
            go(ctx, tokens, CORE + NAME_QUERIES)
    elif kind == "corpus":
        _, i, fam, j, n, full = unit
        go(ctx, FULL[i], corpus(fam, full)[j::n], Q.DOCS, "all")
    else:
        raise AssertionError(unit)


def corpus(fam, full):
    if fam == "segs1":
        return list(Q.segments(1, Q.SEGS, (R, F)))
    if fam == "segs2":
        return list(Q.segments(2, Q.SEGS if full else Q.FEW_SEGS, (R, F)))
    if fam == "names":
        return NAME_QUERIES + CORE
    if fam == "compound":
        return list(Q.compound(2)) if full else list(Q.compound(2, Q.PATHS[::2]))
    family = {"tests": "tests", "compare": "compare", "logic": "logic" if full else "logic-few"}[fam]
    places = Q.PLACES if fam == "tests" or full else Q.FEW_PLACES[:1]
    fs = Q.filters(family)
    if not full and fam in ("compare", "logic"):
        fs = fs[::5]
    return [p % f for f in fs for p in places]


def go(ctx, tokens, templates, docs=DOCS, key="d"):
    if overlapping(tokens):
        ctx.n_skip += 1
        return
    ctx.state(tokens)
    env = environment(tokens)
    for template in templates:
        judge(ctx, env, tokens, template, docs, key)
    ctx.sample(repr(tokens))
