"""C10: a compiled query's string form recompiles to an equivalent query."""

from __future__ import annotations

import itertools
import json
import math

import jsonpath
from checks import c01
from checks import c02
from checks import c06
from checks.c08 import sync_iter
from vlib import corpus as Q

PROP = "C10"
LEVEL = "model_checking"
TECHNIQUE = (
    "bounded exhaustive exploration of the real implementation: every query of a bounded grammar and every accepted "
    "token sequence up to a length goes through compile, text, compile, text; both compiled queries run on every document"
)
LEVEL_NOTE = (
    "equivalence of the two compiled queries is decided by running both on a fixed set of documents per family (truth "
    "tables, number and string neighbours, mixed shapes); nothing is claimed beyond the bounds"
)
RULE = (
    "an execution is one round trip of one accepted query text; two executions are distinct when their canonical text or "
    "their results differ"
)
ASSUMPTIONS = [
    "two queries are equivalent when they yield the same locations, parts and values (or the same class of error) on every "
    "document of the family",
    "queries are given to the default environment; a query it rejects is not judged here",
]
BOUNDS = {
    "quick": {
        "segments": "1-2 out of 31 segments x roots $, ^ and none x 12 documents; 3 out of 11",
        "names and strings": "every pair of 45 characters in up to 6 spellings",
        "numbers": "50 spellings x 9 positions against values and neighbours",
        "regular expressions": "patterns to length 3 over 16 characters, inline flags, every flag set",
        "logic": "every tree of up to 3 connectives with negation at any node, minimal and full parentheses, 4 kinds of atoms",
        "operands": "every pair of expressions with up to one operator, parentheses and negation anywhere, under a third operator: "
        "5 operators and 3 atoms completely, a fixed selection of 70 operands each for 3 other sets",
        "filters": "corpus filters x places; functions; nested filters",
        "compound": "2-3 operands out of 16",
        "accepted texts": "token sequences to length 3 over 46 tokens in 6 contexts, to length 4 over 24 in 4; single edits of 78 texts",
    },
    "thorough": {
        "segments": "3 out of 31",
        "operands": "selections of 260 operands out of 4 sets",
        "logic": "4 connectives",
        "accepted texts": "token sequences to length 3 over 62 tokens, 4 over 40; double edits",
    },
}

ENV = jsonpath.JSONPathEnvironment()

SCRIPT = """
import jsonpath
query, docs, context = {q!r}, {docs}, {fctx!r}
p = jsonpath.compile(query)
text = str(p)
print(query, '->', text)
r = jsonpath.compile(text)
assert str(r) == text, ('not a fixed point', str(r))
for doc in docs:
    def run(x):
        try:
            return [(m.path, m.parts, repr(m.obj)) for m in x.finditer(doc, filter_context=context)]
        except Exception as e:
            return repr(type(e))
    a, b = run(p), run(r)
    assert a == b, (doc, a, b)
"""


def src(docs):
    return repr(docs).replace("-inf", "-float('inf')").replace(" inf", " float('inf')").replace("[inf", "[float('inf')")


class Trip:
    """Round trips against one set of documents."""

    def __init__(self, ctx, docs, fctx=None):
        self.ctx = ctx
        self.docs = docs
        self.fctx = Q.CONTEXT if fctx is None else fctx
        self.cache = {}

    def fail(self, q, kind, msg):
        self.ctx.fail(f"{kind} {q}", f"{q!r}: {msg}", SCRIPT.format(q=q, docs=src(self.docs), fctx=self.fctx))

    def observe(self, p):
        return [sync_iter(p, d, self.fctx) for d in self.docs]

    def go(self, q, must=False):
        ctx = self.ctx
        try:
            p = ENV.compile(q)
        except Exception as e:  # noqa: BLE001
            if must:
                raise RuntimeError(f"the harness's query {q!r} does not compile: {e}") from e
            return False
        ctx.case(q)
        ctx.trans(3 + 2 * len(self.docs))
        text = str(p)
        if text not in self.cache:
            if len(self.cache) > 20_000:
                self.cache.clear()
            try:
                r = ENV.compile(text)
            except Exception as e:  # noqa: BLE001
                self.cache[text] = ("bad", f"{type(e).__name__}: {e}")
            else:
                self.cache[text] = (str(r), self.observe(r))
        again, there = self.cache[text]
        if again == "bad":
            self.fail(q, "recompile", f"its text {text!r} does not compile: {there}")
            return True
        if again != text:
            self.fail(q, "fixed point", f"its text {text!r} compiles to a query with text {again!r}")
            return True
        here = self.observe(p)
        if here != there:
            for d, a, b in zip(self.docs, here, there):
                if a != b:
                    self.fail(q, "matches", f"its text {text!r} gives {str(b)[:100]} instead of {str(a)[:100]} on {str(d)[:100]}")
                    return True
        ctx.state(text)
        ctx.outcome((text, repr(here)[:200]))
        ctx.sample({"query": q, "text": text}, 1)
        return True


# ------------------------------------------------------------------------------------------ strings
def spellings(s):
    """Every way of writing a string literal that the generator knows of, without duplicates."""
    d = json.dumps(s, ensure_ascii=False)[1:-1]
    e = json.dumps(s)[1:-1]
    single = [x.replace('\\"', '"').replace("'", "\\'") for x in (d, e)]
    every = "".join(u16(c) for c in s)
    out = [f'"{d}"', f'"{e}"', f"'{single[0]}'", f"'{single[1]}'", f"'{every}'", f'"{every}"', '"%s"' % d.replace("/", "\\/")]
    return list(dict.fromkeys(out))


def u16(c):
    b = c.encode("utf-16-be", "surrogatepass")
    return "".join("\\u%02x%02x" % (b[i], b[i + 1]) for i in range(0, len(b), 2))


CHARS = c01.NAME_CHARS
STRINGS = [""] + list(CHARS) + [a + b for a in CHARS for b in CHARS]

# ------------------------------------------------------------------------------------------ numbers
NUMBERS = list(dict.fromkeys([t for t, _ in c02.NUMBERS] + [
    "1e400", "-1e400", "1.0e400", "1.5e400", "-1.5E+400", "10000000000000000.0", "1e16", "1.0e16", "1e-7", "1E-400", "-1e-400", "1.",
    "-1.", "1.e5", "1.5e-10", "100000000000000000000000.5", "123456789.123456789", "0.1e1", "2.50", "1e308", "1e309", "-0.0e5", "-0e5",
    "9007199254740993.0", "1" + "0" * 400, "1" + "0" * 320, "9" * 60, "1e0001", "00", "007", "1e+0", "4.9e-324", "2.2250738585072014e-308",
    "1.1e+17", "-1e+22", "1e-5", "0.00001", "0.0001", "12345678901234567.5",
]))  # fmt: skip


def neighbours():
    out = [None, True, False, "1", "", "a", [1], [1.0], 0, -1, 1, 2, 10, 100]
    for t in NUMBERS:
        try:
            vals = [float(t)]
        except ValueError:
            continue
        if all(c in "-0123456789" for c in t):
            vals.append(int(t))
        for v in vals:
            out.append(v)
            if isinstance(v, int):
                out += [v - 1, v + 1]
            elif math.isinf(v):
                out += [10**400, -(10**400)]
            else:
                out += [math.nextafter(v, math.inf), math.nextafter(v, -math.inf)]
                if v == int(v):
                    out += [int(v), int(v) + 1]
    return out


NUMBER_FORMS = [
    "$[?@ == %s]", "$[?@ < %s]", "$[?%s >= @]", "$[?@ in [%s]]", "$[?@ in ['x', %s, nil]]", "$[?[%s] contains @]",
    "$[?is(%s, 'int')]", "$[?isinstance(%s, 'float')]", "$[?length(%s) == @]", "$[?@ != %s && @ != 'x']", "$[?typeof(%s) == 'number']",
    "$[?!(@ == %s)]", "$[?%s == @ || @ == 'q']",
]  # fmt: skip

# ------------------------------------------------------------------------------------------ regexes
RE_CHARS = ["a", "B", ".", "*", "?", "(", ")", "[", "]", "|", "^", "$", "\\", "'", '"', " ", "\n", "\u0430"]
RE_SUBJECTS = ["", "a", "A", "b", "B", "aa", "ab", "AB", "a\nb", "\n", ".", "\\", "'", '"', " ", "(", "[a]", "|", "a|B", "\u0430", "\u0410", 1, None]
RE_EXTRA = [
    "(?i)a", "(?s).b", "(?m)^b", "(?x) a b", "(?a)\\w", "(?i)(?s)A.b", "(?i:a)B", "(?-i:a)", "\\d", "\\w+", "\\s", "\\n", "\\'", "\\\"", "\\\\",
    "\\.", "[\\]a]", "(a)(B)?\\1", "a{1,2}", "(?P<n>a)(?P=n)", "\\u0430", "\\x41", "(?=a)", "a#b", "  ", "\t", "'x'", '"x"', "&&", "||", "[^a]", "]",
]  # fmt: skip
FLAG_SETS = ["".join(c) for n in range(5) for c in itertools.combinations("aims", n)] + ["ii", "sa", "mi", "ism", "smia", "aimsaims"]

# ------------------------------------------------------------------------------------------ logic
TESTS = ["@.p", "@.q", "@.r", "@.s", "@.t"]
TRUTH = [dict(zip("pqrst", (1,) * 5))]


def table(n, names="pqrst"):
    """One object per assignment: member present with value 1, or missing."""
    return [{k: 1 for k, b in zip(names, bits) if b} for bits in itertools.product((0, 1), repeat=n)]


def trees(lo, hi):
    """Expressions over leaves lo..hi-1: ("x", i) | ("!", e) | (op, l, r)."""
    base = []
    if hi - lo == 1:
        base = [("x", lo)]
    for mid in range(lo + 1, hi):
        for left in trees(lo, mid):
            for right in trees(mid, hi):
                base.append(("&&", left, right))
                base.append(("||", left, right))
    return base + [("!", e) for e in base]


def level(e):
    return {"||": 1, "&&": 2, "!": 3, "x": 4}[e[0]]


def minimal(e, atoms, words=False):
    k = e[0]
    if k == "x":
        return atoms[e[1]]
    if k == "!":
        r = e[1]
        t = minimal(r, atoms, words)
        bare = r[0] == "!" or (r[0] == "x" and simple(atoms[r[1]]))
        return ("not " if words else "!") + (t if bare else f"({t})")
    parts = []
    for x in e[1:]:
        t = minimal(x, atoms, words)
        parts.append(f"({t})" if level(x) < level(e) else t)
    op = {"&&": "and", "||": "or"}[k] if words else k
    return f"{parts[0]} {op} {parts[1]}"


def full(e, atoms):
    k = e[0]
    if k == "x":
        return f"({atoms[e[1]]})"
    if k == "!":
        return f"(!{full(e[1], atoms)})"
    return f"({full(e[1], atoms)} {k} {full(e[2], atoms)})"


def bare(e, atoms):
    """Without any parentheses: whatever grouping the parser chooses."""
    k = e[0]
    if k == "x":
        return atoms[e[1]]
    if k == "!":
        return "!" + bare(e[1], atoms)
    return f"{bare(e[1], atoms)}{k}{bare(e[2], atoms)}"


def simple(a):
    return " " not in a


ATOM_KINDS = {
    "tests": ["@.p", "@.q", "@.r", "@.s", "@.t"],
    "cmp": ["@.p == 1", "@.q > 0", "1 == @.r", "@.s != undefined", "@.t == 1"],
    "mixed": ["@.p", "@.q == 1", "'r' in @", "is(@.s, 'int')", "@.t"],
    "mixed2": ["@.p == 1", "@[?@.q]", "search('r', 'r')", "@ contains 's'", "@.t"],
}

# ------------------------------------------------------------------------------------------ operands
OP_DOC = [
    1, True, False, None, "a", {"a": 1}, {"a": True}, {"a": False}, {"a": None}, {"a": "a"}, {"a": [1, True]}, {"a": [False]}, {}, [],
    [True, 1], [False], {"a": {"a": 1}}, {"a": []}, {"a": [{"a": 1}]}, {"a": {"1": 1, "true": 2, "a": 1}}, 0, "",
]  # fmt: skip
OP_ATOMS = {
    "few": (["@.a", "1", "true"], ["==", "<", "in", "&&", "||"]),
    "more": (["@.a", "@", "false", "'a'"], ["!=", "<=", "contains", "&&", "||"]),
    "funcs": (["@.a", "value(@.a)", "is(@.a, 'int')", "length(@.a)"], ["==", "in", "&&", "=~"]),
    "other": (["@.*", "$[5].a", "#", "[1, true]", "/a/", "nil"], ["==", "in", "contains", "=~", "||"]),
    "wide": (["@.a", "1", "true", "@", "_.x"], ["==", "!=", ">=", "in", "contains", "&&", "||"]),
}


def level1(atoms, ops):
    out = []
    for a in atoms:
        out += [a, f"!{a}", f"({a})", f"!({a})", f"(!{a})"]
    for a, o, b in itertools.product(atoms, ops, atoms):
        t = f"{a} {o} {b}"
        out += [t, f"({t})", f"!({t})", f"!{t}", f"(!({t}))"]
    return out


FUNC_ARGS = ["count(%s) == 1", "length(%s) == 1", "value(%s) == 1", "is(%s, 'bool')", "typeof(%s) == 'boolean'", "match(%s, 'a')",
             "search('a', %s)", "isinstance(@.a, %s)", "is(%s, 'int') && @.a", "value(%s)", "length(value(%s)) == 1"]  # fmt: skip
FUNC_ATOMS = ["@.a", "@", "$[5].a", "$.a", "true", "1", "'a'", "@.*", "@['a']", "nil", "1.5", "^[0]", "_.x", "#"]

# ------------------------------------------------------------------------------------------ documents
MIXED = [
    Q.DOCS[0], Q.DOCS[1], Q.DOCS[2],
    {"a": {"a": [1, "a", {"a": 1.5}], "b": "ab"}, "b": [0, "b", None, True, ["a"]], "c": {}, "e": -1, "1": [1], "ab": "x"},
    ["a", 0, {"a": "a", "b": 0}, {"b": [1, 2, 3]}, -1, [0, 1, 2], "", None, "ab", True, 100],
]  # fmt: skip

TOKENS46 = list(dict.fromkeys(c06.SMALL + [
    "$", "@", "_", "^", "|", "&", ".", "||", "not", "contains", "<>", "<", "=~", "0", "1:", "..a", "nil", "true", "undefined", "$.b", "_.x", "/a/i",
    "\"it's\"", "'\\''", "is(",
]))  # fmt: skip
CONTEXTS = ["%s", "$%s", "$[%s]", "$[?%s]", "$[?@.a %s]", "$[?is(%s, 'int')]"]

CORPUS = c06.CORPUS + [
    "^", "^.a", "^[?@.a]", "^[0].a | $.a", "$.a | ^.a & $.b", "$[?^[0].a == @.a]", "$[?!@.a == 1]", "$[?!(@.a == 1)]",
    "$[?(@.a == 1) == true]", "$[?(!@.a) == true]", "$[?@.a == (1 == 1)]", "$[?(@.a in ['x']) == false]", "$..1:2", "$1:2", "$.a.1:", "$..",
    "$.a..", "$..~", "$.~.~", "~", "*", "1:2:3", "a", "..a", ".a", "['a']['b']", "$[?@.a == 1e400]", "$[?@.a == -0.0]", "$[?@.a =~ /(?i)a/]",
    "$[?_]", "$[?#]", "$[?_ == 1]", "$[?@[?$[?^[?_.a]]]]", "$[?'a' == \"'\"]",
    "$[?@.a == 'it\\'s \"x\" \\\\ \\u0000']", "$[?count(@[?@.a || @.b]) == count(^.*)]",
]  # fmt: skip


# ------------------------------------------------------------------------------------------ units
def units(tier):
    th = tier == "thorough"
    out = []
    for i in range(16):
        out.append(("segs", 1, 2, "all", i, 16))
    for i in range(16 if not th else 64):
        out.append(("segs", 3, 3, "all" if th else "few", i, 16 if not th else 64))
    for i in range(12):
        out.append(("names", i, 12))
        out.append(("strings", i, 12))
    out.append(("numbers",))
    for i in range(16):
        out.append(("regex", 3, i, 16))
    for k in ATOM_KINDS:
        for n in (1, 2, 3):
            out.append(("logic", k, n, 0, 1))
        for i in range(8):
            out.append(("logic", k, 4, i, 8))
        if th and k in ("tests", "mixed"):
            for i in range(48):
                out.append(("logic", k, 5, i, 48))
    for i in range(16):
        out.append(("operands", "few", 1000, i, 16))
    for s in ("more", "funcs", "other") + (("wide",) if th else ()):
        for i in range(16):
            out.append(("operands", s, 260 if th else 70, i, 16))
    for i in range(8):
        out.append(("args", i, 8))
    for fam in ("tests", "compare-full" if th else "compare", "logic" if th else "logic-few"):
        for i in range(16):
            out.append(("filters", fam, i, 16))
    for i in range(4):
        out.append(("compound", 2, i, 4))
    for i in range(16):
        out.append(("compound", 3, i, 16))
    toks = c06.TOKENS if th else TOKENS46
    for c in range(len(CONTEXTS)):
        for t in range(len(toks)):
            out.append(("tokens", "big" if th else "mid", 3, c, t))
    for c in (0, 2, 3, 4):
        for t in range(len(c06.SMALL)):
            out.append(("tokens", "small", 4, c, t))
    if th:
        for c in (2, 3, 4):
            for t in range(len(TOKENS46)):
                out.append(("tokens", "mid", 4, c, t))
    for i in range(len(CORPUS)):
        out.append(("edits", i))
        if th:
            out.append(("edits2", i))
    return out


def part(it, i, n):
    return itertools.islice(it, i, None, n)


def run(unit, ctx):
    kind = unit[0]
    globals()["u_" + kind](ctx, *unit[1:])


def u_segs(ctx, lo, hi, which, i, n):
    t = Trip(ctx, Q.DOCS + [{"a": Q.DOCS[1]}])
    for k in range(lo, hi + 1):
        for q in part(Q.segments(k, Q.SEGS if which == "all" else Q.FEW_SEGS, (Q.R, Q.F)), i, n):
            t.go(Q.spell(q), True)


def u_names(ctx, i, n):
    t = Trip(ctx, [{s: j for j, s in enumerate(STRINGS)}])
    for s in part(STRINGS, i, n):
        for lit in spellings(s):
            t.go(f"$[{lit}]")
            t.go(f"$..[{lit}, 0]")
        t.go(f"$.{s}")
        t.go(f"${s}")
        t.go(f"$[{s}]")


def u_strings(ctx, i, n):
    t = Trip(ctx, [STRINGS[:: 7 if i % 2 else 5] + list(CHARS) + [""]])
    mine = list(part(STRINGS, i, n))
    for a in range(0, len(mine), 40):
        chunk = mine[a : a + 40]
        t = Trip(ctx, [chunk + list(CHARS) + ["", 1, None]])
        for s in chunk:
            for lit in spellings(s):
                t.go(f"$[?@ == {lit}]")
                t.go(f"$[?@ in [{lit}, 'q', {lit}]]")
            lit = spellings(s)[0]
            for f in ("$[?search(@, %s)]", "$[?length(%s) == 2 && @ == %s]", "$[?!(%s < @)]", "$[?typeof(%s) == @ || %s contains @]"):
                t.go(f.replace("%s", lit))


def u_numbers(ctx):
    t = Trip(ctx, [neighbours()])
    for num in NUMBERS:
        for f in NUMBER_FORMS:
            t.go(f % num)
    t = Trip(ctx, [list(range(12)), {str(i): i for i in range(-3, 12)}, Q.DOCS[1]])
    nums = ["", "0", "1", "-1", "2", "10", "-10", "9007199254740991", "-9007199254740991"]
    for a in nums:
        t.go(f"$[{a}]")
    for a, b, c in itertools.product(nums, repeat=3):
        for f in ("$[%s:%s:%s]", "$..[ %s : %s : %s ]", "$%s:%s:%s", "$[%s:%s, %s:]"):
            t.go(f % (a, b, c))


def u_regex(ctx, n, i, m):
    t = Trip(ctx, [RE_SUBJECTS])
    pats = itertools.chain.from_iterable(itertools.product(RE_CHARS, repeat=k) for k in range(1, n + 1))
    for p in part(pats, i, m):
        t.go("$[?@ =~ /%s/]" % "".join(p))
        t.go("$[?@ =~ /%s/i && !(@ =~ /x/s)]" % "".join(p))
    if i == 0:
        for p in RE_EXTRA:
            for f in FLAG_SETS:
                t.go(f"$[?@ =~ /{p}/{f}]")
                t.go(f"$[?(@ =~ /{p}/{f}) || @ =~ /{p}/]")
                t.go(f"$[?/{p}/{f} == @]")
        for a, b in itertools.product(RE_CHARS, repeat=2):
            for f in FLAG_SETS:
                t.go(f"$[?@ =~ /{a}{b}/{f}]")


def u_logic(ctx, atoms, n, i, m):
    a = ATOM_KINDS[atoms]
    docs = [table(n) + ([{"p": {"q": 1}}, {"q": {"q": 1}, "r": 1}] if n > 1 else [])]
    t = Trip(ctx, docs)
    for j, e in enumerate(part(trees(0, n), i, m)):
        t.go("$[?%s]" % minimal(e, a), True)
        if n < 5:
            t.go("$[?%s]" % full(e, a), True)
            t.go("$[?%s]" % bare(e, a))
        if n < 4:
            t.go("$[?%s]" % minimal(e, a, True), True)
            t.go("$[?@[?%s]]" % minimal(e, a))
            t.go("$[?(%s) == true]" % minimal(e, a))


def u_operands(ctx, which, limit, i, m):
    atoms, ops = OP_ATOMS[which]
    t = Trip(ctx, [OP_DOC])
    one = level1(atoms, ops)
    one = [x for x in one if not x.startswith("(!(")] + [x for x in one if x.startswith("(!(")]
    if i == 0:
        for x in one:
            t.go(f"$[?{x}]")
    # a fixed selection of operands, all of them when the set is small
    step = max(1, -(-len(one) // limit))
    keep = one[::step]
    for x in part(iter(keep), i, m):
        for o in ops:
            for y in keep:
                t.go(f"$[?{x} {o} {y}]")
                if limit >= 260:
                    t.go(f"$[?!({x} {o} {y})]")


def u_args(ctx, i, m):
    t = Trip(ctx, [OP_DOC, {"a": OP_DOC}])
    for ops in (["==", "in", "&&", "||", "contains"],):
        for x in part(iter(level1(FUNC_ATOMS, ops)), i, m):
            for f in FUNC_ARGS:
                t.go("$[?%s]" % (f % x))


def u_filters(ctx, fam, i, m):
    t = Trip(ctx, Q.DOCS[:5] if fam != "tests" else Q.DOCS)
    for f in part(iter(Q.filters(fam)), i, m):
        for p in Q.PLACES if fam == "tests" else Q.FEW_PLACES:
            t.go(Q.spell(p % f), True)


def u_compound(ctx, n, i, m):
    t = Trip(ctx, Q.DOCS[:6])
    for q in part(Q.compound(n), i, m):
        t.go(Q.spell(q), True)


def u_tokens(ctx, which, n, c, first):
    toks = {"big": c06.TOKENS, "mid": TOKENS46, "small": c06.SMALL}[which]
    t = Trip(ctx, MIXED[2:])
    frame = CONTEXTS[c]
    for k in range(n):
        for rest in itertools.product(toks, repeat=k):
            body = (toks[first],) + rest
            t.go(frame % "".join(body))
            if k and which != "big":
                t.go(frame % " ".join(body))
            ctx.trans()


def u_edits(ctx, i):
    t = Trip(ctx, MIXED)
    base = CORPUS[i]
    t.go(base, True)
    for q in single_edits(base):
        t.go(q)


def single_edits(base):
    for j in range(len(base) + 1):
        if j < len(base):
            yield base[:j] + base[j + 1 :]
            yield base[j:]
            yield base[:j]
            yield base[:j] + base[j] * 2 + base[j + 1 :]
        for c in c06.CHARS:
            yield base[:j] + c + base[j:]
            if j < len(base):
                yield base[:j] + c + base[j + 1 :]
    for j in range(len(base)):
        for k in range(j + 2, len(base)):
            yield base[:j] + base[k:]


def u_edits2(ctx, i):
    t = Trip(ctx, MIXED[2:])
    base = CORPUS[i]
    pairs = [("(", ")"), ("!(", ")"), ("[", "]"), ("'", "'"), ('"', '"'), ("^", ""), ("!", "!"), (" ", " "), ("(", ""), ("1:", ""), ("$", "@")]
    for a, b in pairs:
        for j in range(len(base) + 1):
            for k in range(j, len(base) + 1):
                t.go(base[:j] + a + base[j:k] + b + base[k:])
