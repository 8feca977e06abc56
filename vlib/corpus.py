"""Bounded grammar of standard and extended queries, written with abstract identifiers.

A template is query text in which the eight configurable identifiers are private-use characters, so that the
same query can be spelled with any assignment of identifier tokens.
"""

from __future__ import annotations

import itertools

R, S, K, C, W, F, U, I = (chr(0xE100 + i) for i in range(8))  # noqa: E741
NAMES = (
    "root_token", "self_token", "key_token", "filter_context_token", "keys_selector_token", "fake_root_token",
    "union_token", "intersection_token",
)  # fmt: skip
DEFAULT = ("$", "@", "#", "_", "~", "^", "|", "&")


def spell(template, tokens=DEFAULT):
    return template.translate({0xE100 + i: t for i, t in enumerate(tokens)})


CONTEXT = {"x": 1, "n": ["a", 0, {"b": 2}], "m": {"a": "b", "b": [1]}, "b": None}

DOCS = [
    {"a": 1, "b": {"a": [1, 2, {"b": 1}], "b": "ab"}, "c": [{"a": 1, "b": None}, {"a": "a"}, "a", [0, 1], {}]},
    [{"a": "a", "b": [1, "b"]}, {"b": 1}, "ab", 0, None, True, [1, [2, {"a": 1}]], {"a": None, "b": {"a": 1}}, 1.0],
    {"a": [{"a": True}, {"a": 1, "b": "1"}], "b": ["b", "", False, {"a": [], "b": {}}], "0": {"a": 2}},
    [["a", "b"], {"a": {"a": {"a": "A"}}}, {"x": 1, "a": -0.0}],
    [], {}, 1, None, True, '"ab"', [""], {"a": "abc"},
]  # fmt: skip

SEGS = [
    ".a", ".b", "['a']", '["b"]', "[0]", "[-1]", "[1:]", "[::-1]", "[0:3:2]", "[*]", ".*", "..a", "..*", "..[0]", "..[-2:]",
    "['a', 0]", "[0, 0]", "['b', *, -1]", f"[{W}]", f".{W}", f"..{W}", f"[{W}, 'a', 1:]", "[a]", "[a, b]", f"[?{S}.a]",
    f"[?{S}.a == {R}.a]", f"[?{K} == 'a']", f"..[?{S}.a]", f"['a', ?{S}.b]", f"[?{S}[?{S}.a]]", f"[?{S} == {C}.x]",
]  # fmt: skip
FEW_SEGS = [".a", "[0]", "[-2:]", "[*]", "..a", "..*", "['b', 0]", f"[{W}]", f"[?{S}.a == {R}.a]", f"[?{C}.x == {S}]", f"[?{K}]"]

SINGULAR = [
    S, f"{S}.a", f"{S}['b'][0]", f"{S}[-1]", f"{S}.b.a", f"{R}.a", f"{R}[0].a", f"{R}.b['a'][0]", f"{C}.x", f"{C}.n[0]", f"{C}.m.b",
    K,
]  # fmt: skip
LITERALS = [
    "1", "0", "-1", "1.0", "1.5e1", "'a'", '"ab"', "''", "true", "False", "null", "nil", "None", "undefined", "missing",
]  # fmt: skip
VALUE_FUNCS = [
    f"length({S})", f"length({S}.a)", f"count({S}.*)", f"count({R}..a)", f"value({S}..a)", f"value({R}.a)", f"length({C}.n)",
    f"typeof({S}.a)", f"count({C}.*)", f"length(value({S}.b))",
]  # fmt: skip
OPERANDS = SINGULAR + LITERALS + VALUE_FUNCS
FEW_OPERANDS = [S, f"{S}.a", f"{R}.a", f"{C}.x", K, "1", "'a'", "nil", "undefined", f"length({S})", f"count({R}..a)"]
COMPARE = ["==", "!=", "<", ">", "<=", ">=", "<>"]
MEMBERSHIP = [
    f"{S} in {R}.b", f"{S}.a in ['a', 1, nil]", f"{S} in [1, 'a', true]", f"'a' in {S}", f"{S} contains 'a'", f"{S}.b contains {S}.a",
    f"{R}.a contains {S}", f"{K} in {C}.n", f"{C}.n contains {S}.a", f"{K} in ['a', 0]", f"'b' in {C}.m",
    f"[1, 2] contains {S}", f"{S} in {S}", f"{S}.a in {C}.n", f"'a' in 'ab'",
]  # fmt: skip
REGEX = [
    f"{S} =~ /a.*/", f"{S}.a =~ /A/i", f"{C}.n[0] =~ /a/", f"{K} =~ /[ab]/", f"{R}.b.b =~ /a./", f"match({S}.a, 'a.*')",
    f"search({S}, 'b')", f"match({K}, {C}.n[0])", f"search({R}.b.b, {S})", f"{S}.b =~ /.*B.*/ims",
]  # fmt: skip
EXISTS = [
    S, f"{S}.a", f"{S}.*", f"{S}..a", f"{S}[0, 1]", f"{S}[?{S}.a]", f"{S}[?{S}.a == {R}.a]", f"{S}[?{K} == 'a']", f"{S}[?{S} == {C}.x]",
    f"{R}", f"{R}.a", f"{R}..zz", f"{R}[?{S}.a == 1]", f"{R}[?{S}.a].b", f"{C}.x", f"{C}.zz", f"{C}.*", f"{C}.n[?{S}.b]", f"{S}.{W}",
    f"{S}[{W}, 'a']", K, f"isinstance({S}, 'str')", f"is({S}.a, 'int')", f"{S}[?{S}[?{S} == {C}.x]]", f"{S}[?{R}.a == {S}]",
    f"{R}.c[?{S}.a == {C}.x]", f"{C}.n[?{S} == {R}.a]", f"{S}..[?{S} == 1]",
]  # fmt: skip


def comparisons(full=False):
    ops = OPERANDS if full else FEW_OPERANDS
    for left, op, right in itertools.product(OPERANDS, COMPARE if full else ["==", "<"], ops):
        yield f"{left} {op} {right}"
    if not full:
        for left, op, right in itertools.product(FEW_OPERANDS, ["!=", "<=", "<>", ">", ">="], FEW_OPERANDS):
            yield f"{left} {op} {right}"


def tests():
    return EXISTS + MEMBERSHIP + REGEX


ATOMS = [
    f"{S}.a", f"{S}.a == 1", f"{R}.a", f"{R}.a == {S}.a", f"{C}.x == {S}", f"{K} == 'a'", f"{S} in {C}.n", f"{S}[?{S}.a == {C}.x]",
    f"match({S}.a, 'a')", f"count({R}..a) > 2", "1 == 1", f"{S} =~ /a.*/i",
]  # fmt: skip
FEW_ATOMS = [f"{S}.a", f"{S}.a == 1", f"{R}.a == {S}.a", f"{C}.zz", f"{K} != 'a'", f"match({S}.a, 'a')"]


def logic(atoms=ATOMS, few=FEW_ATOMS):
    """Every shape of one to three connectives."""
    for a in atoms:
        yield f"!{a}" if is_test(a) else f"!({a})"
        yield f"not ({a})"
        yield f"({a})"
        yield f"!!({a})"
    for a, b in itertools.product(atoms, repeat=2):
        for op in ("&&", "||"):
            yield f"{a} {op} {b}"
        yield f"!({a} && {b})"
        yield f"!({a}) or {b}"
        yield f"{a} and not ({b})"
    for a, b, c in itertools.product(few, repeat=3):
        for o1, o2 in itertools.product(("&&", "||"), repeat=2):
            yield f"{a} {o1} {b} {o2} {c}"
            yield f"({a} {o1} {b}) {o2} {c}"
            yield f"{a} {o1} ({b} {o2} {c})"
            yield f"!({a} {o1} {b}) {o2} !({c})"


def is_test(a):
    return not any(op in a.split("[")[0] for op in (" == ", " != ", " < ", " > ", " in ", " =~ "))


PLACES = ["{R}[?%s]", "{R}..[?%s]", "{R}.b[?%s]", "{F}[?%s]", "{R}[0, ?%s, 'a']", "{R}[?{S}[?%s]]", "{R}[?count({S}[?%s]) == 1]"]
PLACES = [p.format(R=R, S=S, F=F) for p in PLACES]
FEW_PLACES = [PLACES[0], PLACES[5]]

PATHS = [
    R, f"{R}.a", f"{R}.b", f"{R}[*]", f"{R}..a", f"{R}..*", f"{R}[?{S}.a]", f"{R}.b.*", f"{F}", f"{F}[?{S}.a]", f"{R}.{W}", f"{R}[0]",
    f"{R}.zz", f"{R}.c[?{S}.a == {R}.a]", "a", f"{R}[?{S} == {C}.x]",
]  # fmt: skip


def compound(n, paths=PATHS):
    for ps in itertools.product(paths, repeat=n):
        for ops in itertools.product((U, I), repeat=n - 1):
            out = ps[0]
            for o, p in zip(ops, ps[1:]):
                out += f" {o} {p}"
            yield out


def segments(n, segs=SEGS, roots=(R,)):
    for r in roots:
        for ss in itertools.product(segs, repeat=n):
            yield r + "".join(ss)
        if r == R:
            # no leading identifier
            for ss in itertools.product(segs, repeat=n):
                if not ss or ss[0].startswith("."):
                    continue
                yield "".join(ss)


def filters(family):
    if family == "compare":
        return list(comparisons(False))
    if family == "compare-full":
        return list(comparisons(True))
    if family == "tests":
        return tests()
    if family == "logic":
        return list(logic())
    if family == "logic-few":
        return list(logic(FEW_ATOMS, FEW_ATOMS[:4]))
    raise AssertionError(family)
