"""Reference model of the documented non-standard syntax, on top of the RFC 9535 model.

Additions to the tuples of rfc9535.py

    query     head may also be '^' (fake root), '_' (filter context) or '' (no leading identifier, top level only)
    selector  ('k',) keys      ('b', name) bare name in brackets
    expr      ('in', a, b)  ('has', a, b)  ('re', a, pattern, flags)
    comparand ('cur',) current key   ('undef',)   ('list', (lit, ...))

The reference rendering uses the spelling of the extension first and its documented aliases as alternatives, so
that rfc9535.spellings() enumerates the spellings.
"""

from __future__ import annotations

import re as _re
from collections.abc import Mapping

from . import rfc9535 as R
from .rfc9535 import NOTHING, S, jeq, string_alt

FLAGS = {"a": _re.A, "i": _re.I, "m": _re.M, "s": _re.S}
_RX = {}


def fullmatch(pattern, flags, s):
    key = (pattern, "".join(sorted(set(flags))))
    rx = _RX.get(key)
    if rx is None:
        n = 0
        for f in flags:
            n |= FLAGS[f]
        # anchored at both ends, rather than Pattern.fullmatch
        rx = _RX[key] = _re.compile(r"\A(?:" + pattern + r")\Z", n)
    return rx.match(s) is not None


def member(item, container):
    """`item in container`: elements of arrays, substrings of strings, names of objects."""
    if isinstance(container, list):
        return any(jeq(item, e) for e in container)
    if isinstance(container, str):
        return isinstance(item, str) and container.find(item) >= 0
    if isinstance(container, dict):
        return isinstance(item, str) and any(item == k for k in container)
    return False


class Model(R.Model):
    def __init__(self, root, context=None, index_as_name=True):
        super().__init__(root, index_as_name)
        self.context = {} if context is None else context

    def query(self, q, cur):
        head = q[0]
        if head == "@":
            start = cur[0]
        elif head == "_":
            start = self.context
        elif head == "^":
            start = [self.root]
        else:
            start = self.root
        nodes = [((), start)]
        for kind, sels in q[1]:
            self.steps += 1
            if kind == "d":
                nodes = [d for n in nodes for d in R.descendants(n)]
            nodes = [m for n in nodes for s in sels for m in self.select(s, n)]
        return nodes

    def select(self, s, node):
        loc, v = node
        if s[0] == "k":
            return [(loc + (("key", k),), k) for k in v] if isinstance(v, dict) else []
        if s[0] == "b":
            return super().select(("n", s[1]), node)
        if s[0] == "f":
            return [(loc + (k,), c) for k, c in R.children(v) if self.test(s[1], (c, k))]
        return super().select(s, node)

    def test(self, e, cur):
        t = e[0]
        if t == "in":
            return member(self.value(e[1], cur), self.value(e[2], cur))
        if t == "has":
            return member(self.value(e[2], cur), self.value(e[1], cur))
        if t == "re":
            v = self.value(e[1], cur)
            return isinstance(v, str) and fullmatch(e[2], e[3], v)
        return super().test(e, cur)

    def value(self, c, cur):
        t = c[0]
        if t == "cur":
            return cur[1]
        if t == "undef":
            return NOTHING
        if t == "list":
            return [x[1] for x in c[1]]
        return super().value(c, cur)


def plain(v):
    """A mapping of any type as a dict, for the model."""
    if isinstance(v, Mapping):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def findall(q, doc, context=None):
    """(values, steps) for a query or ('|', q, q, ...)."""
    m = Model(doc, context)
    if q[0] == "|":
        return [v for x in q[1:] for _, v in m.query(x, (doc, None))], m.steps
    return [v for _, v in m.query(q, (doc, None))], m.steps


# ---------------------------------------------------------------- rendering
class Alias(tuple):
    """Alternative spellings that the documentation calls equivalent."""


WORDS = {
    True: Alias(("true", "True")), False: Alias(("false", "False")),
    None: Alias(("null", "nil", "none", "Null", "Nil", "None")),
}  # fmt: skip
AND = Alias(("&&", " and "))
OR = Alias(("||", " or "))
UNDEF = Alias(("undefined", "missing"))
NE = Alias(("<>", "!="))


def aliases(parts):
    """Keep the choices between aliases only."""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Alias):
            out.append(Alias(x if isinstance(x, str) else aliases(x) for x in p))
        elif isinstance(p, tuple):
            out.append(p[0] if isinstance(p[0], str) else aliases(p[0]))
        else:
            out.append(aliases(p))
    return out


def bare_ok(name):
    """A name that can be written without quotes in brackets."""
    if not name or name in R.RESERVED or not R.SHORTNAME_FIRST(name[0]):
        return False
    return all(R.SHORTNAME_FIRST(c) or (c.isascii() and (c.isdigit() or c == "-")) for c in name)


def render_query(q, esc=False):
    if q[0] == "|":
        parts = render_query(q[1], esc)
        for x in q[2:]:
            parts += [" | "] + render_query(x, esc)
        return parts
    parts = [q[0]]
    for i, seg in enumerate(q[1]):
        seg_parts = render_segment(seg, esc)
        if i or q[0]:
            parts.append(S)
        elif not q[0]:
            # without a root identifier, the dot in front of the first name is optional
            kind, sels = seg
            s = sels[0]
            if kind == "c" and len(sels) == 1 and s[0] in "nb" and bare_ok(s[1]) and R.shorthand_ok(s[1]):
                seg_parts = [Alias((s[1], seg_parts))]
            elif kind == "c" and len(sels) == 1 and s[0] in "wk":
                seg_parts = [Alias(("*" if s[0] == "w" else "~", seg_parts))]
        parts.extend(seg_parts)
    return parts


def render_segment(seg, esc=False):
    kind, sels = seg
    br = [".." if kind == "d" else "", "["]
    for i, s in enumerate(sels):
        br += [S, ",", S] if i else [S]
        br += render_selector(s, esc)
    br += [S, "]"]
    dot = ".." if kind == "d" else "."
    if len(sels) == 1:
        s = sels[0]
        if s[0] == "w":
            return [(dot + "*", br)]
        if s[0] == "k":
            return [Alias((dot + "~", br))]
        if s[0] == "n" and R.shorthand_ok(s[1]) and not (kind == "d" and s[1] in R.RESERVED):
            return [(dot + s[1], br)]
    return br


def render_selector(s, esc=False):
    if s[0] == "k":
        return ["~"]
    if s[0] == "b":
        return [Alias((s[1],) + tuple(string_alt(s[1], esc)))] if bare_ok(s[1]) else [string_alt(s[1], esc)]
    if s[0] == "f":
        return ["?", S] + render_expr(s[1], 0, esc)
    return R.render_selector(s, esc)


def render_expr(e, prec, esc=False):
    t = e[0]
    if t in ("or", "and"):
        p = 1 if t == "or" else 2
        parts = []
        for i, x in enumerate(e[1:]):
            if i:
                parts += [S, OR if t == "or" else AND, S]
            parts += render_expr(x, p, esc)
        return R.paren(parts, prec > p)
    if t == "not":
        x = e[1]
        if x[0] in ("cmp", "not", "in", "has", "re", "and", "or"):
            inner = ["(", S] + render_expr(x, 0, esc) + [S, ")"]
            return R.paren([Alias(("!", "not", "not "))] + inner, False)
        return R.paren([Alias(("!", "not "))] + render_expr(x, 3, esc), False)
    if t == "cmp":
        op = NE if e[1] == "!=" else e[1]
        return R.paren(render_comparand(e[2], esc) + [S, op, S] + render_comparand(e[3], esc), False)
    if t in ("in", "has"):
        # `a in b` is `b contains a`
        a, b = (e[1], e[2]) if t == "in" else (e[2], e[1])
        x, y = render_comparand(a, esc), render_comparand(b, esc)
        one, two = x + [(" in ", "\nin\t")] + y, y + [(" contains ", "\ncontains\r")] + x
        return R.paren([Alias((one, two) if t == "in" else (two, one))], False)
    if t == "re":
        return R.paren(render_comparand(e[1], esc) + [S, "=~", S, "/" + e[2] + "/" + e[3]], False)
    return R.paren(render_comparand(e, esc), False)


def render_comparand(c, esc=False):
    t = c[0]
    if t == "cur":
        return ["#"]
    if t == "undef":
        return [UNDEF]
    if t == "list":
        parts = ["["]
        for i, x in enumerate(c[1]):
            parts += [S, ",", S] if i else [S]
            parts += render_comparand(x, esc)
        return parts + [S, "]"]
    if t == "lit":
        if len(c) > 2:
            return [c[2]]
        v = c[1]
        if v is None or isinstance(v, bool):
            return [WORDS[v]]
        return R.render_comparand(c, esc)
    if t == "q":
        return render_query(c[1], esc)
    if t == "fn":
        parts = [c[1] + "(", S]
        for i, a in enumerate(c[2]):
            if i:
                parts += [S, ",", S]
            parts += render_comparand(a, esc) if a[0] in ("lit", "q", "fn", "cur") else render_expr(a, 0, esc)
        return parts + [S, ")"]
    raise AssertionError(c)


def text_of(q):
    return R.default_text(render_query(q))
