"""Reference model of RFC 9535, written from the RFC text and independent of the library.

Queries are plain tuples.

    query     ('$'|'@', (segment, ...))
    segment   ('c'|'d', (selector, ...))                 child / descendant
    selector  ('n', name) ('i', index) ('s', a, b, c) ('w',) ('f', expr)
    expr      ('or', e, e..) ('and', e, e..) ('not', e) ('cmp', op, a, b)
              ('q', query)                               existence test
              ('fn', name, args)                         function used as a test
    comparand ('lit', v) ('q', query) ('fn', name, args)
    fn args   comparand | ('q', query) | expr

A node is (location tuple, value).
"""

from __future__ import annotations


class _Nothing:
    def __repr__(self):
        return "Nothing"


NOTHING = _Nothing()


# ---------------------------------------------------------------- JSON values
def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def jeq(a, b):
    """RFC 8259 values compared deeply; a boolean is never a number."""
    if a is NOTHING or b is NOTHING:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if a is None or b is None:
        return a is None and b is None
    if isnum(a) or isnum(b):
        return isnum(a) and isnum(b) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, list) or isinstance(b, list):
        return (
            isinstance(a, list)
            and isinstance(b, list)
            and len(a) == len(b)
            and all(jeq(x, y) for x, y in zip(a, b))
        )
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and jeq(v, b[k]) for k, v in a.items())
    return False


def jsame(a, b):
    """Same JSON value *and* same representation: types, member order (used for exact nodelists)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(jsame(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(jsame(a[k], b[k]) for k in a)
    return a == b or a is b


def jlt(a, b):
    if isnum(a) and isnum(b):
        return a < b
    if isinstance(a, str) and isinstance(b, str):
        # Unicode scalar values
        return a < b
    return False


def compare(op, a, b):
    if op == "==":
        return jeq(a, b)
    if op == "!=":
        return not jeq(a, b)
    if op == "<":
        return jlt(a, b)
    if op == ">":
        return jlt(b, a)
    if op == "<=":
        return jlt(a, b) or jeq(a, b)
    if op == ">=":
        return jlt(b, a) or jeq(a, b)
    raise AssertionError(op)


# ---------------------------------------------------------------- selectors
def slice_indices(n, start, end, step):
    """RFC 9535 2.3.4.2.2, transcribed."""
    if step is None:
        step = 1
    if step == 0:
        return []

    def normalize(i):
        return i if i >= 0 else n + i

    if start is None:
        start = 0 if step >= 0 else n - 1
    if end is None:
        end = n if step >= 0 else -n - 1
    n_start, n_end = normalize(start), normalize(end)
    if step >= 0:
        lower, upper = min(max(n_start, 0), n), min(max(n_end, 0), n)
        out, i = [], lower
        while i < upper:
            out.append(i)
            i += step
    else:
        upper, lower = min(max(n_start, -1), n - 1), min(max(n_end, -1), n - 1)
        out, i = [], upper
        while lower < i:
            out.append(i)
            i += step
    return out


def children(value):
    if isinstance(value, dict):
        return list(value.items())
    if isinstance(value, list):
        return list(enumerate(value))
    return []


def descendants(node):
    """The node and all its descendants, parents first, children in document order."""
    out = [node]
    loc, v = node
    for k, c in children(v):
        out.extend(descendants((loc + (k,), c)))
    return out


class Model:
    """Evaluator.  `index_as_name` is the documented departure of C01."""

    def __init__(self, root, index_as_name=True):
        self.root = root
        self.index_as_name = index_as_name
        self.steps = 0

    def query(self, q, current):
        nodes = [((), self.root if q[0] == "$" else current)]
        for kind, sels in q[1]:
            self.steps += 1
            if kind == "d":
                nodes = [d for n in nodes for d in descendants(n)]
            out = []
            for n in nodes:
                for s in sels:
                    out.extend(self.select(s, n))
            nodes = out
        return nodes

    def select(self, s, node):
        loc, v = node
        t = s[0]
        if t == "n":
            if isinstance(v, dict) and s[1] in v:
                return [(loc + (s[1],), v[s[1]])]
            return []
        if t == "w":
            return [(loc + (k,), c) for k, c in children(v)]
        if t == "i":
            i = s[1]
            if isinstance(v, list):
                if i < 0:
                    i += len(v)
                if 0 <= i < len(v):
                    return [(loc + (i,), v[i])]
            elif isinstance(v, dict) and self.index_as_name and str(i) in v:
                return [(loc + (str(i),), v[str(i)])]
            return []
        if t == "s":
            if isinstance(v, list):
                return [(loc + (i,), v[i]) for i in slice_indices(len(v), s[1], s[2], s[3])]
            return []
        if t == "f":
            return [(loc + (k,), c) for k, c in children(v) if self.test(s[1], c)]
        raise AssertionError(s)

    # -- filters
    def test(self, e, cur):
        t = e[0]
        if t == "or":
            return any([self.test(x, cur) for x in e[1:]])
        if t == "and":
            return all([self.test(x, cur) for x in e[1:]])
        if t == "not":
            return not self.test(e[1], cur)
        if t == "cmp":
            return compare(e[1], self.value(e[2], cur), self.value(e[3], cur))
        if t == "q":
            return len(self.query(e[1], cur)) > 0
        if t == "fn":
            r = self.call(e, cur)
            if isinstance(r, list):  # NodesType
                return len(r) > 0
            assert isinstance(r, bool)
            return r
        raise AssertionError(e)

    def value(self, c, cur):
        t = c[0]
        if t == "lit":
            return c[1]
        if t == "q":
            nodes = self.query(c[1], cur)
            return nodes[0][1] if len(nodes) == 1 else NOTHING
        if t == "fn":
            return self.call(c, cur)
        raise AssertionError(c)

    def call(self, f, cur):
        name, args = f[1], f[2]
        if name == "length":
            v = self.value(args[0], cur)
            return len(v) if isinstance(v, (str, list, dict)) else NOTHING
        if name == "count":
            return len(self.query(args[0][1], cur))
        if name == "value":
            nodes = self.query(args[0][1], cur)
            return nodes[0][1] if len(nodes) == 1 else NOTHING
        if name in ("match", "search"):
            s, p = self.value(args[0], cur), self.value(args[1], cur)
            if not isinstance(s, str) or not isinstance(p, str):
                return False
            return regex(p, s, name == "match")
        raise AssertionError(name)


def nodelist(q, doc):
    m = Model(doc)
    return m.query(q, doc), m.steps


# ---------------------------------------------------------------- I-Regexp (RFC 9485 core)
class BadRegex(Exception):
    pass


_RX = {}


def _parse_rx(p):
    """Small I-Regexp parser: alternation, concatenation, * + ? {m,n}, classes, dot, escapes, groups."""
    pos = 0

    def peek():
        return p[pos] if pos < len(p) else None

    def alt():
        nonlocal pos
        items = [seq()]
        while peek() == "|":
            pos += 1
            items.append(seq())
        return ("alt", items) if len(items) > 1 else items[0]

    def seq():
        nonlocal pos
        items = []
        while peek() is not None and peek() not in "|)":
            a = atom()
            c = peek()
            if c is not None and c in "*+?":
                pos += 1
                a = ("rep", a, 1 if c == "+" else 0, 1 if c == "?" else None)
            elif c == "{":
                end = p.find("}", pos)
                if end < 0:
                    raise BadRegex(p)
                body = p[pos + 1 : end]
                pos = end + 1
                lo, sep, hi = body.partition(",")
                if not lo.isdigit() or (hi and not hi.isdigit()):
                    raise BadRegex(p)
                a = ("rep", a, int(lo), int(lo) if not sep else (int(hi) if hi else None))
            items.append(a)
        return ("seq", items)

    def escape():
        nonlocal pos
        pos += 1
        c = peek()
        if c is None:
            raise BadRegex(p)
        pos += 1
        if c == "n":
            return "\n"
        if c == "r":
            return "\r"
        if c == "t":
            return "\t"
        if c in "()*+-.?[\\]^{|}$":
            return c
        raise BadRegex(p)

    def atom():
        nonlocal pos
        c = peek()
        if c == "(":
            pos += 1
            r = alt()
            if peek() != ")":
                raise BadRegex(p)
            pos += 1
            return r
        if c in "*+?{})]":
            raise BadRegex(p)
        if c == ".":
            pos += 1
            return ("dot",)
        if c == "\\":
            return ("chr", escape())
        if c == "[":
            pos += 1
            neg = peek() == "^"
            if neg:
                pos += 1
            ranges = []
            while peek() != "]":
                if peek() is None:
                    raise BadRegex(p)
                lo = escape() if peek() == "\\" else p[pos]
                if p[pos - 1] != "\\" and lo == p[pos]:
                    pos += 1
                hi = lo
                if peek() == "-" and pos + 1 < len(p) and p[pos + 1] != "]":
                    pos += 1
                    hi = p[pos]
                    pos += 1
                    if hi < lo:
                        raise BadRegex(p)
                ranges.append((lo, hi))
            pos += 1
            if not ranges:
                raise BadRegex(p)
            return ("cls", neg, ranges)
        pos += 1
        return ("chr", c)

    r = alt()
    if pos != len(p):
        raise BadRegex(p)
    return r


def _rx_ends(r, s, i):
    """All end positions of r on s starting at i."""
    t = r[0]
    if t == "chr":
        return {i + 1} if i < len(s) and s[i] == r[1] else set()
    if t == "dot":
        return {i + 1} if i < len(s) and s[i] not in "\n\r" else set()
    if t == "cls":
        if i >= len(s):
            return set()
        hit = any(lo <= s[i] <= hi for lo, hi in r[2])
        return {i + 1} if hit != r[1] else set()
    if t == "seq":
        cur = {i}
        for x in r[1]:
            cur = {e for c in cur for e in _rx_ends(x, s, c)}
        return cur
    if t == "alt":
        return {e for x in r[1] for e in _rx_ends(x, s, i)}
    if t == "rep":
        _, x, lo, hi = r
        cur = {i}
        for _ in range(lo):
            cur = {e for c in cur for e in _rx_ends(x, s, c)}
        seen, front, n = set(cur), cur, lo
        while front and (hi is None or n < hi):
            front = {e for c in front for e in _rx_ends(x, s, c)} - seen
            seen |= front
            n += 1
        return seen
    raise AssertionError(r)


def regex(p, s, full):
    """match() / search(); an invalid pattern is LogicalFalse."""
    try:
        r = _RX[p]
    except KeyError:
        try:
            r = _parse_rx(p)
        except BadRegex:
            r = None
        _RX[p] = r
    if r is None:
        return False
    if full:
        return len(s) in _rx_ends(r, s, 0)
    return any(_rx_ends(r, s, i) for i in range(len(s) + 1))


# ---------------------------------------------------------------- typing (section 2.4.3) and limits
FUNCS = {
    "length": (("V",), "V"),
    "count": (("N",), "V"),
    "match": (("V", "V"), "L"),
    "search": (("V", "V"), "L"),
    "value": (("N",), "V"),
}
MAXI = 2**53 - 1


def singular(q):
    return all(
        k == "c" and len(sels) == 1 and sels[0][0] in ("n", "i") for k, sels in q[1]
    )


def valid_query(q, funcs=FUNCS):
    return all(valid_seg(s, funcs) for s in q[1])


def valid_seg(seg, funcs):
    if not seg[1]:
        return False
    for s in seg[1]:
        if s[0] == "i" and not -MAXI <= s[1] <= MAXI:
            return False
        if s[0] == "s" and any(x is not None and not -MAXI <= x <= MAXI for x in s[1:]):
            return False
        if s[0] == "f" and not valid_logical(s[1], funcs):
            return False
    return True


def valid_logical(e, funcs):
    t = e[0]
    if t in ("or", "and"):
        return all(valid_logical(x, funcs) for x in e[1:])
    if t == "not":
        return valid_logical(e[1], funcs)
    if t == "cmp":
        return valid_comparand(e[2], funcs) and valid_comparand(e[3], funcs)
    if t == "q":
        return valid_query(e[1], funcs)
    if t == "fn":
        return fn_type(e, funcs) in ("L", "N")
    return False  # a bare literal


def valid_comparand(c, funcs):
    t = c[0]
    if t == "lit":
        return True
    if t == "q":
        return singular(c[1]) and valid_query(c[1], funcs)
    if t == "fn":
        return fn_type(c, funcs) == "V"
    return False


def fn_type(f, funcs):
    """Declared type of a well-typed call, else None."""
    sig = funcs.get(f[1])
    if sig is None or len(sig[0]) != len(f[2]):
        return None
    for want, a in zip(sig[0], f[2]):
        t = a[0]
        if want == "V":
            ok = (
                t == "lit"
                or (t == "q" and singular(a[1]) and valid_query(a[1], funcs))
                or (t == "fn" and fn_type(a, funcs) == "V")
            )
        elif want == "N":
            ok = (t == "q" and valid_query(a[1], funcs)) or (
                t == "fn" and fn_type(a, funcs) == "N"
            )
        else:
            ok = t != "lit" and valid_logical(a, funcs)
        if not ok:
            return None
    return sig[1]


# ---------------------------------------------------------------- rendering
# A rendering is a list of parts: a str, or a tuple of alternatives (each a str or a list of parts), the
# first alternative being the default spelling.
BLANKS = ("", " ", "\n", "\t", "\r", " \n")
S = tuple(BLANKS)
SHORTNAME_FIRST = lambda c: c.isascii() and (c.isalpha() or c == "_") or (ord(c) >= 0x80 and not 0xD800 <= ord(c) <= 0xDFFF)  # noqa: E731,E501
RESERVED = {
    "and", "or", "not", "in", "contains", "true", "True", "false", "False", "nil", "Nil", "null", "Null",
    "none", "None", "undefined", "missing", "_",
}  # fmt: skip


def shorthand_ok(name):
    if not name or not SHORTNAME_FIRST(name[0]):
        return False
    return all(SHORTNAME_FIRST(c) or (c.isascii() and c.isdigit()) for c in name)


_ESC = {"\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\\": "\\\\"}


def _u(c, upper):
    n = ord(c)
    units = [n] if n < 0x10000 else [0xD800 + ((n - 0x10000) >> 10), 0xDC00 + ((n - 0x10000) & 0x3FF)]
    return "".join("\\u" + (f"{u:04X}" if upper else f"{u:04x}") for u in units)


def string_parts(s, quote, escapes=True):
    out = [quote]
    for c in s:
        if c in _ESC:
            alts = [_ESC[c], _u(c, False), _u(c, True)]
        elif c == quote:
            alts = ["\\" + c, _u(c, False), _u(c, True)]
        elif ord(c) < 0x20:
            alts = [_u(c, False), _u(c, True)]
        elif c == "/":
            alts = ["/", "\\/", _u(c, False), _u(c, True)]
        else:
            alts = [c, _u(c, False), _u(c, True)]
        alts = list(dict.fromkeys(alts))
        out.append(tuple(alts) if escapes else alts[0])
    out.append(quote)
    return out


def string_alt(s, escapes=True):
    return (string_parts(s, "'", escapes), string_parts(s, '"', escapes))


def render_query(q, esc=True):
    parts = [q[0]]
    for seg in q[1]:
        parts.append(S)
        parts.extend(render_segment(seg, esc))
    return parts


def render_segment(seg, esc=True):
    kind, sels = seg
    pre = ".." if kind == "d" else ""
    br = ["["]
    for i, s in enumerate(sels):
        if i:
            br += [S, ",", S]
        else:
            br += [S]
        br += render_selector(s, esc)
    br += [S, "]"]
    br = [pre] + br
    if len(sels) == 1:
        s = sels[0]
        dot = ".." if kind == "d" else "."
        if s[0] == "w":
            return [([dot + "*"], br)]
        if s[0] == "n" and shorthand_ok(s[1]) and not (kind == "d" and s[1] in RESERVED):
            return [([dot + s[1]], br)]
    return br


def render_selector(s, esc=True):
    t = s[0]
    if t == "n":
        return [string_alt(s[1], esc)]
    if t == "i":
        return [str(s[1])]
    if t == "w":
        return ["*"]
    if t == "s":
        a, b, c = s[1:]
        parts = []
        if a is not None:
            parts += [str(a), S]
        parts += [":", S]
        if b is not None:
            parts += [str(b), S]
        if c is not None:
            parts += [":", S, str(c)]
        else:
            parts += [("", ":")]
        return parts
    if t == "f":
        return ["?", S] + render_expr(s[1], 0, esc)
    raise AssertionError(s)


def paren(parts, required):
    p = ["(", S] + parts + [S, ")"]
    return p if required else [(parts, p)]


# precedence: or 1, and 2, not/atom 3
def render_expr(e, prec, esc=True):
    t = e[0]
    if t in ("or", "and"):
        p = 1 if t == "or" else 2
        parts = []
        for i, x in enumerate(e[1:]):
            if i:
                parts += [S, "||" if t == "or" else "&&", S]
            # same-operator nesting needs no grouping: || and && are associative
            parts += render_expr(x, p, esc)
        return paren(parts, prec > p)
    if t == "not":
        x = e[1]
        if x[0] in ("cmp", "not"):
            inner = ["(", S] + render_expr(x, 0, esc) + [S, ")"]
        else:
            inner = render_expr(x, 3, esc)
        return paren(["!", S] + inner, False)
    if t == "cmp":
        return paren(render_comparand(e[2], esc) + [S, e[1], S] + render_comparand(e[3], esc), False)
    return paren(render_comparand(e, esc), False)


def number_text(v):
    if isinstance(v, int):
        return str(v)
    r = repr(v)
    return r


class Num:
    """A number literal with an explicit spelling."""

    def __init__(self, text, value):
        self.text, self.value = text, value


def render_comparand(c, esc=True):
    t = c[0]
    if t == "lit":
        v = c[1]
        if len(c) > 2:  # explicit spelling
            return [c[2]]
        if v is True:
            return ["true"]
        if v is False:
            return ["false"]
        if v is None:
            return ["null"]
        if isinstance(v, str):
            return [string_alt(v, esc)]
        return [number_text(v)]
    if t == "q":
        return render_query(c[1], esc)
    if t == "fn":
        parts = [c[1] + "(", S]
        for i, a in enumerate(c[2]):
            if i:
                parts += [S, ",", S]
            parts += render_arg(a, esc)
        return parts + [S, ")"]
    raise AssertionError(c)


def render_arg(a, esc=True):
    if a[0] in ("lit", "q", "fn"):
        return render_comparand(a, esc)
    return render_expr(a, 0, esc)


def default_text(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, tuple):
            out.append(default_text([p[0]]))
        else:
            out.append(default_text(p))
    return "".join(out)


def spellings(parts, budget):
    """Every spelling with at most `budget` choices different from the default (exact enumeration)."""
    seen = set()
    for text, _ in _spell(list(parts), budget):
        if text not in seen:
            seen.add(text)
            yield text


def _spell(parts, budget):
    # list of (text, used)
    if not parts:
        yield "", 0
        return
    head, rest = parts[0], parts[1:]
    if isinstance(head, str):
        # merge runs of fixed text
        i = 0
        while i < len(rest) and isinstance(rest[i], str):
            i += 1
        text = head + "".join(rest[:i])
        for t, u in _spell(rest[i:], budget):
            yield text + t, u
        return
    if isinstance(head, list):
        yield from _spell(head + rest, budget)
        return
    for n, alt in enumerate(head):
        cost = 1 if n else 0
        if cost > budget:
            break
        sub = [alt] if isinstance(alt, str) else list(alt)
        for t, u in _spell(sub + rest, budget - cost):
            yield t, u + cost


def text_of(q):
    return default_text(render_query(q))


# ---------------------------------------------------------------- normalized paths (section 2.7)
def normalized_path(loc):
    out = ["$"]
    for p in loc:
        if isinstance(p, int):
            out.append(f"[{p}]")
        else:
            out.append("['" + "".join(_canon(c) for c in p) + "']")
    return "".join(out)


def _canon(c):
    if c in _ESC:
        return _ESC[c]
    if c == "'":
        return "\\'"
    if ord(c) < 0x20:
        return f"\\u{ord(c):04x}"
    return c
