"""Independent recogniser of RFC 9535 queries (sections 2.1 - 2.5 grammar, 2.4.3 typing rules).

`classify(text)` parses a relaxed grammar: the RFC's, without the restrictions that make a query ill-typed or out of
range.  It returns

    ("valid", ast)      well-formed and well-typed
    ("bad", reason)     breaks one of the rules that must be refused, and is otherwise well-formed
    ("unknown", why)    not in the relaxed grammar: may be an extension of the library, or plain garbage
"""

from __future__ import annotations

import re

from .rfc9535 import RESERVED

SPACE = " \t\n\r"
RE_INT = re.compile(r"-?[0-9]+")
RE_NUM = re.compile(r"(?:-0(?=[.eE])|-?(?:0|[1-9][0-9]*)|-0)(\.[0-9]+)?([eE][+-]?[0-9]+)?")
RE_FN = re.compile(r"[a-z][a-z_0-9]*\(")
FUNCS = {
    "length": (("V",), "V"),
    "count": (("N",), "V"),
    "match": (("V", "V"), "L"),
    "search": (("V", "V"), "L"),
    "value": (("N",), "V"),
    # the library's own extensions, with the types they declare
    "isinstance": (("N", "V"), "L"),
    "is": (("N", "V"), "L"),
    "typeof": (("N",), "V"),
    "type": (("N",), "V"),
}
OPS = ("==", "!=", "<=", ">=", "<", ">")


class Unknown(Exception):
    pass


class Parser:
    def __init__(self, text, lo, hi, funcs):
        self.t, self.i, self.lo, self.hi, self.funcs = text, 0, lo, hi, funcs
        self.bad = None
        # brackets of a singular query have no room for blank space in the RFC's grammar; the typing below only
        # needs to know whether a query was written that way
        self.spaced = set()

    def no(self, why="syntax"):
        raise Unknown(f"{why} at {self.i}")

    def flag(self, reason):
        if self.bad is None:
            self.bad = reason

    def peek(self, s):
        return self.t.startswith(s, self.i)

    def eat(self, s):
        if not self.peek(s):
            self.no(f"expected {s!r}")
        self.i += len(s)

    def sp(self):
        j = self.i
        while self.i < len(self.t) and self.t[self.i] in SPACE:
            self.i += 1
        return self.i > j

    # ---- queries
    def query(self, roots):
        if self.i >= len(self.t) or self.t[self.i] not in roots:
            self.no("identifier")
        root = self.t[self.i]
        self.i += 1
        segs, spaced = [], False
        while True:
            j = self.i
            self.sp()
            if self.peek(".."):
                self.i += 2
                if self.peek("["):
                    sels, s = self.bracket()
                    spaced |= s
                elif self.peek("*"):
                    self.i += 1
                    sels = [("w",)]
                else:
                    n = self.shorthand()
                    if n in RESERVED:
                        self.no("reserved word")
                    sels = [("n", n)]
                segs.append(("d", tuple(sels)))
            elif self.peek("."):
                self.i += 1
                if self.peek("*"):
                    self.i += 1
                    segs.append(("c", (("w",),)))
                else:
                    segs.append(("c", (("n", self.shorthand()),)))
            elif self.peek("["):
                sels, s = self.bracket()
                spaced |= s
                segs.append(("c", tuple(sels)))
            else:
                self.i = j
                break
        return ("q", (root, tuple(segs)), spaced)

    def shorthand(self):
        j = self.i
        while self.i < len(self.t):
            c = self.t[self.i]
            o = ord(c)
            first = (c.isascii() and (c.isalpha() or c == "_")) or (o >= 0x80 and not 0xD800 <= o <= 0xDFFF)
            if not first and not (self.i > j and "0" <= c <= "9"):
                break
            self.i += 1
        if self.i == j:
            self.no("name")
        # the library's own names may contain hyphens
        if self.peek("-"):
            self.no("hyphen")
        return self.t[j : self.i]

    def bracket(self):
        self.eat("[")
        spaced = self.sp()
        sels = []
        if self.peek("]"):
            self.i += 1
            self.flag("empty bracket list")
            return [("n", "")], False
        while True:
            sels.append(self.selector())
            spaced |= self.sp()
            if self.peek(","):
                self.i += 1
                self.sp()
                if self.peek("]"):
                    self.flag("comma-terminated bracket list")
                    self.i += 1
                    return sels, spaced
                continue
            self.eat("]")
            return sels, spaced

    def selector(self):
        if self.i >= len(self.t):
            self.no("end")
        c = self.t[self.i]
        if c in "'\"":
            return ("n", self.string())
        if c == "*":
            self.i += 1
            return ("w",)
        if c == "?":
            self.i += 1
            self.sp()
            return ("f", self.logical_or())
        return self.index_or_slice()

    def int_(self, what):
        m = RE_INT.match(self.t, self.i)
        if not m or not m.group().isascii():
            return None
        s = m.group()
        self.i = m.end()
        digits = s.lstrip("-")
        if s == "-0":
            self.no("-0")
        if len(digits) > 1 and digits[0] == "0":
            if what == "slice":
                self.no("slice with a leading zero")
            self.flag("index with a leading zero")
        n = (-1 if s[0] == "-" else 1) * (int(digits) if len(digits) < 4000 else 10**4000)
        if not self.lo <= n <= self.hi:
            self.flag(f"{what} out of range")
        return n

    def index_or_slice(self):
        j = self.i
        # is it a slice?
        m = re.compile(r"-?[0-9]*[ \t\n\r]*:").match(self.t, self.i)
        if m:
            a = self.int_("slice")
            self.sp()
            self.eat(":")
            k = self.i
            self.sp()
            b = self.int_("slice")
            if b is not None:
                k = self.i
            self.sp()
            c = None
            if self.peek(":"):
                self.i += 1
                k = self.i
                self.sp()
                c = self.int_("slice")
                if c is not None:
                    k = self.i
            self.i = k
            return ("s", a, b, c)
        self.i = j
        n = self.int_("index")
        if n is None:
            self.no("selector")
        return ("i", n)

    def string(self):
        q = self.t[self.i]
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.t):
                self.no("unterminated string")
            c = self.t[self.i]
            o = ord(c)
            if c == q:
                self.i += 1
                return "".join(out)
            if c == "\\":
                self.i += 1
                if self.i >= len(self.t):
                    self.no("escape")
                e = self.t[self.i]
                self.i += 1
                if e in "bfnrt/\\" or e == q:
                    out.append({"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}.get(e, e))
                elif e == "u":
                    n = self.hex4()
                    if 0xD800 <= n < 0xDC00:
                        if not self.peek("\\u"):
                            self.no("lone surrogate")
                        self.i += 2
                        low = self.hex4()
                        if not 0xDC00 <= low < 0xE000:
                            self.no("lone surrogate")
                        n = 0x10000 + ((n - 0xD800) << 10) + (low - 0xDC00)
                    elif 0xDC00 <= n < 0xE000:
                        self.no("lone surrogate")
                    out.append(chr(n))
                else:
                    self.no("escape")
            elif o < 0x20 or 0xD800 <= o <= 0xDFFF:
                self.no("character")
            else:
                out.append(c)
                self.i += 1

    def hex4(self):
        h = self.t[self.i : self.i + 4]
        if len(h) < 4 or any(c not in "0123456789abcdefABCDEF" for c in h):
            self.no("hex digits")
        self.i += 4
        return int(h, 16)

    # ---- filter expressions
    def logical_or(self):
        items = [self.logical_and()]
        while True:
            j = self.i
            self.sp()
            if not self.peek("||"):
                self.i = j
                return items[0] if len(items) == 1 else ("or", *items)
            self.i += 2
            self.sp()
            items.append(self.logical_and())

    def logical_and(self):
        items = [self.basic()]
        while True:
            j = self.i
            self.sp()
            if not self.peek("&&"):
                self.i = j
                return items[0] if len(items) == 1 else ("and", *items)
            self.i += 2
            self.sp()
            items.append(self.basic())

    def op(self):
        j = self.i
        self.sp()
        for o in OPS:
            if self.peek(o):
                self.i += len(o)
                return o
        self.i = j
        return None

    def basic(self):
        neg = False
        if self.peek("!"):
            self.i += 1
            self.sp()
            neg = True
        if self.peek("("):
            self.i += 1
            self.sp()
            e = ("paren", self.logical_or())
            self.sp()
            self.eat(")")
            self.not_op()
            return ("not", e) if neg else e
        left = self.primary()
        j = self.i
        o = self.op()
        if o is None:
            self.i = j
            return ("not", left) if neg else left
        if neg:
            self.no("! in front of a comparison")
        self.sp()
        right = self.primary()
        self.not_op()
        return ("cmp", o, left, right)

    def not_op(self):
        j = self.i
        if self.op() is not None:
            self.no("operator")
        self.i = j

    def primary(self):
        if self.i >= len(self.t):
            self.no("end")
        c = self.t[self.i]
        if c in "$@":
            return self.query("$@")
        if c in "'\"":
            return ("lit", self.string())
        m = RE_FN.match(self.t, self.i)
        if m:
            name = m.group()[:-1]
            if name in RESERVED or name in ("and", "or", "not", "in", "contains"):
                self.no("operator")
            self.i = m.end()
            args = []
            self.sp()
            if self.peek(")"):
                self.i += 1
                return ("fn", name, ())
            while True:
                args.append(self.argument())
                self.sp()
                if self.peek(","):
                    self.i += 1
                    self.sp()
                    continue
                self.eat(")")
                return ("fn", name, tuple(args))
        for w, v in (("true", True), ("false", False), ("null", None)):
            if self.peek(w):
                nxt = self.t[self.i + len(w) : self.i + len(w) + 1]
                if nxt and (nxt.isalnum() or nxt in "_-.[(" or ord(nxt) >= 0x80):
                    self.no("word")
                self.i += len(w)
                return ("lit", v)
        m = RE_NUM.match(self.t, self.i)
        if m:
            self.i = m.end()
            nxt = self.t[self.i : self.i + 1]
            if nxt and (nxt.isalnum() or nxt in "._-[(" or ord(nxt) >= 0x80):
                self.no("number")
            return ("lit", 0)
        self.no("primary")

    def argument(self):
        """literal / filter-query / function-expr / logical-expr; a lone one of the first three is not an expression."""
        return self.logical_or()

    # ---- typing
    def check_query(self, q):
        for _, sels in q[1]:
            for s in sels:
                if s[0] == "f":
                    self.check_logical(s[1])

    def singular(self, q):
        return all(k == "c" and len(s) == 1 and s[0][0] in "ni" for k, s in q[1])

    def check_logical(self, e):
        t = e[0]
        if t in ("or", "and"):
            for x in e[1:]:
                self.check_logical(x)
        elif t in ("not", "paren"):
            self.check_logical(e[1])
        elif t == "cmp":
            self.check_comparand(e[2])
            self.check_comparand(e[3])
        elif t == "q":
            self.check_query(e[1])
        elif t == "fn":
            if self.fn_type(e) not in ("L", "N"):
                self.flag("value-typed function result used as a test")
        else:
            self.flag("literal that is not compared")

    def check_comparand(self, c):
        if c[0] == "q":
            self.check_query(c[1])
            if not self.singular(c[1]):
                self.flag("non-singular query in a comparison")
            elif c[2]:
                self.unsure = True
        elif c[0] == "fn" and self.fn_type(c) != "V":
            self.flag("function result that is not a value in a comparison")

    unsure = False

    def fn_type(self, f):
        sig = self.funcs.get(f[1])
        if sig is None:
            self.flag("unknown function")
            return None
        if len(sig[0]) != len(f[2]):
            self.flag("wrong number of arguments")
        for want, a in zip(sig[0], f[2]):
            t = a[0]
            if t == "fn":
                got = self.fn_type(a)
                ok = got == want or (want == "L" and got == "N")
            elif t == "lit":
                ok = want == "V"
            elif t == "q":
                self.check_query(a[1])
                ok = want in "NL" or self.singular(a[1])
                if want == "V" and a[2]:
                    self.unsure = True
            else:
                self.check_logical(a)
                ok = want == "L"
            if not ok:
                self.flag("wrong kind of argument")
        return sig[1]


MAXI = 2**53 - 1


def classify(text, lo=-MAXI, hi=MAXI, funcs=FUNCS):
    p = Parser(text, lo, hi, funcs)
    try:
        q = p.query("$")
        if p.i != len(text):
            return ("unknown", f"trailing text at {p.i}")
    except Unknown as e:
        return ("unknown", str(e))
    p.check_query(q[1])
    if p.bad:
        return ("bad", p.bad)
    if p.unsure:
        return ("unknown", "blank space inside the brackets of a singular query")
    return ("valid", q[1])
