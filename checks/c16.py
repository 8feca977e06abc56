"""C16: Relative JSON Pointers are parsed, printed and applied per the draft."""

from __future__ import annotations

import itertools

from jsonpath import JSONPointer
from jsonpath import RelativeJSONPointer
from jsonpath.exceptions import JSONPointerError
from jsonpath.exceptions import RelativeJSONPointerError

from checks import c03
from vlib import ptr as P
from vlib.util import words

PROP = "C16"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of base pointer x relative pointer applications against a draft model"
LEVEL_NOTE = (
    "Every (base, relative pointer) pair within the bounds, and every chain of applications, is executed on the "
    "real code through every entry point and compared with vlib/ptr.py's transcription of the draft (trusted)."
)
RULE = "a distinct (steps - depth, offset class, suffix class, final-token class, result) tuple"
ASSUMPTIONS = [
    "an offset is refused when the token it would apply to is not an array index (draft section 4), including at "
    "the root; an offset onto a negative index (documented extension) is not judged",
    "the key marker '#' is the documented '#'-prefixed final token",
]
BOUNDS = {
    "quick": "bases <=3 tokens over 13 tokens x steps 0..depth+2 x 17 offsets x 17 suffixes; relative texts <=4 "
    "over 9 characters for the grammar; chains of 2 applications",
    "thorough": "bases <=4 tokens; relative texts <=6 characters; chains of 3 applications",
}

BASE = ["a", "0", "1", "9", "12", "", "01", "-", "\u00e9", "~/", "b\\n", "-1", "#x"]
OFFSETS = ["", "+1", "-1", "+2", "-2", "+9", "-9", "+10", "-10", "+11", "-11", "+12", "-12", "-13", "+99", "-100", "+1000000"]
SUFFIX = ["", "#", "/", "/a", "/0", "/~0~1", "/~01", "/\u00e9\U0001f600", "/a/0", "/#", "/ x ", "//", "/-", "/+1", "/\u3000/0\t", "/a\\n",
          "/%2F"]  # fmt: skip
GRAMMAR = ["0", "1", "2", "+", "-", "#", "/", "a", "\u0661", " "]


def attempt(f):
    try:
        return f()
    except Exception as err:  # noqa: BLE001
        return err


def show(tokens):
    return P.encode("#" + t[1] if isinstance(t, tuple) else t for t in tokens)


def docs_for(tokens):
    """Documents in which the location without its key marker exists, as member and as array item."""
    out = []
    for arrays in (False, True):
        v = "leaf"
        for t in reversed(tokens):
            t = t[1] if isinstance(t, tuple) else t
            if arrays and P.INDEX.match(t) and len(t) < 9 and int(t) < 2000:
                v = ["pad"] * int(t) + [v, "after"]
            else:
                v = {t: v}
        out.append(v)
    return out


def suffix_class(s):
    return s if len(s) < 2 else s[:2]


def check(ctx, base, text, resolve=False):
    raw = "\\" in text or any("\\" in t for t in base)
    btext = P.encode(base)
    try:
        want = P.relative(text, base)
    except P.Refused as err:
        want = err
    except P.Unjudged:
        return
    ctx.trans(1)
    kw = {"unicode_escape": False} if raw else {}
    calls = [
        ("rel.to(base)", lambda: RelativeJSONPointer(text, **kw).to(JSONPointer(btext, **kw))),
        ("rel.to(base text)", lambda: RelativeJSONPointer(text, **kw).to(btext, **kw)),
        ("base.to(text)", lambda: JSONPointer(btext, **kw).to(text, **kw)),
        ("base.to(rel)", lambda: JSONPointer(btext, **kw).to(RelativeJSONPointer(text, **kw))),
        ("from_parts base", lambda: RelativeJSONPointer(text, **kw).to(JSONPointer.from_parts(base, unicode_escape=False))),
    ]
    for how, f in calls:
        ctx.case((base, text, how))
        got = attempt(f)
        code = (
            "from jsonpath import JSONPointer, RelativeJSONPointer\n"
            f"rel = RelativeJSONPointer({text!r}, **{kw!r})\nbase = JSONPointer({btext!r}, **{kw!r})\n"
            f"# {how}\nprint(repr(rel.to(base)))\n# expected: {show(want) if isinstance(want, tuple) else want!r}"
        )
        if isinstance(want, Exception):
            if not isinstance(got, RelativeJSONPointerError):
                ctx.fail(f"{text!r} on {btext!r} not refused", f"{text!r} relative to {btext!r} ({how}) gives {got!r}, the draft refuses it ({want})", code)
            continue
        exp = show(want)
        if isinstance(got, Exception) or str(got) != exp:
            ctx.fail(f"{text!r} on {btext!r}", f"{text!r} relative to {btext!r} ({how}) gives {got!r}, expected {exp!r}", code)
            continue
        if any(c03.beyond(t) for t in want if isinstance(t, str)):
            continue
        if got != JSONPointer(exp, unicode_escape=False):
            ctx.fail(f"{text!r} on {btext!r} equal", f"{text!r} relative to {btext!r} ({how}): {got.parts!r} is not equal to the parsed {exp!r}", code)
        if resolve:
            marker = bool(want) and isinstance(want[-1], tuple)
            for d in docs_for(want):
                plain = tuple(t[1] if isinstance(t, tuple) else t for t in want)
                ctx.case((base, text, how, d))
                got_v = attempt(lambda: got.resolve(d))
                if marker:
                    parent = P.resolve(plain[:-1], d)
                    value = int(plain[-1]) if isinstance(parent, list) else plain[-1]
                else:
                    value = P.resolve(plain, d)
                if got_v != value or type(got_v) is not type(value):
                    ctx.fail(f"{text!r} on {btext!r} resolved", f"{text!r} relative to {btext!r} ({how}) resolves to {got_v!r} in {d!r}, expected {value!r}", code)
    last = base[-1] if base else None
    m = P.REL.match(text)
    ctx.outcome((int(m[1]) - len(base), m[2], m[3], m[4][:2], last, isinstance(want, Exception)))


def printing(ctx, text):
    """Parsing accepts exactly the grammar and printing returns the text."""
    ctx.case(text)
    kw = {"unicode_escape": False} if "\\" in text else {}
    got = attempt(lambda: RelativeJSONPointer(text, **kw))
    code = f"from jsonpath import RelativeJSONPointer\nprint(str(RelativeJSONPointer({text!r}, **{kw!r})))"
    if P.REL.match(text):
        if isinstance(got, Exception) or str(got) != text:
            ctx.fail(f"print {text!r}", f"parsing and printing {text!r} gives {got if isinstance(got, Exception) else str(got)!r}", code)
        elif got != RelativeJSONPointer(text, **kw):
            ctx.fail(f"equal {text!r}", f"{text!r} parsed twice is not equal", code)
        ctx.outcome(("text", text))
    elif text[:1].isspace():
        pass  # leading blanks are a documented leniency of pointers
    elif P.REL.match("".join(text.split())):
        pass  # so is blank space around the suffix
    elif not isinstance(got, (RelativeJSONPointerError, JSONPointerError)):
        ctx.fail(f"accept {text!r}", f"{text!r} is not a relative JSON pointer but parses as {got!r}", code)


def bases(n):
    return [tuple(w) for w in words(BASE, n)]


def units(tier):
    full = tier == "thorough"
    out = [("small",)]
    for a in BASE:
        for b in BASE:
            out.append(("apply", (a, b), full))
    for i in range(len(GRAMMAR)):
        out.append(("grammar", i, 6 if full else 4))
    out.append(("suffixes",))
    for i in range(len(BASE)):
        out.append(("chain", i, full))
    out.append(("index",))
    return out


def rels(depth, offsets=OFFSETS, suffixes=SUFFIX):
    steps = list(range(depth + 3)) + [10, 11, 99999999999999999999]
    for n in steps:
        for o in offsets:
            for s in suffixes:
                yield f"{n}{o}{s}"


def run(unit, ctx):
    k = unit[0]
    if k == "small":
        for b in bases(1):
            ctx.state(b)
            for r in rels(len(b)):
                check(ctx, b, r, resolve=True)
    elif k == "apply":
        _, pre, full = unit
        for b in [pre] + [pre + (c,) for c in BASE]:
            ctx.state(b)
            deep = len(b) == 3
            for r in rels(len(b), OFFSETS[:: 2 if deep and not full else 1], SUFFIX[:: 3 if deep and not full else 1]):
                check(ctx, b, r, resolve=not deep)
            if full and deep:
                for d in BASE:
                    for r in rels(4, ["", "+1", "-10"], ["", "#", "/~0~1"]):
                        check(ctx, b + (d,), r)
        ctx.sample({"base": P.encode(pre + ("12",)), "relative": "1+10/~0~1"})
    elif k == "grammar":
        for w in words(GRAMMAR, unit[2] - 1):
            printing(ctx, GRAMMAR[unit[1]] + "".join(w))
        if unit[1] == 0:
            printing(ctx, "")
    elif k == "suffixes":
        names = [n for n in c03.NAMES if not c03.beyond(n)]
        for n in names:
            for o in ("", "+3", "-12"):
                for pre in ("0", "1", "12"):
                    t = f"{pre}{o}{P.encode((n,))}"
                    printing(ctx, t)
                    printing(ctx, t + "/0")
                    check(ctx, ("x", "20"), t, resolve=True)
            check(ctx, (n,), "0", resolve=True)
            check(ctx, (n,), "0#", resolve=n[:1] != "#")
            check(ctx, (n, "5"), "0+12", resolve=True)
            check(ctx, (n, "5"), "1" + P.encode((n, n)), resolve=True)
            if len(n) < 4000:
                check(ctx, (n,), "0+1")
            check(ctx, (n, n), "1#", resolve=n[:1] != "#")
        for steps in ("0", "1", "10", "11", "123", "1" * 20):
            for o in OFFSETS + ["+" + "9" * 30, "-" + "1" * 25]:
                for s in SUFFIX:
                    printing(ctx, steps + o + s)
    elif k == "index":
        for i in range(0, 131):
            for o in list(range(-135, 136, 7)) + [-1, 1, -10, 10, -i, -i - 1]:
                if o:
                    for s in ("", "#", "/0"):
                        check(ctx, (str(i),), f"0{o:+d}{s}", resolve=s != "/0")
                        check(ctx, ("a", str(i), "b"), f"1{o:+d}{s}", resolve=False)
        for i in (10**6, 2**31, 2**53 - 2):
            for o in (1, -1, 10, -(10**6), -(2**31)):
                check(ctx, (str(i),), f"0{o:+d}")
    elif k == "chain":
        # histories: one application after another on the same relative pointer objects
        toks = [BASE[unit[1]]]
        some = ["0", "1", "0+1", "0-1", "1/0", "0/1", "0/\u00e9", "1+10", "0-10/a", "2/~1", "0/\\n", "1/", "0/-"]
        objs = {r: RelativeJSONPointer(r, unicode_escape=False) for r in some}
        for b in [tuple(toks + [x, y]) for x in BASE for y in BASE] + [tuple(toks)]:
            start = JSONPointer(P.encode(b), unicode_escape=False)
            for seq in itertools.product(some, repeat=3 if unit[2] else 2):
                want = b
                got = start
                for i, r in enumerate(seq):
                    ctx.case((b, seq[: i + 1]))
                    ctx.trans(1)
                    try:
                        want = P.relative(r, want)
                    except P.Refused:
                        want = None
                    except P.Unjudged:
                        break
                    got = attempt(lambda r=r, got=got: objs[r].to(got))
                    if want is None:
                        if not isinstance(got, RelativeJSONPointerError):
                            ctx.fail(f"chain {b!r} {seq[: i + 1]!r}", f"chain {seq[: i + 1]!r} from {P.encode(b)!r} gives {got!r}, the draft refuses it", None)
                        break
                    ctx.state(want)
                    if isinstance(got, Exception) or str(got) != P.encode(want):
                        ctx.fail(f"chain {b!r} {seq[: i + 1]!r}", f"chain {seq[: i + 1]!r} from {P.encode(b)!r} gives {got!r}, expected {P.encode(want)!r}", None)
                        break
            if str(start) != P.encode(b):
                ctx.fail(f"chain {b!r} mutated", f"{P.encode(b)!r} changed to {start!r}", None)
        for r, o in objs.items():
            if str(o) != r:
                ctx.fail(f"rel {r!r} mutated", f"{r!r} changed to {str(o)!r}", None)
    else:
        raise AssertionError(unit)
