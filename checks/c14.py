"""C14: JSON Pointer text, tokens and navigation operations are mutually consistent."""

from __future__ import annotations

import itertools

import jsonpath
from jsonpath import JSONPointer

from checks import c03, c04
from vlib import ptr as P
from vlib.util import words

PROP = "C14"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of token sequences and of join/parent operation histories against a token-list model"
LEVEL_NOTE = (
    "Every token sequence and every operation history within the bounds is executed on the real JSONPointer and "
    "compared with the model state (a tuple of RFC 6901 reference tokens, vlib/ptr.py, trusted)."
)
RULE = "a distinct model state (token tuple) with the operation that produced it"
ASSUMPTIONS = [
    "blanks are characters for which str.isspace() holds; joined parts start with no blank and nothing contains a "
    "backslash",
    "is_relative_to(q) means: strictly longer than q and starting with the tokens of q",
]
BOUNDS = {
    "quick": "all token sequences: 1 token <=3 chars, 2 tokens <=2 chars over 16 characters, 3 tokens over 34; "
    "pairwise equality over 2000 pointers x 4 constructions; histories of 18 operations to depth 4",
    "thorough": "1 token <=4 chars, 3 tokens over 60; histories to depth 5; pairwise equality over 4000 pointers",
}

CH = ["~", "/", "0", "1", "-", "+", " ", "#", "a", ".", "%", "2", "F", "\u00e9", "\u0663", "\U0001f600"]
T25 = ["", "~", "/", "0", "1", "-1", "-", "+1", "01", "00", " 1", "#", "#0", "a", "~1", "~0", "~01", "/a", "1_0", "1.0",
       "\u00e9", "\u0663", "\U0001f600", "10", "-0", "%", "%2F", "%41", "%7E1", "~%", "\"", "&#x41;", "\x00", "A"]  # fmt: skip
T60 = T25 + c03.NAMES[:35]


def attempt(f):
    try:
        return f()
    except Exception as err:  # noqa: BLE001
        return err


def is_blank_first(t):
    return t[:1].isspace()


def usable(tokens):
    return not any("\\" in t or c03.beyond(t) for t in tokens)


def mixed(tokens):
    """Token list as a caller may write it: canonical integers as int."""
    return [int(t) if P.INDEX.match(t) and len(t) < 10 else t for t in tokens]


def bad(ctx, what, tokens, code):
    ctx.fail(
        f"{what.split(':')[0]} {tokens!r}",
        f"{what} -- tokens {tokens!r}",
        "import jsonpath\nfrom jsonpath import JSONPointer\n" + code,
    )


def same_pointer(ctx, tokens, p, how, code):
    """p must be the pointer with exactly these reference tokens."""
    text = P.encode(tokens)
    if isinstance(p, Exception):
        return bad(ctx, f"{how}: raised {type(p).__name__} {p}", tokens, f"print({code})")
    if str(p) != text:
        return bad(ctx, f"{how}: prints as {str(p)!r}, expected {text!r}", tokens, f"print({code})")
    if tuple(str(x) for x in p.parts) != tuple(tokens):
        return bad(ctx, f"{how}: has tokens {p.parts!r}", tokens, f"print(({code}).parts)")
    return None


def constructions(tokens):
    text = P.encode(tokens)
    out = [
        ("parse", lambda: JSONPointer(text), f"JSONPointer({text!r})"),
        ("parse raw", lambda: JSONPointer(text, unicode_escape=False), f"JSONPointer({text!r}, unicode_escape=False)"),
        ("from_parts", lambda: JSONPointer.from_parts(tokens), f"JSONPointer.from_parts({tokens!r})"),
        ("from_parts raw", lambda: JSONPointer.from_parts(list(tokens), unicode_escape=False), f"JSONPointer.from_parts({tokens!r}, unicode_escape=False)"),
        ("from_parts int", lambda: JSONPointer.from_parts(mixed(tokens)), f"JSONPointer.from_parts({mixed(tokens)!r})"),
        ("from_parts iterator", lambda: JSONPointer.from_parts(iter(tokens)), f"JSONPointer.from_parts(iter({tokens!r}))"),
    ]  # fmt: skip
    if tokens:
        out.append(("parts=", lambda: JSONPointer(text, parts=tuple(tokens)), f"JSONPointer({text!r}, parts={tokens!r})"))
        child = tuple(tokens) + ("x",)
        ctext = P.encode(child)
        out.append(("parent", lambda: JSONPointer(ctext).parent(), f"JSONPointer({ctext!r}).parent()"))
    if not any(is_blank_first(t) for t in tokens):
        enc = [P.encode_token(t) for t in tokens]

        def slash():
            p = JSONPointer("")
            for e in enc:
                p = p / e
            return p

        out.append(("slash", slash, "JSONPointer('')" + "".join(f" / {e!r}" for e in enc)))
        out.append(("join", lambda: JSONPointer("").join(*enc), f"JSONPointer('').join(*{enc!r})"))
        if enc:
            one = "/".join(enc)
            if enc[0]:
                out.append(("slash all", lambda: JSONPointer("") / one, f"JSONPointer('') / {one!r}"))
            out.append(("replace", lambda: JSONPointer("/q/7") / text, f"JSONPointer('/q/7') / {text!r}"))
            out.append(("join replace", lambda: JSONPointer("/q").join("z", text), f"JSONPointer('/q').join('z', {text!r})"))
    return out


def sequence(ctx, tokens):
    """All laws about one token sequence."""
    tokens = tuple(tokens)
    ctx.case(tokens)
    ctx.state(tokens)
    ctx.trans(1)
    made = []
    for how, f, code in constructions(tokens):
        p = attempt(f)
        if same_pointer(ctx, tokens, p, how, code) is None and not isinstance(p, Exception):
            made.append((how, p, code))
        ctx.outcome((how, len(tokens), tuple(c04.tclass(t) for t in tokens)))
    first = made[0][1] if made else None
    for how, p, code in made:
        if not (p == first) or not (first == p) or (p != first) or hash(p) != hash(first):
            bad(ctx, f"{how}: not equal to the parsed pointer", tokens,
                f"a, b = JSONPointer({P.encode(tokens)!r}), {code}\nprint(a == b, hash(a) == hash(b), a.parts, b.parts)")  # fmt: skip
    # parent
    for how, p, code in made[:3]:
        want = tokens[:-1]
        par = attempt(p.parent)
        same_pointer(ctx, want, par, f"parent of {how}", f"({code}).parent()")
        if par != JSONPointer(P.encode(want)):
            bad(ctx, f"parent of {how}: not equal to the parsed parent", tokens, f"print(({code}).parent() == JSONPointer({P.encode(want)!r}))")
        if tokens and (not p.is_relative_to(par) or par.is_relative_to(p)):
            bad(ctx, f"is_relative_to: {how} and its parent", tokens, f"p={code}\nprint(p.is_relative_to(p.parent()))")
        if p.is_relative_to(p):
            bad(ctx, f"is_relative_to: {how} and itself", tokens, f"p={code}\nprint(p.is_relative_to(p))")


def joins(ctx, base, token, docs):
    """p / t for one pointer and one token, with resolution against documents."""
    if is_blank_first(token) or not usable(base + (token,)):
        return
    for how, p in (("parse", JSONPointer(P.encode(base))), ("from_parts", JSONPointer.from_parts(base)), ("int parts", JSONPointer.from_parts(mixed(base)))):
        e = P.encode_token(token)
        for op, f in (("/", lambda: p / e), ("join", lambda: p.join(e))):
            ctx.case((base, token, how, op))
            ctx.trans(1)
            q = attempt(f)
            code = f"JSONPointer({P.encode(base)!r}) / {e!r}"
            want = base + (token,)
            same_pointer(ctx, want, q, f"{op} on {how}", code)
            if isinstance(q, Exception):
                continue
            if q.parent() != p or hash(q.parent()) != hash(p):
                bad(ctx, f"{op} on {how}: parent differs from the pointer joined onto", want, f"print(({code}).parent())")
            if not q.is_relative_to(p):
                bad(ctx, f"{op} on {how}: not relative to the pointer joined onto", want, f"print(({code}).is_relative_to(JSONPointer({P.encode(base)!r})))")
            if str(p) != P.encode(base):
                bad(ctx, f"{op} on {how}: changed its operand", want, f"print({code})")
            for d in docs:
                ctx.case((base, token, how, op, d))
                v = attempt(lambda: p.resolve(d))
                got = attempt(lambda: q.resolve(d))
                if isinstance(v, Exception):
                    if not isinstance(got, Exception):
                        bad(ctx, f"{op} on {how}: resolves to {got!r} below an unresolvable pointer", want, f"print(({code}).resolve({d!r}))")
                    continue
                if isinstance(v, (dict, list)):
                    step = attempt(lambda: JSONPointer("/" + e).resolve(v))
                else:
                    step = P.PointerError()
                if isinstance(step, Exception) != isinstance(got, Exception) or (
                    not isinstance(step, Exception) and got is not step and not (isinstance(step, (str, int)) and got == step)
                ):
                    bad(ctx, f"{op} on {how}: resolves to {got!r}, stepping gives {step!r} in {d!r}", want, f"print(({code}).resolve({d!r}))")


OPS = ["0", "-1", "a", "", "~1", "~0", "01", "\u00e9", "#", "a/0", "/", "/b", "/0/~01", "..", "%41", "/%2F/-", "parent", "parent parent"]


def apply_model(tokens, op):
    if op == "parent":
        return tokens[:-1]
    if op == "parent parent":
        return tokens[:-1][:-1]
    if op.startswith("/"):
        return P.decode(op)
    return tokens + tuple(P.decode_token(t) for t in op.split("/"))


def apply_impl(p, op, via):
    if op == "parent":
        return p.parent()
    if op == "parent parent":
        return p.parent().parent()
    return p / op if via else p.join(op)


def histories(ctx, start, depth):
    """Every history of `depth` operations from one pointer; the states reached are token tuples."""
    code0 = f"JSONPointer({P.encode(start)!r})"

    def go(p, tokens, hist):
        for i, op in enumerate(OPS):
            want = apply_model(tokens, op)
            ctx.case((start, hist, op))
            ctx.trans(1)
            ctx.state(want)
            q = attempt(lambda op=op, p=p: apply_impl(p, op, (len(hist) + i) % 2))
            h = hist + (op,)
            if isinstance(q, Exception) or str(q) != P.encode(want) or tuple(map(str, q.parts)) != want:
                bad(ctx, f"history {h!r} from {start!r}: {q!r}", want, f"p = {code0}\nfor op in {h!r}:\n    p = p.parent() if op == 'parent' else p.parent().parent() if op == 'parent parent' else p / op\n    print(op, str(p), p.parts)")
                continue
            if str(p) != P.encode(tokens):
                bad(ctx, f"history {h!r} from {start!r}: the operand changed to {p!r}", want, "")
            ref = JSONPointer(P.encode(want))
            if q != ref or hash(q) != hash(ref):
                bad(ctx, f"history {h!r} from {start!r}: not equal to the parsed pointer", want, "")
            ctx.outcome((op, want))
            if len(h) < depth:
                go(q, want, h)

    go(JSONPointer(P.encode(start)), start, ())


def universe(n):
    toks = ["".join(w) for w in words(CH, 2)]
    out = [(), *((t,) for t in toks)]
    out += [(a, b) for a in T25 for b in T25]
    out += [("0", a, b) for a in T25[:12] for b in T25[:12]]
    if n > 1:
        out += [(a, b, "") for a in T60 for b in T25]
        out += [("1", a, b) for a in T25 for b in T25]
    return [t for t in dict.fromkeys(out) if usable(t)]


def units(tier):
    full = tier == "thorough"
    out = []
    for i in range(len(CH)):
        out.append(("one", i, 4 if full else 3))
        out.append(("two", i))
    trip = T60 if full else T25
    for i in range(len(trip)):
        out.append(("three", full, i))
    for i in range(0, len(c03.NAMES), 6):
        out.append(("names", i))
    for i in range(16):
        out.append(("equal", 2 if full else 1, i))
    for i in range(len(T25)):
        out.append(("join", i, full))
    for s in ((), ("0",), ("a", "01"), ("~", "/")):
        if full:
            out.append(("hist", s, 5))
        else:
            out.append(("hist", s, 4))
    out.append(("match",))
    out.append(("beyond",))
    return out


DOCS = [{"a": v, "0": [v, v], "1": v, "": {"": v}, "~": v, "/": [v]} for v in c04.TARGETS] + [[v, [v], {"a": v}] for v in c04.TARGETS]


def run(unit, ctx):
    k = unit[0]
    if k == "one":
        for w in words(CH, unit[2] - 1):
            t = CH[unit[1]] + "".join(w)
            sequence(ctx, (t,))
        if unit[1] == 0:
            sequence(ctx, ())
            sequence(ctx, ("",))
    elif k == "two":
        toks = ["".join(w) for w in words(CH, 2)]
        for a in [t for t in toks if t.startswith(CH[unit[1]])] + [""] * (unit[1] == 0):
            for b in toks:
                sequence(ctx, (a, b))
    elif k == "three":
        trip = [t for t in (T60 if unit[1] else T25) if usable((t,))]
        if unit[2] < len(trip):
            for b in trip:
                for c in trip:
                    sequence(ctx, (trip[unit[2]], b, c))
                    if not unit[1]:
                        sequence(ctx, (trip[unit[2]], b, c, "0", b))
    elif k == "names":
        ns = [n for n in c03.NAMES if usable((n,))]
        for a in [n for n in c03.NAMES[unit[1] : unit[1] + 6] if usable((n,))]:
            sequence(ctx, (a,))
            for b in ns:
                sequence(ctx, (a, b))
                joins(ctx, (a,), b, [{a: {b: ["v"]}}, {a: ["zero", "one"]}, {a: {}}])
    elif k == "equal":
        u = universe(unit[1])
        ps = [JSONPointer(P.encode(t)) for t in u]
        alt = [JSONPointer.from_parts(t) for t in u]
        alt2 = [JSONPointer.from_parts(mixed(t)) for t in u]
        for i in range(unit[2], len(u), 16):
            a = ps[i]
            ctx.case(u[i])
            ctx.trans(len(u))
            for j, t in enumerate(u):
                same = i == j
                if (a == ps[j]) is not same or (a == alt[j]) is not same or (alt2[j] == a) is not same or (a != alt2[j]) is same:
                    bad(ctx, f"equality: {u[i]!r} and {t!r}", u[i], f"print(JSONPointer({P.encode(u[i])!r}) == JSONPointer.from_parts({t!r}))")
                rel = len(t) < len(u[i]) and u[i][: len(t)] == t
                if a.is_relative_to(alt[j]) is not rel or a.is_relative_to(ps[j]) is not rel:
                    bad(ctx, f"is_relative_to: {u[i]!r} and {t!r}", u[i], f"print(JSONPointer({P.encode(u[i])!r}).is_relative_to(JSONPointer.from_parts({t!r})))")
    elif k == "join":
        t = T25[unit[1]]
        for b in T25:
            joins(ctx, (), b, DOCS if unit[1] == 0 else [])
            joins(ctx, (b,), t, DOCS)
            for c in T25 if unit[2] else T25[:8]:
                joins(ctx, (b, c), t, DOCS)
    elif k == "hist":
        histories(ctx, unit[1], unit[2])
    elif k == "match":
        for ns in itertools.combinations([n for n in c03.NAMES if usable((n,))], 2):
            doc = {n: [{n: [1]}, 2] for n in ns}
            for m in jsonpath.finditer("$..*", doc):
                toks = P.tokens_of(m.parts)
                ctx.case((ns, toks))
                p = m.pointer()
                same_pointer(ctx, toks, p, "from_match", f"[m.pointer() for m in jsonpath.finditer('$..*', {doc!r})]")
                if p != JSONPointer(P.encode(toks)) or p != JSONPointer.from_parts(toks) or hash(p) != hash(JSONPointer(P.encode(toks))):
                    bad(ctx, "from_match: not equal to the parsed pointer", toks, f"print([m.pointer().parts for m in jsonpath.finditer('$..*', {doc!r})])")
        m = next(iter(jsonpath.finditer("$", {"a": 1})))
        if m.pointer() != JSONPointer(""):
            bad(ctx, "from_match: root", (), "")
    elif k == "beyond":
        for n in c03.BEYOND:
            for t in ((n,), (n, "0")):
                s = P.encode(t)
                ctx.case(t)
                got = attempt(lambda s=s: str(JSONPointer(s)))
                if got != s:
                    ctx.fail(f"parse {s!r}", f"parsing and printing {s!r} gives {got!r}", f"import jsonpath\nprint(jsonpath.JSONPointer({s!r}))")
                got = attempt(lambda t=t: str(JSONPointer.from_parts(t)))
                if got != s:
                    ctx.fail(f"from_parts {t!r}", f"from_parts({t!r}) prints {got!r}", f"import jsonpath\nprint(jsonpath.JSONPointer.from_parts({t!r}))")
    else:
        raise AssertionError(unit)
