"""RFC 6901 JSON Pointer, Relative JSON Pointer (draft-hha-relative-json-pointer-00) reference models."""

from __future__ import annotations

import re


class PointerError(Exception):
    """RFC 6901 section 4 cannot evaluate the pointer."""


INDEX = re.compile(r"(?:0|[1-9][0-9]*)\Z")


def encode_token(t):
    return t.replace("~", "~0").replace("/", "~1")


def decode_token(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == "~" and i + 1 < len(t) and t[i + 1] in "01":
            out.append("~" if t[i + 1] == "0" else "/")
            i += 2
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


def valid(text):
    """RFC 6901 section 3 syntax."""
    return re.match(r"(?:/(?:[^~/]|~[01])*)*\Z", text, re.S) is not None


def encode(tokens):
    return "".join("/" + encode_token(str(t)) for t in tokens)


def decode(text):
    if text == "":
        return ()
    assert text[0] == "/"
    return tuple(decode_token(t) for t in text[1:].split("/"))


def step(value, token):
    if isinstance(value, dict):
        if token in value:
            return value[token]
        raise PointerError(f"no member {token!r}")
    if isinstance(value, list):
        if not INDEX.match(token):
            raise PointerError(f"{token!r} is not an array index")
        # compare lengths first: an index can have any number of digits
        if len(token) > 18 or int(token) >= len(value):
            raise PointerError(f"index {token} out of range")
        return value[int(token)]
    raise PointerError("token applied to a primitive value")


def resolve(tokens, doc):
    for t in tokens:
        doc = step(doc, t)
    return doc


def tokens_of(loc):
    return tuple(str(p) for p in loc)


# ------------------------------------------------------- relative JSON pointers
REL = re.compile(r"(0|[1-9][0-9]*)(?:([+-])([1-9][0-9]*))?(#|(?:/(?:[^~/]|~[01])*)*)\Z", re.S)


class Refused(Exception):
    """The Relative JSON Pointer draft gives no result."""


class Unjudged(Exception):
    """Outside what the draft speaks about."""


def relative(text, base):
    """Tokens of the pointer `text` denotes relative to `base` (a token tuple).

    A result whose last token is ("#", token) stands for the key marker.
    """
    m = REL.match(text)
    if not m:
        raise Refused("syntax")
    steps, sign, offset, suffix = m.groups()
    if len(steps) > 9 or int(steps) > len(base):
        raise Refused("more steps than tokens")
    toks = list(base[: len(base) - int(steps)])
    if sign:
        if not toks:
            raise Refused("offset at the root")
        if re.fullmatch("-[1-9][0-9]*", toks[-1]):
            raise Unjudged("offset on a negative index")
        if not INDEX.match(toks[-1]):
            raise Refused("offset on something that is no index")
        new = int(toks[-1]) + int(sign + offset)
        if new < 0:
            raise Refused("negative index")
        toks[-1] = str(new)
    if suffix == "#":
        if not toks:
            raise Refused("# at the root")
        toks[-1] = ("#", toks[-1])
        return tuple(toks)
    return tuple(toks) + decode(suffix)
