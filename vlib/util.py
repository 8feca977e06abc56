"""Helpers shared by the drivers."""

from __future__ import annotations

import itertools

from .rfc9535 import jsame


def chunks(seq, n):
    seq = list(seq)
    for i in range(0, len(seq), n):
        yield seq[i : i + n]


def same_values(got, want):
    """Exact nodelist comparison: same length, same order, same JSON values."""
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g is not w and not jsame(g, w):
            return False
    return True


def freeze(v):
    """Hashable rendering of a JSON value that keeps bool/int/float apart."""
    if isinstance(v, dict):
        return ("o",) + tuple((k, freeze(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return ("a",) + tuple(freeze(x) for x in v)
    return (type(v).__name__, v)


def words(alphabet, upto, start=0):
    for n in range(start, upto + 1):
        yield from itertools.product(alphabet, repeat=n)


SCRIPT = """
import jsonpath, json
{pre}
query = {q!r}
doc = {doc!r}
print('query   ', query)
print('document', doc)
try:
    print('got     ', jsonpath.compile(query).findall(doc))
except Exception as e:
    print('raised  ', type(e).__name__, e)
print('expected', {want!r})
"""


def script(q, doc, want, pre=""):
    return SCRIPT.format(q=q, doc=doc, want=want, pre=pre)


def memoise_charsets():
    """Every environment compiles its own token rules; the character sets in them are the same ones each time."""
    try:
        from re import _compiler as compiler

        optimise = compiler._optimize_charset
    except (ImportError, AttributeError):
        return
    memo = {}

    def cached(charset, *args, **kwargs):
        key = (repr(charset), args, tuple(kwargs))
        try:
            r = memo.get(key)
        except TypeError:
            return optimise(charset, *args, **kwargs)
        if r is None:
            r = memo[key] = optimise(charset, *args, **kwargs)
        return list(r[0]), r[1]

    compiler._optimize_charset = cached
