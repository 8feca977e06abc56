"""Document universes."""

from __future__ import annotations

import itertools

LEAVES = [None, True, False, 0, 1, -1, 1.5, "", "a", "ab"]


def trees(n, names=("a", "b"), leaves=(1, "x", True, None), kinds="ao"):
    """Every JSON value with exactly n nodes over the given names and leaves (all member orders)."""
    memo = {}

    def forests(total, k):
        # k trees with `total` nodes altogether
        if k == 0:
            return [()] if total == 0 else []
        out = []
        for first in range(1, total - k + 2):
            for t in tree(first):
                for rest in forests(total - first, k - 1):
                    out.append((t,) + rest)
        return out

    def tree(m):
        if m in memo:
            return memo[m]
        out = []
        if m == 1:
            out.extend(("l", v) for v in leaves)
            if "a" in kinds:
                out.append(("a",))
            if "o" in kinds:
                out.append(("o",))
        else:
            for k in range(1, m):
                fs = forests(m - 1, k)
                if "a" in kinds:
                    out.extend(("a",) + f for f in fs)
                if "o" in kinds and k <= len(names):
                    for perm in itertools.permutations(names, k):
                        out.extend(("o",) + tuple(zip(perm, f)) for f in fs)
        memo[m] = out
        return out

    return [build(t) for t in tree(n)]


def build(t):
    if t[0] == "l":
        return t[1]
    if t[0] == "a":
        return [build(x) for x in t[1:]]
    return {k: build(x) for k, x in t[1:]}


def trees_upto(n, **kw):
    out = []
    for i in range(1, n + 1):
        out.extend(trees(i, **kw))
    return out


def shapes(n, names=("a", "b")):
    """All tree shapes with n nodes; leaves numbered distinctly and given cycling types."""
    out = []
    for base in trees(n, names=names, leaves=("?",)):
        out.append(number_leaves(base))
    return out


def number_leaves(doc, start=0):
    pool = itertools.count(start)

    def go(v):
        if v == "?" and isinstance(v, str):
            i = next(pool)
            return [i, f"s{i}", True, None, i + 0.5, False][i % 6]
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        return v

    return go(doc)


def long_array(n):
    return [i * 10 for i in range(n)]


def long_object(n):
    return {f"k{i}": i for i in range(n)}


def deep(n, kind):
    v = "leaf"
    for i in range(n):
        if kind == "a":
            v = [v]
        elif kind == "o":
            v = {"a": v}
        else:
            v = {"a": v} if i % 2 else [v]
    return v


def nodes(doc):
    """(location, value) of every node in pre-order."""
    out = []

    def go(loc, v):
        out.append((loc, v))
        if isinstance(v, dict):
            for k, c in v.items():
                go(loc + (k,), c)
        elif isinstance(v, list):
            for i, c in enumerate(v):
                go(loc + (i,), c)

    go((), doc)
    return out


def at(doc, loc):
    for p in loc:
        doc = doc[p]
    return doc
