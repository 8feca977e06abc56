"""RFC 6902 reference model on plain JSON values.  Never modifies its arguments."""

from __future__ import annotations

import copy

from . import ptr as P


class PatchError(Exception):
    """The operation violates RFC 6902."""


class TestFailed(PatchError):
    """A test operation whose target exists but differs."""


class TestMissing(PatchError):
    """A test operation whose target does not exist."""


class Unjudged(Exception):
    """Neither the RFC nor the documentation decides."""


def equal(a, b):
    """RFC 6902 4.6 equality; booleans are never numbers."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(v, b[k]) for k, v in a.items())
    return False


def same(a, b):
    """Equal and of the same types all through (1 is not 1.0); member order does not matter."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    return a == b


def dup(v):
    """A deep copy that makes every occurrence of a shared container a separate one."""
    if isinstance(v, list):
        return [dup(x) for x in v]
    if isinstance(v, dict):
        return {k: dup(x) for k, x in v.items()}
    return v


def find(doc, toks):
    try:
        return P.resolve(toks, doc)
    except P.PointerError as err:
        raise PatchError(str(err)) from err


def put(doc, toks, value, mode="add"):
    """add (or addne / addap) on a private copy of doc."""
    if not toks:
        return value
    parent = find(doc, toks[:-1])
    t = toks[-1]
    if isinstance(parent, list):
        n = len(parent)
        if t == "-":
            parent.append(value)
        elif P.INDEX.match(t) and len(t) < 18 and int(t) <= n:
            parent.insert(int(t), value)
        elif mode == "addap":
            if P.INDEX.match(t):
                parent.append(value)
            else:
                raise Unjudged("addap with something that is no index")
        else:
            raise PatchError(f"index {t}")
    elif isinstance(parent, dict):
        if mode != "addne" or t not in parent:
            parent[t] = value
    else:
        raise PatchError("parent is a primitive value")
    return doc


def take(doc, toks):
    if not toks:
        raise PatchError("remove root")
    parent = find(doc, toks[:-1])
    v = find(parent, toks[-1:])
    if isinstance(parent, list):
        del parent[int(toks[-1])]
    else:
        del parent[toks[-1]]
    return v


def apply_op(doc, op):
    """doc is private to the caller; returns the new document."""
    kind = op["op"]
    path = P.decode(op["path"])
    if kind in ("add", "addne", "addap"):
        return put(doc, path, dup(op["value"]), kind)
    if kind == "remove":
        take(doc, path)
        return doc
    if kind == "replace":
        find(doc, path)
        if not path:
            return dup(op["value"])
        parent = find(doc, path[:-1])
        if isinstance(parent, list):
            parent[int(path[-1])] = dup(op["value"])
        else:
            parent[path[-1]] = dup(op["value"])
        return doc
    if kind == "test":
        try:
            v = P.resolve(path, doc)
        except P.PointerError as err:
            raise TestMissing from err
        if not equal(v, op["value"]):
            raise TestFailed
        return doc
    src = P.decode(op["from"])
    if kind == "move":
        if len(src) < len(path) and path[: len(src)] == src:
            raise PatchError("into its own child")
        v = find(doc, src)
        if src == path:
            return doc
        take(doc, src)
        return put(doc, path, v)
    if kind == "copy":
        return put(doc, path, dup(find(doc, src)))
    raise AssertionError(kind)


def apply(ops, doc):
    doc = dup(doc)
    for i, op in enumerate(ops):
        try:
            doc = apply_op(doc, op)
        except PatchError as err:
            err.index = i
            raise
    return doc


def containers(v, out=None):
    """ids of the containers in v, with repetition."""
    out = [] if out is None else out
    if isinstance(v, (list, dict)):
        out.append(id(v))
        for x in v.values() if isinstance(v, dict) else v:
            containers(x, out)
    return out


__all__ = ["apply", "copy"]
