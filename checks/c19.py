"""C19: projection returns exactly the selected values, nothing more, in place."""

from __future__ import annotations

import itertools
import json

import jsonpath
from jsonpath import Projection

from vlib import docs as D
from vlib.rfc9535 import jsame

PROP = "C19"
LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of document shapes x ordered selections of nodes, and of documents x match queries x lists of relative "
    "queries x projection styles, on the real Query.select() against a projection model"
)
LEVEL_NOTE = (
    "the model takes the nodes that each relative query selects (judged by C01, C02 and C13), places them in a tree and ranks the indices; "
    "the document is compared with a copy taken before. Nothing beyond the bounds."
)
RULE = "a distinct (selected locations, style) pair; outcomes are distinct projections"
ASSUMPTIONS = [
    "per-array selections are ascending when each array's indices are first selected in ascending order; other lists are judged in flat style only",
    "when a container and something below it are both selected, all of the container is found at its location",
    "relative queries that select the match itself, keys selectors and, for root projection, match queries with a pseudo root are not judged",
    "an array or object in a projection may or may not be the document's own",
]
BOUNDS = {
    "quick": "every JSON tree shape of at most 5 nodes over two member names (falsy and truthy leaves) x every sequence of at most 3 nodes (6 nodes: 2) and "
    "every larger subset of the nodes in document order x 3 styles x match at the root and below names and indices (up to 4 nodes also below a name and below an index); 12 documents x 14 match "
    "queries x every relative query out of 51, every pair out of 51 and every triple out of 14 x 3 styles, queries as text and compiled",
    "thorough": "shapes of 6 nodes x sequences of 3 nodes, of 5 nodes x 4 nodes, of 7 nodes x 2 nodes; triples out of 26 relative queries",
}

STYLES = [Projection.RELATIVE, Projection.ROOT, Projection.FLAT]
FALSY = [0, False, None, "", "x", 1, 0.0, "0"]

MATCH = ["$", "$.*", "$..*", "$.a", "$..a", "$[0]", "$[-1]", "$.a[1:]", "$[?@.a]", "$..[?@]", "$['a', 'b']", "$.a.b", "$[::-1]", "$.zz"]
REL = [
    "a", "b", "['0']", "[0]", "[1]", "[-1]", "[2]", "*", "..a", "..*", "['a', 'b']", "[0, 1]", "[1:]", "[:2]", "[0, 2]", "[::2]", "a.b", "b.a", "a[0]", "b[1]", "a.*", "b.*",
    "b[0].a", "b[1].a", "b[*].a", "b[*].b", "[*].a", "[*].b", "[0].a", "[1].a", "[0][0]", "[1][1]", "a.b.a", "..[0]", "..[1]", "[?@.a]", "[?@ == 0]", "..[?@ == $.a]", "$.a", "$..b", "zz", "..zz",
    "a | b", "* & a", "['0', '1']", "a[0, 2].a", "b[::2]", "a.a | b[0] | b[1].a",
]  # fmt: skip
REL_TRIPLE = ["a", "b", "b[0]", "b[1]", "b[0].a", "b[1].b", "..a", "*", "[0]", "[1].a", "[0].b", "a.b", "b[*].a", "b"]
REL_TRIPLE_T = REL_TRIPLE[:-1] + ["[*].a", "[*].b", "..*", "[1:]", "a[0]", "a[1]", "['0']", "[2]", "..[0]", "..[1]", "a.*", "b.*", "b[::2].a"]
DOCS = [
    {"a": {"a": 0, "b": {"a": 1, "b": []}}, "b": [{"a": 1, "b": False}, {"a": 2, "b": ""}, {"b": 3}], "0": "zero", "1": {"0": None}},
    [{"a": 0, "b": [1, 0, {"a": None}]}, {"b": {}, "a": [{"a": 1}, {"a": 2}, {"a": 3}]}, [[], [0, 1], False]],
    {"a": [[0, 1, 2], [3, 4], []], "b": [0, False, None, "", [], {}]},
    [0, False, None, "", [], {}, "a", 1],
    {"a": {}, "b": [], "0": {"a": []}},
    [[[0, 1], [2, 3]], [[4], [5, 6, 7]]],
    {"b": [{"a": [{"a": 1, "b": 2}, {"a": 3}], "b": [{"a": 4}]}, [1, {"a": {"a": 0}}]], "a": {"0": {"0": 1, "1": 2}, "1": [1, 2]}},
    {"a": 0}, [None], {}, [],
    {"a": {"b": {"a": {"b": [{"a": {"b": 0}}]}}}, "b": {"b": {"a": 1}, "a": [True, {"b": 1, "a": {"a": 2}}]}},
]  # fmt: skip


class Whole:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


def project(nodes, style, prefix=()):
    """nodes: (parts, value) in selection order -> projection, or a string that says why there is none."""
    if not nodes:
        return "nothing"
    if style is Projection.FLAT:
        return [v for _, v in nodes]
    tree = {}
    for parts, value in nodes:
        here = tree
        if style is Projection.ROOT:
            parts = prefix + parts
        if not parts:
            return "the match itself"
        for part in parts[:-1]:
            nxt = here.setdefault(part, {})
            if isinstance(nxt, Whole):
                here = None
                break
            here = nxt
        if here is not None:
            here[parts[-1]] = Whole(value)
    return finish(tree)


def finish(tree):
    if isinstance(tree, Whole):
        return tree.value
    if isinstance(next(iter(tree)), int):
        return [finish(tree[i]) for i in sorted(tree)]
    return {k: finish(v) for k, v in tree.items()}


def ascending(nodes, prefix=()):
    """Each array's indices are first selected in ascending order."""
    last = {}
    seen = set()
    for parts, _ in nodes:
        for k, part in enumerate(parts):
            if isinstance(part, int):
                loc = parts[: k + 1]
                if loc in seen:
                    continue
                seen.add(loc)
                if last.get(parts[:k], -1) > part:
                    return False
                last[parts[:k]] = part
    return True


SCRIPT = """
import jsonpath
doc = {doc!r}
print('document  ', doc)
query = {query!r}
rel = {rel!r}
print('projection', list(jsonpath.query(query, doc).select(*rel, projection=jsonpath.Projection.{style})))
print('expected  ', {want!r})
print('document  ', doc)
"""

_PATHS = {}


def compiled(text):
    p = _PATHS.get(text)
    if p is None:
        p = _PATHS[text] = jsonpath.compile(text)
    return p


def judge(ctx, doc, text, query, rel, style, want, arguments):
    """Run the projection on doc, whose JSON is text; want is the list of projections."""
    ctx.case((text, str(query), rel, style.name))
    ctx.trans(len(want) + 1)
    try:
        q = jsonpath.query(query, doc) if isinstance(query, str) else query.query(doc)
        got = list(q.select(*arguments) if style is Projection.RELATIVE and len(rel) % 2 else q.select(*arguments, projection=style))
    except Exception as err:  # noqa: BLE001
        got = f"{type(err).__name__}: {err}"
    after = json.dumps(doc)

    def fail(what):
        ctx.fail(
            f"{style.name} {str(query)!r} {list(rel)!r} {text}"[:600], f"query({str(query)!r}, {text[:200]}).select({', '.join(map(repr, rel))}, {style.name}) {what}"[:900],
            SCRIPT.format(doc=json.loads(text), query=str(query), rel=list(rel), style=style.name, want=want),
        )  # fmt: skip

    if after != text:
        fail(f"changed the document to {after[:300]}")
        return False
    if isinstance(got, str):
        fail(f"raised {got}")
    elif not jsame(got, want):
        fail(f"gives {got!r} instead of {want!r}")
    return True


# ---------------------------------------------------------------------------
# every selection of nodes of every shape


def relabel(doc):
    pool = itertools.count()

    def go(v):
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        if isinstance(v, list):
            return [go(x) for x in v]
        return FALSY[next(pool) % len(FALSY)]

    return go(doc)


def singular(parts):
    return "$" + "".join(f"[{p}]" if isinstance(p, int) else f"['{p}']" for p in parts)


HOSTS = [("$", ()), ("$.h", ("h",)), ("$[1]", (1,)), ("$.g[2].h", ("g", 2, "h"))]


def host(i, doc):
    return [doc, {"g": 1, "h": doc}, [0, doc, 2], {"g": [0, 0, {"h": doc}]}][i]


def sequences(n, upto):
    for k in range(1, upto + 1):
        yield from itertools.product(range(n), repeat=k)
    for k in range(upto + 1, n + 1):
        yield from itertools.combinations(range(n), k)


def explore_shape(ctx, inner, upto, where):
    nodes = D.nodes(inner)[1:]
    texts = [singular(loc) for loc, _ in nodes]
    paths = [compiled(t) for t in texts]
    query, prefix = HOSTS[where]
    whole = host(where, inner)
    text = json.dumps(whole)
    whole = json.loads(text)
    q = compiled(query)
    for seq in sequences(len(nodes), upto):
        chosen = [nodes[i] for i in seq]
        asc = ascending(chosen)
        for style in STYLES:
            if style is not Projection.FLAT and not asc:
                ctx.n_skip += 1
                continue
            want = [project(chosen, style, prefix)]
            ctx.state((tuple(loc for loc, _ in chosen), style.name, where))
            rel = [texts[i] for i in seq]
            if not judge(ctx, whole, text, q, rel, style, want, [paths[i] for i in seq]):
                whole = json.loads(text)
            ctx.outcome(repr(want))


# ---------------------------------------------------------------------------
# relative queries


def explore_lists(ctx, di, query, lists, as_text):
    text = json.dumps(DOCS[di])
    doc = json.loads(text)
    pristine = json.loads(text)
    matches = [(m.parts, m.obj) for m in jsonpath.finditer(query, pristine) if isinstance(m.obj, (list, dict))]
    table = {}
    for rel in lists:
        per_match = []
        for k, (prefix, obj) in enumerate(matches):
            nodes = []
            for r in rel:
                found = table.get((k, r))
                if found is None:
                    found = table[(k, r)] = [(tuple(m.parts), m.obj) for m in compiled(r).finditer(obj)]
                nodes += found
            per_match.append((prefix, nodes))
        if any(not parts for _, nodes in per_match for parts, _ in nodes):
            ctx.n_skip += 1
            continue
        asc = all(ascending(nodes) for _, nodes in per_match)
        for style in STYLES:
            if style is not Projection.FLAT and not asc:
                ctx.n_skip += 1
                continue
            want = [project(nodes, style, prefix) for prefix, nodes in per_match]
            want = [w for w in want if not isinstance(w, str)]
            ctx.state((tuple(tuple(p for p, _ in nodes) for _, nodes in per_match), style.name))
            if not judge(ctx, doc, text, query, rel, style, want, rel if as_text else [compiled(r) for r in rel]):
                doc = json.loads(text)
            ctx.outcome(repr(want))


def shapes(n, both=True):
    seen = set()
    out = []
    for names in (("a", "b"), ("0", "1")) if both else (("a", "0"),):
        for d in D.trees(n, names=names, leaves=("?",)):
            d = relabel(d)
            key = json.dumps(d)
            if isinstance(d, (list, dict)) and key not in seen:
                seen.add(key)
                out.append(d)
    return out


def units(tier):
    full = tier == "thorough"
    out = []
    for n in range(2, 8 if full else 7):
        both = full or n < 6
        count = len(shapes(n, both))
        # (longest sequence, where the match is)
        plan = [(2 if n == 7 else 3 if n == 6 else 4, w) for w in ((3,) if n == 7 else range(4))] if full else [(2 if n == 6 else 3, w) for w in ((3,) if n == 6 else (0, 3) if n == 5 else range(4))]
        step = max(1, count // (256 if n == 7 else 64 if n == 6 else 8) + 1)
        for i in range(0, count, step):
            for upto, where in plan:
                out.append(("shape", n, both, i, i + step, upto, where))
    for di in range(len(DOCS)):
        for query in MATCH:
            out.append(("single", di, query))
            for j in range(2):
                out.append(("pair", di, query, j, 2))
                out.append(("triple", di, query, full, j, 2))
    return out


def run(unit, ctx):
    kind = unit[0]
    if kind == "shape":
        _, n, both, lo, hi, upto, where = unit
        for d in shapes(n, both)[lo:hi]:
            explore_shape(ctx, d, upto, where)
        ctx.sample(f"{json.dumps(d)} selections of {upto} nodes")
    elif kind == "single":
        explore_lists(ctx, unit[1], unit[2], [(r,) for r in REL], True)
        explore_lists(ctx, unit[1], unit[2], [()], True)
        ctx.sample(f"{unit[2]} on document {unit[1]}")
    elif kind == "pair":
        explore_lists(ctx, unit[1], unit[2], list(itertools.product(REL, repeat=2))[unit[3] :: unit[4]], False)
    elif kind == "triple":
        pool = REL_TRIPLE_T if unit[3] else REL_TRIPLE
        explore_lists(ctx, unit[1], unit[2], list(itertools.product(pool, repeat=3))[unit[4] :: unit[5]], False)
    else:
        raise AssertionError(unit)
