"""C20: match -> pointer -> patch edits exactly the matched node."""

from __future__ import annotations

import itertools
import json

import jsonpath
from jsonpath import JSONPatch
from jsonpath import JSONPointer
from jsonpath.exceptions import JSONPatchError

from checks import c01, c03
from vlib import docs as D
from vlib import patchmodel as M
from vlib import ptr as P
from vlib import rfc9535 as R
from vlib.util import chunks, freeze

PROP = "C20"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of query x document x match x edit history against direct edits at the model's location"
LEVEL_NOTE = (
    "Every match of every query within the bounds is edited through its pointer on the real code; the result is "
    "compared with editing a copy of the document directly at the location the reference evaluator gives. Trusts "
    "vlib/rfc9535.py and the direct edit in this file."
)
RULE = "a distinct (operation, location, resulting document) triple"
ASSUMPTIONS = [
    "removing the root is not judged: the root is neither a member nor an element",
    "a pointer's text containing a backslash is used with unicode_escape=False (documented escape decoding), and "
    "text spelling an integer beyond the documented index limit is not re-parsed (known finding of C03)",
]
BOUNDS = {
    "quick": "docs<=4 nodes x all 2-segment queries over 36 segments; docs<=3 x 3 segments over 14; slices; names "
    "<=2 over 55 characters and look-alike words at depths 1-3; 51 extended and compound queries; all pairs of "
    "matches x 9 pairs of edits and all batches on docs<=4 nodes",
    "thorough": "docs<=5 nodes x 2 segments, docs<=4 x 3 segments over 14; names <=3; pairs on docs<=5, triples on <=4",
}

NEW = {"new": [1, {"": "~/"}]}
NEWS = [NEW, None, False, 0, [], "", {}]


def edit(doc, loc, op, value=None):
    """A copy of doc edited at loc, without any pointer involved."""
    if not loc:
        return M.dup(value)
    out = M.dup(doc)
    parent = D.at(out, loc[:-1])
    if op == "remove":
        if isinstance(parent, dict):
            assert type(loc[-1]) is str
        else:
            assert type(loc[-1]) is int and loc[-1] >= 0
        del parent[loc[-1]]
    else:
        parent[loc[-1]] = M.dup(value)
    return out


def order(v):
    """A rendering in which the order of members matters."""
    if isinstance(v, dict):
        return [[k, order(x)] for k, x in v.items()]
    if isinstance(v, list):
        return [order(x) for x in v]
    return [v]


def same(a, b):
    return M.same(a, b) and json.dumps(order(a)) == json.dumps(order(b))


class Editor:
    def __init__(self, ctx, doc):
        self.ctx, self.doc, self.seen = ctx, doc, set()

    def bad(self, text, m, how, what):
        self.ctx.fail(
            f"{text!r} on {json.dumps(self.doc)} at {m.path}: {how}",
            f"{what} -- {how} at the match {m.path!r} of {text!r} on {self.doc!r}",
            "import copy, jsonpath\nfrom jsonpath import JSONPatch\n"
            f"doc, loc = {self.doc!r}, {m.parts!r}\n"
            f"for m in jsonpath.finditer({text!r}, doc):\n"
            "    if m.parts != loc: continue\n"
            "    p = m.pointer()\n"
            "    for patch in [JSONPatch().test(p, m.obj), JSONPatch().replace(p, 'NEW'), JSONPatch().remove(p)]:\n"
            "        print(m.path, repr(str(p)), p.parts, patch.asdicts())\n"
            "        try: print('   ', patch.apply(copy.deepcopy(doc)))\n"
            "        except Exception as e: print('   ', type(e).__name__, e)\n"
            f"print({how!r}, {what!r})",
        )

    def apply(self, text, m, how, make, want):
        """Apply the patch built by make() to a copy of the document; it has to give `want`."""
        ctx = self.ctx
        ctx.case((text, m.parts, how, self.doc))
        ctx.trans(1)
        target = M.dup(self.doc)
        try:
            got = make().apply(target)
        except Exception as err:  # noqa: BLE001
            return self.bad(text, m, how, f"raises {type(err).__name__}: {err}")
        if not same(got, want):
            return self.bad(text, m, how, f"gives {got!r}, expected {want!r}")
        ctx.outcome((how, m.parts, freeze(want)))
        return None

    def match(self, text, m, loc):
        if loc is None:
            loc = m.parts  # judged by C03
        p = m.pointer()
        key = (freeze(loc), freeze(p.parts), str(p))
        if key in self.seen:
            return
        self.seen.add(key)
        doc = self.doc
        value = D.at(doc, loc)
        s = str(p)
        targets = [("pointer", p, {})]
        if not any(c03.beyond(x) for x in loc):
            targets.append(("text, unicode_escape=False", s, {"unicode_escape": False}))
            if "\\" not in s:
                targets.append(("text", s, {}))
        for how, t, kw in targets:
            self.apply(text, m, f"test {how}", lambda: JSONPatch(**kw).test(t, M.dup(value)), doc)
            self.apply(text, m, f"test m.obj {how}", lambda: JSONPatch(**kw).test(t, m.obj), doc)
            for new in NEWS if how == "pointer" else NEWS[:1]:
                self.apply(
                    text, m, f"replace {how} by {new!r}", lambda: JSONPatch(**kw).replace(t, M.dup(new)),
                    edit(doc, loc, "replace", new),
                )  # fmt: skip
                self.apply(
                    text, m, f"replace and test {how} by {new!r}",
                    lambda: JSONPatch(**kw).test(t, M.dup(value)).replace(t, M.dup(new)).test(t, M.dup(new)),
                    edit(doc, loc, "replace", new),
                )  # fmt: skip
            if loc:
                gone = edit(doc, loc, "remove")
                self.apply(text, m, f"remove {how}", lambda: JSONPatch(**kw).remove(t), gone)
                self.apply(
                    text, m, f"replace and remove {how}",
                    lambda: JSONPatch(**kw).replace(t, NEW).test(t, M.dup(NEW)).remove(t), gone,
                )  # fmt: skip
            if isinstance(t, str):
                ops = [{"op": "test", "path": t, "value": M.dup(value)}, {"op": "replace", "path": t, "value": NEW}]
                self.apply(text, m, f"document {how}", lambda: JSONPatch(ops, **kw), edit(doc, loc, "replace", NEW))
                if loc:
                    ops2 = [{"op": "remove", "path": t}]
                    self.apply(text, m, f"remove document {how}", lambda: JSONPatch(ops2, **kw), edit(doc, loc, "remove"))
            # what must fail: a test for any other value
            self.ctx.case((text, m.parts, "test other", doc))
            try:
                JSONPatch(**kw).test(t, [value, "other"]).apply(M.dup(doc))
            except JSONPatchError:
                pass
            except Exception as err:  # noqa: BLE001
                self.bad(text, m, f"test other {how}", f"raises {type(err).__name__}: {err}")
            else:
                self.bad(text, m, f"test other {how}", "passes")

    def query(self, text, q=None):
        ctx, doc = self.ctx, self.doc
        try:
            matches = list(jsonpath.compile(text).finditer(doc))
        except Exception as err:  # noqa: BLE001
            return ctx.fail(
                f"{text!r} on {json.dumps(doc)}", f"{text!r} on {doc!r} raises {type(err).__name__}: {err}",
                f"import jsonpath\nprint(jsonpath.findall({text!r}, {doc!r}))",
            )  # fmt: skip
        if q is not None:
            locs = [loc for loc, _ in R.nodelist(q, doc)[0]]
            if len(locs) != len(matches):
                return None  # C01's business
        else:
            locs = [None] * len(matches)
        for m, loc in zip(matches, locs):
            self.match(text, m, loc)
        return matches

    def batches(self, text, size):
        """Several matches edited by one patch: histories of edits at pointers taken beforehand."""
        doc, ctx = self.doc, self.ctx
        ms = list(jsonpath.finditer(text, doc))
        for chosen in itertools.product(ms, repeat=size):
            for ops in itertools.product(("replace", "remove", "test"), repeat=size):
                if any(op == "remove" and not m.parts for m, op in zip(chosen, ops)):
                    continue
                raw = [(op, m.parts, [i] if op == "replace" else m.obj) for i, (m, op) in enumerate(zip(chosen, ops))]
                model = [{"op": op, "path": P.encode(loc), "value": v} for op, loc, v in raw]
                try:
                    want, failed = M.apply(model, doc), False
                except M.PatchError:
                    want, failed = None, True
                patch = JSONPatch()
                for m, (op, _, v) in zip(chosen, raw):
                    patch = patch.remove(m.pointer()) if op == "remove" else getattr(patch, op)(m.pointer(), M.dup(v))
                ctx.case((text, raw, doc))
                ctx.trans(size)
                try:
                    got = patch.apply(M.dup(doc))
                except JSONPatchError as err:
                    got = err
                    if failed:
                        continue
                except Exception as err:  # noqa: BLE001
                    got = err
                if failed or isinstance(got, Exception) or not same(got, want):
                    exp = "a patch error" if failed else repr(want)
                    self.bad(text, chosen[0], f"history {raw!r}", f"gives {got!r}, expected {exp}")
                else:
                    ctx.outcome((ops, tuple(m.parts for m in chosen), freeze(want)))

    def all_removed(self, text):
        """Removing every match, last first, leaves what removing each of them directly leaves."""
        doc = self.doc
        ms = list({m.parts: m for m in jsonpath.finditer(text, doc) if m.parts}.values())
        # children before parents, later elements before earlier ones: no pointer is invalidated
        ms.sort(key=lambda m: [(isinstance(p, str), p) for p in m.parts], reverse=True)
        if not ms:
            return
        patch, want = JSONPatch(), doc
        for m in ms:
            patch.remove(m.pointer())
            want = edit(want, m.parts, "remove")
        self.apply(text, ms[0], "remove every match", lambda: patch, want)


def units(tier):
    full = tier == "thorough"
    out = []
    for i in range(len(c01.SEGS_FULL)):
        out.append(("two", 5 if full else 4, i))
    for i in range(len(c01.SEGS_14)):
        out.append(("three", 4 if full else 3, i))
    for n in range(9 if full else 6):
        out.append(("slices", n))
    for i in range(0, len(c03.TEXTS), 4):
        out.append(("texts", i, 5 if full else 4))
    out.append(("scale",))
    for n in range(1, 6 if full else 5):
        k = len(D.shapes(n))
        for j in range(0, k, 40):
            out.append(("pairs", n, j, 2))
            if full and n <= 4:
                out.append(("pairs", n, j, 3))
    for i in range(0, len(c03.NAMES), 4):
        out.append(("words", i))
    for i in range(len(c03.name_chars())):
        out.append(("names", i, 3 if full else 2))
    return out


def hostile(ctx, names):
    for group in chunks(names, 6):
        hostile_group(ctx, group)


def hostile_group(ctx, names):
    doc = {n: [{n: n + "!", "x" + n: [0.5, n + "?"]}, n + "."] for n in names}
    docs = [doc, {"k": {n: n + "=" for n in names}}, [{n: [n + "#"]} for n in names]]
    for d in docs:
        ctx.state(freeze(d))
        ed = Editor(ctx, d)
        ed.query("$..*", ("$", (("d", (("w",),)),)))
        ed.all_removed("$..*")


def run(unit, ctx):
    kind = unit[0]
    if kind in ("two", "three"):
        if kind == "two":
            a = c01.SEGS_FULL[unit[2]]
            qs = [("$", (a, b)) for b in c01.SEGS_FULL] + [("$", (a,)), ("$", ())]
        else:
            segs = c01.SEGS_14
            qs = [("$", (segs[unit[2]], b, c)) for b in segs for c in segs]
        texts = [(R.text_of(q), q) for q in qs]
        for d in c03.uni(unit[1]):
            ctx.state(freeze(d))
            ed = Editor(ctx, d)
            for t, q in texts:
                ed.query(t, q)
                ed.all_removed(t)
        ctx.sample({"query": texts[0][0], "document": d})
    elif kind == "slices":
        n = unit[1]
        doc = c03.fresh([0] * n)
        r = [None] + list(range(-n - 1, n + 2))
        for d, pre in ((doc, ()), ({"x": doc, "0": 0}, (("c", (("n", "x"),)),)), ([doc, doc], (("c", (("w",),)),))):
            ed = Editor(ctx, d)
            for a, b, c in itertools.product(r, r, r):
                q = ("$", pre + (("c", (("s", a, b, c),)),))
                ed.query(R.text_of(q), q)
                ed.all_removed(R.text_of(q))
    elif kind == "texts":
        for d in c03.uni(unit[2]):
            ed = Editor(ctx, d)
            for t in c03.TEXTS[unit[1] : unit[1] + 4]:
                ed.query(t)
                ed.all_removed(t)
    elif kind == "scale":
        docs = [D.long_array(12), D.long_array(120), D.long_object(120)] + [D.deep(n, k) for n in (9, 33) for k in "aom"]
        docs += [{"a": [D.long_array(11)], "0": {"1": [0, {"-1": "x"}]}}]
        docs = [c03.fresh(d) for d in docs]
        shared = {"a": [1.25, "s"], "b": "t"}
        docs += [[shared, shared], {"a": shared, "b": [shared, {"a": shared}]}, [[], [], {}, {}, [[]], ""]]
        docs += [[1, True, 1.0, [True], [1]], {"a": 0, "b": False, "c": {"a": False}, "d": {"a": 0}}]
        for d in docs:
            ctx.state(freeze(d))
            ed = Editor(ctx, d)
            for a in c01.SEGS_FULL:
                q = ("$", (a,))
                ed.query(R.text_of(q), q)
                q = ("$", (("d", (("w",),)), a))
                ed.query(R.text_of(q), q)
                ed.all_removed(R.text_of(q))
            ed.all_removed("$..*")
    elif kind == "pairs":
        docs = [c03.fresh(d) for d in D.shapes(unit[1])[unit[2] : unit[2] + 40]]
        for d in docs:
            for names in ({"a": "a", "b": "b"}, {"a": "0", "b": "1"}, {"a": "-", "b": "00"}):
                ed = Editor(ctx, rename(d, names))
                ed.batches("$..*", unit[3])
                if unit[3] == 2:
                    ed.batches("$ | $..*", 2)
    elif kind == "words":
        ns = c03.NAMES[unit[1] : unit[1] + 4]
        hostile(ctx, ns)
        for n in ns:
            hostile(ctx, [n, n + "0", "0" + n, n + n])
    elif kind == "names":
        chars = c03.name_chars()
        c = chars[unit[1]]
        hostile(ctx, list(dict.fromkeys([c] + [c + d for d in chars] + [c * 3, "a" + c + "a"])))
        if unit[2] > 2:
            for d in chars:
                hostile(ctx, list(dict.fromkeys(c + d + e for e in "a01-+'\"\\/~#% \u0661\x00")))
    else:
        raise AssertionError(unit)


def rename(v, names):
    if isinstance(v, dict):
        return {names[k]: rename(x, names) for k, x in v.items()}
    if isinstance(v, list):
        return [rename(x, names) for x in v]
    return v
