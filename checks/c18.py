"""C18: the command-line tool is a faithful front end to the library."""

from __future__ import annotations

import gc
import io
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import traceback

import jsonpath
from jsonpath import cli

from vlib import core
from vlib.util import memoise_charsets

PROP = "C18"
LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of command lines (sub-command x every option combination x expression x document) on the real "
    "jsonpath.cli.main(), and of every option combination on real `python -m jsonpath` processes, against the library call they stand for"
)
LEVEL_NOTE = (
    "the oracle is the library call with the options' documented meaning, serialised by json.dumps; exit status, standard output, "
    "output file and standard error of every run are compared. In-process runs replace argv and the three standard streams only, and the "
    "process runs show that they are what a process does. Nothing beyond the bounds."
)
RULE = "a distinct (sub-command, options, expression) triple; outcomes are distinct (status, output) pairs"
ASSUMPTIONS = [
    "usage errors (argparse, exit status 2), files that can not be opened, and an output file that is also an input are not judged",
    "a file that holds an expression may end in one newline that is not part of the expression; blanks around a query in a file are not judged",
    "documents on standard input are text in the encoding of standard input (UTF-8 here), those in a file are what json.loads makes of bytes",
    "results that json.dumps can not serialise with the chosen indentation (nesting beyond the recursion limit) are not judged",
    "what standard output or the output file holds after an input was rejected is not judged, nor is standard error after a success",
]
BOUNDS = {
    "quick": "path, pointer and patch: every combination of --debug, --pretty, --no-unicode-escape, --no-type-checks or --uri-decode, "
    "expression inline short or long, in a file with or without newline, on standard input; document -f, --file, standard input, -f -; output "
    "standard, -o file, --output file, -o - x 8 expressions x 6 documents in process; every expression x every document x 8 of 16 flag combinations (4 with file and standard input) in process; "
    "every flag combination x 5 input and output routes x 2 expressions in real processes",
    "thorough": "every option combination x every expression x 10 documents, and every option combination x 4 expressions in real processes",
}

# ---------------------------------------------------------------------------
# documents

OK_DOCS = {
    "object": b'{"a": 1, "b": [1, {"a": "x", "c": null}, 2.5, true], "c": {"a": {"b": ""}}, "a b": 3, "": 4, "A": 5}',
    "array": b'[{"a": 1, "b": 2}, {"a": "b"}, [], {}, null, false, 0, -1, 1.0, "s", [1, 2, 3]]',
    "escapes": b'{"\\u00e9": "\\ud83d\\ude00", "\\u0061": "\\n\\t\\u0000", "/": 1, "~": 2, "%61": 3, "\\\\u0061": 4, "a/b": 5, "~1": 6, "~0": 7}',
    "utf8": '{"a": "\u00e9\u2713\U0001f600", "\u00e9": 1, "\u3000": 2, "a\u3000": 3, "a\u00a0": 4}'.encode(),
    "blanks": b' \r\n\t{ "a" :\n1 ,"a ":2, " a":3, "a\\n":4, "\\na":5, "a\\r": 6, "a\\n\\n":7}\n\n',
    "empty-object": b"{}",
    "empty-array": b"[]",
    "string": b'"abc"',
    "bracket-string": b'"[1, {a}]"',
    "json-string": b'"[1, 2]"',
    "empty-string": b'""',
    "null": b"null",
    "true": b"true",
    "zero": b"0",
    "float": b"-1.5e3",
    "big": b'{"a": 123456789012345678901234567890, "b": 1e400, "c": 0.1, "d": -0.0, "e": 1e22}',
    "nan": b'[NaN, Infinity, -Infinity, {"a": NaN}]',
    "duplicate": b'{"a": 1, "a": 2, "b": 3}',
    "surrogate": b'{"a": "\\ud800", "\\udc00": 1}',
    "order": b'{"z": 1, "y": {"b": 1, "a": 2}, "x": [3, 2, 1]}',
    "deep": b"[" * 150 + b'{"a": 1}' + b"]" * 150,
    "deeper": b'{"a":' * 2000 + b"1" + b"}" * 2000,
    "utf16": '{"a": [1, "\u00e9"]}'.encode("utf-16"),
    "utf16le": '{"a": [1, "\u00e9"]}'.encode("utf-16-le"),
    "utf32": '{"a": [1, "\u00e9"]}'.encode("utf-32"),
    "bom": b'\xef\xbb\xbf{"a": 1}',
}
BAD_DOCS = {
    "nothing": b"", "blank": b" \n", "braces": b"}}invalid", "word": b"abc", "trailing": b'{"a": 1,}', "cut": b'{"a": [1, 2', "two": b"{} {}",
    "single": b"{'a': 1}", "control": b'"a\nb"', "latin1": '{"a": "\u00e9"}'.encode("latin1"), "cut-utf8": b'{"a": "\xe2\x9c', "nul": b"\x00",
    "digits": b"[" + b"9" * 5000 + b"]", "unclosed": b"[" * 100000, "quote": b'"', "lines": b'{"a":\n\n1\n"b"\n', "cut-utf16": '{"a": 1}'.encode("utf-16")[:-1],
    "number": b"01", "bad-escape": b'"\\x"',
}  # fmt: skip
DOCS = {**OK_DOCS, **BAD_DOCS}
FEW_DOCS = ["object", "array", "escapes", "utf8", "trailing", "latin1"]
SOME_DOCS = FEW_DOCS + ["string", "nothing", "digits", "order"]
BYTES_ONLY = {"utf16", "utf16le", "utf32", "bom", "cut-utf16"}  # not judged on a text stream

# ---------------------------------------------------------------------------
# expressions

QUERIES = [
    "", "$", "$.a", "$.b", "$.*", "$..*", "$..a", "$.b[0]", "$.b[-1]", "$.b[1:3]", "$[0]", "$[0].a", "$['a']", '$["a b"]', "$['']", "$.zz", "$..zz", "a", "b.a", "^",
    "^[0].a", "$.~", "$..[~]", "$.a | $.b", "$.* & $.a", "$[?@.a]", "$[?@.a == 1]", "$..[?@ == null]", "$[?# == 'a']", "$[?_.x]", "$[?@ in $.b]", "$[?length(@) > 0]",
    "$[?count(@.*) == 1]", "$[?match(@.a, 'b.*')]", "$[?search(@, 's')]", "$[?value(@..a) == 1]", "$[?typeof(@) == 'string']", "$[?isinstance(@, 'number')]",
    "$[?@.a =~ /b/]", "$[?startswith(@, 's')]", "$[a, 'b', 0, 1:]", "$.b[?@.a].a", "$['\\u0061']", '$["\\u00e9"]', "$['\\ud83d\\ude00']", "$['\\\\u0061']", "$[?@ == '\\u0061']",
    "$[?@ == '\\ud83d\\ude00']", "$['\\/']", "$['\\t']", "$.\u00e9", "$.a\u3000", "$.a\u00a0", "$['a\u3000']", "$\n.a", "$['a\\n']", "$['%61']", "$.c.a.b", "$..b..a",
    "$[?@.a && @.b || !@.c]", "$[?$.a]", "$[?@.a in [1, 2]]", "$['a', 'a']", "$[::-1]", "$[?@.a == @.b]",
    # only without type checks
    "$[?count(@.a)]", "$[?length(@.*) > 0]", "$[?@.* == 1]", "$[?match(@.a, 'b') == true]", "$[?length(@)]", "$[?count(1) == 1]", "$[?value(@.a)]", "$[?count(@.a, 'b')]",
    "$[?length() == 1]", "$[?match(@, 1)]", "$[?match(1, 2)]", "$[?search(@.*, 'a')]", "$[?length($) > 'a']", "$[?value(1) == 1]", "$[?count(@) > 0]", "$[?match(@.a)]",
]  # fmt: skip
BAD_QUERIES = [
    "$.1", "$.", "$[", "$]", "$..", "$.a.", "$[]", "$['a'", "$['a]", "$[1", "$[1,]", "$[01]", "$[-0]", "$[a b]", "$[?", "$[?]", "$[?@.a ==]", "$[?(@.a]", "$[?@.a))]", "$[? @.a = 1]", "$ a", " $.a",
    "$.a ", "$.a |", "$.a & ", "| $.a", "$[?@.a == 'x]", "$[?@.a =~ /(/]", "$[?'a']", "$[?nosuch(@.a)]", "$[?nosuch(@.a) == 1]", "$[?nosuch()]", "$[9007199254740992]", "$[-9007199254740992]",
    "$[1:9007199254740993]", "$['\\u00']", "$['\\ud800']", "$['\\x']", "$[?@ == '\\u12']", "$.a\n\n.]", "$.a\n[\n'b'\n", "$[?nosuch\n(@)]", "$[?@.a ==\n\n]", "$[?@['\n'] ~~ 1]", "$[?\n\n\n]",
    "$.\n\n%", "$['\n', ]", "$[?@.a == 1 ==\n2]", "\x00", "$.a\x00", "%", "$[?count(@.a, \n'b')]", "$[?!\n'a']", "$[?'a\nb']", "$[?(\n]", "$[?@.a == \"x\ny", "\u2028", "$.a\u2028]", "$[?@=='\u2028' 1]", "$[?'\x0b'+]",
    "$[?" + "(" * 400 + "@" + ")" * 400 + "]", "$" + "[?@" * 400 + "]" * 400, "$[?@.a > ]", "$[?@.*==1]", "$[?/a/]", "$[?(@.a, 1)]", "~", "$~", "$.~.~ a", "$[1.5]", "$[?@.a @.b]", "$[?@.a in]", "$[?[1]]",
]  # fmt: skip
POINTERS = [
    "", "/a", "/b", "/b/0", "/b/1/a", "/b/-1", "/0", "/0/a", "/a b", "/", "//", "/zz", "/b/9", "/b/-", "/a/b", "/c/a/b", "/a/0", "/b/#0", "/#a", "/b/01", "/b/+1", "/b/1.0", "/A",
    "/%61", "/%2561", "/%25%36%31", "/a%20b", "/a+b", "/b%2F0", "/%zz", "/%", "/%C3%A9", "/\\u0061", "/\\u00e9", "/\u00e9", "/\\\\u0061", "/\\ud83d\\ude00", "/\\ud800", "/\\u00", "/\\x41", "/\\", "/~1", "/~0",
    "/~01", "/~00", "/a~1b", "/~", "/~2", "/a ", "/ a", "/a\n", "/\na", "/a\n\n", "/a\u3000", "/a\u00a0", "/\u3000", "/\u2028", "/zz\n\nzz", "/b/x\ny", "/b/1/c/d\ne", "/zz\u2028", "/%0A", "/%0a%0Aa", "/\\n", "/a\\u000a",
    "/\\u002fa", "/b/\n1", "/b/1 ", "/b/9007199254740992", "/b/" + "9" * 5000, "/" + "a" * 200, "/a" * 300, "/nan", "/\\udc00", "/\ud800"[:2] if False else "/1/a",
]  # fmt: skip
BAD_POINTERS = ["a", "a/b", "0", "0/a", "1#", "#", "$.a", " /a", "\n", "\\", "%2Fa", "\\u002fa", "a\nb", "\n\nb", "-", "/\\ud83d", "/\\u", "\\", "a\\x"]


def J(obj):
    return json.dumps(obj).encode()


def op(name, path, **kw):
    return {"op": name, "path": path, **({"from": kw.pop("frm")} if "frm" in kw else {}), **kw}


PATCHES = {
    "none": J([]),
    "add": J([op("add", "/a", value={"n": [1]})]),
    "add-end": J([op("add", "/b/-", value=None)]),
    "add-first": J([op("add", "/0", value="x")]),
    "remove": J([op("remove", "/a")]),
    "replace": J([op("replace", "/b", value=[])]),
    "replace-root": J([op("replace", "", value=[0])]),
    "move": J([op("move", "/z", frm="/a")]),
    "copy": J([op("copy", "/z", frm="/b"), op("add", "/z/0", value=0)]),
    "test": J([op("test", "/a", value=1)]),
    "test-fails": J([op("test", "/a", value=2)]),
    "test-missing": J([op("test", "/zz", value=2)]),
    "addne": J([op("addne", "/a", value=9)]),
    "addap": J([op("addap", "/b/9", value=9)]),
    "several": J([op("add", "/n", value=1), op("test", "/n", value=1), op("move", "/m", frm="/n"), op("remove", "/m"), op("replace", "/a", value="\u00e9")]),
    "second-fails": J([op("add", "/n", value=1), op("remove", "/zz")]),
    "uri": J([op("add", "/%61", value="uri")]),
    "uri-from": J([op("copy", "/y", frm="/%61")]),
    "uri-test": J([op("test", "/%61", value=1)]),
    "uri-dest": J([op("move", "/%7A", frm="/a")]),
    "uri-twice": J([op("add", "/%2561", value="twice")]),
    "esc": J([op("add", "/\\u0061", value="esc")]),
    "esc-from": J([op("move", "/y", frm="/\\u0061")]),
    "esc-remove": J([op("remove", "/\\u0061")]),
    "esc-replace": J([op("replace", "/\\u00e9", value=0)]),
    "esc-both": J([op("add", "/%61\\u0062", value=1)]),
    "esc-bad": J([op("add", "/\\ud800", value=1)]),
    "esc-bad2": J([op("add", "/\\u00", value=1)]),
    "tilde": J([op("add", "/a~1b", value=1), op("add", "/~0", value=2)]),
    "utf8": '[{"op": "add", "path": "/\u00e9", "value": "\u2713"}]'.encode(),
    "utf16": '[{"op": "add", "path": "/\u00e9", "value": "\u2713"}]'.encode("utf-16"),
    "bom": b'\xef\xbb\xbf[{"op": "add", "path": "/e", "value": 1}]',
    "nan": b'[{"op": "add", "path": "/e", "value": NaN}]',
    "extra": J([{"op": "add", "path": "/a", "value": 1, "other": 2}]),
    "root-add": J([op("add", "", value="root")]),
    "root-remove": J([op("remove", "")]),
    # rejected whatever the document
    "object": J({"op": "add", "path": "/a", "value": 1}),
    "string": J("[]"),
    "number": J(1),
    "null": J(None),
    "items": J([1]),
    "strings": J(["op"]),
    "nulls": J([None]),
    "lists": J([["op", "add"]]),
    "no-op": J([{"path": "/a", "value": 1}]),
    "unknown": J([op("nosuch", "/a", value=1)]),
    "unknown-lines": J([op("no\nsuch\n", "/a", value=1)]),
    "op-type": J([{"op": 1, "path": "/a"}]),
    "op-list": J([{"op": [], "path": "/a"}]),
    "no-path": J([{"op": "add", "value": 1}]),
    "no-value": J([{"op": "add", "path": "/a"}]),
    "no-from": J([{"op": "move", "path": "/a"}]),
    "path-type": J([{"op": "remove", "path": 1}]),
    "path-null": J([{"op": "remove", "path": None}]),
    "path-list": J([{"op": "remove", "path": ["a"]}]),
    "from-type": J([{"op": "copy", "path": "/a", "from": 3}]),
    "bad-path": J([op("add", "a", value=1)]),
    "bad-path-lines": J([op("add", "a\n\nb", value=1)]),
    "missing-lines": J([op("remove", "/zz\n\nzz")]),
    "missing-lines2": J([op("replace", "/b/1\n2", value=1)]),
    "test-lines": J([op("test", "/zz\nzz", value=1)]),
    "parent-lines": J([op("add", "/x\ny/z", value=1)]),
    "copy-lines": J([op("copy", "/a", frm="/x\ny")]),
    "empty-file": b"",
    "not-json": b"}}invalid",
    "trailing": b'[{"op": "add",}]',
    "cut": b'[{"op"',
    "latin1": '[{"op": "add", "path": "/\u00e9", "value": 1}]'.encode("latin1"),
    "cut-utf8": b'["\xe2\x9c',
    "nul": b"\x00",
    "digits": b"[" + b"9" * 5000 + b"]",
    "unclosed": b"[" * 100000,
    "lines": b"[\n\n{]",
}

FEW = {
    "path": ["$..*", "$['\\u0061']", "$[?count(@.a)]", "$.zz", "$.1", "$[?nosuch(@)]", "$[9007199254740992]", "$[?count(@.a, \n'b')]"],
    "pointer": ["/b", "/%61", "/\\u0061", "", "/zz", "a\nb", "/%61\\u0062", "/b/x\ny"],
    "patch": ["add", "uri-from", "esc-from", "none", "test-fails", "object", "esc-bad", "not-json"],
}
ALL = {"path": QUERIES + BAD_QUERIES, "pointer": POINTERS + BAD_POINTERS, "patch": list(PATCHES)}

# ---------------------------------------------------------------------------
# command lines

FLAGS = list(itertools.product((0, 1), repeat=4))  # debug, pretty, no-unicode-escape, no-type-checks / uri-decode
HOW = {
    "path": ["-q", "--query=", "-r", "-r+nl", "--path-file", "-r-"],
    "pointer": ["-p", "--pointer=", "-r", "-r+nl", "--pointer-file", "-r-"],
    "patch": ["arg", "arg-last", "arg-"],
}
DOC_HOW = ["-f", "--file", "stdin", "-f-"]
OUT_HOW = ["stdout", "-o", "--output", "-o-"]
LAST = {"path": "--no-type-checks", "pointer": "--uri-decode", "patch": "-u"}
SHORT_LAST = {"path": "--no-type-checks", "pointer": "-u", "patch": "--uri-decode"}


class Room:
    """Scratch files of one worker process."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="c18-", dir=os.environ.get("TMPDIR") or "/tmp")
        self.names = {}
        self.n = 0

    def put(self, content):
        name = self.names.get(content)
        if name is None:
            name = os.path.join(self.dir, f"in{len(self.names)}")
            with open(name, "wb") as fd:
                fd.write(content)
            self.names[content] = name
        return name

    def out(self):
        self.n += 1
        return os.path.join(self.dir, f"out{self.n}")


def command(cmd, flags, how, doc_how, out_how, expr, doc, room, order=0):
    """-> argv, bytes on standard input, output file name or None; None when two things want standard input."""
    debug, pretty, noesc, last = flags
    argv = []
    for on, name in ((debug, "--debug"), (pretty, "--pretty"), (noesc, "--no-unicode-escape")):
        if on:
            argv.append(name)
    if order:
        argv.reverse()
    argv.append(cmd)
    groups = []
    stdin = b""
    uses = 0
    tail = []
    if cmd == "patch":
        if how == "arg":
            groups.append([room.put(PATCHES[expr])])
        elif how == "arg-last":
            tail = [room.put(PATCHES[expr])]
        else:
            groups.append(["-"])
            stdin, uses = PATCHES[expr], uses + 1
    elif how in ("-q", "-p"):
        if expr.startswith("-") or "\0" in expr:
            return None
        groups.append([how, expr])
    elif how.endswith("="):
        if "\0" in expr:
            return None
        groups.append([how + expr])
    else:
        content = expr.encode() + (b"\n" if how.endswith("+nl") else b"")
        if how == "-r-":
            groups.append(["-r", "-"])
            stdin, uses = content, uses + 1
        else:
            groups.append([how[:2] if how.startswith("-r") else how, room.put(content)])
    raw = DOCS[doc]
    if doc_how in ("-f", "--file"):
        groups.append([doc_how, room.put(raw)])
    elif doc_how == "-f-":
        groups.append(["-f", "-"])
    if doc_how in ("stdin", "-f-"):
        stdin, uses = raw, uses + 1
    if uses > 1:
        return None
    out = None
    if out_how in ("-o", "--output"):
        out = room.out()
        groups.append([out_how, out])
    elif out_how == "-o-":
        groups.append(["-o", "-"])
    if last:
        groups.append([LAST[cmd] if len(out_how) > 2 else SHORT_LAST[cmd]])
    if order:
        groups.reverse()
    for g in groups:
        argv += g
    return argv + tail, stdin, out


# ---------------------------------------------------------------------------
# the library call

_ENVS = {}
_ORACLE = {}


def load(doc, text):
    raw = DOCS[doc]
    return json.loads(raw.decode() if text else raw)


def expected(cmd, flags, expr, doc, text):
    """("ok", text), ("reject", why) or ("skip",)."""
    key = (cmd, flags[1:], expr, doc, text)
    r = _ORACLE.get(key)
    if r is None:
        if len(_ORACLE) > 20000:
            _ORACLE.clear()
        r = _ORACLE[key] = library(cmd, flags, expr, doc, text)
    return r


def library(cmd, flags, expr, doc, text):
    _, pretty, noesc, last = flags
    try:
        if cmd == "path":
            env = _ENVS.get((noesc, last))
            if env is None:
                env = _ENVS[(noesc, last)] = jsonpath.JSONPathEnvironment(unicode_escape=not noesc, well_typed=not last)
            result = env.compile(expr).findall(wrap(load(doc, text)))
        elif cmd == "pointer":
            data = load(doc, text)
            result = jsonpath.pointer.resolve(expr, wrap(data), unicode_escape=not noesc, uri_decode=bool(last))
        else:
            patch = json.loads(PATCHES[expr])
            if not isinstance(patch, list):
                return ("reject", "not an array")
            result = jsonpath.JSONPatch(patch, unicode_escape=not noesc, uri_decode=bool(last)).apply(wrap(load(doc, text)))
    except Exception as err:  # noqa: BLE001
        return ("reject", f"{type(err).__name__}: {err}"[:200])
    try:
        return ("ok", json.dumps(result, indent=2 if pretty else None))
    except RecursionError:
        return ("skip",)


def wrap(data):
    """A string document must not be read as JSON text a second time."""
    return io.StringIO(json.dumps(data)) if isinstance(data, str) else data


# ---------------------------------------------------------------------------
# running


def in_process(argv, stdin, out):
    """-> status, standard output, standard error, content of the output file."""
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    so, se = io.BytesIO(), io.BytesIO()
    sys.argv = ["json", *argv]
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding="utf-8")
    sys.stdout = io.TextIOWrapper(so, encoding="utf-8", write_through=True)
    sys.stderr = io.TextIOWrapper(se, encoding="utf-8", errors="backslashreplace", write_through=True)
    try:
        try:
            cli.main()
            status = 0
        except SystemExit as err:
            status = err.code
            if status is None:
                status = 0
            elif not isinstance(status, int):
                sys.stderr.write(f"{status}\n")
                status = 1
        except Exception as err:  # noqa: BLE001
            status = 1
            sys.stderr.write("".join(traceback.format_exception(type(err), err, err.__traceback__, limit=3)))
            err.__traceback__ = None
        sys.stdout.flush()
        sys.stderr.flush()
        o, e = so.getvalue().decode(), se.getvalue().decode()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    return status, o, e, take(out, status == 0)


def take(out, collect=False):
    if out is None:
        return None
    if not os.path.exists(out):
        return ""
    if collect and not os.path.getsize(out):
        gc.collect()
    with open(out, "rb") as fd:
        content = fd.read().decode()
    os.unlink(out)
    return content


def process(argv, stdin, out):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONIOENCODING="utf-8:strict")
    r = subprocess.run([sys.executable, "-m", "jsonpath", *argv], input=stdin, capture_output=True, cwd=core.REPO, env=env, timeout=120)  # noqa: S603, PLW1510
    return r.returncode, r.stdout.decode(), r.stderr.decode("utf-8", "replace"), take(out)


SCRIPT = """
import os, subprocess, sys, tempfile
room = tempfile.mkdtemp()
files = {files!r}
argv = {argv!r}
for name, content in files.items():
    open(os.path.join(room, name), 'wb').write(content)
argv = [a.replace({dir!r}, room) for a in argv]
print('json', *map(repr, argv))
r = subprocess.run([sys.executable, '-m', 'jsonpath', *argv], input={stdin!r}, capture_output=True)
print('status', r.returncode)
print('stdout', r.stdout)
print('stderr', r.stderr.decode('utf-8', 'replace'))
out = {out!r}
if out:
    print('output', open(os.path.join(room, out), 'rb').read())
print('expected', {want!r})
"""


def judge(ctx, room, cmd, flags, how, doc_how, out_how, expr, doc, order=0, runner=in_process):
    if doc_how == "stdin" and doc in BYTES_ONLY:
        ctx.n_skip += 1
        return
    from_file = cmd != "patch" and how in ("-r", "-r+nl", "--path-file", "--pointer-file", "-r-")
    if from_file:
        if "\r" in expr or (cmd == "path" and expr != expr.strip(" \t\r\n")):
            ctx.n_skip += 1
            return
        if how != "-r+nl" and expr.endswith("\n"):
            ctx.n_skip += 1
            return
    line = command(cmd, flags, how, doc_how, out_how, expr, doc, room, order)
    if line is None:
        ctx.n_skip += 1
        return
    argv, stdin, out = line
    want = expected(cmd, flags, expr, doc, doc_how == "stdin")
    ctx.case((cmd, flags, how, doc_how, out_how, expr, doc))
    ctx.trans(2)
    ctx.state((cmd, flags, how, doc_how, out_how, expr))
    status, stdout, stderr, content = runner(argv, stdin, out)

    def fail(what):
        files = {os.path.basename(v): k for k, v in room.names.items() if v in argv}
        shown = " ".join(repr(a.replace(room.dir + "/", ""))[:80] for a in argv)
        ctx.fail(
            f"{cmd} {''.join(map(str, flags))} {how} {doc_how} {out_how} {expr!r} {doc}",
            f"json {shown} with {'document ' + doc}{' in a process' if runner is process else ''}: {what}"[:1200],
            SCRIPT.format(
                files=files, argv=argv, dir=room.dir, stdin=stdin, out=out and os.path.basename(out), want=want if len(repr(want)) < 4000 else want[0]
            ),
        )

    if want[0] == "skip":
        ctx.n_skip += 1
        return
    if want[0] == "ok":
        if status != 0:
            fail(f"exit status {status}, {stderr[-300:]!r} where the library returns {want[1][:200]}")
        target = content if out is not None else stdout
        if target != want[1]:
            fail(f"wrote {target[:300]!r} instead of {want[1][:300]!r}")
        if out is not None and stdout:
            fail(f"wrote {stdout[:200]!r} to standard output besides the output file")
        ctx.outcome((0, want[1]))
        return
    if status != 1:
        fail(f"exit status {status} where the library rejects it: {want[1]}")
    if not flags[0]:
        if "Traceback" in stderr:
            fail(f"printed a traceback ending in {stderr[-200:]!r}; the library rejects it: {want[1]}")
        lines = stderr.split("\n")
        if lines[-1] == "":
            lines.pop()
        if len(lines) != 1 or not lines[0].strip():
            fail(f"the message on standard error is not one line: {stderr[:300]!r}")
    ctx.outcome((1, stderr[:200]))


# ---------------------------------------------------------------------------


def units(tier):
    full = tier == "thorough"
    out = []
    for cmd in HOW:
        for i, flags in enumerate(FLAGS):
            for how in HOW[cmd]:
                if full:
                    for j in range(3):
                        out.append(("combo", cmd, flags, how, j, 3, True))
                else:
                    out.append(("combo", cmd, flags, how, 0, 1, False))
            for j in range(4):
                if full or flags[:2] in ((0, 0), (1, 1)):
                    out.append(("exprs", cmd, flags, 0, j, 4))
                if full or flags[0] == 0 and flags[1] == flags[2]:
                    out.append(("exprs", cmd, flags, 1, j, 4))
            for how in HOW[cmd]:
                out.append(("process", cmd, flags, how, full))
    return out


def run(unit, ctx):
    room = Room()
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)  # as in a process of its own
    try:
        explore(unit, ctx, room)
    finally:
        sys.setrecursionlimit(limit)
        shutil.rmtree(room.dir, ignore_errors=True)


def explore(unit, ctx, room):
    kind, cmd, flags = unit[:3]
    if kind == "combo":
        _, _, _, how, j, n, full = unit
        exprs = ALL[cmd][j::n] if full else FEW[cmd]
        docs = SOME_DOCS if full else FEW_DOCS
        for doc_how, out_how in itertools.product(DOC_HOW, OUT_HOW):
            for expr in exprs:
                for doc in docs:
                    judge(ctx, room, cmd, flags, how, doc_how, out_how, expr, doc, order=1 if out_how == "--output" else 0)
        ctx.sample(f"{cmd} {flags} {how}")
    elif kind == "exprs":
        hows = HOW[cmd][:1] if unit[3] == 0 else HOW[cmd][2:3]
        doc_how, out_how = ("-f", "stdout") if unit[3] == 0 else ("stdin", "-o")
        for how in hows:
            for expr in ALL[cmd][unit[4] :: unit[5]]:
                for doc in DOCS:
                    judge(ctx, room, cmd, flags, how, doc_how, out_how, expr, doc)
    elif kind == "process":
        _, _, _, how, full = unit
        if full:
            routes = list(itertools.product(DOC_HOW, OUT_HOW))
        else:
            routes = [("-f", "stdout"), ("stdin", "-o"), ("-f-", "-o-"), ("--file", "--output"), ("stdin", "stdout")]
        for k, (doc_how, out_how) in enumerate(routes):
            picks = FEW[cmd] if full else FEW[cmd][k % 4 :: 4][:2]
            for i, expr in enumerate(picks):
                judge(ctx, room, cmd, flags, how, doc_how, out_how, expr, ("object", "trailing", "escapes", "latin1")[i % 4 if full else 0], runner=process)
    else:
        raise AssertionError(unit)


memoise_charsets()
