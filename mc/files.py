"""Running the command line on scratch files, and the model of source files.

A source is a list of segments: plain text, or a ``Lit`` (a string literal the
model knows everything about: whether it is SQL, what it is rewritten to, what
is invalid about it).  The texts before and after a run are both concatenations
of segments, so the model predicts the rewritten file character by character.
"""
import collections
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile

from sqlvalidator import main as climain


# ---------------------------------------------------------------- running
Run = collections.namedtuple("Run", "code out err")


def cli(args, cwd):
    """One run of the command line, in this process."""
    out, err = io.StringIO(), io.StringIO()
    old_argv, old_cwd = sys.argv, os.getcwd()
    sys.argv = ["sqlvalidator"] + list(args)
    os.chdir(cwd)
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                climain._main()
            except SystemExit as e:
                code = e.code if e.code is not None else 0
            except Exception as e:
                code = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv = old_argv
        os.chdir(old_cwd)
    return Run(code, out.getvalue(), err.getvalue())


@contextlib.contextmanager
def scratch():
    base = os.environ.get("MC_SCRATCH") or None
    d = tempfile.mkdtemp(prefix="f-", dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def snapshot(top, times=True):
    """Everything observable below a directory."""
    out = {}
    for root, dirs, names in os.walk(top):
        for name in dirs + names + ([""] if root == top else []):
            p = os.path.join(root, name) if name else root
            st = os.lstat(p)
            rel = os.path.relpath(p, top)
            if os.path.islink(p):
                body = "-> " + os.readlink(p)
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    body = f.read()
            else:
                body = None
            out[rel] = (
                st.st_mode,
                st.st_uid,
                st.st_gid,
                body,
            ) + ((st.st_mtime_ns, st.st_ino, st.st_size) if times else ())
    return out


def age(top):
    """Give everything an old time stamp, so that any later write is visible."""
    for root, dirs, names in os.walk(top, topdown=False):
        for name in names + [""]:
            os.utime(os.path.join(root, name), (1000000000, 1000000000), follow_symlinks=False)


def write(path, data):
    if isinstance(data, str):
        data = data.encode("utf-8")
    with open(path, "wb") as f:
        f.write(data)


# ---------------------------------------------------------------- reports
FORMATTED = re.compile(r"(reformatted|would reformat) (.*) \((\d+) changed SQL\)")
INVALID = re.compile(r"invalid queries in (.*) \((\d+) invalid SQL\)")
ERRORLINE = re.compile(r"L(\d+) - (.*)")
FSUM = re.compile(r"(\d+) files? (reformatted|would be reformatted) \((\d+) changed SQL quer(?:y|ies)\)\.")
FNONE = re.compile(r"No file (reformatted|would be reformatted)\.")
VSUM = re.compile(r"(\d+) files? detected with invalid SQL \((\d+) invalid SQL quer(?:y|ies)\)\.")
VNONE = re.compile(r"No invalid queries found\.")
FAILED = re.compile(r"(?:error analysing|could not analyse) (.*)", re.S)


class Report:
    """What a run printed, parsed."""

    def __init__(self, out):
        self.formatted = []  # (verb, file, count)
        self.invalid = []  # (file, count, [(line, errors)])
        self.fsum = None  # (files, queries, verb)
        self.vsum = None  # (files, queries)
        self.failed = []
        self.bad_inputs = 0
        self.rest = []
        for line in out.splitlines():
            for pattern, handle in (
                (FORMATTED, lambda m: self.formatted.append((m[1], m[2], int(m[3])))),
                (INVALID, lambda m: self.invalid.append((m[1], int(m[2]), []))),
                (ERRORLINE, self._error),
                (FSUM, lambda m: self._set("fsum", (int(m[1]), int(m[3]), m[2]))),
                (FNONE, lambda m: self._set("fsum", (0, 0, m[1]))),
                (VSUM, lambda m: self._set("vsum", (int(m[1]), int(m[2])))),
                (VNONE, lambda m: self._set("vsum", (0, 0))),
                (FAILED, lambda m: self.failed.append(m[1])),
                (re.compile("Error: Invalid input"), self._bad),
            ):
                m = pattern.fullmatch(line)
                if m:
                    handle(m)
                    break
            else:
                self.rest.append(line)

    def _set(self, name, value):
        if getattr(self, name) is not None:
            self.rest.append("two summaries")
        setattr(self, name, value)

    def _bad(self, m):
        self.bad_inputs += 1

    def _error(self, m):
        if self.invalid:
            self.invalid[-1][2].append((int(m[1]), m[2]))
        else:
            self.rest.append(m[0])


# ---------------------------------------------------------------- queries
Sql = collections.namedtuple("Sql", "name text new errors")
MISSING = "The column %s was not found"
SQLS = {
    q.name: q
    for q in [
        # name, text, formatted text (None: cannot be formatted), errors
        Sql("two", "select a from t", "SELECT a\nFROM t", []),
        Sql("two;", "select a from t ;", "SELECT a\nFROM t;", []),
        Sql("one", "select 1", "SELECT 1", []),
        Sql("ONE", "SELECT 1", "SELECT 1", []),
        Sql("list", "SELECT a, B from t", "SELECT\n a,\n B\nFROM t", []),
        Sql("done", "SELECT a\nFROM t", "SELECT a\nFROM t", []),
        Sql("nl", "\nSELECT a\nFROM t\n", "SELECT a\nFROM t", []),
        Sql("bad", "select x from (select y from t)", "SELECT x\nFROM (\n SELECT y\n FROM t\n)", [MISSING % "x"]),
        Sql("bad2", "select a from t where 1 limit b", "SELECT a\nFROM t\nWHERE 1\nLIMIT b", [
            "The argument of WHERE must be type boolean, not type int", "argument of LIMIT must not contain variables"]),
        Sql("bad3", "select a from t where 1 group by 2 limit b offset c", "SELECT a\nFROM t\nWHERE 1\nGROUP BY 2\nLIMIT b\nOFFSET c", [
            "The argument of WHERE must be type boolean, not type int", "GROUP BY position 2 is not in select list",
            "argument of LIMIT must not contain variables", "argument of OFFSET must be integer"]),
        Sql("BAD", "SELECT x\nFROM (\n SELECT y\n FROM t\n)", "SELECT x\nFROM (\n SELECT y\n FROM t\n)", [MISSING % "x"]),
        Sql("one bad", "select 1 limit b", "SELECT 1\nLIMIT b", ["argument of LIMIT must not contain variables"]),
        Sql("broken", "select a from (", None, ["Could not parse the query"]),
        Sql("hole", "select {} from t where %s", "SELECT {}\nFROM t\nWHERE %s", []),
        Sql("accent", "select é from \"日本\"", "SELECT é\nFROM \"日本\"", []),
        Sql("spaces", " \n select   a\n\n from\tt \n ", "SELECT a\nFROM t", []),
        Sql("none", "insert into t select a", None, []),
        Sql("word", "selected a from t", None, []),
        Sql("empty", "", None, []),
    ]
}
SELECTS = [n for n in SQLS if n not in ("none", "word", "empty")]


class Lit:
    """A literal of the model: its text, what it becomes, its errors."""

    def __init__(self, src, new, errors, sql=None):
        self.src = src
        self.new = new
        self.errors = errors
        self.sql = sql

    @property
    def changed(self):
        return self.src != self.new


def lit(name, quote="'", prefix="", marked=True):
    """The model of a plain literal; None when it cannot be written like that."""
    q = SQLS[name]
    if len(quote) == 1 and "\n" in q.text:
        return None
    if quote[0] in q.text[-1:] or (len(quote) == 1 and quote in q.text):
        return None
    if "b" in prefix.lower() and not q.text.isascii():
        return None
    src = prefix + quote + q.text + quote
    if not marked or name in ("none", "word", "empty"):
        return Lit(src, src, [])
    if q.new is None:
        return Lit(src, src, q.errors, q.text)
    if len(quote) == 1 and "\n" not in q.new:
        if quote in q.new:
            return None
        new = prefix + quote + q.new + quote
    else:
        qs = quote[0] * 3
        body = "\n" + q.new + "\n" if "\n" in q.new or q.new.endswith(quote[0]) else q.new
        new = prefix + qs + body + qs
    return Lit(src, new, q.errors, q.text)


QUOTES = ["'", '"', "'''", '"""']
PREFIXES = ["", "r", "R", "u", "U", "b", "B", "br", "Rb", "bR", "rB"]


def literals(names=None, quotes=None, prefixes=None):
    out = []
    for name in names or list(SQLS):
        for q in quotes or QUOTES:
            for p in prefixes or PREFIXES:
                x = lit(name, q, p)
                if x is not None:
                    out.append(x)
    return out


# ---------------------------------------------------------------- sources
def before(segs):
    return "".join(s if isinstance(s, str) else s.src for s in segs)


def after(segs):
    return "".join(s if isinstance(s, str) else s.new for s in segs)


def lits(segs):
    return [s for s in segs if isinstance(s, Lit)]


def errors(segs):
    """[(first line, errors)] of the invalid literals."""
    out = []
    text = ""
    for s in segs:
        if isinstance(s, Lit):
            if s.errors:
                out.append((text.count("\n") + 1, ", ".join(s.errors)))
            text += s.src
        else:
            text += s
    return out


def fill(template, *ls):
    """Segments of a template with one ¤ per literal."""
    parts = template.split("¤")
    assert len(parts) == len(ls) + 1, (template, len(ls))
    out = [parts[0]]
    for l, p in zip(ls, parts[1:]):
        out += [l, p]
    return out


def encode(text, newline="\n", encoding="utf-8", bom=False):
    data = text.replace("\n", newline).encode(encoding)
    return b"\xef\xbb\xbf" + data if bom else data


# one slot
ONE = [
    "¤",
    "¤\n",
    "x = ¤\n",
    "x = (¤)\n",
    "x = [¤, 'y']\n",
    "x = {¤: 1}\n",
    "x = {'k': ¤}\n",
    "f(¤)\n",
    "f(\n    ¤\n)\n",
    "f(  ¤  ,  a )\n",
    "x = ¤.format(a)\n",
    "x = ¤ % (a, b)\n",
    "x = ¤[1:]\n",
    "x = ¤ if a else b\n",
    "x = a and ¤ or b\n",
    "x = f(a)(¤)\n",
    "def f():\n    return ¤\n",
    "def f():\n    ¤\n",
    "def f():\n\t¤\n\treturn 1\n",
    "class A:\n    def f(self, a=¤):\n        return a\n",
    "class A:\n    ¤\n    x = 1\n",
    "if a:\n    x = ¤\nelse:\n    x = 1\n",
    "x = lambda: ¤\n",
    "x = 1; y = ¤; z = 2\n",
    "x = \\\n    ¤\n",
    "x = ¤  # comment\n",
    "x = ¤  # comment 'select a from t'\n",
    "# 'select a from t'\nx = ¤\n",
    "\n\n\nx = ¤\n\n\n",
    "x = é_日本 = '\U0001f600'; y = ¤; z = '日本'\n",
    "x = [\n    'a',\n    ¤,\n    # c\n    'b',\n]\n",
    "x = '''\nab\n'''; y = ¤\n",
    "f('a' 'b', ¤, 'c'\n 'd')\n",
    "x: ¤ = 1\n",
    "assert a, ¤\n",
    "\x0cx = ¤\n",
    "x = '\x0c\x1c\x85\u2028 \x0b'; y = ¤\n",
    "x = '''\x0c\x1c\x85\n\u2028 \x0b'''\ny = ¤\n",
    "x = '\\\n'; y = ¤\n",
    "#!/usr/bin/env python\n# -*- coding: utf-8 -*-\nx = ¤\n",
    "x = ¤\n# end",
    "x = ¤\n    # end\n",
    "x = f'{a}' ; y = ¤\n",
    "x = f'{f(¤)}'\n",
    "x = f'''{a!r:>{b}} {f(¤)}'''\n",
    "@d(¤)\ndef f(): pass\n",
    "async def f():\n    await g(¤)\n",
    "match a:\n    case ¤:\n        pass\n",
    "x = 1 if ¤ else 2\n",
    "x = (a\n     , ¤)\n",
    "while True:\n  if a:\n      x = ¤\n  break\n",
]
TWO = [
    "x = ¤\ny = ¤\n",
    "f(¤, ¤)\n",
    "x = [¤,\n ¤]\n",
    "x = {¤: ¤}\n",
    "x = ¤; y = ¤",
    "x = ¤ if a else ¤\n",
    "x = ¤.format(¤)\n",
    "def f(a=¤):\n    return ¤\n",
    "x = 'é', ¤, '日本', ¤\n",
    "x = ¤ % ¤\n",
    "x = (\n    ¤  # c\n    , ¤  # d\n)\n",
]


# ---------------------------------------------------------------- source spaces
def dump(segs):
    return [s if isinstance(s, str) else [s.src, s.new, s.errors] for s in segs]


def load(segs):
    return [s if isinstance(s, str) else Lit(*s) for s in segs]


FEW = [
    ("two", "'", ""),
    ("two", '"""', "r"),
    ("one", '"', ""),
    ("ONE", "'", ""),
    ("nl", "'''", ""),
    ("list", '"', "u"),
    ("bad", "'", ""),
    ("BAD", '"""', ""),
    ("one bad", "'''", "b"),
    ("broken", '"', ""),
    ("hole", "'", ""),
    ("accent", "'", ""),
    ("spaces", "'''", ""),
    ("word", "'", ""),
]


def few(n=None):
    return [lit(*f) for f in FEW[:n]]


class Source:
    """One source file of the model and how it is stored."""

    def __init__(self, segs, newline="\n", encoding="utf-8", bom=False):
        self.segs = segs
        self.newline = newline
        self.encoding = encoding
        self.bom = bom

    def dump(self):
        return {"segs": dump(self.segs), "newline": self.newline, "encoding": self.encoding, "bom": self.bom}

    @classmethod
    def load(cls, d):
        return cls(load(d["segs"]), d["newline"], d["encoding"], d["bom"])

    def data(self):
        return encode(before(self.segs), self.newline, self.encoding, self.bom)

    def new_data(self):
        text = before(self.segs)
        newline = self.newline if "\n" in text else "\n"  # a file of one line has no style
        return encode(after(self.segs), newline, self.encoding, self.bom)

    @property
    def changed(self):
        return sum(l.changed for l in lits(self.segs))

    @property
    def errors(self):
        return errors(self.segs)


ENCODINGS = [
    # cookie line, codec, BOM
    ("", "utf-8", False),
    ("", "utf-8", True),
    ("# -*- coding: utf-8 -*-\n", "utf-8", True),
    ("# -*- coding: utf-8 -*-\n", "utf-8", False),
    ("# coding: latin-1\n", "latin-1", False),
    ("#!/bin/python\n# vim: set fileencoding=cp1252 :\n", "cp1252", False),
    ("# coding=shift_jis\n", "shift_jis", False),
    ("# coding=gb18030\n", "gb18030", False),
    ("\n# coding: iso-8859-15\n", "iso-8859-15", False),
    ("# coding: utf-8-sig\n", "utf-8", True),
]
SPECIAL = {"latin-1": "é«", "cp1252": "é€", "shift_jis": "日ソ", "gb18030": "é日\U0001f600", "iso-8859-15": "é€", "utf-8": "é日\U0001f600"}


def space_one(i):
    """Every literal in one context."""
    for l in literals():
        yield Source(fill(ONE[i], l))


def space_enc(i):
    """Encodings, line endings and ends of file, with characters around and inside."""
    cookie, codec, bom = ENCODINGS[i]
    ch = SPECIAL[codec]
    for l in few() + [Lit("'select 1 as \"%s\"'" % ch, "'SELECT 1 AS \"%s\"'" % ch, []),
                      Lit("'''select \"%s\" from t'''" % ch, "'''\nSELECT \"%s\"\nFROM t\n'''" % ch, [])]:
        for t in ["x = '%s'; y = ¤; z = '%s' # %s\n" % (ch, ch, ch), "¤", "'''\n%s\n''', ¤, 1\n" % ch, "def f():\n    # %s\n    return ¤\n\n\n" % ch]:
            # a cookie ends with a line feed
            for nl in ("\n", "\r\n") + (() if cookie else ("\r",)):
                src = Source([cookie] + fill(t, l), nl, codec, bom)
                try:
                    src.data()
                except UnicodeEncodeError:
                    continue
                yield src


def space_two(i):
    ls = few()
    for l in ls:
        for m in ls:
            yield Source(fill(TWO[i].replace("¤", "¤", 1), *([l, m])))


def space_seq(first, n, ls):
    """Sequences of up to n literals after the first one, with all separators."""
    forms = [("x = ", ["\n", "; x = ", "  # c\n\nx = "], "\n"), ("f(\n", [", ", ",  # c\n ", "\n,"], ")\n")]
    for k in range(0, n + 1):
        for rest in itertools.product(range(len(ls)), repeat=k):
            for start, seps, end in forms:
                for sep in itertools.product(seps, repeat=k):
                    segs = [start, ls[first]]
                    for s, r in zip(sep, rest):
                        segs += [s, ls[r]]
                    yield Source(segs + [end])
