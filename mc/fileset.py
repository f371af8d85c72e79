"""Sets of files: the model predicts every report and the files afterwards."""
import itertools
import os
import re

from mc import files
from mc.files import *  # noqa

TEXTS = {
    # name: (segments or raw bytes, what goes wrong when it is read)
    "clean": ["x = 1\n"],
    "empty": [""],
    "done": ["x = ", lit("ONE"), "\n"],
    "one": ["x = ", lit("two"), "\n"],
    "two": ["x = ", lit("list", '"'), "\ny = [", lit("ONE"), ", ", lit("one", "'''"), "]\n"],
    "bad": ["def f():\n    return ", lit("BAD", "'''"), "\n"],
    "bad1": ["x = ", lit("bad"), "\n"],
    "bad2": ["x = (", lit("bad2"), ",\n     ", lit("bad"), ")\n", "y = ", lit("broken"), "\n"],
    "bad3": ["x = ", lit("bad3"), "\n"],
    "unparsed": ["x = ", lit("broken"), "\n"],
    "noformat": ["x = ", Lit("'select a from t'", "'select a from t'", []), "  # nosqlformat\n"],
    "novalid": ["x = ", Lit(lit("bad").src, lit("bad").new, []), "  # nosqlvalidation\n"],
    "nothing": ["x = ", Lit(lit("bad").src, lit("bad").src, []), "  # nosqlformat nosqlvalidation\n"],
    "prose": ["x = 'selected a from t'  # select a from t\n", "y = 'select a ' 'from t'\n"],
    "syntax": b"x = 'select a from t'\ny = (\n",
    "quote": b"x = 'select a from t'\ny = '''a\n",
    "dedent": b"x = 'select a from t'\nif a:\n        b\n    c\n",
    "bytes": b"x = 'select a from t' # \xff\xfe\n",
    "latebytes": b"x = 1\ny = 2\nz = 3\n\nw = 'select a from t' # \xff\n",
    "cookie": b"# coding: nocodec\nx = 'select a from t'\n",
    "utf16": "x = 'select a from t'\n".encode("utf-16"),
}


class File:
    def __init__(self, kind):
        self.kind = kind
        t = TEXTS[kind]
        self.fails = isinstance(t, bytes)
        if self.fails:
            self.old = self.new = t
            self.changed, self.errors = 0, []
        else:
            src = Source(t)
            self.old, self.new = src.data(), src.new_data()
            self.changed, self.errors = src.changed, src.errors


def option(args, name):
    return name in args


def expect(args, named, kinds, bad_inputs=0):
    """What a run must report: named is the list of (name printed, File) processed."""
    fmt, chk = "--format" in args, "--check-format" in args
    val, ver = "--validate" in args, "--verbose-validate" in args
    verb = "reformatted" if fmt else "would reformat"
    e = {"formatted": [], "invalid": [], "failed": []}
    for name, f in named:
        if f.fails:
            e["failed"].append(name)
            continue
        if (fmt or chk) and f.changed:
            e["formatted"].append((verb, name, f.changed))
        if (val or ver) and f.errors:
            e["invalid"].append((name, len(f.errors), f.errors if ver else []))
    n = sum(c for _, _, c in e["formatted"])
    m = sum(c for _, c, _ in e["invalid"])
    e["fsum"] = (len(e["formatted"]), n, "reformatted" if fmt else "would be reformatted") if fmt or chk else None
    if e["fsum"] and not n:
        e["fsum"] = (0, 0, e["fsum"][2])
    e["vsum"] = (len(e["invalid"]), m) if val else None
    e["code"] = 1 if (chk and n) or (val and m) else 0
    e["bad_inputs"] = bad_inputs
    return e


def compare(r, e, ordered=False):
    """The run against the expectation; None or what differs."""
    if r.code != e["code"]:
        return "exit status %r, expected %r; printed %r %r" % (r.code, e["code"], r.out, r.err)
    if r.err:
        return "error output %r" % r.err
    rep = Report(r.out)
    if rep.rest:
        return "unexpected output %r" % rep.rest
    for name in ("formatted", "invalid"):
        got, want = getattr(rep, name), e[name]
        if not ordered:
            got, want = sorted(got), sorted(want)
        if got != want:
            return "%s: reported %r, expected %r; printed %r" % (name, got, want, r.out)
    got = sorted(f.split(" (")[0] for f in rep.failed)
    if got != sorted(e["failed"]):
        return "failures: reported %r, expected %r; printed %r" % (got, e["failed"], r.out)
    for name in ("fsum", "vsum", "bad_inputs"):
        if getattr(rep, name) != e[name]:
            return "%s: reported %r, expected %r; printed %r" % (name, getattr(rep, name), e[name], r.out)
    return None
