"""Opt-out comments silence exactly the string they follow."""
import itertools
import os

from mc import files, fileset
from mc.files import *  # noqa

ID = "C17"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of arrangements of strings, other tokens, line breaks and comments, against a model of which string a comment belongs to"
RULE = (
    "every sequence of up to 4 (quick) or 5 (thorough) items from {query, query.format(a), other string, f-string, name, line break, and comments with nosqlformat, nosqlvalidation, both, "
    "none}, containing a query, laid out as arguments with leading or trailing commas and as statements; every query differs, is unformatted and invalid. The model says for each query the "
    "next comment with no string in-between; --format, --check-format and --verbose-validate, and both kinds in one run, must rewrite and report exactly the queries not opted out"
)
ASSUMES = ["the comment belongs to the string before it however many lines are between, as no other string is (README and tests)"]

COMMENTS = {
    "f": "# nosqlformat",
    "v": "# nosqlvalidation",
    "b": "# noqa nosqlvalidation, nosqlformat!",
    "o": "# sql",
}
VALUES = "LDSFN"
ITEMS = VALUES + "E" + "".join(COMMENTS)


def query(i):
    name = "xyzuw"[i]
    text = "select %s from (select a from t)" % name
    new = "SELECT %s\nFROM (\n SELECT a\n FROM t\n)" % name
    quote = "'\""[i % 2]
    return Lit(quote + text + quote, quote * 3 + "\n" + new + "\n" + quote * 3, [MISSING % name])


def build(seq, layout):
    """Segments, and for every query whether it is formatted and validated."""
    segs = [{"lead": "f(\n", "trail": "f(\n", "lines": ""}[layout]]
    count = 0
    plan = []
    pending = False  # a comma is due
    fresh = True  # at the start of a line
    for pos, it in enumerate(seq):
        if it in VALUES:
            if layout == "lines":
                if not fresh:
                    segs.append("; ")
                segs.append("x = ")
            elif layout == "lead" and pending:
                segs.append(", ")
            if it in "LD":
                segs.append(query(count))
                count += 1
                comment = ""
                for later in seq[pos + 1 :]:
                    if later in COMMENTS:
                        comment = COMMENTS[later]
                        break
                    if later in "LDSF":
                        break
                plan.append(("nosqlformat" not in comment, "nosqlvalidation" not in comment))
                if it == "D":
                    segs.append(".format(a)")
            else:
                segs.append({"S": "'select_'", "F": "f'{a} b'", "N": "a.b"}[it])
            if layout == "trail":
                segs.append(", ")
            pending = True
            fresh = False
        elif it == "E":
            segs.append("\n")
            fresh = True
        else:
            segs.append("  " + COMMENTS[it] + "\n")
            fresh = True
    segs.append("\n" if layout == "lines" else "\n)\n")
    return segs, plan


def judge(seq, layout, d):
    segs, plan = build(seq, layout)
    ls = lits(segs)
    silent = {}
    for l, (f, v) in zip(ls, plan):
        silent[id(l)] = (f, v)
    text = before(segs)
    old = text.encode()
    fmt = "".join(s if isinstance(s, str) else (s.new if silent[id(s)][0] else s.src) for s in segs).encode()
    model = fileset.File("clean")
    model.changed = sum(f for f, _ in plan)
    pos, errs = "", []
    for s in segs:
        if isinstance(s, str):
            pos += s
        else:
            if silent[id(s)][1]:
                errs.append((pos.count("\n") + 1, ", ".join(s.errors)))
            pos += s.src
    model.errors = errs
    path = os.path.join(d, "a.py")
    for opts in (["--format"], ["--check-format"], ["--verbose-validate"], ["--verbose-validate", "--format"]):
        write(path, old)
        r = cli(opts + ["a.py"], d)
        with open(path, "rb") as f:
            got = f.read()
        want = fmt if "--format" in opts else old
        if got != want:
            return "%r makes %r of %r, expected %r" % (opts, got.decode(), text, want.decode())
        why = fileset.compare(r, fileset.expect(opts, [("a.py", model)], None), True)
        if why:
            return "%r on %r: %s" % (opts, text, why)


def shards(tier):
    n = 4 if tier == "quick" else 5
    return [(layout, a, b, n) for layout in ("trail", "lead", "lines") for a in ITEMS for b in ITEMS] + [("short", "", "", n)]


def explore(desc, rec):
    layout, a, b, n = desc
    with scratch() as d:

        def run(seq, layout):
            rec.states += len(seq) + 1
            rec.transitions += len(seq)
            rec.run([seq, layout], lambda: judge(seq, layout, d))

        if layout == "short":
            for lay in ("trail", "lead", "lines"):
                for x in "LD":
                    run(x, lay)
            return
        for k in range(0, n - 1):
            for rest in itertools.product(ITEMS, repeat=k):
                seq = a + b + "".join(rest)
                if "L" in seq or "D" in seq:
                    run(seq, layout)


def replay(inp):
    with scratch() as d:
        return judge(inp[0], inp[1], d)
