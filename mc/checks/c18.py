"""Each Python file is processed exactly once and counted exactly."""
import itertools
import os

from mc import files, fileset
from mc.files import *  # noqa

ID = "C18"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of argument lists and directory trees; the set of processed files and all counts are predicted by the model"
RULE = (
    "a tree with nested, hidden, empty and oddly named directories, files with and without .py, links to files and directories, broken links: all argument lists of length up to 2 (quick) "
    "or 3 (thorough) over 24 spellings (relative, absolute, with dots, through links, missing) x 4 modes; all trees made of up to 4 (all subsets, thorough) of 14 entries, named as '.', by its "
    "name and absolutely, x 4 modes. Each expected file is reported once under a name that denotes it, no other is, the summaries are the sums, exactly the expected files change"
)
ASSUMES = ["the order of files inside a directory is not specified", "links to directories below a named directory are not followed (os.walk)"]

# path: kind of content, or -> link, or None for a directory
TREE = {
    "a.py": "one",
    "b.txt": "one",
    "c.PY": "one",
    "py": "two",
    "x.pyc": "two",
    "x.pyi": "one",
    ".py": "bad1",
    "s.py": "syntax",
    "d": None,
    "d/a.py": "two",
    "d/sp ace.py": "bad2",
    "d/é.py": "one",
    "d/noext": "bad2",
    "d/e": None,
    "d/e/f.py": "bad1",
    "d/e/g.py": "done",
    "d/e/empty": None,
    ".hid": None,
    ".hid/.g.py": "one",
    "dir.py": None,
    "dir.py/z.py": "two",
    "l.py": "-> a.py",
    "d/l2.py": "-> ../b.txt",
    "d/l3.py": "-> e/f.py",
    "d/txt": "-> a.py",
    "m.py": "-> missing",
    "ldir": "-> d",
    "ldir.py": "-> d/e",
}
ARGS = [
    ".", "./", "d", "d/", "d/e", "d/../d", "a.py", "./a.py", "$/a.py", "d/../a.py", "l.py", "ldir", "ldir/a.py", "b.txt", "missing", "m.py", "dir.py", "d/l2.py", "$/d", "ldir.py",
    "d/e/empty", "s.py", "../top", "d/noext",
]
MODES = [["--format"], ["--check-format"], ["--validate"], ["--check-format", "--verbose-validate"]]


def build(top, tree):
    for path, what in tree.items():
        p = os.path.join(top, path)
        if what is None:
            os.mkdir(p)
        elif what.startswith("-> "):
            os.symlink(what[3:], p)
        else:
            write(p, fileset.File(what).old)


def expected(top, tree, args):
    """{real path: File}, broken names, number of missing inputs."""
    todo, broken, missing = {}, set(), 0

    def add(p):
        real = os.path.realpath(p)
        rel = os.path.relpath(real, os.path.realpath(top))
        if rel in tree and tree[rel] is not None:
            todo[real] = fileset.File(tree[rel])
        else:
            broken.add(real)

    def below(p):
        with os.scandir(p) as it:
            for entry in list(it):
                if entry.is_dir(follow_symlinks=False):
                    below(entry.path)
                elif entry.name.endswith(".py") and not entry.is_dir():
                    add(entry.path)

    for a in args:
        p = os.path.join(top, a)
        if os.path.isdir(p):
            below(p)
        elif os.path.isfile(p):
            add(p)
        else:
            missing += 1
    return todo, broken, missing


def judge(tree, args, opts):
    with scratch() as d:
        top = os.path.join(d, "top")
        os.mkdir(top)
        build(top, tree)
        args = [a.replace("$", top) for a in args]
        todo, broken, missing = expected(top, tree, args)
        age(d)
        s0 = snapshot(d)
        r = cli(opts + args, top)
        s1 = snapshot(d)
        named = []
        rep = Report(r.out)

        def real(name):
            return os.path.realpath(os.path.join(top, name))

        # compare by what the printed names denote
        e = fileset.expect(opts, [(p, f) for p, f in todo.items()], None, missing)
        got_formatted = sorted((v, real(n), c) for v, n, c in rep.formatted)
        if got_formatted != sorted(e["formatted"]):
            return "formatted %r, expected %r; printed %r" % (got_formatted, e["formatted"], r.out)
        got_invalid = sorted((real(n), c, x) for n, c, x in rep.invalid)
        if got_invalid != sorted(e["invalid"]):
            return "invalid %r, expected %r; printed %r" % (got_invalid, e["invalid"], r.out)
        failed = sorted(real(re.split(r" \([A-Z]\w*: ", f)[0]) for f in rep.failed)
        if failed != sorted(e["failed"] + list(broken)):
            return "failed %r, expected %r; printed %r" % (failed, e["failed"] + list(broken), r.out)
        for name in ("fsum", "vsum", "bad_inputs"):
            if getattr(rep, name) != e[name]:
                return "%s %r, expected %r; printed %r" % (name, getattr(rep, name), e[name], r.out)
        if r.code != e["code"] or r.err or rep.rest:
            return "exit status %r, expected %r; %r %r" % (r.code, e["code"], r.err, r.out)
        want = set()
        if "--format" in opts:
            want = {os.path.relpath(p, os.path.realpath(d)) for p, f in todo.items() if f.changed}
        for p in s0:
            if p not in s1:
                return "%r is gone" % p
            if p in want:
                f = todo[os.path.realpath(os.path.join(d, p))]
                if s1[p][3] != f.new:
                    return "%r is %r, expected %r" % (p, s1[p][3], f.new)
            elif s1[p][3] != s0[p][3] or (s1[p][5] if s1[p][3] is not None else 0) != (s0[p][5] if s0[p][3] is not None else 0):
                return "%r was touched: %r, was %r" % (p, s1[p], s0[p])
        if set(s1) != set(s0):
            return "new entries %r" % sorted(set(s1) - set(s0))


ENTRIES = [
    {"a.py": "one"},
    {"b.txt": "one"},
    {"c.PY": "one"},
    {".py": "bad1"},
    {"s.py": "syntax"},
    {"d": None, "d/a.py": "two", "d/b.py": "clean"},
    {"d2": None, "d2/e": None, "d2/e/f.py": "bad2"},
    {".hid": None, ".hid/g.py": "one"},
    {"dir.py": None, "dir.py/z.py": "two"},
    {"l.py": "-> a.py"},
    {"k.py": "-> b.txt"},
    {"m.py": "-> missing"},
    {"ldir": "-> d"},
    {"empty": None, "__init__.py": "empty"},
]


def shards(tier):
    big = tier == "thorough"
    out = [("args", (i, j), big) for i in range(len(ARGS)) for j in (range(len(ARGS)) if big else [None])]
    out += [("trees", i, big) for i in range(64)]
    return out


def explore(desc, rec):
    kind, i, big = desc

    def run(tree, args, opts, inp):
        rec.states += 2
        rec.transitions += 1
        rec.run(inp, lambda: judge(tree, args, opts))

    if kind == "args":
        a = ARGS[i[0]]
        lists = []
        if big:
            b = ARGS[i[1]]
            lists = [[a, b]] + [[a, b, c] for c in ARGS] + ([[a]] if a == b else [])
        else:
            lists = [[a]] + [[a, b] for b in ARGS]
        for args in lists:
            for opts in MODES:
                run(TREE, args, opts, {"args": args, "opts": opts})
        return
    n = len(ENTRIES)
    for k in range(1 << n):
        if k % 64 != i or (not big and bin(k).count("1") > 4 and bin(k).count("1") != n):
            continue
        tree = {}
        for j in range(n):
            if k >> j & 1:
                tree.update(ENTRIES[j])
        if big:
            runs = [(["."], o) for o in MODES] + [(["../top", "$"], MODES[0]), (["$"], MODES[3])]
        else:
            runs = [(["."], MODES[0]), (["../top"], MODES[3])]
        for args, opts in runs:
            run(tree, args, opts, {"tree": k, "args": args, "opts": opts})


def replay(inp):
    tree = TREE
    if "tree" in inp:
        tree = {}
        for j in range(len(ENTRIES)):
            if inp["tree"] >> j & 1:
                tree.update(ENTRIES[j])
    return judge(tree, inp["args"], inp["opts"])
