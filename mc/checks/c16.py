"""After --format nothing is left to format."""
import itertools
import os

from mc import files, fileset
from mc.checks import c15
from mc.files import *  # noqa

ID = "C16"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: the orbits of exhaustively enumerated files and file sets under formatting by the real command line reach a fixed point after one step"
RULE = (
    "the sources of C15 (all literal forms in all contexts, encodings and line endings, pairs, sequences, literal bodies with escapes, mixed line endings) and the file sets of C14: "
    "after one --format, a --check-format reports nothing and exits with 0, and a second --format reports nothing, exits with 0 and leaves every byte, inode and time stamp; "
    "queries of every layout family as literals in every quoting at two indentations likewise"
)
ASSUMES = []


def judge(names, args):
    with scratch() as d:
        for name, data in names.items():
            write(os.path.join(d, name), data)
        r = cli(["--format"] + args, d)
        age(d)
        s1 = snapshot(d)
        rep = Report(r.out)
        r2 = cli(["--check-format"] + args, d)
        rep2 = Report(r2.out)
        if r2.code != 0 or rep2.formatted or rep2.fsum != (0, 0, "would be reformatted"):
            return "after formatting to %r, checking exits with %r: %r" % (contents(s1), r2.code, r2.out)
        r3 = cli(["--format"] + args, d)
        rep3 = Report(r3.out)
        s3 = snapshot(d)
        if s3 != s1 or rep3.formatted or rep3.fsum != (0, 0, "reformatted") or r3.code != 0:
            return "formatted again: %r, was %r: %r" % (contents(s3), contents(s1), r3.out)
        if sorted(rep2.failed) != sorted(rep.failed) or sorted(rep3.failed) != sorted(rep.failed):
            return "failures differ: %r %r %r" % (rep.failed, rep2.failed, rep3.failed)


def contents(snap):
    return {n: v[3] for n, v in snap.items() if v[3] is not None}


QUERIES = [
    "select a, b from t",
    "select a from t where b = 1 and c = 2 or d",
    "select case when a then b else c end from t",
    "select a from (select b from u where c) s join v on a = b",
    "with w as (select a from t) select * from w union all select b from w order by 1 limit 3",
    "select f(a, b) over (partition by c order by d) x from t group by a having b",
    "select array_agg(a order by b) from unnest([1, 2]) where x in (select y from z) and e between 1 and 2",
    "select 'it''s', \"x\", `y` from t where a like '%s' ;",
    "select distinct on (a) b, * except (c) from t as x, u as y",
    "select a -- c\n from t",
    "select a /* c */ from t",
    "select %s, {x}, %(y)s from {t}",
]


def forms(q):
    for quote in files.QUOTES:
        for pre, post in (("", ""), ("\n", "\n"), ("  ", "  "), ("\n    ", "\n    "), ("\n\n", "\n\n"), ("\\\n", "\\\n"), ("\t", ";"), ("", " ;\n")):
            for case in (str, str.upper, lambda s: s.replace(" ", "\n  ")):
                body = pre + case(q) + post
                if len(quote) == 1:
                    body = body.replace(quote, "\\" + quote)
                    if "\n" in body.replace("\\\n", ""):
                        continue
                yield quote + body + quote


def shards(tier):
    big = tier == "thorough"
    n = 3 if big else 2
    out = [("one", i, n) for i in range(len(files.ONE))]
    out += [("enc", i, n) for i in range(len(files.ENCODINGS))]
    out += [("two", i, n) for i in range(len(files.TWO))]
    out += [("seq", i, n) for i in range(6)]
    out += [("free", (i, p), n) for p in ("", "r", "b", "u") for i in range(len(c15.PIECES))]
    out += [("sets", i, n) for i in range(len(fileset.TEXTS))]
    out += [("query", i, n) for i in range(len(QUERIES))]
    out += [("mixed", 0, n)]
    return out


def explore(desc, rec):
    kind, i, n = desc

    def run(names, args):
        rec.states += 2
        rec.transitions += 3
        inp = {"names": {k: v.decode("latin-1") for k, v in names.items()}, "args": args}
        rec.run(inp, lambda: judge(names, args))

    def run_text(text):
        run({"a.py": text.encode("utf-8")}, ["a.py"])

    if kind in ("one", "enc", "two", "seq"):
        gen = {
            "one": lambda: space_one(i),
            "enc": lambda: space_enc(i),
            "two": lambda: space_two(i),
            "seq": lambda: space_seq(i, n - 1, few(6)),
        }[kind]()
        for k, src in enumerate(gen):
            if kind == "one" and n == 2 and k % 4 != i % 4:
                continue
            run({"a.py": src.data()}, ["a.py"])
    elif kind == "free":
        first, prefix = c15.PIECES[i[0]], i[1]
        for src in c15.free(first, n if first in c15.TRIPLE_PIECES else 2, prefix):
            run_text("x = " + src + "\n")
    elif kind == "sets":
        kinds = list(fileset.TEXTS)
        for b in kinds:
            f, g = fileset.File(kinds[i]), fileset.File(b)
            run({"a.py": f.old, "b.py": g.old}, ["."])
    elif kind == "query":
        for src in forms(QUERIES[i]):
            for t in ("x = %s\n", "def f():\n    if a:\n        return g(%s, 1)\n"):
                run_text(t % src)
    else:
        for parts in c15.mixed():
            run_text("".join(p if isinstance(p, str) else p[0] for p in parts))


def replay(inp):
    return judge({k: v.encode("latin-1") for k, v in inp["names"].items()}, inp["args"])
