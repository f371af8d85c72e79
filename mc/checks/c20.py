"""File validation reports exactly the invalid queries, with their lines."""
import itertools
import os

import sqlvalidator
from mc import files, fileset
from mc.checks import c15
from mc.files import *  # noqa

ID = "C20"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of source files and file sets; files, counts, first lines and errors reported by the real command line are predicted by the model"
RULE = (
    "all literal forms in all contexts, encodings and line endings, pairs, sequences of up to 3 (4 thorough) literals; every literal body with escapes of C15, whose errors are those the "
    "library reports for the text the literal denotes; one query per kind of error in every literal form and position; file sets of 2 kinds out of 19. Runs: --validate, --verbose-validate, "
    "--verbose-validate with --format and with --check-format, --validate with --format"
)
ASSUMES = ["errors of the simple queries are written down in mc/files.py, those of other literals are taken from the library (sqlvalidator.parse), whose correctness is checked by C08..C13"]
RUNS = [["--validate"], ["--verbose-validate"], ["--format", "--verbose-validate"], ["--check-format", "--validate"]]


def model_of(changed, errs):
    m = fileset.File("clean")
    m.changed, m.errors = changed, errs
    return m


def judge_src(src, d, runs=RUNS):
    path = os.path.join(d, "a.py")
    m = model_of(src.changed, src.errors)
    for opts in runs:
        write(path, src.data())
        r = cli(opts + ["a.py"], d)
        why = fileset.compare(r, fileset.expect(opts, [("a.py", m)], None), True)
        if why:
            return "%r: %s" % (opts, why)


def judge_value(pre, src, post, d):
    """A literal whose errors are those of the text it denotes."""
    value = c15.value(src)
    query = sqlvalidator.parse(value)
    errs = [] if query.is_valid() else [((pre).count("\n") + 1, ", ".join(query.errors))]
    path = os.path.join(d, "a.py")
    write(path, pre + src + post)
    m = model_of(0, errs)
    for opts in (["--validate"], ["--verbose-validate"]):
        r = cli(opts + ["a.py"], d)
        why = fileset.compare(r, fileset.expect(opts, [("a.py", m)], None), True)
        if why:
            return "%r, the literal denotes %r: %s" % (opts, value, why)


def judge_set(kinds, opts):
    with scratch() as d:
        named = []
        for i, k in enumerate(kinds):
            f = fileset.File(k)
            name = "%s%d.py" % (k, i)
            write(os.path.join(d, name), f.old)
            named.append((name, f))
        r = cli(opts + [n for n, _ in named], d)
        return fileset.compare(r, fileset.expect(opts, named, None), True)


QUERIES = [
    "select 1 from",
    "select x from (select y from t)",
    "select x, z from (select y from t)",
    "select s.x from (select y from t) s",
    "select a from t where a and 1",
    "select a from t limit -1",
    "select a from t offset 'x'",
    "select a from t limit 1 offset b",
    "select a, count(b) from t group by 3",
    "select unknownfn(a) from t",
    "select case when 1 then 2 end from t",
    "select x from t where x = (select z from (select y from u))",
    "with w as (select a from (select b from t)) select * from w",
    "select a from t union select b from (select c from u)",
    "select %s from (select a from t) where {x}",
    "select a from t join (select b from u) v on v.c = 1",
    "select a from (",
    "select a b c d e from t",
    "select 'open from t",
    "select a from t where a = 'x''y' limit b",
    "select a from (select \"b\" from t)",
    "select",
    "select ",
    "selected",
]


def query_forms(q):
    for p in ("", "r", "u", "b", "Rb"):
        for quote in files.QUOTES:
            for text in (q, q.upper(), "\n " + q.replace(" from", "\n from") + "\n"):
                if len(quote) == 1 and ("\n" in text or quote in text) or text.endswith(quote[0]):
                    continue
                yield p + quote + text + quote


def shards(tier):
    n = 3 if tier == "thorough" else 2
    out = [("one", i, n) for i in range(len(files.ONE))]
    out += [("enc", i, n) for i in range(len(files.ENCODINGS))]
    out += [("two", i, n) for i in range(len(files.TWO))]
    out += [("seq", i, n) for i in range(5)]
    out += [("free", (i, p), n) for p in ("", "r", "b", "u") for i in range(len(c15.PIECES))]
    out += [("query", i, n) for i in range(len(QUERIES))]
    out += [("sets", i, n) for i in range(len(fileset.TEXTS))]
    return out


def invalid_few():
    return [lit("bad"), lit("bad3", '"'), lit("two"), lit("BAD", "'''"), lit("word")]


def explore(desc, rec):
    kind, i, n = desc
    with scratch() as d:
        if kind in ("one", "enc", "two", "seq"):
            gen = {
                "one": lambda: space_one(i),
                "enc": lambda: space_enc(i),
                "two": lambda: space_two(i),
                "seq": lambda: space_seq(i, n, invalid_few()),
            }[kind]()
            for k, src in enumerate(gen):
                if kind == "one" and n == 2 and k % 5 != i % 5:
                    continue
                rec.states += 1
                rec.transitions += len(RUNS)
                rec.outcomes["%d invalid" % len(src.errors)] += 1
                rec.run(src.dump(), lambda: judge_src(src, d), bool(src.errors))
            return
        if kind == "sets":
            for b in fileset.TEXTS:
                for opts in RUNS + [["--check-format", "--verbose-validate"], ["--format", "--validate"]]:
                    kinds = [list(fileset.TEXTS)[i], b]
                    rec.states += 1
                    rec.transitions += 1
                    rec.run({"kinds": kinds, "opts": opts}, lambda: judge_set(kinds, opts))
            return
        if kind == "free":
            first, prefix = c15.PIECES[i[0]], i[1]
            gen = c15.free(first, n if first in c15.TRIPLE_PIECES else 2, prefix)
            ctx = [("\nx = ", "\n")]
        else:
            gen = query_forms(QUERIES[i])
            ctx = [("", ""), ("x = 1\ny = f(\n 'é', ", ")  # c\n"), ("'''\n\n''' ; x = ", ".format(a)\n")]
        for src in gen:
            if not re.match(r"select(\s|$)", c15.value(src).lstrip().lower()):
                continue
            for pre, post in ctx:
                rec.states += 1
                rec.transitions += 2
                rec.run({"value": [pre, src, post]}, lambda: judge_value(pre, src, post, d))


def replay(inp):
    with scratch() as d:
        if "value" in inp:
            return judge_value(*inp["value"], d)
        if "kinds" in inp:
            return judge_set(inp["kinds"], inp["opts"])
        return judge_src(Source.load(inp), d)
