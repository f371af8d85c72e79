"""Exactly the string literals that hold a SELECT are treated as SQL."""
import ast
import io
import itertools
import os
import tokenize

import sqlvalidator
from mc import files, fileset, judges
from mc.files import *  # noqa

ID = "C23"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of literals and of the tokens around them against a model of which are SQL"
RULE = (
    "every literal made of 15 prefixes x 4 quotings x 26 leading texts x 13 spellings of the word x 22 following texts (white space, escapes, line breaks, punctuation, continuations; quick: of the last three at most two differ from their first value), whose "
    "value decides whether it is SQL; every such kind in 60 contexts: concatenated side by side or by + on either side with line breaks, comments and parentheses in-between, or next to other "
    "operators, brackets, calls and f-strings. A literal that is SQL is validated and rewritten as the library says for its value, any other leaves the file and the report alone"
)
ASSUMES = ["f-strings are not analysed", "a word that is directly followed by punctuation (select*, select(1)) is prose or code, not a marked query"]

PREFIX = ["", "r", "R", "u", "U", "b", "B", "br", "bR", "Br", "BR", "rb", "f", "F", "rf"]
LEAD = ["", " ", "   ", "\n", "\t", "\n\n \t", "\\n", "\\t", "\\x20", "\\u0020", "\\\n", "\\xe9", "é", "\x0c", "\u00a0", "(", "-", "x", "_", "`", "-- c\n", "/**/", "{", "#", ".", "%s "]
WORD = ["select", "SELECT", "SeLeCt", "Select", "selected", "selects", "select_", "select1", "selec", "sel ect", "sele\\\nct", "\\x73elect", "insert select"]
REST = "x from (select a from t)"
FOLLOW = [
    " " + REST, "  " + REST, "\n" + REST, "\t" + REST, "\\n" + REST, "\\t" + REST, "\\\n" + REST, "\\\n " + REST, "\x0c" + REST, "\u00a0" + REST, "", " ", "\n", "*", "(1)", ", x", ".x", ":",
    "_x from t", "-- c\n x", "/**/ x", ";",
]
CORE = [(0, 0, 0, 0), (0, 4, 0, 2), (3, 2, 1, 0), (9, 0, 4, 1)]


def value_of(src):
    """What the literal denotes; None when it is not one (constant) literal."""
    try:
        v = ast.literal_eval(src)
        n = sum(t.type == tokenize.STRING for t in tokenize.generate_tokens(io.StringIO(src).readline))
    except (SyntaxError, ValueError, tokenize.TokenError):
        return None
    if n != 1:
        return None
    return v.decode("latin-1") if isinstance(v, bytes) else v


def is_sql(value):
    v = value.lstrip()
    return v[:6].lower() == "select" and (len(v) == 6 or v[6].isspace())


def judge(pre, src, post, marked, d):
    """marked: whether the context lets the literal be a query."""
    value = value_of(src)
    path = os.path.join(d, "a.py")
    text = pre + src + post
    write(path, text)
    m = fileset.File("clean")
    sql = value is not None and marked and is_sql(value)
    if sql:
        q = sqlvalidator.parse(value)
        if not q.is_valid():
            m.errors = [(pre.count("\n") + 1, ", ".join(q.errors))]
    r = cli(["--verbose-validate", "a.py"], d)
    why = fileset.compare(r, fileset.expect(["--verbose-validate"], [("a.py", m)], None), True)
    if why:
        return "validating %r (%s): %s" % (text, "SQL" if sql else "not SQL", why)
    r = cli(["--format", "a.py"], d)
    with open(path, encoding="utf-8", newline="") as f:
        got = f.read()
    if not sql:
        if got != text or "No file reformatted." not in r.out:
            return "formatting %r, which is not SQL: %r, %r" % (text, got, r.out)
        return None
    if not (got.startswith(pre) and got.endswith(post)):
        return "text around %r changed: %r" % (text, got)
    if "\\" in src or not src.isascii() or "'" in value or '"' in value:
        return None
    want = expected(src, value)
    if got != pre + want + post:
        return "formatting %r: %r, expected %r" % (text, got, pre + want + post)


def expected(src, value):
    prefix = src[: min(i for i in (src.find("'"), src.find('"')) if i >= 0)]
    quote = src[-1]
    n = 3 if src.endswith(quote * 3) and len(src) >= len(prefix) + 6 else 1
    try:
        new = sqlvalidator.format_sql(value)
    except judges.ParsingError:
        return src
    if "\n" in new:
        return prefix + quote * 3 + "\n" + new + "\n" + quote * 3
    return prefix + quote * n + new + quote * n


JOINED = [
    "x = ¤ 'a'", "x = 'a' ¤", "x = ¤ f'{a}'", "x = f'{a}' ¤", "x = ¤ + a", "x = a + ¤", "x = (¤) + a", "x = a + (¤)", "x = ((¤)) + b", "x = b + ((¤))", "x = ¤ \\\n  'a'", "x = (¤\n  'a')",
    "x = ('a'\n  ¤)", "x = (¤  # c\n\n  # d\n  'a')", "x = ('a'  # c\n\n  # d\n  ¤)", "x = (¤\n  + a)", "x = (a +\n  # c\n  ¤)", "def f():\n    return (¤) + a", "x = y[¤ + a]", "f(¤ + a, b)", "f(b, a + ¤)",
    "x = ¤ r'a'", "x = '' ¤", "x = ¤ ''", "x = ('a') + (¤) + ('b')", "x = (\n¤\n) + a", "x = a + (  # c\n¤  # d\n)", "x = a and (¤) + b", "x = a if (¤) + b else c", "x = f'{a + ¤}'", "x = f'{¤ + a}'",
    "x = not (¤) + a", "x = [(¤) + a]", "x = {'k': (¤) + a}", "x = lambda: (¤) + a", "x = ¤+a", "x = a+¤", "x = 'a'¤",
]
ALONE = [
    "x = ¤", "¤", "x = (¤, 'a')", "x = ('a', ¤)", "x = f(¤) + a", "x = a + f(¤)", "x = [¤] + a", "x = a + [¤]", "x = a[¤] + b", "x = ¤ * 2", "x = ¤ - a", "x = -a, ¤", "x = (¤,) + a", "x = a + (¤,)",
    "x = ¤\n'a'", "'a'\nx = ¤", "x = 'a'; ¤; 'b'", "x = (¤)", "x = ((¤))", "x = ¤ if a else 'b'", "x = 'b' if a else ¤", "x = {¤: 'a'}", "x = {'a': ¤}", "x = 'a' == ¤", "x = ¤ in 'a'", "f('a', k=¤)", "f(**a, k=¤)",
    "x = a(b)(¤) + c", "x = a[0](¤) + c", "x = ¤.format('a')", "x = ¤ % 'a'", "x = ¤.format(a) + b", "x = f'{f(¤)}'", "x = f'{a}', ¤, f'{b}'", "f(¤)('a')", "x: ¤ = 'a'", "x = ¤  # + 'a'", "# 'a' +\nx = ¤",
]


def shards(tier):
    big = tier == "thorough"
    out = [("literal", (p, q), big) for p in range(len(PREFIX)) for q in range(4)]
    out += [("joined", i, big) for i in range(len(JOINED))] + [("alone", i, big) for i in range(len(ALONE))]
    return out


def explore(desc, rec):
    kind, i, big = desc
    with scratch() as d:

        def run(pre, src, post, marked):
            value = value_of(src)
            rec.states += 1
            rec.transitions += 2
            if value is None and src[0] not in "fF" and src[:2] != "rf":
                rec.outcomes["no literal"] += 1
                return
            sql = value is not None and marked and is_sql(value)
            rec.outcomes["SQL" if sql else "not SQL"] += 1
            rec.run([pre, src, post, marked], lambda: judge(pre, src, post, marked, d))

        if kind == "literal":
            p, q = PREFIX[i[0]], files.QUOTES[i[1]]
            for a, w, z in itertools.product(range(len(LEAD)), range(len(WORD)), range(len(FOLLOW))):
                if not big and (a and w and z or (w > 1 and p not in ("", "b", "r", "f"))):
                    continue
                body = LEAD[a] + WORD[w] + FOLLOW[z]
                if len(q) == 1 and "\n" in body.replace("\\\n", ""):
                    continue
                if p.lower() in ("f", "rf") and "{" in body:
                    continue
                run("x = ", p + q + body + q, "\n", True)
            return
        t = JOINED[i] if kind == "joined" else ALONE[i]
        pre, post = t.split("¤")
        for p in PREFIX:
            for q in files.QUOTES:
                for w, z in itertools.product(range(len(WORD)), range(len(FOLLOW))) if big else itertools.product((1, 4), (0, 2, 6, 10, 13)):
                    body = WORD[w] + FOLLOW[z]
                    if len(q) == 1 and "\n" in body.replace("\\\n", ""):
                        continue
                    if p.lower() in ("f", "rf"):
                        if "f'" in t and q[0] == "'":
                            continue
                    run(pre, p + q + body + q, post + "\n", kind == "alone")


def replay(inp):
    with scratch() as d:
        return judge(*inp, d)
