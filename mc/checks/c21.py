"""Work grows polynomially with nesting depth and length."""
import sys

import sqlvalidator
from mc import core, judges, spaces
from mc.families import fillers, twohole
from mc.grammar import *  # noqa
from mc.grammar import contexts, frames

ID = "C21"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of pumped derivations (every construct and pair of constructs nested or chained), counting calls of the implementation"
RULE = (
    "pumping machine: every context nested in itself, every ordered pair of contexts alternating, every chainable construct repeated, every FROM / WITH / set "
    "operator nesting, and every ordered pair of vocabulary words repeated (mostly not SQL), at doubling sizes; the number of function "
    "calls made by formatting and by validating the doubled text must stay below 8.5 times (cubic growth) that of the single text, and no exception "
    "may escape"
)
ASSUMES = [
    "work is the number of Python and C calls, which is deterministic; 10 s per evaluation bounds the rest",
    "sizes 3..6 for pairs, 4..32 for single constructs, 25..200 for chains",
]
LIMIT = 8.5
SLACK = 3000


class TooMuch(BaseException):
    pass


def calls(f, limit=None):
    n = 0

    def prof(frame, event, arg):
        nonlocal n
        n += 1
        if limit is not None and n > limit:
            sys.setprofile(None)
            raise TooMuch()

    sys.setprofile(prof)
    try:
        f()
    finally:
        sys.setprofile(None)
    return n


def format_(sql):
    try:
        judges.fmt(sql)
    except judges.Refused:
        pass


def grows(texts):
    """texts: the same construct at doubling sizes."""
    for name, op in (("formatting", format_), ("validating", judges.verdict)):
        prev = None
        for t in texts:
            limit = None if prev is None else int(prev * LIMIT) + SLACK
            try:
                n = calls(lambda: op(t), limit)
            except TooMuch:
                return "%s %r (%d characters) takes more than %d calls, after %d calls at half the size" % (name, t[:300], len(t), limit, prev)
            prev = n


def judge(inp):
    return grows(inp["texts"])


def nest(c, d, leaf):
    x = leaf
    for _ in range(d):
        if x.cat > c[1]:
            x = paren(x)
        x = c[2](x)
    return x


def nest2(c1, c2, d):
    x = ident("q")
    for _ in range(d):
        for c in (c2, c1):
            if x.cat > c[1]:
                x = paren(x)
            x = c[2](x)
    return x


SELF_FRAMES = {
    "sel": lambda x: sel1(x),
    "where": lambda x: select([ident("z")], frm=T, where=x),
    "order": lambda x: select([ident("z")], frm=T, order=[oitem(x, "desc")], limit=num("1")),
    "sub": lambda x: select([ident("z")], frm=falias(fparen(sel1(x, where=x)), "s", True)),
}


def chains():
    x = ident("x")
    z = ident("z")

    def rep(n, sep, item):
        return (" %s " % sep).join([item] * n)

    out = {
        "or": lambda n: "select a from t where " + rep(n, "or", "x = 1"),
        "and": lambda n: "select a from t where " + rep(n, "and", "( x = 1 )"),
        "mixed": lambda n: "select a from t having " + rep(n, "or", "x and y"),
        "plus": lambda n: "select " + rep(n, "+", "x") + " from t",
        "cat": lambda n: "select " + rep(n, "||", "'s'") + " from t",
        "eq": lambda n: "select " + rep(n, "=", "x") + " from t",
        "items": lambda n: "select " + rep(n, ",", "f(x) as y") + " from t",
        "args": lambda n: "select f(" + rep(n, ",", "x") + ") from t",
        "in": lambda n: "select a from t where x in (" + rep(n, ",", "1") + ")",
        "array": lambda n: "select [" + rep(n, ",", "1") + "] from t",
        "joins": lambda n: "select a from t " + rep(n, "", "join u on a = b"),
        "commas": lambda n: "select a from " + rep(n, ",", "t"),
        "subjoins": lambda n: "select a from (select a from t) x " + rep(n, "", "join (select b from u) y using (a)"),
        "union": lambda n: rep(n, "union all", "select a from t"),
        "from union": lambda n: "select a from (" + rep(n, "union", "select a from t") + ")",
        "case": lambda n: "select case " + rep(n, "", "when a then b") + " end from t",
        "with": lambda n: "with " + rep(n, ",", "w as (select a from t)") + " select a from w",
        "group": lambda n: "select a from t group by " + rep(n, ",", "a"),
        "order": lambda n: "select a from t order by " + rep(n, ",", "a desc"),
        "dots": lambda n: "select a" + ".b" * n + " from t",
        "index": lambda n: "select a" + "[0]" * n + " from t",
        "not": lambda n: "select a from t where " + "not " * n + "a",
        "minus": lambda n: "select " + "- " * n + "a from t",
        "spaces": lambda n: "select" + " " * (40 * n) + "a" + "\n\t" * (40 * n) + "from t",
        "string": lambda n: "select '" + "ab ''\\' \" ` ( " * (4 * n) + "' from t",
        "strings": lambda n: "select " + rep(n, ",", "'it''s'") + " from t",
        "name": lambda n: "select " + "xe5_" * (4 * n) + " from t",
        "number": lambda n: "select " + "1" * (4 * n) + "." + "0" * (4 * n) + " from t",
        "comment": lambda n: "select a /* " + "* / -- " * (4 * n) + "*/ from t",
        "comments": lambda n: "select a " + "-- x\n" * n + " from t",
        "over": lambda n: "select f(a) over (partition by " + rep(n, ",", "a") + " order by " + rep(n, ",", "b desc") + ") from t",
        "except": lambda n: "select * except (" + rep(n, ",", "a") + ") from (select " + rep(n, ",", "a") + " from t)",
        "replace": lambda n: "select * replace (" + rep(n, ",", "1 as a") + ") from t",
        "from sub": lambda n: "select a from (" * n + "select a from t" + ")" * n,
        "from sub as": lambda n: "select s.a from (" * n + "select a from t" + ") as s" * n,
        "from sub where": lambda n: "select a from (" * n + "select a from t" + " where a) where a and 1 = a" * n,
        "from sub join": lambda n: "select a from (" * n + "select a from t" + ") x join (select a from t) y on x = y" * n,
        "from join sub": lambda n: "select a from t join (" * n + "select a from t" + ") y on x = y" * n,
        "from union sub": lambda n: "select a from (" * n + "select a from t" + " union select a from t)" * n,
        "from union sub 2": lambda n: "select a from (select b from t union " * n + "select a from t" + ")" * n,
        "with in with": lambda n: "with w as (" * n + "select a from t" + ") select a from w" * n,
        "star sub": lambda n: "select * from (" * n + "select a, b from t" + ")" * n,
        "star sub as": lambda n: "select x.*, y from (" * n + "select a, y from t" + ") as x" * n,
        "except sub": lambda n: "select * except (a) from (" * n + "select a, b, c from t" + ")" * n,
        "unnest": lambda n: "select a from unnest(" * n + "x" + ")" * n,
        "table paren": lambda n: "select a from " + "(" * n + "t" + ")" * n,
        "list sub": lambda n: "select a, (" * n + "select b" + "), c from t" * n,
        "in sub": lambda n: "select a from t where a in (" * n + "select b from u" + ")" * n,
        "exists": lambda n: "select a from t where exists (" * n + "select b, c from u" + ") and a" * n,
        "unclosed": lambda n: "select " + "( " * n,
        "unopened": lambda n: "select a" + " )" * n,
        "unclosed call": lambda n: "select " + "f( " * n,
        "unclosed case": lambda n: "select " + "case when " * n,
        "unclosed case 2": lambda n: "select " + "case a when b then " * n,
        "unclosed sub": lambda n: "select a from ( " * n,
        "unclosed select": lambda n: "select ( " * n,
        "selects": lambda n: "select " * n,
        "quotes": lambda n: "select " + "'" * n,
        "quotes 2": lambda n: "select " + "'\"`" * n,
        "backslashes": lambda n: "select '" + "\\" * n,
        "word": lambda n: "select " + "a " * n,
        "dots only": lambda n: "select " + "." * n,
        "ops": lambda n: "select a " + "< = > ! " * n + " b",
    }
    return out


NESTED = "sub|unnest|paren|in|exists|not|minus|selects|unclosed|list|dots|index".split("|")


def sizes(name, big):
    deep = any(w in name.split() or name.startswith(w) for w in NESTED) or "sub" in name or name.startswith("with in")
    if deep:
        return (4, 8, 16, 32) if big else (4, 8, 16)
    return (25, 50, 100, 200) if big else (25, 50, 100)


def shards(tier):
    big = tier == "thorough"
    n = len(contexts())
    out = [("self", i, tier) for i in range(n)]
    out += [("pair", i, tier) for i in range(n)]
    out += [("chain", name, tier) for name in chains()]
    out += [("words", i, tier) for i in range(len(spaces.VOCAB))]
    return out


def explore(desc, rec):
    kind, i, tier = desc
    big = tier == "thorough"
    cx = contexts()

    def run(texts):
        rec.states += len(texts)
        rec.transitions += len(texts) - 1
        rec.run({"texts": texts}, lambda: grows(texts))

    if kind == "self":
        c = cx[i]
        for leaf in (ident("q"), string("'s'"), paren(sel1(ident("m"))), ident("q" * 95)):
            for f in SELF_FRAMES.values():
                run([render(f(nest(c, d, leaf)).t) for d in ((4, 8, 16, 32) if big else (4, 8, 16))])
    elif kind == "pair":
        for c in cx:
            for f in list(SELF_FRAMES.values())[: 2 if big else 1]:
                run([render(f(nest2(cx[i], c, d)).t) for d in ((3, 6, 12) if big else (3, 6))])
    elif kind == "chain":
        f = chains()[i]
        run([f(n) for n in sizes(i, big)])
    else:
        w = spaces.VOCAB[i]
        for v in spaces.VOCAB:
            for pre in ("select ", "select a from t where ") if big else ("select ",):
                run([pre + " ".join([w, v] * n) for n in ((4, 8, 16) if big else (5, 10))])


replay = judge
