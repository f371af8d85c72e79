"""Boolean contexts reject exactly what is known not to be boolean."""
import collections
import itertools

from mc import scope as sc
from mc.judges import verdict

ID = "C11"
LEVEL = "model_checking"
RULE = (
    "typing machine: every expression tree up to the depth bound over typed leaves (literals, comparisons, arithmetic, "
    "columns, calls, placeholders) and AND/OR/NOT/parentheses/BETWEEN/CASE/call constructors, in every boolean and every "
    "non-boolean context; typed columns of every source of the scope machine (aliases, stars, EXCEPT/REPLACE, joins, "
    "nesting) in every boolean context. The model's types decide which operands must be reported; the real validator's "
    "complaints are compared operand by operand"
)
ASSUMES = ["unary and bitwise operators, arrays and subqueries have no known type; FILTER and ON conditions are not typed"]


class E:
    __slots__ = ("text", "type", "bad", "cls")

    def __init__(self, text, type_, bad=(), cls="p"):
        self.text = text
        self.type = type_  # 'bool', other name, or None for unknown
        self.bad = tuple(bad)  # (operator, type) of the wrong operands inside
        self.cls = cls  # p primary, c comparison, n not, a and, o or


def leaves():
    p = [("1", "int"), ("2.5", "float"), ("'v'", "str"), ("true", "bool"), ("FALSE", "bool"), ("null", None), ("c", None),
         ("t.c", None), ("f(1)", None), ("-3", "int"), ("%s", None), (":n", None), ("`q`", None), ("cast(1 as bool)", None),
         ("c[0]", None), ("case when c = 1 then 1 end", None), ("0", "int"), ("r'v'", "str")]
    out = [E(t, y) for t, y in p]
    for t in ("c = 1", "1 < 2", "c is null", "c is not null", "c in (1, 2)", "c not in ('v')", "c like 'v'", "c between 1 and 2",
              "c not between 0 and 3", "c <> 'v'", "exists (select 1)" if False else "1 >= c"):
        out.append(E(t, "bool", (), "c"))
    out.append(E("1 + c", "int", (), "r"))
    out.append(E("2 * 3", "int", (), "r"))
    return out


def basic():
    ls = leaves()
    keep = {"1", "'v'", "true", "c", "f(1)", "c = 1", "c between 1 and 2", "1 + c", "2.5", "null"}
    return [l for l in ls if l.text in keep]


def operand(e, op):
    return [] if e.type in (None, "bool") else [(op, e.type)]


def paren(e):
    return E("(%s)" % e.text, e.type, e.bad)


def binary(op, *es):
    bad = []
    for e in es:
        bad += list(e.bad) + operand(e, op.upper())
    return E((" %s " % op).join(e.text for e in es), "bool", bad, "a" if op == "and" else "o")


def wrap(e, cls):
    """Parenthesised where the grammar needs it."""
    order = "prcnao"
    return e if order.index(e.cls) <= order.index(cls) else paren(e)


def neg(e):
    e = wrap(e, "c")
    return E("not " + e.text, "bool", e.bad, "n")


def combine(xs, ys, ops=("and", "or")):
    for op in ops:
        for x, y in itertools.product(xs, ys):
            # the operands are written in parentheses unless they are plain conditions
            yield binary(op, wrap(x, "n"), wrap(y, "n"))


def level2(big):
    out = list(combine(leaves(), leaves() if big else basic()))
    out += [neg(l) for l in leaves()]
    out += [paren(paren(l)) for l in leaves()]
    for x, y in itertools.product(basic(), repeat=2):
        out.append(E("f(%s, %s)" % (x.text, y.text), None, x.bad + y.bad))
        out.append(E("%s in (%s, 1)" % (wrap(x, "p").text, y.text), "bool", x.bad + y.bad, "c"))
        out.append(E("case when %s then %s else 1 end" % (x.text, y.text), None, x.bad + y.bad))
        a, b = wrap(x, "r"), wrap(y, "r")
        out.append(E("c between %s and %s" % (a.text, b.text), "bool", (), "c"))
        out.append(E("%s not between %s and 7" % (a.text, b.text), "bool", (), "c"))
        out.append(E("%s = %s" % (a.text, b.text), "bool", (), "c"))
    return out


def level3(big):
    out = []
    small = [e for e in combine(basic(), basic()[:5]) if len(e.bad) < 3][:: 1 if big else 3]
    for x in small:
        out += [neg(x), paren(x), E("f(%s)" % x.text, None, x.bad), E("case when %s then 1 end" % x.text, None, x.bad),
                E("case c when 1 then %s else 2 end" % x.text, None, x.bad), E("(%s) = true" % x.text, "bool", x.bad, "c"),
                E("[%s, 1]" % x.text, None, x.bad, "p") if big else paren(paren(x))]
    for x in small:
        for y in basic()[:: 1 if big else 2]:
            out += list(combine([x], [y])) + list(combine([y], [x]))
    # chains of three and of mixed operators without parentheses
    for x, y, z in itertools.product(basic(), basic()[:6], basic()[:6]):
        for op in ("and", "or"):
            out.append(binary(op, *(wrap(e, "n") for e in (x, y, z))))
        xs = [wrap(e, "n") for e in (x, y, z)]
        bet = "c between 1 and 2"
        out.append(binary("and", E(bet, "bool", (), "c"), xs[0], xs[1]))
        out.append(binary("and", xs[0], E(bet, "bool", (), "c"), xs[2]))
        out.append(binary("or", binary("and", xs[0], xs[1]), xs[2]))
        out.append(binary("or", xs[0], binary("and", xs[1], xs[2])))
    return out


# (name, template, operator that complains about the expression itself or None, class)
CONTEXTS = [
    ("where", "select 1 from t where {e}", "WHERE", "o"),
    ("where paren", "select 1 from t where ({e}) group by 1", "WHERE", "o"),
    ("having", "select 1 from t having {e} order by 1", "HAVING", "o"),
    ("group having", "select 1 from t group by 1 having ({e})", "HAVING", "o"),
    ("and", "select 1 from t where {e} and true", "AND", "a"),
    ("and right", "select 1 from t where c = 1 and {e} limit 1", "AND", "n"),
    ("or", "select 1 from t having true or {e}", "OR", "n"),
    ("sub", "select 1 from (select 1 from t where {e}) s", "WHERE", "o"),
    ("union", "select 1 from t union all select 2 from t where {e}", "WHERE", "o"),
    ("with", "with w as (select 1 from t having {e}) select 1 from w", "HAVING", "o"),
    ("exists", "select 1 from t where exists (select 1 from u where {e})", "WHERE", "o"),
    ("join", "select 1 from t join (select 1 from u where {e}) s on t.c = 1", "WHERE", "o"),
    # contexts of any type
    ("select", "select {e} from t", None, "o"),
    ("select as", "select 1, {e} as y from t", None, "o"),
    ("compare", "select 1 from t where ({e}) = 1", None, "o"),
    ("call", "select f({e}) from t", None, "o"),
    ("order", "select 1 from t order by f(1, {e})", None, "o"),
    ("group", "select 1 from t group by f({e})", None, "o"),
    ("window", "select sum(1) over (partition by ({e})) from t", None, "o"),
    ("between", "select 1 from t where c between ({e}) and 9", None, "o"),
    ("between right", "select 1 from t where c not between 0 and ({e})", None, "o"),
    ("null", "select 1 from t where ({e}) is not null", None, "o"),
    ("case", "select case when c = 1 then {e} end from t", None, "o"),
]


def judge(inp):
    v, errors = verdict(inp["sql"])
    want = collections.Counter(map(tuple, inp["bad"]))
    got = collections.Counter()
    for e in errors:
        w = [w for w in ("WHERE", "HAVING", "AND", "OR") if "argument of %s must" % w in e]
        if not w:
            return "something else is reported: %r" % (errors,)
        got[(w[0], e.rsplit(" ", 1)[-1])] += 1
    if " and " in inp["sql"] and " or " in inp["sql"]:
        # which of the operators complains is a matter of grouping
        want, got = ungrouped(want), ungrouped(got)
    if got != want:
        return "to be reported: %r, reported: %r" % (dict(want), errors)
    if v != (not want):
        return "verdict %r with errors %r" % (v, errors)
    return None


replay = judge


def ungrouped(counter):
    return collections.Counter(("AND/OR" if w in ("AND", "OR") else w, t) for w, t in counter.elements())


def shards(tier):
    big = tier == "thorough"
    out = [("level1", tier, 0, 0)]
    n2, n3 = len(level2(big)), len(level3(big))
    out += [("level2", tier, i, i + 150) for i in range(0, n2, 150)]
    out += [("level3", tier, i, i + 300) for i in range(0, n3, 300)]
    m = len(sc.sources(1, big))
    out += [("columns", tier, i, i + 60) for i in range(0, m, 60)]
    m = len(sc.sources(2, False))
    out += [("nested", tier, i, i + 400) for i in range(0, m, 400)]
    return out


COLUMN = [
    ("where {r}", ["WHERE"]), ("where ({r})", ["WHERE"]), ("having {r}", ["HAVING"]), ("where {r} and true", ["AND"]),
    ("where true or {r}", ["OR"]), ("where true and (false or {r})", ["OR"]), ("where not ({r} and {r})", ["AND", "AND"]),
    ("where {r} = 1", []), ("where {r} between {r} and {r}", []), ("where {r}::bool", []), ("where f({r})", []),
    ("where true and {r} is null", []), ("having not {r}", []), ("where case when {r} then true end", []),
    ("where {r} in (1, {r})", []), ("where (({r}))", ["WHERE"]), ("having ((({r}))) and (({r}))", ["AND", "AND"]), ("order by {r} and true", ["AND"]), ("group by f({r} or true)", ["OR"]),
]
SHADOWED = ("where {r}", "having {r}", "where true or {r}", "where {r} = 1")
OUTER = [
    "select 1 from (select 'v' as a, true as b, 2.5 as x) where exists ({q})",
    "select 1 from (select true as a, 'v' as b, 7 as x) o group by a having 1 in ({q})",
    "select ({q}) from (select 2.5 as a, 1 as b, 'v' as x) as o join u on true",
    "select 1 from (select 'v' as a, 2.5 as b, true as x, 1 as c) o join (select 1 as c) p using (c) where exists ({q})",
    "select 1 from (select true as a, 1 as b, 2.5 as x) natural join (select true as a, 'v' as b, 1 as x) p where 1 = ({q})",
    "select 1 from (select 'v' as a, 'v' as b, 'v' as x) where exists (select 1 from (select 2 as c) where c in ({q}))",
]


def explore(desc, rec):
    family, tier, lo, hi = desc
    big = tier == "thorough"
    if family in ("columns", "nested"):
        srcs = (sc.sources(1, big) if family == "columns" else sc.sources(2, False))[lo:hi]
        todo = COLUMN if family == "columns" else COLUMN[:4] if big else COLUMN[:1]
        for k, s in enumerate(srcs):
            rec.states += 1
            if not s.closed:
                continue
            for q in [None] + sorted(set(s.quals())):
                for n in ("a", "b", "x"):
                    want, typ = sc.lookup([s], q, n)
                    rec.states += 1
                    if want != sc.ACCEPT or typ == "?":
                        continue
                    if not big and family == "columns" and k >= 24 and k % 4:
                        todo = COLUMN[:6]
                    elif family == "columns":
                        todo = COLUMN
                    for c, words in todo:
                        bad = [[w, typ] for w in words] if typ not in (None, "bool") else []
                        rec.transitions += 1
                        rec.outcomes["typed column wrong" if bad else "typed column right"] += 1
                        sql = "select 1 from %s %s" % (s.text, c.replace("{r}", sc.ref_text(q, n)))
                        inp = {"sql": sql, "bad": bad}
                        rec.run(inp, lambda: judge(inp))
                        if c in SHADOWED:
                            # columns of the same names further out do not matter
                            for host in OUTER if big else OUTER[k % 3 :: 3]:
                                rec.transitions += 1
                                inp = {"sql": host.replace("{q}", sql), "bad": bad}
                                rec.run(inp, lambda: judge(inp))
        return
    es = leaves() if family == "level1" else (level2(big) if family == "level2" else level3(big))[lo:hi]
    for k, e in enumerate(es):
        rec.states += 1
        for j, (name, tpl, op, cls) in enumerate(CONTEXTS):
            if not big and family != "level1" and (j + k) % (2 if family == "level2" else 4) and j not in (0, 12):
                continue
            x = wrap(e, cls)
            bad = list(x.bad) + (operand(x, op) if op else [])
            rec.transitions += 1
            rec.outcomes["wrong" if bad else "right"] += 1
            inp = {"sql": tpl.replace("{e}", x.text), "bad": [list(b) for b in bad]}
            rec.run(inp, lambda: judge(inp))
