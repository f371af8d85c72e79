"""Ambiguous columns are reported exactly."""
from mc import scope as sc
from mc.judges import verdict

ID = "C24"
LEVEL = "model_checking"
RULE = (
    "machine of FROM trees: every tree of 2 and 3 (thorough also 4, and parentheses around each part) subqueries with the aliases s, u, v, w, "
    "each giving a subset of the columns a, b, c in one of several spellings, under every join kind (comma, cross, inner, left, USING, NATURAL) at every "
    "inner node x every column, plain and qualified, x every clause template of C09; correlated queries: outer tree x inner tree x "
    "column x every place of a subquery. The model keeps for each column name the number of unmerged providers: two or more means ambiguous. "
    "The real validator must report exactly the ambiguous references as ambiguous, by name"
)
ASSUMES = [
    "sources without alias, plain tables, and stars over equal names are not part of this property (C09 covers their lookup)",
    "GROUP BY and ORDER BY with an alias of the select list of the same name are unspecified",
]

SHAPES = [
    # (column names, text)
    (("a",), "select a from t"),
    (("a", "b"), "select t.a, f(b) as B from t"),
    (("b",), "select 1 as `b`"),
    (("a", "b", "c"), 'select *, 2 c from (select "A", x.b from t)'),
    (("c",), "select c::int from t"),
]
KINDS = ["comma", "cross", "join", "left join", "using a", "using b", "using a, b", "natural", "natural left"]


class Tree:
    """names: name -> number of columns of this name that a plain reference can mean"""

    __slots__ = ("text", "names", "quals", "atom")

    def __init__(self, text, names, quals, atom=False):
        self.text = text
        self.names = names
        self.quals = quals  # alias -> names
        self.atom = atom


def leaf(i, alias, as_=False):
    names, text = SHAPES[i]
    return Tree("(%s)%s %s" % (text, " as" if as_ else "", alias), {n: 1 for n in names}, {alias.lower(): names}, True)


def join(kind, l, r):
    """None when SQL does not permit it, or reads the text in another way."""
    names = {n: l.names.get(n, 0) + r.names.get(n, 0) for n in set(l.names) | set(r.names)}
    quals = dict(l.quals, **r.quals)
    if not r.atom:
        return None
    if kind == "comma":
        return Tree("%s, %s" % (l.text, r.text), names, quals)
    if kind == "cross":
        return Tree("%s cross join %s" % (l.text, r.text), names, quals)
    if kind.startswith("using"):
        for n in kind[6:].split(", "):
            if l.names.get(n) != 1 or r.names.get(n) != 1:
                return None
            names[n] = 1
        return Tree("%s join %s using (%s)" % (l.text, r.text, kind[6:]), names, quals)
    if kind.startswith("natural"):
        for n in set(l.names) & set(r.names):
            if l.names[n] != 1 or r.names[n] != 1:
                return None
            names[n] = 1
        return Tree("%s %s join %s" % (l.text, kind, r.text), names, quals)
    return Tree("%s %s %s on 1 = 1" % (l.text, kind, r.text), names, quals)


def paren(t):
    return Tree("(%s)" % t.text, t.names, t.quals, True)


def trees(n, big):
    """All trees of n leaves (as a left-deep chain, and with the rest in parentheses on the right)."""
    aliases = ["s", "U", "v", "w"]
    shapes = range(len(SHAPES))
    if n == 1:
        for i in shapes:
            yield leaf(i, "s", i % 2 == 0)
    elif n == 2:
        for i in shapes:
            for j in shapes:
                for k in KINDS:
                    yield join(k, leaf(i, aliases[0], j % 2 == 0), leaf(j, aliases[1], i % 2 == 0))
    elif n == 3:
        for i in shapes:
            for j in shapes:
                for m in shapes if big else (0, 1, 4):
                    third = leaf(m, aliases[2], i % 2 == 1)
                    for k1 in KINDS:
                        two = join(k1, leaf(i, aliases[0]), leaf(j, aliases[1], True))
                        if two is None:
                            continue
                        for k2 in KINDS:
                            # the comma binds less than the other joins
                            if k1 != "comma" or k2 == "comma":
                                yield join(k2, two, third)
                            yield join(k2, paren(two), third)
                            if k1 != "comma":
                                yield join(k2, third, paren(two))
    else:
        for i, two in enumerate(trees(2, True)):
            if two is None:
                continue
            for a in (0, 1, 3):
                for b in (0, 2):
                    right = join(KINDS[(i + a) % len(KINDS)], leaf(a, aliases[2]), leaf(b, aliases[3]))
                    if right is None:
                        continue
                    for k in KINDS:
                        yield join(k, two if "," not in two.text else paren(two), paren(right))


def forest(big):
    out = []
    for n in (1, 2, 3, 4) if big else (1, 2, 3):
        out += [(n, t) for t in trees(n, big) if t is not None]
    return out


def judge(inp):
    v, errors = verdict(inp["sql"])
    about = [e for e in errors if "ambiguous" in e.lower()]
    if inp["ambiguous"]:
        if v or not any(inp["name"] in e.lower() for e in about):
            return "the ambiguous column %s is not reported as ambiguous: %r" % (inp["name"], errors)
    elif about:
        return "nothing is ambiguous, but reported: %r" % (about,)
    elif inp.get("accept") and not v:
        return "every column is provided once, but reported: %r" % (errors,)


replay = judge


def run(rec, sql, name, ambiguous, accept=False):
    rec.transitions += 1
    inp = {"sql": sql, "name": name, "ambiguous": ambiguous, "accept": accept}
    rec.outcomes["ambiguous" if ambiguous else "unique" if accept else "missing"] += 1
    rec.run(inp, lambda: judge(inp), ambiguous)


def references(t):
    """(text, name, ambiguous, accept)"""
    for n in ("a", "b", "c", "z"):
        k = t.names.get(n, 0)
        yield n, n, k > 1, k == 1
        for q, names in t.quals.items():
            yield "%s.%s" % (q, n), n, False, n in names


CORE = ("select {r}", "where {r} = 1", "order by {r}", "group by {r}", "having 1 = {r}", "on {r} = 1")
SKIP = ("alias order", "alias group", "alias distinct on", "alias distinct on 2", "alias order 2", "alias group 2", "on k in (1, {r})")

PLACES = [
    "select 1 from {o} where exists (select 1 from {i} where {r} = 1)",
    "select (select f({r}) from {i} limit 1) as q from {o}",
    "select 1 from {o} group by 1 having 1 < (select 1 from {i} where f({r}))",
    "select 1 from {o} order by (select {r} + 1 from {i} order by {r})",
    "select 1 from {o} where 1 in (select 1 from {i} group by {r})",
    "select 1 from {o} where exists (select 2 union all select {r} from {i})",
    "select 1 from {o} where exists (select 1 from (select 1 as k) kk join {p} on {r} = 1)",
]


def shards(tier):
    big = tier == "thorough"
    n = len(forest(big))
    step = 100 if not big else 60
    out = [("trees", i, i + step, big) for i in range(0, n, step)]
    m = len(few(big))
    return out + [("correlated", i, i + 1, big) for i in range(m)]


def few(big):
    out = [t for t in trees(1, big)] + [t for t in trees(2, big) if t is not None]
    threes = [t for t in trees(3, big) if t is not None]
    return out[:: 1 if big else 4] + threes[:: 61 if big else 411]


def explore(desc, rec):
    kind, lo, hi, big = desc
    if kind == "trees":
        cl = [c for c in sc.clauses() if c[0] not in SKIP and c[2] != "before"]
        core = [c for c in cl if c[0] in CORE]
        for k, (n, t) in enumerate(forest(big)[lo:hi]):
            rec.states += 1
            every = n < 3 and (big or (lo + k) % 5 == 0) or (lo + k) % (9 if big else 197) == 0
            for r, name, amb, acc in references(t):
                rec.states += 1
                for c, tpl, rule, boolean in cl if every else core if big or n < 3 else [core[(lo + k + j) % len(core)] for j in (0, 2)]:
                    # the comma binds less than the join whose condition it is
                    src = paren(t).text if rule == "on" and len(t.quals) > 1 else t.text
                    sql = tpl.replace("{src}", src).replace("{r}", r).replace("{n}", name)
                    # the types of the columns are not this property's matter
                    run(rec, sql, name, amb, acc and not boolean and "{r}.fld" not in c)
    else:
        fs = few(big)
        i = fs[lo]
        for o in fs:
            rec.states += 1
            for n in ("a", "b", "c", "z"):
                k = i.names.get(n, 0) or o.names.get(n, 0)
                for tpl in PLACES if big else PLACES[lo % 2 :: 2]:
                    run(rec, tpl.replace("{o}", o.text).replace("{i}", i.text).replace("{p}", i.text if i.atom else paren(i).text).replace("{r}", n), n, k > 1, k == 1)
