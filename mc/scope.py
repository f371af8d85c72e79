"""Reference model of SQL's name resolution, and the machine that nests queries.

A source (FROM item) provides columns: a list of items ``(qualifier, columns, open)``,
``columns`` being a tuple of ``(name, type)``.  An open item is a plain table (or WITH
name), which has every column.  A query has output columns in the same form.  The
texts are written by templates; nothing here looks at the implementation.

Answers of a lookup: ACCEPT (a provider exists), REJECT (every source is closed and
none provides it), UNSPEC (ambiguous, or the standard leaves it open)."""
import functools
import itertools

ACCEPT, REJECT, UNSPEC = "accept", "reject", "unspecified"

# types: None = unknown to everybody, '?' = the standard leaves it open
JOIN_ON = (" join ", " inner join ", " left join ", " left outer join ", " right join ", " full outer join ")


class Src:
    __slots__ = ("text", "items", "merged", "closed", "key")

    def __init__(self, text, items, merged=()):
        self.text = text
        self.items = tuple(items)
        self.merged = frozenset(merged)
        self.closed = not any(i[2] for i in self.items)

    def quals(self):
        return [i[0] for i in self.items if i[0]]

    def names(self):
        return sorted({n for i in self.items for n, _ in i[1]})


class Q:
    __slots__ = ("text", "cols", "open", "n")

    def __init__(self, text, cols, open_=False, n=None):
        self.text = text
        self.cols = tuple(cols)
        self.open = open_
        self.n = n  # number of selected expressions, None with a star


def undetermined(types):
    return "?" if any(types) else None


def lookup(scopes, qual, name):
    """(answer, type) of a column reference; scopes from the innermost outwards."""
    any_open = any(not s.closed for s in scopes)
    for s in scopes:
        if qual is None:
            found = [t for i in s.items for n, t in i[1] if n == name]
            if len(found) == 1:
                return ACCEPT, found[0] if s.closed and name not in s.merged else undetermined(found)
            if len(found) > 1:
                return (ACCEPT if name in s.merged else UNSPEC), undetermined(found)
            if not s.closed:
                return ACCEPT, None
            if name in s.quals():
                return ACCEPT, "?"  # the row
            continue
        items = [i for i in s.items if i[0] == qual]
        if len(items) > 1:
            return UNSPEC, None
        if items:
            found = [t for n, t in items[0][1] if n == name]
            if len(found) == 1:
                return ACCEPT, found[0]
            if len(found) > 1:
                return UNSPEC, None
            if items[0][2]:
                return ACCEPT, None
            # it could still be a field of a column that has the alias' name
            if any_open or any(n == qual for o in scopes for i in o.items for n, _ in i[1]):
                return UNSPEC, None
            return REJECT, None
        structs = [1 for i in s.items for n, _ in i[1] if n == qual]
        if len(structs) == 1:
            return ACCEPT, None  # a field of a column
        if structs:
            return UNSPEC, None
        if not s.closed:
            # a struct of the open table, unless it is the alias of an outer query
            return (UNSPEC if any(qual in o.quals() for o in scopes) else ACCEPT), None
    return REJECT, None


# ------------------------------------------------------------------- sources
def table(name, alias=None):
    return Src(name if alias is None else "%s %s" % (name, alias), [(alias or name, (), True)])


def sub(q, alias=None, as_=False):
    text = "(%s)" % q.text
    if alias:
        text += (" as " if as_ else " ") + alias
    return Src(text, [(alias.lower() if alias else None, q.cols, q.open)])


def common(l, r):
    return sorted(set(l.names()) & set(r.names()))


def joined(kind, l, r):
    """kind: 'on', 'cross', 'comma', 'natural', 'using', 'left' ..."""
    # what was merged is not the only column of its name any more
    still = (l.merged | r.merged) - set(common(l, r))
    if kind == "cross":
        return Src("%s cross join %s" % (l.text, r.text), l.items + r.items, still)
    if kind == "comma":
        return Src("%s, %s" % (l.text, r.text), l.items + r.items, still)
    if kind.startswith("natural"):
        return Src("%s %s join %s" % (l.text, kind, r.text), l.items + r.items, set(common(l, r)) | still)
    if kind == "using":
        names = common(l, r)
        if not names:
            # a known column of one side and any column of an open other side
            names = ([] if r.closed else l.names()[:1]) or ([] if l.closed else r.names()[:1])
        if not names:
            return None
        names = names[:2]
        return Src(
            "%s join %s using (%s)" % (l.text, r.text, ", ".join(names)), l.items + r.items, set(names) | still
        )
    return Src("%s %s %s on 1 = 1" % (l.text, kind, r.text), l.items + r.items, still)


def parens(s):
    return Src("(%s)" % s.text, s.items, s.merged)


# ------------------------------------------------------------------- queries
def star_cols(s):
    """What a star over the source gives: (columns, open)."""
    cols = []
    for i in s.items:
        for c in i[1]:
            if c[0] in s.merged and c[0] in [n for n, _ in cols]:
                continue
            types = [t for j in s.items for n, t in j[1] if n == c[0]]
            cols.append((c[0], undetermined(types)) if c[0] in s.merged else c)
    return tuple(cols), not s.closed


def ref_text(qual, name):
    return "%s.%s" % (qual, name) if qual else name


def select_from(s):
    """Queries over a source: its columns in every form of select list."""
    out = []
    refs = [(None, n) for n in s.names()[:2]] + [(i[0], n) for i in s.items if i[0] for n, _ in i[1][:1]]
    if not refs:
        q = s.quals()
        refs = [(None, "a")] + ([(q[0], "a")] if q else [])
    for q, n in refs:
        a, t = lookup([s], q, n)
        if a != ACCEPT:
            continue
        r = ref_text(q, n)
        f = " from " + s.text
        out.append(Q("select %s%s" % (r, f), [(n, t)], n=1))
        out.append(Q("select %s as x%s" % (r, f), [("x", t)], n=1))
        if q is None:
            out.append(Q("select f(%s) as b, %s%s" % (r, r, f), [("b", None), (n, t)], n=2))
            out.append(Q("select distinct (%s), %s x%s" % (r, r, f), [(n, t), ("x", t)], n=2))
    cols, op = star_cols(s)
    f = " from " + s.text
    out.append(Q("select *" + f, cols, op))
    out.append(Q("select *, 1 = 1 as x" + f, cols + (("x", "bool"),), op))
    if cols:
        n = cols[0][0]
        if not op:
            out.append(Q("select * except (%s)%s" % (n, f), [c for c in cols if c[0] != n], op))
        if sum(c[0] == n for c in cols) == 1:
            out.append(
                Q("select * replace (f(1) as %s)%s" % (n, f), [(c[0], None if c[0] == n else c[1]) for c in cols], op)
            )
    if len({c[0] for c in cols}) > 1 and len({c[0] for c in cols}) == len(cols) and not op:
        # both, and what is left of the star
        m, n = cols[0][0], cols[-1][0]
        rest = [(c[0], None if c[0] == n else c[1]) for c in cols if c[0] != m]
        out.append(Q("select * except (%s) replace (f(1) as %s)%s" % (m, n, f), rest))
    for i in s.items:
        if i[0] and [j[0] for j in s.items].count(i[0]) == 1:
            out.append(Q("select %s.*%s" % (i[0], f), i[1], i[2]))
            if i[1] and not i[2]:
                n = i[1][-1][0]
                out.append(Q("select %s.* except (%s)%s" % (i[0], n, f), [c for c in i[1] if c[0] != n]))
    return [q for q in out if q.cols or q.open or "except" not in q.text]


def set_query(l, word, r):
    return Q("%s %s %s" % (l.text, word, r.text), l.cols, l.open, l.n)


def with_query(inner, body):
    return Q("with w as (%s) %s" % (inner.text, body.text), body.cols, body.open, body.n)


def level0():
    t = table("t")
    out = [
        Q("select 1 as a", [("a", "int")], n=1),
        Q("select 'v' as a, 1 = 1 as b", [("a", "str"), ("b", "bool")], n=2),
        Q("select a from t", [("a", None)], n=1),
        Q("select t.a, t.b from t", [("a", None), ("b", None)], n=2),
        Q("select t.s.b from t", [("b", None)], n=1),
        Q('select "A", `B` from t', [("a", None), ("b", None)], n=2),
        Q("select a x, b as X2 from t", [("x", None), ("x2", None)], n=2),
        Q("select distinct A from t where b = 1 group by a having b order by c limit 1", [("a", None)], n=1),
        Q("select a::int, (b) from t", [("a", None), ("b", None)], n=2),
        Q("select * from t", [], True),
        Q("select t.*, 1 = 1 as x from t", [("x", "bool")], True),
        Q("select f(a) as s, case when a then 1 end as a from t", [("s", None), ("a", None)], n=2),
        Q("select 1", [], n=1),
        Q("select -1, f(a), (1 = 1), a + 1, x from t", [("x", None)], n=5),
        Q("select A::int::text, t.b::Date, x::varchar(3) from t", [("a", None), ("b", None), ("x", None)], n=3),
    ]
    return out


@functools.lru_cache(maxsize=None)
def sources(level, big):
    """All sources of a nesting level.  Level 0: tables; level 1: subqueries of
    level-0 queries and their joins; level n: subqueries of the queries over level n-1."""
    if level == 0:
        return (table("t"), table("t", "s"), table("d.t", "s"))
    if level == 1:
        q0 = level0()
    else:
        q0 = queries(level - 1, big)
    singles = []
    for i, q in enumerate(q0):
        singles.append(sub(q))
        singles.append(sub(q, "s", i % 2 == 0))
    out = list(singles)
    if level == 1:
        # aliases that begin with the name of a column
        out += [sub(q0[1], "ab"), sub(q0[3], "a_"), sub(q0[11], "sa")]
        # set operators between parentheses: the first query names the columns
        q0 = list(q0)
        for i, (l, r) in enumerate(((0, 6), (1, 3), (6, 0), (3, 11), (2, 9))):
            l, r = q0[l], q0[r]
            for j, word in enumerate(("union all", "except distinct", "intersect", "union")):
                if j not in (i % 4, (i + 1) % 4) and not big:
                    continue
                cols = l.cols if l.cols[0][1] is None else [(n, "?") for n, _ in l.cols]
                third = " union (select 3 as z)" if (i + j) % 2 else ""
                out.append(sub(Q("(%s) %s (%s)%s" % (l.text, word, r.text, third), cols, l.open), [None, "s"][(i + j // 2) % 2], j == 1))
        lefts = [sub(q, a) for q in q0 for a in (None, "s")] + [table("t"), table("t", "s")]
        rights = [sub(q0[0], "u"), sub(q0[3], "u"), sub(q0[3]), sub(q0[6], "U", True), table("t", "u"), sub(q0[9], "u")]
        kinds = ["cross", "comma", "natural", "natural left", "using", "join", "left join", "full outer join"]
        if not big:
            lefts = [l for i, l in enumerate(lefts) if i % 2 == 0 or i in (1, 3, 7, 25)]
            kinds = ["comma", "natural", "using", "left join"]
        for l in lefts:
            for r in rights:
                for k in kinds:
                    j = joined(k, l, r)
                    if j is not None:
                        out.append(j)
        third = sub(Q("select c, b from t", [("c", None), ("b", None)], n=2), "v")
        for l in lefts[::3]:
            for r in rights[:3]:
                for k1 in kinds[:3]:
                    for k2 in kinds[:4]:
                        j = joined(k1, l, r)
                        if j is None:
                            continue
                        # the comma binds less than the other joins
                        jj = None if k1 == "comma" != k2 else joined(k2, j, third)
                        if jj is not None:
                            out.append(jj)
                        if k2 != "comma" and k1 != "comma":
                            jj = joined(k2, third, parens(j))
                            if jj is not None:
                                out.append(jj)
    else:
        rights = [sub(level0()[3], "u"), table("t", "u")]
        kinds = ["cross", "using"]
        for q in q0[:: 1 if big else 3]:
            for r in rights:
                for k in kinds:
                    j = joined(k, sub(q, "s"), r)
                    if j is not None:
                        out.append(j)
    return tuple(out)


@functools.lru_cache(maxsize=None)
def queries(level, big):
    """Queries over all sources of a level, set operators and WITH queries."""
    out = []
    for i, s in enumerate(sources(level, big)):
        if level == 1 and i >= 24 and i % (3 if big else 11):
            continue
        if level == 2 and i % (5 if big else 29):
            continue
        out += select_from(s)
    base = level0()
    for q in out[:: 7 if big else 23]:
        out.append(set_query(q, "union all", base[6]))
        out.append(set_query(base[6], "except distinct", q))
        out.append(with_query(base[0], q))
    seen = {}
    for q in out:
        seen.setdefault(q.text, q)
    return tuple(seen.values())


# ------------------------------------------------------------------- clauses
# (name, template, rule, boolean context) - rule: which names besides the sources' are
# visible: "" none, "out" aliases of the select list
def clauses():
    S = "select %s from {src}"
    out = []
    for e in (
        "{r}", "{r} as y", "{r} y", "1, {r}", "{r}, 2 as q", "distinct {r}", "f({r})", "f(1, g({r}), 'v')", "count({r})",
        "count(distinct {r})", "cast({r} as int)", "{r} = 1", "1 < {r}", "{r} is null", "1 in ({r}, 2)", "({r})",
        "(({r})) as y", "{r} + 1", "2 * {r}", "-{r}", "{r} || 'v'", "case when {r} = 1 then 1 else 2 end",
        "case {r} when 1 then 2 end", "case when true then {r} end", "case 1 when {r} then 2 else 3 end",
        "case when true then 1 else {r} end", "[1, {r}]", "{r}[0]", "sum({r}) over (partition by 1)",
        "rank() over (partition by 1, {r})", "rank() over (order by {r} desc)", "sum(1) filter (where {r} = 1)",
        "sum({r}) filter (where true)", "array_agg({r} ignore nulls)", "array_agg(1 order by {r} limit 2)",
        "extract(year from {r})", "{r}.fld", "{r} between 1 and 2", "1 between {r} and 2", "1 between 0 and {r}",
        "not {r} = 1", "{r} not in (1)", "{r} like 'v'", "f(*), {r}", "{r}::int", "(select {r})", "f((select 1 + {r}))",
        "{r}::int::text", "{r}::varchar(10)", "f({r}::Date, 1)", "1 = {r}::numeric(10, 2)", "f(1)[0][{r}]", "net.f(1)[0][{r}]", "net.f(1)[{r}][0]", "p.d.f(1)[0][{r}].b",
        "[1, 2][{r}]", "f(1)[{r}]", "f(1)[offset({r})]", "f({r})[0]", "[1, 2][0, {r}]", "{r}[0][1]", "[[1, {r}]]", "(1, {r})", "(1, ({r}), 2) as y",
        "f(1).b[{r}]", "f({r}).b", "f(1)[{r}].b", "net.f({r})", "p.d.f(1, {r})", "p.d.f(1)[{r}]", "p.f({r}).b[0]", "net.sum(1) over (order by {r})", "net.sum({r}) over ()",
        "{r}[0].fld", "{r}.fld[0]", "{r}.fld[1][2].g", "{r}[{r}]", "f({r}.fld[0], 1)", "({r}).fld", "-{r}[0]", "{r}.fld.gld + 1",
        "{r} * 2 - 1", "1 - 2 * {r}", "{r} & 1", "'v' || {r} || 'w'", "-(-{r})", "f(-{r}, 1)", "cast(f({r}) as date)", "extract(day from f({r}))",
        "array_agg(distinct {r})", "array_agg({r} order by 1)", "array_agg(1 order by 1, {r} desc)", "struct({r} as k, 1)", "if(1 = 1, 2, {r})",
        "case when 1 = 2 then 1 when {r} = 2 then 3 end", "case 1 when 2 then 3 when 4 then {r} end", "case when 1 = 2 then 1 when 2 = 2 then 2 else f({r}) end",
        "case f({r}) when 2 then 3 end", "1 = 1 or 2 = {r}", "not (1 = {r})", "{r} > 1 and 1 = 1 or 2 = 3", "{r} is not true", "{r} not like 'v'", "'v' like {r}",
        "{r} not between 1 and 2", "1 not between f({r}) and 2", "exists (select {r})", "array(select {r})", "cast({r} = 1 or true as bool)", "1 in (1, (2), {r})", "({r}, 1) in ((1, 2))",
        "rank() over (partition by 1 order by 2, {r})", "sum(1) over (order by {r} rows current row)", "sum(1) over (partition by f({r}), 1 order by 1)",
        "sum(1) filter (where 1 = 2 or {r} is null)", "sum(f({r})) filter (where true) over (partition by 1)", "count(f({r}))", "concat(1, 'a', (2 + {r}))",
    ):
        out.append(("select " + e, S % e, "", False))
    for e in ("distinct on ({r}) 1", "distinct on (1, f({r}), 2) 1 as q", "distinct on ({r} = 1) {r}"):
        out.append(("select " + e, S % e, "out" if e[-1] != "}" else "", False))
    out.append(("select and", S % "{r} and true", "", True))
    for w, rule in (("where", ""), ("having", "having")):
        for e, b in (
            ("{r} = 1", False), ("1 = {r}", False), ("{r}", True), ("({r})", True), ("{r} is not null", False),
            ("1 between {r} and 3", False), ("{r} not in (1, 2)", False), ("true or ({r} = 1)", False),
            ("{r} and {r} = 2", True), ("not {r} = 1", False), ("f({r})", False), ("exists (select {r})", False),
            ("{r} in (select 1)", False), ("1 in (select 1 where {r} = 1)", False), ("f({r} + 1) > 2 and true", False),
        ):
            out.append((w + " " + e, "select 1 from {src} %s %s" % (w, e), rule, b))
    for e in ("{r}", "1, {r}", "({r})", "{r}, 1", "f({r})", "(1, {r})", "rollup({r})", "{r} + 1"):
        out.append(("group by " + e, "select 1 from {src} group by " + e, "out", False))
    for e in ("{r}", "{r} desc", "1, {r} asc", "f({r})", "({r})", "{r} = 1", "{r} + 1 desc, 1"):
        out.append(("order by " + e, "select 1 from {src} order by " + e, "out", False))
    for e in ("{r} = 1", "1 = 2 and ({r} is null or true)", "f({r}, kk.k)", "k in (1, {r})"):
        out.append(("on " + e, "select 1 from {src} join (select 1 as k) kk on " + e, "on", False))
        out.append(("mid on " + e, "select 1 from {src} left join (select 1 as k) kk on %s cross join (select 2 as j) jj" % e, "on", False))
    for e in (
        "{src}, unnest({r})", "{src} cross join unnest(f({r})) as e9", "{src} left join unnest([1, {r}]) e9 with offset o9 on true", "{src}, unnest({r}.fld) as e9",
        "(select 1 as kk) k9, {src} cross join unnest({r}) e9",
    ):
        out.append(("from " + e, "select 1 from " + e, "", False))
    for e in ("unnest({r}) e9, {src}", "unnest([{r}]) cross join {src}", "unnest(f({r})) as e9 with offset join {src} on true"):
        out.append(("from " + e, "select 1 from " + e, "before", False))
    out.append(("from unnest in a subquery", S % "(select count(1) from unnest({r})), 1", "", False))
    # two clauses together, and the names of the select list
    out += [
        ("alias order", "select 1 as {n} from {src} order by {n}", "alias", False),
        ("alias group", "select f(1) as {n} from {src} group by {n}", "alias", False),
        ("alias distinct on", "select distinct on ({n}) 1 as {n} from {src}", "alias", False),
        ("alias distinct on 2", "select distinct on (1, f({n}), 2) f(2) {n}, 3 as q from {src} order by 1", "alias", False),
        ("alias order 2", "select 1 as q, f(2) as {n} from {src} where true order by 1, {n} desc limit 1", "alias", False),
        ("alias group 2", "select 1 as q, f(2) {n} from {src} group by 1, ({n})", "alias", False),
        ("alias where", "select 1 as {n} from {src} where {r} = 1", "", False),
        ("all", "select {r} from {src} where {r} = 1 group by {r} having {r} = 1 order by {r} limit 1", "having", False),
        ("other", "select 1 as q from {src} where true group by 1 order by {r} limit 1 offset 2", "out", False),
    ]
    return out


def star_refs(s):
    """(select list, wanted answer, name): the columns that EXCEPT and REPLACE name, and
    what stands in for them."""
    out = []
    for qual in [None] + sorted(set(s.quals())) + ["q9"]:
        items = [i for i in s.items if qual is None or i[0] == qual]
        star = ref_text(qual, "*")
        if qual and len(items) != 1:
            if not items and s.closed:
                out.append((star + " except (a)", REJECT if qual not in s.names() else UNSPEC, "q9"))
                out.append((star + " replace (1 as a)", REJECT if qual not in s.names() else UNSPEC, "q9"))
            continue
        have = [n for i in items for n, _ in i[1]]
        open_ = any(i[2] for i in items)
        for n in ("a", "b", "x", "z"):
            want = ACCEPT if open_ or n in have else REJECT
            out.append(("%s except (%s)" % (star, n), want, n))
            out.append(("%s replace (1 as %s)" % (star, n), want, n))
            if have:
                both = want if have[0] != n else UNSPEC
                out.append(("1, %s except (%s, %s)" % (star, have[0], n.upper()), both, n))
                out.append(("%s replace (f(1) as %s, 2 as `%s`), 1" % (star, have[0], n), both, n))
        if have:
            for q in (None, qual):
                for n in ("a", "b", "x", "z"):
                    want = lookup([s], q, n)[0]
                    out.append(("%s replace (f(1, %s) as %s)" % (star, ref_text(q, n), have[-1]), want, n))
    return out


def struct_star_refs(s):
    """(query, wanted answer, name): the fields of a struct are unknown, and the clauses
    that see the columns of the result can refer to each of them."""
    out = []
    for i in s.items:
        for c, t in i[1]:
            if t is not None or lookup([s], None, c)[0] != ACCEPT or c in s.quals():
                continue
            stars = ["%s.*" % c, "1, %s.* except (fld)" % c] + (["%s.%s.*" % (i[0], c)] if i[0] else [])
            for star in stars:
                for n in ("a", "z"):
                    if lookup([s], None, n)[0] == UNSPEC:
                        continue
                    out.append(("select %s from %s order by f(%s) desc" % (star, s.text, n), ACCEPT, n))
                    out.append(("select distinct on (%s) %s from %s" % (n, star, s.text), ACCEPT, n))
                    out.append(("select %s from (select %s from %s order by %s) q8" % (n, star, s.text, n), ACCEPT, n))
                    out.append(("select %s from %s where %s = 1" % (star, s.text, n), lookup([s], None, n)[0], n))
                    if i[0]:
                        out.append(("select %s from %s order by %s.%s" % (star, s.text, i[0], n), lookup([s], i[0], n)[0], n))
    return out


def using_refs(l, r):
    """(FROM text, wanted answer, name): columns of USING."""
    out = []
    l, r = [parens(i) if len(i.items) > 1 else i for i in (l, r)]
    for n in ("a", "b", "x", "z"):
        ls, rs = lookup([l], None, n)[0], lookup([r], None, n)[0]
        want = REJECT if REJECT in (ls, rs) else ACCEPT if ls == rs == ACCEPT else UNSPEC
        out.append(("%s join %s using (%s)" % (l.text, r.text, n), want, n))
        out.append(("%s left join %s using (%s)" % (l.text, r.text, n.upper()), want, n))
        c = [m for m in common(l, r) if m != n and l.names().count(m) == 1]
        if c and want != UNSPEC and lookup([l], None, c[0])[0] == ACCEPT == lookup([r], None, c[0])[0]:
            out.append(("%s full outer join %s using (%s, `%s`)" % (l.text, r.text, c[0], n), want, n))
    return out


PLACEHOLDERS = ("{p}", "%s", ":p", "?", "@p", "$1", "%(p)s")


def placeholder_refs(s):
    """References in which a placeholder stands for some part: nothing is known about them."""
    out = []
    for p in PLACEHOLDERS:
        out += [p] if p in ("?",) else [p, p + ".a", "q9." + p, p + "." + p, p + ".a.b", p + "[0]", p + ".a[0]"]
        for q in s.quals()[:1]:
            out.append("%s.%s" % (q, p))
        if p[-2:] != ")s":
            out += [p + "::int", p + "::Varchar(10)", p + "::int::text"]
    # values are no columns either, when they are cast
    for v in ("null", "TRUE", "false", "1", "1.5", "current_date", "Session_User"):
        out += [v + "::text", v + "::numeric(10, 2)", v + "::date::Text"]
    return out


CORE = ("select {r}", "select f(1, g({r}), 'v')", "where {r} = 1", "order by {r}", "group by {r}", "having 1 = {r}")


def universe(s):
    names = ["a", "b", "x", "z"]
    quals = [None] + sorted(set(q.lower() for q in s.quals())) + ["q9", "t"]
    seen = []
    for q in quals:
        for n in names:
            if (q, n) not in seen:
                seen.append((q, n))
    # aliases that stand for rows
    return seen + [(None, q) for q in quals[1:]]
