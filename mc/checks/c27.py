"""Equivalent ways of writing a query get the same verdict."""
import functools
import itertools
import re

from mc import judges

ID = "C27"
LEVEL = "model_checking"
RULE = (
    "W: every expansion of 29 query templates with up to 5 places where SQL offers equivalent spellings (AS or not, parentheses, quoting, qualification, "
    "JOIN words, comparison words, defaults written out, semicolons, commas or CROSS JOIN, derived table or WITH), x every spelling of 8 right and wrong references; "
    "P: every order of 3 (thorough also 4) of 10 right and wrong parts in 12 kinds of lists (select items, "
    "arguments, operands, IN lists, GROUP BY, CASE branches, DISTINCT ON), of 7 FROM items, of 6 queries in set operations, WITH and conditions; H: the queries of W and P in each of 20 places. "
    "All of a group must get one verdict, those of P and H also the same messages"
)
ASSUMES = ["the text of a message may name the column as it is written"]

SUB = "(select a, b, f(c) as d from t)"
# [x|y] offers a choice; {r} is the reference
TEMPLATES = [
    "select [|all ]{r}[| as k] from (select a, b, d from t)[ x| as x][|;]",
    "select [{r}|({r})|(({r}))] from [(select a, b, d from t)|(select b, d, a from t)|(select * from (select a, b, d from t))|(select t.a, `b`, (d) from t)] x where [1 = 1|true|(true)|not false]",
    "select 1 from (select a, b, d from t) x [join|inner join] (select e from u)[ y| as y] [on {r} = 1|on ({r} = 1)|on 1 = {r}|on {r} = (1)|on not {r} <> 1] [|where true]",
    "select 1 from (select a, b, d from t) x [left|left outer|right|right outer|full|full outer] join (select e from u) y on {r} = 1[|;]",
    "select {r} [from (select a, b, d from t) x, (select e from u) y|from (select a, b, d from t) x cross join (select e from u) y|from (select e from u) y, (select a, b, d from t) as x|from (select a, b, d from t) x join (select e from u) y on true|from ((select a, b, d from t) x cross join (select e from u) y)]",
    "[with x as (select a, b, d from t) select {r} from x|with X as (select a, b, d from t) select {r} from X][|;]",
    "select {r} from [(select a, b, d from t) x|(with w as (select 1 from z) select a, b, d from t) x|(with w as (select 1 from z), v as (select 2 from w) select a, b, d from v) as x][|;]",
    "select 1 from (select a, b, d from t) x where [{r} <> 1|{r} != 1|not {r} = 1|not ({r} = 1)|1 <> {r}|({r}) <> (1)] [and|or] [1 = 1|(1 = 1)|true]",
    "select 1 from (select a, b, d from t) x where [{r} between 1 and 2|({r}) between (1) and (2)|{r} >= 1 and {r} <= 2|1 between {r} and {r}|not {r} not between 1 and 2]",
    "select 1 from (select a, b, d from t) x where [{r} in (1, 2)|({r}) in (1, 2)|{r} in ((1), (2))|{r} = 1 or {r} = 2|({r} = 1) or ({r} = 2)|not {r} not in (1, 2)]",
    "select 1 from (select a, b, d from t) x where [{r} is null|({r}) is null|not {r} is not null|not ({r} is not null)]",
    "select 1 from (select a, b, d from t) x order by [{r}|{r} asc|({r})|({r}) asc|{r} desc|f({r})][, 1|, 1 desc|]",
    "select 1 from (select a, b, d from t) x group by [{r}|({r})|{r}, b|b, {r}|(b), ({r})][| having true| having 1 = 1| having (true)][| order by 1][| limit 1]",
    "select 1 from (select a, b, d from t) x [limit 1|limit (1)|limit 7|limit all][| offset 0| offset (1)] [|;]",
    "select [case when {r} = 1 then 2 else 3 end|case {r} when 1 then 2 else 3 end|if({r} = 1, 2, 3)|case when ({r} = 1) then (2) else (3) end|case when 1 = {r} then 2 when {r} = 4 then 5 end] from (select a, b, d from t) x",
    "select [cast({r} as string)|cast(({r}) as string)|(cast({r} as string))|CAST({r} AS STRING)] as s, [1|(1)|+1|-1] as i from (select a, b, d from t) [as ]x",
    "select [count({r})|count(({r}))|count(distinct {r})|sum({r}) over ()|sum({r}) filter (where true)|array_agg({r})|array_agg(distinct {r} order by {r})] from (select a, b, d from t) x",
    "select [sum(1) over (partition by {r})|sum(1) over (order by {r})|sum(1) over (order by {r} desc)|sum(1) over (partition by ({r}) order by b)|sum(1) over (partition by b, {r})] from (select a, b, d from t) x",
    "select 1 from v where [exists (select 1 from (select a, b, d from t) x where {r} = 1)|not exists(select 2 from (select a, b, d from t) x where 1 = {r})|1 in (select {r} from (select a, b, d from t) x)|(select {r} from (select a, b, d from t) x limit 1) = 1]",
    "[select {r} from (select a, b, d from t) x union all select 1 from u|select 1 from u union all select {r} from (select a, b, d from t) x|select {r} from (select a, b, d from t) x except distinct select 1 from u|select 1 from u intersect select {r} from (select a, b, d from t) x][| order by 1][| limit 2][|;]",
    "select {r} from [(select a, b, d from t) x|((select a, b, d from t)) x|(select a, b, d from t where true) x|(select a, b, d from t union select 1, 2, 3) x|(select distinct a, b, d from t limit 3) x|(select all a, b, d from t order by a) x|(select max(c) as a, b as b, (1) as d from t group by 2) x]",
    "select {r} from (select a, b, d from t) x [join u using (a)|natural join u|left join u on u.a = x.a|cross join u|join u using (a, b)|, u|, u where true|natural full join u|right join u on true]",
    "select [x.*|*|a, b, d|x.a, x.b, x.d], {r} from (select a, b, d from t) x",
    "select {r} from (select [a, b, d|b as a, a as b, d as d|1 a, 2 b, 3 d|f(1) as a, `x` as b, y.z as d|cast(a as date) as a, -1 as b, [1, 2\\] as d|case when q then 1 end as a, (select 1) as b, count(*) as d] from t) x",
    "select {r} from (select [a|`A`|\"A\"|A|1 as `A`|f(1) as \"A\"|b as A|x.`a`|x.\"A\"], b, [d|\"D\"|`D`|c as D] from (select a, b, c, d from t) x) x [|where {r} = 1|order by {r}]",
    "select {r} from (select [a, b, d|x.a, x.b, x.d|*|x.*|* except (e)|* replace (1 as a)] from (select a, b, d, e from t) x) x",
    "select {r} from (select a, b, d from t) [x|X|as x|AS X] where [{r} = {r}|({r} = {r})|{r} + 1 > {r} - 1|f({r}) = {r} * 2|{r} || {r} = 'q'|-{r} < {r}]",
    "with [w as (select 1 from z)|`w` as (select 2 from z)|\"w\" as (select 1)|w as (select 1), `v` as (select 2 from w)|`v` as (select 1), w as (select 3 from `v`)] select {r} from (select a, b, d from [w|`w`|`w` as k]) x",
    "select {r} from (select a, b, d from [unnest(f(1))|unnest(f(1)) e|unnest(f(1)) as `e`|unnest(f(1)) e with offset|unnest(f(1)) as e with offset o|unnest(f(1)) e with offset as `o`|unnest(f(1)) with offset `o`|t, unnest(f(1)) with offset as `o`|unnest(f(1)) e with offset `o` cross join t]) x",
    "select [f({r})|f(1, {r})|f(({r}))|f(f({r}))|[{r}\\]|g([1, {r}\\])|struct({r} as k)|extract(day from {r})|{r}[0\\]|f(b)[{r}\\]] as z from (select a, b, d from t) x",
]
# (spellings of the same column)
REFS = [["a", "x.a", "`a`", "A", "X.a", "x.`a`", "`x`.a", 'x."a"', 'x."A"', "X.`A`"], ["d", "x.d", '"d"'], ["zz", "`zz`", "ZZ"], ["x.zz", "X.ZZ", "x.`zz`"], ["b", "x.b"], ["q.a", "q.`a`"], ["'s'", '\'t u\''], ["f(b)", "f(x.b)", "F(B)"]]


def split(tpl):
    """[fixed, [choices], fixed, ...]; a backslash takes the next character literally"""
    out, cur, choice = [], "", None
    i = 0
    depth = 0
    while i < len(tpl):
        c = tpl[i]
        if c == "\\":
            i += 1
            cur += tpl[i]
        elif c == "[" and choice is None and not re.match(r"\[(\d|{r}\\)", tpl[i:]):
            out.append([cur])
            cur, choice = "", []
        elif c == "|" and choice is not None and tpl[i : i + 2] != "||" and tpl[i - 1 : i + 1] != "||":
            choice.append(cur)
            cur = ""
        elif c == "]" and choice is not None:
            choice.append(cur)
            out.append(choice)
            cur, choice = "", None
        else:
            cur += c
        i += 1
    assert choice is None, tpl
    return out + [[cur]]


@functools.lru_cache(maxsize=None)
def outcome(sql):
    v, errors = judges.verdict(sql)
    return v, len(errors), sorted(errors)


def expansions(tpl, spellings):
    """every choice of the template with the first spelling, every spelling with the first choices"""
    parts = split(tpl)
    for s in spellings:
        for combo in itertools.product(*parts):
            yield "".join(combo).replace("{r}", s)


def judge(inp):
    a, b = outcome(inp["one"]), outcome(inp["other"])
    if inp["messages"]:
        if a != b:
            return "not judged alike: %r, but %r for\n%s" % (b, a, inp["one"])
    elif a[0] != b[0]:
        return "not judged alike: %r, but %r for\n%s" % (b, a, inp["one"])


replay = judge


# ---------------------------------------------------------------- orders
LISTS = [
    ("select %s from (select a, b from t) x", ", "),
    ("select f(%s) from (select a, b from t) x", ", "),
    ("select 1 from (select a, b from t) x where %s", " and "),
    ("select 1 from (select a, b from t) x where 1 = 1 and (%s)", " or "),
    ("select 1 from (select a, b from t) x where a in (%s)", ", "),
    ("select 1 from (select a, b from t) x group by b having f(%s) = 1", ", "),
    ("select array[%s], 1 from (select a, b from t) x", ", "),
    ("select 1 from (select a, b from t) x order by f(%s)", ", "),
    ("select sum(1) over (partition by %s) from (select a, b from t) x", ", "),
    ("select case when %s then 1 end from (select a, b from t) x", " then 1 when "),
    ("select concat(%s) from (select a, b from t) x", " || "),
    ("select distinct on (%s) 1 from (select a, b from t) x", ", "),
]
PARTS = ["a", "x.b", "zz", "x.zz", "f(a)", "f(yy)", "(select max(c) from (select d from t) s)", "a = 1", "case when b then ww end", "s.a"]
SOURCES = ["(select a, b from t) x", "u", "(select zz from (select a from t) s) y", "(select 1 from t group by 7) z", "unnest([1, 2]) as e", "v as w", "(select c from v limit -1) q"]
FROMS = [("select 1 from %s", ", "), ("select 1 from %s", " cross join "), ("select 1 from %s where 1 = 1 limit 1", ", "), ("select 1 from (select 2 from %s) k", ", ")]
QUERIES = ["select a from t", "select zz from (select a from t) x", "select 1 from t group by 3", "select b from u where 'x'", "select c from v group by 0", "select d, d from (select d from t) y"]
UNIONS = [" union all ", " union ", " intersect "]


def orders(big):
    if big:
        yield from orders(False)
    n = 4 if big else 3
    for tpl, sep in LISTS:
        boolean = " and " in sep or " or " in sep or "when" in sep
        pool = ["%s = 1" % p if boolean and "=" not in p else "(%s)" % p if "||" in sep and "=" in p else p for p in PARTS]
        for combo in itertools.combinations(pool, n):
            yield [tpl.replace("%s", sep.join(p)) for p in itertools.permutations(combo)]
    for tpl, sep in FROMS:
        for combo in itertools.combinations(SOURCES, n):
            yield [tpl.replace("%s", sep.join(p)) for p in itertools.permutations(combo)]
    for sep in UNIONS:
        for combo in itertools.combinations(QUERIES, n):
            yield [sep.join(p) for p in itertools.permutations(combo)]
            yield ["select 1 from (%s) x" % sep.join(p) for p in itertools.permutations(combo)]
    for combo in itertools.combinations(list(enumerate(QUERIES)), n):
        yield ["with %s select 1 from w" % ", ".join("w%d as (%s)" % q for q in p) for p in itertools.permutations(combo)]
        yield ["select 1 from k where %s" % " and ".join("exists (%s)" % q for _, q in p) for p in itertools.permutations(combo)]


# ---------------------------------------------------------------- places
# hosts without columns of their own that the query could refer to
HOSTS = [
    "select * from ({q})",
    "select 1 from ({q}) x0",
    "select x0.* from ({q}) as x0 where true",
    "select 1 from (select 2 from ({q}) x0) y0",
    "select 1 from (select * from ({q})) y0",
    "select * from k join ({q}) x0 on true",
    "select 1 from ({q}) x0 cross join k",
    "select 1 from k, ({q}) x0, v",
    "with w0 as ({q}) select * from w0",
    "with w0 as ({q}) select 1 from k",
    "with v0 as (select 1 from k), w0 as ({q}), y0 as (select 2) select 1 from w0, y0",
    "select 1 from k union all select 2 from ({q}) x0",
    "select 1 from ({q}) x0 union select 2 from k except select 3",
    "select ({q}) as k",
    "select 1, exists ({q})",
    "select f(1, ({q}))",
    "select 1 in ({q})",
    "select array({q}) as k",
    "select case when exists ({q}) then 1 end",
    "select 1 where 1 = ({q}) or exists ({q0})",
]


def placed(big):
    for tpl in TEMPLATES:
        parts = split(tpl)
        if tpl.startswith("[with"):
            continue
        for spellings in REFS:
            for s in spellings:
                for choice in range(max(map(len, parts)) if big else 2):
                    yield "".join(p[choice % len(p)] for p in parts).replace("{r}", s)
    for n, group in enumerate(orders(big)):
        if big or n % 3 == 0:
            yield group[n % len(group)]


def shards(tier):
    big = tier == "thorough"
    out = [("W", i, big) for i in range(len(TEMPLATES))] + [("H", i, big) for i in range(16)]
    return out + [("P", i, big) for i in range(16)]


def explore(desc, rec):
    kind, i, big = desc
    if kind == "W":
        for spellings in REFS:
            first = None
            for sql in expansions(TEMPLATES[i], spellings):
                first = first or sql
                rec.states += 1
                rec.transitions += 1
                inp = {"one": first, "other": sql, "messages": False}
                rec.run(inp, lambda: judge(inp), True)
    elif kind == "H":
        for n, sql in enumerate(itertools.islice(placed(big), i, None, 16)):
            sql = sql.rstrip(";")
            if sql.startswith("with"):
                continue
            for host in HOSTS:
                rec.states += 1
                rec.transitions += 1
                inp = {"one": sql, "other": host.replace("{q0}", "select 1").replace("{q}", sql), "messages": True}
                rec.run(inp, lambda: judge(inp), True)
    else:
        for group in itertools.islice(orders(big), i, None, 16):
            for sql in group[1:]:
                rec.states += 1
                rec.transitions += 1
                inp = {"one": group[0], "other": sql, "messages": True}
                rec.run(inp, lambda: judge(inp), True)
