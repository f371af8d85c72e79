"""An error in any part of a query is reported wherever the part stands."""
import re

from mc.judges import verdict

ID = "C12"
LEVEL = "model_checking"
RULE = (
    "nesting machine: state = a query text with the errors it must report; transition = put it into a hole of one of the "
    "embedding templates (FROM items of every alias form, both sides of every join kind and set operator, WITH queries and "
    "bodies, conditions of every clause, scalar subqueries in every expression form), the other holes holding every correct "
    "or wrong sibling; all paths up to the depth bound. The real validator must report every message of each part, and must "
    "report nothing exactly when all parts are correct"
)
ASSUMES = ["the outer queries around subqueries in conditions are closed, so that a missing column stays missing"]

# every query selects one column a; no part refers to an outer query
RIGHT = [
    "select a from t",
    "select 1 as a",
    "select s.a from (select a, b from t where b = 1) as s group by 1 order by a desc, 1 limit 3 offset 2",
]
WRONG = {
    "select z as a from (select a from t) w1": "z",
    "select a from (select a from t) w2 where w2.y = 1": "y",
    "select 1 as a from t limit x": "LIMIT",
    "select a from t limit -1": "LIMIT",
    "select a from t offset 'v'": "OFFSET",
    "select a from t offset -2": "OFFSET",
    "select a from t group by 2": "GROUP BY position 2",
    "select a from t order by 3": "ORDER BY position 3",
    "select a from t where 1": "WHERE",
    "select a from t having 'v'": "HAVING",
    "select a from t where a = 1 and 2.5": "AND",
    "select a from t where 'v' or a": "OR",
    "select t.a from t join u": "ON",
    "select t.a from t left join (select 1 as b) u on t.a = 1 inner join v": "ON",
    "select a from (select a from t) w3 group by q": "q",
    "select a from (select a from t) w4 order by v": "v",
    "select a from (select a from t) w5 having y = 1": "y",
    "select f(p) as a from (select a from t) w6": "p",
    "select distinct on (dd) a from (select a from t) w7": "dd",
    "select w8.a from (select a from t) w8 join (select a as b from t) v8 using (b)": "b",
    "select * except (ee) from (select a from t) w9": "ee",
    "select * replace (f(rr) as a) from (select a from t) w10": "rr",
    "select c[ii] as a from (select c from t) w11": "ii",
    "select lib.f(1, qq) as a from (select c from t) w12": "qq",
    "select sum(1) over (order by oo) as a from (select c from t) w13": "oo",
    "select w14.nn.f as a from (select c from t) w14": "nn",
}

# embeddings: {q} the part under test, {o} a sibling; the result selects one column a
UNARY = [
    "select a from ({q})",
    "select a from ({q}) as s1",
    "select s1.a from ({q}) s1 where true",
    "select a from (({q})) as s2",
    "select distinct a as a from ({q}) s3 order by 1",
    "select * from ({q}) s4",
    "select k.a from (select a from t) k where exists ({q})",
    "select k.a from (select a from t) k where not exists ({q})",
    "select a from (select a from t) k where a in ({q})",
    "select a from (select a from t) k where a not in ({q})",
    "select a from (select a from t) k where a = ({q}) and true",
    "select a from (select a from t) k where true and (false or ({q}) > 1)",
    "select a from (select a from t) k where ({q}) between 1 and 2",
    "select a from (select a from t) k where 1 between ({q}) and 2",
    "select a from (select a from t) k where 1 between 0 and ({q})",
    "select a from (select a from t) k where ({q}) is null",
    "select a from (select a from t) k where f(({q}))",
    "select a from (select a from t) k where not a = ({q})",
    "select a from (select a from t) k group by a having max(a) > ({q})",
    "select a from (select a from t) k group by 1 having a in ({q})",
    "select a from (select a from t) k group by ({q})",
    "select a from (select a from t) k group by 1, f(({q}))",
    "select a from (select a from t) k order by ({q})",
    "select a from (select a from t) k order by f(({q})) desc, 1",
    "select s1.a from (select a from t) s1 join (select a as b from t) s2 on s1.a in ({q})",
    "select s1.a from (select a from t) s1 left join (select a as b from t) s2 on true and exists ({q}) cross join u",
    "select s2.a from (select a as c from u) u, (select a from t) s2 full outer join (select a as b from t) s3 on f(({q})) = 1",
    "select ({q}) as a",
    "select ({q}) as a, 2 as b from (select a from t) k",
    "select f(1, ({q})) as a from (select a from t) k",
    "select count(({q})) as a",
    "select cast(({q}) as int) as a",
    "select array({q}) as a",
    "select ({q}) = 1 as a",
    "select 1 in ({q}) as a",
    "select ({q}) + 1 as a",
    "select 2 * ({q}) as a",
    "select -({q}) as a",
    "select ({q}) || 'v' as a",
    "select [1, ({q})] as a",
    "select f(({q}))[0] as a",
    "select case when ({q}) = 1 then 1 end as a",
    "select case when true then ({q}) end as a",
    "select case when true then 1 else ({q}) end as a",
    "select case ({q}) when 1 then 2 end as a",
    "select case 1 when ({q}) then 2 end as a",
    "select case 1 when 2 then 3 else ({q}) end as a",
    "select case 1 when 2 then 3 when 4 then ({q}) else 5 end as a",
    "select case when true then 1 when exists ({q}) then 2 else 3 end as a",
    "select c[0, ({q})] as a from (select c from t) k",
    "select net.f(1)[0][({q})] as a",
    "select net.f(1)[({q})][0] as a",
    "select f(1)[0][({q})] as a",
    "select a::varchar(3), ({q}) as b from (select a from t) k",
    "select c[0][({q})] as a from (select c from t) k",
    "select c.d[0][({q})].e as a from (select c from t) k",
    "select 1 << ({q}) as a",
    "select ({q}) >> 1 as a",
    "select 1 & ({q}) as a",
    "select 2 | ({q}) as a",
    "select 2 ^ ({q}) as a",
    "select [1][({q})] as a",
    "select f(1, [2, ({q})]) as a",
    "select - - ({q}) as a",
    "select lib.f(1, ({q})) as a",
    "select array_agg(1 order by ({q})) as a",
    "select count(distinct ({q})) as a",
    "select count(distinct 1, ({q})) as a",
    "select rank() over (partition by 1, ({q}) order by 2) as a",
    "select rank() over (partition by 1 order by 2, ({q}) desc) as a",
    "select distinct on (({q})) a from (select a from t) k",
    "select distinct on (1, ({q})) a from (select a from t) k",
    "select * replace (({q}) as a) from (select a from t) k",
    "select ({q}) like 'v' as a",
    "select 1 is not null and ({q}) != 2 as a",
    "select a from (select a from t) k group by rollup (a, ({q}))",
    "select sum(({q})) over (partition by 1) as a",
    "select a from unnest(({q})) e",
    "select a from unnest(array({q}))",
    "select k.a from (select a from t) k, unnest([1, ({q})]) as e with offset as o",
    "select k.a from (select a from t) k cross join unnest(f(({q}))) e left join unnest([1]) g on true",
    "select k.a from (select a from t) k where k.a in unnest(({q}))",
    "select cast(1 = ({q}) and true as bool) as a",
    "select rank() over (partition by ({q})) as a",
    "select rank() over (order by ({q})) as a",
    "select sum(1) filter (where exists ({q})) as a",
    "select array_agg(({q})) as a",
    "select extract(year from ({q})) as a",
    "with w as ({q}) select a from w",
    "with w as ({q}) select 1 as a",
    "select a from (with w as ({q}) select a from w) s5",
]
BINARY = [
    "{q} union all {o}",
    "{o} union distinct {q}",
    "{o} intersect all {q}",
    "{q} except {o}",
    "{o} union {o2} union {q}",
    "{o} union {q} except {o2}",
    "select a from ({q} union all {o})",
    "select a from ({o} union all {q}) as s1",
    "{o} union all ({q})",
    "{q} union all ({o}) union ({o2})",
    "{o} except ({o2}) intersect ({q})",
    "select a from (({q}) union all ({o})) s1",
    "select a from (({o}) union distinct ({q}))",
    "select a from (({o}) except ({o2}) union ({q})) as s1",
    "select s1.a from (({q}) intersect ({o})) s1 join t on true",
    "select s1.a from t, (({o}) union all ({q})) as s1",
    "with w as ({o} union all ({q})) select a from w",
    "select a from (select a from t) k where exists ({o} union all ({q}))",
    "select s1.a from ({q}) s1 join ({o}) s2 on s1.a = s2.a",
    "select s1.a from ({o}) s1 left join ({q}) s2 using (a)",
    "select s1.a from ({o}) s1 cross join ({q}) s2",
    "select s1.a from ({q}) s1, ({o}) s2",
    "select s2.a from ({o}) s1, ({q}) s2",
    "select a from ({o}) s1 natural join ({q}) s2",
    "select s1.a from ({o}) s1 full outer join ({o2}) s2 on s1.a = 1 join ({q}) s3 on true",
    "select s1.a from ({q}) s1 join ({o}) s2 using (a) cross join ({o2}) s3",
    "select s1.a from ({o}) s1 join (({q}) s2 cross join ({o2}) s3) on 1 = 1",
    "select t.a from t cross join ({q}) s1 inner join ({o}) s2 on true",
    "with w as ({q}), v as ({o}) select a from v",
    "with w as ({o}), v as ({q}) select a from w",
    "with w as ({o}) {q}",
    "with w as ({o}), v as ({o2}) {q}",
    "select a from ({o}) k where a in ({q})",
    "select a from ({q}) k where exists ({o})",
    "select ({q}) as a from ({o}) k",
    "select ({o}) as a from ({q}) k",
    "select case when exists ({o}) then ({q}) end as a",
    "select f(({o}), ({q})) as a",
]


FROM_HOLE = re.compile(r"((?<!year )from \(?|join \(?|s1, |s2, | as )$")


def compose(tpl, parts):
    for k, v in parts.items():
        tpl = tpl.replace("{%s}" % k, v)
    return tpl


def set_chain(text):
    """Whether a text can stand where only a plain SELECT (not WITH, no set operator
    and nothing ORDER BY would belong to) can."""
    flat = strip_parens(text)
    return any(w in flat for w in (" union ", " intersect ", " except ", " order by ", " limit ", " offset ")) or flat.startswith(
        "with "
    )


def strip_parens(text):
    out, depth = [], 0
    for c in text:
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
        elif not depth:
            out.append(c)
    return "".join(out)


def admissible(tpl, parts):
    """A hole that is not alone in its parentheses takes plain queries only; a body of
    WITH takes everything but another WITH."""
    for k, v in parts.items():
        hole = "{%s}" % k
        if v.startswith("with ") and not FROM_HOLE.search(tpl.split("(" + hole)[0]):
            return False  # the dialect has WITH in FROM and WITH only
        if "(%s)" % hole in tpl:
            continue
        if tpl.startswith("with ") and tpl.endswith(") " + hole):
            if strip_parens(v).startswith("with "):
                return False
        elif set_chain(v):
            return False
    return True


def judge(inp):
    v, errors = verdict(inp["sql"])
    if not inp["parts"]:
        return None if v else "all parts are correct, but reported: %r" % (errors,)
    if v:
        return "an error of a part is not reported"
    for part in inp["parts"]:
        for m in messages(part):
            if m not in errors:
                return "the message %r of the part %r is missing in %r" % (m, part, errors)
    extra = [e for e in errors if not any(e in messages(p) for p in inp["parts"])]
    if extra:
        return "reported without cause: %r" % (extra,)
    return None


replay = judge
_cache = {}


def messages(part):
    if part not in _cache:
        v, errors = verdict(part)
        _cache[part] = errors
    return _cache[part]


def shards(tier):
    n = len(UNARY) + len(BINARY)
    depth = 2 if tier == "quick" else 3
    return [("base", 0, 0, tier)] + [("nest", i, depth, tier) for i in range(n)]


def steps(parts, tpl_index, siblings):
    """All transitions of one embedding from the part (text, wrong parts)."""
    text, wrong = parts
    if tpl_index < len(UNARY):
        tpl = UNARY[tpl_index]
        if admissible(tpl, {"q": text}):
            yield compose(tpl, {"q": text}), wrong
        return
    tpl = BINARY[tpl_index - len(UNARY)]
    for o in siblings:
        for o2 in siblings if "{o2}" in tpl else [None]:
            ps = {"q": text, "o": o}
            if o2:
                ps["o2"] = o2
            if admissible(tpl, ps):
                w = list(wrong)
                for x in (o, o2):
                    if x in WRONG and x not in w:
                        w.append(x)
                yield compose(tpl, ps), w


def run(rec, text, wrong):
    rec.states += 1
    inp = {"sql": text, "parts": wrong}
    rec.run(inp, lambda: judge(inp))


def explore(desc, rec):
    family, first, depth, tier = desc
    wrong = list(WRONG)
    base = [(r, []) for r in RIGHT] + [(w, [w]) for w in wrong]
    n = len(UNARY) + len(BINARY)
    if family == "base":
        for text, w in base:
            run(rec, text, w)
            if w and not any(WRONG[text].lower() in e.lower() for e in messages(text)):
                rec.violation({"sql": text, "parts": w}, "not reported: %r" % (messages(text),))
        # layouts of the outermost query
        for text, w in base:
            for t in (text + ";", text.upper().replace("'V'", "'v'"), "\n" + text.replace(" ", "\n")):
                v, errors = verdict(t)
                inp = {"sql": t, "parts": []}
                if w and v:
                    rec.violation({"sql": t, "parts": w}, "an error is not reported")
                elif not w:
                    run(rec, t, [])
        return
    sib1 = [RIGHT[0], RIGHT[1], wrong[0], wrong[7], wrong[12], wrong[3]]
    sib2 = [RIGHT[0], wrong[8]]
    level = []
    for b in base:
        for s in steps(b, first, sib1):
            rec.transitions += 1
            run(rec, *s)
            level.append(s)
    # deeper: a representative of every kind of content, in every embedding
    keep, seen = [], set()
    for text, w in level:
        kinds = tuple(sorted(w))
        if len(w) > 1 or (w and tier == "quick" and wrong.index(w[0]) not in (0, 2, 7, 8, 12, 14)):
            continue
        if kinds in seen:
            continue
        seen.add(kinds)
        keep.append((text, w))
    for second in range(n):
        nxt = []
        for part in keep:
            for s in steps(part, second, sib2):
                rec.transitions += 1
                run(rec, *s)
                nxt.append(s)
        if depth < 3:
            continue
        keep3, seen3 = [], set()
        for text, w in nxt:
            if len(w) > 1 or (w and wrong.index(w[0]) not in (0, 2, 7, 12)):
                continue
            if tuple(w) in seen3:
                continue
            seen3.add(tuple(w))
            keep3.append((text, w))
        for third in range(n):
            for part in keep3:
                for s in steps(part, third, [RIGHT[0]]):
                    rec.transitions += 1
                    run(rec, *s)
