"""Columns are resolved by SQL's scope rules."""
from mc import scope as sc
from mc.judges import verdict

ID = "C09"
LEVEL = "model_checking"
RULE = (
    "machine of nested scopes: every source up to the nesting bound (level-0 queries, alias forms, joins of each kind, "
    "stars with EXCEPT/REPLACE, set operators, WITH) x every reference of the name universe (plain, qualified by every "
    "visible, hidden or unknown alias, three spellings) x every clause template; correlated queries: outer source x inner "
    "source x reference x place; siblings in FROM, set operators and WITH; arrays of UNNEST, which see what precedes them; EXCEPT, REPLACE, USING and DISTINCT ON; placeholders in each part of a qualified name; stars over structs. The reference model of name resolution decides "
    "accept (no error at all), reject (an error naming the column) or unspecified; each run is replayed on the real validator"
)
ASSUMES = [
    "ambiguous columns, struct fields that share a name with an alias, and qualified references past an open table are unspecified"
]


def small(level, big):
    """Sources standing for all shapes, for the pair spaces."""
    one = sc.sources(1, False)
    out = list(sc.sources(0, False))[:2] + list(one[:24])
    if not big:
        out = out[1:3] + [s for i, s in enumerate(one[:24]) if i in (1, 2, 5, 7, 9, 12, 17, 19, 20, 23)]
    out += [s for i, s in enumerate(one[24:]) if i % (45 if big else 97) == 0]
    if level > 1:
        two = sc.sources(2, False)
        out += two[:: max(1, len(two) // (20 if big else 6))]
    return out


def nested(big):
    return sc.sources(2, big)[:: 4 if big else 1]


PLACES = [
    ("exists", "select 1 from {o} where exists (select 1 from {i} where {r} = 1)"),
    ("exists list", "select 1 from {o} where not exists (select {r} from {i})"),
    ("in", "select 1 from {o} where 1 in (select f({r}) from {i})"),
    ("compare", "select 1 from {o} where (select max({r}) from {i}) = 1 and true"),
    ("select list", "select (select {r} from {i} limit 1) as q from {o}"),
    ("function", "select f(1, (select 1 from {i} order by {r})) from {o}"),
    ("case", "select case when exists (select 1 from {i} having {r} = 1) then 1 end from {o}"),
    ("having", "select 1 from {o} group by 1 having 1 < (select 1 from {i} where f({r}))"),
    ("order", "select 1 from {o} order by (select {r} + 1 from {i})"),
    ("on", "select 1 from {o} where exists (select 1 from {i} join (select 1 as k) kk on {r} = 1 and true)"),
    ("deeper", "select 1 from {o} where exists (select 1 from (select 1 as k) kk where exists (select 1 from {i} where {r} = 1))"),
]
PLACES += [
    ("set", "select 1 from {o} where exists (select 1 from (select 1 as k) kk union all select {r} from {i})"),
    ("set first", "select 1 from {o} where 1 in (select 1 from {i} where f({r}) = 1 except distinct select 2)"),
    ("set third", "select 1 from {o} where 1 < (select 1 union select 2 from (select 1 as k) kk union all select 3 from {i} having 1 = {r})"),
    ("set list", "select 1, exists (select 1 intersect select f({r}) from {i}) as e from {o}"),
    ("set paren", "select 1 from {o} where exists (select 1 from (select 1 as k) kk union all (select {r} from {i} limit 1))"),
    ("unnest", "select 1 from {o} where exists (select 1 from {i}, unnest({r}) as e9)"),
    ("replace", "select (select max(kk.k) from {i} where {r} = 1) as m, 2 as n from {o}, (select 1 as k) kk"),
]
K1 = sc.Src("(select 1 as k) kk", [("kk", (("k", "int"),), False)])

SIBLINGS = [
    # (template, which scopes the reference sees)
    ("select 1 from {o}, (select {r} from {i}) vv", "i"),
    ("select 1 from {o} cross join (select 1 from {i} where {r} = 1) as vv", "i"),
    ("select 1 from (select 1 from {i} where f({r})) as vv, {o}", "i"),
    ("select 1 from (select {r} from {i}) vv where exists (select 1 from {o})", "i"),
    ("select {r} from {i} union all select 1 from {o}", "i"),
    ("select 1 from {o} union distinct select {r} from {i}", "i"),
    ("select 1 from {o} intersect select 1 from {i} where {r} = 1", "i"),
    ("select 1 from (select 1 from {o} union all select {r} from {i}) vv", "i"),
    ("select 1 from {o} where exists (select 1 from (select {r} from {i}) vv)", "i"),
    ("with ww as (select {r} from {i}) select 1 from {o}", "i"),
    ("with ww as (select 1 from {o}), vv as (select 1 from {i} where {r} = 1) select 1 from ww", "i"),
    ("with ww as (select 1 from {o}) select {r} from {i}", "i"),
    ("select 1 from {o}, (with ww as (select {r} from {i}) select 1 from ww) vv", "i"),
    ("with ww as (select 1 from {o}) select 1 from {i} where exists (select 1 from ww) and {r} is null", "i"),
]


def judge(inp):
    want = inp["want"]
    v, errors = verdict(inp["sql"])
    if want == "accept" and errors:
        return "every column is provided, but reported: %r" % (errors,)
    if want == "reject":
        if v or not errors:
            return "column %s is provided by no source, but not reported" % inp["name"]
        if not any(inp["name"] in e.lower() for e in errors):
            return "the missing column %s is not named: %r" % (inp["name"], errors)
    return None


replay = judge


def spellings(qual, name, all_):
    yield sc.ref_text(qual, name)
    if all_:
        yield sc.ref_text(qual and qual.upper(), name.upper())
        yield sc.ref_text(qual, "`%s`" % name)


def shards(tier):
    big = tier == "thorough"
    out = []
    n1 = len(sc.sources(0, False)) + len(sc.sources(1, big))
    step = 40
    out += [("scopes", 1, big, i, i + step) for i in range(0, n1, step)]
    n2 = len(nested(big))
    step = 400
    out += [("nested", 2, big, i, i + step) for i in range(0, n2, step)]
    if big:
        n3 = len(sc.sources(3, False))
        out += [("nested", 3, False, i, i + 2000) for i in range(0, n3, 2000)]
    m = len(small(2, big))
    out += [("pairs", 2, big, i, i + 1) for i in range(m)]
    out += [("setorder", 1, big, 0, 0)]
    return out


def run(rec, sql, want, name):
    rec.transitions += 1
    rec.outcomes[want] += 1
    if want == sc.UNSPEC:
        return
    inp = {"sql": sql, "want": want, "name": name}
    rec.run(inp, lambda: judge(inp))


def explore(desc, rec):
    family, level, big, lo, hi = desc
    cl = sc.clauses()
    if family in ("scopes", "nested"):
        if family == "scopes":
            srcs = (sc.sources(0, False) + sc.sources(1, big))[lo:hi]
            core = [c for c in cl if c[0] in sc.CORE]
        else:
            srcs = (nested(big) if level == 2 else sc.sources(level, big))[lo:hi]
            core = [c for c in cl if c[0] in (sc.CORE[:3] if level == 3 else sc.CORE)]
        for k, s in enumerate(srcs):
            rec.states += 1
            for e, want, n in sc.star_refs(s):
                rec.states += 1
                run(rec, "select %s from %s" % (e, s.text), want, n)
                if big:
                    run(rec, "select a from (select %s from %s) q8 union all select 1" % (e, s.text), want if want == sc.REJECT else sc.UNSPEC, n)
            for sql, want, n in sc.struct_star_refs(s):
                run(rec, sql, want, n)
            universe = sc.universe(s)
            if family == "scopes" and (k < 27 and not lo or (lo + k) % 31 == 0):
                for ref in sc.placeholder_refs(s):
                    for name, tpl, rule, boolean in core:
                        run(rec, tpl.replace("{src}", s.text).replace("{r}", ref), sc.ACCEPT, ref)
            for q, n in universe:
                rec.states += 1
                want, typ = sc.lookup([s], q, n)
                typed = any(m == n and t not in (None, "bool") for i in s.items for m, t in i[1])
                todo = cl if family == "scopes" and (big or k < 27 and not lo or (lo + k) % 31 == 0) else core
                if todo is core and not big:
                    todo = [core[(k + j) % len(core)] for j in ((0, 1, 2) if family == "scopes" else (0,))]
                for name, tpl, rule, boolean in todo:
                    w = want
                    if rule == "alias":
                        if q is not None:
                            continue
                        w = sc.ACCEPT
                    if rule == "before":  # FROM is seen from left to right
                        w = sc.REJECT
                    if boolean and want == sc.ACCEPT and typed:
                        continue  # C11
                    if q is None and n in s.quals() and ".fld" in tpl:
                        continue  # a column of the row
                    full = family == "scopes" and name in ("select {r}", "where {r} = 1", "order by {r}")
                    for r in spellings(q, n, full):
                        run(rec, tpl.replace("{src}", s.text).replace("{r}", r).replace("{n}", n), w, n)
    elif family == "pairs":
        srcs = small(level, big)
        i = srcs[lo]
        for oi, o in enumerate(srcs):
            rec.states += 1
            # quick: every place and sibling with half of the pairs
            places, siblings = (PLACES, SIBLINGS) if big else (PLACES[(lo + oi) % 2 :: 2], SIBLINGS[(lo + oi) % 2 :: 2])
            for frm, want, n in sc.using_refs(o, i):
                run(rec, "select 1 from " + frm, want, n)
                if big:
                    run(rec, "select 1 from (select 1 as k) kk cross join (%s)" % frm, want, n)
            universe = sorted(set(sc.universe(o)) | set(sc.universe(i)), key=str)
            for q, n in universe:
                for name, tpl in places:
                    scopes = [i, K1, o] if name == "deeper" else [i, o]
                    if name == "replace":
                        scopes = [i, sc.Src("", o.items + K1.items, o.merged)]
                    if name == "on":
                        scopes = [sc.Src("", i.items + K1.items, i.merged), o]
                    want, _ = sc.lookup(scopes, q, n)
                    r = sc.ref_text(q, n)
                    run(rec, tpl.replace("{o}", o.text).replace("{i}", i.text).replace("{r}", r), want, n)
                if not big and (n == "b" or q in ("t", "q9")):
                    continue
                want, _ = sc.lookup([i], q, n)
                for tpl, _ in siblings:
                    r = sc.ref_text(q, n)
                    run(rec, tpl.replace("{o}", o.text).replace("{i}", i.text).replace("{r}", r), want, n)
    else:
        # what ORDER BY sees after a set operator: the columns of the first query
        firsts = sc.queries(1, big)
        for k, f in enumerate(firsts):
            if not big and k % 8:
                continue
            if " union " in f.text or " except distinct " in f.text or f.text.startswith("with"):
                continue
            rec.states += 1
            for n in ("a", "b", "x", "z"):
                for second in ("select 1 as z from u", "select z, b, a from u"):
                    cols = [c for c, _ in f.cols]
                    want = sc.ACCEPT if cols.count(n) == 1 else sc.UNSPEC
                    run(rec, "%s union all %s order by %s" % (f.text, second, n), want, n)
                # and what is provided to a query around it
                s = sc.sub(f, "s")
                for around, q in (
                    ("select {r} from (%s union all select 1 from u) s", "s"),
                    ("select {r} from (%s except select z as z from u) as s where {r} = 1", "s"),
                    ("select 1 from (with w as (select 1 as z) %s) s order by {r}", "s"),
                    ("with w as (select 1 as z) select {r} from (%s) s", "s"),
                ):
                    for qual in (None, "s", "u"):
                        want, _ = sc.lookup([s], qual, n)
                        run(rec, around.replace("%s", f.text).replace("{r}", sc.ref_text(qual, n)), want, n)
