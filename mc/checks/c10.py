"""Positions, LIMIT and OFFSET are checked exactly."""
import itertools

from mc.judges import verdict

ID = "C10"
LEVEL = "model_checking"
RULE = (
    "positions: select lists of 1..N expressions of every shape (with and without a star, star-like functions, EXCEPT, "
    "REPLACE, qualified star) x clause (GROUP BY and ORDER BY forms, ROLLUP, EACH, directions, parentheses, in lists) x "
    "every position from -2 to N+2 and spellings beyond; pairs of positions; LIMIT/OFFSET values of every form, alone and "
    "combined; every case at top level and in every embedding (subquery, join side, set operator side, WITH, condition). "
    "The model counts the select list; the real validator must report the position, LIMIT or OFFSET exactly when the model does"
)
ASSUMES = ["LIMIT and OFFSET take integer literals and placeholders; the verdict on arithmetic, functions, NULL and subqueries is unspecified"]

ITEMS = ["a", "b as c", "count(*)", "t.c", "f(a, b)", "1", "a * b", "case when a then 1 end", "(select 1)", "[1, 2]", "'v' x"]
STARS = ["*", "t.*", "* except (a)", "* replace (1 as a)", "t.* except (a, b)"]

EMBED = [
    ("top", "{q}", True),
    ("semi", "{q};", True),
    ("sub", "select 1 from ({q}) s", True),
    ("join", "select 1 from u join ({q}) as s on u.a = 1", True),
    ("cross", "select 1 from ({q}), u", True),
    ("with", "with w as ({q}) select 1 from w", True),
    ("body", "with w as (select 1 as k) {q}", True),
    ("where", "select 1 from u where a in ({q})", True),
    ("having", "select 1 from u having exists ({q}) and true", True),
    ("scalar", "select f(({q})), 2, 3, 4, 5, 6, 7 from u group by 5", True),
    ("deep", "select 1 from (select 2 from u where exists (select 3, 3 from ({q}) s order by 2)) s2", True),
    ("union left", "{q} union all select 1 from u", False),
    ("union right", "select 1 from u union {q}", "no order"),
    ("union sub", "select 1 from (select 1, 2 from u union all {q}) s", "no order"),
    ("except", "select 1, 2, 3, 4, 5, 6 from u except distinct {q}", "no order"),
]

GROUPS = ["group by {p}", "group by ({p})", "group by ((({p})))", "group by a, {p}", "group by {p}, a", "group by rollup({p})",
          "group by rollup {p}", "group by (a, {p})"]
ORDERS = ["order by {p}", "order by ({p})", "order by {p} desc", "order by {p} asc", "order by a, {p} desc", "order by {p}, a",
          "order by (({p})) desc"]


def select_lists(n_max):
    """(text, number of expressions or None with a star)"""
    for n in range(1, n_max + 1):
        for shift in range(len(ITEMS)):
            items = [ITEMS[(shift + i * 3) % len(ITEMS)] for i in range(n)]
            yield ", ".join(items), n
        for k, s in enumerate(STARS):
            for at in range(n):
                items = [ITEMS[(k + i) % len(ITEMS)] for i in range(n)]
                items[at] = s
                yield ", ".join(items), None


def possible(p, n):
    return p >= 1 and (n is None or p <= n)


LIMITS = {
    # value: must be accepted (True), must be reported (False)
    "0": True, "1": True, "25": True, "007": True, "99999999999999999999": True, "(3)": True, "((0))": True, "%s": True,
    "%(n)s": True, "?": True, ":n": True, "@n": True, "$1": True, "{n}": True, "{}": True, "(%s)": True, "(((:n)))": True,
    "-1": False, "(-1)": False, "-25": False, "((-3))": False, "- 7": False, "1.5": False, "0.0": False, "(2.5)": False, "'5'": False, "'v'": False,
    "true": False, "false": False, "(true)": False, "a": False, "t.a": False, "(a)": False, "x": False, "1e2": False,
}


def judge(inp):
    v, errors = verdict(inp["sql"])
    got = [e for e in errors if any(w in e for w in ("position", "LIMIT", "OFFSET"))]
    if len(got) != len(errors):
        return "something else is reported: %r" % (errors,)
    for word, ps in inp["bad"]:
        hits = [e for e in got if e.startswith(word) or (word in ("LIMIT", "OFFSET") and word in e)]
        if not hits:
            return "%s is wrong, but not reported: %r" % (word, errors)
        for p in ps:
            if not any(" %s " % p in e for e in hits):
                return "%s position %s is not reported: %r" % (word, p, errors)
    words = [w for w, _ in inp["bad"]]
    for e in got:
        w = [w for w in ("GROUP BY", "ORDER BY", "LIMIT", "OFFSET") if w in e]
        if not w or w[0] not in words:
            return "reported without cause: %r" % (errors,)
        if "position" in e:
            n = e.split("position ")[1].split(" ")[0]
            if n not in dict((a, b) for a, b in inp["bad"])[w[0]]:
                return "position %s is possible, but reported: %r" % (n, errors)
    if v != (not inp["bad"]):
        return "verdict %r" % v
    return None


replay = judge


def shards(tier):
    n = 3 if tier == "quick" else 5
    lists = list(select_lists(n))
    out = [("positions", tier, n, i) for i in range(0, len(lists), 8)]
    out += [("pairs", tier, n, i) for i in range(8)]
    out += [("limits", tier, 0, i) for i in range(len(EMBED))]
    out += [("windows", tier, 0, 0)]
    return out


def run(rec, sql, bad, embeds):
    for name, tpl, ends in embeds:
        if not ends and any(w in sql.lower() for w in (" order by", " limit", " offset")):
            continue
        if ends == "no order" and " order by" in sql:
            continue  # it would order the result of the set operator
        rec.transitions += 1
        inp = {"sql": tpl.replace("{q}", sql), "bad": bad}
        rec.outcomes["wrong" if bad else "right"] += 1
        rec.run(inp, lambda: judge(inp))


def explore(desc, rec):
    family, tier, n_max, lo = desc
    big = tier == "thorough"
    if family == "positions":
        for k, (text, n) in list(enumerate(select_lists(n_max)))[lo : lo + 8]:
            size = n_max if n is None else n
            for p in list(range(-2, n_max + 3)) + [10, 4711]:
                rec.states += 1
                ok = possible(p, n)
                for j, c in enumerate(GROUPS + ORDERS):
                    # a negative number is no position, but an expression, in a list of a function
                    word = "GROUP BY" if c in GROUPS else "ORDER BY"
                    if "rollup(" in c and not ok:
                        continue  # a function's argument
                    sql = "select %s from t %s" % (text, c.replace("{p}", str(p)))
                    embeds = EMBED if big or (k + j + p) % 5 == 0 else EMBED[:1]
                    run(rec, sql, [] if ok else [[word, [str(p)]]], embeds)
                for quant in ("distinct ", "all ", "distinct on (a) "):
                    sql = "select %s%s from t order by %d" % (quant, text, p)
                    run(rec, sql, [] if ok else [["ORDER BY", [str(p)]]], EMBED[:3])
    elif family == "pairs":
        for k, (text, n) in enumerate(select_lists(n_max)):
            if k % 8 != lo or (not big and k % 3):
                continue
            for p, q in itertools.product((0, 1, n_max, n_max + 1), repeat=2):
                rec.states += 1
                bg = [str(p)] if not possible(p, n) else []
                bo = [str(q)] if not possible(q, n) else []
                both = [["GROUP BY", bg]] if bg else []
                both += [["ORDER BY", bo]] if bo else []
                run(rec, "select %s from t where a = 1 group by %d having true order by %d limit 1" % (text, p, q), both, EMBED[:4])
                two = sorted(set(bg + bo))
                for w, c in (("GROUP BY", "group by"), ("ORDER BY", "order by")):
                    run(rec, "select %s from t %s %d, %d" % (text, c, p, q), [[w, two]] if two else [], EMBED[:4])
                    # the inner and the outer query count their own expressions
                    for m in (1, 2):
                        bad = sorted(set(bg + ([] if 1 <= q <= m else [str(q)])))
                        outer = ", ".join(["a", "b"][:m])
                        sql = "select %s from (select %s from t %s %d) s %s %d" % (outer, "*, 1" if n is None else text, c, p, c, q)
                        v_bad = [[w, bad]] if bad else []
                        if n is None or set("ab") & set(text.split(", ")) == set("ab"[:m]):
                            run(rec, sql, v_bad, EMBED[:2])
    elif family == "limits":
        embed = [EMBED[lo]]
        heads = ["select a from t", "select * from t where a = 1 order by 1", "select 1"]
        heads += ["select a from (select a from t limit 3) s group by 1 having true"] if big else []
        values = [(v, ok) for v, ok in LIMITS.items()]
        for h in heads:
            for v, ok in values:
                rec.states += 1
                run(rec, "%s limit %s" % (h, v), [] if ok else [["LIMIT", []]], embed)
                run(rec, "%s offset %s" % (h, v), [] if ok else [["OFFSET", []]], embed)
            run(rec, "%s limit all" % h, [], embed)
            run(rec, "%s LIMIT ALL OFFSET 3" % h, [], embed)
            for (v, ok), (w, ok2) in itertools.product(values, repeat=2):
                if not big and not (ok != ok2 or v == w):
                    continue
                bad = ([] if ok else [["LIMIT", []]]) + ([] if ok2 else [["OFFSET", []]])
                run(rec, "%s limit %s offset %s" % (h, v, w), bad, embed)
    else:
        # what looks like a position but stands elsewhere is none
        for p in ("0", "7", "-1", "99"):
            rec.states += 1
            for e in (
                "rank() over (order by %s)", "sum(a) over (partition by %s)", "rank() over (partition by 1, %s order by %s desc)",
                "array_agg(a order by %s limit 1)", "f(%s)", "case when a = %s then %s end",
            ):
                x = e.replace("%s", p)
                run(rec, "select %s from t" % x, [], EMBED)
                run(rec, "select a from t order by %s" % x, [], EMBED)
                if "over" not in e:
                    run(rec, "select a from t group by %s" % x, [], EMBED)
            for c in ("where a = %s", "where a between %s and %s", "where a in (%s, 1)", "having a > %s", "group by a + %s",
                      "order by a + %s", "order by a = %s desc", "group by f(a, %s)"):
                run(rec, "select a from t " + c.replace("%s", p), [], EMBED)
