"""Results depend on the text alone: operation sequences, hash seeds."""
import itertools

import sqlvalidator
from mc import baseline, core, judges, spaces
from mc import sqlcheck as s

ID = "C07"
LEVEL = "model_checking"
TASKS_PER_CHILD = 1  # every shard starts in a pristine process
RULE = (
    "model: a query object answers every operation with the result a pristine process gives for its text. Explored on the real "
    "objects: for each representative text all operation sequences up to length 3 (4 thorough) over {format, is_valid, errors of one "
    "object; format_sql; new object}; for all ordered pairs of texts inside groups of near-identical texts (differing in the case, spacing "
    "or quoting of a literal, a name, a number, one clause) all sequences of length 3 (4) over two objects and the global functions; tours over all texts forwards, "
    "backwards and doubled in one process; every text in a pristine process under 4 (16) hash seeds"
)
ASSUMES = ["the error list of a query that was not validated yet is not specified"]

# texts that validation rejects, for one reason each
INVALID = [
    "select a from (select b from t)",
    "select a, c from (select b, c from t) x where d = 1",
    "select x.a, x.b, y.c from (select b from t) x join (select d from u) y on x.i = y.i",
    "select a from t where 1",
    "select a from t where 'x' and b",
    "select a from t having 1.5 or b",
    "select a from t group by 2",
    "select a, b from t order by 3, 0",
    "select a from t limit -1",
    "select a from t limit 'x' offset 1.5",
    "select a from t join u",
    "with w as (select a from t) select b from w where c",
    "select z from (select a from t where 2 union select b from u group by 5)",
    "select f(a, b, c, d) from (select e from t)",
    "select * except (a) from (select a, b from t) where a = 1",
    "select a b from t c d",
    "select",
    "drop table t",
    "select a from t where (",
    "select 'a from t",
    "select a -- comment\nfrom t",
]

GROUPS = [
    ["select 'a  b' from t", "select 'a b' from t", "select 'A b' from t", 'select "a b" from t', "select `a b` from t", "select 'a\nb' from t"],
    ["select a from t", "select A from t", "select a from T", "select a, a from t", "select a from t;", "select b from t", "SELECT a FROM t"],
    ["select 1 from t", "select 1.0 from t", "select true from t", "select '1' from t", "select 01 from t", "select 1e0 from t"],
    ["select a from (select a from t)", "select a from (select b from t)", "select b from (select b from t)", "select a from (select a b from t)", "select a from (select * from t)"],
    ["select a from t where b", "select a from t where 1", "select a from t where true", "select a from t having 1", "select a from t where 'b'"],
    ["select a from t group by 1", "select a from t group by 2", "select a from t order by 2", "select a, b from t group by 2"],
    ["select a from t limit 1", "select a from t limit -1", "select a from t limit 'x'", "select a from t offset -1"],
    ["with w as (select a from t) select a from w", "with w as (select b from t) select a from w", "select a from w", "with w as (select a from t) select c from w"],
    ["select f(a) from t", "select F(a) from t", "select f (a) from t", "select f(a, b) from t", "select count(*) from t", "select count(a) from t"],
    ["select x.a from (select a from t) x", "select x.a from (select b from t) x", "select x.a from (select b from t) y", "select y.a from (select a from t) x"],
    ["select a from t union select b from u", "select a from t union all select b from u", "select a from t except select b from u", "select a from (select b from t union select b from u)"],
    ["select case when a then b end from t", "select case a when b then c end from t", "select case when a then b else c end from t"],
]


def group_of(i):
    return GROUPS[i] if i < len(GROUPS) else [g[0] for g in GROUPS[::2]] + INVALID[:3]


def texts(big):
    out = [s.src_of(n) for n in spaces.base_statements(big)] + INVALID
    for g in GROUPS:
        out += g
    return list(dict.fromkeys(out))


def shards(tier):
    big = tier == "thorough"
    n = len(texts(big))
    per = 12
    out = [("pair", i, j, tier) for i in range(len(GROUPS), -1, -1) for j in range(len(group_of(i)))]
    out += [("single", i, min(n, i + per), tier) for i in range(0, n, per)]
    out += [("seed", i, min(n, i + 60), tier) for i in range(0, n, 60)]
    out += [("tour", i, i + 1, tier) for i in range(3)]
    return out


def observe_fmt(f):
    try:
        return ["text", f()]
    except sqlvalidator_error as e:
        return ["refused", str(e)]


sqlvalidator_error = judges.ParsingError


def play(pair, ops, base):
    """Run the operations; None or the first answer that is not the baseline's."""
    qs = [sqlvalidator.parse(t) for t in pair]
    validated = [False, False]
    kept = []
    for n, op in enumerate(ops):
        kind, i = op[0], int(op[1])
        want = base[pair[i]]
        if kind == "f":
            got, exp = observe_fmt(qs[i].format), want[0]
        elif kind == "F":
            got, exp = observe_fmt(lambda: sqlvalidator.format_sql(pair[i])), want[0]
        elif kind == "v":
            got, exp = qs[i].is_valid(), want[1]
            validated[i] = True
        elif kind == "V":
            q = sqlvalidator.parse(pair[i])
            v = q.is_valid()
            got, exp = [v, list(q.errors)], want[1:]
            kept.append((q.errors, want[2]))
        elif kind == "e":
            if not validated[i]:
                qs[i].errors
                continue
            got, exp = list(qs[i].errors), want[2]
            kept.append((qs[i].errors, want[2]))
        elif kind == "N":
            qs[i] = sqlvalidator.parse(pair[i])
            validated[i] = False
            continue
        if got != exp:
            return "operation %d (%s on %r): a pristine process answers %r, here %r" % (n + 1, op, pair[i], exp, got)
    for errors, exp in kept:
        if list(errors) != exp:
            return "an error list changed after it was returned: %r became %r" % (exp, list(errors))


SINGLE = ["f0", "v0", "e0", "F0", "V0", "N0"]
PAIR = ["f0", "v0", "f1", "v1", "F0", "F1", "V0", "V1"]


def tour(order, direction):
    if direction == 0:
        return order
    if direction == 1:
        return order[::-1]
    return [t for t in order for _ in range(2)] + order


def judge(inp):
    if inp["kind"] == "seed":
        a = baseline.fresh([inp["text"]], "0")
        b = baseline.fresh([inp["text"]], inp["seed"])
        return None if a == b else "hash seed 0 gives %r, %s gives %r" % (a[0], inp["seed"], b[0])
    if inp["kind"] == "tour":
        base = dict(zip(inp["texts"], baseline.fresh(inp["texts"])))
        return run_tour(inp, base)
    base = dict(zip(inp["pair"], baseline.fresh(inp["pair"])))
    why = play(inp["pair"], inp["ops"], base)
    if why is None and inp.get("shard"):
        # the sequence alone is fine: repeat everything that came before it
        probe = core.Rec()
        try:
            explore(inp["shard"], probe)
        except core.Stop:
            pass
        if probe.violations:
            why = "after everything in shard %r: %s" % (inp["shard"], probe.violations[0][1])
    return why


def run_tour(inp, base):
    for n, t in enumerate(inp["texts"]):
        got = baseline.observe(t)
        if got != base[t]:
            return "text %d of the tour, %r: a pristine process answers %r, here %r" % (n + 1, t, base[t], got)


def explore(desc, rec):
    kind, lo, hi, tier = desc
    big = tier == "thorough"
    if kind == "seed":
        some = texts(big)[lo:hi]
        base = baseline.fresh(some, "0")
        for seed in range(1, 17 if big else 5):
            other = baseline.fresh(some, str(seed))
            rec.states += 1
            for t, a, b in zip(some, base, other):
                rec.states += 1
                rec.transitions += 1
                rec.run(
                    {"kind": "seed", "text": t, "seed": str(seed)},
                    lambda: None if a == b else "hash seed 0 gives %r, %d gives %r" % (a, seed, b),
                )
        return
    if kind == "tour":
        order = tour(texts(big), lo)
        uniq = list(dict.fromkeys(order))
        base = dict(zip(uniq, baseline.fresh(uniq)))
        for n, t in enumerate(order):
            rec.states += 1
            rec.transitions += 1
            got = baseline.observe(t)
            why = None
            if got != base[t]:
                why = "text %d of the tour, %r: a pristine process answers %r, here %r" % (n + 1, t, base[t], got)
            rec.run({"kind": "tour", "texts": order[: n + 1]}, lambda: why)
        return
    if kind == "single":
        depth = 4 if big else 3
        some = texts(big)[lo:hi]
        base = dict(zip(some, baseline.fresh(some)))
        for t in some:
            for n in range(1, depth + 1):
                for ops in itertools.product(SINGLE, repeat=n):
                    rec.states += 1
                    rec.transitions += 1
                    inp = {"kind": "ops", "pair": [t], "ops": list(ops), "shard": list(desc)}
                    rec.run(inp, lambda: play([t], ops, base))
        return
    group = group_of(lo)
    base = dict(zip(group, baseline.fresh(group)))
    depth = 4 if big else 3
    a = group[hi]
    for b in group[:hi] + group[hi + 1 :]:
        for n in range(2, depth + 1):
            for ops in itertools.product(PAIR, repeat=n):
                rec.states += 1
                rec.transitions += 1
                inp = {"kind": "ops", "pair": [a, b], "ops": list(ops), "shard": list(desc)}
                rec.run(inp, lambda: play([a, b], ops, base))


replay = judge
