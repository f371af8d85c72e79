"""A query is laid out in the same way wherever it stands."""
import functools

from mc import judges
from mc.families import families
from mc.sqlmodel import N, render

ID = "C26"
LEVEL = "model_checking"
RULE = (
    "every statement of the families of constructs (contexts in frames, clause subsets, FROM items and joins, windows, ARRAY_AGG, CASE, set operators, WITH, lengths, nestings; "
    "quick: every 11th of each large family) x every host of 24 (quick: 5 in turn) in which a query can stand (FROM with and without alias, either side of joins, WITH, "
    "operands of set operators, conditions, arguments, CASE, select list, two and three deep): the lines of the query in the host must be those of the "
    "query alone, indented by what the host prescribes for a minimal query"
)
ASSUMES = ["WITH is supported at the start of statements and of queries in FROM and WITH", "a statement with a semicolon does not stand inside another; quoted text with line breaks is not indented and left out"]

HOSTS = [
    "select k from ({q})",
    "select k from ({q}) x",
    "select k, l from ({q}) as x where x.k = 1 order by 1",
    "select k from ({q}) x join u on x.k = u.k",
    "select k from u left join ({q}) as x using (k) where l",
    "select k from u, ({q}) x, v group by k",
    "with w as ({q}) select k from w",
    "with v as (select 1 from u), w as ({q}), y as (select 2) select k from w, v",
    "select k from v union all select m from ({q}) x",
    "select k from (select m from ({q})) y",
    "select k from (select m, n from (select o from ({q}) x) y where n) z",
    "with w as (select m from ({q}) x) select k from w",
    "select array({q}) as k, l from u",
    "select k from u where exists({q})",
    "select k from u where l in ({q})",
    "select k from u where l not in ({q}) order by m",
    "select k from u group by k having k in ({q}) limit 3",
    "select ({q}) as k, l from u",
    "select f(({q}), 2) as k from u",
    "select k from u where l = ({q})",
    "select k from u join v on u.l in ({q}) where m",
    "select k from (select l from u where m in ({q})) x",
    "with w as (select l from u where exists ({q}) limit 1) select k from w",
    "select k from (select n from v union select m from ({q}) x) y",
]
SMALL = "select zz from zt"
# where a query that begins with WITH can stand
WITH_HOSTS = HOSTS[:12] + HOSTS[23:]
FAMS = {"E0": 1, "E1": 11, "B": 11, "Q": 11, "F1": 3, "F2": 11, "F3": 11, "O": 11, "A": 11, "V": 11, "K2": 3, "S2": 5, "S3": 11, "W": 1, "L1": 5, "L2": 5, "D": 3, "G": 1, "E2": 61}


@functools.lru_cache(maxsize=None)
def frame(host):
    """What stands before and after the query, and how far it is indented."""
    lines = judges.fmt(host.replace("{q}", SMALL)).split("\n")
    at = [i for i, l in enumerate(lines) if l.strip() == "SELECT zz"]
    assert len(at) == 1 and lines[at[0] + 1].strip() == "FROM zt", lines
    i = at[0]
    return lines[:i], lines[i][: len(lines[i]) - len("SELECT zz")], lines[i + 2 :]


def judge(inp):
    try:
        alone = judges.fmt(inp["query"])
        got = judges.fmt(inp["host"].replace("{q}", inp["query"]))
    except judges.Refused as e:
        return "refused: %s" % e
    if "\n" not in alone:
        return  # a query of one line can stay in its line
    before, indent, after = frame(inp["host"])
    want = "\n".join(before + [indent + l for l in alone.split("\n")] + after)
    if got != want:
        return "laid out in another way than alone\nexpected:\n%s\nformatted:\n%s" % (want, got)


replay = judge


def shards(tier):
    out = []
    for i, fam in enumerate(families("quick")):
        step = FAMS.get(fam.name.split()[0])
        if step:
            per = 300 if tier == "thorough" else 300 * step
            n = max(1, fam.size // per)
            out += [(fam.name.split()[0], fam.size * j // n, fam.size * (j + 1) // n, tier == "thorough", i) for j in range(n)]
    return out


def explore(desc, rec):
    name, lo, hi, big, i = desc
    step = 1 if big else FAMS[name]
    fam = families("quick")[i]
    for n in range(lo + (-lo) % step, hi, step):
        for node in fam.runs(n, n + 1, rec):
            sql = render(node.t) if isinstance(node, N) else None
            if sql is None or sql.endswith(";") or "\n" in sql:
                rec.outcomes["cannot stand inside"] += 1
                continue
            hosts = WITH_HOSTS if sql.startswith("with") else HOSTS
            for h in hosts if big else [hosts[(n // step * 5 + k) % len(hosts)] for k in range(5)]:
                inp = {"query": sql, "host": h}
                rec.run(inp, lambda: judge(inp), True)
