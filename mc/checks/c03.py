"""Neither input layout nor keyword case influences the result."""
from mc import judges
from mc import sqlcheck as s
from mc import spaces

ID = "C03"
LEVEL = "model_checking"
RULE = (
    "for every representative statement (one per construct and position) all source texts reachable with at most 1 "
    "(quick) or 2 (thorough) layout deviations - any gap between two tokens widened, turned into newline/tab/CRLF or "
    "removed where SQL permits; any keyword upper-, capital- or mixed-cased; leading and trailing white space - plus "
    "the uniform layouts; formatted text, verdict and errors must equal those of the plain text"
)
ASSUMES = ["white space may be left out exactly where mc/sqlmodel.can_glue says SQL permits it"]


def shards(tier):
    return s.shards(tier, False, ("T",))


def observe(sql):
    try:
        out = judges.fmt(sql)
    except judges.Refused as e:
        out = ("refused", str(e))
    return out, judges.verdict(sql)


def compare(want, inp):
    got = observe(inp["sql"])
    if got[0] != want[0]:
        return "formatted differently\nplain text gives:\n%s\nthis layout gives:\n%s" % (want[0], got[0])
    if got[1] != want[1]:
        return "validated differently: plain text %r, this layout %r" % (want[1], got[1])


def judge(inp):
    return compare(observe(inp["plain"]), inp)


def explore(desc, rec):
    w, lo, hi, tier = desc
    big = tier == "thorough"
    for node in spaces.base_statements(big)[lo:hi]:
        plain = s.src_of(node)
        rec.states += 1
        want = observe(plain)
        for sql, dev in spaces.layouts(node.t, 2 if big else 1):
            rec.states += 1
            rec.transitions += dev
            inp = {"plain": plain, "sql": sql}
            rec.run(inp, lambda: compare(want, inp))


replay = judge
