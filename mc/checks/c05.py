"""Formatted text has the one canonical layout."""
from mc import judges
from mc import sqlcheck as s

ID = "C05"
LEVEL = "model_checking"
RULE = (
    "all complete runs of the derivation machines for which the reference printer (mc/sqlmodel.py) prescribes a layout; "
    "the real formatter's text must equal it character by character"
)
ASSUMES = [
    "the house style as written down in mc/sqlmodel.py; constructs with no unique layout are left out (counted as 'no layout prescribed')",
]


def shards(tier):
    return s.shards(tier, None, ("NUM", "ID"))


def judge(inp):
    return judges.layout_is(inp["sql"], inp["layout"])


def explore(desc, rec):
    for node in s.model_nodes(desc, rec):
        want = s.layout_of(node)
        if want is None:
            rec.outcomes["no layout prescribed"] += 1
            continue
        inp = {"sql": s.src_of(node), "layout": want}
        rec.run(inp, lambda: judge(inp))


replay = judge
