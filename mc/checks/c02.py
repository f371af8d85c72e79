"""Formatting is idempotent."""
from mc import judges
from mc import sqlcheck as s

ID = "C02"
LEVEL = "model_checking"
RULE = (
    "for every complete run of the derivation machines and every text of the token-sequence (Z, Z5, C), mutation (M), "
    "prefix (P), literal (X) name/number (ID, NUM) and reserved-word (R) spaces: the orbit text -> format -> format of the real code "
    "reaches a fixed point after one step, and the second step is never refused"
)
ASSUMES = ["texts whose formatting is refused have no orbit"]


def shards(tier):
    return s.shards(tier, None, ("Z", "M", "P", "Z5", "C", "R", "NUM", "ID") + (("X",) if tier == "thorough" else ()))


def judge(inp):
    return judges.stable(inp["sql"])


def explore(desc, rec):
    if s.is_arbitrary(desc):
        it = s.spaces.runs_arbitrary(desc, rec)
    else:
        it = (s.src_of(n) for n in s.model_nodes(desc, rec))
    for sql in it:
        inp = {"sql": sql}
        rec.run(inp, lambda: judge(inp))


replay = judge
