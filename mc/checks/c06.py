"""Formatting never changes what validation says."""
from mc import judges
from mc import sqlcheck as s

ID = "C06"
LEVEL = "model_checking"
RULE = (
    "for every complete run of the derivation machines and every text of the token-sequence (Z, Z5, C) and mutation (M), reserved-word (R) and name/number (ID, NUM) "
    "spaces that is formatted at all: verdict and list of errors of the real validator before and after formatting are equal"
)
ASSUMES = []


def shards(tier):
    return s.shards(tier, None, ("Z", "M", "Z5", "C", "R", "ID", "NUM"))


def judge(inp):
    return judges.same_verdict(inp["sql"])


def explore(desc, rec):
    if s.is_arbitrary(desc):
        it = s.spaces.runs_arbitrary(desc, rec)
    else:
        it = (s.src_of(n) for n in s.model_nodes(desc, rec))
    for sql in it:
        inp = {"sql": sql}
        rec.run(inp, lambda: judge(inp))


replay = judge
