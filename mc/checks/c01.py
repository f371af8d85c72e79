"""Formatting preserves the query's tokens, or refuses."""
from mc import judges
from mc import sqlcheck as s

ID = "C01"
LEVEL = "model_checking"
RULE = (
    "all complete runs of the derivation machines (families E*, B, Q, F*, K*, S*, W, L*, D, G, O, A, V: every leaf, context pair, "
    "clause subset, join/set-operator/WITH combination, every end of a clause x every follower, window, ARRAY_AGG and CASE part up to the stated depth), each rendered and formatted by the "
    "real code, compared with the model's token list; plus every token sequence of bounded length after 24 prefixes "
    "(Z, Z5, C), every single mutation (M) and every prefix (P) of the representative statements, where the text must be "
    "refused or keep its tokens; and reserved and odd words (R) at 24 name positions"
)
ASSUMES = [
    "tokens are read from the formatted text by an independent lexer (mc/oraclelex.py)",
    "case of words and trailing commas are the only licensed differences",
]


def shards(tier):
    return s.shards(tier, None, ("Z", "M", "P", "Z5", "C", "R"))


def judge(inp):
    if "atoms" in inp:
        return judges.tokens_kept(inp["sql"], inp["atoms"])
    return judges.tokens_kept_or_refused(inp["sql"])


def explore(desc, rec):
    if s.is_arbitrary(desc):
        for sql in s.spaces.runs_arbitrary(desc, rec):
            inp = {"sql": sql}
            rec.run(inp, lambda: judge(inp))
    else:
        for node in s.model_nodes(desc, rec):
            inp = {"sql": s.src_of(node), "atoms": s.atoms_of(node)}
            rec.run(inp, lambda: judge(inp))


replay = judge
