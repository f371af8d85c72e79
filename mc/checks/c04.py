"""Quoted text, names and numbers come out exactly as written."""
from mc import judges
from mc import sqlcheck as s

ID = "C04"
LEVEL = "model_checking"
RULE = (
    "X: every literal body of up to 2 (quick) or 3 (thorough) pieces from a 42-piece alphabet of quotes, escapes, "
    "brackets, separators, comment markers, keywords, operators and white space, in 5 quote styles, at 13 positions; "
    "NUM: every number of a digit/fraction/exponent/sign grid at those positions; ID: every name built from all keywords of the implementation and the grammar "
    "with 7 affixes in 3 cases (and placeholders) at 24 positions; the atom must come out unchanged in its place"
)
ASSUMES = ["a backslash or a doubled quote escapes the quote inside a literal"]


def shards(tier):
    return s.shards(tier, False, ("X", "NUM", "ID"))


def judge(inp):
    return judges.tokens_kept(inp["sql"], inp["atoms"])


def explore(desc, rec):
    for node in s.model_nodes(desc, rec):
        inp = {"sql": s.src_of(node), "atoms": s.atoms_of(node)}
        rec.run(inp, lambda: judge(inp))


replay = judge
