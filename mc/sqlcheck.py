"""Shared exploration loops of the SQL-level checks."""
from mc import families, spaces
from mc.oraclelex import lex
from mc.sqlmodel import expected_atoms, layout, render


def model_nodes(desc, rec):
    """Statements of the reference model in one shard."""
    if len(desc) == 5:
        return families.runs(desc, rec)
    return spaces.runs_model(desc, rec)


ARBITRARY = ("Z", "Z5", "C", "M", "P", "R")


def is_arbitrary(desc):
    return len(desc) == 4 and desc[0] in ARBITRARY


def shards(tier, fams=None, spcs=(), per=2000):
    out = []
    if fams is not False:
        out += families.shard_list(tier, fams, per if tier == "quick" else 10000)
    out += spaces.shards(tier, spcs)
    return out


def src_of(node):
    return render(node.t)


def atoms_of(node):
    return expected_atoms(node.t, lex)


def layout_of(node):
    return layout(node)
