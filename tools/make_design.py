"""Refreshes the generated parts of DESIGN.md (properties, planted bugs)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COST = dict(C01="25 s / 25 min", C02="42 s", C03="10 s", C04="8 s", C05="14 s", C06="42 s", C07="22 s", C08="70 s", C09="120 s / 9 min", C10="3 s / 29 s", C11="8 s / 13 s", C12="22 s / 3 min", C13="45 s", C14="7 s", C15="11 s / 30 s", C16="14 s", C17="12 s", C18="4 s", C19="50 s / 13 min", C20="12 s", C21="17 s", C22="4 s / 4 s", C23="10 s", C24="65 s", C25="90 s", C26="16 s", C27="5 s / 35 s", C28="38 s")
WHY = dict(
    C01="tests compare some texts; a lost token needs a construct followed by one no test combines it with",
    C02="the formatter's own output is a language of its own, larger than what tests feed back",
    C03="every gap and every keyword of every construct is a place where white space or case could matter",
    C04="quoting bugs need the one piece (escape, bracket, keyword) at the one position",
    C05="the style must hold in every nesting; tests fix it for single constructs",
    C06="relates two runs over all texts, with no expected value to write down",
    C07="needs histories: pairs of near-identical texts and sequences of operations",
    C08="needs a schedule; no test can choose one",
    C09="sources x references x places is a product no test list covers",
    C10="exactness has two sides, and the count of the select list depends on every kind of item",
    C11="types flow through aliases, stars and nesting",
    C12="each embedding is a place where an error can be dropped",
    C13="for all texts, in particular wrong ones",
    C14="relates two runs on all file sets",
    C15="everything outside the literal is unchanged, for all surroundings",
    C16="relates successive runs",
    C17="scoping of comments depends on sequences of items",
    C18="spellings of paths x trees",
    C19="fault points cannot be reached by tests without an injector",
    C20="counts and lines for all literal forms",
    C21="growth is not visible in small inputs",
    C22="all option words, orders and file states",
    C23="the boundary between SQL and prose is a product of prefix, quote, leading text, word and what follows",
    C24="the number of providers of a column is a function of the tree of joins",
    C25="a vocabulary times the places of its words is no test list; a word missing from one list is seen only when that word is used there",
    C26="the layout of a nested query is a product of two queries; tests hold a few of the products",
    C28="the comments times the gaps of all statements; tests hold a few of the pairs",
    C27="an equivalence is a relation between runs; tests hold single runs",
)


def main():
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path) as f:
        s = f.read()
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        props = [json.loads(l) for l in f]
    with open(os.path.join(ROOT, "MANIFEST.json")) as f:
        man = {c["property"]: c for c in json.load(f)["checks"]}
    out = []
    for p in props:
        k = p["id"]
        out.append("### %s %s\n\n*Explored*: %s\n\n*Cost*: %s. *Beyond tests*: %s.\n" % (k, p["title"], man[k]["level_note"], COST.get(k, "?"), WHY.get(k, "?")))
    s = re.sub(r"(?s)(## Properties\n\n.*?\n\n).*?(?=## Why enumeration)", lambda m: m[1] + "\n".join(out) + "\n", s, count=1)
    rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    d = os.path.join(ROOT, "seeded")
    for i in sorted(os.listdir(d)):
        with open(os.path.join(d, i, "meta.json")) as f:
            j = json.load(f)
        rows.append("| %s | %s | %s | %s |" % (i, j["property"], j["needs"].replace("|", "/"), j.get("caught_by", j["property"])))
    s = re.sub(r"(?s)\| bug \| property .*?\n\n", lambda m: "\n".join(rows) + "\n\n", s, count=1)
    with open(path, "w") as f:
        f.write(s)


main()
