"""Validation always delivers a verdict."""
import sqlvalidator
from mc import judges
from mc import sqlcheck as s

ID = "C13"
LEVEL = "model_checking"
RULE = (
    "every token sequence of bounded length over a 57-word vocabulary after 24 prefixes (Z) and over 14 words to length "
    "4/5 (Z5), every string of up to 2 (3) characters out of 50 in 6 places (C), every single mutation (M) and character prefix (P) of the representative statements, reserved and odd words at name positions (R), names and numbers (ID, NUM), and all complete "
    "runs of the derivation machines: parsing and validating the text ends, raises nothing, answers a bool that agrees "
    "with the error list, and answers the same when asked again; formatting it gives a text or a parsing error; a "
    "statement of the supported dialect is never reported as unparsable"
)
ASSUMES = ["one evaluation may take 10 s", "nesting depth stays below the interpreter's recursion limit"]


def shards(tier):
    return s.shards(tier, None, ("Z", "M", "P", "Z5", "C", "R", "ID", "NUM"))


def judge(inp):
    sql = inp["sql"]
    q = sqlvalidator.parse(sql)
    v = q.is_valid()
    errors = list(q.errors)
    if type(v) is not bool:
        return "verdict is %r" % (v,)
    if any(type(e) is not str or not e for e in errors):
        return "errors are %r" % (errors,)
    if v != (not errors):
        return "verdict %r with errors %r" % (v, errors)
    if q.is_valid() != v or list(q.errors) != errors:
        return "asked again the query answers %r %r, first %r %r" % (q.is_valid(), q.errors, v, errors)
    try:
        out = judges.fmt(sql)
    except judges.Refused as e:
        if inp.get("supported"):
            return "a supported query is refused: %s" % e
    else:
        if type(out) is not str:
            return "formatting gives %r" % (out,)
    if inp.get("supported"):
        # as a parsing error has no other mark, compare with what a text that
        # certainly does not parse reports
        bad = [e for e in errors if e in unparsable_messages()]
        if bad:
            return "a supported query is reported as unparsable: %r" % bad


_messages = None


def unparsable_messages():
    global _messages
    if _messages is None:
        _messages = set()
        for sql in ("", "select", "select 1 from", "drop table t", "select case", "select 1 from t limit"):
            _messages |= set(judges.verdict(sql)[1])
    return _messages


def explore(desc, rec):
    arbitrary = s.is_arbitrary(desc)
    it = s.spaces.runs_arbitrary(desc, rec) if arbitrary else (s.src_of(n) for n in s.model_nodes(desc, rec))
    for sql in it:
        inp = {"sql": sql}
        if not arbitrary:
            inp["supported"] = True
        rec.run(inp, lambda: judge(inp))


replay = judge
