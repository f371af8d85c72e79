"""Comments do not influence validation, and formatting never loses one."""
from mc import judges, spaces
from mc import sqlcheck as s
from mc.oraclelex import loose

ID = "C28"
LEVEL = "model_checking"
RULE = (
    "for every representative statement (one per construct and position): every comment of the menu (block and line comments: empty, "
    "with quotes, brackets, keywords, semicolons, comment markers and line breaks inside, not closed at the end of the text) in every gap "
    "between two tokens and at both ends, with white space around it and without, and pairs of comments (quick: in adjacent gaps and at both ends; thorough: in every two gaps); "
    "verdict and errors must equal those of the text without comment; formatting must refuse or keep every comment where it stood. "
    "Wrong statements (one per kind of error) get the same comments, so that a comment neither hides nor causes an error"
)
ASSUMES = ["a line comment ends at a line feed; block comments do not nest; a query without white space between two tokens may get a comment there only where SQL would accept white space"]

BLOCK = ["/* c */", "/**/", "/* it's */", '/* "a ( */', "/* ` */", "/* -- */", "/* a\nb */", "/*;*/", "/* ) from x where */", "/***/", "/*/ x */", "/* a\r\n * b,\n */", "/* \\' */"]
LINE = ["-- c\n", "--\n", "-- it's\n", '-- " (\n', "-- ` )\n", "-- /* x\n", "-- */\n", "--;\n", "--- , from y\n", "-- c\r\n", "-- \\\n", "--c --d\n"]
OPEN = ["/* c", "-- c", "--", "/*", "-- '", '/* " (']

WRONG = [
    "select a from (select b from t) s",
    "select a, b from t where 1",
    "select a from t having 'v' and b = 2",
    "select a from t group by 3 order by 2 desc",
    "select a from t limit -1 offset 'x'",
    "select s.a from t join (select a from u) s where s.z",
    "select a from (select 1 as a, 2 as b) s join (select 3 as a) u on s.a = u.a",
    "with w as (select a from (select 1 as b)) select c from w union all select d from (select e from t)",
    "select f(x, case when y then [z] else not q end) over (partition by p order by o) from (select 1 as a)",
]


def observe(sql):
    return judges.verdict(sql)


def compare(want, inp):
    got = observe(inp["sql"])
    if got != want:
        return "validated differently: without comment %r, with comment %r" % (want, got)
    try:
        out = judges.fmt(inp["sql"])
    except judges.Refused:
        return None
    for c in inp["comments"]:
        if c.strip() not in out:
            return "the comment %r is lost:\n%s" % (c, out)
    a, b = [" ".join(x.split()) for x in (inp["sql"], out)]
    if loose(a) != loose(b):
        return "a comment moved:\n%s" % out


def judge(inp):
    return compare(observe(inp["plain"]), inp)


def word_gaps(text):
    """The spaces of a text outside of quotes."""
    out, quote = [], None
    for i, c in enumerate(text):
        if quote:
            quote = None if c == quote else quote
        elif c in "'\"`":
            quote = c
        elif c == " ":
            out.append(i)
    return out


def pieces(node):
    texts = [t for t, _ in node.t]
    gaps = spaces._pieces(node.t)
    return texts, gaps


def commented(texts, gaps, big):
    """(text, comments): the pieces with comments in their gaps."""
    n = len(texts)
    plain = ["" if g is None else " " for g in gaps]
    where = [i for i, g in enumerate(gaps) if g is not None]

    def put(at):
        seps = list(plain)
        for i, sep in at.items():
            if 0 <= i < n - 1:
                seps[i] = sep
        return at.get(-1, "") + spaces._write(texts, seps) + at.get(n - 1, "")

    forms = [(lambda c: c), (lambda c: " " + c + " ")]
    for k, i in enumerate([-1] + where + [n - 1]):
        for j, c in enumerate(BLOCK + LINE):
            for m, f in enumerate(forms):
                if not big and 0 <= i < n - 1 and (j + k + m) % 5:
                    continue
                yield put({i: f(c)}), [c]
    for c in OPEN:
        yield put({n - 1: " " + c}), [c]
        yield put({n - 1: c}), [c]
    menu = [BLOCK[0], LINE[0], BLOCK[2], LINE[2]]
    every = {i: " /* c */ " for i in where}
    yield put(every), ["/* c */"]
    yield put({i: "--\n" for i in where}), ["--"]
    ends = [-1] + where + [n - 1]
    for x, i in enumerate(ends):
        for j in ends[x + 1 :] if big else ends[x + 1 : x + 2]:
            for a in menu[::2] if big and n > 14 else menu:
                for b in (menu[1],) if big and n > 14 else menu[1:3]:
                    yield put({i: a, j: b}), [a, b]
    for c in BLOCK + LINE:
        yield put({-1: c, n - 1: c}), [c]


def split(text):
    at = word_gaps(text)
    texts, last = [], 0
    for i in at:
        texts.append(text[last:i])
        last = i + 1
    texts.append(text[last:])
    return texts, [False] * len(at)


def shards(tier):
    m = len(spaces.base_statements(tier == "thorough"))
    return [("base", tier, i, i + 6) for i in range(0, m, 6)] + [("wrong", tier, i, i + 1) for i in range(len(WRONG))]


def explore(desc, rec):
    kind, tier, lo, hi = desc
    big = tier == "thorough"
    if kind == "base":
        todo = [(s.src_of(node),) + pieces(node) for node in spaces.base_statements(big)[lo:hi]]
    else:
        todo = [(text,) + split(text) for text in WRONG[lo:hi]]
    for plain, texts, gaps in todo:
        want = observe(plain)
        rec.states += 1
        assert kind == "base" or want[0] is False, (plain, want)
        for sql, comments in commented(texts, gaps, big or kind == "wrong"):
            rec.states += 1
            rec.transitions += len(comments)
            inp = {"plain": plain, "sql": sql, "comments": comments}
            rec.run(inp, lambda: compare(want, inp))


replay = judge
