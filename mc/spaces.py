"""Spaces below the statement level: layouts, literals, token sequences, mutations.

Every space is finite and enumerated completely; a shard is a range of its first
coordinate.  Runs are plain strings (with what the oracle needs)."""
import functools
import itertools

from mc import families as fam_
from mc.grammar import *  # noqa
from mc.grammar import contexts, frames, leaves_basic, leaves_full
from mc.families import (
    constraints,
    fn_table,
    free_join,
    from_items,
    queries,
    right_queries,
    set_frames,
    unnests,
    with_bodies,
    FALIAS,
    JOINS,
    SETWORDS,
)


# ----------------------------------------------------------- representative set
@functools.lru_cache(maxsize=None)
def base_statements(big):
    """One statement per construct and position: what the layout, history and
    mutation spaces start from."""
    F = {f[0]: f for f in frames()}
    out = []
    for name in ("sel", "wherefull", "asmid") if big else ("sel",):
        out += [F[name][2](l) for l in leaves_full()]
    for name in ("where", "having", "on", "order2", "group3", "fromsuba") if big else ("wherefull", "onw"):
        for c in contexts():
            x = c[2](leaves_basic()[0])
            if x.cat <= F[name][1]:
                out.append(F[name][2](x))
    for f in frames():
        out.append(f[2](ident("z9")))
        if big:
            out.append(f[2](leaves_full()[35]))
    z = ident("z")
    for i, item in enumerate(from_items() + unnests()):
        for al in FALIAS if big else FALIAS[:3]:
            if item.k == "unnest" and al is not FALIAS[0]:
                continue
            out.append(select([z], frm=al(item)))
    for k in JOINS:
        for on, using in constraints():
            if free_join(k) == (on is None and using is None):
                out.append(select([z], frm=join(FALIAS[1](table("t")), k, table("u"), on=on, using=using), where=z))
    qs = queries()
    rq = right_queries()
    for w in SETWORDS:
        out.append(compound(qs[2], [(w, qs[3])], order=[oitem(num("1"))], limit=num("2"), semi=True))
        out.append(select([z], frm=falias(fparen(compound(qs[0], [(w, rq[6])])), "s", True)))
    for q in qs:
        for body in with_bodies():
            out.append(with_([("w1", q), ("w2", qs[3])], body))
    for q in set_frames():
        out.append(q(compound(qs[4], [(("union", "all"), qs[5]), (("except",), qs[0])])))
    for x in (
        select([x for x in leaves_basic()], quant="distinct", frm=T, semi=True),
        select([alias(over(fn("sum", ident("a")), partition=(ident("b"),), order=(oitem(ident("c")),), frame=("rows", "between", "unbounded", "preceding", "and", "current", "row")), "s", True), ident("d")], frm=T),
        select([z], frm=T, group=[ident("a"), ident("b")], rollup=True),
        select([z], frm=T, group=[ident("a")], each=True),
        select([except_(chain("t", "*"), ident("a"), ident("b"))], frm=T),
        select([replace_(star(), alias(fn("f", ident("a")), "a", True))], frm=T, limit=kw("all")),
        select([z, ident("y")], frm=T, trailing_comma=True, where=boolean(z, "and", cond(ident("y"), ("not", "in"), paren(one, two)))),
    ):
        out.append(x)
    return tuple(out)


# ------------------------------------------------------------------ layouts (T)
def _cap(w):
    return w.capitalize()


def _alt(w):
    return "".join(c.upper() if i % 2 else c for i, c in enumerate(w))


SEPS = ["\n", "  ", "\t", " \n  ", "\r\n", "\f", "\v", "\r"]
CASES = [str.upper, _cap, _alt]


def _pieces(tokens):
    """Tokens and the gaps that may be varied (a '.' is always written glued)."""
    gaps = []
    for i in range(len(tokens) - 1):
        a, b = tokens[i], tokens[i + 1]
        if a[0] == "." or b[0] == ".":
            gaps.append(None)
        else:
            gaps.append(can_glue(a, b))
    return gaps


def _write(texts, seps):
    out = [texts[0]]
    for s, t in zip(seps, texts[1:]):
        out.append(s)
        out.append(t)
    return "".join(out)


def layouts(tokens, bound):
    """All source texts with at most `bound` deviations from the plain layout (one
    space, keywords as given), and the uniform layouts.  Yields (text, deviations)."""
    texts = [t for t, _ in tokens]
    gaps = _pieces(tokens)
    plain = ["" if g is None else " " for g in gaps]
    moves = []
    for i, g in enumerate(gaps):
        if g is None:
            continue
        for s in SEPS:
            moves.append(("g", i, s))
        if g:
            moves.append(("g", i, ""))
    for i, (t, r) in enumerate(tokens):
        if r in "kf":
            seen = {t}
            for c in CASES:
                if c(t) not in seen:
                    seen.add(c(t))
                    moves.append(("c", i, c(t)))
    for lead, trail in (("\n", ""), ("  ", "\n"), ("", "  \n"), ("\t\r\n", "\n\n")):
        yield lead + _write(texts, plain) + trail, 1
    # uniform layouts
    for case in [None] + CASES:
        cased = [case(t) if case and r in "kf" else t for t, r in tokens]
        for s in [" "] + SEPS:
            seps = ["" if g is None else s for g in gaps]
            yield _write(cased, seps), len(texts)
        seps = ["" if g is None or g else " " for g in gaps]
        yield _write(cased, seps), len(texts)
        seps = ["" if g is None or g else "\n" for g in gaps]
        yield "\n" + _write(cased, seps) + "\n", len(texts)
    for n in range(1, bound + 1):
        for combo in itertools.combinations(moves, n):
            where = {(k, i) for k, i, _ in combo}
            if len(where) < n:
                continue
            seps, tx = list(plain), list(texts)
            for k, i, v in combo:
                if k == "g":
                    seps[i] = v
                else:
                    tx[i] = v
            yield _write(tx, seps), n


# ------------------------------------------------------------- literals (X)
PIECES = [
    "a", " ", "\n", "\\\\", "\\'", '\\"', "'", '"', "`", "(", ")", "[", "]", ",", ";",
    "--", "#", "/*", "*/", "%", "%s", ".", "=", "<", "|", "+", "-", "from", "select",
    "where ", " and ", "case", "end", "as", "\t", "{", "}", ":", "é", "0", "''", '""',
    "\r\n",
]
QUOTES = ["'", '"', "`", "r'", "R\""]


def literal_positions():
    z = ident("z")
    return [
        lambda s: select([s], frm=T),
        lambda s: select([alias(s, "n", True), z], frm=T, semi=True),
        lambda s: select([z], frm=T, where=cond(z, "=", s), order=[oitem(z)]),
        lambda s: select([z], frm=T, where=boolean(cond(z, ("like",), s), "and", cond(z, ("in",), paren(s, s)))),
        lambda s: select([fn("f", z, s, z)], frm=T),
        lambda s: select([case(None, [(cond(z, "=", s), s)], s)], frm=T),
        lambda s: select([array(s, index(fn("split", z, s), num("0")))], frm=T, having=cond(s, "=", s)),
        lambda s: select([z], frm=fparen(sel1(s, where=cond(s, "<", z)))),
        lambda s: select([bitop(s, "||", s), neg(fn("f", s))], frm=T, limit=num("1")),
        lambda s: select([filt(fn("f", s), cond(z, "=", s)), over(fn("f", s), partition=(s,), order=(oitem(s, "desc"),))], frm=T),
        lambda s: select([z], frm=join(T, ("join",), table("u"), on=cond(z, "=", s)), group=[s, z]),
        lambda s: compound(sel1(s), [(("union", "all"), sel1(s))], order=[oitem(s)]),
        lambda s: with_([("w", sel1(s))], sel1(cast(s, "date"))),
    ]


def admissible(quote, body):
    """Is quote+body+quote one literal for every SQL lexer we have in mind?"""
    q = quote[-1]
    i = 0
    n = len(body)
    while i < n:
        if body[i] == "\\":
            if i + 1 >= n:
                return False
            i += 2
        elif body[i] == q:
            if body[i + 1 : i + 2] != q:
                return False
            i += 2
        else:
            i += 1
    return True


def literal(quote, body):
    return string(quote + body + quote[-1])


@functools.lru_cache(maxsize=None)
def bodies(n):
    out = [""]
    for k in range(1, n + 1):
        out += ["".join(p) for p in itertools.product(PIECES, repeat=k)]
    return tuple(out)


# ------------------------------------------------------------- numbers, names
def numbers():
    out = []
    for i in ("", "0", "7", "10", "007", "1234567890123456789012"):
        for f in ("", ".", ".0", ".5", ".50", ".000001"):
            if not i and f in ("", "."):
                continue
            for e in ("", "e5", "E5", "e-10", "E+3"):
                out.append(i + f + e)
    return out


KEYWORDISH = (
    "select from where group by order having limit offset union intersect except all distinct on using "
    "join inner left right full outer cross natural each as with and or not in is null true false like between "
    "case when then else end cast count array_agg array unnest extract filter over partition rows range preceding "
    "following current row unbounded interval date timestamp year month day asc desc rollup replace contains "
    "ignore respect nulls struct exists any some values "
    "nfc nfkd monday sunday _table_suffix _partitiondate current_date current_user session_user localtime user rollup each offset safe_offset ordinal"
).split()


def names():
    out = ["x", "X", "camelCase", "UPPER", "_", "_a", "a1", "a_b_c", "ñandú", "a$b", "@p", "$1", ":p", "{v}", "?", "%s", "%(n)s", "x2y", "e5", "E5", "r", "b", "n1e5", "rx", "_1", "to_", "is_", "a-b"[:1]]
    for k in KEYWORDISH:
        for s in ("%s_", "_%s", "%sx", "x%s", "%s1", "a_%s", "%s_b"):
            w = s % k
            out.append(w)
            out.append(w.upper())
            out.append(w.capitalize())
    return list(dict.fromkeys(out))


def name_positions():
    z = ident("z")
    return [
        lambda n: select([ident(n)], frm=T),
        lambda n: select([alias(z, n, True), ident(n)], frm=T),
        lambda n: select([alias(z, n, False)], frm=T),
        lambda n: select([chain("t", n), chain(n, "y")], frm=T),
        lambda n: select([z], frm=table(n)),
        lambda n: select([z], frm=falias(table("t"), n, True)),
        lambda n: select([z], frm=falias(fparen(sel1(z)), n, False), where=ident(n)),
        lambda n: select([z], frm=join(table("t"), ("join",), falias(table("u"), n, False), on=cond(chain(n, "i"), "=", ident(n)))),
        lambda n: select([fn("f", ident(n), z), index(ident(n), num("0"))], frm=T, where=boolean(cond(ident(n), "=", z), "and", ident(n))),
        lambda n: select([z], frm=T, group=[ident(n), z], order=[oitem(ident(n), "desc"), oitem(ident(n))]),
        lambda n: with_([(n, sel1(z))], select([ident(n)], frm=table(n))),
        lambda n: select([case(ident(n), [(ident(n), ident(n))], ident(n))], frm=T, having=cond(arith(ident(n), "+", ident(n)), ">", z)),
        lambda n: compound(sel1(ident(n)), [(("union",), select([ident(n)], frm=table(n)))]),
        lambda n: select([ident(n), z], frm=T, limit=ident(n), offset=ident(n)),
        lambda n: with_([("w1", sel1(z)), (n, sel1(ident(n))), ("w3", sel1(z))], select([z], frm=table(n))),
        lambda n: select([z], frm=join(T, ("join",), unnest(ident(n), n, True, True, n, True), on=ident(n))),
        lambda n: select([z], frm=join(unnest(chain("t", n), n, False, True, n, False), ("left", "join"), table("u", n), using=[ident(n)])),
        lambda n: select([except_(star(), ident(n)), replace_(chain(n, "*"), alias(ident(n), n, True))], frm=T),
        lambda n: select([over(fn("f", ident(n)), partition=(ident(n),), order=(oitem(ident(n)),), frame=("rows", "current", "row")), filt(count(star()), ident(n))], frm=T),
        lambda n: select([array_agg(ident(n), distinct=True, nulls="ignore", order=(oitem(ident(n), "asc"),), limit="1"), extract("day", ident(n)), count(ident(n), distinct=True)], frm=T),
        lambda n: select([cast(ident(n), "date"), fn(n, ident(n)), array(ident(n)), neg(ident(n)), bitop(ident(n), "||", ident(n))], frm=T, where=between(ident(n), ident(n), ident(n)), limit=num("1")),
        lambda n: select([colcast(n, typ="int64"), alias(colcast("x", n, typ="Date"), n, False), fn("f", colcast(n, typ="int::text"))], frm=T, where=cond(colcast(n, typ="bool"), "=", ident(n))),
        lambda n: select([colcast(n, typ="varchar", args=(num("10"),)), alias(colcast("x", n, typ="numeric", args=(num("4"), num("2"))), n, True)], frm=T, order=[oitem(colcast(n, typ="Char", args=(num("1"),)), "desc")]),
        lambda n: select([z], distinct_on=[ident(n)], frm=fn_table(fn(n, ident(n))), having=cond(ident(n), ("not", "in"), paren(ident(n), z)), semi=True),
    ]


WORDS = list(dict.fromkeys(KEYWORDISH)) + (
    "nfkc nfd tuesday wednesday thursday friday saturday _partitiontime current_catalog current_datetime current_role current_schema current_time "
    "current_timestamp localtimestamp day month year week isoweek quarter hour minute second microsecond dayofweek epoch string int64 float64 boolean "
    "bool bytes numeric timestamptz by to if set for window qualify fetch first next only over within lateral tablesample pivot unpivot rlike regexp "
    "ilike similar escape collate at zone insert update delete create drop table view into default safe_ordinal ordinal offset key value x n b"
).split()


@functools.lru_cache(maxsize=None)
def odd_names():
    """Texts to put where a name belongs: reserved words in three cases, and what is
    no name at all."""
    out = [(w, w.upper(), w.capitalize()) for w in WORDS]
    out += [(render(l.t),) for l in leaves_full()]
    out += [(render(c[2](ident("z")).t),) for c in contexts()]
    return out


CLOSED = [
    "select f(d, %s) from (select d from t)",
    "select %s from (select d from t) x where x.d > 1",
    "select d from (select d from t) x where %s = d or d in (%s, 1) order by %s",
    "select x.%s, d as %s from (select d, e from t) x group by %s having d > 1",
    "select s.d from (select d from t) s join (select d as %s from u) r on s.d = r.%s",
    "select %s.d from (select d from t) %s",
    "select d %s from (select d from t)",
    "with %s as (select d from t) select %s.d, e from %s",
]


PLACEHOLDERS = {"@p", "$1", ":p", "{v}", "?", "%s", "%(n)s"}
NAME_ONLY = {1, 2, 5, 6, 7, 10, 14, 15, 16, 17, 20, 21, 22, 23}  # positions where a placeholder makes no sense


# --------------------------------------------------------- token sequences (Z)
VOCAB = (
    "a t 1 'x' ( ) , ; . * + - / % = < || not and or in is null like between case when then else end "
    "from where group by having order limit offset union except all distinct join on using as with select "
    "[ ] ] cast( count( f( over desc unnest interval"
).split()
VOCAB = list(dict.fromkeys(VOCAB))

PREFIXES = [
    "select",
    "select a from",
    "select a from t",
    "select a from t where a",
    "select a from t join u",
    "select a from t join u on a",
    "select a from ( select b from u )",
    "select a from t group by a",
    "select a from t order by a",
    "select case when a then b",
    "select f(",
    "select array_agg(",
    "select cast(",
    "select count(",
    "select a over (",
    "select a [",
    "select a from unnest(",
    "select a from t limit",
    "select a from t union",
    "with w as (",
    "with w as ( select a from t )",
    "select a from t where a in (",
    "select a from t where a between 1",
    "",
]

SMALL = "a 1 'x' ( ) , from where select * union case end by".split()


# ------------------------------------------------------ character strings (C)
CHARS = list("a1 \n\\'\"`-/*#$@:;,.()[]{}<>=!|&^%~?_") + ["\x00", "\x0c", "\u00a0", "\u2028", "\u0130", "\u00e9", "e", "E", "--", "/*", "*/", "''", "%s", "select", "from", "r", " b", "r'x'", "B\"y\"", " 'z'"]
CHAR_SLOTS = ["select %s from t", "select a%s from t", "select a from t where b%sc", "select f(%s) from t limit 1", "select a from (select b from t where %s)", "%s"]


# ------------------------------------------------------------- mutations (M)
INSERTS = ["(", ")", ",", "a", "'s'", "from", "select", ";", "."]
REPLACE = ["(", ")", ",", "a", "1", "'", "by", "end", "select", "from", "-"]


def mutations(tokens, big):
    texts = [t for t, _ in tokens]
    n = len(texts)
    join_ = lambda x: render([(t, "i") for t in x])  # noqa
    for i in range(n):
        yield join_(texts[:i] + texts[i + 1 :])
        yield join_(texts[: i + 1] + texts[i:])
        yield join_(texts[:i])
        yield join_(texts[i:])
        if i + 1 < n:
            yield join_(texts[:i] + [texts[i + 1], texts[i]] + texts[i + 2 :])
        for w in INSERTS if big else INSERTS[:3]:
            yield join_(texts[:i] + [w] + texts[i:])
        for w in REPLACE if big else REPLACE[:6]:
            yield join_(texts[:i] + [w] + texts[i + 1 :])
    if big:
        for i in range(n):
            for j in range(i + 1, n):
                yield join_(texts[:i] + texts[i + 1 : j] + texts[j + 1 :])


def char_prefixes(text):
    for i in range(len(text)):
        yield text[:i]


# ------------------------------------------------------------------- iteration
def shards(tier, which):
    """(space, lo, hi, tier) descriptors."""
    big = tier == "thorough"
    sizes = {
        "T": (len(base_statements(big)), 8 if not big else 2),
        "X": (len(bodies(3 if big else 2)), 150 if not big else 800),
        "NUM": (len(numbers()), 40),
        "ID": (len(names()), 60),
        "Z": (len(PREFIXES) * len(VOCAB), 60 if not big else 10),
        "Z5": (len(SMALL) ** 2, 6),
        "C": (len(CHARS), 4 if not big else 1),
        "M": (len(base_statements(big)), 8),
        "P": (len(base_statements(big)), 20),
        "R": (len(odd_names()), 20),
    }
    out = []
    for w in which:
        n, per = sizes[w]
        k = max(1, -(-n // per))
        for i in range(k):
            out.append((w, n * i // k, n * (i + 1) // k, tier))
    return out


def runs_arbitrary(desc, rec):
    """Runs of the spaces of arbitrary (mostly unsupported) texts."""
    w, lo, hi, tier = desc
    big = tier == "thorough"
    if w == "Z":
        depth = 2 if not big else 3
        for k in range(lo, hi):
            pi, vi = divmod(k, len(VOCAB))
            head = (PREFIXES[pi] + " " + VOCAB[vi]).strip()
            # after the prefix, vocabulary word vi and then all sequences up to depth-1
            extra = depth if PREFIXES[pi] == "select" else depth - 1
            for n in range(0, extra + 1):
                for tail in itertools.product(VOCAB, repeat=n):
                    rec.states += 1
                    rec.transitions += 1
                    yield " ".join((head,) + tail)
    elif w == "Z5":
        depth = 3 if big else 2
        for k in range(lo, hi):
            a, b = divmod(k, len(SMALL))
            head = "select %s %s" % (SMALL[a], SMALL[b])
            for n in range(0, depth + 1):
                for tail in itertools.product(SMALL, repeat=n):
                    rec.states += 1
                    rec.transitions += 1
                    yield " ".join((head,) + tail)
    elif w == "C":
        for k in range(lo, hi):
            for n in range(0, 3 if big else 2):
                for tail in itertools.product(CHARS, repeat=n):
                    x = CHARS[k] + "".join(tail)
                    for slot in CHAR_SLOTS:
                        rec.states += 1
                        rec.transitions += 1
                        yield slot % x
    elif w == "M":
        for k in range(lo, hi):
            tokens = base_statements(big)[k].t
            rec.states += 1
            for s in mutations(tokens, big):
                rec.states += 1
                rec.transitions += 1
                yield s
    elif w == "P":
        for k in range(lo, hi):
            text = render(base_statements(big)[k].t)
            rec.states += 1
            for s in char_prefixes(text):
                rec.states += 1
                rec.transitions += 1
                yield s
    elif w == "R":
        for k in range(lo, hi):
            for word in odd_names()[k]:
                rec.states += 1
                for p in name_positions():
                    rec.states += 1
                    rec.transitions += 1
                    yield render(p(word).t)
                for c in CLOSED:
                    rec.states += 1
                    rec.transitions += 1
                    yield c.replace("%s", word)
    else:
        raise ValueError(w)


def runs_model(desc, rec):
    """Runs of the spaces of supported statements: nodes."""
    w, lo, hi, tier = desc
    big = tier == "thorough"
    if w == "X":
        pos = literal_positions()
        for body in bodies(3 if big else 2)[lo:hi]:
            rec.states += 1
            for q in QUOTES:
                rec.transitions += 1
                if not admissible(q, body):
                    rec.outcomes["inadmissible combination"] += 1
                    continue
                rec.states += 1
                s = literal(q, body)
                for p in pos:
                    rec.states += 1
                    rec.transitions += 1
                    yield p(s)
    elif w == "NUM":
        pos = literal_positions()
        for text in numbers()[lo:hi]:
            rec.states += 1
            for sign in ("", "-"):
                rec.states += 1
                rec.transitions += 1
                for p in pos:
                    rec.states += 1
                    rec.transitions += 1
                    yield p(num(sign + text))
    elif w == "ID":
        pos = name_positions()
        for n in names()[lo:hi]:
            rec.states += 1
            for i, p in enumerate(pos):
                if n in PLACEHOLDERS and i in NAME_ONLY:
                    continue
                rec.states += 1
                rec.transitions += 1
                yield p(n)
    else:
        raise ValueError(w)
