"""Families of derivation machines.

A family is a machine whose state is the list of choices made so far and whose
transitions are the entries of the next axis; a complete run builds one statement
of the reference model.  Each family is explored completely (depth first, in axis
order); shards are contiguous ranges of complete runs.
"""
import functools

from mc.grammar import *  # noqa
from mc.grammar import contexts, frames, leaves_basic, leaves_full


class Family:
    def __init__(self, name, axes, build):
        self.name = name
        self.axes = axes
        self.build = build
        self.size = 1
        for a in axes:
            self.size *= len(a)

    def runs(self, lo, hi, rec):
        """Complete runs lo..hi-1 as (choice indices, node); counts states/transitions."""
        axes = self.axes
        sizes = [len(a) for a in axes]
        prev = None
        for n in range(lo, hi):
            r = n
            idx = [0] * len(sizes)
            for d in range(len(sizes) - 1, -1, -1):
                r, idx[d] = divmod(r, sizes[d])
            if prev is None:
                new = len(sizes)
                rec.states += 1
            else:
                new = len(sizes)
                for d in range(len(sizes)):
                    if idx[d] != prev[d]:
                        break
                    new -= 1
            prev = idx
            rec.transitions += new
            rec.states += new
            node = self.build(*[a[i] for a, i in zip(axes, idx)])
            if node is None:
                rec.outcomes["inadmissible combination"] += 1
                continue
            yield node


# --------------------------------------------------------------- expressions
def _e0(f, leaf):
    return f[2](leaf) if leaf.cat <= f[1] else None


def _e1(f, c, leaf):
    x = c[2](leaf) if leaf.cat <= c[1] else None
    return None if x is None or x.cat > f[1] else f[2](x)


def _e2(f, c1, c2, leaf):
    x = c2[2](leaf) if leaf.cat <= c2[1] else None
    if x is None or x.cat > c1[1]:
        return None
    x = c1[2](x)
    return None if x.cat > f[1] else f[2](x)


def _e3(f, c1, c2, c3, leaf):
    x = c3[2](leaf)
    for c in (c2, c1):
        if x.cat > c[1]:
            return None
        x = c[2](x)
    return None if x.cat > f[1] else f[2](x)


def twohole():
    z, w = ident("z"), ident("w")
    seven = num("7")
    return [
        ("fn", B, B, lambda g, h: fn("coalesce", g, h)),
        ("fn3", B, B, lambda g, h: fn("if", z, g, h)),
        ("paren", B, B, lambda g, h: paren(g, h)),
        ("array", B, B, lambda g, h: array(g, h)),
        ("add", P, P, lambda g, h: arith(g, "+", h)),
        ("mulsub", P, P, lambda g, h: arith(g, "*", h, "-", seven)),
        ("bit", A, A, lambda g, h: bitop(g, "|", h)),
        ("cat3", A, A, lambda g, h: bitop(g, "||", string("'-'"), "||", h)),
        ("eq", X, X, lambda g, h: cond(g, "=", h)),
        ("lt", X, X, lambda g, h: cond(g, "<=", h)),
        ("like", X, X, lambda g, h: cond(g, ("not", "like"), h)),
        ("in", X, B, lambda g, h: cond(g, ("in",), paren(seven, h))),
        ("insel", X, B, lambda g, h: cond(g, ("not", "in"), paren(select([z], frm=T, where=h)))),
        ("btw", X, X, lambda g, h: between(z, g, h)),
        ("btw2", X, X, lambda g, h: between(g, h, seven)),
        ("and", C, C, lambda g, h: boolean(g, "and", h)),
        ("or", C, C, lambda g, h: boolean(g, "or", h)),
        ("andor", C, C, lambda g, h: boolean(z, "and", g, "or", h)),
        ("notand", C, C, lambda g, h: boolean(nott(g), "and", h)),
        ("case", B, B, lambda g, h: case(None, [(g, h)], None)),
        ("case2", B, B, lambda g, h: case(None, [(z, g), (w, seven)], h)),
        ("case3", X, B, lambda g, h: case(g, [(seven, z), (h, w)], None)),
        ("index", P, B, lambda g, h: index(fn("f", g), h)),
        ("over", B, X, lambda g, h: over(fn("sum", g), partition=(z,), order=(oitem(h, "desc"),))),
        ("over2", X, X, lambda g, h: over(fn("rank"), partition=(g, h), order=(oitem(z),))),
        ("filter", B, B, lambda g, h: filt(fn("sum", g), h)),
        ("agg", A, A, lambda g, h: array_agg(g, nulls="ignore", order=(oitem(h, "desc"),), limit="3")),
        ("cast", X, X, lambda g, h: fn("f", cast(g, "int64"), cast(h, "string"))),
        ("alias", B, B, lambda g, h: fn("struct", alias(g, "n1", True), alias(h, "n2", True))),
        ("subq", B, B, lambda g, h: paren(select([g, z], frm=T, where=h))),
    ]


def twohole_frames():
    z = ident("z")
    return [
        ("sel", B, lambda h: select([h], frm=T)),
        ("item", B, lambda h: select([z, alias(h, "n", True), num("1")], frm=T, semi=True)),
        ("where", B, lambda h: select([z], frm=T, where=h, group=[z], limit=num("5"))),
        ("on", B, lambda h: select([z], frm=join(T, ("left", "join"), falias(table("u"), "u1", False), on=h), where=z)),
        ("order", X, lambda h: select([z], frm=T, order=[oitem(h, "desc"), oitem(z)])),
        ("fromsub", B, lambda h: select([z], frm=falias(fparen(sel1(h, where=z)), "s", False), having=z)),
    ]


def _b(f, th, c1, c2):
    l1, l2 = ident("p"), string("'q'")
    x = c1[2](l1)
    y = c2[2](l2)
    if x.cat > th[1] or y.cat > th[2]:
        return None
    n = th[3](x, y)
    return None if n.cat > f[1] else f[2](n)


def fillers():
    """one context of each shape, for holes of larger structures"""
    want = (
        "paren fn2a cast count aggo arr2 idx casew caset extract filter overp2 overo "
        "addl mull subr bitr cat eql ner like isnn inl ninr insub btwl nbtw not andl orm subq"
    ).split()
    by = {c[0]: c for c in contexts()}
    return [("id", B, lambda h: h)] + [by[w] for w in want]


# ------------------------------------------------------------------- clauses
def _clauses(quant, items, frm, where, group, having, order, limit, offset, semi):
    kw_ = {}
    if quant == "on":
        kw_["distinct_on"] = [ident("k"), fn("f", ident("k2"))]
    elif quant:
        kw_["quant"] = quant
    group_, rollup, each = group
    return select(
        items,
        frm=frm,
        where=where,
        group=group_,
        rollup=rollup,
        each=each,
        having=having,
        order=order,
        limit=limit,
        offset=offset,
        semi=semi,
        trailing_comma=False,
        **kw_
    )


def clause_axes(big):
    x, y = ident("x"), chain("r", "y")
    longcond = boolean(
        cond(ident("a_rather_long_column_name"), "=", string("'some literal value'")),
        "and",
        cond(ident("another_quite_long_column"), ">", num("100000")),
        "or",
        cond(x, ("is",), kw("null")),
    )
    quants = [None, "distinct", "all", "on"]
    items = [
        [star()],
        [x],
        [x, alias(fn("max", y), "m", True)],
        [chain("r", "*"), alias(case(None, [(cond(x, "=", one), y)], None), "c", False), string("'from'")],
        [except_(star(), ident("k"))],
        [replace_(star(), alias(one, "k", True), alias(y, "l", True)), x],
    ]
    froms = [
        None,
        T,
        falias(table("ds", "t"), "r", True),
        fparen(sel1(x)),
        join(T, ("join",), table("u"), using=[x]),
        falias(fparen(sel1(x, where=y)), "q", False),
    ]
    wheres = [None, cond(x, "=", one), longcond, paren(boolean(x, "or", y))]
    groups = [
        (None, False, False),
        ([one], False, False),
        ([x, y], False, False),
        ([x, y], True, False),
        ([x], False, True),
    ]
    havings = [None, cond(count(star()), ">", one), paren(longcond)]
    orders = [None, [oitem(x)], [oitem(one, "asc"), oitem(y, "desc")]]
    limits = [None, num("10"), paren(num("1"))]
    offsets = [None, num("5")]
    semis = [False, True]
    if not big:
        items = items[:3]
        froms = [froms[0], froms[2], froms[4]]
        wheres = wheres[:3]
        groups = [groups[0], groups[2], groups[3]]
        havings = havings[:2]
        limits = limits[:2]
    return [quants, items, froms, wheres, groups, havings, orders, limits, offsets, semis]


# ---------------------------------------------------------------------- FROM
def from_items():
    s1 = sel1(ident("m"))
    s2 = select([ident("m"), ident("n")], frm=falias(table("v"), "w", False), where=ident("o"), limit=num("3"))
    return [
        table("t"),
        table("ds", "t"),
        table("`p.ds.t`"),
        table("`ds`", "`t`"),
        table("p.ds:t", bracket=True) if False else table("ds", "t", bracket=True),
        fparen(s1),
        fparen(s2),
        fparen(table("t")),
        fparen(join(table("t"), ("left", "join"), table("u"), on=cond(ident("i"), "=", ident("j")))),
        fparen(with_([("cte", s1)], select([star()], frm=table("cte")))),
        fparen(compound(s1, [(("union", "all"), s2)])),
        fn_table(fn("gen", num("1"), num("9"))),
    ]


def fn_table(f):
    return N("table", f.t, f.s)


FALIAS = [
    lambda i: i,
    lambda i: falias(i, "x1", True),
    lambda i: falias(i, "x2", False),
    lambda i: falias(i, "`x3`", True),
    lambda i: falias(i, '"x4"', False),
]


def unnests():
    u = ident("arr")
    return [
        unnest(u),
        unnest(u, "e", True),
        unnest(u, "e", False),
        unnest(u, None, False, True),
        unnest(u, "e", True, True),
        unnest(chain("x", "arr"), "e", False, True, "off", True),
        unnest(array(num("1"), num("2")), "e", True, True, "off", False),
        unnest(fn("split", u, string("','")), None, False, True, "off", True),
    ]


JOINS = [
    ",",
    ("join",),
    ("inner", "join"),
    ("left", "join"),
    ("left", "outer", "join"),
    ("right", "join"),
    ("right", "outer", "join"),
    ("full", "join"),
    ("full", "outer", "join"),
    ("cross", "join"),
    ("natural", "join"),
    ("natural", "left", "join"),
    ("join", "each"),
    ("inner", "join", "each"),
]


def free_join(kind):
    return kind == "," or kind[0] in ("cross", "natural")


def constraints():
    return [
        (None, None),
        (cond(chain("x1", "i"), "=", chain("x2", "i")), None),
        (boolean(cond(ident("i"), "=", ident("j")), "and", cond(ident("k"), ">", num("1"))), None),
        (paren(cond(ident("i"), "=", ident("j"))), None),
        (cond(fn("left", ident("i"), num("1")), "=", fn("right", ident("j"), num("1"))), None),
        (None, [ident("i")]),
        (None, [ident("i"), ident("j")]),
    ]


def _f1(item, al, tail):
    return tail(select([ident("z")], frm=al(item)))


def _mk_from(frm, where):
    return select([ident("z"), star()], frm=frm, where=where)


def _f2(l, la, kind, r, ra, con, where):
    on, using = con
    if free_join(kind) != (on is None and using is None):
        return None
    return _mk_from(join(la(l), kind, ra(r), on=on, using=using), where)


def _f3(l, k1, m, c1, k2, r, c2, where):
    if free_join(k1) != (c1[0] is None and c1[1] is None):
        return None
    if free_join(k2) != (c2[0] is None and c2[1] is None):
        return None
    j = join(l, k1, m, on=c1[0], using=c1[1])
    return _mk_from(join(j, k2, r, on=c2[0], using=c2[1]), where)


# ------------------------------------------------------------- set operators
SETWORDS = [
    ("union",),
    ("union", "all"),
    ("union", "distinct"),
    ("intersect",),
    ("intersect", "distinct"),
    ("except",),
    ("except", "distinct"),
    ("except", "all"),
]


def queries():
    return [
        sel1(ident("a")),
        select([num("1")]),
        select([star()], frm=table("u"), where=cond(ident("b"), "=", string("'union'"))),
        select([ident("a"), ident("b")], frm=falias(table("u"), "u1", False), group=[num("1")], having=ident("h")),
        select([except_(star(), ident("b"))], quant="distinct", frm=fparen(sel1(star()))),
        select([ident("a")], quant="all", frm=join(T, ("join",), table("u"), using=[ident("k")])),
    ]


def right_queries():
    return queries() + [
        fparen(sel1(ident("a"), order=[oitem(ident("a"))], limit=num("1"))),
        fparen(compound(sel1(ident("a")), [(("union",), sel1(ident("b")))])),
    ]


def tails():
    return [
        dict(),
        dict(semi=True),
        dict(order=[oitem(num("1"))]),
        dict(order=[oitem(ident("a"), "desc"), oitem(num("2"))], limit=num("3"), offset=num("4"), semi=True),
        dict(limit=num("3")),
    ]


def set_frames():
    z = ident("z")
    return [
        lambda q: q,
        lambda q: select([z], frm=fparen(q)),
        lambda q: select([z], frm=falias(fparen(q), "s", True), where=z),
        lambda q: select([z], frm=join(T, ("join",), falias(fparen(q), "s", False), on=z)),
        lambda q: with_([("w1", q)], select([z], frm=table("w1"))),
        lambda q: select([z], frm=T, where=cond(z, ("in",), paren(q))),
        lambda q: select([z, fn("array", q)], frm=T),
    ]


def _s2(f, a, w, b, tail):
    if tail.get("semi") and f is not set_frames_id:
        return None
    return f(compound(a, [(w, b)], **tail))


def set_frames_id(q):
    return q


def _s3(f, a, w1, b, w2, c, tail):
    if tail.get("semi") and f is not set_frames_id:
        return None
    return f(compound(a, [(w1, b), (w2, c)], **tail))


def paren_set_frames():
    z = ident("z")
    return [
        lambda q: select([z], frm=fparen(q)),
        lambda q: select([z], frm=falias(fparen(q), "s", True), where=z),
        lambda q: select([z], frm=join(falias(fparen(q), "s", False), ("left", "join"), T, on=z)),
        lambda q: select([z], frm=join(T, ("join",), falias(fparen(q), "`s`", True), using=[z]), order=[oitem(z)]),
        lambda q: with_([("w1", select([z], frm=fparen(q)))], select([z], frm=table("w1"))),
        lambda q: select([z, num("1")], frm=T, where=cond(z, ("in",), paren(select([z], frm=fparen(q))))),
    ]


def _s4(f, a, w1, b, w2, c):
    return f(compound(fparen(a), [(w1, b)] + ([(w2, c)] if w2 else [])))


# ---------------------------------------------------------------------- WITH
def _w(names, q1, q2, body):
    pairs = [(names[0], q1)]
    if q2 is not None:
        pairs.append((names[1], q2))
    return with_(pairs, body)


def with_bodies():
    return [
        select([star()], frm=table("w1")),
        select([ident("a"), chain("w2", "b")], frm=join(table("w1"), ("left", "join"), table("w2"), on=cond(ident("a"), "=", ident("b"))), semi=True),
        select([ident("a")], frm=fparen(sel1(ident("a"))), where=cond(ident("a"), ("in",), paren(sel1(star()))), order=[oitem(num("1"))]),
        compound(sel1(ident("a")), [(("union", "all"), select([ident("b")], frm=table("w2")))]),
    ]


# ------------------------------------------------------- parts of one construct
WINDOW_FRAMES = [None] + [
    tuple(("%s %s" % (u, r)).split())
    for u in ("rows", "range")
    for r in (
        "unbounded preceding",
        "current row",
        "2 preceding",
        "between unbounded preceding and current row",
        "between 1 preceding and 10 following",
        "between current row and unbounded following",
        "between unbounded preceding and unbounded following",
    )
]


def window_axes():
    z, w = ident("z"), chain("t", "w")
    return [
        main_places(),
        [fn("f"), fn("sum", z), count(star()), fn("lag", z, num("1"), string("'x'")), array_agg(z), filt(fn("sum", z), w)],
        [(), (z,), (w, fn("g", z))],
        [(), (oitem(z),), (oitem(w, "desc"),), (oitem(fn("g", z), "asc"), oitem(w))],
        WINDOW_FRAMES,
    ]


def main_places():
    by = {f[0]: f for f in frames()}
    return [by[n] for n in ("sel", "asmid", "where", "order2", "fromsuba")]


def agg_axes():
    z = ident("z")
    return [
        main_places(),
        [lambda x: x, lambda x: fn("f", x), lambda x: index(x, fn("offset", num("0"))), lambda x: over(x, partition=(z,)), lambda x: filt(x, z)],
        [z, fn("struct", z, alias(num("1"), "k", True)), case(None, [(z, num("1"))], None)],
        [False, True],
        [None, "ignore", "respect"],
        [(), (oitem(z),), (oitem(chain("t", "w"), "desc"), oitem(z, "asc"))],
        [None, "1", "25", "0"],
    ]


def _agg(f, wrap, a, distinct, nulls, order, limit):
    return f[2](wrap(array_agg(a, distinct=distinct, nulls=nulls, order=order, limit=limit)))


def case_axes():
    z = ident("z")
    whens = [z, cond(z, "=", num("1")), boolean(z, "and", cond(z, ("in",), paren(num("1"), num("2")))), fn("f", z), case(None, [(z, num("3"))], None)]
    thens = [string("'r'"), fn("f", z, num("1")), case(z, [(num("4"), num("5"))], z)]
    return [
        main_places(),
        [None, z, fn("f", z)],
        range(1, 5),
        whens,
        whens[:2],
        thens,
        [None, num("0"), string("'else'"), thens[2]],
    ]


def _case(f, operand, n, w1, w2, t, els):
    if operand is not None and w1.cat > X:
        return None
    rows = [(w1 if i % 2 == 0 else w2, t if i == n - 1 else num(str(i))) for i in range(n)]
    return f[2](case(operand, rows, els))


def clause_ends():
    """Statements that end with a hole in each clause."""
    z, t, u = ident("z"), T, table("u")
    return [
        ("sel", B, lambda h: select([h])),
        ("selas", B, lambda h: select([z, alias(h, "n", True)])),
        ("selnoas", B, lambda h: select([alias(h, "n", False)])),
        ("where", B, lambda h: select([z], frm=t, where=h)),
        ("group", X, lambda h: select([z], frm=t, group=[z, h])),
        ("having", B, lambda h: select([z], frm=t, group=[z], having=h)),
        ("on", B, lambda h: select([z], frm=join(t, ("join",), u, on=h))),
    ]


def from_ends():
    z = ident("z")
    s = fparen(sel1(z))
    out = [table("t"), table("`p.ds.t`"), s, fn_table(fn("gen", num("1")))]
    out += [falias(i, n, a) for i in (table("ds", "t"), s) for n, a in (("x1", True), ("x2", False), ("`x3`", True), ("Group_1", False))]
    out += unnests()
    j = [("join",), ("left", "outer", "join"), ("cross", "join"), ",", ("natural", "join")]
    for k in j:
        for r in out[:]:
            if r.k == "join":
                continue
            if free_join(k):
                out.append(join(table("a1"), k, r))
    out += [join(table("a1"), j[0], falias(table("u"), "u1", False), using=[z, ident("y")]), join(table("a1"), j[1], unnests()[4], on=cond(z, "=", z))]
    return out


def followers():
    z, u = ident("z"), ident("u")
    other = select([u], frm=table("u"))
    def comp(w):
        return lambda q: compound(q, [(w, other)])
    out = [lambda q: q]
    out += [comp(w) for w in SETWORDS]
    out += [
        lambda q: compound(other, [(("union",), q), (("except",), other)]),
        lambda q: compound(other, [(("union", "all"), q)], order=[oitem(num("1"))]),
        lambda q: compound(other, [(("union", "all"), q)], limit=num("1")),
        lambda q: select([z], frm=fparen(q)),
        lambda q: select([z], frm=falias(fparen(q), "s", False), where=u),
        lambda q: select([z], frm=join(T, ("join",), fparen(q), using=[z])),
        lambda q: with_([("w1", q)], other),
        lambda q: with_([("w1", other), ("w2", q), ("w3", other)], other),
        lambda q: with_([("w1", other)], q),
        lambda q: select([fn("f", paren(q), z)], frm=T),
        lambda q: select([z], frm=T, where=cond(z, ("in",), paren(q)), limit=num("1")),
    ]
    return out


def _kend(c, leaf, follow):
    return follow(c[2](leaf)) if leaf.cat <= c[1] else None


def from_clauses():
    z = ident("z")
    return [
        {},
        dict(where=z),
        dict(group=[z]),
        dict(group=[z, num("1")], rollup=True),
        dict(having=z),
        dict(order=[oitem(z, "desc")]),
        dict(limit=num("1")),
        dict(offset=num("1")),
        dict(semi=True),
        dict(where=z, limit=num("1"), offset=num("2"), semi=True),
    ]


# ------------------------------------------------------------------- lengths
def _pad(n):
    """an identifier of n characters"""
    return ident(("x" * n) if n else "x")


def _len_bool(f, total, left, shape):
    """A boolean chain whose one-line text has exactly `total` characters."""
    r = total - left - 5
    if r < 1:
        return None
    a, b = _pad(left), _pad(r)
    if shape == "plain":
        n = boolean(a, "and", b)
    elif shape == "paren":
        if left < 8:
            return None
        n = boolean(paren(boolean(_pad(2), "or", _pad(left - 8))), "and", b)
    elif shape == "mid":
        if r < 6:
            return None
        n = boolean(a, "and", _pad(1), "or", _pad(r - 5))
    elif shape == "fn":
        if left < 4:
            return None
        n = boolean(fn("f", _pad(left - 3)), "and", b)
    else:
        if left < 5:
            return None
        n = boolean(cond(_pad(1), "=", _pad(left - 4)), "and", b)
    return f[2](n) if n.cat <= f[1] else None


def _len_fn(f, total, left, shape):
    """A call whose arguments joined by ', ' have exactly `total` characters."""
    r = total - left - 2
    if r < 1:
        return None
    if shape == "plain":
        n = fn("concat", _pad(left), _pad(r))
    elif shape == "nested":
        if left < 4:
            return None
        n = fn("concat", fn("f", _pad(left - 3)), _pad(r))
    elif shape == "three":
        if r < 4:
            return None
        n = fn("concat", _pad(left), _pad(1), _pad(r - 3))
    elif shape == "string":
        if r < 3:
            return None
        n = fn("concat", _pad(left), string("'%s'" % ("s" * (r - 2))))
    else:
        n = fn("g", fn("concat", _pad(left), _pad(r)))
    return f[2](n)


@functools.lru_cache(maxsize=None)
def _operands(big):
    """operands of a boolean chain that are narrow, near the line length or wider than a line"""
    z, y = ident("z"), ident("y")
    out = []
    for n in (1, 84, 90):
        x = _pad(n)
        out += [
            x,
            cond(x, "=", y),
            paren(boolean(x, "or", y)),
            paren(boolean(z, "and", x)),
            nott(paren(boolean(x, "or", y))),
            fn("f", x, y),
            cond(x, ("in",), paren(sel1(z))),
            paren(sel1(x)),
            cond(paren(sel1(x)), "=", y),
            fn("exists", sel1(x)),
            paren(boolean(paren(boolean(x, "and", y)), "or", z)),
        ]
        if big:
            out += [
                between(x, y, z),
                paren(boolean(x, "or", fn("exists", sel1(z)))),
                paren(nott(x)),
                nott(cond(x, "=", y)),
                paren(x),
                case(None, [(boolean(x, "and", y), z)], y),
            ]
    return [o for o in out if o is not None]


def _width(f, a, w, b, w2, c):
    n = boolean(a, w, b) if w2 is None else boolean(a, w, b, w2, c)
    return f[2](n) if n.cat <= f[1] else None


# ---------------------------------------------------------------------- deep
def _deep(f, c, depth, leaf):
    x = leaf
    for _ in range(depth):
        if x.cat > c[1]:
            return None
        x = c[2](x)
    return None if x.cat > f[1] else f[2](x)


def _deepfrom(depth, kind, al):
    q = sel1(ident("z"))
    for i in range(depth):
        item = fparen(q)
        if kind == "plain":
            frm = al(item)
        elif kind == "left":
            frm = join(al(item), ("join",), table("u"), using=[ident("k")])
        else:
            frm = join(table("u"), ("left", "join"), al(item), on=cond(ident("k"), "=", ident("l")))
        q = select([ident("z"), ident("y")], frm=frm)
    return q


@functools.lru_cache(maxsize=None)
def families(tier):
    big = tier == "thorough"
    F, CX, LB, LF = frames(), contexts(), leaves_basic(), leaves_full()
    sets = set_frames()
    sets[0] = set_frames_id
    byname = {f[0]: f for f in F}
    main_frames = [byname[n] for n in ("sel", "asmid", "where", "wherefull", "group3", "having", "order2", "onw", "fromsuba", "union2")]
    two_frames = twohole_frames()
    fl = fillers()
    id_ = FALIAS[0]
    z = ident("z")
    n_items = from_items()
    out = [
        Family("E0 leaf in every frame", [F, LF], _e0),
        Family("E1 context in every frame", [F, CX, LB], _e1),
        Family("B two holes", [two_frames if big else two_frames[:3], twohole(), fl, fl if big else fl[::3]], _b),
        Family("Q clause subsets", clause_axes(big), _clauses),
        Family(
            "F1 from item",
            [
                n_items + unnests(),
                FALIAS,
                [
                    lambda q: q,
                    lambda q: select([z], frm=fparen(q)),
                    lambda q: select([z], frm=join(falias(fparen(q), "j", True), ("join",), table("u"), using=[z])),
                    lambda q: fnsub(q),
                ],
            ],
            lambda i, a, t: None if i.k == "unnest" and a is not id_ else _f1(i, a, t),
        ),
        Family(
            "F2 two items joined",
            [n_items, FALIAS if big else FALIAS[:3], JOINS, n_items + unnests(), [id_, FALIAS[2]], constraints(), [None, cond(z, "=", one)]],
            lambda l, la, k, r, ra, c, w: None if r.k == "unnest" and ra is not id_ else _f2(l, la, k, r, ra, c, w),
        )
        if big
        else Family(
            "F2 two items joined",
            [n_items[:9:2], FALIAS[:3], JOINS, n_items[::2] + unnests()[1::3], [id_, FALIAS[2]], constraints()[:6:2] + constraints()[4:5], [None, cond(z, "=", one)]],
            lambda l, la, k, r, ra, c, w: None if r.k == "unnest" and ra is not id_ else _f2(l, la, k, r, ra, c, w),
        ),
        Family(
            "F3 three items joined",
            [
                [table("t"), falias(fparen(sel1(z)), "x1", False)],
                JOINS if big else JOINS[:12:3],
                [table("u"), falias(table("u"), "x2", True), fparen(sel1(z)), unnests()[4]],
                constraints(),
                JOINS if big else JOINS[1:12:3] + [","],
                [table("v"), falias(fparen(sel1(z)), "`x3`", True)],
                constraints()[:5],
                [None, z],
            ],
            _f3,
        ),
        Family("O window parts", window_axes(), lambda f, e, p, o, fr: f[2](over(e, partition=p, order=o, frame=fr))),
        Family("A array_agg parts", agg_axes(), _agg),
        Family("V case parts", case_axes(), _case),
        Family("K clause end and what follows", [clause_ends(), LF + [c[2](z) for c in CX], followers()], _kend),
        Family("K2 from end and what follows", [from_ends(), from_clauses()], lambda i, c: select([z], frm=i, **c)),
        Family("K3 from end before another query", [from_ends(), followers()], lambda i, f: f(select([z], frm=i))),
        Family("S2 set operator", [sets, queries(), SETWORDS, right_queries(), tails()], _s2),
        Family(
            "S4 set operators of queries in parentheses",
            [
                paren_set_frames(),
                queries()[:: 1 if big else 2],
                SETWORDS,
                right_queries() + [fparen(q) for q in queries()[1:4]],
                [None] + SETWORDS[:: 1 if big else 2],
                [fparen(sel1(ident("d"))), queries()[4], table("v")],
            ],
            _s4,
        ),
        Family(
            "S3 two set operators",
            [sets if big else sets[:2], queries()[:4] if big else queries()[2:4], SETWORDS if big else SETWORDS[1::3], right_queries(), SETWORDS if big else SETWORDS[::3], right_queries() if big else right_queries()[3:], tails()[2:4]],
            _s3,
        ),
        Family(
            "W with",
            [
                [("w1", "w2"), ("Cte_A", "b")],
                queries() + [with_([("w0", sel1(ident("a")))], select([star()], frm=table("w0")))],
                [None] + queries(),
                with_bodies(),
            ],
            _w,
        ),
        Family(
            "L1 boolean chains around the line length",
            [[byname[n] for n in ("where", "having", "on", "sel", "asmid", "fromsuba")], range(80, 96), (1, 5, 8, 9, 30, 44, 60, 75, 82), ("plain", "paren", "mid", "fn", "cond")],
            _len_bool,
        ),
        Family(
            "L2 arguments around the line length",
            [[byname[n] for n in ("sel", "where", "asmid", "group3", "order2", "fromsuba")], range(80, 96), (1, 5, 40, 70, 84), ("plain", "nested", "three", "string", "outer")],
            _len_fn,
        ),
        Family(
            "L3 wide operands of boolean chains",
            [[byname[n] for n in ("where", "having", "on", "sel", "asmid", "fromsuba")][:: 1 if big else 2], _operands(big), ("and", "or"), _operands(big), (None, "and") if big else (None,), _operands(big)[::9] if big else _operands(big)[:1]],
            lambda f, a, w, b, w2, c: None if w2 is None and c is not _operands(big)[0] else _width(f, a, w, b, w2, c),
        ),
        Family("D repeated context", [[byname["sel"], byname["where"], byname["order2"]], CX, (3, 5, 8) if big else (3, 6), LB[:2]], _deep),
        Family("G nested FROM", [range(1, 9), ("plain", "left", "right"), FALIAS[:3]], _deepfrom),
        Family("E2 two nested contexts", [main_frames if big else main_frames[0:7:3], CX, CX, LB if big else LB[:1]], _e2),
    ]
    if big:
        out.append(Family("E3 three nested contexts", [main_frames[:3], CX, CX, CX, LB[1:2]], _e3))
    return out


def fnsub(q):
    return select([fn("array", q)], frm=T)


def shard_list(tier, names=None, per=4000):
    out = []
    for fi, fam in enumerate(families(tier)):
        if names and fam.name.split(" ")[0] not in names:
            continue
        n = max(1, -(-fam.size // per))
        for i in range(n):
            out.append((fam.name, fi, fam.size * i // n, fam.size * (i + 1) // n, tier))
    return out


def runs(desc, rec):
    name, fi, lo, hi, tier = desc
    fam = families(tier)[fi]
    return fam.runs(lo, hi, rec)
