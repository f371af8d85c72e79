"""The transition systems whose complete runs are SELECT statements.

A state is a partial query: a statement frame plus a stack of expression contexts
with one open hole.  A transition plugs a context or a leaf into the hole.  All
runs up to the stated bounds are generated, none is sampled.
"""
from mc.sqlmodel import *  # noqa

a_, b_, c_ = ident("a"), ident("b"), ident("c")
one, two = num("1"), num("2")
T = table("t")


def sel1(x, **kw_):
    return select([x], frm=T, **kw_)


# ------------------------------------------------------------------ leaves
def leaves_basic():
    return [
        ident("col"),
        chain("x", "y"),
        num("1"),
        string("'s'"),
        fn("f", ident("q")),
        paren(ident("p")),
    ]


def leaves_full():
    return leaves_basic() + [
        ident("Col_Name"),
        ident("date"),
        ident("offset_x"),
        ident("from_date"),
        ident("selected"),
        ident("order_id"),
        ident("ends"),
        ident("%s"),
        ident(":name"),
        ident("{var}"),
        ident("?"),
        ident("_x1"),
        chain("x", "y", "z"),
        chain("`a`", "b"),
        chain("a", "`b`"),
        num("0"),
        num("10"),
        num("1.5"),
        num("0.00001"),
        num("100.250"),
        num("-1"),
        num("-2.5"),
        kw("null"),
        kw("true"),
        kw("false"),
        string('"d q"'),
        string("`back`"),
        string("r'raw'"),
        string("''"),
        string("'it\\'s'"),
        fn("now"),
        fn("g", ident("a"), num("2"), string("'x, y'")),
        fn("date", ident("date")),
        fn("current_date"),
        fn("left", ident("a"), num("2")),
        paren(ident("a"), ident("b")),
        paren(arith(ident("a"), "+", num("1"))),
        paren(boolean(ident("a"), "or", ident("b"))),
        paren(sel1(ident("m"))),
        paren(paren(num("1"))),
        case(None, [(cond(a_, "=", one), b_)], c_),
        case(a_, [(one, b_), (two, string("'z'"))], None),
        cast(ident("a"), "int64"),
        cast(ident("a"), "date"),
        count(star()),
        count(ident("a"), distinct=True),
        count(ident("a"), ident("b"), fn("g", ident("c")), distinct=True),
        count(ident("a"), num("2"), ident("c")),
        array(ident("a"), num("1")),
        array(),
        index(ident("arr"), num("0")),
        index(chain("x", "arr"), fn("offset", num("1"))),
        index(index(fn("f", a_), num("0")), num("1")),
        index(fn("split", a_, string("':'")), fn("safe_offset", num("0"))),
        dotted(index(chain("n", "arr"), fn("offset", num("3"))), index(ident("m"), num("0"))),
        extract("day", ident("d")),
        array_agg(ident("a")),
        array_agg(ident("a"), distinct=True, nulls="ignore", order=(oitem(b_, "desc"), oitem(c_)), limit="3"),
        array_agg(ident("a"), nulls="respect"),
        filt(count(star()), ident("a")),
        over(fn("f", ident("q"))),
        over(fn("f"), partition=(ident("a"),)),
        over(fn("f"), order=(oitem(ident("a"), "desc"),)),
        over(
            fn("f"),
            partition=(ident("a"), ident("b")),
            order=(oitem(ident("c"), "asc"), oitem(ident("d"))),
            frame=("rows", "between", "1", "preceding", "and", "current", "row"),
        ),
        over(fn("f"), frame=("range", "between", "unbounded", "preceding", "and", "unbounded", "following")),
        fn("array", sel1(ident("m"))),
        fn("exists", select([one], frm=T, where=cond(a_, "=", one))),
        fn("struct", alias(ident("a"), "b", True), ident("c")),
        neg(ident("a")),
        neg(neg(num("1"))),
        neg(fn("f", ident("a"))),
        colcast("Col", typ="int64"),
        colcast("Col", typ="Varchar", args=(num("10"),)),
        colcast("x", "Col", typ="numeric", args=(num("10"), num("2"))),
        colcast("x", "y", typ="Date"),
        colcast("a", typ="int::text"),
    ]


# ---------------------------------------------------- expression contexts
# (name, loosest category the hole takes, build)
def contexts():
    return [
        ("paren", B, lambda h: paren(h)),
        ("paren2a", B, lambda h: paren(h, ident("z"))),
        ("paren2b", B, lambda h: paren(num("7"), h)),
        ("fn1", B, lambda h: fn("abs", h)),
        ("fn2a", B, lambda h: fn("if", h, num("7"))),
        ("fn2b", B, lambda h: fn("coalesce", ident("z"), h)),
        ("fn3", B, lambda h: fn("if_", ident("z"), h, num("7"))),
        ("fnas", B, lambda h: fn("struct", alias(h, "nm", True), ident("z"))),
        ("cast", B, lambda h: cast(h, "timestamp")),
        ("count", B, lambda h: count(h)),
        ("countd", B, lambda h: count(h, distinct=True)),
        ("agg", B, lambda h: array_agg(h)),
        ("aggd", B, lambda h: array_agg(h, distinct=True, order=(oitem(ident("z")),))),
        ("aggo", B, lambda h: array_agg(ident("z"), order=(oitem(h, "desc"), oitem(ident("w"))), limit="2")),
        ("arr1", B, lambda h: array(h)),
        ("arr2", B, lambda h: array(ident("z"), h)),
        ("idx", B, lambda h: index(ident("arr"), h)),
        ("idxf", B, lambda h: index(fn("split", ident("z")), h)),
        ("casew", B, lambda h: case(None, [(h, ident("z"))], None)),
        ("caset", B, lambda h: case(None, [(ident("z"), h)], None)),
        ("casee", B, lambda h: case(None, [(ident("z"), num("7"))], h)),
        ("caseo", B, lambda h: case(h, [(num("7"), ident("z"))], ident("w"))),
        ("case2", B, lambda h: case(ident("z"), [(num("7"), ident("w")), (h, num("8"))], num("9"))),
        ("extract", X, lambda h: extract("year", h)),
        ("filter", B, lambda h: filt(fn("sum", ident("z")), h)),
        ("overf", B, lambda h: over(fn("sum", h), partition=(ident("z"),))),
        ("overp", B, lambda h: over(fn("rank"), partition=(h,))),
        ("overp2", B, lambda h: over(fn("rank"), partition=(ident("z"), h), order=(oitem(ident("w")),))),
        ("overo", B, lambda h: over(fn("rank"), order=(oitem(h, "desc"),))),
        ("overo2", B, lambda h: over(fn("rank"), partition=(ident("z"),), order=(oitem(ident("w"), "asc"), oitem(h)))),
        ("addl", P, lambda h: arith(h, "+", ident("z"))),
        ("addr", A, lambda h: arith(ident("z"), "+", h)),
        ("subr", A, lambda h: arith(num("7"), "-", h)),
        ("mull", P, lambda h: arith(h, "*", num("7"))),
        ("divr", A, lambda h: arith(ident("z"), "/", h)),
        ("mid", P, lambda h: arith(ident("z"), "+", h, "-", num("7"))),
        ("bitl", A, lambda h: bitop(h, "&", num("7"))),
        ("bitr", X, lambda h: bitop(ident("z"), "|", h)),
        ("cat", X, lambda h: bitop(ident("z"), "||", h)),
        ("eql", X, lambda h: cond(h, "=", num("7"))),
        ("eqr", X, lambda h: cond(ident("z"), "=", h)),
        ("nel", X, lambda h: cond(h, "<>", num("7"))),
        ("ner", X, lambda h: cond(ident("z"), "!=", h)),
        ("ltr", X, lambda h: cond(ident("z"), "<", h)),
        ("gel", X, lambda h: cond(h, ">=", ident("z"))),
        ("like", X, lambda h: cond(h, ("like",), string("'%z%'"))),
        ("nlike", X, lambda h: cond(h, ("not", "like"), string("'%z%'"))),
        ("contains", X, lambda h: cond(h, ("contains",), string("'z'"))),
        ("ncontains", X, lambda h: cond(h, ("not", "contains"), string("'z'"))),
        ("isnull", X, lambda h: cond(h, ("is",), kw("null"))),
        ("isnn", X, lambda h: cond(h, ("is", "not"), kw("null"))),
        ("istrue", X, lambda h: cond(h, ("is",), kw("true"))),
        ("inl", X, lambda h: cond(h, ("in",), paren(num("7"), num("8")))),
        ("inr", B, lambda h: cond(ident("z"), ("in",), paren(num("7"), h))),
        ("ninl", X, lambda h: cond(h, ("not", "in"), paren(num("7")))),
        ("ninr", B, lambda h: cond(ident("z"), ("not", "in"), paren(h, num("8")))),
        ("insub", B, lambda h: cond(ident("z"), ("in",), paren(sel1(h)))),
        ("inunn", B, lambda h: cond(ident("z"), ("in",), fn("unnest", h))),
        ("btw", X, lambda h: between(h, num("7"), num("8"))),
        ("btwl", X, lambda h: between(ident("z"), h, num("8"))),
        ("btwr", X, lambda h: between(ident("z"), num("7"), h)),
        ("nbtw", X, lambda h: between(h, num("7"), num("8"), negated=True)),
        ("not", C, lambda h: nott(h)),
        ("andl", C, lambda h: boolean(h, "and", ident("z"))),
        ("andr", C, lambda h: boolean(ident("z"), "and", h)),
        ("orm", C, lambda h: boolean(ident("z"), "or", h, "and", ident("w"))),
        ("subq", B, lambda h: paren(sel1(h))),
        ("subw", B, lambda h: fn("exists", select([num("7")], frm=T, where=h))),
        ("subo", B, lambda h: fn("array", select([ident("z")], frm=T, order=[oitem(h)], limit=num("7")))),
    ]


# -------------------------------------------------------- statement frames
def frames():
    return [
        ("sel", B, lambda h: select([h], frm=T)),
        ("selsemi", B, lambda h: select([h], frm=T, semi=True)),
        ("selnofrom", B, lambda h: select([h])),
        ("first", B, lambda h: select([h, ident("z")], frm=T)),
        ("mid", B, lambda h: select([ident("z"), h, num("7")], frm=T)),
        ("last", B, lambda h: select([star(), h], frm=T)),
        ("as", B, lambda h: select([alias(h, "nm", True)], frm=T)),
        ("noas", B, lambda h: select([alias(h, "nm", False)], frm=T)),
        ("asmid", B, lambda h: select([ident("z"), alias(h, "nm", True), alias(ident("w"), "v", False)], frm=T)),
        ("noasq", B, lambda h: select([alias(h, "`nm`", False), ident("z")], frm=T)),
        ("distinct", B, lambda h: select([h], quant="distinct", frm=T)),
        ("all", B, lambda h: select([h, ident("z")], quant="all", frm=T)),
        ("don", B, lambda h: select([ident("z")], distinct_on=[h, ident("w")], frm=T)),
        ("tcomma", B, lambda h: select([h], frm=T, trailing_comma=True)),
        ("where", B, lambda h: select([ident("z")], frm=T, where=h)),
        ("wheresemi", B, lambda h: select([ident("z")], frm=T, where=h, semi=True)),
        ("wherefull", B, lambda h: select([ident("z")], frm=T, where=h, group=[ident("z")], having=cond(ident("w"), ">", num("7")), order=[oitem(ident("z"))], limit=num("7"), offset=num("8"))),
        ("whereord", B, lambda h: select([ident("z")], frm=T, where=h, order=[oitem(ident("z"), "desc")])),
        ("wherelim", B, lambda h: select([ident("z")], frm=T, where=h, limit=num("7"))),
        ("whereoff", B, lambda h: select([ident("z")], frm=T, where=h, offset=num("7"), semi=True)),
        ("group1", B, lambda h: select([ident("z")], frm=T, group=[h])),
        ("group2", B, lambda h: select([ident("z")], frm=T, group=[h, num("7")], having=ident("w"))),
        ("group3", B, lambda h: select([ident("z")], frm=T, group=[ident("w"), h], order=[oitem(ident("z"))])),
        ("having", B, lambda h: select([ident("z")], frm=T, group=[ident("z")], having=h)),
        ("havingord", B, lambda h: select([ident("z")], frm=T, group=[ident("z")], having=h, order=[oitem(ident("z"))], limit=num("7"), semi=True)),
        ("order1", B, lambda h: select([ident("z")], frm=T, order=[oitem(h)])),
        ("order1d", B, lambda h: select([ident("z")], frm=T, order=[oitem(h, "desc")], limit=num("7"))),
        ("order2", B, lambda h: select([ident("z")], frm=T, order=[oitem(h, "asc"), oitem(ident("w"), "desc")])),
        ("order3", B, lambda h: select([ident("z")], frm=T, order=[oitem(num("7")), oitem(h)], offset=num("8"))),
        ("on", B, lambda h: select([ident("z")], frm=join(table("t"), ("join",), table("u"), on=h))),
        ("onw", B, lambda h: select([ident("z")], frm=join(table("t"), ("left", "join"), table("u"), on=h), where=ident("w"))),
        ("onj", B, lambda h: select([ident("z")], frm=join(join(table("t"), ("join",), table("u"), on=h), ("inner", "join"), table("v"), using=[ident("k")]))),
        ("fromsub", B, lambda h: select([ident("z")], frm=fparen(sel1(h)))),
        ("fromsuba", B, lambda h: select([ident("z")], frm=falias(fparen(sel1(h)), "s", True), where=ident("w"))),
        ("unnest", B, lambda h: select([ident("z")], frm=unnest(h, "e", True))),
        ("with", B, lambda h: with_([("w1", sel1(h))], select([ident("z")], frm=table("w1")))),
        ("union", B, lambda h: compound(sel1(h), [(("union", "all"), select([ident("z")], frm=table("u")))])),
        ("union2", B, lambda h: compound(sel1(ident("z")), [(("union", "distinct"), select([h], frm=table("u"), where=ident("w")))])),
    ]
