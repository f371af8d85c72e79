"""Reference model of the supported SELECT dialect.

Every constructor builds a node that carries

* ``t``   - the source tokens, each ``(text, role)``;
* ``s``   - the text the formatter's house style prescribes for this node
            (``None`` where the style does not prescribe a unique layout);
* ``cat`` - syntactic category (how much the node binds), used to decide in which
            holes it may stand without parentheses.

Roles: ``k`` keyword (case-insensitive, written upper case by the formatter),
``f`` function name (same), ``i`` identifier (verbatim), ``s`` quoted text
(verbatim), ``n`` number (verbatim), ``o`` operator or punctuation, ``c`` column
cast to a type that has arguments (the type is written upper case), ``d`` source
token that formatting removes (a trailing comma before FROM).

Nothing here looks at the implementation.  ``\\x01`` stands for a newline inside
a quoted literal, so that indenting never touches literals.
"""

WIDTH = 88

# categories: how tightly an expression binds
P, A, X, C, B = range(5)  # primary, arithmetic, bitwise, condition, boolean


class N:
    __slots__ = ("k", "t", "s", "cat", "inner", "x")

    def __init__(self, k, t, s, cat=P, inner=None, x=None):
        self.k = k
        self.t = t
        self.s = s
        self.cat = cat
        self.inner = inner
        self.x = x


def ind(s, by=" "):
    return s.replace("\n", "\n" + by)


def multi(s):
    return "\n" in s


def K(*words):
    return tuple((w, "k") for w in words)


COMMA = ((",", "o"),)
LP = (("(", "o"),)
RP = ((")", "o"),)
LB = (("[", "o"),)
RB = (("]", "o"),)
DOT = ((".", "o"),)


def cat_t(*parts):
    out = ()
    for p in parts:
        out += p.t if isinstance(p, N) else p
    return out


def sep_t(nodes, sep=COMMA):
    out = ()
    for i, n in enumerate(nodes):
        if i:
            out += sep
        out += n.t
    return out


def okl(*nodes):
    return all(n.s is not None for n in nodes)


# ------------------------------------------------------------------ leaves
def ident(name):
    return N("ident", ((name, "i"),), name)


def chain(*names):
    t = ()
    for i, n in enumerate(names):
        if i:
            t += DOT
        t += ((n, "s" if n[0] in "'\"`" else "i"),)
    return N("chain", t, ".".join(names))


def colcast(*names, typ, args=()):
    """x.a::varchar(10): the type is a function's name when it has arguments"""
    last = names[-1] + "::" + typ
    t = chain(*names[:-1], "q").t[:-1] + ((last, "c" if args else "i"),)
    s = ".".join(names) + "::" + typ
    if args:
        t += LP + sep_t(args) + RP
        s = ".".join(names) + "::" + typ.upper() + "(" + ", ".join(a.s for a in args) + ")"
    return N("colcast", t, s)


def num(text):
    return N("num", ((text, "n"),), text)


def string(text):
    """text: the literal exactly as written, with its quotes and prefix."""
    return N("str", ((text, "s"),), text.replace("\n", "\x01"))


def kw(word):
    return N("kw", K(word), word.upper())


def star():
    return N("star", (("*", "o"),), "*")


# ------------------------------------------------------------- expressions
def paren(*args):
    t = LP + sep_t(args) + RP
    if len(args) == 1 and args[0].k == "select":
        s = None if args[0].s is None else "(\n" + sub(args[0]) + "\n)"
    elif okl(*args) and not any(a.k == "select" for a in args):
        s = "(" + ", ".join(a.s for a in args) + ")"
    else:
        s = None
    return N("paren", t, s, P, inner=args)


def sub(sel):
    """layout of a subquery: one column deeper, no semicolon of its own"""
    return " " + ind(sel.s)


def fn(name, *args):
    t = ((name, "f"),) + LP + sep_t(args) + RP
    s = None
    if okl(*args):
        ss = [a.s for a in args]
        if any(multi(a) for a in ss) or len(", ".join(ss)) > WIDTH:
            s = name.upper() + "(\n " + ",\n ".join(ind(a) for a in ss) + "\n)"
        else:
            s = name.upper() + "(" + ", ".join(ss) + ")"
    return N("fn", t, s)


def count(*args, distinct=False):
    t = (("count", "f"),) + LP + (K("distinct") if distinct else ()) + sep_t(args) + RP
    s = None
    if okl(*args):
        s = "COUNT(%s%s)" % ("DISTINCT " if distinct else "", ", ".join(a.s for a in args))
    return N("fn", t, s)


def cast(a, typ):
    t = (("cast", "f"),) + LP + a.t + K("as") + K(typ) + RP
    return N("fn", t, None if a.s is None else "CAST(%s AS %s)" % (a.s, typ.upper()))


def array_agg(a, distinct=False, nulls=None, order=(), limit=None):
    t = (("array_agg", "f"),) + LP + (K("distinct") if distinct else ()) + a.t
    s = "ARRAY_AGG(" + ("DISTINCT " if distinct else "") + (a.s or "")
    if nulls:
        t += K(nulls, "nulls")
        s += " %s NULLS" % nulls.upper()
    if order:
        t += K("order", "by") + sep_t(order)
        s += " ORDER BY " + ", ".join(o.s or "" for o in order)
    if limit is not None:
        t += K("limit") + ((limit, "n"),)
        s += " LIMIT " + limit
    return N("fn", t + RP, s + ")" if okl(a, *order) else None)


def array(*args):
    return N(
        "array",
        LB + sep_t(args) + RB,
        "[" + ", ".join(a.s for a in args) + "]" if okl(*args) else None,
    )


def index(base, *idx):
    return N(
        "index",
        base.t + LB + sep_t(idx) + RB,
        base.s + "[" + ", ".join(a.s for a in idx) + "]" if okl(base, *idx) else None,
    )


def dotted(left, right):
    return N("dotted", left.t + DOT + right.t, left.s + "." + right.s if okl(left, right) else None)


def extract(part, a):
    body = N("part", K(part, "from") + a.t, "%s FROM %s" % (part.upper(), a.s) if okl(a) else None)
    return fn("extract", body)


def case(operand, whens, els):
    t = K("case")
    s = "CASE"
    ok = True
    if operand is not None:
        t += operand.t
        ok = ok and operand.s is not None
        s += " " + (operand.s or "")
    s += "\n "
    blocks = []
    for w, th in whens:
        t += K("when") + w.t + K("then") + th.t
        ok = ok and okl(w, th)
        if not ok:
            continue
        b = "WHEN"
        if multi(w.s):
            if w.k == "paren" and len(w.inner) == 1:
                body = w.inner[0].s
                if w.inner[0].k == "select":
                    ok = False
                b += " (\n  " + ind(body, "  ") + "\n )\n "
            else:
                b += "\n  " + ind(w.s, "  ") + "\n "
        else:
            b += " " + w.s + " "
        if multi(th.s):
            ok = False  # the style leaves a multi-line THEN result open
        b += "THEN " + th.s
        blocks.append(b)
    s += "\n ".join(blocks)
    if els is not None:
        t += K("else") + els.t
        if els.s is None or multi(els.s):
            ok = False
        else:
            s += "\n ELSE " + els.s
    t += K("end")
    s += "\nEND"
    return N("case", t, s if ok else None)


def filt(f, cond):
    t = f.t + K("filter") + LP + K("where") + cond.t + RP
    return N("fn", t, "%s FILTER (WHERE %s)" % (f.s, cond.s) if okl(f, cond) else None)


def over(f, partition=(), order=(), frame=None):
    """frame: a tuple of words, for example ('rows', 'between', ...)"""
    t = f.t + K("over") + LP
    ok = okl(f, *partition) and okl(*order)
    s = (f.s or "") + " OVER ("
    brk = False
    if partition:
        t += K("partition", "by") + sep_t(partition)
        brk = True
        if ok:
            if any(multi(p.s) for p in partition):
                ok = False
            elif len(partition) > 1:
                s += "\n PARTITION BY\n  " + ",\n  ".join(p.s for p in partition)
            else:
                s += "\n PARTITION BY " + partition[0].s
    if order:
        t += K("order", "by") + sep_t(order)
        brk = True
        if ok:
            if any(multi(o.s) for o in order):
                ok = False
            elif len(order) > 1:
                s += "\n ORDER BY\n  " + ",\n  ".join(o.s for o in order)
            else:
                s += "\n ORDER BY " + order[0].s
    if frame:
        t += tuple((w, "n" if w.isdigit() else "k") for w in frame)
        if brk or multi(s):
            s += "\n "
        s += " ".join(w.upper() for w in frame)
    brk = brk or multi(s)
    return N("over", t + RP, s + ("\n)" if brk else ")") if ok else None)


def oitem(a, direction=None):
    return N(
        "oitem",
        a.t + (K(direction) if direction else ()),
        None if a.s is None else a.s + (" " + direction.upper() if direction else ""),
    )


def arith(*parts):
    """operand, op, operand, op, operand ..."""
    return _flat("arith", A, parts)


def bitop(*parts):
    return _flat("bit", X, parts)


def _flat(kind, cat, parts):
    t = ()
    ok = True
    ss = []
    for p in parts:
        if isinstance(p, N):
            t += p.t
            ok = ok and p.s is not None
            ss.append(p.s or "")
        else:
            t += ((p, "o"),)
            ss.append(p)
    return N(kind, t, " ".join(ss) if ok else None, cat)


def neg(a):
    """unary minus in front of something that is not a plain number"""
    sep = " " if a.s is not None and a.s[0] in "+-" else ""
    return N("neg", (("-", "o"),) + a.t, None if a.s is None else "-" + sep + a.s, A)


def cond(left, words, right):
    """words: operator symbol or tuple of keywords"""
    if isinstance(words, str):
        ot = ((words, "o"),)
        os_ = words
    else:
        ot = K(*words)
        os_ = " ".join(words).upper()
    return N(
        "cond",
        left.t + ot + right.t,
        "%s %s %s" % (left.s, os_, right.s) if okl(left, right) else None,
        C,
        x=left.k,
    )


def between(left, lo, hi, negated=False):
    w = ("not", "between") if negated else ("between",)
    s = None
    if okl(left, lo, hi):
        s = "%s %s %s AND %s" % (left.s, " ".join(w).upper(), lo.s, hi.s)
        if len(lo.s) + len(hi.s) + 5 >= WIDTH:
            s = None
    return N("cond", left.t + K(*w) + lo.t + K("and") + hi.t, s, C, x=left.k)


def nott(a):
    s = None
    if a.s is not None:
        first = a.x if a.k == "cond" and a.x else a.k
        s = ("NOT" if first == "paren" else "NOT ") + a.s
    return N("not", K("not") + a.t, s, C)


def boolean(*parts):
    """condition, 'and'|'or', condition, ... : flat chain"""
    t = ()
    ok = True
    flat = []
    items = []
    for p in parts:
        if isinstance(p, N):
            t += p.t
            if p.s is None:
                ok = False
            flat.append(p.s or "")
            items.append(p)
        else:
            t += K(p)
            flat.append(p.upper())
    s = None
    if ok:
        s = " ".join(flat)
        if len(s) >= WIDTH:
            lines = []
            for p in parts:
                if isinstance(p, N):
                    if p.k == "paren":
                        if p.inner[0].k == "select" or len(p.inner) > 1:
                            return N("bool", t, None, B)
                        b = p.inner[0].s
                        body = "(\n " + ind(b) + "\n)" if multi(b) else "(" + b + ")"
                    else:
                        body = p.s
                    if lines:
                        lines[-1] += " " + body
                    else:
                        lines.append(body)
                else:
                    lines.append(p.upper())
            s = "\n".join(lines)
        elif multi(s):
            # multi-line operands in a chain short enough for one line
            s = " ".join(flat)
    return N("bool", t, s, B)


def alias(a, name, with_as):
    nt = ((name, "s" if name[0] in "'\"`" else "i"),)
    return N(
        "alias",
        a.t + (K("as") if with_as else ()) + nt,
        None if a.s is None else a.s + (" AS " if with_as else " ") + name,
        B,
        inner=a,
    )


def except_(a, *cols):
    return _star_mod(a, "except", cols)


def replace_(a, *items):
    return _star_mod(a, "replace", items)


def _star_mod(a, word, items):
    t = a.t + K(word) + LP + sep_t(items) + RP
    s = None
    if okl(a, *items) and not any(multi(i.s) for i in items):
        if len(items) > 1:
            s = "%s %s (\n %s\n)" % (a.s, word.upper(), ",\n ".join(i.s for i in items))
        else:
            s = "%s %s (%s)" % (a.s, word.upper(), items[0].s)
    return N("starmod", t, s, B)


# ------------------------------------------------------------------ FROM
def table(*names, bracket=False):
    c = chain(*names)
    if bracket:
        return N("table", LB + c.t + RB, "[" + c.s + "]")
    return N("table", c.t, c.s)


def unnest(a, name=None, with_as=False, offset=False, oname=None, oas=False):
    f = fn("unnest", a)
    t, s = f.t, f.s
    if name:
        t += (K("as") if with_as else ()) + ((name, "i"),)
        s = None if s is None else s + (" AS " if with_as else " ") + name
    if offset:
        t += K("with", "offset")
        s = None if s is None else s + " WITH OFFSET"
        if oname:
            t += (K("as") if oas else ()) + ((oname, "i"),)
            s = None if s is None else s + (" AS " if oas else " ") + oname
    return N("unnest", t, s)


def fparen(a):
    """parenthesised FROM item: subquery, WITH query or another FROM item"""
    t = LP + a.t + RP
    s = None
    if a.s is not None:
        if a.k == "select":
            s = "(\n" + sub(a) + "\n)"
        elif a.k == "fparen":
            s = None  # nesting of several parentheses: layout not prescribed
        else:
            s = "(\n " + ind(a.s) + "\n)"
    return N("fparen", t, s, inner=a)


def falias(item, name, with_as):
    n = alias(item, name, with_as)
    return N("falias", n.t, n.s, inner=item)


def join(left, kind, right, on=None, using=None):
    """kind: tuple of keywords or ','"""
    if kind == ",":
        t = left.t + COMMA + right.t
        s = left.s + ", " + right.s if okl(left, right) else None
        return N("join", t, s)
    t = left.t + K(*kind) + right.t
    s = None
    if okl(left, right):
        s = "%s\n%s %s" % (left.s, " ".join(kind).upper(), right.s)
    if on is not None:
        t += K("on") + on.t
        s = None if s is None or on.s is None else s + "\nON" + clause(on)
    elif using is not None:
        u = paren(*using)
        t += K("using") + u.t
        s = None if s is None or u.s is None else s + "\nUSING " + u.s
    return N("join", t, s)


def setop(left, words, right):
    t = left.t + K(*words) + right.t
    s = None
    if okl(left, right):
        rs = right.s
        s = "%s\n%s%s%s" % (left.s, " ".join(words).upper(), " " if right.k == "table" else "\n", rs)
    return N("setop", t, s)


# ---------------------------------------------------------------- clauses
def clause(a):
    """a WHERE, HAVING or ON condition after its keyword"""
    if a.k == "paren" and len(a.inner) == 1 and multi(a.s):
        inner = a.inner[0]
        return " (\n " + ind(inner.s) + "\n)"
    if multi(a.s):
        return "\n " + ind(a.s)
    return " " + a.s


def items_layout(items):
    if len(items) > 1:
        return "\n " + ",\n ".join(ind(i.s) for i in items)
    return " " + items[0].s


def select(
    items,
    quant=None,
    distinct_on=None,
    frm=None,
    where=None,
    group=None,
    rollup=False,
    each=False,
    having=None,
    order=None,
    limit=None,
    offset=None,
    semi=False,
    trailing_comma=False,
):
    t = K("select")
    s = "SELECT"
    ok = okl(*items)
    if quant:
        t += K(quant)
        s += " " + quant.upper()
    if distinct_on:
        t += K("distinct", "on") + LP + sep_t(distinct_on) + RP
        if okl(*distinct_on) and not any(multi(d.s) for d in distinct_on):
            s += " DISTINCT ON (%s)" % ", ".join(d.s for d in distinct_on)
        else:
            ok = False
    t += sep_t(items)
    if trailing_comma:
        t += ((",", "d"),)
    if ok:
        s += items_layout(items)
    if frm is not None:
        t += K("from") + frm.t
        ok = ok and frm.s is not None
        if ok:
            s += "\nFROM " + frm.s
    if where is not None:
        t += K("where") + where.t
        ok = ok and where.s is not None
        if ok:
            s += "\nWHERE" + clause(where)
    if group is not None:
        t += K("group") + (K("each") if each else ()) + K("by") + (K("rollup") if rollup else ())
        t += sep_t(group)
        ok = ok and okl(*group)
        if ok:
            s += "\nGROUP %sBY%s%s" % (
                "EACH " if each else "",
                " ROLLUP" if rollup else "",
                items_layout(group),
            )
    if having is not None:
        t += K("having") + having.t
        ok = ok and having.s is not None
        if ok:
            s += "\nHAVING" + clause(having)
    if order is not None:
        t += K("order", "by") + sep_t(order)
        ok = ok and okl(*order)
        if ok:
            s += "\nORDER BY" + items_layout(order)
    if limit is not None:
        t += K("limit") + limit.t
        ok = ok and limit.s is not None
        if ok:
            s += "\nLIMIT " + limit.s
    if offset is not None:
        t += K("offset") + offset.t
        ok = ok and offset.s is not None
        if ok:
            s += "\nOFFSET " + offset.s
    if semi:
        t += ((";", "o"),)
        s += ";"
    return N("select", t, s if ok else None)


def with_(queries, sel):
    t = K("with")
    ok = sel.s is not None
    parts = []
    for i, (name, q) in enumerate(queries):
        if i:
            t += COMMA
        t += ((name, "i"),) + K("as") + LP + q.t + RP
        ok = ok and q.s is not None
        if ok:
            parts.append("%s AS (\n%s\n)" % (name, sub(q)))
    t += sel.t
    s = "WITH " + ",\n".join(parts) + "\n" + sel.s if ok else None
    return N("with", t, s)


def compound(first, rest, order=None, limit=None, offset=None, semi=False):
    """first query, then (set operator words, query) pairs, then what applies to all.

    A query is a select node, a parenthesised query (fparen) or a table."""
    t = first.t
    s = first.s
    ok = s is not None
    for words, q in rest:
        t += K(*words) + q.t
        ok = ok and q.s is not None
        if ok:
            s += "\n%s%s%s" % (" ".join(words).upper(), " " if q.k == "table" else "\n", q.s)
    if order is not None:
        t += K("order", "by") + sep_t(order)
        ok = ok and okl(*order)
        if ok:
            s += "\nORDER BY" + items_layout(order)
    if limit is not None:
        t += K("limit") + limit.t
        ok = ok and limit.s is not None
        if ok:
            s += "\nLIMIT " + limit.s
    if offset is not None:
        t += K("offset") + offset.t
        ok = ok and offset.s is not None
        if ok:
            s += "\nOFFSET " + offset.s
    if semi:
        t += ((";", "o"),)
        s = s + ";" if ok else None
    return N("select", t, s if ok else None)


# --------------------------------------------------------- rendering input
PUNCT = set(",;()[]")


def can_glue(a, b):
    """May two tokens be written with nothing between them and still be the
    same two tokens in SQL?"""
    ta, ra = a
    tb, rb = b
    if ta in PUNCT or tb in PUNCT:
        # "f" "(" glued or not is the same call; a prefix letter glued to a quote
        # is not our concern here because '(' is never a quote
        return True
    if ta == "." or tb == ".":
        return ra != "n" and rb != "n"
    opa, opb = ra == "o", rb == "o"
    if opa and opb:
        return False
    if opa or opb:
        if (opa and rb == "n" and tb[0] in "-.") or (opb and ra == "n" and ta[-1] == "."):
            return False
        if ta == "-" or tb == "-" or ta == "+" or tb == "+":
            # 1e-5 style ambiguity
            return not (ra == "n" or rb == "n") or True
        return True
    return False


def render(tokens, sep=" ", case=None):
    """One-separator rendering.  '.' is always written glued."""
    out = []
    prev = None
    for tok in tokens:
        text, role = tok
        if case is not None and role in "kf":
            text = case(text)
        if prev is not None and text != "." and prev[0] != ".":
            out.append(sep)
        out.append(text)
        prev = tok
    return "".join(out)


def render_tight(tokens, case=None, space=" "):
    """No white space wherever SQL does not need it."""
    out = []
    prev = None
    for tok in tokens:
        text, role = tok
        if case is not None and role in "kf":
            text = case(text)
        if prev is not None and not can_glue(prev, tok):
            out.append(space)
        out.append(text)
        prev = tok
    return "".join(out)


def expected_atoms(tokens, lex):
    """What the oracle lexer must find in the formatted text."""
    out = []
    for text, role in tokens:
        if role == "d":
            continue
        if role in "kf":
            out.append(text.upper())
        elif role == "c":
            name, _, typ = text.rpartition("::")
            out.append(name + "::" + typ.upper())
        elif role in "ns" or len(text) > 1:
            out.extend(lex(text))
        else:
            out.append(text)
    return out


def layout(node):
    return None if node.s is None else node.s.replace("\x01", "\n")
