"""Oracles of the SQL-level properties, as functions of plain values.

Each returns None when the property holds on the run, otherwise what failed."""
import sqlvalidator
from mc.oraclelex import lex, loose
from sqlvalidator.grammar.lexer import ParsingError


class Refused(Exception):
    pass


def fmt(sql):
    """The formatted text; Refused when formatting is refused with a parsing error."""
    try:
        return sqlvalidator.format_sql(sql)
    except ParsingError as e:
        raise Refused(str(e))


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            break
    else:
        i = min(len(a), len(b))
    return "at atom %d: expected %r, got %r" % (i, a[max(0, i - 2) : i + 4], b[max(0, i - 2) : i + 4])


def tokens_kept(sql, atoms):
    """Supported dialect: formatted, and the atoms are the source's atoms."""
    try:
        out = fmt(sql)
    except Refused as e:
        return "a supported query is refused: %s" % e
    got = lex(out)
    if got is None:
        return "the formatted text is not lexable: %r" % out
    if got != list(atoms):
        return "tokens differ %s\nformatted:\n%s" % (diff(list(atoms), got), out)


def tokens_kept_or_refused(sql):
    """Any text: refused, or the same tokens (case of words and trailing commas aside)."""
    try:
        out = fmt(sql)
    except Refused:
        return None
    a, b = loose(sql), loose(out)
    if a != b:
        return "tokens differ %s\nformatted:\n%s" % (diff(a or [], b or []), out)


def stable(sql):
    try:
        out = fmt(sql)
    except Refused:
        return None
    try:
        again = fmt(out)
    except Refused as e:
        return "the formatted text is refused: %s\nformatted:\n%s" % (e, out)
    if again != out:
        return "formatting the formatted text changes it\nonce:\n%s\ntwice:\n%s" % (out, again)


def layout_is(sql, want):
    try:
        out = fmt(sql)
    except Refused as e:
        return "a supported query is refused: %s" % e
    if out != want:
        return "layout differs\nprescribed:\n%s\nformatted:\n%s" % (want, out)


def verdict(sql):
    q = sqlvalidator.parse(sql)
    v = q.is_valid()
    return v, list(q.errors)


def same_verdict(sql):
    try:
        out = fmt(sql)
    except Refused:
        return None
    a, b = verdict(sql), verdict(out)
    if a != b:
        return "before formatting %r, after %r\nformatted:\n%s" % (a, b, out)


def supported_verdict(sql):
    """Validating a query of the supported dialect never ends in a parsing error."""
    v, errors = verdict(sql)
    if v != (not errors):
        return "verdict %r with errors %r" % (v, errors)
