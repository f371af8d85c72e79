"""Independent lexer used only by the oracles (never by the implementation).

It reads SQL text into atoms.  Quoted runs ('..', ".." and `..`, with backslash
escapes and doubled quotes) are single atoms; everything else is split on white
space, brackets and operators.  ``%(name)s`` is one atom (a Python DB-API
placeholder) and so is a number, also in scientific notation.
"""
import re

_ATOM = re.compile(
    r"""
      '(?:\\.|''|[^'\\])*'
    | "(?:\\.|""|[^"\\])*"
    | `(?:\\.|``|[^`\\])*`
    | %\(\w+\)s
    | (?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.])
    | \d+\.\d*(?![\w.]) | (?<![\w'"`.)\]]) \.\d+(?![\w.])
    | <> | <= | >= | << | >> | \|\| | != | &&
    | [,;()\[\]+*/=<>.\-|&^!]
    | [^\s,;()\[\]+*/=<>.\-|&^!'"`]+
    """,
    re.X | re.S,
)


def lex(text):
    """Return the list of atoms, or None when the text is not lexable."""
    out = []
    pos = 0
    n = len(text)
    while pos < n:
        c = text[pos]
        if c in " \n\t\r\f\v":
            pos += 1
            continue
        m = _ATOM.match(text, pos)
        if m is None:
            return None
        out.append(m.group())
        pos = m.end()
    return out


_LOOSE = re.compile(
    r"""
      '(?:\\.|''|[^'\\])*'
    | "(?:\\.|""|[^"\\])*"
    | `(?:\\.|``|[^`\\])*`
    | [,;()\[\]+*/=<>.\-|&^!\#~:@]
    | [^\s,;()\[\]+*/=<>.\-|&^!\#~:@'"`]+
    """,
    re.X | re.S,
)

_BEFORE = {
    ")", "]", ";", "from", "where", "group", "having", "order", "limit", "offset",
    "union", "intersect",
}


_PREFIX = {"r", "b", "rb", "br", "n", "x", "e"}


def loose(text):
    """Atoms of arbitrary text, for comparing any input with its formatting.

    Every operator character is one atom and numbers are split at their points, so
    that the comparison does not depend on how a lexer groups them; words lose their
    case; a comma in front of a clause or a closing bracket is dropped (formatting
    removes trailing commas).  None when a quote is not closed."""
    out = []
    pos = 0
    n = len(text)
    while pos < n:
        if text[pos] in " \n\t\r\f\v":
            pos += 1
            continue
        m = _LOOSE.match(text, pos)
        if m is None:
            return None
        atom = m.group()
        pos = m.end()
        if atom[0] not in "'\"`":
            atom = atom.lower()
        elif out and out[-1] in _PREFIX and text[m.start() - 1].lower() == out[-1][-1]:
            atom = out.pop() + atom  # a prefixed literal is not a name and a literal
        if out and out[-1] == "," and atom in _BEFORE:
            out.pop()
        out.append(atom)
    return out
