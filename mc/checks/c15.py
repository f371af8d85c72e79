"""Formatting a file changes nothing but its SELECT strings."""
import ast
import io
import itertools
import os
import tokenize

import sqlvalidator
from mc import files, judges, oraclelex
from mc.files import *  # noqa

ID = "C15"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of source files assembled from literal forms, contexts, encodings and line endings; the rewritten file is predicted by the model byte by byte"
RULE = (
    "every literal form (17 queries x 4 quotings x 11 prefixes) in every one of 50 contexts; pairs of literals in 11 contexts; every sequence of up to 3 (quick) "
    "or 4 (thorough) literals out of 6 with all separators; 10 encodings x 3 line endings x contexts with characters around and inside; mixed line endings; "
    "every literal body of up to 2 (3) pieces from a 30-piece alphabet of escapes, quotes, placeholders and line breaks in 4 quotings and 4 prefixes; "
    "file modes, owners, links. After --format by the real command line, the file must equal the model's text (for bodies with escapes: everything outside the "
    "literal is equal, its prefix is kept and its value has the same SQL tokens; for other bodies: the value is what the library returns), mode, owner, links and directory entries must be those of before"
)
ASSUMES = ["queries whose formatted text the model knows are simple ones; formatting of SQL itself is checked by C01..C05", "hard links are not kept (the file is replaced in one step, see C19)"]


def same_sql(old, new):
    a, b = oraclelex.loose(old), oraclelex.loose(new)
    if a is None:  # a quote is left open: not SQL, only the white space may differ
        return re.sub(r"[\s,]", "", old).lower() == re.sub(r"[\s,]", "", new).lower()
    return a == b


def value(src):
    v = ast.literal_eval(src)
    return v.decode("latin-1") if isinstance(v, bytes) else v


def prefix_of(src):
    return src[: min(i for i in (src.find("'"), src.find('"')) if i >= 0)]


def judge_source(src, d):
    path = os.path.join(d, "a.py")
    old, want = src.data(), src.new_data()
    write(path, old)
    before_ = snapshot(d, times=False)
    r = cli(["--format", "a.py"], d)
    if r.code != 0 or r.err:
        return "status %r, %r" % (r.code, r.err)
    with open(path, "rb") as f:
        got = f.read()
    if got != want:
        return "file is %r, expected %r; printed %r" % (got, want, r.out)
    after_ = snapshot(d, times=False)
    if {k: v[:3] for k, v in before_.items()} != {k: v[:3] for k, v in after_.items()}:
        return "directory is %r, was %r" % (after_, before_)
    if want != old:
        try:
            t = ast.parse(old)
        except (SyntaxError, ValueError):
            return None
        try:
            ast.parse(got)
        except (SyntaxError, ValueError) as e:
            return "no Python any more (%s): %r" % (e, got)


def judge_free(pre, src, post, d):
    path = os.path.join(d, "a.py")
    write(path, pre + src + post)
    r = cli(["--format", "a.py"], d)
    if r.code != 0 or r.err or "error" in r.out:
        return "status %r, %r %r" % (r.code, r.err, r.out)
    with open(path, encoding="utf-8", newline="") as f:
        got = f.read()
    if not (got.startswith(pre) and got.endswith(post)):
        return "text around the literal changed: %r" % got
    new = got[len(pre) : len(got) - len(post)]
    if "\\" not in src:  # what is written is the value, which must get formatted
        try:
            want = sqlvalidator.format_sql(value(src))
        except judges.ParsingError:
            return None if new == src else "%r became %r, the library refuses it" % (src, new)
        if src[-1] * 3 not in want and value(new).strip() != want:
            return "%r became %r, not %r" % (src, new, want)
    if new == src:
        return None
    try:
        v, w = value(src), value(new)
    except (SyntaxError, ValueError) as e:
        return "the new literal %r is wrong: %s" % (new, e)
    if prefix_of(new) != prefix_of(src) or new[-1] != src[-1]:
        return "prefix or quotes of %r changed: %r" % (src, new)
    toks = list(tokenize.generate_tokens(io.StringIO(new).readline))
    if [t.type for t in toks if t.type not in (tokenize.NEWLINE, tokenize.NL, tokenize.ENDMARKER)] != [tokenize.STRING]:
        return "not one literal any more: %r" % new
    if not same_sql(v, w):
        return "%r became %r" % (v, w)


PIECES = [
    "a", "\\n", "\\'", '\\"', "\\\\", "\\t", "\\x41", "\\u00e9", "\\N{BULLET}", "\\\n", "{}", "{{", "%s", "%(a)s", "%%", "'x'", '"x"', "''", '""', "\\d", "\n",
    "`x`", "--c\n", "\\101", "\\0", "'\\''", "as \\'\\'", "$1", ":n", "\\r\\n",
]
QUICK_PIECES = PIECES
TRIPLE_PIECES = PIECES[:18]


def free(first, n, prefix):
    pieces = QUICK_PIECES if n < 3 else TRIPLE_PIECES
    for k in range(n):
        for rest in itertools.product(pieces, repeat=k):
            body = "select " + ", ".join((first,) + rest)
            for q in files.QUOTES:
                for tail in (" from t", "", " ") if k < 2 else (" from t", ""):
                    src = prefix + q + body + tail + q
                    try:
                        ast.literal_eval(src)
                        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
                    except (SyntaxError, ValueError, tokenize.TokenError):
                        continue
                    if sum(t.type == tokenize.STRING for t in toks) == 1:
                        yield src


def judge_mixed(parts, d):
    """parts: text with its own line endings; the literal is the element which is a list."""
    path = os.path.join(d, "a.py")
    old = "".join(p if isinstance(p, str) else p[0] for p in parts)
    write(path, old)
    r = cli(["--format", "a.py"], d)
    with open(path, encoding="utf-8", newline="") as f:
        got = f.read()
    pos = 0
    for p in parts:
        if isinstance(p, str):
            if not got.startswith(p, pos):
                return "%r is not kept: %r %r" % (p, got, r.out)
            pos += len(p)
        else:
            m = re.compile(re.escape(p[1]).replace("\\\n", "(?:\r\n|\r|\n)")).match(got, pos)
            if not m:
                return "%r is not rewritten to %r: %r %r" % (p[0], p[1], got, r.out)
            pos = m.end()
    if pos != len(got):
        return "text is left: %r" % got


def mixed():
    for a, b, c in itertools.product(("\n", "\r\n", "\r"), repeat=3):
        for l in (lit("two"), lit("nl", "'''"), lit("spaces", '"""'), lit("one"), lit("list", '"""')):
            for e in ("", "\n", "\r\n", "\r"):
                src = l.src.replace("\n", b)
                if "\r" in src and not l.changed:
                    # already formatted, whatever its line endings
                    yield ["x = 1" + a, "y = ", [src, src], c + "z = 2" + e]
                    continue
                yield ["x = 1" + a, "y = ", [src, l.new], c + "z = 2" + e]


def judge_meta(inp, d):
    """Modes, owners and links."""
    kind = inp["kind"]
    real = os.path.join(d, "real")
    os.mkdir(real)
    target = os.path.join(real, "a.py")
    write(target, "x = 'select 1'\n" if inp["changed"] else "x = 'SELECT 1'\n")
    if inp["owner"] and os.getuid() == 0:
        os.chown(target, 65534, 65534)
    os.chmod(target, inp["mode"])
    arg = "real/a.py"
    if kind == "link":
        os.symlink("real/a.py", os.path.join(d, "l.py"))
        arg = "l.py"
    elif kind == "absolute link":
        os.symlink(target, os.path.join(d, "l.py"))
        arg = os.path.join(d, "l.py")
    elif kind == "chain":
        os.symlink("real/a.py", os.path.join(d, "l.py"))
        os.symlink("l.py", os.path.join(d, "m.py"))
        arg = "m.py"
    elif kind == "link to directory":
        os.symlink("real", os.path.join(d, "dir"))
        arg = "dir/a.py"
    elif kind == "directory link":
        os.symlink("real", os.path.join(d, "dir"))
        arg = "dir"
    elif kind == "link in directory":
        os.mkdir(os.path.join(d, "dir"))
        os.symlink("../real/a.py", os.path.join(d, "dir", "l.py"))
        arg = "dir"
    elif kind == "directory":
        arg = "real"
    old = snapshot(d, times=False)
    r = cli(["--format", arg], d)
    new = snapshot(d, times=False)
    want = dict(old)
    key = os.path.join("real", "a.py")
    if inp["changed"]:
        want[key] = want[key][:3] + (b"x = 'SELECT 1'\n",)
    if new != want:
        return "%r, expected %r; printed %r" % (new, want, r.out)


KINDS = ["file", "link", "absolute link", "chain", "link to directory", "directory link", "link in directory", "directory"]


def metas():
    for kind in KINDS:
        for mode in (0o644, 0o600, 0o755, 0o640, 0o666, 0o4755, 0o2755, 0o200 | 0o444):
            for owner in (0, 1):
                for changed in (0, 1):
                    yield {"meta": 1, "kind": kind, "mode": mode, "owner": owner, "changed": changed}


CONTEXTS = [("x = ", "\n"), ("f(", ", 'y')  # c")]


def shards(tier):
    n = 2 if tier == "quick" else 3
    out = [("one", i, n) for i in range(len(files.ONE))]
    out += [("enc", i, n) for i in range(len(files.ENCODINGS))]
    out += [("two", i, n) for i in range(len(files.TWO))]
    out += [("seq", i, n) for i in range(6)]
    out += [("free", (i, p), n) for p in ("", "r", "b", "u") for i in range(len(PIECES))]
    out += [("mixed", 0, n), ("meta", 0, n)]
    return out


def explore(desc, rec):
    kind, i, n = desc
    with scratch() as d:
        if kind in ("one", "enc", "two", "seq"):
            gen = {
                "one": lambda: space_one(i),
                "enc": lambda: space_enc(i),
                "two": lambda: space_two(i),
                "seq": lambda: space_seq(i, n, few(6)),
            }[kind]()
            for src in gen:
                rec.states += 2
                rec.transitions += 1
                rec.outcomes["changed" if src.changed else "unchanged"] += 1
                rec.run(src.dump(), lambda: judge_source(src, d), bool(src.changed))
        elif kind == "free":
            first, prefix = PIECES[i[0]], i[1]
            if n == 3 and first not in TRIPLE_PIECES:
                n = 2
            for src in free(first, n, prefix):
                for pre, post in CONTEXTS[: 2 if n == 2 else 1]:
                    rec.states += 2
                    rec.transitions += 1
                    rec.run({"free": [pre, src, post]}, lambda: judge_free(pre, src, post, d))
        elif kind == "mixed":
            for parts in mixed():
                rec.states += 2
                rec.transitions += 1
                rec.run({"mixed": parts}, lambda: judge_mixed(parts, d))
        else:
            for m in metas():
                with scratch() as e:
                    rec.states += 2
                    rec.transitions += 1
                    rec.run(m, lambda: judge_meta(m, e))


def replay(inp):
    with scratch() as d:
        if "free" in inp:
            return judge_free(*inp["free"], d)
        if "mixed" in inp:
            return judge_mixed(inp["mixed"], d)
        if "meta" in inp:
            return judge_meta(inp, d)
        return judge_source(Source.load(inp), d)
