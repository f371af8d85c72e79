"""--check-format predicts --format and never writes."""
import itertools
import os

from mc import files, fileset
from mc.files import *  # noqa

ID = "C14"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of file sets and of runs over them on the real command line; states are directory contents with their time stamps"
RULE = (
    "all file sets of 1, 2 and (every third combination; all when thorough) 3 files out of 19 kinds (clean, formatted, unformatted, invalid, unparsable, opted out, no Python, "
    "undecodable, ...), named one by one or as a directory; every literal form in 12 contexts, pairs in 11 contexts, all sequences of up to 2 (3) literals. On each: "
    "--check-format, --check-format --validate, --validate, --verbose-validate, --check-format --verbose-validate leave every byte, mode, inode and time stamp as it was; then --format "
    "reports exactly the files and numbers that checking had reported, exactly those files differ afterwards, and the exit statuses are the model's"
)
ASSUMES = ["access times are not compared"]
READS = [["--check-format"], ["--check-format", "--validate"], ["--validate"], ["--verbose-validate"], ["--check-format", "--verbose-validate"]]


def judge(names, args, old, reads=READS):
    """names: {file name: (old bytes, changed queries or None when unreadable)}."""
    with scratch() as d:
        for name, (data, _) in names.items():
            write(os.path.join(d, name), data)
        age(d)
        before_ = snapshot(d)
        reports = {}
        for opts in reads:
            r = cli(opts + args, d)
            if snapshot(d) != before_:
                return "%r wrote: %r, was %r" % (opts, snapshot(d), before_)
            reports[tuple(opts)] = (r, Report(r.out))
        want = {n: c for n, (_, c) in names.items() if c}
        forms = None
        for opts, (r, rep) in reports.items():
            if "--check-format" not in opts:
                if rep.formatted or rep.fsum:
                    return "%r reports formatting: %r" % (opts, r.out)
                continue
            got = sorted((os.path.basename(f), n) for v, f, n in rep.formatted)
            if got != sorted(want.items()) or any(v != "would reformat" for v, _, _ in rep.formatted):
                return "%r reports %r, expected %r" % (opts, got, want)
            if rep.fsum != (len(want), sum(want.values()), "would be reformatted"):
                return "%r summary: %r" % (opts, r.out)
            code = 1 if want or ("--validate" in opts and rep.invalid) else 0
            if r.code != code:
                return "%r exits with %r, expected %r: %r" % (opts, r.code, code, r.out)
            forms = sorted((f, n) for _, f, n in rep.formatted)
        r = cli(["--format"] + args, d)
        rep = Report(r.out)
        if sorted((f, n) for _, f, n in rep.formatted) != forms or any(v != "reformatted" for v, _, _ in rep.formatted):
            return "formatting reports %r, checking had reported %r" % (rep.formatted, forms)
        if rep.fsum != (len(want), sum(want.values()), "reformatted") or r.code != 0:
            return "formatting exits with %r and prints %r" % (r.code, r.out)
        after_ = snapshot(d)
        changed = {n for n in before_ if n != "." and (n not in after_ or after_[n][3] != before_[n][3])}
        if changed != set(want) or set(after_) != set(before_):
            return "files changed: %r, reported: %r; entries %r" % (sorted(changed), sorted(want), sorted(after_))
        touched = {n for n in before_ if n != "." and after_[n] != before_[n]}
        if touched != changed:
            return "files touched: %r, changed: %r" % (sorted(touched), sorted(changed))
        if not want and after_ != before_:
            return "the directory was touched although nothing changed"


def judge_set(kinds, mode):
    names = {}
    for i, k in enumerate(kinds):
        f = fileset.File(k)
        names["%s%d.py" % (k, i)] = (f.old, None if f.fails else f.changed)
    return judge(names, ["."] if mode == "dir" else list(names), None)


def judge_src(src):
    return judge({"a.py": (src.data(), src.changed)}, ["a.py"], None, READS[:2] + READS[3:4])


KINDS = list(fileset.TEXTS)


def shards(tier):
    big = tier == "thorough"
    out = [("sets", (i, j), big) for i in range(len(KINDS)) for j in range(0, len(KINDS))]
    out += [("single", i, big) for i in range(len(KINDS))]
    out += [("one", i, big) for i in range(len(files.ONE))]
    out += [("two", i, big) for i in range(len(files.TWO))]
    out += [("seq", i, big) for i in range(6)]
    return out


def explore(desc, rec):
    kind, i, big = desc
    if kind in ("sets", "single"):
        if kind == "single":
            combos = [(KINDS[i],)]
        else:
            a, b = KINDS[i[0]], KINDS[i[1]]
            combos = [(a, b)] + [(a, b, c) for k, c in enumerate(KINDS) if big or (i[0] + i[1] + k) % 3 == 0]
        for kinds in combos:
            for mode in ("dir", "files"):
                rec.states += 2
                rec.transitions += 6
                rec.run({"kinds": kinds, "mode": mode}, lambda: judge_set(kinds, mode))
        return
    if kind == "one":
        ls = few() if not big else literals(prefixes=["", "r", "b"])
        gen = (Source(fill(files.ONE[i], l)) for l in ls)
    elif kind == "two":
        gen = space_two(i)
    else:
        gen = space_seq(i, 2 if big else 1, few(6))
    for src in gen:
        rec.states += 2
        rec.transitions += 4
        rec.run(src.dump(), lambda: judge_src(src), bool(src.changed))


def replay(inp):
    if "kinds" in inp:
        return judge_set(tuple(inp["kinds"]), inp["mode"])
    return judge_src(Source.load(inp))
