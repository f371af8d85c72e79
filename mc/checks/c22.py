"""Command-line options combine as documented."""
import itertools
import os
import subprocess
import sys

from mc import core, files, fileset
from mc.files import *  # noqa

ID = "C22"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of command lines and file states against a model of the options"
RULE = (
    "every sequence of up to 4 (quick) or 5 (thorough) of 8 words (the four options, --help, --version, an unknown option, a file) x 12 file states, with 0 to 2 more files; the model says usage error (2, message on "
    "stderr only, nothing written), help/version (0, nothing else) or the reports, texts and status of the combination; every allowed combination also as a real process"
)
ASSUMES = ["inputs with options in-between are not specified (argparse does not take them)", "abbreviated options are not specified"]

WORDS = ["--format", "--check-format", "--validate", "--verbose-validate", "--help", "--version", "--unknown", "FILE"]
FORMAT = {"--format", "--check-format"}
VALIDATE = {"--validate", "--verbose-validate"}
STATES = [
    ["clean"], ["done"], ["one"], ["bad"], ["bad1"], ["bad2"], ["syntax"], ["noformat"], ["novalid"], ["unparsed"], ["one", "bad"], ["syntax", "two"],
]


def model(words):
    """'usage', 'info', or the set of options."""
    seen = set()
    unknown = False
    for w in words:
        if w in ("--help", "--version"):
            return "info"
        if w == "--unknown":
            unknown = True
        for group in (FORMAT, VALIDATE):
            if w in group:
                if (group - {w}) & seen:
                    return "usage"
                seen.add(w)
    if "FILE" not in words or not seen or unknown:
        return "usage"
    return seen


def process(args, cwd):
    p = subprocess.run(
        [sys.executable, "-B", "-c", "from sqlvalidator.main import _main; _main()"] + args,
        cwd=cwd, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=core.REPO), timeout=60,
    )
    return Run(p.returncode, p.stdout, p.stderr)


def judge(words, state, real=False):
    with scratch() as d:
        named = []
        for i, k in enumerate(state):
            f = fileset.File(k)
            write(os.path.join(d, "%s%d.py" % (k, i)), f.old)
            named.append(("%s%d.py" % (k, i), f))
        args = []
        n = 0
        for w in words:
            if w == "FILE":
                # the first FILE stands for all files of the state
                args += [name for name, _ in named] if n == 0 else [named[0][0]]
                n += 1
            else:
                args.append(w)
        age(d)
        s0 = snapshot(d)
        r = (process if real else cli)(args, d)
        s1 = snapshot(d)
        m = model(words)
        if m in ("usage", "info"):
            if s1 != s0:
                return "a %s run wrote something" % m
            if r.code != (2 if m == "usage" else 0):
                return "exit status %r for %s: %r %r" % (r.code, m, r.out, r.err)
            if m == "usage" and (r.out or "usage:" not in r.err or "error:" not in r.err):
                return "usage error prints %r %r" % (r.out, r.err)
            if m == "info" and (r.err or not r.out):
                return "information prints %r %r" % (r.out, r.err)
            return None
        why = fileset.compare(r, fileset.expect(m, named, None), True)
        if why:
            return why
        for name, f in named:
            got = s1[name][3]
            if got != (f.new if "--format" in m else f.old):
                return "%s is %r" % (name, got)
        if "--format" not in m and s1 != s0:
            return "written without --format"


COMBINED = [a + b for a in ([], ["--format"], ["--check-format"]) for b in ([], ["--validate"], ["--verbose-validate"])]


def apart(words):
    where = [i for i, w in enumerate(words) if w == "FILE"]
    return bool(where) and where[-1] - where[0] >= len(where)


def shards(tier):
    n = 4 if tier == "quick" else 5
    return [("words", (w, v), n) for w in WORDS for v in WORDS] + [("short", None, n)] + [("process", i, n) for i in range(len(STATES))]


def explore(desc, rec):
    kind, i, n = desc

    def run(words, state, real=False):
        rec.states += 2
        rec.transitions += 1
        m = model(words)
        rec.outcomes[m if isinstance(m, str) else "run"] += 1
        rec.run({"words": words, "state": state, "real": real}, lambda: judge(words, state, real))

    if kind == "process":
        for c in COMBINED:
            for order in (c + ["FILE"], ["FILE"] + c[::-1]):
                run(order, STATES[i], True)
        return
    heads = [[]] + [[w] for w in WORDS] if kind == "short" else [list(i)]
    for h in heads:
        for k in range(0, n - 1 if kind == "words" else 1):
            for rest in itertools.product(WORDS, repeat=k):
                words = h + list(rest)
                if apart(words):
                    rec.outcomes["files apart: not specified"] += 1
                    continue
                # file states matter only for proper runs
                states = STATES if not isinstance(model(words), str) else [STATES[2], STATES[10]]
                for st in states:
                    run(words, st)


def replay(inp):
    return judge(inp["words"], inp["state"], inp.get("real", False))
