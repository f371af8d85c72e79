"""A failure or crash never damages a file nor stops the other files."""
import ctypes
import errno
import itertools
import json
import os
import select
import signal
import subprocess
import sys

from mc import core, files, fileset
from mc.files import *  # noqa

ID = "C19"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault and crash-point enumeration on the real program: every C library call on the files, interposed with LD_PRELOAD, is in turn made to fail, to be cut short, to interrupt the process or to be its last"
RULE = (
    "scenarios (one file; a directory of changed, clean, undecodable and unparsable files; links and several arguments; large files with non-ASCII text; files of another owner; several modes of the "
    "command line). In each, for every call k of the fault-free run and every fault that call can have: kill before it, kill in the middle of a write, each error code, short read and write, "
    "EINTR, disk full from there on, disk full in the middle of a write, SIGINT; and all ordered pairs of failures (quick: of the one-file scenario), the second one enumerated over the calls made after the first. "
    "Every source file must hold its old or its complete new content, with its mode and owner; an interrupt ends the run and leaves no temporary file; after failures (not kills) all files whose calls did not fail are processed and reported, an unprocessed "
    "file is reported as failed, the summary counts what was done, the status is right, no temporary file is left; a run after a kill completes the work. Plus real permissions as an "
    "unprivileged user: all combinations of file and directory modes"
)
ASSUMES = [
    "a kill loses no data the kernel has accepted (no power failure)",
    "a temporary file may be left by a kill, by an interrupt while it is created, or when removing it fails too",
    "directories that cannot be listed are skipped silently (os.walk); only safety is required there",
]

SHIM = os.path.join(core.ROOT, "mc", "shim", "fault.c")


def shim():
    """Build the library and start this program again under it."""
    build = os.path.join(core.ROOT, "evidence", "build")
    os.makedirs(build, exist_ok=True)
    so = os.path.join(build, "fault.so")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(SHIM):
        tmp = so + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", tmp, SHIM, "-ldl"], check=True)
        os.replace(tmp, so)
    if os.environ.get("LD_PRELOAD") != so:
        if os.environ.get("MC_SCRATCH"):
            try:
                os.rmdir(os.environ["MC_SCRATCH"])
            except OSError:
                pass
        env = dict(os.environ, LD_PRELOAD=so)
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    lib = ctypes.CDLL(so)
    lib.fault_log.restype = ctypes.c_char_p
    return lib


_lib = None


def library():
    global _lib
    if _lib is None:
        _lib = shim()
    return _lib


ERROR, CRASH, TORN, SHORT, INTERRUPT, FULL, PART = range(1, 8)
E = errno
ERRORS = {
    "open": [E.EACCES, E.EMFILE],
    "openw": [E.EACCES, E.ENOSPC],
    "create": [E.ENOSPC, E.EACCES],
    "read": [E.EIO],
    "write": [E.ENOSPC, E.EIO],
    "close": [E.EIO],
    "rename": [E.EACCES, E.ENOSPC],
    "chmod": [E.EPERM],
    "chown": [E.EPERM, E.EIO],
    "link": [E.EPERM],
    "mkdir": [E.ENOSPC],
    "unlink": [E.EPERM],
    "fsync": [E.EIO],
    "truncate": [E.EIO],
    "utime": [E.EPERM],
    "access": [E.EACCES],
    "stat": [E.EACCES],
    "lstat": [E.EACCES],
    "fstat": [E.EIO],
    "seek": [E.EIO],
    "opendir": [E.EACCES],
}
BENIGN = {(ERROR, E.EINTR), (SHORT, 0)}


def faults_of(name, pair=False):
    out = [(ERROR, e) for e in ERRORS[name]]
    if pair:
        return out[:1] + ([(PART, 0)] if name == "write" else []) + [(CRASH, 0)]
    out.append((CRASH, 0))
    out.append((INTERRUPT, 0))
    if name in ("open", "create", "read", "write", "openw"):
        out.append((ERROR, E.EINTR))
    if name in ("read", "write"):
        out.append((SHORT, 0))
    if name == "write":
        out += [(TORN, 0), (PART, 0)]
    if name in ("create", "write"):
        out.append((FULL, 0))
    return out


# ---------------------------------------------------------------- scenarios
LARGE = ["# %s\n" % ("é日x" * 20) * 400, "x = ", lit("two"), "\n", "# \u65e5\n" * 9000, "y = ", lit("bad"), "\n"]


def big_file():
    f = fileset.File("clean")
    src = Source(LARGE)
    f.old, f.new, f.changed, f.errors = src.data(), src.new_data(), src.changed, src.errors
    return f


SCENARIOS = {
    # name: (tree, links, arguments, owner, mode)
    "one": ({"a.py": "one"}, {}, ["a.py"], 0, 0o644),
    "dir": ({"a.py": "one", "b.py": "two", "c.py": "clean", "s.py": "syntax", "d/u.py": "bytes", "d/e.py": "bad1"}, {}, ["."], 0, 0o640),
    "args": ({"a.py": "one", "r/b.py": "bad1", "c.txt": "two"}, {"l.py": "r/b.py"}, ["l.py", "a.py", "r", "missing", "c.txt"], 0, 0o755),
    "large": ({"a.py": "LARGE", "b.py": "one"}, {}, ["a.py", "b.py"], 0, 0o644),
    "owner": ({"a.py": "one", "b.py": "two"}, {}, ["b.py", "a.py"], 65534, 0o4755),
}
OPTIONS = {
    "format": ["--format"],
    "check": ["--check-format", "--verbose-validate"],
    "both": ["--format", "--validate"],
}


def get_file(kind):
    return big_file() if kind == "LARGE" else fileset.File(kind)


def build(top, scenario):
    tree, links, args, owner, mode = SCENARIOS[scenario]
    fs = {}
    for name, kind in tree.items():
        p = os.path.join(top, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        f = get_file(kind)
        write(p, f.old)
        if owner and os.getuid() == 0:
            os.chown(p, owner, owner)
        os.chmod(p, mode)
        fs[name] = f
    for name, target in links.items():
        os.symlink(target, os.path.join(top, name))
    return fs


def child(d, args, plan, setup=None):
    """Run the command line in a forked process with the planned faults: exit code, run, log."""
    lib = library()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            if setup:
                setup()
            lib.fault_arm(os.fsencode(d))
            for at, kind, err in plan:
                lib.fault_at(at, kind, err)
            try:
                run = cli(args, d)
            except KeyboardInterrupt:
                run = Run("interrupted", "", "")
            log = lib.fault_log().decode()
            data = json.dumps([list(run), log]).encode()
            while data:
                data = data[os.write(w, data) :]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    try:
        while True:
            ready, _, _ = select.select([r], [], [], core.EVAL_LIMIT)
            if not ready:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return "hang", None, None
            block = os.read(r, 1 << 16)
            if not block:
                break
            data += block
    finally:
        os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        return ("killed" if os.WEXITSTATUS(status) == 77 else "status %r" % status), None, None
    run, log = json.loads(data)
    calls = []
    for line in log.splitlines():
        name, _, path = line.partition(" ")
        calls.append((name, os.path.relpath(os.path.normpath(path), d)))
    return "done", Run(*run), calls


def attribute(calls, k, top, fs):
    """Which source file the k-th call belongs to (None: none, a directory or an argument)."""
    for name, path in reversed(calls[:k]):
        real = os.path.relpath(os.path.realpath(os.path.join(top, path)), top)
        if real in fs:
            return real
        if name == "opendir":
            return None
    return None


def refused_owner(scenario, options, plan):
    """An owner that the program may not set is not kept."""
    calls = dry(scenario, options, [p for p in plan if p[1] == ERROR])
    return any(kind == ERROR and err == E.EPERM and at <= len(calls) and calls[at - 1][0] == "chown" for at, kind, err in plan)


def judge(scenario, options, plan):
    opts = OPTIONS[options]
    with scratch() as d:
        fs = build(d, scenario)
        args = SCENARIOS[scenario][2]
        s0 = snapshot(d, times=False)
        how, run, calls = child(d, opts + args, plan)
        s1 = snapshot(d, times=False)
        fmt = "--format" in opts
        # safety: old or complete new content, same mode and owner, whatever happened
        for name, f in fs.items():
            if name not in s1:
                return "%s is gone" % name
            if s1[name][:3] != s0[name][:3] and not (s1[name][0] == s0[name][0] and refused_owner(scenario, options, plan)):
                return "mode or owner of %s is %r, was %r" % (name, s1[name][:3], s0[name][:3])
            got = s1[name][3]
            if got != f.old and not (fmt and got == f.new):
                return "%s is damaged: %r... (%d bytes, %d before)" % (name, got[:200], len(got), len(f.old))
        for name in SCENARIOS[scenario][1]:
            if s1.get(name) != s0[name]:
                return "link %s is %r" % (name, s1.get(name))
        extra = set(s1) - set(s0)
        kinds = {kind for _, kind, _ in plan}
        if how == "hang":
            return "no answer"
        if how == "killed":
            if not kinds & {CRASH, TORN}:
                return "the process ended"
            bad = [x for x in extra if x.endswith(".py")]
            if bad:
                return "a kill left %r, which is taken for source" % bad
            how2, run2, _ = child(d, opts + args, [])
            if fmt:
                with_new = {n for n, f in fs.items() if f.changed}
                s2 = snapshot(d, times=False)
                for n in with_new:
                    if s2[n][3] != fs[n].new:
                        return "after a kill and another run %s is %r" % (n, s2[n][3][:200])
            return None
        if how != "done":
            return how
        if run.code == "interrupted" and INTERRUPT not in kinds:
            return "interrupted"
        if INTERRUPT in kinds and any(at <= len(calls) for at, kind, _ in plan if kind == INTERRUPT):
            if run.code != "interrupted" and run.code not in (1, 2, 130):
                return "an interrupt is lost: %r" % (run,)
            if extra and not any(calls[at - 1][0] in ("create", "unlink") for at, _, _ in plan if at <= len(calls)):
                return "an interrupt left behind %r" % sorted(extra)
            return None
        if kinds & {CRASH, TORN}:
            return None  # the call was not reached
        # liveness and reports
        if isinstance(run.code, str) or run.err:
            return "the program failed: %r %r" % (run.code, run.err)
        hit_unlink = False
        affected, unsure = set(), False
        for at, kind, err in plan:
            if at > len(calls):
                continue
            name, path = calls[at - 1]
            if (kind, err) in BENIGN:
                continue
            if name == "unlink":
                hit_unlink = True
            if kind in (FULL, PART):  # everything written from there on fails
                affected |= {a for a in (attribute(calls, k, d, fs) for k in range(at, len(calls) + 1)) if a}
                continue
            if name == "chown" and err == E.EPERM:
                continue
            a = attribute(calls, at, d, fs)
            if a is None:
                unsure = True
            else:
                affected.add(a)
        if extra and not hit_unlink:
            return "left behind: %r; printed %r" % (sorted(extra), run.out)
        rep = Report(run.out)
        if rep.rest:
            return "unexpected output %r" % rep.rest

        def real(name):
            return os.path.relpath(os.path.realpath(os.path.join(d, name)), d)

        failed = {real(re.split(r" \([A-Z]\w*: ", f)[0]) for f in rep.failed}
        done = [real(n) for _, n, _ in rep.formatted]
        invalid = [real(n) for n, _, _ in rep.invalid]
        missing = sum(not os.path.exists(os.path.join(d, a)) for a in args)
        for name, f in fs.items():
            new = s1[name][3] == f.new
            if unsure:
                continue
            if name in affected:
                if f.fails or not fmt:
                    # reported as failed, or analysed in spite of the failure
                    if name not in failed and rep.bad_inputs <= missing and (f.fails or done.count(name) < (1 if f.changed else 0)):
                        return "%s is neither analysed nor reported: %r" % (name, run.out)
                elif f.changed and not new and name not in failed and rep.bad_inputs <= missing:
                    return "%s is neither rewritten nor reported: %r" % (name, run.out)
                continue
            if f.fails:
                if name not in failed:
                    return "%s is not reported: %r" % (name, run.out)
                continue
            if name in failed:
                return "%s is reported as failed: %r" % (name, run.out)
            if f.changed and (done.count(name) != 1 or (fmt and not new)):
                return "%s was not processed: %r" % (name, run.out)
            if f.errors and "--format" != opts[-1] and name not in invalid:
                return "%s is not validated: %r" % (name, run.out)
        for name in done:
            if fmt and s1[name][3] != fs[name].new:
                return "%s is reported as reformatted, it is not: %r" % (name, run.out)
        n = sum(fs[name].changed for name in done)
        if rep.fsum[:2] != ((len(done), n) if n else (0, 0)):
            return "summary %r, reported %r" % (run.out, rep.formatted)
        if rep.vsum is not None and rep.vsum != (len(invalid), sum(len(fs[x].errors) for x in invalid)):
            return "summary %r" % run.out
        code = 1 if ("--check-format" in opts and n) or ("--validate" in opts and invalid) else 0
        if run.code != code:
            return "exit status %r, expected %r: %r" % (run.code, code, run.out)
        return None


def dry(scenario, options, plan=()):
    with scratch() as d:
        build(d, scenario)
        how, run, calls = child(d, OPTIONS[options] + SCENARIOS[scenario][2], list(plan))
        return calls or []


# ------------------------------------------------------- unprivileged user
def judge_user(inp):
    """Real permissions: the run is done by an unprivileged user."""
    fmode, dmode, link = inp["file"], inp["dir"], inp["link"]
    with scratch() as d:
        os.chmod(d, 0o755)
        os.chmod(os.path.dirname(d), 0o755)
        sub = os.path.join(d, "sub")
        os.mkdir(sub)
        one = fileset.File("one")
        other = fileset.File("two")
        write(os.path.join(sub, "a.py"), one.old)
        write(os.path.join(d, "b.py"), other.old)
        if link:
            os.symlink("sub/a.py", os.path.join(d, "l.py"))
        for p in (d, sub, os.path.join(sub, "a.py"), os.path.join(d, "b.py")):
            os.chown(p, 65534, 65534)
        if inp["foreign"]:
            os.chown(os.path.join(sub, "a.py"), 0, 0)
        os.chmod(os.path.join(sub, "a.py"), fmode)
        os.chmod(sub, dmode)
        s0 = snapshot(d, times=False)

        def setup():
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)

        how, run, _ = child(d, inp["opts"] + [inp["opts"] and ("l.py" if link else "sub/a.py"), "b.py"], [], setup)
        s1 = snapshot(d, times=False)
        if how != "done" or isinstance(run.code, str) or run.err:
            return "the program failed: %r %r" % (how, run)
        if set(s1) != set(s0):
            return "entries %r" % sorted(s1)
        rep = Report(run.out)
        fmt = "--format" in inp["opts"]
        if s1["b.py"][3] != (other.new if fmt else other.old) or ("b.py", 2) not in [(n, c) for _, n, c in rep.formatted]:
            return "b.py was not processed: %r" % (run.out,)
        a = s1["sub/a.py"]
        who = fmode if inp["foreign"] else fmode >> 6
        readable, writable, reachable = who & 4, who & 2, dmode & 0o100
        ok = readable and reachable and (not fmt or (writable and dmode & 0o200))
        if inp["foreign"] and fmt:
            ok = ok and True
        reported = len(rep.failed) + rep.bad_inputs
        if a[3] not in (one.old, one.new) or a[0] != s0["sub/a.py"][0]:
            return "a.py is %r" % (a,)
        if ok:
            if reported or (fmt and a[3] != one.new) or len(rep.formatted) != 2:
                return "a.py could be processed: %r" % run.out
        elif fmt and writable and readable and reachable:
            pass  # a directory that cannot be written: rewritten in place or reported
        else:
            if not reported or a[3] != one.old or len(rep.formatted) != 1:
                return "a.py could not be processed and was not reported: %r" % run.out
        if a[3] == one.old and fmt and not reported:
            return "a.py was neither rewritten nor reported: %r" % run.out


def users():
    for fmode in (0o644, 0o600, 0o400, 0o200, 0o000, 0o444, 0o666, 0o604, 0o606):
        for dmode in (0o755, 0o555, 0o500, 0o700, 0o600, 0o000):
            for link in (0, 1):
                for foreign in (0, 1):
                    for o in ("format", "check"):
                        yield {"file": fmode, "dir": dmode, "link": link, "foreign": foreign, "opts": OPTIONS[o]}


# ------------------------------------------------------- files that cannot be analysed
DEEP = b"x = 'select " + b"(" * 3000 + b"a" + b")" * 3000 + b"'\n"
FAILING = ["syntax", "quote", "dedent", "bytes", "latebytes", "cookie", "utf16", "DEEP"]


def judge_failing(seq, mode, opts):
    with scratch() as d:
        named = []
        for i, k in enumerate(seq):
            if k == "DEEP":
                f = fileset.File("syntax")
                f.old = f.new = DEEP
            else:
                f = fileset.File(k)
            name = "f%d.py" % i
            write(os.path.join(d, name), f.old)
            named.append((name, f))
        age(d)
        s0 = snapshot(d)
        args = ["."] if mode == "dir" else [n for n, _ in named]
        r = cli(opts + args, d)
        s1 = snapshot(d)
        prefix = "./" if mode == "dir" else ""
        e = fileset.expect(opts, [(prefix + n, f) for n, f in named], None)
        why = fileset.compare(r, e)
        if why:
            return why
        for n, f in named:
            if f.fails and s1[n] != s0[n]:
                return "%s was touched" % n
            if s1[n][3] != (f.new if "--format" in opts else f.old):
                return "%s is %r" % (n, s1[n][3])


def failing(big):
    good = ["one", "bad1", "clean"]
    for n in (2, 3, 4) if big else (2, 3):
        for seq in itertools.product(good + FAILING, repeat=n):
            bad = sum(s in FAILING for s in seq)
            if not bad or seq.count("DEEP") > 1 or (n == 4 and bad != 2):
                continue
            if big or n < 3 or bad == 1 or (bad == 2 and set(seq) <= {"one", "bad1", "syntax", "latebytes", "cookie"}):
                yield seq


# ---------------------------------------------------------------- exploration
def shards(tier):
    big = tier == "thorough"
    library()
    out = []
    for sc in SCENARIOS:
        for o in OPTIONS:
            n = len(dry(sc, o))
            out += [("single", (sc, o, lo, min(lo + 8, n)), big) for lo in range(0, n, 8)]
            if big or (sc == "one" and o == "format"):
                out += [("pair", (sc, o, k, k + 1), big) for k in range(n)]
    if os.getuid() == 0:
        out += [("user", None, big)]
    out += [("failing", i, big) for i in range(16)]
    return out


def explore(desc, rec):
    kind, i, big = desc
    if kind == "user":
        for inp in users():
            rec.states += 2
            rec.transitions += 1
            rec.run({"user": inp}, lambda: judge_user(inp))
        return
    if kind == "failing":
        for k, seq in enumerate(failing(big)):
            if k % 16 != i:
                continue
            for mode in ("dir", "files"):
                for opts in (["--format"], ["--check-format", "--validate"]):
                    rec.states += 2
                    rec.transitions += 1
                    rec.run({"seq": seq, "mode": mode, "opts": opts}, lambda: judge_failing(seq, mode, opts))
        return
    sc, o, lo, hi = i
    calls = dry(sc, o)

    def run(plan, name):
        rec.states += 1
        rec.transitions += 1
        rec.outcomes[name] += 1
        rec.run({"scenario": sc, "options": o, "plan": plan}, lambda: judge(sc, o, plan))

    for k in range(lo, hi):
        if kind == "single":
            for f, e in faults_of(calls[k][0]):
                run([(k + 1, f, e)], "%s %s" % (["", "error", "kill", "torn", "short", "interrupt", "full", "part"][f], calls[k][0]))
        else:
            for f, e in faults_of(calls[k][0], True):
                if f == CRASH:
                    continue
                more = dry(sc, o, [(k + 1, f, e)])
                for m in range(k + 1, len(more)):
                    for g, e2 in faults_of(more[m][0], True):
                        run([(k + 1, f, e), (m + 1, g, e2)], "two failures")


def replay(inp):
    library()
    if "user" in inp:
        return judge_user(inp["user"])
    if "seq" in inp:
        return judge_failing(inp["seq"], inp["mode"], inp["opts"])
    return judge(inp["scenario"], inp["options"], [tuple(p) for p in inp["plan"]])
