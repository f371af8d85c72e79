"""Runner of the explorations: sharding, time limits, evidence, violations, replay.

A check module provides

* ``ID``, ``LEVEL``, ``RULE`` (how cases are made, for the evidence), ``ASSUMES``
* ``shards(tier)``          list of picklable shard descriptors
* ``explore(desc, rec)``    explore one shard completely, reporting to ``rec``
* ``replay(inp)``           evaluate one input (JSON value); None, or what failed

``explore`` reports every model state and transition it visits and every complete
run that was executed on the implementation.  All shards are explored completely
unless a violation is found; nothing is sampled.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

warnings.simplefilter("ignore")

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SQLVALIDATOR_REPO", "/repo")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.json")

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)

EVAL_LIMIT = 10.0  # seconds one evaluation may take
MAX_VIOLATIONS = 5  # per shard, then the shard stops


class Timeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Timeout()


def key_of(inp):
    return inp if isinstance(inp, str) else json.dumps(inp, sort_keys=True)


class Stop(Exception):
    pass


class Rec:
    """What one shard explored."""

    def __init__(self, known=()):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.nontrivial = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.known = known
        self.known_hit = set()
        self.families = collections.Counter()

    def run(self, inp, judge, nontrivial=True):
        """Execute one complete run: judge() returns None or what failed."""
        self.traces += 1
        if nontrivial:
            self.nontrivial += 1
        n = self.traces
        if n in (1, 10, 100, 1000):
            self.samples.append(key_of(inp)[:400])
        signal.setitimer(signal.ITIMER_REAL, EVAL_LIMIT)
        try:
            why = judge()
        except Timeout:
            why = "no answer within %d s" % EVAL_LIMIT
        except Exception as e:  # an exception the judge did not expect
            why = "unexpected %s: %s\n%s" % (
                type(e).__name__,
                str(e)[:200],
                traceback.format_exc(limit=-4),
            )
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if why is not None:
            self.violation(inp, why)
        return why

    def violation(self, inp, why):
        k = key_of(inp)
        if k in self.known:
            self.known_hit.add(k)
            return
        self.violations.append((inp, why))
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop()


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == pid]


def _work(args):
    modname, desc, known = args
    signal.signal(signal.SIGALRM, _on_alarm)
    mod = importlib.import_module(modname)
    rec = Rec(known)
    error = None
    try:
        mod.explore(desc, rec)
    except Stop:
        pass
    except Exception:
        error = traceback.format_exc()
    rec.families[str(desc[0]) if isinstance(desc, (tuple, list)) else str(desc)] += rec.traces
    return rec, error


def run_check(pid, tier):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="mc-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.environ["MC_SCRATCH"] = scratch
    try:
        return _run_check(pid, tier, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run_check(pid, tier, t0):
    mod = importlib.import_module("mc.checks." + pid.lower())
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    findings = load_known(pid)
    known = {key_of(e["input"]) for e in findings}
    shards = mod.shards(tier)
    total = Rec()
    errors = []
    workers = min(int(os.environ.get("MC_WORKERS", "8")), max(1, len(shards)))
    stopped = False
    jobs = [(mod.__name__, d, known) for d in shards]
    done = 0
    if getattr(mod, "SERIAL", False):
        results = map(_work, jobs)
        pool = None
    else:
        # a fresh process per shard: no run sees what another shard left behind
        pool = multiprocessing.get_context("fork").Pool(
            workers, maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 4)
        )
        results = pool.imap_unordered(_work, jobs, chunksize=1)
    try:
        for rec, error in results:
            done += 1
            total.states += rec.states
            total.transitions += rec.transitions
            total.traces += rec.traces
            total.nontrivial += rec.nontrivial
            total.outcomes.update(rec.outcomes)
            total.families.update(rec.families)
            total.known_hit |= rec.known_hit
            if len(total.samples) < 12:
                total.samples += rec.samples[: max(1, 12 // max(1, len(shards)))]
            total.violations += rec.violations
            if error:
                errors.append(error)
            if total.violations:
                stopped = done < len(shards)
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()

    # every listed finding is executed, whether or not a shard contains it
    signal.signal(signal.SIGALRM, _on_alarm)
    for e in findings:
        probe = Rec()
        why = probe.run(e["input"], lambda: mod.replay(e["input"]))
        total.traces += 1
        if why is not None:
            total.known_hit.add(key_of(e["input"]))
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))

    wall = time.time() - t0
    coverage = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "samples": total.samples[:12],
        "exhaustive": not stopped and not errors,
        "runs_per_family": dict(total.families),
        "outcomes": dict(total.outcomes.most_common(40)),
    }
    if mod.LEVEL in ("exploration", "fault_enumeration"):
        coverage["evaluations"] = total.traces
        coverage["distinct_nontrivial"] = total.nontrivial
        coverage["rule"] = mod.RULE
    else:
        coverage["bounds"] = mod.RULE
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMES", ())),
        "wall_s": round(wall, 2),
        "violations": len(total.violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(
        "%s %s: states=%d transitions=%d runs=%d known=%d violations=%d %.1fs"
        % (
            pid,
            tier,
            total.states,
            total.transitions,
            total.traces,
            len(total.known_hit),
            len(total.violations),
            wall,
        )
    )
    for k, v in total.outcomes.most_common(12):
        print("   outcome %-40s %d" % (k, v))
    if total.violations:
        total.violations.sort(key=lambda v: len(key_of(v[0])))
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        inp, why = total.violations[0]
        h = hashlib.sha1(key_of(inp).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (pid, h))
        with open(path, "w") as f:
            json.dump({"property": pid, "input": inp, "why": why}, f, indent=1)
        print("input: %s" % key_of(inp)[:2000])
        print("failed: %s" % why[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print(errors[0])
        return 2
    return 0


def replay_file(path):
    with open(path) as f:
        data = json.load(f)
    mod = importlib.import_module("mc.checks." + data["property"].lower())
    signal.signal(signal.SIGALRM, _on_alarm)
    rec = Rec()
    why = rec.run(data["input"], lambda: mod.replay(data["input"]))
    if why is None:
        print("holds now")
        return 0
    print(why)
    print("VIOLATION property=%s replay=%s" % (data["property"], path))
    return 1


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay_file(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(pid, tier)
