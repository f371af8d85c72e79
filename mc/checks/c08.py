"""Concurrent use gives the sequential results: all schedules up to a preemption bound."""
import json
import os
import signal
import sys
import threading

import sqlvalidator
from mc import baseline, core, judges

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the implementation: all interleavings of two real threads up to a preemption bound under a controlled scheduler"
RULE = (
    "two real threads under a scheduler that owns every line (thorough also: bytecode) of the library as a scheduling point; for every pair of operations on the small "
    "queries one preemption (the second thread runs to its end) at the first, second and last visit of every line in every calling context (thorough: at every visit), for the pairs on "
    "the rich queries (together every construct of the grammar) one preemption at the first and last visit of every line (thorough: the first, second and last visit in every calling context), and, "
    "thorough, all schedules with two preemptions for the small pairs; each schedule in a pristine process (so that first use is included), answers compared with those of a thread that is alone"
)
ASSUMES = [
    "switches inside calls of the standard library (C code holding the interpreter lock) are not scheduling points",
    "a thread that waits for the preempted one for more than 2 s is let through by resuming it",
]

Q = [
    "select a",
    "select a from t",
    "select b, 'x' from t where 1",
    "select a from (select b from t)",
    "select f(c) from u order by 2",
    "select (",
    # the rich queries: together they contain every construct
    "select array_agg(distinct x ignore nulls order by y desc, z limit 3) as agg, sum(a) over (partition by b, c order by d desc, e "
    "rows between 1 preceding and current row) s, rank() over (order by q), count(distinct k) from t order by a desc, b, 9",
    "select case when a = 1 and b in (1, 2) then 'x' when c is not null then [1, 2] else 2 end as k, case z when 1 then 2 end, cast(x as string), -y, not a, "
    "a + b * 2 || 'v' from t where (a or b) and 1 and x not between 1 and 3 and n like 'u%'",
    "with w as (select a, 'it''s' as s from t where b), v as (select distinct q from (select a as q from u) i union all select a from w except distinct (select 1 limit 2)) "
    "select w.a, v.q, v.bad, * except (a) from w, v where exists(select q.nope from (select a from b) q) limit 1.5 offset 3;",
    "select a.x, b.y, off, e.z from (select x from ds.t) as a left join (select y, z from `p.d.u`) b on a.x = b.y and left(a.w, 1) = 'c' join c using (k, l) "
    "cross join unnest([1, 2]) as e with offset as off natural join d where a.x > 1 or b.q is null",
    "select extract(day from d), sum(x) filter (where y > 1), arr[offset(1)], f(g(h(1), 'a b'), -3), (select max(i) from o), "
    "concat(some_rather_long_column_name, another_rather_long_column_name, yet_another_long_column_name) "
    "from t where some_rather_long_column_name = 'a long literal value' and another_rather_long_column_name > 100000 or x "
    "group by rollup a, 2, 17 having 3 order by 12, z asc",
]
FIRST_RICH = 6
Q.append(
    "with w as (select distinct b from u) select array_agg(distinct p respect nulls order by q, r desc limit 7), count(distinct s) over (partition by t, u order by v, w "
    "range between unbounded preceding and 5 following), case when c = 'q' then d when e then f else g end, cast(h as date), [i], j[offset(2)], "
    "extract(year from k), sum(l) filter (where m), -n, not o, 3 * p - 1, x || 'y', f(g(z), 'k'), * except (a) from (select aa, bb from c) as dd "
    "left join w on dd.aa = right(w.b, 2) and dd.zz between 4 and 5 or not dd.bb like 'z' cross join unnest(e) as ff with offset gg join hh using (ii, jj) "
    "where (kk or ll) and mm in (select nn from (select oo from pp) qq) or a_rather_long_name = 'another literal value' and a_second_rather_long_name is null "
    "group by 1, 33 having 4 union all (select ss from tt order by 44, rr asc limit 6) except distinct select uu.vv, 'ww' from (select xx from yy) uu order by 2 limit 2.5"
)
BIG = len(Q) - 1


def operation(name, shared):
    """name: letter and number of the query; upper case: on the shared object."""
    kind, text = name[0], Q[int(name[1:])]
    if kind == "f":
        def go():
            try:
                return ["text", sqlvalidator.format_sql(text)]
            except judges.ParsingError as e:
                return ["refused", str(e)]
    elif kind == "v":
        def go():
            q = sqlvalidator.parse(text)
            return [q.is_valid(), list(q.errors)]
    elif kind == "F":
        def go():
            try:
                return ["text", shared.format()]
            except judges.ParsingError as e:
                return ["refused", str(e)]
    else:
        def go():
            return [shared.is_valid(), list(shared.errors)]
    return go


def expected(name, base):
    out, v, errors = base[Q[int(name[1:])]]
    return out if name[0] in "fF" else [v, errors]


def enable_opcode_events():
    """The interpreter sends opcode events only to trace functions that are set
    after some frame asked for them."""

    def ask(frame, ev, arg):
        frame.f_trace_opcodes = True
        return None

    sys.settrace(ask)
    (lambda: None)()
    sys.settrace(None)


class Run:
    """One execution of two operations under the schedule (k, m): the first thread
    runs k points, then the second runs m points (None: to its end), then the first
    to its end, then the second to its end."""

    def __init__(self, ops, gran, k, m=None, visits=None):
        shared = sqlvalidator.parse(Q[int(ops[0][1:])])
        self.ops = [operation(o, shared) for o in ops]
        self.gran = gran
        self.stop = [k, m]
        self.count = [0, 0]
        self.go = [threading.Event(), threading.Event()]
        self.done = [False, False]
        self.reached = [False, False]
        self.back = threading.Event()  # a thread paused or ended
        self.result = [None, None]
        self.visits = visits  # a list to which the place of every point is added

    def tracer(self, i):
        root = os.path.join(core.REPO, "sqlvalidator")
        event = "opcode" if self.gran == "opcode" else "line"

        def local(frame, ev, arg):
            if ev == event:
                self.count[i] += 1
                if self.visits is not None:
                    up = frame.f_back
                    self.visits.append((frame.f_code.co_filename, frame.f_lineno, up.f_code.co_filename, up.f_lineno))
                if self.count[i] == self.stop[i]:
                    self.reached[i] = True
                    self.go[i].clear()
                    self.back.set()
                    self.go[i].wait()
                    if self.visits is None:
                        sys.settrace(None)
                        return None
            return local

        def glob(frame, ev, arg):
            if frame.f_code.co_filename.startswith(root):
                if event == "opcode":
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return glob

    def body(self, i):
        self.go[i].wait()
        if self.gran == "opcode":
            enable_opcode_events()
        if self.stop[i] is not None or self.visits is not None:
            sys.settrace(self.tracer(i))
        try:
            self.result[i] = self.ops[i]()
        except BaseException as e:
            self.result[i] = ["raised", repr(e)]
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.back.set()

    def let(self, i, limit):
        """Let thread i run until it pauses or ends; False when it is blocked."""
        self.back.clear()
        if self.done[i]:
            return True
        self.go[i].set()
        return self.back.wait(limit)

    def execute(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.let(0, 10)
        self.let(1, 2)
        self.let(0, 10)
        self.let(1, 10)
        for i in (0, 1):
            self.go[i].set()
        for t in ts:
            t.join(10)
        return not any(t.is_alive() for t in ts)


def in_child(f):
    """f() in a forked pristine process, through JSON."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)  # no run outlives its parent for long
            try:
                data = json.dumps(f())
            except BaseException as e:
                data = json.dumps(["broken", repr(e)])
            with os.fdopen(w, "wb") as out:
                out.write(data.encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        part = os.read(r, 65536)
        if not part:
            break
        data += part
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data) if data else ["broken", "the process ended without an answer"]


def schedule(ops, gran, k, m):
    def go():
        run = Run(ops, gran, k, m)
        if not run.execute():
            return ["stuck", None, run.reached]
        return [run.result[0], run.result[1], run.reached]

    return in_child(go)


def points(op, ops, gran):
    """The places of the scheduling points of an operation that runs alone."""

    def go():
        visits = []
        run = Run(ops, gran, None, None, visits)
        i = ops.index(op)
        run.go[i].set()
        run.body(i)
        number = {}
        return [(number.setdefault(v, len(number)), number.setdefault(v[:2], len(number))) for v in visits]

    return in_child(go)


def selected(places, which):
    """Points at which the first thread is preempted, as numbers from 1: all, or some
    visits of every line (in every calling context, or in any)."""
    if which == "all":
        return list(range(1, len(places) + 1))
    at = {}
    for n, p in enumerate(places, 1):
        at.setdefault(p[0] if which == "contexts" else p[1], []).append(n)
    return sorted({n for v in at.values() for n in (v[:2] if which == "contexts" else v[:1]) + v[-1:]})


def verdict(ops, got, base):
    if got[0] == "stuck":
        return "the threads never end"
    if got[0] == "broken":
        return "the run broke: %s" % got[1]
    for i in (0, 1):
        want = expected(ops[i], base)
        if got[i] != want:
            return "thread %d (%s on %r) alone answers %r, under this schedule %r" % (i + 1, ops[i], Q[int(ops[i][1:])], want, got[i])


def judge(inp):
    base = dict(zip(Q, baseline.fresh(Q)))
    got = schedule(inp["ops"], inp["points"], inp["first"], inp["second"])
    return verdict(inp["ops"], got, base)


def pairs(tier):
    """(operations, kind of points, preemptions, which points)"""
    big = tier == "thorough"
    one = [("f1", "f1"), ("f2", "f4"), ("f3", "f0"), ("v2", "v3"), ("v3", "v4"), ("v3", "f3"), ("F1", "V1"), ("V3", "F3"), ("V5", "V5"), ("f5", "v5")]
    out = [(ops, "line", 1, "all" if big else "contexts") for ops in one]
    rich = range(FIRST_RICH, BIG)
    for n in rich:
        w = "contexts" if big else "lines"
        out += [(("f%d" % n, "f%d" % BIG), "line", 1, w), (("v%d" % n, "v%d" % BIG), "line", 1, w)]
        if big or n in (8, 9):
            out += [(("V%d" % n, "F%d" % n), "line", 1, w), (("F%d" % n, "V%d" % n), "line", 1, w)]
    if big:
        for n in rich:
            out += [(("f%d" % n, "v%d" % BIG), "line", 1, "contexts"), (("v%d" % n, "f%d" % n), "line", 1, "contexts")]
        out += [(ops, "line", 1, "all") for ops in [("f4", "f2"), ("f2", "f2"), ("v4", "v2"), ("v2", "f2"), ("f4", "v3"), ("V2", "V2"), ("F3", "V3"), ("V1", "F1"), ("F4", "F4"), ("v5", "v2")]]
        out += [(ops, "opcode", 1, "all") for ops in [("f1", "f1"), ("f2", "f1"), ("v3", "v2"), ("v1", "f1"), ("V2", "F2"), ("F1", "V1")]]
        out += [(ops, "line", 2, "all") for ops in [("v0", "v0"), ("f0", "v0"), ("V0", "F0"), ("v5", "v5"), ("v1", "v0")]]
    return out


def shards(tier):
    out = []
    for i, (ops, gran, bound, which) in enumerate(pairs(tier)):
        # the number of points is known only by running: chunk c covers points
        # c, c + n, c + 2n ... of the first thread
        n = 8 if bound == 1 else 64
        for c in range(n):
            out.append((i, c, n, tier))
    return out


def explore(desc, rec):
    i, c, n, tier = desc
    ops, gran, bound, which = pairs(tier)[i]
    base = dict(zip(Q, baseline.fresh(Q)))
    pa = points(ops[0], ops, gran)
    nb = len(points(ops[1], ops, gran)) if bound == 2 else 0
    if len(pa) < 100:
        raise RuntimeError("only %d scheduling points: nothing is interleaved" % len(pa))
    rec.states += 1
    for k in selected(pa, which)[c::n]:
        for m in [None] + list(range(1, nb + 1)):
            inp = {"ops": list(ops), "points": gran, "first": k, "second": m}
            rec.states += 2 if m is None else 3
            rec.transitions += 2 if m is None else 3
            got = schedule(ops, gran, k, m)
            rec.run(inp, lambda: verdict(ops, got, base))
            if isinstance(got[2], list) and not got[2][0]:
                rec.outcomes["preemption point not reached"] += 1


replay = judge
