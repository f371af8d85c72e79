"""Names, and words of one kind, are treated alike."""
import functools
import re

from mc import judges
from mc import spaces
from mc import sqlcheck as s
from mc.families import families
from mc.sqlmodel import N, render

ID = "C25"
LEVEL = "model_checking"
RULE = (
    "N: every name of C04's grid (every keyword with 7 affixes in 3 cases) in every template of the name positions and of closed queries, compared with a "
    "meaningless name of the same length; S: every identifier of every statement of the clause-end, FROM-end, window, WITH and set-operator "
    "families renamed to names that begin with, end with and contain keywords; W: every word of 18 kinds (comparisons, arithmetic, "
    "bitwise and boolean operators, join kinds, set operators, directions, frame units, date parts, types, functions without parentheses, function names, numbers ...) "
    "in every template of its kind x 9 hosts. Output, verdict and errors must be those of the other word with the word exchanged"
)
ASSUMES = ["words that are part of the grammar are no names", "operators whose results have another type are compared where no type is required"]

HOSTS = [
    "select a from t where {e}",
    "select {e} as k, b from t",
    "select case when {e} then 1 else 2 end from t",
    "select f({e}, 2) from (select a, b, c from t) x where a",
    "select a from t join u on {e} left join v using (i)",
    "select a, 'q' from t group by a having {e} order by a desc limit 3",
    "select a from (select a, b, c from t where {e} and c) x",
    "with w as (select a from t where {e}) select a from w union all select b from u where {e}",
    "select a from t where not ({e}) or a in (select b from u where {e})",
]
OPEN = ["{e}", "(({e}))", "f(a, {e})", "c and {e}", "{e} or c and b", "case b when 1 then {e} end"]


def kind(ref, words, templates, hosts=None, upper=True, verdict=True):
    return ref, words.split("/") if isinstance(words, str) else words, templates, hosts, upper, verdict


PLAIN = ["{e}"]
KINDS = {
    "comparison": kind("=", ["<", ">", "<=", ">=", "<>", "!=", "like", "contains", "not like", "not contains"], ["a {w} b", "f(a) {w} 'x'", "x.a {w} b + 1", "a {w} (select max(b) from u)", "'s' {w} a", "a {w} 1.5", "a[0] {w} -b", "count(*) {w} cast(b as int64)", "case a when 1 then 2 end {w} b"]),
    "arithmetic": kind("/", ["+", "-", "*", "%"], ["a {w} b = 1", "c = a {w} 2", "c in (a {w} b, 1)", "f(a {w} b, 2)", "(a {w} b) {w} c > 1", "a {w} b {w} c < 1", "a[1] {w} f(b) between 1 {w} 2 and 2", "x.a {w} 1.5 = b", "count(*) {w} sum(b) = 1", "(select a {w} b from u limit 1) = 1"]),
    "bits": kind("^", ["&", "|", "||", "&&", "<<", ">>", "#"], ["f(a {w} b)", "(a {w} 'v') = c", "f(a {w} b {w} c)", "a[0] {w} f(b) is null", "x.a {w} b like 'q'", "c = a {w} b", "f(a + 1 {w} b)", "array[a {w} b] = c"], verdict=False),
    "boolean": kind("and", ["or"], ["a = 1 {w} b = 2", "f(a) {w} not b", "f(a {w} b)", "(a {w} b) {w} c", "a {w} (b {w} c)", "a {w} b {w} c", "a in (1, 2) {w} b is null {w} c", "exists (select 1 from u where a {w} b) {w} c", "a like 'x' {w} case when a {w} b then 1 end = 1"]),
    "truth": kind("true", ["false", "null"], ["a is {w}", "a is not {w}", "a = {w}", "f({w}, a)", "a in ({w}, 1)", "coalesce(a, {w}) = b", "case when a then {w} else b end = 1"]),
    "direction": kind("desc", ["asc"], ["select a from t order by a {w}", "select a from t order by a {w}, f(b), c {w} limit 1", "select array_agg(a order by b {w}, c limit 1) from t", "select f() over (partition by a order by b {w}, c {w} rows current row) from t", "select a from (select a from t order by 1 {w}) x order by a {w}", "select a from t union select b from u order by 1 {w}"], PLAIN),
    "join": kind("inner join", ["join", "left join", "left outer join", "right join", "right outer join", "full join", "full outer join", "join each", "inner join each", "left join each"], ["select a from t {w} u on t.a = u.a", "select a from t {w} u using (a) {w} v on v.b = a where c", "select x.a from (select a, b from t) x {w} (select c from u) as y on x.b = y.c", "select a from t, u {w} v on c", "select a from (t {w} u on b)", "select a from t {w} unnest(b) as c on d", "select d from (select a from t) x {w} (select a from u) y using (a)", "with w as (select a from t) select a from w {w} w as v using (a) order by a"], PLAIN),
    "natural": kind("natural join", ["natural inner join", "natural left join", "natural right join", "natural full join", "natural left outer join"], ["select a from t {w} u where c", "select c from (select a from t) x {w} (select a, b from u) as y", "select a from (t {w} u) {w} v"], PLAIN),
    "set": kind("union all", ["union", "union distinct", "intersect", "intersect all", "intersect distinct", "except", "except all", "except distinct"], ["select a from t {w} select b from u", "select a from t where c {w} select b from u group by b {w} select 1 limit 2", "select c from (select a from t {w} select b from u) x", "select c from x where c in (select a from t {w} select b from u)", "with w as (select a from t {w} select b from u) select a from w {w} select 1 as z from v order by a"], PLAIN),
    "unit": kind("rows", ["range"], ["select f() over ({w} current row) from t", "select f() over (partition by a {w} between 1 preceding and 2 following) from t", "select f() over (order by a, b desc {w} unbounded preceding), c from t where a", "select f(a) over (partition by a order by b {w} between unbounded preceding and current row) + 1 as k from t"], PLAIN),
    "bound": kind("current row", ["1 preceding", "unbounded preceding", "12 following", "unbounded following"], ["select f() over (rows {w}) from t", "select f() over (order by a range between {w} and {w}), c as d from t", "select f() over (partition by a rows {w}) k from t limit 2"], PLAIN),
    "nulls": kind("respect nulls", ["ignore nulls"], ["select array_agg(a {w}) from t", "select f(array_agg(distinct a {w} order by b limit 2)) as k from t", "select array_agg(a {w} limit 1)[offset(0)] from t"], PLAIN),
    "part": kind("year", "microsecond/second/minute/hour/day/week/month/quarter/second_microsecond/minute_microsecond/minute_second/hour_microsecond/hour_second/hour_minute/day_microsecond/day_second/day_minute/day_hour/year_month/dayofmonth/dayofweek/dayofyear/date".split("/"), ["extract({w} from a) = 1", "f(extract({w} from b.c), 2)", "extract({w} from f(a)) in (1, 2)", "extract({w} from cast(a as string)) > b"]),
    "unit of time": kind("year", "microsecond/millisecond/second/minute/hour/day/week/month/quarter/isoweek/isoyear/dayofyear/MONTH/Day/QUARTER/IsoWeek/DAYOFYEAR".split("/"), ["date_trunc(a, {w}) = b", "date_diff(a, b, {w}) > 1", "f(timestamp_add(a, 1, {w})) = c"], upper=False),
    "type": kind("int64", "int/float/float64/string/bytes/date/datetime/timestamp/time/bool/boolean/numeric/json/text/varchar/char/double/decimal/interval/geography/uuid/smallint/bigint".split("/"), ["cast(a as {w}) is null", "f(cast(b as {w}), 2)", "cast(f(a) as {w}) in (1, 2)", "cast(a + 1 as {w}) = cast(b as {w})", "cast(a as array<{w}>) = b"]),
    "niladic": kind("current_date", "current_catalog/current_datetime/current_role/current_schema/current_time/current_timestamp/current_user/localtime/localtimestamp/session_user/user".split("/"), ["a > {w}", "f({w}, b) = 1", "{w} between a and b", "a in ({w})", "x.a = {w}", "case when {w} is null then a end = 1", "cast({w} as string) = 's'"], upper=False),
    "function": kind("fgh", "sum/max/avg/if/ifnull/coalesce/left/right/date/timestamp/datetime/time/string/int/float/day/month/year/week/hour/replace/safe_offset/any_value/lower/rank/row_number/values/nullif/greatest/exists_/cast_/mod/div/now/to_json/split/any/user_fn/interval_/case_/in_/not_".split("/"), ["{w}(a) is null", "f({w}(a, 1), 2)", "{w}(a, b) = {w}(c)", "b in ({w}(a), 1)", "a between {w}(b) and {w}(c)", "case {w}(a) when {w}(1) then 1 end = 1", "{w}({w}(a)) like 'x'", "-{w}(a) + 1 = 2", "{w}(a)[0] = 1", "cast({w}(a) as string) = 's'", "exists (select {w}(a) from t)", "b = (select {w}(a) from u)", "{w}(a) over (partition by {w}(b) order by {w}(c)) = 1", "{w}(a) filter (where {w}(b)) = 1", "c || {w}(a) = 'q'"]),
    "integer": kind("7", ["0", "1", "42", "007", "1234567890123456789012345"], ["a = {w}", "f({w}, a) = b", "a + {w} > {w} - b", "a in ({w}, 'x')", "a between {w} and b", "a[{w}] = 1", "a[offset({w})] is null", "case when a then {w} end = {w}", "-{w} < a", "(select {w}) = a", "cast({w} as string) = 'x'"]),
    "count": kind("7", ["0", "1", "42", "1234567890123456789012345"], ["select a from t limit {w}", "select a from t limit {w} offset {w}", "select a from (select a from t limit {w}) x offset {w}", "select array_agg(a limit {w}) from t", "select a from t union select b from u limit {w}", "select a from t where a in (select 1 limit {w})"], PLAIN),
    "fraction": kind("7.5", ["0.5", ".5", "1.", "1e5", "1e+5", "2.E+07", ".5e-1", "12.25E-3", "0.00001"], ["a = {w}", "f({w}, a) = b", "a + {w} > {w} - b", "a in ({w}, 'x')", "a between {w} and b", "case when a then {w} end = {w}", "-{w} < a", "cast({w} as string) = 'x'"], upper=False),
    "wildcard": kind("a", ["b", "c"], ["select {w} from (select a, b, c from t) x where {w} group by {w} having {w} order by {w}", "select x.{w} as k, f({w}) from (select a, b, c from t) x", "select {w} from (select * from (select a, b, c from t)) x join u on {w} = u.z"], PLAIN),
}


def observe(sql):
    try:
        out = judges.fmt(sql)
    except judges.Refused as e:
        out = "refused"
    try:
        v = judges.verdict(sql)
    except Exception as e:
        v = type(e).__name__
    return out, v


def judge(inp):
    """inp: sql, other (the same with another word), swap: what to exchange in the results of other, verdict"""
    return compare(observe(inp["other"]), inp)


def exchange(x, swap):
    if isinstance(x, str):
        if swap is None:
            return x.lower()
        for a, b in swap:
            x = x.replace(a, b)
        return x
    if isinstance(x, (tuple, list)):
        return [exchange(y, swap) for y in x]
    return x


def compare(want, inp):
    got = observe(inp["sql"])
    if inp["fold"]:
        # names of functions are written upper case; that names keep their case is C04's matter
        got, want = exchange(got, None), exchange(want, None)
        inp = dict(inp, swap=[(a.lower(), b.lower()) for a, b in inp["swap"]])
    out = exchange(want[0], inp["swap"])
    if any(len(a) != len(b) for a, b in inp["swap"]):
        # lines break by their length
        same = "".join(got[0].split()) == "".join(out.split())
    else:
        same = got[0] == out
    if not same:
        return "formatted differently\nwith the other word:\n%s\n%s\nwith this word:\n%s" % (inp["other"], want[0], got[0])
    if inp["verdict"] and exchange(got[1], ()) != exchange(want[1], inp["swap"]):
        return "validated differently: %r with this word, %r with the other word:\n%s" % (got[1], want[1], inp["other"])


replay = judge


# ------------------------------------------------------------------ names
TEMPLATES = [
    "select {n} from (select {n}, b from t) x where x.{n} > 1 and {n} order by {n}",
    "select x.{n} from (select b as {n} from t) x group by x.{n}, b having {n}",
    "select {n}.b, {n}.c from (select b from t) {n} where {n}.b in (1, 2)",
    "select f({n}), z from (select {n} from t) as x join (select {n}, b from u) y on x.{n} = y.{n}",
    "select {n} from (select b from t) x",
    "select x.{n} from (select b from t) x where {n}.b",
    "select b from (select b from t) x where exists (select 1 from (select c from u) y where {n} = b and {n} + 1 < c)",
    "with {n} as (select a, b from t) select {n}.a, c from {n} where b = 1",
    "with w as (select 1 as {n} from t), {n} as (select a from w) select {n} from {n} join w using ({n})",
    "select b as {n}, c {n}_2 from (select b, c from t) x order by {n}, {n}_2, {n}_3",
    "select case {n} when 1 then {n} else b end {n} from (select b from t) limit 3",
    "select {n}(a) as b, {n}.{n}, {n}[0] from {n}.{n} as {n} where {n} is not null and {n} not in ({n}) or {n} between {n} and {n}",
    "select a from {n} join {n} {n} on {n} = 1 left join (select {n} from u) as {n} using ({n}), {n}",
    "select a from t where {n} = 'x' group by {n} having count({n}) > 1 order by {n} desc limit 1 union all select {n} from {n} where {n}",
    "select cast({n} as date), {n}::date, extract(day from {n}), array_agg(distinct {n} order by {n}) from t",
    "select * except ({n}), {n}.* replace ({n} as {n}), sum({n}) over (partition by {n}, b order by {n} desc) from t",
    "select ({n}), [{n}, 1], -{n}, not {n}, {n} + {n} * 2, {n} || {n} from unnest({n}) as {n}",
    "select case when {n} then case when {n} then 1 else case {n} when {n} then {n} end end else {n} end, {n} from t where {n}",
    "select (case when {n} then (case when ({n}) then ({n}) end) + {n} end) {n} from (select case when {n} then case when {n} then {n} end end from {n}) where b",
    "select f(case when {n}.{n} then g({n}, case when {n}[{n}] then 1 end) end, {n}) as {n} from t order by case when {n} then {n} end desc, {n}",
    "select [{n}, f({n}[{n}], ({n}))], array[{n}], struct({n} as {n}, {n} as b), if({n}, {n}, {n}), x.{n}({n}).{n} from `p.{n}` as {n}, x.`{n}`.{n} {n}_2",
    "select array_agg({n} order by {n} limit 1), count(distinct {n}), sum({n}) filter (where {n}), f({n}) over (partition by {n} order by {n} desc rows current row) from t",
    "select a from (select a from {n} where exists (select {n} from {n} where {n} in (select {n} from {n}))) {n} where not {n} group by {n}, f({n}) having {n}",
    "select distinct on ({n}, a) {n} from ({n} join {n} using ({n}, {n})) cross join {n} where {n} limit 1 offset 2",
    "(select {n} from {n}) union all (select {n} from {n} order by {n}) except select {n} from {n} order by {n} limit 3;",
    "select a from (select {n}) {n}, unnest(f) {n} with offset as {n} where {n} like 'x' or {n} and {n}",
]


@functools.lru_cache(maxsize=None)
def names(big):
    out = [n for n in spaces.names() if n not in spaces.PLACEHOLDERS and n[0] not in "@$:{?%"]
    return out if big else out[::3]


@functools.lru_cache(maxsize=None)
def evil(big):
    words = list(dict.fromkeys(spaces.KEYWORDISH))
    forms = ["%s_x", "x_%s", "%sx", "x%s", "%s1", "_%s"] if big else ["%s_x", "x%s"]
    return [f % w for w in words for f in forms]


def other(n):
    """a meaningless name of the same length that occurs in no template"""
    return "Qq" * (len(n) // 2) + "Z" * (len(n) % 2) if len(n) > 1 else "Q"


def texts_for(n):
    for tpl in TEMPLATES if len(n) > 1 else ():
        yield tpl.replace("{n}", n)
    for b in spaces.name_positions():
        yield render(b(n).t)


FAMS = ("K2", "K", "O", "W", "S2", "F1", "Q")


def renamed(node, old, new):
    return render(tuple((new, r) if r in "i" and w == old else (w, r) for w, r in node.t))


def shards(tier):
    big = tier == "thorough"
    n = len(names(big))
    out = [("W", k, 0, big) for k in KINDS]
    out += [("N", i, i + 40, big) for i in range(0, n, 40)]
    for i, fam in enumerate(families("quick")):
        if fam.name.split()[0] in FAMS:
            k = max(1, fam.size // (150 if big else 1500))
            out += [("S", fam.size * j // k, fam.size * (j + 1) // k, big, i) for j in range(k)]
    return out


def explore(desc, rec):
    if desc[0] == "N":
        for n in names(desc[3])[desc[1] : desc[2]]:
            rec.states += 1
            o = other(n)
            for sql, ref in zip(texts_for(n), texts_for(o)):
                rec.transitions += 1
                go(rec, sql, ref, [(o, n)], True, True)
    elif desc[0] == "S":
        fam = families("quick")[desc[4]]
        ev = evil(desc[3])
        count = desc[1]
        for node in fam.runs(desc[1], desc[2], rec):
            if not isinstance(node, N):
                continue
            idents = sorted({w for w, r in node.t if r == "i" and w.replace("_", "").isalnum()})
            for k, i in enumerate(idents):
                count += 1
                # every name meets every statement's shape, not every statement
                for j in range(count % 7, len(ev), 7) if desc[3] else [(count * 7 + 3 * m) % len(ev) for m in range(1)]:
                    n = ev[j]
                    o = other(n)
                    rec.transitions += 1
                    go(rec, renamed(node, i, n), renamed(node, i, o), [(o, n)], True, True)
    else:
        ref, words, templates, hosts, upper, verdict = KINDS[desc[1]]
        for tpl in templates:
            for inner in PLAIN if hosts == PLAIN else OPEN:
                for host in hosts or HOSTS:
                    text = host.replace("{e}", inner.replace("{e}", tpl))
                    mark = text.replace("{w}", "\x01")
                    if re.search(r"(?<!\w)%s(?!\w)" % re.escape(ref), mark):
                        continue  # what to exchange in the result would not be clear
                    rec.states += 1
                    for w in words:
                        rec.transitions += 1
                        go(rec, mark.replace("\x01", w), mark.replace("\x01", ref), mark_swap(mark, ref, w, upper), verdict)


def mark_swap(mark, ref, w, upper):
    a, b = (ref.upper(), w.upper()) if upper else (ref, w)
    return [(a, b)]


def go(rec, sql, ref, swap, verdict, fold=False):
    inp = {"fold": fold, "sql": sql, "other": ref, "swap": swap, "verdict": verdict}
    rec.run(inp, lambda: compare(cached(ref), inp))


@functools.lru_cache(maxsize=4000)
def cached(sql):
    return observe(sql)
