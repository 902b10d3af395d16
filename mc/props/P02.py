# P02: a date-time answers from its current value, whatever operations and queries came before.
from mcbase import Mismatch
import itertools
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.timezone import Timezone
from pycalendar.icalendar import definitions

tzdata.load(tzdata.NY, tzdata.FIX)
NY, KT = "Test/NewYork", "Test/Kathmandu"


def start(kind):
    if kind == "date":
        return DateTime(2024, 1, 31)
    tz = {"floating": None, "utc": Timezone(utc=True), "ny": Timezone(tzid=NY), "kt": Timezone(tzid=KT)}[kind]
    return DateTime(2024, 1, 31, 1, 30, 0, tz)


def inplace_add(dt, d):
    return dt + d


MUTATORS = [
    ("setYear", lambda d: d.setYear(2023)),
    ("setMonth", lambda d: d.setMonth(7)),
    ("setDay", lambda d: d.setDay(10)),
    ("setHours", lambda d: d.setHours(23)),
    ("setMinutes", lambda d: d.setMinutes(59)),
    ("setSeconds", lambda d: d.setSeconds(59)),
    ("setHHMMSS", lambda d: d.setHHMMSS(6, 7, 8)),
    ("setYYMMDD", lambda d: d.setYYMMDD(2022, 11, 6)),
    ("setDateOnly", lambda d: d.setDateOnly(True)),
    ("setNotDateOnly", lambda d: d.setDateOnly(False)),
    ("setTimezoneID-ny", lambda d: d.setTimezoneID(NY)),
    ("setTimezoneID-none", lambda d: d.setTimezoneID(None)),
    ("setTimezoneUTC", lambda d: d.setTimezoneUTC(True)),
    ("setTimezoneNotUTC", lambda d: d.setTimezoneUTC(False)),
    ("setTimezone-kt", lambda d: d.setTimezone(Timezone(tzid=KT))),
    ("adjustTimezone-kt", lambda d: d.adjustTimezone(Timezone(tzid=KT))),
    ("adjustTimezone-ny", lambda d: d.adjustTimezone(Timezone(tzid=NY))),
    ("adjustTimezone-utc", lambda d: d.adjustTimezone(Timezone(utc=True))),
    ("adjustToUTC", lambda d: d.adjustToUTC()),
    ("offsetYear", lambda d: d.offsetYear(-1)),
    ("offsetMonth", lambda d: d.offsetMonth(6)),
    ("offsetDay", lambda d: d.offsetDay(45)),
    ("offsetHours", lambda d: d.offsetHours(-3)),
    ("offsetMinutes", lambda d: d.offsetMinutes(90)),
    ("offsetSeconds", lambda d: d.offsetSeconds(86399)),
    ("setYearDay", lambda d: d.setYearDay(200)),
    ("setYearDay-raw", lambda d: d.setYearDay(-100, allow_invalid=True)),
    ("setMonthDay", lambda d: d.setMonthDay(-1)),
    ("setMonthDay-raw", lambda d: d.setMonthDay(15, allow_invalid=True)),
    ("setDayOfWeekInMonth", lambda d: d.setDayOfWeekInMonth(2, 0)),
    ("setDayOfWeekInMonth-raw", lambda d: d.setDayOfWeekInMonth(-1, 5, allow_invalid=True)),
    ("setDayOfWeekInYear", lambda d: d.setDayOfWeekInYear(30, 3)),
    ("setNextDayOfWeek", lambda d: d.setNextDayOfWeek(8, 2)),
    ("setWeekNo", lambda d: d.setWeekNo(30)),
    ("recur-monthly", lambda d: d.recur(definitions.eRecurrence_MONTHLY, 1)),
    ("recur-monthly-raw", lambda d: d.recur(definitions.eRecurrence_MONTHLY, 7, allow_invalid=True)),
    ("recur-yearly", lambda d: d.recur(definitions.eRecurrence_YEARLY, 1)),
    ("recur-yearly-raw", lambda d: d.recur(definitions.eRecurrence_YEARLY, 3, allow_invalid=True)),
    ("recur-hourly", lambda d: d.recur(definitions.eRecurrence_HOURLY, 30)),
    ("parse-utc", lambda d: d.parse("20240704T120000Z")),
    ("parse-local", lambda d: d.parse("20240704T120000")),
    ("parse-date", lambda d: d.parse("20240705")),
    ("parse-iso", lambda d: d.parse("2024-07-04T12:00:00", True)),
]
NAMES = [m[0] for m in MUTATORS]
FN = dict(MUTATORS)
KINDS = ["ny", "utc", "floating", "kt", "date"]


def query(d):
    """everything that may fill a cache"""
    d.getPosixTime()
    d.timeZoneSecondsOffset()
    hash(d)
    d.compareDateTime(PROBE[0])


PROBE = [DateTime(2024, 3, 10, 7, 0, 0, Timezone(utc=True)), DateTime(2023, 12, 1, 0, 0, 0, Timezone(tzid=KT)),
         DateTime(2024, 7, 4, 8, 0, 0, Timezone(tzid=NY))]


def fresh(d):
    n = DateTime(d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds(), d.getTimezone())
    n.setDateOnly(d.isDateOnly())
    return n


def fields(d):
    return (d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds(),
            d.isDateOnly(), d.getTimezoneUTC(), d.getTimezoneID())


def observe(d):
    return [
        ("text", d.getText()), ("xml text", d.getXMLText()), ("json text", d.getJSONText()),
        ("posix time", d.getPosixTime()), ("hash", hash(d)), ("zone offset", d.timeZoneSecondsOffset()),
        ("order", [cmp(d.compareDateTime(p), 0) for p in PROBE]),
        ("difference", [(d - p).getTotalSeconds() for p in PROBE]),
        ("as UTC", fields(d.duplicateAsUTC())), ("as UTC instant", d.duplicateAsUTC().getPosixTime()),
        ("plus 26h", fields(d + Duration(hours=26))), ("plus 26h instant", (d + Duration(hours=26)).getPosixTime()),
        ("weekday", d.getDayOfWeek()), ("utc/local/floating", (d.utc(), bool(d.local()), d.floating())),
        ("copy", fields(d.duplicate())), ("copy instant", d.duplicate().getPosixTime()),
    ]


def compare(d, path):
    want = observe(fresh(d))
    have = observe(d)
    for (n, a), (_n, b) in zip(have, want):
        if a != b:
            raise Mismatch("after %s: %s is %r, a new equal value says %r" % (path, n, a, b))


# ---- all sequences of mutators x all placements of queries ------------------------------------------------
def gen_seq(tier):
    for kind in KINDS:
        for a in NAMES:
            yield [kind, a]


def check_seq(ctx, case):
    kind, first = case
    for q in ((1, 0), (1, 1), (0, 1), (0, 0)):
        base = start(kind)
        if q[0]:
            query(base)
        FN[first](base)
        ctx.step()
        compare(base, "%s:%s%s" % (kind, "query," if q[0] else "", first))
        for second in NAMES:
            d = start(kind)
            if q[0]:
                query(d)
            FN[first](d)
            if q[1]:
                query(d)
            FN[second](d)
            ctx.step(2)
            compare(d, "%s:%s%s,%s%s" % (kind, "query," if q[0] else "", first, "query," if q[1] else "", second))
            ctx.see(fields(d))


# ---- breadth-first over the reachable values: every operation from every value reached -----------------
def gen_bfs(tier):
    for kind in KINDS:
        for a in NAMES:
            yield [kind, a, 3 if tier == "thorough" else 2]


def check_bfs(ctx, case):
    kind, first, depth = case
    seen = set()
    frontier = [(first,)]
    for level in range(depth):
        nxt = []
        for path in frontier:
            d = start(kind)
            query(d)
            for name in path:
                FN[name](d)
                query(d)
            ctx.step(len(path))
            key = fields(d)
            if key in seen:
                continue
            seen.add(key)
            ctx.see(key)
            compare(d, "%s:query,%s" % (kind, ",query,".join(path)))
            if level + 1 < depth:
                nxt += [path + (n,) for n in NAMES]
        frontier = nxt


# ---- copies are independent -----------------------------------------------------------------------------
def gen_copy(tier):
    for kind in KINDS:
        for q in (0, 1):
            for a in NAMES:
                yield [kind, q, a]


def check_copy(ctx, case):
    kind, q, a = case
    for second in NAMES:
        d = start(kind)
        if q:
            query(d)
        FN[a](d)
        if q:
            query(d)
        before = observe(d)
        fb = fields(d)
        c = d.duplicate()
        ctx.step(3)
        if fields(c) != fb or observe(c) != before:
            raise Mismatch("copy of %s after %s differs" % (kind, a))
        FN[second](c)
        query(c)
        if fields(d) != fb or observe(d) != before:
            raise Mismatch("%s on the copy of %s after %s changed the original" % (second, kind, a))
        c = d.duplicate()
        FN[second](d)
        query(d)
        if fields(c) != fb or observe(c) != before:
            raise Mismatch("%s on the original %s after %s changed its copy" % (second, kind, a))
    # read-only operations leave the value alone
    d = start(kind)
    FN[a](d)
    fb = fields(d)
    observe(d)
    d.getAdjustedTime(Timezone(tzid=NY))
    d + Duration(days=1)
    d - Duration(days=1)
    d - PROBE[0]
    if fields(d) != fb:
        raise Mismatch("queries changed %s after %s" % (kind, a))


PARTS = [
    ("two-mutators", gen_seq, check_seq, "all sequences of <=2 of %d mutators x all placements of cache-filling queries x 5 kinds of value" % len(NAMES)),
    ("reachable-values", gen_bfs, check_bfs, "breadth-first to 2 (thorough 3) mutators, queries after every one, deduplicated by value"),
    ("copies", gen_copy, check_copy, "one mutator, copy, every mutator on either side"),
]
