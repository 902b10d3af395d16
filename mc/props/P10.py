# P10: an RRULE expands to exactly the instances RFC 5545 gives it.
from mcbase import Mismatch
import itertools
import refcal as R
import refrule
import reftz
import tzdata
from pycalendar.timezone import Timezone
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.recurrence import Recurrence

tzdata.load(tzdata.NY, tzdata.SYD, tzdata.FIX)


class Utc(object):
    @staticmethod
    def local(t):
        return 0


ZONES = {"ny": (reftz.NY, "Test/NewYork"), "syd": (reftz.SYD, "Test/Sydney"), "kt": (reftz.KT, "Test/Kathmandu"), "utc": (Utc, None)}
Y = 365 * 86400


def dt(t, date):
    f = R.fields(t)
    return DateTime(*(f[:3] if date else f))


def expand(rule, start, t1):
    """what the code gives, DTSTART included, as local seconds"""
    r = Recurrence()
    r.parse(rule)
    t0 = R.secs(*start)
    date = len(start) == 3
    items = []
    r.expand(DateTime(*start), Period(start=dt(t0, date), end=dt(t1, date)), items)
    got = [R.secs(*((i.getYear(), i.getMonth(), i.getDay()) + ((0, 0, 0) if i.isDateOnly() else (i.getHours(), i.getMinutes(), i.getSeconds()))))
           for i in items]
    for i in items:
        if i.isDateOnly() != date:
            raise Mismatch("%s from %s gave an instance of another type: %s" % (rule, start, i.getText()))
    return got


def compare(ctx, rule, start, t1):
    ctx.step()
    want = refrule.expand(rule, start, t1)
    got = expand(rule, start, t1)
    t0 = R.secs(*start)
    if sorted(set(got)) != got:
        raise Mismatch("%s from %s: instances repeated or out of order: %s" % (rule, start, [R.text(R.fields(t)) for t in got][:20]), rule)
    got = sorted(set(got) | set([t0]))
    if got != want:
        missing = [R.text(R.fields(t)) for t in want if t not in set(got)][:4]
        extra = [R.text(R.fields(t)) for t in got if t not in set(want)][:4]
        raise Mismatch("%s from %s to %s: missing %s, extra %s (%d instances expected)" % (
            rule, start, R.text(R.fields(t1)), missing, extra, len(want)), "%s from %r" % (rule, start))
    ctx.see((rule, start, tuple(want)))


MONTHS = ["", "BYMONTH=2", "BYMONTH=1,3", "BYMONTH=12,2,7"]
MDAYS = ["", "BYMONTHDAY=1", "BYMONTHDAY=31", "BYMONTHDAY=-1", "BYMONTHDAY=29,-2,13", "BYMONTHDAY=28,-1", "BYMONTHDAY=-31,-29"]
DAYS = ["", "BYDAY=MO", "BYDAY=SU,WE,SA", "BYDAY=FR,TH,MO"]
NDAYS = ["BYDAY=1MO", "BYDAY=-1SU", "BYDAY=5FR", "BYDAY=2TU,-1TU,WE", "BYDAY=-5SA,4SA"]
YNDAYS = ["BYDAY=1MO", "BYDAY=-1SU", "BYDAY=20MO", "BYDAY=53TH,53FR", "BYDAY=-53SA,-2WE", "BYDAY=1TU,-52TU"]
YDAYS = ["BYYEARDAY=1", "BYYEARDAY=60,100", "BYYEARDAY=366", "BYYEARDAY=-1,200", "BYYEARDAY=-366,-306", "BYYEARDAY=59,-307"]
WEEKS = ["BYWEEKNO=1", "BYWEEKNO=20,21", "BYWEEKNO=53", "BYWEEKNO=-1,10", "BYWEEKNO=52,-53"]
TIMES = ["", "BYHOUR=9,17", "BYHOUR=23,0;BYMINUTE=0,30", "BYMINUTE=15,45", "BYSECOND=0,59", "BYHOUR=6;BYMINUTE=5;BYSECOND=7"]
POS = ["", "BYSETPOS=1", "BYSETPOS=-1", "BYSETPOS=2,-2", "BYSETPOS=-1,1", "BYSETPOS=10"]
ENDS = ["", "COUNT=1", "COUNT=2", "COUNT=7", "UNTIL=+4", "UNTIL=+4-"]     # +4: the fourth instance; -: a second (day) before
WK = ["", "WKST=SU", "WKST=WE"]


def join(*parts):
    return ";".join([p for p in parts if p])


def run_ends(ctx, rule, start, span, ends):
    t0 = R.secs(*start)
    t1 = t0 + span
    base = None
    for e in ends:
        if e.startswith("UNTIL"):
            if base is None:
                base = refrule.expand(rule, start, t1)
            if len(base) < 4:
                continue
            u = base[3]
            if e.endswith("-"):
                u -= 86400 if len(start) == 3 else 1
            f = R.fields(u)
            e = "UNTIL=" + (R.dtext(f) if len(start) == 3 else R.text(f))
        compare(ctx, join(rule, e), start, t1)


STARTS = [(2024, 1, 31, 9, 30, 0), (2023, 3, 1, 0, 0, 0), (2024, 2, 29, 23, 59, 59), (2021, 12, 27)]


def gen_days(tier):
    thorough = tier == "thorough"
    starts = STARTS + ([(2019, 5, 15), (2020, 6, 30, 12, 0, 1)] if thorough else [])
    for i, s in enumerate(starts):
        for iv in ("", "INTERVAL=2") + (("INTERVAL=5",) if thorough else ()):
            if iv and i > 1 and not thorough:
                continue
            for f in ("YEARLY", "MONTHLY", "WEEKLY", "DAILY"):
                for m in MONTHS:
                    for chunk in range(5):
                        yield [f, iv, m, list(s), chunk]


def check_days(ctx, case):
    f, iv, m, start, chunk = case
    start = tuple(start)
    date = len(start) == 3
    ends = ENDS
    times = [""] if date else TIMES
    pos = POS
    head = "FREQ=" + f
    combos = []
    if f == "YEARLY":
        span = (5 if iv == "" else 7) * Y
        combos += [join(m)]
        if m:
            combos += [join(m, md, d) for md in MDAYS for d in DAYS if md or d]
            combos += [join(m, d) for d in NDAYS]
        else:
            combos += [join(yd, d) for yd in YDAYS for d in DAYS] + DAYS[1:] + YNDAYS
            if iv == "":
                combos += [join(w, d) for w in WEEKS for d in DAYS[1:]]
    elif f == "MONTHLY":
        span = (2 if iv == "" else 4) * Y
        combos += [join(m, md, d) for md in MDAYS for d in DAYS] + [join(m, d) for d in NDAYS]
    elif f == "WEEKLY":
        span = 400 * 86400
        combos += [join(m, d, w) for d in DAYS for w in WK]
    else:
        span = 400 * 86400 if m else 100 * 86400
        combos += [join(m, md, d) for md in MDAYS for d in DAYS]
    for i, c in enumerate(combos):
        if i % 5 != chunk:
            continue
        rule = join(head, iv, c)
        # the day combination alone with every ending, then with each of the times and positions
        run_ends(ctx, rule, start, span, ends)
        if not ctx.thorough and start == STARTS[1]:
            continue
        if "BY" not in c:
            plist = [""]
        else:
            plist = pos
        if f == "DAILY" or "WKST" in c:
            plist = [""]
        for p in plist[1:]:
            if "BYWEEKNO" in c:
                continue
            run_ends(ctx, join(rule, p), start, span // 2, ["COUNT=7"] if i % 2 or ctx.thorough else [""])
        if i // 5 % (1 if ctx.thorough else 5) == 0:
            for t in times[1:]:
                run_ends(ctx, join(rule, t), start, min(span, 2 * Y), ["", "COUNT=7", "UNTIL=+4"])
                run_ends(ctx, join(rule, t, "BYSETPOS=2,-1"), start, min(span, 2 * Y), ["COUNT=7"])


def gen_int(tier):
    ivs = list(range(1, 14)) + [24, 26, 31, 52, 53, 100]
    for f in ("YEARLY", "MONTHLY", "WEEKLY", "DAILY", "HOURLY", "MINUTELY", "SECONDLY"):
        for iv in ivs + (list(range(14, 72)) if tier == "thorough" else []):
            yield [f, iv]


def check_int(ctx, case):
    """every interval, with every ending, the UNTIL on an instance and just before it"""
    f, iv = case
    unit = {"YEARLY": 366 * 86400, "MONTHLY": 31 * 86400, "WEEKLY": 7 * 86400, "DAILY": 86400, "HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[f]
    for i, start in enumerate(STARTS):
        if len(start) == 3 and unit < 86400:
            continue
        for by in [""] + ({"YEARLY": ["BYMONTH=2,9"], "MONTHLY": ["BYDAY=2WE,-1FR"], "WEEKLY": ["BYDAY=MO,SU"], "DAILY": ["BYDAY=TU,SA"],
                           "HOURLY": ["BYMINUTE=0,40"], "MINUTELY": ["BYSECOND=1,30"], "SECONDLY": []}[f] if len(start) > 3 or unit >= 86400 else []):
            span = min(unit * iv * 9, 150 * Y)
            run_ends(ctx, join("FREQ=" + f, "INTERVAL=%d" % iv, by), start, span, ENDS)


def gen_sub(tier):
    for f in ("HOURLY", "MINUTELY", "SECONDLY"):
        for iv in (1, 2, 3, 7, 25, 45, 90) if tier == "thorough" else (1, 7, 45):
            for m in ("", "BYMONTH=3", "BYMONTH=2,12"):
                for d in ("", "BYDAY=FR,SU", "BYMONTHDAY=1,-1", "BYYEARDAY=60,-1", "BYDAY=FR;BYMONTHDAY=1"):
                    yield [f, iv, m, d]


def check_sub(ctx, case):
    f, iv, m, d = case
    head = join("FREQ=" + f, "INTERVAL=%d" % iv if iv > 1 else "", m, d)
    for start in ((2024, 2, 29, 22, 50, 30), (2023, 12, 31, 23, 59, 0)):
        if f == "HOURLY":
            span = 4 * 86400
            subs = ["", "BYHOUR=0,23", "BYMINUTE=0,59", "BYHOUR=1;BYMINUTE=10,20;BYSECOND=5", "BYSECOND=0,30"]
        elif f == "MINUTELY":
            span = 6 * 3600
            subs = ["", "BYHOUR=0,23", "BYMINUTE=0,59", "BYHOUR=1;BYMINUTE=10,20;BYSECOND=5", "BYSECOND=0,30"]
        else:
            span = 4300 if ctx.thorough else 130
            subs = ["", "BYHOUR=0", "BYMINUTE=0,59", "BYSECOND=0,30", "BYHOUR=23,0;BYMINUTE=59,1;BYSECOND=58,7"]
        for s in subs:
            run_ends(ctx, join(head, s), start, span, ENDS if ctx.thorough else ["", "COUNT=1", "COUNT=7", "UNTIL=+4-"])
            if s and (f != "SECONDLY"):
                run_ends(ctx, join(head, s, "BYSETPOS=-1"), start, span, ["", "COUNT=7"])


ZRULES = ["FREQ=DAILY", "FREQ=DAILY;INTERVAL=3", "FREQ=DAILY;BYHOUR=1,3,12", "FREQ=WEEKLY", "FREQ=WEEKLY;BYDAY=SU,MO", "FREQ=MONTHLY",
          "FREQ=MONTHLY;BYDAY=2SU,-1SU", "FREQ=MONTHLY;BYMONTHDAY=-1,10", "FREQ=YEARLY", "FREQ=YEARLY;BYMONTH=3,11;BYDAY=2SU,1SU",
          "FREQ=YEARLY;BYYEARDAY=70,307", "FREQ=WEEKLY;BYDAY=SU,SA;BYSETPOS=1"]


def gen_zone(tier):
    for r in ZRULES:
        for z in ("ny", "syd", "kt", "utc"):
            for t in ((2024, 3, 2, 3, 30, 0), (2023, 10, 29, 12, 0, 0), (2024, 3, 31, 0, 15, 0)):
                yield [r, z, list(t)]


def check_zone(ctx, case):
    """zoned starts: instances keep the local reading across daylight changes; UNTIL is an instant in UTC"""
    rule, z, start = case
    ref, tzid = ZONES[z]
    t0 = R.secs(*start)
    t1 = t0 + (20 if "YEARLY" in rule else 3 if "MONTHLY" in rule else 1) * Y
    base = refrule.expand(rule, tuple(start), t1)

    def zdt(t):
        return DateTime(*(list(R.fields(t)) + [Timezone(utc=True) if tzid is None else Timezone(tzid=tzid)]))

    def udt(t):
        return R.text(R.fields(t)) + "Z"

    for end, want in [("", base), ("COUNT=5", base[:5])] + [
            ("UNTIL=" + udt((base[k] - ref.local(base[k])) + off), base[:k + 1 if off >= 0 else k]) for k in (1, 3, len(base) - 1) for off in (-1, 0, 1)]:
        for viaset in (False, True):
            r = Recurrence()
            r.parse(join(rule, end))
            items = []
            s0 = zdt(t0)
            # the window too may be given in UTC
            w = Period(start=DateTime.parseText(udt(t0 - ref.local(t0))), end=DateTime.parseText(udt(t1 - ref.local(t1)))) if viaset else Period(start=zdt(t0), end=zdt(t1))
            r.expand(s0, w, items)
            ctx.step()
            got = sorted(set([R.text((i.getYear(), i.getMonth(), i.getDay(), i.getHours(), i.getMinutes(), i.getSeconds())) for i in items]) | set([R.text(start)]))
            exp = [R.text(R.fields(t)) for t in want]
            if got != exp:
                raise Mismatch("%s in %s from %s: %s, expected %s" % (join(rule, end), z, start, got[:60], exp[:60]), "%s in %s from %s" % (join(rule, end), z, start))
            for i in items:
                if i.getTimezoneID() != s0.getTimezoneID() or i.getTimezoneUTC() != s0.getTimezoneUTC():
                    raise Mismatch("%s in %s: instance in another zone: %s" % (rule, z, i.getText()))
            ctx.see((rule, end, z, tuple(exp)))


PARTS = [
    ("zones", gen_zone, check_zone, "12 rules x 3 zones and UTC x 3 starts x COUNT, UNTIL in UTC a second either side of an instance"),
    ("days-to-years", gen_days, check_days, "YEARLY..DAILY: 4 starts x months, month days, weekdays, year days, weeks, times, positions, COUNT/UNTIL, INTERVAL 1,2 (thorough: 6 starts, INTERVAL 5, all times)"),
    ("intervals", gen_int, check_int, "every FREQ with 19 intervals (thorough: all to 71) from 4 starts, plain and with one BYxxx, every COUNT/UNTIL ending"),
    ("sub-daily", gen_sub, check_sub, "HOURLY..SECONDLY: 3 (thorough 7) intervals x month x day x time limits x COUNT/UNTIL"),
]
