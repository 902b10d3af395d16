# P01: calendar arithmetic.
from mcbase import Mismatch
import refcal as R
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.timezone import Timezone
from pycalendar import utils

UTC = Timezone(utc=True)


def mk(f, kind):
    if kind == "date":
        return DateTime(f[0], f[1], f[2])
    return DateTime(f[0], f[1], f[2], f[3], f[4], f[5], UTC if kind == "utc" else None)


def got(dt):
    return (dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds())


def expect(what, a, b):
    if a != b:
        raise Mismatch("%s: real code gives %r, the calendar gives %r" % (what, a, b))


# ---- every day of the range ------------------------------------------------------------------------------
def gen_years(tier):
    if tier == "thorough":
        for y in range(1753, 2500):
            yield y
        for y in range(2500, 9999, 37):
            yield y
    else:
        for y in range(1896, 2104):
            yield y
        for y in (1753, 1799, 1800, 1801, 1804, 1856, 2196, 2200, 2204, 2300, 2399, 2400, 2401, 2500, 3000, 9998):
            yield y


def check_year(ctx, y):
    n = R.days(y, 1, 1)
    prev = None
    for yd in range(1, 366 + R.leap(y)):
        f = R.civil(n)
        dt = DateTime(f[0], f[1], f[2])
        ctx.step(5)
        what = "%04d-%02d-%02d" % f
        expect(what + " day of week", dt.getDayOfWeek(), R.wday(n))
        expect(what + " day of year", dt.getYearDay(), yd)
        expect(what + " ISO week", dt.getWeekNo(), R.isoweek(n)[1])
        expect(what + " seconds since 1970", DateTime(f[0], f[1], f[2], 23, 0, 1, UTC).getPosixTime(), n * 86400L + 82801)
        if prev is not None:
            ctx.step(2)
            prev.offsetDay(1)
            expect(what + " as its eve + 1 day", got(prev)[:3], f)
            dt2 = DateTime(f[0], f[1], f[2])
            dt2.offsetDay(-yd)
            expect(what + " minus day of year", got(dt2)[:3], (y - 1, 12, 31))
        prev = dt
        n += 1
    for m in range(1, 13):
        ctx.step()
        expect("days in %d-%d" % (y, m), utils.daysInMonth(m, y), R.mlen(y, m))
    expect("leap %d" % y, bool(utils.isLeapYear(y)), R.leap(y))
    ctx.see((y, R.leap(y), R.wday(R.days(y, 1, 1))))


# ---- offsets ---------------------------------------------------------------------------------------------
DATES = [(y, m, d) for y in (1899, 1900, 1969, 1970, 1999, 2000, 2003, 2004, 2023, 2024, 2099, 2100)
         for m, d in ((1, 1), (1, 31), (2, 28), (2, 29), (3, 1), (3, 31), (4, 30), (6, 15), (12, 1), (12, 31))
         if d <= R.mlen(y, m)]
TIMES = [(0, 0, 0), (23, 59, 59), (12, 30, 15)]
OPS = {
    "year": [1, -1, 2, 4, -4, 100, -100],
    "month": [1, -1, 2, -2, 11, 12, 13, -11, -12, -13, 24, -25, 120],
    "day": [1, -1, 7, 28, 29, 30, 31, -28, -29, -31, 59, 60, 365, 366, -365, -366, 1461, 36524, -36525],
    "hours": [1, -1, 23, 24, 25, -24, -25, 48, 8760],
    "minutes": [1, -1, 29, 59, 60, -60, 1439, 1440, -1441, 525600],
    "seconds": [1, -1, 44, 45, 59, 60, -60, 3599, 3600, 86399, 86400, 86401, -86399, -86400, -86401, 31622400],
}


def apply_ref(f, op, k):
    y, mo, d, h, mi, s = f
    if op == "year":
        y += k
    elif op == "month":
        mo += k
    elif op == "day":
        d += k
    elif op == "hours":
        h += k
    elif op == "minutes":
        mi += k
    else:
        s += k
    return R.fields(R.secs(y, mo, d, h, mi, s))


def gen_offsets(tier):
    for d in DATES:
        for kind in ("date", "floating", "utc"):
            for t in (TIMES if kind != "date" else TIMES[:1]):
                yield [list(d + t), kind]


def check_offsets(ctx, case):
    f, kind = case
    for op in sorted(OPS):
        for k in OPS[op]:
            want = apply_ref(f, op, k)
            if kind == "date":
                want = want[:3] + (0, 0, 0)
            dt = mk(f, kind)
            getattr(dt, "offset" + op[0].upper() + op[1:])(k)
            ctx.step()
            expect("%s %s %+d %s" % (kind, R.text(f), k, op), got(dt), want)
            if dt.isDateOnly() != (kind == "date") or dt.utc() != (kind == "utc"):
                raise Mismatch("%s %s %+d %s changed the kind of value" % (kind, R.text(f), k, op))
            if op not in ("year", "month"):
                unit = {"day": 86400, "hours": 3600, "minutes": 60, "seconds": 1}[op]
                for dur in (Duration(k * unit), Duration(**{"days" if op == "day" else op: k})):
                    ctx.step(2)
                    a = mk(f, kind) + dur
                    expect("%s %s + duration of %+d %s" % (kind, R.text(f), k, op), got(a), want)
                    b = mk(f, kind) - Duration(-k * unit)
                    expect("%s %s - duration of %+d %s" % (kind, R.text(f), -k, op), got(b), want)
            ctx.see((kind, got(dt)))
    for w in (1, -1, 4, 52, 53, -53):
        ctx.step()
        a = mk(f, kind) + Duration(weeks=w)
        expect("%s %s + %d weeks" % (kind, R.text(f), w), got(a), apply_ref(f, "day", 7 * w))
    src = mk(f, kind)
    before = got(src)
    src + Duration(days=40)
    src - Duration(days=40)
    expect("operand of + and -", got(src), before)


# ---- two-step offsets: each step normalises ---------------------------------------------------------------
def gen_pairs_of_steps(tier):
    steps = [(op, k) for op in sorted(OPS) for k in (OPS[op] if tier == "thorough" else OPS[op][:5])]
    for d in DATES[::5] if tier == "quick" else DATES:
        for a in steps:
            yield [list(d), list(a)]


def check_pairs_of_steps(ctx, case):
    d, (op1, k1) = case
    f = tuple(d) + (23, 30, 59)
    mid = apply_ref(f, op1, k1)
    for op2 in sorted(OPS):
        for k2 in OPS[op2][:5]:
            dt = mk(f, "utc")
            getattr(dt, "offset" + op1[0].upper() + op1[1:])(k1)
            getattr(dt, "offset" + op2[0].upper() + op2[1:])(k2)
            ctx.step(2)
            want = apply_ref(mid, op2, k2)
            expect("%s %+d %s %+d %s" % (R.text(f), k1, op1, k2, op2), got(dt), want)
            expect("instant after %s %+d %s %+d %s" % (R.text(f), k1, op1, k2, op2), dt.getPosixTime(), R.secs(*want))
            ctx.see(got(dt))


# ---- differences -----------------------------------------------------------------------------------------
def gen_diff(tier):
    for d in DATES:
        for t in (TIMES if tier == "thorough" else TIMES[1:]):
            yield list(d + t)


def check_diff(ctx, f):
    for d in DATES:
        for t in TIMES[:2] if ctx.thorough else TIMES[1:2]:
            g = d + t
            want = R.secs(*f) - R.secs(*g)
            for k1, k2 in (("utc", "utc"), ("floating", "floating"), ("utc", "floating"), ("floating", "utc")):
                a, b = mk(f, k1), mk(g, k2)
                diff = a - b
                ctx.step()
                expect("%s - %s" % (R.text(f), R.text(g)), diff.getTotalSeconds(), want)
                if k1 == k2:
                    expect("%s + (%s - %s)" % (R.text(g), R.text(f), R.text(g)), got(b + diff), tuple(f))
                    c = a.compareDateTime(b)
                    expect("order of %s and %s" % (R.text(f), R.text(g)), (c > 0) - (c < 0), cmp(want, 0))
    for d in DATES:
        ctx.step()
        a, b = DateTime(*f[:3]), DateTime(*d)
        expect("date %r - %r" % (f[:3], d), (a - b).getTotalSeconds(), 86400 * (R.days(*f[:3]) - R.days(*d)))
        expect("order of dates", cmp(a, b), cmp(tuple(f[:3]), d))


# ---- positional setters ----------------------------------------------------------------------------------
def gen_setters(tier):
    for y in (1900, 1999, 2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2012, 2020, 2100) if tier == "quick" else range(1980, 2110):
        for m in range(1, 13):
            yield [y, m]


def check_setters(ctx, case):
    y, m = case
    first = R.days(y, m, 1)
    ln = R.mlen(y, m)
    for wd in range(7):
        all_in_month = [n for n in range(first, first + ln) if R.wday(n) == wd]
        for k in (1, 2, 3, 4, 5, -1, -2, -3, -4, -5):
            base = all_in_month[0] + 7 * (k - 1) if k > 0 else all_in_month[-1] + 7 * (k + 1)
            dt = DateTime(y, m, 13, 10, 20, 30)
            dt.setDayOfWeekInMonth(k, wd)
            ctx.step()
            expect("%d. weekday %d of %04d-%02d" % (k, wd, y, m), got(dt), R.civil(base) + (10, 20, 30))
        for start in (1, 2, 8, 15, 22, 25, 28):
            want = [n for n in range(first + start - 1, first + start + 6) if R.wday(n) == wd][0]
            dt = DateTime(y, m, 13)
            dt.setNextDayOfWeek(start, wd)
            ctx.step()
            expect("weekday %d on or after %04d-%02d-%02d" % (wd, y, m, start), got(dt)[:3], R.civil(want))
    for n in range(first, first + ln):
        f = R.civil(n)
        wd = R.wday(n)
        same = [i for i in range(first, first + ln) if R.wday(i) == wd]
        dt = DateTime(*f)
        for k in range(-5, 6):
            want = k == 0 or (k > 0 and same[k - 1:k] == [n]) or (k < 0 and len(same) >= -k and same[k] == n)
            ctx.step(2)
            expect("%r is number %d of its weekday" % (f, k), bool(dt.isDayOfWeekInMonth(k, wd)), want)
            expect("%r is number %d of another weekday" % (f, k), bool(dt.isDayOfWeekInMonth(k, (wd + 1) % 7)), False)
        for k in (f[2], f[2] - ln - 1):
            expect("%r is day %d" % (f, k), bool(dt.isMonthDay(k)), True)
        expect("%r is day %d" % (f, f[2] % ln + 1), bool(dt.isMonthDay(f[2] % ln + 1)), ln == 1)
        w = R.isoweek(n)[1]
        for k in (w, w - 1, w + 1):
            if k > 0:
                expect("%r in week %d" % (f, k), bool(dt.isWeekNo(k)), k == w)
    for k in list(range(1, 32)) + list(range(-31, 0)):
        base = first + k - 1 if k > 0 else first + ln + k
        dt = DateTime(y, m, 5, 1, 2, 3)
        dt.setMonthDay(k)
        ctx.step()
        expect("day %d of %04d-%02d" % (k, y, m), got(dt), R.civil(base) + (1, 2, 3))
    if m in (1, 2, 12):
        jan1, dec31 = R.days(y, 1, 1), R.days(y, 12, 31)
        for k in list(range(1, 367)) + list(range(-366, 0)):
            base = jan1 + k - 1 if k > 0 else dec31 + k + 1
            dt = DateTime(y, m, 5, 1, 2, 3)
            dt.setYearDay(k)
            ctx.step()
            expect("day %d of year %d" % (k, y), got(dt), R.civil(base) + (1, 2, 3))
        for wd in range(7):
            ys = [n for n in range(jan1, dec31 + 1) if R.wday(n) == wd]
            for k in (1, 2, 10, 51, 52, 53, -1, -2, -10, -51, -52, -53):
                base = ys[0] + 7 * (k - 1) if k > 0 else ys[-1] + 7 * (k + 1)
                dt = DateTime(y, m, 5)
                dt.setDayOfWeekInYear(k, wd)
                ctx.step()
                expect("%d. weekday %d of year %d" % (k, wd, y), got(dt)[:3], R.civil(base))
    ctx.see((y, m, R.wday(first)))


def gen_weeks(tier):
    for y in range(1990, 2030) if tier == "quick" else range(1900, 2200):
        yield y


def check_weeks(ctx, y):
    # from any day of the middle of the year: same weekday, requested week
    last = R.isoweek(R.days(y, 12, 28))[1]
    for wd in range(7):
        day = [n for n in range(R.days(y, 6, 1), R.days(y, 6, 8)) if R.wday(n) == wd][0]
        for w in range(1, last + 1):
            dt = DateTime(*(R.civil(day) + (9, 8, 7)))
            dt.setWeekNo(w)
            ctx.step()
            monday1 = R.days(y, 1, 4) - (R.wday(R.days(y, 1, 4)) + 6) % 7
            want = monday1 + 7 * (w - 1) + (wd + 6) % 7
            expect("weekday %d of week %d of %d" % (wd, w, y), got(dt), R.civil(want) + (9, 8, 7))
            ctx.see((y, w, wd))


PARTS = [
    ("every-day", gen_years, check_year, "each day of each listed year (1896-2103 and century edges): weekday, yearday, ISO week, epoch, +1 day"),
    ("offsets", gen_offsets, check_offsets, "edge dates x {date, floating, UTC} x 3 times x every offset unit and amount"),
    ("two-steps", gen_pairs_of_steps, check_pairs_of_steps, "all sequences of two offsets from the alphabet"),
    ("differences", gen_diff, check_diff, "all pairs of edge date-times: difference, order, inverse"),
    ("positions", gen_setters, check_setters, "n-th weekday / month day / year day setters and tests, every month of the listed years"),
    ("weeks", gen_weeks, check_weeks, "every ISO week and weekday of each year"),
]
