# P34: what is shown to a person: dates, times, zones, months, rules, and what "now" and "today" are.
from mcbase import Mismatch
import itertools
import time
import refcal as R
import reftz
import tzdata
from pycalendar import locale, utils
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.vtimezone import VTimezone
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase

DAYS = "Sunday Monday Tuesday Wednesday Thursday Friday Saturday".split()
MONTHS = "January February March April May June July August September October November December".split()
UTC = Timezone(utc=True)
SOUTH = {"Test/NewYork": False, "Test/Sydney": True}


class Clock(object):

    def __init__(self, now):
        self.now = now

    def __enter__(self):
        self.real = time.time
        self.local = time.localtime
        time.time = staticmethod(lambda: float(self.now))
        time.localtime = time.gmtime          # the process itself is in UTC

    def __exit__(self, *args):
        time.time = self.real
        time.localtime = self.local


def expect(what, real, want):
    if real != want:
        raise Mismatch("%s: real code gives %r, it should be %r" % (what, real, want))


# --- dates
def gen_dates(tier):
    for y in [1753, 1800, 1899, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2026, 2038, 2100, 9998] + (list(range(1900, 2101)) if tier == "thorough" else []):
        for m in range(1, 13):
            yield (y, m)


def shown(y, m, d):
    w, mo = DAYS[R.wday(R.days(y, m, d))], MONTHS[m - 1]
    return {
        DateTime.FULLDATE: "%s, %s %d, %d" % (w, mo, d, y),
        DateTime.ABBREVDATE: "%s, %s %d, %d" % (w[:3], mo[:3], d, y),
        DateTime.NUMERICDATE: "%d/%d/%d" % (m, d, y),
        DateTime.FULLDATENOYEAR: "%s, %s %d" % (w, mo, d),
        DateTime.ABBREVDATENOYEAR: "%s, %s %d" % (w[:3], mo[:3], d),
        DateTime.NUMERICDATENOYEAR: "%d/%d" % (m, d),
    }


def check_dates(ctx, case):
    y, m = case
    for d in range(1, R.mlen(y, m) + 1):
        want = shown(y, m, d)
        for dt in (DateTime(y, m, d), DateTime(y, m, d, 0, 0, 0), DateTime(y, m, d, 23, 59, 59, UTC)):
            ctx.step(7)
            for form in (0, 1, 2, 3, 4, 5):
                expect("%s form %d" % (dt, form), dt.getLocaleDate(form), want[form])
            if not dt.isDateOnly():
                t = "00:00:00" if dt.getHours() == 0 else "23:59:59"
                for form in want:
                    expect("%s with its time, form %d" % (dt, form), dt.getLocaleDateTime(form, True, False, False), want[form] + " " + t)
    w = DAYS[m % 7]
    expect("day %d" % (m % 7), [locale.getDay(m % 7, i) for i in (locale.LONG, locale.SHORT, locale.ABBREVIATED)], [w, w[:3], w[:1]])
    expect("month %d" % m, [locale.getMonth(m, i) for i in (locale.LONG, locale.SHORT, locale.ABBREVIATED)], [MONTHS[m - 1], MONTHS[m - 1][:3], MONTHS[m - 1][:1]])
    ctx.see(("%04d" % y, m))


# --- times and zones
OFFSETS = [h * 3600 + q * 900 for h in range(-12, 14) for q in range(4)] + [-60, 60, -3540, 35940]


def named(seconds):
    return "%s%02d%02d" % ("-" if seconds < 0 else "+", abs(seconds) // 3600, abs(seconds) // 60 % 60)


def gen_times(tier):
    for h in range(24):
        yield ("utc", h)
    for h in range(24):
        yield ("float", h)
    for i in range(len(OFFSETS)):
        for form in ("fixed", "zone", "nameless"):
            yield (form, i)
    for y in range(2008, 2040 if tier == "thorough" else 2014):
        for m in range(1, 13):
            yield ("daylight", y, m)


def clocktime(h, mi, s, with_seconds, am_pm):
    tail = ":%02d" % mi + (":%02d" % s if with_seconds else "")
    if am_pm:
        return "%d%s %s" % ((h + 11) % 12 + 1, tail, "PM" if h >= 12 else "AM")
    return "%02d%s" % (h, tail)


def look(ctx, dt, h, mi, s, zone):
    for a, b, c in itertools.product((False, True), repeat=3):
        if c and zone is None:
            continue
        ctx.step()
        what = "%s, seconds %r, am/pm %r, zone %r" % (dt, a, b, c)
        t = clocktime(h, mi, s, a, b) + (" " + zone if c and zone else "")
        expect(what, dt.getTime(a, b, c), t)
        expect(what + " after its date", dt.getLocaleDateTime(DateTime.NUMERICDATE, a, b, c), "%d/%d/%d %s" % (dt.getMonth(), dt.getDay(), dt.getYear(), t))


def check_times(ctx, case):
    kind = case[0]
    TimezoneDatabase.createTimezoneDatabase("")
    if kind in ("utc", "float"):
        for mi in range(60):
            for s in (0, 7, 10, 59):
                look(ctx, DateTime(2024, 2, 29, case[1], mi, s, UTC if kind == "utc" else None), case[1], mi, s, "(UTC)" if kind == "utc" else None)
    elif kind == "daylight":
        tzdata.load(tzdata.NY)
        y, m = case[1:]
        on, off = reftz.nth(y, 3, 0, 2), reftz.nth(y, 11, 0, 1)
        for d in range(1, R.mlen(y, m) + 1):
            for h in (0, 1, 4, 5, 12, 23):
                at = (m, d, h)
                name = "(EDT)" if (3, on, 2) <= at < (11, off, 2) else "(EST)"
                if (m, d, h) == (11, off, 1):
                    continue
                look(ctx, DateTime(y, m, d, h, 5, 9, Timezone(False, "Test/NewYork")), h, 5, 9, name)
    else:
        n = OFFSETS[case[1]]
        if kind == "fixed":
            zone, name = Timezone(False, n), named(n)
        else:
            text = tzdata.vtimezone("Z", [("STANDARD", "19700101T000000", named(n), named(n), "Abc")])
            tzdata.load(text if kind == "zone" else text.replace("TZNAME:Abc\r\n", ""))
            zone, name = Timezone(False, "Z"), "(Abc)" if kind == "zone" else named(n)
        if n == 0 and kind == "fixed":
            return
        for h in range(24):
            look(ctx, DateTime(2024, 12, 31, h, h, 59 - h, zone), h, h, 59 - h, name)
        expect("descriptor", DateTime(2024, 12, 31, 1, 2, 3, zone).timeZoneDescriptor(), name)
    ctx.see(repr(case))


# --- the table of a month
def gen_months(tier):
    for y in [1753, 1900, 1969, 1970, 1999, 2000, 2015, 2023, 2024, 2025, 2026, 2027, 2100] + (list(range(1971, 2051)) if tier == "thorough" else []):
        for m in range(1, 13):
            yield (y, m)


def check_months(ctx, case):
    y, m = case
    first = R.days(y, m, 1)
    n = R.mlen(y, m)
    for weekstart in range(7):
        begin = first - (R.wday(first) - weekstart) % 7
        weeks = []
        while begin + 7 * len(weeks) < first + n:
            weeks.append([R.civil(begin + 7 * len(weeks) + i) for i in range(7)])
        for today in range(begin - 1, begin + 7 * len(weeks) + 1):
            if today < 0 and today % 5:
                continue
            ctx.step()
            f = R.civil(today)
            with Clock(today * 86400 + 43200):
                table, index = utils.getMonthTable(m, y, weekstart, [], [-1, -1])
            what = "month %d/%d, week from %s, today %r" % (m, y, DAYS[weekstart], f)
            got = [[(utils.unpackDateYear(c), utils.unpackDateMonth(c), utils.unpackDateDay(c)) for c in row] for row in table]
            expect(what, got, [[(d[0], d[1], d[2] if d[:2] == (y, m) else -d[2]) for d in row] for row in weeks])
            for row in table:
                for c in row:
                    d = [0, 0, 0]
                    utils.unpackDate(c, d)
                    expect(what + ": cell", tuple(d), (utils.unpackDateYear(c), utils.unpackDateMonth(c), utils.unpackDateDay(c)))
            expect(what + ": where today is", list(index), [divmod(today - begin, 7)[0], (today - begin) % 7] if begin <= today < begin + 7 * len(weeks) else [-1, -1])
        ctx.see((y, m, weekstart, len(weeks)))


# --- now and today
def gen_now(tier):
    for day in [R.days(2023, 12, 31), R.days(2024, 2, 28), R.days(2024, 2, 29), R.days(2024, 3, 9), R.days(2024, 3, 10), R.days(2024, 7, 1), R.days(2024, 11, 3), R.days(1970, 1, 2)]:
        for h in range(24):
            yield (day, h)


def check_now(ctx, case):
    day, h = case
    tzdata.load(tzdata.NY, tzdata.SYD)
    NY = tzdata_offset
    for mi in (0, 31):
        now = day * 86400 + h * 3600 + mi * 60 + 17
        zones = [(UTC, 0), (Timezone(False, 19800), 19800), (Timezone(False, -34200), -34200)]
        if day > 14000:
            zones += [(Timezone(False, z), tzdata_offset(now, s)) for z, s in SOUTH.items()]
        with Clock(now):
            expect("the time in UTC", fields(DateTime.getNowUTC()), R.fields(now))
            dt = DateTime(2001, 2, 3, 4, 5, 6, Timezone(False, 3600))
            dt.setNowUTC()
            expect("set to the time in UTC", (fields(dt), dt.getTimezoneUTC(), dt.isDateOnly()), (R.fields(now), True, False))
            expect("today", date(DateTime.getToday()), R.fields(now)[:3])
            for zone, off in zones:
                ctx.step(5)
                want = R.fields(now + off)
                what = "clock %r, zone %s" % (R.fields(now), zone.getTimezoneID() or "UTC")
                got = DateTime.getNow(zone)
                # where clocks have just been put back the time there says two instants
                twice = zone.getTimezoneID() in SOUTH and tzdata_offset(now - 3600, SOUTH[zone.getTimezoneID()]) == off + 3600
                full = lambda dt: (fields(dt), dt.getTimezoneUTC(), dt.getTimezoneID(), now if twice else dt.getPosixTime())
                expect(what + ": now", full(got), (want, zone.getUTC(), zone.getTimezoneID(), now))
                expect(what + ": today", date(DateTime.getToday(zone)), want[:3])
                for set in ("setNow", "setToday"):
                    dt = DateTime(2001, 2, 3, 4, 5, 6, zone)
                    dt.getPosixTime()
                    getattr(dt, set)()
                    if set == "setNow":
                        expect(what + ": setNow", full(dt), (want, zone.getUTC(), zone.getTimezoneID(), now))
                    else:
                        expect(what + ": setToday", date(dt), want[:3])
            dt = DateTime(2001, 2, 3)
            dt.setToday()
            expect("a date set to today", (date(dt), dt.floating()), (R.fields(now)[:3], True))
    ctx.see(case)


def fields(dt):
    return (dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds())


def date(dt):
    if not dt.isDateOnly():
        return "not a date: %s" % dt
    return fields(dt)[:3]


def tzdata_offset(now, south):
    """offset of the zones above at an instant"""
    y = R.fields(now)[0]
    if not south:
        a = R.secs(y, 3, 8) + (-R.wday(R.days(y, 3, 8)) % 7) * 86400 + 7 * 3600
        b = R.secs(y, 11, 1) + (-R.wday(R.days(y, 11, 1)) % 7) * 86400 + 6 * 3600
        return -14400 if a <= now < b else -18000
    a = R.secs(y, 4, 1) + (-R.wday(R.days(y, 4, 1)) % 7) * 86400 - 8 * 3600
    b = R.secs(y, 10, 1) + (-R.wday(R.days(y, 10, 1)) % 7) * 86400 - 8 * 3600
    return 36000 if a <= now < b else 39600


# --- rules
PARTS_OF = {
    "BYMONTH": ["1", "1,12"],
    "BYMONTHDAY": ["1", "31", "-1", "-7", "-8", "-31", "1,-8", "-8,1", "15,31,-7"],
    "BYDAY": ["MO", "MO,WE", "1MO", "4MO,4FR", "5MO", "-2SU", "-3SU", "1MO,2MO", "MO,1MO", "-1MO,-1TU,-2WE"],
    "BYSETPOS": ["1", "-1", "2", "1,-1", "-2"],
    "BYHOUR": ["9"],
    "BYMINUTE": ["0"],
    "BYSECOND": ["0,30"],
    "BYYEARDAY": ["100"],
    "BYWEEKNO": ["20"],
}
ORDER = ["BYMONTH", "BYMONTHDAY", "BYDAY", "BYSETPOS", "BYHOUR", "BYMINUTE", "BYSECOND", "BYYEARDAY", "BYWEEKNO"]


def advanced(parts):
    for k in ("BYHOUR", "BYMINUTE", "BYSECOND", "BYYEARDAY", "BYWEEKNO"):
        if k in parts:
            return False
    if "BYMONTHDAY" in parts and not all([-7 <= int(x) <= 31 for x in parts["BYMONTHDAY"].split(",")]):
        return False
    if "BYDAY" in parts:
        n = set([x[:-2] or "0" for x in parts["BYDAY"].split(",")])
        if len(n) > 1 or not -2 <= int(list(n)[0]) <= 4:
            return False
    return parts.get("BYSETPOS", "1") in ("1", "-1")


def gen_rules(tier):
    for k in range(4 if tier == "thorough" else 3):
        for names in itertools.combinations(ORDER, k):
            for values in itertools.product(*[PARTS_OF[n] for n in names]):
                yield [[n, v] for n, v in zip(names, values)]


OTHERS = ["RDATE:20240110T120000", "RDATE;VALUE=PERIOD:20240110T120000/PT1H", "EXDATE:20240102T120000", "EXRULE:FREQ=WEEKLY", "RRULE:FREQ=YEARLY;COUNT=3"]


def check_rules(ctx, case):
    parts = dict([(a, b) for a, b in case])
    text = "FREQ=MONTHLY;COUNT=5" + "".join([";%s=%s" % (n, v) for n, v in case])
    simple, adv = not parts, advanced(parts)
    r = Recurrence()
    r.parse(text)
    ctx.step(2)
    expect(text + " simple, advanced", (bool(r.isSimpleRule()), bool(r.isAdvancedRule())), (simple, adv))
    shape = lambda t: sorted(t.split(";"))
    expect(text + " described", shape(r.getUIDescription()), shape(text))
    for n in range(len(OTHERS) + 1 if len(parts) < 2 else 1):
        for extra in itertools.combinations(OTHERS, n):
            for rule in (True, False):
                lines = (["RRULE:" + text] if rule else []) + list(extra)
                cal = Calendar.parseText(tzdata.calendar("BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T120000\r\n" + "".join([x + "\r\n" for x in lines]) + "END:VEVENT\r\n"))
                s = cal.getComponents()[0].getRecurrenceSet()
                ctx.step(4)
                rules = [x[6:] for x in lines if x.startswith("RRULE")]
                multi = len(rules) > 1 or any([not x.startswith("EXDATE") and not x.startswith("RRULE") for x in extra])
                one = rules[0] if len(rules) == 1 else None
                if s is None:
                    if lines:
                        raise Mismatch("%r: no recurrence set" % (lines,))
                    continue
                mine = one == text
                expect("%r simple" % (lines,), bool(s.isSimpleUI()), not multi and (one is None or not mine or simple))
                expect("%r advanced" % (lines,), bool(s.isAdvancedUI()), not multi and (one is None or not mine or adv))
                got = s.getUIRecurrence()
                expect("%r rule shown" % (lines,), shape(got.getText()) if got is not None else None, shape(one) if one else None)
                if not lines:
                    want = "No Recurrence"
                elif len(lines) == 1 and one:
                    want = None
                else:
                    want = "Multiple recurrence rules, dates or exclusions"
                d = s.getUIDescription()
                expect("%r described" % (lines,), shape(d) if want is None else d, shape(one) if want is None else want)
    ctx.see(text)


# --- the order of zones: from west to east, then by name
ZONES = [("b/Paris", (3600, 7200)), ("A/Paris", (7200, 3600)), ("a/Lome", (5400,)), ("B/Z", (5400,)), ("Negative", (-18000, -14400)), ("negativf", (-16200,)), ("C", (0,)), ("c2", (-3600, 3600)), ("East", (50400,)), ("Three", (3600, 7200, 0))]


def gen_zones(tier):
    for c in itertools.permutations(range(len(ZONES)), 4 if tier == "thorough" else 3):
        yield list(c)


def zone(i):
    obs = [("DAYLIGHT" if j else "STANDARD", "20%02d0101T000000" % j, named(ZONES[i][1][j - 1]), named(o), "N") for j, o in enumerate(ZONES[i][1])]
    return tzdata.vtimezone(ZONES[i][0], obs if i % 2 else list(reversed(obs)))


def check_zones(ctx, case):
    zones = Calendar.parseText(tzdata.calendar(*[zone(i) for i in case])).getComponents("VTIMEZONE")
    key = lambda i: ((ZONES[i][1][0] + (ZONES[i][1] + ZONES[i][1])[1]) // 2, ZONES[i][0].lower())
    for zs in (zones, list(reversed(zones)), [z.duplicate() for z in zones]):
        ctx.step(2)
        expect("order of %r" % ([ZONES[i][0] for i in case],), [z.getID() for z in sorted(zs, cmp=VTimezone.sortByUTCOffsetComparator)], [ZONES[i][0] for i in sorted(case, key=key)])
        for z in zs:
            expect("a zone and itself", VTimezone.sortByUTCOffsetComparator(z, z), 0)
    ctx.see(tuple(case))


PARTS = [
    ("dates", gen_dates, check_dates, "every day of 15 years (thorough 209), 6 forms, dates and times"),
    ("times", gen_times, check_times, "every minute of the day, all offsets by the quarter, zones with and without names, daylight time of 6 (32) years, 8 forms"),
    ("months", gen_months, check_months, "every month of 13 (93) years x 7 first days of the week x each day shown as today"),
    ("now", gen_now, check_now, "each half hour of 8 days x 5 zones"),
    ("rules", gen_rules, check_rules, "all choices of up to two (three) rule parts with their values, and all sets of five further lines"),
    ("zones", gen_zones, check_zones, "all arrangements of three (thorough four) of ten zones"),
]
