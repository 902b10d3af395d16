# P36: a floating time is one of the default timezone, whatever that is at the moment.
from mcbase import Mismatch
import itertools
import time
import refcal as R
import reftz
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.manager import CalendarManager
from pycalendar.period import Period
from pycalendar.timezone import Timezone

NY, SYD, KAT = "Test/NewYork", "Test/Sydney", "Test/Kathmandu"
MODEL = {NY: reftz.NY, SYD: reftz.SYD, KAT: reftz.KT}


def offset(zone, secs):
    """the offset of a local time in a zone (None: floating; "UTC"; seconds; or a name)"""
    if zone in (None, "UTC"):
        return 0
    return zone if isinstance(zone, int) else MODEL[zone].local(secs)


def name(zone, secs):
    if zone == "UTC":
        return "(UTC)"
    elif zone is None:
        return ""
    elif isinstance(zone, int):
        return "%s%02d%02d" % ("-" if zone < 0 else "+", abs(zone) // 3600, abs(zone) // 60 % 60)
    return "(%s)" % MODEL[zone].name(secs)


def tzobject(zone):
    return Timezone(utc=True) if zone == "UTC" else Timezone(utc=False, tzid=zone)


def parts(zone):
    return (True, None) if zone == "UTC" else (False, zone)


def expect(what, real, want):
    if real != want:
        raise Mismatch("%s: real code gives %r, it should be %r" % (what, real, want))


class Default(object):
    """the default timezone is put back afterwards"""

    def __enter__(self):
        self.saved = Timezone.sDefaultTimezone
        tzdata.load(tzdata.NY, tzdata.SYD, tzdata.FIX)

    def __exit__(self, *args):
        Timezone.sDefaultTimezone = self.saved


def set_object(zone):
    return lambda: CalendarManager.sICalendarManager.setDefaultTimezone(tzobject(zone))


def set_id(zone):
    return lambda: CalendarManager.sICalendarManager.setDefaultTimezoneID(zone)


DEFAULTS = [("UTC", set_object("UTC")), ("UTC", set_id("UTC")), (NY, set_id(NY)), (SYD, set_object(SYD)), (KAT, set_id(KAT)),
            (19800, set_object(19800)), (-12600, set_object(-12600)), (None, set_object(None))]


class State(object):

    def __init__(self):
        self.default = "UTC"
        self.wall = [2024, 1, 15, 10, 30, 0]
        self.zone = None
        self.dt = DateTime(*self.wall)

    def secs(self):
        return R.secs(*self.wall)

    def month(self):
        self.wall[1] = 8 - self.wall[1]
        self.dt.setMonth(self.wall[1])

    def hour(self):
        self.wall[3] = 33 - self.wall[3]
        self.dt.setHours(self.wall[3])

    def put(self, zone):
        self.zone = zone
        u, t = parts(zone)
        self.dt.setTimezoneUTC(u)
        self.dt.setTimezoneID(t)
        self.dt.setTimezone(tzobject(zone))

    def default_is(self, i):
        self.default = DEFAULTS[i][0]
        DEFAULTS[i][1]()

    def copy(self):
        self.dt = self.dt.duplicate()

    def check(self, what):
        zone = self.default if self.zone is None else self.zone
        off = offset(zone, self.secs())
        expect(what + ": getPosixTime", self.dt.getPosixTime(), self.secs() - off)
        expect(what + ": offset", self.dt.timeZoneSecondsOffset(), off)
        if (self.zone, zone) != (None, "UTC"):      # a time in no timezone is not said to be in UTC
            expect(what + ": descriptor", self.dt.timeZoneDescriptor(), name(zone, self.secs()))
        own = self.dt.getTimezone()
        expect(what + ": its timezone", (own.getUTC(), own.getTimezoneID(), own.floating(), self.dt.floating()), parts(self.zone) + (self.zone is None,) * 2)
        expect(what + ": offset asked of the timezone", own.timeZoneSecondsOffset(self.dt), off)
        man = CalendarManager.sICalendarManager
        expect(what + ": default", (man.getDefaultTimezone().getUTC(), man.getDefaultTimezone().getTimezoneID()), parts(self.default))
        expect(what + ": name of the default", man.getDefaultTimezoneID(), self.default)
        fresh = Timezone()
        expect(what + ": a new Timezone()", (fresh.getUTC(), fresh.getTimezoneID()), parts(self.default))
        fresh.setUTC(False)
        fresh.setTimezoneID("X")
        expect(what + ": default after a change of such a copy", (man.getDefaultTimezone().getUTC(), man.getDefaultTimezone().getTimezoneID()), parts(self.default))


OPS = [("default %s" % (d[0],), lambda s, i=i: s.default_is(i)) for i, d in enumerate(DEFAULTS)] + [
    ("getPosixTime", lambda s: s.dt.getPosixTime()),
    ("offset", lambda s: s.dt.timeZoneSecondsOffset()),
    ("descriptor", lambda s: s.dt.timeZoneDescriptor()),
    ("compare with UTC", lambda s: s.dt < DateTime(2024, 1, 15, 10, 0, 0, tzid=Timezone(utc=True))),
    ("hash", lambda s: hash(s.dt)),
    ("month", lambda s: s.month()),
    ("hour", lambda s: s.hour()),
    ("in New York", lambda s: s.put(NY)),
    ("in UTC", lambda s: s.put("UTC")),
    ("floating", lambda s: s.put(None)),
    ("copy", lambda s: s.copy()),
    ("adjustToUTC while floating", lambda s: s.dt.adjustToUTC() if s.zone is None else None),
]


def gen_histories(tier):
    n = len(OPS)
    for pair in itertools.product(range(n), repeat=2 if tier == "thorough" else 1):
        yield pair


def check_histories(ctx, case):
    for rest in itertools.product(range(len(OPS)), repeat=2):
        seq = tuple(case) + rest
        with Default():
            DEFAULTS[0][1]()
            s = State()
            for i in seq:
                ctx.step()
                OPS[i][1](s)
            s.check("after %r" % ([OPS[i][0] for i in seq],))
            ctx.see((s.default, tuple(s.wall), s.zone, seq[-1]))


# --- two floating times, one floating and one not
def gen_between(tier):
    for i in range(len(DEFAULTS)):
        for other in (None, "UTC", NY, SYD, -12600):
            yield (i, other)


TIMES = [[2024, 1, 15, 10, 30, 0], [2024, 1, 15, 20, 30, 0], [2024, 7, 15, 10, 30, 0], [2024, 3, 10, 12, 0, 0], [2024, 3, 11, 3, 0, 0]]


def check_between(ctx, case):
    i, other = case
    with Default():
        for then in range(len(DEFAULTS)):
            for a, b in itertools.product(TIMES, repeat=2):
                DEFAULTS[i][1]()
                x, y = DateTime(*a), DateTime(*b, tzid=tzobject(other)) if other is not None else DateTime(*b)
                x.getPosixTime(), y.getPosixTime(), x - y
                DEFAULTS[then][1]()
                ctx.step(4)
                ctx.see((i, other, then, tuple(a), tuple(b)))
                sa, sb = R.secs(*a), R.secs(*b)
                what = "%r floating and %r in %s, default %s then %s" % (a, b, other, DEFAULTS[i][0], DEFAULTS[then][0])
                # beside another time a floating one is in its timezone, whatever the default
                expect(what + ": order", (x < y, x == y, x > y), (sa < sb, sa == sb, sa > sb))
                expect(what + ": difference", (x - y).getTotalSeconds(), (sa - offset(other, sa)) - (sb - offset(other, sb)))
                expect(what + ": difference back", (y - x).getTotalSeconds(), (sb - offset(other, sb)) - (sa - offset(other, sa)))


# --- now, in the default timezone
def gen_now(tier):
    for i in range(len(DEFAULTS)):
        for month in range(1, 13):
            yield (i, month)


def check_now(ctx, case):
    i, month = case
    zone = DEFAULTS[i][0]
    with Default():
        DEFAULTS[i][1]()
        for h in (0, 3, 12, 17, 23):
            now = R.secs(2024, month, 20, h, 59, 1)
            real = time.time
            time.time = staticmethod(lambda: float(now))
            try:
                got = DateTime.getNow(None)
                tz = DateTime.getNow(Timezone())
            finally:
                time.time = real
            off = 0 if zone in (None, "UTC") else zone if isinstance(zone, int) else MODEL[zone].utc(now)
            ctx.step(2)
            ctx.see((zone, now))
            for dt in (got, tz):
                expect("now (%r) in default %s" % (R.fields(now), zone), (dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds()), tuple(R.fields(now + off)))
                expect("its timezone", (dt.getTimezoneUTC(), dt.getTimezoneID()), parts(zone))


# --- Timezone objects
ZONES = ["UTC", None, NY, SYD, 19800, -12600, 0, NY.lower(), NY + "2", NY[:-1]]


def gen_objects(tier):
    for a in range(len(ZONES)):
        yield a


def check_objects(ctx, a):
    with Default():
        for b in range(len(ZONES)):
            for d in range(len(DEFAULTS)):
                DEFAULTS[d][1]()
                ctx.step(8)
                ctx.see((a, b, d))
                x, y = tzobject(ZONES[a]), tzobject(ZONES[b])
                what = "%s and %s" % (ZONES[a], ZONES[b])
                floating = ZONES[a] is None or ZONES[b] is None
                want = floating or ZONES[a] == ZONES[b]
                expect(what + ": equals", bool(x.equals(y)), want)
                expect(what + ": same", bool(Timezone.same(x.getUTC(), x.getTimezoneID(), y.getUTC(), y.getTimezoneID())), want)
                expect(what + ": kind", (x.getUTC(), x.floating(), x.hasTZID(), bool(Timezone.is_float(x.getUTC(), x.getTimezoneID()))),
                       (ZONES[a] == "UTC", ZONES[a] is None, ZONES[a] not in ("UTC", None), ZONES[a] is None))
                c = x.duplicate()
                expect(what + ": copy", (c.getUTC(), c.getTimezoneID()), parts(ZONES[a]))
                c.setUTC(parts(ZONES[b])[0])
                c.setTimezoneID(parts(ZONES[b])[1])
                expect(what + ": the copy set", (c.getUTC(), c.getTimezoneID()), parts(ZONES[b]))
                expect(what + ": the original", (x.getUTC(), x.getTimezoneID()), parts(ZONES[a]))
        for text in ("UTC", "utc", "Utc"):
            z = Timezone(tzid=text)
            expect("Timezone(tzid=%s)" % text, (z.getUTC(), z.getTimezoneID()), (True, None))
        z = Timezone(tzid=NY)
        expect("Timezone(tzid=%s)" % NY, (z.getUTC(), z.getTimezoneID()), (False, NY))


# --- the default timezone makes no difference to what a calendar says
LINES = [
    ["DTSTART;TZID=Test/NewYork:20240301T013000", "DTEND;TZID=Test/NewYork:20240301T023000"],
    ["DTSTART;TZID=Test/Sydney:20240301T023000", "DURATION:PT25H"],
    ["DTSTART:20240301T023000Z", "DURATION:PT1H"],
    ["DTSTART:20240301T023000", "DTEND:20240301T033000"],
    ["DTSTART;VALUE=DATE:20240301", "DURATION:P2D"],
]
RULES = [
    [],
    ["RRULE:FREQ=DAILY;COUNT=40"],
    ["RRULE:FREQ=DAILY;BYHOUR=1,2,3;BYMINUTE=0,30,45;BYSETPOS=2,-2;COUNT=60"],
    ["RRULE:FREQ=WEEKLY;BYDAY=SU,MO;UNTIL=%s", "EXDATE%s", "RDATE%s"],
    ["RDATE%s"],
    ["RRULE:FREQ=MONTHLY;BYDAY=2SU", "EXRULE:FREQ=MONTHLY;BYMONTH=4"],
]


def lines(i, j):
    start = LINES[i][0]
    head, value = start[len("DTSTART"):].split(":")
    out = list(LINES[i])
    for l in RULES[j]:
        if l.startswith("RRULE") and "%s" in l:
            l %= "20240501" if i == 4 else "20240501T000000Z" if i != 3 else "20240501T000000"
        elif "%s" in l:
            day = "20240311" if l.startswith("EXDATE") else "20240315"
            l %= head + ":" + day + value[8:]
        out.append(l)
    return out


def gen_answers(tier):
    for i in range(len(LINES)):
        for j in range(len(RULES)):
            if not (i == 4 and j == 2):
                yield (i, j)


def answers(text):
    tzdata.load(tzdata.NY, tzdata.SYD, tzdata.FIX)
    out = []
    cal = Calendar.parseText(text)
    for f, t in (("20240201T000000Z", "20240701T000000Z"), ("20240309T050000Z", "20240312T060000Z"), ("20240301", "20240401")):
        period = Period(DateTime.parseText(f), DateTime.parseText(t))
        events = []
        cal.getVEvents(period, events)
        out.append([(e.getInstanceStart().getText(), e.getInstanceStart().getTimezoneID(), e.getInstanceEnd().getText()) for e in events])
        busy = []
        cal.getFreeBusy(period, busy)
        out.append([(b.getType(), b.getPeriod().getText()) for b in busy])
        for zone in cal.getComponents("VTIMEZONE"):
            out.append([tuple(x.getText() if isinstance(x, DateTime) else x for x in item) for item in zone.expandAll(period.getStart(), period.getEnd(), True)])
            out.append([zone.getTimezoneOffsetSeconds(DateTime(2024, m, d, 12, 0, 0)) for m in range(1, 13) for d in (1, 10, 20)])
    event = cal.getComponents("VEVENT")[0]
    out.append((event.getStart().getText(), event.getEnd().getText(), hash(event.getStart()), str(event.validate())))
    alarm = event.getComponents("VALARM")[0]
    dt = DateTime()
    real = time.time
    time.time = staticmethod(lambda: float(R.secs(2024, 2, 1, 0, 0, 0)))
    try:
        alarm.getNextTrigger(dt)
    finally:
        time.time = real
    out.append((dt.getText(), dt.getTimezoneID()))
    out.append(cal.getText())
    return out


def check_answers(ctx, case):
    i, j = case
    event = ["BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z"] + lines(i, j) + ["BEGIN:VALARM", "ACTION:AUDIO", "TRIGGER:-PT15M", "END:VALARM", "END:VEVENT", ""]
    text = tzdata.calendar(tzdata.NY, tzdata.SYD, "\r\n".join(event))
    with Default():
        DEFAULTS[0][1]()
        want = answers(text)
        for d in range(len(DEFAULTS)):
            DEFAULTS[d][1]()
            got = answers(text)
            ctx.step(len(got))
            ctx.see((i, j, d))
            for k, (g, w) in enumerate(zip(got, want)):
                if g != w:
                    raise Mismatch("%r with default timezone %s: answer %d is %r, with UTC %r" % (lines(i, j), DEFAULTS[d][0], k, g, w))


PARTS = [
    ("histories", gen_histories, check_histories, "all sequences of 3 (thorough: 4) of %d operations: the default set in 8 ways, 5 questions, 7 edits of a date-time; then every answer" % len(OPS)),
    ("between", gen_between, check_between, "8 defaults, then changed to 8 x a floating time with one floating, in UTC, in two zones or at an offset x 25 pairs of times: order and difference"),
    ("answers", gen_answers, check_answers, "5 kinds of start x 6 recurrences x 8 defaults: instances, busy time, zone offsets and onsets, alarm, text are those under UTC"),
    ("now", gen_now, check_now, "8 defaults x 12 months x 5 times of day"),
    ("objects", gen_objects, check_objects, "all pairs of 10 timezones under each of 8 defaults: equality, kind, copying, setting"),
]
