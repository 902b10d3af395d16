# P30: the busy time of a calendar is that of its events and free-busy components, at every instant.
from mcbase import Mismatch
import itertools
import calcat as C
import refcal as R
import reftz
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.freebusy import FreeBusy
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.vfreebusy import VFreeBusy
from pycalendar.period import Period
from pycalendar.timezone import Timezone

H, DAY = 3600, 86400
T0 = R.secs(2024, 3, 9, 0, 0, 0)               # the New York change is in the night to 10 March
NO = Calendar.NO_TIMEZONES
BUSY, TENT, UNAV = FreeBusy.BUSY, FreeBusy.BUSYTENTATIVE, FreeBusy.BUSYUNAVAILABLE
MANY = 12                                       # instances of a rule without end that are looked at
STATUSES = {"": BUSY, "CONFIRMED": BUSY, "confirmed": BUSY, "TENTATIVE": TENT, "CANCELLED": None, "X-ODD": BUSY}
FBTYPES = {"": BUSY, "BUSY": BUSY, "busy": BUSY, "FREE": None, "free": None, "BUSY-TENTATIVE": TENT, "Busy-Unavailable": UNAV, "X-ODD": BUSY}


def stamp(t):
    return R.text(R.fields(t))


def line(name, t, kind):
    if kind == "date":
        return "%s;VALUE=DATE:%s" % (name, R.dtext(R.fields(t)))
    return name + (";TZID=Test/NewYork:" if kind == "zoned" else ":") + stamp(t) + ("Z" if kind == "utc" else "")


def instant(t, kind, zone="utc"):
    """floating times are in the zone of the window"""
    return t - reftz.NY.local(t) if kind == "zoned" or kind == "floating" and zone == "zoned" else t


class Event(object):

    def __init__(self, start, length, kind="utc", status="", transp="", rule="", over=(), text="end"):
        self.start, self.length, self.kind, self.status, self.transp, self.rule, self.over, self.text = T0 + start, length, kind, status, transp, rule, over, text

    def one(self, uid, start, length, status, transp, rid=None):
        lines = ["UID:" + uid, "DTSTAMP:20240101T000000Z", line("DTSTART", start, self.kind)]
        if rid is not None:
            lines.append(line("RECURRENCE-ID", rid, self.kind))
        elif self.rule:
            lines.append("RRULE:" + self.rule)
        if length:
            lines.append(line("DTEND", start + length, self.kind) if self.text == "end" else "DURATION:PT%dH" % (length / H))
        if status:
            lines.append("STATUS:" + status)
        if transp:
            lines.append("TRANSP:" + transp)
        return ("VEVENT", lines, [])

    def spec(self, uid):
        out = [self.one(uid, self.start, self.length, self.status, self.transp)]
        for n, move, length, status, transp in self.over:
            at = self.start + n * DAY
            out.append(self.one(uid, at + move, length, status, transp, at))
        return out

    def busy(self, zone="utc"):
        """[(start, end, type)] as instants, in any window"""
        if self.kind == "date":
            return
        count = {"": 1, "FREQ=DAILY;COUNT=3": 3, "FREQ=DAILY": MANY}[self.rule]
        over = dict([(o[0], o) for o in self.over])
        for n in range(count):
            at, length, status, transp = self.start + n * DAY, self.length, self.status, self.transp
            if n in over:
                _ignore, move, length, status, transp = over[n]
                at += move
            if length and transp.upper() != "TRANSPARENT" and STATUSES[status] is not None:
                yield instant(at, self.kind, zone), instant(at + length, self.kind, zone), STATUSES[status]

    events = True


class Fb(object):

    def __init__(self, props, start=None, end=None, last="end"):
        self.props, self.start, self.end, self.last = props, start, end, last

    def spec(self, uid):
        lines = ["UID:" + uid, "DTSTAMP:20240101T000000Z"]
        if self.start is not None:
            lines.append(line("DTSTART", T0 + self.start, "utc"))
        if self.end is not None:
            lines.append(line("DTEND", T0 + self.end, "utc") if self.last == "end" else "DURATION:PT%dH" % ((self.end - self.start) / H))
        return [("VFREEBUSY", lines + [fbline(t, ps) for t, ps in self.props], [])]

    def busy(self, zone="utc"):
        for t, ps in self.props:
            if FBTYPES[t] is not None:
                for s, e in ps:
                    yield T0 + s, T0 + e, FBTYPES[t]

    events = False


def fbline(t, ps):
    return "FREEBUSY%s:%s" % (";FBTYPE=" + t if t else "", ",".join(
        "%sZ/%s" % (stamp(T0 + s), "PT%dH" % ((e - s) / H) if (s / H) % 2 else stamp(T0 + e) + "Z") for s, e in ps))


ITEMS = [
    Event(10 * H, 2 * H),
    Event(11 * H, 2 * H, text="duration"),
    Event(12 * H, 2 * H, transp="OPAQUE"),
    Event(10 * H, 26 * H, transp="TRANSPARENT"),
    Event(11 * H, 1 * H, transp="Transparent", status="TENTATIVE"),
    Event(9 * H, 4 * H, status="CANCELLED"),
    Event(9 * H, 3 * H, status="TENTATIVE"),
    Event(13 * H, 1 * H, status="confirmed"),
    Event(8 * H, 5 * H, status="X-ODD"),
    Event(0, DAY, kind="date"),
    Event(0, 2 * DAY, kind="date", rule="FREQ=DAILY;COUNT=3"),
    Event(10 * H, 0),
    Event(22 * H, 26 * H, kind="utc"),
    Event(9 * H, 2 * H, kind="zoned", rule="FREQ=DAILY"),
    Event(20 * H, 3 * H, kind="zoned", rule="FREQ=DAILY;COUNT=3", status="TENTATIVE", text="duration"),
    Event(11 * H, 2 * H, kind="floating"),
    Event(10 * H, 2 * H, rule="FREQ=DAILY;COUNT=3", over=((1, 3 * H, H, "", ""),)),
    Event(10 * H, 2 * H, rule="FREQ=DAILY;COUNT=3", over=((1, 0, 2 * H, "CANCELLED", ""), (2, -H, 3 * H, "TENTATIVE", ""))),
    Event(23 * H, 3 * H, rule="FREQ=DAILY", over=((0, 0, 3 * H, "", "TRANSPARENT"), (1, 12 * H, 30 * H, "CONFIRMED", "OPAQUE"))),
    Event(15 * H, 1 * H, rule="FREQ=DAILY", transp="TRANSPARENT", over=((1, 0, 2 * H, "", ""),)),
    Fb([("", [(10 * H, 12 * H)])]),
    Fb([("BUSY", [(11 * H, 13 * H), (34 * H, 36 * H)]), ("FREE", [(8 * H, 20 * H)])], 0, 2 * DAY),
    Fb([("BUSY-TENTATIVE", [(9 * H, 14 * H)]), ("busy", [(12 * H, 13 * H)])], 0, 3 * DAY, "duration"),
    Fb([("X-ODD", [(34 * H, 38 * H)]), ("Busy-Unavailable", [(36 * H, 60 * H), (9 * H, 10 * H)])], 5 * H),
    Fb([("free", [(9 * H, 14 * H)])], 0, DAY),
    Fb([], 0, DAY),
]
ZONES = ["utc", "zoned"]
WINDOWS = [(0, 72), (11, 12), (12, 34), (10, 10.5), (24, 48), (35, 36), (70, 96), (-48, 9), (100, 120)]


def dt(t):
    return DateTime(*(list(R.fields(t)) + [Timezone(utc=True)]))


def secs(d, zone="utc"):
    d = d.duplicateAsUTC()
    if d.floating():
        return instant(secs(DateTime(d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds(), Timezone(utc=True))), "floating", zone)
    return R.secs(d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds())


def window(w, zone="utc"):
    p = Period(dt(int(T0 + w[0] * H)), dt(int(T0 + w[1] * H)))
    if zone == "zoned":
        p = Period(*[x.duplicate().adjustTimezone(Timezone(tzid="Test/NewYork")) for x in (p.getStart(), p.getEnd())])
    return p


def spans(period, zone="utc"):
    return secs(period.getStart(), zone), secs(period.getEnd(), zone)


def compare(got, want, lo, hi, what):
    """at every instant of lo to hi the types listed are those wanted; those listed elsewhere are true"""
    cuts = sorted(set([lo, hi] + [x for g in list(got) + list(want) for x in g[:2]]))
    for s, e in zip(cuts, cuts[1:]):
        g = set([x[2] for x in got if x[0] <= s and x[1] >= e])
        w = set([x[2] for x in want if x[0] <= s and x[1] >= e])
        if g != w and (s >= lo and e <= hi or not g <= w):
            raise Mismatch("%s: from %s to %s the types are %r, expected %r" % (what, stamp(s), stamp(e), sorted(g), sorted(w)))


def check_calendar(ctx, case):
    if len(set([BUSY, TENT, UNAV, FreeBusy.FREE])) != 4:
        raise Mismatch("kinds of busy time are not told apart")
    tzdata.load(tzdata.NY)
    items = [ITEMS[i] for i in case]
    comps = []
    for n, item in enumerate(items):
        comps.extend(item.spec("u%d" % n))
    text = C.text(C.calendar(comps))
    cal = Calendar.parseText(text)
    ask(ctx, cal, items, repr(case))
    if C.read(cal.getText(NO)) != C.read(Calendar.parseText(text).getText(NO)):
        raise Mismatch("%r: the calendar was changed" % (case,))


def ask(ctx, cal, items, what):
    for w in WINDOWS:
        lo, hi = int(T0 + w[0] * H), int(T0 + w[1] * H)
        for again, zone in enumerate(ZONES):
            want = [b for i in items for b in i.busy(zone)]
            solid = [(s, e, 0) for i in items if i.events for s, e, _ignore in i.busy(zone)]
            period = window(w, zone)
            about = "%s, window %r (%s)" % (what, w, zone)
            got = []
            cal.getFreeBusy(period, got)
            ctx.step()
            got1 = [spans(f.getPeriod(), zone) + (f.getType(),) for f in got]
            compare(got1, want, lo, hi, about)
            for f, (s, e, _ignore) in zip(got, got1):
                for w2 in WINDOWS:
                    if f.isPeriodOverlap(window(w2, zone)) != (s < T0 + w2[1] * H and T0 + w2[0] * H < e):
                        raise Mismatch("%s: busy time %r and window %r: overlap is %r" % (about, (s, e), w2, f.isPeriodOverlap(window(w2, zone))))
            for f in got:                       # what is given out is nobody else's
                f.getPeriod().getStart().offsetDay(40)
                f.setType(FreeBusy.FREE)

            fb = VFreeBusy()
            before = []
            if again:
                fb.addProperty(Property("FREEBUSY", [Period(dt(T0 - 90 * DAY), dt(T0 - 89 * DAY))]))
                before = [fb.getProperties("FREEBUSY")[0].getText()]
            cal.getVFreeBusyFB(period, fb)
            lines = [p.getText() for p in fb.getProperties("FREEBUSY")] if fb.hasProperty("FREEBUSY") else []
            if lines[:len(before)] != before:
                raise Mismatch("%s: lines became %r" % (about, lines))
            got2 = []
            for l in lines[len(before):]:
                ends = []
                name, value = l.strip().split(":", 1)
                if name != "FREEBUSY":
                    raise Mismatch("%s: line %r" % (about, l))
                for v in value.split(","):
                    p = Period.parseText(v)
                    if not (p.getStart().utc() and p.getEnd().utc()):
                        raise Mismatch("%s: line %r is not in UTC" % (about, l))
                    got2.append(spans(p) + (0,))
            compare(got2, solid, lo, hi, about + ", component")
            for a, b in zip(got2, got2[1:]):
                if a[1] >= b[0]:
                    raise Mismatch("%s: periods not apart or in order: %r" % (about, lines))
            if [g for g in got2 if g[0] >= g[1]]:
                raise Mismatch("%s: empty period: %r" % (about, lines))

            found = []
            cal.getVFreeBusyList(period, found)
            uids = [c.getUID() for c in found]
            for n, item in enumerate(items):
                if item.events:
                    continue
                within = [b for b in item.busy() if b[0] < hi and b[1] > lo]
                if uids.count("u%d" % n) != 1 and (within or uids.count("u%d" % n)):
                    raise Mismatch("%s: component %d listed %d times" % (about, n, uids.count("u%d" % n)))
                if "u%d" % n in uids and not list(item.busy()):
                    raise Mismatch("%s: component %d has no busy time" % (about, n))
            if len(uids) > len([i for i in items if not i.events]):
                raise Mismatch("%s: listed %r" % (about, uids))
            ctx.see([sorted(got1), got2])


def gen_calendar(tier):
    n = len(ITEMS)
    for r in (1, 2):
        for c in itertools.permutations(range(n), r):
            yield list(c)
    if tier != "quick":
        for c in itertools.combinations(range(n), 3):
            yield list(c)
            yield [c[2], c[0], c[1]]


# One free-busy component and what is done with it
PROPS = [("", [(10 * H, 12 * H)]), ("BUSY-TENTATIVE", [(11 * H, 13 * H), (33 * H, 34 * H)]), ("FREE", [(9 * H, 20 * H)]), ("X-ODD", [(36 * H, 60 * H)])]
OPS = ["add 0", "add 1", "add 2", "add 3", "put 0", "put 1", "remove", "copy", "reload", "finalise", "span", "duration", "none", "ask"]


def busytime(ctx, fb, props, span, what):
    want = [b for b in Fb(props).busy()]
    got = fb.getBusyTime()
    ctx.step()
    if sorted([spans(f.getPeriod()) + (f.getType(),) for f in got or ()]) != sorted(want):
        raise Mismatch("%s: busy time is %r, expected %r" % (what, [(str(f.getPeriod()), f.getType()) for f in got or ()], want))
    starts = [spans(f.getPeriod())[0] for f in got or ()]
    if starts != sorted(starts):
        raise Mismatch("%s: busy time not in order" % what)
    if want:
        lo = T0 + span[0] if span else min(w[0] for w in want)
        hi = T0 + span[1] if span and span[1] is not None else max(w[1] for w in want)
        if spans(fb.getSpanPeriod()) != (lo, hi):
            raise Mismatch("%s: span is %s, expected %s/%s" % (what, fb.getSpanPeriod(), stamp(lo), stamp(hi)))
    elif fb.getSpanPeriod() is not None:
        raise Mismatch("%s: span of nothing" % what)


def check_history(ctx, case):
    cal = Calendar.parseText(C.text(C.calendar([("VFREEBUSY", ["UID:u", "DTSTAMP:20240101T000000Z"], [])])))
    props, span = [], None
    done = []
    for i in case:
        op = OPS[i]
        done.append(op)
        fb = cal.getComponents()[0]
        if op.startswith("add"):
            props.append(PROPS[int(op[4:])])
            fb.addProperty(Property.parseText(fbline(*props[-1])))
        elif op.startswith("put"):              # made by program, a single period or a list
            n = int(op[4:])
            ps = [(14 * H, 15 * H), (16 * H, 40 * H)][:n + 1]
            props.append(("", ps))
            ps = [Period(dt(T0 + s), dt(T0 + e)) for s, e in ps]
            fb.addProperty(Property("FREEBUSY", ps if n else ps[0]))
        elif op == "remove":
            props = []
            fb.removeProperties("FREEBUSY")
        elif op == "copy":
            cal = cal.duplicate()
        elif op == "reload":
            cal = Calendar.parseText(cal.getText(NO))
        elif op == "finalise":
            fb.finalise()
        elif op == "span":
            span = (0, 3 * DAY)
            fb.editTimingStartEnd(dt(T0), dt(T0 + 3 * DAY))
        elif op == "duration":
            span = (0, None)
            fb.editTimingStartDuration(dt(T0), Duration(days=4))
        elif op == "none":
            span = None
            fb.editTiming()
        fb = cal.getComponents()[0]
        if op == "ask" or len(done) == len(case):
            busytime(ctx, fb, props, span, repr(done))
        if len(done) == len(case):
            ask1(ctx, cal, props, span, repr(done))
        ctx.see([props, span])


def ask1(ctx, cal, props, span, what):
    item = Fb(props)
    want = list(item.busy())
    for w in WINDOWS[:6]:
        lo, hi = int(T0 + w[0] * H), int(T0 + w[1] * H)
        got = []
        cal.getFreeBusy(window(w), got)
        ctx.step()
        compare([spans(f.getPeriod()) + (f.getType(),) for f in got], want, lo, hi, "%s, window %r" % (what, w))


def gen_history(tier):
    for c in itertools.product(range(len(OPS)), repeat=3 if tier == "quick" else 4):
        yield list(c)


PARTS = [
    ("calendar", gen_calendar, check_calendar, "all ordered pairs (thorough: and triples, in two orders) of %d events and free-busy components x %d windows, asked in two zones" % (len(ITEMS), len(WINDOWS))),
    ("history", gen_history, check_history, "all sequences of 3 (4) of %d operations on a free-busy component" % len(OPS)),
]
