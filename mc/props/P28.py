# P28: an instance derived from a recurring component is that instance, as a component of its own.
from mcbase import Mismatch
import itertools
import calcat as C
import refcal as R
import refrule
import reftz
import tzdata
from ask import answers
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.period import Period
from pycalendar.timezone import Timezone

tzdata.load(tzdata.NY)
DAY = 86400
T0 = R.secs(2024, 3, 7, 10, 0, 0)              # the New York change of 10 March is among the instances
KINDS = ["floating", "utc", "zoned", "date"]
RULES = ["", "RRULE:FREQ=DAILY;COUNT=6", "RRULE:FREQ=DAILY;INTERVAL=2", "RDATE:2,5", "RRULE:FREQ=DAILY;COUNT=6 RRULE:FREQ=WEEKLY;COUNT=2",
         "RRULE:FREQ=DAILY;COUNT=7 EXRULE:FREQ=DAILY;INTERVAL=3;COUNT=2"]
ENDS = {"VEVENT": ["none", "DTEND", "DURATION", "other"], "VTODO": ["none", "DUE", "DURATION", "other"], "VJOURNAL": ["none"]}
LENGTHS = [1, 3, 120]
MORE = [[], ["ATTENDEE;CN=a:mailto:a@b", "ATTENDEE:mailto:c@d", "SUMMARY:x", "X-A;P=q:r", "SEQUENCE:3", "STATUS:CANCELLED"]]
ALARMS = [("VALARM", ["ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER:-PT5M"], []), ("VALARM", ["ACTION:AUDIO", "TRIGGER;RELATED=END:PT0S"], [])]


def local(t, kind):
    """seconds on the clock of UTC for a local time"""
    return t - reftz.NY.local(t) if kind == "zoned" else t


def back(u, kind):
    return u + reftz.NY.utc(u) if kind == "zoned" else u


def line(name, t, kind):
    f = R.fields(t)
    if kind == "date":
        return "%s;VALUE=DATE:%s" % (name, R.dtext(f))
    return name + (";TZID=Test/NewYork:" if kind == "zoned" else ":") + R.text(f) + ("Z" if kind == "utc" else "")


def given(t, kind, form):
    """a recurrence-id for local time t, in a form"""
    if form == "same":
        f = R.fields(t)
        return DateTime(*f[:3]) if kind == "date" else DateTime(*(list(f) + [{"floating": None, "utc": Timezone(utc=True), "zoned": Timezone(tzid="Test/NewYork")}[kind]]))
    if form == "midnight":
        return DateTime(*(list(R.fields(t)[:3]) + [0, 0, 0]))
    u = local(t, kind)
    if form == "utc":
        return DateTime(*(list(R.fields(u)) + [Timezone(utc=True)]))
    return DateTime(*(list(R.fields(back(u, "zoned"))) + [Timezone(tzid="Test/NewYork")]))


FORMS = {"floating": ["same"], "utc": ["same", "zone"], "zoned": ["same", "utc"], "date": ["same", "midnight"]}


class Master(object):

    def __init__(self, type, kind, end, n, rule, ex, more, alarms):
        self.type, self.kind, self.end, self.n, self.rule, self.ex = type, kind, end, n, rule, ex
        self.more, self.alarms = more, alarms

    def day(self, k):
        return (T0 if self.kind != "date" else T0 - 36000) + k * DAY

    def days(self):
        out, gone = set([0]), set(self.ex)
        for r in self.rule.split():
            name, v = r.split(":")
            days = set([int(x) for x in v.split(",")] if name == "RDATE" else [(t - T0) // DAY for t in refrule.expand(v, R.fields(T0), T0 + 12 * DAY)])
            if name == "EXRULE":
                gone |= days
            else:
                out |= days
        return sorted(out - gone)

    def length(self):
        return self.n * (DAY if self.kind == "date" else 3600)

    def endline(self, k):
        """what may be written for the end"""
        if self.end == "none":
            return [[]]
        if self.end == "DURATION":
            return [["DURATION:P%dD" % self.n if self.kind == "date" else "DURATION:P%dD" % (self.n / 24) if self.n % 24 == 0 else "DURATION:PT%dH" % self.n]]
        name = {"VEVENT": "DTEND", "VTODO": "DUE"}[self.type]
        u = local(self.day(k), self.kind) + self.length()
        if self.end == "other" and self.kind in ("utc", "zoned"):
            forms = [{"utc": "zoned", "zoned": "utc"}[self.kind], self.kind]
        else:
            forms = [self.kind]
        return [[line(name, back(u, f), f)] for f in forms]

    def spec(self, k=None, endform=0):
        """the master, or what is derived for day k"""
        lines = ["UID:m", "DTSTAMP:20240101T000000Z", line("DTSTART", self.day(k or 0), self.kind)] + self.endline(k or 0)[endform] + self.more
        if k is None:
            for r in self.rule.split():
                lines += [line("RDATE", self.day(int(x)), self.kind) for x in r[6:].split(",")] if r.startswith("RDATE") else [r]
            lines += [line("EXDATE", self.day(x), self.kind) for x in self.ex]
        else:
            lines.append(line("RECURRENCE-ID", self.day(k), self.kind))
        return (self.type, lines, list(self.alarms))

    def allowed(self, k):
        """a single day is what an event on a date lasts anyway"""
        out = [C.multiset(self.spec(k, i)) for i in range(len(self.endline(k)))]
        if self.type == "VEVENT" and self.kind == "date" and self.end == "none":
            s = self.spec(k)
            out.append(C.multiset((s[0], s[1] + [line("DTEND", self.day(k + 1), "date")], s[2])))
        return out

    def override(self, k):
        return (self.type, ["UID:m", "DTSTAMP:20240101T000000Z", line("RECURRENCE-ID", self.day(k), self.kind), line("DTSTART", self.day(k) + DAY, self.kind)], [])


def instances(cal):
    out = []
    items = []
    cal.getVEvents(Period(DateTime(2024, 2, 20), DateTime(2024, 4, 1)), items)
    for i in items:
        out.append((i.getInstanceStart().getText(), i.getInstanceStart().getPosixTime(), i.getInstanceEnd().getPosixTime(), i.getOwner().getSummary()))
    return sorted(out)


def derive(ctx, m, cal, k, form, what):
    before = cal.getText(Calendar.NO_TIMEZONES)
    rid = given(m.day(k), m.kind, form)
    rt = rid.getText()
    got = cal.deriveComponent(rid)
    ctx.step()
    what = "%s: instance %s (%s)" % (what, k, rt)
    if got is None:
        raise Mismatch(what + " is not derived")
    if rid.getText() != rt:
        raise Mismatch(what + " changed the date given to " + rid.getText())
    text = got.getText()
    if C.multiset(C.read(text)) not in m.allowed(k):
        raise Mismatch("%s is %r, expected %r" % (what, text, C.text(m.spec(k))))
    ctx.see(text)
    again = Calendar.parseText(C.text(C.calendar([C.read(text)]))).getComponents()[0]
    a, b = answers(got), answers(again)
    if a != b:
        raise Mismatch("%s: answers %r, as text %r" % (what, [(x, a[x], b.get(x)) for x in a if a[x] != b.get(x)], text))
    if cal.getText(Calendar.NO_TIMEZONES) != before:
        raise Mismatch("%s: deriving changes the calendar to %r" % (what, cal.getText(Calendar.NO_TIMEZONES)))
    # it is not part of the other one
    other = cal.deriveComponent(given(m.day(k), m.kind, form))
    for c in other.getComponents():
        c.addProperty(Property("X-EDIT", "y"))
        c.finalise()
    other.addProperty(Property("X-EDIT", "y"))
    other.getStart().offsetDay(1)
    other.editSummary("other")
    rid.offsetDay(40)
    if cal.getText(Calendar.NO_TIMEZONES) != before:
        raise Mismatch("%s: editing what is derived changes the calendar to %r" % (what, cal.getText(Calendar.NO_TIMEZONES)))
    if got.getText() != text:
        raise Mismatch("%s: editing the date given or another one derived changes it to %r" % (what, got.getText()))
    return got, text


def gen_derive(tier):
    for type in ("VEVENT", "VTODO", "VJOURNAL"):
        for kind in KINDS:
            for end in ENDS[type]:
                for n in (LENGTHS if end != "none" else [1]):
                    for r in range(len(RULES)):
                        for ex in ([], [2]):
                            if ex and not RULES[r]:
                                continue
                            yield [type, kind, end, n, r, ex]


def check_derive(ctx, case):
    type, kind, end, n, r, ex = case
    for more in MORE:
        for alarms in ([], ALARMS):
            if alarms and type == "VJOURNAL":
                continue
            m = Master(type, kind, end, n, RULES[r], ex, more, alarms)
            text = C.text(C.calendar([m.spec()]))
            for form in FORMS[kind]:
                for k in m.days():
                    cal = Calendar.parseText(text)
                    shown = instances(cal)
                    got, t = derive(ctx, m, cal, k, form, repr(text))
                    if type == "VEVENT" and m.rule:
                        # put in place, it is what was there
                        cal.addComponent(got)
                        now = instances(cal)
                        if now != shown:
                            raise Mismatch("%r with %r added shows %r, before %r" % (text, t, now, shown))
                        now = instances(Calendar.parseText(cal.getText(Calendar.NO_TIMEZONES)))
                        if now != shown:
                            raise Mismatch("%r with %r added and read again shows %r, before %r" % (text, t, now, shown))
                # one after the other, all of them
                cal = Calendar.parseText(text)
                shown = instances(cal)
                for k in m.days():
                    got, t = derive(ctx, m, cal, k, form, "%r after the ones before" % text)
                    cal.addComponent(got)
                if type == "VEVENT" and m.rule and instances(cal) != shown:
                    raise Mismatch("%r with all its instances derived shows %r, before %r" % (text, instances(cal), shown))


# --- which one is the master
BY = ["zone", "freebusy", "override", "other", "x", "avail", "poll"]


def by(m, what):
    return {"zone": C.zone("A/B"), "freebusy": ("VFREEBUSY", ["UID:f", "DTSTAMP:20240101T000000Z"], []), "override": m.override(2), "x": ("X-COMP", ["X-A:b"], []),
            "avail": ("VAVAILABILITY", ["UID:a", "DTSTAMP:20240101T000000Z"], [("AVAILABLE", ["UID:m", "DTSTAMP:20240101T000000Z", "DTSTART:20230101T000000Z", "DTEND:20230101T010000Z", "RRULE:FREQ=DAILY"], [])]),
            "other": ("VEVENT", ["UID:o", "DTSTAMP:20240101T000000Z", line("DTSTART", m.day(0), m.kind), "RRULE:FREQ=DAILY", "SUMMARY:other"], []),
            "poll": ("VPOLL", ["UID:p", "DTSTAMP:20240101T000000Z", "ORGANIZER:mailto:a@b"], [("VEVENT", ["UID:q", "DTSTAMP:20240101T000000Z", "DTSTART:20240102T000000Z", "SUMMARY:in"], [])])}[what]


def gen_master(tier):
    for type in ("VEVENT", "VTODO", "VJOURNAL"):
        for kind in KINDS:
            for a in BY + [""]:
                for b in BY + [""]:
                    yield [type, kind, a, b]


def check_master(ctx, case):
    type, kind, a, b = case
    m = Master(type, kind, "none" if type == "VJOURNAL" else "DURATION", 1, RULES[1], [], MORE[1], [])
    for where in range(3):
        for there in (True, False):
            subs = [by(m, x) for x in (a, b) if x]
            if there:
                subs.insert(min(where, len(subs)), m.spec())
            elif where:
                continue
            text = C.text(C.calendar(subs))
            for edits in (False, True):
                if edits:
                    # the same put together by program
                    cal = Calendar()
                    for s in subs:
                        cal.addComponent(Calendar.parseText(C.text(C.calendar([s]))).getComponents()[0].duplicate(cal))
                    shown = Calendar.parseText(cal.getText(Calendar.NO_TIMEZONES))
                else:
                    cal = Calendar.parseText(text)
                    shown = cal
                # the first without RECURRENCE-ID of a kind that can recur; one calendar has one UID, so which of two UIDs is not said
                mine = [s for s in subs if s[0] in ("VEVENT", "VTODO", "VJOURNAL") and not [l for l in s[1] if l.startswith("RECURRENCE-ID")]]
                got = cal.masterComponent()
                ctx.step()
                if got is None:
                    if mine:
                        raise Mismatch("%r has no master" % text)
                    if cal.deriveComponent(given(m.day(1), kind, "same")) is not None:
                        raise Mismatch("%r: an instance is derived, without master" % text)
                    continue
                if C.multiset(C.read(got.getText())) not in [C.multiset(s) for s in mine]:
                    raise Mismatch("%r: the master is %r" % (text, got.getText()))
                ctx.see([case, where, got.getText()])
                if len(mine) == 1 and there:
                    derive(ctx, m, cal, 2, FORMS[kind][-1], repr(text))


# --- an override that is told its master takes from it what it does not say itself
MSTART = [("DTSTART:20240301T080000Z", "DTEND:20240301T093000Z", "RECURRENCE-ID:20240303T080000Z", "DTSTART:20240303T100000Z"), ("DTSTART;VALUE=DATE:20240301", "DTEND;VALUE=DATE:20240303", "RECURRENCE-ID;VALUE=DATE:20240304", "DTSTART;VALUE=DATE:20240305"),
          ("DTSTART:20240301T080000", "DURATION:PT90M", "RECURRENCE-ID:20240303T080000", "DTSTART:20240303T230000"), ("DTSTART:20240301T080000Z", None, "RECURRENCE-ID:20240303T080000Z", "DTSTART:20240302T080000Z")]


def gen_bind(tier):
    for i in range(len(MSTART)):
        for start in (False, True):
            for end in (None, "DTEND", "DURATION"):
                for summary in (False, True):
                    for edits in itertools.product(range(4), repeat=2):
                        yield (i, start, end, summary, list(edits))


def check_bind(ctx, case):
    i, start, end, summary, edits = case
    ms, me, rid, os = MSTART[i]
    day = "VALUE=DATE" in ms
    ends = {"DTEND": "DTEND;VALUE=DATE:20240308" if day else "DTEND:20240304T000000" + ("Z" if ms.endswith("Z") else ""), "DURATION": "DURATION:P1D" if day else "DURATION:PT2H"}
    lines = ["UID:a", "DTSTAMP:20240101T000000Z", rid] + ([os] if start else []) + ([ends[end]] if end else []) + (["SUMMARY:o"] if summary else [])
    cal = Calendar.parseText(C.text(C.calendar([("VEVENT", ["UID:a", "DTSTAMP:20240101T000000Z", ms] + ([me] if me else []) + ["RRULE:FREQ=DAILY", "SUMMARY:m"], []), ("VEVENT", lines, [])])))
    master, over = cal.getComponents("VEVENT")
    text = cal.getText(Calendar.NO_TIMEZONES)
    value = lambda l: Property.parseText(l).getValue().getValue()
    s = value(os if start else rid)
    if end == "DTEND":
        e = value(ends[end])
    elif end == "DURATION":
        e = s + value(ends[end])
    else:
        e = s + (master.getEnd() - master.getStart())
    want = (s.getText(), e.getText(), rid.split(":")[1])
    over.setMaster(master)
    ctx.step()
    what = "%r with master %r" % (lines, ms)
    for op in [None] + edits:
        if op == 0:
            over.setMaster(master)
        elif op == 1:
            over = over.duplicate()
        elif op == 2:
            over.initFromMaster()
        elif op == 3:       # what it gives is its own
            over.getMaster().getEnd().getText()
        got = (over.getStart().getText(), over.getEnd().getText(), over.getRecurrenceID().getText())
        if got != want or over.getMaster() is not master or not over.recurring() or master.recurring():
            raise Mismatch("%s, after %r: %r, expected %r; master %r" % (what, edits, got, want, over.getMaster()))
    if cal.getText(Calendar.NO_TIMEZONES) != text or over.getText() != text[text.rindex("BEGIN:VEVENT"):text.rindex("END:VCALENDAR")] and over.getText() not in text:
        raise Mismatch("%s: changed to %r" % (what, cal.getText(Calendar.NO_TIMEZONES)))
    ctx.see((want, start, end))


PARTS = [
    ("derive", gen_derive, check_derive, "3 components x 4 kinds of time x up to 4 kinds of end x 3 lengths x 5 rules x 2 EXDATE x contents x each instance x forms of RECURRENCE-ID, alone and one after the other"),
    ("master", gen_master, check_master, "3 components x 4 kinds of time x pairs of 7 other components before and after, read and put together"),
    ("bind", gen_bind, check_bind, "4 masters x overrides with and without their own start, end, duration and text x all pairs of 4 operations after being told the master"),
]
