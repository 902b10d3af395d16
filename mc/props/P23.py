# P23: a copy is the same as its original and shares nothing with it.
from mcbase import Mismatch
import itertools
import json
import calcat as C
import snap
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar import definitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.valarm import VAlarm
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.parameter import Parameter
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty

NO = Calendar.NO_TIMEZONES
SKIP = snap.SKIP | set(["getUTCOffsetSortKey"])     # cached on first use; zones are not edited after that
EXTRA = [
    "RDATE;VALUE=DATE:20240101,20240102", "RDATE;VALUE=PERIOD:20240101T000000/PT1H,20240102T000000/20240103T000000", "EXDATE;TZID=Test/NewYork:20240101T000000,20240102T000000",
    "X-P;VALUE=DATE:20240101", "X-P;VALUE=BINARY:AAEC", "X-P;VALUE=FLOAT:1.5", "X-P;VALUE=UTC-OFFSET:-050030", "X-P;VALUE=PERIOD:20240101T000000Z/P1D", "X-P;VALUE=RECUR:FREQ=DAILY",
    "ATTENDEE;MEMBER=\"mailto:a@b\",\"mailto:c@d\";X-A=\"1,2\",3;RSVP=TRUE:mailto:e@f", "RRULE:FREQ=YEARLY;UNTIL=20250101T000000Z;BYMONTH=1,2;BYDAY=1SU,-1MO,TU",
    "RRULE:FREQ=YEARLY;COUNT=3;BYYEARDAY=1,-1,200;BYSETPOS=-1", "EXRULE:FREQ=DAILY;BYHOUR=1;BYMINUTE=2,3;BYSECOND=4", "RRULE:FREQ=YEARLY;BYDAY=MO;BYWEEKNO=20",
    "RRULE:FREQ=MONTHLY;BYMONTHDAY=-1,15;WKST=SU", "REQUEST-STATUS:3.1.1;a;b", "GEO:0.0;-0.5", "TRIGGER;VALUE=DATE-TIME:20240101T000000Z", "TRIGGER;RELATED=END:PT5M",
    "CATEGORIES:a,b", "FREEBUSY;FBTYPE=BUSY:20240101T000000Z/PT1H,20240102T000000Z/PT1H",
]
VCARD = ["N:a;b;c;d;e", "N:a,a;b;;d,e;", "ADR;TYPE=WORK:;;a,b;c;d;e;f", "ORG:a;b;c", "ORG:a", "NICKNAME:a,b", "CATEGORIES:x,y", "item1.TEL;TYPE=HOME;TYPE=FAX:1", "BDAY;VALUE=DATE:2000-01-02",
         "REV:2024-01-01T00:00:00Z", "GEO:1.0;2.0", "NOTE:x", "PHOTO;ENCODING=B:QUJD", "PHOTO;VALUE=URI:http://a/", "X-FOO;X-P=q:c", "TZ:-05:00"]


# ---- ways to change a property -----------------------------------------------------------------------------------
def change_datetime(d, how):
    if how == 0:
        d.setYear(d.getYear() + 1)
    elif how == 1:
        d.offsetDay(3)
    elif how == 2:
        d.setTimezone(Timezone(tzid="Test/London"))
    elif how == 3:
        d.setDateOnly(not d.isDateOnly())
    elif how == 4:
        d.setHours(5)
        d.setMinutes(1)
    else:
        return False
    return True


def change_duration(d, how):
    if how == 0:
        d.setDuration(77)
    elif how == 1:
        d.setDuration(-7 * 86400)
    else:
        return False
    return True


def change_recur(r, how):
    lists = ["getByMonth", "getByMonthDay", "getByYearDay", "getByDay", "getBySetPos"]
    if how == 0:
        r.setInterval(7)
    elif how == 1:
        r.setUseCount(True)
        r.setUseUntil(False)
        r.setCount(55)
    elif how == 2:
        if not r.getUseUntil():
            return None
        r.getUntil().setYear(1999)
    elif how == 3:
        r.setUseUntil(True)
        r.setUntil(DateTime(1990, 1, 1))
    elif how - 4 < len(lists):
        l = getattr(r, lists[how - 4])()
        if not l:
            return None
        l.pop()
    else:
        return False
    return True


def change_value(v, how):
    """False: no such way, None: not on this value"""
    if v is None:
        return False
    if isinstance(v, DateTime):
        return change_datetime(v, how)
    if isinstance(v, Duration):
        return change_duration(v, how)
    if isinstance(v, Recurrence):
        return change_recur(v, how)
    if isinstance(v, Period):
        if how < 5:
            return change_datetime(v.getStart(), how)
        if how < 10:
            return change_datetime(v.getEnd(), how - 5)
        if how < 12:
            return change_duration(v.getDuration(), how - 10)
        return False
    if isinstance(v, (str, unicode, int, long, float, bool)):
        return False
    if isinstance(v, (list, tuple)):
        if isinstance(v, tuple):
            return False
        if v and isinstance(v[0], float):
            if how == 0:
                v[0] += 1
            return how == 0
        if how == 0:
            v.append("q" if not v or isinstance(v[0], basestring) else v[0])
        elif how == 1:
            if not v:
                return None
            v.pop()
        elif how < 20:
            return change_value(v[0], how - 2) if v else False
        else:
            return False
        return True
    if hasattr(v, "getValues"):
        if how == 0:
            v.addValue(v.getValues()[0])
        elif how == 1:
            del v.getValues()[:]
        else:
            return change_value(v.getValues()[-1], how - 2) if v.getValues() else False
        return True
    if not hasattr(v, "getValue"):
        return False
    inner = v.getValue()
    if how == 0:
        if isinstance(inner, basestring):
            v.setValue("changed")
        elif isinstance(inner, (int, long, float)):
            v.setValue(inner + 60)
        else:
            return None
        return True
    return change_value(inner, how - 1)


def change_property(p, how):
    if how == 0:
        p.setName("X-CHANGED")
    elif how == 1:
        p.addParameter(Parameter("X-NEW", "1"))
    elif how == 2:
        p.replaceParameter(Parameter("X-A", "1"))
    elif how == 3:
        p.setParameters({"X-Q": [Parameter("X-Q", "2")]})
    elif how == 4:
        p.getParameters().clear()
    elif how < 10:
        ps = [q for k, qs in sorted(p.getParameters().items()) for q in qs if k != "VALUE"]
        if not ps:
            return None
        q = ps[-1]
        if how == 5:
            q.addValue("more")
        elif how == 6:
            q.setValues(["other"])
        elif how == 7:
            q.getValues().append("third")
        elif how == 8:
            q.setName("X-OTHER")
        elif how == 9:
            if len(q.getValues()) < 2:
                return None
            q.removeValue(q.getValues()[0])
    elif how == 10:
        p.removeParameters("TZID")
        p.removeParameters("X-A")
    else:
        return change_value(p.getValue(), how - 11)
    return True


def json_of(p):
    out = []
    p.writeJSON(out)
    return json.dumps(out, sort_keys=True)


def text_of(p):
    return p.getText(NO) if isinstance(p, Calendar) else p.getText()


def state(p, js=True):
    return (text_of(p), json_of(p) if js and not isinstance(p, Calendar) else None)


def check_same(a, b, what, js=True):
    if state(a, js) != state(b, js):
        raise Mismatch("%s: the copy is %r, the original %r" % (what, state(b, js), state(a, js)))
    if not (a == b) or a != b or not (b == a):
        raise Mismatch("%s: the copy does not equal the original" % what)


def ways(f, make):
    how = 0
    while True:
        r = f(make(), how)
        if r is False:
            return
        if r:
            yield how
        how += 1


def gen_props(tier):
    for i in range(len(C.LINES + EXTRA)):
        yield [i]


def check_props(ctx, case):
    line = (C.LINES + EXTRA)[case[0]]
    both_ways(ctx, line, lambda: Property.parseText(line))
    # in a component and in a calendar
    src = C.text(C.calendar([("X-C", [line], [("X-D", [line], [])])]))
    for deep in (0, 1, 2):
        def get(cal):
            c = cal
            if deep == 0:
                return c.getComponents()[0]
            return c

        for how in ways(change_property, lambda: Property.parseText(line)):
            for sub in (0, 1):
                for which in (0, 1):
                    cal = Calendar.parseText(src)
                    if deep == 0:
                        a = cal.getComponents()[0]
                        b = a.duplicate()
                        pair = [a, b]
                    elif deep == 1:
                        a, b = cal, cal.duplicate()
                        pair = [a.getComponents()[0], b.getComponents()[0]]
                    else:
                        a, b = cal, cal.duplicate().duplicate()
                        pair = [a.getComponents()[0], b.getComponents()[0]]
                    before = state(a), state(b)
                    if before[0] != before[1]:
                        raise Mismatch("%r in a component: the copy differs" % line)
                    c = pair[which]
                    if sub:
                        c = c.getComponents()[0]
                    change_property(c.getProperties(C.pname(line))[0], how)
                    ctx.step()
                    other = (b, a)[which]
                    if state(other) != before[0]:
                        raise Mismatch("%r in a component: way %d to change %s changes the other: %r" % (line, how, ("the original", "the copy")[which], state(other)))


def both_ways(ctx, line, make, js=True):
    p = make()
    check_same(p, p.duplicate(), repr(line), js)
    if hash(p) != hash(p.duplicate()):
        raise Mismatch("%r: hash of the copy differs" % line)
    d = snap.diff(snap.answers(p), snap.answers(p.duplicate()))
    if d:
        raise Mismatch("%r: the copy answers differently: %r" % (line, d))
    n = 0
    for how in ways(change_property, make):
        n += 1
        for second in [None] + list(ways(change_property, make)) if ctx.thorough else [None]:
            for which in (0, 1):
                a = make()
                b = a.duplicate()
                if second is not None:
                    change_property((b, a)[which], second)
                before = state((b, a)[which], js)
                alone = make()
                change_property((a, b)[which], how)
                change_property(alone, how)
                ctx.step()
                ctx.see(state((a, b)[which], js))
                if state((b, a)[which], js) != before:
                    raise Mismatch("%r: way %d to change %s changes the other: %r" % (line, how, ("the original", "the copy")[which], state((b, a)[which], js)))
                if state((a, b)[which], js) != state(alone, js):
                    raise Mismatch("%r: way %d has another effect on %s: %r, not %r" % (line, how, ("the original", "the copy")[which], state((a, b)[which], js), state(alone, js)))
    if n < 5:
        raise Mismatch("%r: only %d ways to change it" % (line, n))


def gen_cards(tier):
    for i in range(len(VCARD)):
        yield [i]


def check_cards(ctx, case):
    line = VCARD[case[0]]
    both_ways(ctx, line, lambda: VProperty.parseText(line), False)
    src = "BEGIN:VCARD\r\nVERSION:3.0\r\n%s\r\n%s\r\nEND:VCARD\r\n" % (line, VCARD[case[0] - 1])
    for how in ways(change_property, lambda: VProperty.parseText(line)):
        for which in (0, 1):
            a = Card.parseText(src)
            b = a.duplicate()
            before = a.getText()
            if b.getText() != before or not (a == b):
                raise Mismatch("%r: copy of the card is %r" % (src, b.getText()))
            c = (a, b)[which]
            change_property(c.getProperties(C.pname(line).split(".")[-1])[0], how)
            ctx.step()
            if (b, a)[which].getText() != before:
                raise Mismatch("%r: way %d to change %s changes the other" % (src, how, ("the original", "the copy")[which]))


# ---- components: sequences of edits -----------------------------------------------------------------------------------
def recset(n):
    r = RecurrenceSet()
    rule = Recurrence()
    rule.parse("FREQ=DAILY;COUNT=%d" % n)
    r.addRule(rule)
    return r


def first(c, f):
    s = c.getComponents()
    if s:
        f(s[0])


def change_first(c, how):
    names = sorted(c.getProperties().keys())
    if names:
        change_property(c.getProperties(names[how % len(names)])[0], 1 + how % 3)


def expand(c):
    if hasattr(c, "expandPeriod"):
        out = []
        c.expandPeriod(Period(DateTime(2024, 1, 1), DateTime(2024, 6, 1)), out)
        return out


OPS = [
    ("uid", lambda c: c.setUID("z")),
    ("seq", lambda c: c.setSeq(c.getSeq() + 1)),
    ("add", lambda c: c.addProperty(Property("X-NEW", "1"))),
    ("drop", lambda c: c.removeProperties("DTSTAMP")),
    ("params", lambda c: change_first(c, 1)),
    ("value", lambda c: [change_value(p.getValue(), 1) for k, ps in sorted(c.getProperties().items()) for p in ps if k.startswith("DT") or k == "RRULE"]),
    ("finalise", lambda c: c.finalise()),
    ("summary", lambda c: c.editSummary("new")),
    ("startend", lambda c: c.editTimingStartEnd(DateTime(2024, 5, 1, 1, 0, 0, tzid=Timezone(utc=True)), DateTime(2024, 5, 1, 2, 0, 0, tzid=Timezone(utc=True)))),
    ("recurs", lambda c: c.editRecurrenceSet(recset(3))),
    ("exclude", lambda c: c.excludeRecurrence(c.getStart().duplicate())),
    ("rule", lambda c: [change_recur(r, 1) for r in c.getRecurrenceSet().getRules()]),
    ("subtract", lambda c: c.getRecurrenceSet().subtractDT(DateTime(2024, 3, 1))),
    ("dates", lambda c: [d.offsetDay(1) for d in c.getRecurrenceSet().getDates()]),
    ("exdates", lambda c: [d.offsetDay(1) for d in c.getRecurrenceSet().getExdates()]),
    ("periods", lambda c: [p.getStart().offsetDay(1) for p in c.getRecurrenceSet().getPeriods()]),
    ("exrules", lambda c: [change_recur(r, 1) for r in c.getRecurrenceSet().getExrules()]),
    ("expand", expand),
    ("status", lambda c: c.editStatus(1)),
    ("addsub", lambda c: c.addComponent(alarm())),
    ("dropsub", lambda c: first(c, c.removeComponent)),
    ("dropsubs", lambda c: c.removeAllComponent()),
    ("subadd", lambda c: first(c, lambda s: s.addProperty(Property("X-SUB", "1")))),
    ("subparams", lambda c: first(c, lambda s: change_first(s, 0))),
    ("subsub", lambda c: first(c, lambda s: first(s, lambda t: t.addProperty(Property("X-T", "1"))))),
    ("setsummary", lambda c: c.setSummary("s")),
    ("moveend", lambda c: c.getEnd().offsetDay(1)),
    ("movestart", lambda c: c.getStart().offsetDay(1)),
    ("attendees", lambda c: first(c, lambda s: s.getActionData().getAttendees().append("mailto:new"))),
    ("action", lambda c: first(c, lambda s: s.editAction(definitions.eAction_VAlarm_Email, VAlarm.VAlarmEmail("body", "subject", ["mailto:x@y"])))),
    ("trigger", lambda c: first(c, lambda s: s.editTriggerBy(duration(-60), True))),
    ("repeats", lambda c: first(c, lambda s: s.editRepeats(4, duration(60)))),
]

INPLACE = ("value", "moveend", "movestart")     # whether the cached times follow these is not specified


def duration(n):
    d = Duration()
    d.setDuration(n)
    return d


def alarm():
    a = Component.makeComponent("VALARM", None)
    a.addProperty(Property("ACTION", "AUDIO"))
    a.addProperty(Property("TRIGGER", duration(-600)))
    a.finalise()
    return a


RICH = [
    C.event("r", "DTEND;TZID=Test/NewYork:20240301T103000", "RRULE:FREQ=WEEKLY;COUNT=4", "RDATE;TZID=Test/NewYork:20240304T090000", "EXDATE;TZID=Test/NewYork:20240308T083000",
            "STATUS:TENTATIVE", "SUMMARY:s", "SEQUENCE:3", subs=[C.alarm("-PT5M")]),
    C.event("r", "RECURRENCE-ID;TZID=Test/NewYork;RANGE=THISANDFUTURE:20240308T083000", "DURATION:PT1H", "SUMMARY:s"),
    ("VTODO", ["UID:t", "DTSTAMP:20240101T000000Z", "DTSTART:20240301T083000Z", "DURATION:PT2H", "PRIORITY:3", "STATUS:NEEDS-ACTION", "RRULE:FREQ=DAILY"], [C.alarm("-P1D", "AUDIO", "REPEAT:2", "DURATION:PT5M")]),
    ("X-P", ["UID:q"], [C.event("n", subs=[C.alarm("PT0S")])]),
    C.event("e", subs=[C.alarm("PT0S", "EMAIL", "SUMMARY:s", "ATTENDEE:mailto:a@b", "ATTENDEE:mailto:c@d"), C.alarm("-PT5M", "URI", "URL:http://a/"), C.alarm("-PT6M", "NONE"), C.alarm("-PT7M", "X-OTHER", "X-A:1")]),
    C.event("f", subs=[C.alarm("-PT5M", "URI", "URL:http://a/", "REPEAT:2", "DURATION:PT5M"), C.alarm("-PT7M", "AUDIO", "X-MULBERRY-SPEAK-TEXT:say")]),
]


def specs():
    return C.comps() + RICH


def parse(i):
    return Calendar.parseText(C.text(C.calendar([specs()[i]])))


def expanded(c):
    if c.getType() not in ("VEVENT", "VTODO", "VJOURNAL") or c.getRecurrenceSet() is None:
        return None
    return [(e.getInstanceStart().getText(), e.getInstanceEnd().getText()) for e in expand(c.duplicate())] if c.getType() == "VEVENT" else None


def full(c):
    return (c.getText(), snap.answers(c, 1, SKIP), expanded(c), [full(s) for s in c.getComponents()])


def apply_op(c, k):
    """what it says if it fails"""
    try:
        OPS[k][1](c)
    except (AttributeError, ValueError, TypeError, NotImplementedError) as e:
        return e.__class__.__name__


def gen_comps(tier):
    for i in range(len(specs())):
        for k in range(len(OPS)):
            yield [i, k]


def check_comps(ctx, case):
    i, k = case
    prime(ctx)
    probe = apply_op(parse(i).getComponents()[0], k)
    for l in [None] + range(len(OPS)):
        if l is not None and not ctx.thorough and (i + k + l) % 5:
            continue
        for who in itertools.product((0, 1), repeat=1 if l is None else 2):
            cal = parse(i)
            a = cal.getComponents()[0]
            if l is not None and (k + l) % 2:
                expand(a)
            b = a.duplicate(parent=cal)
            alone = [parse(i).getComponents()[0], parse(i).getComponents()[0]]
            inplace = [False, False]
            if full(b) != full(a):
                raise Mismatch("component %d: the copy is %r, the original %r" % (i, full(b), full(a)))
            for op, w in zip((k, l), who):
                before = full((b, a)[w])
                got = apply_op((a, b)[w], op)
                want = apply_op(alone[w], op)
                ctx.step()
                if full((b, a)[w]) != before:
                    raise Mismatch("component %d, %r by %r: %s of %s changes the other: %r" % (
                        i, [OPS[x][0] for x in (k, l) if x is not None], who, OPS[op][0], ("the original", "the copy")[w], delta(before, full((b, a)[w]))))
                inplace[w] = inplace[w] or OPS[op][0] in INPLACE
                if got != want or not inplace[w] and full((a, b)[w]) != full(alone[w]):
                    raise Mismatch("component %d, %r by %r: %s has another effect on %s: %r" % (
                        i, [OPS[x][0] for x in (k, l) if x is not None], who, OPS[op][0], ("the original", "the copy")[w], (got, want, delta(full(alone[w]), full((a, b)[w])))))
            ctx.see(full(a)[0])
            ctx.see(full(b)[0])


def delta(x, y):
    out = []
    if x[0] != y[0]:
        out.append(text_delta(x[0], y[0]))
    out += snap.diff(x[1], y[1])
    if x[2] != y[2]:
        out.append(("expanded", x[2], y[2]))
    for s, t in zip(x[3], y[3]):
        out += delta(s, t)
    return out


def prime(ctx):
    from pycalendar.timezonedb import TimezoneDatabase
    TimezoneDatabase.createTimezoneDatabase("")
    Calendar.parseText(tzdata.calendar_of(["Test/NewYork", "Test/London"]) if hasattr(tzdata, "calendar_of") else C.text(C.calendar([C.zone("Test/NewYork"), C.zone("Test/London")])))


# ---- calendars ---------------------------------------------------------------------------------------------------------------
def cal_events(cal):
    out = []
    cal.getVEvents(Period(DateTime(2024, 1, 1), DateTime(2024, 6, 1)), out)
    return [(e.getOwner().getUID(), e.getInstanceStart().getText(), e.getInstanceEnd().getText()) for e in out]


def comp_of(spec):
    return Calendar.parseText(C.text(C.calendar([spec]))).getComponents()[0]


CALOPS = [
    ("add event", lambda c: c.addComponent(comp_of(RICH[0]))),
    ("add override", lambda c: c.addComponent(comp_of(C.event("a", "RECURRENCE-ID:20240322T083000Z")))),
    ("remove first", lambda c: c.removeComponent(c.getComponents()[0])),
    ("remove last", lambda c: c.removeComponent(c.getComponents()[-1])),
    ("remove events", lambda c: c.removeAllComponent("VEVENT")),
    ("change uid", lambda c: c.changeUID("a", "A2")),
    ("property", lambda c: c.addProperty(Property("METHOD", "PUBLISH"))),
    ("drop", lambda c: c.removeProperties("PRODID")),
    ("description", lambda c: c.editDescription("d")),
    ("set name", lambda c: c.setName("n")),
    ("summary", lambda c: [e.editSummary("changed") for e in c.getComponents("VEVENT")]),
    ("exclude", lambda c: [e.excludeRecurrence(e.getStart().duplicate()) for e in c.getComponents("VEVENT")]),
    ("expand", lambda c: cal_events(c)),
    ("parameter", lambda c: change_first(c, 0)),
    ("zones", lambda c: c.stripStandardTimezones()),
    ("finalise", lambda c: c.finalise()),
]
CALS = [[C.event("a", "RRULE:FREQ=WEEKLY;COUNT=5"), 2, 3], [0, 1, 4, 8], [RICH[0], RICH[1], 8], [7, 10, 11], [12, 14, 6], []]


def cal_of(i):
    return Calendar.parseText(C.text(C.calendar([C.comps()[x] if isinstance(x, int) else x for x in CALS[i]], ["VERSION:2.0", "PRODID:p", "X-WR-CALNAME:cal", "X-WR-CALDESC:desc"])))


def cal_full(c):
    return (c.getText(NO), c.getName(), c.getDescription(), cal_events(c), [full(s) for s in c.getComponents()],
            [[x.getText() for x in c.getComponents(t)] for t in ("VEVENT", "VTODO", "VTIMEZONE")], instances(c))


def text_delta(x, y):
    """from the first line that differs"""
    x, y = x.split("\r\n"), y.split("\r\n")
    i = 0
    while i < min(len(x), len(y)) and x[i] == y[i]:
        i += 1
    return x[i:i + 3], y[i:i + 3]


def cal_delta(x, y):
    out = [text_delta(x[0], y[0])] + [(p, q) for p, q in zip(x[1:4] + x[5:], y[1:4] + y[5:]) if p != q]
    for p, q in zip(x[4], y[4]):
        out += delta(p, q)
    return out


def instances(c):
    out = []
    for u in ("a", "r", "A2", "b"):
        items, ids = [], []
        c.getRecurrenceInstancesItems("VEVENT", u, items)
        c.getRecurrenceInstancesIds("VEVENT", u, ids)
        out.append(([x.getText() for x in items], [x.getText() for x in ids]))
    return out


def apply_cal(c, k):
    try:
        CALOPS[k][1](c)
    except (AttributeError, ValueError, TypeError, IndexError, KeyError) as e:
        return e.__class__.__name__


def gen_cals(tier):
    for i in range(len(CALS)):
        for k in range(len(CALOPS)):
            yield [i, k]


def check_cals(ctx, case):
    i, k = case
    prime(ctx)
    for l in range(len(CALOPS)):
        if not ctx.thorough and (i + k + l) % 2:
            continue
        for who in itertools.product((0, 1), repeat=2):
            a = cal_of(i)
            if (k + l) % 3 == 0:
                cal_events(a)
            b = a.duplicate()
            alone = [cal_of(i), cal_of(i)]
            if cal_full(a) != cal_full(b):
                raise Mismatch("calendar %d: original and copy: %r" % (i, cal_delta(cal_full(a), cal_full(b))))
            for op, w in zip((k, l), who):
                before = cal_full((b, a)[w])
                got, want = apply_cal((a, b)[w], op), apply_cal(alone[w], op)
                ctx.step()
                what = "calendar %d, %r by %r: %s of %s" % (i, [CALOPS[x][0] for x in (k, l)], who, CALOPS[op][0], ("the original", "the copy")[w])
                if cal_full((b, a)[w]) != before:
                    raise Mismatch("%s changes the other: %r" % (what, cal_delta(before, cal_full((b, a)[w]))))
                if got != want or cal_full((a, b)[w]) != cal_full(alone[w]):
                    raise Mismatch("%s has another effect: %r, expected %r, %r" % (what, got, want, cal_delta(cal_full(alone[w]), cal_full((a, b)[w]))))
            ctx.see(a.getText(NO))
            ctx.see(b.getText(NO))


# --- recurrence sets on their own
SETS = [[], ["RRULE:FREQ=DAILY;COUNT=4"], ["RRULE:FREQ=WEEKLY;BYDAY=MO", "EXRULE:FREQ=MONTHLY"], ["RDATE:20240304T083000Z", "EXDATE:20240305T083000Z,20240306T083000Z"],
        ["RDATE;VALUE=PERIOD:20240304T083000Z/PT1H", "EXDATE;VALUE=DATE:20240305"], ["RRULE:FREQ=DAILY", "RDATE:20240304T083000Z", "EXRULE:FREQ=WEEKLY", "EXDATE:20240308T083000Z", "RDATE;VALUE=PERIOD:20240304T093000Z/PT2H"]]


def gen_recsets(tier):
    ops = len(SETOPS)
    for i in range(len(SETS)):
        for k in range(ops):
            for l in [None] + range(ops):
                yield (i, k, l)


D9 = lambda: DateTime(2024, 3, 9, 8, 30, 0, tzid=Timezone(utc=True))
SETOPS = [
    ("dates", lambda s: [d.offsetDay(1) for d in s.getDates()]), ("exdates", lambda s: [d.offsetDay(1) for d in s.getExdates()]), ("periods", lambda s: [p.getStart().offsetDay(1) for p in s.getPeriods()]),
    ("period ends", lambda s: [p.getEnd().offsetDay(1) for p in s.getPeriods()]), ("rules", lambda s: [change_recur(r, 1) for r in s.getRules()]), ("exrules", lambda s: [change_recur(r, 1) for r in s.getExrules()]),
    ("add date", lambda s: s.addDT(D9())), ("add exdate", lambda s: s.subtractDT(D9())), ("add period", lambda s: s.addPeriod(Period(D9(), duration=Duration(hours=1)))),
    ("add rule", lambda s: s.addRule(recset(2).getRules()[0])), ("add exrule", lambda s: s.subtractRule(recset(2).getRules()[0])), ("clear dates", lambda s: s.getDates().__delslice__(0, 9)),
    ("clear exdates", lambda s: s.getExdates().__delslice__(0, 9)), ("expand", lambda s: s.expand(D9(), Period(DateTime(2024, 3, 1), DateTime(2024, 3, 20)), [])),
]


def check_recsets(ctx, case):
    i, k, l = case
    text = C.text(C.calendar([("VEVENT", ["UID:a", "DTSTART:20240301T083000Z"] + SETS[i], [])]))
    fresh = lambda: Calendar.parseText(text).getComponents()[0].getRecurrenceSet() or RecurrenceSet()
    state = lambda s: (snap.canon(s, 1), s.hasRecurrence(), [d.getText() for d in listing(s)])

    def listing(s):
        out = []
        s.duplicate().expand(DateTime(2024, 3, 1, 8, 30, 0, tzid=Timezone(utc=True)), Period(DateTime(2024, 3, 1), DateTime(2024, 4, 1)), out)
        return out
    for who in itertools.product((0, 1), repeat=1 if l is None else 2):
        a = fresh()
        b = a.duplicate()
        alone = [fresh(), fresh()]
        if state(a) != state(b) or not a.equals(b):
            raise Mismatch("%r: the copy is %r" % (SETS[i], state(b)))
        for op, w in zip((k, l), who):
            before = state((b, a)[w])
            SETOPS[op][1]((a, b)[w])
            SETOPS[op][1](alone[w])
            ctx.step()
            what = "%r: %r by %r: %s on %s" % (SETS[i], [SETOPS[x][0] for x in (k, l) if x is not None], who, SETOPS[op][0], ("the original", "the copy")[w])
            if state((b, a)[w]) != before:
                raise Mismatch("%s makes the other %r, before %r" % (what, state((b, a)[w]), before))
            if state((a, b)[w]) != state(alone[w]):
                raise Mismatch("%s gives %r, alone %r" % (what, state((a, b)[w]), state(alone[w])))
            if a.equals(b) != (state(alone[0])[0] == state(alone[1])[0]) and sorted(repr(state(a)[0])) != sorted(repr(state(b)[0])):
                raise Mismatch("%s: equals is %r, of %r and %r" % (what, a.equals(b), state(a), state(b)))
        ctx.see((state(a)[0], state(b)[0]).__repr__())


PARTS = [
    ("properties", gen_props, check_props, "%d property lines x every way to change a property, parameter or value x copy or original, alone and in copies of components and calendars (thorough: pairs of changes)" % len(C.LINES + EXTRA)),
    ("cards", gen_cards, check_cards, "%d vCard property lines x every way to change them, alone and in a card" % len(VCARD)),
    ("components", gen_comps, check_comps, "21 components x all pairs (quick: a fifth) of %d edits x who is edited" % len(OPS)),
    ("calendars", gen_cals, check_cals, "6 calendars x all pairs (quick: half) of %d edits x who is edited" % len(CALOPS)),
    ("sets", gen_recsets, check_recsets, "6 recurrence sets x all pairs of %d changes x who is changed" % len(SETOPS)),
]
