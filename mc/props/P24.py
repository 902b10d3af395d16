# P24: after any edits a component or calendar answers what its text says.
from mcbase import Mismatch
import itertools
import calcat as C
from ask import alarm_answers, answers
import snap
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar import definitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.valarm import VAlarm
from pycalendar.period import Period
from pycalendar.timezonedb import TimezoneDatabase

NO = Calendar.NO_TIMEZONES
ZONES = [C.zone("Test/NewYork")]


def reset():
    TimezoneDatabase.createTimezoneDatabase("")
    Calendar.parseText(C.text(C.calendar(ZONES)))


def dt(text):
    """a date-time from its property text"""
    p = Property.parseText("DTSTART" + text)
    return p.getDateTimeValue().getValue()


def dur(text):
    return Duration.parseText(text)


def named(lines, *names):
    return [l for l in lines if C.pname(l) not in names]


TIMES = ("DTSTART", "DTEND", "DURATION", "DUE")
RECURS = ("RRULE", "RDATE", "EXRULE", "EXDATE")


def op_startend(s, e, written=True, fixed=None):
    return (
        "startend %s %s" % (s, e),
        lambda c: c.editTimingStartEnd(dt(s), dt(e)),
        lambda ls: named(ls, *TIMES) + ["DTSTART" + s] + (["DTEND" + (fixed or e)] if written else []),
    )


def op_startdur(s, d, written=True):
    return (
        "startdur %s %s" % (s, d),
        lambda c: c.editTimingStartDuration(dt(s), dur(d)),
        lambda ls: named(ls, *TIMES) + ["DTSTART" + s] + (["DURATION:" + d] if written else []),
    )


def recset(lines):
    src = Calendar.parseText(C.text(C.calendar([("VEVENT", ["UID:x", "DTSTART:20240101T000000Z"] + lines, [])])))
    s = src.getComponents()[0].getRecurrenceSet()
    return s if s is not None else RecurrenceSet()


def op_recur(lines):
    return ("recur %r" % (lines,), lambda c: c.editRecurrenceSet(recset(lines)), lambda ls: named(ls, *RECURS) + lines)


def op_finalise(what, do, model):
    def run(c):
        do(c)
        c.finalise()
    return (what + " and finalise", run, model)


def op_set(line):
    name = C.pname(line)

    def do(c):
        c.removeProperties(name)
        c.addProperty(Property.parseText(line))
    return op_finalise("set " + line, do, lambda ls: named(ls, name) + [line])


def op_drop(name):
    return op_finalise("drop " + name, lambda c: c.removeProperties(name), lambda ls: named(ls, name))


def op_exclude(t):
    return ("exclude " + t, lambda c: c.excludeRecurrence(dt(t)), lambda ls: ls + ["EXDATE" + t] if [l for l in ls if C.pname(l) in RECURS] else ls)


NY = ";TZID=Test/NewYork:"
DAY = ";VALUE=DATE:"
RECUR_OPS = [
    ("uid", lambda c: c.setUID("u2"), lambda ls: named(ls, "UID") + ["UID:u2"]),
    ("seq", lambda c: c.setSeq(7), lambda ls: named(ls, "SEQUENCE") + ["SEQUENCE:7"]),
    ("summary", lambda c: c.editSummary("x, y"), lambda ls: named(ls, "SUMMARY") + ["SUMMARY:x\\, y"]),
    ("no summary", lambda c: c.editSummary(None), lambda ls: named(ls, "SUMMARY")),
    ("details", lambda c: c.editDetails("d", "l"), lambda ls: named(ls, "DESCRIPTION", "LOCATION") + ["DESCRIPTION:d", "LOCATION:l"]),
    ("location", lambda c: c.editDetails("", "l2"), lambda ls: named(ls, "DESCRIPTION", "LOCATION") + ["LOCATION:l2"]),
    op_startdur(":20240610T120000Z", "PT2H"), op_startdur(NY + "20240310T013000", "P1D"), op_startdur(DAY + "20240610", "P1D", False), op_startdur(DAY + "20240610", "P2D"),
    op_startdur(DAY + "20240610", "P1W"), op_startdur(":20240610T120000", "PT15M"),
    op_recur(["RRULE:FREQ=DAILY;COUNT=4"]), op_recur(["RRULE:FREQ=WEEKLY;UNTIL=20240701T000000Z", "EXRULE:FREQ=MONTHLY", "EXDATE:20240701T000000Z"]),
    op_recur(["RDATE:20240305T120000Z", "RDATE:20240306T120000Z"]), op_recur(["RDATE;VALUE=PERIOD:20240305T120000Z/PT1H", "RDATE;VALUE=PERIOD:20240306T120000Z/20240306T130000Z"]),
    op_recur(["RDATE" + NY + "20240305T120000", "EXDATE" + NY + "20240305T130000"]), op_recur(["RDATE" + DAY + "20240305", "EXDATE" + DAY + "20240306"]), op_recur([]),
    op_recur(["RRULE:FREQ=DAILY;COUNT=9", "EXDATE;VALUE=PERIOD:20240304T083000Z/PT1H"]), op_recur(["RDATE;TZID=Test/NewYork;VALUE=PERIOD:20240305T120000/PT1H"]),
    op_exclude(":20240302T083000Z"), op_exclude(NY + "20240302T083000"), op_exclude(DAY + "20240302"),
    op_set("DTSTART:20240301T083000Z"), op_set("DTSTART;VALUE=DATE:20240301"), op_set("DTSTAMP:20250101T000000Z"), op_set("RRULE:FREQ=DAILY;COUNT=3"), op_set("SUMMARY:set"), op_set("SEQUENCE:2"),
    op_set("RECURRENCE-ID:20240308T083000Z"), op_set("RECURRENCE-ID;RANGE=THISANDFUTURE:20240308T083000Z"), op_set("UID:u3"), op_set("DURATION:PT3H"),
    op_drop("DTSTART"), op_drop("DURATION"), op_drop("DTSTAMP"), op_drop("SUMMARY"), op_drop("RECURRENCE-ID"), op_drop("RRULE"), op_drop("SEQUENCE"), op_drop("UID"), op_drop("EXDATE"), op_drop("STATUS"),
    op_drop("DESCRIPTION"),
    ("timing", lambda c: c.editTiming(), lambda ls: named(ls, *TIMES)),
]
ENDS = [
    op_startend(":20240610T120000Z", ":20240610T130000Z"), op_startend(NY + "20240310T013000", NY + "20240310T033000"), op_startend(DAY + "20240610", DAY + "20240611", False),
    op_startend(DAY + "20240610", DAY + "20240613"), op_startend(NY + "20240610T120000", ":20240611T000000Z"),
    op_startend(":20240610T120000Z", ":20240610T110000Z", True, ":20240611T000000Z"), op_startend(DAY + "20240610", DAY + "20240609", False), op_startend(DAY + "20240610", DAY + "20240610", False),
    op_drop("DTEND"), op_set("DTEND:20240301T093000Z"),
]


def op_status(i, names):
    def model(ls):
        now = [l for l in ls if C.pname(l) == "STATUS"]
        if now == (["STATUS:" + names[i]] if names[i] else []) or not names[i] and now == ["STATUS:OTHER"]:
            return ls
        out = named(ls, "STATUS") + (["STATUS:" + names[i]] if names[i] else [])
        if names is TODO_STATUS:
            out = named(out, "COMPLETED") + (["COMPLETED:now"] if names[i] == "COMPLETED" else [])
        return out
    return ("status %s" % names[i], lambda c: c.editStatus(i), model)


EVENT_STATUS = {definitions.eStatus_VEvent_None: None, definitions.eStatus_VEvent_Confirmed: "CONFIRMED", definitions.eStatus_VEvent_Tentative: "TENTATIVE", definitions.eStatus_VEvent_Cancelled: "CANCELLED"}
TODO_STATUS = {definitions.eStatus_VToDo_NeedsAction: "NEEDS-ACTION", definitions.eStatus_VToDo_Completed: "COMPLETED", definitions.eStatus_VToDo_InProcess: "IN-PROCESS",
               definitions.eStatus_VToDo_Cancelled: "CANCELLED"}


def op_due(t):
    return ("due " + t, lambda c: c.editTimingDue(dt(t)), lambda ls: named(ls, *TIMES) + ["DUE" + t])


def op_completed(t, utc):
    return ("completed " + t, lambda c: c.editCompleted(dt(t)), lambda ls: named(ls, "COMPLETED") + ["COMPLETED:" + utc])


EVENT_OPS = RECUR_OPS + ENDS + [op_status(i, EVENT_STATUS) for i in sorted(EVENT_STATUS)] + [op_set("STATUS:TENTATIVE"), op_set("STATUS:OTHER")]
TODO_OPS = RECUR_OPS + [op_status(i, TODO_STATUS) for i in sorted(TODO_STATUS)] + [
    op_due(":20240610T120000Z"), op_due(NY + "20240610T120000"), op_due(DAY + "20240610"), op_completed(":20240610T120000Z", "20240610T120000Z"), op_completed(NY + "20240610T120000", "20240610T160000Z"),
    op_set("DUE:20240301T093000Z"), op_set("PRIORITY:5"), op_set("PERCENT-COMPLETE:50"), op_set("STATUS:IN-PROCESS"), op_set("STATUS:OTHER"), op_set("COMPLETED:20240301T000000Z"), op_drop("DUE"), op_drop("COMPLETED"),
    op_drop("PRIORITY"), op_drop("PERCENT-COMPLETE"),
]
JOURNAL_OPS = RECUR_OPS + [op_set("DESCRIPTION:q")]
BUSY_OPS = ENDS + [
    ("timing", lambda c: c.editTiming(), lambda ls: named(ls, *TIMES)), op_startdur(":20240610T120000Z", "PT2H"), op_startdur(DAY + "20240610", "P1D", False), op_startdur(DAY + "20240610", "P1W"),
    ("uid", lambda c: c.setUID("u2"), lambda ls: named(ls, "UID") + ["UID:u2"]), op_set("DURATION:PT3H"), op_drop("DTSTART"), op_drop("DURATION"), op_set("DTSTART:20240301T083000Z"),
    op_drop("UID"),
]

STAMP = "DTSTAMP:20240101T000000Z"
BASES = [
    (("VEVENT", ["UID:u", STAMP, "DTSTART;TZID=Test/NewYork:20240301T083000", "DTEND;TZID=Test/NewYork:20240301T093000", "RRULE:FREQ=DAILY;COUNT=5", "SUMMARY:s", "STATUS:TENTATIVE", "SEQUENCE:1"], []), EVENT_OPS),
    (("VEVENT", ["UID:u", STAMP, "DTSTART;VALUE=DATE:20240301", "LOCATION:l", "DESCRIPTION:d"], []), EVENT_OPS),
    (("VEVENT", ["UID:u", STAMP, "DTSTART:20240301T083000Z", "DURATION:PT1H", "RDATE:20240304T083000Z,20240305T083000Z", "EXDATE:20240304T083000Z", "STATUS:CANCELLED"], []), EVENT_OPS),
    (("VEVENT", ["UID:u", STAMP, "DTSTART:20240301T083000Z", "RECURRENCE-ID;RANGE=THISANDFUTURE:20240301T073000Z"], []), EVENT_OPS),
    (("VTODO", ["UID:u", STAMP, "DUE;VALUE=DATE:20240401", "PRIORITY:1", "STATUS:NEEDS-ACTION"], []), TODO_OPS),
    (("VTODO", ["UID:u", STAMP, "DTSTART:20240301T083000Z", "DURATION:PT1H", "COMPLETED:20240302T000000Z", "STATUS:COMPLETED", "PERCENT-COMPLETE:100", "RRULE:FREQ=DAILY;COUNT=3"], []), TODO_OPS),
    (("VJOURNAL", ["UID:u", STAMP, "DTSTART:20240301T083000Z", "DESCRIPTION:d"], []), JOURNAL_OPS),
    (("VFREEBUSY", ["UID:u", STAMP, "DTSTART:20240301T083000Z", "DTEND:20240302T083000Z"], []), BUSY_OPS),
    (("VFREEBUSY", ["UID:u", STAMP, "DTSTART:20240301T083000Z", "DURATION:PT1H"], []), BUSY_OPS),
]
WINDOWS = [Period(DateTime(2024, 1, 1), DateTime(2025, 1, 1)), Period(DateTime(2024, 3, 2), DateTime(2024, 3, 5)), Period(DateTime(2024, 6, 10), DateTime(2024, 6, 12))]


def expansion(cal):
    out = []
    for w in WINDOWS:
        found = []
        try:
            cal.getVEvents(w, found)
        except Exception as e:
            out.append("error " + e.__class__.__name__)
            continue
        out.append(sorted([(f.getInstanceStart().getText(), f.getInstanceEnd().getText(), f.getOwner().getSummary()) for f in found]))
    return out


def completed_now(lines, want):
    """COMPLETED:now stands for a time within the last minutes"""
    for l in want:
        if l == "COMPLETED:now":
            got = [x for x in lines if C.pname(x) == "COMPLETED"]
            if len(got) == 1 and got[0] not in want and got[0].endswith("Z"):
                t = dt(got[0][len("COMPLETED"):])
                if abs((DateTime.getNowUTC() - t).getTotalSeconds()) < 600:
                    return ["COMPLETED:now" if x is got[0] else x for x in lines]
    return lines


def check_component(cal, lines, typ, subs, what):
    text = cal.getText(NO)
    spec = C.read(text)
    mine = [s for s in spec[2] if s[0] == typ][0]
    got = sorted(completed_now(mine[1], lines))
    if got != sorted(lines):
        raise Mismatch("%s: %r, expected %r" % (what, [l for l in got if l not in lines], [l for l in lines if l not in got]))
    fresh = Calendar.parseText(text)
    a, b = cal.getComponents(typ)[0], fresh.getComponents(typ)[0]
    d = snap.diff(answers(a), answers(b))
    if d:
        raise Mismatch("%s: answers and answers when read again: %r (%r)" % (what, d, lines))
    if fresh.getText(NO) != text:
        raise Mismatch("%s: is written differently when read again" % what)
    if typ == "VEVENT" and a.hasStart() and expansion(cal) != expansion(fresh):
        raise Mismatch("%s: occurs at %r, when read again at %r (%r)" % (what, expansion(cal), expansion(fresh), lines))
    return text


def gen_comps(tier):
    for i, (spec, ops) in enumerate(BASES):
        for k in range(len(ops)):
            yield [i, k]


def sensible(lines):
    names = [C.pname(l) for l in lines]
    start = [l for l in lines if C.pname(l) == "DTSTART"]
    day = bool(start) and "VALUE=DATE:" in start[0]
    if "DURATION" in names and ("DTEND" in names or "DUE" in names or not start):
        return False
    if not start and (set(names) & set(RECURS)):
        return False
    if "UID" not in names:
        return False
    for l in lines:
        if C.pname(l) in ("DTEND", "RDATE", "EXDATE", "RECURRENCE-ID", "DUE") and start and ("VALUE=DATE:" in l) != day:
            return False
        if l.startswith("RRULE") and "UNTIL" in l and day:
            return False
        if l == "DURATION:PT3H" and day:
            return False
    end = [l for l in lines if C.pname(l) == "DTEND"]
    if start and end and dt(end[0][5:]) <= dt(start[0][7:]):
        return False
    if len([l for l in lines if l.startswith("RRULE")]) > 1:
        return False
    return True


def check_comps(ctx, case):
    i, k = case
    spec, ops = BASES[i]
    depth = 3 if ctx.thorough else 2
    rest = range(len(ops))
    seqs = [[k]] + [[k, l] for l in rest]
    if ctx.thorough:
        seqs += [[k, l, m] for l in rest for m in rest if (l + m + k) % 7 == 0]
    for seq in seqs:
        if not ctx.thorough and len(seq) > 1 and (sum(seq) + i) % 3:
            continue
        lines, ok = list(spec[1]), True
        for x in seq:
            if ops[x][0].startswith("exclude") and not [l for l in lines if C.pname(l) in RECURS]:
                ok = False
            lines = ops[x][2](lines)
            ok = ok and sensible(lines)
        if not ok:
            continue
        reset()
        cal = Calendar.parseText(C.text(C.calendar([spec])))
        c = cal.getComponents()[0]
        lines = list(spec[1])
        for n, x in enumerate(seq):
            if (n + sum(seq)) % 2:
                expansion(cal)
            what = "%r after %r" % (spec[1], [ops[y][0] for y in seq[:n + 1]])
            try:
                ops[x][1](c)
            except Exception as e:
                raise Mismatch("%s: %s %s" % (what, e.__class__.__name__, e))
            ctx.step()
            lines = ops[x][2](lines)
            ctx.see(sorted(lines))
            if n == len(seq) - 1:
                check_component(cal, lines, spec[0], [], what)


# ---- alarms -------------------------------------------------------------------------------------------------------
def action_data(ls):
    """the properties that belong to the present action"""
    a = [l for l in ls if C.pname(l) == "ACTION"]
    a = a[0][7:] if a else "DISPLAY"
    return {"DISPLAY": ("DESCRIPTION",), "AUDIO": (definitions.cICalProperty_ACTION_X_SPEAKTEXT,), "EMAIL": ("DESCRIPTION", "SUMMARY", "ATTENDEE"), "URI": ("URL",)}.get(a, ())


def op_action(name, const, make, lines):
    return ("action " + name, lambda c: c.editAction(const, make()), lambda ls: named(ls, "ACTION", *(action_data(ls) + action_data(["ACTION:" + name]))) + ["ACTION:" + name] + lines)


def trigger(d):
    return ("trigger %s" % d, lambda c: c.editTriggerBy(dur(d), True), lambda ls: named(ls, "TRIGGER") + ["TRIGGER;RELATED=START:" + d])


ALARM_OPS = [
    op_action("DISPLAY", definitions.eAction_VAlarm_Display, lambda: VAlarm.VAlarmDisplay("hello"), ["DESCRIPTION:hello"]),
    op_action("AUDIO", definitions.eAction_VAlarm_Audio, lambda: VAlarm.VAlarmAudio("speak"), [definitions.cICalProperty_ACTION_X_SPEAKTEXT + ":speak"]),
    op_action("AUDIO", definitions.eAction_VAlarm_Audio, lambda: VAlarm.VAlarmAudio(), []),
    op_action("EMAIL", definitions.eAction_VAlarm_Email, lambda: VAlarm.VAlarmEmail("body", "subject", ["mailto:a@b", "mailto:c@d"]),
              ["DESCRIPTION:body", "SUMMARY:subject", "ATTENDEE:mailto:a@b", "ATTENDEE:mailto:c@d"]),
    op_action("EMAIL", definitions.eAction_VAlarm_Email, lambda: VAlarm.VAlarmEmail("body", "subject"), ["DESCRIPTION:body", "SUMMARY:subject"]),
    op_action("URI", definitions.eAction_VAlarm_URI, lambda: VAlarm.VAlarmURI("http://a/"), ["URL:http://a/"]),
    op_action("NONE", definitions.eAction_VAlarm_None, lambda: VAlarm.VAlarmNone(), []),
    trigger("-PT30M"), trigger("P1D"),
    ("trigger end", lambda c: c.editTriggerBy(dur("PT5M"), False), lambda ls: named(ls, "TRIGGER") + ["TRIGGER;RELATED=END:PT5M"]),
    ("trigger on", lambda c: c.editTriggerOn(dt(":20240610T120000Z")), lambda ls: named(ls, "TRIGGER") + ["TRIGGER;VALUE=DATE-TIME:20240610T120000Z"]),
    ("repeats", lambda c: c.editRepeats(3, dur("PT10M")), lambda ls: named(ls, "REPEAT", "DURATION") + ["REPEAT:3", "DURATION:PT10M"]),
    ("repeats", lambda c: c.editRepeats(1, dur("PT1H")), lambda ls: named(ls, "REPEAT", "DURATION") + ["REPEAT:1", "DURATION:PT1H"]),
    ("no repeats", lambda c: c.editRepeats(0, dur("PT10M")), lambda ls: named(ls, "REPEAT", "DURATION")),
    op_set("ACTION:AUDIO"), op_set("ACTION:OTHER"), op_set("TRIGGER:-PT1H"), op_set("TRIGGER;VALUE=DATE-TIME:20240611T120000Z"), op_set("DESCRIPTION:set"), op_drop("REPEAT"), op_drop("DURATION"),
] + [
    ("status %d" % s, lambda c, s=s: c.editStatus(s), lambda ls, t=t: named(ls, definitions.cICalProperty_ALARM_X_ALARMSTATUS) + [definitions.cICalProperty_ALARM_X_ALARMSTATUS + ":" + t])
    for s, t in ((definitions.eAlarm_Status_Pending, definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING), (definitions.eAlarm_Status_Completed, definitions.cICalProperty_ALARM_X_ALARMSTATUS_COMPLETED),
                 (definitions.eAlarm_Status_Disabled, definitions.cICalProperty_ALARM_X_ALARMSTATUS_DISABLED))
]
ALARMS = [
    ["ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER:-PT5M"], ["ACTION:AUDIO", "TRIGGER;RELATED=END:PT5M", "REPEAT:2", "DURATION:PT15M"],
    ["ACTION:EMAIL", "DESCRIPTION:x", "SUMMARY:y", "ATTENDEE:mailto:q@r", "TRIGGER;VALUE=DATE-TIME:20240301T000000Z"], ["ACTION:X-OTHER", "X-A:1", "TRIGGER:PT0S"],
]


def gen_alarms(tier):
    for i in range(len(ALARMS)):
        for k in range(len(ALARM_OPS)):
            yield [i, k]


def check_alarms(ctx, case):
    i, k = case
    n = len(ALARM_OPS)
    for seq in [[k]] + [[k, l] for l in range(n)] + ([[k, l, m] for l in range(n) for m in range(n)] if ctx.thorough else []):
        for other in ([], [["ACTION:AUDIO", "TRIGGER:-PT15M"]]):
            if other and len(seq) > 2:
                continue
            cal = Calendar.parseText(C.text(C.calendar([C.event("u", subs=[("VALARM", a, []) for a in [ALARMS[i]] + other])])))
            a = [x for x in cal.getComponents()[0].getComponents() if sorted(C.read(x.getText())[1]) == sorted(ALARMS[i])][0]
            lines = list(ALARMS[i])
            for j, x in enumerate(seq):
                what = "alarm %r after %r" % (ALARMS[i], [ALARM_OPS[y][0] for y in seq[:j + 1]])
                try:
                    ALARM_OPS[x][1](a)
                except Exception as e:
                    raise Mismatch("%s: %s %s" % (what, e.__class__.__name__, e))
                lines = ALARM_OPS[x][2](lines)
                ctx.step()
            ctx.see(sorted(lines))
            got = C.read(a.getText())[1]
            if sorted(got) != sorted(lines):
                raise Mismatch("%s: is %r, expected %r" % (what, sorted(got), sorted(lines)))
            text = cal.getText(NO)
            fresh = Calendar.parseText(text)
            b = [x for x in fresh.getComponents()[0].getComponents() if sorted(C.read(x.getText())[1]) == sorted(lines)][0]
            d = snap.diff(alarm_answers(a), alarm_answers(b))
            if d:
                raise Mismatch("%s: answers and answers when read again: %r (%r)" % (what, d, lines))
            if fresh.getText(NO) != text:
                raise Mismatch("%s: is written in another order when read again: %r" % (what, text))


# ---- calendars ------------------------------------------------------------------------------------------------------
def ev(uid, rid=None, summary=None):
    return ("VEVENT", ["UID:" + uid, STAMP, "DTSTART:20240301T083000Z", "DURATION:PT1H"] + (["RECURRENCE-ID:" + rid] if rid else ["RRULE:FREQ=WEEKLY;COUNT=4"]) + (["SUMMARY:" + summary] if summary else []), [])


ADD = [ev("a"), ev("a", "20240308T083000Z", "o1"), ev("a", "20240315T083000Z", "o2"), ev("b"), ev("b", "20240308T083000Z", "o3"),
       ("VTODO", ["UID:a", STAMP, "SUMMARY:todo"], []), ("VFREEBUSY", ["UID:a", STAMP], []), ("X-COMP", ["UID:b"], [])]


def make(spec, cal):
    c = Calendar.parseText(C.text(C.calendar([spec]))).getComponents()[0]
    c.setParentComponent(cal)
    return c


def rename(spec, old, new):
    return (spec[0], ["UID:" + new if l == "UID:" + old else l for l in spec[1]], spec[2])


def cal_add(n):
    def model(m):
        return (m[0], m[1] + [ADD[n]])
    return ("add %d" % n, lambda c: c.addComponent(make(ADD[n], c)), model, lambda m: not [s for s in m[1] if (s[0], s[1][0], [l for l in s[1] if l.startswith("REC")]) == (
        ADD[n][0], ADD[n][1][0], [l for l in ADD[n][1] if l.startswith("REC")])])


def cal_remove(n):
    return ("remove %d" % n, lambda c: c.removeComponent(c.getComponents()[n]), lambda m: (m[0], m[1][:n] + (m[1][n + 1:] if n >= 0 else [])), lambda m: len(m[1]) > (n if n >= 0 else 0))


def cal_removeall(t):
    return ("remove all %s" % t, lambda c: c.removeAllComponent(t), lambda m: (m[0], [s for s in m[1] if t and s[0] != t]), lambda m: True)


def cal_uid(old, new):
    """two components of a type with the same identity are no calendar"""
    def model(m):
        return (m[0], [rename(s, old, new) for s in m[1]])

    def ok(m):
        ids = [(s[0], s[1][0], [l for l in s[1] if l.startswith("REC")]) for s in model(m)[1]]
        return all([ids.count(x) == 1 for x in ids])
    return ("uid %s to %s" % (old, new), lambda c: c.changeUID(old, new), model, ok)


def cal_text(name, prop, f, value):
    def model(m):
        return (named(m[0], prop) + ([prop + ":" + value] if value else []), m[1])
    return ("%s %r" % (name, value), lambda c: f(c, value), model, lambda m: True)


CAL_OPS = [cal_add(i) for i in range(len(ADD))] + [cal_remove(0), cal_remove(-1), cal_remove(1), cal_removeall("VEVENT"), cal_removeall("vtodo".upper()), cal_removeall(None), cal_uid("a", "b"), cal_uid("b", "a"),
           cal_uid("a", "c"), cal_uid("a", "a"), cal_text("name", "X-WR-CALNAME", lambda c, v: c.editName(v), "n"), cal_text("name", "X-WR-CALNAME", lambda c, v: c.editName(v), ""),
           cal_text("description", "X-WR-CALDESC", lambda c, v: c.editDescription(v), "d"), cal_text("description", "X-WR-CALDESC", lambda c, v: c.editDescription(v), "")]
CAL_BASES = [[], [0, 1, 3], [0, 1, 2, 3, 4, 5]]


def cal_answers(c):
    out = [c.getName(), c.getDescription(), expansion(c), [c.countComponents(t) for t in ("VEVENT", "VTODO", "X-COMP")], sorted([x.getText() for x in c.getComponents()])]
    for uid in "abc":
        items, ids = [], []
        c.getRecurrenceInstancesItems("VEVENT", uid, items)
        c.getRecurrenceInstancesIds("VEVENT", uid, ids)
        out.append((sorted([x.getText() for x in items]), sorted([x.getText() for x in ids])))
    keys = []
    for x in c.getComponents():
        if x.getType() != "X-COMP":
            found = c.getComponentByKey(x.getMapKey())
            keys.append(found is not None and found.getUID() == x.getUID())
    out.append(all(keys))
    return out


def gen_cals(tier):
    for b in range(len(CAL_BASES)):
        for p in itertools.product(range(len(CAL_OPS)), repeat=2):
            yield [b] + list(p)


def check_cals(ctx, case):
    b, k, l = case
    for m in [None] + (range(len(CAL_OPS)) if ctx.thorough else [x for x in range(len(CAL_OPS)) if (x + k + l + b) % 6 == 0]):
        cal = Calendar.parseText(C.text(C.calendar([ADD[i] for i in CAL_BASES[b]], ["VERSION:2.0", "PRODID:p"])))
        model = (["VERSION:2.0", "PRODID:p"], [ADD[i] for i in CAL_BASES[b]])
        done = []
        for x in (k, l, m):
            if x is None or not CAL_OPS[x][3](model):
                break
            done.append(CAL_OPS[x][0])
            what = "calendar %d after %r" % (b, done)
            try:
                CAL_OPS[x][1](cal)
            except Exception as e:
                raise Mismatch("%s: %s %s" % (what, e.__class__.__name__, e))
            model = CAL_OPS[x][2](model)
            ctx.step()
            ctx.see(model)
        else:
            what = "calendar %d after %r" % (b, done)
        if not done:
            continue
        text = cal.getText(NO)
        got, want = C.multiset(C.read(text)), C.multiset(C.calendar(model[1], model[0]))
        if got != want:
            raise Mismatch("%s: is %r, expected %r" % (what, got, want))
        fresh = Calendar.parseText(text)
        x, y = cal_answers(cal), cal_answers(fresh)
        if x != y:
            raise Mismatch("%s: answers and answers when read again: %r" % (what, [(p, q) for p, q in zip(x, y) if p != q]))
        if fresh.getText(NO) != text:
            raise Mismatch("%s: is written differently when read again" % what)


# --- identifiers and stamps made by the library
FRESH = [("newuid", ""), ("newuid", None), ("uid", "u2"), ("stamp", 0), ("modified", 0), ("seq", 3), ("changed", True), ("copy", 0), ("finalise", 0), ("domain", 0)]
FKINDS = [("VEVENT", []), ("VEVENT", ["RECURRENCE-ID:20240308T083000Z"]), ("VTODO", []), ("VJOURNAL", []), ("VFREEBUSY", []), ("VAVAILABILITY", []), ("VPOLL", []), ("X-COMP", [])]


def gen_fresh(tier):
    for k in range(len(FKINDS)):
        for n in range(1, 4 if tier == "quick" else 5):
            for i, seq in enumerate(itertools.product(range(len(FRESH)), repeat=n)):
                if n < 3 or i % (5 if tier == "quick" else 1) == 0:
                    yield (k, list(seq))


def check_fresh(ctx, case):
    ctype, more = FKINDS[case[0]]
    c = Component.makeComponent(ctype, None)
    for l in ["UID:u", STAMP, "DTSTART:20240301T083000Z", "SEQUENCE:1"] + more:
        c.addProperty(Property.parseText(l))
    c.finalise()
    uid, seq, orig, changed, now, used, keys = "u", 1, 1, False, set(), set(), {}
    before = Calendar.sDomain
    try:
        for at, i in enumerate(case[1]):
            op, arg = FRESH[i]
            what = "%s %r after %r" % (ctype, more, [FRESH[j] for j in case[1][:at + 1]])
            ctx.step()
            if op == "newuid":
                c.setUID(arg)
                uid = c.getUID()
                if not uid or uid in used or uid in ("u", "u2"):
                    raise Mismatch("%s: new UID %r was used before" % (what, uid))
                used.add(uid)
            elif op == "uid":
                c.setUID(arg)
                uid = arg
            elif op == "stamp":
                c.initDTSTAMP()
                now.add("DTSTAMP")
            elif op == "modified":
                c.updateLastModified()
                now.add("LAST-MODIFIED")
            elif op == "seq":
                c.setSeq(arg)
                seq = arg
            elif op == "changed":
                c.setChanged(arg)
                changed = arg
            elif op == "copy":
                c = c.duplicate()
            elif op == "finalise":
                c.finalise()
                orig = seq
            else:
                Calendar.setDomain("example.com")
            if (c.getUID(), c.loadValueString("UID"), c.countProperty("UID")) != (uid, uid, 1) or (c.getSeq(), c.loadValueInteger("SEQUENCE"), c.countProperty("SEQUENCE"), c.getOriginalSeq()) != (seq, seq, 1, orig):
                raise Mismatch("%s: UID %r, %r; sequence %r, %r, originally %r; expected %r, %r, %r" % (what, c.getUID(), c.loadValueString("UID"), c.getSeq(), c.loadValueInteger("SEQUENCE"), c.getOriginalSeq(), uid, seq, orig))
            if c.getChanged() != changed:
                raise Mismatch("%s: changed is %r" % (what, c.getChanged()))
            for name in ("DTSTAMP", "LAST-MODIFIED"):
                t = c.loadValueDateTime(name)
                n = 1 if name == "DTSTAMP" or name in now else 0
                if c.countProperty(name) != n:
                    raise Mismatch("%s: has %d %s" % (what, c.countProperty(name), name))
                if name in now and (not t.getTimezoneUTC() or t.isDateOnly() or abs((DateTime.getNowUTC() - t).getTotalSeconds()) > 600) or n and name not in now and t.getText() != "20240101T000000Z":
                    raise Mismatch("%s: %s is %s" % (what, name, t.getText()))
                if name in now and c.findFirstProperty(name).getText().strip() != name + ":" + t.getText():
                    raise Mismatch("%s: %s is written %r" % (what, name, c.findFirstProperty(name).getText()))
            key = c.getMapKey()
            if key != c.getMapKey() or key != c.duplicate().getMapKey() or (not ctype.startswith("X-") and keys.setdefault(key, uid) != uid):
                raise Mismatch("%s: key %r was that of UID %r" % (what, key, keys.get(key)))
            o = Component.makeComponent(ctype, None)
            for l in ["UID:" + uid] + more:
                o.addProperty(Property.parseText(l))
            o.finalise()
            if not ctype.startswith("X-") and o.getMapKey() != key or o.getUID() != uid:
                raise Mismatch("%s: key %r, that of one read with the same UID %r" % (what, key, o.getMapKey()))
    finally:
        Calendar.setDomain(before)
    ctx.see((ctype, len(used), seq, changed, tuple(sorted(now))))


# ---- values given to more than one component ----------------------------------------------------------------------
EV = ("VEVENT", ["UID:u", STAMP, "DTSTART;TZID=Test/NewYork:20240301T083000", "DTEND;TZID=Test/NewYork:20240301T093000", "RRULE:FREQ=DAILY;COUNT=9", "EXDATE;TZID=Test/NewYork:20240303T083000"], [])
EVDAY = ("VEVENT", ["UID:u", STAMP, "DTSTART;VALUE=DATE:20240301", "RRULE:FREQ=WEEKLY;UNTIL=20240601"], [])
TD = ("VTODO", ["UID:u", STAMP, "DTSTART:20240301T083000Z", "DUE:20240303T083000Z", "RRULE:FREQ=DAILY;COUNT=3"], [])
FB = ("VFREEBUSY", ["UID:u", STAMP, "DTSTART:20240301T083000Z", "DTEND:20240302T083000Z"], [])
AL = ("VALARM", ["ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER:-PT5M", "REPEAT:2", "DURATION:PT1M"], [])
RULES = ["RRULE:FREQ=DAILY;COUNT=4", "EXRULE:FREQ=DAILY;INTERVAL=2", "RDATE:20240401T083000Z", "RDATE;VALUE=PERIOD:20240501T083000Z/PT1H", "EXDATE:20240401T083000Z"]


def parts(vs):
    return lambda: [dt(v) if v[0] in ":;" else dur(v) for v in vs]


GIVE = [
    ("startend", EV, parts([":20240610T120000Z", ":20240610T130000Z"]), lambda c, v: c.editTimingStartEnd(*v)),
    ("startend", EV, parts([NY + "20240610T120000", NY + "20240610T130000"]), lambda c, v: c.editTimingStartEnd(*v)),
    ("startend back to front", EV, parts([NY + "20240610T120000", NY + "20240610T120000"]), lambda c, v: c.editTimingStartEnd(*v)),
    ("startend", EVDAY, parts([DAY + "20240610", DAY + "20240612"]), lambda c, v: c.editTimingStartEnd(*v)),
    ("startend", EVDAY, parts([DAY + "20240610", DAY + "20240611"]), lambda c, v: c.editTimingStartEnd(*v)),
    ("start as end", EV, parts([":20240610T120000Z"]), lambda c, v: c.editTimingStartEnd(v[0], v[0])),
    ("startdur", EV, parts([":20240610T120000Z", "PT2H"]), lambda c, v: c.editTimingStartDuration(*v)),
    ("startdur", EVDAY, parts([DAY + "20240610", "P2D"]), lambda c, v: c.editTimingStartDuration(*v)),
    ("startdur", TD, parts([NY + "20240610T120000", "PT2H"]), lambda c, v: c.editTimingStartDuration(*v)),
    ("due", TD, parts([":20240610T120000Z"]), lambda c, v: c.editTimingDue(*v)),
    ("due", TD, parts([DAY + "20240610"]), lambda c, v: c.editTimingDue(*v)),
    ("completed", TD, parts([NY + "20240610T120000"]), lambda c, v: c.editCompleted(*v)),
    ("completed", TD, parts([":20240610T120000Z"]), lambda c, v: c.editCompleted(*v)),
    ("startend", FB, parts([":20240610T120000Z", ":20240610T130000Z"]), lambda c, v: c.editTimingStartEnd(*v)),
    ("startdur", FB, parts([":20240610T120000Z", "PT2H"]), lambda c, v: c.editTimingStartDuration(*v)),
    ("recurs", EV, lambda: [recset(RULES)], lambda c, v: c.editRecurrenceSet(*v)),
    ("recurs", TD, lambda: [recset(RULES)], lambda c, v: c.editRecurrenceSet(*v)),
    ("exclude", EV, parts([NY + "20240302T083000"]), lambda c, v: c.excludeRecurrence(*v)),
    ("exclude future", EV, parts([NY + "20240304T083000"]), lambda c, v: c.excludeFutureRecurrence(*v)),
    ("exclude future", EVDAY, parts([DAY + "20240308"]), lambda c, v: c.excludeFutureRecurrence(*v)),
    ("trigger on", AL, parts([":20240610T120000Z"]), lambda c, v: c.editTriggerOn(*v)),
    ("trigger by", AL, parts(["-PT2H"]), lambda c, v: c.editTriggerBy(v[0], True)),
    ("repeats", AL, parts(["PT2H"]), lambda c, v: c.editRepeats(4, v[0])),
    ("nothing", EV, lambda: [], lambda c, v: None),
    ("nothing", TD, lambda: [], lambda c, v: None),
]


def twist(v):
    if isinstance(v, DateTime):
        v.offsetDay(3)
        v.setYear(v.getYear() + 1)
    elif isinstance(v, Duration):
        v.setDuration(86400 * 5)
    else:
        for r in v.getRules() + v.getExrules():
            r.setInterval(3)
        v.addDT(dt(":20240411T083000Z"))
        v.subtractDT(dt(":20240412T083000Z"))
        for d in v.getDates() + v.getExdates():
            d.offsetDay(2)
        for p in v.getPeriods():
            p.getStart().offsetDay(1)


def inner(i):
    """the component an edit is made on"""
    return lambda cal: cal.getComponents()[i]


def gen_shared(tier):
    for g in range(len(GIVE)):
        for how in ("read", "copied", "derived"):
            if how != "derived" or GIVE[g][0] != "nothing" or GIVE[g][1] is EV:
                yield [g, how]


def two(g, how):
    what, spec, make, give = GIVE[g]
    reset()
    alarm = spec is AL
    whole = ("VEVENT", EV[1], [AL]) if alarm else spec
    cal = Calendar.parseText(C.text(C.calendar([whole])))
    a = cal.getComponents()[0]
    if how == "derived" and spec[0] in ("VEVENT", "VTODO"):
        rid = dt(":20240308T133000Z" if whole is not EVDAY else DAY + "20240308")
        b = cal.deriveComponent(rid)
        cal.addComponent(b)
    else:
        b = a.duplicate() if how == "copied" else Calendar.parseText(C.text(C.calendar([whole]))).getComponents()[0]
        b.setUID("u9")
        cal.addComponent(b)
    if alarm:
        a, b = a.getComponents()[0], b.getComponents()[0]
    return cal, a, b


def say(c):
    out = dict(alarm_answers(c) if c.getType() == "VALARM" else answers(c))
    out["text"] = str(c)
    return out


def check_shared(ctx, case):
    g, how = case
    what, spec, make, give = GIVE[g]
    ops = {"VEVENT": EVENT_OPS, "VTODO": TODO_OPS, "VFREEBUSY": BUSY_OPS, "VALARM": ALARM_OPS}[spec[0]]
    for k in range(-1, len(ops)):
        for back in (0, 1):
            cal, a, b = two(g, how)
            if back:
                a, b = b, a
            vals = make()
            path = "%s of %s (%s) given to two components" % (what, spec[0], how)
            give(a, vals)
            give(b, vals)
            if str(a).count("DTSTART") != str(b).count("DTSTART"):
                raise Mismatch("%s: %s and %s" % (path, a, b))
            before = say(b)
            ctx.see(before["text"])
            first = say(a)
            for v in vals:
                twist(v)
            ctx.step()
            for c, was, which in ((a, first, "first"), (b, before, "second")):
                d = snap.diff(was, say(c))
                if d:
                    raise Mismatch("%s: the %s changes when the value itself is changed after: %r" % (path, which, d))
            if k >= 0:
                if ops[k][0].startswith("exclude") and "RRULE" not in str(a):
                    continue
                ctx.step()
                rid = [l for l in str(a).splitlines() if l.startswith("RECURRENCE-ID")]
                try:
                    ops[k][1](a)
                except Exception as e:
                    continue
                d = snap.diff(before, say(b))
                if d:
                    raise Mismatch("%s: %s on one changes the other: %r" % (path, ops[k][0], d))
                if "RECURRENCE-ID" not in ops[k][0]:
                    now = [l for l in str(a).splitlines() if l.startswith("RECURRENCE-ID")]
                    if now != rid:
                        raise Mismatch("%s: %s makes of %r %r" % (path, ops[k][0], rid, now))


PARTS = [
    ("components", gen_comps, check_comps, "9 events, to-dos, journals and free-busy x all sequences of 2 (quick: a third; thorough: a seventh of those of 3) of up to 70 edits"),
    ("alarms", gen_alarms, check_alarms, "4 alarms x all sequences of up to 2 (thorough: 3) of %d edits" % len(ALARM_OPS)),
    ("calendars", gen_cals, check_cals, "3 calendars x all sequences of 2 (quick: and a sixth of 3; thorough: all 3) of %d edits" % len(CAL_OPS)),
    ("fresh", gen_fresh, check_fresh, "8 kinds of component x all sequences of up to 3 (quick: a fifth of 3; thorough: 4) of 10 operations making UIDs, stamps, sequence numbers and copies"),
    ("shared", gen_shared, check_shared, "%d edits given the same values for two components read, copied or derived x the value changed after x every edit of either" % len(GIVE)),
]
