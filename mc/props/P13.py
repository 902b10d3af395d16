# P13: a component's recurrence set is (DTSTART + RRULE + RDATE) - (EXRULE + EXDATE), however it was given or edited.
from mcbase import Mismatch
import itertools
import refcal as R
import refrule
import reftz
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.icalendar import definitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet

tzdata.load(tzdata.NY)
DAY = 86400
T0 = R.secs(2024, 3, 7, 10, 0, 0)              # the New York change of 10 March is in the set
KINDS = ["floating", "utc", "zoned", "midnight", "date"]      # midnight: zoned too, in the first hour of the day
ZONED = ("zoned", "midnight")
RRULES = [[], ["FREQ=DAILY;COUNT=5"], ["FREQ=DAILY;INTERVAL=2;UNTIL=7"], ["FREQ=WEEKLY;BYDAY=SA,MO;COUNT=4"],
          ["FREQ=DAILY;INTERVAL=3;COUNT=4", "FREQ=DAILY;INTERVAL=4"]]
RDATES = [[], [3], [0, 12], [3, 7, 7], [8, -2], [40]]
EXDATES = [[], [0], [2], [0, 3, 7], [4, 25]]
EXRULES = [[], ["FREQ=DAILY;INTERVAL=3"], ["FREQ=WEEKLY;BYDAY=SA;UNTIL=9"]]
PERIODS = [[], [(6, 1)], [(-3, 2), (5, 3)]]
WINDOWS = [(-5, 30), (0, 5), (2, 6), (-6, 0), (-2, 1), (9, 60)]


def at(k, kind):
    return T0 - (34200 if kind == "midnight" else 0) + k * DAY


def dt(k, kind):
    f = R.fields(at(k, kind))
    if kind == "date":
        return DateTime(*f[:3])
    return DateTime(*(list(f) + [{"floating": None, "utc": Timezone(utc=True), "zoned": Timezone(tzid="Test/NewYork"), "midnight": Timezone(tzid="Test/NewYork")}[kind]]))


def txt(k, kind, asutc=False):
    f = R.fields(at(k, kind))
    if kind == "date":
        return R.dtext(f)
    if asutc and kind in ZONED:
        t = at(k, kind)
        return R.text(R.fields(t - reftz.NY.local(t))) + "Z"
    return R.text(f) + ("Z" if kind == "utc" else "")


def param(kind, utc=False):
    if kind == "date":
        return ";VALUE=DATE"
    return ";TZID=Test/NewYork" if kind in ZONED and not utc else ""


def rule(r, kind):
    """UNTIL=<day> written as RFC 5545 has it for that kind of start"""
    parts = [p.split("=") for p in r.split(";")]
    return ";".join(["%s=%s" % (k, txt(int(v), kind, True) if k == "UNTIL" else v) for k, v in parts])


def days(r, last=70):
    """days the rule gives, as numbers from DTSTART"""
    parts = [p.split("=") for p in r.split(";")]
    s = ";".join(["%s=%s" % (k, txt(int(v), "floating") if k == "UNTIL" else v) for k, v in parts])
    return set([(t - T0) // DAY for t in refrule.expand(s, R.fields(T0), T0 + last * DAY)])


def matches(r, k):
    return k in days(r)


def render(kind, case, layout):
    rr, rd, ex, er, pe = case
    out = ["UID:1", "DTSTAMP:20240101T000000Z", "DTSTART%s:%s" % (param(kind), txt(0, kind)), "DURATION:%s" % ("P1D" if kind == "date" else "PT1H")]
    for r in rr:
        out.append("RRULE:" + rule(r, kind))
    for r in er:
        out.append("EXRULE:" + rule(r, kind))
    for name, l in (("RDATE", rd), ("EXDATE", ex)):
        utc = layout == "utc"
        if layout == "lines":
            for k in l:
                out.append("%s%s:%s" % (name, param(kind), txt(k, kind)))
        elif l:
            out.append("%s%s:%s" % (name, param(kind, utc), ",".join([txt(k, kind, utc) for k in l])))
    for k, n in pe:
        if layout == "lines":
            out.append("RDATE;VALUE=PERIOD%s:%s/P%dD" % (param(kind), txt(k, kind), n))
        else:
            utc = layout == "utc"
            out.append("RDATE;VALUE=PERIOD%s:%s/%s" % (param(kind, utc), txt(k, kind, utc), txt(k + n, kind, utc)))
    return tzdata.calendar(tzdata.NY, "BEGIN:VEVENT\r\n" + "".join([x + "\r\n" for x in out]) + "END:VEVENT\r\n")


def event(text):
    cal = Calendar.parseText(text)
    return cal, cal.getComponents("VEVENT")[0]


def listed(items, kind):
    out = []
    for i in items:
        if i.isDateOnly() != (kind == "date"):
            raise Mismatch("instance of another type: %s" % i.getText())
        s = R.secs(i.getYear(), i.getMonth(), i.getDay(), i.getHours(), i.getMinutes(), i.getSeconds())
        k, r = divmod(s - at(0, kind) if kind != "date" else s - T0 + 36000, DAY)
        if r != 0:
            # an instance kept in UTC although the start is zoned
            s += reftz.NY.utc(s) if kind in ZONED and i.getTimezoneUTC() else 0
            k, r = divmod(s - at(0, kind), DAY)
        if r != 0:
            raise Mismatch("instance at another time of the day: %s" % i.getText())
        out.append(int(k))
    return out


def window(a, b, kind, utc=False):
    if utc:
        return Period.parseText("%s/%s" % (txt(a, kind, True), txt(b, kind, True)))
    return Period(start=dt(a, kind), end=dt(b, kind))


def expand(ev, kind, a, b, utc=False):
    items = []
    limited = ev.getRecurrenceSet().expand(ev.getStart(), window(a, b, kind, utc), items)
    return items, limited


def compare(ctx, ev, kind, inc, per, exc, what):
    for a, b, utc in [w + (False,) for w in WINDOWS] + ([w + (True,) for w in WINDOWS[::2]] if kind in ZONED else []):
        want = set([k for k in inc if a <= k < b] + [k for k, n in per if k < b and k + n > a]) - exc
        # excluded days before the window: only matter for periods that reach into it
        items, limited = expand(ev, kind, a, b, utc)
        ctx.step()
        got = listed(items, kind)
        if got != sorted(want):
            raise Mismatch("%s in days %d to %d: %s, expected %s" % (what, a, b, got, sorted(want)))
        if not limited and [k for k in inc - exc if not a <= k < b and k < 70]:
            raise Mismatch("%s in days %d to %d says it is not limited by the window" % (what, a, b))
        for i in items:
            i.offsetDay(3)
            i.setHours(1)
        ctx.see((kind, a, b, tuple(got)))
        # a component is in a window if it has an instance there
        if bool(ev.withinPeriod(window(a, b, kind, utc))) != bool(want):
            raise Mismatch("%s is %s days %d to %d" % (what, "not in" if want else "in", a, b))


def gen(tier):
    layouts = ["commas", "lines", "utc"]
    n = 0
    for kind in KINDS:
        for ri in range(len(RRULES)):
            for di in range(len(RDATES)):
                for ei in range(len(EXDATES)):
                    for si in range(len(EXRULES)):
                        for pi in range(len(PERIODS)):
                            if kind == "date" and pi:
                                continue
                            n += 1
                            if tier == "thorough":
                                for l in layouts:
                                    yield [kind, ri, di, ei, si, pi, l]
                            elif (ri * 7 + di * 3 + ei) % 2 == (si + pi) % 2:
                                yield [kind, ri, di, ei, si, pi, layouts[n // 2 % 3]]


def check(ctx, case):
    kind, ri, di, ei, si, pi, layout = case
    c = (RRULES[ri], RDATES[di], EXDATES[ei], EXRULES[si], PERIODS[pi])
    text = render(kind, c, layout)
    cal, ev = event(text)
    if not any(c):
        if ev.getRecurrenceSet() is not None and ev.isRecurring():
            raise Mismatch("an event without recurrence properties is recurring")
        return
    if not ev.isRecurring():
        raise Mismatch("not recurring: %s" % text)
    inc = set([0]) | set(c[1])
    for r in c[0]:
        inc |= days(r)
    exc = set(c[2])
    for r in c[3]:
        # an exclusion rule removes what it generates; DTSTART only if the rule itself gives it
        d = days(r)
        if "BYDAY" in r and R.wday(R.days(2024, 3, 7)) != refrule.DAYS.index(r.split("BYDAY=")[1][:2]):
            d.discard(0)
        exc |= d
    what = "%s %r (%s)" % (kind, c, layout)
    compare(ctx, ev, kind, inc, c[4], exc, what)
    compare(ctx, ev, kind, inc, c[4], exc, what + " again")
    if (ri + di + ei + si) % 3 == 0:
        compare(ctx, ev.duplicate(), kind, inc, c[4], exc, what + " as a copy")
        cal2, ev2 = event(cal.getText())
        compare(ctx, ev2, kind, inc, c[4], exc, what + " read back")
        if not ev.getRecurrenceSet().equals(ev2.getRecurrenceSet()) or not ev.getRecurrenceSet().equals(ev.getRecurrenceSet().duplicate()):
            raise Mismatch("%s: the set read back is not equal" % what)
        # another set is not equal to it
        for alter in range(4):
            other = ev.getRecurrenceSet().duplicate()
            [lambda: other.addDT(dt(33, kind)), lambda: other.subtractDT(dt(34, kind)), lambda: other.addRule(ruleobj("FREQ=MONTHLY", kind)),
             lambda: other.subtractRule(ruleobj("FREQ=MONTHLY", kind))][alter]()
            if other.equals(ev.getRecurrenceSet()) or ev.getRecurrenceSet().equals(other):
                raise Mismatch("%s: equal to a set with one more member (%d)" % (what, alter))


def ruleobj(r, kind):
    o = Recurrence()
    o.parse(rule(r, kind))
    return o


# ---- edits --------------------------------------------------------------------------------------------------
BASES = [(["FREQ=DAILY;COUNT=9"], [20], [2]), (["FREQ=DAILY;INTERVAL=2"], [], [4]), (["FREQ=WEEKLY;BYDAY=SA,MO;COUNT=6"], [3, 9], []),
         (["FREQ=DAILY;INTERVAL=2;UNTIL=12", "FREQ=DAILY;INTERVAL=5;COUNT=3"], [7], [0])]
OPS = [("look", 30), ("look", 3), ("exclude", 4), ("exclude", 0), ("exclude", 11), ("until", 5), ("until", 1), ("until", 11), ("replace", 0), ("replace", 1),
       ("addrdate", 6), ("addexdate", 6), ("unexclude", 0), ("copy", 0), ("reread", 0), ("rule-interval", 3), ("rule-count", 3)]


def gen_edit(tier):
    for kind in KINDS:
        for b in range(len(BASES)):
            for i in range(len(OPS)):
                yield [kind, b, i, 3 if tier == "thorough" else 2]


class Model(object):
    def __init__(self, rr, rd, ex):
        self.rules = [[r, None] for r in rr]
        self.rd = set(rd)
        self.ex = set(ex)

    def inc(self):
        out = set([0]) | self.rd
        for r, cut in self.rules:
            out |= set([k for k in days(r) if cut is None or k < cut])
        return out


def apply_(ctx, kind, cal, ev, m, op, arg):
    ctx.step()
    if op == "exclude":
        ev.excludeRecurrence(dt(arg, kind))
        m.ex.add(arg)
    elif op == "look":
        expand(ev, kind, 0, arg)
    elif op == "until":
        ev.excludeFutureRecurrence(dt(arg, kind))
        for r in m.rules:
            r[1] = arg if r[1] is None else min(arg, r[1])
        m.rd = set([k for k in m.rd if k < arg])
    elif op == "replace":
        s = RecurrenceSet()
        if arg:
            s.addRule(ruleobj("FREQ=DAILY;COUNT=12", kind))
            s.subtractRule(ruleobj("FREQ=DAILY;INTERVAL=4;COUNT=3", kind))
            s.addDT(dt(15, kind))
            m.rules, m.rd, m.ex = [["FREQ=DAILY;COUNT=12", None]], set([15]), set([0, 4, 8])
        else:
            s.addRule(ruleobj("FREQ=WEEKLY;BYDAY=FR,TH;UNTIL=20", kind))
            s.subtractDT(dt(7, kind))
            s.addDT(dt(2, kind))
            s.addDT(dt(3, kind))
            m.rules, m.rd, m.ex = [["FREQ=WEEKLY;BYDAY=FR,TH;UNTIL=20", None]], set([2, 3]), set([7])
        ev.editRecurrenceSet(s)
    elif op == "addrdate":
        ev.addProperty(Property("RDATE", [dt(arg, kind), dt(arg + 8, kind)]))
        ev.finalise()
        m.rd |= set([arg, arg + 8])
    elif op == "addexdate":
        ev.addProperty(Property("EXDATE", dt(arg, kind)))
        ev.finalise()
        m.ex.add(arg)
    elif op == "unexclude":
        ev.removeProperties("EXDATE")
        ev.removeProperties("EXRULE")
        ev.finalise()
        m.ex = set()
    elif op == "copy":
        old = cal
        cal = cal.duplicate()
        ev = cal.getComponents("VEVENT")[0]
        # what happens to the original is nothing to the copy
        o = old.getComponents("VEVENT")[0]
        o.excludeRecurrence(dt(6, kind))
        for r in o.getRecurrenceSet().getRules():
            r.setInterval(6)
    elif op == "reread":
        cal, ev = event(cal.getText())
    elif op.startswith("rule-"):
        if m.rules and m.rules[0][1] is None and "UNTIL" not in m.rules[0][0]:
            r = ev.getRecurrenceSet().getRules()[0]
            parts = dict([p.split("=") for p in m.rules[0][0].split(";")])
            if op == "rule-interval":
                r.setInterval(arg)
                parts["INTERVAL"] = str(arg)
            else:
                r.setUseCount(True)
                r.setCount(arg)
                parts["COUNT"] = str(arg)
            ev.getRecurrenceSet().changed()
            m.rules[0][0] = "FREQ=%s" % parts.pop("FREQ") + "".join([";%s=%s" % p for p in sorted(parts.items())])
    return cal, ev


def check_edit(ctx, case):
    kind, b, first, depth = case
    rr, rd, ex = BASES[b]
    for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
        cal, ev = event(render(kind, (rr, rd, ex, [], []), "commas"))
        m = Model(rr, rd, ex)
        path = "%s %r" % (kind, BASES[b])
        for o in (first,) + rest:
            path += ", %s %d" % OPS[o]
            try:
                cal, ev = apply_(ctx, kind, cal, ev, m, *OPS[o])
            except Mismatch:
                raise
            except Exception as e:
                raise Mismatch("%s failed: %r" % (path, e))
        compare_edit(ctx, ev, kind, m, path)
        compare_edit(ctx, event(cal.getText())[1], kind, m, path + ", written and read")


def compare_edit(ctx, ev, kind, m, path):
    a, b = -5, 30
    want = sorted([k for k in m.inc() - m.ex if a <= k < b])
    if ev.getRecurrenceSet() is None:
        got = [0]
    else:
        got = listed(expand(ev, kind, a, b)[0], kind)
    if got != want:
        raise Mismatch("%s: %s, expected %s" % (path, got, want))
    ctx.see((kind, tuple(got)))


PARTS = [
    ("sets", gen, check, "5 kinds of start x 5 rule sets x 6 RDATE sets x 5 EXDATE sets x 3 EXRULE sets x 3 period sets x 6 windows, also in UTC (quick: half of them)"),
    ("edits", gen_edit, check_edit, "5 kinds x 4 sets x all sequences of 2 (thorough 3) of 17 edits and expansions, live and written out"),
]
