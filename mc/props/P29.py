# P29: an alarm triggers at the times its text says, each once, whenever it is asked, saved or edited in between.
from mcbase import Mismatch
import itertools
import time
import calcat as C
import refcal as R
import reftz
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar import definitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.timezone import Timezone

DAY = 86400
T0 = R.secs(2024, 3, 9, 10, 0, 0)              # the New York change of 10 March comes soon
NO = Calendar.NO_TIMEZONES
KINDS = ["zoned", "utc", "floating", "date"]
PENDING, COMPLETED = definitions.eAlarm_Status_Pending, definitions.eAlarm_Status_Completed


def inst(t, kind):
    """what a local time is on the clock of instants; a floating one is compared as it reads"""
    return t - reftz.NY.local(t) if kind == "zoned" else t


def add(t, kind, text):
    d = Duration.parseText(text)
    sign = 1 if d.getForward() else -1
    t += sign * (d.getWeeks() * 7 + d.getDays()) * DAY
    rest = d.getHours() * 3600 + d.getMinutes() * 60 + d.getSeconds()
    if rest:
        u = inst(t, kind) + sign * rest
        t = u + reftz.NY.utc(u) if kind == "zoned" else u
    return t


def line(name, t, kind):
    f = R.fields(t)
    if kind == "date":
        return "%s;VALUE=DATE:%s" % (name, R.dtext(f))
    return name + (";TZID=Test/NewYork:" if kind == "zoned" else ":") + R.text(f) + ("Z" if kind == "utc" else "")


def dt(t, kind):
    f = R.fields(t)
    return DateTime(*f[:3]) if kind == "date" else DateTime(*(list(f) + [{"floating": Timezone(utc=False), "utc": Timezone(utc=True), "zoned": Timezone(tzid="Test/NewYork")}[kind]]))


class Model(object):

    def __init__(self, type, kind, end, trigger, related, repeats, interval):
        self.type, self.kind, self.end = type, kind, end
        self.start = T0 - 36000 if kind == "date" else T0
        self.trigger, self.related, self.repeats, self.interval = trigger, related, repeats, interval
        self.last = None                        # (time, kind)
        self.completed = False

    def endtime(self):
        k = self.kind
        if self.end == "none":
            return self.start + (DAY if k == "date" else 0)
        return add(self.start, k, self.end)

    def spec(self):
        lines = ["UID:u", "DTSTAMP:20240101T000000Z", line("DTSTART", self.start, self.kind)]
        if self.end != "none":
            lines.append(line({"VEVENT": "DTEND", "VTODO": "DUE"}[self.type], self.endtime(), self.kind))
        a = ["ACTION:DISPLAY", "DESCRIPTION:d"]
        if self.trigger[0] == "@":
            a.append("TRIGGER;VALUE=DATE-TIME:%sZ" % R.text(R.fields(T0 + int(self.trigger[1:]))))
        else:
            a.append("TRIGGER%s:%s" % (";RELATED=" + self.related if self.related else "", self.trigger))
        if self.repeats:
            a += ["DURATION:" + self.interval, "REPEAT:%d" % self.repeats]
        return C.calendar([(self.type, lines, [("VALARM", a, [])])])

    def times(self):
        """[(time, instant)], kind"""
        if self.trigger[0] == "@":
            t, k = T0 + int(self.trigger[1:]), "utc"
        else:
            k = "floating" if self.kind == "date" else self.kind
            t = add(self.endtime() if self.related == "END" else self.start, k, self.trigger)
        out = []
        for n in range(self.repeats + 1):
            out.append((t, inst(t, k)))
            t = add(t, k, self.interval)
        return out, k

    def next(self, now):
        """(time, kind) of the next trigger, None if there is none"""
        if self.completed:
            return None
        times, k = self.times()
        n = 0
        while n < self.repeats and times[n + 1][1] <= now:
            n += 1
        if self.last == times[n][1] or now - times[n][1] > DAY:
            n += 1
        return None if n > self.repeats else (n, times[n][0], times[n][1], k)


def parts(cal):
    owner = [c for c in cal.getComponents() if c.getType() != "VTIMEZONE"][0]
    return owner, owner.getComponents()[0]


def ask(ctx, cal, want, what):
    owner, alarm = parts(cal)
    d = DateTime()
    alarm.getNextTrigger(d)
    ctx.step()
    status = alarm.getAlarmStatus()
    if status != (PENDING if want else COMPLETED):
        raise Mismatch("%s: status %r, expected %s" % (what, status, "pending" if want else "completed"))
    if want:
        w = dt(want[1], want[3])
        if d.getText() != w.getText() or d != w or d.getTimezoneID() != w.getTimezoneID():
            raise Mismatch("%s: next is %s %s, expected %s %s" % (what, d.getText(), d.getTimezoneID(), w.getText(), w.getTimezoneID()))
    return d


OPS = ["fire", "ring", "reload", "copy", "wait 1", "wait interval", "wait 90000", "repeats 0", "repeats 2", "by -PT1H", "by PT0S end", "on", "later", "finalise"]


def play(ctx, m, seq, now):
    clock = [now]
    real = time.time
    time.time = staticmethod(lambda: float(clock[0]))
    try:
        cal = Calendar.parseText(C.text(m.spec()))
        fired = []
        done = ["%r at %s" % (m.spec()[2][0], R.text(R.fields(now)))]
        for step, i in enumerate([None] + list(seq)):
            op = "read" if i is None else OPS[i]
            done.append(op)
            what = repr(done)
            owner, alarm = parts(cal)
            if op in ("fire", "ring"):
                n = m.next(clock[0])
                if n is None:
                    return
                clock[0] = max(clock[0], n[2])
                if op == "fire":
                    n = m.next(clock[0])
                    last = ask(ctx, cal, n, what)
                # else at the time given before, without another look
                d = last
                times, k = m.times()
                more = alarm.alarmTriggered(d)
                if more != (n[0] < m.repeats):
                    raise Mismatch("%s: says %r, after number %d of %d" % (what, more, n[0], m.repeats))
                want = times[n[0] + 1][0] if more else n[1]
                if d.getText() != dt(want, k).getText():
                    raise Mismatch("%s: gives %s as next, expected %s" % (what, d.getText(), dt(want, k).getText()))
                d.offsetDay(5)
                m.last = n[2]
                m.completed = not more
                got = [l for l in C.read(alarm.getText())[1] if l.startswith("X-MULBERRY")]
                expect = [line("X-MULBERRY-LAST-TRIGGER", n[1], n[3]), "X-MULBERRY-ALARM-STATUS:" + ("PENDING" if more else "COMPLETED")]
                if sorted(got) != sorted(expect):
                    raise Mismatch("%s: records %r, expected %r" % (what, got, expect))
                fired.append(n[2])
            elif op == "reload":
                cal = Calendar.parseText(cal.getText(NO))
            elif op == "copy":
                cal = cal.duplicate()
            elif op == "wait interval":
                clock[0] += Duration.parseText(m.interval).getTotalSeconds()
            elif op.startswith("wait"):
                clock[0] += int(op[5:])
            elif op.startswith("repeats"):
                m.repeats = int(op[8:])
                if not m.repeats:
                    m.interval = "PT5M"
                alarm.editRepeats(m.repeats, Duration.parseText(m.interval))
            elif op.startswith("by"):
                m.trigger = op.split()[1]
                m.related = "END" if op.endswith("end") else "START"
                alarm.editTriggerBy(Duration.parseText(m.trigger), m.related == "START")
            elif op == "on":
                m.trigger = "@7200"
                alarm.editTriggerOn(dt(T0 + 7200, "utc"))
            elif op == "later":
                m.start += DAY
                for l in m.spec()[2][0][1][2:]:
                    owner.removeProperties(C.pname(l))
                    owner.addProperty(Property.parseText(l))
                owner.finalise()
            elif op == "finalise":
                alarm.finalise()
            n = m.next(clock[0])
            last = ask(ctx, cal, n, what)
            if step == len(seq):
                ask(ctx, Calendar.parseText(cal.getText(NO)), n, what + " when read again")
            ctx.see([m.trigger, m.related, m.repeats, m.interval, m.start, clock[0], m.last, m.completed])
    finally:
        time.time = real


TRIGGERS = [("-PT15M", ""), ("PT0S", "START"), ("-P1D", ""), ("PT30M", "END"), ("PT16H", ""), ("P1D", "END"), ("@0", ""), ("@-90000", "")]
REPEATS = [(0, "PT5M"), (2, "PT5M"), (3, "P1D"), (1, "PT13H")]
OWNERS = [("VEVENT", "PT2H"), ("VEVENT", "none"), ("VTODO", "none"), ("VTODO", "P2D")]
NOWS = [-2 * DAY, 0, DAY + 3600]


def gen_times(tier):
    for type, end in OWNERS:
        for kind in KINDS:
            for t in range(len(TRIGGERS)):
                for r in range(len(REPEATS)):
                    yield [type, end, kind, t, r]


def model(case):
    type, end, kind, t, r = case
    if kind == "date" and end == "PT2H":
        end = "P1D"
    return Model(type, kind, end, TRIGGERS[t][0], TRIGGERS[t][1], REPEATS[r][0], REPEATS[r][1])


def check_times(ctx, case):
    tzdata.load(tzdata.NY)
    first = model(case).times()[0][0][1]
    last = model(case).times()[0][-1][1]
    nows = set([T0 - 2 * DAY])
    for x in (first, last):
        for d in (-DAY - 1, -1, 0, 1, 299, 300, 301, 13 * 3600, DAY - 1, DAY, DAY + 1, 3 * DAY) if ctx.thorough else (-1, 0, 300, DAY, DAY + 1):
            nows.add(x + d)
    for now in sorted(nows):
        play(ctx, model(case), [], now)
        # all of them, one after the other, saved in between or not
        for seq in (["fire"] * 4, ["ring"] * 4, ["ring", "fire"] * 2, ["ring", "reload"] * 3, ["fire", "reload"] * 4, ["reload", "fire", "copy"] * 3, ["fire", "wait 1"] * 3):
            play(ctx, model(case), [OPS.index(o) for o in seq], now)


def gen_history(tier):
    for o in range(len(OWNERS)):
        for k, kind in enumerate(KINDS):
            for t in range(len(TRIGGERS)):
                for r in range(len(REPEATS)):
                    if tier == "quick" and (o + 3 * k + 5 * t + 2 * r) % 23 != 4:
                        continue
                    for a in range(len(OPS)):
                        yield list(OWNERS[o]) + [kind, t, r, a]


def check_history(ctx, case):
    tzdata.load(tzdata.NY)
    for seq in itertools.product(range(len(OPS)), repeat=2):
        for now in NOWS if ctx.thorough else NOWS[1:]:
            play(ctx, model(case[:5]), (case[5],) + seq, T0 + now)


PARTS = [
    ("times", gen_times, check_times, "4 owners x 4 kinds of time x 8 triggers x 4 repeats x up to 11 (25) current times, all fired in turn, saved or copied in between"),
    ("history", gen_history, check_history, "the same (a 23rd when quick) x all sequences of 3 of %d operations from 2 (3) current times" % len(OPS)),
]
