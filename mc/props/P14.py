# P14: the events shown for a period are the master's instances, each replaced by the component that overrides it.
from mcbase import Mismatch
import itertools
import refcal as R
import refrule
import reftz
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.icalendar.calendar import Calendar

tzdata.load(tzdata.NY)
DAY = 86400
M0 = R.secs(2024, 3, 7)
T0 = R.secs(2024, 3, 7, 10, 0, 0)              # the New York change of 10 March is among the instances
KINDS = ["floating", "utc", "zoned", "date"]
ENDS = ["DTEND", "DURATION", "none"]
RULES = ["", "RRULE:FREQ=DAILY;COUNT=6", "RRULE:FREQ=DAILY;INTERVAL=2", "RDATE:2,5"]
WINDOWS = [(-5, 12), (0, 4), (2, 3), (3, 6), (-3, 0), (4, 9)]
# (recurrence-id day, days moved, hours moved, length, RANGE)
OVERRIDES = [
    (2, 0, 0, 2, ""), (2, 3, 0, 1, ""), (2, 0, 5, 3, ""), (0, 0, -2, 1, ""), (4, -2, 0, 1, ""), (4, 0, 1, 50, ""), (9, 1, 0, 1, ""),
    (2, 0, 3, 2, "THISANDFUTURE"), (4, 0, -1, 3, "THISANDFUTURE"), (0, 0, 2, 1, "THISANDFUTURE"), (2, 0, 4, 4, "THISANDPRIOR"),
]


def zone(kind):
    return {"floating": None, "date": None, "utc": Timezone(utc=True), "zoned": Timezone(tzid="Test/NewYork")}[kind]


def dt(t, kind):
    f = R.fields(t)
    return DateTime(*f[:3]) if kind == "date" else DateTime(*(list(f) + [zone(kind)]))


def inst(t, kind):
    """seconds on the clock of instants for a local time"""
    return t - reftz.NY.local(t) if kind == "zoned" else t


def loc(u, kind):
    return u + reftz.NY.utc(u) if kind == "zoned" else u


def prop(name, t, kind, form="", extra=""):
    f = R.fields(t)
    if kind == "date":
        return "%s;VALUE=DATE%s:%s" % (name, extra, R.dtext(f))
    if kind == "utc" or (kind == "zoned" and form == "utc"):
        return "%s%s:%sZ" % (name, extra, R.text(R.fields(inst(t, kind))))
    return "%s%s%s:%s" % (name, ";TZID=Test/NewYork" if kind == "zoned" else "", extra, R.text(f))


def length(n, kind, end):
    if end == "none":
        return DAY if kind == "date" else 0
    return n * (DAY if kind == "date" else 3600)


def finish(s, n, kind, end):
    """the local time at which what starts at local time s ends"""
    if end == "DAYS":
        return s + n * DAY
    return loc(inst(s, kind) + length(n, kind, end), kind)


def ending(t, n, kind, end):
    if end == "none":
        return []
    if end == "DURATION":
        return ["DURATION:P%dD" % n if kind == "date" else "DURATION:PT%dH" % n]
    if end == "DAYS":
        return ["DURATION:P%dD" % n]
    return [prop("DTEND", finish(t, n, kind, end), kind)]


class Master(object):

    def __init__(self, uid, kind, end, rule, ex, ovr, start=0, n=1, shift=0):
        self.n, self.shift = n, shift
        self.uid, self.kind, self.end, self.rule, self.ex, self.ovr, self.start = uid, kind, end, rule, ex, list(ovr), start

    def day(self, k):
        return (T0 if self.kind != "date" else T0 - 36000) + (self.start + k) * DAY + self.shift

    def days(self, last=30):
        if not self.rule:
            return [0]
        name, v = self.rule.split(":")
        if name == "RDATE":
            return [0] + [int(x) for x in v.split(",")]
        return [(t - T0) // DAY for t in refrule.expand(v, R.fields(T0), T0 + last * DAY)]

    def moved(self, k, o):
        return self.day(k) + o[1] * DAY + (o[2] * 3600 if self.kind != "date" else 0)

    def bodies(self, form):
        out = []
        head = ["UID:" + self.uid, "DTSTAMP:20240101T000000Z"]
        m = head + [prop("DTSTART", self.day(0), self.kind), "SUMMARY:" + self.uid + "/master"] + ending(self.day(0), self.n, self.kind, self.end)
        if self.rule.startswith("RDATE"):
            for k in self.days()[1:]:
                m.append(prop("RDATE", self.day(k), self.kind))
        elif self.rule:
            m.append(self.rule)
        for k in self.ex:
            m.append(prop("EXDATE", self.day(k), self.kind))
        out.append(m)
        for i, o in enumerate(self.ovr):
            s = self.moved(o[0], o)
            rid = prop("RECURRENCE-ID", self.day(o[0]), self.kind, form, ";RANGE=" + o[4] if o[4] else "")
            # an override written with the recurrence of its master is still one instance
            rules = [l for l in m if l.split(":")[0].split(";")[0] in ("RRULE", "RDATE", "EXDATE")] if form == "rules" else []
            out.append(head + [rid, prop("DTSTART", s, self.kind), "SUMMARY:%s/%d" % (self.uid, i)] + ending(s, o[3], self.kind, self.end) + rules)
        return ["BEGIN:VEVENT\r\n" + "".join([x + "\r\n" for x in b]) + "END:VEVENT\r\n" for b in out]

    def expected(self, a, b):
        """(start, end, summary, recurring) overlapping the window of local times, or starting in it"""
        out = []

        def one(s, n, name, rec):
            e = finish(s, n, self.kind, self.end)
            if s < b and (e > a or s >= a):
                out.append((s, e, self.uid + "/" + name, rec))
        ids = [o[0] for o in self.ovr]
        for k in self.days():
            if k in self.ex and self.rule:
                continue
            if k in ids and self.rule:
                continue
            if not self.rule:
                one(self.day(k), self.n, "master", False)
                continue
            best = None
            for i, o in enumerate(self.ovr):
                if o[4] == "THISANDPRIOR" and k < o[0]:
                    best = i
            fut = [(o[0], i) for i, o in enumerate(self.ovr) if o[4] == "THISANDFUTURE" and o[0] < k]
            if fut:
                best = max(fut)[1]
            if best is None:
                one(self.day(k), self.n, "master", True)
            else:
                o = self.ovr[best]
                one(self.moved(k, o), o[3], str(best), True)
        for i, o in enumerate(self.ovr):
            one(self.moved(o[0], o), o[3], str(i), True)
        return out


def show(l, kind):
    f = lambda t: (R.dtext if kind == "date" else R.text)(R.fields(t))
    return "; ".join(["%s-%s %s%s" % (f(s), f(e), n, "" if r else " (single)") for s, e, n, r in l])


def shown(cal, a, b, kind, top=True):
    items = []
    cal.getVEvents(Period(start=dt(a, kind), end=dt(b, kind)), items, top)
    out = []
    for i in items:
        v = []
        for d in (i.getInstanceStart(), i.getInstanceEnd()):
            if d.isDateOnly() != (kind == "date"):
                raise Mismatch("instance of another type: " + d.getText())
            s = R.secs(d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds())
            if kind == "zoned" and d.getTimezoneUTC():
                s += reftz.NY.utc(s)
            v.append(s)
        out.append((v[0], v[1], i.getOwner().getSummary(), bool(i.recurring())))
    return out, items


def look(ctx, cal, masters, what, damage=True, windows=WINDOWS):
    kind = masters[0].kind
    for a, b in windows:
        wa, wb = M0 + a * DAY, M0 + b * DAY
        want = []
        for m in masters:
            want += m.expected(wa, wb)
        got, items = shown(cal, wa, wb, kind)
        ctx.step()
        if sorted(got) != sorted(want):
            raise Mismatch("%s, days %d to %d: %s, expected %s" % (what, a, b, show(sorted(got), kind), show(sorted(want), kind)))
        if [x[0] for x in got] != sorted([x[0] for x in got]):
            raise Mismatch("%s, days %d to %d: out of order: %s" % (what, a, b, show(got, kind)))
        ctx.see((kind, tuple(got)))
        if damage:
            for i in items:
                i.getInstanceStart().offsetDay(1)
                i.getInstanceEnd().setYear(1999)


def ok(ovr):
    if len(set([o[0] for o in ovr])) < len(ovr):
        return False
    return len([o for o in ovr if o[4] == "THISANDPRIOR"]) == 0 or len([o for o in ovr if o[4]]) == 1


def gen(tier):
    sets = [()] + [(o,) for o in OVERRIDES]
    sets += [p for p in itertools.permutations(OVERRIDES, 2) if ok(p)]
    n = 0
    for kind in KINDS:
        for end in ENDS:
            for rule in RULES:
                for ex in ([], [2], [0, 4]):
                    if not rule and ex:
                        continue
                    for i, s in enumerate(sets):
                        if end == "none" and [o for o in s if o[3] > 3]:
                            continue
                        n += 1
                        if tier == "quick" and len(s) > 1 and n % 4:
                            continue
                        yield (kind, end, rule, ex, s)


def check(ctx, case):
    kind, end, rule, ex, ovr = case
    m = Master("A", kind, end, rule, ex, ovr)
    forms = ["same"] + (["utc"] if kind == "zoned" and ovr else []) + (["rules"] if ovr and rule else [])
    for form in forms:
        b = m.bodies(form)
        for order in ([b] if not ovr else [b, b[1:] + b[:1]]):
            cal = Calendar.parseText(tzdata.calendar(tzdata.NY, *order))
            look(ctx, cal, [m], "%s %s" % (form, "" if order is b else "master last"))
            look(ctx, cal.duplicate(), [m], "copy", False)
            look(ctx, cal, [m], "after the copy", False)


# --- instances that last, or are moved, over a daylight change
MOVES = [(), (2, 3, 0, 2, "THISANDFUTURE"), (2, 0, 0, 60, "THISANDFUTURE"), (1, 2, 5, 60, "THISANDFUTURE"), (2, 0, 0, 40, ""), (5, -4, -3, 2, "THISANDPRIOR"), (4, -3, 0, 30, "THISANDFUTURE")]


def gen_dst(tier):
    for kind in ("zoned", "utc", "floating"):
        for end in ("DTEND", "DURATION", "DAYS"):
            for n in (1, 4, 24, 50, 100):
                for shift in (0, 13, -4):
                    for i in range(len(MOVES)):
                        yield (kind, end, n, shift, i)


def check_dst(ctx, case):
    kind, end, n, shift, i = case
    for rule in RULES:
        if i and not rule:
            continue
        m = Master("A", kind, end, rule, [], [MOVES[i]] if i else [], 0, n / 24 + 1 if end == "DAYS" else n, shift * 3600)
        for form in ["same"] + (["utc"] if kind == "zoned" and i else []):
            for b in (m.bodies(form), list(reversed(m.bodies(form)))):
                look(ctx, Calendar.parseText(tzdata.calendar(tzdata.NY, *b)), [m], "%r %s" % (case, form))


# --- windows that begin or end where instances do
def gen_edges(tier):
    n = 0
    for kind in KINDS:
        for end in ("none", "DTEND", "DURATION", "DAYS"):
            for length in ((1,) if end == "none" else (1, 2, 4) if kind == "date" else (1, 14, 24, 50)):
                for shift in (0,) if kind == "date" else (0, 13, -10):
                    for r in range(len(RULES)):
                        for i in range(len(MOVES)):
                            n += 1
                            if not (i and not RULES[r]) and (tier != "quick" or i < 3 or n % 2):
                                yield (kind, end, length, shift, r, i)


def check_edges(ctx, case):
    kind, end, n, shift, r, i = case
    unit = DAY if kind == "date" else 1800
    m = Master("A", kind, end, RULES[r], [], [MOVES[i]] if i else [], 0, n / 24 + 1 if end == "DAYS" and kind != "date" else n, shift * 3600)
    cal = Calendar.parseText(tzdata.calendar(tzdata.NY, *m.bodies("same")))
    windows = set()
    for s, e, _name, _rec in m.expected(M0 - 40 * DAY, M0 + 60 * DAY)[:9]:
        windows |= set([(s, s + unit), (s - unit, s), (e - unit, e), (e, e + unit), (e - unit, e + unit), (s, e + unit)])
        if kind != "date":
            windows |= set([(s - 1, s + 1), (e - 1, e + 1)])
    for wa, wb in sorted(windows):
        if wa >= wb or wb > M0 + 25 * DAY or loc(inst(wa, kind), kind) != wa or loc(inst(wb, kind), kind) != wb:
            continue
        got, _items = shown(cal, wa, wb, kind)
        want = m.expected(wa, wb)
        ctx.step()
        if sorted(got) != sorted(want):
            raise Mismatch("%r, from %s to %s: %s, expected %s" % (case, dt(wa, kind).getText(), dt(wb, kind).getText(), show(sorted(got), kind), show(sorted(want), kind)))
        ctx.see((kind, tuple(got)))


# --- several events: order, and overrides apply to their own UID only
def gen_mix(tier):
    for kind in KINDS:
        for r1, r2 in itertools.product(RULES[1:3], RULES):
            for o1 in ((), OVERRIDES[:1], OVERRIDES[7:8]):
                for o2 in ((), OVERRIDES[:1], OVERRIDES[2:3]):
                    yield (kind, r1, r2, o1, o2)


def check_mix(ctx, case):
    kind, r1, r2, o1, o2 = case
    a = Master("A", kind, "DTEND", r1, [], o1)
    b = Master("B", kind, "DURATION", r2, [], o2, 1)
    # C has only an override, whose master is not in the calendar
    c = Master("C", kind, "DTEND", RULES[1], [], OVERRIDES[:1])
    bs = a.bodies("same") + b.bodies("same")
    orphan = c.bodies("same")[1]
    for k in range(len(bs) + 1):
        rot = bs[k:] + bs[:k] + [orphan]
        cal = Calendar.parseText(tzdata.calendar(tzdata.NY, *rot))

        class Orphan(Master):
            def days(self, last=30):
                return []
        c2 = Orphan("C", kind, "DTEND", RULES[1], [], OVERRIDES[:1])
        look(ctx, cal, [a, b, c2], "two events")


# --- order of the list
def gen_order(tier):
    evs = [("d", 0, 1), ("d", 1, 1), ("d", 0, 3), ("t", 0, 1), ("t", 0, 4), ("t", 26, 1), ("t", -20, 2), ("s", 0, 1)]
    for p in itertools.permutations(evs, 4 if tier == "quick" else 5):
        yield p


def check_order(ctx, case):
    bodies = []
    for i, (k, at, n) in enumerate(case):
        stamp = "2024010%dT000000Z" % (9 - at % 3 - (1 if k == "s" else 0))
        if k == "d":
            s, e = prop("DTSTART", T0 + at * DAY, "date"), "DURATION:P%dD" % n
        else:
            s, e = prop("DTSTART", T0 + at * 3600, "floating"), "DURATION:PT%dH" % n
        bodies.append("BEGIN:VEVENT\r\nUID:%d\r\nDTSTAMP:%s\r\n%s\r\n%s\r\nSUMMARY:%d\r\nEND:VEVENT\r\n" % (i, stamp, s, e, i))
    cal = Calendar.parseText(tzdata.calendar(*bodies))
    for top in (True, False):
        items = []
        cal.getVEvents(Period(start=dt(M0 - 5 * DAY, "floating"), end=dt(M0 + 9 * DAY, "floating")), items, top)
        ctx.step()
        got = [int(i.getOwner().getSummary()) for i in items]
        if sorted(got) != list(range(len(case))):
            raise Mismatch("events shown: %s of %d" % (got, len(case)))

        def rank(i):
            k, at, n = case[i]
            if top:
                # all day first; then by start; longer first; then older
                if k == "d":
                    return (0, at, 0, 0)
                return (1, at, -n, 0 if k == "s" else 1)
            d = at if k == "d" else (10 + at) // 24
            return (d, -1 if k == "d" else (10 + at) % 24)
        r = [rank(i) for i in got]
        if r != sorted(r):
            raise Mismatch("%s order: %s" % ("all-day-first" if top else "start", [case[i] for i in got]))
        ctx.see((top, tuple([case[i] for i in got])))


# --- histories: overrides added, removed and edited between questions
HOPS = ["show", "add2", "add4f", "remove2", "removemaster", "addmaster", "rename", "edit2", "exclude3", "dup"]


def gen_hist(tier):
    for kind in KINDS if tier != "quick" else ["zoned", "date"]:
        for seq in itertools.product(range(len(HOPS)), repeat=3 if tier == "quick" else 4):
            yield (kind, seq)


def check_hist(ctx, case):
    kind, seq = case
    full = Master("A", kind, "DTEND", RULES[1], [], [(2, 0, 1, 2, ""), (4, 0, 2, 3, "THISANDFUTURE")])
    src = Calendar.parseText(tzdata.calendar(tzdata.NY, *full.bodies("same")))
    comps = src.getComponents("VEVENT")
    cal = Calendar.parseText(tzdata.calendar(tzdata.NY, full.bodies("same")[0]))
    have = {"m": cal.getComponents("VEVENT")[0]}
    model = Master("A", kind, "DTEND", RULES[1], [], [])
    edited = False
    uid = "A"

    class View(Master):
        def days(self, last=30):
            return Master.days(self, last) if self.master else []
    for op in [HOPS[o] for o in seq] + ["show"]:
        if op in ("add2", "add4f") and op not in have:
            c = comps[1 if op == "add2" else 2].duplicate(cal)
            c.setUID(uid)
            cal.addComponent(c)
            have[op] = c
        elif op == "remove2" and "add2" in have:
            cal.removeComponent(have.pop("add2"))
            edited = False
        elif op == "removemaster" and "m" in have:
            cal.removeComponent(have.pop("m"))
        elif op == "addmaster" and "m" not in have:
            c = comps[0].duplicate(cal)
            c.setUID(uid)
            cal.addComponent(c)
            have["m"] = c
            model.ex = []
        elif op == "rename":
            new = "B" if uid == "A" else "A"
            cal.changeUID(uid, new)
            uid = new
            if [c.getUID() for c in cal.getComponents("VEVENT")] != [uid] * len(have):
                raise Mismatch("changeUID left %s" % [c.getUID() for c in cal.getComponents("VEVENT")])
        elif op == "edit2" and "add2" in have:
            s = model.day(2) + (0 if kind == "date" else 7200)
            have["add2"].editTimingStartEnd(dt(s, kind), dt(s + (2 * DAY if kind == "date" else 7200), kind))
            edited = True
        elif op == "exclude3" and "m" in have and 3 not in model.ex:
            have["m"].excludeRecurrence(dt(model.day(3), kind))
            model.ex = model.ex + [3]
        elif op == "dup":
            old = cal
            cal = cal.duplicate()
            now = cal.getComponents("VEVENT")
            for k in list(have):
                have[k] = now[old.getComponents("VEVENT").index(have[k])]
            for c in list(old.getComponents("VEVENT")):
                old.removeComponent(c)
        v = View("A", kind, "DTEND", RULES[1], model.ex, [])
        v.master = "m" in have
        names = {}
        for key, o in (("add2", (2, 0, 2 if edited else 1, 2, "")), ("add4f", (4, 0, 2, 3, "THISANDFUTURE"))):
            if key in have:
                names["A/%d" % len(v.ovr)] = "A/%d" % (0 if key == "add2" else 1)
                v.ovr.append(o)
        for a, b in WINDOWS[:4]:
            wa, wb = M0 + a * DAY, M0 + b * DAY
            want = [(s, e, names.get(n, n), r) for s, e, n, r in v.expected(wa, wb)]
            got, _ = shown(cal, wa, wb, kind)
            ctx.step()
            if sorted(got) != sorted(want):
                raise Mismatch("after %s, days %d to %d: %s, expected %s" % (
                    [HOPS[o] for o in seq], a, b, show(sorted(got), kind), show(sorted(want), kind)))
        ctx.see((kind, tuple(sorted(have)), edited, tuple(model.ex), uid))


# --- what is going on now
NOWS = [(-3600, 3600), (-7200, -3600), (3600, 7200), (-86400 * 3, 86400 * 3), (-3600, -3600)]


def gen_now(tier):
    for i in range(len(NOWS)):
        for kind in ("utc", "zoned", "floating", "date"):
            for rule in ("", "RRULE:FREQ=DAILY;COUNT=3", "RRULE:FREQ=YEARLY;COUNT=2"):
                for over in (False, True):
                    yield (i, kind, rule, over)


def check_now(ctx, case):
    i, kind, rule, over = case
    a, b = NOWS[i]
    tzdata.load(tzdata.NY)
    utc = DateTime.getNowUTC()
    at = []
    for s in (a, b):
        d = utc.duplicate()
        d.offsetSeconds(s)
        if kind == "zoned":
            d.adjustTimezone(Timezone(tzid="Test/NewYork"))
        elif kind == "floating":
            d.setTimezone(Timezone(utc=False))
        elif kind == "date":
            d.setDateOnly(True)
        at.append(d)
    if kind == "date" and at[0] == at[1]:
        at[1].offsetDay(1)
    line = lambda n, d: n + (";TZID=%s:" % "Test/NewYork" if kind == "zoned" else ";VALUE=DATE:" if kind == "date" else ":") + d.getText() + "\r\n"
    text = "BEGIN:VEVENT\r\nUID:a\r\nDTSTAMP:20240101T000000Z\r\nSUMMARY:m\r\n" + line("DTSTART", at[0]) + line("DTEND", at[1]) + (rule + "\r\n" if rule else "") + "END:VEVENT\r\n"
    if over and rule:
        text += "BEGIN:VEVENT\r\nUID:a\r\nDTSTAMP:20240101T000000Z\r\nSUMMARY:o\r\n" + line("RECURRENCE-ID", at[0]) + line("DTSTART", at[0]) + line("DTEND", at[1]) + "END:VEVENT\r\n"
    cal = Calendar.parseText("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + tzdata.NY + text + "END:VCALENDAR\r\n")
    far = [at[0].duplicate(), at[1].duplicate()]
    far[0].offsetDay(-1)
    far[1].offsetYear(3)
    items = []
    cal.getVEvents(Period(far[0], far[1]), items)
    ctx.step()
    n = 1 if not rule else int(rule[-1])
    if len(items) != n:
        raise Mismatch("%r: %d instances of %d, from %r" % (case, len(items), n, text))
    master = cal.masterComponent()
    for k, it in enumerate(items):
        if kind == "date":
            continue_now = it.getInstanceStart() <= DateTime.getNowUTC() and it.getInstanceEnd() > DateTime.getNowUTC()
        elif kind == "floating":
            continue_now = None     # is settled by the default timezone, see P36
        else:
            continue_now = (it.getInstanceStart() - utc).getTotalSeconds() <= 0 < (it.getInstanceEnd() - utc).getTotalSeconds()
        if continue_now is not None and bool(it.isNow()) != continue_now:
            raise Mismatch("%r: instance %s to %s is now: %r" % (case, it.getInstanceStart(), it.getInstanceEnd(), it.isNow()))
        if it.getMaster() is not it.getOwner() or not it.getOwner().isRecurrenceInstance() and (it.getTrueMaster() is not master or it.getOwner() is not master):
            raise Mismatch("%r: the master is %r" % (case, it.getTrueMaster().getSummary()))
        if it.getOwner().getSummary() != ("o" if over and rule and k == 0 else "m"):
            raise Mismatch("%r: instance %d is that of %r" % (case, k, it.getOwner().getSummary()))
        c = it.duplicate()
        was = (it.getInstanceStart().getText(), it.getInstanceEnd().getText(), it.recurring(), it.getOwner())
        if (c.getInstanceStart().getText(), c.getInstanceEnd().getText(), c.recurring(), c.getOwner()) != was or bool(c.isNow()) != bool(it.isNow()):
            raise Mismatch("%r: the copy of an instance is %s to %s" % (case, c.getInstanceStart(), c.getInstanceEnd()))
        c.getInstanceStart().offsetDay(1)
        c.getInstanceEnd().offsetDay(2)
        c.close()
        if (it.getInstanceStart().getText(), it.getInstanceEnd().getText(), it.recurring(), it.getOwner()) != was or master.getStart().getText() != at[0].getText() or master.getEnd().getText() != at[1].getText():
            raise Mismatch("%r: changing the copy of an instance changes it" % (case,))
        ctx.see((kind, rule, bool(it.isNow())))


PARTS = [
    ("instances", gen, check, "4 kinds of start x 3 ways of giving the end x 4 rules x 3 exclusions x up to two of 11 overrides, both orders, 6 windows"),
    ("events", gen_mix, check_mix, "two events and an orphan override, every rotation"),
    ("order", gen_order, check_order, "all arrangements of 4 (5 thorough) of 8 events, both orders of listing"),
    ("histories", gen_hist, check_hist, "all sequences of three (four thorough) of 10 edits of the calendar"),
    ("daylight", gen_dst, check_dst, "3 kinds of time x 3 kinds of end x 5 lengths x 3 times of day x %d overrides, over the change of 10 March"  % len(MOVES)),
    ("edges", gen_edges, check_edges, "4 kinds of time x 4 kinds of end x up to 4 lengths x 3 times of day x 4 rules x an override or not, windows that begin or end at or beside the start or end of an instance"),
    ("now", gen_now, check_now, "5 places around now x 4 kinds of time x 3 rules x an override or not: what goes on now, copies of instances and their masters"),
]
