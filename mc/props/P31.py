# P31: to-dos are listed, ordered and described by their status, due date, completion and priority.
from mcbase import Mismatch
import itertools
import time
import calcat as C
import refcal as R
from pycalendar.datetime import DateTime
from pycalendar.icalendar import definitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.componentexpanded import ComponentExpanded
from pycalendar.icalendar.vtodo import VToDo
from pycalendar.timezone import Timezone

H, DAY = 3600, 86400
DAY0 = R.secs(2024, 2, 28, 0, 0, 0)            # a leap day and the end of a month come soon
NO = Calendar.NO_TIMEZONES
NUMBERS = {"": 1, "NEEDS-ACTION": 1, "needs-action": 1, "IN-PROCESS": 2, "COMPLETED": 3, "Completed": 3, "CANCELLED": 4}


class Clock(object):

    def __init__(self, now):
        self.now = now

    def __enter__(self):
        self.real = time.time
        time.time = staticmethod(lambda: float(self.now))

    def __exit__(self, *args):
        time.time = self.real


def when(name, t, kind):
    f = R.fields(t)
    return "%s;VALUE=DATE:%s" % (name, R.dtext(f)) if kind == "date" else "%s:%s%s" % (name, R.text(f), "Z" if kind == "utc" else "")


def spec(uid, todo):
    """todo: status, due (kind, time) or None, completed time or None, priority, start (kind, time) or None"""
    status, due, completed, priority, start = todo
    lines = ["UID:" + uid, "DTSTAMP:20240101T000000Z"]
    if start:
        lines.append(when("DTSTART", start[1], start[0]))
    if due:
        if len(due) == 3:
            n = due[1] - start[1]
            lines.append("DURATION:P%dD" % (n / DAY) if start[0] == "date" else "DURATION:PT%dH" % (n / H))
        else:
            lines.append(when("DUE", due[1], due[0]))
    if completed is not None:
        lines.append(when("COMPLETED", completed, "utc"))
    if status:
        lines.append("STATUS:" + status)
    if priority:
        lines.append("PRIORITY:%d" % priority)
    return ("VTODO", lines, [])


def day(t):
    return t // DAY


def model_state(todo, now):
    n = NUMBERS[todo[0]]
    if n > 2:
        return VToDo.DONE if n == 3 else VToDo.CANCELLED
    if not todo[1] or day(todo[1][1]) == day(now):
        return VToDo.DUE_NOW
    return VToDo.DUE_LATER if day(todo[1][1]) > day(now) else VToDo.OVERDUE


def locale(t):
    f = R.fields(t)
    return "%d/%d/%d" % (f[1], f[2], f[0])


def model_text(todo, now):
    n = NUMBERS[todo[0]]
    if n == 4:
        return "Cancelled"
    if n == 3:
        return "Completed" if todo[2] is None else "Completed: " + locale(todo[2])
    if not todo[1]:
        return "Not Completed"
    days = day(todo[1][1]) - day(now)
    if days == 0:
        return "Due today"
    if days > 0:
        return "Due: %d days" % days if days <= 7 else "Due: " + locale(todo[1][1])
    return "Overdue: %d weeks" % (-days / 7) if days % 7 == 0 else "Overdue: %d days" % -days


def model_listed(todo, now, only_due, upto):
    n = NUMBERS[todo[0]]
    if only_due and (n == 4 or n == 3 and (todo[2] is None or todo[2] < now - DAY)):
        return False
    if upto is not None:
        due = todo[1]
        if not due:
            return day(now) <= day(upto[1])
        if "date" in (due[0], upto[0]):
            return day(due[1]) <= day(upto[1])
        return due[1] <= upto[1]
    return True


def model_order(a, b, now):
    """-1, 0, 1 or None where it is not said"""
    na, nb = NUMBERS[a[0]], NUMBERS[b[0]]
    if na != nb:
        return cmp(na, nb)
    if na == 3:
        if a[2] is None or b[2] is None:
            return None
        return cmp(b[2], a[2])
    starts = None if not a[4] or not b[4] else order(a[4], b[4])
    if na == 4:
        return None if starts is None else -starts
    if bool(a[1]) != bool(b[1]):
        if a[1]:
            return -1 if day(a[1][1]) <= day(now) else 1
        return 1 if day(b[1][1]) <= day(now) else -1
    if a[1] and order(a[1], b[1]):
        return order(a[1], b[1])
    if a[3] != b[3]:
        return cmp(a[3], b[3]) if a[3] and b[3] else None
    return starts


def order(x, y):
    return cmp(day(x[1]), day(y[1])) if "date" in (x[0], y[0]) else cmp(x[1], y[1])


STARTS = [None, ("utc", DAY0 - 20 * DAY), ("date", DAY0 - 21 * DAY)]


def todos(now, dues):
    for status in sorted(NUMBERS):
        for due in dues:
            for completed in (None, now - DAY - 1, now - DAY, now - 60) if NUMBERS[status] == 3 else (None,):
                for priority in (0, 1, 5):
                    for start in STARTS:
                        if due and len(due) == 3:
                            if not start or priority or due[1] - start[1] < DAY:
                                continue
                            if start[0] == "date":
                                yield status, ("date", day(due[1]) * DAY, "duration"), completed, priority, start
                                continue
                        yield status, due, completed, priority, start


OFFSETS = [-40, -15, -14, -8, -7, -6, -1, 0, 1, 2, 6, 7, 8, 14, 366]


def dues(tier):
    yield None
    for n in OFFSETS:
        yield ("date", DAY0 + n * DAY)
        for h in (0, 10, 23):
            yield ("utc", DAY0 + n * DAY + h * H)
        yield ("floating", DAY0 + n * DAY + 12 * H)
        yield ("utc", DAY0 + n * DAY + 11 * H, "duration")


def make(todos):
    return Calendar.parseText(C.text(C.calendar([spec("u%d" % n, t) for n, t in enumerate(todos)])))


def gen_status(tier):
    for d in dues(tier):
        for status in sorted(NUMBERS):
            yield [d, status]


def check_status(ctx, case):
    for hours in (0, 1, 10, 11, 23) if ctx.thorough else (0, 10, 23):
        now = DAY0 + hours * H + 17
        with Clock(now):
            for todo in todos(now, [tuple(case[0]) if case[0] else None]):
                if todo[0] != case[1]:
                    continue
                cal = make([todo])
                for c in (cal, cal.duplicate(), Calendar.parseText(cal.getText(NO))):
                    v = c.getComponents()[0]
                    ctx.step()
                    got = (v.getCompletionState(), v.getStatusText())
                    want = (model_state(todo, now), model_text(todo, now))
                    if got != want:
                        raise Mismatch("%r at %s: %r, expected %r" % (todo, R.text(R.fields(now)), got, want))
                    ctx.see(list(got))
                for upto in (None, ("date", DAY0), ("utc", DAY0 + 10 * H), ("utc", now), ("date", DAY0 - DAY), ("date", DAY0 + 7 * DAY), ("utc", DAY0 + 366 * DAY + 12 * H), ("utc", DAY0 - 30 * DAY)):
                    for only_due in (False, True):
                        found = []
                        d = DateTime()
                        if upto:
                            f = list(R.fields(upto[1]))
                            d = DateTime(*f[:3]) if upto[0] == "date" else DateTime(*(f + [Timezone(utc=True)]))
                        cal.getVToDos(only_due, upto is None, d, found)
                        ctx.step()
                        want = model_listed(todo, now, only_due, upto)
                        if [x.getOwner().getUID() for x in found] != ["u0"] * want:
                            raise Mismatch("%r at %s, only due %r, up to %r: listed %r, expected %r" % (todo, R.text(R.fields(now)), only_due, upto, len(found), want))


# Sorting
def catalogue(now):
    few = [None, ("date", DAY0), ("date", DAY0 + DAY), ("date", DAY0 - DAY), ("utc", DAY0 - DAY + 5 * H), ("utc", DAY0 - DAY + 6 * H), ("utc", DAY0 + 3 * DAY), ("utc", DAY0 + 9 * H), ("utc", DAY0 + 9 * H, "duration")]
    return list(todos(now, few))


NOW = DAY0 + 10 * H
COUNT = len(catalogue(NOW))


def sign(n):
    return cmp(n, 0)


def gen_pairs(tier):
    for n in range(COUNT):
        yield [n]


def check_pairs(ctx, case):
    with Clock(NOW):
        items = catalogue(NOW)
        cal = make(items)
        comps = dict([(c.getUID(), ComponentExpanded(c, None)) for c in cal.getComponents()])
        a = comps["u%d" % case[0]]
        for n in range(COUNT):
            b = comps["u%d" % n]
            got, back = sign(VToDo.sort_for_display(a, b)), sign(VToDo.sort_for_display(b, a))
            ctx.step()
            want = model_order(items[case[0]], items[n], NOW)
            if got != -back:
                raise Mismatch("%r and %r: %d one way, %d the other" % (items[case[0]], items[n], got, back))
            if want is not None and got != want:
                raise Mismatch("%r and %r: %d, expected %d" % (items[case[0]], items[n], got, want))
            ctx.see([case[0], n, got])


SOME = [
    ("", None, None, 5, STARTS[1]), ("NEEDS-ACTION", None, None, 1, STARTS[1]), ("IN-PROCESS", ("date", DAY0 - DAY), None, 1, None),
    ("", ("utc", DAY0 + 3 * DAY), None, 9, None), ("NEEDS-ACTION", ("utc", DAY0 + 3 * DAY), None, 1, None), ("", ("date", DAY0), None, 5, STARTS[2]),
    ("COMPLETED", None, NOW - 60, 5, None), ("Completed", ("date", DAY0), NOW - 2 * DAY, 1, None), ("CANCELLED", None, None, 1, STARTS[1]), ("CANCELLED", None, None, 1, STARTS[2]),
]


def gen_lists(tier):
    for c in itertools.permutations(range(len(SOME)), 3 if tier == "quick" else 4):
        yield list(c)


def check_lists(ctx, case):
    with Clock(NOW):
        items = [SOME[i] for i in case]
        cal = make(items)
        before = cal.getText(NO)
        found = []
        cal.getVToDos(False, True, DateTime(), found)
        found.sort(cmp=VToDo.sort_for_display)
        ctx.step()
        got = [items[int(x.getOwner().getUID()[1:])] for x in found]
        if sorted(got) != sorted(items):
            raise Mismatch("%r: listed %r" % (items, got))
        for i, j in itertools.combinations(range(len(got)), 2):
            if model_order(got[i], got[j], NOW) == 1:
                raise Mismatch("%r sorted as %r" % (items, got))
        if cal.getText(NO) != before:
            raise Mismatch("%r: the calendar was changed" % items)
        ctx.see(got)


# Editing
OPS = [("status", definitions.eStatus_VToDo_NeedsAction), ("status", definitions.eStatus_VToDo_InProcess), ("status", definitions.eStatus_VToDo_Completed), ("status", definitions.eStatus_VToDo_Cancelled),
       ("completed", -2 * DAY), ("completed", -H), ("wait", 5 * H), ("wait", DAY), ("wait", 7 * DAY), ("reload", 0), ("copy", 0), ("finalise", 0)]
NAMES = {1: "NEEDS-ACTION", 2: "IN-PROCESS", 3: "COMPLETED", 4: "CANCELLED"}
START = [("", ("date", DAY0 + DAY), None, 0, None), ("COMPLETED", None, NOW - 3 * DAY, 0, None), ("IN-PROCESS", ("utc", DAY0 + 20 * H), None, 1, STARTS[1])]


def gen_history(tier):
    for s in range(len(START)):
        for c in itertools.product(range(len(OPS)), repeat=3 if tier == "quick" else 4):
            yield [s] + list(c)


def check_history(ctx, case):
    clock = Clock(NOW)
    with clock:
        status, due, completed, priority, start = START[case[0]]
        cal = make([START[case[0]]])
        done = []
        for i in case[1:]:
            op, arg = OPS[i]
            done.append(op + " %d" % arg)
            v = cal.getComponents()[0]
            if op == "status":
                if NAMES[arg] != status:
                    status, completed = NAMES[arg], clock.now if arg == 3 else None
                v.editStatus(arg)
            elif op == "completed":
                completed = clock.now + arg
                v.editCompleted(DateTime(*(list(R.fields(completed)) + [Timezone(utc=True)])))
            elif op == "wait":
                clock.now += arg
            elif op == "reload":
                cal = Calendar.parseText(cal.getText(NO))
            elif op == "copy":
                cal = cal.duplicate()
            elif op == "finalise":
                v.finalise()
            ctx.step()
            todo = (status, due, completed, priority, start)
            what = "%r, %r" % (START[case[0]], done)
            v = cal.getComponents()[0]
            got = (v.getCompletionState(), v.getStatusText(), v.hasCompleted())
            want = (model_state(todo, clock.now), model_text(todo, clock.now), completed is not None)
            if got != want:
                raise Mismatch("%s: %r, expected %r" % (what, got, want))
            lines = sorted(l for l in C.read(cal.getText(NO))[2][0][1] if l.split(":")[0] in ("STATUS", "COMPLETED"))
            want = sorted((["STATUS:" + status] if status else []) + ([when("COMPLETED", completed, "utc")] if completed is not None else []))
            if lines != want:
                raise Mismatch("%s: %r, expected %r" % (what, lines, want))
            for only_due in (False, True):
                found = []
                cal.getVToDos(only_due, True, DateTime(), found)
                if len(found) != model_listed(todo, clock.now, only_due, None):
                    raise Mismatch("%s: listed %d times" % (what, len(found)))
            ctx.see([todo, clock.now])


PARTS = [
    ("status", gen_status, check_status, "7 statuses x 76 due dates x completions, priorities and starts x 3 (5) current times x 8 dates and filters"),
    ("pairs", gen_pairs, check_pairs, "all pairs of %d to-dos, both ways" % COUNT),
    ("lists", gen_lists, check_lists, "all arrangements of 3 (4) of %d to-dos" % len(SOME)),
    ("history", gen_history, check_history, "%d to-dos x all sequences of 3 (4) of %d operations" % (len(START), len(OPS))),
]
