# P11: what an RRULE expands to in a window does not depend on what was asked of the rule before.
from mcbase import Mismatch
import itertools
import refcal as R
import refrule
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar import definitions
from pycalendar.icalendar.exceptions import TooManyInstancesError
from pycalendar.icalendar.recurrence import Recurrence

RULES = ["FREQ=DAILY", "FREQ=DAILY;COUNT=9", "FREQ=WEEKLY;BYDAY=MO,TH,SU;COUNT=8", "FREQ=WEEKLY;BYDAY=WE,FR;UNTIL=20240301T100000",
         "FREQ=MONTHLY;BYMONTHDAY=10,-1", "FREQ=MONTHLY", "FREQ=MONTHLY;BYDAY=MO,TU,WE,TH,FR;BYSETPOS=-1;COUNT=5", "FREQ=YEARLY;BYMONTH=2,3;BYDAY=1SU",
         "FREQ=DAILY;UNTIL=20240210T100000", "FREQ=DAILY;BYHOUR=8,10;COUNT=12"]
STARTS = {"A": (2024, 1, 31, 10, 0, 0), "B": (2024, 2, 5, 10, 0, 0)}
T = R.secs
WINDOWS = {
    "first": (T(2024, 1, 31, 10, 0, 0), T(2024, 2, 8)), "early": (T(2023, 1, 1), T(2024, 2, 4)), "mid": (T(2024, 2, 6, 10, 0, 0), T(2024, 2, 20, 10, 0, 0)),
    "late": (T(2024, 2, 29), T(2024, 4, 15)), "all": (T(2024, 1, 1), T(2024, 5, 1)), "none": (T(2023, 1, 1), T(2023, 6, 1)),
}
SETS = ["interval", "count", "until", "nolimit", "freq", "byday", "parse", "clear"]
QUERIES = [(w, s, 0) for w in sorted(WINDOWS) for s in "AB" if not (s == "B" and w in ("none", "early"))] + [("all", "A", 4), ("first", "A", 4), ("mid", "A", 30)]
OPS = [("q", q) for q in QUERIES] + [("spoil-items", ("all", "A")), ("spoil-start", ("mid", "A")), ("copy", ""), ("copy-then-change", "")] + [("set", s) for s in SETS]


def dt(t):
    return DateTime(*R.fields(t))


def change(r, what, model):
    """change the rule through its setters, and the reference rule with it"""
    if what == "interval":
        r.setInterval(2)
        model["INTERVAL"] = "2"
    elif what == "count":
        r.setUseUntil(False)
        r.setUseCount(True)
        r.setCount(3)
        model.pop("UNTIL", None)
        model["COUNT"] = "3"
    elif what == "until":
        r.setUseCount(False)
        r.setUseUntil(True)
        r.setUntil(DateTime(2024, 2, 16, 10, 0, 0))
        model.pop("COUNT", None)
        model["UNTIL"] = "20240216T100000"
    elif what == "nolimit":
        r.setUseCount(False)
        r.setUseUntil(False)
        model.pop("COUNT", None)
        model.pop("UNTIL", None)
    elif what == "freq":
        r.setFreq(definitions.eRecurrence_WEEKLY)
        r.setByMonthDay([])
        r.setBySetPos([])
        r.setByDay([(0, definitions.eRecurrence_WEEKDAY_TU)])
        model["FREQ"] = "WEEKLY"
        for k in ("BYMONTHDAY", "BYSETPOS"):
            model.pop(k, None)
        model["BYDAY"] = "TU"
    elif what == "byday":
        r.setByMonthDay([])
        r.setByDay([(0, definitions.eRecurrence_WEEKDAY_SA), (0, definitions.eRecurrence_WEEKDAY_SU)])
        model.pop("BYMONTHDAY", None)
        model["BYDAY"] = "SA,SU"
    elif what == "parse":
        r.parse("FREQ=DAILY;INTERVAL=3;BYDAY=MO,TU,WE,TH;COUNT=6")
        model.clear()
        model.update({"FREQ": "DAILY", "INTERVAL": "3", "BYDAY": "MO,TU,WE,TH", "COUNT": "6"})
    elif what == "clear":
        r.clear()


def totext(model):
    return "FREQ=%s" % model["FREQ"] + "".join([";%s=%s" % (k, model[k]) for k in sorted(model) if k != "FREQ"])


REF = {}


def reference(rule, s):
    k = (rule, s)
    if k not in REF:
        REF[k] = refrule.expand(rule, STARTS[s], T(2026, 1, 1))
    return REF[k]


FRESH = {}


def fresh(rule, q):
    """the answer of a newly read rule (only asked whether the limit is exceeded)"""
    k = (rule, q)
    if k not in FRESH:
        r = Recurrence()
        r.parse(rule)
        FRESH[k] = ask(r, q)
    return FRESH[k]


def ask(r, q):
    w, s, limit = q
    a, b = WINDOWS[w]
    items = []
    try:
        limited = r.expand(DateTime(*STARTS[s]), Period(start=dt(a), end=dt(b)), items, maxInstances=limit or None)
    except TooManyInstancesError:
        return None
    return limited, items


def verify(ctx, r, model, q, path):
    ctx.step()
    rule = totext(model)
    got = ask(r, q)
    w, s, limit = q
    a, b = WINDOWS[w]
    if limit:
        n = fresh(rule, q)
        if (n is None) != (got is None):
            raise Mismatch("after %s, %s asked for at most %d: %s, a new rule: %s" % (path, rule, limit, got, n))
        inst = [t for t in reference(rule, s) if t < b]
        if (len(inst) > limit + 1 and got is not None) or (len(inst) <= limit and got is None):
            raise Mismatch("after %s, %s asked for at most %d of %d instances: %s" % (path, rule, limit, len(inst), got))
        if got is None:
            return
    if got is None:
        raise Mismatch("after %s, %s refused as too many without a limit" % (path, rule))
    limited, items = got
    t0 = T(*STARTS[s])
    times = [T(i.getYear(), i.getMonth(), i.getDay(), i.getHours(), i.getMinutes(), i.getSeconds()) for i in items]
    if times != sorted(set(times)):
        raise Mismatch("after %s, %s: %s repeated or out of order" % (path, rule, [i.getText() for i in items]))
    full = set(reference(rule, s))
    want = sorted([t for t in full if a <= t < b and t != t0])
    if [t for t in times if t != t0] != want:
        raise Mismatch("after %s, %s from %s in %s: %s, expected %s" % (
            path, rule, STARTS[s], w, [R.text(R.fields(t)) for t in times], [R.text(R.fields(t)) for t in want]))
    if not limited and [t for t in full if not a <= t < b and t != t0]:
        raise Mismatch("after %s, %s from %s in %s says it is not limited by the window" % (path, rule, STARTS[s], w))
    ctx.see((rule, q, tuple(times), limited))


def apply_(ctx, r, model, op, arg, path):
    """-> the rule to go on with"""
    if op == "q":
        verify(ctx, r, model, arg, path)
    elif op == "spoil-items":
        a, b = WINDOWS[arg[0]]
        items = []
        r.expand(DateTime(*STARTS[arg[1]]), Period(start=dt(a), end=dt(b)), items)
        for i in items:
            i.offsetDay(1)
            i.setHours(3)
    elif op == "spoil-start":
        a, b = WINDOWS[arg[0]]
        s = DateTime(*STARTS[arg[1]])
        w = Period(start=dt(a), end=dt(b))
        r.expand(s, w, [])
        s.offsetDay(5)
        s.setHours(9)
        w.getStart().offsetDay(3)
        w.getEnd().offsetDay(9)
    elif op == "copy":
        return r.duplicate()
    elif op == "copy-then-change":
        c = r.duplicate()
        c.setInterval(3)
        items = []
        a, b = WINDOWS["all"]
        c.expand(DateTime(*STARTS["B"]), Period(start=dt(a), end=dt(b)), items)
        for i in items:
            i.offsetDay(1)
        c.getByDay() and c.getByDay().append((0, 3))
    elif op == "set":
        change(r, arg, model)
    ctx.step()
    return r


def gen(tier):
    for r in range(len(RULES)):
        for i in range(len(OPS)):
            yield [r, i, 3 if tier == "thorough" else 2]


def check(ctx, case):
    k, first, depth = case
    for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
        r = Recurrence()
        r.parse(RULES[k])
        model = dict([p.split("=") for p in RULES[k].split(";")])
        path = ["read %s" % RULES[k]]
        for o in (first,) + rest:
            op, arg = OPS[o]
            r = apply_(ctx, r, model, op, arg, path)
            path.append("%s %s" % (op, arg))
        for q in QUERIES if ctx.thorough else QUERIES[::2]:
            verify(ctx, r, model, q, path)
            path = path + ["q %s" % (q,)]


PARTS = [("histories", gen, check, "10 rules, all sequences of 2 (thorough 3) of 26 operations, then queries in a row")]
