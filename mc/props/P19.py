# P19: a calendar is written the same however it was put together, and reads back as the same calendar.
from mcbase import Mismatch
from cStringIO import StringIO
import itertools
import json
import calcat as C
import tzdata
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase

TimezoneDatabase.createTimezoneDatabase("")
HOSTS = ["VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VAVAILABILITY", "AVAILABLE", "VPOLL", "VVOTER", "VOTE", "X-COMP"]
NO = Calendar.NO_TIMEZONES


def host(ctype, lines):
    """a calendar holding lines in a component of the type"""
    if ctype == "VCALENDAR":
        return C.calendar([], ["VERSION:2.0", "PRODID:-//check//EN"] + lines)
    inner = (ctype, list(lines), [])
    outer = {"VALARM": lambda x: C.event("e", subs=[x]),
             "STANDARD": lambda x: ("VTIMEZONE", ["TZID:Z"], [x]), "DAYLIGHT": lambda x: ("VTIMEZONE", ["TZID:Z"], [x]),
             "AVAILABLE": lambda x: ("VAVAILABILITY", ["UID:v"], [x]),
             "VVOTER": lambda x: ("VPOLL", ["UID:p"], [x]),
             "VOTE": lambda x: ("VPOLL", ["UID:p"], [("VVOTER", ["VOTER:mailto:v@example.com"], [x])])}.get(ctype)
    return C.calendar([outer(inner) if outer else inner])


def roundtrip(ctx, spec, what=None, deep=True):
    """text and jCal of the calendar with this content; returns (calendar, its text)"""
    src = C.text(spec)
    what = what or repr(src)
    cal = Calendar.parseText(src)
    ctx.step()
    out = cal.getText(NO)
    if not C.same_content(out, spec):
        raise Mismatch("%s is written %r" % (what, out))
    again = Calendar.parseText(out)
    if not (again == cal) or again != cal or not (cal == again):
        raise Mismatch("%s is not equal to what its text reads back as" % what)
    if again.getText(NO) != out or cal.getText(NO) != out or str(cal) != out:
        raise Mismatch("%s is written differently the second time: %r, %r" % (what, out, again.getText(NO)))
    if deep:
        j = cal.getTextJSON(NO)
        tree = json.loads(j)
        if C.json_shape(tree) != C.shape(spec):
            raise Mismatch("%s in jCal is %r" % (what, tree))
        cj = Calendar.parseJSONData(j)
        ctx.step()
        if cj.getText(NO).upper() != out.upper():
            raise Mismatch("%s, through jCal, is written %r" % (what, cj.getText(NO)))
        if json.loads(cj.getTextJSON(NO)) != tree:
            raise Mismatch("%s, through jCal, has other jCal" % what)
        if cj.getText(NO) == out and not (cj == cal):
            raise Mismatch("%s, through jCal, is not equal" % what)
    ctx.see(out)
    return cal, out


# --- properties in every component
def gen_props(tier):
    n = len(C.LINES)
    for h in HOSTS:
        for i in range(n):
            yield [h, i]
    for h in (HOSTS if tier == "thorough" else ["VEVENT", "VFREEBUSY", "VCALENDAR"]):
        for i in range(n):
            for j in range(i, n):
                yield [h, i, j]


def check_props(ctx, case):
    h, ix = case[0], case[1:]
    lines = [C.LINES[i] for i in ix]
    if h == "VCALENDAR" and [l for l in lines if C.pname(l) in ("VERSION", "CALSCALE")]:
        return
    spec = host(h, lines)
    cal, out = roundtrip(ctx, spec)
    if len(lines) == 2:
        cal2, out2 = roundtrip(ctx, host(h, lines[::-1]), deep=False)
        if C.pname(lines[0]) != C.pname(lines[1]) or lines[0] == lines[1]:
            if out2 != out:
                raise Mismatch("%r and the other way round are written %r and %r" % (lines, out, out2))
        if not (cal == cal2) or cal != cal2:
            raise Mismatch("calendars with %r and the other way round are not equal" % (lines,))


# --- components
def gen_comps(tier):
    n = len(C.comps())
    for k in (1, 2, 3):
        for ix in itertools.combinations(range(n), k):
            yield list(ix)
    if tier == "thorough":
        for ix in itertools.combinations(range(n), 4):
            yield list(ix)


def ident(spec):
    """components with the same one stay in the order given"""
    d = dict([(C.pname(l), l) for l in spec[1]])
    return (spec[0],) if spec[0].startswith("X-") else (spec[0], d.get("UID"), d.get("RECURRENCE-ID"), d.get("TZID"))


def groups(out):
    """type of each top-level component as written"""
    return [s[0] for s in C.read(out)[2]]


ORDER = ["VTIMEZONE", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY"]


def check_comps(ctx, case):
    specs = C.comps()
    first = None
    for perm in itertools.permutations(case):
        cal, out = roundtrip(ctx, C.calendar([specs[i] for i in perm]), deep=first is None)
        kept = [[i for i in perm if ident(specs[i]) == ident(specs[k])] for k in case]
        if first is None:
            first = (cal, out, kept)
            g = groups(out)
            if g != sorted(g, key=lambda t: (ORDER.index(t), "") if t in ORDER else (9, t)):
                raise Mismatch("components written in the order %r" % g)
        else:
            if not (first[0] == cal) or first[0] != cal:
                raise Mismatch("components %r in the order %r are not equal" % (case, perm))
            if kept == first[2] and out != first[1]:
                raise Mismatch("components %r in the order %r are written %r and %r" % (case, perm, first[1], out))
            # built by a program
            built = Calendar.parseText(C.text(C.calendar([])))
            for i in perm:
                part = Calendar.parseText(C.text(C.calendar([specs[i]])))
                built.addComponent(part.getComponents()[0])
            if built.getText(NO) != out or not (built == cal):
                raise Mismatch("components %r put together are written %r, read %r" % (perm, built.getText(NO), out))


# --- sub-components
def gen_nested(tier):
    for k in (0, 1, 2, 3):
        for ix in itertools.product(range(5), repeat=k):
            for h in ("VEVENT", "VTODO"):
                yield ["alarms", h, list(ix)]
    for shape in shapes(5 if tier == "thorough" else 4):
        yield ["tree", shape]
    for k in (1, 2, 3):
        for ix in itertools.permutations(range(4), k):
            yield ["zone", list(ix)]
            yield ["poll", list(ix)]


ALARMS = [C.alarm("-PT5M"), C.alarm("-PT10M"), C.alarm("-PT5M", "AUDIO"), C.alarm("-PT5M", "DISPLAY", "X-N:2"),
          ("VALARM", ["ACTION:EMAIL", "ATTENDEE:mailto:a@example.com", "DESCRIPTION:d", "SUMMARY:s", "TRIGGER;VALUE=DATE-TIME:20240301T080000Z"], [])]
OBS = [("STANDARD", ["DTSTART:19%d1029T020000" % y, "TZNAME:S%d" % y, "TZOFFSETFROM:-0400", "TZOFFSETTO:-0500"], []) for y in (67, 70)] + \
      [("DAYLIGHT", ["DTSTART:19%d0405T020000" % y, "TZNAME:D%d" % y, "TZOFFSETFROM:-0500", "TZOFFSETTO:-0400"], []) for y in (67, 87)]
ITEMS = [("VVOTER", ["VOTER:mailto:v@example.com"], [("VOTE", ["POLL-ITEM-ID:2"], []), ("VOTE", ["POLL-ITEM-ID:1"], [])]), ("VVOTER", ["VOTER:mailto:a@example.com"], []),
         ("VEVENT", ["UID:z", "POLL-ITEM-ID:1"], []), ("VEVENT", ["UID:y", "POLL-ITEM-ID:2"], [])]


def shapes(n):
    """forests of unknown components with up to n nodes, types from two names"""
    def forest(k):
        if k == 0:
            yield []
            return
        for first in range(1, k + 1):
            for kids in forest(first - 1):
                for rest in forest(k - first):
                    for t in ("X-A", "X-B"):
                        yield [[t, kids]] + rest
    for k in range(1, n + 1):
        for f in forest(k):
            yield f


def fromshape(f, path="n"):
    return [(t, ["X-ID:%s%d" % (path, i)], fromshape(kids, path + str(i))) for i, (t, kids) in enumerate(f)]


def check_nested(ctx, case):
    kind = case[0]
    if kind == "alarms":
        subs = [ALARMS[i] for i in case[2]]
        base = C.event("e") if case[1] == "VEVENT" else ("VTODO", ["UID:e", "DTSTAMP:20240101T000000Z"], [])
        spec = C.calendar([(base[0], base[1], subs)])
    elif kind == "tree":
        spec = C.calendar(fromshape(case[1]))
    elif kind == "zone":
        spec = C.calendar([("VTIMEZONE", ["TZID:Z"], [OBS[i] for i in case[1]])])
    else:
        spec = C.calendar([("VPOLL", ["UID:p"], [ITEMS[i] for i in case[1]])])
    cal, out = roundtrip(ctx, spec)
    for s in perms(spec[2][0][2]):
        if kind == "tree":
            break
        cal2, out2 = roundtrip(ctx, C.calendar([(spec[2][0][0], spec[2][0][1], s)]), deep=False)
        if not (cal == cal2):
            raise Mismatch("%r with sub-components in another order is not equal" % C.text(spec))
        # alarms of the same kind at the same time and observances from the same date stay as they were given
        given = [tuple([l for l in x[1] if C.pname(l) in ("ACTION", "TRIGGER", "DTSTART", "UID", "VOTER")]) for x in s]
        if len(set(given)) == len(s) and out2 != out:
            raise Mismatch("%r with sub-components in another order is written %r" % (out, out2))


def perms(subs):
    return [list(p) for p in itertools.permutations(subs)]


# --- which calendars are equal
def variants():
    """calendars that differ from each other in one place (or only in order)"""
    base = C.calendar([
        C.event("a", "ATTENDEE:mailto:a@example.com", "ATTENDEE:mailto:b@example.com", "SUMMARY;LANGUAGE=en:x", subs=[C.alarm("-PT5M")]),
        ("X-COMP", ["X-A:1"], [("X-SUB", ["X-B:1"], [])])], ["VERSION:2.0", "PRODID:-//check//EN", "METHOD:PUBLISH"])
    out = [base]

    def edit(spec):
        t, ls, subs = spec
        for i in range(len(ls)):
            if C.pname(ls[i]) not in ("VERSION",):
                yield (t, ls[:i] + ls[i + 1:], subs)
                yield (t, ls[:i] + [ls[i]] + ls[i:], subs)
        if len(ls) > 1:
            yield (t, ls[::-1], subs)
        if t == "VEVENT":
            yield (t, [l.replace("a@", "c@") for l in ls], subs)
            yield (t, [l.replace("=en", "=fr") for l in ls], subs)
            yield (t, [l.replace(";LANGUAGE=en", "") for l in ls], subs)
            yield (t, [l.replace("SUMMARY", "DESCRIPTION") for l in ls], subs)
            yield (t, [l.replace("083000Z", "083001Z") for l in ls], subs)
            yield (t, [l.replace("DTSTART:20240301T083000Z", "DTSTART;VALUE=DATE:20240301") for l in ls], subs)
            yield (t, ls[::-1], subs)
        for i in range(len(subs)):
            yield (t, ls, subs[:i] + subs[i + 1:])
            yield (t, ls, subs[:i] + [subs[i]] + subs[i:])
            for e in edit(subs[i]):
                yield (t, ls, subs[:i] + [e] + subs[i + 1:])
            if subs[i][0].startswith("X-"):
                yield (t, ls, subs[:i] + [(subs[i][0] + "Y", subs[i][1], subs[i][2])] + subs[i + 1:])
                yield (t, ls + subs[i][1], subs[:i] + [(subs[i][0], [], subs[i][2])] + subs[i + 1:])
        if len(subs) > 1:
            yield (t, ls, subs[::-1])
    out += list(edit(base))
    return out


VARIANTS = variants()
parsed = {}


def gen_equal(tier):
    n = len(VARIANTS)
    for i in range(n):
        for j in range(n):
            yield [i, j]


def check_equal(ctx, case):
    cals = []
    for i in case:
        if i not in parsed:
            parsed[i] = (Calendar.parseText(C.text(VARIANTS[i])), Calendar.parseText(C.text(VARIANTS[i])))
        cals.append(parsed[i][len(cals)])
    ctx.step()
    want = C.multiset(VARIANTS[case[0]]) == C.multiset(VARIANTS[case[1]])
    if (cals[0] == cals[1]) != want or (cals[0] != cals[1]) == want:
        raise Mismatch("%r and %r compare %s" % (C.text(VARIANTS[case[0]]), C.text(VARIANTS[case[1]]), "equal" if not want else "different"))
    same = C.canon(VARIANTS[case[0]]) == C.canon(VARIANTS[case[1]])
    if same != (cals[0].getText(NO) == cals[1].getText(NO)):
        raise Mismatch("%r and %r are written %s" % (C.text(VARIANTS[case[0]]), C.text(VARIANTS[case[1]]), "the same" if not same else "differently"))


# --- where the data comes from
def gen_source(tier):
    for i in range(len(C.comps())):
        for fmt in ("text", "json"):
            for how in range(5):
                yield [i, fmt, how]


def check_source(ctx, case):
    i, fmt, how = case
    spec = C.calendar([C.comps()[i]])
    src = C.text(spec)
    want = Calendar.parseText(src)
    mime = "text/calendar" if fmt == "text" else "application/calendar+json"
    data = want.getText(NO, mime)
    if fmt == "json" and json.loads(data) != json.loads(want.getTextJSON(NO, sort_keys=True)):
        raise Mismatch("jCal with sorted keys differs")
    ctx.step()
    if how == 0:
        cal = Calendar.parseData(data, mime)
    elif how == 1:
        cal = Calendar.parseData(StringIO(data), mime)
    elif how == 2:
        cal = Calendar.parseJSONData(StringIO(data)) if fmt == "json" else Calendar.parseTextData(StringIO(data))
    elif how == 3:
        cal = Calendar.parseJSONData(json.dumps(json.loads(data))) if fmt == "json" else Calendar.parseText(data.replace("\r\n", "\n"))
    else:
        if fmt == "json":
            return
        cal = Calendar(add_defaults=False)      # a calendar used before
        cal.parse(StringIO(data))
    if cal.getText(NO) != want.getText(NO) or not (cal == want):
        raise Mismatch("%r as %s read another way (%d) is %r" % (src, fmt, how, cal.getText(NO)))
    if Calendar.parseData(src).getText(NO) != want.getText(NO) or want.getText() != want.getText(NO) and i not in (1,):
        raise Mismatch("%r read without naming the format differs" % src)


# --- components without a UID
BARE = [("VEVENT", ["SUMMARY:a"], []), ("VEVENT", ["SUMMARY:b", "DTSTART:20240301T080000Z"], []), ("VEVENT", ["SUMMARY:c"], [ALARMS[0]]), ("VTODO", ["SUMMARY:a"], []), ("VJOURNAL", ["SUMMARY:a"], []),
        ("VFREEBUSY", ["DTSTART:20240301T080000Z", "DTEND:20240301T090000Z"], []), ("VAVAILABILITY", ["SUMMARY:a"], [("AVAILABLE", ["SUMMARY:b"], []), ("AVAILABLE", ["SUMMARY:a"], [])]),
        ("VAVAILABILITY", ["SUMMARY:b"], []), ("VPOLL", ["SUMMARY:a"], [("VEVENT", ["SUMMARY:b"], []), ("VEVENT", ["SUMMARY:a"], [])]), ("X-C", ["X-P:1"], []), C.event("e")]


def gen_bare(tier):
    for n in range(1, 4 if tier == "quick" else 5):
        for seq in itertools.product(range(len(BARE)), repeat=n):
            if n < 4 or sum(seq) % 5 == 0:
                yield list(seq)


def check_bare(ctx, case):
    subs = [BARE[i] for i in case]
    for at in range(len(subs)):     # each its own
        if case.index(case[at]) != at:
            subs[at] = (subs[at][0], subs[at][1] + ["X-AT:%d" % at], subs[at][2])
    spec = C.calendar(subs)
    cal, out = roundtrip(ctx, spec)
    for i in range(3):
        one = Calendar.parseText(C.text(spec))
        if one.getText(NO) != out:
            raise Mismatch("%r is written %r and, read another time, %r" % (C.text(spec), out, one.getText(NO)))
        keys = [c.getMapKey() for c in one.getComponents()]
        if len(set(keys)) != len(keys) and case.count(10) < 2 or keys != [c.getMapKey() for c in one.getComponents()]:
            raise Mismatch("%r: map keys %r" % (C.text(spec), keys))
        for c, k in zip(one.getComponents(), keys):
            if one.getComponentByKey(k).getMapKey() != k or c.getType() == "VEVENT" and case.count(10) < 2 and one.getComponentByKey(k) is not c:
                raise Mismatch("%r: component of key %r" % (C.text(spec), k))
        cal = one.duplicate()
        if cal.getText(NO) != out:
            raise Mismatch("%r: the copy is written %r" % (out, cal.getText(NO)))
    given = [c.findFirstProperty("SUMMARY").getText() + repr(c.loadValueString("X-AT")) for c in cal.getComponents("VEVENT") if not c.getUID()]
    written = [c.findFirstProperty("SUMMARY").getText() + repr(c.loadValueString("X-AT")) for c in Calendar.parseText(out).getComponents("VEVENT") if not c.getUID()]
    if given != written:
        raise Mismatch("%r: events without a UID are written in the order %r" % (C.text(spec), written))


PARTS = [
    ("props", gen_props, check_props, "each of 53 property lines in each of 15 components; all pairs of them in both orders in 3 components (thorough: 15)"),
    ("components", gen_comps, check_comps, "all sets of up to 3 (thorough: 4) of 15 top-level components in all orders, read and put together"),
    ("nested", gen_nested, check_nested, "all sequences of up to 3 of 5 alarms, all forests of up to 4 (5) unknown components, all sequences of observances and poll items, in all orders"),
    ("equality", gen_equal, check_equal, "all pairs of calendars each differing from a base in one place"),
    ("sources", gen_source, check_source, "each component as text and jCal from strings, streams, other line ends"),
    ("bare", gen_bare, check_bare, "all sequences of up to 3 (thorough: and a fifth of 4) of 11 components, 10 of them without a UID"),
]
