# P38: properties, parameters, values and components added, taken away and looked up are those which are there.
from mcbase import Mismatch
import itertools
import calcat as C
from pycalendar.binaryvalue import BinaryValue
from pycalendar.caladdressvalue import CalAddressValue
from pycalendar.datetimevalue import DateTimeValue
from pycalendar.durationvalue import DurationValue
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrencevalue import RecurrenceValue
from pycalendar.integervalue import IntegerValue
from pycalendar.multivalue import MultiValue
from pycalendar.parameter import Parameter
from pycalendar.periodvalue import PeriodValue
from pycalendar.plaintextvalue import PlainTextValue
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.urivalue import URIValue
from pycalendar.utcoffsetvalue import UTCOffsetValue
from pycalendar.value import Value
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as CardProperty

TimezoneDatabase.createTimezoneDatabase("")
NO = Calendar.NO_TIMEZONES


# --- properties of a component: a list of lines
def comp(kind):
    if kind == "VCARD":
        return Card(add_defaults=False)
    if kind == "VCALENDAR":
        return Calendar(add_defaults=False)
    return Component.makeComponent(kind, None)


def parse(kind, line):
    return (CardProperty if kind == "VCARD" else Property).parseText(line)


KINDS = ["VCALENDAR", "VEVENT", "VALARM", "VTIMEZONE", "X-COMP", "VCARD"]
POOL = ["X-A:1", "x-a:2", "X-A;X-P=1:1", "NOTE:1", "X-B:a,b", "REV:20240301T080000Z", "NoTe:2"]
NAMES = ["X-A", "NOTE", "X-B", "REV", "X-N"]


def own_ops():
    out = [("add", l) for l in POOL] + [("remove", l) for l in POOL[:5]] + [("removeall", n) for n in ("X-A", "x-a", "note", "X-N")]
    out += [("edit", ("NOTE", "1")), ("edit", ("NoTe", "2")), ("edit", ("X-A", "")), ("private", "X-A"), ("private", "note"), ("last", "X-A"), ("last", "NOTE")]
    return out + [("set", [0, 1, 3]), ("set", []), ("copy", None)]


OPS = own_ops()


def gen_props(tier):
    n = 0
    for kind in KINDS:
        for k in range(1, 4):
            for seq in itertools.product(range(len(OPS)), repeat=k):
                n += 1
                if k < 3 or tier != "quick" or n % 8 == 0:
                    yield (kind, list(seq))


def group(lines):
    d = {}
    for l in lines:
        d.setdefault(C.pname(l), []).append(l)
    return d


def check_have(c, kind, lines, what):
    want = group(lines)
    got = dict([(n, [p.getText().strip().replace("\r\n ", "") for p in ps]) for n, ps in c.getProperties().items()])
    if got != want:
        raise Mismatch("%s: properties are %r, expected %r" % (what, got, want))
    for n in NAMES:
        for name in (n, n.lower(), n.title()):
            w = want.get(n, [])
            ps = c.getProperties(name)
            if [p.getText().strip() for p in ps] != w or c.hasProperty(name) != bool(w) or c.countProperty(name) != len(w):
                raise Mismatch("%s: asked for %s, %r, has %r, %r of them; expected %r" % (what, name, [p.getText() for p in ps], c.hasProperty(name), c.countProperty(name), w))
            first = c.findFirstProperty(name)
            if first is not (ps[0] if w else None):
                raise Mismatch("%s: the first %s is %r" % (what, name, first and first.getText()))
            text = c.loadValueString(name)
            value = first.getValue() if w else None
            if text != (value.getValue() if isinstance(value, PlainTextValue) else None) or c.getPropertyString(name) != text:
                raise Mismatch("%s: the text of %s is %r" % (what, name, text))
    text = c.getText() if kind != "VCALENDAR" else c.getText(NO)
    seen = sorted([l for l in text.replace("\r\n ", "").split("\r\n")[:-1] if l[:4] not in ("BEGI", "END:")])
    if seen != sorted(lines):
        raise Mismatch("%s: written %r, expected %r" % (what, seen, sorted(lines)))


def check_props(ctx, case):
    kind, seq = case
    c, lines, names = comp(kind), [], []
    for at, i in enumerate(seq):
        op, arg = OPS[i]
        what = "%s after %r" % (kind, [OPS[k] for k in seq[:at + 1]])
        ctx.step()
        if op == "add":
            c.addProperty(parse(kind, arg))
            lines.append(arg)
        elif op == "remove":
            p = parse(kind, arg)
            present = arg in lines
            try:
                c.removeProperty(p)
            except ValueError:
                if present:
                    raise Mismatch("%s: is not there" % what)
            if present:
                lines.remove(arg)
        elif op == "removeall":
            c.removeProperties(arg)
            lines = [l for l in lines if C.pname(l) != arg.upper()]
        elif op == "last":
            have = list(c.getProperties(arg))
            if have:
                c.removeProperty(have[-1])
                if [id(x) for x in c.getProperties(arg)] != [id(x) for x in have[:-1]]:
                    raise Mismatch("%s: another was removed" % what)
                k = [k for k, l in enumerate(lines) if C.pname(l) == arg][-1]
                del lines[k]
        elif op == "edit":
            c.editProperty(*arg)
            lines = [l for l in lines if C.pname(l) != arg[0].upper()] + (["%s:%s" % arg] if arg[1] else [])
        elif op == "private":
            want = [l.split(":", 1)[1] for l in lines if C.pname(l) == arg.upper()]
            got = c.loadPrivateValue(arg)
            if want and got is None and arg == "X-A" and kind != "VCARD":
                pass
            elif got != (want[0] if want else None):
                raise Mismatch("%s: %r, expected %r" % (what, got, want[:1]))
            if got is not None:
                lines = [l for l in lines if C.pname(l) != arg.upper()]
        elif op == "set":
            lines = [POOL[k] for k in arg]
            new = {}
            for l in lines:
                new.setdefault(C.pname(l), []).append(parse(kind, l))
            c.setProperties(new)
        else:
            c = c.duplicate()
        check_have(c, kind, lines, what)
    ctx.see((kind, tuple(sorted(lines))))
    # equal to one put together otherwise, and to none with a property more, less or other
    for perm in (lines, lines[::-1], sorted(lines)):
        o = comp(kind)
        for l in perm:
            o.addProperty(parse(kind, l))
        if not (c == o) or c != o or not (o == c):
            raise Mismatch("%s: not equal to one with %r" % (what, perm))
    others = [lines + [POOL[0]]] + [lines[:k] + lines[k + 1:] for k in range(len(lines))] + [lines[:k] + ["X-B:q"] + lines[k + 1:] for k in range(len(lines))]
    for other in others:
        o = comp(kind)
        for l in other:
            o.addProperty(parse(kind, l))
        if c == o or not (c != o) or o == c:
            raise Mismatch("%s: equal to one with %r" % (what, other))


# --- components of a component: a list of specifications
SUBS = {
    "VCALENDAR": [C.event("a"), C.event("a", "RECURRENCE-ID:20240308T083000Z"), ("VTODO", ["UID:a", "DTSTAMP:20240101T000000Z"], []), C.event("b", subs=[C.alarm("-PT5M")]), C.event("a"), ("X-COMP", ["X-A:1"], []), C.zone("Test/Z"),
                  C.event("a", "RECURRENCE-ID:20240315T083000Z")],
    "VEVENT": [C.alarm("-PT5M"), C.alarm("-PT10M"), C.alarm("-PT5M", "AUDIO"), C.alarm("-PT5M"), ("VALARM", ["ACTION:AUDIO", "TRIGGER;VALUE=DATE-TIME:20240301T080000Z"], [])],
    "VTIMEZONE": C.zone("x")[2],
    "X-COMP": [C.event("a"), C.alarm("-PT5M"), ("X-SUB", ["X-A:1"], []), ("X-SUB", ["X-A:2"], [("X-SUB", [], [])]), ("VTODO", ["UID:a"], [])],
    "VPOLL": [("VVOTER", ["VOTER:mailto:a@example.com"], []), C.event("a", "POLL-ITEM-ID:1"), ("VVOTER", ["VOTER:mailto:b@example.com"], [("VOTE", ["POLL-ITEM-ID:1"], [])])],
}
TYPES = ["VEVENT", "VTODO", "VALARM", "X-COMP", "X-SUB", "VTIMEZONE", "STANDARD", "VVOTER", "X-NONE"]


def comp_ops(kind):
    n = len(SUBS[kind])
    types = sorted(set([s[0] for s in SUBS[kind]])) + ["X-NONE"]
    return [("add", i) for i in range(n)] + [("remove", i) for i in range(n)] + [("bykey", i) for i in range(n)] + [("nokey", None)] + [("clear", t) for t in types + [types[0].lower()]] + [("clear", None), ("copy", None), ("read", None)]


def gen_comps(tier):
    n = 0
    for kind in sorted(SUBS):
        ops = comp_ops(kind)
        for k in range(1, 5 if tier != "quick" else 4):
            for seq in itertools.product(range(len(ops)), repeat=k):
                n += 1
                # one of two that are equal is always taken out again
                two = k == 3 and seq[0] < len(SUBS[kind]) and seq[1] < len(SUBS[kind]) and ops[seq[2]] in (("remove", seq[0]), ("remove", seq[1])) and SUBS[kind][seq[0]] == SUBS[kind][seq[1]]
                if k < 3 or two or n % (16 if k == 3 and tier == "quick" else 1 if k == 3 else 40) == 0:
                    yield (kind, list(seq))


def made(spec, parent):
    c = Component.makeComponent(spec[0], parent)
    for l in spec[1]:
        c.addProperty(Property.parseText(l))
    for s in spec[2]:
        c.addComponent(made(s, c))
    c.finalise()
    return c


HEAD = ["VERSION:2.0", "PRODID:x"]


def base(kind):
    c = comp(kind)
    for l in HEAD if kind == "VCALENDAR" else []:
        c.addProperty(Property.parseText(l))
    return c


def spec_of(c):
    return C.multiset(C.read(c.getText(NO) if isinstance(c, Calendar) else c.getText()))


def check_comps(ctx, case):
    kind, seq = case
    ops = comp_ops(kind)
    c, have = base(kind), []        # have: list of (index of the specification, the object)
    for at, i in enumerate(seq):
        op, arg = ops[i]
        what = "%s after %r" % (kind, [ops[k] for k in seq[:at + 1]])
        ctx.step()
        if op == "add":
            o = made(SUBS[kind][arg], c)
            c.addComponent(o)
            have.append((arg, o))
        elif op == "remove":
            mine = [h for h in have if h[0] == arg]
            if mine:
                c.removeComponent(mine[-1][1])
                have = [h for h in have if h is not mine[0]] if not [x for x in c.getComponents() if x is mine[0][1]] else [h for h in have if h is not mine[-1]]
        elif op == "bykey":
            mine = [h for h in have if h[0] == arg]
            if mine:
                key = mine[0][1].getMapKey()
                first = [h for h in have if h[1].getMapKey() == key][0]
                if c.getComponentByKey(key) is not first[1]:
                    raise Mismatch("%s: key %r gives %r" % (what, key, c.getComponentByKey(key)))
                c.removeComponentByKey(key)
                gone = [h for h in have if not [x for x in c.getComponents() if x is h[1]]]
                if len(gone) != 1 or gone[0][1].getMapKey() != key:
                    raise Mismatch("%s: removed %r by key %r" % (what, gone, key))
                have = [h for h in have if h is not gone[0]]
        elif op == "nokey":
            if c.getComponentByKey("no such key") is not None:
                raise Mismatch("%s: found" % what)
            c.removeComponentByKey("no such key")
        elif op == "clear":
            c.removeAllComponent(arg)
            have = [h for h in have if arg is not None and h[1].getType() != arg.upper()]
        elif op == "copy":
            c = c.duplicate()
            have = [(h[0], o) for h, o in zip(have, c.getComponents())] if len(have) == len(c.getComponents()) else None
        elif kind == "VCALENDAR":
            full = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + "".join([o.getText() for _, o in have]) + "END:VCALENDAR\r\n"
            c = Calendar.parseText(full)
            have = [(h[0], o) for h, o in zip(have, c.getComponents())] if len(have) == len(c.getComponents()) else None
        if have is None or [id(o) for _, o in have] != [id(o) for o in c.getComponents()]:
            raise Mismatch("%s: components are %r" % (what, [o.getText() for o in c.getComponents()]))
        for o, (j, _) in zip(c.getComponents(), have):
            if spec_of(o) != C.multiset(SUBS[kind][j]):
                raise Mismatch("%s: holds %r, expected %r" % (what, o.getText(), SUBS[kind][j]))
            if o.getParentComponent() is not c and not (op == "read" or kind == "VCALENDAR"):
                raise Mismatch("%s: the parent of %r is another" % (what, o.getText()))
        for t in TYPES:
            want = [id(o) for j, o in have if SUBS[kind][j][0] == t]
            for name in (t, t.lower()):
                if [id(o) for o in c.getComponents(name)] != want or c.countComponents(name) != len(want) or c.hasComponent(name) != bool(want):
                    raise Mismatch("%s: %d %s, has %r, expected %d" % (what, c.countComponents(name), name, c.hasComponent(name), len(want)))
        if kind == "VCALENDAR":
            check_index(c, have, what)
        if C.multiset(C.read(c.getText(NO) if kind == "VCALENDAR" else c.getText())) != C.multiset((kind, HEAD if kind == "VCALENDAR" else [], [SUBS[kind][j] for j, _ in have])):
            raise Mismatch("%s: written %r" % (what, c.getText()))
    ctx.see((kind, tuple(sorted([h[0] for h in have]))))
    for perm in (have, have[::-1]):
        o = base(kind)
        for j, _ in perm:
            o.addComponent(made(SUBS[kind][j], o))
        if not (c == o) or c != o:
            raise Mismatch("%s: not equal to one with %r" % (what, [j for j, _ in perm]))
        if perm:
            o.removeComponent(o.getComponents()[0])
            if c == o or o == c or not (c != o):
                raise Mismatch("%s: equal to one with a component less" % what)
            o.addComponent(made((perm[0][1].getType(), SUBS[kind][perm[0][0]][1] + ["X-Q:1"], SUBS[kind][perm[0][0]][2]), o))
            if c == o or o == c or not (c != o):
                raise Mismatch("%s: equal to one with another component" % what)


def check_index(c, have, what):
    """overrides by UID as the calendar says them"""
    for uid in ("a", "b", "none"):
        for t in ("VEVENT", "VTODO"):
            over = [(j, o) for j, o in have if j in (1, 7) and uid == "a"]
            items, ids = [], []
            c.getRecurrenceInstancesItems(t, uid, items)
            c.getRecurrenceInstancesIds(t, uid, ids)
            if [id(o) for o in items] != [id(o) for j, o in over] and sorted([o.getText() for o in items]) != sorted([o.getText() for j, o in over]) or sorted([i.getText() for i in ids]) != sorted([o.getRecurrenceID().getText() for j, o in over]):
                raise Mismatch("%s: overrides of %s %s are %r, %r" % (what, t, uid, [o.getText() for o in items], [i.getText() for i in ids]))


# --- parameters of a property, and values of a parameter
PVALS = [("X-P", ["1"]), ("x-p", ["2"]), ("X-Q", ["a", "b"]), ("X-Q", ["b", "a"]), ("LANGUAGE", ["fr"])]
PNAMES = ["X-P", "X-Q", "LANGUAGE", "X-NONE"]
POPS = [("add", i) for i in range(len(PVALS))] + [("replace", i) for i in range(len(PVALS))] + [("remove", n) for n in ("X-P", "x-q", "Language", "X-NONE")] + \
    [("set", [0, 2]), ("set", []), ("copy", None), ("addvalue", "X-Q"), ("dropvalue", "X-Q"), ("rename", "X-Z"), ("group", "g"), ("group", None)]


def gen_params(tier):
    n = 0
    for kind in (0, 1):
        for k in range(1, 4 if tier == "quick" else 5):
            for seq in itertools.product(range(len(POPS)), repeat=k):
                n += 1
                if k < 3 or n % (4 if tier == "quick" else 1 if k == 3 else 10) == 0:
                    yield (kind, list(seq))


def plain(params):
    return dict([(k, [(p.getName(), list(p.getValues())) for p in ps]) for k, ps in params.items()])


def line_of(name, params, grp):
    out = []
    for k in sorted(params):
        for pn, vals in params[k]:
            out.append(";" + pn + "=" + ",".join(sorted(vals)))
    return ("%s." % grp if grp else "") + name + "".join(out) + ":v"


def check_params(ctx, case):
    kind, seq = case
    p = (Property, CardProperty)[kind].parseText("X-A:v")
    name, grp, have = "X-A", None, {}
    for at, i in enumerate(seq):
        op, arg = POPS[i]
        what = "%s after %r" % (("property", "vCard property")[kind], [POPS[k] for k in seq[:at + 1]])
        ctx.step()
        if op in ("add", "replace"):
            n, vals = PVALS[arg]
            (p.addParameter if op == "add" else p.replaceParameter)(Parameter(n, list(vals)))
            have[n.upper()] = (have.get(n.upper(), []) if op == "add" else []) + [(n, list(vals))]
        elif op == "remove":
            p.removeParameters(arg)
            have.pop(arg.upper(), None)
        elif op == "set":
            p.setParameters(dict([(PVALS[k][0].lower(), [Parameter(PVALS[k][0], list(PVALS[k][1]))]) for k in arg]))
            have = dict([(PVALS[k][0].upper(), [(PVALS[k][0], list(PVALS[k][1]))]) for k in arg])
        elif op == "copy":
            p = p.duplicate()
        elif op == "addvalue" and arg in have:
            p.getParameters()[arg][0].addValue("c")
            have[arg][0][1].append("c")
        elif op == "dropvalue" and arg in have:
            q = p.getParameters()[arg][0]
            if len(q.getValues()) > 1 and q.removeValue(q.getValues()[0]) != len(have[arg][0][1]) - 1:
                raise Mismatch("%s: wrong number of values left" % what)
            have[arg][0] = (have[arg][0][0], have[arg][0][1][1:] if len(have[arg][0][1]) > 1 else have[arg][0][1])
        elif op == "rename":
            p.setName(arg)
            name = arg
        elif op == "group":
            p.setGroup(arg)
            grp = arg if kind else None
        if plain(p.getParameters()) != have or p.getName() != name or p.getGroup() != grp:
            raise Mismatch("%s: parameters are %r, expected %r; name %r, group %r" % (what, plain(p.getParameters()), have, p.getName(), p.getGroup()))
        for n in PNAMES:
            for nm in (n, n.lower()):
                if p.hasParameter(nm) != (n in have):
                    raise Mismatch("%s: has %s is %r" % (what, nm, p.hasParameter(nm)))
                if n in have and (p.getParameterValues(nm) != have[n][0][1] or p.getParameterValue(nm) != have[n][0][1][0]):
                    raise Mismatch("%s: %s is %r, %r" % (what, nm, p.getParameterValue(nm), p.getParameterValues(nm)))
        want = line_of(name, have, grp)
        if sorted(p.getText().strip()[:-2].split(";")) != sorted(want[:-2].split(";")):
            raise Mismatch("%s: written %r, expected %r" % (what, p.getText(), want))
    ctx.see((kind, want))
    cls = (Property, CardProperty)[kind]
    o = cls.parseText(want)
    if not (o == p) or o != p or hash(o) != hash(p) or not (p == o):
        raise Mismatch("%s: not equal to what %r reads as" % (what, want))
    for other in (want[:-1] + "w", want.replace(":v", ";X-ZZ=1:v"), "X-OTHER" + want[len(("%s." % grp if grp else "") + name):], "h." + want if kind and not grp else None):
        if other is not None:
            o = cls.parseText(other)
            if o == p or not (o != p) or p == o:
                raise Mismatch("%s: equal to %r" % (what, other))


# --- what a property's value answers to
CLASSES = [("getBinaryValue", BinaryValue), ("getCalAddressValue", CalAddressValue), ("getDateTimeValue", DateTimeValue), ("getDurationValue", DurationValue), ("getIntegerValue", IntegerValue), ("getMultiValue", MultiValue),
           ("getPeriodValue", PeriodValue), ("getTextValue", PlainTextValue), ("getURIValue", URIValue), ("getUTCOffsetValue", UTCOffsetValue), ("getRecurrenceValue", RecurrenceValue)]
ASKS = ["loadValueString", "loadValueInteger", "loadValueDateTime", "loadValueDuration", "loadValuePeriod", "getPropertyString", "getPropertyInteger"]
# line, text, integer, date-time, duration, period, offset as written; None where the value is of another kind
TYPED = [
    ("SUMMARY:a\\, b", "a, b", None, None, None, None, None), ("SEQUENCE:7", None, 7, None, None, None, None), ("PRIORITY:-1", None, -1, None, None, None, None),
    ("DTSTART;TZID=Test/NewYork:20240301T083000", None, None, "20240301T083000", None, None, None), ("DUE;VALUE=DATE:20240401", None, None, "20240401", None, None, None),
    ("DTSTAMP:20240101T000000Z", None, None, "20240101T000000Z", None, None, None), ("DURATION:-PT5M", None, None, None, "-PT5M", None, None), ("TRIGGER:P1D", None, None, None, "P1D", None, None),
    ("TRIGGER;VALUE=DATE-TIME:20240301T080000Z", None, None, "20240301T080000Z", None, None, None), ("X-P;VALUE=PERIOD:20240101T000000Z/PT1H", None, None, None, None, "20240101T000000Z/PT1H", None),
    ("TZOFFSETTO:-0530", None, None, None, None, None, -19800), ("ATTENDEE:mailto:a@example.com", "mailto:a@example.com", None, None, None, None, None), ("URL:http://example.com/", "http://example.com/", None, None, None, None, None),
    ("ATTACH;ENCODING=BASE64;VALUE=BINARY:AAEC", "AAEC", None, None, None, None, None), ("RRULE:FREQ=DAILY", None, None, None, None, None, None), ("EXDATE:20240302T083000Z", None, None, None, None, None, None),
    ("CATEGORIES:a", None, None, None, None, None, None), ("X-I;VALUE=INTEGER:5", None, 5, None, None, None, None), ("X-O;VALUE=UTC-OFFSET:+0100", None, None, None, None, None, 3600), ("GEO:1.5;2.5", None, None, None, None, None, None),
    ("X-D;VALUE=DURATION:PT1H", None, None, None, "PT1H", None, None), ("X-T:text", "text", None, None, None, None, None), ("X-F;VALUE=FLOAT:1.5", None, None, None, None, None, None),
]


def gen_typed(tier):
    for kind in ("VCALENDAR", "VEVENT", "X-COMP", "VALARM"):
        for i in range(len(TYPED)):
            for j in [None] + range(len(TYPED)):
                yield (kind, i, j)


def check_typed(ctx, case):
    kind, i, j = case
    line, text, num, when, long_, per, off = TYPED[i]
    name = C.pname(line)
    c = comp(kind)
    # a second property of the same name after it, of any kind, makes no difference to the first
    p = Property.parseText(line)
    c.addProperty(p)
    if j is not None:
        q = Property.parseText(TYPED[j][0])
        q.setName(name.title() if j % 2 else name)
        c.addProperty(q)
    ctx.step()
    what = "%s in %s with %r" % (line, kind, None if j is None else TYPED[j][0])
    txt = lambda v: v.getText() if v is not None else None
    for nm in (name, name.lower()):
        got = (c.loadValueString(nm), c.loadValueInteger(nm), txt(c.loadValueDateTime(nm)), txt(c.loadValueDuration(nm)), txt(c.loadValuePeriod(nm)), c.loadValueInteger(nm, Value.VALUETYPE_UTC_OFFSET))
        if got != (text, num, when, long_, per, off):
            raise Mismatch("%s: text, integer, date-time, duration, period, offset are %r" % (what, got))
        if (c.getPropertyString(nm), c.getPropertyInteger(nm), c.getPropertyInteger(nm, Value.VALUETYPE_UTC_OFFSET)) != (text, num, off) or c.loadValueInteger(nm, Value.VALUETYPE_INTEGER) != num:
            raise Mismatch("%s: asked as a property, %r" % (what, (c.getPropertyString(nm), c.getPropertyInteger(nm))))
        if c.loadValue(nm) is not p:
            raise Mismatch("%s: loadValue gives %r" % (what, c.loadValue(nm)))
    none = "X-NOT-THERE"
    if [getattr(c, a)(none) for a in ASKS] != [None] * len(ASKS) or c.loadValueInteger(none, Value.VALUETYPE_UTC_OFFSET) is not None or c.loadValue(none) is not None:
        raise Mismatch("%s: a property it does not have has a value" % what)
    ctx.see((line, j))
    v = p.getValue()
    for getter, cls in CLASSES:
        got = getattr(p, getter)()
        if got is not (v if isinstance(v, cls) else None):
            raise Mismatch("%s: %s is %r" % (line, getter, got))
    if j is not None:
        # two values are equal when they are of the same kind and read the same
        o = Property.parseText(TYPED[j][0])
        same = i == j
        if (p.getValue() == o.getValue()) != same or (p.getValue() != o.getValue()) == same:
            raise Mismatch("values of %r and %r: == is %r, != is %r" % (line, TYPED[j][0], p.getValue() == o.getValue(), p.getValue() != o.getValue()))
        if same and hash(p.getValue()) != hash(o.getValue()):
            raise Mismatch("values of %r: hash differs" % line)
        if (p == o) != same:
            raise Mismatch("%r == %r is %r" % (line, TYPED[j][0], p == o))
        # a value of the same class set to another's is that
        w = Property.parseText(line)
        multi = isinstance(w.getValue(), MultiValue)
        if type(w.getValue()) is type(o.getValue()) and (not multi or w.getValue().getType() == o.getValue().getType()):
            w.getValue().setValue([x.getValue() for x in o.getValue().getValues()] if multi else o.getValue().getValue())
            ow = w.getText().strip().split(":", 1)[1], o.getText().strip().split(":", 1)[1]
            if ow[0] != ow[1] or not (w.getValue() == o.getValue()):
                raise Mismatch("%r with its value set to that of %r is %r" % (line, TYPED[j][0], w.getText()))


# --- equality: lines that hold the same in a row, all other pairs are different
SAME = [
    ["DTSTART:20240101T000000"], ["DTSTART:20240101T000000Z"], ["DTSTART;TZID=Test/NewYork:20240101T000000"], ["DTSTART;VALUE=DATE:20240101"], ["DTSTART:20240101T000001Z"],
    ["DTSTART;TZID=Test/Paris:20240101T060000"], ["DTEND:20240101T000000Z"], ["DTSTART;X-A=b:20240101T000000Z"], ["DTSTART;VALUE=DATE:20240102"],
    ["FREEBUSY:20240101T000000Z/PT1H"], ["FREEBUSY:20240101T000000/PT1H"], ["FREEBUSY:20240101T000000Z/PT2H"], ["FREEBUSY:20240101T000000Z/PT1H,20240102T000000Z/PT1H"],
    ["RDATE;VALUE=PERIOD:20240101T000000Z/20240101T010000Z"], ["RDATE;VALUE=PERIOD:20240101T000000/20240101T010000"], ["RDATE:20240101T000000"], ["RDATE:20240101T000000Z"],
    ["EXDATE:20240101T000000,20240102T000000"], ["EXDATE:20240101T000000Z,20240102T000000Z"], ["EXDATE;VALUE=DATE:20240101,20240102"], ["EXDATE:20240101T000000"],
    ["DURATION:P1W", "DURATION:P7D", "DURATION:+P7D"], ["DURATION:-P1W"], ["DURATION:PT1H", "DURATION:PT60M"], ["TRIGGER:-PT5M"], ["TRIGGER:PT5M"], ["TRIGGER;RELATED=END:-PT5M"],
    ["TRIGGER;VALUE=DATE-TIME:20240101T000000Z"], ["SUMMARY:a", "SUMMARY;VALUE=TEXT:a"], ["SUMMARY:A"], ["SUMMARY:a\\nb", "SUMMARY:a\\Nb"], ["SUMMARY;X-A=b:a", "SUMMARY;x-a=b:a"], ["SUMMARY;X-A=B:a"],
    ["SUMMARY;X-A=b,c:a"], ["SUMMARY;X-A=b;X-B=c:a", "SUMMARY;X-B=c;X-A=b:a"], ["GEO:1;2", "GEO:1.0;2.0"], ["GEO:2;1"], ["SEQUENCE:1", "SEQUENCE:01"], ["SEQUENCE:-1"],
    ["RRULE:FREQ=DAILY;BYDAY=MO,TU", "RRULE:BYDAY=TU,MO;FREQ=DAILY", "RRULE:FREQ=DAILY;INTERVAL=1;BYDAY=MO,TU"], ["EXRULE:FREQ=DAILY;BYDAY=MO,TU"],
    ["RRULE:FREQ=DAILY;UNTIL=20240101"], ["RRULE:FREQ=DAILY;UNTIL=20240101T000000Z"], ["RRULE:FREQ=DAILY;UNTIL=20240101T000000"], ["RRULE:FREQ=DAILY"], ["RRULE:FREQ=DAILY;COUNT=1"],
    ["REQUEST-STATUS:2.0;ok"], ["REQUEST-STATUS:2.0;ok;more"], ["REQUEST-STATUS:2.1;ok"], ["TZOFFSETTO:+0100"], ["TZOFFSETTO:-0100"], ["TZOFFSETFROM:+0100"], ["TZOFFSETTO:+010001"],
    ["ATTACH:QUJD"], ["ATTACH;ENCODING=BASE64;VALUE=BINARY:QUJD"], ["ATTENDEE:mailto:a@example.com"], ["CATEGORIES:a,b"], ["CATEGORIES:a\\,b"], ["CATEGORIES:b,a"], ["CATEGORIES:a"], ["X-A:1"], ["X-A;VALUE=INTEGER:1"],
    ["X-A;VALUE=FLOAT:1"], ["X-A;VALUE=BOOLEAN:1"], ["X-B:1"],
]
CARDS = [
    ["N:a;b;c;d;e"], ["N:a;b;c;d;", "N:a;b;c;d"], ["N:a,b;;;;"], ["N:a\\,b;;;;"], ["N:b,a;;;;"], ["N:a\\;b;;;;"], ["N:;a;;;"],
    ["ADR:;;a;b;c;d;e"], ["ADR:;;a,b;b;c;d;e"], ["ADR:;;a\\,b;b;c;d;e"], ["ADR;TYPE=home:;;a;b;c;d;e"], ["ADR;TYPE=work:;;a;b;c;d;e"], ["ORG:a;b"], ["ORG:a\\;b"], ["ORG:a"], ["ORG:b;a"], ["ORG:a;b;"],
    ["BDAY:20240101", "BDAY;VALUE=DATE:20240101", "BDAY:2024-01-01"], ["BDAY:20240101T000000Z", "BDAY:2024-01-01T00:00:00Z"], ["BDAY:20240101T000000"], ["BDAY:20240102"],
    ["REV:20240101T000000Z"], ["FN:a", "FN;VALUE=TEXT:a"], ["FN:A"], ["g.FN:a"], ["h.FN:a"], ["NICKNAME:a,b"], ["NICKNAME:a\\,b"], ["NICKNAME:a"], ["CATEGORIES:a,b"], ["GEO:1;2", "GEO:1.0;2.0"], ["GEO:2;1"],
    ["TEL:+1"], ["TEL;TYPE=home:+1"], ["TEL;TYPE=home,work:+1"], ["EMAIL:a@example.com"], ["URL:http://a"], ["PHOTO;ENCODING=b:QUJD"], ["PHOTO;VALUE=URI:http://a"],
    ["TZ:-05:00", "TZ:-0500"], ["TZ:+05:00"], ["TZ;VALUE=TEXT:-05:00"], ["X-A:1"], ["X-A;VALUE=INTEGER:1"], ["X-B:1"], ["NOTE:a\\nb", "NOTE:a\\Nb"], ["UID:a"], ["KEY;ENCODING=b:QUJD"], ["SOUND;ENCODING=b:QUJD"],
]
PAIRS = [("ical", line, i) for i, lines in enumerate(SAME) for line in lines] + [("card", line, i) for i, lines in enumerate(CARDS) for line in lines]


def gen_equal(tier):
    for i in range(len(PAIRS)):
        yield [i]


def check_equal(ctx, case):
    (lib, line, n) = PAIRS[case[0]]
    cls = {"ical": Property, "card": CardProperty}[lib]

    def forms(line):
        a = cls.parseText(line)
        b = cls.parseText(a.getText().replace("\r\n ", "")[:-2])
        return [a, b, a.duplicate()]

    def holding(line, kind):
        c = Component.makeComponent(kind, None)
        c.addProperty(Property.parseText("UID:u"))
        c.addProperty(Property.parseText(line))
        return c
    for lib2, other, m in PAIRS:
        if lib2 != lib:
            continue
        for p in forms(line):
            for q in forms(other):
                ctx.step()
                if (p == q) != (n == m) or (p != q) == (n == m) or (n == m and hash(p) != hash(q)):
                    raise Mismatch("%r and %r: == %s, != %s, hashes %s" % (line, other, p == q, p != q, "equal" if hash(p) == hash(q) else "differ"))
                v, w = p.getValue(), q.getValue()
                v2, w2 = v.getValue(), w.getValue()
                if n == m and (not (v2 == w2) or v2 != w2):
                    raise Mismatch("what the values of %r and %r hold: == %s, != %s" % (line, other, v2 == w2, v2 != w2))
                if n == m and (not (v == w) or v != w):
                    raise Mismatch("the values of %r and %r: == %s, != %s" % (line, other, v == w, v != w))
        if lib == "card":
            x, y = Card(), Card()
            x.addProperty(cls.parseText(line))
            y.addProperty(cls.parseText(other))
            if (x == y) != (n == m) or (x != y) == (n == m):
                raise Mismatch("cards with %r and with %r: == %s, != %s" % (line, other, x == y, x != y))
            ctx.see((line, other))
            continue
        for kind in ("VEVENT", "VALARM"):
            a, b = holding(line, kind), holding(other, kind)
            if (a == b) != (n == m) or (a != b) == (n == m):
                raise Mismatch("%s with %r and with %r: == %s, != %s" % (kind, line, other, a == b, a != b))
            x, y = Calendar(), Calendar()
            x.addComponent(a)
            y.addComponent(b)
            if (x == y) != (n == m) or (x != y) == (n == m):
                raise Mismatch("calendars of a %s with %r and with %r: == %s, != %s" % (kind, line, other, x == y, x != y))
        ctx.see((line, other))


PARTS = [
    ("equal", gen_equal, check_equal, "all pairs of %d lines of both kinds in %d groups of the same meaning, x read, read again and copied, alone, in components and in calendars" % (len(PAIRS), len(SAME) + len(CARDS))),
    ("props", gen_props, check_props, "6 kinds of component x all sequences of up to 3 (quick: an eighth of 3) of %d operations on properties, then equality with it put together otherwise and with one difference" % len(OPS)),
    ("comps", gen_comps, check_comps, "5 kinds of component x all sequences of up to 3 (quick: a sixteenth of 3; thorough: and a fortieth of 4) of 13 to 36 operations on components"),
    ("params", gen_params, check_params, "properties of both kinds x all sequences of up to 3 (quick: a quarter of 3; thorough: and a tenth of 4) of %d operations on parameters, name and group" % len(POPS)),
    ("typed", gen_typed, check_typed, "4 kinds of component x %d properties of every type x every one of them after it" % len(TYPED)),
]
