# P25: validation reports exactly the broken constraints, and fixing repairs exactly those it says it fixed.
from mcbase import Mismatch
import itertools
import re
import calcat as C
from ask import alarm_answers, answers
import snap
from pycalendar.datetime import DateTime
from pycalendar.exceptions import ValidationError
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.period import Period
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as CardProperty

NO = Calendar.NO_TIMEZONES


def words(s):
    return tuple(s.split())


# --- the reference: component -> (exactly once, at most once, at least once), by RFC 5545 3.6, RFC 2426 and the availability and poll drafts
SCHEMA = {
    "VCALENDAR": (words("PRODID VERSION"), words("CALSCALE METHOD"), ()),
    "VEVENT": (words("DTSTAMP UID"), words("DTSTART CLASS CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION ORGANIZER PRIORITY SEQUENCE SUMMARY TRANSP URL RECURRENCE-ID RRULE DTEND DURATION"), ()),
    "VTODO": (words("DTSTAMP UID"), words("CLASS COMPLETED CREATED DESCRIPTION DTSTART GEO LAST-MODIFIED LOCATION ORGANIZER PERCENT-COMPLETE PRIORITY RECURRENCE-ID SEQUENCE SUMMARY URL RRULE DUE DURATION"), ()),
    "VJOURNAL": (words("DTSTAMP UID"), words("CLASS CREATED DTSTART LAST-MODIFIED ORGANIZER RECURRENCE-ID SEQUENCE SUMMARY URL RRULE"), ()),
    "VFREEBUSY": (words("DTSTAMP UID"), words("CONTACT DTSTART DTEND ORGANIZER URL"), ()),
    "VTIMEZONE": (words("TZID"), words("LAST-MODIFIED TZURL"), ()),
    "STANDARD": (words("DTSTART TZOFFSETTO TZOFFSETFROM"), words("RRULE"), ()),
    "DAYLIGHT": (words("DTSTART TZOFFSETTO TZOFFSETFROM"), words("RRULE"), ()),
    "AUDIO": (words("ACTION TRIGGER"), words("DURATION REPEAT ATTACH ACKNOWLEDGED"), ()),
    "DISPLAY": (words("ACTION TRIGGER"), words("DURATION REPEAT ACKNOWLEDGED"), ()),
    "EMAIL": (words("ACTION TRIGGER"), words("DURATION REPEAT ACKNOWLEDGED"), words("ATTENDEE")),
    "URI": (words("ACTION TRIGGER URL"), words("DURATION REPEAT ACKNOWLEDGED"), ()),
    "NONE": (words("ACTION"), (), ()),
    "OTHER": (words("ACTION TRIGGER"), words("DURATION REPEAT ACKNOWLEDGED"), ()),
    "VAVAILABILITY": (words("DTSTAMP UID"), words("BUSYTYPE CLASS CREATED DESCRIPTION DTSTART LAST-MODIFIED ORGANIZER SEQUENCE SUMMARY URL RECURRENCE-ID DTEND DURATION"), ()),
    "AVAILABLE": (words("DTSTAMP DTSTART UID"), words("CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION RECURRENCE-ID RRULE SEQUENCE SUMMARY DTEND DURATION"), ()),
    "VPOLL": (words("DTSTAMP UID ORGANIZER"), words("ACCEPT-RESPONSE CLASS CREATED COMPLETED DESCRIPTION DTSTART DTEND DURATION LAST-MODIFIED POLL-MODE POLL-PROPERTIES POLL-WINNER PRIORITY SEQUENCE STATUS SUMMARY URL"), ()),
    "VVOTER": (words("VOTER"), words("CREATED DESCRIPTION LAST-MODIFIED SUMMARY URL"), ()),
    "VOTE": ((), words("POLL-ITEM-ID RESPONSE"), ()),
    "VCARD": (words("VERSION N"), words("BDAY PRODID REV UID"), words("FN")),
    "X-COMP": ((), (), ()),
}
FIXEMPTY = {"DISPLAY": ["DESCRIPTION"], "EMAIL": ["DESCRIPTION", "SUMMARY"]}
RECURRING = ("VEVENT", "VTODO", "VJOURNAL", "AVAILABLE")
UTC = words("COMPLETED CREATED DTSTAMP LAST-MODIFIED ACKNOWLEDGED")


def value(line):
    return line.split(":", 1)[1]


def integer(line):
    return int(value(line)) if "VALUE=" not in line else None


def goodvalue(line, vcard):
    n = C.pname(line)
    if vcard:
        return n not in ("VERSION", "PROFILE") or value(line).lower() == {"VERSION": "3.0", "PROFILE": "vcard"}[n]
    if n == "CALSCALE":
        return value(line).lower() == "gregorian"
    if n == "VERSION":
        return value(line) == "2.0"
    if n in ("PERCENT-COMPLETE", "PRIORITY"):
        v = integer(line)
        return v is not None and 0 <= v <= (100 if n == "PERCENT-COMPLETE" else 9)
    if n in ("REPEAT", "SEQUENCE"):
        v = integer(line)
        return v is not None and v >= 0
    if n in UTC:
        return value(line).endswith("Z") and "VALUE=" not in line
    return True


def starttime(lines):
    """(date-only, UTC time text) of DTSTART"""
    s = [l for l in lines if C.pname(l) == "DTSTART"]
    if not s:
        return None
    if "VALUE=DATE:" in s[0]:
        return (True, None)
    v = value(s[0])[9:15]
    if "TZID" in s[0]:
        v = "%02d%s" % ((int(v[:2]) + 5) % 24, v[2:])
    return (False, v)


def judge(spec, method, out):
    """problems as (type, names, fixed), and the component fixed"""
    t, lines, subs = spec
    kind = t
    if t == "VALARM":
        a = [value(l).upper() for l in lines if C.pname(l) == "ACTION"]
        kind = a[0] if a and a[0] in SCHEMA else ("DISPLAY" if not a else "OTHER")
    one, most, more = SCHEMA[kind]
    count = dict([(n, [C.pname(l) for l in lines].count(n)) for n in set([C.pname(l) for l in lines])])
    for n in one:
        if count.get(n, 0) != 1:
            out.append((t, (n,), False))
    new = list(lines)
    for n in FIXEMPTY.get(kind, ()):
        if count.get(n, 0) > 1:
            out.append((t, (n,), False))
        elif n not in count:
            out.append((t, (n,), True))
            new.append(n + ":")
    for n in most:
        if count.get(n, 0) > 1:
            out.append((t, (n,), False))
    for n in more:
        if n not in count:
            out.append((t, (n,), False))
    if t in RECURRING and count.get("STATUS", 0) > 1:
        fix = "CANCELLED" in [value(l).upper() for l in lines if C.pname(l) == "STATUS"]
        out.append((t, ("STATUS",), fix))
        if fix:
            new = [l for l in new if C.pname(l) != "STATUS"] + ["STATUS:CANCELLED"]
    for l in new:
        if not goodvalue(l, t == "VCARD"):
            out.append((t, (C.pname(l),), False))
    start = starttime(lines)
    if t in RECURRING and start is not None:
        for i, l in enumerate(new):
            m = re.search(r"UNTIL=(\d{8})(T\d{6}Z?)?", l)
            if C.pname(l) == "RRULE" and m and bool(m.group(2)) == start[0]:
                out.append((t, ("DTSTART", "UNTIL"), True))
                new[i] = l.replace(m.group(0), "UNTIL=" + m.group(1) + ("" if start[0] else "T%sZ" % start[1]))
    if t in ("VEVENT", "VAVAILABILITY", "AVAILABLE") and "DTEND" in count and "DURATION" in count:
        out.append((t, ("DTEND", "DURATION"), True))
        new = [l for l in new if C.pname(l) != "DTEND"]
    if t == "VEVENT" and not method and "DTSTART" not in count:
        out.append((t, ("DTSTART",), False))
    if t == "VTODO":
        if "DUE" in count and "DURATION" in count:
            out.append((t, ("DUE", "DURATION"), True))
            new = [l for l in new if C.pname(l) != "DURATION"]
        if "DURATION" in count and "DTSTART" not in count:
            # fixing the one above may fix this
            out.append((t, ("DTSTART", "DURATION"), "gone" if "DUE" in count else False))
    if t == "VALARM" and ("DURATION" in count) != ("REPEAT" in count):
        out.append((t, ("DURATION", "REPEAT"), False))
    if t == "VTIMEZONE" and not subs:
        out.append((t, ("STANDARD", "DAYLIGHT"), False))
    return (t, new, [judge(s, "METHOD" in count if t == "VCALENDAR" else method if t == "X-COMP" else False, out) for s in subs])


def told(messages):
    """reported problems as (type, names)"""
    out = []
    for m in messages:
        x = re.match(r"\[([^\]]*)\] [^:]*: (.*)$", m)
        if not x:
            raise Mismatch("message %r" % m)
        out.append((x.group(1), tuple(sorted(re.split(", | with | or ", x.group(2))))))
    return sorted(out)


def expected(out, which):
    return sorted([(t, tuple(sorted(ns))) for t, ns, fixed in out if fixed in which])


def lookup(comp, asked):
    """the answers of every component that has specified answers, in the order written"""
    for c in comp.sortedComponents() if hasattr(comp, "sortedComponents") else comp.getComponents():
        if c.getType() == "VALARM":
            asked.append(alarm_answers(c))
        elif c.getType() in ("VEVENT", "VTODO", "VJOURNAL"):
            asked.append(answers(c))
        lookup(c, asked)


SPAN = ("20240101T000000Z", "20240601T000000Z")


def expansions(comp, asked):
    """the instants of every recurrence set, in the order written"""
    for c in comp.sortedComponents() if hasattr(comp, "sortedComponents") else comp.getComponents():
        rs = c.getRecurrenceSet() if hasattr(c, "getRecurrenceSet") else None
        if rs is not None and c.hasStart():
            items = []
            rs.expand(c.getStart(), Period(DateTime.parseText(SPAN[0]), DateTime.parseText(SPAN[1])), items)
            asked.append([i.getText() for i in items])
        expansions(c, asked)


def verify(ctx, spec, kind=Calendar, deep=True):
    out = []
    new = judge(spec, False, out)
    # reading refuses some calendars, which are put together instead
    added = [l for l in spec[1] if C.pname(l) in ("VERSION", "CALSCALE") and not goodvalue(l, kind is Card)]
    kept = [l for l in spec[1] if l not in added]
    version = "VERSION" in [C.pname(l) for l in kept]
    text = C.text((spec[0], kept if version else kept + VALID[spec[0]][:1], spec[2]))
    got = kind.parseText(text)
    if not version:
        got.removeProperties("VERSION")
    for l in added:
        got.addProperty(CardProperty.parseText(l) if kind is Card else Property.parseText(l))
    if got is None:
        raise Mismatch("%r is not read" % text)

    if deep and kind is Calendar:
        # asked for before, so that what is kept of the answers is out of date once fixed
        expansions(got, [])

    def write(o):
        return o.getText(NO) if kind is Calendar else o.getText()
    before = write(got)
    for turn in (1, 2):
        f, u = got.validate(doFix=False)
        if f or told(u) != expected(out, (True, False, "gone")):
            raise Mismatch("%r: reports %r and %r, expected %r" % (spec, f, u, expected(out, (True, False, "gone"))))
        ctx.step()
    if write(got) != before:
        raise Mismatch("%r: validate changed it" % (spec,))
    ctx.see(sorted(u))
    try:
        got.validate(doFix=False, doRaise=True)
        raised = False
    except ValidationError:
        raised = True
    if raised != bool(out):
        raise Mismatch("%r: raises %r with %r" % (spec, raised, out))
    f, u = got.validate(doFix=True)
    if told(f) != expected(out, (True,)) or told(u) != expected(out, (False,)):
        raise Mismatch("%r: says it fixed %r and not %r, expected %r" % (spec, f, u, out))
    fixed = write(got)
    if C.multiset(C.read(fixed)) != C.multiset(new):
        raise Mismatch("%r: fixed to %r, expected %r" % (spec, C.read(fixed), new))
    # of too many properties that were then removed nothing is said any more
    removed = [(t, (n,)) for t, ns, done in out if done is True and len(ns) == 2 and "UNTIL" not in ns for n in ns]
    left = [m for m in u if told([m])[0] not in removed or "Too many" not in m]
    f, u2 = got.validate(doFix=True)
    if f or sorted([m for m in u2 if m in left]) != sorted(left) or [m for m in u2 if m not in u] or write(got) != fixed:
        raise Mismatch("%r: fixing again says %r and %r" % (spec, f, u2))
    if added or not version:
        return
    fresh = kind.parseText(fixed)
    f, u3 = fresh.validate(doFix=False)
    if f or sorted(u3) != sorted(u2):
        raise Mismatch("%r: once fixed and read again: %r, %r" % (spec, u3, u2))
    ctx.step()
    if expected(out, (True,)) and deep and kind is Calendar:
        a, b = [], []
        lookup(got, a)
        lookup(fresh, b)
        for x, y in zip(a, b):
            d = snap.diff(x, y)
            if d:
                raise Mismatch("%r: once fixed, answers and answers when read again: %r" % (spec, d))
        a, b = [], []
        expansions(got, a)
        expansions(fresh, b)
        if a != b:
            raise Mismatch("%r: once fixed, recurs at %r, when read again at %r" % (spec, a, b))


STAMP = "DTSTAMP:20240101T000000Z"
# a valid instance of each kind
VALID = {
    "VCALENDAR": ["VERSION:2.0", "PRODID:p"],
    "VEVENT": ["UID:u", STAMP, "DTSTART:20240301T083000Z"],
    "VTODO": ["UID:u", STAMP, "DTSTART:20240301T083000Z"],
    "VJOURNAL": ["UID:u", STAMP, "DTSTART:20240301T083000Z"],
    "VFREEBUSY": ["UID:u", STAMP],
    "VTIMEZONE": ["TZID:Z"],
    "STANDARD": ["DTSTART:19700101T000000", "TZOFFSETTO:-0500", "TZOFFSETFROM:-0500"],
    "DAYLIGHT": ["DTSTART:19700101T000000", "TZOFFSETTO:-0500", "TZOFFSETFROM:-0500"],
    "AUDIO": ["ACTION:AUDIO", "TRIGGER:-PT5M"],
    "DISPLAY": ["ACTION:DISPLAY", "TRIGGER:-PT5M", "DESCRIPTION:x"],
    "EMAIL": ["ACTION:EMAIL", "TRIGGER:-PT5M", "DESCRIPTION:x", "SUMMARY:y", "ATTENDEE:mailto:a@b"],
    "URI": ["ACTION:URI", "TRIGGER:-PT5M", "URL:http://a/"],
    "NONE": ["ACTION:NONE", "TRIGGER:-PT5M"],
    "OTHER": ["ACTION:X-OTHER", "TRIGGER:-PT5M"],
    "VAVAILABILITY": ["UID:u", STAMP],
    "AVAILABLE": ["UID:u", STAMP, "DTSTART:20240301T083000Z"],
    "VPOLL": ["UID:u", STAMP, "ORGANIZER:mailto:o@p"],
    "VVOTER": ["VOTER:mailto:a@b"],
    "VOTE": ["POLL-ITEM-ID:1"],
    "X-COMP": [],
    "VCARD": ["VERSION:3.0", "N:a;b;;;", "FN:b a"],
}
KINDS = sorted([k for k in VALID if k != "VCARD"])


def host(kind, lines, method=False, subs=None):
    """a calendar with such a component in it"""
    cal = VALID["VCALENDAR"] + (["METHOD:REQUEST"] if method else [])
    t = "VALARM" if kind in ("AUDIO", "DISPLAY", "EMAIL", "URI", "NONE", "OTHER") else kind
    if kind == "VTIMEZONE" and subs is None:
        subs = [("STANDARD", VALID["STANDARD"], [])]
    x = (t, lines, subs or [])
    if kind == "VCALENDAR":
        return C.calendar(subs or [], lines + (["METHOD:REQUEST"] if method else []))
    if t == "VALARM":
        x = ("VEVENT", VALID["VEVENT"], [x])
    elif kind in ("STANDARD", "DAYLIGHT"):
        x = ("VTIMEZONE", VALID["VTIMEZONE"], [x])
    elif kind == "AVAILABLE":
        x = ("VAVAILABILITY", VALID["VAVAILABILITY"], [x])
    elif kind in ("VVOTER", "VOTE"):
        x = ("VPOLL", VALID["VPOLL"], [x if kind == "VVOTER" else ("VVOTER", VALID["VVOTER"], [x])])
    return C.calendar([x], cal)


# one valid and one other valid value of each property
VALUES = {
    "DTSTAMP": [STAMP, "DTSTAMP:20240102T000000Z"], "UID": ["UID:u", "UID:u"], "DTSTART": ["DTSTART:20240301T083000Z", "DTSTART:20240301T093000Z"],
    "DTEND": ["DTEND:20240301T093000Z", "DTEND:20240301T103000Z"], "DURATION": ["DURATION:PT1H", "DURATION:PT2H"], "DUE": ["DUE:20240301T093000Z", "DUE:20240302T093000Z"],
    "COMPLETED": ["COMPLETED:20240301T093000Z", "COMPLETED:20240302T093000Z"], "CREATED": ["CREATED:20240301T093000Z", "CREATED:20240302T093000Z"],
    "LAST-MODIFIED": ["LAST-MODIFIED:20240301T093000Z", "LAST-MODIFIED:20240302T093000Z"], "ACKNOWLEDGED": ["ACKNOWLEDGED:20240301T093000Z", "ACKNOWLEDGED:20240302T093000Z"],
    "RECURRENCE-ID": ["RECURRENCE-ID:20240301T083000Z", "RECURRENCE-ID:20240302T083000Z"], "RRULE": ["RRULE:FREQ=DAILY;COUNT=3", "RRULE:FREQ=WEEKLY;COUNT=2"],
    "RDATE": ["RDATE:20240304T083000Z", "RDATE:20240305T083000Z"], "EXDATE": ["EXDATE:20240304T083000Z", "EXDATE:20240305T083000Z"],
    "GEO": ["GEO:1.0;2.0", "GEO:1.5;2.0"], "PRIORITY": ["PRIORITY:1", "PRIORITY:9"], "PERCENT-COMPLETE": ["PERCENT-COMPLETE:0", "PERCENT-COMPLETE:100"], "SEQUENCE": ["SEQUENCE:0", "SEQUENCE:2"],
    "REPEAT": ["REPEAT:1", "REPEAT:2"], "POLL-ITEM-ID": ["POLL-ITEM-ID:1", "POLL-ITEM-ID:2"], "POLL-WINNER": ["POLL-WINNER:1", "POLL-WINNER:2"], "RESPONSE": ["RESPONSE:1", "RESPONSE:2"],
    "TRIGGER": ["TRIGGER:-PT5M", "TRIGGER;VALUE=DATE-TIME:20240301T080000Z"], "TZOFFSETTO": ["TZOFFSETTO:-0400", "TZOFFSETTO:-0500"], "TZOFFSETFROM": ["TZOFFSETFROM:-0400", "TZOFFSETFROM:-0500"],
    "ATTENDEE": ["ATTENDEE:mailto:a@b", "ATTENDEE:mailto:c@d"], "ORGANIZER": ["ORGANIZER:mailto:a@b", "ORGANIZER:mailto:c@d"], "VOTER": ["VOTER:mailto:a@b", "VOTER:mailto:c@d"],
    "STATUS": ["STATUS:COMPLETED", "STATUS:CONFIRMED"], "VERSION": ["VERSION:2.0", "VERSION:2.0"], "CALSCALE": ["CALSCALE:GREGORIAN", "CALSCALE:gregorian"], "ACTION": ["ACTION:AUDIO", "ACTION:AUDIO"],
    "FREEBUSY": ["FREEBUSY:20240301T093000Z/PT1H", "FREEBUSY:20240302T093000Z/PT1H"], "TZURL": ["TZURL:http://a/", "TZURL:http://b/"], "URL": ["URL:http://a/", "URL:http://b/"],
    "ATTACH": ["ATTACH:http://a/", "ATTACH:http://b/"], "CATEGORIES": ["CATEGORIES:a,b", "CATEGORIES:c"], "POLL-PROPERTIES": ["POLL-PROPERTIES:SUMMARY", "POLL-PROPERTIES:DTSTART"],
    "REQUEST-STATUS": ["REQUEST-STATUS:2.0;OK", "REQUEST-STATUS:3.0;No"], "EXRULE": ["EXRULE:FREQ=DAILY;COUNT=2", "EXRULE:FREQ=WEEKLY;COUNT=2"],
}
for _n in words("CLASS DESCRIPTION LOCATION SUMMARY TRANSP CONTACT BUSYTYPE ACCEPT-RESPONSE POLL-MODE PRODID METHOD TZID TZNAME COMMENT RELATED-TO RESOURCES X-A"):
    VALUES[_n] = [_n + ":a", _n + ":b"]
NAMES = sorted(VALUES)


def withcount(lines, name, count):
    vals = [l for l in lines if C.pname(l) == name] + VALUES[name]
    if name == "ACTION":
        vals = [l for l in lines if C.pname(l) == name] * 2
    return [l for l in lines if C.pname(l) != name] + (vals + vals)[:count]


def outside(kind, spec):
    """what the standards leave open"""
    t, lines, subs = spec
    names = [C.pname(l) for l in lines]
    # the type of an alarm or the zone of observances has to be known; a component with no start does not recur
    return ("DURATION" in names or set(names) & set(words("RRULE RDATE EXRULE EXDATE"))) and "DTSTART" not in names and kind in ("VEVENT", "VTODO", "VJOURNAL")


def gen_counts(tier):
    for kind in KINDS:
        for a in range(len(NAMES)):
            yield [kind, a]


def find(spec, kind):
    t = "VALARM" if kind in ("AUDIO", "DISPLAY", "EMAIL", "URI", "NONE", "OTHER") else kind
    if spec[0] == t:
        return spec
    for s in spec[2]:
        x = find(s, kind)
        if x:
            return x


def check_counts(ctx, case):
    kind, a = case
    others = range(len(NAMES)) if ctx.thorough else [b for b in range(len(NAMES)) if (a + b + len(kind)) % 29 == 0 or NAMES[b] in SCHEMA[kind][0] and (a + b) % 6 == 0]
    for b in [None] + [b for b in others if b != a]:
        for ca in (0, 1, 2, 3):
            for cb in (0, 1, 2) if b is not None else (0,):
                if b is not None and ca == 3:
                    continue
                lines = withcount(VALID[kind], NAMES[a], ca)
                if b is not None:
                    lines = withcount(lines, NAMES[b], cb)
                for method in (False, True) if b is None else (False,):
                    if method and (kind == "VCALENDAR" or NAMES[a] == "METHOD"):
                        continue
                    spec = host(kind, lines, method)
                    verify(ctx, spec, deep=not outside(kind, find(spec, kind)))


# --- values
BADVALUES = []
for _n in ("PRIORITY", "PERCENT-COMPLETE", "SEQUENCE", "REPEAT"):
    BADVALUES += ["%s:%s" % (_n, v) for v in ("-1", "0", "1", "9", "10", "99", "100", "101", "2147483647")]
for _n in UTC:
    BADVALUES += [_n + v for v in (":20240301T083000Z", ":20240301T083000", ";TZID=Test/NewYork:20240301T083000", ";TZID=UTC:20240301T083000", ";VALUE=DATE:20240301")]
BADVALUES += ["VERSION:" + v for v in ("2.0", "1.0", "2", "2.00", "3.0")] + ["CALSCALE:" + v for v in ("GREGORIAN", "gregorian", "Gregorian", "JULIAN", "GREGORIA")]
BADVALUES += ["SEQUENCE;VALUE=TEXT:1", "PRIORITY;VALUE=TEXT:1", "PERCENT-COMPLETE;VALUE=FLOAT:1.0"]


def gen_values(tier):
    for kind in KINDS:
        for i in range(len(BADVALUES)):
            yield [kind, i]


def check_values(ctx, case):
    kind, i = case
    n = C.pname(BADVALUES[i])
    base = [l for l in VALID[kind] if C.pname(l) != n]
    for more in [[]] + [[l] for l in BADVALUES if C.pname(l) == n]:
        verify(ctx, host(kind, base + [BADVALUES[i]] + more), deep=False)


# --- constraints between properties
STATUSES = ["CANCELLED", "cancelled", "CONFIRMED", "COMPLETED", "X"]
STARTS = ["DTSTART:20240301T083000Z", "DTSTART:20240301T083000", "DTSTART;TZID=Test/NewYork:20240301T083000", "DTSTART;TZID=Test/NewYork:20240301T203000", "DTSTART;VALUE=DATE:20240301"]
UNTILS = ["FREQ=DAILY;UNTIL=20240310", "FREQ=DAILY;UNTIL=20240310T083000Z", "FREQ=DAILY;UNTIL=20240310T235959Z;INTERVAL=2", "FREQ=DAILY;UNTIL=20240310T083000", "FREQ=DAILY;COUNT=3", "FREQ=MONTHLY;UNTIL=20240601;BYDAY=1MO"]
ENDS = ["DTEND", "DURATION", "DUE", "DTSTART", "REPEAT"]


def gen_between(tier):
    for kind in ("VEVENT", "VTODO", "VJOURNAL", "AVAILABLE"):
        for n in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3):
            for p in itertools.product(range(len(STATUSES)), repeat=n):
                yield ["status", kind, list(p)]
        for p in itertools.product(range(len(STARTS)), range(len(UNTILS)), range(len(UNTILS) + 1)):
            yield ["until", kind, list(p)]
    for kind in KINDS:
        for n in range(1 << len(ENDS)):
            yield ["ends", kind, n]


def check_between(ctx, case):
    TimezoneDatabase.createTimezoneDatabase("")
    Calendar.parseText(C.text(C.calendar([C.zone("Test/NewYork")])))
    what, kind, p = case
    if what == "status":
        verify(ctx, host(kind, VALID[kind] + ["STATUS:" + STATUSES[i] for i in p]), deep="X" not in [STATUSES[i] for i in p])
    elif what == "until":
        s, u, v = p
        lines = [l for l in VALID[kind] if C.pname(l) != "DTSTART"] + [STARTS[s], "RRULE:" + UNTILS[u]] + (["RRULE:" + UNTILS[v]] if v < len(UNTILS) else [])
        verify(ctx, host(kind, lines))
        verify(ctx, host(kind, [l for l in lines if C.pname(l) != "DTSTART"]), deep=False)
    else:
        lines = [l for l in VALID[kind] if C.pname(l) not in ENDS] + [VALUES[n][0] for i, n in enumerate(ENDS) if p & (1 << i)]
        spec = host(kind, lines)
        verify(ctx, spec, deep=not outside(kind, find(spec, kind)))


# --- several components at once
BAD = [
    ("VEVENT", ["UID:a", STAMP, "DTSTART:20240301T083000Z", "DTEND:20240301T093000Z", "DURATION:PT2H"], []),
    ("VEVENT", ["UID:b", "STATUS:CANCELLED", "STATUS:TENTATIVE"], []),
    ("VEVENT", ["UID:c", STAMP, "DTSTART:20240301T083000Z"], [("VALARM", ["ACTION:DISPLAY", "TRIGGER:-PT5M"], []), ("VALARM", ["ACTION:EMAIL", "TRIGGER:-PT5M", "REPEAT:-1"], [])]),
    ("VTODO", ["UID:d", STAMP, "DUE:20240301T083000Z", "DURATION:PT1H", "PRIORITY:10"], [("VALARM", ["ACTION:AUDIO"], [])]),
    ("VTIMEZONE", ["TZID:Z"], []),
    ("VTIMEZONE", ["TZID:Y"], [("STANDARD", ["DTSTART:19700101T000000"], [])]),
    ("X-COMP", ["PRIORITY:11"], [("X-COMP", ["SEQUENCE:-1"], [])]),
    ("VAVAILABILITY", ["UID:e", STAMP, "DTEND:20240301T083000Z", "DURATION:PT1H"], [("AVAILABLE", ["UID:f", "DTSTART:20240301T083000Z", "DTEND:20240301T093000Z", "DURATION:PT1H"], [])]),
    ("VPOLL", ["UID:g", STAMP], [("VVOTER", [], [("VOTE", ["RESPONSE:1", "RESPONSE:2"], [])]), ("VEVENT", ["UID:h", STAMP], [])]),
    ("VJOURNAL", ["UID:i", STAMP, "DTSTART;VALUE=DATE:20240301", "RRULE:FREQ=DAILY;UNTIL=20240310T000000Z"], []),
    ("VEVENT", ["UID:j", STAMP, "DTSTART:20240301T083000Z"], []),
]


def gen_many(tier):
    for n in (1, 2, 3):
        for ix in itertools.combinations(range(len(BAD)), n):
            yield list(ix)


def check_many(ctx, case):
    for lines in (["VERSION:2.0", "PRODID:p"], ["VERSION:1.0", "METHOD:REQUEST", "CALSCALE:JULIAN"]):
        for perm in (case, case[::-1]):
            verify(ctx, C.calendar([BAD[i] for i in perm], lines), deep=False)


# --- cards
CARDV = {"VERSION": ["VERSION:3.0", "VERSION:3.0"], "N": ["N:a;b;;;", "N:c;d;;;"], "BDAY": ["BDAY:20000101", "BDAY:20010101"], "REV": ["REV:20240101T000000Z", "REV:20240102T000000Z"], "TEL": ["TEL:1", "TEL:2"],
         "FN": ["FN:a b", "FN:c d"], "UID": ["UID:a", "UID:b"], "PRODID": ["PRODID:a", "PRODID:b"], "PROFILE": ["PROFILE:VCARD", "PROFILE:vCard"], "EMAIL": ["EMAIL:a@b", "EMAIL:c@d"]}
CARDN = sorted(CARDV)


def gen_cards(tier):
    for p in itertools.combinations(range(len(CARDN)), 4 if tier == "thorough" else 3):
        yield list(p)


def check_cards(ctx, case):
    for counts in itertools.product(range(3), repeat=len(case)):
        lines = [l for l in VALID["VCARD"] if C.pname(l) not in [CARDN[i] for i in case]]
        for i, c in zip(case, counts):
            lines = lines + CARDV[CARDN[i]][:c]
        if not lines:
            continue
        verify(ctx, ("VCARD", lines, []), Card)
        for bad in ("VERSION:2.1", "VERSION:4.0", "PROFILE:VCAL"):
            if counts[0] == 1:
                verify(ctx, ("VCARD", lines + [bad], []), Card)


PARTS = [
    ("counts", gen_counts, check_counts, "each of %d kinds of component x each of %d properties none to three times, alone and with another none to twice (a 29th when quick)" % (len(KINDS), len(NAMES))),
    ("values", gen_values, check_values, "each of %d kinds x each of %d property values with an allowed range, alone and in pairs" % (len(KINDS), len(BADVALUES))),
    ("between", gen_between, check_between, "4 kinds x all sequences of up to 3 (4) STATUS; x 5 starts x pairs of 6 rules; %d kinds x all sets of 5 times" % len(KINDS)),
    ("many", gen_many, check_many, "all sets of up to 3 of %d broken components in two calendars" % len(BAD)),
    ("cards", gen_cards, check_cards, "all sets of 3 (4) of %d vCard properties none to twice each" % len(CARDN)),
]
