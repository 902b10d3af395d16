# P18: a property of any name and value type is written, in text and jCal, so that it reads back as the same property.
from mcbase import Mismatch
import itertools
import json
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.exceptions import InvalidProperty
from pycalendar.datetimevalue import DateTimeValue
from pycalendar.multivalue import MultiValue
from pycalendar.periodvalue import PeriodValue
from pycalendar.parameter import Parameter
from pycalendar.utcoffsetvalue import UTCOffsetValue
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence

tzdata.load(tzdata.NY)

# RFC 5545 (and the extensions the library knows): default type of each property
DEFAULT = {}
for t, names in {
    "TEXT": "CALSCALE METHOD PRODID VERSION CATEGORIES CLASS COMMENT DESCRIPTION LOCATION RESOURCES STATUS SUMMARY TRANSP TZID TZNAME CONTACT RELATED-TO UID ACTION "
            "ACCEPT-RESPONSE POLL-COMPLETION POLL-MODE POLL-PROPERTIES X-WR-CALNAME X-WR-CALDESC X-WR-ALARMUID",
    "URI": "ATTACH TZURL URL",
    "INTEGER": "PERCENT-COMPLETE PRIORITY REPEAT SEQUENCE POLL-ITEM-ID POLL-WINNER RESPONSE",
    "DATE-TIME": "COMPLETED DTEND DUE DTSTART RECURRENCE-ID EXDATE RDATE CREATED DTSTAMP LAST-MODIFIED ACKNOWLEDGED",
    "DURATION": "DURATION TRIGGER",
    "PERIOD": "FREEBUSY",
    "UTC-OFFSET": "TZOFFSETFROM TZOFFSETTO",
    "CAL-ADDRESS": "ATTENDEE ORGANIZER VOTER",
    "RECUR": "RRULE EXRULE",
    "GEO": "GEO",
    "STATUS": "REQUEST-STATUS",
}.items():
    for n in names.split():
        DEFAULT[n] = t
MULTI = ["CATEGORIES", "RESOURCES", "FREEBUSY", "EXDATE", "RDATE", "POLL-PROPERTIES"]
OTHER = ["X-FOO", "X-MUL-BAR", "COLOR", "x-lower"]

# raw text -> text written
VALUES = {
    "TEXT": [("", ""), ("abc", "abc"), ("a\\, b\\;\\n\\\\c", "a\\, b\\;\\n\\\\c"), ("\\N", "\\n"), ("caf\xc3\xa9", "caf\xc3\xa9"), ("a:b\"c'd", "a:b\"c'd"), (" lead", " lead")],
    "URI": [("http://example.com/a?b=c;d,e", None), ("mailto:a@example.com", None), ("CID:1", None)],
    "CAL-ADDRESS": [("mailto:a@example.com", None), ("urn:uuid:1-2", None), ("invalid:nomail", None)],
    "INTEGER": [("0", None), ("5", None), ("-12", None), ("+7", "7"), ("007", "7"), ("2147483647", None), ("-2147483648", None), ("12345678901", None)],
    "FLOAT": [("0.0", None), ("1.5", None), ("-0.25", None), ("1", "1.0"), ("+3.25", "3.25"), ("1234567.125", None), ("0.1", None),
              ("37.386013123456", None), ("0.00001", None), ("100000000000000000000.0", "100000000000000000000"), ("-0.000000125", None)],
    "DATE": [("20240229", None), ("19000101", None)],
    "DATE-TIME": [("20240229T120000", None), ("20240229T120000Z", None), ("00010101T000000Z", None)],
    "DURATION": [("PT1H", None), ("-P1DT2H3M4S", None), ("P2W", None), ("+PT5M", "PT5M"), ("PT0S", None)],
    "PERIOD": [("20240101T000000Z/20240102T000000Z", None), ("20240101T000000Z/PT1H", None), ("20240101T000000/20240102T000000", None), ("20240101T000000/PT1H", None)],
    "UTC-OFFSET": [("+0000", None), ("-0500", None), ("+0545", None), ("-033015", None)],
    "RECUR": [("FREQ=DAILY", None), ("FREQ=MONTHLY;BYDAY=-1SU;COUNT=3", "FREQ=MONTHLY;COUNT=3;BYDAY=-1SU"), ("FREQ=WEEKLY;UNTIL=20240101T000000Z", None)],
    "BINARY": [("", None), ("AAEC/w==", None), ("QUJD" * 40, None)],
    "GEO": [("37.5;-122.25", None), ("1;2", "1.0;2.0"), ("-0.5;0.000001", None), ("37.386013123456;-122.0829329999", None)],
    "STATUS": [("2.0;Success", None), ("3.1;Bad\\, value;DTSTART:1", None), ("2.8; a\\;b;c\\\\", None)],
    "BOOLEAN": [("TRUE", None), ("FALSE", None)],
    "X-TYPE": [("q\\z,1;", None)],
    "TIME": [("120000", None), ("235959Z", None)],
}
PARAMS = [[], [("X-A", "b")], [("LANGUAGE", "en"), ("ALTREP", "http://x/;y")], [("TZID", "Test/NewYork")], [("x-lower", "1,2"), ("X-Z", "^q")]]
ZONED = ["DATE-TIME"]


def unfold(s):
    if not s.endswith("\r\n"):
        raise Mismatch("no CRLF at the end of %r" % s)
    return s[:-2].replace("\r\n ", "")


def q(v):
    v = v.replace("^", "^^")
    return '"%s"' % v if set(v) & set(":;,") else v


def line(name, params, raw):
    return name + "".join([";%s=%s" % (k, q(v)) for k, v in params]) + ":" + raw


def expected(name, vtype, params, raw):
    default = DEFAULT.get(name.upper())
    ps = [p for p in params]
    if vtype != default and not (default is None and vtype in ("TEXT", None)) and vtype not in ("GEO", "STATUS"):
        ps.append(("VALUE", vtype))
    return line(name, sorted(ps, key=lambda x: x[0].upper()), raw)


def times(p):
    """the date-times in the value of p: (text without zone, in UTC, zone)"""
    out = []
    v = p.getValue()
    for item in v.getValues() if isinstance(v, MultiValue) else [v]:
        if isinstance(item, DateTimeValue):
            out.append(item.getValue())
        elif isinstance(item, PeriodValue):
            out.append(item.getValue().getStart())
            if not item.getValue().getUseDuration():
                out.append(item.getValue().getEnd())
    return [(d.getText(), bool(d.getTimezoneUTC()), d.getTimezoneID()) for d in out]


def zoned(p, want, what):
    """the times in the value of p are in the zone that its text says"""
    got = times(p)
    if got:
        head, raw = want.rsplit(":", 1)
        tzid = [x[5:] for x in head.split(";") if x.upper().startswith("TZID=")]
        texts = [t for t in raw.replace("/", ",").split(",") if t[0] not in "P+-"]
        expect = [(t, t.endswith("Z"), tzid[0] if tzid and not t.endswith("Z") else None) for t in texts]
        if got != expect:
            raise Mismatch("the times of %s, %r, are %r" % (what, want, got))


def same(ctx, p, want, what, kept=True):
    """p is written as want, and reads back, copies and goes through jCal as itself"""
    got = unfold(p.getText())
    if got != want:
        raise Mismatch("%s is written %r, expected %r" % (what, got, want))
    r = Property.parseText(got)
    ctx.step()
    if (kept and (not (r == p) or r != p or hash(r) != hash(p))) or unfold(r.getText()) != want:
        raise Mismatch("%s, written %r, reads back as another property: %r" % (what, want, r.getText()))
    d = p.duplicate()
    if not (d == p) or hash(d) != hash(p) or unfold(d.getText()) != want:
        raise Mismatch("copy of %s is %r" % (what, d.getText()))
    for one, how in ((p, what), (r, what + " read back"), (d, what + " copied")):
        zoned(one, want, how)
    ctx.see(want)
    return r


def jcal(ctx, p, want, what, name):
    j = []
    p.writeJSON(j)
    t = json.loads(json.dumps(j[0]))
    if t[0] != name.lower() or "value" in t[1]:
        raise Mismatch("%s in jCal is %r" % (what, t))
    r = Property.parseJSON(t)
    ctx.step()
    # names are written in lower case and read in upper case there
    got = unfold(r.getText())
    norm = Property.parseText(want)
    norm.setName(name.upper())
    if got.upper() != want.upper() or (name == name.upper() and "x-lower" not in want and not (r == p)):
        raise Mismatch("%s, in jCal %r, reads back as %r" % (what, t, got))
    zoned(r, got, what + " in jCal")
    j2 = []
    r.writeJSON(j2)
    if json.dumps(j2[0], sort_keys=True) != json.dumps(j[0], sort_keys=True):
        raise Mismatch("%s, in jCal %r, is rewritten %r" % (what, t, j2[0]))


def combos():
    for name in sorted(DEFAULT) + OTHER:
        default = DEFAULT.get(name)
        types = ["TEXT", "URI", "CAL-ADDRESS", "INTEGER", "FLOAT", "DATE", "DATE-TIME", "DURATION", "PERIOD", "UTC-OFFSET", "RECUR", "BINARY"]
        if default in ("GEO", "STATUS"):
            # what they are in text, VALUE=FLOAT and VALUE=TEXT, is said of them anyway
            types = [default] + [t for t in types if t != {"GEO": "FLOAT", "STATUS": "TEXT"}[default]]
        if default is None:
            types = types + ["BOOLEAN", "TIME", "X-TYPE", None]
        for vtype in types:
            yield name, vtype


def gen_lines(tier):
    for name, vtype in combos():
        for i in range(len(VALUES[vtype or "TEXT"])):
            for pi in range(len(PARAMS)):
                yield (name, vtype, i, pi)


def check_line(ctx, case):
    name, vtype, i, pi = case
    raw, out = VALUES[vtype or "TEXT"][i]
    params = PARAMS[pi]
    default = DEFAULT.get(name)
    if vtype is None:
        out = raw           # properties nobody knows are kept as they are
    if name in MULTI and vtype == "URI":
        raw = raw.replace(",", "")
    kept = not (name in OTHER and vtype == "TEXT")      # else written without VALUE=TEXT, and of no type afterwards (DESIGN.md)
    out = raw if out is None else out
    if [p for p in params if p[0] == "TZID"]:
        if vtype not in ZONED or raw.endswith("Z"):
            return
    explicit = [True, False] if vtype == default else [True]
    if vtype in (None, "GEO", "STATUS"):
        explicit = [False]
    for ex in explicit:
        given = params + ([("VALUE", vtype)] if ex else [])
        src = line(name, given, raw)
        for order in (given, given[::-1]):
            p = Property.parseText(line(name, order, raw))
            ctx.step()
            if p.getName() != name:
                raise Mismatch("name of %r is %r" % (src, p.getName()))
            same(ctx, p, expected(name, vtype, params, out), repr(src), kept)
        if ex and vtype not in ("BOOLEAN", "TIME", "X-TYPE"):
            for k, v in (("VALUE", vtype.lower()), ("value", vtype), ("Value", vtype.capitalize())):
                t = line(name, params + [(k, v)], raw)
                same(ctx, Property.parseText(t), expected(name, vtype, params, out), repr(t), kept)
        for k, v in params:
            if p.getParameterValue(k.lower()) != v:
                raise Mismatch("%s of %r is %r" % (k, src, p.getParameterValue(k)))
        if vtype not in ("BOOLEAN", "TIME", "X-TYPE") and kept:
            jcal(ctx, p, expected(name, vtype, params, out), repr(src), name)


# --- several values
def gen_multi(tier):
    for name in MULTI:
        types = {"TEXT": ["TEXT"], "PERIOD": ["PERIOD"], "DATE-TIME": ["DATE-TIME", "DATE"] + (["PERIOD"] if name == "RDATE" else [])}[DEFAULT[name]]
        for vtype in types:
            n = len(VALUES[vtype])
            for k in (1, 2, 3):
                for ix in itertools.product(range(n), repeat=k):
                    for pi in (0, 1, 3):
                        yield (name, vtype, list(ix), pi)


def check_multi(ctx, case):
    name, vtype, ix, pi = case
    vals = [VALUES[vtype][i] for i in ix]
    if pi == 3 and (vtype not in ("DATE-TIME", "PERIOD") or [v for v, _ in vals if "Z" in v]):
        return
    raw = ",".join([v for v, _ in vals])
    out = ",".join([v if o is None else o for v, o in vals])
    src = line(name, PARAMS[pi] + [("VALUE", vtype)], raw)
    p = Property.parseText(src)
    m = p.getMultiValue()
    if [x.getText() for x in m.getValue()] != [x.getText() for x in m.getValues()] or m.getType() != m.getValues()[0].getType():
        raise Mismatch("%r: as one value %r of type %r" % (src, m.getValue(), m.getType()))
    if len(p.getMultiValue().getValues()) != len(ix):
        raise Mismatch("%r has %d values" % (src, len(p.getMultiValue().getValues())))
    same(ctx, p, expected(name, vtype, PARAMS[pi], out), repr(src))
    jcal(ctx, p, expected(name, vtype, PARAMS[pi], out), repr(src), name)


# --- properties made by a program
def objects():
    ny, utc = Timezone(tzid="Test/NewYork"), Timezone(utc=True)
    d1, d2, d3, d4 = DateTime(2024, 2, 29), DateTime(2024, 2, 29, 12, 0, 0), DateTime(2024, 2, 29, 12, 0, 0, utc), DateTime(2024, 2, 29, 12, 0, 0, ny)
    off = UTCOffsetValue(-18000)
    r = Recurrence()
    r.parse("FREQ=DAILY;COUNT=2")
    tz = [("TZID", "Test/NewYork")]
    return [
        (d1, "DATE", [], "20240229"), (d2, "DATE-TIME", [], "20240229T120000"), (d3, "DATE-TIME", [], "20240229T120000Z"), (d4, "DATE-TIME", tz, "20240229T120000"),
        (Duration(days=1), "DURATION", [], "P1D"), (Duration(duration=-300), "DURATION", [], "-PT5M"), (5, "INTEGER", [], "5"), (-5, "INTEGER", [], "-5"), (0, "INTEGER", [], "0"),
        (off, "UTC-OFFSET", [], "-0500"), (r, "RECUR", [], "FREQ=DAILY;COUNT=2"),
        (Period(start=d3, duration=Duration(duration=3600)), "PERIOD", [], "20240229T120000Z/PT1H"),
        (Period(start=d3, end=DateTime(2024, 3, 1, 0, 0, 0, utc)), "PERIOD", [], "20240229T120000Z/20240301T000000Z"),
        ("a,b", None, [], None), ("", None, [], None), (u"caf\xe9", None, [], None),
        ([d1, DateTime(2024, 3, 1)], "DATE", [], "20240229,20240301"), ([d4, DateTime(2024, 3, 1, 0, 0, 0, ny)], "DATE-TIME", tz, "20240229T120000,20240301T000000"),
        ([Period(start=d3, duration=Duration(duration=60))], "PERIOD", [], "20240229T120000Z/PT1M"),
        ([Period(start=d4, duration=Duration(duration=60))], "PERIOD", tz, "20240229T120000/PT1M"),
        ([Period(start=d4, duration=Duration(duration=60)), Period(start=DateTime(2024, 3, 1, 0, 0, 0, ny), end=DateTime(2024, 3, 1, 1, 0, 0, ny))], "PERIOD", tz, "20240229T120000/PT1M,20240301T000000/20240301T010000"),
        (Period(start=d4, duration=Duration(duration=3600)), "PERIOD", tz, "20240229T120000/PT1H"),
        (Period(start=d4, end=DateTime(2024, 3, 1, 0, 0, 0, ny)), "PERIOD", tz, "20240229T120000/20240301T000000"),
        ([d4], "DATE-TIME", tz, "20240229T120000"), ([d1], "DATE", [], "20240229"), ([d2, DateTime(2024, 3, 1, 0, 0, 0)], "DATE-TIME", [], "20240229T120000,20240301T000000"),
    ]


def gen_made(tier):
    for i in range(len(objects())):
        for name in sorted(DEFAULT) + OTHER[:2]:
            yield (i, name)


def check_made(ctx, case):
    i, name = case
    value, vtype, params, out = objects()[i]
    default = DEFAULT.get(name)
    if isinstance(value, list) != (name in MULTI) and not isinstance(value, basestring):
        return
    if default in ("GEO", "STATUS"):
        return
    if vtype is None:
        if default not in ("TEXT", "URI", "CAL-ADDRESS", None) or name in MULTI:
            return
        vtype, out = default, value.encode("utf-8")
        if default == "TEXT":
            out = out.replace(",", "\\,")
    p = Property(name, value)
    ctx.step()
    want = expected(name, vtype, params, out)
    if ";VALUE=" in want and p.getParameterValue("VALUE") != vtype:
        raise Mismatch("%s made from %r has VALUE %r" % (name, value, p.getParameterValue("VALUE")))
    zoned(p, want, "%s made from %r" % (name, value))
    same(ctx, p, expected(name, vtype, params, out), "%s made from %r" % (name, value))
    jcal(ctx, p, expected(name, vtype, params, out), "%s made from %r" % (name, value), name)
    # written before, the property does not change when its value is set again
    v = p.getValue().getValue()
    if name not in MULTI and name not in OTHER and p.getValue().getType() == Property(name, value).getValue().getType() and vtype == default:
        p.setValue(v)
        same(ctx, p, expected(name, vtype, params, out), "%s set again to %r" % (name, value))


PARTS = [
    ("lines", gen_lines, check_line, "every property the library knows and 4 it does not x every value type x 2-11 values x 5 parameter sets, both parameter orders"),
    ("several", gen_multi, check_multi, "every multi-valued property with up to three values of each type it may have"),
    ("made", gen_made, check_made, "every property made from each of 26 objects it may hold"),
]
