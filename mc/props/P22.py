# P22: the XML (xCal) form holds what the text form holds, in the elements of RFC 6321.
from mcbase import Mismatch
import itertools
from java.io import ByteArrayInputStream
from java.lang import String
from javax.xml.parsers import DocumentBuilderFactory
import calcat as C
import tzdata
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase

NS = "urn:ietf:params:xml:ns:icalendar-2.0"
FACTORY = DocumentBuilderFactory.newInstance()
FACTORY.setNamespaceAware(True)
NO = Calendar.NO_TIMEZONES
MODES = [Calendar.ALL_TIMEZONES, Calendar.NO_TIMEZONES, Calendar.NONSTD_TIMEZONES]

TYPES = {}
for t, names in (
    ("text", "CALSCALE METHOD PRODID VERSION CATEGORIES CLASS COMMENT DESCRIPTION LOCATION RESOURCES STATUS SUMMARY TRANSP TZID TZNAME CONTACT "
             "RELATED-TO UID ACTION"),
    ("uri", "ATTACH TZURL URL"), ("cal-address", "ATTENDEE ORGANIZER"), ("integer", "PERCENT-COMPLETE PRIORITY REPEAT SEQUENCE"),
    ("date-time", "COMPLETED DTEND DUE DTSTART RECURRENCE-ID EXDATE RDATE CREATED DTSTAMP LAST-MODIFIED"), ("duration", "DURATION TRIGGER"),
    ("period", "FREEBUSY"), ("utc-offset", "TZOFFSETFROM TZOFFSETTO"), ("recur", "RRULE EXRULE"), ("geo", "GEO"), ("request-status", "REQUEST-STATUS"),
    ("integer", "POLL-ITEM-ID RESPONSE"), ("cal-address", "VOTER"),
):
    for n in names.split():
        TYPES[n] = t
LOOSE = set(["BUSYTYPE", "POLL-MODE", "POLL-COMPLETION", "POLL-PROPERTIES", "POLL-WINNER", "COLOR"])
MULTI = set(["CATEGORIES", "RESOURCES", "EXDATE", "RDATE", "FREEBUSY"])
KNOWN = ["text", "uri", "binary", "cal-address", "integer", "float", "date", "date-time", "duration", "period", "utc-offset", "recur"]


def u(s):
    return s.decode("utf-8", "replace") if isinstance(s, str) else s


def unescape(raw):
    out, i = [], 0
    while i < len(raw):
        if raw[i] == "\\" and i + 1 < len(raw):
            out.append({"n": "\n", "N": "\n"}.get(raw[i + 1], raw[i + 1]))
            i += 2
        else:
            out.append(raw[i])
            i += 1
    return "".join(out)


def split(raw, sep):
    out, cur, i = [], "", 0
    while i < len(raw):
        if raw[i] == "\\":
            cur += raw[i:i + 2]
            i += 2
            continue
        if raw[i] == sep:
            out.append(cur)
            cur = ""
        else:
            cur += raw[i]
        i += 1
    return out + [cur]


def line(l):
    """name, [(parameter, values)], raw value: read by the grammar"""
    i = 0
    while l[i] not in ";:":
        i += 1
    name, params = l[:i], []
    while l[i] == ";":
        j = l.index("=", i)
        pname = l[i + 1:j]
        i, values = j, []
        while l[i] in "=,":
            i += 1
            if l[i] == '"':
                j = l.index('"', i + 1)
                values.append(l[i + 1:j])
                i = j + 1
            else:
                j = i
                while l[j] not in ",;:":
                    j += 1
                values.append(l[i:j])
                i = j
        params.append((pname, [caret(v) for v in values]))
    return name, params, l[i + 1:]


def caret(v):
    out, i = "", 0
    while i < len(v):
        if v[i] == "^" and v[i + 1:i + 2] in ("n", "^", "'"):
            out += {"n": "\n", "^": "^", "'": '"'}[v[i + 1]]
            i += 2
        else:
            out += v[i]
            i += 1
    return out


def date(t):
    d = "%s-%s-%s" % (t[:4], t[4:6], t[6:8])
    if len(t) > 8:
        d += "T%s:%s:%s%s" % (t[9:11], t[11:13], t[13:15], t[15:])
    return d


def element(tag, text, *subs):
    return (tag, u(text), tuple(subs))


def value(typ, raw):
    if typ == "text":
        return element(typ, unescape(raw))
    if typ in ("date", "date-time"):
        return element(typ, date(raw))
    if typ == "period":
        a, b = raw.split("/")
        return element(typ, "", element("start", date(a)), element("duration", b) if b.startswith("P") else element("end", date(b)))
    if typ == "utc-offset":
        return element(typ, raw[:3] + ":" + raw[3:5] + (":" + raw[5:] if len(raw) > 5 else ""))
    if typ == "recur":
        subs = []
        for part in raw.split(";"):
            k, v = part.split("=")
            for x in v.split(","):
                subs.append(element(k.lower(), date(x) if k == "UNTIL" else x))
        return element(typ, "", *sorted(subs))
    return element(typ, raw)


def prop(l):
    name, params, raw = line(l)
    typ = TYPES.get(name.upper(), "unknown")
    ps = []
    for p, vs in params:
        if p.upper() == "VALUE":
            typ = vs[0].lower() if vs[0].lower() in KNOWN else "unknown"
        else:
            ps.append(element(p.lower(), "", *[element("text", v) for v in vs]))
    subs = [element("parameters", "", *sorted(ps))] if ps else []
    if typ == "geo":
        subs += [element(n, v) for n, v in zip(("latitude", "longitude"), raw.split(";"))]
    elif typ == "request-status":
        subs += [element(n, unescape(v)) for n, v in zip(("code", "description", "data"), split(raw, ";"))]
    elif name.upper() in MULTI:
        subs += [value(typ, x) for x in split(raw, ",")]
    else:
        subs.append(value(typ, raw))
    return element(name.lower(), "", *subs)


def comp(spec):
    subs = [element("properties", "", *sorted([prop(l) for l in spec[1]]))]
    if spec[2]:
        subs.append(element("components", "", *[comp(s) for s in spec[2]]))
    return element(spec[0].lower(), "", *subs)


def tree(node, level=0, parent=""):
    """the same from what was written"""
    tag = u(node.getLocalName())
    if node.getNamespaceURI() != NS:
        raise Mismatch("element %s is in another namespace" % tag)
    for i in range(node.getAttributes().getLength()):
        if not node.getAttributes().item(i).getName().startswith("xmlns"):
            raise Mismatch("element %s has attributes" % tag)
    nodes = [node.getChildNodes().item(i) for i in range(node.getChildNodes().getLength())]
    text = u"".join([n.getNodeValue() for n in nodes if n.getNodeType() == n.TEXT_NODE])
    nodes = [n for n in nodes if n.getNodeType() == n.ELEMENT_NODE]
    subs = [tree(n, level + 1, tag) for n in nodes]
    if tag == "parameters" and not subs:
        return None
    subs = [s for s in subs if s is not None]
    if nodes or tag in ("properties", "components"):
        text = text.strip()
    if tag in ("properties", "parameters", "recur"):
        subs = sorted(subs)
    return (tag, u(text), tuple(subs))


def loosen(t):
    """names of other standards may be text or unknown"""
    tag, text, subs = t
    if tag.upper() in LOOSE:
        return (tag, text, tuple([("any",) + s[1:] if s[0] in ("text", "unknown") else s for s in subs]))
    return (tag, text, tuple([loosen(s) for s in subs]))


def diff(a, b, path=""):
    if a == b:
        return None
    if a[0] != b[0] or a[1] != b[1] or len(a[2]) != len(b[2]):
        return "%s/%s: %r, expected %r" % (path, a[0], a, b)
    for x, y in zip(a[2], b[2]):
        d = diff(x, y, path + "/" + a[0])
        if d:
            return d


def check_xml(ctx, cal, what, modes=(NO,)):
    for mode in modes:
        before = cal.getText(mode)
        want = comp(C.read(before))
        x = cal.getTextXML(mode)
        ctx.step()
        if cal.getText(mode) != before:
            raise Mismatch("%s: writing XML changed the calendar" % what)
        try:
            root = FACTORY.newDocumentBuilder().parse(ByteArrayInputStream(String(x.decode("utf-8")).getBytes("UTF-8"))).getDocumentElement()
        except Exception as e:
            raise Mismatch("%s: not XML (%s): %r" % (what, e, x))
        root = tree(root)
        if root[0] != "icalendar" or len(root[2]) != 1:
            raise Mismatch("%s: root is %s with %d elements" % (what, root[0], len(root[2])))
        got, want = loosen(root[2][0]), loosen(want)
        if got != want:
            raise Mismatch("%s as XML: %s" % (what, (diff(got, want) or "")[:900]))
        ctx.see(want)


EXTRA = [
    "X-P;VALUE=DATE:20240101", "X-P;VALUE=DATE-TIME:20240101T010203Z", "X-P;VALUE=BINARY:AAEC", "X-P;VALUE=FLOAT:1.5", "X-P;VALUE=INTEGER:-4", "X-P;VALUE=UTC-OFFSET:-050030",
    "X-P;VALUE=X-Q:z\\,z", "X-P;VALUE=URI:http://a/", "X-P;VALUE=DURATION:P1W", "X-P;VALUE=CAL-ADDRESS:mailto:a@b", "X-P;VALUE=PERIOD:20240101T000000Z/P1D",
    "X-P;VALUE=RECUR:FREQ=DAILY", "RDATE;VALUE=DATE:20240101,20240102", "EXDATE;VALUE=DATE:20240101", "DTSTART;VALUE=DATE:20240101", "DTSTART:20240101T000000",
    "RDATE;VALUE=PERIOD:20240101T000000/PT1H,20240102T000000/20240103T000000", "EXDATE;TZID=Test/NewYork:20240101T000000,20240102T000000",
    "ATTENDEE;MEMBER=\"mailto:a@b\",\"mailto:c@d\";X-A=\"1,2\",3;RSVP=TRUE:mailto:e@f", "COMMENT;X-A=caf\xc3\xa9;X-B=a^nb^'c^^d:\xe2\x82\xac \xf0\x9f\x98\x80",
    "RRULE:FREQ=YEARLY;UNTIL=20250101T000000Z;BYMONTH=1,2;BYDAY=1SU,-1MO,TU", "RRULE:FREQ=YEARLY;UNTIL=20250101;INTERVAL=2;BYMONTHDAY=-1,15;WKST=SU",
    "RRULE:FREQ=YEARLY;COUNT=3;BYYEARDAY=1,-1,200;BYSETPOS=-1", "RRULE:FREQ=YEARLY;BYDAY=MO;BYWEEKNO=20", "EXRULE:FREQ=DAILY;BYHOUR=1;BYMINUTE=2,3;BYSECOND=4",
    "RRULE:FREQ=SECONDLY", "RRULE:FREQ=HOURLY;INTERVAL=12", "REQUEST-STATUS:3.1.1;a\\;b\\,c", "REQUEST-STATUS;LANGUAGE=en:2.0;ok;x\\;y", "GEO:0.0;-0.5", "GEO:90.0;180.0",
    "TRIGGER;VALUE=DATE-TIME:20240101T000000Z", "TRIGGER:PT0S", "TZOFFSETFROM:-123456", "FREEBUSY:20240101T000000Z/20240101T010000Z", "CATEGORIES:a,,b", "CATEGORIES:",
    "SUMMARY:  two  spaces ", "DESCRIPTION: ", "X-Y: ", "RESOURCES:a\\,b,c\\;d", "URL:http://a/?x=<&>\"'", "SUMMARY:<&>\"']]>&amp;",
    "X-P;value=x-q;X-A=1:z", "X-p;Value=Date:20240101", "dtstart;tzid=Test/NewYork;value=date-time:20240101T000000", "Exdate;value=DATE:20240101", "X-P;value=x-q:1",
    "summary;language=EN:a", "rrule:freq=daily;byday=mo,1TU;until=20250101",
]


# ---- each property in each component ---------------------------------------------------------------------------
def gen_props(tier):
    for i in range(len(C.LINES) + len(EXTRA)):
        for j in range(-1, len(C.comps())):
            if tier == "thorough" or (i + j) % 3 == 0 or j in (-1, 0, 12):
                yield [i, j]


def check_props(ctx, case):
    i, j = case
    ls = C.LINES + EXTRA
    for k in (0, 1, 7, 23) if ctx.thorough else (0, 7):
        lines = [ls[i]] + ([ls[(i + k) % len(ls)]] if k else [])
        if j < 0:
            spec = C.calendar([], ["VERSION:2.0", "PRODID:x"] + lines)
        else:
            c = C.comps()[j]
            if c[0] == "VTIMEZONE":
                continue
            names = [l.split(";")[0].split(":")[0] for l in lines]
            if "RRULE" in names and j != 12:
                lines = [l for l in lines if not l.startswith("RRULE")]
            spec = C.calendar([(c[0], [l for l in c[1] if l.split(";")[0].split(":")[0] not in names] + lines, c[2])])
        try:
            cal = Calendar.parseText(C.text(spec))
        except Exception as e:
            raise Mismatch("%r is not read: %r" % (lines, e))
        check_xml(ctx, cal, repr(C.text(spec)))


# ---- structures --------------------------------------------------------------------------------------------------
def gen_struct(tier):
    n = len(C.comps())
    for i in range(n):
        for j in range(n):
            yield [i, j]


def check_struct(ctx, case):
    TimezoneDatabase.createTimezoneDatabase("")
    for k in range(len(C.comps()) if ctx.thorough else 1):
        cs = C.comps()
        spec = C.calendar([cs[x] for x in (case + [k] if ctx.thorough else case)])
        cal = Calendar.parseText(C.text(spec))
        check_xml(ctx, cal, repr(case + [k]), MODES)
        dup = cal.duplicate()
        check_xml(ctx, dup, "copy of " + repr(case + [k]), MODES[:1])
        j = Calendar.parseJSONData(cal.getTextJSON(NO))
        check_xml(ctx, j, "jCal of " + repr(case + [k]))


# ---- text ----------------------------------------------------------------------------------------------------------
CHARS = ["a", "<", "&", ">", '"', "'", "]]>", "\\,", "\\n", "\\\\", " ", "\t", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "^", ";", "&lt;"]


def gen_text(tier):
    for p in itertools.product(range(len(CHARS)), repeat=3 if tier == "thorough" else 2):
        yield list(p)


def check_text(ctx, case):
    raw = "".join([CHARS[i] for i in case])
    flat = raw.replace("\\", "").replace("\t", "")
    lines = ["SUMMARY:" + raw, "X-RAW:" + raw, "CATEGORIES:%s,%s" % (raw, raw), "REQUEST-STATUS:2.0;%s;%s" % (raw.replace(";", "."), raw.replace(";", ".")),
             "COMMENT;X-A=\"%s\":x" % flat.replace('"', "^'"), "URL:http://a/" + flat]
    cal = Calendar.parseText(C.text(C.calendar([("X-C", lines, [])])))
    check_xml(ctx, cal, repr(lines))


PARTS = [
    ("properties", gen_props, check_props, "%d property lines alone and with others in the calendar and in 15 components (quick: a third)" % (len(C.LINES) + len(EXTRA))),
    ("structures", gen_struct, check_struct, "all pairs (thorough: triples) of 15 components x 3 ways to write time zones, copied and from jCal"),
    ("texts", gen_text, check_text, "all pairs (thorough: triples) of 18 characters or escapes in text, lists, raw values, parameters and URIs"),
]
