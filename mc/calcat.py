# A catalogue of component specifications (type, property lines, sub-components), an independent reader of the text and
# jCal forms into such trees, and ways to compare them.  Used by P19-P28.
import json


# one line of every kind of property; written back as they stand (parameters in alphabetical order)
LINES = [
    "ACTION:AUDIO", "ATTACH;FMTTYPE=text/plain:http://example.com/a?b=c;d,e", "ATTACH;ENCODING=BASE64;VALUE=BINARY:AAEC/w==",
    "ATTENDEE;CN=\"Doe; Jane\";PARTSTAT=ACCEPTED:mailto:a@example.com", "ATTENDEE:mailto:b@example.com", "ATTENDEE:mailto:a@example.com",
    "BUSYTYPE:BUSY", "CATEGORIES:A,B\\,C,D", "CATEGORIES:A", "CLASS:PRIVATE", "COMMENT;LANGUAGE=fr:caf\xc3\xa9", "COMMENT:", "COMPLETED:20240229T120000Z",
    "CONTACT:x\\, y\\; z", "CREATED:20240101T000000Z", "DESCRIPTION:a\\nb\\\\c", "DTEND:20240301T000000Z", "DTSTAMP:20240101T000000Z",
    "DTSTART;TZID=Test/NewYork:20240301T083000", "DUE;VALUE=DATE:20240401", "DURATION:PT1H", "EXDATE:20240302T083000Z,20240303T083000Z",
    "FREEBUSY;FBTYPE=BUSY:20240101T000000Z/PT1H,20240102T000000Z/20240102T010000Z", "GEO:37.5;-122.25", "LAST-MODIFIED:20240101T000000Z",
    "LOCATION;ALTREP=\"http://example.com/x\":here", "ORGANIZER:mailto:o@example.com", "PERCENT-COMPLETE:50", "POLL-ITEM-ID:2", "PRIORITY:5",
    "RDATE;VALUE=PERIOD:20240304T083000Z/PT1H", "RDATE;VALUE=DATE:20240305", "RELATED-TO:z", "REPEAT:3", "REQUEST-STATUS:2.0;Success\\, ok;x",
    "RESOURCES:beamer,desk", "RRULE:FREQ=MONTHLY;COUNT=3;BYDAY=-1SU", "SEQUENCE:2", "STATUS:CONFIRMED", "SUMMARY:meeting", "TRANSP:OPAQUE",
    "TRIGGER;RELATED=END:-PT5M", "TRIGGER;VALUE=DATE-TIME:20240301T080000Z", "TZNAME:EST", "TZOFFSETFROM:-0500", "TZOFFSETTO:+0545", "URL:http://example.com/",
    "X-FOO;X-A=b;X-B=\"1;2\":q\\,r,s;t", "X-Mixed:1", "X-MIXED:2", "COLOR:red", "VOTER:mailto:v@example.com", "RESPONSE:80",
]


def event(uid, *more, **kw):
    return ("VEVENT", ["UID:" + uid, "DTSTAMP:20240101T000000Z", "DTSTART:20240301T083000Z"] + list(more), list(kw.get("subs", ())))


def alarm(trigger, action="DISPLAY", *more):
    return ("VALARM", ["ACTION:" + action, "DESCRIPTION:x", "TRIGGER:" + trigger] + list(more), [])


def zone(tzid):
    return ("VTIMEZONE", ["TZID:" + tzid], [
        ("STANDARD", ["DTSTART:19671029T020000", "RRULE:FREQ=YEARLY;BYDAY=-1SU;BYMONTH=10", "TZNAME:EST", "TZOFFSETFROM:-0400", "TZOFFSETTO:-0500"], []),
        ("DAYLIGHT", ["DTSTART:19870405T020000", "RRULE:FREQ=YEARLY;BYDAY=1SU;BYMONTH=4", "TZNAME:EDT", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0400"], [])])


def comps():
    """top-level components: (name, sort identity, spec)"""
    return [
        event("a", "SUMMARY:one"),
        event("b", "DURATION:PT1H", subs=[alarm("-PT5M"), alarm("-PT10M", "AUDIO")]),
        event("a", "RECURRENCE-ID:20240308T083000Z", "SUMMARY:two"),
        event("a", "RECURRENCE-ID:20240315T083000Z", "SUMMARY:three"),
        ("VTODO", ["UID:a", "DTSTAMP:20240101T000000Z", "DUE;VALUE=DATE:20240401"], [alarm("-P1D")]),
        ("VTODO", ["UID:t", "DTSTAMP:20240101T000000Z", "COMPLETED:20240229T120000Z", "PERCENT-COMPLETE:100", "STATUS:COMPLETED"], []),
        ("VJOURNAL", ["UID:j", "DTSTAMP:20240101T000000Z", "DESCRIPTION:a\\nb", "DESCRIPTION:c"], []),
        ("VFREEBUSY", ["UID:f", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T000000Z", "DTEND:20240201T000000Z", "FREEBUSY:20240101T000000Z/PT1H,20240102T000000Z/PT1H"], []),
        zone("Test/NewYork"),
        zone("A/Zone"),
        ("VAVAILABILITY", ["UID:v", "DTSTAMP:20240101T000000Z"],
         [("AVAILABLE", ["UID:v1", "DTSTAMP:20240101T000000Z", "DTSTART:20240301T083000Z", "DTEND:20240301T173000Z", "RRULE:FREQ=WEEKLY"], []),
          ("AVAILABLE", ["UID:v2", "DTSTAMP:20240101T000000Z", "DTSTART:20240302T083000Z", "DURATION:PT1H"], [])]),
        ("VPOLL", ["UID:p", "DTSTAMP:20240101T000000Z", "ORGANIZER:mailto:o@example.com", "POLL-MODE:BASIC"],
         [("VVOTER", ["VOTER:mailto:v@example.com"], [("VOTE", ["POLL-ITEM-ID:1", "RESPONSE:50"], []), ("VOTE", ["POLL-ITEM-ID:2", "RESPONSE:90"], [])]),
          ("VVOTER", ["VOTER:mailto:w@example.com"], [("VOTE", ["POLL-ITEM-ID:1", "RESPONSE:10"], [])]),
          ("VEVENT", ["UID:p1", "DTSTAMP:20240101T000000Z", "DTSTART:20240301T083000Z", "POLL-ITEM-ID:1"], []),
          ("VTODO", ["UID:p2", "DTSTAMP:20240101T000000Z", "DTSTART:20240301T083000Z", "POLL-ITEM-ID:2"], [])]),
        ("X-COMP", ["UID:x", "DTSTART:20240301T083000Z", "X-FOO:1"], [("X-SUB", ["X-BAR:2"], [("VALARM", ["ACTION:AUDIO", "TRIGGER:-PT5M"], [])]), ("X-SUB", [], [])]),
        ("X-COMP", ["UID:w"], []),
        ("X-ABC", ["UID:w"], [event("n")]),
    ]


def calendar(subs, lines=("VERSION:2.0", "PRODID:-//check//EN")):
    return ("VCALENDAR", list(lines), list(subs))


def lines_of(spec):
    out = ["BEGIN:" + spec[0]] + list(spec[1])
    for s in spec[2]:
        out += lines_of(s)
    return out + ["END:" + spec[0]]


def text(spec):
    return "".join([l + "\r\n" for l in lines_of(spec)])


def read(t):
    """independent reader: text -> spec tree (property lines unfolded, in order)"""
    assert t.endswith("\r\n")
    stack, root = [], None
    for l in t[:-2].replace("\r\n ", "").split("\r\n"):
        if l.startswith("BEGIN:"):
            node = (l[6:], [], [])
            if stack:
                stack[-1][2].append(node)
            else:
                assert root is None, "two roots"
                root = node
            stack.append(node)
        elif l.startswith("END:"):
            assert stack.pop()[0] == l[4:], "wrong END"
        else:
            stack[-1][1].append(l)
    assert not stack
    return root


def pname(line):
    for i, c in enumerate(line):
        if c in ";:":
            return line[:i].upper()
    return line.upper()


def canon(spec):
    """content, not order: properties by name in their order, components as a multiset"""
    d = {}
    for l in spec[1]:
        d.setdefault(pname(l), []).append(l)
    return (spec[0], sorted(d.items()), sorted([canon(s) for s in spec[2]]))


def multiset(spec):
    """content with no order at all, as equality has it"""
    return (spec[0], sorted(spec[1]), sorted([multiset(s) for s in spec[2]]))


def same_content(got, want):
    return canon(read(got)) == canon(want)


def read_json(j):
    """jCal -> (TYPE, property names in order, subs)"""
    return (j[0].upper(), [p[0].upper() for p in j[1]], [read_json(c) for c in j[2]])


def shape(spec):
    return (spec[0].upper(), sorted([pname(l) for l in spec[1]]), sorted([shape(s) for s in spec[2]]))


def json_shape(j):
    t, names, subs = j[0].upper(), sorted([p[0].upper() for p in j[1]]), sorted([json_shape(c) for c in j[2]])
    return (t, names, subs)
