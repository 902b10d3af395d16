# P35: the letter case of names and enumerated values carries no meaning (RFC 5545, 2; RFC 6350, 3.3).
from mcbase import Mismatch
import itertools
import json
import re
import ask
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.vfreebusy import VFreeBusy
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.vcard.card import Card

ZONE = """{BEGIN}:{VTIMEZONE}
{TZID}:Test/NewYork
{BEGIN}:{DAYLIGHT}
{DTSTART}:20070311T020000
{RRULE}:{FREQ}={YEARLY};{BYMONTH}=3;{BYDAY}={2SU}
{TZNAME}:EDT
{TZOFFSETFROM}:-0500
{TZOFFSETTO}:-0400
{END}:{DAYLIGHT}
{BEGIN}:{STANDARD}
{DTSTART}:20071104T020000
{RDATE}:20071104T020000,20241103T020000
{TZNAME}:EST
{TZOFFSETFROM}:-0400
{TZOFFSETTO}:-0500
{END}:{STANDARD}
{END}:{VTIMEZONE}
"""

EVENTS = """{BEGIN}:{VCALENDAR}
{CALSCALE}:{GREGORIAN}
{METHOD}:{REQUEST}
{PRODID}:-//x//EN
{VERSION}:2.0
""" + ZONE + """{BEGIN}:{VEVENT}
{UID}:1
{DTSTAMP};{VALUE}={DATE-TIME}:20240101T000000Z
{DTSTART};{TZID}=Test/NewYork:20240301T090000
{DTEND};{TZID}=Test/NewYork:20240301T100000
{SUMMARY};{LANGUAGE}=En:Sum
{RRULE}:{FREQ}={WEEKLY};{INTERVAL}=1;{COUNT}=8;{BYDAY}={FR},{MO};{WKST}={SU}
{RDATE};{VALUE}={PERIOD}:20240306T120000Z/PT1H
{EXDATE};{TZID}=Test/NewYork:20240308T090000
{EXRULE}:{FREQ}={MONTHLY};{UNTIL}=20240501T000000Z;{BYMONTHDAY}=18
{STATUS}:{TENTATIVE}
{TRANSP}:{OPAQUE}
{CLASS}:{PRIVATE}
{SEQUENCE}:3
{ATTENDEE};{CN}=Who;{CUTYPE}={INDIVIDUAL};{PARTSTAT}={ACCEPTED};{ROLE}={CHAIR}:mailto:a@b
{ATTACH};{ENCODING}={BASE64};{VALUE}={BINARY}:AAAA
{REQUEST-STATUS}:2.0;Success
{X-OWN};{X-P}=q;{VALUE}={INTEGER}:5
{BEGIN}:{VALARM}
{ACTION}:{AUDIO}
{TRIGGER};{RELATED}={END};{VALUE}={DURATION}:-PT5M
{REPEAT}:2
{DURATION}:PT10M
{END}:{VALARM}
{END}:{VEVENT}
{BEGIN}:{VEVENT}
{UID}:1
{RECURRENCE-ID};{RANGE}={THISANDFUTURE};{TZID}=Test/NewYork:20240315T090000
{DTSTAMP}:20240101T000000Z
{DTSTART};{TZID}=Test/NewYork:20240315T110000
{DTEND};{TZID}=Test/NewYork:20240315T130000
{STATUS}:{CANCELLED}
{SUMMARY}:Moved
{END}:{VEVENT}
{BEGIN}:{VEVENT}
{UID}:2
{DTSTAMP}:20240101T000000Z
{DTSTART};{VALUE}={DATE}:20240310
{TRANSP}:{TRANSPARENT}
{STATUS}:{CONFIRMED}
{BEGIN}:{VALARM}
{ACTION}:{EMAIL}
{ATTENDEE}:mailto:a@b
{SUMMARY}:S
{DESCRIPTION}:D
{TRIGGER};{VALUE}={DATE-TIME}:20240309T120000Z
{END}:{VALARM}
{END}:{VEVENT}
{BEGIN}:{VEVENT}
{UID}:3
{DTSTAMP}:20240101T000000Z
{DTSTART}:20240311T150000Z
{DURATION}:PT3H
{STATUS}:{CANCELLED}
{STATUS}:{CONFIRMED}
{BEGIN}:{VALARM}
{ACTION}:{DISPLAY}
{DESCRIPTION}:D
{TRIGGER};{RELATED}={START}:PT5M
{END}:{VALARM}
{END}:{VEVENT}
{END}:{VCALENDAR}
"""

OTHERS = """{BEGIN}:{VCALENDAR}
{PRODID}:-//x//EN
{VERSION}:2.0
{BEGIN}:{VTODO}
{UID}:1
{DTSTAMP}:20240101T000000Z
{DUE};{VALUE}={DATE}:20240310
{STATUS}:{IN-PROCESS}
{PRIORITY}:3
{PERCENT-COMPLETE}:40
{END}:{VTODO}
{BEGIN}:{VTODO}
{UID}:2
{DTSTAMP}:20240101T000000Z
{DTSTART}:20240310T120000Z
{DUE}:20240310T130000Z
{STATUS}:{COMPLETED}
{COMPLETED}:20240310T100000Z
{END}:{VTODO}
{BEGIN}:{VJOURNAL}
{UID}:3
{DTSTAMP}:20240101T000000Z
{DTSTART};{VALUE}={DATE}:20240310
{STATUS}:{FINAL}
{END}:{VJOURNAL}
{BEGIN}:{VFREEBUSY}
{UID}:4
{DTSTAMP}:20240101T000000Z
{DTSTART}:20240310T000000Z
{DTEND}:20240312T000000Z
{FREEBUSY};{FBTYPE}={BUSY-TENTATIVE}:20240310T100000Z/PT1H
{FREEBUSY};{FBTYPE}={FREE}:20240310T120000Z/PT1H
{FREEBUSY};{FBTYPE}={BUSY-UNAVAILABLE}:20240310T140000Z/20240310T150000Z
{FREEBUSY};{FBTYPE}={BUSY}:20240310T160000Z/20240310T170000Z,20240311T160000Z/PT5M
{END}:{VFREEBUSY}
{BEGIN}:{VAVAILABILITY}
{UID}:5
{DTSTAMP}:20240101T000000Z
{DTSTART}:20240310T000000Z
{BUSYTYPE}:{BUSY}
{BEGIN}:{AVAILABLE}
{UID}:6
{DTSTAMP}:20240101T000000Z
{DTSTART}:20240310T090000Z
{DTEND}:20240310T100000Z
{END}:{AVAILABLE}
{END}:{VAVAILABILITY}
{BEGIN}:{VPOLL}
{UID}:7
{DTSTAMP}:20240101T000000Z
{DTSTART}:20240310T000000Z
{POLL-ITEM-ID}:1
{BEGIN}:{VVOTER}
{VOTER}:mailto:a@b
{BEGIN}:{VOTE}
{POLL-ITEM-ID}:1
{RESPONSE}:50
{END}:{VOTE}
{END}:{VVOTER}
{END}:{VPOLL}
{BEGIN}:{X-OWN}
{UID}:8
{GEO}:1.5;2.5
{BEGIN}:{IANA-TOKEN}
{X-A};{VALUE}={FLOAT}:1.5
{END}:{IANA-TOKEN}
{END}:{X-OWN}
{END}:{VCALENDAR}
"""

CARDS = """{BEGIN}:{VCARD}
{VERSION}:3.0
{N}:Doe;Jane;;;
{FN}:Jane Doe
{NICKNAME}:A,B
{PHOTO};{ENCODING}={B};{TYPE}=X:AAAA
{BDAY};{VALUE}={DATE}:2000-02-29
item1.{ADR};{TYPE}=home:;;Street 1;Town;;12345;
item1.{X-LABEL}:L
{TEL};{TYPE}=cell:+1
{EMAIL}:a@b
{GEO}:1.5;2.5
{ORG}:Org;Unit
{REV};{VALUE}={DATE-TIME}:2024-03-10T00:00:00Z
{UID}:1
{URL}:http://a.b/C
{X-OWN};{VALUE}={INTEGER}:5
{END}:{VCARD}
{BEGIN}:{VCARD}
{VERSION}:3.0
{N}:Roe;;;;
{FN}:Roe
{END}:{VCARD}
"""

DOCS = {"events": EVENTS, "others": OTHERS, "cards": CARDS}
TOKEN = re.compile(r"\{([^}]*)\}")
CASES = {"lower": str.lower, "title": str.capitalize, "mixed": lambda s: "".join([c.lower() if i % 2 else c.upper() for i, c in enumerate(s)])}


def tokens(doc):
    """the words whose case may vary: each keyword of each line; BEGIN and END lines have one for both"""
    return [m.group(1) for m in TOKEN.finditer(DOCS[doc])]


def render(doc, change):
    count = [-1]

    def one(m):
        count[0] += 1
        f = change.get(count[0])
        return CASES[f](m.group(1)) if f else m.group(1)
    return TOKEN.sub(one, DOCS[doc]).replace("\n", "\r\n")


def up(x):
    if isinstance(x, basestring):
        return x.upper()
    if isinstance(x, dict):
        return dict([(up(k), up(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [up(i) for i in x]
    return x


W = Period(DateTime(2024, 2, 25, 0, 0, 0, Timezone(utc=True)), DateTime(2024, 4, 20, 0, 0, 0, Timezone(utc=True)))


def tree(c):
    return [c.getType(), [tree(s) for s in c.getComponents()]]


def values(c):
    out = {}
    for name, props in c.getProperties().items():
        out[name.upper()] = [(type(p.getValue()).__name__, p.getValue().getText() if not hasattr(p.getValue(), "getValues") else [v.getText() for v in p.getValue().getValues()]) for p in props]
    return out


def calendar_view(text):
    TimezoneDatabase.createTimezoneDatabase("")
    cal = Calendar.parseText(text)
    out = {"tree": tree(cal), "text": cal.getText(), "values": values(cal), "method": cal.getMethod()}
    out["comps"] = []

    def walk(c):
        r = {"values": values(c)}
        if c.getType().upper() in ("VEVENT", "VTODO"):
            r["answers"] = ask.answers(c)
            r["class"] = type(c).__name__
        if c.getType().upper() == "VALARM":
            r["alarm"] = ask.alarm_answers(c)
        r["valid"] = c.duplicate().validate(doFix=False)
        out["comps"].append(r)
        for s in c.getComponents():
            walk(s)
    for c in cal.getComponents():
        walk(c)
    events = []
    cal.getVEvents(W, events)
    out["events"] = [(e.getInstanceStart().getText(), e.getInstanceStart().getPosixTime(), e.getInstanceEnd().getPosixTime(), e.getOwner().getSummary()) for e in events]
    busy = []
    cal.getFreeBusy(W, busy)
    out["busy"] = [(f.getType(), f.getPeriod().getText()) for f in busy]
    todos = []
    cal.getVToDos(False, False, W.getEnd(), todos)
    out["todos"] = [(t.getOwner().getUID(), t.getOwner().getStatusText(), t.getOwner().getCompletionState()) for t in todos]
    out["valid"] = cal.duplicate().validate(doFix=False)
    fixed = cal.duplicate()
    fixed.validate(doFix=True)
    out["fixed"] = fixed.getText()
    out["json"] = json.loads(cal.getTextJSON())
    out["again"] = Calendar.parseJSONData(cal.getTextJSON()).getText()
    return out


def cards_view(text):
    out = []
    for c in Card.parseMultipleData(text, "text/vcard"):
        out.append({"values": values(c), "text": c.getText(), "valid": c.duplicate().validate(doFix=False), "json": json.loads(c.getTextJSON())})
    return out


BASE = {}


def view(doc, change):
    text = render(doc, change)
    return up((cards_view if doc == "cards" else calendar_view)(text))


def where(a, b, path=""):
    """the first difference of two views"""
    if type(a) != type(b) or not isinstance(a, (dict, list)):
        return None if a == b else "%s: %r and %r" % (path, a, b)
    if isinstance(a, dict):
        if sorted(a) != sorted(b):
            return "%s: %r and %r" % (path, sorted(a), sorted(b))
        pairs = [(k, a[k], b[k]) for k in sorted(a)]
    else:
        if len(a) != len(b):
            return "%s: %r and %r" % (path, a, b)
        pairs = [(i, a[i], b[i]) for i in range(len(a))]
    for k, x, y in pairs:
        d = where(x, y, "%s/%s" % (path, k))
        if d:
            return d


def gen(tier):
    for doc in sorted(DOCS):
        words = tokens(doc)
        for f in sorted(CASES):
            yield [doc, f, "all"]
            for w in sorted(set(words)):
                yield [doc, f, "word", w]
        for i in range(len(words)):
            for f in sorted(CASES) if tier == "thorough" else ["lower"]:
                yield [doc, f, "one", i]
        if tier == "thorough":
            for v, w in itertools.combinations(sorted(set(words)), 2):
                yield [doc, "lower", "word", v, w]


def check(ctx, case):
    doc, f, kind = case[:3]
    words = tokens(doc)
    change = dict([(i, f) for i in range(len(words)) if kind == "all" or (kind == "one" and i == case[3]) or (kind == "word" and words[i] in case[3:])])
    if doc not in BASE:
        BASE[doc] = view(doc, {})
    ctx.step(len(change))
    got = view(doc, change)
    if got != BASE[doc]:
        raise Mismatch("%s with %s in %s case (%s) differs from the same in upper case in %s" % (
            doc, kind if kind == "all" else case[3:] if kind == "word" else "number %d, %s" % (case[3], words[case[3]]), f, len(change), (where(BASE[doc], got) or "")[:600]))
    ctx.see((doc, tuple(sorted(change.items()))))


PARTS = [
    ("documents", gen, check, "two calendars and a stream of cards with some 450 keywords: each one in lower case (thorough three forms), each word throughout and all words in three forms (thorough pairs of words)"),
]
