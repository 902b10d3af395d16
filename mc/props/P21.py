# P21: parser options change how the suspect data they name is read, and nothing else.
from mcbase import Mismatch
import itertools
import calcat as C
from pycalendar.exceptions import InvalidProperty, InvalidData
from pycalendar.parser import ParserContext
from pycalendar.icalendar.calendar import Calendar
from pycalendar.vcard.card import Card
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration

STATES = ["ALLOW", "IGNORE", "FIX", "RAISE"]
VALUE = dict([(s, getattr(ParserContext, "PARSER_" + s)) for s in STATES])
OPTIONS = ["INVALID_COLON_ESCAPE_SEQUENCE", "INVALID_ESCAPE_SEQUENCES", "BLANK_LINES_IN_DATA", "VCARD_2_NO_PARAMETER_VALUES",
           "VCARD_2_BASE64", "INVALID_DATETIME_VALUE", "INVALID_DATETIME_LEADINGSPACE", "INVALID_DURATION_VALUE", "INVALID_ADR_N_VALUES",
           "INVALID_REQUEST_STATUS_VALUE", "BACKSLASH_IN_URI_VALUE", "BACKSLASH_IN_GEO_VALUE"]
COLON, ESC, BLANK, NOPARAM, B64, DTV, SPACE, DUR, ADR, REQ, URI, GEO = OPTIONS
DEFAULT = dict([(o, getattr(ParserContext, o)) for o in OPTIONS])
NAME = dict([(v, k) for k, v in VALUE.items()])


class settings(object):
    def __init__(self, values):
        self.values = values

    def __enter__(self):
        self.old = dict([(o, getattr(ParserContext, o)) for o in OPTIONS])
        for o, s in self.values.items():
            setattr(ParserContext, o, VALUE[s])

    def __exit__(self, *a):
        for o, v in self.old.items():
            setattr(ParserContext, o, v)


# ---- conforming data ----------------------------------------------------------------------------------------
CARD = "\r\n".join(["BEGIN:VCARD", "VERSION:3.0", "UID:1", "N:Doe;Jane,Anne;\\,;Dr.;\\;", "FN:Jane\\, \\\\ Doe", "ORG:A\\;B;C", "ADR;TYPE=home:;;1 Main\\nSt.,2;X;Y;Z;W",
                    "TEL;TYPE=home,voice:1", "item1.EMAIL:a@example.com", "BDAY:1980-01-01", "NOTE:a\\nb\\,c", "URL:http://example.com/", "PHOTO;ENCODING=b:AAEC",
                    "X-A;X-B=c:d", "REV:2024-01-01T00:00:00Z", "GEO:1.5;2.5", "TZ:-0500", "END:VCARD", ""])
EVENT = ("VEVENT", ["UID:a", "DTSTAMP:20240101T000000Z"] + [l for l in C.LINES if not l.startswith("DTSTAMP")], [C.alarm("-PT5M")])
CAL = C.text(C.calendar([EVENT, C.zone("Test/NewYork")] + C.comps()[:8]))
BOTH = {}


def good():
    cal = Calendar.parseText(CAL).getText()
    card = Card.parseText(CARD).getText()
    jcal = Calendar.parseText(CAL).getTextJSON()
    return cal, card, jcal


def gen_good(tier):
    for i, o in enumerate(OPTIONS):
        for s in STATES:
            yield [{o: s}]
            for p in OPTIONS[i + 1:]:
                yield [{o: s, p: t} for t in STATES]
    yield ["all"]


def check_good(ctx, case):
    if not BOTH:
        BOTH["want"] = good()
    for c in case:
        if c == "all":
            c = dict([(o, "RAISE") for o in OPTIONS])
        with settings(c):
            try:
                got = good()
                # what is written is read the same by the strictest settings
                card2 = Card.parseText(got[1]).getText()
            except Exception as e:
                raise Mismatch("conforming data is refused with %r: %r" % (c, e))
        ctx.step(3)
        for w, g in zip(BOTH["want"] + (got[1],), got + (card2,)):
            if w != g:
                d = [l for l in zip(w.split("\r\n"), g.split("\r\n")) if l[0] != l[1]][:2]
                raise Mismatch("conforming data is read differently with %r: %r" % (c, d))
        ctx.see(sorted(c.items()))


# ---- suspect data: (kind, line, options it depends on, result by their settings) ---------------------------------
def esc(s):
    """how text holding a backslash is written out"""
    return s.replace("\\", "\\\\")


def colon(st):
    return {"FIX": ":", "ALLOW": "\\:", "IGNORE": "", "RAISE": None}[st[COLON]]


def bad(ch):
    def f(st):
        return {"FIX": ch, "ALLOW": "\\" + ch, "IGNORE": "", "RAISE": None}[st[ESC]]
    return f


def tmpl(fmt, *fs):
    """text with parts that depend on the settings; refused if one of them is"""
    def f(st):
        parts = [x(st) for x in fs]
        if None in parts:
            return None
        return fmt % tuple([esc(p) for p in parts])
    return f


def uri(fmt, raw, *fs):
    def f(st):
        if st[URI] != "FIX":
            return raw
        parts = [x(st) for x in fs]
        if None in parts:
            return None
        return fmt % tuple(parts)
    return f


def pick(opt, **by):
    def f(st):
        return by.get(st[opt], by.get("other"))
    return f


def noparam(keep, drop, b64=None):
    def f(st):
        s = st[NOPARAM]
        if s == "RAISE":
            return None
        if s == "ALLOW":
            return b64 if b64 is not None and st[B64] == "FIX" else keep
        return drop
    return f


SUSPECT = [
    ("ical", "SUMMARY:a\\:b", [COLON], tmpl("SUMMARY:a%sb", colon)),
    ("ical", "SUMMARY:\\:", [COLON], tmpl("SUMMARY:%s", colon)),
    ("ical", "SUMMARY:\\\\:a\\:\\:\\n", [COLON], tmpl("SUMMARY:\\\\:a%s%s\\n", colon, colon)),
    ("ical", "COMMENT;LANGUAGE=en:a\\zb\\,\\:", [COLON, ESC], tmpl("COMMENT;LANGUAGE=en:a%sb\\,%s", bad("z"), colon)),
    ("ical", "CATEGORIES:a\\qb,\\:,c", [COLON, ESC], tmpl("CATEGORIES:a%sb,%s,c", bad("q"), colon)),
    ("ical", "DESCRIPTION:x\\\"y\\tz\\\\z", [ESC], tmpl("DESCRIPTION:x%sy%sz\\\\z", bad("\""), bad("t"))),
    ("ical", "REQUEST-STATUS:2.0;a\\zb;c", [ESC], tmpl("REQUEST-STATUS:2.0;a%sb;c", bad("z"))),
    ("vcard", "FN:a\\zb\\:c", [COLON, ESC], tmpl("FN:a%sb%sc", bad("z"), colon)),
    ("vcard", "N:a\\zb;c;d;e;f", [ESC], tmpl("N:a%sb;c;d;e;f", bad("z"))),
    ("vcard", "ADR:;;1\\:2,b\\xc;d;e;f;g", [COLON, ESC], tmpl("ADR:;;1%s2,b%sc;d;e;f;g", colon, bad("x"))),
    ("vcard", "ORG:a\\:b;c\\e", [COLON, ESC], tmpl("ORG:a%sb;c%s", colon, bad("e"))),
    ("vcard", "NOTE:\\.", [ESC], tmpl("NOTE:%s", bad("."))),
    ("ical", "URL:http://a/\\;b\\,c", [URI], uri("URL:http://a/;b,c", "URL:http://a/\\;b\\,c")),
    ("ical", "URL:http\\://a/", [URI, COLON], uri("URL:http%s//a/", "URL:http\\://a/", colon)),
    ("ical", "ATTACH:file:///c\\dir", [URI, ESC], uri("ATTACH:file:///c%sir", "ATTACH:file:///c\\dir", bad("d"))),
    ("vcard", "URL:http\\://a/\\;", [URI, COLON], uri("URL:http%s//a/;", "URL:http\\://a/\\;", colon)),
    ("ical", "GEO:1.5\\;2.5", [], tmpl("GEO:1.5;2.5")),
    ("vcard", "TEL;HOME:1", [NOPARAM, B64], noparam("TEL;HOME:1", "TEL:1")),
    ("vcard", "TEL;HOME;TYPE=voice;X:1", [NOPARAM, B64], noparam("TEL;HOME;TYPE=voice;X:1", "TEL;TYPE=voice:1")),
    ("vcard", "X-Y;A=\"b\";BASE64;C:1", [NOPARAM, B64], noparam("X-Y;A=b;BASE64;C:1", "X-Y;A=b:1", "X-Y;A=b;C;ENCODING=B:1")),
    ("vcard", "PHOTO;BASE64:  AAEC", [NOPARAM, B64], noparam("PHOTO;BASE64:  AAEC", "PHOTO:  AAEC", "PHOTO;ENCODING=B:AAEC")),
    ("vcard", "PHOTO;base64:AAEC", [NOPARAM, B64], noparam("PHOTO;base64:AAEC", "PHOTO:AAEC", "PHOTO;ENCODING=B:AAEC")),
    ("vcard", "N:a;b;c;d;e;f;g", [ADR], pick(ADR, FIX="N:a;b;c;d;e", RAISE=None, other="N:a;b;c;d;e;f;g")),
    ("vcard", "ADR:1;2;3,x;4;5;6;7;8,y", [ADR], pick(ADR, FIX="ADR:1;2;3,x;4;5;6;7", RAISE=None, other="ADR:1;2;3,x;4;5;6;7;8,y")),
    ("ical", "REQUEST-STATUS:2.0\\;ok", [REQ], pick(REQ, RAISE=None, other="REQUEST-STATUS:2.0;ok")),
    ("ical", "REQUEST-STATUS:2.0", [REQ], pick(REQ, RAISE=None, other="REQUEST-STATUS:2.0;")),
    ("ical", "REQUEST-STATUS:2.0;a;b;c", [REQ], pick(REQ, RAISE=None, other="REQUEST-STATUS:2.0;a;b")),
    ("ical", "REQUEST-STATUS:2\\\\.0;a", [REQ], pick(REQ, RAISE=None, ALLOW="REQUEST-STATUS:2\\\\.0;a", other="REQUEST-STATUS:2.0;a")),
    ("ical", "DURATION:P1WT1H", [DUR], pick(DUR, RAISE=None, other="DURATION:P1W")),
    ("ical", "DURATION:P1W2D", [DUR], pick(DUR, RAISE=None, other="DURATION:P1W")),
    ("ical", "DURATION:-P1DT", [DUR], pick(DUR, RAISE=None, other="DURATION:-P1D")),
    ("ical", "DURATION:PT", [DUR], pick(DUR, RAISE=None, other="DURATION:PT0S")),
    ("ical", "RDATE;VALUE=PERIOD:20240101T000000Z/P2DT", [DUR], pick(DUR, RAISE=None, other="RDATE;VALUE=PERIOD:20240101T000000Z/P2D")),
    ("ical", "DURATION:P1", [], pick(DUR)),
    ("ical", "DURATION:P1D1H", [], pick(DUR)),
    ("ical", "DTSTART;VALUE=DATE: 9990101", [SPACE], pick(SPACE, RAISE=None, other="DTSTART;VALUE=DATE:09990101")),
    ("ical", "RDATE: 9990101T000000Z,20200101T000000Z", [SPACE], pick(SPACE, RAISE=None, other="RDATE:09990101T000000Z,20200101T000000Z")),
    ("ical", "DTSTART:2024 101T000000Z", [SPACE], None),
    # several kinds on one line
    ("ical", "ATTACH;X-A=1:a\\:b\\zc\\;", [URI, COLON, ESC], uri("ATTACH;X-A=1:a%sb%sc;", "ATTACH;X-A=1:a\\:b\\zc\\;", colon, bad("z"))),
    ("vcard", "N;X:a\\zb;b;c;d;e;f", [ESC, ADR, NOPARAM, B64], None),
]


def n_both(st):
    a = bad("z")(st)
    if a is None or st[ADR] == "RAISE" or st[NOPARAM] == "RAISE":
        return None
    return "N%s:a%sb;b;c;d;e%s" % (";X" if st[NOPARAM] == "ALLOW" else "", esc(a), "" if st[ADR] == "FIX" else ";f")


SUSPECT[-1] = SUSPECT[-1][:3] + (n_both,)
SUSPECT = [s for s in SUSPECT if s[3] is not None]


def wrap(kind, line):
    if kind == "ical":
        return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nBEGIN:VEVENT\r\nUID:1\r\n%s\r\nX-LAST:y\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n" % line
    return "BEGIN:VCARD\r\nVERSION:3.0\r\n%s\r\nX-LAST:y\r\nEND:VCARD\r\n" % line


FIXED = {"ical": set(["UID:1", "X-LAST:y", "BEGIN:VEVENT", "END:VEVENT", "BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "END:VCALENDAR"]),
         "vcard": set(["X-LAST:y", "BEGIN:VCARD", "VERSION:3.0", "END:VCARD"])}


def outcome(kind, line):
    """the line as written again, or None if refused"""
    try:
        t = (Calendar if kind == "ical" else Card).parseText(wrap(kind, line)).getText()
    except (InvalidProperty, InvalidData):
        return None
    ls = t.replace("\r\n ", "").split("\r\n")[:-1]
    rest = [l for l in ls if l not in FIXED[kind]]
    if len(rest) != 1 or len(ls) != len(FIXED[kind]) + 1:
        raise Mismatch("%r leaves the lines %r" % (line, ls))
    return rest[0]


def gen_bad(tier):
    for i, (kind, line, opts, _f) in enumerate(SUSPECT):
        for combo in itertools.product(STATES, repeat=len(opts)):
            yield [i, list(combo)]


def check_bad(ctx, case):
    i, combo = case
    kind, line, opts, f = SUSPECT[i]
    mine = dict(zip(opts, combo))
    others = [o for o in OPTIONS if o not in opts]
    extra = [{}] + [{o: s} for o in others for s in STATES] + [dict([(o, s) for o in others]) for s in STATES]
    if ctx.thorough:
        extra += [{o: s, p: t} for o, p in itertools.combinations(others, 2) for s in STATES for t in STATES]
    for e in extra:
        st = dict([(o, NAME[DEFAULT[o]]) for o in OPTIONS])
        st.update(mine)
        st.update(e)
        with settings(st):
            want = f(st)
            try:
                got = outcome(kind, line)
            except Mismatch:
                raise
            except Exception as ex:
                raise Mismatch("%s %r with %r%s fails: %r" % (kind, line, mine, e and " and %r" % e or "", ex))
        ctx.step()
        if got != want:
            raise Mismatch("%s %r with %r%s is %s, expected %s" % (kind, line, mine, e and " and %r" % e or "", got is None and "refused" or repr(got), want is None and "refusal" or repr(want)))
        ctx.see((i, tuple(sorted(mine.items())), got))


# ---- blank lines at every place -----------------------------------------------------------------------------------
def gen_blank(tier):
    for kind, text in (("cal", C.text(C.calendar([C.event("a", subs=[C.alarm("-PT5M")]), C.zone("Test/NewYork")]))), ("card", CARD), ("cards", CARD + CARD)):
        for k in range(0, text.count("\r\n") + 1):
            yield [kind, text, k]


def lines_read(kind, text):
    from cStringIO import StringIO
    if kind == "card":
        return Card.parseText(text).getText()
    if kind == "cards":
        return "".join([c.getText() for c in Card.parseMultipleTextData(StringIO(text))])
    return Calendar.parseText(text).getText()


def check_blank(ctx, case):
    kind, text, k = case
    want = lines_read(kind, text)
    ls = text.split("\r\n")
    n = len(ls) - 1
    for blanks in ([""], ["", ""]):
        t = "\r\n".join(ls[:k] + blanks + ls[k:])
        inside = 0 < k < n and not (kind == "cards" and k == n // 2)
        for s in STATES:
            for o in [{}] + [{p: "RAISE"} for p in OPTIONS if p != BLANK]:
                st = dict([(p, NAME[DEFAULT[p]]) for p in OPTIONS])
                st.update(o)
                st[BLANK] = s
                with settings(st):
                    try:
                        got = lines_read(kind, t)
                    except InvalidData:
                        got = None
                ctx.step()
                if inside:
                    exp = None if s == "RAISE" else want
                elif s == "RAISE" and got is None:
                    continue        # a blank line between or around objects may be refused too
                else:
                    exp = want
                if got != exp:
                    raise Mismatch("%s with %d blank lines after line %d and %s=%s: %s" % (kind, len(blanks), k, BLANK, s, "refused" if got is None else got))
        ctx.see((kind, k, len(blanks)))


# ---- allRaise ------------------------------------------------------------------------------------------------------
def gen_all(tier):
    for i in range(len(SUSPECT)):
        yield [i]


def check_all(ctx, case):
    kind, line, opts, f = SUSPECT[case[0]]
    with settings({}):
        ParserContext.allRaise()
        st = dict([(o, NAME[getattr(ParserContext, o)]) for o in OPTIONS])
        for o in OPTIONS:
            if st[o] != "RAISE":
                raise Mismatch("allRaise leaves %s at %s" % (o, st[o]))
        got = outcome(kind, line)
    ctx.step()
    want = f(st)
    ctx.see((case[0], got))
    if got != want:
        raise Mismatch("after allRaise %s %r is %r, expected %r" % (kind, line, got, want))


PARTS = [
    ("conforming", gen_good, check_good, "every option in every state alone and in pairs: a calendar with 53 kinds of property and 9 components, jCal and a vCard read as by default"),
    ("suspect", gen_bad, check_bad, "%d suspect lines x all states of the options they depend on x every state of each other option (thorough: of each pair)" % len(SUSPECT)),
    ("blank-lines", gen_blank, check_blank, "one or two blank lines after every line of a calendar, a card and two cards x 4 states x every other option"),
    ("allraise", gen_all, check_all, "every suspect line after allRaise"),
]
