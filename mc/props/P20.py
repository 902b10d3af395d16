# P20: a calendar is read completely or refused: nesting, truncation, and damage are detected, and refusal changes nothing.
from mcbase import Mismatch
from cStringIO import StringIO
import itertools
import json
import calcat as C
from pycalendar.exceptions import ErrorBase, InvalidData, InvalidProperty
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.vcard.card import Card

NO = Calendar.NO_TIMEZONES
TimezoneDatabase.createTimezoneDatabase("")


class Refused(Exception):
    pass


def grammar(lines, container="VCALENDAR", nesting=True):
    """what the lines say: None if nothing, a spec tree, or Refused"""
    stack, root, inside = [], None, False
    for l in lines:
        if l == "":
            continue
        if not inside:
            if l != "BEGIN:" + container:
                raise Refused("text outside")
            if root is None:
                root = (container, [], [])      # a second one in the same stream goes on with the first
            inside = True
            stack = [root]
        elif nesting and l == "BEGIN:" + container:
            raise Refused("a calendar in a calendar")
        elif l.startswith("BEGIN:"):
            if not nesting:
                raise Refused("a component in a card")
            stack.append((l[6:], [], []))
        elif l.startswith("END:"):
            if l[4:] != stack[-1][0]:
                raise Refused("END of another component")
            if len(stack) == 1:
                inside = False
            else:
                stack[-2][2].append(stack.pop())
        elif ":" not in l:
            raise Refused("not a property")
        else:
            stack[-1][1].append(l)
    if inside:
        raise Refused("truncated")
    if root is not None and not [l for l in root[1] if l.startswith("VERSION:")]:
        raise Refused("no version")
    if root is not None and [l for l in root[1] if l.startswith("VERSION:") and l != "VERSION:" + ("2.0" if container == "VCALENDAR" else "3.0")]:
        raise Refused("another version")
    return root


ALLOWED = {"VEVENT": ["VALARM"], "VTODO": ["VALARM"], "VTIMEZONE": ["STANDARD", "DAYLIGHT"], "VAVAILABILITY": ["AVAILABLE"], "VVOTER": ["VOTE"]}


def legal(spec):
    """components in places the library refuses them in are refused"""
    for s in spec[2]:
        if spec[0] in ALLOWED and s[0] not in ALLOWED[spec[0]]:
            raise Refused("%s in %s" % (s[0], spec[0]))
        legal(s)


def judge(ctx, lines, what=None, cls=Calendar):
    cal = cls is Calendar
    src = "".join([l + "\r\n" for l in lines])
    what = what or repr(src)
    try:
        want = grammar(lines, "VCALENDAR" if cal else "VCARD", cal)
        if want:
            legal(want)
    except Refused as e:
        want = e
    ctx.step()
    try:
        got = cls.parseText(src)
    except (ErrorBase, ValueError) as e:
        if not isinstance(want, Refused):
            raise Mismatch("%s is refused: %s" % (what, e))
        ctx.see((type(e).__name__, str(e)))
        if isinstance(e, ValueError) and "components allowed in" not in str(e):
            raise Mismatch("%s is refused with %r" % (what, e))
        return None
    if isinstance(want, Refused):
        raise Mismatch("%s (%s) is read as %r" % (what, want, got and got.getText()))
    if (got is None) != (want is None):
        raise Mismatch("%s is read as %r" % (what, got and got.getText()))
    if got is not None:
        out = got.getText(NO) if cal else got.getText()
        if C.multiset(C.read(out)) != C.multiset(want):
            raise Mismatch("%s is read as %r" % (what, out))
        ctx.see(out)
    return got


# --- all short sequences of lines
TOKENS = ["BEGIN:VCALENDAR", "END:VCALENDAR", "BEGIN:VEVENT", "END:VEVENT", "BEGIN:VALARM", "END:VALARM", "VERSION:2.0", "X-A:1", "X-no colon"]


def gen_lines(tier):
    top = 6 if tier == "thorough" else 5
    # after BEGIN:VCALENDAR and VERSION, everything else
    for k in range(0, top + 1):
        for ix in itertools.product(range(len(TOKENS)), repeat=k):
            if k <= 3 or ix[0] == 0:
                yield ["raw", list(ix)]
            if k <= top - 1:
                yield ["started", list(ix)]
                yield ["event", list(ix)]


def check_lines(ctx, case):
    how, ix = case
    lines = [TOKENS[i] for i in ix]
    if how == "started":
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0"] + lines
    elif how == "event":
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "BEGIN:VEVENT", "UID:1"] + lines
    judge(ctx, lines)


CARD = ["BEGIN:VCARD", "END:VCARD", "VERSION:3.0", "N:a;b;;;", "BEGIN:VEVENT", "END:VCALENDAR", "nothing", "VERSION:2.1", ""]


def gen_card(tier):
    for k in range(0, 5 if tier != "thorough" else 6):
        for ix in itertools.product(range(len(CARD)), repeat=k):
            yield list(ix)


def check_card(ctx, case):
    lines = [CARD[i] for i in case]
    if lines.count("BEGIN:VCARD") > 1:
        return
    judge(ctx, lines, cls=Card)


MULTI = ["BEGIN:VCARD", "END:VCARD", "VERSION:3.0", "FN:x", "nothing", "BEGIN:VEVENT", "", "END:VEVENT"]


def gen_multi(tier):
    for k in range(0, 5 if tier != "thorough" else 6):
        for ix in itertools.product(range(len(MULTI)), repeat=k):
            for start in (0, 1):
                yield [start, list(ix)]


def cards(lines):
    """the cards in a stream, each a list of lines, or None where it is no stream of cards"""
    out, cur = [], None
    for l in lines:
        if l == "":
            continue
        if cur is None:
            if l != "BEGIN:VCARD":
                return None
            cur = []
        elif l == "END:VCARD":
            if "VERSION:3.0" not in cur:
                return None
            out.append(cur)
            cur = None
        elif ":" not in l or l.startswith("BEGIN:") or l.startswith("END:"):
            return None
        else:
            cur.append(l)
    return out if cur is None else None


def check_multi(ctx, case):
    start, ix = case
    lines = (["BEGIN:VCARD", "VERSION:3.0", "N:a;b;;;", "END:VCARD", "BEGIN:VCARD", "VERSION:3.0", "X-A:1"] if start else []) + [MULTI[i] for i in ix]
    want = cards(lines)
    src = "".join([l + "\r\n" for l in lines])
    ctx.step()
    try:
        got = Card.parseMultipleTextData(StringIO(src))
    except ErrorBase as e:
        if want is not None:
            raise Mismatch("%r is refused: %s" % (src, e))
        ctx.see(str(e))
        return
    if want is None:
        raise Mismatch("%r is read as %r" % (src, [c.getText() for c in got]))
    if [C.multiset(C.read(c.getText())) for c in got] != [C.multiset(("VCARD", w, [])) for w in want]:
        raise Mismatch("%r is read as %r" % (src, [c.getText() for c in got]))
    ctx.see(src)


# --- real calendars cut short and with lines dropped, doubled, exchanged
def texts():
    c = C.comps()
    return [C.calendar([c[1]]), C.calendar([c[8]]), C.calendar([c[11]]), C.calendar([c[12], c[4]]), C.calendar([c[10], c[7]])]


def gen_damage(tier):
    for t in range(len(texts())):
        n = len(C.lines_of(texts()[t]))
        for i in range(len(C.text(texts()[t])) + 1):
            yield ["cut", t, i]
        for i in range(n):
            yield ["drop", t, i]
            yield ["double", t, i]
            yield ["end", t, i]
            for j in range(i + 1, n):
                yield ["swap", t, i, j]
                if tier == "thorough":
                    yield ["dropboth", t, i, j]


def check_damage(ctx, case):
    how, t = case[0], case[1]
    spec = texts()[t]
    lines = C.lines_of(spec)
    if how == "cut":
        src = C.text(spec)
        part = src[:case[2]]
        whole = len(part) >= len(src) - 2
        for data in (part, StringIO(part)):
            ctx.step()
            try:
                got = Calendar.parseText(data)
            except (InvalidData, InvalidProperty) as e:
                ctx.see(str(e))
                got = e
            if part == "" and got is None:
                continue
            if isinstance(got, Calendar) != whole:
                raise Mismatch("%r cut after %d octets is %r" % (src, case[2], got))
            if whole and C.canon(C.read(got.getText(NO))) != C.canon(spec):
                raise Mismatch("%r without its last line end is read as %r" % (src, got.getText(NO)))
        return
    i = case[2]
    if how == "drop":
        lines = lines[:i] + lines[i + 1:]
    elif how == "double":
        lines = lines[:i + 1] + lines[i:]
    elif how == "swap":
        j = case[3]
        lines[i], lines[j] = lines[j], lines[i]
    elif how == "dropboth":
        j = case[3]
        lines = lines[:i] + lines[i + 1:j] + lines[j + 1:]
    else:
        lines = lines[:i] + ["END:VCALENDAR"] + lines[i:]
    judge(ctx, lines)


# --- characters replaced, dropped, added
BASE = C.calendar([C.event("a", "ATTENDEE;CN=\"Doe; Jane\":mailto:a@example.com", "DURATION:PT1H", "GEO:1.5;2.5", "RRULE:FREQ=DAILY;COUNT=2", "SEQUENCE:2",
                           "EXDATE;VALUE=DATE:20240302,20240303", "REQUEST-STATUS:2.0;ok", "CATEGORIES:a\\,b,c", "X-FOO;VALUE=INTEGER:5", "RDATE;VALUE=PERIOD:20240304T083000Z/PT1H",
                           subs=[C.alarm("-PT5M", "AUDIO", "ATTACH;ENCODING=BASE64;VALUE=BINARY:AAEC")]),
                   ("VTIMEZONE", ["TZID:Damaged"], [("STANDARD", ["DTSTART:20000101T000000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0500"], [])])])
CHARS = "\x00\r\n :;,=\"\\^A0-\xc3\x80/"


def gen_chars(tier):
    n = len(C.text(BASE))
    for i in range(n):
        yield i


def check_chars(ctx, case):
    src = C.text(BASE)
    i = case
    news = [src[:i] + src[i + 1:]]
    for c in CHARS:
        news.append(src[:i] + c + src[i + 1:])
        news.append(src[:i] + c + src[i:])
    for new in news:
        contained(ctx, new)


def contained(ctx, src, read=None):
    TimezoneDatabase.clearTimezoneDatabase()
    TimezoneDatabase.createTimezoneDatabase("")
    ctx.step()
    try:
        cal = (read or Calendar.parseText)(src)
    except UnicodeDecodeError:
        # Jython cannot look for files whose name is not UTF-8 (CPython can)
        tzid = [l for l in src.split("\r\n") if l.startswith("TZID")]
        try:
            "".join(tzid).decode("utf-8")
        except UnicodeDecodeError:
            return
        raise
    except ErrorBase as e:
        ctx.see(type(e).__name__)
        if TimezoneDatabase.getTimezone("Damaged") is not None:
            raise Mismatch("%r is refused, but its zone is known" % src)
        return
    except ValueError as e:
        if "components allowed in" in str(e):
            return
        raise
    out = cal.getText(NO)
    again = Calendar.parseText(out)
    # (a CR inside a line is a line break in the value of a parameter, written as ^n: DESIGN.md, P17)
    if again.getText(NO) != out or not (again == cal or "\r" in src.replace("\r\n", "")):
        raise Mismatch("%r is read, but written %r, which reads as %r" % (src, out, again.getText(NO)))


# --- jCal damaged at each place
def jnodes(j, path=()):
    yield path
    if isinstance(j, list):
        for i in range(len(j)):
            for p in jnodes(j[i], path + (i,)):
                yield p
    elif isinstance(j, dict):
        for k in sorted(j):
            for p in jnodes(j[k], path + (k,)):
                yield p


def jtree():
    return json.loads(Calendar.parseText(C.text(BASE)).getTextJSON(NO))


OTHER = [None, 5, -1.5, True, "", "x", [], {}, [[]], [None], {"a": 1}, ["vevent", [], []], ["uid", {}, "text", "z"]]


def gen_json(tier):
    for p in list(jnodes(jtree())):
        yield list(p)


def check_json(ctx, case):
    for o in range(len(OTHER) + 2):
        tree = jtree()
        if not case:
            if o >= len(OTHER):
                continue
            tree = OTHER[o]
        else:
            at = tree
            for k in case[:-1]:
                at = at[k]
            if o < len(OTHER):
                at[case[-1]] = OTHER[o]
            elif o == len(OTHER):
                del at[case[-1]]
            elif isinstance(at, list):
                at.insert(case[-1], at[case[-1]])
        text = json.dumps(tree)
        contained_json(ctx, text)


def contained_json(ctx, text):
    TimezoneDatabase.clearTimezoneDatabase()
    TimezoneDatabase.createTimezoneDatabase("")
    ctx.step()
    try:
        cal = Calendar.parseJSONData(text)
    except ErrorBase as e:
        ctx.see(type(e).__name__)
        return
    except ValueError as e:
        if "components allowed in" in str(e):
            return
        raise
    out = cal.getText(NO)
    ctx.see(out)
    j = json.loads(text)
    if not isinstance(j, list) or j[0].lower() != "vcalendar":
        raise Mismatch("jCal %s is read as a calendar" % text)


def gen_jtext(tier):
    n = len(json.dumps(jtree()))
    for i in range(n):
        yield i


def check_jtext(ctx, case):
    text = json.dumps(jtree())
    try:
        Calendar.parseJSONData(text[:case])
    except ErrorBase as e:
        ctx.see(type(e).__name__)
        return
    raise Mismatch("jCal cut after %d octets is read" % case)


# --- reading components into a calendar there is
def gen_into(tier):
    n = len(C.comps())
    for i in range(n):
        for j in range(n):
            yield [i, j]
    for i in range(n):
        yield [i]


def check_into(ctx, case):
    specs = [C.comps()[i] for i in case]
    src = C.text(C.calendar(specs))
    old = C.event("old")
    cal = Calendar.parseText(C.text(C.calendar([old])))
    got = cal.parseComponent(StringIO(src + "BEGIN:VCALENDAR\r\nthis is not read\r\n"))
    ctx.step()
    if C.canon(C.read(got.getText())) != C.canon(specs[0]) or got is not cal.getComponents()[1]:
        raise Mismatch("the component read from %r is %r" % (src, got.getText()))
    if C.canon(C.read(cal.getText(NO))) != C.canon(C.calendar([old] + specs)):
        raise Mismatch("reading %r into a calendar gives %r" % (src, cal.getText(NO)))
    if len(case) > 1:
        return
    # truncated
    lines = C.lines_of(C.calendar(specs))
    for k in range(1, len(lines)):
        part = "".join([l + "\r\n" for l in lines[:k]])
        for tail in ("", "END:VCALENDAR\r\n"):
            if tail and k in (1, 2, 3, len(lines) - 1):
                continue
            cal = Calendar.parseText(C.text(C.calendar([old])))
            ctx.step()
            try:
                got = cal.parseComponent(StringIO(part + tail))
            except ErrorBase:
                if tail or k < len(lines) - 1:
                    if C.canon(C.read(cal.getComponents()[0].getText())) != C.canon(old):
                        raise Mismatch("refusing %r changed what the calendar held" % (part + tail))
                continue
            raise Mismatch("%r is read by parseComponent as %r" % (part + tail, got and got.getText()))


PARTS = [
    ("lines", gen_lines, check_lines, "all sequences of up to 5 (thorough: 6) of 9 lines, from the start, in a calendar and in an event"),
    ("cards", gen_card, check_card, "all sequences of up to 4 (5) of 9 lines as a vCard"),
    ("streams", gen_multi, check_multi, "all sequences of up to 4 (5) of 8 lines as a stream of vCards, from the start and in the second card"),
    ("damage", gen_damage, check_damage, "5 calendars cut at every octet; every line dropped, doubled, preceded by an END, exchanged with every other"),
    ("characters", gen_chars, check_chars, "every octet of a calendar dropped, replaced by and preceded by each of 17 others"),
    ("jcal", gen_json, check_json, "every node of a jCal replaced by each of 13 others, dropped, doubled"),
    ("jcaltext", gen_jtext, check_jtext, "a jCal text cut at every octet"),
    ("into", gen_into, check_into, "parseComponent on all pairs of 15 components, and cut after every line"),
]
