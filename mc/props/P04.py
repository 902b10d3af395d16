# P04: dates, times, durations, periods and UTC offsets: written forms are the standard's and read back equal.
from mcbase import Mismatch
import itertools
import re
import xml.etree.cElementTree as XML
import refcal as R
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.utcoffsetvalue import UTCOffsetValue
from pycalendar.datetimevalue import DateTimeValue
from pycalendar.durationvalue import DurationValue
from pycalendar.periodvalue import PeriodValue

NS = "urn:ietf:params:xml:ns:icalendar-2.0"


def xml(value):
    """[(tag, text), ...] of what a value writes as XML"""
    root = XML.Element("r")
    value.writeXML(root, NS)
    XML.tostring(root)

    def walk(n):
        out = []
        for c in list(n):
            out.append((c.tag.split("}")[-1], c.text))
            out += walk(c)
        return out
    return walk(root)


def json1(value):
    out = []
    value.writeJSON(out)
    return out


def fields(d):
    return (d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds(), bool(d.isDateOnly()),
            bool(d.getTimezoneUTC()), d.getTimezoneID())


def rejected(fn, text, what):
    try:
        v = fn(text)
    except ValueError:
        return
    raise Mismatch("%s %r was accepted as %s" % (what, text, v.getText() if hasattr(v, "getText") else v))


# ---- date-times ------------------------------------------------------------------------------------------
def gen_dt(tier):
    for y in [1753, 1899, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2099, 2100, 9998] if tier != "thorough" else list(range(1753, 2300, 7)) + [9998]:
        for m in range(1, 13):
            yield ["dates", y, m]
    for h in range(24):
        yield ["times", h, 0]
    for h in range(-23, 24):
        yield ["offsets", h, 0]


def check_dt(ctx, case):
    kind, a, b = case
    if kind == "dates":
        for d in range(1, R.mlen(a, b) + 1):
            one(ctx, (a, b, d), "date")
            one(ctx, (a, b, d, 0, 0, 0), "floating")
            one(ctx, (a, b, d, 23, 59, 59), "utc")
    elif kind == "times":
        for mi in range(60):
            for s in (range(60) if ctx.thorough else (0, 1, 9, 10, 30, 59)):
                one(ctx, (2024, 2, 29, a, mi, s), "floating" if mi % 2 else "utc")
    else:
        for mi in range(0, 60):
            off = a * 3600 + (mi * 60 if a >= 0 else -mi * 60)
            one(ctx, (2024, 2, 29, 1, 2, 3), off)
            if a == 0 and mi:
                one(ctx, (2024, 2, 29, 1, 2, 3), -off)


def one(ctx, f, kind):
    if kind == "date":
        v = DateTime(*f)
        t, x, tag = R.dtext(f), "%04d-%02d-%02d" % f, "date"
        full = False
    else:
        tag = "date-time"
        t, x = R.text(f), "%04d-%02d-%02dT%02d:%02d:%02d" % f
        full = False
        if kind == "floating":
            v = DateTime(*f)
        elif kind == "utc":
            v = DateTime(*(list(f) + [Timezone(utc=True)]))
            t, x = t + "Z", x + "Z"
        else:
            full = True
            s = "%s%02d" % ("-" if kind < 0 else "+", abs(kind) // 3600)
            m = "%02d" % (abs(kind) // 60 % 60)
            t, x = t + s + m, x + s + ":" + m
            v = DateTime.parseText(x, True)
            if v.getPosixTime() != R.secs(*f) - kind:
                raise Mismatch("%s is read as instant %r" % (x, v.getPosixTime()))
    ctx.step(6)
    ctx.see(t)
    if v.getText() != t or v.getXMLText() != x or v.getJSONText() != x:
        raise Mismatch("written as %r, %r, %r; the standard forms are %r and %r" % (v.getText(), v.getXMLText(), v.getJSONText(), t, x))
    if xml(v) != [(tag, x)] or xml(DateTimeValue(v.duplicate())) != [(tag, x)]:
        raise Mismatch("XML of %s is %r, expected %r" % (t, xml(v), [(tag, x)]))
    if json1(v) != [x] or json1(DateTimeValue(v.duplicate())) != [tag, x]:
        raise Mismatch("JSON of %s is %r / %r" % (t, json1(v), json1(DateTimeValue(v.duplicate()))))
    backs = [DateTime.parseText(x, True), DateTime.parseText(t, True)]
    if not full:
        backs.append(DateTime.parseText(t))
    j = DateTime()
    j.parseJSON(x.decode("utf-8"))
    backs.append(j)
    for w in backs:
        if fields(w) != fields(v) or not (w == v) or hash(w) != hash(v) or w.getText() != t:
            raise Mismatch("%s read back as %r" % (t, fields(w)))


# ---- damaged date-times: every prefix, every trailing character, every separator replaced ------------------
def gen_dtbad(tier):
    for t, full in (("20240229", 0), ("20240229T010203", 0), ("20240229T010203Z", 0), ("2024-02-29", 1), ("20240229", 1),
                    ("2024-02-29T01:02:03", 1), ("2024-02-29T01:02:03Z", 1), ("2024-02-29T01:02:03+05:30", 1),
                    ("2024-02-29T01:02:03-0800", 1), ("20240229T010203-0800", 1)):
        yield [t, full]


DTOK = {0: re.compile(r"^\d{8}(T\d{6}Z?)?$"),
        1: re.compile(r"^\d{4}-?\d\d-?\d\d(T\d\d:?\d\d:?\d\d(,\d+)?(Z|[-+]\d\d:?\d\d)?)?$")}
TAIL = "0159TZWDHMSP+-:;,./ x"


def check_dtbad(ctx, case):
    t, full = case
    ok = DTOK[full]
    cands = [t[:i] for i in range(len(t))]
    cands += [t + c for c in TAIL] + [t + c + e for c in TAIL for e in TAIL]
    for i, c in enumerate(t):
        if not c.isdigit():
            cands += [t[:i] + e + t[i + 1:] for e in "TZPx./:-,"]      # another separator there
            cands.append(t[:i] + t[i + 1:])                             # none
        else:
            cands += [t[:i] + e + t[i + 1:] for e in "TZx:./"]           # something else for a digit
    for c in sorted(set(cands)):
        ctx.step()
        ctx.see((full, c))
        if ok.match(c):
            try:
                DateTime.parseText(c, bool(full))
            except ValueError:
                raise Mismatch("valid date-time %r is rejected" % c)
        else:
            rejected(lambda s: DateTime.parseText(s, bool(full)), c, "malformed date-time")


# ---- durations -----------------------------------------------------------------------------------------------
def gen_dur(tier):
    step = 2000
    for lo in range(0, 200000 if tier != "thorough" else 1300000, step):
        yield ["seconds", lo, step]
    for w in range(0, 60):
        yield ["parts", w, 0]
    for d in range(0, 9):
        yield ["fields", d, 0]


DUR = re.compile(r"^([-+]?)P(?:(\d+)W|(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?)$")


def refdur(t):
    m = DUR.match(t)
    w, d, h, mi, s = [int(x or 0) for x in m.groups()[1:]]
    n = w * 604800 + d * 86400 + h * 3600 + mi * 60 + s
    return -n if m.group(1) == "-" else n


def checkdur(ctx, v, total):
    t = v.getText()
    ctx.step(4)
    m = DUR.match(t)
    if m is None or t.endswith("T") or t.endswith("P") or m.group(4) and m.group(6) and not m.group(5):
        raise Mismatch("duration of %d s is written %r, which is not a duration" % (total, t))
    if refdur(t) != total or v.getTotalSeconds() != total:
        raise Mismatch("duration of %d s is written %r and totals %d" % (total, t, v.getTotalSeconds()))
    x = Duration.parseText(t)
    y = Duration()
    y.parseJSON(t.decode("utf-8"))
    z = Duration.parseText("P3W")
    z.parse(t)                                   # an object used before
    for b in (x, y, z):
        if b.getTotalSeconds() != total or not (b == v) or b != v or hash(b) != hash(v) or b.getText() != t:
            raise Mismatch("duration %r read back as %r (%d s)" % (t, b.getText(), b.getTotalSeconds()))
    ctx.see(t)


def check_dur(ctx, case):
    kind, a, b = case
    if kind == "seconds":
        for n in range(a, a + b):
            checkdur(ctx, Duration(duration=n), n)
            if n % 7 == 0:
                checkdur(ctx, Duration(duration=-n), -n)
            if n == a:
                for v in (Duration(duration=n), Duration(duration=-n)):
                    if json1(v) != [v.getText()] or xml(DurationValue(v)) != [("duration", v.getText())] or \
                            json1(DurationValue(v)) != ["duration", v.getText()]:
                        raise Mismatch("XML/JSON of %s: %r %r" % (v.getText(), xml(DurationValue(v)), json1(v)))
    elif kind == "parts":
        for unit, size in (("weeks", 604800), ("days", 86400), ("hours", 3600), ("minutes", 60), ("seconds", 1)):
            for s in (1, -1):
                checkdur(ctx, Duration(**{unit: s * a}), s * a * size)
    else:
        # every combination of fields written by hand, in every unit overflow
        for sign in ("", "-", "+"):
            for h in (0, 1, 25):
                for mi in (0, 5, 61):
                    for s in (0, 7, 61, 3600):
                        forms = ["%sP%dDT%dH%dM%dS" % (sign, a, h, mi, s), "%sPT%dH%dM%dS" % (sign, h, mi, s), "%sP%dDT%dS" % (sign, a, s),
                                 "%sP%dDT%dH" % (sign, a, h), "%sPT%dM" % (sign, mi), "%sP%dD" % (sign, a), "%sP%dW" % (sign, a),
                                 "%sPT%dH%dM" % (sign, h, mi), "%sPT%dM%dS" % (sign, mi, s)]
                        for t in forms:
                            v = Duration.parseText(t)
                            ctx.step()
                            if v.getTotalSeconds() != refdur(t):
                                raise Mismatch("%r is read as %d s" % (t, v.getTotalSeconds()))
                            checkdur(ctx, v, refdur(t))


# ---- damaged durations -------------------------------------------------------------------------------------
def gen_durbad(tier):
    n = 7 if tier == "thorough" else 6
    for first in "PT+-1W":
        for second in "PTWDHMS1+-x":
            yield [first + second, n]


def check_durbad(ctx, case):
    head, n = case
    alphabet = "PTWDHMS1-x"
    for k in range(0, n - 2 + 1):
        for rest in itertools.product(alphabet, repeat=k):
            t = head + "".join(rest)
            if "P" in t[2:]:
                continue
            ctx.step()
            m = DUR.match(t)
            if m and not t.endswith("P") and not t.endswith("T"):
                if "H" in t and "S" in t and "M" not in t:
                    continue            # no minutes between hours and seconds: not the standard's form, tolerated
                try:
                    v = Duration.parseText(t)
                except ValueError:
                    raise Mismatch("valid duration %r is rejected" % t)
                if v.getTotalSeconds() != refdur(t):
                    raise Mismatch("%r is read as %d s" % (t, v.getTotalSeconds()))
                ctx.see(t)
            else:
                # documented tolerances of the default settings: a bare trailing T, text after weeks
                if re.match(r"^[-+]?P(\d+D)?T$", t) or re.match(r"^[-+]?P\d+W", t):
                    continue
                if re.match(r"^[-+]?P(\d+D)?T\d+H\d+S$", t):
                    continue
                rejected(Duration.parseText, t, "malformed duration")


# ---- UTC offsets -----------------------------------------------------------------------------------------------
def gen_off(tier):
    for h in range(0, 24):
        yield [h]


def check_off(ctx, case):
    for m in range(60):
        for s in range(60) if ctx.thorough else (0, 1, 15, 59):
            for sign in (1, -1):
                n = sign * (case[0] * 3600 + m * 60 + s)
                if n == 0 and sign < 0:
                    continue
                c = "+" if sign > 0 else "-"
                t = "%s%02d%02d" % (c, case[0], m) + ("%02d" % s if s else "")
                x = "%s%02d:%02d" % (c, case[0], m) + (":%02d" % s if s else "")
                v = UTCOffsetValue(n)
                ctx.step(4)
                if v.getText() != t or xml(v) != [("utc-offset", x)] or json1(v) != ["utc-offset", x]:
                    raise Mismatch("offset %d is written %r, %r, %r" % (n, v.getText(), xml(v), json1(v)))
                for text, variant in ((t, "icalendar"), (x, "vcard"), (t, "vcard"), (x, None)):
                    w = UTCOffsetValue()
                    if variant:
                        w.parse(text, variant)
                    else:
                        w.parseJSONValue(text.decode("utf-8"))
                    if w.getValue() != n or w != v or hash(w) != hash(v):
                        raise Mismatch("offset %r (%s) is read as %r" % (text, variant, w.getValue()))
                ctx.see(t)

    def parse(text):
        w = UTCOffsetValue()
        w.parse(text, "icalendar")
        return w
    for good in ("+%02d30" % case[0], "-%02d3015" % case[0]):
        for i in range(len(good)):
            if i not in (5, 7):
                rejected(parse, good[:i], "cut-off UTC offset")
            for c in "0:Zx T":
                if len(good) + 1 not in (5, 7):
                    rejected(parse, good + c, "UTC offset with trailing data")
        for c in "0 Z:x":
            rejected(parse, c + good[1:], "unsigned UTC offset")


# ---- periods --------------------------------------------------------------------------------------------------
def gen_per(tier):
    for kind in ("utc", "floating"):
        for use in ("end", "duration"):
            for i in range(12):
                yield [kind, use, i]


LENGTHS = [0, 1, 59, 60, 3600, 3661, 86399, 86400, 90061, 604800, 604801, 31622400]


def check_per(ctx, case):
    kind, use, i = case
    for f in ((2024, 2, 28, 23, 59, 59), (2023, 12, 31, 0, 0, 0), (1999, 6, 15, 12, 30, 1)):
        tz = Timezone(utc=True) if kind == "utc" else None
        z = "Z" if kind == "utc" else ""
        s = DateTime(*(list(f) + [tz]))
        n = LENGTHS[i]
        ef = R.fields(R.secs(*f) + n)
        e = DateTime(*(list(ef) + [tz]))
        d = Duration(duration=n)
        p = Period(start=s, end=e) if use == "end" else Period(start=s, duration=d)
        tail = R.text(ef) + z if use == "end" else d.getText()
        t = R.text(f) + z + "/" + tail
        ctx.step(5)
        if p.getText() != t:
            raise Mismatch("period is written %r, expected %r" % (p.getText(), t))
        xs = "%04d-%02d-%02dT%02d:%02d:%02d" % f + z
        xt = "%04d-%02d-%02dT%02d:%02d:%02d" % ef + z if use == "end" else d.getText()
        if json1(p) != [[xs, xt]] or json1(PeriodValue(p.duplicate())) != ["period", [xs, xt]]:
            raise Mismatch("JSON of %s is %r" % (t, json1(p)))
        if xml(PeriodValue(p.duplicate())) != [("period", None), ("start", xs), (use, xt)]:
            raise Mismatch("XML of %s is %r" % (t, xml(PeriodValue(p.duplicate()))))
        a = Period.parseText(t)
        b = Period()
        b.parseJSON([xs.decode("utf-8"), xt.decode("utf-8")])
        c = Period.parseText("20200101T000000Z/P1D" if use == "end" else "20200101T000000Z/20200102T000000Z") if kind == "utc" else Period.parseText(t)
        c.parse(t) if use == "duration" else None
        for w in (a, b) + ((c,) if use == "duration" else ()):
            if fields(w.getStart()) != fields(s) or fields(w.getEnd()) != fields(e) or w.getDuration().getTotalSeconds() != n or \
                    bool(w.getUseDuration()) != (use == "duration") or not (w == p) or hash(w) != hash(p) or w.getText() != t:
                raise Mismatch("period %s read back as %s (%s, %d s)" % (t, w.getText(), fields(w.getEnd()), w.getDuration().getTotalSeconds()))
        ctx.see(t)
        cut = t.index("/") + 1
        for j in range(len(t)):
            prefix = t[:j]
            rest = prefix[cut:] if j >= cut else ""
            if rest and (re.match(r"^\d{8}(T\d{6}Z?)?$", rest) or (DUR.match(rest) and rest[-1] not in "P")):
                continue
            rejected(Period.parseText, prefix, "cut-off period")


PARTS = [
    ("date-times", gen_dt, check_dt, "every day of 12 (thorough 79) years, times of a day, every whole-minute offset"),
    ("damaged-date-times", gen_dtbad, check_dtbad, "every prefix, every 1-2 characters appended, every one-character replacement of 10 forms"),
    ("durations", gen_dur, check_dur, "every length 0..200000 s (thorough 1.3 million), every field combination"),
    ("damaged-durations", gen_durbad, check_durbad, "every string to length 6 (thorough 7) over the duration alphabet"),
    ("offsets", gen_off, check_off, "every offset to the minute with seconds in {0,1,15,59} (thorough: to the second)"),
    ("periods", gen_per, check_per, "3 starts x 12 lengths x end/duration x UTC/floating, and every prefix"),
]
