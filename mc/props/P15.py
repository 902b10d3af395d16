# P15: text of any content survives escaping; every escaped text is read as RFC 5545 says or refused.
from mcbase import Mismatch
import itertools
from cStringIO import StringIO
from pycalendar import utils
from pycalendar.exceptions import InvalidProperty
from pycalendar.value import Value
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty

CHARS = ["a", "n", "\\", ",", ";", ":", "\n", "\r", '"', " ", "\xc3\xa9", "N"]
RAW = ["\\", "n", "N", "r", ",", ";", ":", '"', "a", " "]


def unfold(s):
    if not s.endswith("\r\n"):
        raise Mismatch("line does not end in CRLF: %r" % s)
    s = s[:-2].replace("\r\n ", "")
    if "\r" in s or "\n" in s:
        raise Mismatch("line break inside a property: %r" % s)
    return s


def value_of(line):
    i = line.index(":")
    return line[:i], line[i + 1:]


def decode(raw, seps=","):
    """the values (split at unescaped seps), or None where RFC 5545 and the \\r and \\: extensions do not allow the text"""
    out, cur, i = [], "", 0
    while i < len(raw):
        c = raw[i]
        if c == "\\":
            if i + 1 >= len(raw):
                return None
            d = raw[i + 1]
            m = {"n": "\n", "N": "\n", "r": "\r", "\\": "\\", ",": ",", ";": ";", ":": ":"}.get(d)
            if m is None:
                return None
            cur += m
            i += 2
            continue
        if c in seps:
            out.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    return out + [cur]


def strict(raw):
    """no bare , ; or line break"""
    i = 0
    while i < len(raw):
        if raw[i] == "\\":
            i += 2
            continue
        if raw[i] in ",;\r\n":
            return False
        i += 1
    return True


def gen_values(tier):
    for n in range(0, 5 if tier == "quick" else 6):
        for p in itertools.product(CHARS, repeat=n):
            yield "".join(p)


def check_value(ctx, v):
    raw = utils.escapeTextValue(v)
    if not strict(raw) or decode(raw) != [v]:
        raise Mismatch("%r is escaped as %r" % (v, raw))
    if utils.decodeTextValue(raw) != v:
        raise Mismatch("%r, escaped as %r, is read as %r" % (v, raw, utils.decodeTextValue(raw)))
    ctx.step()
    if len(v) > 3 and "a" in v and not ctx.thorough:
        return
    for cls, name in ((Property, "SUMMARY"), (VProperty, "FN")):
        p = cls(name=name, value=v)
        line = unfold(p.getText())
        head, raw2 = value_of(line)
        if head != name or not strict(raw2) or decode(raw2) != [v]:
            raise Mismatch("%s of %r is written %r" % (name, v, line))
        q = cls.parseText(line)
        ctx.step()
        if q.getTextValue().getValue() != v or q.getName() != name:
            raise Mismatch("%s of %r, written %r, is read as %r" % (name, v, line, q.getTextValue().getValue()))
        if not (q == p) or q != p or hash(q) != hash(p) or unfold(q.getText()) != line:
            raise Mismatch("%s of %r read back differs from what was written" % (name, v))
    ctx.see(raw)


def gen_lists(tier):
    small = ["", "a", ",", "\\", ";", "\\,", ",\\", "\\\\", "\n", "a,b", "\\n", ":"]
    if tier != "quick":
        small += ["".join(p) for p in itertools.product("\\,;n", repeat=2)] + ["\\\\,", "\xc3\xa9"]
        small = sorted(set(small))
    for n in range(1, 4 if tier == "quick" else 4):
        for p in itertools.product(small, repeat=n):
            yield list(p)


def check_list(ctx, vals):
    for name in ("CATEGORIES", "RESOURCES"):
        p = Property(name)
        p.setValue(vals)
        line = unfold(p.getText())
        head, raw = value_of(line)
        if head != name or decode(raw) != vals:
            raise Mismatch("%s %r written %r" % (name, vals, line))
        q = Property.parseText(line)
        ctx.step()
        got = [x.getValue() for x in q.getMultiValue().getValues()]
        if got != vals:
            raise Mismatch("%s %r, written %r, is read as %r" % (name, vals, line, got))
        if not (q == p) or unfold(q.getText()) != line:
            raise Mismatch("%s %r read back differs" % (name, vals))
        d = q.duplicate()
        if not (d == q) or unfold(d.getText()) != line:
            raise Mismatch("copy of %s %r differs" % (name, vals))
    for sep in ";,":
        os = StringIO()
        utils.generateTextList(os, tuple(vals), sep)
        got = utils.parseTextList(os.getvalue(), sep, True)
        ctx.step()
        if list(got) != vals:
            raise Mismatch("list %r with %s, written %r, is read as %r" % (vals, sep, os.getvalue(), got))
    if len(vals) == 2 or (len(vals) == 3 and vals[2] != ""):
        # REQUEST-STATUS: code ; description [; data]
        if "\\" in vals[0] or ";" in vals[0]:
            return
        p = Property("REQUEST-STATUS", list(vals))
        line = unfold(p.getText())
        q = Property.parseText(line)
        ctx.step()
        if q.getValue().getValue() != vals or unfold(q.getText()) != line or not (p == q):
            raise Mismatch("REQUEST-STATUS %r, written %r, is read as %r" % (vals, line, q.getValue().getValue()))
    ctx.see(tuple(vals))


def gen_nested(tier):
    parts = ["", "a", ",", ";", "\\", ("a", "b"), ("", ","), (";", "\\"), ("", ""), ("a", "", "b"), ("a", ",", "")]
    for p in itertools.product(range(len(parts)), repeat=3):
        for width in (3, 5):
            yield ([parts[i] for i in p], width)


def check_nested(ctx, case):
    parts, width = case
    parts = [tuple(x) if isinstance(x, list) else x for x in parts]
    full = tuple(parts + [""] * (width - 3))
    os = StringIO()
    utils.generateDoubleNestedList(os, full)
    raw = os.getvalue()
    got = utils.parseDoubleNestedList(raw, width)
    ctx.step()
    ctx.see(raw)
    if got != full:
        raise Mismatch("%r, written %r, is read as %r" % (full, raw, got))


def gen_raw(tier):
    for n in range(0, 5 if tier == "quick" else 6):
        for p in itertools.product(RAW, repeat=n):
            yield "".join(p)


def check_raw(ctx, raw):
    want = decode(raw, "")
    ends = raw.endswith("\\") and want is None and decode(raw[:-1], "") is not None
    if ends:
        return      # a lone \ at the end: see P21
    try:
        got = [utils.decodeTextValue(raw)]
    except ValueError:
        got = None
    ctx.step()
    if got != want:
        raise Mismatch("text %r is read as %r, expected %r" % (raw, got, want))
    if len(raw) > 3 and not ctx.thorough and "\\" not in raw:
        return
    for name, wanted in (("SUMMARY", want), ("CATEGORIES", decode(raw, ","))):
        line = name + ":" + raw
        try:
            p = Property.parseText(line)
        except InvalidProperty:
            p = None
        ctx.step()
        if (p is None) != (wanted is None):
            raise Mismatch("%r is %s" % (line, "refused" if p is None else "accepted"))
        if p is None:
            continue
        got = [p.getTextValue().getValue()] if name == "SUMMARY" else [x.getValue() for x in p.getMultiValue().getValues()]
        if got != wanted:
            raise Mismatch("%r is read as %r, expected %r" % (line, got, wanted))
        again = Property.parseText(unfold(p.getText()))
        if not (again == p):
            raise Mismatch("%r is rewritten %r" % (line, p.getText()))
        ctx.see((name, tuple(got)))


PARTS = [
    ("values", gen_values, check_value, "every text of up to 4 (5 thorough) characters over 12, as iCalendar and vCard text"),
    ("lists", gen_lists, check_list, "every list of up to three of 12 (28) texts, as multi-valued property, text list and REQUEST-STATUS"),
    ("nested", gen_nested, check_nested, "every triple of 11 single or multiple components in 3- and 5-part structured values"),
    ("escaped", gen_raw, check_raw, "every raw text of up to 4 (5) characters over 10, against a reference decoder"),
]
