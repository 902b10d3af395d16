# P32: what a vCard says is read, made, edited and written alike, as text and as jCard.
from mcbase import Mismatch
import itertools
import json
from cStringIO import StringIO
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.utcoffsetvalue import UTCOffsetValue
from pycalendar.vcard.adr import Adr
from pycalendar.vcard.card import Card
from pycalendar.vcard.n import N
from pycalendar.vcard.property import Property

JCARD = "application/vcard+json"


def esc(s):
    return s.replace("\\", "\\\\").replace(",", "\\,").replace(";", "\\;").replace("\n", "\\n")


def nested(value):
    return ";".join(esc(i) if isinstance(i, str) else ",".join(map(esc, i)) for i in value)


def jnested(value):
    return [i if isinstance(i, str) else list(i) for i in value]


def dt(text):
    p = map(int, (text[:4], text[4:6], text[6:8]))
    if "T" not in text:
        return DateTime(*p)
    return DateTime(*(p + map(int, (text[9:11], text[11:13], text[13:15])) + [Timezone(utc=text[-1:] == "Z")]))


def jdt(text):
    d = "%s-%s-%s" % (text[:4], text[4:6], text[6:8])
    return d if "T" not in text else "%sT%s:%s:%s%s" % (d, text[9:11], text[11:13], text[13:15], text[15:])


# A kind of value: (text, jCard type and values, object to make it from, what the API says)
TEXTS = ["", "a", "a,b;c", "x\\y", "a\nb", "\xc3\xa9 \xe2\x82\xac", " a ", "\\", "\\n", ";", ",", "\n", "a:b\"c'", "x" * 80]
PARTS_OF = ["", "a", "b;c", "d,e", "\\", ("f", "g"), ("h,i", "j;k", ""), "\xc3\xa9"]


def texts():
    for t in TEXTS:
        yield esc(t), "text", [t], t, t


def lists():
    for n in (1, 2, 3):
        for t in itertools.product(["a", "b,c", "", "\\", "\xc3\xa9;"], repeat=n):
            yield ",".join(map(esc, t)), "text", list(t), list(t), list(t)


def structured(cls, n):
    def gen():
        for i, j in itertools.permutations(range(n), 2):
            for a, b in itertools.product(PARTS_OF, repeat=2):
                v = [""] * n
                v[i], v[j] = a, b
                if i < j or a != "":
                    yield nested(v), "text", [jnested(v)], cls(*v), tuple(v)
    return gen


def orgs():
    for n in (1, 2, 3):
        for t in itertools.product(["a", "b;c", "", "d,e", "\\"], repeat=n):
            yield ";".join(map(esc, t)), "text", [list(t) if n > 1 else t[0]], tuple(t), tuple(t)


def datetimes():
    for t in ("20000102", "19991231", "20240229"):
        yield t, "date", [jdt(t)], dt(t), dt(t)
    for t in ("20000102T030405Z", "19991231T235959", "20240229T000000Z"):
        yield t, "date-time", [jdt(t)], dt(t), dt(t)


def offsets():
    for t, v in (("+0100", 3600), ("-0500", -18000), ("+0000", 0), ("-0330", -12600), ("+1400", 50400), ("-0030", -1800)):
        yield t, "utc-offset", [t[:3] + ":" + t[3:]], UTCOffsetValue(v), v


def geos():
    for a, b in itertools.product((0.0, 1.5, -37.386013, 90.0, -0.25), repeat=2):
        yield "%r;%r" % (a, b), "float", [[a, b]], [a, b], [a, b]


def uris():
    for u in ("http://a/b;c,d?e=f", "cid:x", "urn:uuid:1"):
        yield u, "uri", [u], None, u


def binaries():
    for b in ("", "AAEC", "AAEC" * 40, "AA=="):
        yield b, "binary", [b], None, b


def unknowns():
    for t in ("", "a", "a,b;c", "x\\ny\\", "TRUE", "\xc3\xa9"):
        yield t, "unknown", [t], None, t


KINDS = {"text": texts, "list": lists, "n": structured(N, 5), "adr": structured(Adr, 7), "org": orgs, "datetime": datetimes, "offset": offsets, "geo": geos, "uri": uris, "binary": binaries, "unknown": unknowns}
# name, type by default, kinds of value
NAMES = [(n, "text", ["text"]) for n in ("FN", "NAME", "PROFILE", "LABEL", "TEL", "EMAIL", "MAILER", "TITLE", "ROLE", "NOTE", "PRODID", "SORT-STRING", "UID", "CLASS")] + [
    ("NICKNAME", "text", ["list"]), ("CATEGORIES", "text", ["list"]), ("N", "text", ["n"]), ("ADR", "text", ["adr"]), ("ORG", "text", ["org"]),
    ("BDAY", "date", ["datetime", "text"]), ("REV", "date-time", ["datetime"]), ("TZ", "utc-offset", ["offset", "text"]), ("GEO", "float", ["geo"]),
    ("SOURCE", "uri", ["uri", "text"]), ("URL", "uri", ["uri"]), ("PHOTO", "binary", ["binary", "uri"]), ("LOGO", "binary", ["uri"]), ("SOUND", "binary", ["binary"]), ("KEY", "binary", ["binary", "text"]),
    ("X-OWN", "unknown", ["unknown", "uri", "datetime", "offset", "binary"]), ("KIND", "unknown", ["unknown"]), ("ITEM", "unknown", ["unknown"]),
]
PARAMS = [[], [("TYPE", ["home"])], [("LANGUAGE", ["en"]), ("TYPE", ["home", "pref,x"])], [("ENCODING", ["b"]), ("X-P", ["a b"])], [("X-P", ["\xc3\xa9;:"])]]
GROUPS = ["", "item1", "A-b"]


def jparam(values):
    return values[0] if len(values) == 1 else list(values)


def u(x):
    if isinstance(x, str):
        return x.decode("utf-8")
    if isinstance(x, list):
        return [u(i) for i in x]
    if isinstance(x, dict):
        return dict((u(k), u(v)) for k, v in x.items())
    return x


def unfolded(text):
    return text.replace("\r\n ", "")


def wrap(lines):
    return "BEGIN:VCARD\r\n" + "".join(l + "\r\n" for l in lines) + "END:VCARD\r\n"


def spell(name, default, type, params, group, case=lambda x: x):
    ps = list(params)
    if type != default and type != "unknown":
        ps.append(("VALUE", [type.upper()]))
    ps.sort()
    quoted = lambda v: '"%s"' % v if set(v) & set(",;:") else v
    return (group + "." if group else "") + case(name) + "".join(";%s=%s" % (case(k), ",".join(quoted(i) for i in v)) for k, v in ps)


def api(prop):
    v = prop.getValue()
    t = v.getValue()
    if isinstance(t, (N, Adr)):
        return t.getValue()
    if prop.getName().upper() == "ORG" and isinstance(t, str):
        return (t,)                             # one component may be given on its own
    if isinstance(t, list) and t and hasattr(t[0], "getValue"):
        return [i.getValue() for i in t]
    return t


def same(a, b):
    if isinstance(b, DateTime):
        return a.getText() == b.getText() and a.isDateOnly() == b.isDateOnly() and a == b
    return a == b


def check_values(ctx, case):
    name, default, kinds = NAMES[case[0]]
    kind, p = kinds[case[1]], case[2]
    for g, group in enumerate(GROUPS):
        for value, jtype, jvalues, make, want in KINDS[kind]():
            head = spell(name, default, jtype, PARAMS[p], group)
            line = head + ":" + value
            about = repr(line)
            obj = [unicode(name.lower()), u(dict((k.lower(), jparam(v)) for k, v in PARAMS[p])), unicode(jtype)] + u(jvalues)
            if group:
                obj[1]["group"] = unicode(group)

            forms = {}
            forms["text"] = Property.parseText(line)
            forms["text, lower case"] = Property.parseText(spell(name, default, jtype, PARAMS[p], group, str.lower) + ":" + value)
            forms["copy"] = forms["text"].duplicate()
            forms["jCard"] = Property.parseJSON(json.loads(json.dumps(obj)))
            if make is not None and jtype != "unknown" and not (isinstance(make, str) and jtype != default) and not PARAMS[p]:
                forms["made"] = Property(group=group or None, name=name, value=make)
            for how in sorted(forms):
                prop = forms[how]
                ctx.step()
                got = api(prop)
                if not same(got, want):
                    raise Mismatch("%s, from %s: value is %r, expected %r" % (about, how, got, want))
                text = unfolded(prop.getText())
                wanted = line
                if how == "text, lower case":
                    text, wanted = text.upper(), wanted.upper()
                if text.endswith("\r\n"):
                    text = text[:-2]
                if text != wanted and not (name == "PHOTO" and jtype == "binary" and text.replace("\r\n ", "") == wanted):
                    raise Mismatch("%s, from %s: written as %r" % (about, how, text))
                if how != "text, lower case" and (prop.getGroup() or "") != group:
                    raise Mismatch("%s, from %s: group is %r" % (about, how, prop.getGroup()))
                out = []
                prop.writeJSON(out)
                out = json.loads(json.dumps(out))
                if out != [obj]:
                    raise Mismatch("%s, from %s: jCard is %r, expected %r" % (about, how, out, [obj]))
            ctx.see([name, kind, value])


def gen_values(tier):
    for n, (name, default, kinds) in enumerate(NAMES):
        for k in range(len(kinds)):
            for p in range(len(PARAMS)):
                yield [n, k, p]


# Cards
LINES = ["FN:Alice", "N:a;b,c;;;d\\;e", "item1.EMAIL;TYPE=home:a@b", "item1.X-ABLABEL:_$!<Home>!$_", "item2.EMAIL;TYPE=work:a@c", "ADR;TYPE=home,work:;;1 St,x;y;;;z",
         "ORG:a;b", "CATEGORIES:a,b", "NOTE:a\\nb\\, c", "TZ;VALUE=TEXT:EST", "PHOTO;VALUE=URI:http://a/b", "TEL:1", "TEL;TYPE=voice:2"]


def body(card):
    return sorted(unfolded(card.getText()).split("\r\n")[1:-2])


def check_cards(ctx, case):
    cards = [["VERSION:3.0"] + [LINES[i] for i in c] for c in case]
    for lines in cards:
        card = Card.parseText(wrap(lines))
        for how, c in (("text", card), ("copy", card.duplicate()), ("text again", Card.parseText(card.getText())),
                       ("jCard", Card.parseData(card.getText(format=JCARD), format=JCARD))):
            ctx.step()
            if body(c) != sorted(lines):
                raise Mismatch("%r, from %s: %r" % (lines, how, body(c)))
            # those of a name stay in order
            for name in ("EMAIL", "TEL"):
                got = [l for l in unfolded(c.getText()).split("\r\n") if l.split(":")[0].split(";")[0].split(".")[-1] == name]
                if got != [l for l in lines if l.split(":")[0].split(";")[0].split(".")[-1] == name]:
                    raise Mismatch("%r, from %s: order of %s became %r" % (lines, how, name, got))
    stream = "".join(wrap(lines) for lines in cards)
    jstream = json.dumps([json.loads(Card.parseText(wrap(lines)).getText(format=JCARD)) for lines in cards])
    for how, got in (("text", Card.parseMultipleData(stream, "text/vcard")), ("file", Card.parseMultipleData(StringIO(stream), "text/vcard")),
                     ("jCard", Card.parseMultipleData(jstream, JCARD)), ("jCard file", Card.parseMultipleData(StringIO(jstream), JCARD))):
        ctx.step()
        if [body(c) for c in got] != [sorted(lines) for lines in cards]:
            raise Mismatch("%r as a stream from %s: %r" % (cards, how, [body(c) for c in got]))
    ctx.see(case)


def gen_cards(tier):
    n = len(LINES)
    for r in (1, 2, 3):
        for c in itertools.permutations(range(n), r):
            yield [list(c)]
    for a, b in itertools.product(range(n), repeat=2):
        yield [[a], [b]]
        yield [[a, b], [], [b]]
    if tier != "quick":
        for c in itertools.permutations(range(n), 4):
            yield [list(c)]


# Editing names and addresses
ITEMS = ["", "a;b", ("c", "d,e")]
SETTERS = {"N": ["Last", "First", "Middle", "Prefix", "Suffix"], "ADR": ["Pobox", "Extended", "Street", "Locality", "Region", "PostalCode", "Country"]}
STARTS = {"N": ["x", "", ("y", "z"), "", "\\"], "ADR": ["", "1", ("2", "3"), "x", "", "\\n", "y"]}


def check_edits(ctx, case):
    name, ops = case
    value = list(STARTS[name])
    card = Card.parseText(wrap(["VERSION:3.0", "%s;X-P=1:%s" % (name, nested(value))]))
    done = []
    for n, v in ops:
        before = card.duplicate()
        kept = body(before)
        prop = card.getProperties(name)[0]
        if n == len(SETTERS[name]):
            card = Card.parseText(card.getText()) if v == 0 else Card.parseData(card.getText(format=JCARD), format=JCARD)
            if v == 2:
                card = card.duplicate()
        else:
            value[n] = ITEMS[v]
            getattr(prop.getValue().getValue(), "set" + SETTERS[name][n])(ITEMS[v])
        done.append((n, v))
        ctx.step()
        about = "%s after %r" % (name, done)
        x = card.getProperties(name)[0].getValue().getValue()
        if x.getValue() != tuple(value):
            raise Mismatch("%s: value is %r, expected %r" % (about, x.getValue(), tuple(value)))
        for i, s in enumerate(SETTERS[name]):
            if getattr(x, "get" + s)() != value[i]:
                raise Mismatch("%s: get%s is %r, expected %r" % (about, s, getattr(x, "get" + s)(), value[i]))
        if name == "N":
            full = " ".join(w for w in [i if isinstance(i, str) else " ".join(i) for i in (value[3], value[1], value[2], value[0], value[4])] if w)
            if x.getFullName() != full:
                raise Mismatch("%s: full name is %r, expected %r" % (about, x.getFullName(), full))
        if body(card) != sorted(["VERSION:3.0", "%s;X-P=1:%s" % (name, nested(value))]):
            raise Mismatch("%s: %r" % (about, body(card)))
        if body(before) != kept:
            raise Mismatch("%s: the copy made before changed too" % about)
        ctx.see([name, value])


def gen_edits(tier):
    for name in sorted(SETTERS):
        for ops in itertools.product([(n, v) for n in range(len(SETTERS[name]) + 1) for v in range(3)], repeat=2 if tier == "quick" else 3):
            yield [name, [list(o) for o in ops]]


PARTS = [
    ("values", gen_values, check_values, "%d names x each kind of value they have (of %d kinds, all values of a grammar) x 5 sets of parameters x 3 groups, from text, jCard, copy and objects" % (len(NAMES), len(KINDS))),
    ("cards", gen_cards, check_cards, "all arrangements of up to 3 (4) of %d lines, and streams of several cards, as text and jCard" % len(LINES)),
    ("edits", gen_edits, check_edits, "all sequences of 2 (3) changes of parts of N and ADR, saved and copied in between"),
]
