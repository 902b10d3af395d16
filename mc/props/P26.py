# P26: filtered output is the unfiltered output less what the filter leaves out.
from mcbase import Mismatch
import itertools
import json
import xml.etree.ElementTree as XML
from StringIO import StringIO
import calcat as C
from pycalendar.icalendar.calendar import Calendar
from pycalendar.outputfilter import OutputFilter
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.vcard.card import Card

NS = "urn:ietf:params:xml:ns:icalendar-2.0"
NO = Calendar.NO_TIMEZONES

# A filter is [type, properties, components]; properties: "all", None or [[name, no value], ...]; components: "all", None or a list of filters


def build(f, cls=OutputFilter):
    o = cls(f[0])
    if f[1] == "all":
        o.setAllProperties()
    elif f[1] is not None:
        for n, v in f[1]:
            o.addProperty(n, v)
    if f[2] == "all":
        o.setAllSubComponents()
    elif f[2] is not None:
        for s in f[2]:
            o.addSubComponent(build(s))
    return o


def no_value(line):
    quoted = False
    for i, c in enumerate(line):
        if c == '"':
            quoted = not quoted
        elif c == ":" and not quoted:
            return line[:i + 1]


def keep(f, name):
    """None: left out, else whether the value is left out"""
    if f[1] == "all":
        return False
    for n, v in f[1] or []:
        if n == name.upper():
            return v
    return None


def subs(f, comps, typ):
    """the (component, filter) that remain; filter None: whole"""
    if f[2] == "all":
        return [(c, None) for c in comps]
    out = []
    for c in comps:
        for s in f[2] or []:
            if s[0] == typ(c):
                out.append((c, s))
    return out


def filter_spec(f, spec):
    lines = []
    for l in spec[1]:
        k = keep(f, C.pname(l).split(".")[-1])
        if k is not None:
            lines.append(no_value(l) if k else l)
    return [spec[0], lines, [c if s is None else filter_spec(s, c) for c, s in subs(f, spec[2], lambda c: c[0])]]


def plain(spec):
    return [spec[0], list(spec[1]), [plain(s) for s in spec[2]]]


def filter_json(f, j):
    props = []
    for p in j[1]:
        k = keep(f, p[0])
        if k is not None:
            props.append(p[:2] if k else p)
    return [j[0], props, [c if s is None else filter_json(s, c) for c, s in subs(f, j[2], lambda c: c[0].upper())]]


def same_json(got, want):
    if got[0] != want[0] or len(got) != 3 or len(got[1]) != len(want[1]) or len(got[2]) != len(want[2]):
        return False
    for g, w in zip(got[1], want[1]):
        if len(w) == 2 and len(g) == 3:
            g = g[:2]       # the name of the type is no value
        if g != w:
            return False
    return all([same_json(g, w) for g, w in zip(got[2], want[2])])


def tree(e):
    if not e.tag.startswith("{%s}" % NS):
        raise Mismatch("element %r is in another namespace" % e.tag)
    return [e.tag.split("}")[1], e.text, [tree(c) for c in e]]


def part(t, name):
    for c in t[2]:
        if c[0] == name:
            return c[2]
    return []


def tidy(t):
    """component tree: name, properties, components; the empty lists may be there or not"""
    others = [c[0] for c in t[2] if c[0] not in ("properties", "components")]
    if others or [c[0] for c in t[2]].count("components") > 1:
        raise Mismatch("%s has the elements %r" % (t[0], [c[0] for c in t[2]]))
    return [t[0], part(t, "properties"), [tidy(c) for c in part(t, "components")]]


def filter_xml(f, t):
    props = []
    for p in t[1]:
        k = keep(f, p[0])
        if k is not None:
            props.append([p[0], None, [c for c in p[2] if c[0] == "parameters"]] if k else p)
    return [t[0], props, [c if s is None else filter_xml(s, c) for c, s in subs(f, t[2], lambda c: c[0].upper())]]


def no_text(t):
    return [t[0], [[p[0], p[1] or None, p[2]] for p in t[1]], [no_text(c) for c in t[2]]]


def text_of(comp, f):
    s = StringIO()
    comp.generateFiltered(s, f)
    return s.getvalue()


def read_one(t):
    return plain(C.read(t))


def check_filter(ctx, comp, f, what, before):
    """before: read text, jCal and XML without the filter"""
    o = build(f)
    want = filter_spec(f, before[0])
    got = text_of(comp, o)
    if read_one(got) != want:
        raise Mismatch("%s with %r: text is %r, expected %r" % (what, f, got, want))
    j = []
    comp.writeJSONFiltered(j, o)
    j = json.loads(json.dumps(j))
    want = filter_json(f, before[1])
    if len(j) != 1 or not same_json(j[0], want):
        raise Mismatch("%s with %r: jCal is %r, expected %r" % (what, f, j, want))
    root = XML.Element("root")
    comp.writeXMLFiltered(root, NS, o)
    want = no_text(filter_xml(f, before[2]))
    if len(root) != 1 or no_text(tidy(tree(root[0]))) != want:
        raise Mismatch("%s with %r: XML is %r, expected %r" % (what, f, [tree(r) for r in root], want))
    if text_of(comp, o) != got:
        raise Mismatch("%s with %r: written differently the second time" % (what, f))
    ctx.step(3)
    ctx.see(got)


def unfiltered(comp, whole):
    j = []
    root = XML.Element("root")
    if whole:
        t = comp.getText(NO)
        comp.writeJSON(j, NO)
        root = comp.writeXML(NO)
    else:
        t = comp.getText()
        comp.writeJSON(j)
        comp.writeXML(root, NS)
    return [read_one(t), json.loads(json.dumps(j))[0], tidy(tree(root[0]))]


# ---- filters on trees of components --------------------------------------------------------------------------------
def prop_filters(spec, rich):
    names = []
    for l in spec[1]:
        n = C.pname(l)
        if n not in names:
            names.append(n)
    out = ["all", None, [["X-NONE", False]]]
    if names:
        out += [[[names[0], False]], [[names[-1], True]]]
    if rich and len(names) > 1:
        out += [[[names[0], True], [names[1], False]], [[n, False] for n in names], [[n, True] for n in names]]
    return out


def filters(spec, rich, depth=0):
    """filters for a component: all kinds for its properties x all for its components"""
    kinds = []
    for s in spec[2]:
        if s[0] not in [k[0] for k in kinds]:
            kinds.append(s)
    comps = ["all", None, [["X-NONE", "all", "all"]]]
    inner = [list(filters(k, rich and depth < 1, depth + 1)) for k in kinds]
    for k in inner:
        comps += [[f] for f in k]
    if len(kinds) > 1:
        for i in range(0, max([len(k) for k in inner])):
            comps.append([k[i % len(k)] for k in inner])
            comps.append([k[-1 - i % len(k)] for k in inner])
    ps = prop_filters(spec, rich)
    if depth == 0:
        for p in ps:
            for c in comps:
                yield [spec[0], p, c]
    else:
        for i, c in enumerate(comps):
            yield [spec[0], ps[i % len(ps)], c]
        for p in ps:
            yield [spec[0], p, None]


def gen_trees(tier):
    n = len(C.comps())
    for i in range(n):
        yield [i]
    for i in range(n):
        for j in range(n):
            if tier == "thorough" or (i + j) % 4 == 0:
                yield [i, j]


def check_trees(ctx, case):
    TimezoneDatabase.createTimezoneDatabase("")
    spec = C.calendar([C.comps()[i] for i in case])
    cal = Calendar.parseText(C.text(spec))
    before = unfiltered(cal, True)
    for f in filters(spec, len(case) == 1 or ctx.thorough):
        check_filter(ctx, cal, f, "calendar of %r" % (case,), before)
    if unfiltered(cal, True) != before:
        raise Mismatch("calendar of %r: changed by writing it filtered" % (case,))
    if len(case) == 1:
        c = cal.getComponents()[0]
        before = unfiltered(c, False)
        for f in filters(spec[2][0], True):
            check_filter(ctx, c, f, "component %r" % (case,), before)
        dup = cal.duplicate()
        for f in filters(spec, False):
            check_filter(ctx, dup, f, "copy of %r" % (case,), unfiltered(dup, True))


# ---- filters on properties -------------------------------------------------------------------------------------------
MORE = ["summary:x", "DESCRIPTION;ALTREP=\"http://a:b\":c:d", "X-LONG:" + "0123456789" * 12, "X-LONG;X-P=\"" + "0123456789" * 9 + "\":z", "RDATE;TZID=Test/NewYork:20240101T000000,20240102T000000",
        "ATTENDEE;CN=\"a;b\";MEMBER=\"mailto:a@b\",\"mailto:c@d\":mailto:e@f", "REQUEST-STATUS:2.0;a;b", "SUMMARY:", "SUMMARY:caf\xc3\xa9"]


def gen_props(tier):
    n = len(C.LINES) + len(MORE)
    for i in range(n):
        yield [i]


def check_props(ctx, case):
    i, = case
    ls = C.LINES + MORE
    others = range(len(ls)) if ctx.thorough else [i, (i + 1) % len(ls), (i + 5) % len(ls), (i + 17) % len(ls), len(ls) - 1]
    for j in others:
        spec = C.calendar([("X-C", [ls[i], ls[j], "X-LAST:1"], [])])
        cal = Calendar.parseText(C.text(spec))
        before = unfiltered(cal, True)
        a, b = C.pname(ls[i]), C.pname(ls[j])
        names = [a] + ([b] if a != b else []) + ["X-LAST"]
        for ks in itertools.product([None, False, True], repeat=len(names)):
            f = [[n, k] for n, k in zip(names, ks) if k is not None]
            check_filter(ctx, cal, ["VCALENDAR", None, [["X-C", f, None]]], repr(ls[i] + " / " + ls[j]), before)
        check_filter(ctx, cal, ["VCALENDAR", [["VERSION", False]], [["X-C", "all", "all"]]], repr(ls[i] + " / " + ls[j]), before)


# ---- cards ---------------------------------------------------------------------------------------------------------------
CARD = ["VERSION:3.0", "N:a;b;c;d;e", "FN:a b", "item1.TEL;TYPE=HOME:1", "item1.X-LABEL:q", "PHOTO;ENCODING=B:" + "QUJD" * 20, "ADR;TYPE=WORK:;;a\\,b;c;d;e;f", "ORG:a;b;c",
        "NICKNAME:a,b", "TEL:2", "BDAY;VALUE=DATE:2000-01-02", "GEO:1.0;2.0", "NOTE:" + "x" * 90, "X-FOO;X-P=\"a:b\":c"]


def gen_cards(tier):
    for i in range(len(CARD)):
        for j in range(len(CARD)):
            yield [i, j]


def check_cards(ctx, case):
    i, j = case
    t = "BEGIN:VCARD\r\n" + "".join([l + "\r\n" for l in CARD]) + "END:VCARD\r\n"
    card = Card.parseText(t)
    before = read_one(card.getText())
    a, b = [C.pname(CARD[x]).split(".")[-1] for x in case]
    for ka, kb in itertools.product([False, True], repeat=2):
        f = ["VCARD", [[a, ka], [b, kb]] if a != b else [[a, ka]], None]
        got = read_one(text_of(card, build(f)))
        ctx.step()
        ctx.see(got)
        if got != filter_spec(f, before):
            raise Mismatch("card with %r: %r, expected %r" % (f, got, filter_spec(f, before)))
    for f in (["VCARD", "all", None], ["VCARD", "all", "all"], ["VCARD", None, None]):
        if read_one(text_of(card, build(f))) != filter_spec(f, before):
            raise Mismatch("card with %r: %r" % (f, text_of(card, build(f))))


# ---- the filter itself: all sequences of calls against a model ---------------------------------------------------------------
CALLS = [["all"], ["prop", "A", False], ["prop", "A", True], ["prop", "B", False], ["allsubs"], ["sub", "X"], ["sub", "Y"]]


def gen_calls(tier):
    for n in range(0, 6 if tier == "thorough" else 5):
        for p in itertools.product(range(len(CALLS)), repeat=n):
            yield list(p)


def check_calls(ctx, case):
    o = OutputFilter("T")
    allp, alls, props, comps = False, False, {}, {}
    for i in case:
        c = CALLS[i]
        if c[0] == "all":
            o.setAllProperties()
            allp = True
        elif c[0] == "prop":
            o.addProperty(c[1], c[2])
            props[c[1]] = c[2]
        elif c[0] == "allsubs":
            o.setAllSubComponents()
            alls = True
        else:
            s = OutputFilter(c[1])
            o.addSubComponent(s)
            comps[c[1]] = s
    ctx.step(len(case))
    ctx.see((allp, alls, sorted(props.items()), sorted(comps)))
    for n in "ABC":
        want = (True, False) if allp else (n in props, props.get(n, False))
        got = o.testPropertyValue(n)
        if (bool(got[0]), bool(got[1])) != want:
            raise Mismatch("after %r property %s: %r, expected %r" % ([CALLS[i] for i in case], n, got, want))
    for n in "XYZ":
        if bool(o.testSubComponent(n)) != (alls or n in comps):
            raise Mismatch("after %r component %s: %r" % ([CALLS[i] for i in case], n, o.testSubComponent(n)))
        if not alls and o.getSubComponentFilter(n) is not comps.get(n):
            raise Mismatch("after %r the filter for %s: %r" % ([CALLS[i] for i in case], n, o.getSubComponentFilter(n)))
    if bool(o.isAllProperties()) != allp or bool(o.isAllSubComponents()) != alls or o.getType() != "T" or not o.testComponent("T") or o.testComponent("X"):
        raise Mismatch("after %r: %r %r %r" % ([CALLS[i] for i in case], o.isAllProperties(), o.isAllSubComponents(), o.getType()))


PARTS = [
    ("trees", gen_trees, check_trees, "15 components alone and in pairs (quick: a quarter of the pairs) x all filters of a grammar to depth 4, as text, jCal and XML"),
    ("properties", gen_props, check_props, "%d property lines x others x {left out, without value, with value} for each" % (len(C.LINES) + len(MORE))),
    ("cards", gen_cards, check_cards, "all pairs of 14 lines of a vCard x with and without value"),
    ("calls", gen_calls, check_calls, "all sequences of up to 4 (thorough: 5) of 7 calls that set up a filter, against a model"),
]
