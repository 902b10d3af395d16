# P17: parameter values of any text survive (RFC 6868, quoting); parameter text is read as RFC 5545 says or refused.
from mcbase import Mismatch
import itertools
import json
from pycalendar.exceptions import InvalidProperty
from pycalendar.parameter import Parameter
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty

CHARS = ["a", "^", "n", "'", '"', "\n", "\r\n", ":", ";", ",", " ", "\\", "=", "\xc3\xa9"]
RAW = ["a", '"', "\\", "^", "n", ",", ";", ":", "=", "'"]


def unfold(s):
    if not s.endswith("\r\n"):
        raise Mismatch("no CRLF at the end of %r" % s)
    s = s[:-2].replace("\r\n ", "")
    if "\r" in s or "\n" in s:
        raise Mismatch("line break in %r" % s)
    return s


def decode(v):
    """RFC 6868"""
    out, i = "", 0
    while i < len(v):
        if v[i] == "^" and i + 1 < len(v) and v[i + 1] in "n^'":
            out += {"n": "\n", "^": "^", "'": '"'}[v[i + 1]]
            i += 2
        else:
            out += v[i]
            i += 1
    return out


def token(c):
    return c.isalnum() or c == "-"


def read(line):
    """(name, [(parameter, [values])], value) by the grammar of RFC 5545 section 3.1, or None"""
    i = 0
    while i < len(line) and token(line[i]):
        i += 1
    name, params = line[:i], []
    if not name:
        return None
    while True:
        if i >= len(line):
            return None
        if line[i] == ":":
            return name, params, line[i + 1:]
        if line[i] != ";":
            return None
        i += 1
        j = i
        while j < len(line) and token(line[j]):
            j += 1
        if j == i or j >= len(line) or line[j] != "=":
            return None
        pname, vals, i = line[i:j], [], j
        while True:
            i += 1
            if i < len(line) and line[i] == '"':
                j = line.find('"', i + 1)
                if j < 0:
                    return None
                vals.append(decode(line[i + 1:j]))
                i = j + 1
            else:
                j = i
                while j < len(line) and line[j] not in '";:,':
                    j += 1
                vals.append(decode(line[i:j]))
                i = j
            if i >= len(line):
                return None
            if line[i] != ",":
                break
        params.append((pname, vals))


def norm(v):
    return v.replace("\r\n", "\n").replace("\r", "\n")


def odd(v):
    """the class of values of the recorded finding: quoted, and ending in an odd number of backslashes"""
    e = len(v) - len(v.rstrip("\\"))
    return e % 2 == 1 and (set(v) & set(":;,") or v.startswith(" ")) and True or False


def gen_values(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for p in itertools.product(CHARS, repeat=n):
            yield "".join(p)
    if tier == "quick":
        for p in itertools.product(["a", "^", "n", '"', ":", "\\", " "], repeat=4):
            yield "".join(p)


def check_value(ctx, v):
    for cls, name in ((Property, "SUMMARY"), (VProperty, "NOTE")):
        p = cls(name=name, value="val:ue")
        p.addParameter(Parameter("X-A", v))
        line = unfold(p.getText())
        r = read(line)
        if r is None or r[0] != name or [x for x in r[1] if x[0] == "X-A"] != [("X-A", [norm(v)])] or r[2] != "val:ue":
            raise Mismatch("%s with X-A=%r is written %r, which says %r" % (name, v, line, r))
        ctx.step()
        try:
            q = cls.parseText(line)
        except InvalidProperty as e:
            raise Mismatch("%s with X-A=%r, written %r, cannot be read" % (name, v, line), "quoted value ending in an odd number of backslashes" if odd(v) else None)
        if q.getParameterValue("x-a") != norm(v) or q.getTextValue().getValue() != "val:ue":
            raise Mismatch("%s with X-A=%r, written %r, is read as %r" % (name, v, line, q.getParameterValue("X-A")),
                           "quoted value ending in an odd number of backslashes" if odd(v) else None)
        if unfold(q.getText()) != line or (norm(v) == v and not (q == p and hash(q) == hash(p))):
            raise Mismatch("%s with X-A=%r read back differs" % (name, v))
        ctx.see(line)
        if cls is Property:
            j = []
            p.writeJSON(j)
            s = cls.parseJSON(json.loads(json.dumps(j[0])))
            ctx.step()
            if s.getParameterValue("X-A") != v or not (s == p):
                raise Mismatch("%s with X-A=%r, in jCal %r, is read as %r" % (name, v, j, s.getParameterValue("X-A")))


def gen_lists(tier):
    small = ["", "a", "b", ",", '"', "^", "^n", " x", "a:b", ";", "\n", "\\"]
    for n in (1, 2, 3):
        for p in itertools.product(range(len(small)), repeat=n):
            if tier == "quick" and n == 3 and (p[0] + p[1] * 5 + p[2] * 7) % 3:
                continue
            for layout in ("one", "names", "same"):
                yield ([small[i] for i in p], layout)


def check_list(ctx, case):
    vals, layout = case
    for cls, name in ((Property, "SUMMARY"), (VProperty, "NOTE")):
        p = cls(name=name, value="v")
        if layout == "one":
            p.addParameter(Parameter("X-A", list(vals)))
        else:
            for i, v in enumerate(vals):
                p.addParameter(Parameter("X-A" if layout == "same" else "X-%d" % (9 - i), v))
        line = unfold(p.getText())
        r = read(line)
        q = cls.parseText(line)
        ctx.step()

        def flat(prs):
            out = {}
            for k, l in prs:
                out.setdefault(k, []).extend(l)
            return dict([(k, sorted(l)) for k, l in out.items()])
        want = {"X-A": sorted(vals)} if layout != "names" else dict([("X-%d" % (9 - i), [v]) for i, v in enumerate(vals)])
        if r is None or flat(r[1]) != want or r[2] != "v":
            raise Mismatch("%s %r is written %r" % (layout, vals, line))
        got = flat([(k, sum([x.getValues() for x in l], [])) for k, l in q.getParameters().items()])
        if got != want:
            raise Mismatch("%s %r, written %r, is read as %r" % (layout, vals, line, got))
        if unfold(q.getText()) != line or not (q == p) or hash(q) != hash(p) or not (q.duplicate() == p):
            raise Mismatch("%s %r read back differs" % (layout, vals))
        for how in ("made", "read"):
            j = []
            (p if how == "made" else q).writeJSON(j)
            s = cls.parseJSON(json.loads(json.dumps(j[0])))
            ctx.step()
            # a repeated parameter is one with several values there
            got = flat([(k, sum([x.getValues() for x in l], [])) for k, l in s.getParameters().items()])
            j2 = []
            s.writeJSON(j2)
            if got != want or j2 != j or (layout != "same" and (not (s == p) or unfold(s.getText()) != line)):
                raise Mismatch("%s %r, in jCal %r, is read as %r" % (layout, vals, j, s.getText()))
        ctx.see(line)
        # edits of the parameters
        q.replaceParameter(Parameter("x-new", ["1"]))
        q.replaceParameter(Parameter("X-New", ["2"]))
        if q.getParameterValues("X-NEW") != ["2"] or not q.hasParameter("x-NEW"):
            raise Mismatch("replaced parameter is %r" % q.getParameterValues("X-NEW"))
        q.removeParameters("X-nEW")
        if unfold(q.getText()) != line:
            raise Mismatch("adding and removing a parameter changed %r to %r" % (line, q.getText()))


def gen_raw(tier):
    for n in range(0, 5 if tier == "quick" else 6):
        for p in itertools.product(RAW, repeat=n):
            yield "".join(p)


def check_raw(ctx, raw):
    for form in ("%s;X-A=%s:v", "%s%s:v", "%s;X-A=\"a\";%s"):
        for cls, name in ((Property, "SUMMARY"), (VProperty, "NOTE")):
            line = form % (name, raw)
            want = read(line)
            try:
                p = cls.parseText(line)
            except InvalidProperty:
                p = None
            ctx.step()
            if want is None or "\\" in raw or want[0] != name or "\\" in want[2]:
                # outside the grammar (or the library's \" ): read or refused, but in the end one of them
                if p is not None:
                    try:
                        line2 = unfold(p.getText())
                        q = cls.parseText(line2)
                    except InvalidProperty:
                        continue
                continue
            if p is None:
                raise Mismatch("%r is refused" % line)
            got = sorted([(k, sorted(x.getValues())) for k, l in p.getParameters().items() for x in l])
            if got != sorted([(k.upper(), sorted(l)) for k, l in want[1]]) or p.getTextValue().getValue() != want[2]:
                raise Mismatch("%r is read as %r, expected %r" % (line, got, want))
            q = cls.parseText(unfold(p.getText()))
            if not (q == p):
                raise Mismatch("%r is rewritten %r" % (line, p.getText()))
            ctx.see((form, tuple([(k, tuple(v)) for k, v in got]), want[2]))


PARTS = [
    ("values", gen_values, check_value, "every text of up to 3 (4 thorough) characters over 14 and of 4 over 7, in iCalendar, vCard and jCal"),
    ("lists", gen_lists, check_list, "up to three of 12 values as one list, as three parameters and as one repeated, and edits of them"),
    ("raw", gen_raw, check_raw, "every parameter text of up to 4 (5) characters over 10 in three places, against a reference grammar"),
]
