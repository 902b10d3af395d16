# P16: lines are folded at 75 octets without breaking characters, and unfolded whatever their folds and line ends.
from mcbase import Mismatch
import itertools
from cStringIO import StringIO
import tempfile, os
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty
from pycalendar.parameter import Parameter

CH = ["a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "\\", ",", "\xcc\x81"]


class Sink(object):
    """an output that gives up when more is written than could be right"""

    def __init__(self, limit):
        self.data, self.limit, self.n = [], limit, 0

    def write(self, s):
        self.data.append(s)
        self.n += len(s) + 1
        if self.n > self.limit:
            raise Mismatch("writing does not end: %r..." % "".join(self.data)[:200])

    def getvalue(self):
        return "".join(self.data)


def lines_of(ctx, out, what, utf8=True):
    """the logical line, after checking the physical ones"""
    if not out.endswith("\r\n"):
        raise Mismatch("%s does not end in CRLF" % what)
    phys = out[:-2].split("\r\n")
    for i, l in enumerate(phys):
        if len(l) > 75:
            raise Mismatch("%s: a line of %d octets: %r" % (what, len(l), l))
        if "\r" in l or "\n" in l:
            raise Mismatch("%s: a bare line break in %r" % (what, l))
        if i and not l.startswith(" "):
            raise Mismatch("%s: continuation without leading space: %r" % (what, l))
        if i and len(l) < 2:
            raise Mismatch("%s: an empty continuation line" % what)
        if utf8:
            try:
                l.decode("utf-8")
            except UnicodeDecodeError:
                raise Mismatch("%s: a character is split at the end of a line: %r" % (what, l))
    ctx.step(len(phys))
    return phys[0] + "".join([l[1:] for l in phys[1:]])


def write(p, n):
    s = Sink(40 * n + 2000)
    p.generate(s)
    return s.getvalue()


def esc(s):
    return s.replace("\\", "\\\\").replace(",", "\\,")


# --- writing: every length and every alignment of wide characters
def gen_write(tier):
    for lead in range(0, 90 if tier == "quick" else 240):
        for ci in range(len(CH)):
            for n in (0, 1, 2, 3, 40, 90) if tier == "quick" else range(0, 12) + [25, 40, 75, 90, 200]:
                yield (lead, ci, n)


def check_write(ctx, case):
    lead, ci, n = case
    v = "x" * lead + CH[ci] * n + "y"
    for cls, name in ((Property, "SUMMARY"), (VProperty, "NOTE"), (Property, "X-LONG-" + "NAME-" * 13)):
        p = cls(name=name, value=v)
        out = write(p, len(v))
        logical = lines_of(ctx, out, "%s of %r" % (name, v))
        want = name + ":" + (v if name[0] == "X" else esc(v))
        if logical != want:
            raise Mismatch("%s unfolds to %r, expected %r" % (name, logical, want))
        ctx.see((len(out), out.count("\r\n"), ci))
    # folds in the parameters
    p = Property("X-P", v)
    p.addParameter(Parameter("X-Q", [v, "z"]))
    p.addParameter(Parameter("X-R", ["w;" + v]))
    logical = lines_of(ctx, write(p, 4 * len(v)), "parameters %r" % v)
    q = Property.parseText(logical)
    if not (q == p) or q.getParameterValue("X-R") != "w;" + v or q.getParameterValue("X-Q") not in (v, "z"):
        raise Mismatch("parameters of %r are read as %r" % (v, logical))


# --- writing bytes that are not UTF-8: no character to keep whole, but nothing may be lost and it must end
def gen_bytes(tier):
    pieces = ["\x80", "\xa4\xa2", "\xff", "\xc3", "\xe2\x82", "a\x80", "\xf0\x9f\x98"]
    for lead in range(0, 6 if tier == "quick" else 80):
        for p in pieces:
            for n in (1, 30, 66, 67, 68, 69, 73, 74, 75, 76, 80, 150, 300):
                yield (lead, [ord(c) for c in p], n)


def check_bytes(ctx, case):
    lead, p, n = case
    v = "x" * lead + "".join([chr(c) for c in p]) * n
    for cls, name in ((Property, "SUMMARY"), (VProperty, "NOTE")):
        out = write(cls(name=name, value=v), len(v))
        logical = lines_of(ctx, out, "%s of octets %r..." % (name, v[:20]), False)
        if logical != name + ":" + v:
            raise Mismatch("%s of octets %r... x %d unfolds to %r..." % (name, v[:10], n, logical[:100]))
        ctx.see((len(out), out.count("\r\n")))


# --- reading: every way of folding a line
BODY = "SUMMARY;X-A=b:c d"
WIDE = "SUMMARY:\xe2\x82\xac \xc3\xa9"


def wrap(l, nl, before=(), after=(), sep=""):
    return sep.join(x + nl for x in ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//c//EN", "BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z"] +
                    list(before) + [l] + list(after) + ["LOCATION:here", "END:VEVENT", "END:VCALENDAR"])


def gen_read(tier):
    for bi, body in enumerate((BODY, WIDE)):
        for mask in range(1 << (len(body) - 1)):
            if tier == "quick" and bi == 0 and (bin(mask).count("1") > 4 and mask % 16):
                continue
            yield (bi, mask)


def check_read(ctx, case):
    bi, mask = case
    body = (BODY, WIDE)[bi]
    want = None
    for nl in ("\r\n", "\n"):
        for sp in (" ", "\t"):
            out = ""
            for i, c in enumerate(body):
                out += c
                if i < len(body) - 1 and mask & (1 << i):
                    out += nl + sp
            cal = Calendar.parseText(wrap(out, nl))
            ev = cal.getComponents("VEVENT")[0]
            p = ev.getProperties("SUMMARY")
            ctx.step()
            if len(p) != 1 or p[0].getTextValue().getValue() != body.split(":", 1)[1] or (bi == 0 and p[0].getParameterValue("X-A") != "b"):
                raise Mismatch("%r is read as %s" % (out, [str(x) for x in p]))
            if ev.loadValueString("LOCATION") != "here" or ev.loadValueString("UID") != "1":
                raise Mismatch("the lines around %r are read wrong" % out)
            if want is None:
                want = cal.getText()
            if cal.getText() != want or want.count("SUMMARY") != 1:
                raise Mismatch("%r is rewritten differently from its unfolded form" % out)
    ctx.see(case)


# --- line ends, blank lines, sources
def gen_ends(tier):
    texts = range(3)
    for t in texts:
        n = (11, 12, 7)[t]
        # any single line folded at any single place, blank line at any single place, last newline missing
        for fold in range(-1, n):
            for blank in range(-1, n + 1):
                for nl in ("\r\n", "\n"):
                    for last in (True, False):
                        yield (t, fold, blank, nl, last)


TEXTS = [
    ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//c//EN", "BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240102T000000Z",
     "SUMMARY:a b", "LOCATION:", "END:VEVENT", "END:VCALENDAR"],
    ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//c//EN", "BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "BEGIN:VALARM",
     "ACTION:AUDIO", "TRIGGER:-PT5M", "END:VALARM", "END:VEVENT", "END:VCALENDAR"],
    ["BEGIN:VCARD", "VERSION:3.0", "N:a;b;;;", "FN:\xc3\xa9 b", "item1.NOTE:x", "UID:1", "END:VCARD"],
]


def check_ends(ctx, case):
    t, fold, blank, nl, last = case
    cls = Card if t == 2 else Calendar
    want = cls.parseText("\r\n".join(TEXTS[t]) + "\r\n").getText()
    for at in ([0] if fold < 0 else range(1, len(TEXTS[t][fold]))):
        out = []
        for i, l in enumerate(TEXTS[t]):
            if i == blank:
                out.append("")
            out.append(l if i != fold else l[:at] + nl + " " + l[at:])
        if blank == len(TEXTS[t]):
            out.append("")
        data = nl.join(out) + (nl if last else "")
        got = cls.parseText(data)
        ctx.step()
        if got is None or got.getText() != want:
            raise Mismatch("%r is read as %r" % (data, got and got.getText()))
        if at < 2:
            o = cls(add_defaults=False)
            o.parse(StringIO(data))
            path = tempfile.mktemp(dir=os.environ["MC_SCRATCH"])
            f = open(path, "wb")
            f.write(data)
            f.close()
            f = open(path, "rb")
            p = cls.parseData(f)
            f.close()
            os.remove(path)
            ctx.step(2)
            if o.getText() != want or p.getText() != want:
                raise Mismatch("%r is read differently from a file" % data)
    ctx.see((t, fold, blank, nl))


PARTS = [
    ("write", gen_write, check_write, "8 characters of 1-4 octets at every alignment from 0 to 90 (240) x 6 (17) run lengths, in values, names and parameters"),
    ("octets", gen_bytes, check_bytes, "runs of 7 non-UTF-8 sequences up to 300 at every alignment to 6 (80)"),
    ("folds", gen_read, check_read, "every set of fold positions of a 17- and a 14-octet line (quick: up to 4 folds and 1/16 of the rest), space or tab, CRLF or LF"),
    ("lines", gen_ends, check_ends, "a fold at each place of each line x a blank line at each place x CRLF/LF x last line end, three documents, three sources"),
]
