# P37: the command line tools (tzdump, tzverify, validator, instances) print what the data they are given says.
from mcbase import Mismatch
import cStringIO
import itertools
import os
import shutil
import sys
import tempfile
import refcal as R
import refrule
import reftz
import tzdata
import pycalendar
from pycalendar.exceptions import ErrorBase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.parser import ParserContext
from pycalendar.vcard.card import Card

HERE = os.path.dirname(os.path.abspath(pycalendar.__file__))
ZONAL = os.path.join(os.path.dirname(HERE), "zonal")
FAM = reftz.family()
OPTIONS = [o for o in dir(ParserContext) if o.isupper() and not o.startswith("PARSER_")]


def command(path, args):
    """run a script as its users do: (what it printed, how it ended)"""
    out = cStringIO.StringIO()
    saved = sys.stdout, sys.argv, sys.path[:], dict([(o, getattr(ParserContext, o)) for o in OPTIONS])
    sys.stdout, sys.argv = out, [path] + args
    sys.path.insert(0, os.path.dirname(path) if "zonal" in path else "")
    end = 0
    try:
        execfile(path, {"__name__": "__main__"})
    except SystemExit as e:
        end = e.code or 0
    finally:
        sys.stdout, sys.argv, sys.path[:] = saved[0], saved[1], saved[2]
        for o, v in saved[3].items():
            setattr(ParserContext, o, v)
    return out.getvalue(), end


class Scratch(object):

    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        return self

    def write(self, name, text):
        path = os.path.join(self.dir, name)
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        with open(path, "wb") as f:
            f.write(text)
        return path

    def __exit__(self, *args):
        shutil.rmtree(self.dir)


def hm(secs):
    a = abs(secs)
    return "%s%02d:%02d" % ("-" if secs < 0 else "", a // 3600, a // 60 % 60) + (":%02d" % (a % 60) if a % 60 else "")


def listed(tr):
    return ", ".join(["(%s, %sZ, %s, %s)" % (R.text(R.fields(t[0])), R.text(R.fields(t[0] - t[1])), hm(t[1]), hm(t[2])) for t in tr])


def within(ref, lo, hi):
    """onsets in the years lo..hi-1"""
    return [t for t in ref.tr if R.secs(lo, 1, 1) <= t[0] < R.secs(hi, 1, 1)]


# --- tzdump
def gen_dump(tier):
    for i in range(len(FAM)):
        for lo in range(1990, 2026, 1 if tier == "thorough" else 5):
            yield (i, lo)


def check_dump(ctx, case):
    i, lo = case
    tzid, obs, ref = FAM[i]
    with Scratch() as s:
        path = s.write("zone.ics", tzdata.calendar(tzdata.vtimezone(tzid, obs)))
        for n in (0, 1, 2, 7, 12, 30):
            for flags in ([], ["-v"]):
                got, end = command(ZONAL + "/tzdump.py", flags + ["--start=%d" % lo, "--end=%d" % (lo + n), path])
                want = ("Parsing calendar data: %s\n" % path if flags else "") + listed(within(ref, lo, lo + n)) + "\n"
                ctx.step()
                ctx.see((i, lo, n))
                if (got, end) != (want, 0):
                    raise Mismatch("%s in %d to %d: printed %r, should be %r" % (tzid, lo, lo + n, got[:400], want[:400]))


# --- tzverify
def variants():
    """(name, observances, transitions) that differ from one another in one thing"""
    base = [("STANDARD", (1990, 1, 1, 0, 0, 0), "+0100", "+0100", "A"), ("DAYLIGHT", (1995, 3, 26, 2, 0, 0), "+0100", "+0200", "B"),
            ("STANDARD", (2000, 10, 29, 3, 0, 0), "+0200", "+0100", "A"), ("DAYLIGHT", (2001, 6, 1, 0, 0, 0), "+0100", "+0200", "B"),
            ("STANDARD", (2002, 1, 1, 0, 0, 0), "+0200", "+0030", "C")]
    out = [("base", base), ("reverse", base[::-1])]
    for i in range(1, len(base)):
        out.append(("without %d" % i, base[:i] + base[i + 1:]))
    for i in (1, 3):
        k, s, f, t, n = base[i]
        out.append(("hour %d" % i, base[:i] + [(k, s[:3] + (s[3] + 1, 0, 0), f, t, n)] + base[i + 1:]))
        out.append(("name %d" % i, base[:i] + [(k, s, f, t, "OTHER")] + base[i + 1:]))
        out.append(("offset %d" % i, base[:i] + [(k, s, f, "+0215", n)] + base[i + 1:]))
    out.append(("without 1 and 3", [base[0], base[2], base[4]]))
    same = [("STANDARD", (y, m, 1, 0, 0, 0), "+0200", "+0200", "S%d" % y) for y, m in ((1996, 5), (1997, 1), (1998, 7), (1999, 2), (2000, 1), (2000, 6))]
    for n in (1, 2, 4, 6):
        out.append(("%d without change" % n, base + same[:n]))
    out.append(("rule", [base[0], ("DAYLIGHT", (1995, 3, 26, 2, 0, 0), "+0100", "+0200", "B", "FREQ=YEARLY;COUNT=1")] + base[2:]))
    return out


def seconds(text):
    return (-1 if text[0] == "-" else 1) * (int(text[1:3]) * 3600 + int(text[3:5]) * 60)


VARIANTS = variants()


def zone(tzid, obs):
    return tzdata.vtimezone(tzid, [(o[0], R.text(o[1])) + o[2:] for o in obs])


def gen_verify(tier):
    for a in range(len(VARIANTS)):
        for b in range(len(VARIANTS)):
            yield (a, b)


def check_verify(ctx, case):
    a, b = case
    pair = [VARIANTS[a], VARIANTS[b]]
    with Scratch() as s:
        for i, v in enumerate(pair):
            s.write("%d/Europe/Zone.ics" % i, tzdata.calendar(zone("Europe/Zone", v[1])))
            s.write("%d/Same.ics" % i, tzdata.calendar(zone("Same", VARIANTS[0][1])))
            s.write("%d/README" % i, "no calendar")
        if a % 2:
            s.write("0/Africa/Only.ics", tzdata.calendar(zone("Africa/Only", VARIANTS[0][1])))
        if b % 2:
            s.write("1/Africa/Other.ics", tzdata.calendar(zone("Africa/Other", VARIANTS[0][1])))
        dirs = [os.path.join(s.dir, str(i)) for i in range(2)]
        for lo, hi in ((1985, 2010), (1995, 2001), (1996, 2002), (2001, 2002), (2003, 2010), (1999, 2003), (1990, 1996), (2002, 2003)):
            for flags in ([], ["-q"], ["-v"]):
                got, end = command(ZONAL + "/tzverify.py", flags + ["--start=%d" % lo, "--end=%d" % hi] + dirs)
                lines = [l for l in got.split("\n") if l]
                ctx.step()
                ctx.see((a, b, lo))
                on = []
                for v in pair:
                    on.append(set([(R.secs(*o[1]), seconds(o[2]), seconds(o[3])) for o in v[1] if lo <= o[1][0] < hi and o[2] != o[3]]))
                # what starts with the first day is there to start with: it may be reported or not
                free = set([t for t in on[0] | on[1] if t[0] < R.secs(lo, 1, 2)])
                what = "%s and %s in %d to %d: " % (pair[0][0], pair[1][0], lo, hi)
                for i, mine in enumerate(on):
                    head = "In calendar %d but not in calendar %d tzid=Europe/Zone: " % (i + 1, 2 - i)
                    said = [l[len(head):] for l in lines if l.startswith(head)]
                    want = sorted(mine - on[1 - i])
                    may = [listed(want), listed([t for t in want if t not in free])]
                    if (said or [""]) not in [[m] for m in may]:
                        raise Mismatch(what + "%r, should be %s%r" % (said, head, may[0]))
                if on[0] - free == on[1] - free and not (on[0] ^ on[1]) and flags != ["-q"] and "Matched: Europe/Zone" not in lines:
                    raise Mismatch(what + "not said to match: %r" % (lines,))
                if (on[0] - free) != (on[1] - free) and "Matched: Europe/Zone" in lines:
                    raise Mismatch(what + "said to match: %r" % (lines,))
                if [l for l in lines if l.startswith("In calendar") and "tzid=Same" in l] or (flags != ["-q"]) != ("Matched: Same" in lines):
                    raise Mismatch(what + "two zones alike: %r" % (lines,))
                missing = [l for l in lines if l.startswith("TZIDs in calendar 1 not in calendar 2 files: ")]
                if missing != (["TZIDs in calendar 1 not in calendar 2 files: Africa/Only"] if a % 2 else []):
                    raise Mismatch(what + "missing zones: %r" % (missing,))
                if end != 0:
                    raise Mismatch(what + "ended with %r" % (end,))


# --- validator
EVENT = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//EN", "BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T000000Z", "DTEND:20240101T010000Z",
         "SUMMARY:a b", "BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER:-PT15M", "END:VALARM", "END:VEVENT", "END:VCALENDAR"]
CARD = ["BEGIN:VCARD", "VERSION:3.0", "UID:1", "N:Doe;Jane;;;", "FN:Jane", "NOTE:a b", "END:VCARD"]
CHANGES = [("none", lambda l, i: l)] + [
    ("drop", lambda l, i: l[:i] + l[i + 1:]),
    ("twice", lambda l, i: l[:i + 1] + l[i:]),
    ("cut", lambda l, i: l[:i]),
    ("blank", lambda l, i: l[:i] + [""] + l[i:]),
    ("no colon", lambda l, i: l[:i] + [l[i].replace(":", "")] + l[i + 1:]),
    ("lower", lambda l, i: l[:i] + [l[i].split(":")[0].lower() + l[i][l[i].index(":"):]] + l[i + 1:]),
    ("empty", lambda l, i: l[:i] + [l[i].split(":")[0] + ":"] + l[i + 1:]),
    ("escape", lambda l, i: l[:i] + [l[i] + "\\:\\x"] + l[i + 1:]),
]
CONTROLS = [chr(c) for c in range(32)]


def gen_validate(tier):
    for kind in ("cal", "card"):
        for c in range(len(CHANGES)):
            for i in range(len(EVENT if kind == "cal" else CARD)):
                if c or not i:
                    yield (kind, c, i)


def check_validate(ctx, case):
    kind, c, i = case
    base = EVENT if kind == "cal" else CARD
    lines = CHANGES[c][1](base, i)
    for eol in ("\r\n", "\n"):
        for control in [""] + (CONTROLS if c == 0 else ["\x00", "\x1f", "\t", "\x0b"]):
            ls = list(lines)
            for k, l in enumerate(ls):
                if control not in ("", "\n", "\r") and (l.startswith("SUMMARY:") or l.startswith("NOTE:") or l.startswith("UID:")):
                    ls[k] = l + control + "z" + control
            text = eol.join(ls) + (eol if ls else "")
            want = judge(text)
            with Scratch() as s:
                got = command(HERE + "/validator.py", [s.write("data", text)])
            ctx.step()
            ctx.see((kind, c, i, want[0][:20], control))
            if got != want:
                raise Mismatch("%s with %s at line %d, control %r: printed %r, should be %r" % (kind, CHANGES[c][0], i, got, want))


def judge(text):
    saved = dict([(o, getattr(ParserContext, o)) for o in OPTIONS])
    up = text.upper()
    try:
        ParserContext.allRaise()
        if "BEGIN:VCALENDAR" in up:
            what, parser = "iCalendar", Calendar
        elif "BEGIN:VCARD" in up:
            what, parser = "vCard", Card
        else:
            return "Failed to find valid iCalendar or vCard data\n", 1
        try:
            obj = parser.parseText(text)
        except ErrorBase as e:
            return "Failed to parse %s: %s: %s\n" % (what, e.mReason, e.mData), 1
        except ValueError as e:
            return "Failed to parse %s: %s\n" % (what, e), 1
        unfixed = obj.validate(doFix=False, doRaise=False)[1]
    finally:
        for o, v in saved.items():
            setattr(ParserContext, o, v)
    out = "List of problems: %s\n" % unfixed if unfixed else "No problems\n"
    for pos, ch in enumerate(text):
        if ord(ch) < 32 and ch not in "\t\r\n":
            out += "Control character %d at position %d\n" % (ord(ch), pos)
    return out, 0


# --- instances
RULES = ["FREQ=YEARLY;COUNT=5", "FREQ=YEARLY;INTERVAL=4", "FREQ=MONTHLY;BYDAY=1MO;COUNT=30", "FREQ=MONTHLY;BYMONTHDAY=-1;UNTIL=20300101", "FREQ=DAILY;COUNT=10", "FREQ=WEEKLY;BYDAY=MO,FR;UNTIL=20240601",
         "FREQ=YEARLY;BYMONTH=2;BYMONTHDAY=29", "FREQ=YEARLY;INTERVAL=100", "FREQ=DAILY;INTERVAL=1000"]
STARTS = ["20240101", "20240229", "19991231", "20240101T120000", "20240229T235959Z"]


def gen_instances(tier):
    for s in STARTS:
        for r in RULES:
            yield (s, r)


def check_instances(ctx, case):
    start, rule = case
    f = [int(start[:4]), int(start[4:6]), int(start[6:8])] + ([int(start[9:11]), int(start[11:13]), int(start[13:15])] if "T" in start else [0, 0, 0])
    shown = rule
    if "UNTIL" in rule and "T" in start:
        shown = rule + "T000000" + ("Z" if start.endswith("Z") else "")
    tail = (f[0] + 100,) + tuple(f[1:])
    end = R.secs(*tail) if R.mlen(tail[0], tail[1]) >= tail[2] else R.secs(tail[0], 3, 1, *tail[3:])
    text = R.dtext if "T" not in start else lambda x: R.text(x) + ("Z" if start.endswith("Z") else "")
    want = [text(R.fields(t)) for t in refrule.expand(shown, tuple(f), end) if t < end]
    got = command(HERE + "/instances.py", [start, shown])
    ctx.step(len(want))
    ctx.see((start, rule))
    line = "DTSTART:%s\nRRULE:%s\nInstances: %s\n" % (start, shown, ", ".join(want))
    if got != (line, 0):
        raise Mismatch("%s %s: printed %r, should be %r" % (start, shown, got, line))


PARTS = [
    ("dump", gen_dump, check_dump, "10 zones x ranges of 0 to 30 years from 1990 on (thorough: each year): every onset printed"),
    ("verify", gen_verify, check_verify, "all ordered pairs of %d zones that differ in one thing x 8 ranges of years x 3 settings of output, with zones only one side has" % len(VARIANTS)),
    ("validate", gen_validate, check_validate, "a calendar and a card with each of 9 changes at each line x 2 line ends x control characters"),
    ("instances", gen_instances, check_instances, "5 starts x 9 rules over 100 years"),
]
