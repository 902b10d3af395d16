# P27: which time zone definitions a written calendar has.
from mcbase import Mismatch
from cStringIO import StringIO
import itertools
import json
import os
import re
import tempfile
import calcat as C
import tzdata
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.timezonedb import TimezoneDatabase

MODES = [None, Calendar.ALL_TIMEZONES, Calendar.NONSTD_TIMEZONES, Calendar.NO_TIMEZONES]
ZONES = ["Std/A", "B", "Own/C", "Own/D"]
FILES = {"Std/A": 1, "B": 2}            # in the database
READ = {"Own/C": 3, "Std/A": 7}         # from a calendar read before; a definition of a standard one does not replace it
OWN = {"Std/A": 5, "B": 6, "Own/C": 4, "Own/D": 8, "Own/E": 9}        # in the calendar itself
DIR = [None]


def body(tzid, hours):
    return tzdata.vtimezone(tzid, [("STANDARD", "19700101T000000", "%+03d00" % hours, "%+03d00" % hours, "N%d" % hours)])


def spec(tzid, hours):
    return C.read(tzdata.calendar(body(tzid, hours)))[2][0]


def database(empty=False):
    if DIR[0] is None:
        d = tempfile.mkdtemp(prefix="zones", dir=os.environ["MC_SCRATCH"])
        os.makedirs(os.path.join(d, "Std"))
        for tzid, h in FILES.items():
            f = open(os.path.join(d, tzid + ".ics"), "wb")
            f.write(tzdata.calendar(body(tzid, h)))
            f.close()
        DIR[0] = d
    TimezoneDatabase.createTimezoneDatabase(os.path.join(DIR[0], "none") if empty else DIR[0])
    if not empty:
        Calendar.parseText(tzdata.calendar(*[body(z, READ[z]) for z in sorted(READ)]))


def expected(refs, own, mode):
    """the definitions written: those in the calendar, and the known ones of others it refers to"""
    out = dict(own)
    for z in refs:
        if z in out or mode == Calendar.NO_TIMEZONES:
            continue
        if z in FILES:
            if mode == Calendar.ALL_TIMEZONES:
                out[z] = FILES[z]
        elif z in READ:
            out[z] = READ[z]
    return out


def definitions(out):
    """{tzid: hours}, from a written calendar as read by the reference reader"""
    got = {}
    for s in out[2]:
        if s[0] == "VTIMEZONE":
            z = [l[5:] for l in s[1] if l.startswith("TZID:")][0]
            if z in got:
                raise Mismatch("%s is defined twice" % z)
            hours = [l for l in s[2][0][1] if l.startswith("TZOFFSETTO:")][0]
            got[z] = int(hours[11:14])
            if C.multiset(s) != C.multiset(spec(z, got[z])):
                raise Mismatch("definition of %s is %r" % (z, s))
    return got


def written(cal, form, mode):
    """the calendar as written in a form, as a specification"""
    if form == "text":
        return C.read(cal.getText(includeTimezones=mode))
    if form == "stream":
        s = StringIO()
        cal.generate(s, includeTimezones=mode)
        return C.read(s.getvalue())
    if form == "jcal":
        return C.read(Calendar.parseJSONData(cal.getText(includeTimezones=mode, format=Calendar.sFormatJSON)).getText(Calendar.NO_TIMEZONES))
    x = cal.getTextXML(includeTimezones=mode)
    out = []
    for tz in re.findall(r"<(?:\w+:)?vtimezone>(.*?)</(?:\w+:)?vtimezone>", x, re.S):
        tzid = re.search(r"<(?:\w+:)?tzid>\s*<(?:\w+:)?text>(.*?)</", tz, re.S).group(1)
        to = re.search(r"<(?:\w+:)?tzoffsetto>\s*<(?:\w+:)?utc-offset>(.*?)</", tz, re.S).group(1)
        out.append(spec(tzid, int(to[:3])))
    return ("VCALENDAR", None, out)


FORMS = ["text", "stream", "jcal", "xml"]

# --- every place a zone can be named
STAMP = "DTSTAMP:20240101T000000Z"
DT = ";TZID=%s;VALUE=DATE-TIME:20240301T083000"
PER = ";TZID=%s;VALUE=PERIOD:20240301T083000"
AT = ";TZID=%s:20240301T083000"
LINES = ["DTSTART" + AT, "DTEND" + AT, "DUE" + AT, "RECURRENCE-ID" + AT, "RECURRENCE-ID;RANGE=THISANDFUTURE" + AT, "EXDATE" + AT, "EXDATE" + AT + ",20240302T083000", "RDATE" + AT, "RDATE" + AT + ",20240302T083000",
         "RDATE" + PER + "/PT1H", "RDATE" + PER + "/20240301T093000", "RDATE;TZID=%s;VALUE=PERIOD:20240302T083000Z/PT1H,20240301T083000/PT1H", "X-A" + DT, "X-A" + PER + "/PT1H",
         "FREEBUSY;TZID=%s:20240301T083000/PT1H"]
NOT = ["DTSTART;TZID=%s;VALUE=DATE:20240301", "X-A;TZID=%s:20240301T083000", "SUMMARY;TZID=%s:a", "X-B:%s"]         # no date-time, so no use of the zone


def places():
    def ev(lines, subs=()):
        return ("VEVENT", ["UID:u", STAMP] + lines, list(subs))
    out = []
    for l in LINES:
        out += [ev([l]), ("VTODO", ["UID:u", STAMP, l], []), ("VJOURNAL", ["UID:u", STAMP, l], []), ("VFREEBUSY", ["UID:u", STAMP, l], []), ("VPOLL", ["UID:u", l], []), ("X-COMP", [l], []),
                ("VAVAILABILITY", ["UID:u", STAMP, l], []), ("VAVAILABILITY", ["UID:u", STAMP], [("AVAILABLE", ["UID:v", STAMP, l], [])]),
                ("VPOLL", ["UID:u"], [ev([l])]), ("X-COMP", [], [("X-SUB", [], [("VEVENT", ["UID:u", l], [])])]),
                ev([], [("VALARM", ["ACTION:DISPLAY", "TRIGGER:-PT5M", l], [])])]
    out.append(ev([], [("VALARM", ["ACTION:DISPLAY", "TRIGGER" + DT], [])]))
    out.append(("VPOLL", ["UID:u"], [("VVOTER", ["VOTER:mailto:a@b"], [("VOTE", ["X-A" + DT], [])])]))
    return [(p, True) for p in out] + [(ev([l]), False) for l in NOT]


PLACES = places()


def filled(s, z):
    return (s[0], [l.replace("%s", z) for l in s[1]], [filled(x, z) for x in s[2]])


def build(subs, own):
    return C.calendar([spec(z, own[z]) for z in sorted(own)] + subs)


def check(cal, subs, refs, own, mode, form, what):
    out = written(cal, form, mode)
    got, want = definitions(out), expected(refs, own, mode)
    if got != want:
        raise Mismatch("%s written as %s with mode %r defines %r, expected %r" % (what, form, mode, got, want))
    if out[1] is not None:
        rest = [s for s in out[2] if s[0] != "VTIMEZONE"]
        if C.multiset(C.calendar(rest, out[1])) != C.multiset(C.calendar(subs)):
            raise Mismatch("%s written as %s with mode %r is %r" % (what, form, mode, rest))
    return got


def gen_places(tier):
    for p in range(len(PLACES)):
        yield p


def check_places(ctx, case):
    place, uses = PLACES[case]
    for z in ZONES:
        s = filled(place, z)
        for own in ({}, {z: OWN[z]}, {"Own/E": 9}):
            for mode in MODES:
                for form in FORMS:
                    database()
                    text = C.text(build([s], own))
                    cal = Calendar.parseText(text)
                    if z == "Own/D" and not own.get(z):
                        # nobody knows this one
                        TimezoneDatabase.clearTimezoneDatabase()
                        database()
                    known = dict(own)
                    got = check(cal, [s], [z] if uses else [], known, mode, form, "%r" % text)
                    ctx.step()
                    ctx.see([case, z, sorted(got)])
                    again = check(cal, [s], [], got, Calendar.NO_TIMEZONES, "text", "%r, again," % text)
                    if again != got:
                        raise Mismatch("%r: defines %r, then %r" % (text, got, again))


# --- several zones, and histories
def ref(z):
    return ("VEVENT", ["UID:" + z.replace("/", "-"), STAMP, "DTSTART;TZID=%s:20240301T083000" % z], [])


HZ = ["Std/A", "Own/C", "Own/D"]
OPS = [("write", m) for m in MODES] + [("include", m) for m in MODES[:3]] + [("strip", None)] + [("add", z) for z in HZ] + [("remove", z) for z in HZ] + [("define", "Std/A"), ("define", "Own/C"), ("undefine", "Std/A"), ("undefine", "Own/C")]


def gen_history(tier):
    subsets = [list(x) for n in range(4) for x in itertools.combinations(HZ, n)]
    for refs in subsets:
        for own in ([], ["Std/A"], ["Own/C"], ["Own/D"], ["Std/A", "Own/D"]):
            yield [refs, own]


def check_history(ctx, case):
    refs0, own0 = case
    n = 3 if ctx.thorough else 2
    for seq in itertools.product(range(len(OPS)), repeat=n):
        refs, own = list(refs0), dict([(z, OWN[z]) for z in own0])
        database()
        cal = Calendar.parseText(C.text(build([ref(z) for z in refs], own)))
        # definitions read become known, unless they are already
        known = dict(READ)
        for z in own:
            known.setdefault(z, OWN[z])
        done = []
        for i in seq:
            op, x = OPS[i]
            done.append((op, x))

            def missing(mode):
                out = dict(own)
                for z in refs:
                    if z not in out and mode != Calendar.NO_TIMEZONES:
                        if z in FILES:
                            if mode == Calendar.ALL_TIMEZONES:
                                out[z] = FILES[z]
                        elif z in known:
                            out[z] = known[z]
                return out
            if op == "write":
                cal.getText(includeTimezones=x)
                own = missing(x)
            elif op == "include":
                cal.includeMissingTimezones(x)
                own = missing(x)
            elif op == "strip":
                changed = cal.stripStandardTimezones()
                if changed != bool([z for z in own if z in FILES]):
                    raise Mismatch("%r %r: strip says %r" % (case, done, changed))
                own = dict([(z, h) for z, h in own.items() if z not in FILES])
            elif op == "add":
                if x in refs:
                    break
                cal.addComponent(Calendar.parseText(C.text(C.calendar([ref(x)]))).getComponents()[0])
                refs.append(x)
            elif op == "remove":
                if x not in refs:
                    break
                cal.removeComponent([c for c in cal.getComponents() if c.getUID() == x.replace("/", "-")][0])
                refs.remove(x)
            elif op == "define":
                if x in own:
                    break
                other = Calendar.parseText(tzdata.calendar(body(x, OWN[x])))
                cal.addComponent(other.getComponents()[0].duplicate(cal))
                known.setdefault(x, OWN[x])
                own[x] = OWN[x]
            elif op == "undefine":
                if x not in own:
                    break
                cal.removeComponent([c for c in cal.getComponents("VTIMEZONE") if c.getID() == x][0])
                del own[x]
            ctx.step()
        else:
            out = C.read(cal.getText(Calendar.NO_TIMEZONES))
            got = definitions(out)
            if got != own:
                raise Mismatch("%r after %r: defines %r, expected %r" % (case, done, got, own))
            rest = sorted([[l for l in s[1] if l.startswith("DTSTART")][0] for s in out[2] if s[0] == "VEVENT"])
            if rest != sorted(["DTSTART;TZID=%s:20240301T083000" % z for z in refs]):
                raise Mismatch("%r after %r: has %r" % (case, done, rest))
            ctx.see([sorted(refs), sorted(own.items())])
            # the definitions are the calendar's: a change of one changes no other's
            before = {}
            for z in HZ:
                tz = TimezoneDatabase.getTimezone(z)
                before[z] = None if tz is None else tz.getText()
            for c in cal.getComponents("VTIMEZONE"):
                for e in c.getComponents():
                    e.addProperty(Property("X-MINE", "edited"))
                c.addProperty(Property("X-MINE", "edited"))
            for z in HZ:
                tz = TimezoneDatabase.getTimezone(z)
                if (None if tz is None else tz.getText()) != before[z]:
                    raise Mismatch("%r after %r: the definition of %s in the database changed with the calendar's" % (case, done, z))


# --- a calendar with its zones means the same anywhere
def gen_alone(tier):
    for p, (s, uses) in enumerate(PLACES):
        if uses:
            yield p


def instants(comp, out):
    for name in sorted(comp.getProperties()):
        for prop in comp.getProperties()[name]:
            v = prop.getValue()
            for x in v.getValues() if hasattr(v, "getValues") else [v]:
                x = x.getValue()
                if hasattr(x, "getPosixTime"):
                    out.append((name, x.getText(), x.getPosixTime()))
                elif hasattr(x, "getUseDuration"):
                    out.append((name, x.getText(), x.getStart().getPosixTime(), x.getEnd().getPosixTime()))
    for c in comp.getComponents():
        if c.getType() != "VTIMEZONE":
            instants(c, out)
    return out


def check_alone(ctx, case):
    place, uses = PLACES[case]
    for z in ZONES:
        for own in (False, True):
            if z == "Own/D" and not own:
                continue
            for form in ("text", "jcal"):
                for how in ("class", "component") if form == "text" else ("class", "format"):
                    database()
                    cal = Calendar.parseText(C.text(build([filled(place, z)], {z: OWN[z]} if own else {})))
                    hours = FILES.get(z) or READ.get(z) or OWN[z]
                    before = instants(cal, [])
                    for i in before:
                        if not i[1].endswith("Z") and len(i) == 3:
                            d, t = int(i[1][6:8]), int(i[1][9:11])
                            want = (19783 + d - 1) * 86400 + t * 3600 + 1800 - hours * 3600
                            if i[2] != want:
                                raise Mismatch("%r in %s is %r, expected %d" % (i, z, i[2], want))
                    if own and z in (FILES.keys() + READ.keys()):
                        # what this library already knew stays, and what is written is what the calendar had
                        hours = OWN[z]
                    out = cal.getText(includeTimezones=Calendar.ALL_TIMEZONES, format=Calendar.sFormatJSON if form == "jcal" else None)
                    database(empty=True)
                    if how == "class":
                        alone = Calendar.parseText(out) if form == "text" else Calendar.parseJSONData(out)
                    elif how == "format":
                        alone = Calendar.parseData(out, Calendar.sFormatJSON)
                    else:
                        alone = Calendar()
                        alone.parseComponent(StringIO(out))
                    after = instants(alone, [])
                    shift = 0 if not own else (FILES.get(z) or READ.get(z) or OWN[z]) - OWN[z]
                    want = [i if i[1].endswith("Z") or "Z/" in i[1] else i[:2] + tuple([t + shift * 3600 for t in i[2:]]) for i in before]
                    if [i for i in after if i[0] not in ("VERSION", "PRODID")] != want:
                        raise Mismatch("%r by %s read where no zones are known: %r, expected %r" % (out, how, after, want))
                    ctx.step()
                    ctx.see([case, z, own, form])


PARTS = [
    ("places", gen_places, check_places, "%d places a zone is named x 4 zones (standard, other, unknown) x 3 sets of own definitions x 4 modes x 4 forms" % len(PLACES)),
    ("history", gen_history, check_history, "8 sets of references x 5 sets of definitions x all sequences of 2 (thorough: 3) of %d operations" % len(OPS)),
    ("alone", gen_alone, check_alone, "each place x 4 zones, written with all zones as text and jCal and read where no zone is known"),
]
