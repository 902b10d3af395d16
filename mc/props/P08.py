# P08: the time zone registry: what a TZID means, through any history of reading, asking and clearing.
from mcbase import Mismatch
import itertools
import os
import tempfile
import refcal as R
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase

IDS = ["Std/A", "B", "Std/Sub/C", "D", "bad"]
NEW = "B", 9           # a zone file that may be put into the database later
FILES = {"Std/A": 1, "Std/Sub/C": 2}
CALS = {"B": 3, "D": 4, "Std/A": 5, "B2": 6, "Std/Sub/C": 7, "bad": 8}       # offsets the calendars give
DIR = [None]


def body(tzid, hours):
    return tzdata.vtimezone(tzid, [("STANDARD", "19700101T000000", "%+03d00" % hours, "%+03d00" % hours, "N%d" % hours)])


def event(tzid):
    return "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART;TZID=%s:20240601T120000\r\nEND:VEVENT\r\n" % tzid


def setup():
    if DIR[0] is None:
        d = tempfile.mkdtemp(prefix="zones", dir=os.environ["MC_SCRATCH"])
        os.makedirs(os.path.join(d, "Std", "Sub"))
        f = open(os.path.join(d, "bad.ics"), "wb")
        f.write("this is not a calendar\r\n")
        f.close()
        DIR[0] = d
    for tzid, h in FILES.items():
        if not os.path.exists(os.path.join(DIR[0], tzid + ".ics")):
            f = open(os.path.join(DIR[0], tzid + ".ics"), "wb")
            f.write(tzdata.calendar(body(tzid, h)))
            f.close()
    new = os.path.join(DIR[0], NEW[0] + ".ics")
    if os.path.exists(new):
        os.remove(new)
    return DIR[0]


class Model(object):
    def __init__(self):
        self.known = {}
        self.files = dict(FILES)

    def lookup(self, tzid):
        # what was not there the first time is not looked for again until the database is cleared
        if tzid not in self.known:
            self.known[tzid] = (self.files[tzid], True) if tzid in self.files else None
        return self.known[tzid]

    def read(self, tzid, hours):
        if self.lookup(tzid) is None:
            self.known[tzid] = (hours, False)


def readcal(key):
    tzid = key[:-1] if key == "B2" else key
    cal = Calendar.parseText(tzdata.calendar(body(tzid, CALS[key]), event(tzid)))
    if cal is None:
        raise Mismatch("calendar with a VTIMEZONE not read")
    return tzid, cal


OPS = [("lookup", i) for i in IDS] + [("read", k) for k in ("B", "B2", "D", "Std/A", "bad")] + \
    [("std", "Std/A"), ("spoil", "B"), ("offset", "Std/Sub/C"), ("clear", ""), ("install", ""), ("remove", "Std/A")] + [("std", "B"), ("spoil", "Std/A"), ("path", "")]


def apply_(ctx, model, op, arg):
    ctx.step()
    if op == "lookup":
        tz = TimezoneDatabase.getTimezone(arg)
        want = model.lookup(arg)
        if (tz is None) != (want is None) or (tz is not None and tz.getID() != arg):
            raise Mismatch("lookup of %s gave %r, expected %r" % (arg, tz and tz.getID(), want))
    elif op == "read":
        tzid, _cal = readcal(arg)
        model.read(tzid, CALS[arg])
    elif op == "std":
        want = model.lookup(arg)
        if bool(TimezoneDatabase.isStandardTimezone(arg)) != bool(want and want[1]):
            raise Mismatch("standard(%s) is wrong, expected %r" % (arg, want))
    elif op == "spoil":
        # the caller goes on to change the calendar it read, and the copy it was given
        tzid, cal = readcal(arg)
        model.read(tzid, CALS[arg])
        for tz in cal.getComponents("VTIMEZONE"):
            for c in tz.getComponents():
                c.removeProperties("TZOFFSETTO")
                c.removeProperties("DTSTART")
                c.finalise()
            tz.removeAllComponent()
        cal2 = TimezoneDatabase.getTimezoneInCalendar(tzid)
        for tz in cal2.getComponents("VTIMEZONE"):
            tz.removeAllComponent()
    elif op == "offset":
        DateTime(2024, 1, 1, 0, 0, 0, Timezone(tzid=arg)).getPosixTime()
        model.lookup(arg)
    elif op == "clear":
        TimezoneDatabase.clearTimezoneDatabase()
        model.known = {}
    elif op == "install":
        f = open(os.path.join(DIR[0], NEW[0] + ".ics"), "wb")
        f.write(tzdata.calendar(body(*NEW)))
        f.close()
        model.files[NEW[0]] = NEW[1]
    elif op == "remove":
        if arg in model.files:
            os.remove(os.path.join(DIR[0], arg + ".ics"))
            del model.files[arg]
    elif op == "path":
        TimezoneDatabase.createTimezoneDatabase(DIR[0])
        model.known = {}


def observe(ctx, model, path):
    for tzid in IDS:
        want = model.lookup(tzid)
        d = DateTime(2024, 6, 1, 12, 0, 0, Timezone(tzid=tzid))
        hours = want[0] if want else 0
        if d.getPosixTime() != R.secs(2024, 6, 1, 12) - hours * 3600:
            raise Mismatch("after %r, %s is %r s from UTC, expected %d h" % (path, tzid, R.secs(2024, 6, 1, 12) - d.getPosixTime(), hours))
        if d.timeZoneDescriptor() != ("(N%d)" % hours if want else ""):
            raise Mismatch("after %r, %s is called %r" % (path, tzid, d.timeZoneDescriptor()))
        if bool(TimezoneDatabase.isStandardTimezone(tzid)) != bool(want and want[1]):
            raise Mismatch("after %r, standard(%s) is %r" % (path, tzid, TimezoneDatabase.isStandardTimezone(tzid)))
        cal = TimezoneDatabase.getTimezoneInCalendar(tzid)
        if (cal is None) != (want is None):
            raise Mismatch("after %r, a calendar with %s is %r" % (path, tzid, cal))
        if cal is not None:
            tzs = cal.getComponents("VTIMEZONE")
            if len(tzs) != 1 or tzs[0].getID() != tzid or "TZNAME:N%d" % hours not in cal.getText() or "VERSION:2.0" not in cal.getText():
                raise Mismatch("after %r, the calendar with %s is %s" % (path, tzid, cal.getText()))
    ctx.see((sorted(model.known.items()), sorted(model.files)))


def gen_seq(tier):
    n = len(OPS) - (0 if tier == "thorough" else 3)
    for i in range(n):
        for j in range(n):
            yield [i, j, 4 if tier == "thorough" else 3, n]


def check_seq(ctx, case):
    i, j, depth, n = case
    for rest in itertools.product(range(n), repeat=depth - 2):
        TimezoneDatabase.createTimezoneDatabase(setup())
        model = Model()
        path = []
        for k in (i, j) + rest:
            op, arg = OPS[k]
            path.append("%s %s" % (op, arg))
            apply_(ctx, model, op, arg)
        observe(ctx, model, path)


PARTS = [("histories", gen_seq, check_seq, "all sequences of 3 of 16 (thorough 4 of 19) operations on a database with 2 standard zones, 1 unreadable file, 3 calendar zones")]
