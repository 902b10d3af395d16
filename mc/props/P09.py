# P09: a TZID never makes the library read a file outside the configured time zone directory.
from mcbase import Mismatch
import itertools
import os
import shutil
import tempfile
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase

SEGS = ["..", ".", "zoneinfo", "zoneinfo-other", "sub", "A", "", "zoneinfo2"]
CFG = ["plain", "trailing-slash", "dotted", "relative"]


def body(tzid):
    return tzdata.vtimezone(tzid, [("STANDARD", "19700101T000000", "+0500", "+0500", "X")])


def gen(tier):
    for cfg in CFG:
        n = 5 if tier == "thorough" else 4 if cfg == "plain" else 3
        for a in range(len(SEGS)):
            for pre in ("", "/abs/", "//"):
                yield [cfg, a, pre, n]


def check(ctx, case):
    cfg, a, pre, n = case
    root = tempfile.mkdtemp(prefix="paths", dir=os.environ["MC_SCRATCH"])
    top = os.path.join(root, "top")
    db = os.path.join(top, "zoneinfo")
    dirs = [root, top] + [os.path.join(top, x) for x in ("zoneinfo", "zoneinfo-other", "zoneinfo2", "sub", "A")] + \
        [os.path.join(db, x) for x in ("sub", "A", "zoneinfo", "zoneinfo-other", "zoneinfo2")]
    for d in dirs:
        if not os.path.isdir(d):
            os.makedirs(d)
    dbpath = {"plain": db, "trailing-slash": db + "/", "dotted": os.path.join(top, "sub", "..", ".", "zoneinfo"),
              "relative": os.path.relpath(db, os.getcwd())}[cfg]
    try:
        for k in range(0, n):
            for rest in itertools.product(SEGS, repeat=k):
                segs = (SEGS[a],) + rest
                for tail in ("", "/A"):
                    tzid = "/".join(segs) + tail
                    if pre == "/abs/":
                        tzid = root + "/" + tzid
                    elif pre:
                        tzid = pre + tzid
                    if not tzid:
                        continue
                    target = os.path.normpath(os.path.join(db, tzid + ".ics"))
                    inside = target.startswith(db + "/")
                    if not target.startswith(root + "/") or not os.path.isdir(os.path.dirname(target)) or os.path.isdir(target):
                        target = None           # nothing of ours there: only the refusal is checked
                    else:
                        f = open(target, "wb")
                        f.write(tzdata.calendar(body(tzid)))
                        f.close()
                    TimezoneDatabase.createTimezoneDatabase(dbpath)
                    ctx.step(2)
                    tz = TimezoneDatabase.getTimezone(tzid)
                    std = TimezoneDatabase.isStandardTimezone(tzid)
                    off = DateTime(2024, 1, 1, 5, 0, 0, Timezone(tzid=tzid)).timeZoneSecondsOffset()
                    found = tz is not None
                    want = target is not None and inside
                    if found != want or bool(std) != want or off != (18000 if want else 0):
                        raise Mismatch("directory %s (%s): TZID %r is %s (offset %r); the file %s is %s it" % (
                            cfg, dbpath, tzid, "read" if found else "not found", off, target, "inside" if inside else "outside"))
                    ctx.see((inside, found, len(segs)))
                    ctx.see((cfg, pre, segs, tail, found))
                    if target is not None:
                        os.remove(target)
    finally:
        shutil.rmtree(root, True)


PARTS = [("tzids", gen, check, "every TZID of up to 4 (thorough 5) path segments from 8, absolute and relative; 3 (thorough 5) for 3 other spellings of the directory")]
