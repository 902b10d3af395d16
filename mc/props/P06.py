# P06: a VTIMEZONE gives the offset and name in force, for local times and instants, in any order of asking.
from mcbase import Mismatch
import itertools
import refcal as R
import reftz
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.vtimezone import VTimezone
from pycalendar.timezonedb import TimezoneDatabase

FAM = reftz.family()
BYID = dict([(f[0], f) for f in FAM])
TEXT = dict([(f[0], tzdata.calendar(tzdata.vtimezone(f[0], f[1]))) for f in FAM])


def zone(tzid):
    """a freshly parsed zone: nothing cached"""
    TimezoneDatabase.createTimezoneDatabase("")
    cal = Calendar.parseText(TEXT[tzid])
    return cal, cal.getComponents("VTIMEZONE")[0]


def asdt(secs, utc):
    return DateTime(*(list(R.fields(secs)) + [Timezone(utc=True) if utc else None]))


def points(tzid):
    """instants/readings around every transition, and one between"""
    out = set()
    tr = BYID[tzid][2].tr
    tr = [t for t in tr if R.fields(t[0])[0] <= 2032]
    last = None
    for onset, frm, to, _n in tr:
        for base in (onset, onset - frm, onset + to - frm):
            for d in (-1, 0, 1, 3600):
                out.add(base + d)
        if last is not None:
            out.add((onset + last) // 2)
        last = onset
    return sorted(out)


def expect(tzid, secs, how):
    ref = BYID[tzid][2]
    first = ref.tr[0][0]
    if how == "local":
        return ref.local(secs) if secs >= first else None
    if how == "name":
        return "(%s)" % ref.name(secs) if secs >= first else None
    return ref.utc(secs) if secs >= first - ref.tr[0][1] else None


def ask(tz, secs, how):
    if how == "name":
        return tz.getTimezoneDescriptor(asdt(secs, False))
    return tz.getTimezoneOffsetSeconds(asdt(secs, how == "utc"), how == "utc")


def verify(ctx, tz, tzid, secs, how, path):
    want = expect(tzid, secs, how)
    if want is None:
        return
    got = ask(tz, secs, how)
    ctx.step()
    if got != want:
        raise Mismatch("%s: %s at %s is %r, expected %r%s" % (tzid, how, R.text(R.fields(secs)), got, want, path))
    ctx.see((tzid, secs, how, got))


# ---- every transition, asked in three orders -------------------------------------------------------------
CACHED = getattr(VTimezone, "UTCOFFSET_CACHE_MAX_ENTRIES", 100000)


def gen_all(tier):
    for f in FAM:
        for order in ("up", "down", "zigzag", "warm"):
            for how in ("local", "utc", "name"):
                yield [f[0], order, how]


def check_all(ctx, case):
    tzid, order, how = case
    VTimezone.UTCOFFSET_CACHE_MAX_ENTRIES = 5 if order == "zigzag" else CACHED
    _cal, tz = zone(tzid)
    pts = points(tzid)
    if not ctx.thorough and how == "name":
        pts = pts[::2]
    if order == "down":
        pts = pts[::-1]
    elif order == "zigzag":
        pts = [x for pair in zip(pts, pts[::-1]) for x in pair]
    elif order == "warm":
        ask(tz, R.secs(2045, 6, 1), "local")
        ask(tz, R.secs(2045, 6, 1), "name")
    for s in pts:
        verify(ctx, tz, tzid, s, how, " (asked in order: %s)" % order)


# ---- histories: all sequences of queries from a fresh zone -------------------------------------------------
def probes(tzid):
    ref = BYID[tzid][2]
    tr = [t for t in ref.tr if R.fields(t[0])[0] <= 2032]
    picks = [tr[0], tr[len(tr) // 3], tr[2 * len(tr) // 3], tr[-1]]
    out = []
    for t in picks:
        out += [(t[0], "local"), (t[0] - t[1], "utc"), (t[0] - 1, "local"), (t[0] + 40 * 86400, "name")]
    out += [(R.secs(2031, 12, 31, 23, 59, 59), "local"), (R.secs(2032, 1, 1), "utc"), (R.secs(2040, 1, 1), "name")]
    return out


def gen_hist(tier):
    for f in FAM:
        n = len(probes(f[0]))
        for a in range(n):
            for b in range(n):
                yield [f[0], a, b]


def check_hist(ctx, case):
    tzid, a, b = case
    # what was remembered is forgotten after a number of answers
    VTimezone.UTCOFFSET_CACHE_MAX_ENTRIES = (CACHED, 1, 2, CACHED)[(a + b) % 4]
    ps = probes(tzid)
    for mode in (("plain", "copy", "expand") if ctx.thorough else ("plain", "expand")):
        _cal, tz = zone(tzid)
        for k, i in enumerate((a, b)):
            secs, how = ps[i]
            verify(ctx, tz, tzid, secs, how, " (query %d of %r, %s)" % (k, [ps[a], ps[b]], mode))
            if mode == "copy" and k == 0:
                tz = tz.duplicate()
            elif mode == "expand" and k == 0:
                tz.expandAll(DateTime(2010, 1, 1, 0, 0, 0), DateTime(2012, 6, 1, 0, 0, 0))
        for secs, how in (ps if ctx.thorough else ps[::3]):
            verify(ctx, tz, tzid, secs, how, " (after %r, %s)" % ([ps[a], ps[b]], mode))


# ---- the list of transitions in a window --------------------------------------------------------------------
def gen_exp(tier):
    years = range(1994, 2033, 1 if tier == "thorough" else 3)
    for f in FAM:
        for y in years:
            yield [f[0], y]


def check_exp(ctx, case):
    tzid, y = case
    ref = BYID[tzid][2]
    _cal, tz = zone(tzid)
    for lo, hi in ((y, y + 1), (y, y + 5), (y - 7, y + 2), (y, y + 2)):
        for start in (None, R.secs(lo, 1, 1), R.secs(lo, 6, 30, 12)):
            end = R.secs(hi, 3, 15)
            last = [t[0] for t in ref.tr if t[0] <= end]
            if last and hi % 2:
                end = last[-1] + hi % 4 - 1       # at an onset, which is then left out, or two seconds on
            got = tz.expandAll(None if start is None else asdt(start, False), asdt(end, False), True)
            ctx.step()
            seen = []
            for row in got:
                local, utc, frm, to, name = row
                seen.append((local.getText(), utc.getText(), frm, to, name))
            want = [(R.text(R.fields(t[0])), R.text(R.fields(t[0] - t[1])) + "Z", t[1], t[2], t[3])
                    for t in ref.tr if (start is None or t[0] >= start) and t[0] < end]
            if seen != want:
                raise Mismatch("%s: transitions from %s to %s are %r, expected %r" % (
                    tzid, start and R.text(R.fields(start)), R.text(R.fields(end)), seen[:4], want[:4]))
            ctx.see((tzid, lo, hi, len(seen)))


# ---- zones without a name, asked of the zone, of its calendar and of the registry -----------------------------------
def gen_asked(tier):
    for m in range(-12 * 60, 14 * 60 + 1, 5 if tier == "thorough" else 15):
        yield m


def sign(m):
    return "%s%02d%02d" % ("-" if m < 0 else "+", abs(m) // 60, abs(m) % 60)


def check_asked(ctx, m):
    # two zones whose names differ in little, with a change of half an hour or an hour and a half
    for step in (30, -30, 90, 0):
        if not -14 * 60 < m + step < 15 * 60:
            continue
        body = ""
        for tzid, a, b in (("Z/A", m, m + step), ("Z/Ab", m + step, m), ("z/a", 60, 75)):
            body += tzdata.vtimezone(tzid, [("STANDARD", "20000101T000000", sign(a), sign(a), "", None), ("DAYLIGHT", "20100701T120000", sign(a), sign(b), "", None)]).replace("TZNAME:\r\n", "")
        for order in (0, 1):
            TimezoneDatabase.createTimezoneDatabase("")
            cal = Calendar.parseText(tzdata.calendar(body))
            asked = [("Z/A", m, m + step), ("Z/Ab", m + step, m), ("z/a", 60, 75), ("Z", None, None), ("Z/a", None, None), ("", None, None)]
            for tzid, a, b in asked[::-1] if order else asked:
                for when, want in ((DateTime(2005, 6, 1, 12, 0, 0), a), (DateTime(2012, 6, 1, 12, 0, 0), b)):
                    ctx.step()
                    secs, name = (0, "") if want is None else (want * 60, sign(want))
                    tz = cal.getTimezone(tzid)
                    if (tz is None) != (want is None):
                        raise Mismatch("the calendar with Z/A, Z/Ab and z/a gives %r for %r" % (tz and tz.getID(), tzid))
                    utc = when.duplicate()
                    utc.setTimezoneUTC(True)
                    got = [
                        cal.getTimezoneOffsetSeconds(tzid, when), cal.getTimezoneDescriptor(tzid, when), cal.getTimezoneOffsetSeconds(tzid, utc, True),
                        TimezoneDatabase.getTimezoneOffsetSeconds(tzid, when), TimezoneDatabase.getTimezoneDescriptor(tzid, when), TimezoneDatabase.getTimezoneOffsetSeconds(tzid, utc, True),
                    ] + ([tz.getTimezoneOffsetSeconds(when), tz.getTimezoneDescriptor(when)] if tz is not None else [])
                    if got != ([secs, name, secs] * 2 + [secs, name])[:len(got)]:
                        raise Mismatch("%r of %s (offsets %s and %s) at %s: %r, expected %r" % (tzid, "Z/A, Z/Ab, z/a", sign(m), sign(m + step), when.getText(), got, (secs, name)))
                    ctx.see((tzid, secs, name))


PARTS = [
    ("asked", gen_asked, check_asked, "zones without names and alike in theirs, offsets every 15 (5) minutes x 4 changes, asked of zone, calendar and registry, in both orders"),
    ("transitions", gen_all, check_all, "10 zones, every transition to 2032 and its neighbours, local/instant/name, 4 orders of asking"),
    ("histories", gen_hist, check_hist, "all ordered pairs of 19 queries on a fresh zone (and with an expansion between), then the rest"),
    ("windows", gen_exp, check_exp, "transition lists for windows over 1994-2032"),
]
