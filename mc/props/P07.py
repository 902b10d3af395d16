# P07: conversion between zones, UTC and fixed offsets keeps the instant and gives the right local reading.
from mcbase import Mismatch
import refcal as R
import reftz
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase

FAM = [f for f in reftz.family()]
REF = dict([(f[0], f[2]) for f in FAM])
ZONES = ["T/NY", "T/SYD", "T/LH", "T/NYOLD", "T/COUNT", "T/FIXED"]
BODIES = [tzdata.vtimezone(f[0], f[1]) for f in FAM]


def fresh():
    tzdata.load(*BODIES)


fresh()
TARGETS = ["utc"] + ZONES + ["+05:30", "-03:45", "+14:00", "+00:00"]


def offset(rep):
    return (-1 if rep[0] == "-" else 1) * (int(rep[1:3]) * 3600 + int(rep[4:6]) * 60)


def tzof(rep):
    if rep == "utc":
        return Timezone(utc=True)
    if rep in REF:
        return Timezone(tzid=rep)
    return Timezone(utc=False, tzid=offset(rep))


def off_at(rep, t):
    if rep == "utc":
        return 0
    return REF[rep].utc(t) if rep in REF else offset(rep)


def fields(d):
    return (d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds())


def writable(rep, t):
    """can the instant be written unambiguously in that zone?"""
    if rep not in REF:
        return True
    ref = REF[rep]
    if t < ref.tr[0][0] + 86400 * 2:
        return False
    local = t + ref.utc(t)
    return ref.local(local) == ref.utc(t)


def build(rep, t):
    f = R.fields(t + off_at(rep, t))
    return DateTime(*(list(f) + [tzof(rep)]))


def instants(tier):
    out = set()
    for rep in ZONES:
        for onset, frm, to, _n in REF[rep].tr:
            y = R.fields(onset)[0]
            if y < 2011 or y > (2026 if tier == "thorough" else 2013):
                continue
            u = onset - frm
            for d in (-86400, -7200, -3600, -1800, -1, 0, 1, 1799, 3599, 3600, 7200, 86400):
                out.add(u + d)
    for y in (2012, 2020, 2023):
        for m, d in ((1, 1), (2, 29 if R.leap(y) else 28), (3, 1), (12, 31)):
            for h in (0, 11, 23):
                out.add(R.secs(y, m, d, h, 59, 59))
    return sorted(out)


def gen_conv(tier):
    n = len(instants(tier))
    for src in TARGETS:
        for lo in range(0, n, 12):
            yield [src, lo, 12]


def check_conv(ctx, case):
    src, lo, n = case
    for t in instants(ctx.tier)[lo:lo + n]:
        if not writable(src, t):
            continue
        for dst in TARGETS:
            if dst in REF and t < REF[dst].tr[0][0] + 2 * 86400:
                continue
            for cached in (False, True):
                a = build(src, t)
                if cached:
                    a.getPosixTime()
                    a.timeZoneSecondsOffset()
                b = a.getAdjustedTime(tzof(dst))
                want = R.fields(t + off_at(dst, t))
                ctx.step(2)
                if fields(b) != want:
                    raise Mismatch("%s %s in %s is %s, expected %s" % (a.getText(), src, dst, b.getText(), R.text(want)))
                if fields(a) != R.fields(t + off_at(src, t)):
                    raise Mismatch("asking for %s in %s changed the original" % (a.getText(), dst))
                if writable(dst, t):
                    if b.getPosixTime() != t or not (a == b) or (a - b).getTotalSeconds() != 0 or hash(a) != hash(b):
                        raise Mismatch("%s %s and its %s form %s are not the same instant (%r, %r)" % (
                            a.getText(), src, dst, b.getText(), a.getPosixTime(), b.getPosixTime()))
                    u = b.duplicateAsUTC()
                    if fields(u) != R.fields(t) or not u.getTimezoneUTC() or u.getPosixTime() != t:
                        raise Mismatch("%s %s as UTC is %s, expected %s" % (b.getText(), dst, u.getText(), R.text(R.fields(t))))
                    c = b.duplicate()
                    c.adjustTimezone(tzof(src))
                    if fields(c) != fields(a) or c.getPosixTime() != t:
                        raise Mismatch("%s %s to %s and back is %s" % (a.getText(), src, dst, c.getText()))
                    if b.timeZoneSecondsOffset() != off_at(dst, t):
                        raise Mismatch("the offset of %s in %s is %r" % (b.getText(), dst, b.timeZoneSecondsOffset()))
                ctx.see((src, dst, t))


# ---- chains: instant kept through every sequence of zones --------------------------------------------------
def gen_chain(tier):
    ts = instants("quick")
    for i in range(0, len(ts), 4 if tier == "thorough" else 9):
        for a in TARGETS:
            yield [i, a]


def check_chain(ctx, case):
    i, a = case
    t = instants("quick")[i]
    if not writable(a, t):
        return
    for b in TARGETS:
        if not writable(b, t):
            continue
        for c in TARGETS:
            if not writable(c, t):
                continue
            d = build(a, t)
            for z in (b, c, a):
                d.adjustTimezone(tzof(z))
                ctx.step()
                if fields(d) != R.fields(t + off_at(z, t)):
                    raise Mismatch("the instant %s via %r: in %s it reads %s" % (R.text(R.fields(t)), (a, b, c), z, d.getText()))
            d.adjustToUTC()
            if fields(d) != R.fields(t) or d.getPosixTime() != t:
                raise Mismatch("the instant %s via %r comes back as %s" % (R.text(R.fields(t)), (a, b, c), d.getText()))
            ctx.see((a, b, c, t))


PARTS = [
    ("conversions", gen_conv, check_conv, "11 forms to 11 forms x every change of 6 zones 2011-2013 (thorough 2011-2026) and its neighbours, cached or not"),
    ("chains", gen_chain, check_chain, "all chains of 3 zones for every 9th (thorough 4th) of those instants"),
]
