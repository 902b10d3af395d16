# P05: periods are half-open intervals; durations are signed lengths; both keep their meaning through any use.
from mcbase import Mismatch
import itertools
import refcal as R
import reftz
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone

BASE = R.secs(2024, 2, 28, 23, 0, 0)
UNIT = 1800


def dt(k, kind, step=UNIT):
    f = R.fields(BASE + k * step)
    if kind == "utc":
        return DateTime(*(list(f) + [Timezone(utc=True)]))
    if kind == "floating":
        return DateTime(*f)
    if kind == "date":
        return DateTime(*R.civil(R.days(2024, 2, 28) + k))
    g = R.fields(BASE + k * step + 19800)            # the same instant written with another offset
    return DateTime.parseText("%04d-%02d-%02dT%02d:%02d:%02d" % g + "+05:30", True)


def per(a, b, kind, use):
    if use == "end":
        return Period(start=dt(a, kind), end=dt(b, kind))
    n = (b - a) * (86400 if kind == "date" else UNIT)
    return Period(start=dt(a, kind), duration=Duration(duration=n))


KINDS = [("utc", "utc"), ("floating", "floating"), ("utc", "offset"), ("date", "date")]


# ---- membership, overlap, order ---------------------------------------------------------------------------
def gen_rel(tier):
    n = 7 if tier == "thorough" else 5
    for k in range(len(KINDS)):
        for a in range(n):
            for b in range(a, n):
                for use in ("end", "duration"):
                    yield [k, a, b, use, n]


def check_rel(ctx, case):
    k, a, b, use, n = case
    k1, k2 = KINDS[k]
    for x in range(-1, n + 1):
        p = per(a, b, k1, use)
        d = dt(x, k2)
        ctx.step(3)
        got = (p.isDateWithinPeriod(d), p.isDateBeforePeriod(d), p.isDateAfterPeriod(d))
        want = (a <= x < b, x < a, x >= b)
        if got != want:
            raise Mismatch("point %d against [%d,%d) given by %s: (within,before,after)=%r" % (x, a, b, use, got))
    for c in range(n):
        for e in range(c, n):
            for use2 in ("end", "duration"):
                p, q = per(a, b, k1, use), per(c, e, k2, use2)
                if b > a and e > c:
                    want = max(a, c) < min(b, e)
                    ctx.step()
                    if p.isPeriodOverlap(q) != want or q.isPeriodOverlap(p) != want:
                        raise Mismatch("[%d,%d) and [%d,%d): overlap is %r" % (a, b, c, e, p.isPeriodOverlap(q)))
                w = cmp((a, b), (c, e))
                got = [p == q, p != q, p < q, p <= q, p > q, p >= q]
                ctx.step(6)
                if got != [w == 0, w != 0, w < 0, w <= 0, w > 0, w >= 0]:
                    raise Mismatch("[%d,%d) %s and [%d,%d) %s: (==,!=,<,<=,>,>=)=%r" % (a, b, use, c, e, use2, got))
                if w == 0 and (hash(p) != hash(q) or hash(per(a, b, k1, use)) != hash(per(c, e, k2, use2))):
                    raise Mismatch("equal periods [%d,%d) hash differently" % (a, b))
                ctx.see((k, a, b, c, e, use, use2))


# ---- any sequence of uses leaves start, end and duration alone ---------------------------------------------
OPS = [
    ("getEnd", lambda p: p.getEnd()), ("getDuration", lambda p: p.getDuration()),
    ("useDuration", lambda p: p.setUseDuration(True)), ("useEnd", lambda p: p.setUseDuration(False)),
    ("toUTC", lambda p: p.adjustToUTC()), ("text", lambda p: p.getText()), ("hash", lambda p: hash(p)),
    ("json", lambda p: p.writeJSON([])), ("copy", None), ("reparse", lambda p: p.parse(p.getText())),
    ("other", lambda p: p.isPeriodOverlap(Period(start=dt(0, "utc"), end=dt(2, "utc")))),
]
ONAMES = [o[0] for o in OPS]
OFN = dict(OPS)


def gen_hist(tier):
    for kind in ("utc", "floating", "offset"):
        for use in ("end", "duration"):
            for a in ONAMES:
                for b in ONAMES:
                    yield [kind, use, a, b, 4 if tier == "thorough" else 3]


def check_hist(ctx, case):
    kind, use, a, b, depth = case
    for rest in itertools.product(ONAMES, repeat=depth - 2):
        ops = (a, b) + rest
        if kind == "offset" and "reparse" in ops:
            continue
        p = per(0, 3, kind, use)
        now = use
        for o in ops:
            ctx.step()
            if o == "copy":
                q = p.duplicate()
                # using the copy must not reach back
                q.setUseDuration(not q.getUseDuration())
                q.getStart().offsetHours(5)
                q.getEnd().offsetHours(7)
                q = p.duplicate()
                q.getDuration().setDuration(7)
                q.getEnd().offsetHours(1)
                q = p.duplicate()
                p.getStart().offsetDay(3)
                p = q
            else:
                OFN[o](p)
            if o == "useDuration":
                now = "duration"
            elif o == "useEnd":
                now = "end"
            if (p.getUseDuration() and "duration" or "end") != now:
                raise Mismatch("after %r the period says it is given by its %s" % (ops, p.getUseDuration() and "duration" or "end"))
        s, e = dt(0, kind), dt(3, kind)
        if p.getStart() != s or p.getEnd() != e or p.getDuration().getTotalSeconds() != 3 * UNIT:
            raise Mismatch("after %r [%s] the period is %s..%s (%d s), it was %s..%s" % (
                ops, kind, p.getStart().getText(), p.getEnd().getText(), p.getDuration().getTotalSeconds(), s.getText(), e.getText()))
        tail = "PT1H30M" if now == "duration" else p.getEnd().getText()
        if p.getText() != p.getStart().getText() + "/" + tail:
            raise Mismatch("after %r the period is written %s" % (ops, p.getText()))
        ctx.see(ops)


# ---- the same where a day is not always as long ------------------------------------------------------------------
ZSTARTS = [("Test/NewYork", (2024, 3, 9, 12, 0, 0)), ("Test/NewYork", (2024, 11, 2, 12, 0, 0)), ("Test/Sydney", (2024, 4, 6, 12, 0, 0)), ("Test/Sydney", (2024, 10, 6, 0, 30, 0))]
ZLENGTHS = ["P1D", "P2D", "P1W", "PT24H", "P1DT2H", "PT1H"]
ZOPS = [o for o in ONAMES if o not in ("reparse", "text", "json")] + ["written"]


def gen_zhist(tier):
    for z in range(len(ZSTARTS)):
        for l in ZLENGTHS:
            for use in ("end", "duration", "end of duration"):
                yield [z, l, use, 4 if tier == "thorough" else 3]


def check_zhist(ctx, case):
    z, l, use, depth = case
    tzid, f = ZSTARTS[z]
    tzdata.load(tzdata.NY, tzdata.SYD)
    ref = dict([(x[0], x[1]) for x in ZONES])[tzid]
    d = Duration.parseText(l)
    days, more = d.getWeeks() * 7 + d.getDays(), d.getHours() * 3600
    local = R.secs(*f)
    t0 = local - ref.local(local)
    t1 = local + days * 86400 - ref.local(local + days * 86400) + more
    tz = Timezone(tzid=tzid)
    for ops in itertools.product(ZOPS, repeat=depth):
        start = DateTime(*(list(f) + [tz]))
        p = Period(start=start, duration=d.duplicate()) if use == "duration" else Period(start=start, end=start + d)
        if use.startswith("end of"):
            p = Period(start=start, duration=p.getDuration().duplicate())
        utc = False
        for o in ops:
            ctx.step()
            if o == "copy":
                q = p.duplicate()
                q.adjustToUTC()
                q.setUseDuration(not q.getUseDuration())
                q.getStart().offsetHours(5)
                q.getEnd().offsetHours(7)
                q = p.duplicate()
                p.adjustToUTC()
                p.getStart().offsetDay(3)
                p = q
            elif o == "written":
                q = Period.parseText(p.getText())
                for x in (q.getStart(), None if q.getUseDuration() else q.getEnd()):
                    if x is not None and not utc:
                        x.setTimezone(tz)
                if q != p or q.getText() != p.getText():
                    raise Mismatch("%s %s and %s given by %s, after %r, is written %s, which is another period" % (tzid, f, l, use, ops, p.getText()))
            else:
                OFN[o](p)
                utc = utc or o == "toUTC"
            if p.getStart().getTimezoneUTC() != utc:
                raise Mismatch("%s %s and %s given by %s, after %r: in UTC is %r" % (tzid, f, l, use, ops, not utc))
        got = (p.getStart().getPosixTime(), p.getEnd().getPosixTime(), (p.getStart() + p.getDuration()).getPosixTime())
        if got != (t0, t1, t1):
            raise Mismatch("%s %s and %s given by %s, after %r: %s, from %d to %d (by its duration %d), it was from %d to %d" % (tzid, f, l, use, ops, p.getText(), got[0], got[1], got[2], t0, t1))
        ctx.see((z, l, p.getText()))


# ---- durations as lengths ------------------------------------------------------------------------------------
SECS = sorted(set([s * v for s in (1, -1) for v in (0, 1, 59, 60, 61, 3599, 3600, 3661, 86399, 86400, 90061, 604799, 604800, 604801, 1209600, 31536000)]))


def gen_dur(tier):
    for i in range(len(SECS)):
        yield [i]


def check_dur(ctx, case):
    n = SECS[case[0]]
    for m in SECS:
        a, b = Duration(duration=n), Duration(duration=m)
        got = [a == b, a != b, a < b, a <= b, a > b, a >= b]
        ctx.step(6)
        w = cmp(n, m)
        if got != [w == 0, w != 0, w < 0, w <= 0, w > 0, w >= 0]:
            raise Mismatch("durations %d and %d: (==,!=,<,<=,>,>=)=%r" % (n, m, got))
        if w == 0 and hash(a) != hash(b):
            raise Mismatch("equal durations hash differently: %d" % n)
        a.setDuration(m)
        if a.getTotalSeconds() != m or a != b or a.getText() != b.getText() or a.getForward() != (m >= 0):
            raise Mismatch("a duration of %d s set to %d s is %s" % (n, m, a.getText()))
    d = Duration(duration=n)
    c = d.duplicate()
    c.setDuration(12345)
    if d.getTotalSeconds() != n:
        raise Mismatch("changing a copy changed the duration %d" % n)
    if d.duplicate() != d or d.duplicate().getText() != d.getText():
        raise Mismatch("the copy of %d differs" % n)
    sign = [1, -1][not d.getForward()]
    total = sign * (d.getSeconds() + 60 * (d.getMinutes() + 60 * (d.getHours() + 24 * (d.getDays() + 7 * d.getWeeks()))))
    if total != n or d.getSeconds() > 59 or d.getMinutes() > 59 or d.getHours() > 23 or (d.getWeeks() and d.getDays()):
        raise Mismatch("the fields of a duration of %d s are %r" % (n, (d.getWeeks(), d.getDays(), d.getHours(), d.getMinutes(), d.getSeconds())))
    for kind in ("utc", "floating"):
        for k in range(0, 60):
            s = dt(k, kind)
            t = BASE + k * UNIT
            p, q = s + d, s - d
            ctx.step(4)
            if R.secs(p.getYear(), p.getMonth(), p.getDay(), p.getHours(), p.getMinutes(), p.getSeconds()) != t + n or \
                    R.secs(q.getYear(), q.getMonth(), q.getDay(), q.getHours(), q.getMinutes(), q.getSeconds()) != t - n:
                raise Mismatch("%s +- %s gives %s and %s" % (s.getText(), d.getText(), p.getText(), q.getText()))
            if (p - s) != d or (s - p).getTotalSeconds() != -n or (p - d) != s or (q + d) != s or s != dt(k, kind):
                raise Mismatch("%s + %s = %s does not subtract back" % (s.getText(), d.getText(), p.getText()))
            r = Period(start=s, end=p)
            if r.getDuration() != d or Period(start=s, duration=d).getEnd() != p:
                raise Mismatch("the period %s/%s has duration %s" % (s.getText(), p.getText(), r.getDuration().getText()))
            ctx.see((kind, k, n))


# ---- in a zone, days are those of the calendar and the rest is exact ----------------------------------------
ZONES = [("Test/NewYork", reftz.NY, [(2024, 3, 10), (2024, 11, 3)]), ("Test/Sydney", reftz.SYD, [(2024, 4, 7), (2024, 10, 6)]), ("Test/Kathmandu", reftz.KT, [(2024, 3, 10)])]
HOURS = [0, 1, 3, 10, 23]
DAYS = [-40, -7, -2, -1, 0, 1, 2, 30]
PARTS_OF = [(0, 0), (0, 1), (0, 5), (0, 24), (0, 120), (1, 0), (5, 0), (7, 0), (14, 0), (1, 2), (3, 20), (30, 0)]


def zdt(tzid, s):
    return DateTime(*(list(R.fields(s)) + [Timezone(tzid=tzid)]))


def reading(d):
    return R.secs(d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds())


def dtext(days, hours, sign):
    return ("-" if sign < 0 else "") + ("P%dW" % (days / 7) if days and days % 7 == 0 and not hours else "P" + ("%dD" % days if days else "") + ("T%dH" % hours if hours or not days else ""))


def gen_zones(tier):
    for z in range(len(ZONES)):
        for c in range(len(ZONES[z][2])):
            for n in DAYS:
                for h in HOURS:
                    yield [z, c, n, h]


def check_zones(ctx, case):
    z, c, n, h = case
    tzid, ref, changes = ZONES[z]
    tzdata.load(tzdata.NY, tzdata.SYD, tzdata.FIX)
    a = R.secs(*changes[c]) + n * 86400 + h * 3600 + 600
    if ref.gap(a):
        return
    ia = a - ref.local(a)
    for days, hours in PARTS_OF:
        for sign in (1, -1):
            text = dtext(days, hours, sign)
            mid = a + sign * days * 86400
            i = mid - ref.local(mid) + sign * hours * 3600
            want = i + ref.utc(i) if hours else mid
            # a reading that occurs twice cannot tell which of the two it is
            if want - ref.local(want) != i:
                continue
            start = zdt(tzid, a)
            got = [("+", start + Duration.parseText(text)), ("-", start - Duration.parseText(dtext(days, hours, -sign)))]
            if sign > 0:
                got.append(("end of period", Period(start=zdt(tzid, a), duration=Duration.parseText(text)).getEnd()))
            for what, g in got:
                ctx.step()
                if reading(g) != want or g.getPosixTime() != i or g.getTimezoneID() != tzid:
                    raise Mismatch("%s in %s %s %s is %s (%d), expected %s (%d)" % (R.text(R.fields(a)), tzid, what, text, g.getText(), g.getPosixTime(), R.text(R.fields(want)), i))
            if reading(start) != a:
                raise Mismatch("adding changed the start")
            ctx.see([case, text, want])
    # and what lies between two times takes the one to the other
    for m in DAYS:
        for k in HOURS:
            b = R.secs(*changes[c]) + m * 86400 + k * 3600 + 1200
            ib = b - ref.local(b)
            if ref.gap(b):
                continue
            for other in (tzid, None):
                if other:
                    end = zdt(tzid, b)
                else:
                    end = DateTime(*(list(R.fields(ib)) + [Timezone(utc=True)]))
                for start, s in ((zdt(tzid, a), ia), (end.duplicate(), ib)):
                    e, t = (end, ib) if s == ia else (zdt(tzid, a), ia)
                    diff = e - start
                    ctx.step(3)
                    if diff.getTotalSeconds() != t - s:
                        raise Mismatch("%s - %s is %s, expected %d s" % (e.getText(), start.getText(), diff.getText(), t - s))
                    for d in (diff, Duration.parseText(diff.getText())):
                        g = start + d
                        if g.getPosixTime() != t:
                            raise Mismatch("%s + (%s - %s) = + %s is %s (%d), expected %d" % (start.getText(), e.getText(), start.getText(), d.getText(), g.getText(), g.getPosixTime(), t))
                        g = e - d
                        if g.getPosixTime() != s:
                            raise Mismatch("%s - (%s - %s) = - %s is %s (%d), expected %d" % (e.getText(), e.getText(), start.getText(), d.getText(), g.getText(), g.getPosixTime(), s))
                    if t >= s:
                        p = Period(start=start.duplicate(), end=e.duplicate())
                        p.setUseDuration(True)
                        ctx.step()
                        q = Period(start=start.duplicate(), duration=Duration.parseText(p.getText().split("/")[1]))
                        if p.getEnd().getPosixTime() != t or q.getEnd().getPosixTime() != t or p != q:
                            raise Mismatch("period from %s to %s as %s ends at %s, and %s read again" % (start.getText(), e.getText(), p.getText(), p.getEnd().getText(), q.getEnd().getText()))


PARTS = [
    ("zonedhistory", gen_zhist, check_zhist, "4 starts by zone changes x 6 lengths x given by end or duration x all sequences of 3 (4) of %d uses" % len(ZOPS)),
    ("relations", gen_rel, check_rel, "all pairs of periods over 5 (thorough 7) points, given by end or duration, 4 kinds of value; all points"),
    ("uses", gen_hist, check_hist, "all sequences of 3 (thorough 4) of 11 uses of a period"),
    ("durations", gen_dur, check_dur, "all pairs of 31 lengths; each added to and taken from 60 times"),
    ("zones", gen_zones, check_zones, "3 zones x %d times around each change x %d durations of days and hours, and all pairs of these times" % (len(DAYS) * len(HOURS), 2 * len(PARTS_OF))),
]
