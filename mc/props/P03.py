# P03: comparison, equality, hash, difference and sorting of date-times follow one total order.
from mcbase import Mismatch
import itertools
import refcal as R
import reftz
import tzdata
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone

tzdata.load(tzdata.NY, tzdata.SYD, tzdata.FIX)
ZONES = {"ny": (reftz.NY, "Test/NewYork"), "syd": (reftz.SYD, "Test/Sydney"), "kt": (reftz.KT, "Test/Kathmandu")}
REPS = ["utc", "ny", "syd", "kt", "+05:30", "-08:00", "+00:45", "-00:30", "+00:00"]


def instants(thorough):
    base = []
    # around both New York changes, a Sydney change, year and leap-day boundaries
    for y, m, d, h in ((2024, 3, 10, 7), (2024, 11, 3, 6), (2024, 4, 6, 16), (2023, 10, 1, 0), (2024, 1, 1, 0), (2024, 3, 1, 0)):
        t = R.secs(y, m, d, h, 0, 0)
        offs = [-3600, -1, 0, 1, 3600]
        if thorough:
            offs += [-86400, -7200, -1800, -60, 60, 1800, 7200, 86400]
        base += [t + o for o in offs]
    return sorted(set(base))


def build(t, rep):
    """-> DateTime that denotes the instant t in that form, or None where the form cannot express it"""
    if rep == "utc":
        return DateTime(*(list(R.fields(t)) + [Timezone(utc=True)]))
    if rep in ZONES:
        ref, tzid = ZONES[rep]
        off = ref.utc(t)
        if ref.fold(t + off) and ref.local(t + off) != off:
            return None             # the second reading of a repeated hour cannot be written down
        return DateTime(*(list(R.fields(t + off)) + [Timezone(tzid=tzid)]))
    sign = -1 if rep[0] == "-" else 1
    off = sign * (int(rep[1:3]) * 3600 + int(rep[4:6]) * 60)
    return DateTime.parseText("%04d-%02d-%02dT%02d:%02d:%02d" % R.fields(t + off) + rep, True)


def pairwise(ctx, a, ka, b, kb, what):
    want = cmp(ka, kb)
    got = [cmp(a.compareDateTime(b), 0), a == b, a != b, a < b, a <= b, a > b, a >= b]
    exp = [want, want == 0, want != 0, want < 0, want <= 0, want > 0, want >= 0]
    ctx.step(7)
    if got != exp:
        raise Mismatch("%s: %s vs %s gives (cmp,==,!=,<,<=,>,>=)=%r, expected %r" % (what, a.getText(), b.getText(), got, exp))
    if want == 0 and hash(a) != hash(b):
        raise Mismatch("%s: equal %s and %s hash differently" % (what, a.getText(), b.getText()))


# ---- instants ------------------------------------------------------------------------------------------
def gen_instants(tier):
    n = len(instants(tier == "thorough"))
    for i in range(n):
        for rep in REPS:
            yield [i, rep]


def check_instants(ctx, case):
    ts = instants(ctx.thorough)
    i, rep = case
    a0 = build(ts[i], rep)
    if a0 is None:
        return
    for j, t in enumerate(ts):
        for rep2 in REPS:
            b = build(t, rep2)
            if b is None:
                continue
            a = build(ts[i], rep)
            pairwise(ctx, a, ts[i], b, t, "instants")
            d = (a - b).getTotalSeconds()
            ctx.step()
            if d != ts[i] - t:
                raise Mismatch("%s[%s] - %s[%s] is %d s, the instants are %d s apart" % (a.getText(), rep, b.getText(), rep2, d, ts[i] - t))
            # again once both have cached their instants
            pairwise(ctx, a, ts[i], b, t, "instants, asked again")
    if a0.getPosixTime() != ts[i]:
        raise Mismatch("%s[%s] is instant %r, expected %r" % (a0.getText(), rep, a0.getPosixTime(), ts[i]))
    ctx.see((rep, a0.getText(), a0.getPosixTime()))


# ---- floating and date-only values among themselves, and dates against date-times ------------------------
def locals_(thorough):
    out = []
    for y, m, d in ((2023, 12, 31), (2024, 1, 1), (2024, 2, 29), (2024, 3, 1), (2024, 3, 10), (1969, 12, 31), (2100, 2, 28)):
        for h, mi, s in ((0, 0, 0), (0, 0, 1), (2, 30, 0), (23, 59, 59)):
            out.append((y, m, d, h, mi, s))
    return out


def gen_floating(tier):
    for i in range(len(locals_(0))):
        for kind in ("floating", "date", "ny", "utc"):
            yield [i, kind]


def make(f, kind):
    if kind == "date":
        return DateTime(*f[:3])
    return DateTime(*(list(f) + [{"floating": None, "ny": Timezone(tzid="Test/NewYork"), "utc": Timezone(utc=True)}[kind]]))


def check_floating(ctx, case):
    i, kind = case
    f = tuple(locals_(0)[i])
    for g in locals_(0):
        for kind2 in ("floating", "date", "ny", "utc"):
            if not (kind == kind2 and kind in ("floating", "date")) and "date" not in (kind, kind2):
                continue
            a, b = make(f, kind), make(g, kind2)
            if "date" in (kind, kind2):
                ka, kb = f[:3], g[:3]
            else:
                ka, kb = f, g
            want = cmp(ka, kb)
            if kind == kind2:
                pairwise(ctx, a, ka, b, kb, kind)
                d = (a - b).getTotalSeconds()
                exp = R.secs(*f) - R.secs(*g) if kind == "floating" else (R.days(*f[:3]) - R.days(*g[:3])) * 86400
                if d != exp:
                    raise Mismatch("%s - %s is %d s, expected %d" % (a.getText(), b.getText(), d, exp))
            else:
                ctx.step()
                got = [cmp(a.compareDateTime(b), 0), a == b, a < b, a > b]
                if got != [want, want == 0, want < 0, want > 0]:
                    raise Mismatch("date against date-time: %s vs %s gives %r, the dates compare %d" % (a.getText(), b.getText(), got, want))
            ctx.see((kind, kind2, a.getText(), b.getText()))
            if a.compareDate(b) != (f[:3] == g[:3]):
                raise Mismatch("compareDate(%s, %s)" % (a.getText(), b.getText()))


# ---- a floating value against one with a zone is taken in the zone of the other --------------------------------
OTHERS = ["utc", "ny", "syd", "kt", "+05:30", "-08:00"]


def zoned(f, rep):
    if rep == "utc":
        return DateTime(*(list(f) + [Timezone(utc=True)]))
    if rep in ZONES:
        return DateTime(*(list(f) + [Timezone(tzid=ZONES[rep][1])]))
    return DateTime.parseText("%04d-%02d-%02dT%02d:%02d:%02d" % f + rep, True)


def offset(f, rep):
    """-> the offset in force at that reading, or None where it has none or two"""
    if rep in ZONES:
        ref = ZONES[rep][0]
        s = R.secs(*f)
        off = ref.local(s)
        return None if ref.fold(s) or ref.utc(s - off) != off else off
    return 0


def gen_mixed(tier):
    for i in range(len(locals_(0))):
        for rep in OTHERS:
            yield [i, rep]


def check_mixed(ctx, case):
    i, rep = case
    f = tuple(locals_(0)[i])
    for g in locals_(0):
        for default in (None, "Test/NewYork"):
            old = Timezone.sDefaultTimezone
            if default:
                Timezone.sDefaultTimezone = Timezone(tzid=default)
            try:
                a, b = DateTime(*(list(f) + [Timezone(utc=False, tzid=None)])), zoned(tuple(g), rep)
                if not a.floating():
                    raise Mismatch("%s is not floating" % (a.getText(),))
                for asked in range(2):
                    for x, kx, y, ky in ((a, f, b, tuple(g)), (b, tuple(g), a, f)):
                        want = cmp(kx, ky)
                        got = [cmp(x.compareDateTime(y), 0), x == y, x != y, x < y, x <= y, x > y, x >= y]
                        ctx.step(7)
                        if got != [want, want == 0, want != 0, want < 0, want <= 0, want > 0, want >= 0]:
                            raise Mismatch("floating against %s: %s vs %s gives %r, their readings compare %d" % (rep, x.getText(), y.getText(), got, want))
                        ox, oy = offset(kx, rep), offset(ky, rep)
                        if ox is not None and oy is not None:
                            d = (x - y).getTotalSeconds()
                            exp = R.secs(*kx) - ox - R.secs(*ky) + oy
                            if d != exp:
                                raise Mismatch("floating against %s: %s - %s is %d s, expected %d" % (rep, x.getText(), y.getText(), d, exp))
                if not a.floating() or a.getText() != "%04d%02d%02dT%02d%02d%02d" % f:
                    raise Mismatch("comparing changed the floating time")
            finally:
                Timezone.sDefaultTimezone = old
    ctx.see((f, rep))


# ---- sorting and lookup: every permutation of small mixed collections ---------------------------------------
def gen_sort(tier):
    ts = instants(False)
    picks = [ts[0], ts[2], ts[3], ts[2]]
    for reps in itertools.product(REPS[:5], repeat=3):
        yield [picks[:3], list(reps)]
        if tier == "thorough":
            for r in REPS[:5]:
                yield [picks, list(reps) + [r]]


def check_sort(ctx, case):
    picks, reps = case
    items = [(t, r) for t, r in zip(picks, reps) if build(t, r) is not None]
    for perm in itertools.permutations(items):
        objs = [build(t, r) for t, r in perm]
        for out in (sorted(objs), sorted(objs, cmp=DateTime.sort)):
            ctx.step()
            got = [o.getPosixTime() for o in out]
            if got != sorted([t for t, _r in perm]):
                raise Mismatch("sorting %r gives instants %r" % (perm, got))
        index = {}
        for o, (t, _r) in zip(objs, perm):
            index[o] = t
        if len(index) != len(set([t for t, _r in perm])):
            raise Mismatch("%d different keys for %r" % (len(index), perm))
        for t, _r in perm:
            for r in REPS[:5]:
                probe = build(t, r)
                if probe is not None and index.get(probe) != t:
                    raise Mismatch("%s[%s] is not found among equal keys of %r" % (probe.getText(), r, perm))
        ctx.see(tuple(perm))


PARTS = [
    ("instants", gen_instants, check_instants, "all pairs of 30 (thorough 78) instants around zone changes x 8 written forms each"),
    ("floating-and-dates", gen_floating, check_floating, "all pairs of 28 readings x floating/date-only/zoned"),
    ("mixed", gen_mixed, check_mixed, "all pairs of 28 readings, one floating, the other in one of 6 zones x 2 default timezones, both ways round"),
    ("sorting", gen_sort, check_sort, "all permutations of 3 (thorough 4) values x 125 combinations of forms, lists and dictionaries"),
]
