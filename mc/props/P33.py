# P33: what zonal makes of tz source (transitions, VTIMEZONEs, files) gives the offsets and names the source defines.
from mcbase import Mismatch
import itertools
import os
import shutil
import calcat as C
import refcal as R
import refolson
import tzi
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from zonal.rule import Rule, RuleSet
from zonal.tzconvert import tzconvert
from zonal.zone import Zone

HERE = os.path.dirname(os.path.abspath(refolson.__file__))
DAYS = refolson.DAYS
MONTHS = refolson.MONTHS


def secs(t):
    return R.secs(int(t[:4]), int(t[4:6]), int(t[6:8]), int(t[9:11]), int(t[11:13]), int(t[13:15]))


def offset(s):
    n = int(s[1:3]) * 3600 + int(s[3:5]) * 60 + (int(s[5:7]) if len(s) > 5 else 0)
    return -n if s[0] == "-" else n


def hm(n):
    s = "-" if n < 0 else ""
    n = abs(n)
    return "%s%d:%02d" % (s, n // 3600, n // 60 % 60) + (":%02d" % (n % 60) if n % 60 else "")


def shown(t):
    return "%04d-%02d-%02d %02d:%02d:%02d UTC" % (R.civil(t // 86400) + (t % 86400 // 3600, t // 60 % 60, t % 60))


def yearly(rule, start, hi):
    """instances, in local seconds, of a yearly RRULE (BYMONTH, BYMONTHDAY, BYYEARDAY, BYDAY only) before year hi"""
    known = {}
    for part in rule.split(";"):
        k, v = part.split("=")
        known[k] = v
    if known.pop("FREQ") != "YEARLY" or set(known) - set(("UNTIL", "BYMONTH", "BYMONTHDAY", "BYYEARDAY", "BYDAY")):
        raise Mismatch("a rule the reference does not read: " + rule)
    ints = dict((k, [int(x) for x in v.split(",")]) for k, v in known.items() if k not in ("UNTIL", "BYDAY"))
    byday = [(int(d[:-2] or 0), ["SU", "MO", "TU", "WE", "TH", "FR", "SA"].index(d[-2:])) for d in known["BYDAY"].split(",")] if "BYDAY" in known else []
    first = secs(start)
    until = secs(known["UNTIL"].rstrip("Z")) if "UNTIL" in known else None
    if until is not None and not known["UNTIL"].endswith("Z"):
        raise Mismatch("UNTIL not in UTC: " + rule)
    out = []
    for y in range(int(start[:4]), hi):
        jan, size = R.days(y, 1, 1), R.days(y + 1, 1, 1) - R.days(y, 1, 1)
        if "BYYEARDAY" in ints:
            days = [jan + (k - 1 if k > 0 else size + k) for k in ints["BYYEARDAY"]]
            if "BYMONTH" in ints:
                days = [n for n in days if R.civil(n)[1] in ints["BYMONTH"]]
        else:
            days = []
            for m in ints.get("BYMONTH", [int(start[4:6])]):
                ml = R.mlen(y, m)
                if "BYMONTHDAY" in ints:
                    days += [R.days(y, m, k if k > 0 else ml + 1 + k) for k in ints["BYMONTHDAY"] if abs(k) <= ml]
                elif byday:
                    days += [R.days(y, m, k) for k in range(1, ml + 1)]
                elif int(start[6:8]) <= ml:
                    days.append(R.days(y, m, int(start[6:8])))
        for n in sorted(set(days)):
            if byday:
                _y, m, d = R.civil(n)
                ml = R.mlen(y, m)
                if not [1 for k, w in byday if R.wday(n) == w and (k == 0 or k > 0 and (d - 1) // 7 + 1 == k or k < 0 and (ml - d) // 7 + 1 == -k)]:
                    continue
            if n * 86400 + first % 86400 >= first:
                out.append(n * 86400 + first % 86400)
    return out, until


def observances(text, hi):
    """what a VTIMEZONE text says: sorted (instant, offset before, offset after, name, kind)"""
    out = []
    lines = text.replace("\r\n ", "").split("\r\n")
    cur = None
    for l in lines:
        if l in ("BEGIN:STANDARD", "BEGIN:DAYLIGHT"):
            cur, rdates, kind = {}, [], l[6:]
        elif l.startswith("END:") and cur is not None:
            frm, to = offset(cur["TZOFFSETFROM"]), offset(cur["TZOFFSETTO"])
            on = set([secs(cur["DTSTART"])] + [secs(x) for x in rdates])
            if "RRULE" in cur:
                inst, until = yearly(cur["RRULE"], cur["DTSTART"], hi)
                on |= set([x for x in inst if until is None or x - frm <= until])
                if until is not None and inst and until not in [x - frm for x in inst]:
                    raise Mismatch("UNTIL is none of the rule's times: %s" % cur)
            out += [(x - frm, frm, to, cur.get("TZNAME"), kind) for x in on]
            cur = None
        elif cur is not None:
            k, v = l.split(":", 1)
            if k == "RDATE":
                rdates += v.split(",")
            else:
                cur[k] = v
    return sorted(out)


def compare(ref, changes, lo, hi, what, source, names=False):
    """changes: sorted (instant, before, after, ...); ref: refolson.Compiled.  From year lo on and before year hi"""
    if not changes:
        raise Mismatch("%s has nothing\n%s" % (what, source))
    for a, b in zip(changes, changes[1:]):
        if a[0] == b[0] and a[1:3] != b[1:3]:
            raise Mismatch("%s has two changes at %s: %s and %s\n%s" % (what, shown(a[0]), a, b, source))
    points = sorted(set([c[0] for c in changes] + [c[0] for c in ref.changes] + [R.secs(lo, 1, 1), R.secs(hi, 1, 1) - 1]))
    a, b = R.secs(lo, 1, 1), R.secs(hi, 1, 1) - 2 * 86400       # what a rule of year hi does on its first day is not asked for
    ci = ri = -1
    for t in points:
        if not a <= t < b:
            continue
        for q in (t - 1, t):
            if q < a:
                continue
            while ci + 1 < len(changes) and changes[ci + 1][0] <= q:
                ci += 1
            while ri + 1 < len(ref.changes) and ref.changes[ri + 1][0] <= q:
                ri += 1
            got = changes[ci][2] if ci >= 0 else changes[0][1]
            want = ref.changes[ri][1] if ri >= 0 else ref.start[0]
            if got != want:
                raise Mismatch("%s: offset at %s is %s, the source says %s\n%s" % (what, shown(q), hm(got), hm(want), source))
            if names and ci >= 0 and ri >= 0 and ref.changes[ri][3] is not None and changes[ci][3] != ref.changes[ri][3]:
                raise Mismatch("%s: name at %s is %r, the source says %r\n%s" % (what, shown(q), changes[ci][3], ref.changes[ri][3], source))
            if names and ci >= 0 and ri >= 0:
                if (changes[ci][4] == "DAYLIGHT") != (ref.changes[ri][1] != ref.changes[ri][2]):
                    raise Mismatch("%s: at %s it is %s, the source says offset %s, standard %s\n%s" % (what, shown(q), changes[ci][4], hm(ref.changes[ri][1]), hm(ref.changes[ri][2]), source))


def load(rules, zones):
    """the source through Rule, RuleSet and Zone"""
    sets = {}
    byname = {}
    for r in rules:
        byname.setdefault(r.split()[1], []).append(r)
    for n, ls in byname.items():
        rs = RuleSet()
        rs.parse("\n".join(ls))
        sets[n] = rs
    out = []
    for z in zones:
        zn = Zone()
        zn.parse(z)
        out.append(zn)
    return sets, out


def check_zone(ctx, zone, sets, ref, lo, hi, source, asked=False):
    tr = []
    for d in zone.expand(sets, lo, hi):
        ctx.step()
        s = secs(d[0].getText())
        tr.append((s - d[1], d[1], d[2]))
    if [x[0] for x in tr] != sorted(x[0] for x in tr):
        raise Mismatch("transitions out of order\n" + source)
    for x, y in zip(tr, tr[1:]):
        if x[2] != y[1]:
            raise Mismatch("transition at %s leaves from %s, the one before went to %s\n%s" % (shown(y[0]), hm(y[1]), hm(x[2]), source))
    compare(ref, tr, lo, hi, "expand(%d, %d)" % (lo, hi), source)
    cal = Calendar()
    text = str(zone.vtimezone(cal, sets, lo, hi))
    obs = observances(text, hi + 1)
    ctx.step(len(obs))
    compare(ref, obs, lo, hi, "VTIMEZONE(%d, %d)" % (lo, hi), source + "\n" + text, True)
    if "TZID:" + zone.name + "\r\n" not in text:
        raise Mismatch("TZID is not that of the zone: " + text)
    if asked:
        # the component itself, read back, gives the same offsets
        cal = Calendar.parseText("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + text + "END:VCALENDAR\r\n")
        vtz = cal.getComponents()[0]
        first = obs[0][0]
        for t, _std in sorted(set((c[0] + d, 0) for c in ref.changes for d in (-1, 0) if R.secs(lo, 1, 1) <= c[0] < R.secs(hi, 1, 1) and c[0] > first)):
            y, mo, d = R.civil(t // 86400)
            s = t % 86400
            got = vtz.getTimezoneOffsetSeconds(DateTime(y, mo, d, s // 3600, s // 60 % 60, s % 60), True)
            ctx.step()
            if got != ref.at(t)[0]:
                raise Mismatch("the VTIMEZONE read back: offset at %s is %s, the source says %s\n%s\n%s" % (shown(t), hm(got), hm(ref.at(t)[0]), source, text))
    ctx.see(text)
    return text


# -- part days: every form of a rule's day and time, at offsets that move it to another day ---------------------------

TIMES = ["0:00", "2:00", "23:00", "24:00", "1:00u", "23:00u", "0:00s", "22:00s"]
MORETIMES = ["2", "12:30:15", "25:00", "3:00g", "5:00z", "4:00w", "24:00u", "23:59:59s"]
OFFSETS = ["-11:00", "-3:30", "0:00", "5:45", "13"]


def dayforms(tier):
    ws = DAYS if tier == "thorough" else ["Sun", "Thu", "Sat"]
    out = []
    for m in range(1, 13):
        forms = ["last" + w for w in ws] + ["%s>=%d" % (w, n) for w in ws for n in (1, 2, 8, 15, 22, 23, 25, 29)] + ["%s<=%d" % (w, n) for w in ws for n in (7, 8, 21, 28)]
        forms += [str(d) for d in (1, 2, 15, 27, 28, 30, 31)]
        for f in forms:
            if m == 2 and (f in ("30", "31") or f.endswith(">=29")):
                continue
            if f == "31" and R.mlen(2001, m) == 30:
                continue
            out.append((MONTHS[m - 1], f))
    return out


def gen_days(tier):
    for k, (m, f) in enumerate(dayforms(tier)):
        for j, at in enumerate(TIMES + (MORETIMES if tier == "thorough" else [])):
            for i, off in enumerate(OFFSETS):
                if tier != "thorough" and (k + j + 2 * i) % 5:
                    continue        # one offset in five for each form and time
                yield [m, f, at, off]
    for k, at in enumerate(MORETIMES):
        for off in OFFSETS:
            yield ["Oct", ["lastSat", "Sun>=1", "31", "Thu<=7"][k % 4], at, off]


def do_days(ctx, case):
    m, f, at, off = case
    other = MONTHS[(MONTHS.index(m) + 5) % 12]
    rules = [
        "Rule\tA\t1995\tmax\t-\t%s\t%s\t%s\t1:00\tD" % (m, f, at),
        "Rule\tA\t1995\t2009\t-\t%s\tSun>=8\t2:00\t0\tS" % other,
        "Rule\tA\t2010\tmax\t-\t%s\tSun>=8\t1:00s\t0\tS" % other,
    ]
    zone = "Zone\tTest/Zone\t%s\t-\tLMT\t1990\n\t\t\t%s\tA\tX%%sT" % (off, off)
    sets, zones = load(rules, [zone])
    source = "\n".join(rules + [zone])
    ref = refolson.compile(source, hi=2022)["Test/Zone"]
    if not ref.sane or ref.overlap:
        raise Mismatch("bad case")
    text = check_zone(ctx, zones[0], sets, ref, 1994, 2021, source, case[3] in ("-11:00", "13"))
    # the source is written as it was read
    if str(zones[0]).split() != zone.split() or str(sets["A"]).split() != "\n".join(rules).split():
        raise Mismatch("the source reads back as %s and %s" % (zones[0], sets["A"]))
    return text


# -- part lines: what happens where one line of a zone gives way to another -------------------------------------------

RULESETS = {
    "E": ["Rule\tE\t1980\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tS", "Rule\tE\t1980\tmax\t-\tOct\tlastSun\t1:00u\t0\t-"],
    "W": ["Rule\tW\t1970\t1985\t-\tApr\tSun>=1\t2:00\t1:00\tD", "Rule\tW\t1970\t1989\t-\tOct\tlastSun\t2:00\t0\tS",
          "Rule\tW\t1986\t1989\t-\tApr\t1\t0:00s\t0:30\tH"],
    "S": ["Rule\tS\t1975\tmax\t-\tOct\tSun>=1\t2:00s\t1:00\tD", "Rule\tS\t1975\tmax\t-\tMar\tSun>=15\t2:00s\t0\tS"],
    "L": ["Rule\tL\t1999\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tS", "Rule\tL\t1999\tmax\t-\tOct\tlastSun\t1:00u\t0\t-"],
    "O": ["Rule\tO\t1983\tonly\t-\tMay\t1\t0:00\t2:00\tDD", "Rule\tO\t1983\tonly\t-\tAug\t28\t24:00\t0\tS",
          "Rule\tO\t1988\t1990\t-\tJun\tlastSat\t22:00u\t1:00\tD", "Rule\tO\t1988\t1990\t-\tSep\t30\t21:00u\t0\tS"],
}
LINES = [("0:00", "-", "AAA"), ("-5:00", "-", "BBB"), ("2:30", "1:00", "CCC"), ("-5:00", "W", "P%sT"), ("0:00", "E", "F/G"), ("10:00", "S", "Q%sT"),
         ("3:00", "L", "RT"), ("-3:30", "O", "N%sT"), ("1:00", "-0:30", "-00"), ("-5:00", "E", "X%sX")]
UNTILS = ["1984", "1984 Mar", "1984 Mar 25 1:00u", "1984 Jul 15 2:00", "1984 Oct lastSun 2:00", "1983 Aug 28 24:00", "1984 Apr Sun>=1 2:00s", "1984 Dec 31 23:30:45", "1984 May Sat<=10 0:00z"]
LATER = ["1988", "1987 Mar lastSun 1:00u", "1988 Jul 1 0:00s"]


def gen_lines(tier):
    for i in range(len(LINES)):
        yield ["one", [i], []]
    for i, u in itertools.product(range(2), range(len(UNTILS))):      # a zone starts with a plain line, as in the database
        for j in range(len(LINES)):
            yield ["two", [i, j], [u]]
    k = 0
    for u, v in itertools.product(range(len(UNTILS)), range(len(LATER))):
        for i, j in itertools.product(range(len(LINES)), range(len(LINES))):
            k += 1
            if tier == "thorough" or k % 5 == 0:
                yield ["three", [1, i, j], [u, v]]


def do_lines(ctx, case):
    _n, ids, us = case
    lines = []
    names = ["UNTILS", "LATER"]
    untils = [[UNTILS, LATER][k][u] for k, u in enumerate(us)]
    if len(ids) == 3:
        untils = ["1975"] + untils[:2]
        ids = [0] + ids
    else:
        untils = list(untils)
    for k, i in enumerate(ids):
        off, r, f = LINES[i]
        lines.append("\t".join([off, r, f] + ([untils[k]] if k < len(untils) else [])))
    zone = "Zone\tTest/Zone\t" + "\n\t\t\t".join(lines)
    used = sorted(set(LINES[i][1] for i in ids if LINES[i][1] in RULESETS))
    rules = [l for r in used for l in RULESETS[r]]
    source = "\n".join(rules + [zone])
    ref = refolson.compile(source, hi=2005)["Test/Zone"]
    if not ref.sane:
        return
    sets, zones = load(rules, [zone])
    check_zone(ctx, zones[0], sets, ref, 1800, 2003, source, True)
    for lo, hi in ((1985, 1992), (1995, 1998)):
        check_zone(ctx, zones[0], sets, ref, lo, hi, source)


# -- part asks: rules and zones serve many zones and ranges in any order ----------------------------------------------

def gen_asks(tier):
    yes = [(z, r) for z in range(3) for r in range(3)]
    for n in (2, 3) if tier != "thorough" else (2, 3, 4):
        for seq in itertools.product(range(len(yes)), repeat=n):
            if len(set(seq)) > 1:
                yield list(seq)


ZONES3 = ["Zone\tTest/A\t-5:00\t-\tLMT\t1975\n\t\t\t-5:00\tW\tP%sT\t1984\n\t\t\t-5:00\tE\tX%sT",
          "Zone\tTest/B\t1:00\tE\tCE%sT", "Zone\tTest/C\t10:00\t-\tLMT\t1980\n\t\t\t10:00\tW\tT%sT"]
RANGES = [(1976, 1983), (1982, 1996), (1800, 1988)]
fresh = {}


def do_asks(ctx, case):
    rules = RULESETS["W"] + RULESETS["E"]
    yes = [(z, r) for z in range(3) for r in range(3)]
    sets, zones = load(rules, ZONES3)
    for i in case:
        z, r = yes[i]
        if i not in fresh:
            s2, z2 = load(rules, ZONES3)
            fresh[i] = str(z2[z].vtimezone(Calendar(), s2, *RANGES[r])), [(d[0].getText(), d[1], d[2]) for d in load(rules, ZONES3)[1][z].expand(load(rules, ZONES3)[0], *RANGES[r])]
        got = str(zones[z].vtimezone(Calendar(), sets, *RANGES[r]))
        tr = [(d[0].getText(), d[1], d[2]) for d in zones[z].expand(sets, *RANGES[r])]
        ctx.step(2)
        if got != fresh[i][0] or tr != fresh[i][1]:
            raise Mismatch("after %s, %s over %s gives\n%s\n%s\nand alone\n%s\n%s" % ([yes[k] for k in case[:case.index(i)]], ZONES3[z].split()[1], RANGES[r], tr, got, fresh[i][1], fresh[i][0]))
    ctx.see(case)


# -- part files: source files as they are written, and the files that are made ----------------------------------------

BASE = [
    "Rule\tW\t1970\t1985\t-\tApr\tSun>=1\t2:00\t1:00\tD",
    "Rule\tW\t1970\tmax\t-\tOct\tlastSun\t2:00\t0\tS",
    "Rule\tW\t1986\tmax\t-\tApr\t1\t0:00s\t0:30\tH",
    "Zone\tTest/One\t-5:17:30\t-\tLMT\t1960 Feb 3 4:05:06",
    "\t\t\t-5:00\tW\tE%sT",
    "Zone\tTwo\t2:00\t-\tTwo",
    "Zone\tTest/Sub/Three\t0:50:10\t-\tLMT\t1900",
    "\t\t\t1:00\tW\tC/D\t1980 Jun",
    "\t\t\t3:00\t-\tUUU",
    "Link\tTest/One\tOther/One",
    "Link\tTwo\tTest/Zwei",
    "Link\tOther/One\tAlias",
]
NOISE = ["none", "comment", "blank", "spaces", "trailing", "inner", "tabs", "order"]


def gen_files(tier):
    for a in NOISE:
        for b in NOISE:
            yield [a, b, 0]
    for k in (2, 4, 6):
        yield ["none", "none", k]


def noisy(lines, kind):
    out = []
    if kind == "order":
        k = [n for n, l in enumerate(lines) if l.startswith("Zone")][0]
        n = [n for n, l in enumerate(lines) if l.startswith("Link")][0]
        return lines[n:] + lines[k:n] + lines[:k]
    lines = [l for l in lines if l]
    for l in lines:
        if kind == "comment":
            out.append("# a comment")
            if not l.startswith("\t"):
                out.append("#\tZone\tNot/This\t0\t-\tX")
        elif kind == "blank" and not l.startswith("\t"):
            out.append("")
        elif kind == "spaces":
            lead = "\t\t\t" if l[0] in "\t " else ""
            l = lead + "  ".join(l.split("\t")) .strip() if not lead else lead + "  ".join(l.strip().split("\t"))
        elif kind == "trailing":
            l += "\t# why"
        elif kind == "tabs":
            l = l.replace("\t", "\t\t") if not l.startswith("\t") else l
        out.append(l)
        if kind == "inner" and l.startswith("Zone"):
            out.append("# within the zone")
    return out


def do_files(ctx, case):
    a, b, links = case
    lines = noisy(noisy(BASE, a), b)
    root = os.path.join(os.environ.get("MC_SCRATCH", "/tmp"), "p33-%d" % os.getpid())
    if os.path.exists(root):
        shutil.rmtree(root)
    os.makedirs(root)
    try:
        src = os.path.join(root, "source")
        f = open(src, "wb")
        f.write("\n".join(lines) + "\n")
        f.close()
        p = tzconvert()
        p.parse(src)
        ctx.step()
        if p.getZoneNames() != set(["Test/One", "Two", "Test/Sub/Three"]):
            raise Mismatch("zones read are %s from\n%s" % (sorted(p.getZoneNames()), "\n".join(lines)))
        if p.links != {"Other/One": "Test/One", "Test/Zwei": "Two", "Alias": "Other/One"}:
            raise Mismatch("links read are %s from\n%s" % (p.links, "\n".join(lines)))
        source = "\n".join(BASE[:9])
        refs = refolson.compile(source, hi=2005)
        texts = {}
        for n in sorted(refs):
            texts[n] = check_zone(ctx, p.zones[n], p.rules, refs[n], 1800, 2000, source)
            got = [(t.getText(), x, y) for t, x, y in p.expandZone(n, 1800, 2000)]
            if got != [(d[0].getText(), d[1], d[2]) for d in p.zones[n].expand(p.rules, 1800, 2000)]:
                raise Mismatch("expandZone(%s) differs from the zone's own" % n)
        # calendars of all zones, and of chosen ones
        for chosen in (None, ("Two",), ("Test/One", "Two")):
            text = p.vtimezones(1800, 2000, chosen)
            want = sorted(texts[n] for n in (chosen or texts))
            body = text[text.index("BEGIN:VTIMEZONE"):text.index("END:VCALENDAR")]
            got = sorted([x + "END:VTIMEZONE\r\n" for x in body.split("END:VTIMEZONE\r\n") if x])
            ctx.step()
            if got != want:
                raise Mismatch("vtimezones(%s) is %s" % (chosen, text))
        # the tree of files; what was in the directory before goes
        out = os.path.join(root, "zoneinfo")
        os.makedirs(os.path.join(out, "Old", "Dir"))
        for n in ("Old/gone.ics", "gone.txt", "Old/Dir/gone.ics"):
            f = open(os.path.join(out, n), "wb")
            f.write("old")
            f.close()
        chosen = ("Test/One", "Two") if links & 2 else None
        import sys
        import StringIO
        keep, sys.stdout = sys.stdout, StringIO.StringIO()
        try:
            p.generateZoneinfoFiles(out, 1800, 2000, links=not links & 4, filterzones=chosen)
        finally:
            sys.stdout = keep
        want = dict((n, texts[n]) for n in texts if not chosen or n in chosen)
        pairs = []
        if not links & 4:
            pairs = [("Alias", "Test/One"), ("Other/One", "Test/One"), ("Test/Zwei", "Two")]
            for to, frm in pairs:
                want[to] = texts[frm].replace("TZID:%s\r\n" % frm, "TZID:%s\r\n" % to).replace("X-LIC-LOCATION:%s\r\n" % frm, "X-LIC-LOCATION:%s\r\n" % to)
        got = {}
        for d, _ds, fs in os.walk(out):
            for n in fs:
                f = open(os.path.join(d, n), "rb")
                got[os.path.relpath(os.path.join(d, n), out)] = f.read()
                f.close()
        listing = got.pop("links.txt", None)
        ctx.step(len(got))
        if sorted(got) != sorted(n + ".ics" for n in want):
            raise Mismatch("files made are %s, wanted %s" % (sorted(got), sorted(want)))
        for n in want:
            t = got[n + ".ics"]
            if not t.startswith("BEGIN:VCALENDAR\r\n") or want[n] not in t or t.count("BEGIN:VTIMEZONE") != 1:
                raise Mismatch("the file of %s is\n%s\nits time zone should be\n%s" % (n, t, want[n]))
            cal = Calendar.parseText(t)
            if cal.getComponents()[0].getID() != n:
                raise Mismatch("the file of %s reads as %s" % (n, cal))
        if (listing is None) != bool(links & 4):
            raise Mismatch("links.txt is %r" % listing)
        if listing is not None and sorted(x.split("\t")[0] for x in listing.split("\n")) != sorted(x[0] for x in pairs):
            raise Mismatch("links.txt is %r" % listing)
        ctx.see(sorted(got.items()))
    finally:
        shutil.rmtree(root)


# -- part corpus: the whole of a tz database release ------------------------------------------------------------------

corpus = []


def load_corpus():
    if not corpus:
        text = tzi.conv(os.path.join(HERE, "data", "tzdata.zi"))
        rules, zones, _links = refolson.read(text)
        path = os.path.join(os.environ.get("MC_SCRATCH", "/tmp"), "p33-%d.txt" % os.getpid())
        f = open(path, "wb")
        f.write(text)
        f.close()
        p = tzconvert()
        p.parse(path)
        os.remove(path)
        corpus.extend([p, rules, dict(zones)])
    return corpus


def corpus_names():
    f = open(os.path.join(HERE, "data", "tzdata.zi"))
    out = sorted(l.split()[1] for l in f if l.startswith("Z "))
    f.close()
    return out


def gen_corpus(tier):
    names = corpus_names()
    for lo, hi in ((1800, 2038), (1970, 2030), (2001, 2006), (1935, 1950), (1996, 2001)) if tier == "thorough" else ((1935, 2030),):
        for n in names:
            yield [n, lo, hi]


def do_corpus(ctx, case):
    n, lo, hi = case
    p, rules, zones = load_corpus()
    ref = refolson.Compiled(zones[n], rules, hi=hi + 2)
    check_zone(ctx, p.zones[n], p.rules, ref, lo, hi, n, ctx.thorough)


# -- part equal: zones and rules are equal when their source is the same, before and after they were used --------------

RULE_FIELDS = [("A", "B"), ("1980", "1981"), ("max", "1990", "only"), ("-", "odd"), ("Mar", "Apr"), ("lastSun", "Sun>=1"), ("2:00", "2:00s", "3:00"), ("1:00", "0"), ("D", "-")]
ZONE_FIELDS = [("Test/A", "Test/B"), ("-5:00", "5:00"), ("W", "-", "1:00"), ("P%sT", "PT"), ("1984", "1985", "1984 Mar", "")]
ZONE_MORE = ["", "\n\t\t\t-5:00\tE\tX%sT", "\n\t\t\t-5:00\tE\tX%sT\t1990\n\t\t\t-6:00\t-\tQ", "\n\t\t\t-5:00\t-\tX%sT"]


def variants(fields):
    base = [f[0] for f in fields]
    out = [base]
    for i, f in enumerate(fields):
        for other in f[1:]:
            out.append(base[:i] + [other] + base[i + 1:])
    return out


def rule_lines():
    return ["Rule " + " ".join(v) for v in variants(RULE_FIELDS)]


def zone_lines():
    out = []
    for v in variants(ZONE_FIELDS):
        for more in ZONE_MORE[:1] if not v[4] else ZONE_MORE:
            if v[4] and not more:
                continue
            out.append("Zone\t" + "\t".join([x for x in v if x]) + more)
    return out


def gen_equal(tier):
    for what, n in (("rule", len(rule_lines())), ("set", len(rule_lines())), ("zone", len(zone_lines()))):
        for i in range(n):
            for j in range(n):
                for used in range(4):
                    yield (what, i, j, used)


def do_equal(ctx, case):
    what, i, j, used = case
    lines = zone_lines() if what == "zone" else rule_lines()

    def make(k):
        if what == "zone":
            o = Zone()
            o.parse(lines[k])
        elif what == "rule":
            o = Rule()
            o.parse(lines[k])
        else:
            o = RuleSet()       # the same name throughout
            o.parse("\n".join(["Rule A" + l[6:] for l in (lines[k], lines[0])]))
        return o

    def use(o):
        if what == "zone":
            sets, _ = load(RULESETS["W"] + RULESETS["E"], ZONES3[:1])
            try:
                o.vtimezone(Calendar(), sets, 1970, 1995)
            except KeyError:
                pass
        elif what == "rule":
            o.datetimeForYear(1985)
        else:
            o.generate()
    a, b = make(i), make(j)
    ctx.step()
    texts = (str(a), str(b))
    if used & 1:
        use(a)
    if used & 2:
        use(b)
    same = i == j if what != "set" else lines[i][6:] == lines[j][6:]
    if bool(a == b) != same or bool(b == a) != same or bool(a != b) == same or a == None or not (a != None):
        raise Mismatch("%r and %r, used %d: == is %r, != is %r" % (lines[i], lines[j], used, a == b, a != b))
    if (str(a), str(b)) != texts or what != "set" and texts[0].split() != lines[i].split():
        raise Mismatch("%r, used %d, is written %r, before %r" % (lines[i], used, str(a), texts[0]))
    c = make(i)
    c.parse(lines[j]) if what == "rule" else None
    if what == "rule" and str(c) != str(b):
        raise Mismatch("%r read over %r is %r" % (lines[j], lines[i], str(c)))
    ctx.see((what, i, j))


PARTS = [
    ("lines", gen_lines, do_lines, "zones of up to four lines over ten line forms and twelve ends, at three ranges of years"),
    ("days", gen_days, do_days, "each day form in each month with each form of time, at offsets from -11 to +13, 26 years"),
    ("asks", gen_asks, do_asks, "sequences of up to three (quick) expansions out of three zones and three ranges sharing rules"),
    ("files", gen_files, do_files, "source files with two kinds of noise, trees of files with links and chosen zones"),
    ("corpus", gen_corpus, do_corpus, "all 447 zones of tz release 2026e"),
    ("equal", gen_equal, do_equal, "all pairs of %d rules, sets of them and %d zones that differ in one field, before and after either was used" % (len(rule_lines()), len(zone_lines()))),
]
