# Reference RRULE expansion (RFC 5545 3.3.10), by filtering every candidate day/second; nothing of /repo.
import refcal as R

DAYS = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]


def parse(rule):
    out = {"INTERVAL": 1, "WKST": 1}
    for part in rule.split(";"):
        k, v = part.split("=")
        if k in ("INTERVAL", "COUNT"):
            out[k] = int(v)
        elif k == "WKST":
            out[k] = DAYS.index(v)
        elif k == "BYDAY":
            l = []
            for d in v.split(","):
                l.append((int(d[:-2] or 0), DAYS.index(d[-2:])))
            out[k] = l
        elif k.startswith("BY"):
            out[k] = [int(x) for x in v.split(",")]
        else:
            out[k] = v
    return out


def weekno(n, wkst):
    """(week-year, week number, weeks in that year) with weeks starting on wkst; week 1 has >= 4 days of its year"""
    ws = n - (R.wday(n) - wkst) % 7
    y = R.civil(ws + 3)[0]

    def first(yy):
        j = R.days(yy, 1, 1)
        w = j - (R.wday(j) - wkst) % 7
        return w if j - w <= 3 else w + 7
    return y, (ws - first(y)) // 7 + 1, (first(y + 1) - first(y)) // 7


def either(value, size, wanted):
    """value counts from 1; negative entries of wanted count from the end"""
    return value in wanted or (value - size - 1) in wanted


def nth(n, y, m, d, byday, inyear):
    w = R.wday(n)
    for num, wd in byday:
        if wd != w:
            continue
        if num == 0:
            return True
        if inyear:
            p, size = R.yday(y, m, d), 366 if R.leap(y) else 365
        else:
            p, size = d, R.mlen(y, m)
        if num == (p - 1) // 7 + 1 or num == -((size - p) // 7 + 1):
            return True
    return False


def dayok(r, freq, n, start):
    y, m, d = R.civil(n)
    if "BYMONTH" in r and m not in r["BYMONTH"]:
        return False
    if "BYYEARDAY" in r and not either(R.yday(y, m, d), 366 if R.leap(y) else 365, r["BYYEARDAY"]):
        return False
    if "BYWEEKNO" in r:
        _y, no, size = weekno(n, r["WKST"])
        if not either(no, size, r["BYWEEKNO"]):
            return False
    if "BYMONTHDAY" in r and not either(d, R.mlen(y, m), r["BYMONTHDAY"]):
        return False
    if "BYDAY" in r and not nth(n, y, m, d, r["BYDAY"], freq == "YEARLY" and "BYMONTH" not in r):
        return False
    # parts the rule leaves open come from the start
    if freq == "YEARLY":
        if "BYWEEKNO" in r:
            if "BYDAY" not in r and R.wday(n) != R.wday(R.days(*start[:3])):
                return False
        elif not ("BYYEARDAY" in r or "BYMONTHDAY" in r or "BYDAY" in r):
            if "BYMONTH" not in r and m != start[1]:
                return False
            if d != start[2]:
                return False
    elif freq == "MONTHLY":
        if not ("BYMONTHDAY" in r or "BYDAY" in r) and d != start[2]:
            return False
    elif freq == "WEEKLY":
        if "BYDAY" not in r and R.wday(n) != R.wday(R.days(*start[:3])):
            return False
    return True


def setpos(r, items):
    if "BYSETPOS" not in r:
        return items
    out = set()
    for p in r["BYSETPOS"]:
        if 0 < p <= len(items):
            out.add(items[p - 1])
        elif p < 0 and -p <= len(items):
            out.add(items[p])
    return sorted(out)


def expand(rule, start, end):
    """all instances of the rule with that DTSTART, as local seconds < end (DTSTART included, counted first).
    UNTIL, if there, is local text of the same kind as the start."""
    r = parse(rule)
    freq = r["FREQ"]
    date = len(start) == 3
    start = tuple(start) + ((0, 0, 0) if date else ())
    t0 = R.secs(*start)
    until = None
    if "UNTIL" in r:
        u = r["UNTIL"]
        until = R.secs(int(u[:4]), int(u[4:6]), int(u[6:8]), *((int(u[9:11]), int(u[11:13]), int(u[13:15])) if len(u) > 8 else ()))
    step = r["INTERVAL"]
    n0 = R.days(*start[:3])
    out = [t0]
    limit = end if until is None else min(end, until + 1)

    def done():
        return "COUNT" in r and len(out) >= r["COUNT"]

    def take(items):
        for t in setpos(r, sorted(set(items))):
            if t >= limit:
                return
            if t > t0 and not done():
                out.append(t)

    hh = sorted(set(r.get("BYHOUR", [start[3]])))
    mm = sorted(set(r.get("BYMINUTE", [start[4]])))
    ss = sorted(set(r.get("BYSECOND", [start[5]])))
    if freq in ("YEARLY", "MONTHLY", "WEEKLY", "DAILY"):
        times = [h * 3600 + mi * 60 + s for h in hh for mi in mm for s in ss]
        k = 0
        while not done():
            if freq == "YEARLY":
                y = start[0] + k * step
                a, b = R.days(y, 1, 1), R.days(y + 1, 1, 1)
            elif freq == "MONTHLY":
                q = start[0] * 12 + start[1] - 1 + k * step
                a, b = R.days(q // 12, q % 12 + 1, 1), R.days(q // 12, q % 12 + 2, 1)
            elif freq == "WEEKLY":
                a = n0 - (R.wday(n0) - r["WKST"]) % 7 + k * step * 7
                b = a + 7
            else:
                a = n0 + k * step
                b = a + 1
            if a * 86400 >= limit:
                break
            take([n * 86400 + t for n in range(a, b) if dayok(r, freq, n, start) for t in times])
            k += 1
    else:
        unit = {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[freq]
        base = t0 // unit * unit
        k = 0
        oks = {}
        while not done():
            p = base + k * step * unit
            if p >= limit:
                break
            k += 1
            n, s = divmod(p, 86400)
            if n not in oks:
                oks[n] = dayok(r, freq, n, start)
            if not oks[n]:
                continue
            if "BYHOUR" in r and s // 3600 not in r["BYHOUR"]:
                continue
            if freq == "HOURLY":
                take([p + mi * 60 + x for mi in mm for x in ss])
                continue
            if "BYMINUTE" in r and s // 60 % 60 not in r["BYMINUTE"]:
                continue
            if freq == "MINUTELY":
                take([p + x for x in ss])
            elif "BYSECOND" not in r or s % 60 in r["BYSECOND"]:
                take([p])
    return [t for t in out if t < end]
