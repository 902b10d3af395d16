"""Reference reading of tz database source text (the zic.8 manual page), independent of the code under test.

compile(text) -> {zone name: Compiled}; Compiled.at(t) is the (UTC offset, standard offset) at the instant t (seconds
since 1970-01-01 UTC) and Compiled.changes is the list of instants at which a zone line or rule takes effect."""
import refcal as R

MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
DAYS = "Sun Mon Tue Wed Thu Fri Sat".split()
EPOCH = R.days(1970, 1, 1)


def hms(s):
    neg = s.startswith("-")
    p = [int(x) for x in s.lstrip("-").split(":")]
    v = p[0] * 3600 + (p[1] * 60 if len(p) > 1 else 0) + (p[2] if len(p) > 2 else 0)
    return -v if neg else v


def attime(s):
    """clock reading and mode: w(all), s(tandard) or u(niversal)"""
    mode = "w"
    if s[-1] in "wsugz":
        mode = {"g": "u", "z": "u"}.get(s[-1], s[-1])
        s = s[:-1]
    return hms(s), mode


def onday(year, month, s):
    """day number of a tz day form"""
    if s.startswith("last"):
        d = R.days(year, month, R.mlen(year, month))
        while R.wday(d) != DAYS.index(s[4:]):
            d -= 1
        return d
    for op, step in ((">=", 1), ("<=", -1)):
        if op in s:
            w, n = s.split(op)
            d = R.days(year, month, int(n))
            while R.wday(d) != DAYS.index(w):
                d += step
            return d
    return R.days(year, month, int(s))


class Rule(object):
    def __init__(self, f):
        self.name = f[1]
        self.lo = int(f[2])
        self.hi = self.lo if f[3] == "only" else 9999 if f[3] == "max" else int(f[3])
        self.month = MONTHS.index(f[5]) + 1
        self.day = f[6]
        self.at, self.mode = attime(f[7])
        self.save = hms(f[8])
        self.letter = "" if f[9] == "-" else f[9]

    def when(self, year):
        return (onday(year, self.month, self.day) - EPOCH) * 86400 + self.at


def split(line):
    return line.split("#")[0].split()


class Compiled(object):
    def __init__(self, lines, rules, lo=1800, hi=2060):
        """lines: list of (offset, rule field, format, until fields or [])"""
        self.changes = []            # (instant, total offset, standard offset, abbreviation, zone line number)
        self.start = None
        begin = None
        for n, (off, rf, fmt, until) in enumerate(lines):
            use_until = bool(until)
            if use_until:
                y = int(until[0])
                mo = MONTHS.index(until[1]) + 1 if len(until) > 1 else 1
                d = onday(y, mo, until[2]) if len(until) > 2 else R.days(y, mo, 1)
                t, um = attime(until[3]) if len(until) > 3 else (0, "w")
                uwhen = (d - EPOCH) * 86400 + t
            else:
                uwhen, um, y = None, "w", 9999
            save = 0
            pending = n > 0
            startsave = 0
            if rf == "-" or rf[0].isdigit() or rf[0] == "-":
                save = 0 if rf == "-" else hms(rf)
                if pending:
                    self._add(begin, off + save, off, fmt, save, None, n)
                    pending = False
                else:
                    self.start = (off + save, off)
            else:
                if self.start is None:
                    self.start = (off, off)
                mine = rules.get(rf, [])
                stop = False
                startlet = None
                for year in range(lo, hi):
                    if stop or (use_until and year > y):
                        break
                    todo = [r for r in mine if r.lo <= year <= r.hi]
                    while todo:
                        best = None
                        for r in todo:
                            j = r.when(year) - (0 if r.mode == "u" else off) - (save if r.mode == "w" else 0)
                            if best is None or j < best[0]:
                                best = (j, r)
                        kt, r = best
                        todo.remove(r)
                        if use_until and kt >= uwhen - (0 if um == "u" else off) - (save if um == "w" else 0):
                            stop = stop or False
                            todo = []
                            break
                        save = r.save
                        if pending and kt == begin:
                            pending = False
                        if pending:
                            if kt < begin:
                                startsave = save
                                startlet = r.letter
                                continue
                            self._add(begin, off + startsave, off, fmt, startsave, startlet, n)
                            pending = False
                        self._add(kt, off + r.save, off, fmt, r.save, r.letter, n)
                if pending:
                    self._add(begin, off + startsave, off, fmt, startsave, startlet, n)
            if use_until:
                begin = uwhen - (0 if um == "u" else off) - (save if um == "w" else 0)
        # changes come in order for any sane source
        self.changes.sort(key=lambda c: c[0])
        self.sane = all(a[0] < b[0] for a, b in zip(self.changes, self.changes[1:]))
        self.overlap = False
        # as zic does: a change that wall clocks read no later than the one before takes that one's place
        out = []
        for c in self.changes:
            if out:
                before = out[-2][1] if len(out) > 1 else self.start[0]
                if c[0] + out[-1][1] <= out[-1][0] + before:
                    out[-1] = (out[-1][0],) + c[1:]
                    self.overlap = True
                    continue
            out.append(c)
        self.changes = out

    def _add(self, t, total, std, fmt, save, letter, n):
        if "/" in fmt:
            name = fmt.split("/")[1 if save else 0]
        elif "%s" in fmt:
            name = None if letter is None else fmt.replace("%s", letter)
        else:
            name = fmt
        self.changes.append((t, total, std, name, n))

    def at(self, t):
        cur = self.start
        for c in self.changes:
            if c[0] > t:
                break
            cur = (c[1], c[2])
        return cur

    def name(self, t):
        cur = None
        for c in self.changes:
            if c[0] > t:
                break
            cur = c[3]
        return cur


def read(text):
    rules, zones, links = {}, [], []
    cur = None
    for line in text.split("\n"):
        f = split(line)
        if not f:
            continue
        if f[0] == "Rule":
            rules.setdefault(f[1], []).append(Rule(f))
            cur = None
        elif f[0] == "Link":
            links.append((f[1], f[2]))
            cur = None
        else:
            if f[0] == "Zone":
                cur = []
                zones.append((f[1], cur))
                f = f[2:]
            cur.append((hms(f[0]), f[1], f[2], f[3:]))
    return rules, zones, links


def compile(text, lo=1800, hi=2060):
    rules, zones, _links = read(text)
    return dict((name, Compiled(lines, rules, lo, hi)) for name, lines in zones)
