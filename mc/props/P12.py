# P12: RRULE values: text, XML and JSON forms keep every part, equality is by meaning, damaged rules are refused.
from mcbase import Mismatch
import itertools
import json
import re
import xml.etree.cElementTree as XML
from pycalendar.datetime import DateTime
from pycalendar.icalendar import definitions as D
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrencevalue import RecurrenceValue

NS = "urn:ietf:params:xml:ns:icalendar-2.0"
ORDER = ["FREQ", "COUNT", "UNTIL", "INTERVAL", "BYSECOND", "BYMINUTE", "BYHOUR", "BYDAY", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS", "WKST"]
VALUES = {
    "FREQ": ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"],
    "COUNT": ["1", "2", "10", "1000"],
    "UNTIL": ["20240229", "20111231T235959", "20300101T000000Z", "20240229T000000Z", "20240229T000000"],
    "INTERVAL": ["1", "2", "30"],
    "BYSECOND": ["0", "59,0", "60"], "BYMINUTE": ["0", "59,0,30"], "BYHOUR": ["0", "23,0,12"],
    "BYDAY": ["MO", "SU,SA,FR,TH,WE,TU,MO", "1MO,-1SU", "53TH,-53SA,WE", "+2TU"],
    "BYMONTHDAY": ["1", "-31,31", "-1,15,3"], "BYYEARDAY": ["1", "366,-366", "100,-1,5"], "BYWEEKNO": ["1", "53,-53,20"],
    "BYMONTH": ["1", "12,1,6"], "BYSETPOS": ["1", "-1,1", "366,-366"], "WKST": ["MO", "SU", "WE"],
}
BAD = {
    "FREQ": ["", "FORTNIGHTLY", "DAILY,WEEKLY", "1"],
    "COUNT": ["", "0", "-1", "x", "1.5", "1,2"],
    "UNTIL": ["", "x", "2024", "20240101T", "20240101T25", "20240101T000000ZZ"],
    "INTERVAL": ["", "0", "-1", "x", "1,2"],
    "BYSECOND": ["", "-1", "61", "x", "1,", ",1", "1;"], "BYMINUTE": ["", "-1", "60", "1,x"], "BYHOUR": ["", "-1", "24", "3,"],
    "BYDAY": ["", "XX", "0MO", "54MO", "-54MO", "MO,", "1", "M", "1-MO", "MOTU", "MO1", "--1MO"],
    "BYMONTHDAY": ["", "0", "32", "-32", "a"], "BYYEARDAY": ["", "0", "367", "-367", "1,0"], "BYWEEKNO": ["", "0", "54", "-54"],
    "BYMONTH": ["", "0", "13", "-1", "1,13"], "BYSETPOS": ["", "0", "367", "-367", "x"], "WKST": ["", "XX", "1", "MO,TU"],
}


def canon(parts):
    """{part: value} as the library is to write it, with lists in order of meaning"""
    out = {}
    for k, v in parts.items():
        if k == "INTERVAL" and v == "1" or k == "WKST" and v == "MO":
            continue
        if k.startswith("BY"):
            v = tuple(sorted([x.lstrip("+") for x in v.split(",")]))
        out[k] = v
    return out


def split(text):
    return canon(dict([p.split("=") for p in text.split(";")]))


def bothways(u):
    return re.sub(r"^(\d{4})(\d\d)(\d\d)(?:T(\d\d)(\d\d)(\d\d)(Z?))?$", lambda m: "%s-%s-%s" % m.groups()[:3] + ("T%s:%s:%s%s" % m.groups()[3:] if m.group(4) else ""), u)


def read(text):
    r = Recurrence()
    r.parse(text)
    return r


def one(ctx, parts, order):
    text = ";".join(["%s=%s" % (k, parts[k]) for k in order if k in parts])
    ctx.step(6)
    want = canon(parts)
    r = read(text)
    out = r.getText()
    if split(out) != want or len(out.split(";")) != len(want):
        raise Mismatch("%s is written as %s" % (text, out))
    if not out.startswith("FREQ="):
        raise Mismatch("%s is written as %s, FREQ not first" % (text, out))
    again = read(out)
    if again.getText() != out or again != r or hash(again) != hash(r) or not (again == r):
        raise Mismatch("%s is written as %s, which reads back as another rule (%s)" % (text, out, again.getText()))
    # the parts as their getters show them
    if r.getInterval() != int(parts.get("INTERVAL", 1)) or bool(r.getUseCount()) != ("COUNT" in parts) or bool(r.getUseUntil()) != ("UNTIL" in parts) or \
            ("COUNT" in parts and r.getCount() != int(parts["COUNT"])) or ("UNTIL" in parts and r.getUntil().getText() != parts["UNTIL"]):
        raise Mismatch("%s: interval %r count %r until %r" % (text, r.getInterval(), r.getCount(), r.getUntil()))
    for k, got in (("BYMONTH", r.getByMonth()), ("BYMONTHDAY", r.getByMonthDay()), ("BYYEARDAY", r.getByYearDay()), ("BYSETPOS", r.getBySetPos())):
        if list(got or []) != [int(x) for x in parts.get(k, "").split(",") if x]:
            raise Mismatch("%s: %s is %r" % (text, k, got))
    # JSON, also through the serializer
    v = RecurrenceValue(r.duplicate())
    j = []
    v.writeJSON(j)
    # (value and property level: the value is the last item)
    d = json.loads(json.dumps(j))[-1]
    wantj = {}
    for k, x in want.items():
        if k in ("COUNT", "INTERVAL"):
            x = int(x)
        elif k == "UNTIL":
            x = bothways(x)
        elif k == "BYDAY":
            x = [i.lstrip("+") for i in parts[k].split(",")]
        elif k.startswith("BY"):
            x = [int(i) for i in parts[k].split(",")]
        wantj[k.lower()] = x
    gotj = dict([(k, x if isinstance(x, list) or not k.startswith("by") else [x]) for k, x in d.items()])
    if gotj != wantj:
        raise Mismatch("%s as JSON: %s, expected %s" % (text, d, wantj))
    w = RecurrenceValue()
    w.parseJSONValue(d)
    if w.getValue() != r or split(w.getValue().getText()) != want:
        raise Mismatch("%s as JSON %s reads back as %s" % (text, d, w.getValue().getText()))
    # lists with one item may be given as that item
    w = RecurrenceValue()
    w.parseJSONValue(dict([(k, x[0] if isinstance(x, list) and len(x) == 1 else x) for k, x in d.items()]))
    if w.getValue() != r:
        raise Mismatch("%s as JSON with single items reads back as %s" % (text, w.getValue().getText()))
    # XML
    root = XML.Element("r")
    v.writeXML(root, NS)
    recur = list(root)
    if len(recur) != 1 or recur[0].tag != "{%s}recur" % NS:
        raise Mismatch("%s as XML: %s" % (text, XML.tostring(root)))
    got = {}
    for c in list(recur[0]):
        t = c.text if not len(c) else list(c)[0].text
        got.setdefault(c.tag.split("}")[-1], []).append(t)
    wantx = dict([(k.lower(), [bothways(x)] if k == "UNTIL" else [i.lstrip("+") for i in parts[k].split(",")]) for k, x in want.items()])
    if got != wantx:
        raise Mismatch("%s as XML: %s, expected %s" % (text, XML.tostring(root), wantx))
    # as part of a property
    p = Property.parseText("RRULE:" + text)
    if p.getText() != "RRULE:" + out + "\r\n" and len(p.getText()) < 75:
        raise Mismatch("RRULE:%s is written %s" % (text, p.getText()))
    ctx.see(sorted(want.items()))


def gen_pairs(tier):
    for f in VALUES["FREQ"]:
        for e in ["", "COUNT", "UNTIL"]:
            for i in range(len(ORDER)):
                yield [f, e, i]


def check_pairs(ctx, case):
    f, e, i = case
    names = [k for k in ORDER if k not in ("FREQ", "COUNT", "UNTIL")]
    if i >= len(names):
        # every part at once, in several orders
        for k in range(3):
            parts = dict([(n, VALUES[n][k % len(VALUES[n])]) for n in names])
            parts["FREQ"] = f
            if e:
                parts[e] = VALUES[e][k % len(VALUES[e])]
            one(ctx, parts, ORDER if i % 2 else ORDER[::-1])
        return
    k1 = names[i]
    for v1 in VALUES[k1]:
        for ev in VALUES[e] if e else [""]:
            parts = {"FREQ": f, k1: v1}
            if e:
                parts[e] = ev
            one(ctx, parts, ORDER)
            if ev != (VALUES[e][0] if e else ""):
                continue
            for k2 in names[i + 1:]:
                for v2 in VALUES[k2]:
                    one(ctx, dict(list(parts.items()) + [(k2, v2)]), ORDER if len(v2) % 2 else ORDER[::-1])
                    if ctx.thorough and f in ("YEARLY", "WEEKLY"):
                        for k3 in names[names.index(k2) + 1:]:
                            one(ctx, dict(list(parts.items()) + [(k2, v2), (k3, VALUES[k3][-1])]), ORDER)


def gen_equal(tier):
    rules = []
    for k in ORDER[1:]:
        for v in VALUES[k]:
            rules.append("FREQ=DAILY;%s=%s" % (k, v))
            if "," in v:
                rules.append("FREQ=DAILY;%s=%s" % (k, ",".join(reversed(v.split(",")))))
                rules.append("FREQ=DAILY;%s=%s" % (k, v.split(",")[0]))
    rules += ["FREQ=" + f for f in VALUES["FREQ"]]
    for i in range(len(rules)):
        yield [i, rules]


def check_equal(ctx, case):
    i, rules = case
    a = read(rules[i])
    for b in rules:
        c = read(b)
        ctx.step()
        same = split(rules[i]) == split(b)
        if (a == c) != same or (a != c) == same or (same and hash(a) != hash(c)):
            raise Mismatch("%s and %s: == %s, != %s, hashes %s" % (rules[i], b, a == c, a != c, "equal" if hash(a) == hash(c) else "differ"))
        ctx.see((rules[i], b, same))


def gen_bad(tier):
    for k in ORDER:
        for v in BAD[k]:
            yield [k, v]
    for x in ("", ";", "FREQ", "=DAILY", "FREQ=DAILY;", ";FREQ=DAILY", "FREQ=DAILY;;COUNT=1", "FREQ=DAILY;X=1", "FREQ=DAILY;COUNT", "FREQ==DAILY", "FREQ=DAILY=1",
              "COUNT=1", "INTERVAL=2;BYDAY=MO", "FREQ=DAILY;COUNT=2;UNTIL=20240101", "FREQ=DAILY;UNTIL=20240101;COUNT=2", "FREQ=DAILY;BYEASTER=0"):
        yield ["", x]
    for k in ORDER:
        yield ["2", k]


def check_bad(ctx, case):
    k, v = case
    if k == "":
        texts = [v]
    elif k == "2":
        x = VALUES[v][0]
        texts = ["FREQ=DAILY;%s=%s;%s=%s" % (v, x, v, y) for y in (x, VALUES[v][-1])] if v != "FREQ" else ["FREQ=DAILY;FREQ=DAILY", "FREQ=DAILY;FREQ=WEEKLY"]
    elif k == "FREQ":
        texts = ["FREQ=" + v, "FREQ=%s;COUNT=3" % v, "BYDAY=MO;FREQ=" + v]
    else:
        texts = ["FREQ=DAILY;%s=%s" % (k, v), "%s=%s;FREQ=YEARLY" % (k, v), "FREQ=MONTHLY;%s=%s;BYMONTH=1" % (k, v) if k != "BYMONTH" else "FREQ=DAILY;BYMONTH=%s;WKST=SU" % v]
        if k.startswith("BY") and v and not v.endswith(","):
            texts += ["FREQ=MONTHLY;%s=%s,%s" % (k, VALUES[k][0], v)]
    for t in texts:
        ctx.step()
        ctx.see(t)
        try:
            r = read(t)
        except ValueError:
            continue
        raise Mismatch("%r was accepted as %s" % (t, r.getText()))


# --- rules changed through their setters
def nolimit(r, m):
    r.setUseCount(False)
    r.setUseUntil(False)
    m.pop("COUNT", None)
    m.pop("UNTIL", None)


def count(n):
    def f(r, m):
        r.setUseUntil(False)
        r.setUseCount(True)
        r.setCount(n)
        m.pop("UNTIL", None)
        m["COUNT"] = str(n)
    return f


def until(t):
    def f(r, m):
        r.setUseCount(False)
        r.setUseUntil(True)
        r.setUntil(DateTime.parseText(t))
        m.pop("COUNT", None)
        m["UNTIL"] = t
    return f


def reread(t):
    def f(r, m):
        r.parse(t)
        m.clear()
        m.update(dict([x.split("=") for x in t.split(";")]))
    return f


def plain(setter, value, name, text):
    def f(r, m):
        getattr(r, setter)(value)
        if text:
            m[name] = text
        else:
            m.pop(name, None)
    return f


EDITS = [nolimit, count(3), count(5), until("20240216T100000Z"), until("20240301"), reread("FREQ=WEEKLY;COUNT=5;BYDAY=MO"), reread("FREQ=DAILY"),
         plain("setFreq", D.eRecurrence_WEEKLY, "FREQ", "WEEKLY"), plain("setFreq", D.eRecurrence_DAILY, "FREQ", "DAILY"),
         plain("setInterval", 2, "INTERVAL", "2"), plain("setInterval", 1, "INTERVAL", "1"),
         plain("setByMonth", [2, 1], "BYMONTH", "1,2"), plain("setByMonth", [], "BYMONTH", ""),
         plain("setByDay", [(0, D.eRecurrence_WEEKDAY_TU), (-1, D.eRecurrence_WEEKDAY_MO)], "BYDAY", "TU,-1MO"), plain("setByDay", [], "BYDAY", ""),
         plain("setByMonthDay", [-1, 15], "BYMONTHDAY", "15,-1"), plain("setByMonthDay", [], "BYMONTHDAY", ""),
         plain("setByYearDay", [100], "BYYEARDAY", "100"), plain("setBySetPos", [1], "BYSETPOS", "1"), plain("setBySetPos", [], "BYSETPOS", "")]


def gen_edits(tier):
    n = len(EDITS)
    for a in range(n):
        for b in range(n):
            yield [a, b, 2 if tier == "thorough" else 1]


def check_edits(ctx, case):
    a, b, more = case
    for rest in itertools.product(range(len(EDITS)), repeat=more):
        r, m = Recurrence(), {"FREQ": "YEARLY"}
        was = []
        for k, i in enumerate((a, b) + rest):
            copy = (r.duplicate(), canon(m))
            EDITS[i](r, m)
            if k % 2 and r.getText() != r.duplicate().getText():
                raise Mismatch("a copy of %r is %r" % (r.getText(), r.duplicate().getText()))
            ctx.step()
            text, want = r.getText(), canon(m)
            if split(text) != want:
                raise Mismatch("after edits %r the rule is %r, it should be %r" % (((a, b) + rest)[:k + 1], text, want))
            again = read(text)
            if not (r == again) or r != again or hash(r) != hash(again) or again.getText() != text:
                raise Mismatch("after edits %r the rule is %r, which is another when read" % (((a, b) + rest)[:k + 1], text))
            was.append(copy)
            for c, meant in was:
                if (c == r) != (meant == want) or (c != r) == (meant == want) or (meant == want and hash(c) != hash(r)):
                    raise Mismatch("after edits %r: %r and %r: == %s" % (((a, b) + rest)[:k + 1], c.getText(), text, c == r))
            ctx.see(text)


PARTS = [
    ("forms", gen_pairs, check_pairs, "every pair of parts (thorough: triples) with every value, 7 frequencies x none/COUNT/UNTIL, all parts at once, two orders"),
    ("equality", gen_equal, check_equal, "all pairs of 80 rules that differ in one part or its order"),
    ("edits", gen_edits, check_edits, "all sequences of 3 (4) of 20 changes through the setters: text, equality with the rule read from it and with earlier states"),
    ("damaged", gen_bad, check_bad, "every bad value of every part in 4 places, unknown, missing and repeated parts"),
]
