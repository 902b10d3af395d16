# Reference model of time zones: a list of transitions computed from plain calendar rules.
import refcal as R


def nth(year, month, weekday, n):
    """day of month of the nth (negative: from the end) weekday (0 = Sunday)"""
    days = [d for d in range(1, R.mlen(year, month) + 1) if R.wday(R.days(year, month, d)) == weekday]
    return days[n - 1] if n > 0 else days[n]


class Zone(object):
    """transitions: sorted list of (local wall seconds just before, offset before, offset after, name after)"""

    def __init__(self, transitions):
        self.tr = sorted(transitions)

    def local(self, secs):
        """offset for a local wall-clock reading: that of the latest onset not after it (0 before the first)"""
        off = 0
        for onset, _frm, to, _n in self.tr:
            if onset <= secs:
                off = to
            else:
                break
        return off

    def name(self, secs):
        n = ""
        for onset, _frm, _to, nm in self.tr:
            if onset <= secs:
                n = nm
            else:
                break
        return n

    def utc(self, secs):
        """offset at an instant"""
        off = 0
        for onset, frm, to, _n in self.tr:
            if onset - frm <= secs:
                off = to
            else:
                break
        return off

    def gap(self, secs):
        """is this local reading skipped by a forward change?"""
        for onset, frm, to, _n in self.tr:
            if to > frm and onset <= secs < onset + (to - frm):
                return True
        return False

    def fold(self, secs):
        for onset, frm, to, _n in self.tr:
            if to < frm and onset - (frm - to) <= secs < onset:
                return True
        return False


def yearly(first, last, month, weekday, n, hour, frm, to, name):
    return [(R.secs(y, month, nth(y, month, weekday, n), hour, 0, 0), frm, to, name) for y in range(first, last + 1)]


H = 3600
NY = Zone(yearly(2007, 2060, 3, 0, 2, 2, -5 * H, -4 * H, "EDT") + yearly(2007, 2060, 11, 0, 1, 2, -4 * H, -5 * H, "EST"))
SYD = Zone(yearly(2008, 2060, 4, 0, 1, 3, 11 * H, 10 * H, "AEST") + yearly(2008, 2060, 10, 0, 1, 2, 10 * H, 11 * H, "AEDT"))
KT = Zone([(R.secs(1986, 1, 1, 0, 0, 0), 5 * H + 1800, 5 * H + 2700, "NPT")])

# ---- a family of zones: (tzid, observances for tzdata.vtimezone, reference) -----------------------------------
def _single(f, frm, to, name):
    return (R.secs(*f), frm, to, name)


def family():
    out = []
    out.append(("T/NY", [
        ("DAYLIGHT", "20070311T020000", "-0500", "-0400", "EDT", "FREQ=YEARLY;BYMONTH=3;BYDAY=2SU"),
        ("STANDARD", "20071104T020000", "-0400", "-0500", "EST", "FREQ=YEARLY;BYMONTH=11;BYDAY=1SU")], NY))
    out.append(("T/SYD", [
        ("STANDARD", "20080406T030000", "+1100", "+1000", "AEST", "FREQ=YEARLY;BYMONTH=4;BYDAY=1SU"),
        ("DAYLIGHT", "20081005T020000", "+1000", "+1100", "AEDT", "FREQ=YEARLY;BYMONTH=10;BYDAY=1SU")], SYD))
    # rules that end (UNTIL is in UTC) and are replaced, listed newest first
    old = yearly(2000, 2006, 4, 0, 1, 2, -5 * H, -4 * H, "EDT") + yearly(2000, 2006, 10, 0, -1, 2, -4 * H, -5 * H, "EST")
    out.append(("T/NYOLD", [
        ("STANDARD", "20071104T020000", "-0400", "-0500", "EST", "FREQ=YEARLY;BYMONTH=11;BYDAY=1SU"),
        ("DAYLIGHT", "20070311T020000", "-0500", "-0400", "EDT", "FREQ=YEARLY;BYMONTH=3;BYDAY=2SU"),
        ("STANDARD", "20001029T020000", "-0400", "-0500", "EST", "FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU;UNTIL=20061029T060000Z"),
        ("DAYLIGHT", "20000402T020000", "-0500", "-0400", "EDT", "FREQ=YEARLY;BYMONTH=4;BYDAY=1SU;UNTIL=20060402T070000Z")],
        Zone(old + NY.tr)))
    # the same east of Greenwich, where the last onset is on the day before in UTC
    old = yearly(2002, 2007, 3, 0, -1, 3, 11 * H, 10 * H, "AEST") + yearly(2001, 2007, 10, 0, -1, 2, 10 * H, 11 * H, "AEDT")
    out.append(("T/SYDOLD", [
        ("STANDARD", "20020331T030000", "+1100", "+1000", "AEST", "FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU;UNTIL=20070324T160000Z"),
        ("STANDARD", "20080406T030000", "+1100", "+1000", "AEST", "FREQ=YEARLY;BYMONTH=4;BYDAY=1SU"),
        ("DAYLIGHT", "20011028T020000", "+1000", "+1100", "AEDT", "FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU;UNTIL=20071027T160000Z"),
        ("DAYLIGHT", "20081005T020000", "+1000", "+1100", "AEDT", "FREQ=YEARLY;BYMONTH=10;BYDAY=1SU")],
        Zone(old + SYD.tr)))
    # half-hour daylight saving, last Sundays
    lh = yearly(2010, 2060, 4, 0, 1, 2, 11 * H, 10 * H + 1800, "LHST") + yearly(2010, 2060, 10, 0, -1, 2, 10 * H + 1800, 11 * H, "LHDT")
    out.append(("T/LH", [
        ("STANDARD", "20100404T020000", "+1100", "+1030", "LHST", "FREQ=YEARLY;BYMONTH=4;BYDAY=1SU"),
        ("DAYLIGHT", "20101031T020000", "+1030", "+1100", "LHDT", "FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU")], Zone(lh)))
    # explicit onsets only
    rd = [_single((1995, 3, 1, 0, 0, 0), 3600, 7200, "A"), _single((1997, 6, 30, 23, 0, 0), 7200, 10800, "B"),
          _single((2001, 1, 1, 0, 0, 0), 10800, 5400, "C"), _single((2005, 1, 1, 0, 0, 0), 5400, 10800, "B"),
          _single((2009, 7, 1, 12, 0, 0), 5400, 10800, "B")]
    out.append(("T/RDATE", [
        ("STANDARD", "19950301T000000", "+0100", "+0200", "A", None),
        ("STANDARD", "19970630T230000", "+0200", "+0300", "B", None, ("19970630T230000",)),
        ("STANDARD", "20010101T000000", "+0300", "+0130", "C", None),
        ("DAYLIGHT", "20050101T000000", "+0130", "+0300", "B", None, ("20050101T000000,20090701T120000",))],
        Zone(rd)))
    # a rule that stops after some years, and a change of name only
    ct = [_single((2002, 1, 1, 0, 0, 0), -9 * H, -10 * H, "OLD")] + \
        yearly(2003, 2007, 5, 1, 3, 1, -10 * H, -9 * H, "DST") + yearly(2003, 2007, 9, 1, -2, 1, -9 * H, -10 * H, "STD") + \
        [_single((2010, 6, 1, 0, 0, 0), -10 * H, -10 * H, "NEW")]
    out.append(("T/COUNT", [
        ("STANDARD", "20020101T000000", "-0900", "-1000", "OLD", None),
        ("DAYLIGHT", "20030519T010000", "-1000", "-0900", "DST", "FREQ=YEARLY;BYMONTH=5;BYDAY=3MO;COUNT=5"),
        ("STANDARD", "20030922T010000", "-0900", "-1000", "STD", "FREQ=YEARLY;BYMONTH=9;BYDAY=-2MO;COUNT=5"),
        ("STANDARD", "20100601T000000", "-1000", "-1000", "NEW", None)], Zone(ct)))
    out.append(("T/FIXED", [("STANDARD", "19700101T000000", "+0545", "+0545", "NPT", None)],
                Zone([_single((1970, 1, 1, 0, 0, 0), 20700, 20700, "NPT")])))
    # two hours of daylight saving; changes of nearly a day, in leap years too
    tr = yearly(2006, 2060, 3, 0, -1, 1, 0, 2 * H, "CEST") + yearly(2006, 2060, 10, 0, -1, 3, 2 * H, 0, "GMT")
    out.append(("T/TROLL", [
        ("STANDARD", "20061029T030000", "+0200", "+0000", "GMT", "FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU"),
        ("DAYLIGHT", "20060326T010000", "+0000", "+0200", "CEST", "FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU")], Zone(tr)))
    sm = [_single((2000, 2, 29, 12, 0, 0), -11 * H, -11 * H, "SST"), _single((2004, 12, 31, 0, 0, 0), -11 * H, 13 * H, "WST"),
          _single((2008, 2, 29, 1, 0, 0), 13 * H, 14 * H, "WSDT"), _single((2012, 1, 1, 0, 0, 0), 14 * H, -10 * H, "SST"),
          _single((2016, 12, 31, 23, 59, 59), -10 * H, -7200 * 2 - 1800, "X")]
    out.append(("T/LINE", [
        ("STANDARD", "20000229T120000", "-1100", "-1100", "SST", None),
        ("STANDARD", "20120101T000000", "+1400", "-1000", "SST", None),
        ("STANDARD", "20041231T000000", "-1100", "+1300", "WST", None),
        ("STANDARD", "20161231T235959", "-1000", "-0430", "X", None),
        ("DAYLIGHT", "20080229T010000", "+1300", "+1400", "WSDT", None)], Zone(sm)))
    return out
