# Time zone definitions used by several checks, with independent reference data.
from cStringIO import StringIO
import refcal as R


def _obs(kind, start, frm, to, name, rrule=None, rdates=()):
    lines = ["BEGIN:" + kind, "DTSTART:" + start]
    if rrule:
        lines.append("RRULE:" + rrule)
    for r in rdates:
        lines.append("RDATE:" + r)
    lines += ["TZNAME:" + name, "TZOFFSETFROM:" + frm, "TZOFFSETTO:" + to, "END:" + kind]
    return lines


def vtimezone(tzid, observances):
    lines = ["BEGIN:VTIMEZONE", "TZID:" + tzid]
    for o in observances:
        lines += _obs(*o)
    lines.append("END:VTIMEZONE")
    return "\r\n".join(lines) + "\r\n"


def calendar(*bodies):
    return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//check//EN\r\n" + "".join(bodies) + "END:VCALENDAR\r\n"


NY = vtimezone("Test/NewYork", [
    ("DAYLIGHT", "20070311T020000", "-0500", "-0400", "EDT", "FREQ=YEARLY;BYMONTH=3;BYDAY=2SU"),
    ("STANDARD", "20071104T020000", "-0400", "-0500", "EST", "FREQ=YEARLY;BYMONTH=11;BYDAY=1SU"),
])
SYD = vtimezone("Test/Sydney", [
    ("STANDARD", "20080406T030000", "+1100", "+1000", "AEST", "FREQ=YEARLY;BYMONTH=4;BYDAY=1SU"),
    ("DAYLIGHT", "20081005T020000", "+1000", "+1100", "AEDT", "FREQ=YEARLY;BYMONTH=10;BYDAY=1SU"),
])
FIX = vtimezone("Test/Kathmandu", [("STANDARD", "19860101T000000", "+0530", "+0545", "NPT", None, ("19860101T000000",))])


def load(*bodies):
    """register the zones with the library, as reading a calendar that defines them does"""
    from pycalendar.icalendar.calendar import Calendar
    from pycalendar.timezonedb import TimezoneDatabase
    TimezoneDatabase.createTimezoneDatabase("")
    cal = Calendar.parseText(calendar(*bodies))
    TimezoneDatabase.mergeTimezones(cal, cal.getComponents("VTIMEZONE"))
    return cal
