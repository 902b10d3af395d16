# Reference proleptic Gregorian calendar, written from the definition and nothing of /repo.


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


ML = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def mlen(y, m):
    return 29 if m == 2 and leap(y) else ML[m - 1]


def days(y, m, d):
    """days from 1970-01-01; m and d may be out of range (m is reduced first, then d counts days)"""
    y += (m - 1) // 12
    m = (m - 1) % 12 + 1
    a = y - 1
    n = a * 365 + a // 4 - a // 100 + a // 400
    for i in range(1, m):
        n += mlen(y, i)
    return n + d - 1 - 719162


def civil(n):
    """inverse of days(): (y, m, d)"""
    n += 719162
    y = n * 400 // 146097 + 1
    while days(y, 1, 1) + 719162 > n:
        y -= 1
    while days(y + 1, 1, 1) + 719162 <= n:
        y += 1
    r = n - (days(y, 1, 1) + 719162)
    m = 1
    while r >= mlen(y, m):
        r -= mlen(y, m)
        m += 1
    return y, m, r + 1


def wday(n):
    """0 = Sunday"""
    return (n + 4) % 7


def yday(y, m, d):
    return days(y, m, d) - days(y, 1, 1) + 1


def isoweek(n):
    """(iso year, iso week) of day number n"""
    thursday = n - (wday(n) + 6) % 7 + 3
    y = civil(thursday)[0]
    return y, (thursday - days(y, 1, 1)) // 7 + 1


def secs(y, mo, d, h=0, mi=0, s=0):
    return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s


def fields(t):
    """(y, mo, d, h, mi, s) of a count of seconds from 1970-01-01T00:00:00"""
    n, r = divmod(t, 86400)
    return civil(n) + (r // 3600, r // 60 % 60, r % 60)


def text(f):
    return "%04d%02d%02dT%02d%02d%02d" % tuple(f)


def dtext(f):
    return "%04d%02d%02d" % tuple(f[:3])
