# -*- coding: utf-8 -*-
"""Independent civil calendar: Julian up to 1582-10-04, Gregorian from 1582-10-15; day numbers are JDN (noon)."""
GREG = 2299161  # 1582-10-15
DAY = 86400


def is_leap(y):
    if y <= 1582:
        return y % 4 == 0
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


_LEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def month_len(y, m):
    """The number of the last day of the month (31 for October 1582, which has 21 days)."""
    return 29 if m == 2 and is_leap(y) else _LEN[m - 1]


def month_days(y, m):
    if (y, m) == (1582, 10):
        return [1, 2, 3, 4] + list(range(15, 32))
    return list(range(1, month_len(y, m) + 1))


def year_days(y):
    return 355 if y == 1582 else 366 if is_leap(y) else 365


def jdn(y, m, d):
    """Day number by counting whole years from an epoch; an algorithm the library does not use."""
    gregorian = (y, m, d) >= (1582, 10, 15)
    p = y - 1
    if gregorian:
        n = 365 * p + p // 4 - p // 100 + p // 400 + 1721425
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    else:
        n = 365 * p + p // 4 + 1721423
        leap = y % 4 == 0
    n += _BEFORE[m - 1] + d
    if leap and m > 2:
        n += 1
    return n


_BEFORE = [0]
for _x in _LEN[:-1]:
    _BEFORE.append(_BEFORE[-1] + _x)


def civil(n):
    """(year, month, day) of a day number."""
    if n >= GREG:
        k = n - 1721426  # days since 0001-01-01 proleptic Gregorian
        q, k = divmod(k, 146097)
        c = min(k // 36524, 3)
        k -= c * 36524
        f, k = divmod(k, 1461)
        a = min(k // 365, 3)
        k -= a * 365
        y = q * 400 + c * 100 + f * 4 + a + 1
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    else:
        k = n - 1721424  # days since 0001-01-01 Julian
        q, k = divmod(k, 1461)
        a = min(k // 365, 3)
        k -= a * 365
        y = q * 4 + a + 1
        leap = y % 4 == 0
    m = 1
    while True:
        l = 29 if m == 2 and leap else _LEN[m - 1]
        if k < l:
            return y, m, k + 1
        k -= l
        m += 1


FIRST = jdn(1, 1, 1)
LAST = jdn(9999, 12, 31)


def weekday(n):
    """0 = Sunday."""
    return (n + 1) % 7


def sec(y, m, d, h=0, i=0, s=0):
    return jdn(y, m, d) * DAY + h * 3600 + i * 60 + s


def unsec(t):
    n, r = divmod(t, DAY)
    y, m, d = civil(n)
    return y, m, d, r // 3600, r // 60 % 60, r % 60


def day_ordinal(y, m, d):
    """1-based position of a day inside its month, counting only days that exist."""
    return jdn(y, m, d) - jdn(y, m, 1) + 1


def add_months(y, m, n):
    k = y * 12 + m - 1 + n
    return k // 12, k % 12 + 1


def clamp_day(y, m, d):
    """Documented clamping of month and year stepping: a day past the end of the month becomes the last day;
    a day removed in October 1582 moves on by the ten days that were dropped."""
    if (y, m) == (1582, 10):
        if 4 < d < 15:
            d += 10
        return d
    return min(d, month_len(y, m))


def fmt(y, m, d):
    return '%04d-%02d-%02d' % (y, m, d)


def fmts(t):
    y, m, d, h, i, s = unsec(t)
    return '%04d-%02d-%02d %02d:%02d:%02d' % (y, m, d, h, i, s)


def noon_day(jd):
    """Day number of a Julian day that must denote a noon."""
    n = int(round(jd))
    if abs(jd - n) > 1e-6:
        raise AssertionError('%r is not a noon' % jd)
    return n
