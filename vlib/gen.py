# -*- coding: utf-8 -*-
"""Generators: Hypothesis strategies and deterministic structured enumerations shared by the properties."""
import random
from hypothesis import strategies as st
from . import cal, ref

# years around which something in the calendars is irregular: the ends of the range, the reforms of 9, 23, 237 and 239,
# the Gregorian switch, centuries, the first year of tables that differ in style, eleventh and twelfth month leaps
SPECIAL_YEARS = (1, 2, 3, 4, 5, 8, 9, 10, 14, 15, 16, 17, 18, 19, 20, 22, 23, 24, 37, 56, 75, 94, 99, 100, 101, 113, 236, 237, 238, 239, 240, 241, 300, 400,
                 618, 619, 620, 664, 665, 689, 700, 761, 762, 763, 900, 999, 1000, 1001, 1099, 1100, 1279, 1280, 1281, 1368, 1580, 1581, 1582, 1583, 1584, 1599, 1600, 1601, 1644, 1645, 1646, 1699,
                 1700, 1800, 1899, 1900, 1901, 1912, 1929, 1949, 1959, 1960, 1961, 1970, 1984, 1985, 1999, 2000, 2001, 2012, 2017, 2019, 2020, 2021, 2022, 2023, 2024,
                 2025, 2026, 2030, 2032, 2033, 2034, 2044, 2099, 2100, 2101, 2128, 2147, 2200, 2242, 2262, 2300, 2400, 2500, 3000, 3358, 4000, 4999, 5000, 6000, 7000, 8000,
                 9000, 9494, 9496, 9995, 9996, 9997, 9998, 9999)


def years(lo=1, hi=9999):
    sp = [y for y in SPECIAL_YEARS if lo <= y <= hi]
    opts = [st.integers(lo, hi)]
    if lo <= 1990 and hi >= 2040:
        opts.append(st.integers(1890, 2110))
    if sp:
        opts.append(st.sampled_from(sp))
    return st.one_of(*opts)


@st.composite
def days(draw, lo=1, hi=9999):
    """A day number, biased to month ends, the 1582 gap, leap days, the turn of solar and lunar years and months."""
    y = draw(years(lo, hi))
    k = draw(st.integers(0, 7))
    if k <= 2:
        n = cal.jdn(y, 1, 1) + draw(st.integers(0, cal.year_days(y) - 1))
    elif k == 3:
        m = draw(st.integers(1, 12))
        n = cal.jdn(y, m, 1) + draw(st.integers(-2, 1))
    elif k == 4:
        n = cal.jdn(y, 2, 28) + draw(st.integers(-1, 2))
    elif k == 5:
        n = ref.new_year(y) + draw(st.integers(-2, 2))
    elif k == 6:
        r = ref.months_of(y)
        n = ref.M_FIRST[draw(st.integers(r[0], r[-1]))] + draw(st.integers(-1, 1))
    else:
        n = ref.T[24 * y + draw(st.integers(1, 25))] // cal.DAY + draw(st.integers(-1, 1))
    return max(cal.jdn(lo, 1, 1), min(n, cal.jdn(hi, 12, 31)))


SOD = st.one_of(st.integers(0, 86399), st.sampled_from([0, 1, 59, 60, 3599, 3600, 43200, 82799, 82800, 82801, 84600, 86340, 86399]),
                st.builds(lambda h, o: (h * 3600 + o) % 86400, st.integers(0, 23), st.sampled_from([0, -1, 1, 1800, 3540, 3599])))


@st.composite
def instants(draw, lo=1, hi=9999):
    """An instant in seconds, biased to term instants and to the turn of the double hours."""
    if draw(st.integers(0, 3)) == 0:
        y = draw(years(lo, hi))
        t = ref.T[24 * y + draw(st.integers(1, 25))] + draw(st.sampled_from([-3600, -60, -1, 0, 1, 60, 3600]))
        return max(cal.sec(lo, 1, 1), min(t, cal.sec(hi, 12, 31, 23, 59, 59)))
    return draw(days(lo, hi)) * cal.DAY + draw(SOD)


def year_range(tier, seed, lo=1, hi=9999, stride=1, dense=(1890, 2110)):
    """All years at the thorough tier; at the quick tier one year in `stride` (which one depends on the seed),
    every special year and the dense range."""
    if tier != 'quick' or stride == 1:
        return list(range(lo, hi + 1))
    s = set(y for y in SPECIAL_YEARS if lo <= y <= hi)
    s.update(range(max(lo, dense[0]), min(hi, dense[1]) + 1))
    s.update(range(lo + seed % stride, hi + 1, stride))
    return sorted(s)


def rng(*key):
    """A private generator for structured sweeps: a pure function of its key."""
    return random.Random(repr(key))


def solar(t):
    """The library's solar instant for t seconds."""
    from lunar_python import Solar
    return Solar.fromYmdHms(*cal.unsec(t))


def solar_day(n):
    from lunar_python import Solar
    return Solar.fromYmd(*cal.civil(n))


def tup(s):
    return s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond()


def ymd(s):
    return s.getYear(), s.getMonth(), s.getDay()


def points(y, r, full=False):
    """Instants of solar year y around everything that changes a pillar: the term instants (one second before, at, after, start and end of their day),
    new year's day, month turns, 23:00, the ends of the solar year, and random ones. The few that lie before the lunar new year cost most (two years
    of the library's table each), so their number is limited unless `full`."""
    a, b = cal.sec(y, 1, 1), cal.sec(y, 12, 31, 23, 59, 59)
    ny = ref.new_year(y) * cal.DAY
    early, late = [], []

    def put(t, must=False):
        if a <= t <= b:
            (early if t < ny else late).append((t, must))
    for i in range(0, 27):
        t = ref.T[24 * y + i]
        d0 = t - t % cal.DAY
        if full:
            opts = [t - 1, t, t + 1, d0, d0 + cal.DAY - 1, d0 - 1, d0 + cal.DAY]
        else:
            opts = [t - 1, t, r.choice([t + 1, d0, d0 + cal.DAY - 1, d0 - 1, d0 + cal.DAY, t - r.randrange(3600), t + r.randrange(3600)])]
        for t in opts:
            put(t)
    put(a)
    put(b, True)
    put(b - 86399)
    put(ny, True)
    put(ny - 1, True)
    for k in ref.months_of(y):
        d0 = ref.M_FIRST[k] * cal.DAY
        put(d0)
        put(d0 - 1)
    for _ in range(12 if full else 5):
        d0 = a + r.randrange((b - a + 1) // cal.DAY) * cal.DAY
        put(d0 + r.choice([82799, 82800, 84600, 86399, 0, 3599, 3600]))
        put(d0 + r.randrange(86400))
    if full:
        return sorted(set(t for t, m in early + late))
    out = [t for t, m in early if m]
    lc = ref.T[24 * y + 4]
    if lc < ny:
        out += [lc - 1, lc]
    rest = [t for t, m in early if not m]
    out += r.sample(rest, min(2, len(rest)))
    rest = [t for t, m in late if not m]
    out += [t for t, m in late if m] + r.sample(rest, min(30, len(rest)))
    return sorted(set(out))
