# -*- coding: utf-8 -*-
"""Solar side: day stepping, day numbers, construction, month/year stepping, weeks, ordering, festivals, work days, holidays."""
import datetime
from hypothesis import strategies as st
from .. import cal, fresh, gen, ref
from ..core import Prop, eq, fail
from lunar_python import Holiday, Solar, SolarHalfYear, SolarMonth, SolarSeason, SolarWeek, SolarYear, Lunar
from lunar_python.util import HolidayUtil, SolarUtil

CAL = 'civil calendar: Julian to 1582-10-04, Gregorian from 1582-10-15, every fourth year leap before 1600'
tup, ymd = gen.tup, gen.ymd

# ------------------------------------------------------------------------------------------------ S01
S01 = Prop('S01', 'Day stepping and day differences are exact over the whole civil calendar',
           'A year case walks every day of one year (one day forward, one back, month and year lengths, ordinal); a jump case is a pair of days '
           'and a time of day. Non-trivial: a walked year, or a jump that leaves its month.', [CAL])


@S01.sweep('year', lambda tier, seed: range(1, 10000))
def s01_year(y, c):
    eq(SolarUtil.isLeapYear(y), cal.is_leap(y), 'leap year %d', y)
    eq(Solar.fromYmd(y, 1, 1).isLeapYear(), cal.is_leap(y), 'leap year %d', y)
    eq(SolarUtil.getDaysOfYear(y), cal.year_days(y), 'days of year %d', y)
    n0 = cal.jdn(y, 1, 1)
    n = n0
    cur = Solar.fromYmd(y, 1, 1)
    prev = Solar.fromYmd(y, 1, 1)
    for m in range(1, 13):
        ds = cal.month_days(y, m)
        eq(SolarUtil.getDaysOfMonth(y, m), len(ds), 'days of month %d-%d', y, m)
        for d in ds:
            if n > n0:
                s = prev.next(1)
                if ymd(s) != (y, m, d):
                    fail('the day after %s is %s, expected %s' % (prev.toYmd(), s.toYmd(), cal.fmt(y, m, d)))
                b = s.next(-1)
                if ymd(b) != ymd(prev):
                    fail('the day before %s is %s, expected %s' % (s.toYmd(), b.toYmd(), prev.toYmd()))
                prev = s
            eq(SolarUtil.getDaysInYear(y, m, d), n - n0 + 1, 'ordinal of %d-%d-%d', y, m, d)
            n += 1
            c.ev()
    if y < 9999:
        s = prev.next(1)
        eq(ymd(s), (y + 1, 1, 1), 'day after %s', prev.toYmd())
        eq(ymd(s.next(-1)), (y, 12, 31), 'day before %s', s.toYmd())
        eq(s.subtract(Solar.fromYmd(y, 1, 1)), cal.year_days(y), 'length of %d by subtraction', y)
    c.nt(y)
    c.cls('years walked')


@st.composite
def jumps(draw):
    a = draw(gen.days())
    k = draw(st.integers(0, 5))
    if k <= 2:
        j = draw(st.integers(-400, 400))
    elif k == 3:
        j = draw(st.integers(-40000, 40000))
    elif k == 4:
        j = draw(gen.days()) - a
        if abs(j) > 800000 and draw(st.integers(0, 3)):
            j //= 50
    else:
        j = cal.GREG + draw(st.integers(-3, 3)) - a
        if abs(j) > 200000:
            j = 0 if draw(st.booleans()) else j
    b = max(cal.FIRST, min(cal.LAST, a + j))
    return [a, b, draw(gen.SOD)]


@S01.given('jump', jumps, 24000)
def s01_jump(case, c):
    a, b, sod = case
    sa, sb = gen.solar(a * cal.DAY + sod), gen.solar(b * cal.DAY + (sod * 7) % cal.DAY)
    r = sa.next(b - a)
    eq(tup(r), cal.unsec(b * cal.DAY + sod), '%s stepped by %d days', sa.toYmdHms(), b - a)
    eq(tup(sa), cal.unsec(a * cal.DAY + sod), 'stepping changed its receiver')
    if hasattr(sa, 'nextDay'):
        eq(tup(sa.nextDay(b - a)), tup(r), '%s stepped by %d days (nextDay)', sa.toYmdHms(), b - a)
    eq(sb.subtract(sa), b - a, 'days from %s to %s', sa.toYmdHms(), sb.toYmdHms())
    eq(sa.subtract(sb), a - b, 'days from %s to %s', sb.toYmdHms(), sa.toYmdHms())
    eq(SolarUtil.getDaysBetween(*(ymd(sa) + ymd(sb))), b - a, 'days between %s and %s', sa.toYmd(), sb.toYmd())
    c.ev(4)
    c.cls('jump over the 1582 gap' if (a < cal.GREG) != (b < cal.GREG) else 'jump')
    if cal.civil(a)[:2] != cal.civil(b)[:2]:
        c.nt(a, b)
    c.sample('jump', [cal.fmt(*cal.civil(a)), b - a])


# ------------------------------------------------------------------------------------------------ S02
S02 = Prop('S02', 'Julian day numbers and weekdays identify every instant',
           'An instant case converts an instant to a Julian day and back, compares the number with independent day counting and the weekday with '
           'the day number mod 7; a real case converts an arbitrary real Julian day. Non-trivial: not at midnight or noon, or within two days of a '
           'month end.', [CAL, 'a Julian day is a double, resolution about 40 microseconds'])


def check_jd(t, c):
    s = gen.solar(t)
    jd = s.getJulianDay()
    exact = t / 86400.0 - 0.5
    if not abs(jd - exact) < 5e-9:
        fail('Julian day of %s is %r, expected %r' % (cal.fmts(t), jd, exact))
    b = Solar.fromJulianDay(jd)
    eq(tup(b), cal.unsec(t), 'round trip of %s through its Julian day %r', cal.fmts(t), jd)
    w = cal.weekday(t // cal.DAY)
    eq(s.getWeek(), w, 'weekday of %s', cal.fmts(t))
    eq(s.getWeekInChinese(), '日一二三四五六'[w], 'weekday name of %s', cal.fmts(t))
    c.ev()


@S02.decider('instant')
def s02_instant(t, c):
    check_jd(t, c)


@S02.sweep('month', lambda tier, seed: range(12, 120000))
def s02_month(k, c):
    y, m = k // 12, k % 12 + 1
    r = gen.rng('S02', c.seed, k)
    n = cal.jdn(y, m, 1)
    ds = cal.month_days(y, m)
    last = n + len(ds) - 1
    for t in (n * cal.DAY, last * cal.DAY + 86399, last * cal.DAY + 86340, (n + r.randrange(len(ds))) * cal.DAY + r.randrange(86400),
              (n + r.randrange(len(ds))) * cal.DAY + 43200):
        c.sub('instant', t)
    if c.tier != 'quick':
        for d in range(len(ds)):
            c.sub('instant', (n + d) * cal.DAY + r.randrange(86400))
    c.nt(k)


@S02.given('hyp_instant', gen.instants, 16000)
def s02_hyp(t, c):
    check_jd(t, c)
    if t % 43200:
        c.nt(0, t)
    if t + 1 < cal.LAST * cal.DAY:
        a, b = gen.solar(t).getJulianDay(), gen.solar(t + 1).getJulianDay()
        if not a < b:
            fail('the Julian day does not grow from %s to the next second: %r, %r' % (cal.fmts(t), a, b))
    c.sample('instant', cal.fmts(t))


@st.composite
def reals(draw):
    t = draw(gen.instants())
    f = draw(st.one_of(st.floats(0, 1, exclude_max=True), st.sampled_from([0.0, 0.4, 0.49, 0.51, 0.6, 0.9, 0.99])))
    return [t, f]


@S02.given('real', reals, 12000)
def s02_real(case, c):
    t, f = case
    jd = (t + f) / 86400.0 - 0.5
    x = (jd + 0.5) * 86400.0
    if x > cal.LAST * cal.DAY + 86399:
        return
    s = Solar.fromJulianDay(jd)
    y, m, d, h, i, q = tup(s)
    if not (1 <= m <= 12 and d in cal.month_days(y, m)):
        fail('Julian day %r became the impossible date %s' % (jd, s.toYmdHms()))
    got = cal.sec(y, m, d, h, i, q)
    if abs(got - x) > 0.5 + 2e-3:
        fail('Julian day %r became %s, %.3f s away from %s' % (jd, s.toYmdHms(), got - x, cal.fmts(int(x))))
    c.ev()
    c.nt(1, t, int(f * 1000))
    c.cls('rounds up into the next day' if (t + 1) % cal.DAY == 0 and f > 0.5 else 'real')


# ------------------------------------------------------------------------------------------------ S03
S03 = Prop('S03', 'Every real solar instant is accepted and read back, out-of-range ones rejected',
           'A valid case builds an instant by every constructor and reads it back; an invalid case pushes one field out of its range or into the '
           'ten days dropped in 1582. Non-trivial: a case with a time of day, or any rejected case.', [CAL])


@S03.given('valid', gen.instants, 12000)
def s03_valid(t, c):
    f = cal.unsec(t)
    text = '%04d-%02d-%02d %02d:%02d:%02d' % f
    s = Solar.fromYmdHms(*f)
    eq(tup(s), f, 'fields of %s', text)
    eq(s.toYmdHms(), text, 'rendering')
    eq(s.toYmd(), text[:10], 'rendering')
    eq(s.toString(), text[:10], 'rendering')
    eq(str(s), text[:10], 'rendering')
    if not s.toFullString().startswith(text):
        fail('the full rendering of %s begins with %s' % (text, s.toFullString()[:19]))
    eq(tup(Solar(*f)), f, 'fields of %s', text)
    eq(tup(Solar.fromYmd(*f[:3])), f[:3] + (0, 0, 0), 'fields of %s', text[:10])
    try:
        d = datetime.datetime(*f)
    except ValueError:
        d = None
    if d is not None:
        eq(tup(Solar.fromDate(d)), f, 'fields of a datetime %s', d)
    c.ev(5)
    if t % cal.DAY:
        c.nt(t)


@st.composite
def datetimes(draw):
    """A datetime with a fraction of a second, a zone and a fold."""
    n = draw(gen.instants())
    f = cal.unsec(n)
    try:
        datetime.datetime(*f)
    except ValueError:
        f = (f[0], f[1], 28) + f[3:]
    return [list(f), draw(st.sampled_from((0, 1, 499999, 500000, 999999))), draw(st.one_of(st.none(), st.integers(-1439, 1439))), draw(st.integers(0, 1))]


@S03.given('datetime', datetimes, 3000)
def s03_datetime(case, c):
    f, us, off, fold = case
    zone = None if off is None else datetime.timezone(datetime.timedelta(minutes=off))
    d = datetime.datetime(*f, microsecond=us, tzinfo=zone, fold=fold)
    eq(tup(Solar.fromDate(d)), tuple(f), 'fields of the datetime %r', d)
    c.ev()
    if us or zone is not None or fold:
        c.nt(1, *f, us, off or 0, fold)
        c.cls('datetime with a zone, a fraction of a second or a fold')


@S03.sweep('every-day', lambda tier, seed: range(1, 10000))
def s03_every_day(y, c):
    for m in range(1, 13):
        for d in cal.month_days(y, m):
            s = Solar.fromYmd(y, m, d)
            if tup(s) != (y, m, d, 0, 0, 0):
                fail('%s came back as %s' % (cal.fmt(y, m, d), s.toYmdHms()))
            c.ev()
    c.nt(0, y)


OUT = {'month': [0, -1, 13, 14, 99, -12, 100], 'day': [0, -1, 32, 33, 40, 99, -31, 100], 'hour': [-1, 24, 25, 99, -24, 60],
       'minute': [-1, 60, 61, 99, -60], 'second': [-1, 60, 61, 99, -60]}


@st.composite
def bad_fields(draw):
    f = list(cal.unsec(draw(gen.instants())))
    k = draw(st.sampled_from(['month', 'day', 'hour', 'minute', 'second', 'gap']))
    if k == 'gap':
        f[:3] = [1582, 10, draw(st.integers(5, 14))]
    else:
        i = ['year', 'month', 'day', 'hour', 'minute', 'second'].index(k)
        hi = [0, 12, 31, 23, 59, 59][i]
        f[i] = draw(st.one_of(st.sampled_from(OUT[k]), st.integers(hi + 1, hi + 500), st.integers(-500, 0 if i < 3 else -1)))
    return [k] + f


@S03.given('invalid', bad_fields, 8000)
def s03_invalid(case, c):
    k, f = case[0], case[1:]
    makers = [lambda: Solar.fromYmdHms(*f), lambda: Solar(*f)]
    if k in ('month', 'day', 'gap'):
        makers.append(lambda: Solar.fromYmd(*f[:3]))
    for mk in makers:
        try:
            s = mk()
        except Exception:
            c.ev()
            continue
        fail('the impossible instant %r was accepted as %s' % (f, s.toYmdHms()))
    c.nt(*([len(k)] + f))
    c.cls('invalid ' + k)
    c.sample('invalid', f)


# ------------------------------------------------------------------------------------------------ S04
S04 = Prop('S04', 'Stepping by hours, months, quarters, half-years and years follows the calendar',
           'A case is an instant and a signed step. Non-trivial: the step crosses a year, clamps the day or lands in October 1582.',
           [CAL, 'a day past the end of the target month becomes its last day; the dropped days of October 1582 move on by ten days'])


@st.composite
def steps(draw):
    t = draw(gen.instants())
    if draw(st.integers(0, 3)) == 0:
        # aim at month ends and at October 1582
        y, m, d = cal.civil(t // cal.DAY)
        d = draw(st.integers(28, 31))
        if d in cal.month_days(y, m):
            t = cal.sec(y, m, d) + t % cal.DAY
    k = draw(st.one_of(st.integers(-30, 30), st.integers(-2000, 2000), st.sampled_from([-12, 12, -24, 24, 1, -1, 11, 13, -13])))
    if draw(st.integers(0, 7)) == 0:
        y, m, d = cal.civil(t // cal.DAY)
        k = (1582 - y) * 12 + 10 - m
    return [t, k]


def in_range(y):
    return 1 <= y <= 9999


def check_steps(t, k, c):
    y, m, d, h, i, q = f = cal.unsec(t)
    s = gen.solar(t)
    units = (SolarMonth.fromYm(y, m), SolarSeason.fromYm(y, m), SolarHalfYear.fromYm(y, m), SolarYear.fromYear(y))
    # the same objects are stepped again by another number, and once more by the first
    for j in (k, 1 - k // 2, k) if t % 2 else (1 - k // 2, k):
        check_step(s, units, t, f, j, c)
    eq(tup(s), f, 'stepping changed its receiver')
    eq([u.toString() for u in units[:2]], ['%d-%d' % (y, m), '%d.%d' % (y, (m - 1) // 3 + 1)], 'stepping changed its receiver')


def check_step(s, units, t, f, k, c):
    y, m, d, h, i, q = f
    ny, nm = cal.add_months(y, m, k)
    if in_range(ny):
        want = (ny, nm, cal.clamp_day(ny, nm, d), h, i, q)
        r = s.nextMonth(k)
        eq(tup(r), want, '%s stepped by %d months', s.toYmdHms(), k)
        r = units[0].next(k)
        eq((r.getYear(), r.getMonth()), (ny, nm), 'month %d-%d stepped by %d', y, m, k)
        if want[2] != d or ny != y:
            c.nt(1, t // cal.DAY, k)
    for per, o in ((3, units[1]), (6, units[2])):
        ny, nm = cal.add_months(y, m, k * per)
        if in_range(ny):
            r = o.next(k)
            eq((r.getYear(), r.getIndex()), (ny, (nm - 1) // per + 1), '%s of %d-%d stepped by %d', type(o).__name__, y, m, k)
    if in_range(y + k):
        r = s.nextYear(k)
        eq(tup(r), (y + k, m, cal.clamp_day(y + k, m, d), h, i, q), '%s stepped by %d years', s.toYmdHms(), k)
        eq(units[3].next(k).getYear(), y + k, 'year %d stepped by %d', y, k)
    u = t + k * 3600
    if cal.FIRST * cal.DAY <= u < (cal.LAST + 1) * cal.DAY:
        r = s.nextHour(k)
        eq(tup(r), cal.unsec(u), '%s stepped by %d hours', s.toYmdHms(), k)
    c.ev(5)


@S04.decider('step')
def s04_step_one(case, c):
    check_steps(case[0], case[1], c)


@S04.given('steps', steps, 24000)
def s04_step(case, c):
    check_steps(case[0], case[1], c)
    c.sample('step', [cal.fmts(case[0]), case[1]])


@S04.sweep('switch', lambda tier, seed: [[y, m, d] for y in (1578, 1580, 1581, 1582, 1583, 1584, 1586, 1599, 1600, 1700, 1999, 2000, 2001) for m in range(1, 13) for d in cal.month_days(y, m)])
def s04_switch(case, c):
    y, m, d = case
    t = cal.sec(y, m, d, (y + m + d) % 24, 5, 7)
    ks = {1582 - y, -1, 1, 4, -4, 12, -12, (1582 - y) * 12 + 10 - m, (1582 - y) * 12 + 2 - m, (1584 - y) * 12 + 2 - m, 10 - m, 2 - m, 24 * 10, -24 * 10}
    for k in sorted(ks):
        c.sub('step', [t, k])


def leap_days(tier, seed):
    # every 29 February, and month ends, moved onto every kind of year: common, leap, century, the year of the switch
    for y in range(4, 10000, 4):
        if not cal.is_leap(y):
            continue
        to = {100 * (y // 100), 100 * (y // 100) + 100, 1500, 1582, 1600, 1700, y + 400, y - 400, y + 4, y - 4, y + 1, y - 3}
        if tier != 'quick':
            to.update(range(100, 10000, 100))
        yield [y, sorted(z for z in to if 1 <= z <= 9999 and z != y)]


@S04.sweep('leap-day', leap_days)
def s04_leap(case, c):
    y, to = case
    t = cal.sec(y, 2, 29, y % 24, y % 60, 30)
    for z in to:
        c.sub('step', [t, z - y])
        c.sub('step', [t, (z - y) * 12])


@S04.sweep('containers', lambda tier, seed: gen.year_range(tier, seed, stride=1))
def s04_containers(y, c):
    yy = SolarYear.fromYear(y)
    eq(yy.getYear(), y, 'year')
    eq([yy.toString(), str(yy), yy.toFullString()], [str(y), str(y), '%d年' % y], 'rendering of the year')
    eq([(m.getYear(), m.getMonth()) for m in yy.getMonths()], [(y, m) for m in range(1, 13)], 'months of %d', y)
    for m in range(1, 13):
        mm = SolarMonth.fromYm(y, m)
        eq([ymd(d) for d in mm.getDays()], [(y, m, d) for d in cal.month_days(y, m)], 'days of %d-%d', y, m)
        eq([mm.getYear(), mm.getMonth(), mm.toString(), str(mm), mm.toFullString()], [y, m, '%d-%d' % (y, m), '%d-%d' % (y, m), '%d年%d月' % (y, m)], 'rendering of the month')
        for per, cls in ((3, SolarSeason), (6, SolarHalfYear)):
            q = cls.fromYm(y, m)
            ix = (m - 1) // per + 1
            eq(q.getIndex(), ix, '%s index of month %d', cls.__name__, m)
            eq([(a.getYear(), a.getMonth()) for a in q.getMonths()], [(y, (ix - 1) * per + j + 1) for j in range(per)], '%s months of %d-%d', cls.__name__, y, m)
            eq([q.getYear(), q.getMonth(), q.toString(), str(q)], [y, m, '%d.%d' % (y, ix), '%d.%d' % (y, ix)], 'rendering of %s', cls.__name__)
            eq(q.toFullString(), '%d年%d季度' % (y, ix) if per == 3 else '%d年%s半年' % (y, '上下'[ix - 1]), 'rendering of %s', cls.__name__)
        d = datetime.date(y, m, 1)
        for cls in (SolarMonth, SolarSeason, SolarHalfYear):
            o = cls.fromDate(d)
            eq((o.getYear(), o.getMonth()), (y, m), '%s from a date', cls.__name__)
        c.ev(6)
    eq(SolarYear.fromDate(datetime.date(y, 5, 1)).getYear(), y, 'year from a date')
    c.nt(0, y)


# ------------------------------------------------------------------------------------------------ S05
S05 = Prop('S05', 'Weeks partition the calendar for every first weekday',
           'A case is a day, a first weekday 0..6 and a signed number of weeks; a month case checks the partition of one month for all seven first '
           'weekdays. Non-trivial: the week crosses a month end, or a step in month-bounded weeks crosses one.', [CAL])


def week_first(n, start):
    return n - (cal.weekday(n) - start) % 7


def segments_from(n, start, k):
    """Month-bounded week k segments after the one holding day n: (first day of the week, year, month)."""
    step = 1 if k > 0 else -1
    w = week_first(n, start)
    y, m, _ = cal.civil(n)
    for _ in range(abs(k)):
        if step > 0:
            e = w + 6
            ey, em, _ = cal.civil(e)
            if (ey, em) != (y, m):
                y, m = ey, em
            else:
                w += 7
                y, m, _ = cal.civil(w)
        else:
            fy, fm, _ = cal.civil(w)
            if (fy, fm) != (y, m):
                y, m = fy, fm
            else:
                w -= 7
                y, m, _ = cal.civil(w + 6)
    return w, y, m


def check_week(n, start, c, light=False):
    y, m, d = cal.civil(n)
    w = SolarWeek.fromYmd(y, m, d, start)
    f = week_first(n, start)
    m1, y1 = cal.jdn(y, m, 1), cal.jdn(y, 1, 1)
    eq(w.getIndex(), (f - week_first(m1, start)) // 7 + 1, 'week of the month of %s, weeks starting on %d', cal.fmt(y, m, d), start)
    eq(w.getIndexInYear(), (f - week_first(y1, start)) // 7 + 1, 'week of the year of %s, weeks starting on %d', cal.fmt(y, m, d), start)
    c.ev()
    if light or f < cal.FIRST or f + 6 > cal.LAST:
        return
    wk = [cal.civil(f + i) for i in range(7)]
    eq([w.getYear(), w.getMonth(), w.getDay(), w.getStart()], [y, m, d, start], 'fields of the week')
    eq(ymd(w.getFirstDay()), wk[0], 'first day of the week of %s starting on %d', cal.fmt(y, m, d), start)
    eq([ymd(x) for x in w.getDays()], wk, 'days of the week of %s starting on %d', cal.fmt(y, m, d), start)
    mine = [x for x in wk if x[1] == m]
    eq([ymd(x) for x in w.getDaysInMonth()], mine, 'days in the month of the week of %s starting on %d', cal.fmt(y, m, d), start)
    eq(ymd(w.getFirstDayInMonth()), mine[0], 'first day in the month of the week of %s starting on %d', cal.fmt(y, m, d), start)
    ix = (f - week_first(m1, start)) // 7 + 1
    eq([w.toString(), str(w), w.toFullString()], ['%d.%d.%d' % (y, m, ix)] * 2 + ['%d年%d月第%d周' % (y, m, ix)], 'rendering of the week of %s', cal.fmt(y, m, d))


@S05.decider('week')
def s05_week_one(case, c):
    check_week(case[0], case[1], c)


def week_steps():
    return st.tuples(gen.days(), st.integers(0, 6), st.one_of(st.integers(-8, 8), st.integers(-60, 60))).map(list)


@S05.given('step', week_steps, 20000)
def s05_step(case, c):
    n, start, k = case
    check_week(n, start, c)
    y, m, d = cal.civil(n)
    w = SolarWeek.fromYmd(y, m, d, start)
    # the same week is stepped by one number and then by another
    for k in (1 - k // 3, k):
        e = n + 7 * k
        if cal.FIRST + 7 <= e <= cal.LAST - 7:
            r = w.next(k, False)
            eq(((r.getYear(), r.getMonth(), r.getDay()), r.getStart()), (cal.civil(e), start), 'week of %s stepped by %d', cal.fmt(y, m, d), k)
        f, yy, mm = segments_from(n, start, k)
        if cal.FIRST + 14 < f < cal.LAST - 14 and cal.FIRST + 14 < n < cal.LAST - 14:
            r = w.next(k, True)
            eq((ymd(r.getFirstDay()), r.getYear(), r.getMonth(), r.getStart()), (cal.civil(f), yy, mm, start),
               'week of %s starting on %d stepped by %d month-bounded weeks', cal.fmt(y, m, d), start, k)
            if k and (yy, mm) != (y, m):
                c.nt(n, start, k)
        c.ev(2)
    eq([w.getYear(), w.getMonth(), w.getDay(), w.getStart()], [y, m, d, start], 'stepping changed its receiver')
    c.sample('week step', [cal.fmt(y, m, d), start, k])


@S05.sweep('month', lambda tier, seed: (k for y in gen.year_range(tier, seed, stride=3) for k in range(12 * y, 12 * y + 12)))
def s05_month(k, c):
    y, m = k // 12, k % 12 + 1
    a = cal.jdn(y, m, 1)
    ds = cal.month_days(y, m)
    z = a + len(ds) - 1
    month = SolarMonth.fromYm(y, m)
    for start in range(7):
        count = (week_first(z, start) - week_first(a, start)) // 7 + 1
        eq(SolarUtil.getWeeksOfMonth(y, m, start), count, 'weeks of %d-%d starting on %d', y, m, start)
        if (y, m) not in ((9999, 12), (1, 1)):
            ws = month.getWeeks(start)
            eq([ymd(w.getFirstDay()) for w in ws], [cal.civil(week_first(a, start) + 7 * i) for i in range(count)], 'weeks of %d-%d starting on %d', y, m, start)
            if start == (y + m) % 7 or (y, m) == (1582, 10):
                got = [ymd(d) for w in ws for d in w.getDays() if (d.getYear(), d.getMonth()) == (y, m)]
                eq(got, [(y, m, d) for d in ds], 'days covered by the weeks of %d-%d starting on %d', y, m, start)
        for n in {a, z, a + (y * 7 + m * 3 + start) % len(ds)}:
            c.sub('week', [n, start])
        c.ev(2)
        c.nt(-1, k, start)
    if (y, m) == (1582, 10) or c.tier != 'quick':
        for n in range(a, z + 1):
            for start in range(7):
                c.sub('week', [n, start])
    if y >= 2 and m == 5:
        d = datetime.date(y, m, 9)
        w = SolarWeek.fromDate(d, 1)
        eq((w.getYear(), w.getMonth(), w.getDay()), (y, m, 9), 'week from a date')


# ------------------------------------------------------------------------------------------------ S06
S06 = Prop('S06', 'Ordering and minute differences agree with elapsed time',
           'A case is a pair of instants, half of them close together or differing in a single field. Non-trivial: the two instants differ.', [CAL])


@st.composite
def pairs(draw):
    a = draw(gen.instants())
    k = draw(st.integers(0, 5))
    if k == 0:
        b = a + draw(st.integers(-200, 200))
    elif k == 1:
        b = a + draw(st.integers(-3, 3)) * 60 + draw(st.integers(-1, 1))
    elif k == 2:
        b = a + draw(st.integers(-49, 49)) * 3600 + draw(st.integers(-61, 61))
    elif k == 3:
        b = a + draw(st.integers(-800, 800)) * cal.DAY + draw(st.integers(-86400, 86400))
    elif k == 4:
        f = list(cal.unsec(a))
        i = draw(st.integers(0, 5))
        lo, hi = ((1, 9999), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59))[i]
        f[i] = draw(st.integers(lo, hi))
        if f[2] not in cal.month_days(f[0], f[1]):
            f[2] = 1
        b = cal.sec(*f)
    else:
        b = draw(gen.instants())
    return [a, max(cal.FIRST * cal.DAY, min(b, cal.LAST * cal.DAY + 86399))]


@S06.given('pair', pairs, 40000)
def s06_pair(case, c):
    a, b = case
    sa, sb = gen.solar(a), gen.solar(b)
    for x, y, p, q in ((a, b, sa, sb), (b, a, sb, sa)):
        eq(p.isBefore(q), x < y, '%s before %s', cal.fmts(x), cal.fmts(y))
        eq(p.isAfter(q), x > y, '%s after %s', cal.fmts(x), cal.fmts(y))
        eq(p.subtractMinute(q), x // 60 - y // 60, 'minutes from %s to %s', cal.fmts(y), cal.fmts(x))
        eq(p.subtract(q), x // cal.DAY - y // cal.DAY, 'days from %s to %s', cal.fmts(y), cal.fmts(x))
    eq((sa.isBefore(sa), sa.isAfter(sa), sa.subtractMinute(sa)), (False, False, 0), 'instant %s against itself', cal.fmts(a))
    c.ev(9)
    if a != b:
        c.nt(a, b)
    fa, fb = cal.unsec(a), cal.unsec(b)
    c.cls('differs first in field %d' % next((i for i in range(6) if fa[i] != fb[i]), 6))
    c.sample('pair', [cal.fmts(a), cal.fmts(b)])


# ------------------------------------------------------------------------------------------------ S07
S07 = Prop('S07', 'Solar festivals, constellations and full renderings of every day',
           'A year case checks every day of one year. Non-trivial: a day with at least one festival, or the first or last day of a constellation.',
           [CAL, 'the festival names of the pinned tree'])
SIGNS = [((1, 20), '水瓶'), ((2, 19), '双鱼'), ((3, 21), '白羊'), ((4, 20), '金牛'), ((5, 21), '双子'), ((6, 22), '巨蟹'), ((7, 23), '狮子'), ((8, 23), '处女'),
         ((9, 23), '天秤'), ((10, 24), '天蝎'), ((11, 23), '射手'), ((12, 22), '摩羯')]


def sign(m, d):
    r = '摩羯'
    for a, n in SIGNS:
        if (m, d) >= a:
            r = n
    return r


def solar_festivals(n):
    y, m, d = cal.civil(n)
    t = ref.tables()['SolarUtil']
    w = cal.weekday(n)
    r = []
    k = '%d-%d' % (m, d)
    if k in t['FESTIVAL']:
        r.append(t['FESTIVAL'][k])
    nth = (d - 1) // 7 + 1
    last = d + 7 > cal.month_len(y, m)
    for k in ('%d-%d-%d' % (m, nth, w), '%d-0-%d' % (m, w) if last else ''):
        if k in t['WEEK_FESTIVAL']:
            r.append(t['WEEK_FESTIVAL'][k])
    return r, list(t['OTHER_FESTIVAL'].get('%d-%d' % (m, d), []))


@S07.decider('day')
def s07_day(case, c):
    n, sod = case
    y, m, d = cal.civil(n)
    s = gen.solar(n * cal.DAY + sod)
    f, o = solar_festivals(n)
    eq(s.getFestivals(), f, 'festivals of %s', cal.fmt(y, m, d))
    eq(s.getOtherFestivals(), o, 'other festivals of %s', cal.fmt(y, m, d))
    x = sign(m, d)
    eq(s.getXingZuo(), x, 'constellation of %s', cal.fmt(y, m, d))
    full = cal.fmts(n * cal.DAY + sod) + (' 闰年' if cal.is_leap(y) else '') + ' 星期' + '日一二三四五六'[cal.weekday(n)]
    full += ''.join(' (%s)' % a for a in f + o) + ' ' + x + '座'
    eq(s.toFullString(), full, 'full rendering of %s', cal.fmt(y, m, d))
    c.ev(4)
    if f or o:
        c.nt(n)
    c.cls('days with a festival by weekday', int(any(a in ref.tables()['SolarUtil']['WEEK_FESTIVAL'].values() for a in f)))


@S07.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=1))
def s07_year(y, c):
    r = gen.rng('S07', y)
    for n in range(cal.jdn(y, 1, 1), cal.jdn(y, 12, 31) + 1):
        c.sub('day', [n, r.randrange(86400)])
    c.sample('festivals', [y, solar_festivals(cal.jdn(y, 5, 12))])


# ------------------------------------------------------------------------------------------------ S08
S08 = Prop('S08', 'Holiday look-ups are exact and work-day stepping counts exactly the work days',
           'A look-up case is one day, month, year or target day; a step case is a day and a signed number of work days. Non-trivial: a look-up that '
           'finds a record, or a step over a weekend, holiday or make-up work day.', [CAL, 'the holiday records of the pinned tree'])
HOL = {tuple(int(x) for x in h[0].split('-')): h for h in ref.tables()['holidays']}
BY_TARGET = {}
for _h in ref.tables()['holidays']:
    BY_TARGET.setdefault(_h[3], []).append(_h)


def hrec(h):
    return None if h is None else [h.getDay(), h.getName(), h.isWork(), h.getTarget()]


@S08.decider('day')
def s08_day(n, c):
    y, m, d = cal.civil(n)
    want = HOL.get((y, m, d))
    text = cal.fmt(y, m, d)
    bare = text.replace('-', '')
    for h in (HolidayUtil.getHoliday(y, m, d), HolidayUtil.getHoliday(text), HolidayUtil.getHoliday(bare)):
        eq(hrec(h), want, 'holiday of %s', text)
        if h is not None:
            s = '%s %s%s %s' % (want[0], want[1], '调休' if want[2] else '', want[3])
            eq([h.toString(), str(h)], [s, s], 'rendering of a holiday')
            c.nt(n)
    got = [hrec(h) for h in HolidayUtil.getHolidaysByTarget(y, m, d)]
    eq(got, BY_TARGET.get(text, []), 'holidays belonging to %s', text)
    for t in (text, bare):
        eq([hrec(h) for h in HolidayUtil.getHolidaysByTarget(t)], BY_TARGET.get(text, []), 'holidays belonging to %s', t)
    c.ev(6)


@st.composite
def record_edit(draw):
    def day():
        return cal.fmt(*draw(st.tuples(st.integers(1000, 9999), st.integers(1, 12), st.integers(1, 28))))
    return [[day(), draw(st.sampled_from(('春节', '国庆节', '', '假期 x'))), draw(st.booleans()), day()] for _ in (0, 1)] + [draw(st.integers(0, 15)), draw(st.integers(0, 1)), draw(st.sampled_from(sorted(HOL)))]


@S08.given('record', record_edit, 800)
def s08_record(case, c):
    a, b, forms, other, known = case

    def form(s, k):
        return s.replace('-', '') if forms >> k & 1 else s

    def check(h, w, what):
        eq(hrec(h), w, '%s', what)
        s = '%s %s%s %s' % (w[0], w[1], '调休' if w[2] else '', w[3])
        eq([h.toString(), str(h)], [s, s], 'rendering of %s', what)
    h = Holiday(form(a[0], 0), a[1], a[2], form(a[3], 1))
    check(h, a, 'a record made of %r' % (a,))
    g = HolidayUtil.getHoliday(*known)
    for x in (h, g):
        x.setDay(form(b[0], 2))
        check(x, [b[0]] + hrec(x)[1:], 'a record with another day')
        x.setTarget(form(b[3], 3))
        x.setName(b[1])
        x.setWork(b[2])
        check(x, b, 'a record changed to %r' % (b,))
    eq(hrec(HolidayUtil.getHoliday(*known)), HOL[tuple(known)], 'holiday of %s after a caller changed an answer', cal.fmt(*known))
    c.ev(5)
    if forms:
        c.nt(*map(str, case))
    c.sample('record', [a, b, forms])


@S08.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=1, dense=(1990, 2040)))
def s08_year(y, c):
    recs = [h for k, h in sorted(HOL.items()) if k[0] == y]
    eq([hrec(h) for h in HolidayUtil.getHolidays(y)], recs, 'holidays of %d', y)
    for m in range(1, 13):
        want = [h for h in recs if int(h[0][5:7]) == m]
        eq([hrec(h) for h in HolidayUtil.getHolidays(y, m)], want, 'holidays of %d-%d', y, m)
        c.ev()
    if y >= 1000:
        eq([hrec(h) for h in HolidayUtil.getHolidays(str(y))], recs, 'holidays of %d', y)
        for m in range(1, 13):
            want = [h for h in recs if int(h[0][5:7]) == m]
            for t in ('%d-%02d', '%d%02d'):
                eq([hrec(h) for h in HolidayUtil.getHolidays(t % (y, m))], want, 'holidays of %s', t % (y, m))
            c.ev(2)
    a = cal.jdn(y, 1, 1)
    step = 1 if 2001 <= y <= 2030 or c.tier != 'quick' else 13
    for n in range(a + y % step, a + cal.year_days(y), step):
        c.sub('day', n)


def is_work(n):
    h = HOL.get(cal.civil(n))
    if h is not None:
        return h[2]
    return cal.weekday(n) not in (0, 6)


@st.composite
def work_steps(draw):
    if draw(st.integers(0, 3)):
        n = cal.jdn(2001, 12, 1) + draw(st.integers(0, 9300))
        if draw(st.integers(0, 1)):
            k = draw(st.sampled_from(sorted(HOL)))
            n = cal.jdn(*k) + draw(st.integers(-8, 8))
    else:
        n = draw(gen.days())
    return [n, draw(st.one_of(st.integers(-12, 12), st.integers(-70, 70))), draw(gen.SOD)]


@S08.given('workday', work_steps, 9000)
def s08_work(case, c):
    n, k, sod = case
    e = n
    rest = abs(k)
    seen = False
    while rest:
        e += 1 if k > 0 else -1
        if is_work(e):
            rest -= 1
        else:
            seen = True
        if HOL.get(cal.civil(e)):
            seen = True
    if e < cal.FIRST or e > cal.LAST:
        return
    s = gen.solar(n * cal.DAY + sod)
    r = s.next(k, True)
    eq(tup(r), cal.unsec(e * cal.DAY + sod), '%s stepped by %d work days', s.toYmd(), k)
    c.ev()
    if seen:
        c.nt(n, k)
    c.sample('workday', [s.toYmd(), k, r.toYmd()])


@S08.sweep('next-workday', lambda tier, seed: gen.year_range(tier, seed, stride=5, dense=(1900, 2100)))
def s08_next(y, c):
    """From every day of the year, one work day on or back."""
    a = cal.jdn(y, 1, 1)
    both = 1990 <= y <= 2035
    for n in range(max(a, cal.FIRST + 15), min(a + cal.year_days(y), cal.LAST - 15)):
        for k in (1, -1) if both else ((1,), (-1,))[n % 2]:
            e = n + k
            while not is_work(e):
                e += k
            s = gen.solar_day(n)
            got = s.next(k, True)
            if ymd(got) != cal.civil(e):
                eq(got.toYmd(), cal.fmt(*cal.civil(e)), '%s stepped by %d work day', s.toYmd(), k)
            c.ev()
            if e != n + k:
                c.nt(n, k)


# ------------------------------------------------------------------------------------------------ S09
S09 = Prop('S09', 'Holiday corrections behave like edits of one record per day, in any order',
           'A case is a history of correction calls (correct, append, remove, rename, several records per call) with look-ups after every call, '
           'compared with an ordered dictionary of records (a correction stays in its place, an added day comes last). Non-trivial: a history that corrects or removes an existing record, or appends a day between existing ones.',
           ['the holiday records of the pinned tree', 'at most one record per day in one call'])


S09.isolate = True
NAMES = ref.tables()['HolidayUtil']['NAMES']
EXTRA = ['我的生日', '结婚纪念日', '她的生日', '大年初一', '校庆', '停工日', '甲', '乙']


@st.composite
def fix_day(draw):
    k = draw(st.integers(0, 4))
    if k <= 1:
        y, m, d = draw(st.sampled_from(sorted(HOL)))
        if k == 1:
            y, m, d = cal.civil(cal.jdn(y, m, d) + draw(st.integers(-3, 3)))
    elif k == 2:
        y, m, d = cal.civil(cal.jdn(2001, 1, 1) + draw(st.integers(0, 11000)))
    elif k == 3:
        y, m, d = cal.civil(cal.jdn(2090, 1, 1) + draw(st.integers(0, 4000)))
    else:
        y, m, d = 2015 + draw(st.integers(0, 1)), draw(st.integers(9, 10)), draw(st.integers(1, 30))
    return cal.fmt(y, m, d).replace('-', '')


@st.composite
def fix_calls(draw):
    calls = []
    count = len(NAMES)
    used = []
    base = list(NAMES)
    if draw(st.integers(0, 7)) == 0:
        # every record of the pinned tree removed first: the names may then be fewer than the ten of the tree
        count = draw(st.integers(1, 4))
        base = EXTRA[:count]
        calls.append([list(base), ['*']])
    for _ in range(draw(st.integers(1, 6))):
        names = None
        if draw(st.integers(0, 3)) == 0 and len(base) < len(NAMES):
            names = [draw(st.sampled_from(EXTRA + NAMES)) for _ in range(count + draw(st.integers(0, 2)))]
            count = len(names)
        elif draw(st.integers(0, 3)) == 0 and len(base) >= len(NAMES):
            names = list(NAMES)
            for _ in range(draw(st.integers(0, 2))):
                names[draw(st.integers(0, len(names) - 1))] = draw(st.sampled_from(EXTRA + NAMES))
            names += EXTRA[:draw(st.integers(max(0, count - len(NAMES)), 8))]
            count = len(names)
        recs = []
        if names is None or draw(st.booleans()):
            seen = set()
            for _ in range(draw(st.integers(1, 4))):
                d = draw(st.one_of(fix_day(), st.sampled_from(used) if used else fix_day()))
                if d in seen:
                    continue
                seen.add(d)
                used.append(d)
                if draw(st.integers(0, 3)) == 0:
                    recs.append(d + '~' + draw(st.sampled_from(['0' * 9, '1' + d, '0' + d])))
                else:
                    t = draw(st.one_of(st.just(d), fix_day(), st.sampled_from(used)))
                    recs.append(d + chr(48 + draw(st.integers(0, count - 1))) + draw(st.sampled_from('01')) + t)
        calls.append([names, recs])
    return calls


def dash(s):
    return s[:4] + '-' + s[4:6] + '-' + s[6:]


@S09.given('history', fix_calls, 2400, 60000)
def s09_history(calls, c):
    names = list(NAMES)
    model = {}
    for h in ref.tables()['holidays']:
        model[h[0].replace('-', '')] = [NAMES.index(h[1]), h[2], h[3].replace('-', '')]
    touched = set()
    interesting = False
    for done, (given_names, recs) in enumerate(calls):
        if given_names is not None:
            names = given_names
        if recs == ['*']:
            recs = [d + '~0' + d for d in sorted(model)]
            model = {}
            touched.update(['20020101', '20200125', '20201008'])
            HolidayUtil.fix(list(names), ''.join(recs))
            recs = []
        for r in recs:
            d = r[:8]
            touched.add(d)
            touched.add(r[10:18]) if r[8] != '~' else None
            if d in model:
                interesting = True
                touched.add(model[d][2])
            if r[8] == '~':
                model.pop(d, None)
            else:
                if d not in model and d < '20260000':
                    interesting = True
                model[d] = [ord(r[8]) - 48, r[9] == '0', r[10:18]]
        mine = None if given_names is None else list(given_names)
        HolidayUtil.fix(mine, ''.join(recs) if recs else None)
        if mine is not None:
            # the list stays the caller's own
            mine[:] = ['x'] * (len(mine) - 1)

        def rec(d):
            n, w, t = model[d]
            return [dash(d), names[n], w, dash(t)]
        for d in sorted(touched):
            y, m, dd = int(d[:4]), int(d[4:6]), int(d[6:])
            what = 'after %d calls: ' % (done + 1)
            want = rec(d) if d in model else None
            eq(hrec(HolidayUtil.getHoliday(y, m, dd)), want, what + 'holiday of %s', dash(d))
            eq(hrec(HolidayUtil.getHoliday(dash(d))), want, what + 'holiday of %s', dash(d))
            eq([hrec(h) for h in HolidayUtil.getHolidays(y)], [rec(k) for k in model if k[:4] == d[:4]], what + 'holidays of %d', y)
            eq([hrec(h) for h in HolidayUtil.getHolidays(y, m)], [rec(k) for k in model if k[:6] == d[:6]], what + 'holidays of %d-%d', y, m)
            eq([hrec(h) for h in HolidayUtil.getHolidaysByTarget(y, m, dd)], [rec(k) for k in model if model[k][2] == d], what + 'holidays belonging to %s', dash(d))
            c.ev(5)
            # stepping by work days sees the corrected record
            n = cal.jdn(y, m, dd)
            work = model[d][1] if d in model else cal.weekday(n) not in (0, 6)
            got = ymd(gen.solar_day(n - 1).next(1, True)) == (y, m, dd)
            eq(got, work, what + 'whether %s is a work day', dash(d))
    # no other record moved
    for k in sorted(model)[::37]:
        y, m, dd = int(k[:4]), int(k[4:6]), int(k[6:])
        eq(hrec(HolidayUtil.getHoliday(y, m, dd)), rec(k), 'holiday of %s', dash(k))
    if interesting:
        c.nt(repr(calls))
    c.cls('calls', len(calls))
    c.cls('records', sum(len(r) for _, r in calls))
    c.sample('history', calls)


def hol_apply(names, model, call):
    """The names and records after one correction."""
    model = dict(model)
    for r in call[1]:
        if r[8] == '~':
            model.pop(r[:8], None)
        else:
            model[r[:8]] = (ord(r[8]) - 48, r[9] == '0', r[10:18])
    return (names if call[0] is None else call[0]), model


def hol_answer(state, q):
    """What a look-up answers: a day, the days of a month or those that belong to a target."""
    names, model = state

    def rec(d):
        n, w, t = model[d]
        return [dash(d), names[n], w, dash(t)]
    k, d = q
    if k == 0:
        return rec(d) if d in model else None
    return [rec(x) for x in model if (x[:6] == d[:6] if k == 1 else model[x][2] == d)]


def hol_ask(q):
    k, d = q
    y, m, dd = int(d[:4]), int(d[4:6]), int(d[6:])
    if k == 0:
        return hrec(HolidayUtil.getHoliday(y, m, dd))
    return [hrec(h) for h in (HolidayUtil.getHolidays(y, m) if k == 1 else HolidayUtil.getHolidaysByTarget(y, m, dd))]


@st.composite
def fix_races(draw):
    calls = [x for x in draw(fix_calls()) if x[1] != ['*']][:4]
    # a call that renames nothing below the ten names of the tree
    calls = [[x[0] if x[0] is None or len(x[0]) >= len(NAMES) else None, [r for r in x[1] if r[8] == '~' or ord(r[8]) - 48 < len(NAMES)]] for x in calls]
    days = [r[:8] for x in calls for r in x[1]] + ['20020101', '20100501', '20251011']
    for _ in range(draw(st.integers(0, 2))):
        y, m, d = draw(st.sampled_from(sorted(HOL)))
        days.append(cal.fmt(y, m, d).replace('-', ''))
    qs = [[draw(st.integers(0, 2)), d] for d in days]
    return [calls, qs, draw(st.integers(0, 10 ** 6))]


@S09.given('race', fix_races, 320, 6400)
def s09_race(case, c):
    calls, qs, seed = case
    r = gen.rng('race', seed)
    start = (list(NAMES), {h[0].replace('-', ''): (NAMES.index(h[1]), h[2], h[3].replace('-', '')) for h in ref.tables()['holidays']})
    states = [start]
    for x in calls:
        states.append(hol_apply(states[-1][0], states[-1][1], x))

    def fix(x):
        HolidayUtil.fix(None if x[0] is None else list(x[0]), ''.join(x[1]) if x[1] else None)

    def stops(f, most):
        seen = fresh.child(lambda: [[list(k), n] for k, n in fresh.lines_of(f).items()])
        spots = {}
        for k, n in r.sample(seen, min(most, len(seen))):
            spots[tuple(k)] = (r.choice([1, 2, n, 1 + r.randrange(n)]),)
        return spots

    def steps(answers, first, last, what):
        # each answer is that of one of the states, and none goes back to an earlier one
        at = first
        for q, got in answers:
            k = at
            while k <= last and hol_answer(states[k], q) != got:
                k += 1
            if k > last:
                fail('%s: %s of %s answers %r, expected one of %r', what, ('getHoliday', 'getHolidays of the month', 'getHolidaysByTarget')[q[0]], dash(q[1]), got, [hol_answer(s, q) for s in states[at:last + 1]])
            at = k
            c.ev()
    # look-ups, while other threads correct
    look = lambda: [[q, hol_ask(q)] for q in qs]  # noqa: E731
    for _ in range(2):
        spots = stops(look, len(calls))
        def looked():
            got = fresh.interleaved(look, lambda i: fix(calls[i]) if i < len(calls) else None, spots)
            for x in calls[len(got[1]) if got else 0:]:
                fix(x)
            return got, look()
        got, after = fresh.child(looked) or (None, None)
        if got is None or isinstance(got[0], str):
            fail('look-ups while another thread corrects: %r', got and got[0])
        steps(got[0], 0, len(calls), 'while another thread corrects')
        steps(after, len(calls), len(calls), 'after other threads corrected during look-ups')
    # corrections, while other threads look up or correct
    for k, x in enumerate(calls):
        def prepared(f):
            for y in calls[:k]:
                fix(y)
            return f()
        spots = fresh.child(lambda: prepared(lambda: [[list(a), b] for a, b in stops(lambda: fix(x), 6).items()]))
        spots = {tuple(a): tuple(b) for a, b in spots}
        got, after = fresh.child(lambda: prepared(lambda: [fresh.interleaved(lambda: fix(x), lambda i: look(), spots), look()])) or (None, None)
        if got is None or got[0] is not None:
            fail('correcting while another thread looks up: %r', got and got[0])
        for _, a in got[1]:
            if isinstance(a, str):
                fail('looking up while another thread corrects: %s', a)
            steps(a, k, k + 1, 'while another thread is correcting')
        steps(after, k + 1, k + 1, 'after a correction that other threads looked up during')
        if k + 1 < len(calls):
            z = calls[k + 1]
            spots = dict(list(spots.items())[:1])

            def both():
                got = fresh.interleaved(lambda: fix(x), lambda i: fix(z), spots)
                if not got[1]:
                    fix(z)
                return look()
            a = fresh.child(lambda: prepared(both))
            ends = [states[k + 2], hol_apply(*hol_apply(*states[k], z), x)]
            if a is None or not any(all(hol_answer(e, q) == got for q, got in a) for e in ends):
                fail('after two corrections at once: %r, expected %r', a, [hol_answer(ends[0], q) for q in qs])
            c.ev()
    c.nt(repr(case))
    c.sample('race', case)
