# -*- coding: utf-8 -*-
"""Lunar dates, years and months: bijection with the solar calendar, structure, navigation, validity."""
import datetime
from hypothesis import strategies as st
from .. import cal, gen, ref
from ..core import Prop, eq, fail
from lunar_python import Foto, Lunar, LunarMonth, LunarTime, LunarYear, Tao

REF = 'the lunar months of the pinned tree for the years 0 to 10000 (frozen under refdata/)'
tup = gen.tup


def lt(x):
    return x.getYear(), x.getMonth(), x.getDay(), x.getHour(), x.getMinute(), x.getSecond()


def lname(ly, lm, ld):
    return '%s年%s月%s' % (ref.year_cn(ly), ref.month_cn(lm), ref.day_cn(ld))


# ------------------------------------------------------------------------------------------------ L01
L01 = Prop('L01', 'Solar and lunar dates correspond one to one',
           'A year case converts first, last and inner days of the months of one lunar year in both directions; an instant case converts one instant, '
           'both ways and by every constructor, and steps it by days. Non-trivial: first or last day of a lunar month, a leap month, or a step to another month.',
           [REF])


def check_pair(n, sod, c):
    t = n * cal.DAY + sod
    ly, lm, ld = ref.lunar_of(n)
    f = cal.unsec(t)
    S = gen.solar(t)
    L = S.getLunar()
    eq(lt(L), (ly, lm, ld) + f[3:], 'lunar date of %s', cal.fmts(t))
    eq(tup(L.getSolar()), f, 'solar date of the lunar date of %s', cal.fmts(t))
    eq(L.toString(), lname(ly, lm, ld), 'text of the lunar date of %s', cal.fmts(t))
    eq((L.getYearInChinese(), L.getMonthInChinese(), L.getDayInChinese()), (ref.year_cn(ly), ref.month_cn(lm), ref.day_cn(ld)), 'Chinese year, month and day of %s', cal.fmts(t))
    B = Lunar.fromYmdHms(ly, lm, ld, f[3], f[4], f[5])
    eq(tup(B.getSolar()), f, 'solar date of lunar %d-%d-%d', ly, lm, ld)
    eq(lt(B), (ly, lm, ld) + f[3:], 'fields of lunar %d-%d-%d', ly, lm, ld)
    c.ev(2)
    return L


@L01.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=4, lo=0))
def l01_year(y, c):
    r = gen.rng('L01', c.seed, y)
    ks = list(ref.months_of(y))
    for k in ks:
        n = ref.M_FIRST[k]
        late = cal.civil(n)[0] != y
        ns = [n, n + ref.M_DAYS[k] - 1, n + r.randrange(ref.M_DAYS[k])]
        if late and c.tier == 'quick':
            ns = [ns[1]] if k == ks[-1] else [r.choice(ns)] if y % 3 == 0 else []
        for n in ns:
            if cal.FIRST <= n <= cal.LAST:
                L = check_pair(n, r.randrange(cal.DAY), c)
                if (n + y) % 2 and cal.civil(n)[1:] != (2, 29):
                    eq(lt(Lunar.fromDate(datetime.datetime(*tup(L.getSolar())))), lt(L), 'lunar date of a datetime on %s', cal.fmts(n * cal.DAY))
                c.nt(n)
        if ref.M_MONTH[k] < 0:
            c.cls('leap month')


@st.composite
def inst_step(draw):
    n = draw(gen.days())
    return [n, draw(gen.SOD), draw(st.one_of(st.integers(-40, 40), st.integers(-400, 400), st.integers(-20000, 20000)))]


@L01.given('instant', inst_step, 1600)
def l01_inst(case, c):
    n, sod, k = case
    L = check_pair(n, sod, c)
    f = cal.unsec(n * cal.DAY + sod)
    eq(lt(Lunar.fromSolar(gen.solar(n * cal.DAY + sod))), lt(L), 'lunar date of a solar object')
    try:
        d = datetime.datetime(*f)
    except ValueError:
        d = None
    if d is not None:
        # the wall clock counts, not the zone or the fraction of a second
        d = d.replace(microsecond=k * 7919 % 1000000, tzinfo=(None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(minutes=k * 37 % 1439 - 719)))[k % 3])
        eq(lt(Lunar.fromDate(d)), lt(L), 'lunar date of the datetime %s', d)
    ly, lm, ld = ref.lunar_of(n)
    eq(lt(Lunar.fromYmd(ly, lm, ld)), (ly, lm, ld, 0, 0, 0), 'lunar date without time')
    eq(str(L), lname(ly, lm, ld), 'str of a lunar date')
    # the same date is stepped by one number and then by another
    for k in (k, 1 - k // 2):
        m = n + k
        if cal.FIRST <= m <= cal.LAST:
            N = L.next(k)
            eq(lt(N), ref.lunar_of(m) + f[3:], 'lunar %d-%d-%d stepped by %d days', ly, lm, ld, k)
            eq(tup(N.getSolar()), cal.unsec(m * cal.DAY + sod), 'solar date of lunar %d-%d-%d stepped by %d days', ly, lm, ld, k)
            eq(lt(L), (ly, lm, ld) + f[3:], 'stepping changed its receiver')
            if ref.lunar_of(m)[:2] != (ly, lm):
                c.nt(n, k)
    if ld == 1 or lm < 0:
        c.nt(n, -1)
    c.cls('leap month' if lm < 0 else 'month')
    c.sample('instant', [cal.fmts(n * cal.DAY + sod), lname(ly, lm, ld), k])


# ------------------------------------------------------------------------------------------------ L02
L02 = Prop('L02', 'Every lunar year consists of the right months',
           'A case is one lunar year: its months, lengths, first days, leap month and total, compared with the frozen months, plus structural rules. '
           'Non-trivial: every year (a full table of twelve or thirteen months is compared); the distribution counts leap years.',
           [REF, 'the reform years 8, 23, 237 and 239 follow the historical re-numbering of months'])
ODD = {7, 8, 9, 18, 19, 22, 23, 24, 236, 237, 238, 239, 240}


@L02.sweep('year', lambda tier, seed: range(0, 10000))
def l02_year(y, c):
    Y = LunarYear.fromYear(y)
    eq(Y.getYear(), y, 'number of the year')
    ks = list(ref.months_of(y))
    ms = Y.getMonthsInYear()
    eq([m.getMonth() for m in ms], [ref.M_MONTH[k] for k in ks], 'months of lunar year %d', y)
    eq([m.getDayCount() for m in ms], [ref.M_DAYS[k] for k in ks], 'month lengths of lunar year %d', y)
    eq([cal.noon_day(m.getFirstJulianDay()) for m in ms], [ref.M_FIRST[k] for k in ks], 'first days of the months of lunar year %d', y)
    for m in ms:
        eq(m.getYear(), y, 'year of month %d of %d', m.getMonth(), y)
        eq(m.isLeap(), m.getMonth() < 0, 'leap mark of month %d of %d', m.getMonth(), y)
    total = sum(ref.M_DAYS[k] for k in ks)
    eq(Y.getDayCount(), total, 'days of lunar year %d', y)
    eq(Y.getLeapMonth(), ref.leap_month(y), 'leap month of %d', y)
    for m in list(range(1, 14)) + list(range(-13, 1)):
        M = Y.getMonth(m)
        k = ref.M_INDEX.get((y, m))
        if k is None:
            eq(M, None, 'month %d of %d does not exist', m, y)
            eq(LunarMonth.fromYm(y, m), None, 'month %d of %d does not exist', m, y)
        else:
            for M in (M, LunarMonth.fromYm(y, m)):
                eq((M.getYear(), M.getMonth(), M.getDayCount(), cal.noon_day(M.getFirstJulianDay()), M.isLeap()), (y, m, ref.M_DAYS[k], ref.M_FIRST[k], m < 0), 'month %d of %d', m, y)
    al = Y.getMonths()
    if y not in ODD and y > 0:
        k0 = ref.M_INDEX[(al[0].getYear(), al[0].getMonth())]
        eq([(m.getYear(), m.getMonth(), m.getDayCount(), cal.noon_day(m.getFirstJulianDay())) for m in al],
           [(ref.M_YEAR[k], ref.M_MONTH[k], ref.M_DAYS[k], ref.M_FIRST[k]) for k in range(k0, k0 + 15)], 'the fifteen months around lunar year %d', y)
        # the civil year lies inside
        if not (ref.M_FIRST[k0] <= cal.jdn(y, 1, 1) and cal.jdn(y, 12, 31) < ref.M_FIRST[k0 + 15]):
            fail('the months around lunar year %d do not cover the solar year' % y)
        # structure
        abs_ = [abs(m.getMonth()) for m in ms]
        nl = [m.getMonth() for m in ms if not m.isLeap()]
        if y not in (19, 8, 23, 237, 238, 239):
            eq(nl, list(range(1, 13)), 'ordinary months of lunar year %d', y)
            for i, m in enumerate(ms):
                if m.isLeap():
                    eq(abs_[i - 1], abs_[i], 'the leap month follows the month it repeats in %d', y)
            if not (353 <= total <= 355 if len(ms) == 12 else 383 <= total <= 385):
                fail('lunar year %d has %d days in %d months' % (y, total, len(ms)))
    c.ev(15)
    c.nt(y)
    c.cls('years with a leap month' if len(ms) == 13 else 'years of %d months' % len(ms))
    if len(ms) == 13:
        c.sample('leap year', [y, ref.leap_month(y)])


# ------------------------------------------------------------------------------------------------ L03
L03 = Prop('L03', 'Lunar months and years step through one seamless sequence',
           'A year case steps every month of one year by one in both directions; a step case is a month and a signed number of months split into two parts, '
           'or a year and a signed number of years. Non-trivial: the step leaves the year or touches a leap month.', [REF])
LASTK = ref.Y_START[10000]


def check_month(M, k, c):
    eq((M.getYear(), M.getMonth(), M.getDayCount(), cal.noon_day(M.getFirstJulianDay())), (ref.M_YEAR[k], ref.M_MONTH[k], ref.M_DAYS[k], ref.M_FIRST[k]),
       'month at position %d', k)
    eq(M.isLeap(), ref.M_MONTH[k] < 0, 'leap mark')
    eq(M.toString(), '%d年%s月(%d天)' % (ref.M_YEAR[k], ref.month_cn(ref.M_MONTH[k]), ref.M_DAYS[k]), 'text of the month')
    c.ev()


@L03.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=4))
def l03_year(y, c):
    ks = list(ref.months_of(y))
    for k in ks:
        M = LunarMonth.fromYm(y, ref.M_MONTH[k])
        if M is None:
            fail('month %d of %d is missing' % (ref.M_MONTH[k], y))
        check_month(M, k, c)
        if k + 1 < LASTK:
            check_month(M.next(1), k + 1, c)
        if k > ref.Y_START[0]:
            check_month(M.next(-1), k - 1, c)
        check_month(M.next(0), k, c)
    M = LunarMonth.fromYm(y, 1)
    n = len(ks)
    if y < 9999:
        check_month(M.next(n), ks[0] + n, c)
        if M.next(n).getYear() != y + 1:
            fail('%d months after the first month of %d is not in the next year' % (n, y))
    eq(LunarYear.fromYear(y).next(1).getYear(), y + 1, 'the year after %d', y)
    eq(LunarYear.fromYear(y).next(-1).getYear(), y - 1, 'the year before %d', y)
    c.nt(y)


@st.composite
def month_steps(draw):
    y = draw(gen.years(0))
    r = ref.months_of(y)
    k = draw(st.integers(r[0], r[-1]))
    if draw(st.integers(0, 2)) == 0:
        lm = [i for i in range(max(0, k - 40), min(LASTK, k + 40)) if ref.M_MONTH[i] < 0]
        if lm:
            k = draw(st.sampled_from(lm)) + draw(st.integers(-1, 1))
    a = draw(st.one_of(st.integers(-14, 14), st.integers(-14, 14), st.integers(-90, 90)))
    b = draw(st.one_of(st.integers(-14, 14), st.integers(-14, 14), st.integers(-90, 90)))
    k = max(0, min(LASTK - 1, k))
    return [k, a, b]


@L03.given('steps', month_steps, 1000)
def l03_steps(case, c):
    k, a, b = case
    M = LunarMonth.fromYm(ref.M_YEAR[k], ref.M_MONTH[k])
    check_month(M, k, c)
    if not (0 <= k + a < LASTK and 0 <= k + a + b < LASTK):
        return
    N = M.next(a)
    check_month(N, k + a, c)
    check_month(N.next(b), k + a + b, c)
    check_month(M.next(a + b), k + a + b, c)
    check_month(N.next(-a), k, c)
    check_month(M, k, c)
    y = ref.M_YEAR[k]
    Y = LunarYear.fromYear(y)
    j = max(-y, min(9999 - y, a))
    Z = Y.next(j)
    eq(Z.getYear(), y + j, 'year %d stepped by %d', y, j)
    eq(Z.getDayCount(), sum(ref.M_DAYS[i] for i in ref.months_of(y + j)), 'days of lunar year %d', y + j)
    eq(Y.getYear(), y, 'stepping changed its receiver')
    eq(Y.toString(), str(y), 'text of the year')
    eq(Y.toFullString(), '%d年' % y, 'full text of the year')
    if ref.M_YEAR[k + a] != y or ref.M_MONTH[k] < 0 or ref.M_MONTH[k + a] < 0:
        c.nt(k, a, b)
    c.cls('touches a leap month' if min(ref.M_MONTH[k], ref.M_MONTH[k + a], ref.M_MONTH[k + a + b]) < 0 else 'ordinary months')
    c.sample('steps', ['%d-%d' % (y, ref.M_MONTH[k]), a, b])


# ------------------------------------------------------------------------------------------------ L04
L04 = Prop('L04', 'Lunar dates that do not exist are rejected, existing ones accepted verbatim',
           'A case is a lunar year, month and day, a third of them existing, the others with a missing month, leap month or day; or an existing day with a time of day, in or out of range. Non-trivial: a rejected case, or an accepted leap month or 30th.',
           [REF])


@st.composite
def lunar_fields(draw):
    y = draw(gen.years(1))
    kind = draw(st.integers(0, 5))
    r = list(ref.months_of(y))
    if kind <= 1:
        k = draw(st.sampled_from(r))
        return [y, ref.M_MONTH[k], draw(st.integers(1, ref.M_DAYS[k]))]
    if kind == 2:
        k = draw(st.sampled_from(r))
        return [y, ref.M_MONTH[k], ref.M_DAYS[k] + draw(st.sampled_from([0, 1, 2]))]
    if kind == 3:
        k = draw(st.sampled_from(r))
        return [y, ref.M_MONTH[k], draw(st.integers(-2, 1))]
    if kind == 4:
        return [y, -abs(draw(st.integers(1, 12))), draw(st.integers(1, 30))]
    return [y, draw(st.sampled_from([0, 13, -13, 14, 1, 11, 12, 100])), draw(st.integers(0, 31))]


def makers(h=1, i=2, s=3):
    return [('lunar date', lambda y, m, d: Lunar.fromYmd(y, m, d)), ('lunar date with time', lambda y, m, d: Lunar.fromYmdHms(y, m, d, h, i, s)),
            ('double hour', lambda y, m, d: LunarTime.fromYmdHms(y, m, d, h, i, s)),
            ('Buddhist date', lambda y, m, d: Foto.fromYmdHms(y + 544, m, d, h, i, s).getLunar()), ('Taoist date', lambda y, m, d: Tao.fromYmdHms(y + 2697, m, d, h, i, s).getLunar()),
            ('Buddhist day', lambda y, m, d: Foto.fromYmd(y + 544, m, d).getLunar()), ('Taoist day', lambda y, m, d: Tao.fromYmd(y + 2697, m, d).getLunar()),
            ('late double hour', lambda y, m, d: LunarTime.fromYmdHms(y, m, d, 23, 30, 0))]


@L04.given('fields', lunar_fields, 5000)
def l04_fields(case, c):
    y, m, d = case
    k = ref.M_INDEX.get((y, m))
    ok = k is not None and 1 <= d <= ref.M_DAYS[k]
    if ok and y == 9999 and cal.civil(ref.day_of(y, m, d))[0] > 9999:
        return
    for name, f in makers():
        try:
            x = f(y, m, d)
        except Exception as e:
            if ok:
                fail('%s %d-%d-%d exists but was rejected: %r' % (name, y, m, d, e))
            continue
        finally:
            c.ev()
        if not ok:
            fail('%s %d-%d-%d does not exist but was accepted' % (name, y, m, d))
        if isinstance(x, Lunar):
            eq(lt(x), (y, m, d) + ((0, 0, 0) if name in ('lunar date', 'Buddhist day', 'Taoist day') else (1, 2, 3)), 'fields of lunar %d-%d-%d (%s)', y, m, d, name)
    if not ok or m < 0 or d == 30:
        c.nt(y, m, d)
    c.cls('existing' if ok else 'missing month' if k is None else 'missing day')
    c.sample('existing' if ok else 'missing', case)


@st.composite
def lunar_times(draw):
    """A lunar day that exists, with a time of day that does (four in ten) or does not."""
    k = draw(st.integers(ref.months_of(1)[0], ref.months_of(9998)[-1]))
    f = [draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59))]
    q = draw(st.integers(0, 9))
    if q >= 4:
        top = (23, 59, 59)[q % 3]
        f[q % 3] = draw(st.one_of(st.sampled_from((-1, top + 1, top + 2, 60, 99, -24)), st.integers(top + 1, top + 300), st.integers(-300, -1)))
    return [k, draw(st.integers(1, ref.M_DAYS[k]))] + f


@L04.given('time', lunar_times, 1200)
def l04_time(case, c):
    k, d, h, i, s = case
    y, m = ref.M_YEAR[k], ref.M_MONTH[k]
    ok = 0 <= h <= 23 and 0 <= i <= 59 and 0 <= s <= 59
    for name, f in makers(h, i, s):
        if name in ('lunar date', 'late double hour', 'Buddhist day', 'Taoist day'):
            continue
        what = '%s %d-%d-%d at %d:%d:%d' % (name, y, m, d, h, i, s)
        try:
            x = f(y, m, d)
        except Exception as e:
            if ok:
                fail('%s exists but was rejected: %r', what, e)
            continue
        finally:
            c.ev()
        if not ok:
            fail('%s does not exist but was accepted', what)
        if isinstance(x, Lunar):
            eq(lt(x), (y, m, d, h, i, s), 'fields of the %s', what)
    if not ok or m < 0 or d == 30:
        c.nt(*case)
    c.cls('existing time' if ok else 'time out of range')
    c.sample('time', case)

