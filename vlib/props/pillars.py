# -*- coding: utf-8 -*-
"""Solar terms, the sexagenary pillars, and everything derived from the eight characters."""
import datetime
import json
import math
import os
import subprocess
import sys
from hypothesis import strategies as st
from .. import cal, gen, ref, reflect
from ..core import Prop, eq, fail
from lunar_python import EightChar, JieQi, Lunar, LunarYear, Solar
from lunar_python.util import LunarUtil

TERMS = 'the solar-term instants of the pinned tree (frozen under refdata/), to which the library has to agree within two seconds'
tup = gen.tup
GAN, ZHI, GZ, ANIMALS = ref.GAN, ref.ZHI, ref.GZ, ref.ANIMALS


def want(o, what, pairs):
    """Every accessor of o returns the expected value. Keys are 'name' or ('name', arg...)."""
    for k, v in pairs.items():
        name, args = (k, ()) if isinstance(k, str) else (k[0], k[1:])
        got = getattr(o, name)(*args)
        if got != v:
            fail('%s%s of %s: got %r, expected %r' % (name, args if args else '()', what, got, v))


def lunar_at(t):
    return gen.solar(t).getLunar()


def ctx_at(t):
    n, sod = divmod(t, cal.DAY)
    y = cal.civil(n)[0]
    return y, n, sod


# ------------------------------------------------------------------------------------------------ L05
L05 = Prop('L05', 'The solar terms of every year are complete, in order and at the right instants',
           'A year case compares the whole table of terms of one year (31 entries) with the frozen instants, checks order and spacing, and for a part of the years '
           'the table seen from dates at both ends of the year; a longitude case computes the sun independently. Non-trivial: every year.',
           [TERMS, 'longitudes: low-precision solar theory and a published delta-T polynomial, good to about half an hour of time over the years 1000 to 3000'])


@L05.sweep('year', lambda tier, seed: range(1, 10000))
def l05_year(y, c):
    f = ref.frozen_terms(y)
    jds = LunarYear.fromYear(y).getJieQiJulianDays()
    eq(len(jds), 31, 'number of terms of %d', y)
    lib = ref.lib_terms(y)
    for i in range(31):
        if abs(lib[i] - f[i]) > ref.TOL:
            fail('%s of %d (entry %d) falls at %s, expected %s' % (ref.IN_USE[i], y, i, cal.fmts(lib[i]), cal.fmts(f[i])))
        if abs((jds[i] + 0.5) * 86400 - lib[i]) > 1:
            fail('the instant of entry %d of %d is more than a second away from its Julian day' % (i, y))
        if i and not 14 * cal.DAY < lib[i] - lib[i - 1] < 17 * cal.DAY:
            fail('%.2f days from %s to %s in %d' % ((lib[i] - lib[i - 1]) / 86400.0, ref.IN_USE[i - 1], ref.IN_USE[i], y))
    c.ev(31)
    r = gen.rng('L05', c.seed, y)
    a, b = cal.jdn(y, 1, 1), cal.jdn(y, 12, 31)
    n = r.randint(max(a, ref.new_year(y)), b)
    ns = [n] + ([a, b] if y % 16 == c.seed % 16 or c.tier != 'quick' else [])
    if ref.lunar_of(b)[0] != y:     # the next lunar year has begun already
        ns += [b, r.randint(ref.new_year(y + 1), b)]
        c.cls('lunar year begins in December')
    for n in ns:
        L = lunar_at(n * cal.DAY + r.randrange(cal.DAY))
        tab = L.getJieQiTable()
        eq(sorted(tab), sorted(ref.IN_USE), 'names of the terms seen from %s', L.getSolar().toYmd())
        eq(list(L.getJieQiList()), list(ref.IN_USE), 'order of the terms seen from %s', L.getSolar().toYmd())
        for i, k in enumerate(ref.IN_USE):
            eq(tup(tab[k]), cal.unsec(lib[i]), '%s seen from %s', k, L.getSolar().toYmd())
        c.ev(31)
    c.nt(y)
    if y % 1111 == 0:
        c.sample('year', [y, cal.fmts(lib[4])])


def sun_longitude(jde):
    """Apparent longitude of the sun in degrees (Meeus, Astronomical Algorithms, chapter 25, low accuracy)."""
    t = (jde - 2451545.0) / 36525
    l0 = 280.46646 + 36000.76983 * t + 0.0003032 * t * t
    m = math.radians(357.52911 + 35999.05029 * t - 0.0001537 * t * t)
    c = (1.914602 - 0.004817 * t - 0.000014 * t * t) * math.sin(m) + (0.019993 - 0.000101 * t) * math.sin(2 * m) + 0.000289 * math.sin(3 * m)
    om = math.radians(125.04 - 1934.136 * t)
    return (l0 + c - 0.00569 - 0.00478 * math.sin(om)) % 360


def delta_t(y):
    """Seconds (Espenak and Meeus polynomials, simplified)."""
    if y < 500:
        u = y / 100.0
        return 10583.6 - 1014.41 * u + 33.78311 * u ** 2 - 5.952053 * u ** 3 - 0.1798452 * u ** 4 + 0.022174192 * u ** 5 + 0.0090316521 * u ** 6
    if y < 1600:
        u = (y - 1000) / 100.0
        return 1574.2 - 556.01 * u + 71.23472 * u ** 2 + 0.319781 * u ** 3 - 0.8503463 * u ** 4 - 0.005050998 * u ** 5 + 0.0083572073 * u ** 6
    if 1800 <= y <= 2050:
        return max(0.0, 62.92 + 0.32217 * (y - 2000) + 0.005589 * (y - 2000) ** 2) if y > 1975 else 30.0
    return -20 + 32 * ((y - 1820) / 100.0) ** 2


@L05.sweep('longitude', lambda tier, seed: range(1, 3001, 1 if tier != 'quick' else 3))
def l05_longitude(y, c):
    lib = ref.lib_terms(y)
    for i in range(31):
        jde = lib[i] / 86400.0 - 0.5 - 8 / 24.0 + delta_t(y) / 86400.0
        target = (255 + 15 * i) % 360
        d = (sun_longitude(jde) - target + 180) % 360 - 180
        if abs(d) > (0.02 if 1000 <= y <= 3000 else 0.06):
            fail('the sun stands at %.4f degrees at the instant of %s of %d, expected %d' % (sun_longitude(jde), ref.IN_USE[i], y, target))
        c.ev()
    c.nt(y, 1)


# ------------------------------------------------------------------------------------------------ L06
L06 = Prop('L06', 'The neighbouring and current solar terms of every instant are the right ones',
           'A year case asks for instants one second before, at and after the terms of a year, at both ends of their days and in between; a random case asks for one instant; '
           'an object case renames a term object. Non-trivial: within a day of a term.', [TERMS])


def jq(o):
    return None if o is None else (o.getName(), tup(o.getSolar()), o.isJie(), o.isQi())


def check_terms(t, c):
    y, n, sod = ctx_at(t)
    T = ref.terms(y)
    L = lunar_at(t)
    at = cal.fmts(t)

    def entry(i):
        return ref.CYCLE[i % 24], cal.unsec(T[i]), i % 2 == 0, i % 2 == 1
    for whole in (False, True):
        if whole:
            i0 = ref.term_by_day(y, n) - 24 * y
        else:
            i0 = ref.term_at(y, t) - 24 * y
        for fn, back, par in (('getPrevJieQi', 1, None), ('getPrevJie', 1, 0), ('getPrevQi', 1, 1), ('getNextJieQi', 0, None), ('getNextJie', 0, 0), ('getNextQi', 0, 1)):
            i = i0 if back else i0 + 1
            while par is not None and i % 2 != par:
                i += -1 if back else 1
            eq(jq(getattr(L, fn)(whole)), entry(i), '%s(%s) of %s', fn, whole, at)
            if not whole:
                eq(jq(getattr(L, fn)()), entry(i), '%s() of %s', fn, at)
    i = ref.term_by_day(y, n) - 24 * y
    today = T[i] // cal.DAY == n
    name = ref.CYCLE[i % 24] if today else ''
    want(L, at, {'getJieQi': name, 'getJie': name if i % 2 == 0 else '', 'getQi': name if i % 2 == 1 else ''})
    e = entry(i) if today else None
    eq(jq(L.getCurrentJieQi()), e, 'current term of %s', at)
    eq(jq(L.getCurrentJie()), e if i % 2 == 0 else None, 'current jie of %s', at)
    eq(jq(L.getCurrentQi()), e if i % 2 == 1 else None, 'current qi of %s', at)
    c.ev(14)
    if today:
        c.nt(t)
        c.cls('day of a term')
    else:
        c.cls('other day')


@L06.decider('instant')
def l06_instant(t, c):
    check_terms(t, c)


def sweep_points(prop, stride):
    tag = prop.id

    def run(y, c):
        for t in gen.points(y, gen.rng(tag, c.seed, y), c.tier != 'quick'):
            c.sub('instant', t)
    return prop.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=stride))(run)


sweep_points(L06, 6)


@L06.given('random', gen.instants, 2000)
def l06_random(t, c):
    check_terms(t, c)
    c.sample('instant', cal.fmts(t))


@L06.given('object', st.lists(st.sampled_from(ref.CYCLE + ('', '春节')), min_size=1, max_size=5), 400)
def l06_object(names, c):
    o = JieQi(names[0], Solar.fromYmd(2020, 1, 1))
    for k, nm in enumerate(names):
        if k:
            o.setName(nm)
        s = Solar.fromYmd(2020, 1, 1 + k)
        o.setSolar(s)
        i = ref.CYCLE.index(nm) if nm in ref.CYCLE else None
        want(o, 'a term object named in turn %s' % names[:k + 1], {'getName': nm, 'toString': nm, '__str__': nm, 'isJie': i is not None and i % 2 == 0, 'isQi': i is not None and i % 2 == 1,
                                                                  'getSolar': s})
        c.ev()
    if len(names) > 1:
        c.nt(*names)


# ------------------------------------------------------------------------------------------------ L07
L07 = Prop('L07', 'Year pillars turn at new year, and on the day and at the instant of 立春',
           'A year case asks for the three year pillars at the instants around the lunar new year and the start of spring (立春) of one year and at others; a random case asks for one instant. '
           'Non-trivial: the three pillars are not all equal, or the instant lies within a day of a turn.', [TERMS])


def check_year(t, c):
    y, n, sod = ctx_at(t)
    p = ref.pillars(y, n, sod)
    L = lunar_at(t)
    at = cal.fmts(t)
    d = {}
    for suf, isuf, i in (('', '', p['year']), ('ByLiChun', 'ByLiChun', p['year_lichun']), ('Exact', 'Exact', p['year_exact'])):
        d['getYearInGanZhi' + suf] = GZ[i]
        d['getYearGan' + suf] = GAN[i % 10]
        d['getYearZhi' + suf] = ZHI[i % 12]
        d['getYearShengXiao' + suf] = ANIMALS[i % 12]
        d['getYearGanIndex' + isuf] = i % 10
        d['getYearZhiIndex' + isuf] = i % 12
    d['getYearNaYin'] = ref.nayin(p['year'])
    want(L, at, d)
    e = L.getEightChar()
    i = p['year_exact']
    want(e, 'the eight characters of ' + at, {'getYear': GZ[i], 'getYearGan': GAN[i % 10], 'getYearZhi': ZHI[i % 12], 'getYearNaYin': ref.nayin(i)})
    eq(L.getBaZi()[0], GZ[i], 'first pillar of %s', at)
    c.ev()
    if len(set((p['year'], p['year_lichun'], p['year_exact']))) > 1 or min(abs(t - ref.T[24 * y + 4]), abs(n - ref.new_year(y)) * cal.DAY) < cal.DAY:
        c.nt(t)
    c.cls('pillars differ' if len(set((p['year'], p['year_lichun'], p['year_exact']))) > 1 else 'pillars agree')


@L07.decider('instant')
def l07_instant(t, c):
    check_year(t, c)


@L07.sweep('spring', lambda tier, seed: gen.year_range(tier, seed, stride=3))
def l07_spring(y, c):
    lc = ref.T[24 * y + 4]
    ny = ref.new_year(y) * cal.DAY
    d0 = lc - lc % cal.DAY
    r = gen.rng('L07', c.seed, y)
    ts = [lc - 1, lc, ny - 1, ny, r.choice([d0 - 1, d0, d0 + cal.DAY - 1, d0 + cal.DAY])]
    a, b = cal.sec(y, 1, 1), cal.sec(y, 12, 31, 23, 59, 59)
    ts += [r.randint(max(a, ny), b), b]
    if c.tier != 'quick':
        ts += [a, d0 - 1, d0, d0 + cal.DAY - 1, d0 + cal.DAY, r.randint(a, b), lc + 1, lc - 2]
    for t in ts:
        if a <= t <= b:
            c.sub('instant', t)


@L07.given('random', gen.instants, 1600)
def l07_random(t, c):
    check_year(t, c)
    c.sample('instant', cal.fmts(t))


@L07.sweep('lunar-year', lambda tier, seed: gen.year_range(tier, seed, lo=1, hi=9999, stride=4))
def l07_lunar_year(y, c):
    i = ref.gz_year(y)
    want(LunarYear.fromYear(y), 'lunar year %d' % y, {'getGanIndex': i % 10, 'getZhiIndex': i % 12, 'getGan': GAN[i % 10], 'getZhi': ZHI[i % 12], 'getGanZhi': GZ[i]})
    c.ev()
    c.nt(y, 0)


# ------------------------------------------------------------------------------------------------ L08
L08 = Prop('L08', 'Month pillars follow the solar terms and the five-tigers rule',
           'A year case asks for both month pillars at instants around the terms of one year, month turns and year ends; a random case asks for one instant. Non-trivial: the two pillars differ, or the day is that of a jie.', [TERMS])


def check_month_pillar(t, c):
    y, n, sod = ctx_at(t)
    p = ref.pillars(y, n, sod)
    L = lunar_at(t)
    at = cal.fmts(t)
    d = {}
    for suf, i in (('', p['month']), ('Exact', p['month_exact'])):
        d['getMonthInGanZhi' + suf] = GZ[i]
        d['getMonthGan' + suf] = GAN[i % 10]
        d['getMonthZhi' + suf] = ZHI[i % 12]
        d['getMonthShengXiao' + suf] = ANIMALS[i % 12]
        d['getMonthGanIndex' + suf] = i % 10
        d['getMonthZhiIndex' + suf] = i % 12
    d['getMonthNaYin'] = ref.nayin(p['month'])
    want(L, at, d)
    # five tigers: the stem of the month follows from the stem of the (exact) year and the branch of the month
    yi = p['year_exact'] % 10
    m = (p['month_exact'] % 12 - 2) % 12
    if (yi % 5 * 2 + 2 + m) % 10 != p['month_exact'] % 10:
        fail('the model breaks the five-tigers rule at %s' % at)
    i = p['month_exact']
    want(L.getEightChar(), 'the eight characters of ' + at, {'getMonth': GZ[i], 'getMonthGan': GAN[i % 10], 'getMonthZhi': ZHI[i % 12], 'getMonthNaYin': ref.nayin(i)})
    eq(L.getBaZi()[1], GZ[i], 'second pillar of %s', at)
    c.ev()
    k = ref.term_by_day(y, n)
    if p['month'] != p['month_exact']:
        c.nt(t)
        c.cls('on the day of a jie before its instant')
    elif k % 2 == 0 and ref.T[k] // cal.DAY == n:
        c.nt(t)
        c.cls('on the day of a jie after its instant')
    else:
        c.cls('other')


@L08.decider('instant')
def l08_instant(t, c):
    check_month_pillar(t, c)


sweep_points(L08, 5)


@L08.given('random', gen.instants, 1600)
def l08_random(t, c):
    check_month_pillar(t, c)
    c.sample('instant', cal.fmts(t))


# ------------------------------------------------------------------------------------------------ L09
L09 = Prop('L09', 'Day and hour pillars advance without a gap, the day turning by school',
           'A year case asks for random days of one year at random times and around 23:00 and midnight; an hour case asks for all minutes of a day; a step case compares two days. '
           'Non-trivial: an instant from 23:00 on, or within a second of a double hour\'s turn.', [])


def check_day_pillar(t, c):
    n, sod = divmod(t, cal.DAY)
    d = (n - 11) % 60
    h = sod // 3600
    dx = (d + 1) % 60 if h == 23 else d
    z = (h + 1) // 2 % 12
    tg = (dx % 5 * 2 + z) % 10
    L = lunar_at(t)
    at = cal.fmts(t)
    w = {'getDayInGanZhi': GZ[d], 'getDayGan': GAN[d % 10], 'getDayZhi': ZHI[d % 12], 'getDayGanIndex': d % 10, 'getDayZhiIndex': d % 12, 'getDayShengXiao': ANIMALS[d % 12],
         'getDayInGanZhiExact': GZ[dx], 'getDayGanExact': GAN[dx % 10], 'getDayZhiExact': ZHI[dx % 12], 'getDayGanIndexExact': dx % 10, 'getDayZhiIndexExact': dx % 12,
         'getDayInGanZhiExact2': GZ[d], 'getDayGanExact2': GAN[d % 10], 'getDayZhiExact2': ZHI[d % 12], 'getDayGanIndexExact2': d % 10, 'getDayZhiIndexExact2': d % 12,
         'getTimeInGanZhi': GAN[tg] + ZHI[z], 'getTimeGan': GAN[tg], 'getTimeZhi': ZHI[z], 'getTimeGanIndex': tg, 'getTimeZhiIndex': z, 'getTimeShengXiao': ANIMALS[z],
         'getDayNaYin': ref.nayin(d), 'getTimeNaYin': ref.nayin(ref.GZI[GAN[tg] + ZHI[z]])}
    want(L, at, w)
    e = L.getEightChar()
    tp = GAN[tg] + ZHI[z]
    for sect, i in ((2, d), (1, dx), (2, d)):
        e.setSect(sect)
        want(e, 'the eight characters (school %d) of %s' % (sect, at), {'getSect': sect, 'getDay': GZ[i], 'getDayGan': GAN[i % 10], 'getDayZhi': ZHI[i % 12], 'getDayGanIndex': i % 10, 'getDayZhiIndex': i % 12,
                                                                     'getDayNaYin': ref.nayin(i), 'getTimeNaYin': ref.nayin(ref.GZI[tp]), 'getTime': tp, 'getTimeGan': GAN[tg], 'getTimeZhi': ZHI[z]})
    eq(L.getBaZi()[2:], [GZ[d], tp], 'last pillars of %s', at)
    want(L.getTime(), 'the double hour of ' + at, {'getGanZhi': tp, 'getGan': GAN[tg], 'getZhi': ZHI[z], 'getGanIndex': tg, 'getZhiIndex': z, 'getShengXiao': ANIMALS[z], 'getNaYin': ref.nayin(ref.GZI[tp])})
    hm = '%02d:%02d' % (h, sod // 60 % 60)
    eq(LunarUtil.getTimeZhiIndex(hm), z, 'double hour of %s', hm)
    eq(LunarUtil.convertTime(hm), ZHI[z], 'double hour of %s', hm)
    hms = hm + ':%02d' % (sod % 60)
    eq((LunarUtil.getTimeZhiIndex(hms), LunarUtil.convertTime(hms)), (z, ZHI[z]), 'double hour of %s', hms)
    c.ev()
    if h == 23 or (sod + 1) % 3600 <= 1:
        c.nt(t)
    c.cls('from 23:00 on' if h == 23 else 'before 23:00')


@L09.decider('instant')
def l09_instant(t, c):
    check_day_pillar(t, c)


@L09.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=1))
def l09_year(y, c):
    r = gen.rng('L09', c.seed, y)
    a, b = max(cal.jdn(y, 1, 1), ref.new_year(y)), cal.jdn(y, 12, 31)
    ns = [r.randint(a, b) for _ in range(4)] + [b]
    if y % 8 == 0 or c.tier != 'quick':
        ns.append(r.randint(cal.jdn(y, 1, 1), b))
    for n in ns:
        for s in (r.randrange(86400), r.choice([82799, 82800, 82801, 86399, 0, 86340, 82860]), r.randrange(12) * 7200 + r.choice([3599, 3600, 3660, 3540]), 82800 + r.randrange(3600)):
            c.sub('instant', n * cal.DAY + s)


@L09.sweep('minutes', lambda tier, seed: range(24 if tier == 'quick' else 240))
def l09_minutes(k, c):
    r = gen.rng('L09m', c.seed, k)
    n = r.randint(cal.jdn(1700, 3, 1), cal.jdn(2200, 12, 1))
    y = cal.civil(n)[0]
    if n < ref.new_year(y):
        n += 60
    eq((LunarUtil.getTimeZhiIndex(None), LunarUtil.convertTime(None)), (0, ZHI[0]), 'double hour of no time')
    for m in range(1440):
        sod = m * 60 + r.choice([0, 59, r.randrange(60)])
        L = lunar_at(n * cal.DAY + sod)
        h = m // 60
        z = (h + 1) // 2 % 12
        d = (n - 11) % 60
        dx = (d + 1) % 60 if h == 23 else d
        for hm in ('%02d:%02d' % (h, m % 60), '%02d:%02d:%02d' % (h, m % 60, sod % 60)):
            eq((LunarUtil.getTimeZhiIndex(hm), LunarUtil.convertTime(hm)), (z, ZHI[z]), 'double hour of %s', hm)
        eq((L.getTimeInGanZhi(), L.getDayInGanZhiExact(), L.getDayInGanZhiExact2(), L.getDayInGanZhi()), (GAN[(dx % 5 * 2 + z) % 10] + ZHI[z], GZ[dx], GZ[d], GZ[d]), 'pillars of %s',
           cal.fmts(n * cal.DAY + sod))
        c.ev()
    c.nt(n, 1)


@L09.given('random', gen.instants, 1600)
def l09_random(t, c):
    check_day_pillar(t, c)
    c.sample('instant', cal.fmts(t))


# ------------------------------------------------------------------------------------------------ L10
L10 = Prop('L10', 'Every attribute of the eight characters follows from the four pillars',
           'A case is an instant and a school; hidden stems, elements, sounds, ten gods, life stages and their list forms are recomputed from the four pillars. Non-trivial: school 1 from 23:00 on, or a day of a jie; '
           'the distribution counts day stems.', [TERMS])
EL_G = [ref.ELEMENT[i] for i in ref.G_EL]
EL_Z = [ref.ELEMENT[i] for i in ref.Z_EL]


def four(t):
    y, n, sod = ctx_at(t)
    return ref.pillars(y, n, sod)


def check_bazi(case, c):
    t, sect = case
    p = four(t)
    L = lunar_at(t)
    e = L.getEightChar()
    if t % 2:
        # the same chart is read in the other school before
        e.setSect(3 - sect)
        for n in reflect.accessors(EightChar):
            getattr(e, n)()
    e.setSect(sect)
    at = 'the eight characters (school %d) of %s' % (sect, cal.fmts(t))
    day = p['day_exact'] if sect == 1 else p['day_exact2']
    P = {'Year': p['year_exact'], 'Month': p['month_exact'], 'Day': day, 'Time': p['time']}
    dg = day % 10
    w = {}
    lists = {'WuXing': [], 'NaYin': [], 'Gan': [], 'Zhi': []}
    for nm, i in P.items():
        g, z = i % 10, i % 12
        hid = list(ref.HIDE[ZHI[z]])
        w['get%s' % nm] = GZ[i]
        w['get%sGan' % nm] = GAN[g]
        w['get%sZhi' % nm] = ZHI[z]
        w['get%sHideGan' % nm] = hid
        w['get%sWuXing' % nm] = EL_G[g] + EL_Z[z]
        w['get%sNaYin' % nm] = ref.nayin(i)
        w['get%sShiShenGan' % nm] = '日主' if nm == 'Day' else ref.shi_shen(dg, g)
        w['get%sShiShenZhi' % nm] = [ref.shi_shen(dg, GAN.index(x)) for x in hid]
        w['get%sDiShi' % nm] = ref.di_shi(dg, z)
        w['get%sXun' % nm] = ref.xun(i)
        w['get%sXunKong' % nm] = ref.xun_kong(i)
    for k, v in w.items():
        got = getattr(e, k)()
        if (list(got) if isinstance(v, list) else got) != v:
            fail('%s of %s: got %r, expected %r' % (k, at, got, v))
    text = ' '.join(GZ[P[k]] for k in ('Year', 'Month', 'Day', 'Time'))
    want(e, at, {'toString': text, '__str__': text, 'getSect': sect})
    if e.getLunar() is not L:
        fail('the eight characters do not belong to their date')
    o = ['Year', 'Month', 'Day', 'Time']
    want(L, cal.fmts(t), {'getBaZi': [GZ[P[k]] for k in o], 'getBaZiWuXing': [w['get%sWuXing' % k] for k in o], 'getBaZiNaYin': [w['get%sNaYin' % k] for k in o],
                          'getBaZiShiShenGan': [w['get%sShiShenGan' % k] for k in o], 'getBaZiShiShenZhi': [w['get%sShiShenZhi' % k][0] for k in o],
                          'getBaZiShiShenYearZhi': w['getYearShiShenZhi'], 'getBaZiShiShenMonthZhi': w['getMonthShiShenZhi'], 'getBaZiShiShenDayZhi': w['getDayShiShenZhi'],
                          'getBaZiShiShenTimeZhi': w['getTimeShiShenZhi']})
    eq(EightChar.fromLunar(L).getDay(), GZ[p['day_exact2']], 'default school')
    c.ev()
    late = t % cal.DAY >= 82800
    if (late and sect == 1) or p['month'] != p['month_exact']:
        c.nt(t, sect)
    c.cls('day stem %s' % GAN[dg])
    c.cls('day branch %s' % ZHI[day % 12])


@L10.decider('instant')
def l10_instant(case, c):
    check_bazi(case, c)


@L10.sweep('days', lambda tier, seed: range(1080 if tier == 'quick' else 6000))
def l10_days(k, c):
    """Sixty days in a row at two times each: every day pillar with many months and hours."""
    r = gen.rng('L10', c.seed, k)
    y = r.choice([r.randint(1, 9999), r.randint(1900, 2100)])
    n = r.randint(ref.new_year(y), cal.jdn(y, 12, 31) - 60)
    for j in range(0, 60, 1 if c.tier != 'quick' else 2):
        c.sub('instant', [(n + j + k % 2) * cal.DAY + r.choice([r.randrange(86400), 82800 + r.randrange(3600)]), r.choice([1, 2])])


@L10.given('random', lambda: st.tuples(gen.instants(), st.sampled_from([1, 2])).map(list), 4000)
def l10_random(case, c):
    check_bazi(case, c)
    c.sample('case', [cal.fmts(case[0]), case[1]])


# ------------------------------------------------------------------------------------------------ L11
L11 = Prop('L11', 'Conception pillars and the palaces of life and body follow from the pillars',
           'A case is an instant and a school. Non-trivial: school 1 from 23:00 on, a palace whose count wraps past the twelfth branch, or a winter month.', [TERMS])


def check_palaces(case, c):
    t, sect = case
    p = four(t)
    L = lunar_at(t)
    e = L.getEightChar()
    if t % 2:
        # the same chart is read in the other school before
        e.setSect(3 - sect)
        for n in ('getTaiYuan', 'getTaiXi', 'getMingGong', 'getShenGong', 'getTaiXiNaYin', 'getTaiYuanNaYin', 'getMingGongNaYin', 'getShenGongNaYin'):
            getattr(e, n)()
    e.setSect(sect)
    at = 'the eight characters (school %d) of %s' % (sect, cal.fmts(t))
    m, y = p['month_exact'], p['year_exact']
    day = p['day_exact'] if sect == 1 else p['day_exact2']
    tai_yuan = GAN[(m + 1) % 10] + ZHI[(m + 3) % 12]
    # the stem five places on (the combining stem) and the branch that combines with the day branch
    tai_xi = GAN[(day % 10 + 5) % 10] + ZHI[(13 - day % 12) % 12]
    mi = (m % 12 - 2) % 12 + 1  # 寅 1 .. 丑 12
    tz = p['time'] % 12
    ti = (tz - 2) % 12 + 1
    s = mi + ti
    ming = 26 - s if s >= 14 else 14 - s
    tiger = (y % 10 + 1) * 2  # stem (1-based) one before that of 寅
    sheng = (mi + tz + 1 - 1) % 12 + 1  # hour counted from 子 as 1
    k = (mi + tz + 1) % 12  # stem offset; the twelfth place counts as none
    place = k if k else 12
    w = {'getTaiYuan': tai_yuan, 'getTaiXi': tai_xi,
         'getMingGong': GAN[(tiger + ming - 1) % 10] + ZHI[(ming + 1) % 12],
         'getShenGong': GAN[(tiger + k - 1) % 10] + ZHI[(place + 1) % 12]}
    for nm in list(w):
        # a stem and a branch of different parity form no pillar, so they have no sound (only the body palace can)
        w[nm + 'NaYin'] = ref.nayin(ref.GZI[w[nm]]) if w[nm] in ref.GZI else None
    want(e, at, w)
    c.ev()
    if (t % cal.DAY >= 82800 and sect == 1) or s >= 14 or mi >= 11:
        c.nt(t, sect)
    c.cls('palace count wraps' if s >= 14 else 'palace count below 14')


@L11.decider('instant')
def l11_instant(case, c):
    check_palaces(case, c)


@L11.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=2))
def l11_year(y, c):
    r = gen.rng('L11', c.seed, y)
    a, b = max(cal.jdn(y, 1, 1), ref.new_year(y)), cal.jdn(y, 12, 31)
    for j in range(16 if c.tier == 'quick' else 60):
        c.sub('instant', [r.randint(a, b) * cal.DAY + r.choice([r.randrange(86400), 82800 + r.randrange(3600)]), r.choice([1, 2])])
    if y % 24 == 0 or c.tier != 'quick':
        c.sub('instant', [r.randint(cal.jdn(y, 1, 1), a) * cal.DAY + r.randrange(86400), r.choice([1, 2])])
    for j in range(1, 25):
        t = ref.T[24 * y + j]
        if a * cal.DAY <= t <= b * cal.DAY and r.randrange(4) == 0:
            c.sub('instant', [t - 1, 2])
            c.sub('instant', [t, 1])


@L11.given('random', lambda: st.tuples(gen.instants(), st.sampled_from([1, 2])).map(list), 1600)
def l11_random(case, c):
    check_palaces(case, c)
    c.sample('case', [cal.fmts(case[0]), case[1]])


# ------------------------------------------------------------------------------------------------ L12
L12 = Prop('L12', 'Searching by eight characters returns matches only and finds every birth',
           'A birth case takes the eight characters of an instant and searches with a base year at or before it; a pillars case searches arbitrary pillars. Non-trivial: a birth not followed by a jie within its double hour, or any returned match.',
           [TERMS, 'the search ends at the current year of the clock', 'births whose month began before the base year, or that are followed by a jie within their double hour, may be missed'])
NOW = datetime.datetime.now().year


def search(case):
    return Solar.fromBaZi(*case)


def sound(r, pil, sect, base, c):
    last = None
    for s in r:
        y, n, sod = ctx_at(cal.sec(*tup(s)))
        p = ref.pillars(y, n, sod)
        got = (GZ[p['year_exact']], GZ[p['month_exact']], GZ[p['day_exact'] if sect == 1 else p['day_exact2']], GZ[p['time']])
        if got != tuple(pil):
            fail('searching %s (school %d, from %d) returned %s whose eight characters are %s' % (' '.join(pil), sect, base, s.toYmdHms(), ' '.join(got)))
        if y < base:
            fail('searching %s from %d returned %s' % (' '.join(pil), base, s.toYmd()))
        k = cal.sec(*tup(s))
        if last is not None and k <= last:
            fail('searching %s from %d returned %s out of order or twice' % (' '.join(pil), base, s.toYmdHms()))
        last = k
        c.ev()


@st.composite
def births(draw):
    y = draw(st.one_of(st.integers(1600, NOW), st.integers(1900, NOW), st.integers(NOW - 60, NOW), st.integers(2, NOW)))
    a, b = cal.sec(y, 1, 1), cal.sec(y, 12, 31, 23, 59, 59)
    k = draw(st.integers(0, 3))
    if k == 0:
        t = ref.T[24 * y + 2 * draw(st.integers(0, 12))] + draw(st.sampled_from([-7300, -3600, -1, 0, 5, 1200, 2400, 3600, 4800, 7300, 86400, -86400]))
    else:
        t = draw(st.integers(a // cal.DAY, b // cal.DAY)) * cal.DAY + draw(gen.SOD)
    t = max(a, min(b, t))
    base = draw(st.one_of(st.just(y), st.integers(max(1, y - 130), y)))
    if base > 1900 and draw(st.booleans()):
        base = 1900
    return [t, draw(st.sampled_from([1, 2])), base]


def pillars_of(t, sect):
    y, n, sod = ctx_at(t)
    p = ref.pillars(y, n, sod)
    return [GZ[p['year_exact']], GZ[p['month_exact']], GZ[p['day_exact'] if sect == 1 else p['day_exact2']], GZ[p['time']]]


@L12.given('birth', births, 640)
def l12_birth(case, c):
    t, sect, base = case
    pil = pillars_of(t, sect)
    r = search(pil + [sect, base])
    if base == 1900 and sect == 2:
        eq([tup(x) for x in search(pil)], [tup(x) for x in r], 'the default school and base year of the search for %s', ' '.join(pil))
    if found(r, pil, t, sect, base, c):
        c.nt(t, sect, base)
        c.cls('births found')
        c.sample('birth', [cal.fmts(t), sect, base, len(r)])


def found(r, pil, t, sect, base, c, when=''):
    """Whether the search promises to find the birth (it must then have)."""
    y, n, sod = ctx_at(t)
    sound(r, pil, sect, base, c)
    # the double hour of the birth
    h = sod // 3600
    lo = n * cal.DAY + (((h + 1) // 2) * 2 - 1) * 3600
    hi = lo + 7200
    if sect == 2 and h == 23:
        hi = lo + 3600
    if sect == 2 and h == 0:
        lo += 3600
    k = ref.term_at(y, t)
    k -= k % 2
    jie = ref.T[k]
    split = t <= ref.T[k + 2] + 2 and ref.T[k + 2] <= hi + 2 or abs(jie - t) <= 2  # a jie later in the double hour, or too close to tell
    c.ev()
    if split or cal.unsec(jie)[0] < base:
        c.cls('outside the promise')
        return False
    if not any(lo <= cal.sec(*tup(s)) < hi for s in r):
        fail('searching %s (school %d, from %d) misses the birth %s%s: %s' % (' '.join(pil), sect, base, cal.fmts(t), when, [s.toYmdHms() for s in r]))
    return True


@st.composite
def clocks(draw):
    """Births up to the year that the clock shows, while years go by."""
    y = draw(st.integers(1990, 2200))
    xs = []
    for _ in range(draw(st.integers(1, 3))):
        birth = y - draw(st.sampled_from([0, 0, 0, 1, 2, 30]))
        t = cal.sec(birth, 1, 1) + draw(st.integers(0, 364)) * cal.DAY + draw(gen.SOD)
        # the clock may have just struck the new year, or be about to
        xs.append([[y] + draw(st.sampled_from([[1, 1, 0, 0, 1], [12, 31, 23, 59, 58], [6, 15, 12, 0, 0], [2, 29 if cal.is_leap(y) else 28, 1, 2, 3]])), t, draw(st.sampled_from([1, 2])), birth - draw(st.sampled_from([0, 1, 5, 60]))])
        y += draw(st.sampled_from([1, 1, 2, 10, -1]))
    return xs


@L12.given('clock', clocks, 96, 1600)
def l12_clock(case, c):
    pils = [pillars_of(t, sect) for _, t, sect, _ in case]
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'clock.py')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                       input=json.dumps([[at, pil + [sect, base]] for (at, t, sect, base), pil in zip(case, pils)]).encode())
    if p.returncode:
        fail('searching under another clock fails: %s' % p.stderr.decode(errors='replace')[-600:])
    for (at, t, sect, base), pil, r in zip(case, pils, json.loads(p.stdout.decode())):
        if found([Solar.fromYmdHms(*x) for x in r], pil, t, sect, base, c, ' when the clock shows %d-%d-%d %d:%d:%d' % tuple(at)):
            c.nt(t, sect, base, at[0])
            c.cls('births of the very year of the clock' if cal.civil(t // cal.DAY)[0] == at[0] else 'births of earlier years')
    c.sample('clock', [[x[0], cal.fmts(x[1])] + x[2:] for x in case])


@st.composite
def pillar_sets(draw):
    y = draw(st.integers(0, 59))
    m = draw(st.integers(0, 59)) if draw(st.booleans()) else None
    if m is None:
        mz = draw(st.integers(0, 11))
        m = [i for i in range(60) if i % 12 == mz and i % 10 == (y % 5 * 2 + 2 + (mz - 2) % 12) % 10][0]
    d = draw(st.integers(0, 59))
    if draw(st.booleans()):
        t = draw(st.integers(0, 59))
    else:
        z = draw(st.integers(0, 11))
        t = ref.GZI[GAN[(d % 5 * 2 + z) % 10] + ZHI[z]]
    return [GZ[y], GZ[m], GZ[d], GZ[t], draw(st.sampled_from([1, 2])), draw(st.integers(1500, 1990))]


@L12.given('pillars', pillar_sets, 400)
def l12_pillars(case, c):
    r = search(case)
    sound(r, case[:4], case[4], case[5], c)
    c.ev()
    if r:
        c.nt(*case)
    c.cls('matches' if r else 'no match')


# ------------------------------------------------------------------------------------------------ L13
L13 = Prop('L13', 'The start of the decades is counted from birth to the right jie',
           'A case is a birth, a sex and a school. Non-trivial: the birth lies within three days of a jie or from 23:00 on, or the interval borrows a day.', [TERMS])


def add_months_clamped(y, m, k):
    return cal.add_months(y, m, k)


def step_start(t, yy, mm, dd, hh):
    """Years, then months, then days, then hours, each clamped as month stepping does."""
    n, sod = divmod(t, cal.DAY)
    y, m, d = cal.civil(n)
    d = cal.clamp_day(y + yy, m, d)
    y, m = cal.add_months(y + yy, m, mm)
    d = cal.clamp_day(y, m, d)
    return (cal.jdn(y, m, d) + dd) * cal.DAY + sod + hh * 3600


def yun_model(t, sex, sect):
    y, n, sod = ctx_at(t)
    p = ref.pillars(y, n, sod)
    yang = p['year_exact'] % 2 == 0
    fwd = yang == (sex == 1)
    T = ref.terms(y)
    i = ref.term_at(y, t) - 24 * y
    i -= i % 2
    a, b = (t, T[i + 2]) if fwd else (T[i], t)
    if sect == 2:
        mins = b // 60 - a // 60
        yy, r = divmod(mins, 4320)
        mm, r = divmod(r, 360)
        dd, r = divmod(r, 12)
        hh = r * 2
    else:
        def pos(s):
            h = s % cal.DAY // 3600
            return 11 if h == 23 else (h + 1) // 2
        # double hours, 23:00 still counted with its own day
        units = (b // cal.DAY - a // cal.DAY) * 12 + pos(b) - pos(a)
        days, u = divmod(units, 12)
        months = days * 4 + u // 3
        yy, mm = divmod(months, 12)
        dd = u % 3 * 10
        hh = 0
    return fwd, (yy, mm, dd, hh), (i, p)


def check_yun(case, c):
    t, sex, sect = case
    fwd, start, (i, p) = yun_model(t, sex, sect)
    L = lunar_at(t)
    E = L.getEightChar()
    if t % 3:
        # the same chart is asked for the other lives before, and answers for each of them
        order = [(1 - sex, sect), (sex, 3 - sect), (1 - sex, 3 - sect)]
        for s2, k2 in order[t % 2:] + order[:t % 2]:
            f2, w2, _ = yun_model(t, s2, k2)
            Y = E.getYun(s2, k2)
            eq((Y.isForward(), (Y.getStartYear(), Y.getStartMonth(), Y.getStartDay(), Y.getStartHour()), tup(Y.getStartSolar())),
               (f2, w2, cal.unsec(step_start(t, *w2))), 'direction, lengths and start of the decades of %s (%s, school %d), asked of one chart', cal.fmts(t), '男' if s2 else '女', k2)
    Y = E.getYun(sex, sect)
    at = 'the decades of %s (%s, school %d)' % (cal.fmts(t), '男' if sex else '女', sect)
    want(Y, at, {'isForward': fwd, 'getGender': sex, 'getStartYear': start[0], 'getStartMonth': start[1], 'getStartDay': start[2], 'getStartHour': start[3]})
    if Y.getLunar() is not L:
        fail('the decades do not belong to their date')
    eq(tup(Y.getStartSolar()), cal.unsec(step_start(t, *start)), 'start instant of %s', at)
    if sect == 1:
        eq(tup(L.getEightChar().getYun(sex).getStartSolar()), cal.unsec(step_start(t, *start)), 'default school of %s', at)
    c.ev()
    T = ref.T
    y = cal.civil(t // cal.DAY)[0]
    if min(abs(t - T[24 * y + i]), abs(T[24 * y + i + 2] - t)) < 3 * cal.DAY or t % cal.DAY >= 82800:
        c.nt(t, sex, sect)
    c.cls('forward' if fwd else 'backward')


@L13.decider('case')
def l13_case(case, c):
    check_yun(case, c)


@L13.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=3, hi=9980))
def l13_year(y, c):
    r = gen.rng('L13', c.seed, y)
    pts = gen.points(y, r, c.tier != 'quick')
    for t in (r.sample(pts, min(24, len(pts))) if c.tier == 'quick' else pts):
        c.sub('case', [t, r.randrange(2), 1 + r.randrange(2)])


@st.composite
def yun_cases(draw):
    return [draw(gen.instants(1, 9980)), draw(st.sampled_from([0, 1])), draw(st.sampled_from([1, 2]))]


@L13.given('random', yun_cases, 1600)
def l13_random(case, c):
    check_yun(case, c)
    c.sample('case', [cal.fmts(case[0])] + case[1:])


# ------------------------------------------------------------------------------------------------ L14
L14 = Prop('L14', 'Decades, years, months and minor cycles of a life follow the pillars in order',
           'A case is a birth, a sex, a school and the number of decades asked for; every decade with its years, minor years and months is recomputed. Non-trivial: the decades run backward, or start in the year of birth.', [TERMS])


def check_life(case, c):
    t, sex, sect, n1, n2 = case
    fwd, start, (i, p) = yun_model(t, sex, sect)
    birth = cal.civil(t // cal.DAY)[0]
    sy = cal.civil(step_start(t, *start) // cal.DAY)[0]
    L = lunar_at(t)
    E = L.getEightChar()
    if t % 5 < 3:
        # the chart is asked for another life before
        f2, w2, _ = yun_model(t, (1 - sex, sex, 1 - sex)[t % 5], (3 - sect, 3 - sect, sect)[t % 5])
        Y = E.getYun((1 - sex, sex, 1 - sex)[t % 5], (3 - sect, 3 - sect, sect)[t % 5])
        y2 = cal.civil(step_start(t, *w2) // cal.DAY)[0]
        eq([(D.getStartYear(), D.getGanZhi()) for D in Y.getDaYun(3)], [(birth, '')] + [(y2 + 10 * k - 10, GZ[(p['month_exact'] + (k if f2 else -k)) % 60]) for k in (1, 2)], 'first decades of another life of %s', cal.fmts(t))
    Y = E.getYun(sex, sect)
    if t % 2:
        # another number of decades and of years is asked of the same life before
        eq(len(Y.getDaYun(n1 % 5 + 2)), n1 % 5 + 2, 'number of decades of %s', cal.fmts(t))
    ds = Y.getDaYun() if n1 == 10 else Y.getDaYun(n1)
    at = cal.fmts(t)
    eq(len(ds), n1, 'number of decades of %s', at)
    sgn = 1 if fwd else -1
    m, tt = p['month_exact'], p['time']
    for k, D in enumerate(ds):
        a = birth if k == 0 else sy + (k - 1) * 10
        b = sy - 1 if k == 0 else a + 9
        age = a - birth + 1
        i = (m + sgn * k) % 60
        what = 'decade %d of %s' % (k, at)
        w = {'getIndex': k, 'getStartYear': a, 'getEndYear': b, 'getStartAge': age, 'getEndAge': b - birth + 1, 'getGanZhi': GZ[i] if k else ''}
        if k:
            w['getXun'] = ref.xun(i)
            w['getXunKong'] = ref.xun_kong(i)
        want(D, what, w)
        if D.getLunar() is not L:
            fail('a decade does not belong to its date')
        cnt = b - a + 1 if k == 0 else n2
        for meth, model in (('getLiuNian', lambda j: (a + j - 4) % 60), ('getXiaoYun', lambda j: (tt + sgn * (a + j - birth + 1)) % 60)):
            if t % 2 and k:
                eq(len(getattr(D, meth)(n2 % 5 + 2)), n2 % 5 + 2, 'length of %s of %s', meth, what)
            xs = getattr(D, meth)() if n2 == 10 else getattr(D, meth)(n2)
            eq(len(xs), cnt, 'length of %s of %s', meth, what)
            for j, x in enumerate(xs):
                g = model(j)
                w = {'getIndex': j, 'getYear': a + j, 'getAge': age + j}
                # the years of a life cost a table of terms for every pillar asked for, so only some are read in full
                if meth == 'getXiaoYun' or (j + k) % 5 == t % 5 or c.tier == 'replay':
                    w['getGanZhi'] = GZ[g]
                    if meth == 'getXiaoYun' or (j + k) % 10 == t % 10 or c.tier == 'replay':
                        w['getXun'] = ref.xun(g)
                        w['getXunKong'] = ref.xun_kong(g)
                want(x, '%s %d of %s' % (meth, j, what), w)
                c.ev()
                if meth == 'getLiuNian' and (j + 10 * k) % 100 == t % 100:
                    ms = x.getLiuYue()
                    eq(len(ms), 12, 'months of a year')
                    for q, M in enumerate(ms):
                        h = ref.GZI[GAN[(g % 5 * 2 + 2 + q) % 10] + ZHI[(q + 2) % 12]]
                        w = {'getIndex': q, 'getMonthInChinese': ref.MONTH_CN[q + 1], 'getGanZhi': GZ[h]}
                        if q % 4 == t % 4:
                            w['getXun'] = ref.xun(h)
                            w['getXunKong'] = ref.xun_kong(h)
                        want(M, 'month %d of the year %d of %s' % (q, a + j, at), w)
    if not fwd or sy == birth:
        c.nt(*case)
    c.cls('forward' if fwd else 'backward')
    c.cls('starts in the year of birth' if sy == birth else 'starts later')


@st.composite
def lives(draw):
    return [draw(gen.instants(1, 9980)), draw(st.sampled_from([0, 1])), draw(st.sampled_from([1, 2])), draw(st.sampled_from([10, 10, 10, 0, 1, 2, 5, 9, 11, 15])), draw(st.sampled_from([10, 10, 10, 0, 1, 3, 12, 25]))]


@L14.given('life', lives, 480)
def l14_life(case, c):
    check_life(case, c)
    c.sample('case', [cal.fmts(case[0])] + case[1:])


# ------------------------------------------------------------------------------------------------ L15
L15 = Prop('L15', 'Decads and void branches of every pillar are those of the sexagenary cycle',
           'A cycle case checks all sixty pillars; an instant case every pillar of an instant, in each variant. Non-trivial: variants of the same pillar lie in different decads, or any instant from 23:00 on.', [TERMS])


@L15.sweep('cycle', lambda tier, seed: range(60))
def l15_cycle(i, c):
    eq(LunarUtil.getXun(GZ[i]), ref.xun(i), 'decad of %s', GZ[i])
    eq(LunarUtil.getXunKong(GZ[i]), ref.xun_kong(i), 'void of %s', GZ[i])
    eq(LunarUtil.getXunIndex(GZ[i]), i // 10, 'decad number of %s', GZ[i])
    eq(LunarUtil.getJiaZiIndex(GZ[i]), i, 'place of %s', GZ[i])
    eq(LunarUtil.JIA_ZI[i], GZ[i], 'pillar %d', i)
    eq(LunarUtil.NAYIN[GZ[i]], ref.nayin(i), 'sound of %s', GZ[i])
    for bad in (GAN[i % 10] + ZHI[(i + 1) % 12], GZ[i][::-1], ''):
        eq(LunarUtil.getJiaZiIndex(bad), -1, 'place of %r', bad)
    c.ev(9)
    c.nt(i)


def check_xun(t, c):
    y, n, sod = ctx_at(t)
    p = ref.pillars(y, n, sod)
    L = lunar_at(t)
    w = {}
    for nm, k in (('Year%s', 'year'), ('Year%sByLiChun', 'year_lichun'), ('Year%sExact', 'year_exact'), ('Month%s', 'month'), ('Month%sExact', 'month_exact'), ('Day%s', 'day'), ('Day%sExact', 'day_exact'),
                  ('Day%sExact2', 'day_exact2'), ('Time%s', 'time')):
        w['get' + nm % 'Xun'] = ref.xun(p[k])
        w['get' + nm % 'XunKong'] = ref.xun_kong(p[k])
    want(L, cal.fmts(t), w)
    T = L.getTime()
    want(T, 'the double hour of ' + cal.fmts(t), {'getXun': ref.xun(p['time']), 'getXunKong': ref.xun_kong(p['time'])})
    e = L.getEightChar()
    for sect in (1, 2):
        e.setSect(sect)
        d = p['day_exact'] if sect == 1 else p['day_exact2']
        want(e, 'the eight characters (school %d) of %s' % (sect, cal.fmts(t)), {'getYearXun': ref.xun(p['year_exact']), 'getYearXunKong': ref.xun_kong(p['year_exact']), 'getMonthXun': ref.xun(p['month_exact']),
             'getMonthXunKong': ref.xun_kong(p['month_exact']), 'getDayXun': ref.xun(d), 'getDayXunKong': ref.xun_kong(d), 'getTimeXun': ref.xun(p['time']), 'getTimeXunKong': ref.xun_kong(p['time'])})
    c.ev()
    if ref.xun(p['day']) != ref.xun(p['day_exact']) or ref.xun(p['month']) != ref.xun(p['month_exact']) or ref.xun(p['year']) != ref.xun(p['year_exact']) or sod >= 82800:
        c.nt(t)
        c.cls('variants differ or late hour')
    else:
        c.cls('ordinary')


def own_xun(o, what):
    g = o.getGanZhi()
    i = ref.GZI.get(g)
    if i is None:
        if g == '' and o.getXun() == '' and o.getXunKong() == '':
            return
        fail('%s has the pillar %r' % (what, g))
    eq((o.getXun(), o.getXunKong()), (ref.xun(i), ref.xun_kong(i)), 'decad and void of %s of %s', g, what)


def life_xun(t, c):
    """The pillars of a life: decades, some of their years, minor years and months."""
    r = gen.rng('L15life', t)
    for D in lunar_at(t).getEightChar().getYun(r.randrange(2)).getDaYun():
        if D.getIndex() > 0:
            own_xun(D, 'decade %d' % D.getIndex())
        if r.randrange(4) == 0:
            for what, o in [('year', x) for x in D.getLiuNian()] + [('minor year', x) for x in D.getXiaoYun()]:
                own_xun(o, '%s %d of decade %d' % (what, o.getIndex(), D.getIndex()))
                c.ev()
            y = D.getLiuNian()
            if y:
                for o in r.choice(y).getLiuYue():
                    own_xun(o, 'month %d of a year of decade %d' % (o.getIndex(), D.getIndex()))
                    c.ev()
        c.ev()
    c.cls('lives')


@L15.decider('instant')
def l15_instant(t, c):
    check_xun(t, c)


sweep_points(L15, 20)


@L15.given('random', gen.instants, 1200)
def l15_random(t, c):
    check_xun(t, c)
    if t // 7 % 12 == 0 and 0 < cal.civil(t // cal.DAY)[0] < 9900:
        life_xun(t, c)
    c.sample('instant', cal.fmts(t))
