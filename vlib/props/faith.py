# -*- coding: utf-8 -*-
"""The Buddhist and the Taoist calendar."""
from hypothesis import strategies as st
from .. import cal, gen, ref
from ..core import Prop, eq, fail
from .almanac import TABLES, XIU, ZHENG
from .pillars import TERMS, lunar_at, want
from lunar_python import Foto, Lunar, Tao
from lunar_python.FotoFestival import FotoFestival
from lunar_python.TaoFestival import TaoFestival
from lunar_python.util import FotoUtil

GZ, GAN, ZHI = ref.GZ, ref.GAN, ref.ZHI


def date_marks(ly, lm, ld, off):
    return {'getYear': ly + off, 'getMonth': lm, 'getDay': ld, 'getYearInChinese': ref.year_cn(ly + off), 'getMonthInChinese': ref.month_cn(lm), 'getDayInChinese': ref.day_cn(ld),
            'toString': '%s年%s月%s' % (ref.year_cn(ly + off), ref.month_cn(lm), ref.day_cn(ld)), '__str__': '%s年%s月%s' % (ref.year_cn(ly + off), ref.month_cn(lm), ref.day_cn(ld))}


def month_days(y, r, keys, full, hi=9999):
    """Days of lunar year y: those named by the keys, days of a leap month with the same numbers, both ends of some months, random ones."""
    days = []
    for m, d in keys:
        for s in (m, -m):
            i = ref.M_INDEX.get((y, s))
            if i is not None and d <= ref.M_DAYS[i]:
                days.append((ref.M_FIRST[i] + d - 1, s < 0))
    out = [n for n, leap in days if leap or full]
    out += r.sample([n for n, leap in days], min(16, len(days)))
    for i in ref.months_of(y):
        if full or r.randrange(3) == 0 or ref.M_MONTH[i] < 0:
            out += [ref.M_FIRST[i], ref.M_FIRST[i] + 27, ref.M_FIRST[i] + ref.M_DAYS[i] - 1, ref.M_FIRST[i] + r.randrange(ref.M_DAYS[i])]
    return sorted(set(n for n in out if cal.FIRST <= n <= cal.jdn(hi, 12, 31)))


def md_keys(*tabs):
    out = set()
    for t in tabs:
        for k in t:
            m, d = k.split('-')
            out.add((int(m), int(d)))
    return sorted(out)


# ------------------------------------------------------------------------------------------------ L26
L26 = Prop('L26', 'The Buddhist calendar: year, fasts, mansions and observances of every lunar day',
           'A year case visits days with observances, leap-month days, month ends and random days of one lunar year; a random case asks for one day and builds it again from its Buddhist date; a festival case renders one observance. '
           'Non-trivial: an observance or fast falls on the day, or it lies in a leap month.', [TABLES])

XIU27 = XIU.replace('牛', '')


def foto_fest(o):
    return {'name': o.getName(), 'result': o.getResult(), 'everyMonth': o.isEveryMonth(), 'remark': o.getRemark()}


def render_foto(f):
    return f['name'] + (' ' + f['result'] if f['result'] else '') + (' ' + f['remark'] if f['remark'] else '')


def foto_marks(n):
    F, U = ref.tables()['FotoUtil'], ref.tables()['LunarUtil']
    ly, lm, ld = ref.lunar_of(n)
    w = date_marks(ly, lm, ld, 544)
    fs = F['FESTIVAL'].get('%d-%d' % (abs(lm), ld), [])
    small = ref.M_DAYS[ref.M_INDEX[(ly, lm)]] != 30
    w['isMonthZhai'] = lm in (1, 5, 9)
    w['isDayYangGong'] = any(f['name'] == '杨公忌' for f in fs)
    w['isDayZhaiShuoWang'] = ld in (1, 15)
    w['isDayZhaiSix'] = ld in (8, 14, 15, 23, 29, 30) or ld == 28 and small
    w['isDayZhaiTen'] = ld in (1, 8, 14, 15, 18, 23, 24, 28, 29, 30)
    w['isDayZhaiGuanYin'] = '%d-%d' % (lm, ld) in F['DAY_ZHAI_GUAN_YIN']
    x = XIU27[(F['XIU_OFFSET'][abs(lm) - 1] + ld - 1) % 27]
    k = XIU.index(x)
    house = '东北西南'[k // 7]
    w.update({'getXiu': x, 'getXiuLuck': U['XIU_LUCK'][x], 'getXiuSong': U['XIU_SONG'][x], 'getZheng': ZHENG[k % 7], 'getAnimal': U['ANIMAL'][x], 'getGong': house,
              'getShou': {'东': '青龙', '北': '玄武', '西': '白虎', '南': '朱雀'}[house]})
    w['getOtherFestivals'] = F['OTHER_FESTIVAL'].get('%d-%d' % (lm, ld), [])
    # the full rendering names every observance
    w['toFullString'] = w['toString'] + ''.join(' (%s)' % f['name'] for f in fs)
    return w, fs


def check_foto(o, n, what, c):
    w, fs = foto_marks(n)
    want(o, what, w)
    got = o.getFestivals()
    eq([foto_fest(f) for f in got], fs, 'observances of %s', what)
    for f, d in zip(got, fs):
        eq((f.toString(), str(f), f.toFullString()), (d['name'], d['name'], render_foto(d)), 'rendering of an observance of %s', what)
    got.append('x')
    o.getOtherFestivals().append('x')
    eq(len(o.getFestivals()), len(fs), 'observances of %s, asked again after the caller changed the answer', what)
    eq(o.getOtherFestivals(), w['getOtherFestivals'], 'other observances of %s, asked again after the caller changed the answer', what)
    c.ev(len(w) + 1)
    if fs or w['getOtherFestivals'] or any(w[k] for k in w if k.startswith('isDay')) or w['getMonth'] < 0:
        c.nt(n)
        c.cls('leap month' if w['getMonth'] < 0 else 'with an observance or fast')
    else:
        c.cls('ordinary day')


@L26.decider('day')
def l26_day(case, c):
    n, sod = case
    L = lunar_at(n * cal.DAY + sod)
    ly, lm, ld = ref.lunar_of(n)
    o = L.getFoto()
    if o.getLunar() is not L:
        fail('the Buddhist date does not belong to its lunar date')
    check_foto(o, n, cal.fmts(n * cal.DAY + sod), c)
    h = (sod // 3600, sod // 60 % 60, sod % 60)
    for b in (Foto.fromYmd(ly + 544, lm, ld), Foto.fromYmdHms(ly + 544, lm, ld, *h), Foto.fromLunar(L)):
        eq((b.getYear(), b.getMonth(), b.getDay(), b.getLunar().getSolar().toYmd()), (ly + 544, lm, ld, cal.fmt(*cal.civil(n))), 'Buddhist date built from its numbers')
    x = Foto.fromYmdHms(ly + 544, lm, ld, *h).getLunar()
    eq((x.getHour(), x.getMinute(), x.getSecond()), h, 'time of a Buddhist date')
    x = Foto.fromYmd(ly + 544, lm, ld).getLunar()
    eq((x.getHour(), x.getMinute(), x.getSecond()), (0, 0, 0), 'time of a Buddhist date built from a day')


@L26.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=9))
def l26_year(y, c):
    F = ref.tables()['FotoUtil']
    r = gen.rng('L26', c.seed, y)
    for n in month_days(y, r, md_keys(F['FESTIVAL'], F['OTHER_FESTIVAL'], F['DAY_ZHAI_GUAN_YIN']), c.tier != 'quick'):
        c.sub('day', [n, r.choice([0, 82800, r.randrange(cal.DAY)])])


@L26.given('random', lambda: st.tuples(gen.days(), gen.SOD).map(list), 1600)
def l26_random(case, c):
    l26_day(case, c)
    c.sample('day', cal.fmts(case[0] * cal.DAY + case[1]))


@L26.sweep('table', lambda tier, seed: [[m, d] for m in list(range(1, 13)) + list(range(-12, 0)) for d in range(1, 31)])
def l26_table(md, c):
    m, d = md
    eq(FotoUtil.getXiu(m, d), XIU27[(ref.tables()['FotoUtil']['XIU_OFFSET'][abs(m) - 1] + d - 1) % 27], 'mansion of %d-%d', m, d)
    c.ev()
    if m > 0:
        # what every month has in common: new moon, full moon, the four kings' rounds
        fs = ref.tables()['FotoUtil']['FESTIVAL']
        got = [foto_fest(f) for f in FotoUtil.FESTIVAL.get('%d-%d' % (m, d), [])]
        eq(got, fs.get('%d-%d' % (m, d), []), 'observances of %d-%d', m, d)


@L26.given('festival', lambda: st.tuples(st.text(max_size=4), st.one_of(st.none(), st.text(max_size=4)), st.booleans(), st.one_of(st.none(), st.text(max_size=4))).map(list), 300)
def l26_festival(case, c):
    nm, res, every, rem = case
    o = FotoFestival(nm, res, every, rem)
    d = {'name': nm, 'result': res or '', 'everyMonth': every, 'remark': rem or ''}
    eq(foto_fest(o), d, 'parts of an observance')
    eq((o.toString(), str(o), o.toFullString()), (nm, nm, render_foto(d)), 'rendering of an observance')
    o = FotoFestival(nm)
    eq(foto_fest(o), {'name': nm, 'result': '', 'everyMonth': False, 'remark': ''}, 'parts of a plain observance')
    o = TaoFestival(nm, rem)
    eq((o.getName(), o.getRemark(), o.toString(), str(o), o.toFullString()), (nm, rem or '', nm, nm, nm + ('[%s]' % rem if rem else '')), 'rendering of a Taoist festival')
    c.ev(3)


# ------------------------------------------------------------------------------------------------ L27
L27 = Prop('L27', 'The Taoist calendar: year, festivals and days of observance',
           'A year case visits days with festivals, leap-month days, days of terms and their neighbours, days of the eight meetings and of 戊, and random days of one lunar year; a random case asks for one day and builds it again. '
           'Non-trivial: a festival or observance falls on the day, or it lies in a leap month.', [TERMS, TABLES])


def tao_marks(n, sod):
    D = ref.tables()['TaoUtil']
    y = cal.civil(n)[0]
    ly, lm, ld = ref.lunar_of(n)
    p = ref.pillars(y, n, sod)
    d, g, z = GZ[p['day']], GAN[p['day'] % 10], ZHI[p['day'] % 12]
    mz = p['month'] % 12
    k = ref.term_by_day(y, n)
    term = ref.CYCLE[k % 24] if ref.terms(y)[k - 24 * y] // cal.DAY == n else ''
    md = '%d-%d' % (lm, ld)
    w = date_marks(ly, lm, ld, 2697)
    fs = [(f['name'], f['remark']) for f in D['FESTIVAL'].get(md, [])]
    if term == '冬至':
        fs.append(('元始天尊圣诞', ''))
    if term == '夏至':
        fs.append(('灵宝天尊圣诞', ''))
    if term in D['BA_JIE']:
        fs.append((D['BA_JIE'][term], ''))
    if d in D['BA_HUI']:
        fs.append((D['BA_HUI'][d], ''))
    w['isDaySanHui'] = md in ('1-7', '7-7', '10-15')
    w['isDaySanYuan'] = md in ('1-15', '7-15', '10-15')
    w['isDayWuLa'] = md in ('1-1', '5-5', '7-7', '10-1', '12-8')
    w['isDayBaJie'] = term in ('立春', '春分', '立夏', '夏至', '立秋', '秋分', '立冬', '冬至')
    w['isDayBaHui'] = d in D['BA_HUI']
    w['isDayMingWu'] = g == '戊'
    w['isDayAnWu'] = z == '未戌辰寅午子酉申巳亥卯丑'[abs(lm) - 1]
    w['isDayWu'] = w['isDayMingWu'] or w['isDayAnWu']
    # spring 戊寅, summer 甲午, autumn 戊申, winter 甲子
    w['isDayTianShe'] = d == ('戊寅', '甲午', '戊申', '甲子')[(mz - 2) % 12 // 3]
    w['toFullString'] = '道歷%s年，天运%s年，%s月，%s日。%s月%s日，%s時。' % (
        ref.year_cn(ly + 2697), GZ[p['year']], GZ[p['month']], d, ref.month_cn(lm), ref.day_cn(ld), ZHI[p['time'] % 12])
    return w, fs


@L27.decider('day')
def l27_day(case, c):
    n, sod = case
    at = cal.fmts(n * cal.DAY + sod)
    L = lunar_at(n * cal.DAY + sod)
    o = L.getTao()
    if o.getLunar() is not L:
        fail('the Taoist date does not belong to its lunar date')
    w, fs = tao_marks(n, sod)
    want(o, at, w)
    got = o.getFestivals()
    eq([(f.getName(), f.getRemark()) for f in got], fs, 'Taoist festivals of %s', at)
    for f, (nm, rem) in zip(got, fs):
        eq((f.toString(), str(f), f.toFullString()), (nm, nm, nm + ('[%s]' % rem if rem else '')), 'rendering of a Taoist festival of %s', at)
    got.append('x')
    eq(len(o.getFestivals()), len(fs), 'Taoist festivals of %s, asked again after the caller changed the answer', at)
    ly, lm, ld = ref.lunar_of(n)
    h = (sod // 3600, sod // 60 % 60, sod % 60)
    for b in (Tao.fromYmd(ly + 2697, lm, ld), Tao.fromYmdHms(ly + 2697, lm, ld, *h), Tao.fromLunar(L)):
        eq((b.getYear(), b.getMonth(), b.getDay(), b.getLunar().getSolar().toYmd()), (ly + 2697, lm, ld, cal.fmt(*cal.civil(n))), 'Taoist date built from its numbers')
    x = Tao.fromYmdHms(ly + 2697, lm, ld, *h).getLunar()
    eq((x.getHour(), x.getMinute(), x.getSecond()), h, 'time of a Taoist date')
    x = Tao.fromYmd(ly + 2697, lm, ld).getLunar()
    eq((x.getHour(), x.getMinute(), x.getSecond()), (0, 0, 0), 'time of a Taoist date built from a day')
    c.ev(len(w) + 1)
    if fs or any(w[k] for k in w if k.startswith('isDay')) or lm < 0:
        c.nt(n)
        for k in w:
            if k.startswith('isDay') and w[k]:
                c.cls(k)
    else:
        c.cls('ordinary day')


@L27.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=5))
def l27_year(y, c):
    D = ref.tables()['TaoUtil']
    r = gen.rng('L27', c.seed, y)
    days = month_days(y, r, md_keys(D['FESTIVAL'], D['SAN_HUI'], D['SAN_YUAN'], D['WU_LA']), c.tier != 'quick')
    a = max(cal.jdn(y, 1, 1), ref.new_year(y))
    b = cal.jdn(y, 12, 31)
    for i in range(1, 26):
        d0 = ref.terms(y)[i] // cal.DAY
        days += [d0] if c.tier == 'quick' else [d0 - 1, d0, d0 + 1]
    # one day of each wanted pillar
    for g in [GZ.index(x) for x in D['BA_HUI']] + [GZ.index(x) for x in ('戊寅', '甲午', '戊申', '甲子')]:
        first = a + (g - (a - 11)) % 60
        days += list(range(first, b, 60)) if c.tier != 'quick' else [r.choice(range(first, b, 60))]
    for n in sorted(set(days)):
        if max(a, cal.FIRST) <= n <= min(b, cal.LAST) or c.tier != 'quick' and cal.FIRST <= n <= cal.LAST:
            c.sub('day', [n, r.choice([0, 82800, r.randrange(cal.DAY)])])


@L27.given('random', lambda: st.tuples(gen.days(), gen.SOD).map(list), 1600)
def l27_random(case, c):
    l27_day(case, c)
    c.sample('day', cal.fmts(case[0] * cal.DAY + case[1]))
