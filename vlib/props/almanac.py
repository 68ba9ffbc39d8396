# -*- coding: utf-8 -*-
"""The almanac of a day: stars, directions, clashes, duty gods, mansions, taboos, seasons, festivals, and the almanacs of lunar years, months and double hours."""
from hypothesis import strategies as st
from .. import cal, gen, ref
from ..core import Prop, eq, fail
from .pillars import TERMS, ctx_at, lunar_at, sweep_points, want
from lunar_python import LunarMonth, LunarTime, LunarYear, NineStar
from lunar_python.util import LunarUtil, SolarUtil

GAN, ZHI, GZ, ANIMALS = ref.GAN, ref.ZHI, ref.GZ, ref.ANIMALS
TABLES = 'the almanac tables of the pinned tree (frozen under refdata/) where no rule generates them'


def LU():
    return ref.tables()['LunarUtil']


def pos(w, name, value, *args):
    """The direction and its description."""
    w[(name,) + args] = value
    w[(name + 'Desc',) + args] = LU()['POSITION_DESC'][value]


def both(w, a, b, value):
    """An accessor and its shorter alias."""
    w[a] = value
    w[b] = value


# ------------------------------------------------------------------------------------------------ L16
L16 = Prop('L16', 'Nine stars of year, month, day and hour fly in order',
           'A star case checks one of the nine stars; a year case asks for the stars of instants around the turning days nearest the solstices, of terms and of both ends of the year; a random case asks for one instant; '
           'a calendar case compares lunar years and months. Non-trivial: within two days of a turn, solstice or change of year or month.', [TERMS, TABLES])


def year_star(y):
    """Sexagenary year y (2024 is three-green), one back a year."""
    return (2 - (y - 2024)) % 9


def month_star(year_zhi, month_zhi):
    """The month of 寅 has 8, 5 or 2; one back a month."""
    return ((7, 4, 1)[year_zhi % 3] - (month_zhi - 2) % 12) % 9


def near_jiazi(n):
    k = (n - 11) % 60
    return n - k if k < 30 else n - k + 60


def turns(y):
    t = ref.terms(y)
    return near_jiazi(ref.terms(y - 1)[13] // cal.DAY), near_jiazi(t[1] // cal.DAY), near_jiazi(t[13] // cal.DAY), near_jiazi(t[25] // cal.DAY)


def day_star(y, n):
    """Forward from one-white at the 甲子 nearest the winter solstice, back from nine-purple at the one nearest the summer solstice."""
    best = None
    for k, a in enumerate(turns(y)):
        if a <= n:
            best = (k, a)
    k, a = best
    return (n - a) % 9 if k % 2 else (8 - (n - a)) % 9


def time_star(y, n, day_zhi, time_zhi):
    t = ref.terms(y)
    fwd = t[1] // cal.DAY <= n < t[13] // cal.DAY or n >= t[25] // cal.DAY
    g = day_zhi % 3  # 0: 子卯午酉, 1: 丑辰未戌, 2: 寅巳申亥
    return ((0, 3, 6)[g] + time_zhi) % 9 if fwd else ((8, 5, 2)[g] - time_zhi) % 9


def star(o):
    return o.getIndex()


def check_stars(t, c):
    y, n, sod = ctx_at(t)
    p = ref.pillars(y, n, sod)
    L = lunar_at(t)
    at = cal.fmts(t)
    ly = ref.lunar_of(n)[0]
    yl = (ref.term_by_day(y, n) - 4) // 24
    ye = (ref.term_at(y, t) - 4) // 24
    for s, v in ((1, ly), (2, yl), (3, ye)):
        eq(star(L.getYearNineStar(s)), year_star(v), 'year star (school %d) of %s', s, at)
    eq(star(L.getYearNineStar()), year_star(yl), 'year star of %s', at)
    for s, a, b in ((1, 'year', 'month'), (2, 'year_lichun', 'month'), (3, 'year_exact', 'month_exact')):
        eq(star(L.getMonthNineStar(s)), month_star(p[a] % 12, p[b] % 12), 'month star (school %d) of %s', s, at)
    eq(star(L.getMonthNineStar()), month_star(p['year_lichun'] % 12, p['month'] % 12), 'month star of %s', at)
    eq(star(L.getDayNineStar()), day_star(y, n), 'day star of %s', at)
    want_time = time_star(y, n, p['day'] % 12, p['time'] % 12)
    eq(star(L.getTimeNineStar()), want_time, 'hour star of %s', at)
    eq(star(L.getTime().getNineStar()), want_time, 'star of the double hour of %s', at)
    c.ev()
    T = ref.terms(y)
    if min(abs(n - a) for a in turns(y)) < 3 or min(abs(n - T[i] // cal.DAY) for i in (1, 4, 13, 25)) < 3 or p['month'] != p['month_exact'] or p['year'] != p['year_lichun']:
        c.nt(t)
        c.cls('near a turn')
    else:
        c.cls('ordinary')


@L16.decider('instant')
def l16_instant(t, c):
    check_stars(t, c)


@L16.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=5))
def l16_year(y, c):
    r = gen.rng('L16', c.seed, y)
    a, b = cal.jdn(y, 1, 1), cal.jdn(y, 12, 31)
    T = ref.terms(y)
    tr = turns(y)
    days = [T[13] // cal.DAY, T[13] // cal.DAY - 1, tr[2], tr[2] - 1, b, r.randint(a + 60, b), r.choice([T[25] // cal.DAY, T[25] // cal.DAY - 1, tr[3], tr[3] - 1])]
    # days of January need the table of terms of three years each
    days += [a, tr[1] - 1, tr[1]] if c.tier != 'quick' or y % 6 == c.seed % 6 else [r.choice([a, tr[1] - 1, tr[1], a + r.randrange(40)])]
    if c.tier != 'quick':
        days += [x + k for x in tr + (T[1] // cal.DAY, T[25] // cal.DAY) for k in (-1, 0, 1)] + [r.randint(a, b) for _ in range(6)]
    for n in sorted(set(days)):
        if a <= n <= b:
            c.sub('instant', n * cal.DAY + r.choice([0, 82800, 86399, r.randrange(cal.DAY)]))
    for t in [T[i] + r.choice([-1, 0, 1]) for i in ((4, r.randrange(5, 25)) if c.tier == 'quick' else range(2, 25))]:
        c.sub('instant', t)


@L16.given('random', gen.instants, 600)
def l16_random(t, c):
    check_stars(t, c)
    c.sample('instant', cal.fmts(t))


@L16.sweep('star', lambda tier, seed: range(9))
def l16_star(i, c):
    T = ref.tables()['NineStar']
    o = NineStar.fromIndex(i)
    num = '一二三四五六七八九'[i]
    place = '坎坤震巽中乾兑艮离'[i]
    desc = LU()['POSITION_DESC'][place]
    color, el = '白黑碧绿黄白赤白紫'[i], '水土木木土金金土火'[i]
    w = {'getIndex': i, 'getNumber': num, 'getColor': color, 'getWuXing': el, 'getPosition': place, 'getPositionDesc': desc}
    for k, tab in (('getNameInXuanKong', 'NAME_XUAN_KONG'), ('getNameInBeiDou', 'NAME_BEI_DOU'), ('getNameInQiMen', 'NAME_QI_MEN'), ('getNameInTaiYi', 'NAME_TAI_YI'), ('getLuckInQiMen', 'LUCK_QI_MEN'),
                   ('getLuckInXuanKong', 'LUCK_XUAN_KONG'), ('getYinYangInQiMen', 'YIN_YANG_QI_MEN'), ('getTypeInTaiYi', 'TYPE_TAI_YI'), ('getBaMenInQiMen', 'BA_MEN_QI_MEN'), ('getSongInTaiYi', 'SONG_TAI_YI')):
        w[k] = T[tab][i]
    door = w['getBaMenInQiMen']
    w['toString'] = num + color + el + w['getNameInBeiDou']
    w['__str__'] = w['toString']
    w['toFullString'] = '%s%s%s %s(%s) %s 玄空[%s %s] 奇门[%s %s%s %s] 太乙[%s %s]' % (
        num, color, el, place, desc, w['getNameInBeiDou'], w['getNameInXuanKong'], w['getLuckInXuanKong'], w['getNameInQiMen'], w['getLuckInQiMen'], ' %s门' % door if door else '',
        w['getYinYangInQiMen'], w['getNameInTaiYi'], w['getTypeInTaiYi'])
    want(o, 'star %d' % i, w)
    c.ev()
    c.nt(i)


@L16.sweep('calendar', lambda tier, seed: gen.year_range(tier, seed, stride=5))
def l16_calendar(y, c):
    Y = LunarYear.fromYear(y)
    eq(star(Y.getNineStar()), year_star(y), 'star of the lunar year %d', y)
    for M in Y.getMonthsInYear():
        eq(star(M.getNineStar()), month_star(ref.gz_year(y) % 12, (abs(M.getMonth()) + 1) % 12), 'star of %s', M.toString())
        c.ev()
    c.nt(y, 0)


# ------------------------------------------------------------------------------------------------ L17
L17 = Prop('L17', 'Directions of the spirits of year, month, day and hour follow their pillars',
           'An instant case asks for every direction and its description in each school; a table case checks the rules on all pillars. Non-trivial: the variants of a pillar differ, or from 23:00 on.', [TERMS, TABLES])


def gan_positions(w, pre, g):
    U = LU()
    pos(w, pre + 'PositionXi', U['POSITION_XI'][g + 1])
    pos(w, pre + 'PositionYangGui', U['POSITION_YANG_GUI'][g + 1])
    pos(w, pre + 'PositionYinGui', U['POSITION_YIN_GUI'][g + 1])
    pos(w, pre + 'PositionCai', U['POSITION_CAI'][g + 1])


def fu_positions(w, pre, g):
    U = LU()
    pos(w, pre + 'PositionFu', U['POSITION_FU_2'][g + 1])
    pos(w, pre + 'PositionFu', U['POSITION_FU'][g + 1], 1)
    pos(w, pre + 'PositionFu', U['POSITION_FU_2'][g + 1], 2)


def tai_sui_month(p):
    m = (p % 12 - 2) % 12 % 4
    return {0: '艮', 2: '坤', 3: '巽'}.get(m) or LU()['POSITION_GAN'][p % 10]


def tai_sui_day(d, yz):
    # the first six days of the five decads that begin with 甲子 丙子 戊子 庚子 壬子
    if d % 12 < 6:
        return '震离中兑坎'[d // 12]
    return LU()['POSITION_TAI_SUI_YEAR'][yz % 12]


def check_positions(t, c):
    y, n, sod = ctx_at(t)
    p = ref.pillars(y, n, sod)
    L = lunar_at(t)
    U = LU()
    lm = ref.lunar_of(n)[1]
    w = {}
    g = p['day'] % 10
    gan_positions(w, 'get', g)
    gan_positions(w, 'getDay', g)
    fu_positions(w, 'getDay', g)
    pos(w, 'getPositionFu', U['POSITION_FU_2'][g + 1])
    gan_positions(w, 'getTime', p['time'] % 10)
    fu_positions(w, 'getTime', p['time'] % 10)
    for args in ((), (1,), (2,), (3,)):
        s = args[0] if args else 2
        yz = p[('year', 'year_lichun', 'year_exact')[s - 1]] % 12
        pos(w, 'getYearPositionTaiSui', U['POSITION_TAI_SUI_YEAR'][yz], *args)
        pos(w, 'getMonthPositionTaiSui', tai_sui_month(p['month_exact' if s == 3 else 'month']), *args)
        pos(w, 'getDayPositionTaiSui', tai_sui_day(p['day_exact2' if s == 2 else 'day'], yz), *args)
    w['getDayPositionTai'] = U['POSITION_TAI_DAY'][p['day']]
    w['getMonthPositionTai'] = '' if lm < 0 else U['POSITION_TAI_MONTH'][lm - 1]
    want(L, cal.fmts(t), w)
    c.ev(len(w))
    h = sod // 3600
    w = {}
    gan_positions(w, 'get', p['time'] % 10)
    fu_positions(w, 'get', p['time'] % 10)
    for T in [L.getTime()] + ([L.getTimes()[0 if h == 0 else (h + 1) // 2]] if t // 7 % 16 == 0 else []):
        want(T, 'the double hour of ' + cal.fmts(t), w)
        c.ev(len(w))
    if p['month'] != p['month_exact'] or p['year'] != p['year_exact'] or p['year_lichun'] != p['year_exact'] or sod >= 82800 or lm < 0:
        c.nt(t)
        c.cls('variants differ, late hour or leap month')
    else:
        c.cls('ordinary')


@L17.decider('instant')
def l17_instant(t, c):
    check_positions(t, c)


sweep_points(L17, 20)


@L17.sweep('calendar', lambda tier, seed: gen.year_range(tier, seed, stride=6))
def l17_calendar(y, c):
    i = ref.gz_year(y)
    w = {}
    gan_positions(w, 'get', i % 10)
    fu_positions(w, 'get', i % 10)
    pos(w, 'getPositionTaiSui', LU()['POSITION_TAI_SUI_YEAR'][i % 12])
    want(LunarYear.fromYear(y), 'the lunar year %d' % y, w)
    c.ev(len(w))
    for q in ref.months_of(y):
        m = ref.M_MONTH[q]
        M = LunarMonth.fromYm(y, m)
        g = month_gz(y, ref.M_POS[q])
        w = {}
        gan_positions(w, 'get', g % 10)
        fu_positions(w, 'get', g % 10)
        a = abs(m) % 4
        if a != 2:
            pos(w, 'getPositionTaiSui', {0: '巽', 1: '艮', 3: '坤'}[a])
        want(M, 'month %d of %d' % (m, y), w)
        c.ev(len(w))
        if m < 0:
            c.nt('month', y, m)


@L17.given('random', gen.instants, 1600)
def l17_random(t, c):
    check_positions(t, c)
    c.sample('instant', cal.fmts(t))


# ------------------------------------------------------------------------------------------------ L18
L18 = Prop('L18', 'Clashes, ill directions, duty gods and day officers follow the branches',
           'An instant case asks for every clash, ill direction, god and officer of day and double hour. Non-trivial: within a day of a term that starts a month, or from 23:00 on.', [TERMS])

ZHI_XING = '建除满平定执破危成收开闭'
TIAN_SHEN = '青龙 明堂 天刑 朱雀 金匮 天德 白虎 玉堂 天牢 玄武 司命 勾陈'.split()
YELLOW = {'青龙', '明堂', '金匮', '天德', '玉堂', '司命'}


def chong_of(w, fmt, i):
    g, z = i % 10, i % 12
    a = {'%sChong': ZHI[(z + 6) % 12], '%sChongGan': GAN[(g + 4) % 10], '%sChongGanTie': GAN[(g + 4) % 10 ^ 1], '%sChongShengXiao': ANIMALS[(z + 6) % 12]}
    a['%sChongDesc'] = '(%s%s)%s' % (a['%sChongGan'], a['%sChong'], a['%sChongShengXiao'])
    # the three harmonies 申子辰 巳酉丑 寅午戌 亥卯未 face south, east, north and west
    a['%sSha'] = '南东北西'[z % 4]
    for k, v in a.items():
        w[k % fmt] = v


def tian_shen(base_zhi, zhi):
    """The azure dragon starts at 子 in months (or days) 寅申, at 寅 in 卯酉, at 辰 in 辰戌, and so on."""
    return TIAN_SHEN[(zhi - (base_zhi - 2) % 6 * 2) % 12]


def check_gods(t, c):
    y, n, sod = ctx_at(t)
    p = ref.pillars(y, n, sod)
    L = lunar_at(t)
    w = {}
    chong_of(w, 'get', p['day'])
    chong_of(w, 'getDay', p['day'])
    chong_of(w, 'getTime', p['time'])
    w['getZhiXing'] = ZHI_XING[(p['day'] - p['month']) % 12]
    for k, b, z in (('Day', p['month'], p['day']), ('Time', p['day_exact'], p['time'])):
        s = tian_shen(b % 12, z % 12)
        w['get%sTianShen' % k] = s
        w['get%sTianShenType' % k] = '黄道' if s in YELLOW else '黑道'
        w['get%sTianShenLuck' % k] = '吉' if s in YELLOW else '凶'
    want(L, cal.fmts(t), w)
    c.ev(len(w))
    h = sod // 3600
    v = {'getTianShen': w['getTimeTianShen'], 'getTianShenType': w['getTimeTianShenType'], 'getTianShenLuck': w['getTimeTianShenLuck']}
    chong_of(v, 'get', p['time'])
    for T in [L.getTime()] + ([L.getTimes()[0 if h == 0 else (h + 1) // 2]] if t // 7 % 16 == 0 else []):
        want(T, 'the double hour of ' + cal.fmts(t), v)
        c.ev(len(v))
    k = ref.term_at(y, t)
    if min(abs(t - ref.T[k - k % 2]), abs(ref.T[k - k % 2 + 2] - t)) < cal.DAY or sod >= 82800:
        c.nt(t)
        c.cls('near a term or late hour')
    else:
        c.cls('ordinary')


@L18.decider('instant')
def l18_instant(t, c):
    check_gods(t, c)


sweep_points(L18, 14)


@L18.given('random', gen.instants, 1600)
def l18_random(t, c):
    check_gods(t, c)
    c.sample('instant', cal.fmts(t))


# ------------------------------------------------------------------------------------------------ L19
L19 = Prop('L19', 'Mansions, weekdays and the small marks of the day run in their cycles',
           'A window case walks over consecutive days, also across the reform of 1582 and both ends of the year; a random case asks for one instant. Non-trivial: the window crosses a month, a year or the reform.', [TABLES])

XIU = '角亢氐房心尾箕斗牛女虚危室壁奎娄胃昴毕觜参井鬼柳星张翼轸'
ZHENG = '木金土日月火水'
LIU_YAO = ('先胜', '友引', '先负', '佛灭', '大安', '赤口')
WEEK = '日一二三四五六'


def day_marks(n):
    U = LU()
    ly, lm, ld = ref.lunar_of(n)
    d = (n - 11) % 60
    # the mansions follow one another day by day without a break; 1984-02-02 (a Thursday) was ruled by 角
    x = XIU[(n - cal.jdn(1984, 2, 2)) % 28]
    k = XIU.index(x)
    house = '东北西南'[k // 7]
    g, z = GAN[d % 10], ZHI[d % 12]
    lu = U['LU'][g] + '命互禄'
    if z in U['LU']:
        lu += ' ' + U['LU'][z] + '命进禄'
    return {'getWeek': cal.weekday(n), 'getWeekInChinese': WEEK[cal.weekday(n)], 'getXiu': x, 'getXiuLuck': U['XIU_LUCK'][x], 'getXiuSong': U['XIU_SONG'][x], 'getZheng': ZHENG[k % 7], 'getAnimal': U['ANIMAL'][x],
            'getGong': house, 'getShou': {'东': '青龙', '北': '玄武', '西': '白虎', '南': '朱雀'}[house], 'getLiuYao': LIU_YAO[(abs(lm) + ld - 2) % 6], 'getYueXiang': U['YUE_XIANG'][ld],
            'getPengZuGan': U['PENG_ZU_GAN'][d % 10 + 1], 'getPengZuZhi': U['PENG_ZU_ZHI'][d % 12 + 1], 'getDayLu': lu,
            'getSeason': '孟仲季'[(abs(lm) - 1) % 3] + '春夏秋冬'[(abs(lm) - 1) // 3]}


@L19.decider('instant')
def l19_instant(t, c):
    n = t // cal.DAY
    L = lunar_at(t)
    want(L, cal.fmts(t), day_marks(n))
    want(L.getSolar(), cal.fmts(t), {'getWeek': cal.weekday(n), 'getWeekInChinese': WEEK[cal.weekday(n)]})
    c.ev()


@L19.sweep('window', lambda tier, seed: [n for y in gen.year_range(tier, seed, stride=11) for n in sorted({cal.jdn(y, 12, 28), cal.jdn(y, 2, 26) + seed % 300, ref.new_year(y) - 3, cal.jdn(y, 10, 3)})])
def l19_window(n0, c):
    r = gen.rng('L19', n0)
    y = cal.civil(n0)[0]
    cost = n0 < ref.new_year(y)
    span = 4 if cost else 9
    for n in range(n0, n0 + span):
        if cal.FIRST <= n <= cal.LAST:
            c.sub('instant', n * cal.DAY + r.choice([0, 82800, 86399, r.randrange(cal.DAY)]))
    a, b = cal.civil(n0), cal.civil(n0 + span - 1)
    if a[:2] != b[:2] or ref.month_index_of(n0) != ref.month_index_of(n0 + span - 1):
        c.nt(n0)


@L19.given('random', gen.instants, 1600)
def l19_random(t, c):
    c.sub('instant', t)
    n = t // cal.DAY
    if ref.lunar_of(n)[2] in (1, 29, 30) or ref.lunar_of(n)[1] < 0:
        c.nt(n)
    c.sample('instant', cal.fmts(t))


# ------------------------------------------------------------------------------------------------ L20
L20 = Prop('L20', 'Things to do and avoid and the spirits of the day follow the pillars',
           'A pair case looks up one pair of pillars (all 3600 for days and for hours, all 720 for the spirits); an instant case asks a date in each school. Non-trivial: every pair; instants near a term or late in the day.', [TERMS, TABLES])


@L20.sweep('pair', lambda tier, seed: range(60))
def l20_pair(i, c):
    D = ref.tables()
    for j in range(60):
        yi, ji = D['day_yi_ji'][GZ[i] + GZ[j]]
        eq(LunarUtil.getDayYi(GZ[i], GZ[j]), yi, 'what to do on %s in the month %s', GZ[j], GZ[i])
        eq(LunarUtil.getDayJi(GZ[i], GZ[j]), ji, 'what to avoid on %s in the month %s', GZ[j], GZ[i])
        yi, ji = D['time_yi_ji'][GZ[i] + GZ[j]]
        eq(LunarUtil.getTimeYi(GZ[i], GZ[j]), yi, 'what to do at %s on %s', GZ[j], GZ[i])
        eq(LunarUtil.getTimeJi(GZ[i], GZ[j]), ji, 'what to avoid at %s on %s', GZ[j], GZ[i])
        c.ev(4)
        c.nt(i, j)
    for m in range(1, 13):
        a, b = D['shen_sha']['%d%s' % (m, GZ[i])]
        for s in (m, -m):
            eq(LunarUtil.getDayJiShen(s, GZ[i]), a, 'good spirits of %s in month %d', GZ[i], s)
            eq(LunarUtil.getDayXiongSha(s, GZ[i]), b, 'ill spirits of %s in month %d', GZ[i], s)
        c.ev(4)


def check_taboos(t, c):
    y, n, sod = ctx_at(t)
    p = ref.pillars(y, n, sod)
    L = lunar_at(t)
    D = ref.tables()
    d = GZ[p['day']]
    w = {}
    for args in ((), (1,), (2,)):
        yi, ji = D['day_yi_ji'][GZ[p['month_exact' if args == (2,) else 'month']] + d]
        w[('getDayYi',) + args] = yi
        w[('getDayJi',) + args] = ji
    w['getTimeYi'], w['getTimeJi'] = D['time_yi_ji'][GZ[p['day_exact']] + GZ[p['time']]]
    w['getDayJiShen'], w['getDayXiongSha'] = D['shen_sha']['%d%s' % (abs(ref.lunar_of(n)[1]), d)]
    want(L, cal.fmts(t), w)
    T = L.getTime()
    want(T, 'the double hour of ' + cal.fmts(t), {'getYi': w['getTimeYi'], 'getJi': w['getTimeJi']})
    h = sod // 3600
    if t // 7 % 16 == 0:
        want(L.getTimes()[0 if h == 0 else (h + 1) // 2], 'the listed double hour of ' + cal.fmts(t), {'getYi': w['getTimeYi'], 'getJi': w['getTimeJi']})
    # what one caller does to an answer must not reach the next
    for k in ('getDayYi', 'getDayJi', 'getTimeYi', 'getTimeJi', 'getDayJiShen', 'getDayXiongSha'):
        a = getattr(L, k)()
        a.append('x')
        if 'x' in getattr(L, k)():
            fail('%s hands out a list it goes on using', k)
    c.ev(len(w) + 2)
    if p['month'] != p['month_exact'] or sod >= 82800 or ref.lunar_of(n)[1] < 0:
        c.nt(t)
        c.cls('variants differ, late hour or leap month')
    else:
        c.cls('ordinary')


@L20.decider('instant')
def l20_instant(t, c):
    check_taboos(t, c)


sweep_points(L20, 14)


@L20.given('random', gen.instants, 1600)
def l20_random(t, c):
    check_taboos(t, c)
    c.sample('instant', cal.fmts(t))


# ------------------------------------------------------------------------------------------------ L21
L21 = Prop('L21', 'Nine nines, dog days and phenologies are counted from the right terms',
           'A year case walks over the first and last day of every span (nine nines, dog days, five-day phenologies) of one year; a random case asks for one day. Non-trivial: the first or last day of a span.', [TERMS, TABLES])


def shu_jiu(y, n):
    T = ref.terms(y)
    for i in (25, 1):
        k = n - T[i] // cal.DAY
        if 0 <= k < 81:
            return '一二三四五六七八九'[k // 9] + '九', k % 9 + 1
    return None


def fu_bounds(y):
    """First days of the three spans and the day after the last."""
    T = ref.terms(y)
    a, b = T[13] // cal.DAY, T[16] // cal.DAY
    first = a + (6 - (a - 11)) % 10          # the first 庚 on or after the summer solstice
    late = b + (6 - (b - 11)) % 10           # the first 庚 on or after the start of autumn
    return first + 20, first + 30, late, late + 10


def fu(y, n):
    s = fu_bounds(y)
    for i in range(3):
        if s[i] <= n < s[i + 1]:
            return '初中末'[i] + '伏', n - s[i] + 1
    return None


def span(o):
    return None if o is None else (o.getName(), o.getIndex())


def check_spans(n, sod, c):
    y = cal.civil(n)[0]
    L = lunar_at(n * cal.DAY + sod)
    at = cal.fmts(n * cal.DAY + sod)
    for meth, model in (('getShuJiu', shu_jiu), ('getFu', fu)):
        o = getattr(L, meth)()
        w = model(y, n)
        eq(span(o), w, '%s of %s', meth, at)
        if o is not None:
            want(o, at, {'toString': w[0], '__str__': w[0], 'toFullString': '%s第%d天' % w})
            # the answer is the caller's own
            v = ('第%d' % (sod % 9), sod % 11)
            o.setName(v[0])
            o.setIndex(v[1])
            want(o, 'an answer changed by its caller', {'getName': v[0], 'getIndex': v[1], 'toString': v[0], '__str__': v[0], 'toFullString': '%s第%d天' % v})
            eq(span(getattr(L, meth)()), w, '%s of %s, asked again', meth, at)
            c.cls(meth[3:])
    k = ref.term_by_day(y, n)
    d = n - ref.terms(y)[k - 24 * y] // cal.DAY
    i = min(d // 5, 2)
    # the frozen list begins with the winter solstice, entry 1 of the table
    eq(L.getWuHou(), LU()['WU_HOU'][((k - 1) % 24 * 3 + i) % 72], 'phenology of %s', at)
    eq(L.getHou(), '%s %s' % (ref.CYCLE[k % 24], ('初候', '二候', '三候')[i]), 'part of the term of %s', at)
    c.ev()
    a, b = shu_jiu(y, n - 1) if n > cal.jdn(y, 1, 1) else None, fu(y, n - 1)
    if (shu_jiu(y, n) or fu(y, n)) and (shu_jiu(y, n) or ' ')[0] != (a or ' ')[0] or (fu(y, n) or ' ')[0] != (b or ' ')[0] or d in (0, 5, 10, 15):
        c.nt(n)


@L21.decider('day')
def l21_day(case, c):
    check_spans(case[0], case[1], c)


@L21.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=4))
def l21_year(y, c):
    r = gen.rng('L21', c.seed, y)
    T = ref.terms(y)
    a, b = cal.jdn(y, 1, 1), cal.jdn(y, 12, 31)
    s = fu_bounds(y)
    days = [x + k for x in s for k in (-1, 0)] + [s[1] + 9, s[1] + 10, T[25] // cal.DAY - 1, T[25] // cal.DAY, b]
    dz = T[1] // cal.DAY
    jan = [dz + 9 * q + k for q in range(1, 10) for k in (-1, 0)] + [a]
    ny = ref.new_year(y)
    days += [n for n in jan if n >= ny]
    jan = [n for n in jan if n < ny]
    days += jan if c.tier != 'quick' else r.sample(jan, min(2, len(jan)))
    for i in range(2, 26):
        d0 = T[i] // cal.DAY
        for k in (0, 4, 5, 9, 10, 14, 15) if c.tier != 'quick' else (r.choice([0, -1]), r.choice([4, 5]), r.choice([9, 10])):
            if d0 + k >= ny:
                days.append(d0 + k)
    for n in sorted(set(days)):
        if a <= n <= b:
            c.sub('day', [n, r.choice([0, 82800, 86399, r.randrange(cal.DAY)])])


@L21.given('random', lambda: st.tuples(gen.days(), gen.SOD).map(list), 1600)
def l21_random(case, c):
    check_spans(case[0], case[1], c)
    c.sample('day', cal.fmts(case[0] * cal.DAY + case[1]))


# ------------------------------------------------------------------------------------------------ L22
L22 = Prop('L22', 'Lunar festivals fall on the days that define them',
           'A year case visits every festival day of one lunar year, its neighbours, the last days of the year, leap-month days of the same number and the days fixed by terms; a random case asks for one day. '
           'Non-trivial: a day with a festival, or the day before or after one fixed by a term, or a leap month.', [TERMS, TABLES])

FESTIVAL = {(1, 1): '春节', (1, 15): '元宵节', (2, 2): '龙头节', (5, 5): '端午节', (7, 7): '七夕节', (8, 15): '中秋节', (9, 9): '重阳节', (12, 8): '腊八节'}


def wu_day(n):
    """The fifth 戊 day counted from day n."""
    return n + (4 - (n - 11)) % 10 + 40


def festivals_of(n):
    y = cal.civil(n)[0]
    T = ref.terms(y)
    ly, lm, ld = ref.lunar_of(n)
    fs = [FESTIVAL[(lm, ld)]] if (lm, ld) in FESTIVAL else []
    if abs(lm) == 12 and ref.lunar_of(n + 1)[0] != ly:
        fs.append('除夕')
    other = list(LU()['OTHER_FESTIVAL'].get('%d-%d' % (lm, ld), []))
    if n + 1 == T[8] // cal.DAY:
        other.append('寒食节')
    if n == wu_day(T[4] // cal.DAY):
        other.append('春社')
    if n == wu_day(T[16] // cal.DAY):
        other.append('秋社')
    return fs, other


def check_festivals(n, sod, c):
    L = lunar_at(n * cal.DAY + sod)
    fs, other = festivals_of(n)
    at = cal.fmts(n * cal.DAY + sod) + ' (%d-%d-%d)' % ref.lunar_of(n)
    got = L.getFestivals()
    eq(list(got), fs, 'festivals of %s', at)
    g2 = L.getOtherFestivals()
    eq(list(g2), other, 'other festivals of %s', at)
    got.append('x')
    g2.append('x')
    if 'x' in L.getFestivals() or 'x' in L.getOtherFestivals():
        fail('the festivals are handed out in a list that goes on being used')
    c.ev()
    if fs or other or ref.lunar_of(n)[1] < 0:
        c.nt(n)
        for f in fs + other:
            c.cls(f)


@L22.decider('day')
def l22_day(case, c):
    check_festivals(case[0], case[1], c)


@L22.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=8, hi=9998))
def l22_year(y, c):
    r = gen.rng('L22', c.seed, y)
    T = ref.terms(y)
    keys = [tuple(int(x) for x in k.split('-')) for k in LU()['OTHER_FESTIVAL']] + list(FESTIVAL)
    days = []
    leap = ref.leap_month(y)
    for m, d in keys:
        for s in (m, -m):
            i = ref.M_INDEX.get((y, s))
            if i is not None and d <= ref.M_DAYS[i]:
                days.append(ref.M_FIRST[i] + d - 1)
    if c.tier == 'quick':
        days = [n for n in days if ref.lunar_of(n)[1] < 0] + r.sample(days, 8)
    last = ref.new_year(y + 1) - 1
    days += [last, last - 1, last + 1] if c.tier != 'quick' or y % 4 == c.seed % 4 or leap == 12 else [last]
    if leap == 12:
        i = ref.M_INDEX[(y, -12)]
        days += [ref.M_FIRST[i] - 1, ref.M_FIRST[i] + 28]
    q, s1, s2 = T[8] // cal.DAY - 1, wu_day(T[4] // cal.DAY), wu_day(T[16] // cal.DAY)
    days += [q, s1, s2] + [x + k for x in (q, s1, s2) for k in ((-10, -1, 1, 10) if c.tier != 'quick' else (r.choice([-10, -1, 1, 10]),))]
    for n in sorted(set(days)):
        if cal.FIRST <= n <= cal.LAST:
            c.sub('day', [n, r.choice([0, 82800, 86399, r.randrange(cal.DAY)])])


@L22.given('random', lambda: st.tuples(gen.days(), gen.SOD).map(list), 1200)
def l22_random(case, c):
    check_festivals(case[0], case[1], c)
    c.sample('day', cal.fmts(case[0] * cal.DAY + case[1]))


# ------------------------------------------------------------------------------------------------ L23
L23 = Prop('L23', 'The almanac of a lunar year follows its pillar and its first days',
           'A year case compares every accessor of one lunar year. Non-trivial: every year; the classes count eras and periods.', [TABLES])

ZAO = (('getTouLiang', 0, '%s鼠偷粮'), ('getCaoZi', 0, '草子%s分'), ('getGengTian', 1, '%s牛耕田'), ('getHuaShou', 3, '花收%s分'), ('getZhiShui', 4, '%s龙治水'), ('getTuoGu', 6, '%s马驮谷'), ('getQiangMi', 9, '%s鸡抢米'),
       ('getKanCan', 9, '%s姑看蚕'), ('getGongZhu', 11, '%s屠共猪'))
NUM = ('〇', '一', '二', '三', '四', '五', '六', '七', '八', '九', '十', '十一', '十二')


@L23.sweep('year', lambda tier, seed: range(0, 10000))
def l23_year(y, c):
    Y = LunarYear.fromYear(y)
    i = ref.gz_year(y)
    w = {'getYear': y, 'getGanIndex': i % 10, 'getZhiIndex': i % 12, 'getGan': GAN[i % 10], 'getZhi': ZHI[i % 12], 'getGanZhi': GZ[i], 'toString': str(y), '__str__': str(y), 'toFullString': '%d年' % y}
    k = (y - 1864) // 60 % 3
    w['getYuan'] = '上中下'[k] + '元'
    w['getYun'] = '一二三四五六七八九'[(y - 1864) // 20 % 9] + '运'
    gan_positions(w, 'get', i % 10)
    fu_positions(w, 'get', i % 10)
    pos(w, 'getPositionTaiSui', LU()['POSITION_TAI_SUI_YEAR'][i % 12])
    d = (ref.M_FIRST[ref.M_INDEX[(y, 1)]] - 11) % 60

    def zhi(j):
        return NUM[(j - d) % 12 + 1]

    def gan(j):
        return NUM[(j - d) % 10 + 1]
    for nm, j, f in ZAO:
        w[nm] = f % zhi(j)
    w['getJiaTian'] = '甲田%s分' % gan(0)
    w['getFenBing'] = '%s人分饼' % gan(2)
    w['getDeJin'] = '%s日得金' % gan(7)
    w['getRenBing'] = '%s人%s丙' % (zhi(2), gan(2))
    w['getRenChu'] = '%s人%s锄' % (zhi(2), gan(3))
    want(Y, 'the lunar year %d' % y, w)
    c.ev(len(w))
    c.nt(y)
    c.cls(w['getYuan'] + w['getYun'])
    if y % 997 == 0:
        c.sample('year', [y, w['getGengTian'], w['getZhiShui']])


# ------------------------------------------------------------------------------------------------ L24
L24 = Prop('L24', 'The almanac of a lunar month follows its place and its year',
           'A year case compares every accessor of every month of one lunar year. Non-trivial: a leap month, or a month after it.', [TERMS, TABLES])


def month_gz(y, i):
    """Pillar of the i-th month of the year: the first is 寅, its stem by the rule of the five tigers."""
    g = ref.gz_year(y) % 5 * 2 + 2 + i - 1
    return ref.GZI[GAN[g % 10] + ZHI[(i + 1) % 12]]


@L24.sweep('year', lambda tier, seed: [0] + gen.year_range(tier, seed, stride=1))
def l24_year(y, c):
    for q in ref.months_of(y):
        m, i = ref.M_MONTH[q], ref.M_POS[q]
        M = LunarMonth.fromYm(y, m)
        if M is None:
            fail('month %d of %d is missing', m, y)
        g = month_gz(y, i)
        w = {'getYear': y, 'getMonth': m, 'getIndex': i, 'getGanIndex': g % 10, 'getZhiIndex': g % 12, 'getGan': GAN[g % 10], 'getZhi': ZHI[g % 12], 'getGanZhi': GZ[g], 'isLeap': m < 0, 'getDayCount': ref.M_DAYS[q],
             'toString': '%d年%s月(%d天)' % (y, ref.month_cn(m), ref.M_DAYS[q])}
        w['__str__'] = w['toString']
        gan_positions(w, 'get', g % 10)
        fu_positions(w, 'get', g % 10)
        a = abs(m) % 4
        if a == 2:
            n = ref.M_FIRST[q]
            if c.tier == 'quick' and q % 3 != c.seed % 3 or not cal.FIRST <= n <= cal.LAST:
                p = None
            else:
                # the month pillar of the first day of the lunar month
                k = ref.term_by_day(cal.civil(n)[0], n)
                p = LU()['POSITION_GAN'][(k // 2 - 2 - 46) % 10]
        else:
            p = {0: '巽', 1: '艮', 3: '坤'}[a]
        if p:
            pos(w, 'getPositionTaiSui', p)
        want(M, 'month %d of %d' % (m, y), w)
        c.ev(len(w))
        if m < 0 or i != abs(m):
            c.nt(y, m)
            c.cls('leap month' if m < 0 else 'after the leap month')
        else:
            c.cls('before any leap month')
    if y % 997 == 0:
        c.sample('year', [y, [ref.M_MONTH[q] for q in ref.months_of(y)]])


# ------------------------------------------------------------------------------------------------ L25
L25 = Prop('L25', 'Double hours: thirteen a day, each with its own pillar, bounds and almanac',
           'A day case takes all thirteen double hours of a date; an instant case the one that contains the instant. Non-trivial: hours 0 and 23, which belong to different days.', [TABLES])


def check_hour(T, n, sod, what, c):
    h = sod // 3600
    z = (h + 1) // 2 % 12
    d = (n - 11 + (h == 23)) % 60
    i = ref.GZI[GAN[(d % 5 * 2 + z) % 10] + ZHI[z]]
    w = {'getGan': GAN[i % 10], 'getZhi': ZHI[z], 'getGanZhi': GZ[i], 'toString': GZ[i], '__str__': GZ[i], 'getGanIndex': i % 10, 'getZhiIndex': z, 'getShengXiao': ANIMALS[z], 'getNaYin': ref.nayin(i), 'getXun': ref.xun(i),
         'getXunKong': ref.xun_kong(i)}
    gan_positions(w, 'get', i % 10)
    fu_positions(w, 'get', i % 10)
    chong_of(w, 'get', i)
    s = tian_shen(d % 12, z)
    w['getTianShen'] = s
    w['getTianShenType'] = '黄道' if s in YELLOW else '黑道'
    w['getTianShenLuck'] = '吉' if s in YELLOW else '凶'
    w['getYi'], w['getJi'] = ref.tables()['time_yi_ji'][GZ[d] + GZ[i]]
    lo, hi = (0, 0) if h == 0 else (23, 23) if h == 23 else ((h + 1) // 2 * 2 - 1, (h + 1) // 2 * 2)
    w['getMinHm'] = '%02d:00' % lo
    w['getMaxHm'] = '%02d:59' % hi
    want(T, what, w)
    c.ev(len(w))
    return w


@L25.decider('instant')
def l25_instant(t, c):
    n, sod = divmod(t, cal.DAY)
    L = lunar_at(t)
    ly, lm, ld = ref.lunar_of(n)
    w = check_hour(L.getTime(), n, sod, 'the double hour of ' + cal.fmts(t), c)
    check_hour(LunarTime.fromYmdHms(ly, lm, ld, sod // 3600, sod // 60 % 60, sod % 60), n, sod, 'the double hour of ' + cal.fmts(t), c)
    hm = '%02d:%02d' % (sod // 3600, sod // 60 % 60)
    if not w['getMinHm'] <= hm <= w['getMaxHm']:
        fail('%s lies outside its own double hour', hm)
    eq(LunarUtil.convertTime(hm), w['getZhi'], 'branch of %s', hm)
    eq(LunarUtil.getTimeZhiIndex(hm), w['getZhiIndex'], 'branch index of %s', hm)
    want(L, cal.fmts(t), {'getTimeGan': w['getGan'], 'getTimeZhi': w['getZhi'], 'getTimeInGanZhi': w['getGanZhi'], 'getTimeShengXiao': w['getShengXiao'], 'getTimeNaYin': w['getNaYin']})
    if sod < 3600 or sod >= 82800:
        c.nt(t)
        c.cls('hours 0 and 23')
    else:
        c.cls('other hours')


@L25.decider('day')
def l25_day(case, c):
    n, sod = case
    L = lunar_at(n * cal.DAY + sod)
    ts = L.getTimes()
    eq(len(ts), 13, 'double hours of %s', cal.fmt(*cal.civil(n)))
    nxt = 0
    for k, T in enumerate(ts):
        h = 0 if k == 0 else 2 * k - 1
        check_hour(T, n, h * 3600, 'double hour %d of %s' % (k, cal.fmt(*cal.civil(n))), c)
        eq(T.getMinHm(), '%02d:00' % nxt, 'start of double hour %d of %s', k, cal.fmt(*cal.civil(n)))
        nxt = int(T.getMaxHm()[:2]) + 1
    eq(nxt, 24, 'end of the last double hour of %s', cal.fmt(*cal.civil(n)))
    c.nt(n)


@L25.sweep('date', lambda tier, seed: gen.year_range(tier, seed, stride=4))
def l25_date(y, c):
    r = gen.rng('L25', c.seed, y)
    a = max(cal.jdn(y, 1, 1), ref.new_year(y))
    for _ in range(2 if c.tier == 'quick' else 8):
        c.sub('day', [r.randint(a, cal.jdn(y, 12, 31)), r.randrange(cal.DAY)])
    n = r.randint(a, cal.jdn(y, 12, 31))
    for h in range(24):
        c.sub('instant', n * cal.DAY + h * 3600 + r.choice([0, 3599, 59, 60, r.randrange(3600)]))


@L25.given('random', gen.instants, 1000)
def l25_random(t, c):
    c.sub('instant', t)
    c.sample('instant', cal.fmts(t))


@L25.sweep('clock', lambda tier, seed: range(1440))
def l25_clock(i, c):
    hm = '%02d:%02d' % divmod(i, 60)
    z = (i + 60) // 120 % 12
    eq(LunarUtil.convertTime(hm), ZHI[z], 'branch of %s', hm)
    eq(LunarUtil.getTimeZhiIndex(hm), z, 'branch index of %s', hm)
    c.ev()
    if i % 120 in (59, 60, 0):
        c.nt('clock', i)
