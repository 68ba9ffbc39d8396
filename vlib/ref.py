# -*- coding: utf-8 -*-
"""Reference model: frozen months and term instants of the pinned tree plus independently written rules."""
import array
import bisect
import gzip
import json
import os
from . import cal

_D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'refdata')


def _read(name):
    with gzip.open(os.path.join(_D, name), 'rb') as fh:
        return fh.read()


_m = json.loads(_read('months.json.gz').decode())
FIRST_YEAR = _m['first_year']
M_FIRST = []   # first day number of every month, ascending
M_YEAR = []
M_MONTH = []
M_DAYS = []
M_POS = []     # 1-based position in its year
Y_START = {}   # year -> index of its first month
_n = _m['first_day']
for _y, _ms in enumerate(_m['years'], FIRST_YEAR):
    Y_START[_y] = len(M_FIRST)
    for _i, (_a, _c) in enumerate(_ms):
        M_FIRST.append(_n)
        M_YEAR.append(_y)
        M_MONTH.append(_a)
        M_DAYS.append(_c)
        M_POS.append(_i + 1)
        _n += _c
LAST_YEAR = _y
Y_START[_y + 1] = len(M_FIRST)
M_INDEX = {(M_YEAR[i], M_MONTH[i]): i for i in range(len(M_FIRST))}
del _m

_t = array.array('q')
_t.frombytes(_read('terms.bin.gz'))
T = array.array('q', [0]) * len(_t)
_s = 0
for _i, _x in enumerate(_t):
    _s += _x
    T[_i] = _s
del _t

TAB = None


def tables():
    global TAB
    if TAB is None:
        TAB = json.loads(_read('tables.json.gz').decode('utf8'))
    return TAB


# ---------------------------------------------------------------- lunar dates

def lunar_of(n):
    """(year, month, day) of a day number."""
    i = bisect.bisect_right(M_FIRST, n) - 1
    return M_YEAR[i], M_MONTH[i], n - M_FIRST[i] + 1


def month_index_of(n):
    return bisect.bisect_right(M_FIRST, n) - 1


def day_of(ly, lm, ld):
    return M_FIRST[M_INDEX[(ly, lm)]] + ld - 1


def months_of(ly):
    return range(Y_START[ly], Y_START[ly + 1])


def leap_month(ly):
    for i in months_of(ly):
        if M_MONTH[i] < 0:
            return -M_MONTH[i]
    return 0


def new_year(ly):
    return M_FIRST[Y_START[ly]]


# ---------------------------------------------------------------- solar terms
# T[24*y + i] is entry i of the table of solar year y, entry 0 being the 大雪 before it.
IN_USE = ("DA_XUE", "冬至", "小寒", "大寒", "立春", "雨水", "惊蛰", "春分", "清明", "谷雨", "立夏", "小满", "芒种", "夏至", "小暑", "大暑",
          "立秋", "处暑", "白露", "秋分", "寒露", "霜降", "立冬", "小雪", "大雪", "DONG_ZHI", "XIAO_HAN", "DA_HAN", "LI_CHUN", "YU_SHUI", "JING_ZHE")
CYCLE = ("大雪", "冬至", "小寒", "大寒", "立春", "雨水", "惊蛰", "春分", "清明", "谷雨", "立夏", "小满", "芒种", "夏至", "小暑", "大暑",
         "立秋", "处暑", "白露", "秋分", "寒露", "霜降", "立冬", "小雪")
FROM_DONGZHI = CYCLE[1:] + CYCLE[:1]


def frozen_terms(y):
    return T[24 * y:24 * y + 31]


_adj = {}


def lib_terms(y):
    """The 31 instants of the library's own table for solar year y, in seconds."""
    from lunar_python import LunarYear, Solar
    out = []
    for jd in LunarYear.fromYear(y).getJieQiJulianDays():
        s = Solar.fromJulianDay(jd)
        out.append(cal.sec(s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond()))
    return out


TOL = 2


def terms(y):
    """Reference instants for solar year y. Where the library agrees with the frozen instant within TOL seconds the
    library's own value is used, so that a last-digit difference of the astronomy is not counted as a wrong pillar."""
    r = _adj.get(y)
    if r is None:
        f = list(frozen_terms(y))
        try:
            lib = lib_terms(y)
        except Exception:
            lib = []
        if len(lib) == 31:
            for i in range(31):
                if abs(lib[i] - f[i]) <= TOL:
                    f[i] = lib[i]
        if len(_adj) > 64:
            _adj.clear()
        _adj[y] = r = f
    return r


def term_at(y, t):
    """Cycle index k (T numbering) of the last term at or before instant t of solar year y."""
    return 24 * y + bisect.bisect_right(terms(y), t) - 1


def term_by_day(y, n):
    """... of the last term on or before the day n."""
    return 24 * y + bisect.bisect_right(terms(y), n * cal.DAY + cal.DAY - 1) - 1


def term_inst(y, k):
    return terms(y)[k - 24 * y]


# ---------------------------------------------------------------- sexagenary cycle
GAN = '甲乙丙丁戊己庚辛壬癸'
ZHI = '子丑寅卯辰巳午未申酉戌亥'
ANIMALS = '鼠牛虎兔龙蛇马羊猴鸡狗猪'
GZ = [GAN[i % 10] + ZHI[i % 12] for i in range(60)]
GZI = {g: i for i, g in enumerate(GZ)}


def gz_year(y):
    return (y - 4) % 60


def pillars(y, n, sod):
    """All pillar variants (indices 0..59) of the instant: solar year y, day number n, second of day sod."""
    t = n * cal.DAY + sod
    ly = lunar_of(n)[0]
    ke = term_at(y, t)
    kd = term_by_day(y, n)
    r = {'year': gz_year(ly), 'year_lichun': gz_year((kd - 4) // 24), 'year_exact': gz_year((ke - 4) // 24)}
    r['month'] = (kd // 2 - 2 - 46) % 60
    r['month_exact'] = (ke // 2 - 2 - 46) % 60
    d = (n - 11) % 60
    h = sod // 3600
    r['day'] = d
    r['day_exact'] = (d + 1) % 60 if h == 23 else d
    r['day_exact2'] = d
    z = (h + 1) // 2 % 12
    r['time'] = GZI[GAN[(r['day_exact'] % 5 * 2 + z) % 10] + ZHI[z]]
    return r


# ---------------------------------------------------------------- attributes of stems and branches
ELEMENT = '木火土金水'
G_EL = [i // 2 for i in range(10)]
Z_EL = [4, 2, 0, 0, 2, 1, 1, 2, 3, 3, 2, 4]


def shi_shen(day_gan, other):
    rel = (G_EL[other] - G_EL[day_gan]) % 5
    same = day_gan % 2 == other % 2
    return (('劫财', '比肩'), ('伤官', '食神'), ('正财', '偏财'), ('正官', '七杀'), ('正印', '偏印'))[rel][same]


HIDE = {'子': '癸', '丑': '己癸辛', '寅': '甲丙戊', '卯': '乙', '辰': '戊乙癸', '巳': '丙庚戊', '午': '丁己', '未': '己丁乙', '申': '庚壬戊',
        '酉': '辛', '戌': '戊辛丁', '亥': '壬甲'}
NAYIN30 = ('海中金 炉中火 大林木 路旁土 剑锋金 山头火 涧下水 城头土 白蜡金 杨柳木 泉中水 屋上土 霹雳火 松柏木 长流水 '
           '沙中金 山下火 平地木 壁上土 金箔金 覆灯火 天河水 大驿土 钗钏金 桑柘木 大溪水 沙中土 天上火 石榴木 大海水').split()


def nayin(i):
    return NAYIN30[i // 2]


STAGES = '长生 沐浴 冠带 临官 帝旺 衰 病 死 墓 绝 胎 养'.split()
_BIRTH = {'甲': '亥', '丙': '寅', '戊': '寅', '庚': '巳', '壬': '申', '乙': '午', '丁': '酉', '己': '酉', '辛': '子', '癸': '卯'}


def di_shi(gan, zhi):
    """Life stage of stem index gan in branch index zhi."""
    b = ZHI.index(_BIRTH[GAN[gan]])
    return STAGES[(zhi - b) % 12 if gan % 2 == 0 else (b - zhi) % 12]


def xun(i):
    return GZ[i - i % 10]


def xun_kong(i):
    a = (i - i % 10 + 10) % 12
    return ZHI[a] + ZHI[(a + 1) % 12]


# ---------------------------------------------------------------- numbers
DIGITS = '〇一二三四五六七八九'


def year_cn(y):
    return ''.join(DIGITS[int(c)] for c in str(y))


MONTH_CN = ' 正二三四五六七八九十冬腊'


def month_cn(m):
    return ('闰' if m < 0 else '') + MONTH_CN[abs(m)]


def day_cn(d):
    if d <= 10:
        return '初' + '一二三四五六七八九十'[d - 1]
    if d < 20:
        return '十' + '一二三四五六七八九'[d - 11]
    if d == 20:
        return '二十'
    if d < 30:
        return '廿' + '一二三四五六七八九'[d - 21]
    if d == 30:
        return '三十'
    return '三十一'
