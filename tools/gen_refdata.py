# -*- coding: utf-8 -*-
"""Extracts the frozen reference data from a checkout of the pinned commit (usage: gen_refdata.py CHECKOUT).

refdata/months.json.gz  every lunar month of the years 0..10000 in order: [first day number, [[month, days], ...] per year]
refdata/terms.bin.gz    every solar term instant (whole seconds) from the year 0 to 10001, delta coded
refdata/tables.json.gz  the published tables (festivals, spirits, songs, ...) and the outputs of the table look-ups
"""
import gzip
import json
import os
import sys
sys.dont_write_bytecode = True
base = sys.argv[1]
sys.path.insert(0, base)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'refdata')
from lunar_python import *  # noqa
from lunar_python.util import *  # noqa
import lunar_python
from multiprocessing import Pool


def save(name, data):
    with gzip.GzipFile(os.path.join(out, name), 'wb', mtime=0) as fh:
        fh.write(data)


def year(y):
    L = LunarYear.fromYear(y)
    return y, [(m.getMonth(), m.getDayCount(), int(m.getFirstJulianDay() + 0.0)) for m in L.getMonthsInYear()], \
        [int(round((jd + 0.5) * 86400)) for jd in L.getJieQiJulianDays()]


def main():
    with Pool(8) as p:
        ys = p.map(year, range(0, 10002), chunksize=100)
    months = []
    nxt = None
    terms = []
    for y, ms, js in ys:
        if nxt is not None:
            assert ms[0][2] == nxt, y
        else:
            first = ms[0][2]
        for m, c, f in ms:
            if nxt is not None:
                assert f == nxt, (y, m)
            nxt = f + c
        months.append([[m, c] for m, c, f in ms])
        if not terms:
            terms = list(js)
        else:
            assert terms[-7:] == js[:7], (y, terms[-7:], js[:7])
            terms += js[7:]
    save('months.json.gz', json.dumps({'first_year': 0, 'first_day': first, 'years': months}, separators=(',', ':')).encode())
    d = [terms[0]] + [b - a for a, b in zip(terms, terms[1:])]
    # second differences against the same term one year earlier keep the file small
    import array
    a = array.array('q', d)
    save('terms.bin.gz', a.tobytes())
    print(len(terms), first)

    T = {}

    def pub(cls):
        r = {}
        for k, v in vars(cls).items():
            if k.startswith('_') or callable(v) or isinstance(v, staticmethod):
                continue
            r[k] = v
        return r
    T['SolarUtil'] = pub(SolarUtil)
    T['LunarUtil'] = pub(LunarUtil)
    T['NineStar'] = pub(NineStar)
    T['TaoUtil'] = {k: v for k, v in pub(TaoUtil).items()}
    T['FotoUtil'] = {k: v for k, v in pub(FotoUtil).items()}
    T['HolidayUtil'] = {'NAMES': HolidayUtil.NAMES}
    T['Lunar'] = {'JIE_QI': Lunar.JIE_QI, 'JIE_QI_IN_USE': Lunar.JIE_QI_IN_USE}

    def conv(o):
        n = type(o).__name__
        if n == 'FotoFestival':
            return {'name': o.getName(), 'result': o.getResult(), 'everyMonth': o.isEveryMonth(), 'remark': o.getRemark()}
        if n == 'TaoFestival':
            return {'name': o.getName(), 'remark': o.getRemark()}
        raise TypeError(n)
    jz = LunarUtil.JIA_ZI
    G = '甲乙丙丁戊己庚辛壬癸'
    yi = {}
    for m in jz:
        for d_ in jz:
            yi[m + d_] = [LunarUtil.getDayYi(m, d_), LunarUtil.getDayJi(m, d_)]
    T['day_yi_ji'] = yi
    ty = {}
    for d_ in jz:
        for t in jz:
            ty[d_ + t] = [LunarUtil.getTimeYi(d_, t), LunarUtil.getTimeJi(d_, t)]
    T['time_yi_ji'] = ty
    T['shen_sha'] = {'%d%s' % (m, d_): [LunarUtil.getDayJiShen(m, d_), LunarUtil.getDayXiongSha(m, d_)] for m in range(1, 13) for d_ in jz}
    hol = []
    import datetime
    d_ = datetime.date(2001, 1, 1)
    while d_.year < 2030:
        h = HolidayUtil.getHoliday(d_.year, d_.month, d_.day)
        if h:
            hol.append([h.getDay(), h.getName(), h.isWork(), h.getTarget()])
        d_ += datetime.timedelta(1)
    T['holidays'] = hol
    save('tables.json.gz', json.dumps(T, default=conv, ensure_ascii=False, separators=(',', ':'), sort_keys=True).encode('utf8'))
    print({k: (list(v) if k.endswith('Util') else len(v)) for k, v in T.items()})


main()
