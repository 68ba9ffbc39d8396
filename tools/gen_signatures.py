# -*- coding: utf-8 -*-
"""refdata/signatures.json: the zero-argument accessors of every class and the types they answer with (usage: gen_signatures.py CHECKOUT)."""
import json
import os
import random
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import reflect  # noqa
from lunar_python import *  # noqa
out = {}


def tname(v):
    if isinstance(v, (list, tuple)):
        return 'list'
    return 'None' if v is None else type(v).__name__


def see(o):
    if o is None:
        return
    d = out.setdefault(type(o).__name__, {})
    for k in reflect.all_accessors(type(o)):
        d.setdefault(k, set()).add(tname(getattr(o, k)()))


r = random.Random(1)
for _ in range(1500):
    y, m, d = r.choice([r.randint(1, 9999), r.randint(1900, 2100)]), r.randint(1, 12), r.randint(1, 28)
    if (y, m) == (1582, 10):
        continue
    s = Solar.fromYmdHms(y, m, d, r.randrange(24), r.randrange(60), r.randrange(60))
    L = s.getLunar()
    e = L.getEightChar()
    Y = e.getYun(r.randrange(2), r.choice([1, 2])) if y < 9900 else None
    for o in (s, L, e, L.getTime(), L.getFoto(), L.getTao(), LunarYear.fromYear(y), r.choice(LunarYear.fromYear(y).getMonthsInYear()), Y, SolarYear.fromYear(y), SolarMonth.fromYm(y, m), SolarWeek.fromYmd(y, m, d, r.randrange(7)),
              SolarSeason.fromYm(y, m), SolarHalfYear.fromYm(y, m), L.getNextJie(), L.getPrevQi(), L.getCurrentJieQi(), NineStar.fromIndex(r.randrange(9)), L.getFu(), L.getShuJiu()):
        see(o)
    if Y is not None and _ % 100 == 0:
        D = Y.getDaYun()[1]
        for o in (D, D.getLiuNian()[1], D.getXiaoYun()[1], D.getLiuNian()[1].getLiuYue()[1]):
            see(o)
with open(os.path.join(ROOT, 'refdata', 'signatures.json'), 'w') as fh:
    json.dump({c: {k: sorted(v) for k, v in sorted(d.items())} for c, d in sorted(out.items())}, fh, indent=1)
    fh.write('\n')
print({c: len(d) for c, d in out.items()})
