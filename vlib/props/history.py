# -*- coding: utf-8 -*-
"""Independence of answers from history, threads and callers; totality, purity and agreement of every public accessor."""
import datetime
import json
import os
import random
import signal
import subprocess
import sys
import threading
import time
from hypothesis import strategies as st
from .. import cal, fresh, gen, ref, reflect
from ..core import REPO, ROOT, Prop, Violation, eq, fail
from .pillars import TERMS, lunar_at
from lunar_python import EightChar, Foto, Lunar, LunarMonth, LunarYear, NineStar, Solar, SolarHalfYear, SolarMonth, SolarSeason, SolarWeek, SolarYear, Tao

GZ = ref.GZ

# ------------------------------------------------------------------------------------------------ L28
L28 = Prop('L28', 'Answers do not depend on earlier calls, other threads, failed calls or callers',
           'A history case is a sequence of questions about a few neighbouring years, mixed with invalid calls and with callers changing the lists they were given; every answer is compared with the reference, and objects kept from '
           'earlier are asked again at the end. A thread case runs several such sequences at once with forced switches. A process case compares answers with those of a fresh interpreter under another hash seed and time zone. '
           'Non-trivial: a history with at least two different years; every thread and process case.', [TERMS])

STUCK = 20


def ask_date(t, c):
    n, sod = divmod(t, cal.DAY)
    y = cal.civil(n)[0]
    L = lunar_at(t)
    eq((L.getYear(), L.getMonth(), L.getDay(), L.getHour(), L.getMinute(), L.getSecond()), ref.lunar_of(n) + (sod // 3600, sod // 60 % 60, sod % 60), 'lunar date of %s', cal.fmts(t))
    k = ref.term_by_day(y, n)
    a = ref.gz_year(ref.lunar_of(n)[0])
    eq((L.getYearInGanZhi(), L.getMonthInGanZhi(), L.getDayInGanZhi()), (GZ[a], GZ[(k // 2 - 48) % 60], GZ[(n - 11) % 60]), 'pillars of %s', cal.fmts(t))
    T = ref.frozen_terms(y)
    tab = L.getJieQiTable()
    for i in (1, 4, 13, 28):
        got = tab[ref.IN_USE[i]]
        d = cal.sec(*gen.tup(got)) - T[i]
        if abs(d) > ref.TOL:
            fail('%s seen from %s: %s, expected %s', ref.IN_USE[i], cal.fmts(t), got.toYmdHms(), cal.fmts(T[i]))
    return L


def ask_year(y, c):
    Y = LunarYear.fromYear(y)
    check_year(Y, y)
    return Y


def check_year(Y, y):
    eq(Y.getYear(), y, 'number of the lunar year %d', y)
    eq([(m.getYear(), m.getMonth(), m.getDayCount(), int(m.getFirstJulianDay())) for m in Y.getMonthsInYear()],
       [(y, ref.M_MONTH[i], ref.M_DAYS[i], ref.M_FIRST[i]) for i in ref.months_of(y)], 'months of the lunar year %d', y)
    jds = Y.getJieQiJulianDays()
    eq(len(jds), 31, 'terms of the lunar year %d', y)
    T = ref.frozen_terms(y)
    for i in (0, 4, 15, 30):
        if abs((jds[i] + 0.5) * 86400 - T[i]) > ref.TOL + 1:
            fail('entry %d of the terms of %d is off by %.1f s', i, y, (jds[i] + 0.5) * 86400 - T[i])


def ask_month(y, k, step, c):
    ms = list(ref.months_of(y))
    i = ms[k % len(ms)]
    M = LunarMonth.fromYm(y, ref.M_MONTH[i])
    if M is None:
        fail('month %d of %d is missing', ref.M_MONTH[i], y)
    x = M.next(step)
    eq((x.getYear(), x.getMonth(), x.getDayCount()), (ref.M_YEAR[i + step], ref.M_MONTH[i + step], ref.M_DAYS[i + step]), 'month %d of %d stepped by %d', ref.M_MONTH[i], y, step)


def ask_back(n, c):
    ly, lm, ld = ref.lunar_of(n)
    s = Lunar.fromYmd(ly, lm, ld).getSolar()
    eq((s.getYear(), s.getMonth(), s.getDay()), cal.civil(n), 'solar day of the lunar date %d-%d-%d', ly, lm, ld)


def ask_almanac(t, c):
    """A few answers that ask for other years on the way."""
    from .almanac import day_star, festivals_of
    n = t // cal.DAY
    L = lunar_at(t)
    y = cal.civil(n)[0]
    eq(L.getDayNineStar().getIndex(), day_star(y, n), 'day star of %s', cal.fmts(t))
    eq((L.getFestivals(), L.getOtherFestivals()), festivals_of(n), 'festivals of %s', cal.fmts(t))
    ask_date(t, c)


def bad_calls(y, k):
    leap = ref.leap_month(y)
    m = next(x for x in range(1, 13) if x != leap)
    yield from (lambda: Lunar.fromYmd(y, -m, 1), lambda: Lunar.fromYmd(y, 13, 1), lambda: Lunar.fromYmd(y, 1, 31), lambda: Lunar.fromYmd(y, 1, 0), lambda: Lunar.fromYmdHms(y, 1, 1, 24, 0, 0),
                lambda: Solar.fromYmd(y, 13, 1), lambda: Solar.fromYmd(y, 1, 32), lambda: LunarYear.fromYear('x'), lambda: LunarYear.fromYear(None), lambda: LunarYear.fromYear(float('nan')),
                lambda: LunarYear.fromYear([y]), lambda: Lunar.fromYmd('x', 1, 1), lambda: Lunar.fromSolar(None), lambda: LunarYear.fromYear(10 ** 400))


def ask_bad(y, k, c):
    fs = list(bad_calls(y, k))
    try:
        fs[k % len(fs)]()
    except Exception:
        return
    fail('an invalid call (kind %d, year %d) was accepted', k % len(fs), y)


def spoil(y, k, c):
    """What a caller may do to the lists it was given."""
    Y = LunarYear.fromYear(y)
    L = Solar.fromYmd(y, 6, 15).getLunar()
    lists = [Y.getMonths(), Y.getMonthsInYear(), Y.getJieQiJulianDays(), L.getFestivals(), L.getOtherFestivals(), L.getDayYi(), L.getDayJi(), L.getBaZi(), L.getTimes(), L.getFoto().getFestivals(), L.getTao().getFestivals(),
             SolarUtil_days(y), L.getSolar().getFestivals(), L.getSolar().getOtherFestivals(), L.getEightChar().getYearHideGan(), L.getJieQiList()]
    a = lists[k % len(lists)]
    if isinstance(a, list):
        if k % 3 == 0:
            a.clear()
        elif k % 3 == 1:
            a.reverse()
        else:
            a[:] = [None] * (len(a) + 1)


def SolarUtil_days(y):
    return SolarMonth.fromYm(y, 6).getDays()


def run_history(ops, c, kept=None):
    own = kept is None
    if own:
        kept = []
    for op in ops:
        k = op[0]
        if k == 'date':
            kept.append(('date', op[1], ask_date(op[1], c)))
        elif k == 'year':
            kept.append(('year', op[1], ask_year(op[1], c)))
        elif k == 'month':
            ask_month(op[1], op[2], op[3], c)
        elif k == 'back':
            ask_back(op[1], c)
        elif k == 'almanac':
            ask_almanac(op[1], c)
        elif k == 'bad':
            ask_bad(op[1], op[2], c)
        elif k == 'spoil':
            spoil(op[1], op[2], c)
        c.ev()
    for k, a, o in kept[-6:]:
        if k == 'year':
            check_year(o, a)
        else:
            n, sod = divmod(a, cal.DAY)
            eq((o.getYear(), o.getMonth(), o.getDay(), o.getSolar().toYmdHms()), ref.lunar_of(n) + (cal.fmts(a),), 'a lunar date kept from earlier (%s)', cal.fmts(a))
            eq((o.getDayInGanZhi(), o.next(1).getDayInGanZhi() if n < cal.LAST else None), (GZ[(n - 11) % 60], GZ[(n - 10) % 60] if n < cal.LAST else None), 'day pillars of a lunar date kept from earlier')


@st.composite
def histories(draw, lo=2, hi=14):
    y0 = draw(gen.years(3, 9990))
    far = draw(gen.years(3, 9990))
    ys = st.one_of(st.integers(y0 - 1, y0 + 1), st.sampled_from([y0, y0, far, far + 1]))
    t = st.builds(lambda y, d, s: cal.jdn(y, 1, 1) * cal.DAY + d * cal.DAY + s, ys, st.one_of(st.integers(0, 364), st.integers(0, 50), st.integers(330, 364)), st.integers(0, 86399))
    op = st.one_of(
        st.tuples(st.just('date'), t), st.tuples(st.just('year'), ys), st.tuples(st.just('month'), ys, st.integers(0, 12), st.integers(-30, 30)),
        st.tuples(st.just('back'), st.builds(lambda t: t // cal.DAY, t)), st.tuples(st.just('bad'), ys, st.integers(0, 13)), st.tuples(st.just('spoil'), ys, st.integers(0, 44)), st.tuples(st.just('almanac'), t))
    return [list(x) for x in draw(st.lists(op, min_size=lo, max_size=hi))]


def years_of(ops):
    return {cal.civil(o[1] // cal.DAY)[0] if o[0] in ('date', 'almanac') else cal.civil(o[1])[0] if o[0] == 'back' else o[1] for o in ops}


@L28.given('history', histories, 480)
def l28_history(ops, c):
    # a lock left behind by a failed call would block for ever
    signal.setitimer(signal.ITIMER_REAL, STUCK)
    run_history(ops, c)
    if len(years_of(ops)) > 1:
        c.nt(json.dumps(ops))
    for o in ops:
        c.cls(o[0])
    c.sample('history', ops)


def noise(seed):
    """A trace function that gives other threads a chance at random lines of short functions."""
    r = random.Random(seed)

    def local(frame, event, arg):
        if event == 'line' and r.random() < 0.3:
            time.sleep(0)
        return local

    def top(frame, event, arg):
        co = frame.f_code
        if 'lunar_python' in co.co_filename and 'LunarYear' in co.co_filename and len(co.co_code) < 400:
            return local
        return None
    return top


def run_threads(case, c):
    seqs, traced = case
    errs = []
    start = threading.Barrier(len(seqs))

    def body(i, ops):
        try:
            if traced:
                sys.settrace(noise(i))
            start.wait()
            run_history(ops, c)
        except BaseException as e:
            errs.append((i, e))
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=body, args=(i, ops), daemon=True) for i, ops in enumerate(seqs)]
    try:
        for t in ts:
            t.start()
        end = time.time() + 60
        for t in ts:
            t.join(max(0.1, end - time.time()))
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        fail('threads did not come back: stuck')
    if errs:
        i, e = errs[0]
        if isinstance(e, Violation):
            raise Violation('thread %d: %s' % (i, e))
        raise e


@st.composite
def crowds(draw):
    n = draw(st.integers(2, 4))
    y = draw(gen.years(3, 9980))
    out = []
    for i in range(n):
        # one thread keeps asking for a year that is already there, others make the library forget it
        a = y + i % 2 * draw(st.integers(1, 9))
        ops = [['year', a]] * draw(st.integers(1, 3)) + [['date', cal.jdn(a, 9, 1) * cal.DAY + draw(st.integers(0, 86399))]] * draw(st.integers(1, 3)) + draw(histories(1, 3))
        out.append(ops)
    return [out, draw(st.booleans())]


@L28.given('threads', crowds, 96)
def l28_threads(case, c):
    rounds = 1 if c.tier != 'replay' else 25
    for _ in range(rounds):
        run_threads(case, c)
    c.nt(json.dumps(case))
    c.cls('%d threads' % len(case[0]))


@L28.sweep('hammer', lambda tier, seed: range(8 if tier == 'quick' else 64))
def l28_hammer(k, c):
    """Many short questions about one cached year while another thread makes the library forget it."""
    r = gen.rng('L28', k)
    y = r.randrange(10, 9900)
    n = cal.jdn(y, 9, 1)
    stop = time.time() + (1.0 if c.tier == 'quick' else 4.0)
    errs = []
    ly, lm, ld = ref.lunar_of(n)
    pairs = ((y, n), (y + 1 + r.randrange(3), None))
    asked = [0]

    def reader():
        try:
            while time.time() < stop and not errs:
                for _ in range(40):
                    Y = LunarYear.fromYear(y)
                    if Y.getYear() != y:
                        fail('asked for the lunar year %d, got %d', y, Y.getYear())
                    if Y.next(0).getYear() != y:
                        fail('the year %d stepped by 0', y)
                    asked[0] += 2
                M = LunarMonth.fromYm(ly, lm)
                if M is None or (M.getYear(), M.getMonth()) != (ly, lm):
                    fail('month %d of %d is missing', lm, ly)
        except BaseException as e:
            errs.append(e)

    def writer(off):
        try:
            i = 0
            while time.time() < stop and not errs:
                z = pairs[1][0] + (i + off) % 3
                i += 1
                Y = LunarYear.fromYear(z)
                if Y.getYear() != z:
                    fail('asked for the lunar year %d, got %d', z, Y.getYear())
        except BaseException as e:
            errs.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=reader, daemon=True), threading.Thread(target=reader, daemon=True), threading.Thread(target=writer, args=(0,), daemon=True), threading.Thread(target=writer, args=(1,), daemon=True)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        fail('threads did not come back: stuck')
    if errs:
        raise errs[0]
    c.ev(asked[0])
    c.nt('hammer', k)


@L28.sweep('process', lambda tier, seed: [[seed, k] for k in range(8 if tier == 'quick' else 64)])
def l28_process(case, c):
    r = gen.rng('L28p', *case)
    todo = []
    for _ in range(14 if c.tier == 'quick' else 80):
        y = r.choice([r.randrange(1, 10000), r.randrange(1900, 2101)])
        todo.append(cal.unsec(cal.jdn(y, 1, 1) * cal.DAY + r.randrange(cal.year_days(y) * cal.DAY)))
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(r.randrange(1000)), TZ=r.choice(['UTC', 'America/New_York', 'Asia/Tokyo', 'Pacific/Apia']), LC_ALL='C', PYTHONUTF8='0' if case[1] % 2 else '1', VERIF_REPO=REPO)
    p = subprocess.run([sys.executable, os.path.join(ROOT, 'vlib', 'fresh.py')], input=json.dumps(todo).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=200)
    if p.returncode:
        fail('a fresh interpreter could not answer: %s', p.stderr.decode('utf8', 'replace')[-600:])
    got = p.stdout.decode().split()
    for f, d in zip(todo, got):
        a, mine = fresh.digest(f)
        if mine != d:
            fail('the answers about %04d-%02d-%02d %02d:%02d:%02d differ between this process and a fresh one' % tuple(f))
        c.ev()
        c.nt('process', tuple(f))
    eq(len(got), len(todo), 'answers of a fresh interpreter')


bundle = fresh.bundle


def answers_of(f, only=None):
    return [reflect.answers(o, 0) for o in (bundle(f) if only is None else [bundle(f)[i] for i in only])]


def spoil_container(v):
    """Changes a list or dict in place, inner ones too; returns what undoes it."""
    undo = []
    if isinstance(v, dict):
        bak = dict(v)
        for x in bak.values():
            if isinstance(x, (list, dict)):
                undo += spoil_container(x)
        v.clear()
        v['x'] = None
        undo.append((v, bak))
    elif isinstance(v, list):
        bak = list(v)
        for x in bak:
            if isinstance(x, (list, dict)):
                undo += spoil_container(x)
        v.reverse()
        v.append('x')
        undo.append((v, bak))
    return undo


def hostile_one(f, i, names, before, c):
    o = bundle(f)[i]
    kind = type(o).__name__
    undo = []
    try:
        own = {}
        for k in names:
            v = getattr(o, k)()
            if isinstance(v, (list, dict)):
                own[k] = reflect.form(v, 0)
                undo += spoil_container(v)
        c.ev(len(own))
        if not own:
            return False
        for k in own:
            if reflect.form(getattr(o, k)(), 0) != own[k]:
                fail('a caller that changes the answer of %s.%s changes what it answers next', kind, k)
        after = answers_of(f)
        for b, a in zip(before, after):
            for k in b:
                if a[k] != b[k]:
                    fail('a caller that changes the lists of a %s (%s) changes what %s answers afterwards: %r, before %r', kind, ', '.join(own), k, a[k], b[k])
        return True
    finally:
        for v, bak in reversed(undo):
            v.clear()
            (v.update if isinstance(v, dict) else v.extend)(bak)


FEAST = ((1, 1), (3, 15), (3, 17), (4, 22), (5, 8), (10, 1), (12, 24), (6, 5), (11, 25), (9, 9))


@st.composite
def hostile_cases(draw):
    n, sod = draw(gen.days()), draw(gen.SOD)
    y, m, d = cal.civil(n)
    k = draw(st.integers(0, 3))
    if k == 0:
        m, d = draw(st.sampled_from(FEAST))
    elif k == 1:
        # a lunar day with festivals in some calendar
        lm, ld = draw(st.sampled_from([(1, 1), (1, 15), (2, 2), (2, 19), (4, 8), (5, 5), (7, 7), (7, 15), (8, 15), (9, 9), (12, 8), (12, 29), (1, 9), (3, 3)]))
        y = min(max(y, 2), 9990)
        if (y, lm) in ref.M_INDEX:
            n = ref.day_of(y, lm, min(ld, ref.M_DAYS[ref.M_INDEX[(y, lm)]]))
            y, m, d = cal.civil(n)
    y = min(max(y, 2), 9900)
    if m == 2 and d == 29:
        d = 28
    return [[y, m, d, sod // 3600, sod // 60 % 60, sod % 60], draw(st.integers(0, 17))]


@L28.given('hostile', hostile_cases, 240)
def l28_hostile(case, c):
    f, i = case
    o = bundle(f)[i]
    names = reflect.accessors(type(o))
    before = answers_of(f)
    if hostile_one(f, i, names, before, c):
        c.nt('hostile', i, tuple(f))
        c.cls('lists of a %s changed by a caller' % type(o).__name__)


@L28.sweep('hostile-each', lambda tier, seed: [[seed, i, j] for j in range(4 if tier == 'quick' else 40) for i in range(18)])
def l28_hostile_each(case, c):
    """Every kind of object in turn, so that none is left to chance."""
    r = gen.rng('L28h', *case)
    m, d = r.choice(FEAST)
    f = [r.choice([r.randrange(2, 9901), r.randrange(1900, 2101)]), m, d, r.randrange(24), r.randrange(60), r.randrange(60)]
    if f[0] % 3 == 0:
        f[1:3] = [r.randrange(1, 13), r.randrange(1, 29)]
    if tuple(f[:2]) == (1582, 10):
        f[0] = 1583
    o = bundle(f)[case[1]]
    if hostile_one(f, case[1], reflect.accessors(type(o)), answers_of(f), c):
        c.nt('hostile', case[1], tuple(f))


JUNK = {'setName': 'x', 'setIndex': 7, 'setSolar': None, 'setSect': None}


def spoil_object(v):
    """Uses every setter of an object that was handed out."""
    done = False
    for k in JUNK:
        if hasattr(v, k):
            a = JUNK[k]
            if k == 'setSect':
                a = 3 - v.getSect()
            elif k == 'setSolar':
                a = Solar.fromYmd(1, 2, 3)
            elif k == 'setName' and type(v).__name__ == 'JieQi':
                a = '清明' if v.getName() != '清明' else '谷雨'
            getattr(v, k)(a)
            done = True
    return done


@L28.sweep('hostile-object', lambda tier, seed: [[seed, j] for j in range(160 if tier == 'quick' else 4000)])
def l28_hostile_object(case, c):
    """A caller uses the setters of what it was handed; the one that handed it out, asked again, answers as before. (The chart of a lunar date is the one
    exception: it is there to be set, and stays as it was set.)"""
    r = gen.rng('L28o', *case)
    f = list(some_instants(r, 1)[0])
    if case[1] % 2:
        # dog days, nine nines and terms
        y = f[0]
        i = r.choice([1, 2, 13, 14, 15, 16, r.randrange(1, 25)])
        f = list(cal.unsec(max(cal.FIRST * cal.DAY, min(ref.T[24 * y + i] + r.randrange(0, 20) * cal.DAY, cal.LAST * cal.DAY))))
    if case[1] % 4 == 2:
        f[3] = 23
    s = Solar.fromYmdHms(*f)
    L = s.getLunar()
    at = '%04d-%02d-%02d %02d:%02d:%02d' % tuple(f)
    e = EightChar.fromLunar(s.getLunar())
    for o in (s, L, e, L.getTime(), L.getFoto(), L.getTao(), L.getNextJie(), SolarMonth.fromYm(f[0], f[1])):
        kind = type(o).__name__
        for k in reflect.accessors(type(o)):
            if (kind, k) == ('Lunar', 'getEightChar'):
                continue
            v = getattr(o, k)()
            before = reflect.form(v, 1)
            vs = list(v.values()) if isinstance(v, dict) else v if isinstance(v, list) else [v]
            done = False
            for x in vs:
                if reflect.ours(x):
                    done = spoil_object(x) or done
                    if kind == 'Solar' and type(x) is Lunar:
                        done = spoil_object(x.getEightChar()) or done
            if done:
                after = reflect.form(getattr(o, k)(), 1)
                if after != before:
                    fail('a caller that uses the setters of what %s.%s of %s answered changes what it answers next: %r, before %r' % (kind, k, at, after, before))
                c.ev()
                c.nt('object', *case)
                c.cls('setters of what a %s hands out' % kind)
    e = EightChar.fromLunar(L)
    e.setSect(1)
    for x, what in ((EightChar.fromLunar(L), 'a chart made of the same lunar date'), (L.getEightChar(), 'the chart of the lunar date'), (s.getLunar().getEightChar(), 'the chart of the same instant asked again')):
        eq(x.getSect(), 2, 'school of %s (%s) after a caller set the school of another chart', what, at)
    c.ev(3)


def fresh_answers(todo, r, *args):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(r.randrange(1000)), VERIF_REPO=REPO)
    try:
        p = subprocess.run([sys.executable, os.path.join(ROOT, 'vlib', 'fresh.py')] + [str(a) for a in args], input=json.dumps(todo).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
    except subprocess.TimeoutExpired:
        fail('a fresh interpreter did not answer within two minutes (%s)', args)
    if p.returncode:
        fail('a fresh interpreter could not answer (%s): %s', args, p.stderr.decode('utf8', 'replace')[-600:])
    got = p.stdout.decode().split()
    eq(len(got), len(todo), 'answers of a fresh interpreter')
    return got


def some_instants(r, k):
    out = []
    for _ in range(k):
        y = r.choice([r.randrange(1, 10000), r.randrange(1645, 1960), r.randrange(1900, 2101), r.randrange(1, 1600)])
        out.append(cal.unsec(cal.jdn(y, 1, 1) * cal.DAY + r.randrange(cal.year_days(y) * cal.DAY)))
    return out


@L28.sweep('first-use', lambda tier, seed: [[seed, k] for k in range(16 if tier == 'quick' else 240)])
def l28_first(case, c):
    """The very first questions of a process, asked by several threads at once."""
    r = gen.rng('L28f', *case)
    todo = some_instants(r, r.choice([2, 4, 8]))
    for _ in range(1 if c.tier != 'replay' else 12):
        got = fresh_answers(todo, r, 'threads', r.randrange(10 ** 6))
        for f, d in zip(todo, got):
            if d != fresh.digest(f)[1]:
                fail('the first answers of a process whose %d threads begin at once differ for %04d-%02d-%02d %02d:%02d:%02d', len(todo), *f)
            c.ev()
    c.nt('first', *case)


@L28.sweep('fault-first', lambda tier, seed: [[seed, k] for k in range(16 if tier == 'quick' else 240)])
def l28_fault_first(case, c):
    """The first questions of a process fail at some inner call; what is asked after that is answered as ever."""
    r = gen.rng('L28ff', *case)
    todo = some_instants(r, 3)
    got = fresh_answers(todo, r, 'fault', r.randrange(1, r.choice([12, 60, 400])))
    for f, d in zip(todo, got):
        if d != fresh.digest(f)[1]:
            fail('the answers about %04d-%02d-%02d %02d:%02d:%02d differ after first questions that failed on the way', *f)
        c.ev()
    c.nt('fault first', *case)


KINDS_OF = {}


@L28.sweep('interrupted', lambda tier, seed: [[seed, k, j] for j in range(5 if tier == 'quick' else 40) for k in range(8)])
def l28_interrupted(case, c):
    """While one thread is in the middle of a question, at each line of the library in turn, another thread asks something else and is answered as ever; so is the first."""
    _, k, j = case
    r = gen.rng('L28i', *case)
    f = some_instants(r, 1)[0]
    y = min(max(f[0] + (r.choice([1, -1, 60, 7]) if j % 3 else 0), 2), 9990)
    others = [some_instants(r, 1)[0], [y, f[1] % 12 + 1, f[2] % 28 + 1, r.randrange(24), 0, 0], list(f[:5]) + [59 - f[5]], list(f)]
    if tuple(others[1][:2]) == (1582, 10):
        others[1][1] = 11
    mine = fresh.wide(f)
    want = {}

    if not KINDS_OF:
        KINDS_OF.update(fresh.touched([2024, 2, 10, 12, 30, 0]))

    def ask(i):
        # short questions that go the same way as the first thread, as a rule about another day, then one more
        qs = KINDS_OF.get(fresh.PLACE[0][:2]) or [(1, 'toString'), (1, 'getDayInGanZhiExact')]
        q = [(1, qs[i % min(len(qs), 3)])]
        if len(qs) > 1:
            q.append((1, qs[(i + 1 + i // 7) % min(len(qs), 12)]))
        if i % 4 == 0:
            q.append((i // 4 % len(others), qs[i // 3 % min(len(qs), 40)]))
        if i % 24 == 23:
            q.append((i // 24 % len(others), i // 48 % (fresh.KINDS - 2) + 1))
        return [(x, answer(x)) for x in q]

    def answer(x):
        o = others[x[0]]
        return fresh.part(o, x[1]) if isinstance(x[1], int) else fresh.one(o, x[1])
    spots = sorted(fresh.lines_of(lambda: fresh.wide(f)).items())
    spots = spots[len(spots) * k // 8:len(spots) * (k + 1) // 8]
    size = {}
    for x, _ in spots:
        size[x[:2]] = size.get(x[:2], 0) + 1
    # short functions at several calls of them
    got = fresh.interleaved(lambda: fresh.wide(f), ask, {x: (1, n) if j == 0 else {r.randrange(1, n + 1) for _ in range(4 if size[x[:2]] < 3 else 1)} for x, n in spots})
    if got is None:
        fail('two threads of which one asks while the other is in the middle of a question did not come back')
    for i, x in got[1]:
        if isinstance(x, str):
            fail('a question asked while another thread was in the middle of one failed: %s', x)
        for q, a in x:
            if q not in want:
                want[q] = answer(q)
            if a != want[q]:
                fail('the answers about %04d-%02d-%02d %02d:%02d:%02d (%s) differ while another thread is in the middle of a question about %04d-%02d-%02d %02d:%02d:%02d' % (tuple(others[q[0]]) + (q[1],) + tuple(f)))
            c.ev()
    if got[0] != mine:
        fail('the answers about %04d-%02d-%02d %02d:%02d:%02d differ when other threads ask in the middle of it%s' % (tuple(f) + (' (%s)' % got[0] if ' ' in got[0] or '(' in got[0] else '',)))
    c.nt('interrupted', *case)


@L28.sweep('first-interrupted', lambda tier, seed: [[seed, k] for k in range(8 if tier == 'quick' else 64)])
def l28_first_interrupted(case, c):
    """What the first question of a process does only once is interrupted at each place by another thread that asks the same or something else."""
    r = gen.rng('L28fi', *case)
    todo = some_instants(r, 3)
    want = {tuple(f): fresh.wide(f) for f in todo}
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(r.randrange(1000)), VERIF_REPO=REPO)
    try:
        p = subprocess.run([sys.executable, os.path.join(ROOT, 'vlib', 'fresh.py'), 'races', str(r.randrange(10 ** 6)), '14' if c.tier == 'quick' else '60'], input=json.dumps(todo).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env, timeout=400)
    except subprocess.TimeoutExpired:
        fail('a fresh interpreter asked by two threads did not answer within 400 seconds')
    if p.returncode:
        fail('a fresh interpreter could not answer: %s', p.stderr.decode('utf8', 'replace')[-600:])
    for got, other, place in json.loads(p.stdout.decode()):
        if got is None:
            fail('two threads that ask the first questions of a process did not come back (interrupted at %s)', place)
        for a, f in zip(got, [todo[0]] + [other] * (len(got) - 1)):
            if a != want[tuple(f)]:
                fail('the first answers of a process about %04d-%02d-%02d %02d:%02d:%02d differ when another thread asks in the middle%s' % (tuple(f) + (' (%s)' % a if '(' in a else '',)))
            c.ev()
    c.nt('first interrupted', *case)


@st.composite
def faults(draw):
    y = draw(gen.years(3, 9980))
    t = cal.jdn(y, 1, 1) * cal.DAY + draw(st.integers(0, 364)) * cal.DAY + draw(st.integers(0, 86399))
    return [draw(histories(1, 3)), t, draw(st.one_of(st.integers(1, 30), st.integers(1, 400), st.integers(1, 4000))), draw(histories(1, 3))]


@L28.given('fault', faults, 320)
def l28_fault(case, c):
    """An inner call of a question fails (as it does when the stack or memory runs out); later questions are answered as ever."""
    before, t, k, after = case
    signal.setitimer(signal.ITIMER_REAL, STUCK)
    kept = []
    run_history(before, c, kept)
    failed = fresh.fail_inside(lambda: (lunar_at(t), lunar_at(t + 400 * cal.DAY), lunar_at(t).next(3).getFestivals(), lunar_at(t).getDayNineStar()), k)
    ask_date(t, c)
    run_history(after, c, kept)
    ask_date(t, c)
    ask_year(cal.civil(t // cal.DAY)[0], c)
    if failed:
        c.nt('fault', t, k)
    c.cls('a question failed at an inner call' if failed else 'no failure reached')


# ------------------------------------------------------------------------------------------------ L29
L29 = Prop('L29', 'Every public accessor answers for every date, the same however the date was made',
           'An instant case makes the date in every possible way, asks every public accessor twice and in two orders, and compares; a unit case does the same for years, months, weeks and the like. '
           'Non-trivial: instants in January or February, of 1582, from 23:00 on, in leap months or at the ends of the range.', [TERMS])

NULLABLE = {('Lunar', 'getShuJiu'), ('Lunar', 'getFu'), ('Lunar', 'getCurrentJieQi'), ('Lunar', 'getCurrentJie'), ('Lunar', 'getCurrentQi')}
# accessors of the pinned tree, with the types they answer with
_sig = None


def signatures():
    global _sig
    if _sig is None:
        with open(os.path.join(ROOT, 'refdata', 'signatures.json'), encoding='utf8') as fh:
            _sig = json.load(fh)
    return _sig


def tname(v):
    if isinstance(v, (list, tuple)):
        return 'list'
    if isinstance(v, float):
        return 'float'
    return 'None' if v is None else type(v).__name__


def fits(v, types):
    return tname(v) in types or 'float' in types and type(v) is int


def exercise(o, r, what, c, depth=0, skip=()):
    """All answers of o, with the checks that hold for any object."""
    cls = type(o).__name__
    sig = signatures().get(cls, {})
    names = [k for k in sig if k not in skip]
    a = {}
    for k in names:
        m = getattr(o, k, None)
        if m is None:
            fail('%s of a %s is gone', k, cls)
        v = m()
        if not fits(v, sig[k]):
            fail('%s of %s (%s) answered %r, expected one of the types %s', k, what, cls, v, sig[k])
        a[k] = reflect.form(v, depth)
        if cls != 'Holiday' and isinstance(v, str) and ('None' in v or 'object at 0x' in v):
            fail('%s of %s (%s) answered %r', k, what, cls, v)
    order = r.sample(names, len(names))
    for k in (order if c.tier != 'quick' else order[:20]):
        b = reflect.form(getattr(o, k)(), depth)
        if b != a[k]:
            fail('%s of %s (%s) first answered %r, then %r', k, what, cls, a[k], b)
    if 'toString' in a and '__str__' in a:
        eq(a['__str__'], a['toString'], 'str() of %s', what)
    c.ev(len(names))
    return a


def same(a, b, what):
    for k in a:
        if k in b and a[k] != b[k]:
            fail('%s: %s answers %r here and %r there', what, k, a[k], b[k])


def lunar_full(a, L):
    """The full rendering of a lunar date, put together from its accessors."""
    s = '%s %s(%s)年 %s(%s)月 %s(%s)日 %s(%s)时 纳音[%s %s %s %s] 星期%s' % tuple(a[k] for k in (
        'toString', 'getYearInGanZhi', 'getYearShengXiao', 'getMonthInGanZhi', 'getMonthShengXiao', 'getDayInGanZhi', 'getDayShengXiao', 'getTimeZhi', 'getTimeShengXiao',
        'getYearNaYin', 'getMonthNaYin', 'getDayNaYin', 'getTimeNaYin', 'getWeekInChinese'))
    s += ''.join(' (%s)' % f for f in a['getFestivals'] + a['getOtherFestivals'])
    if a['getJieQi']:
        s += ' [%s]' % a['getJieQi']
    s += ' %s方%s 星宿[%s%s%s](%s) 彭祖百忌[%s %s]' % tuple(a[k] for k in ('getGong', 'getShou', 'getXiu', 'getZheng', 'getAnimal', 'getXiuLuck', 'getPengZuGan', 'getPengZuZhi'))
    for t, k in (('喜神', 'Xi'), ('阳贵神', 'YangGui'), ('阴贵神', 'YinGui'), ('福神', 'Fu'), ('财神', 'Cai')):
        s += ' %s方位[%s](%s)' % (t, a['getDayPosition' + k], a['getDayPosition%sDesc' % k])
    return s + ' 冲[%s] 煞[%s]' % (a['getChongDesc'], a['getSha'])


ALIASES = ('PositionXi', 'PositionXiDesc', 'PositionYangGui', 'PositionYangGuiDesc', 'PositionYinGui', 'PositionYinGuiDesc', 'PositionFu', 'PositionFuDesc', 'PositionCai', 'PositionCaiDesc', 'Chong', 'ChongGan', 'ChongGanTie',
           'ChongShengXiao', 'ChongDesc', 'Sha')


def check_instant(t, c):
    f = cal.unsec(t)
    n, sod = divmod(t, cal.DAY)
    y, m, d, h, i, s = f
    at = cal.fmts(t)
    r = gen.rng('L29', c.seed, t)
    S = Solar.fromYmdHms(*f)
    L = S.getLunar()
    ly, lm, ld = ref.lunar_of(n)
    ss = exercise(S, r, at, c)
    ll = exercise(L, r, at, c)
    eq(ll['toFullString'], lunar_full(ll, L), 'full rendering of %s', at)
    for k in ALIASES:
        eq(ll['get' + k], ll['getDay' + k], '%s and its alias of %s', k, at)
    eq(ll['toString'], '%s年%s月%s' % (ref.year_cn(ly), ref.month_cn(lm), ref.day_cn(ld)), 'rendering of %s', at)
    e = L.getEightChar()
    ee = exercise(e, r, at, c)
    eq(ee['toString'], ' '.join((ee['getYear'], ee['getMonth'], ee['getDay'], ee['getTime'])), 'rendering of the eight characters of %s', at)
    eq(ll['getBaZi'], [ee['getYear'], ee['getMonth'], ee['getDay'], ee['getTime']], 'eight characters of %s', at)
    tt = exercise(L.getTime(), r, at, c)
    exercise(L.getFoto(), r, at, c)
    exercise(L.getTao(), r, at, c)
    # the double hour and the date agree on what both answer
    for k in ('ShengXiao', 'PositionXi', 'PositionYangGui', 'PositionYinGui', 'PositionFu', 'PositionCai', 'Chong', 'ChongGan', 'ChongGanTie', 'ChongShengXiao', 'ChongDesc', 'Sha', 'NaYin', 'TianShen', 'TianShenType',
              'TianShenLuck', 'Yi', 'Ji', 'Xun', 'XunKong', 'Gan', 'Zhi', 'GanIndex', 'ZhiIndex'):
        eq(tt['get' + k], ll['getTime' + k], '%s of the double hour of %s', k, at)
    if c.tier != 'quick' or t % 3 == 0:
        exercise(e.getYun(t % 2), r, at, c)
        for k in ('getNextJie', 'getPrevQi', 'getNextJieQi'):
            exercise(getattr(L, k)(), r, at, c)
    # every way to make the same date gives the same answers
    ways = [Lunar.fromYmdHms(ly, lm, ld, h, i, s), Lunar.fromSolar(Solar.fromYmdHms(*f)), Foto.fromYmdHms(ly + 544, lm, ld, h, i, s).getLunar(), Tao.fromYmdHms(ly + 2697, lm, ld, h, i, s).getLunar(), EightChar.fromLunar(L).getLunar(),
            L.next(1).next(-1) if n < cal.LAST else None, L.getSolar().getLunar()]
    if n >= cal.GREG:
        ways.append(Lunar.fromDate(datetime.datetime(*f)))
    ways = [w for w in ways if w is not None]
    for q, w in enumerate(ways):
        names = list(ll) if c.tier != 'quick' or q == t % len(ways) else r.sample(list(ll), 8)
        same({k: ll[k] for k in names}, reflect.answers(w, 0, names), '%s made in another way (%d)' % (at, q))
    for w in (Solar.fromYmdHms(*f), L.getSolar(), ways[0].getSolar()):
        same(ss, reflect.answers(w, 0, list(ss)), '%s made in another way' % at)
    if sod == 0:
        same(ll, reflect.answers(Lunar.fromYmd(ly, lm, ld), 0, r.sample(list(ll), 40)), '%s made from the day alone' % at)
        same(ss, reflect.answers(Solar.fromYmd(y, m, d), 0, list(ss)), '%s made from the day alone' % at)
    if m <= 2 or y == 1582 or sod >= 82800 or lm < 0 or y in (1, 9999):
        c.nt(t)
        c.cls('January, February, 1582, late hour, leap month or end of range')
    else:
        c.cls('ordinary')


@L29.decider('instant')
def l29_instant(t, c):
    check_instant(t, c)


@L29.sweep('year', lambda tier, seed: gen.year_range(tier, seed, stride=50, dense=(2015, 2030)))
def l29_year(y, c):
    r = gen.rng('L29y', c.seed, y)
    a, b = cal.sec(y, 1, 1), cal.sec(y, 12, 31, 23, 59, 59)
    ny = ref.new_year(y) * cal.DAY
    ts = [b, r.randint(max(a, ny), b), r.randint(max(a, ny), b), ny, r.choice([a, ny - 1, r.randint(a, max(a, ny))])]
    k = r.choice(list(ref.months_of(y)))
    ts.append(ref.M_FIRST[k] * cal.DAY + (ref.M_DAYS[k] - 1) * cal.DAY + r.choice([0, 82800, 86399]))
    if ref.leap_month(y):
        ts.append(ref.M_FIRST[ref.M_INDEX[(y, -ref.leap_month(y))]] * cal.DAY + r.randrange(29) * cal.DAY + r.randrange(cal.DAY))
    if y == 1582:
        ts += [cal.sec(1582, 10, 4, 23, 0, 0), cal.sec(1582, 10, 15), cal.sec(1582, 10, 31, 1, 2, 3)]
    if c.tier != 'quick':
        ts += [r.randint(a, b) for _ in range(6)] + [ref.T[24 * y + r.randrange(1, 25)] + r.choice([-1, 0, 1]) for _ in range(4)]
    ts = sorted(set(t for t in ts if a <= t <= b))
    for t in ts if c.tier != 'quick' or y == 1582 else r.sample(ts, min(3, len(ts))):
        c.sub('instant', t)


@L29.given('random', gen.instants, 240)
def l29_random(t, c):
    check_instant(t, c)
    c.sample('instant', cal.fmts(t))


@L29.sweep('unit', lambda tier, seed: gen.year_range(tier, seed, stride=12))
def l29_unit(y, c):
    r = gen.rng('L29u', c.seed, y)
    m = r.randint(1, 12)
    d = r.choice([x for x in range(1, cal.month_len(y, m) + 1) if not (y == 1582 and m == 10 and 4 < x < 15)])
    st_ = r.randrange(7)
    units = [(SolarYear.fromYear(y), lambda: SolarYear.fromYear(y)), (SolarMonth.fromYm(y, m), lambda: SolarMonth.fromYm(y, m)), (SolarWeek.fromYmd(y, m, d, st_), lambda: SolarWeek.fromYmd(y, m, d, st_)),
             (SolarSeason.fromYm(y, m), lambda: SolarSeason.fromYm(y, m)), (SolarHalfYear.fromYm(y, m), lambda: SolarHalfYear.fromYm(y, m)), (LunarYear.fromYear(y), lambda: LunarYear.fromYear(y))]
    i = r.choice(list(ref.months_of(y)))
    units.append((LunarMonth.fromYm(y, ref.M_MONTH[i]), lambda: LunarMonth.fromYm(y, ref.M_MONTH[i])))
    for o, again in units:
        a = exercise(o, r, '%s of %d' % (type(o).__name__, y), c)
        same(a, reflect.answers(again(), 0, list(a)), '%s of %d made again' % (type(o).__name__, y))
    if y > 1582:
        dt = datetime.datetime(y, m, d)
        for cls in (SolarYear, SolarMonth, SolarSeason, SolarHalfYear):
            o = cls.fromDate(dt)
            w = {SolarYear: units[0], SolarMonth: units[1], SolarSeason: units[3], SolarHalfYear: units[4]}[cls][0]
            same(reflect.answers(w, 0, list(signatures()[cls.__name__])), reflect.answers(o, 0, list(signatures()[cls.__name__])), '%s made from a date' % cls.__name__)
        same(reflect.answers(units[2][0], 0, list(signatures()['SolarWeek'])), reflect.answers(SolarWeek.fromDate(dt, st_), 0, list(signatures()['SolarWeek'])), 'SolarWeek made from a date')
    exercise(NineStar.fromIndex(y % 9), r, 'star', c)
    c.nt('unit', y)
