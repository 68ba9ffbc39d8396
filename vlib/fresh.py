# -*- coding: utf-8 -*-
"""Answers every accessor of the given instants in this (fresh) interpreter: instants on stdin, one digest per line on stdout."""
import hashlib
import json
import os
import sys

if __name__ == '__main__':
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import reflect  # noqa: E402


def digest(fields):
    from lunar_python import Solar
    s = Solar.fromYmdHms(*fields)
    L = s.getLunar()
    e = L.getEightChar()
    a = [reflect.answers(s, 0), reflect.answers(L, 0), reflect.answers(e, 0), reflect.answers(L.getTime(), 0), reflect.answers(L.getFoto(), 0), reflect.answers(L.getTao(), 0), reflect.answers(e.getYun(1), 0)]
    return a, hashlib.sha256(json.dumps(a, ensure_ascii=True, sort_keys=True).encode()).hexdigest()


def lunar_of(f):
    from lunar_python import Solar
    return Solar.fromYmdHms(*f).getLunar()


def kinds():
    """How to make one object of every kind for an instant."""
    from lunar_python import LunarMonth, LunarYear, Solar, SolarHalfYear, SolarMonth, SolarSeason, SolarWeek, SolarYear
    L = lunar_of
    return [lambda f: Solar.fromYmdHms(*f), L, lambda f: L(f).getEightChar(), lambda f: L(f).getTime(), lambda f: L(f).getFoto(), lambda f: L(f).getTao(),
            lambda f: L(f).getEightChar().getYun(1), lambda f: L(f).getEightChar().getYun(1).getDaYun()[1], lambda f: L(f).getEightChar().getYun(1).getDaYun()[1].getLiuNian()[0],
            lambda f: LunarYear.fromYear(L(f).getYear()), lambda f: (lambda x: LunarMonth.fromYm(x.getYear(), x.getMonth()))(L(f)),
            lambda f: SolarMonth.fromYm(f[0], f[1]), lambda f: SolarWeek.fromYmd(f[0], f[1], f[2], f[2] % 7), lambda f: SolarYear.fromYear(f[0]), lambda f: SolarSeason.fromYm(f[0], f[1]),
            lambda f: SolarHalfYear.fromYm(f[0], f[1]), lambda f: L(f).getNextJie(), lambda f: L(f).getDayNineStar()]


KINDS = 19


def asked(f):
    """Questions that take arguments (steps, conversions, searches and look-ups) about an instant, none at the ends of the calendar."""
    from lunar_python import Foto, Lunar, LunarMonth, LunarTime, LunarYear, Solar, SolarHalfYear, SolarMonth, SolarSeason, SolarWeek, SolarYear, Tao
    from lunar_python.util import HolidayUtil, LunarUtil, SolarUtil
    if not 5 <= f[0] <= 9990:
        return []
    s = Solar.fromYmdHms(*f)
    L = s.getLunar()
    a, b, k = f[0], f[1], f[2]
    m = LunarMonth.fromYm(L.getYear(), L.getMonth())
    w = SolarWeek.fromYmd(a, b, k, k % 7)
    g = [L.getYearInGanZhiExact(), L.getMonthInGanZhiExact(), L.getDayInGanZhiExact2(), L.getTimeInGanZhi()]
    t, e, ly, p, n = L.getTime(), L.getEightChar(), LunarYear.fromYear(L.getYear()), 1 + k % 2, 1 + a % 3
    e.setSect(p)
    return [
        lambda: s.next(37 + k), lambda: s.next(-400 - k), lambda: s.next(-3, True), lambda: s.next(2, True), lambda: s.nextHour(-50), lambda: s.nextMonth(7), lambda: s.nextYear(-1),
        lambda: s.subtract(Solar.fromYmd(2000, 1, 1)), lambda: s.subtractMinute(Solar.fromYmdHms(a, 1, 1, 1, 1, 1)), lambda: Solar.fromJulianDay(s.getJulianDay()), lambda: w.next(3, True),
        lambda: w.next(-2, False), lambda: w.next(-6, True), lambda: SolarMonth.fromYm(a, b).next(-14), lambda: SolarMonth.fromYm(a, b).getWeeks(k % 7), lambda: SolarSeason.fromYm(a, b).next(3),
        lambda: SolarHalfYear.fromYm(a, b).next(-3), lambda: SolarYear.fromYear(a).next(2), lambda: m.next(k), lambda: m.next(-k), lambda: LunarYear.fromYear(L.getYear()).next(1).getYear(), lambda: L.next(k),
        lambda: Lunar.fromYmdHms(L.getYear(), L.getMonth(), L.getDay(), f[3], f[4], f[5]), lambda: Foto.fromYmd(L.getYear() + 544, L.getMonth(), L.getDay()),
        lambda: Tao.fromYmd(L.getYear() + 2697, L.getMonth(), L.getDay()), lambda: LunarTime.fromYmdHms(L.getYear(), L.getMonth(), L.getDay(), f[3], f[4], f[5]),
        lambda: [h.toString() for h in HolidayUtil.getHolidays(2001 + a % 24, b)], lambda: HolidayUtil.getHoliday(2001 + a % 24, b, k), lambda: HolidayUtil.getHolidaysByTarget(2001 + a % 24, 1, 1),
        lambda: SolarUtil.getDaysBetween(a, b, k, a + 1, 1, 1), lambda: SolarUtil.getDaysInYear(a, b, k), lambda: SolarUtil.getWeeksOfMonth(a, b, k % 7), lambda: LunarUtil.getJiaZiIndex(g[2]),
        lambda: LunarUtil.getXun(g[1]), lambda: LunarUtil.getXunKong(g[0]), lambda: LunarUtil.getTimeZhiIndex('%02d:%02d' % (f[3], f[4])), lambda: LunarUtil.getDayYi(g[1], g[2]),
        lambda: LunarUtil.getDayJi(g[1], g[2]), lambda: LunarUtil.getDayJiShen(L.getMonth(), g[2]), lambda: LunarUtil.getDayXiongSha(L.getMonth(), g[2]), lambda: LunarUtil.getTimeYi(g[2], g[3]),
        lambda: LunarUtil.getTimeJi(g[2], g[3]), lambda: L.getEightChar().getYun(0, 2).getStartSolar(), lambda: L.getPrevQi(True).getSolar(),
        lambda: (Solar.fromBaZi(*(g + [2, min(a, 2020)])) if 1900 < a else 0), lambda: s.nextMonth(-k), lambda: s.nextYear(k), lambda: s.nextHour(k * 31),
        lambda: SolarWeek.fromYmd(a, b, k, b % 7).getIndexInYear(), lambda: SolarMonth.fromYm(a, b).getWeeks(a % 7), lambda: SolarYear.fromYear(a).getMonths(), lambda: SolarSeason.fromYm(a, b).getMonths(),
        lambda: SolarHalfYear.fromYm(a, b).getMonths(), lambda: L.getDayPositionFu(p), lambda: L.getDayPositionFuDesc(p), lambda: t.getPositionFu(p), lambda: t.getPositionFuDesc(p),
        lambda: L.getTimePositionFu(p), lambda: L.getTimePositionFuDesc(p), lambda: m.getPositionFu(p), lambda: m.getPositionFuDesc(p), lambda: ly.getPositionFu(p), lambda: ly.getPositionFuDesc(p),
        lambda: L.getMonthPositionTaiSuiDesc(n), lambda: L.getDayYi(p), lambda: L.getDayJi(p), lambda: L.getYearNineStar(n).toString(), lambda: L.getMonthNineStar(n).toString(),
        lambda: L.getYearPositionTaiSui(n), lambda: L.getMonthPositionTaiSui(n), lambda: L.getDayPositionTaiSui(n), lambda: L.getYearPositionTaiSuiDesc(n), lambda: L.getDayPositionTaiSuiDesc(n),
        lambda: e.getDay(), lambda: e.toString(), lambda: e.getYun(p % 2, p).getStartDay(), lambda: e.getYun(1, p).getStartSolar().toYmd(), lambda: L.getNextJie(p == 1).getName(),
        lambda: L.getPrevJie(p == 1).getSolar().toYmdHms(), lambda: L.getNextQi(p == 1).getName(), lambda: L.getPrevJieQi(p == 1).getName(), lambda: [x.getGanZhi() for x in e.getYun(0, p).getDaYun(n + 2)],
        lambda: [x.getGanZhi() for x in e.getYun(1, p).getDaYun()[n].getLiuNian(n + 1)], lambda: [x.getGanZhi() for x in e.getYun(0).getDaYun()[0].getXiaoYun(n)]]


def text(o):
    from lunar_python import Solar
    return o if o is None or isinstance(o, (int, float, bool, str)) else [text(x) for x in o] if isinstance(o, (list, tuple)) else o.toYmdHms() if isinstance(o, Solar) else o.toString()


def calls(f):
    """The answers to the questions that take arguments."""
    return [text(q()) for q in asked(f)]


def made(f, i):
    """What an object of kind i answers about an instant."""
    return calls(f) if i == KINDS - 1 else reflect.answers(kinds()[i](f), 0)


def bundle(f):
    """One object of every kind for an instant."""
    return [k(f) for k in kinds()]


def part(fields, i):
    """The answers of the object of kind i."""
    return hashlib.sha256(json.dumps(made(fields, i % KINDS), ensure_ascii=True, sort_keys=True).encode()).hexdigest()


def wide(fields):
    """The answers of one object of every kind."""
    return hashlib.sha256(json.dumps([reflect.answers(o, 0) for o in bundle(fields)] + [calls(fields)], ensure_ascii=True, sort_keys=True).encode()).hexdigest()


def is_function(code):
    # not the body of a module or class, which runs once by nature
    return code.co_flags & 3 == 3 and 'lunar_python' in code.co_filename


def lines_of(f):
    """How often each line of the library's functions runs during f(), in the order of the first time."""
    seen = {}

    def local(frame, event, arg):
        if event == 'line':
            k = (frame.f_code.co_filename, frame.f_code.co_firstlineno, frame.f_lineno)
            seen[k] = seen.get(k, 0) + 1
        return local
    sys.settrace(lambda frame, event, arg: local if is_function(frame.f_code) else None)
    try:
        f()
    finally:
        sys.settrace(None)
    return seen


PLACE = [None]  # where the first thread of interleaved() stands


def one(fields, q):
    """The answer to one question (kind, accessor or place among those with arguments)."""
    i, k = q
    if i == KINDS - 1:
        a = asked(fields)
        return text(a[k]()) if k < len(a) else None
    return reflect.answers(kinds()[i](fields), 0, [k])


def functions_of(f):
    """The library's functions that f() runs, and how many calls that takes."""
    seen = set()
    n = [0]

    def note(frame, event, arg):
        if is_function(frame.f_code):
            seen.add((frame.f_code.co_filename, frame.f_code.co_firstlineno))
            n[0] += 1
    sys.settrace(note)
    try:
        f()
    finally:
        sys.settrace(None)
    return seen, n[0]


def touched(fields):
    """For each of the library's functions the questions whose answers run it, short ones first."""
    out = {}

    def note(q, x, more):
        for k in x[0]:
            out.setdefault(k, []).append((x[1] + more, q))
    ks = kinds()
    for i, k in enumerate(ks):
        o = [None]

        def make():
            o[0] = k(fields)
        x = functions_of(make)
        names = reflect.accessors(type(o[0]))
        for w in names[:2]:
            note((i, w), x, 0)
        for w in names:
            o[0] = k(fields)
            note((i, w), functions_of(lambda: reflect.answers(o[0], 0, [w])), x[1])
    a = asked(fields)
    for i in range(len(a)):
        note((KINDS - 1, i), functions_of(lambda: text(a[i]())), 200)
    return {k: [q for _, q in sorted(v, key=lambda x: (x[0], str(x[1])))] for k, v in out.items()}


def interleaved(f, g, stops, limit=60):
    """Runs f() in one thread; before each of the lines `stops` {(file, first line of the function, line): the occurrences to stop at} runs, another thread
    answers g(i) in full, unless it has to wait for the first one. Returns the answer of f and those of g (exceptions as values), or None if they do not come back."""
    import queue
    import threading
    import time
    asked, out, back = queue.Queue(), [], []
    busy = threading.Event()
    where = set(k[:2] for k in stops)
    left = [sum(len(w) for w in stops.values())]

    def guarded(h, *a):
        try:
            return h(*a)
        except BaseException as e:
            return repr(e)

    def second():
        while True:
            i = asked.get()
            if i is None:
                return
            out.append((i, guarded(g, i)))
            busy.clear()
    b = threading.Thread(target=second, daemon=True)
    count = {}
    n = [0]

    def meet(k):
        # the other thread is idle, or it has been waiting for this one since an earlier stop
        if not busy.is_set():
            busy.set()
            PLACE[0] = k
            asked.put(n[0])
            n[0] += 1
        still, at = 0, None
        while busy.is_set() and still < 12:
            time.sleep(0.0005 if still < 4 else 0.002)
            fr = sys._current_frames().get(b.ident)
            now = (id(fr), fr.f_lasti) if fr is not None else None
            still = still + 1 if now == at else 0
            at = now

    def local(frame, event, arg):
        if event == 'line':
            k = (frame.f_code.co_filename, frame.f_code.co_firstlineno, frame.f_lineno)
            w = stops.get(k)
            if w is not None:
                count[k] = count.get(k, 0) + 1
                if count[k] in w:
                    left[0] -= 1
                    meet(k)
            if left[0] <= 0:
                sys.settrace(None)
                return None
        return local

    def first():
        sys.settrace(lambda frame, event, arg: local if (frame.f_code.co_filename, frame.f_code.co_firstlineno) in where else None)
        try:
            back.append(guarded(f))
        finally:
            sys.settrace(None)
    a = threading.Thread(target=first, daemon=True)
    b.start()
    a.start()
    a.join(limit)
    asked.put(None)
    b.join(limit)
    if a.is_alive() or b.is_alive():
        return None
    return back[0], out


def child(h):
    """The answer of h() in a forked copy of this process, None if it does not come back."""
    p, q = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(p)
            with os.fdopen(q, 'w') as fh:
                fh.write(json.dumps(h()))
        finally:
            os._exit(0)
    os.close(q)
    with os.fdopen(p) as fh:
        s = fh.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else None


def first_races(todo, seed, most):
    """In a process that was asked nothing yet: what a first question does only once is interrupted, each place in its own forked process, by another thread that
    asks the same or something else. Returns for each place the two answers, the other question and the place."""
    import random
    r = random.Random(seed)

    f = todo[0]

    def census():
        x = lines_of(lambda: wide(f))
        for g in todo[1:]:
            wide(g)
        y = lines_of(lambda: wide(f))
        return [[list(k), n] for k, n in x.items() if k not in y]
    spots = []
    for k, n in child(census) or []:
        spots += [(tuple(k), i) for i in sorted({1, 2, 3, (n + 1) // 2, n}) if 1 <= i <= n]
    r.shuffle(spots)
    # every function in turn, so that a long one does not crowd out the others
    rank, seen = [], {}
    for x in spots:
        seen[x[0][:2]] = seen.get(x[0][:2], 0) + 1
        rank.append(seen[x[0][:2]])
    spots = [spots[i] for i in sorted(range(len(spots)), key=lambda i: rank[i])][:most]
    res = []
    for k, i in spots:
        other = r.choice(todo)
        got = child(lambda: (lambda x: x and [x[0]] + [v for _, v in x[1]])(interleaved(lambda: wide(f), lambda n: wide(other), {k: (i,)})))
        res.append([got, other, '%s line %d' % (os.path.basename(k[0]), k[2])])
    return res


class Broken(Exception):
    """An inner call fails."""


def fail_inside(f, k):
    """Runs f and makes the k-th call inside the library fail. True if it came to that."""
    left = [k]

    def trace(frame, event, arg):
        if 'lunar_python' in frame.f_code.co_filename:
            left[0] -= 1
            if left[0] == 0:
                raise Broken()
        return None
    sys.settrace(trace)
    try:
        f()
    except Broken:
        return True
    finally:
        sys.settrace(None)
    return False


def at_once(todo, seed):
    import random
    import threading
    out = [None] * len(todo)
    gate = threading.Barrier(len(todo))

    def body(i):
        gate.wait()
        out[i] = digest(todo[i])[1]
    sys.setswitchinterval(random.Random(seed).choice([1e-6, 1e-6, 1e-5, 1e-4, 1e-3]))
    ts = [threading.Thread(target=body, args=(i,)) for i in range(len(todo))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


if __name__ == '__main__':
    todo = json.load(sys.stdin)
    out = {}
    mode = sys.argv[1] if len(sys.argv) > 1 else ''
    if mode == 'threads':
        import lunar_python  # noqa: F401
        out = at_once(todo, int(sys.argv[2]))
    elif mode == 'races':
        import lunar_python  # noqa: F401
        print(json.dumps(first_races(todo, int(sys.argv[2]), int(sys.argv[3]))))
        sys.exit(0)
    else:
        if mode == 'fault':
            import lunar_python  # noqa: F401
            for j in (0, 1):
                fail_inside(lambda: digest(todo[j]), int(sys.argv[2]) + 7 * j)
        for i in reversed(range(len(todo))):
            out[i] = digest(todo[i])[1]
    for i in range(len(todo)):
        print(out[i])
