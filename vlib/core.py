# -*- coding: utf-8 -*-
"""Runner: sharded sweeps and Hypothesis searches over one property, shrinking, replay files, evidence.

A property is a `Prop`.  It owns named *deciders*: functions `f(case, ctx)` that run the real library on one
JSON-able case and compare it with the oracle.  Cases come from a `sweep` (a deterministic structured
enumeration, every k-th case on worker k) or from a Hypothesis strategy (`given`).  Whatever raises inside a
decider is a violation of the property; whatever raises outside is an error of the check (exit 2).
"""
import array
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', ROOT)


class Violation(AssertionError):
    """The property does not hold on this case."""


class Stuck(Exception):
    """A single case did not come back within a limit far beyond its normal cost."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def eq(got, want, what, *args):
    if got != want:
        raise Violation('%s: got %r, expected %r' % (what % args if args else what, got, want))


def stable_hash(s):
    return int.from_bytes(hashlib.blake2b(s.encode('utf8'), digest_size=7).digest(), 'big')


class Ctx:
    """What one worker measured."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.evaluations = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = {}
        self.sub_case = None
        self.excluded = 0
        self.findings = set()

    def ev(self, n=1):
        self.evaluations += n

    def nt(self, *key):
        """Count this case as non-trivial (by the rule of the property); `key` identifies it."""
        self.nontrivial.add(hash(key) if all(type(k) is int for k in key) else stable_hash(repr(key)))

    def cls(self, label, n=1):
        self.classes[label] = self.classes.get(label, 0) + n

    def sample(self, label, obj, limit=2):
        a = self.samples.setdefault(label, [])
        if len(a) < limit:
            a.append(obj)

    def sub(self, kind, case):
        """Run another decider on a part of this case; a failure is attributed to that part."""
        prev = self.sub_case
        self.sub_case = (kind, case)
        self.prop.deciders[kind](case, self)
        self.sub_case = prev

    def known(self, text):
        self.findings.add(text)


class Prop:
    def __init__(self, pid, title, rule, assumptions=()):
        self.id = pid
        self.title = title
        self.rule = rule
        self.assumptions = list(assumptions)
        self.deciders = {}
        self.plans = []  # (kind, mode, payload)
        self.isolate = False  # run every case in a forked copy of the process
        self.min_nontrivial = 1
        REGISTRY[pid] = self

    def decider(self, kind):
        def deco(f):
            self.deciders[kind] = f
            return f
        return deco

    def sweep(self, kind, cases):
        """cases(tier, seed) -> iterable of JSON-able cases (deterministic)."""
        def deco(f):
            self.deciders[kind] = f
            self.plans.append((kind, 'sweep', cases))
            return f
        return deco

    def given(self, kind, strategy, quick, thorough=None):
        def deco(f):
            self.deciders[kind] = f
            self.plans.append((kind, 'given', (strategy, quick, thorough or quick * 20)))
            return f
        return deco


REGISTRY = {}


def load_library():
    """Import lunar_python from the working tree under test, never from anywhere else."""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    try:
        import lunar_python
    except BaseException:
        traceback.print_exc()
        print('ERROR: cannot import lunar_python from %s' % REPO)
        os._exit(2)
    if os.path.dirname(os.path.dirname(os.path.abspath(lunar_python.__file__))) != os.path.abspath(REPO):
        print('ERROR: lunar_python was imported from %s' % lunar_python.__file__)
        os._exit(2)
    return lunar_python


def get_prop(pid):
    load_library()
    for m in MODULES:
        importlib.import_module('vlib.props.' + m)
    return REGISTRY[pid]


MODULES = [f[:-3] for f in sorted(os.listdir(os.path.join(ROOT, 'vlib', 'props'))) if f.endswith('.py') and f[0] != '_']

CPU_LIMIT = 90
REAL_LIMIT = 240


def _on_alarm(signum, frame):
    raise Stuck('one case did not finish within %d s of CPU time or %d s of real time' % (CPU_LIMIT, REAL_LIMIT))


def arm():
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, REAL_LIMIT)


def disarm():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def run_case(prop, kind, case, ctx):
    """Run one decider on one case. Returns None or a failure dict."""
    ctx.sub_case = None
    if prop.isolate:
        return isolated(prop, kind, case, ctx)
    return run_here(prop, kind, case, ctx)


def isolated(prop, kind, case, ctx):
    """The case in a forked copy of the process, so that what it changes in the library is gone with the copy."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            sub = Ctx(prop, ctx.tier, ctx.seed)
            try:
                f = run_here(prop, kind, case, sub)
                out = dict(failure=f, ev=sub.evaluations, nt=sorted(sub.nontrivial), classes=sub.classes, samples=sub.samples,
                           excluded=sub.excluded, known=sorted(sub.findings))
            except BaseException:
                out = dict(error=traceback.format_exc())
            with os.fdopen(w, 'w', encoding='utf8') as fh:
                json.dump(out, fh, ensure_ascii=False, default=str)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'r', encoding='utf8') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    out = json.loads(data) if data else {'error': 'the copy of the process ended without an answer'}
    if 'error' in out:
        raise RuntimeError(out['error'])
    ctx.evaluations += out['ev']
    ctx.nontrivial.update(out['nt'])
    for k, v in out['classes'].items():
        ctx.cls(k, v)
    for k, v in out['samples'].items():
        for x in v:
            ctx.sample(k, x)
    ctx.excluded += out['excluded']
    ctx.findings.update(out['known'])
    return out['failure']


def run_here(prop, kind, case, ctx):
    arm()
    try:
        prop.deciders[kind](case, ctx)
        return None
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        disarm()
        return describe(e, kind, case, ctx)
    finally:
        disarm()


def describe(e, kind, case, ctx):
    tb = traceback.extract_tb(e.__traceback__)
    where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]]
    msg = str(e) if isinstance(e, (Violation, Stuck)) else '%s: %s' % (type(e).__name__, e)
    out = {'kind': kind, 'case': case, 'message': msg[:2000], 'trace': where}
    if ctx.sub_case is not None:
        out['sub'] = {'kind': ctx.sub_case[0], 'case': ctx.sub_case[1]}
    return out


def _candidates(case):
    """Generic smaller variants of a JSON-able case."""
    if isinstance(case, list):
        n = len(case)
        if n and any(isinstance(x, (list, dict, str)) for x in case):
            k = n // 2
            while k >= 1:
                for i in range(0, n, k):
                    yield case[:i] + case[i + k:]
                k //= 2
        for i, x in enumerate(case):
            if isinstance(x, (list, dict)):
                for y in _candidates(x):
                    yield case[:i] + [y] + case[i + 1:]
    elif isinstance(case, dict):
        for k in case:
            for y in _candidates(case[k]):
                d = dict(case)
                d[k] = y
                yield d


def shrink(prop, failure, budget_s=20):
    """Greedy structural shrinking for sweep failures (Hypothesis shrinks its own)."""
    if 'sub' in failure:
        f2 = run_case(prop, failure['sub']['kind'], failure['sub']['case'], Ctx(prop, 'replay', 0))
        if f2 is not None:
            f2.pop('sub', None)
            f2['from'] = {'kind': failure['kind'], 'case': failure['case']}
            failure = f2
    end = time.time() + budget_s
    again = True
    while again and time.time() < end:
        again = False
        for c in _candidates(failure['case']):
            if time.time() > end:
                break
            try:
                f2 = run_case(prop, failure['kind'], c, Ctx(prop, 'replay', 0))
            except BaseException:
                continue
            # only accept the same kind of failure
            if f2 is not None and f2['message'].split(':')[0] == failure['message'].split(':')[0]:
                f2.pop('sub', None)
                if 'from' in failure:
                    f2['from'] = failure['from']
                failure = f2
                again = True
                break
    return failure


def worker(pid, tier, seed, shard, nshards, conn, only):
    try:
        signal.signal(signal.SIGVTALRM, _on_alarm)
        signal.signal(signal.SIGALRM, _on_alarm)
        sys.setrecursionlimit(3000)
        prop = get_prop(pid)
        ctx = Ctx(prop, tier, seed)
        failures = []
        for kind, mode, payload in prop.plans:
            if only and kind != only:
                continue
            t0 = time.time()
            if mode == 'sweep':
                f = sweep_shard(prop, kind, payload, ctx, tier, seed, shard, nshards)
            else:
                f = hyp_shard(prop, kind, payload, ctx, tier, seed, shard, nshards)
            ctx.cls('seconds spent in %s' % kind, round(time.time() - t0, 1))
            if f is not None:
                f['plan'] = kind
                f['shard'] = [shard, nshards]
                failures.append(f)
                break
        res = dict(ev=ctx.evaluations, nt=array.array('q', ctx.nontrivial).tobytes(), classes=ctx.classes,
                   samples=ctx.samples, failures=failures, error=None, known=sorted(ctx.findings), excluded=ctx.excluded)
    except BaseException:
        res = dict(error=traceback.format_exc())
    conn.send_bytes(json.dumps({k: v for k, v in res.items() if k != 'nt'}, ensure_ascii=False, default=str).encode('utf8'))
    conn.send_bytes(res.get('nt', b''))
    conn.close()
    os._exit(0)


def sweep_shard(prop, kind, cases, ctx, tier, seed, shard, nshards):
    i = -1
    for case in cases(tier, seed):
        i += 1
        if i % nshards != shard:
            continue
        f = run_case(prop, kind, case, ctx)
        if f is not None:
            f['index'] = i
            f0 = f
            try:
                f = shrink(prop, f)
            except BaseException:
                f = f0
            f['index'] = i
            return f
    return None


class _Found(Exception):
    pass


def hyp_shard(prop, kind, payload, ctx, tier, seed, shard, nshards):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    strategy, quick, thorough = payload
    n = quick if tier == 'quick' else thorough
    n = (n + nshards - 1) // nshards
    if callable(strategy):
        strategy = strategy()
    state = {'first': None, 'last': None}

    def body(case):
        f = run_case(prop, kind, case, ctx)
        if f is not None:
            if state['first'] is None:
                state['first'] = f
            state['last'] = f
            raise _Found(f['message'][:60])

    test = given(strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)(test)
    test = hypothesis.seed(stable_hash('%s/%s/%d/%d/%d' % (prop.id, kind, seed, shard, nshards)))(test)
    try:
        test()
    except BaseException:
        if state['last'] is None:
            raise
        f = state['last']
        # the last run Hypothesis makes is its minimal example; if that one is not reproducible keep the first
        return f
    return None


def replay_file(path, quiet=False):
    """Plain regression run of a saved failing case, bypassing the generators. Exit 1 when it still fails."""
    with open(path, encoding='utf8') as fh:
        r = json.load(fh)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    prop = get_prop(r['property'])
    if r.get('mode') == 'shard':
        kind, mode, payload = [p for p in prop.plans if p[0] == r['plan']][0]
        ctx = Ctx(prop, r['tier'], r['seed'])
        g = sweep_shard if mode == 'sweep' else hyp_shard
        f = g(prop, kind, payload, ctx, r['tier'], r['seed'], r['shard'][0], r['shard'][1])
    else:
        f = run_case(prop, r['kind'], r['case'], Ctx(prop, 'replay', r.get('seed', 1)))
    if f is None:
        if not quiet:
            print('replay passed: the case no longer fails')
        return 0
    if not quiet:
        print('replay fails: %s' % f['message'])
        for t in f['trace']:
            print('    ' + t)
    return 1


def write_replay(pid, tier, seed, f):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (pid, tier, seed))

    def save(**kw):
        r = dict(property=pid, tier=tier, seed=seed, message=f['message'], trace=f['trace'])
        r.update(kw)
        with open(path, 'w', encoding='utf8') as fh:
            json.dump(r, fh, ensure_ascii=False, indent=1)
            fh.write('\n')

    def reproduces():
        try:
            p = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), pid, '--replay', path], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=120)
            return p.returncode == 1
        except subprocess.TimeoutExpired:
            return True
    save(kind=f['kind'], case=f['case'])
    if not reproduces() and 'from' in f:
        save(kind=f['from']['kind'], case=f['from']['case'])
        if reproduces():
            return path, 'reproduces with the enclosing case'
    elif True:
        return path, 'reproduces from the saved case'
    save(mode='shard', plan=f['plan'], shard=f['shard'], kind=f['kind'], case=f['case'])
    return path, 'depends on the cases before it; the replay runs the whole shard'


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                out.append(line[len('finding: property=%s ' % pid):])
    return out


def main(argv):
    if len(argv) < 2:
        print('usage: check.py ID [quick|thorough] [--replay FILE] [--only KIND] [--workers N]')
        return 2
    pid = argv[1]
    if pid == '--selftest':
        return selftest()
    tier = os.environ.get('VERIF_TIER') or 'quick'
    only = None
    workers = int(os.environ.get('VERIF_WORKERS', '8'))
    replay = None
    i = 2
    while i < len(argv):
        a = argv[i]
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = argv[i + 1]
            i += 1
        elif a == '--only':
            only = argv[i + 1]
            i += 1
        elif a == '--workers':
            workers = int(argv[i + 1])
            i += 1
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if replay:
        return replay_file(replay)
    t0 = time.time()
    mp = multiprocessing.get_context('fork')
    procs = []
    for s in range(workers):
        r, w = mp.Pipe(False)
        p = mp.Process(target=worker, args=(pid, tier, seed, s, workers, w, only), daemon=True)
        p.start()
        w.close()
        procs.append((p, r))
    ev = 0
    nt = set()
    classes = {}
    samples = {}
    failures = []
    known = set()
    excluded = 0
    errors = []
    pending = {r: p for p, r in procs}
    from multiprocessing.connection import wait
    deadline = None
    while pending:
        ready = wait(list(pending), timeout=1.0)
        for r in ready:
            p = pending.pop(r)
            try:
                res = json.loads(r.recv_bytes().decode('utf8'))
                a = array.array('q')
                a.frombytes(r.recv_bytes())
            except EOFError:
                p.join(5)
                errors.append('worker ended without an answer (exit code %s)' % p.exitcode)
                continue
            if res.get('error'):
                errors.append(res['error'])
                continue
            ev += res['ev']
            nt.update(a)
            excluded += res['excluded']
            known.update(res['known'])
            for k, v in res['classes'].items():
                classes[k] = classes.get(k, 0) + v
            for k, v in res['samples'].items():
                samples.setdefault(k, []).extend(v)
            if res['failures']:
                failures.extend(res['failures'])
                if deadline is None:
                    deadline = time.time() + 15
        if deadline is not None and time.time() > deadline:
            for r, p in pending.items():
                p.terminate()
            break
    prop = None
    if failures or errors:
        pass
    violations = len(failures)
    wall = time.time() - t0
    rc = 0
    for t in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if failures:
        failures.sort(key=lambda f: (len(json.dumps(f['case'], default=str)), json.dumps(f['case'], default=str)))
        f = failures[0]
        path, how = write_replay(pid, tier, seed, f)
        print('%s' % f['message'])
        print('  case: %s %s' % (f['kind'], json.dumps(f['case'], ensure_ascii=False, default=str)[:1000]))
        for t in f['trace']:
            print('    ' + t)
        print('  %s' % how)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif errors:
        print('ERROR in the check of %s:\n%s' % (pid, errors[0]))
        rc = 2
    title, rule, assumptions = prop_info(pid)
    samp = []
    for k in sorted(samples):
        for x in samples[k][:2]:
            samp.append({'kind': k, 'case': x})
    if rc == 0 and not only and len(nt) < 2:
        print('ERROR: the check of %s generated no non-trivial case' % pid)
        rc = 2
    evid = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(nt), 'rule': rule, 'samples': samp[:24],
                     'distribution': {k: (round(v, 1) if isinstance(v, float) else v) for k, v in sorted(classes.items())},
                     'excluded_as_known': excluded, 'workers': workers},
        'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations,
    }
    d = os.path.join(OUT, 'evidence')
    os.makedirs(d, exist_ok=True)
    if not only:
        with open(os.path.join(d, pid + '.json'), 'w', encoding='utf8') as fh:
            json.dump(evid, fh, ensure_ascii=False, indent=1)
            fh.write('\n')
    if rc == 0:
        print('%s %s: held on %d evaluations, %d distinct non-trivial, %.1f s' % (pid, tier, ev, len(nt), wall))
    return rc


def selftest():
    """Setup: the reference data loads, the independent calendar agrees with itself and every module imports."""
    load_library()
    from . import cal, ref
    for n in (cal.FIRST, cal.GREG - 1, cal.GREG, cal.LAST):
        assert cal.jdn(*cal.civil(n)) == n
    assert cal.civil(cal.GREG - 1) == (1582, 10, 4) and cal.civil(cal.GREG) == (1582, 10, 15)
    assert ref.tables() and len(ref.M_FIRST) > 120000
    for m in MODULES:
        importlib.import_module('vlib.props.' + m)
    import hypothesis
    print('%d properties, hypothesis %s' % (len(REGISTRY), hypothesis.__version__))
    return 0


def prop_info(pid):
    p = get_prop(pid)
    return p.title, p.rule, p.assumptions
