#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Confirm planted changes and keep them under seeded/: plant.py [--keep] [--detect] [--jobs N] [ID ...]

For every entry of mutants.py: copy /repo, apply the edit, run the 225 stable tests and the demonstration in the changed copy
and in an unchanged one, and (with --detect) the quick check of its property with VERIF_REPO set to the changed copy.
Kept only if the tests pass and the demonstration tells the two trees apart, whether or not the check catches it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BASE = 'ea15b86'
STABLE = json.load(open('/opt/vp/BASELINE.json'))

HEAD = '''# -*- coding: utf-8 -*-
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import lunar_python
from lunar_python import *
from lunar_python.util import *
from lunar_python.eightchar import *


def same(actual, expected, what):
    if actual != expected:
        print('WRONG: %s is %r, expected %r' % (what, actual, expected))
        sys.exit(1)


'''

SH = '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def run(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONUTF8='1', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(m, keep, detect):
    mid, prop, edits, demo, needs, breaks = m
    tmp = tempfile.mkdtemp(prefix='plant_')
    res = {'id': mid, 'property': prop}
    try:
        tree = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', tree], check=True)
        touched = False
        for rel, old, new in edits:
            path = os.path.join(tree, 'lunar_python', rel)
            s = open(path, encoding='utf-8').read()
            if s.count(old) != 1:
                res['status'] = 'edit matches %d times: %s' % (s.count(old), old[:60])
                return res
            open(path, 'w', encoding='utf-8').write(s.replace(old, new))
        d = subprocess.run(['git', 'diff', '-U3'], cwd=tree, stdout=subprocess.PIPE, text=True).stdout
        for rel in set(e[0] for e in edits):
            b = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', 'lunar_python/' + rel], cwd=tree, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            dd = subprocess.run(['git', 'diff', '-U0', '--', 'lunar_python/' + rel], cwd=tree, stdout=subprocess.PIPE, text=True).stdout
            for a, n in re.findall(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
                for i in range(int(a), int(a) + int(n or 1)):
                    if b[i - 1].lstrip('^').startswith(BASE[:7]):
                        touched = True
        if not touched:
            res['status'] = 'changes no line of the original repository'
            return res
        code, out = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', '--rootdir=' + tree,
                         '-o', 'python_files=*Test.py test_*.py *_test.py', 'test'], tree, 300)
        if code != 0:
            res['status'] = 'tests fail: ' + ' '.join(out.splitlines()[-4:])[-220:]
            return res
        ddir = os.path.join(tmp, 'demo')
        os.makedirs(ddir)
        open(os.path.join(ddir, 'demo.py'), 'w', encoding='utf-8').write(HEAD + demo.strip('\n') + '\n')
        open(os.path.join(ddir, 'demo.sh'), 'w').write(SH)
        c1, o1 = run(['bash', os.path.join(ddir, 'demo.sh')], '/repo', 300)
        if c1 != 0:
            res['status'] = 'demo fails on the unchanged tree: ' + o1[-300:]
            return res
        c2, o2 = run(['bash', os.path.join(ddir, 'demo.sh')], tree, 300)
        if c2 == 0:
            res['status'] = 'demo passes with the change'
            return res
        res['demo'] = o2.strip().splitlines()[-1][:160] if o2.strip() else ''
        res['status'] = 'ok'
        if keep:
            dst = os.path.join(VERIF, 'seeded', mid)
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(dst)
            open(os.path.join(dst, 'patch.diff'), 'w', encoding='utf-8').write(d)
            shutil.copy(os.path.join(ddir, 'demo.py'), dst)
            shutil.copy(os.path.join(ddir, 'demo.sh'), dst)
            os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(dst, 'meta.json'), 'w', encoding='utf-8'),
                      ensure_ascii=False, indent=1)
        if detect:
            outd = os.path.join(tmp, 'out')
            os.makedirs(outd)
            for p in detect if isinstance(detect, list) else [prop]:
                c, o = run(['python3-vt', os.path.join(VERIF, 'check.py'), p, 'quick', '--workers', '2'], VERIF, 900,
                           {'VERIF_REPO': tree, 'VERIF_OUT': outd, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick'})
                line = [x for x in o.splitlines() if 'VIOLATION' in x]
                res['caught'] = c == 1 and any(('property=' + prop) in x for x in line)
                res['out'] = (line[0] if line else ' '.join(o.splitlines()[-2:]))[-200:] + ' rc=%d' % c
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def main():
    import mutants
    args = sys.argv[1:]
    keep, detect, jobs = '--keep' in args, '--detect' in args, 6
    if '--jobs' in args:
        i = args.index('--jobs')
        jobs = int(args[i + 1])
        del args[i:i + 2]
    ids = [a for a in args if not a.startswith('--')]
    ms = [m for m in mutants.ALL if not ids or m[0] in ids or m[1] in ids or m[0][0] in ids]
    with ThreadPoolExecutor(jobs) as ex:
        out = []
        for r in ex.map(lambda m: one(m, keep, detect), ms):
            out.append(r)
            print('%-6s %-4s %s' % (r['id'], r['property'], r['status']), '' if r['status'] != 'ok' else '| %s | %s' % (r.get('caught'), r.get('demo') if r.get('caught') is not False else 'MISSED ' + r.get('out', '')), flush=True)
    bad = [r for r in out if r['status'] != 'ok']
    print('%d kept, %d dropped, %d caught, %d missed' % (len(out) - len(bad), len(bad), sum(r.get('caught') is True for r in out), sum(r.get('caught') is False for r in out)))


main()
