# -*- coding: utf-8 -*-
"""Every public accessor of an object, found by reflection, with its answer in a comparable form."""
import inspect
import json
import os

_names = {}
_known = None
PREFIX = ('get', 'is', 'to')
OWNER = {'getLunar', 'getSolar', 'getDaYun', 'getLiuNian', 'getXiaoYun', 'getLiuYue', 'getTimes'}


def accessors(cls):
    """Names of the methods that answer without arguments: those of the pinned tree, where it has the class (helpers added later are not asked)."""
    global _known
    r = _names.get(cls)
    if r is None:
        if _known is None:
            with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'refdata', 'signatures.json'), encoding='utf8') as fh:
                _known = json.load(fh)
        r = _names[cls] = [k for k in all_accessors(cls) if k in _known.get(cls.__name__, (k,))]
    return r


_all = {}


def all_accessors(cls):
    r = _all.get(cls)
    if r is None:
        r = []
        for k in dir(cls):
            if not (k.startswith(PREFIX) or k == '__str__') or isinstance(inspect.getattr_static(cls, k), (staticmethod, classmethod)):
                continue
            f = getattr(cls, k)
            if f is object.__str__:
                continue
            if not callable(f):
                continue
            try:
                ps = list(inspect.signature(f).parameters.values())[1:]
            except (TypeError, ValueError):
                continue
            if all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
                r.append(k)
        _all[cls] = r
    return r


def ours(o):
    return type(o).__module__.split('.')[0] == 'lunar_python'


def form(v, depth=1):
    """A comparable form. Objects of the library are opened `depth` levels deep, then rendered."""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, (list, tuple)):
        return [form(x, depth) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(form(x, depth) for x in v)
    if isinstance(v, dict):
        return [[k, form(v[k], depth)] for k in v]
    if ours(v):
        if depth > 0:
            return [type(v).__name__, answers(v, depth - 1)]
        return [type(v).__name__, render(v)]
    return repr(v)


def render(o):
    n = type(o).__name__
    if n == 'Solar':
        return o.toYmdHms()
    if n == 'Lunar':
        return '%s %02d:%02d:%02d' % (o.toString(), o.getHour(), o.getMinute(), o.getSecond())
    if n == 'JieQi':
        return o.getName() + ' ' + o.getSolar().toYmdHms()
    if hasattr(o, 'toFullString'):
        return o.toFullString()
    if hasattr(o, 'toString'):
        return o.toString()
    return n


def answers(o, depth=1, names=None, skip=()):
    out = {}
    for k in names or accessors(type(o)):
        if k not in skip:
            out[k] = form(getattr(o, k)(), depth)
    return out
