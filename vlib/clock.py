# -*- coding: utf-8 -*-
"""Searches by eight characters in this (fresh) interpreter, whose clock shows the instants asked for: [[clock, arguments], ...] on stdin, the instants found on stdout.
The library is imported while the clock shows the first of them."""
import datetime
import json
import os
import sys
import time

NOW = [0.0]


def install():
    class Moment(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(NOW[0], tz)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(NOW[0])

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(NOW[0], datetime.timezone.utc).replace(tzinfo=None)

    class Today(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(NOW[0])
    local, gm, text = time.localtime, time.gmtime, time.strftime
    datetime.datetime, datetime.date = Moment, Today
    time.time, time.time_ns = (lambda: NOW[0]), (lambda: int(NOW[0] * 10 ** 9))
    time.localtime = lambda s=None: local(NOW[0] if s is None else s)
    time.gmtime = lambda s=None: gm(NOW[0] if s is None else s)
    time.strftime = lambda f, t=None: text(f, local(NOW[0]) if t is None else t)


if __name__ == '__main__':
    os.environ['TZ'] = 'UTC'
    time.tzset()
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    todo = json.load(sys.stdin)
    when = [(datetime.datetime(*at, tzinfo=datetime.timezone.utc) - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)).total_seconds() for at, _ in todo]
    NOW[0] = when[0]
    install()
    from lunar_python import Solar
    out = []
    for s, (_, args) in zip(when, todo):
        NOW[0] = s
        out.append([[x.getYear(), x.getMonth(), x.getDay(), x.getHour(), x.getMinute(), x.getSecond()] for x in Solar.fromBaZi(*args)])
    print(json.dumps(out))
